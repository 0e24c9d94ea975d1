From f72d2cf02cf260698d94388e7bc7526e0b0afc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 01/25] fix: ctree: deletes remove only what a query for the
 same path reports

Deleting from an empty tree reported a removal (and passed a nil value to the
condition), and a glob running past a leaf removed the leaf although a query
for the same path does not match it.
---
 ctree/tree.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 7a09669..875d7e5 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -351,6 +351,10 @@ func (t *Tree) WalkDeleted(path []string, condition func(interface{}) bool, f fu
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		// An empty Tree has nothing to remove.
+		return
+	}
 	if delBr, _ := t.internalDelete(path, condition, f, false); delBr {
 		t.leafBranch = nil
 	}
@@ -387,6 +391,10 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			}
 			return len(t.leafBranch.(branch)) == 0, allLeaves
 		default:
+			if len(subpath) > 0 {
+				// The subpath continues past this leaf, as for Query it does not match.
+				return false, nil
+			}
 			if condition(t.leafBranch) {
 				// The second parameter is an empty path that will be filled as recursion
 				// unwinds for this leaf that will be deleted in its parent.
@@ -436,6 +444,10 @@ func (t *Tree) DeleteConditional(subpath []string, condition func(interface{}) b
 	// to the entire Tree.
 	defer t.mu.Unlock()
 	t.mu.Lock()
+	if t.leafBranch == nil {
+		// An empty Tree has nothing to remove.
+		return nil
+	}
 	delBr, leaves := t.internalDelete(subpath, condition, func(interface{}) {}, true)
 	if delBr {
 		t.leafBranch = nil
-- 
2.43.0


From 8d2f6cf5ecfb1dca2d715aa448c34ad0b9b06267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 02/25] fix: ctree: lock nodes visited by a delete

A delete read (and pruned) nodes holding only the root lock, racing with
updates and reads through handles retained from an earlier lookup or query.
---
 ctree/tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctree/tree.go b/ctree/tree.go
index 875d7e5..dfa963a 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -378,7 +378,11 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 			// progeny leaves.
 			var allLeaves [][]string
 			for k, v := range b {
+				// The root write lock excludes all users of the Tree but not holders of
+				// a Leaf (or subtree) retrieved earlier.
+				v.mu.Lock()
 				del, leaves := v.internalDelete(subpath, condition, f, retDeletedPaths)
+				v.mu.Unlock()
 				if retDeletedPaths {
 					leaf := []string{k}
 					for _, l := range leaves {
@@ -410,7 +414,9 @@ func (t *Tree) internalDelete(subpath []string, condition func(interface{}) bool
 	if b, ok := t.leafBranch.(branch); ok {
 		// Continue to recurse on subpath while it matches nodes in the Tree.
 		if br := b[subpath[0]]; br != nil {
+			br.mu.Lock()
 			delBr, allLeaves := br.internalDelete(subpath[1:], condition, f, retDeletedPaths)
+			br.mu.Unlock()
 			if retDeletedPaths {
 				leaf := []string{subpath[0]}
 				// Prepend branch node name to all progeny leaves of branch.
-- 
2.43.0


From 89af2f1b476d5acae4897ccafc1dcb8fd41da89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 03/25] fix: cache: record the latest timestamp for every
 accepted update

Updates with a path in the deprecated encoding or wholly in the prefix,
atomic updates and later updates of one notification were not recorded,
so the future check and latestTimestamp metadata ignored them.
---
 cache/cache.go | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 0b974f1..bb24bd4 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -384,17 +384,6 @@ func (c *Cache) GnmiUpdate(n *pb.Notification) error {
 // each individual Update/Delete is sent to cache as
 // a separate gnmi.Notification.
 func (t *Target) GnmiUpdate(n *pb.Notification) error {
-	updateTS := false
-	if u := n.GetUpdate(); len(u) > 0 {
-		if p := u[0].GetPath().GetElem(); len(p) > 0 && p[0].GetName() != metadata.Root {
-			// Record latest timestamp from the device, excluding all 'meta' paths.
-			defer func(ts int64) {
-				if updateTS {
-					t.checkTimestamp(T(ts))
-				}
-			}(n.GetTimestamp())
-		}
-	}
 	switch {
 	// Store atomic notifications as a single leaf in the tree.
 	case n.Atomic:
@@ -410,7 +399,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, int64(l))
 			t.client(nd)
@@ -435,8 +423,7 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 				errs.Add(err)
 				continue
 			}
-			updateTS = true
-			if nd != nil {
+				if nd != nil {
 				t.meta.AddInt(metadata.UpdateCount, 1)
 				t.client(nd)
 			}
@@ -459,7 +446,6 @@ func (t *Target) GnmiUpdate(n *pb.Notification) error {
 		if err != nil {
 			return err
 		}
-		updateTS = true
 		if nd != nil {
 			t.meta.AddInt(metadata.UpdateCount, 1)
 			t.client(nd)
@@ -490,6 +476,13 @@ func (t *Target) checkTimestamp(ts time.Time) {
 	}
 }
 
+// latestTimestamp returns the latest timestamp accepted for the target.
+func (t *Target) latestTimestamp() time.Time {
+	defer t.tsmu.Unlock()
+	t.tsmu.Lock()
+	return t.ts
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -554,13 +547,13 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 				return nil, ErrStale
 			}
 		case t.futureThreshold > 0 && nts.Sub(Now()) > t.futureThreshold:
-			if t.ts.UnixNano() <= 0 {
+			if latest := t.latestTimestamp(); latest.UnixNano() <= 0 {
 				// This is the first accepted update as t.ts is uninitialized (assuming
 				// the first accepted timestamp is > 0 (1970-01-01 00:00:00 UTC).
 				log.Warningf("Accepting the first update with a timestamp in the future %s", prototext.Format(n))
-			} else if nts.Sub(t.ts) <= t.futureThreshold {
+			} else if nts.Sub(latest) <= t.futureThreshold {
 				if log.V(1) {
-					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", t.ts, prototext.Format(n))
+					log.Warningf("Accepting non-first update with a timestamp in the future but not exceeding the threshold comparing with latestTimestamp (%v): %s", latest, prototext.Format(n))
 				}
 			} else {
 				t.meta.AddInt(metadata.FutureCount, 1)
@@ -568,6 +561,10 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			}
 		}
 		oldval.Update(n)
+		if realData {
+			// Record latest timestamp from the device, excluding all 'meta' paths.
+			t.checkTimestamp(T(n.GetTimestamp()))
+		}
 		// Simulate event-driven for all non-atomic updates.
 		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
@@ -585,6 +582,8 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		return nil, err
 	}
 	if realData {
+		// Record latest timestamp from the device, excluding all 'meta' paths.
+		t.checkTimestamp(T(n.GetTimestamp()))
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
@@ -671,10 +670,7 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
-	t.tsmu.Lock()
-	latest := t.ts
-	t.tsmu.Unlock()
-	t.meta.SetInt(metadata.LatestTimestamp, latest.UnixNano())
+	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
 	t.generateMetaUpdates(clients)
-- 
2.43.0


From 9cca237e22d7aea5a9cbc9095e162fc47f01d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 04/25] fix: value: Equal accepts absent values on either side

---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index fd1149c..d1a9d9d 100644
--- a/value/value.go
+++ b/value/value.go
@@ -196,7 +196,7 @@ func Equal(a, b *pb.TypedValue) bool {
 		}
 		return string(av.BytesVal) == string(bv.BytesVal)
 	case *pb.TypedValue_DoubleVal:
-		bv, ok := b.Value.(*pb.TypedValue_DoubleVal)
+		bv, ok := b.GetValue().(*pb.TypedValue_DoubleVal)
 		if !ok {
 			return false
 		}
@@ -212,13 +212,13 @@ func Equal(a, b *pb.TypedValue) bool {
 		if !ok {
 			return false
 		}
-		return av.DecimalVal.Digits == bv.DecimalVal.Digits && av.DecimalVal.Precision == bv.DecimalVal.Precision
+		return av.DecimalVal.GetDigits() == bv.DecimalVal.GetDigits() && av.DecimalVal.GetPrecision() == bv.DecimalVal.GetPrecision()
 	case *pb.TypedValue_LeaflistVal:
 		bv, ok := b.GetValue().(*pb.TypedValue_LeaflistVal)
 		if !ok {
 			return false
 		}
-		ae, be := av.LeaflistVal.Element, bv.LeaflistVal.Element
+		ae, be := av.LeaflistVal.GetElement(), bv.LeaflistVal.GetElement()
 		if len(ae) != len(be) {
 			return false
 		}
-- 
2.43.0


From 8e1a7b88dec07857d1cb0292677be690bb473eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 05/25] fix: cache: announce deletes and replaced atomic leaves
 truthfully

Delete notifications appended to the element slice of a prefix that may
be shared between notifications, and dropped elements in the deprecated
encoding when the other part of the path had PathElems. A plain update
replacing an atomic leaf was suppressed when its value equalled the first
value of the group.
---
 cache/cache.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index bb24bd4..a7d3fdc 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -565,8 +565,8 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			// Record latest timestamp from the device, excluding all 'meta' paths.
 			t.checkTimestamp(T(n.GetTimestamp()))
 		}
-		// Simulate event-driven for all non-atomic updates.
-		if !n.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
+		// Simulate event-driven for all non-atomic updates of non-atomic leaves.
+		if !n.Atomic && !old.Atomic && value.Equal(old.Update[0].Val, n.Update[0].Val) && t.eventDriven {
 			t.meta.AddInt(metadata.SuppressedCount, 1)
 			return nil, nil
 		}
@@ -613,13 +613,29 @@ func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification
 	case n.GetAtomic():
 		d.Delete = []*pb.Path{{Elem: prefix.GetElem(), Element: prefix.GetElement()}}
 	case len(prefix.GetElem()) > 0 || len(path.GetElem()) > 0:
-		d.Delete = []*pb.Path{{Elem: append(prefix.GetElem(), path.GetElem()...)}}
+		d.Delete = []*pb.Path{{Elem: append(copyElems(prefix), copyElems(path)...)}}
 	default:
-		d.Delete = []*pb.Path{{Element: append(prefix.GetElement(), path.GetElement()...)}}
+		e := make([]string, 0, len(prefix.GetElement())+len(path.GetElement()))
+		e = append(e, prefix.GetElement()...)
+		d.Delete = []*pb.Path{{Element: append(e, path.GetElement()...)}}
 	}
 	return d
 }
 
+// copyElems returns a copy of the elements of p, converting those given in the
+// deprecated field. The copy doesn't share its array with p, which may be part
+// of several notifications.
+func copyElems(p *pb.Path) []*pb.PathElem {
+	if e := p.GetElem(); len(e) > 0 {
+		return append([]*pb.PathElem(nil), e...)
+	}
+	var e []*pb.PathElem
+	for _, name := range p.GetElement() {
+		e = append(e, &pb.PathElem{Name: name})
+	}
+	return e
+}
+
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
 	if path[0] == metadata.Root {
-- 
2.43.0


From 06a0666cf01b282c1d2fd10cabb68b44f68f895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 06/25] fix: cache: reject or survive odd metadata and root
 paths

An update or delete of the root path, of the metadata root, an update of
a metadata leaf without a value, and a metadata refresh after the target
wrote a value of another type to a metadata leaf panicked.
---
 cache/cache.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index a7d3fdc..1183c7b 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -497,26 +497,32 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		suffix = nil
 	}
 	path := joinPrefixAndPath(n.Prefix, suffix)
+	if len(path) == 0 {
+		return nil, errors.New("update has an empty path")
+	}
 	if path[0] == metadata.Root {
+		if len(path) == 1 {
+			return nil, fmt.Errorf("update replaces the metadata root %q", metadata.Root)
+		}
 		realData = false
 		u := n.Update[0]
 		switch path[1] {
 		case metadata.Sync:
 			var ok bool
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
 			t.sync = tv.BoolVal
 			t.meta.SetBool(metadata.Sync, t.sync)
 		case metadata.Connected:
-			tv, ok := u.Val.Value.(*pb.TypedValue_BoolVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Connected), u.Val, u.Val)
 			}
 			t.meta.SetBool(metadata.Connected, tv.BoolVal)
 		case metadata.ConnectedAddr, metadata.ConnectError:
-			tv, ok := u.Val.Value.(*pb.TypedValue_StringVal)
+			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_StringVal)
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected string", metadata.Path(path[1]), u.Val, u.Val)
 			}
@@ -638,7 +644,7 @@ func copyElems(p *pb.Path) []*pb.PathElem {
 
 func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 	path := joinPrefixAndPath(n.Prefix, n.Delete[0])
-	if path[0] == metadata.Root {
+	if len(path) > 1 && path[0] == metadata.Root {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
@@ -692,6 +698,13 @@ func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
 	t.generateMetaUpdates(clients)
 }
 
+// sameValue reports whether the stored metadata leaf value prev holds the value
+// of noti. The stored one may come from the target and hold anything.
+func sameValue(prev interface{}, noti *pb.Notification) bool {
+	p, ok := prev.(*pb.Notification)
+	return ok && value.Equal(p.Update[0].GetVal(), noti.Update[0].GetVal())
+}
+
 func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 	for value := range metadata.TargetBoolValues {
 		if t.excludedMeta.Contains(value) {
@@ -702,9 +715,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_BoolVal).BoolVal != v {
-			noti := metaNotiBool(t.name, value, v)
+		noti := metaNotiBool(t.name, value, v)
+		if !sameValue(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -722,9 +734,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_IntVal).IntVal != v {
-			noti := metaNotiInt(t.name, value, v)
+		noti := metaNotiInt(t.name, value, v)
+		if !sameValue(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
@@ -742,9 +753,8 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 			continue
 		}
 		path := metadata.Path(value)
-		prev := t.t.GetLeafValue(path)
-		if prev == nil || prev.(*pb.Notification).Update[0].Val.Value.(*pb.TypedValue_StringVal).StringVal != v {
-			noti := metaNotiStr(t.name, value, v)
+		noti := metaNotiStr(t.name, value, v)
+		if !sameValue(t.t.GetLeafValue(path), noti) {
 			if n, _ := t.gnmiUpdate(noti); n != nil {
 				if clients != nil {
 					clients(n)
-- 
2.43.0


From 9455679c386e5fadfb11f98a8e10cd4c9404971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 07/25] fix: cache: deleting metadata leaves doesn't change the
 leaf counts

---
 cache/cache.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 1183c7b..6ded4c6 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -601,6 +601,16 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 	return t.t.GetLeaf(path), nil
 }
 
+// isMeta reports whether n is stored as a metadata leaf.
+func isMeta(n *pb.Notification) bool {
+	var suffix *pb.Path
+	if !n.GetAtomic() {
+		suffix = n.Update[0].GetPath()
+	}
+	path := joinPrefixAndPath(n.GetPrefix(), suffix)
+	return len(path) > 0 && path[0] == metadata.Root
+}
+
 func toDeleteNotification(n *pb.Notification, timestamp int64) *pb.Notification {
 	d := &pb.Notification{
 		Timestamp: timestamp,
@@ -648,15 +658,19 @@ func (t *Target) gnmiRemove(n *pb.Notification) []*ctree.Leaf {
 		t.meta.ResetEntry(path[1])
 	}
 	var leaves []*ctree.Leaf
+	var deleted int64
 	f := func(v interface{}) {
 		d := v.(*pb.Notification)
+		// Metadata leaves are not part of the leaf counts.
+		if !isMeta(d) {
+			deleted++
+		}
 		leaves = append(leaves, ctree.DetachedLeaf(toDeleteNotification(d, n.GetTimestamp())))
 	}
 	t.t.WalkDeleted(path, func(v interface{}) bool { return v.(*pb.Notification).GetTimestamp() < n.GetTimestamp() }, f)
 	if len(leaves) == 0 {
 		return nil
 	}
-	deleted := int64(len(leaves))
 	t.meta.AddInt(metadata.LeafCount, -deleted)
 	t.meta.AddInt(metadata.DelCount, deleted)
 	return leaves
-- 
2.43.0


From c52748bfe6eb48ef81b2a5857b192b1aa44bccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:12 +0000
Subject: [PATCH 08/25] fix: cache: don't share an unsynchronised sync flag

The update stream read Target.sync while the metadata refresh wrote it; use
the synchronised metadata value instead.
---
 cache/cache.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 6ded4c6..c153ca2 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -60,7 +60,6 @@ type Target struct {
 	name            string             // name of the target
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
-	sync            bool               // denotes whether this cache is in sync with target
 	meta            *metadata.Metadata // metadata associated with target
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
@@ -483,6 +482,12 @@ func (t *Target) latestTimestamp() time.Time {
 	return t.ts
 }
 
+// synced reports whether the cache is in sync with the target.
+func (t *Target) synced() bool {
+	v, err := t.meta.GetBool(metadata.Sync)
+	return err == nil && v
+}
+
 func (t *Target) resetTimestamp() {
 	defer t.tsmu.Unlock()
 	t.tsmu.Lock()
@@ -513,8 +518,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			if !ok {
 				return nil, fmt.Errorf("%v : has value %v of type %T, expected boolean", metadata.Path(metadata.Sync), u.Val, u.Val)
 			}
-			t.sync = tv.BoolVal
-			t.meta.SetBool(metadata.Sync, t.sync)
+			t.meta.SetBool(metadata.Sync, tv.BoolVal)
 		case metadata.Connected:
 			tv, ok := u.GetVal().GetValue().(*pb.TypedValue_BoolVal)
 			if !ok {
@@ -577,7 +581,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 			return nil, nil
 		}
 		// Compute latency for updated leaves.
-		if t.sync && realData {
+		if realData && t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
@@ -593,7 +597,7 @@ func (t *Target) gnmiUpdate(n *pb.Notification) (*ctree.Leaf, error) {
 		t.meta.AddInt(metadata.LeafCount, 1)
 		t.meta.AddInt(metadata.AddCount, 1)
 		// Compute latency for new leaves.
-		if t.sync {
+		if t.synced() {
 			// Record latency for post-sync target updates.  Exclude metadata updates.
 			t.lat.Compute(T(n.GetTimestamp()))
 		}
-- 
2.43.0


From 2e1018b4aacd3390e775f881f0db9645e254a9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:19 +0000
Subject: [PATCH 09/25] fix: cache: serialize lifecycle events with metadata
 refreshes

A refresh running while a target was reset, synced or connected wrote the
metadata it had read before back over the new one, e.g. a target appeared
connected after its reset, and its own write could be counted as stale.
---
 cache/cache.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index c153ca2..d57bc58 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -61,6 +61,7 @@ type Target struct {
 	t               *ctree.Tree        // actual cache of target data
 	client          func(*ctree.Leaf)  // Function to pass all cache updates to.
 	meta            *metadata.Metadata // metadata associated with target
+	metaMu          sync.Mutex         // serializes lifecycle events with refreshes of the metadata leaves
 	lat             *latency.Latency   // latency measurements
 	tsmu            sync.Mutex         // protects latest timestamp
 	ts              time.Time          // latest timestamp for an update
@@ -224,6 +225,8 @@ func (c *Cache) ConnectError(name string, err error) {
 
 // connectError updates the ConnectError in the cached metadata.
 func (t *Target) connectError(err error) {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
 	if err := t.GnmiUpdate(metaNotiStr(t.name, metadata.ConnectError, err.Error())); err != nil {
 		log.Errorf("target %q got error during meta connect error update, %v", t.name, err)
 	}
@@ -335,6 +338,8 @@ func (c *Cache) Sync(name string) {
 // Sync creates an internal gnmi.Notification with metadata/sync path
 // to set the state to true for the specified target.
 func (t *Target) Sync() {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
 	if err := t.GnmiUpdate(metaNotiBool(t.name, metadata.Sync, true)); err != nil {
 		log.Errorf("target %q got error during meta sync update, %v", t.name, err)
 	}
@@ -351,6 +356,8 @@ func (c *Cache) Connect(name string) {
 // Connect creates an internal gnmi.Notification for metadata/connected path
 // to set the state to true for the specified target, and clear connectErr.
 func (t *Target) Connect() {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
 	if err := t.GnmiUpdate(metaNotiBool(t.name, metadata.Connected, true)); err != nil {
 		log.Errorf("target %q got error during meta connected update, %v", t.name, err)
 	}
@@ -692,6 +699,8 @@ func (c *Cache) updateCache(fn func(*Target, func(*ctree.Leaf))) {
 // updateSize walks the entire tree of the target, sums up marshaled sizes of
 // all leaves and writes the sum in metadata.
 func (t *Target) updateSize(func(*ctree.Leaf)) {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
 	var s int64
 	size := func(n interface{}) int64 {
 		buf, err := json.Marshal(n)
@@ -710,6 +719,13 @@ func (t *Target) updateSize(func(*ctree.Leaf)) {
 
 // updateMeta updates the metadata values in the cache.
 func (t *Target) updateMeta(clients func(*ctree.Leaf)) {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
+	t.refreshMeta(clients)
+}
+
+// refreshMeta is updateMeta with t.metaMu held.
+func (t *Target) refreshMeta(clients func(*ctree.Leaf)) {
 	t.meta.SetInt(metadata.LatestTimestamp, t.latestTimestamp().UnixNano())
 	t.lat.UpdateReset(t.meta)
 
@@ -785,11 +801,7 @@ func (t *Target) generateMetaUpdates(clients func(*ctree.Leaf)) {
 // Reset clears the Target of stale data upon a reconnection and notifies
 // cache client of the removal.
 func (t *Target) Reset() {
-	// Clear latest timestamp received from device.
-	t.resetTimestamp()
-	// Reset metadata to zero values (e.g. connected = false) and notify clients.
-	t.meta.Clear()
-	t.updateMeta(t.client)
+	t.resetMeta()
 	for root := range t.t.Children() {
 		if root == metadata.Root {
 			continue
@@ -799,6 +811,17 @@ func (t *Target) Reset() {
 	}
 }
 
+// resetMeta returns the metadata to its initial values and notifies clients.
+func (t *Target) resetMeta() {
+	defer t.metaMu.Unlock()
+	t.metaMu.Lock()
+	// Clear latest timestamp received from device.
+	t.resetTimestamp()
+	// Reset metadata to zero values (e.g. connected = false) and notify clients.
+	t.meta.Clear()
+	t.refreshMeta(t.client)
+}
+
 func joinPrefixAndPath(pr, ph *pb.Path) []string {
 	// <target> and <origin> are only valid as prefix gnmi.Path
 	// https://github.com/openconfig/reference/blob/master/rpc/gnmi-specification.md#222-paths
-- 
2.43.0


From de595eff84f99675fcd96468df71f58379dde69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:05 +0000
Subject: [PATCH 10/25] fix: subscribe: offer a notification to a client only
 once

A notification with a single update or delete was offered once per matching
path of the client, inflating its duplicate count.
---
 subscribe/subscribe.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2be7a29..2c1acee 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -167,10 +167,9 @@ func NewServer(c *cache.Cache, opts ...Option) (*Server, error) {
 // v should be n itself or the container of n (e.g. a ctree.Leaf) depending
 // on the caller.
 func UpdateNotification(m *match.Match, v interface{}, n *pb.Notification, prefix []string) {
-	var updated map[match.Client]struct{}
-	if len(n.Update)+len(n.Delete) > 1 {
-		updated = make(map[match.Client]struct{})
-	}
+	// A client may match several of the paths in n, or have several queries
+	// matching the same path, but must only be updated once.
+	updated := make(map[match.Client]struct{})
 	for _, u := range n.Update {
 		m.UpdateOnce(v, append(prefix, path.ToStrings(u.Path, false)...), updated)
 	}
-- 
2.43.0


From 3d06ec782c62fbecbdd59715978f100aa8420f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 11/25] fix: subscribe: remove every query of an ended
 subscription

The queries of one subscription shared a backing array, so all but the last
stayed registered (or were never found) when the subscription ended.
---
 subscribe/subscribe.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 2c1acee..b9fdd78 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -227,9 +227,10 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 		if p == nil {
 			continue
 		}
-		query := prefix
+		// The query is retained until it is removed, so each needs its own array.
+		query := append([]string(nil), prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-			query = append(prefix, origin)
+			query = append(query, origin)
 		}
 		query = append(query, path.ToStrings(p, false)...)
 		removes = append(removes, m.AddQuery(query, c))
-- 
2.43.0


From f4be385afc1496693269128cb122bace83655fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:43 +0000
Subject: [PATCH 12/25] fix: subscribe: stream updates for subscriptions
 without a path

The initial walk takes an unset path for the root, streaming ignored it.
---
 subscribe/subscribe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index b9fdd78..81b31c2 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -223,10 +223,8 @@ func addSubscription(m *match.Match, s *pb.SubscriptionList, c *matchClient) (re
 	var removes []func()
 	prefix := path.ToStrings(s.Prefix, true)
 	for _, sub := range s.Subscription {
+		// A subscription without a path is for the root, as in the initial walk.
 		p := sub.GetPath()
-		if p == nil {
-			continue
-		}
 		// The query is retained until it is removed, so each needs its own array.
 		query := append([]string(nil), prefix...)
 		if origin := p.GetOrigin(); s.Prefix.GetOrigin() == "" && origin != "" {
-- 
2.43.0


From 407ffa937f4cc81b7937b14385227c06270b07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 13/25] fix: subscribe: time out a blocked send of the sync
 response

The send timer was only armed for data, so a subscriber that stalled before
the sync response was kept forever.
---
 subscribe/subscribe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 81b31c2..7632e15 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -513,7 +513,10 @@ func (s *Server) sendStreamingResults(c *streamClient) {
 
 		// s.processSubscription will send a sync marker, handle it separately.
 		if _, ok := item.(syncMarker); ok {
-			if err = c.stream.Send(subscribeSync); err != nil {
+			t.Reset(s.o.timeout)
+			err = c.stream.Send(subscribeSync)
+			t.Stop()
+			if err != nil {
 				c.errC <- err
 				return
 			}
-- 
2.43.0


From a2bf5c7e10a7ea3c541338bffc9b42bcd1be9dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 14/25] fix: subscribe: end a subscription whose target is
 removed before it is registered

---
 subscribe/subscribe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subscribe/subscribe.go b/subscribe/subscribe.go
index 7632e15..a82d36a 100644
--- a/subscribe/subscribe.go
+++ b/subscribe/subscribe.go
@@ -309,6 +309,11 @@ func (s *Server) Subscribe(stream pb.GNMI_SubscribeServer) error {
 		remove := addSubscription(s.m, c.sr.GetSubscribe(),
 			&matchClient{acl: c.acl, q: c.queue})
 		defer remove()
+		// A removal of the target before the registration above was not announced
+		// to this client.
+		if !s.c.HasTarget(c.target) {
+			return status.Errorf(codes.NotFound, "target %q was removed", c.target)
+		}
 		if !c.sr.GetSubscribe().GetUpdatesOnly() {
 			go s.processSubscription(&c)
 		}
-- 
2.43.0


From ce7e8832a61e4a9ff30812570075b884fe684afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 15/25] fix: client: let Close end a Subscribe that is still
 connecting

---
 client/client.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/client/client.go b/client/client.go
index 007bc68..435e7d0 100644
--- a/client/client.go
+++ b/client/client.go
@@ -118,6 +118,11 @@ func (c *BaseClient) Subscribe(ctx context.Context, q Query, clientType ...strin
 		clientType = RegisteredImpls()
 	}
 
+	// Close ends this Subscribe from here on, also while it is connecting.
+	c.mu.Lock()
+	c.closed = false
+	c.mu.Unlock()
+
 	// TODO: concurrent subscribes can be removed after we enforce reflection
 	// at client Impl level.
 	fn := func(ctx context.Context, typ string, input interface{}) (Impl, error) {
@@ -143,8 +148,12 @@ func (c *BaseClient) Subscribe(ctx context.Context, q Query, clientType ...strin
 		c.clientImpl.Close()
 	}
 	c.clientImpl = impl
-	c.closed = false
+	closed := c.closed
 	c.mu.Unlock()
+	if closed {
+		impl.Close()
+		return nil
+	}
 
 	return c.run(impl)
 }
@@ -168,10 +177,10 @@ func (c *BaseClient) Poll() error {
 func (c *BaseClient) Close() error {
 	c.mu.Lock()
 	defer c.mu.Unlock()
+	c.closed = true
 	if c.clientImpl == nil {
 		return ErrClientInit
 	}
-	c.closed = true
 	return c.clientImpl.Close()
 }
 
-- 
2.43.0


From 1001e8df87be7f00e48f1a80f0e0e47f083dc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:51 +0000
Subject: [PATCH 16/25] fix: target: keep a copy of the loaded configuration

---
 target/target.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/target/target.go b/target/target.go
index 08fa875..caacf71 100644
--- a/target/target.go
+++ b/target/target.go
@@ -70,7 +70,7 @@ func NewConfigWithBase(h Handler, config *pb.Configuration) (*Config, error) {
 		}
 	}
 	return &Config{
-		configuration: config,
+		configuration: proto.Clone(config).(*pb.Configuration),
 		h:             h,
 	}, nil
 }
@@ -100,7 +100,8 @@ func (c *Config) Load(config *pb.Configuration) error {
 	}
 	// Diff before setting new state.
 	c.handleDiffs(config)
-	c.configuration = config
+	// Keep a copy, the caller may go on using config.
+	c.configuration = proto.Clone(config).(*pb.Configuration)
 
 	return nil
 }
-- 
2.43.0


From 9e3618be48ba6f748990da1485a9be1b67f09c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 17/25] fix: client/gnmi: keep the last element of a query if
 it ends in a slash

---
 client/gnmi/client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/gnmi/client.go b/client/gnmi/client.go
index 7bfe3b2..77a342e 100644
--- a/client/gnmi/client.go
+++ b/client/gnmi/client.go
@@ -265,7 +265,13 @@ func subscribe(q client.Query) (*gpb.SubscribeRequest, error) {
 		s.Subscribe.UpdatesOnly = true
 	}
 	for _, qq := range q.Queries {
-		pp, err := ygot.StringToPath(pathToString(qq), ygot.StructuredPath, ygot.StringSlicePath)
+		ps := pathToString(qq)
+		if strings.HasSuffix(ps, `\/`) {
+			// StringToPath drops the last element of a path that ends in a
+			// slash, escaped or not.
+			ps += "/"
+		}
+		pp, err := ygot.StringToPath(ps, ygot.StructuredPath, ygot.StringSlicePath)
 		if err != nil {
 			return nil, fmt.Errorf("invalid query path %q: %v", qq, err)
 		}
-- 
2.43.0


From 6b2f3520ba71b3ca8b44790958d6718169db66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 18/25] fix: value: ToScalar accepts absent values

---
 value/value.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/value/value.go b/value/value.go
index d1a9d9d..4042086 100644
--- a/value/value.go
+++ b/value/value.go
@@ -121,7 +121,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		for x, e := range elems {
 			v, err := ToScalar(e)
 			if err != nil {
-				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.Value, err)
+				return nil, fmt.Errorf("ToScalar for ScalarArray %+v: %v", e.GetValue(), err)
 			}
 			ss[x] = v
 		}
@@ -149,7 +149,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 		}
 		return uVal, nil
 	default:
-		return nil, fmt.Errorf("non-scalar type %+v", tv.Value)
+		return nil, fmt.Errorf("non-scalar type %+v", tv.GetValue())
 	}
 	return i, nil
 }
@@ -157,7 +157,7 @@ func ToScalar(tv *pb.TypedValue) (interface{}, error) {
 // decimalToFloat converts a *gnmi_proto.Decimal64 to a float32. Downcasting to
 // float32 is performed as the precision of a float64 is not required.
 func decimalToFloat(d *pb.Decimal64) float32 {
-	return float32(float64(d.Digits) / math.Pow(10, float64(d.Precision)))
+	return float32(float64(d.GetDigits()) / math.Pow(10, float64(d.GetPrecision())))
 }
 
 // Equal returns true if the values in a and b are the same.  This method
-- 
2.43.0


From 27331292f7be380f2ee90ecb7d7c32353fd38889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 19/25] fix: gnmi_collector: add the configured targets to the
 cache

---
 cmd/gnmi_collector/gnmi_collector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 5ce0d99..8b01a3c 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -264,7 +264,10 @@ func (c *collector) add(ctx context.Context, id string, t *tpb.Target, tt *tunne
 		t.Addresses = []string{id}
 	}
 
+	// The cache accepts updates and subscriptions only for targets it knows.
+	c.cache.Add(id)
 	if err := c.tm.Add(id, t, request); err != nil {
+		c.cache.Remove(id)
 		return fmt.Errorf("Could not add target %q: %v", id, err)
 	}
 	return nil
-- 
2.43.0


From d568789196b2f212a5ebe71f5caa9a637dec8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 20/25] fix: gnmi_collector: set the client of the cache before
 targets feed it

---
 cmd/gnmi_collector/gnmi_collector.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 8b01a3c..474727c 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -211,9 +211,6 @@ func runCollector(ctx context.Context) error {
 
 	tunnelpb.RegisterTunnelServer(srv, c.tServer)
 
-	// Initialize collectors.
-	c.start(context.Background())
-
 	// Initialize the Collector server.
 	cpb.RegisterCollectorServer(srv, coll.New(c.tm.Reconnect))
 	// Initialize gNMI Proxy Subscribe server.
@@ -221,6 +218,10 @@ func runCollector(ctx context.Context) error {
 	gnmipb.RegisterGNMIServer(srv, subscribeSrv)
 	// Forward streaming updates to clients.
 	c.cache.SetClient(subscribeSrv.Update)
+
+	// Initialize collectors.
+	c.start(context.Background())
+
 	// Register listening port and start serving.
 	lis, err := net.Listen("tcp", fmt.Sprintf(":%d", *port))
 	if err != nil {
-- 
2.43.0


From e7e79a20dc36fe772d4eca887543bd1b3d1461ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 21/25] fix: gnmi_cli: use the contents of -proto_file for
 Subscribe

---
 cmd/gnmi_cli/gnmi_cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gnmi_cli/gnmi_cli.go b/cmd/gnmi_cli/gnmi_cli.go
index c20044e..8c33b3c 100644
--- a/cmd/gnmi_cli/gnmi_cli.go
+++ b/cmd/gnmi_cli/gnmi_cli.go
@@ -293,7 +293,7 @@ func executeSubscribe(ctx context.Context) error {
 	}
 	if s != "" {
 		// Convert SubscribeRequest to a client.Query
-		tq, err := cli.ParseSubscribeProto(*reqProto)
+		tq, err := cli.ParseSubscribeProto(s)
 		if err != nil {
 			log.Exitf("failed to parse gNMI SubscribeRequest text proto: %v", err)
 		}
-- 
2.43.0


From 9e6d69ef63a5389c1b5132bd6f6c6320eeeb84c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 22/25] fix: gnmi_collector: keep the origin given in the paths
 of a notification

---
 cmd/gnmi_collector/gnmi_collector.go | 64 +++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 10 deletions(-)

diff --git a/cmd/gnmi_collector/gnmi_collector.go b/cmd/gnmi_collector/gnmi_collector.go
index 474727c..1a8f743 100644
--- a/cmd/gnmi_collector/gnmi_collector.go
+++ b/cmd/gnmi_collector/gnmi_collector.go
@@ -35,6 +35,7 @@ import (
 	"github.com/openconfig/grpctunnel/dialer"
 	"github.com/openconfig/grpctunnel/tunnel"
 	"google.golang.org/protobuf/encoding/prototext"
+	"google.golang.org/protobuf/proto"
 	"github.com/openconfig/gnmi/cache"
 	coll "github.com/openconfig/gnmi/collector"
 	"github.com/openconfig/gnmi/connection"
@@ -187,17 +188,19 @@ func runCollector(ctx context.Context) error {
 			// the target itself doesn't report or incorrectly reports the target
 			// field. Also promote an empty origin field to 'openconfig', the default
 			// origin for gNMI.
-			if prefix := v.GetPrefix(); prefix == nil {
-				v.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
-			} else {
-				if prefix.Origin == "" {
-					prefix.Origin = "openconfig"
+			for _, n := range splitOrigins(v) {
+				if prefix := n.GetPrefix(); prefix == nil {
+					n.Prefix = &gnmipb.Path{Origin: "openconfig", Target: target}
+				} else {
+					if prefix.Origin == "" {
+						prefix.Origin = "openconfig"
+					}
+					prefix.Target = target
 				}
-				prefix.Target = target
-			}
-			if err := c.cache.GnmiUpdate(v); err != nil {
-				if log.V(2) {
-					log.Infof("dropped cache.Update(%#v): %v", v, err)
+				if err := c.cache.GnmiUpdate(n); err != nil {
+					if log.V(2) {
+						log.Infof("dropped cache.Update(%#v): %v", n, err)
+					}
 				}
 			}
 		},
@@ -234,6 +237,47 @@ func runCollector(ctx context.Context) error {
 	return ctx.Err()
 }
 
+// splitOrigins returns n with the origin its paths have moved to the prefix,
+// where the cache looks for it. If the paths have several origins, there is a
+// notification for each of them.
+func splitOrigins(n *gnmipb.Notification) []*gnmipb.Notification {
+	inPath := false
+	for _, u := range n.GetUpdate() {
+		inPath = inPath || u.GetPath().GetOrigin() != ""
+	}
+	for _, d := range n.GetDelete() {
+		inPath = inPath || d.GetOrigin() != ""
+	}
+	if !inPath || n.GetPrefix().GetOrigin() != "" {
+		return []*gnmipb.Notification{n}
+	}
+	var split []*gnmipb.Notification
+	forOrigin := func(p *gnmipb.Path) *gnmipb.Notification {
+		for _, m := range split {
+			if m.Prefix.Origin == p.GetOrigin() {
+				return m
+			}
+		}
+		m := proto.Clone(n).(*gnmipb.Notification)
+		m.Update, m.Delete = nil, nil
+		if m.Prefix == nil {
+			m.Prefix = &gnmipb.Path{}
+		}
+		m.Prefix.Origin = p.GetOrigin()
+		split = append(split, m)
+		return m
+	}
+	for _, u := range n.GetUpdate() {
+		m := forOrigin(u.GetPath())
+		m.Update = append(m.Update, u)
+	}
+	for _, d := range n.GetDelete() {
+		m := forOrigin(d)
+		m.Delete = append(m.Delete, d)
+	}
+	return split
+}
+
 // Struct for managing the dynamic creation of tunnel targets.
 type tunnTarget struct {
 	conf *tpb.Target
-- 
2.43.0


From 468a24d4af0c7e5db1e0fbe0fb59a876c4e753a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:44 +0000
Subject: [PATCH 23/25] fix: client: drop leaves that a poll no longer reports

---
 client/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/cache.go b/client/cache.go
index cd2efbd..8ed15d7 100644
--- a/client/cache.go
+++ b/client/cache.go
@@ -90,6 +90,10 @@ func (c *CacheClient) Poll() error {
 		close(c.synced)
 	case <-c.synced:
 	}
+	// The response is the complete state: what it does not hold is gone.
+	if c.query.Type == Poll {
+		c.Delete(nil)
+	}
 	return c.BaseClient.Poll()
 }
 
-- 
2.43.0


From cd809db9fb611e916db492d537919603b492603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:39 +0000
Subject: [PATCH 24/25] fix: cli: show values and deletes of the root instead
 of panicking

---
 cli/cli.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cli.go b/cli/cli.go
index 2a305dd..52814e1 100644
--- a/cli/cli.go
+++ b/cli/cli.go
@@ -404,6 +404,10 @@ func (m pathmap) str(prefix, indent, curindent string) string {
 }
 
 func (m pathmap) add(path []string, v interface{}) {
+	if len(path) == 0 {
+		// A value or delete of the root.
+		path = []string{""}
+	}
 	if len(path) == 1 {
 		m[path[0]] = v
 		return
-- 
2.43.0


From 40052c18fc623738888795da8e3f237a3b3ac2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 25/25] fix: ctree: give each reported query path its own
 backing array

Query appends the names of sibling branches to one prefix slice, so that
they share an array once it has spare capacity: a path that the callback
keeps is overwritten by that of the next sibling. Walk copies already.
---
 ctree/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctree/tree.go b/ctree/tree.go
index dfa963a..b577902 100644
--- a/ctree/tree.go
+++ b/ctree/tree.go
@@ -242,7 +242,7 @@ func (t *Tree) enumerateChildren(prefix, path []string, f VisitFunc) error {
 		switch b := t.leafBranch.(type) {
 		case branch:
 			for k, br := range b {
-				if err := br.queryInternal(append(prefix, k), nil, f); err != nil {
+				if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), nil, f); err != nil {
 					return err
 				}
 			}
@@ -254,7 +254,7 @@ func (t *Tree) enumerateChildren(prefix, path []string, f VisitFunc) error {
 	}
 	if b, ok := t.leafBranch.(branch); ok {
 		for k, br := range b {
-			if err := br.queryInternal(append(prefix, k), path[1:], f); err != nil {
+			if err := br.queryInternal(append(prefix[:len(prefix):len(prefix)], k), path[1:], f); err != nil {
 				return err
 			}
 		}
-- 
2.43.0

