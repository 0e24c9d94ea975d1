package vs

import (
	"context"
	"time"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/subscribe"
	"github.com/openconfig/gnmi/zz_verif/vc"
)

// Act is one scripted cache operation.
type Act func(w *World)

func ASet(t string, ts, v int64, p ...string) Act { return func(w *World) { w.Set(t, ts, v, p...) } }
func ADel(t string, ts int64, p ...string) Act    { return func(w *World) { w.Del(t, ts, p...) } }
func AReset(t string) Act                         { return func(w *World) { w.Reset(t) } }
func ARemove(t string) Act                        { return func(w *World) { w.Remove(t) } }
func AAdd(t string) Act                           { return func(w *World) { w.Add(t) } }
func ASync(t string) Act                          { return func(w *World) { w.Sync(t) } }
func AConnect(t string) Act                       { return func(w *World) { w.Connect(t) } }
func ARefresh() Act                               { return func(w *World) { w.Refresh() } }

// ANotif submits a notification with an origin, several updates and deletes.
func ANotif(t, origin string, pre []string, ts int64, atomic bool, ups [][]string, v int64, dels ...[]string) Act {
	return func(w *World) {
		n := vc.Note(ts, vc.Prefix(t, origin, vc.P(pre...)), nil, nil)
		n.Atomic = atomic
		for i, u := range ups {
			n.Update = append(n.Update, vc.U(vc.P(u...), vc.I(v+int64(i))))
		}
		for _, d := range dels {
			n.Delete = append(n.Delete, vc.P(d...))
		}
		w.Update(n)
	}
}

// ARaw submits notifications built by mk.
func ARaw(mk func() *pb.Notification) Act { return func(w *World) { w.Update(mk()) } }

// AConnErr reports a connection error.
func AConnErr(t string) Act { return func(w *World) { w.ConnectError(t) } }

// ASize refreshes the size metadata.
func ASize() Act { return func(w *World) { w.RefreshSize() } }

type openACL struct{}

func (openACL) NewRPCACL(context.Context) (subscribe.RPCACL, error) { return openACL{}, nil }
func (openACL) Check(string) bool                                   { return true }

type userACL struct{ openACL }

func (userACL) Check(string, string) bool { return true }

// Dressed are server options that must change nothing: statistics, an ACL
// that allows everything, a timeout.
func Dressed() []subscribe.Option {
	return []subscribe.Option{subscribe.WithStats(), subscribe.WithACL(userACL{}), subscribe.WithTimeout(time.Hour)}
}

// NoMeta excludes the metadata that would only add noise.
var NoMeta = []string{"targetLeavesAdded", "targetLeavesDeleted", "targetLeavesEmpty", "targetLeavesUpdated", "targetLeavesStale", "targetLeavesFuture",
	"targetLeavesSuppressed", "targetSize", "connectedAddress", "connectError", "latestTimestamp", "targetLeaves"}

// Once, Poll and Stream build requests.
func Once(target, origin string, paths ...string) *pb.SubscribeRequest {
	return Req(pb.SubscriptionList_ONCE, target, origin, false, paths...)
}
func Poll(target, origin string, paths ...string) *pb.SubscribeRequest {
	return Req(pb.SubscriptionList_POLL, target, origin, false, paths...)
}
func Stream(target, origin string, uo bool, paths ...string) *pb.SubscribeRequest {
	return Req(pb.SubscriptionList_STREAM, target, origin, uo, paths...)
}
