//go:build go1.23

package main

import (
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// ---- target → collector → client and CLI ----

// pipe runs the collector with two targets, t and u. t sends the given
// responses while clients and a CLI watch.
func pipe(msgs []*pb.SubscribeResponse, dt string) func(x *vh.X) {
	return func(x *vh.X) {
		w := vx.New(x)
		tt, tu := w.Target("a:1"), w.Target("b:1")
		w.Collector(&tpb.Configuration{
			Request: map[string]*pb.SubscribeRequest{"r": list(&pb.SubscriptionList{Subscription: []*pb.Subscription{{Path: &pb.Path{}}}})},
			Target: map[string]*tpb.Target{
				"t": {Addresses: []string{"a:1"}, Request: "r"},
				"u": {Addresses: []string{"b:1"}, Request: "r"},
			},
		})
		w.Settle()
		if tt.Sessions("t") == 0 || tu.Sessions("u") == 0 {
			x.Fail("no-session", "the collector did not subscribe: %q", w.CollErr)
		}
		stream := w.Client(client.Query{Target: "*", Type: client.Stream, Queries: []client.Path{{}}})
		poll := w.Client(client.Query{Target: "t", Type: client.Poll, Queries: []client.Path{{"a"}, {"*"}}})
		c := w.CLI("-a", vx.Addr, "-t", "*", "-q", "*", "-qt", "s", "-dt", dt, "-ts", "raw")
		w.Settle()
		tu.Send("u", vx.Upd(vc.Note(5, nil, []*pb.Update{vc.U(elems("a", "b"), vc.I(1))}, nil)), vx.Sync())
		tt.Send("t", vx.Upd(vc.Note(5, nil, []*pb.Update{vc.U(elems("a", "b"), vc.D(1)), vc.U(elems("c"), vc.S("x"))}, nil)))
		w.Settle()
		for _, m := range msgs {
			tt.Send("t", proto.Clone(m).(*pb.SubscribeResponse))
			w.Settle()
		}
		poll.Poll()
		w.Settle()
		vrt.Sleep(int64(90 * time.Second)) // a session that ended is started again; metadata is refreshed
		w.Settle()
		tt.Send("t", vx.Upd(vc.Note(8, nil, []*pb.Update{vc.U(elems("g"), vc.I(1))}, nil)), vx.Sync())
		tu.Send("u", vx.Upd(vc.Note(8, nil, []*pb.Update{vc.U(elems("g"), vc.I(1))}, nil)))
		w.Settle()
		if w.CollErr != "" {
			x.Fail("collector", "the collector ended: %s", w.CollErr)
		}
		// A leaf that t put at the root of its tree keeps out everything else of t.
		for _, t := range []string{"u"} {
			once := w.Client(client.Query{Target: t, Type: client.Once, Queries: []client.Path{{}}})
			w.Settle()
			if !has(once, t) {
				x.Fail("later", "a new client does not find an update of %s sent after the messages (%v)", t, once.Leaves())
			}
		}
		// The watching client goes on unless it refused a message itself.
		if !stream.Done && !has(stream, "u") {
			x.Fail("later", "the watching client does not see an update of the other target sent after the messages (%v)", stream.Leaves())
		}
		_ = c.Exit
	}
}

func has(c *vx.Client, target string) bool {
	for _, l := range c.Leaves() {
		if l.Path[0] == target && l.Path[len(l.Path)-1] == "g" {
			return true
		}
	}
	return false
}

func pipeAll(seqs [][]*pb.SubscribeResponse, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		for i, s := range seqs {
			if i%shards != shard {
				continue
			}
			if q.Expired() {
				return
			}
			dt := []string{"g", "s", "p"}[i/shards%3]
			if !q.Do(func() string { return "collector and CLI -dt " + dt + ": " + respText(s) }, func() error { return q.Exec(pipe(s, dt)) }) {
				return
			}
		}
	}
}

// pipeSeqs are the sequences of at most two of the responses.
func pipeSeqs(one, two []*pb.SubscribeResponse) [][]*pb.SubscribeResponse {
	var out [][]*pb.SubscribeResponse
	for _, a := range one {
		out = append(out, []*pb.SubscribeResponse{a})
	}
	for _, a := range two {
		for _, b := range two {
			out = append(out, []*pb.SubscribeResponse{a, b})
		}
	}
	return out
}
