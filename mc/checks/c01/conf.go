//go:build go1.23

package main

import (
	"errors"
	"fmt"
	"io"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/client"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// tconf is how a target is configured.
type tconf struct {
	kind string // how it is reached
	req  string
}

var (
	kinds    = []string{"own", "shared", "tunnel", "chain", "down"}
	reqNames = []string{"r1", "r2"}
)

func requests() map[string]*pb.SubscribeRequest {
	return map[string]*pb.SubscribeRequest{
		"r1": {Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
			Encoding: pb.Encoding_PROTO, Subscription: []*pb.Subscription{{Path: &pb.Path{}}}}}},
		"r2": {Request: &pb.SubscribeRequest_Subscribe{Subscribe: &pb.SubscriptionList{
			Prefix: &pb.Path{Origin: "openconfig"}, Subscription: []*pb.Subscription{{Path: path("a"), Mode: pb.SubscriptionMode_ON_CHANGE}, {Path: path("l[k=1]")}}}}},
	}
}

func configs(n, shard, shards int) func(q *vh.Q) {
	var alpha []tconf
	for _, k := range kinds {
		for _, r := range reqNames {
			alpha = append(alpha, tconf{k, r})
		}
	}
	return func(q *vh.Q) {
		i := 0
		words(alpha, n, func(cs []tconf) bool {
			i++
			if i%shards != shard {
				return true
			}
			if q.Expired() {
				return false
			}
			return q.Do(func() string { return fmt.Sprint(cs) }, func() error { return q.Exec(configured(cs)) })
		})
	}
}

func configured(cs []tconf) func(x *vh.X) {
	return func(x *vh.X) {
		e := &env{World: vx.New(x), x: x, want: state{}}
		conf := &tpb.Configuration{Request: requests(), Target: map[string]*tpb.Target{}}
		shared := e.Target("shared:1")
		ts := make([]*vx.Target, len(cs))
		names := make([]string, len(cs))
		for i, c := range cs {
			names[i] = fmt.Sprintf("dev%d", i+1)
			t := &tpb.Target{Request: c.req}
			addr := fmt.Sprintf("a%d:1", i+1)
			switch c.kind {
			case "own":
				ts[i] = e.Target(addr)
				t.Addresses = []string{addr}
			case "chain":
				ts[i] = e.Target(addr)
				t.Addresses = []string{addr + ";b:1;c:1"}
			case "shared":
				ts[i] = shared
				t.Addresses = []string{"shared:1"}
			case "tunnel":
				ts[i] = e.Target("tunnel/" + names[i])
				t.Dialer = "tunnel"
				t.Addresses = []string{"unused:1"}
			case "down":
				t.Addresses = []string{"down:1"}
			}
			conf.Target[names[i]] = t
		}
		e.Collector(conf)
		e.Settle()
		var clients []*vx.Client
		for i, c := range cs {
			clients = append(clients, e.stream(names[i], all...))
			if ts[i] == nil {
				continue
			}
			e.session(ts[i], names[i])
			want := proto.Clone(requests()[c.req]).(*pb.SubscribeRequest)
			if want.GetSubscribe().Prefix == nil {
				want.GetSubscribe().Prefix = &pb.Path{}
			}
			want.GetSubscribe().Prefix.Target = names[i]
			if got := ts[i].Request(names[i]); !proto.Equal(got, want) {
				x.Fail("request", "target %s got the request %v, want %v", names[i], got, want)
			}
		}
		star := e.Client(client.Query{Target: "*", Type: client.Stream, Queries: all})
		e.Settle()
		wants := make([]state, len(cs))
		for i := range cs {
			wants[i] = state{}
		}
		// Every target sends other values for the same paths.
		for k, f := range []func(i int) func() *pb.Notification{
			func(i int) func() *pb.Notification {
				return note(nil, us(up(path("a", "b"), vals[i%len(vals)]), up(path("l[k=1]", "v"), vals[(i+1)%3]), up(path("a", "c"), vInt)))
			},
			// a wrong target name in the prefix
			func(i int) func() *pb.Notification {
				return note(&pb.Path{Target: names[(i+1)%len(names)]}, us(up(path("a", "d"), vals[i%len(vals)])))
			},
			func(i int) func() *pb.Notification {
				if i == 0 {
					return note(nil, nil, path("a"))
				}
				return note(nil, us(up(path("a", "b"), vals[(i+1)%3])), path("l"))
			},
		} {
			for i := range cs {
				if ts[i] == nil {
					continue
				}
				n := f(i)()
				e.ts += 10
				n.Timestamp = e.ts
				wants[i].apply(names[i], n)
				ts[i].Send(names[i], vx.Upd(n))
				if k == 0 {
					ts[i].Send(names[i], vx.Sync())
				}
			}
			e.Settle()
			union := state{}
			for i := range cs {
				for k, l := range wants[i] {
					union[k] = l
				}
				e.check(fmt.Sprintf("the STREAM client of %s after change %d", names[i], k), wants[i], clients[i])
				e.check(fmt.Sprintf("a ONCE client of %s after change %d", names[i], k), wants[i], e.once(names[i], all...))
			}
			e.check(fmt.Sprintf("the STREAM client of all targets after change %d", k), union, star)
		}
	}
}

// fullStates are what a target may hold at the start of a session.
var fullStates = [][]func() *pb.Notification{
	{},
	{base},
	{steps[0].n, steps[6].n},
	{base, steps[15].n, steps[3].n},
	{note(nil, us(up(path("a"), vInt)))}, // a leaf where others have a container
}

// reconnects ends the target's stream and has it send another state in the
// next session.
func reconnects(q *vh.Q) {
	ends := []error{nil, io.EOF, status.Error(codes.Unavailable, "gone"), errors.New("other")}
	for i, first := range fullStates {
		for j, second := range fullStates {
			for k, end := range ends {
				for _, again := range []bool{false, true} { // timestamps start again
					for _, part := range []bool{false, true} { // the end comes before the sync
						if q.Expired() {
							return
						}
						if !q.Do(func() string {
							return fmt.Sprintf("state %d, end %v, state %d, clock reset %v, partial %v", i, end, j, again, part)
						}, func() error {
							return q.Exec(func(x *vh.X) {
								e := one(x)
								early := e.stream("dev1", all...)
								for _, f := range first {
									e.send(e.t, "dev1", f)
								}
								if !part {
									e.t.Send("dev1", vx.Sync())
								}
								if k%2 == 0 {
									e.Settle()
									e.check("a STREAM client before the end", e.want, early)
								}
								e.t.End("dev1", end)
								e.Settle()
								mid := e.stream("dev1", all...)
								for i := 0; e.t.Sessions("dev1") < 2; i++ {
									if i == 60 {
										x.Fail("no-session", "the collector does not reconnect: %v", vrt.Blocked())
									}
									vrt.Sleep(int64(time.Second))
									vrt.Quiesce()
								}
								e.want = state{}
								if again {
									e.ts = 0
								}
								for _, f := range second {
									e.send(e.t, "dev1", f)
								}
								e.t.Send("dev1", vx.Sync())
								e.Settle()
								e.check("a STREAM client from before the reconnection", e.want, early)
								e.check("a STREAM client from between the sessions", e.want, mid)
								e.check("a STREAM client from after it", e.want, e.once("dev1", all...))
							})
						}) {
							return
						}
					}
				}
			}
		}
	}
}

// restarts takes the whole target away for a while.
func restarts(q *vh.Q) {
	for i, first := range fullStates {
		for j, second := range fullStates {
			for _, sec := range []int64{0, 1, 10, 100} {
				if q.Expired() {
					return
				}
				if !q.Do(func() string { return fmt.Sprintf("state %d, down for %d s, state %d", i, sec, j) }, func() error {
					return q.Exec(func(x *vh.X) {
						e := one(x)
						early := e.stream("dev1", all...)
						for _, f := range first {
							e.send(e.t, "dev1", f)
						}
						e.t.Send("dev1", vx.Sync())
						e.Settle()
						vgrpc.Unlisten("a:1")
						e.t.End("dev1", status.Error(codes.Unavailable, "down"))
						e.Settle()
						vrt.Sleep(sec * int64(time.Second))
						vrt.Quiesce()
						e.t = e.Target("a:1")
						for i := 0; e.t.Sessions("dev1") < 1; i++ {
							if i == 300 {
								x.Fail("no-session", "the collector does not reconnect: %v", vrt.Blocked())
							}
							vrt.Sleep(int64(time.Second))
							vrt.Quiesce()
						}
						e.want = state{}
						for _, f := range second {
							e.send(e.t, "dev1", f)
						}
						e.t.Send("dev1", vx.Sync())
						e.Settle()
						e.check("a STREAM client", e.want, early)
						e.check("a ONCE client", e.want, e.once("dev1", all...))
					})
				}) {
					return
				}
			}
		}
	}
}

// scheduled is a small history with clients that join at any moment.
func scheduled(h ...int) func(x *vh.X) {
	return func(x *vh.X) {
		vrt.Explore(false)
		e := one(x)
		vrt.Explore(true)
		for i, k := range h {
			e.send(e.t, "dev1", steps[k].n)
			if i == 0 {
				e.t.Send("dev1", vx.Sync())
			}
		}
		c := e.stream("dev1", all...)
		o := e.Client(client.Query{Target: "dev1", Type: client.Once, Queries: all})
		e.Settle()
		vrt.Explore(false)
		e.check("a STREAM client", e.want, c)
		if !o.Done || o.Sub != nil {
			x.Fail("once", "a ONCE client ended with %v (ended: %v)", o.Sub, o.Done)
		}
		e.check("a later ONCE client", e.want, e.once("dev1", all...))
	}
}
