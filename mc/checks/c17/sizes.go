//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vh"
)

// of makes the reference for a valid configuration.
func of(d string, p *tpb.Configuration) *conf {
	c := &conf{desc: d, pb: p, valid: true, set: map[string]string{}}
	for n, t := range p.Target {
		r := p.Request[t.GetRequest()]
		if n == "" || t == nil || len(t.Addresses) == 0 || t.Request == "" || r == nil {
			c.valid = false
			continue
		}
		c.set[n] = entry(t, r)
	}
	return c
}

// sizeScenarios drive one quantity at a time far beyond the exhaustive bounds:
// targets, requests, loads, and the parts of a single target or request, with
// a difference at the beginning, in the middle and at the end.
func sizeScenarios(deep bool) []vh.Scenario {
	max := 260
	if deep {
		max = 2050
	}
	base := func(n, reqs int) *tpb.Configuration {
		c := &tpb.Configuration{Target: map[string]*tpb.Target{}, Request: map[string]*pb.SubscribeRequest{}}
		for i := 0; i < reqs; i++ {
			c.Request[fmt.Sprintf("r%d", i)] = req(fmt.Sprintf("p%d", i))
		}
		for i := 0; i < n; i++ {
			c.Target[fmt.Sprintf("t%d", i)] = tg(fmt.Sprintf("r%d", i%reqs), nil, fmt.Sprintf("a%d", i))
		}
		return c
	}
	// edit returns the configuration with an edit.
	edit := func(c *tpb.Configuration, f func(c *tpb.Configuration)) *tpb.Configuration {
		c = proto.Clone(c).(*tpb.Configuration)
		c.Target, c.Request = nilless(c.Target), nilless(c.Request)
		f(c)
		return c
	}
	at := func(n int) []int { return []int{0, n / 2, n - 1} }
	// there and back: a is loaded, then every variant and a again in turn.
	loads := func(a *tpb.Configuration, vs ...*tpb.Configuration) error {
		ca := of("base", a)
		st := []step{{ca, 1}}
		for i, v := range vs {
			st = append(st, step{of(fmt.Sprintf("variant %d", i), v), int64(2*i + 2)}, step{ca, int64(2*i + 2)}, step{ca, int64(2*i + 3)})
		}
		return play(st)
	}
	var out []vh.Scenario
	add := func(name string, f func(n int) error) {
		out = append(out, vh.Scenario{Name: "sizes: " + name, Seq: func(q *vh.Q) { q.ForSizes(max, name, f) }})
	}
	add("n targets", func(n int) error {
		a := base(n, 1+n/3)
		var vs []*tpb.Configuration
		for _, i := range at(n) {
			t, r := fmt.Sprintf("t%d", i), fmt.Sprintf("r%d", i%(1+n/3))
			vs = append(vs,
				edit(a, func(c *tpb.Configuration) { c.Target[t].Addresses[0] = "other" }),
				edit(a, func(c *tpb.Configuration) { delete(c.Target, t) }),
				edit(a, func(c *tpb.Configuration) { c.Target[t] = nil }),
				edit(a, func(c *tpb.Configuration) { c.Request[r] = req("other") }),
				edit(a, func(c *tpb.Configuration) { c.Target["new"] = c.Target[t]; delete(c.Target, t) }),
				edit(a, func(c *tpb.Configuration) { c.Request["new"] = c.Request[r]; c.Target[t].Request = "new" }),
				edit(a, func(c *tpb.Configuration) { delete(c.Request, r) }))
		}
		return loads(a, append(vs, &tpb.Configuration{},
			edit(a, func(c *tpb.Configuration) {
				for _, t := range c.Target {
					t.Dialer = "other"
				}
			}),
			edit(a, func(c *tpb.Configuration) {
				for _, r := range c.Request {
					r.GetSubscribe().Mode = pb.SubscriptionList_ONCE
				}
			}),
			edit(a, func(c *tpb.Configuration) {
				for i := 0; i < n; i++ {
					c.Target[fmt.Sprintf("u%d", i)] = tg("r0", nil, "x")
					if i%2 == 0 {
						delete(c.Target, fmt.Sprintf("t%d", i))
					}
				}
			}))...)
	})
	add("n targets of one request", func(n int) error {
		a := base(n, 1)
		return loads(a, edit(a, func(c *tpb.Configuration) { c.Request["r0"] = req("other") }),
			edit(a, func(c *tpb.Configuration) { c.Request["r1"] = req("unused") }),
			edit(a, func(c *tpb.Configuration) {
				c.Request["r1"] = req("p0")
				for i := 0; i < n; i += 2 {
					c.Target[fmt.Sprintf("t%d", i)].Request = "r1"
				}
			}))
	})
	add("n loads", func(n int) error {
		a, b := of("a", base(3, 2)), of("b", edit(base(4, 2), func(c *tpb.Configuration) { delete(c.Target, "t1"); c.Request["r0"] = req("other") }))
		bad := of("invalid", edit(base(2, 1), func(c *tpb.Configuration) { c.Target["t0"] = nil }))
		var st []step
		for i := 0; i < n; i++ {
			st = append(st, step{[]*conf{a, b, b, bad, a}[i%5], int64(i + 1)})
			if i%7 == 0 {
				st = append(st, step{b, int64(i)})
			}
		}
		return play(st)
	})
	// A difference in one of n parts of a target.
	add("n parts of a target", func(n int) error {
		a := base(2, 1)
		t := a.Target["t0"]
		t.Meta = map[string]string{}
		for i := 0; i < n; i++ {
			t.Addresses = append(t.Addresses, fmt.Sprintf("x%d", i))
			t.Meta[fmt.Sprintf("k%d", i)] = fmt.Sprintf("v%d", i)
		}
		t.Credentials = &tpb.Credentials{Username: strings.Repeat("u", n), Password: strings.Repeat("p", n), PasswordId: strings.Repeat("i", n)}
		t.Dialer = strings.Repeat("d", n)
		var vs []*tpb.Configuration
		for _, i := range at(n) {
			k := fmt.Sprintf("k%d", i)
			one := func(f func(t *tpb.Target)) { vs = append(vs, edit(a, func(c *tpb.Configuration) { f(c.Target["t0"]) })) }
			one(func(t *tpb.Target) { t.Addresses[i] = "other" })
			one(func(t *tpb.Target) { t.Addresses = append(t.Addresses[:i:i], t.Addresses[i+1:]...) })
			one(func(t *tpb.Target) { t.Addresses[0], t.Addresses[i+1] = t.Addresses[i+1], t.Addresses[0] })
			one(func(t *tpb.Target) { t.Meta[k] = "other" })
			one(func(t *tpb.Target) { delete(t.Meta, k) })
			one(func(t *tpb.Target) { t.Meta["new"] = t.Meta[k]; delete(t.Meta, k) })
			other := func(s *string) { *s = (*s)[:i] + "z" + (*s)[i+1:] }
			one(func(t *tpb.Target) { other(&t.Dialer) })
			one(func(t *tpb.Target) { other(&t.Credentials.Username) })
			one(func(t *tpb.Target) { other(&t.Credentials.Password) })
			one(func(t *tpb.Target) { other(&t.Credentials.PasswordId) })
		}
		vs = append(vs, edit(a, func(c *tpb.Configuration) { c.Target["t0"].Addresses = nil }))
		return loads(a, vs...)
	})
	// A difference in one of n parts of a request.
	add("n parts of a request", func(n int) error {
		a := base(2, 2)
		r := a.Request["r0"].GetSubscribe()
		r.Subscription[0].Path = &pb.Path{}
		key := map[string]string{}
		for i := 0; i < n; i++ {
			key[fmt.Sprintf("k%d", i)] = "v"
		}
		for i := 0; i < n; i++ {
			r.Subscription = append(r.Subscription, &pb.Subscription{Path: req(fmt.Sprintf("s%d", i)).GetSubscribe().Subscription[0].Path})
			r.Subscription[0].Path.Elem = append(r.Subscription[0].Path.Elem, &pb.PathElem{Name: fmt.Sprintf("e%d", i)})
			r.UseModels = append(r.UseModels, &pb.ModelData{Name: fmt.Sprintf("m%d", i)})
		}
		r.Subscription[0].Path.Elem[n-1].Key = key
		var vs []*tpb.Configuration
		for _, i := range at(n) {
			one := func(f func(r *pb.SubscriptionList)) {
				vs = append(vs, edit(a, func(c *tpb.Configuration) { f(c.Request["r0"].GetSubscribe()) }))
			}
			one(func(r *pb.SubscriptionList) { r.Subscription[i+1].SampleInterval = 7 })
			one(func(r *pb.SubscriptionList) { r.Subscription = append(r.Subscription[:i+1:i+1], r.Subscription[i+2:]...) })
			one(func(r *pb.SubscriptionList) {
				r.Subscription[0], r.Subscription[i+1] = r.Subscription[i+1], r.Subscription[0]
			})
			one(func(r *pb.SubscriptionList) { r.Subscription[0].Path.Elem[i].Name = "other" })
			one(func(r *pb.SubscriptionList) { r.Subscription[0].Path.Elem[n-1].Key[fmt.Sprintf("k%d", i)] = "w" })
			one(func(r *pb.SubscriptionList) { delete(r.Subscription[0].Path.Elem[n-1].Key, fmt.Sprintf("k%d", i)) })
			one(func(r *pb.SubscriptionList) { r.UseModels[i].Version = "2" })
		}
		return loads(a, vs...)
	})
	// Names of n characters that differ in one.
	add("names of n characters", func(n int) error {
		a := &tpb.Configuration{Target: map[string]*tpb.Target{}, Request: map[string]*pb.SubscribeRequest{}}
		var vs []*tpb.Configuration
		long := func(p string, i int) string {
			s := []byte(strings.Repeat(p, n))
			s[i] = 'z'
			return string(s)
		}
		for _, i := range at(n) {
			a.Request[long("r", i)] = req(fmt.Sprintf("p%d", i))
			a.Target[long("t", i)] = tg(long("r", i), nil, "a")
		}
		for _, i := range at(n) {
			vs = append(vs, edit(a, func(c *tpb.Configuration) { delete(c.Target, long("t", i)) }),
				edit(a, func(c *tpb.Configuration) { c.Target[long("t", i)].Request = long("r", n-1) }),
				edit(a, func(c *tpb.Configuration) { c.Request[long("r", i)] = req("other") }))
		}
		return loads(a, vs...)
	})
	return out
}
