//go:build go1.23

package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	"google.golang.org/protobuf/encoding/prototext"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// query is a subscription: paths of one origin.
type query struct {
	name   string
	origin string
	paths  [][]string // elements, with keys in the syntax of el
}

var queries = []query{
	{"origin", "openconfig", [][]string{{}}},
	{"leaf", "openconfig", [][]string{{"a", "b"}}},
	{"container", "openconfig", [][]string{{"a"}}},
	{"absent", "openconfig", [][]string{{"a", "z"}}},
	{"list", "openconfig", [][]string{{"l[k=1]"}}},
	{"keyed leaf", "openconfig", [][]string{{"l[k=1]", "v"}}},
	{"two keys", "openconfig", [][]string{{"m[x=1/0][y=2]", "v"}}},
	{"wildcard key", "openconfig", [][]string{{"l[k=*]", "v"}}},
	{"wildcard", "openconfig", [][]string{{"*", "b"}}},
	{"two paths", "openconfig", [][]string{{"a", "b"}, {"l[k=2]", "v"}}},
	{"overlapping paths", "openconfig", [][]string{{"a", "b"}, {"a"}, {"a", "b"}}},
	{"other origin", "other", [][]string{{"a", "b"}}},
	{"atomic", "openconfig", [][]string{{"at"}}},
}

// index is the queries as index paths.
func (q query) index(target string) [][]string {
	var out [][]string
	for _, p := range q.paths {
		out = append(out, append([]string{target, q.origin}, strs(path(p...))...))
	}
	return out
}

// flat is a path with its keys as elements.
func flat(p []string) []string { return strs(path(p...)) }

// form is a way to hand a subscription to the CLI.
type form struct {
	name string
	args func(q query, mode, alias int) []string
}

var (
	modes = [][]string{
		{"once", "o", "ONCE"},
		{"polling", "p", "POLLING"},
		{"streaming", "s", "STREAMING"},
	}
	pbModes = []pb.SubscriptionList_Mode{pb.SubscriptionList_ONCE, pb.SubscriptionList_POLL, pb.SubscriptionList_STREAM}
	disps   = [][]string{
		{"group", "g", "GROUP"},
		{"single", "s", "SINGLE"},
		{"proto", "p", "PROTO"},
		{"shortproto", "sp", "SHORTPROTO"},
	}
)

func flagForm(delim, lead, trail string, split bool, short bool) func(q query, mode, alias int) []string {
	return func(q query, mode, alias int) []string {
		var qs []string
		for _, p := range q.paths {
			qs = append(qs, lead+strings.Join(append([]string{q.origin}, p...), delim)+trail)
		}
		args := []string{"-target", "dev1", "-query", strings.Join(qs, ","), "-query_type=" + modes[mode][alias]}
		if short {
			args = []string{"-t=dev1", "-q=" + strings.Join(qs, ","), "-qt", modes[mode][alias]}
		}
		if delim != "/" {
			if short {
				args = append(args, "-d", delim)
			} else {
				args = append(args, "--delimiter", delim)
			}
		}
		return args
	}
}

// request makes the subscription as a message. how says where the origin goes
// and how paths are encoded.
func (q query) request(how string, mode int) *pb.SubscribeRequest {
	return q.requestFor("dev1", how, mode)
}

func (q query) requestFor(target, how string, mode int) *pb.SubscribeRequest {
	sl := &pb.SubscriptionList{Mode: pbModes[mode], Prefix: &pb.Path{Target: target}}
	for _, p := range q.paths {
		var sp *pb.Path
		switch how {
		case "prefix origin":
			sl.Prefix.Origin = q.origin
			sp = path(p...)
		case "path origin":
			sp = path(p...)
			sp.Origin = q.origin
		case "origin element":
			sp = path(append([]string{q.origin}, p...)...)
		case "prefix element":
			sl.Prefix.Elem = el(q.origin)
			sp = path(p...)
		case "deprecated":
			sl.Prefix.Origin = q.origin
			sp = depr(flat(p)...)
		case "deprecated prefix":
			sl.Prefix.Element = []string{q.origin}
			sp = depr(flat(p)...)
		}
		sl.Subscription = append(sl.Subscription, &pb.Subscription{Path: sp})
	}
	return &pb.SubscribeRequest{Request: &pb.SubscribeRequest_Subscribe{Subscribe: sl}}
}

func protoForm(flag, how string) func(q query, mode, alias int) []string {
	return func(q query, mode, alias int) []string {
		b, err := prototext.Marshal(q.request(how, mode))
		if err != nil {
			panic(err)
		}
		if flag == "-proto_file" {
			return []string{flag, vx.File("request", string(b))}
		}
		return []string{flag, string(b)}
	}
}

var forms []form

func init() {
	for _, short := range []bool{false, true} {
		for _, delim := range []string{"/", "|", "é"} {
			for _, ends := range []string{"", "l", "t", "lt"} {
				lead, trail := "", ""
				if strings.Contains(ends, "l") {
					lead = delim
				}
				if strings.Contains(ends, "t") {
					trail = delim
				}
				forms = append(forms, form{fmt.Sprintf("flags %q %q %v", delim, ends, short), flagForm(delim, lead, trail, false, short)})
			}
		}
	}
	for _, flag := range []string{"-proto", "-p", "-proto_file"} {
		for _, how := range []string{"prefix origin", "path origin", "origin element", "prefix element", "deprecated", "deprecated prefix"} {
			forms = append(forms, form{flag + " " + how, protoForm(flag, how)})
		}
	}
}

// fill makes a state with everything the queries ask for.
func (e *env) fill() {
	for _, i := range []int{0, 2, 3, 6, 15} {
		e.send(e.t, "dev1", steps[i].n)
	}
	e.send(e.t, "dev1", note(nil, us(up(path("l[k=2]", "v"), vStr), up(path("c", "b"), vInt))))
	e.t.Send("dev1", vx.Sync())
	e.Settle()
}

func delimOf(args []string) string {
	for i, a := range args {
		if a == "-d" || a == "--delimiter" {
			return args[i+1]
		}
	}
	return "/"
}

// invocations runs every form of a subscription in every mode and display.
func invocations(qi int) func(q *vh.Q) {
	qu := queries[qi]
	return func(q *vh.Q) {
		for _, f := range forms {
			for mode := range modes {
				for di := range disps {
					if q.Expired() {
						return
					}
					if !q.Do(func() string { return fmt.Sprintf("%s, %s, %s, %s", qu.name, f.name, modes[mode][0], disps[di][0]) }, func() error {
						return q.Exec(func(x *vh.X) {
							e := one(x)
							e.fill()
							want := e.want.sub(qu.index("dev1")...)
							for alias := range 3 {
								for _, ts := range []bool{false, true} {
									if ts && di > 1 || alias >= len(disps[di]) {
										continue
									}
									args := append(f.args(qu, mode, alias), "-dt", disps[di][alias])
									if alias == 1 {
										args[len(args)-2] = "-display_type"
									}
									if ts {
										args = append(args, "-ts", "raw")
									}
									e.cliRun(want, cliRun{disp: disps[di][0], delim: delimOf(args), ts: ts}, mode, args)
								}
							}
						})
					}) {
						return
					}
				}
			}
		}
	}
}

// cliRun runs the CLI in any mode on a state that does not change.
func (e *env) cliRun(want state, r cliRun, mode int, args []string) {
	switch {
	case mode == 0:
		e.cliOnce(want, r, args)
	case mode == 1 && !strings.Contains(r.disp, "proto"):
		e.cliOnce(want, r, append(args, "-c", "2", "-pi", "1s"))
	default:
		// The proto displays read a POLL stream to its end.
		c := e.cliStart(append(args, "-sd", "5s"))
		e.Settle()
		e.cliStreamed(want, r, c)
		e.cliStop(c)
	}
}

func (e *env) cliStart(args []string) *vx.CLI {
	return e.CLI(append([]string{"-address", vx.Addr}, args...)...)
}

func (e *env) cliStreamed(want state, r cliRun, c *vx.CLI) {
	if c.Done {
		e.x.Fail("cli-exit", "gnmi_cli %q ended: %q: %q", c.Args, c.Exit, c.Out())
	}
	e.output(want, r, fmt.Sprintf("gnmi_cli %q", c.Args), c.Out(), true)
}

func (e *env) cliStop(c *vx.CLI) {
	vrt.Sleep(int64(6 * time.Second))
	vrt.Quiesce()
	if !c.Done {
		e.x.Fail("cli-exit", "gnmi_cli %q does not end after its duration: %v", c.Args, vrt.Blocked())
	}
}

// decorations are options that change how the state is written, not the state.
var decorations = []struct {
	args []string
	r    cliRun // ts, prefix, size
	disp string // displays it is for
}{
	{[]string{"-ds"}, cliRun{size: true}, "group single proto shortproto"},
	{[]string{"-display_size", "-ts", "raw"}, cliRun{size: true, ts: true}, "group single"},
	{[]string{"-display_prefix", "> "}, cliRun{prefix: "> "}, "group"},
	{[]string{"-display_prefix", "> ", "-display_indent", "\t", "-ts", "on"}, cliRun{prefix: "> ", ts: true}, "group"},
	{[]string{"-display_indent", ""}, cliRun{}, "group single proto shortproto"},
	{[]string{"-timestamp", "on"}, cliRun{ts: true}, "group single"},
	{[]string{"-timestamp", time.RFC3339}, cliRun{ts: true}, "group single"},
	{[]string{"-timestamp", time.RFC3339}, cliRun{}, "proto shortproto"},
	{[]string{"-l"}, cliRun{ts: true}, "single"},
	{[]string{"-latency"}, cliRun{}, "group proto"},
	{[]string{"-client_types", "gnmi", "-timeout", "3s"}, cliRun{}, "group single proto shortproto"},
	{[]string{"-u=false"}, cliRun{}, "group single proto shortproto"},
}

func decorated(q *vh.Q) {
	for _, d := range decorations {
		for mode := range modes {
			for di := range disps {
				for qi, qu := range queries {
					if !slices.Contains(strings.Fields(d.disp), disps[di][0]) {
						continue
					}
					if q.Expired() {
						return
					}
					if !q.Do(func() string { return fmt.Sprintf("%q, %s, %s, %s", d.args, qu.name, modes[mode][0], disps[di][0]) }, func() error {
						return q.Exec(func(x *vh.X) {
							e := one(x)
							e.fill()
							want := e.want.sub(qu.index("dev1")...)
							f := forms[(qi+di)%len(forms)]
							args := append(f.args(qu, mode, 0), "-dt", disps[di][0])
							r := d.r
							r.disp, r.delim = disps[di][0], delimOf(args)
							e.cliRun(want, r, mode, append(args, d.args...))
						})
					}) {
						return
					}
				}
			}
		}
	}
}

// cliStreams runs the CLI in streaming mode during histories.
func cliStreams(depth, disp, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		k := 0
		words(steps, depth, func(h []step) bool {
			k++
			if k%shards != shard {
				return true
			}
			if q.Expired() {
				return false
			}
			for _, late := range []bool{false, true} {
				for _, all := range []bool{true, false} {
					if !q.Do(func() string { return fmt.Sprintf("%s; %s, late %v, all %v", name(h), disps[disp][0], late, all) }, func() error {
						return q.Exec(func(x *vh.X) {
							e := one(x)
							query, sub := "/", []string{"dev1"}
							if !all {
								query, sub = "openconfig/*/b", []string{"dev1", "openconfig", "*", "b"}
							}
							args := []string{"-t", "dev1", "-q", query, "-qt", "s", "-dt", disps[disp][0], "-sd", "5s"}
							ts := late == all && disp < 2
							if ts {
								args = append(args, "-ts", []string{"raw", "on"}[k%2])
							}
							var c *vx.CLI
							if !late {
								c = e.cliStart(args)
								e.Settle()
							}
							e.send(e.t, "dev1", base)
							e.t.Send("dev1", vx.Sync())
							e.Settle()
							if late {
								c = e.cliStart(args)
							}
							for _, s := range h {
								e.Settle()
								e.send(e.t, "dev1", s.n)
							}
							e.Settle()
							e.cliStreamed(e.want.sub(sub), cliRun{disp: disps[disp][0], delim: "/", ts: ts}, c)
							e.cliStop(c)
						})
					}) {
						return false
					}
				}
			}
			return true
		})
	}
}

// cliPolls runs the CLI in polling mode during histories.
func cliPolls(depth, shard, shards int) func(q *vh.Q) {
	return func(q *vh.Q) {
		k := 0
		words(steps, depth, func(h []step) bool {
			k++
			if k%shards != shard {
				return true
			}
			if q.Expired() {
				return false
			}
			return q.Do(func() string { return fmt.Sprintf("%s; polled", name(h)) }, func() error {
				return q.Exec(func(x *vh.X) {
					e := one(x)
					e.send(e.t, "dev1", base)
					e.t.Send("dev1", vx.Sync())
					e.Settle()
					r := cliRun{disp: "group", delim: "/"}
					args := []string{"-t", "dev1", "-q", "/", "-qt", "p", "-pi", "2s", "-c", fmt.Sprint(len(h) + 1)}
					c := e.cliStart(args)
					e.Settle()
					e.output(e.want, r, fmt.Sprintf("gnmi_cli %q", args), c.New(), false)
					for i, s := range h {
						vrt.Sleep(int64(time.Second))
						e.send(e.t, "dev1", s.n)
						e.Settle()
						vrt.Sleep(int64(time.Second))
						vrt.Quiesce()
						e.output(e.want, r, fmt.Sprintf("gnmi_cli %q after change %d", args, i), c.New(), false)
					}
					e.Settle()
					if !c.Done || c.Exit != "" {
						x.Fail("cli-exit", "gnmi_cli %q: ended %v, %q", args, c.Done, c.Exit)
					}
				})
			})
		})
	}
}
