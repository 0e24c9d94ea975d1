//go:build go1.23

package main

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"
	"google.golang.org/protobuf/encoding/prototext"

	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vx"
)

// This part runs the built programs over loopback, so that what the in-process
// composition leaves out (the real transport, TLS, the real main packages) is
// bound to it: the same histories must give the same views.

// realTarget is a scripted target on a real server.
type realTarget struct {
	pb.UnimplementedGNMIServer
	mu   sync.Mutex
	cond *sync.Cond
	out  map[string][]*pb.SubscribeResponse
	up   map[string]int
}

func (t *realTarget) Subscribe(stream pb.GNMI_SubscribeServer) error {
	req, err := stream.Recv()
	if err != nil {
		return err
	}
	name := req.GetSubscribe().GetPrefix().GetTarget()
	t.mu.Lock()
	t.up[name]++
	sent := 0
	t.mu.Unlock()
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		select {
		case <-stream.Context().Done():
		case <-stop:
		}
		t.cond.Broadcast()
	}()
	for {
		t.mu.Lock()
		for sent == len(t.out[name]) && stream.Context().Err() == nil {
			t.cond.Wait()
		}
		if stream.Context().Err() != nil {
			t.mu.Unlock()
			return stream.Context().Err()
		}
		m := t.out[name][sent]
		sent++
		t.mu.Unlock()
		if err := stream.Send(m); err != nil {
			return err
		}
	}
}

func (t *realTarget) send(name string, r *pb.SubscribeResponse) {
	t.mu.Lock()
	t.out[name] = append(t.out[name], r)
	t.mu.Unlock()
	t.cond.Broadcast()
}

func bin(name string) string {
	exe, _ := os.Executable()
	return filepath.Join(filepath.Dir(exe), "bin", name)
}

func freePort() (string, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	defer l.Close()
	_, p, err := net.SplitHostPort(l.Addr().String())
	return p, err
}

func start(cmd *exec.Cmd) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd.Start()
}

// buffer is a concurrent output.
type buffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.String()
}

// judge compares an output of the CLI with the wanted state.
func judge(want state, disp, out string, merged bool) string {
	switch disp {
	case "group":
		trees, err := parseGroup(out, false)
		if err != nil {
			return err.Error()
		}
		if len(trees) == 0 {
			return "no output"
		}
		if merged {
			return want.groupView(false).diff(mergeGroup(trees, false))
		}
		return want.groupView(false).diff(trees[len(trees)-1])
	case "single":
		return want.singleView("/").diff(mergeSingle(out, "/", false))
	}
	rs, err := parseProtos(out, disp == "shortproto")
	if err != nil {
		return err.Error()
	}
	return want.protoView().diff(protoView(rs))
}

const patience = 25 * time.Second

func real(h []step) func(q *vh.Q) {
	return func(q *vh.Q) {
		q.Do(func() string { return "the built programs over loopback: " + name(h) }, func() error {
			var err error
			for range 2 {
				var skip string
				if skip, err = runReal(q, h); skip != "" {
					q.Note("conformance skipped: "+skip, 1)
					return nil
				}
				if err == nil {
					q.Note("conformance runs of the built programs", 1)
					return nil
				}
			}
			return err
		})
	}
}

func runReal(q *vh.Q, h []step) (skip string, err error) {
	cert, err := tls.LoadX509KeyPair(vx.Cert(), vx.Cert())
	if err != nil {
		return "", err
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "no loopback network", nil
	}
	t := &realTarget{out: map[string][]*pb.SubscribeResponse{}, up: map[string]int{}}
	t.cond = sync.NewCond(&t.mu)
	srv := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&cert)))
	pb.RegisterGNMIServer(srv, t)
	go srv.Serve(lis)
	defer srv.Stop()

	txt, err := prototext.Marshal(&tpb.Configuration{
		Request: requests(),
		Target: map[string]*tpb.Target{
			"dev1": {Addresses: []string{lis.Addr().String()}, Request: "r1"},
			"dev2": {Addresses: []string{lis.Addr().String()}, Request: "r2"},
		},
	})
	if err != nil {
		return "", err
	}
	port, err := freePort()
	if err != nil {
		return "no free port", nil
	}
	log := &buffer{}
	coll := exec.Command(bin("gnmi_collector"), "-config_file", vx.File("real", string(txt)), "-cert_file", vx.Cert(), "-key_file", vx.Cert(), "-port", port, "-logtostderr")
	coll.Stderr = log
	if err := start(coll); err != nil {
		return "", err
	}
	defer func() { coll.Process.Kill(); coll.Wait() }()

	wait := func(what string, f func() string) error {
		end := time.Now().Add(patience)
		for {
			d := f()
			if d == "" {
				return nil
			}
			q.Trans(1) // alive
			if time.Now().After(end) {
				l := log.String()
				if len(l) > 1500 {
					l = l[len(l)-1500:]
				}
				return vh.Errf("real", "%s: %s\ncollector log: %s", what, d, l)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	if err := wait("the collector's subscriptions", func() string {
		if strings.Contains(log.String(), "address already in use") {
			skip = "port taken"
			return ""
		}
		t.mu.Lock()
		defer t.mu.Unlock()
		if t.up["dev1"] == 0 || t.up["dev2"] == 0 {
			return fmt.Sprint("not both targets are subscribed to: ", t.up)
		}
		return ""
	}); err != nil || skip != "" {
		return skip, err
	}

	common := []string{"-a", "127.0.0.1:" + port, "-tls_skip_verify"}
	cliOut := func(args ...string) string {
		c := exec.Command(bin("gnmi_cli"), append(append([]string(nil), common...), args...)...)
		var out bytes.Buffer
		c.Stdout = &out
		if err := start(c); err != nil {
			return err.Error()
		}
		k := time.AfterFunc(patience, func() { c.Process.Kill() })
		defer k.Stop()
		if err := c.Wait(); err != nil {
			return fmt.Sprintf("%v: %s", err, out.String())
		}
		return out.String()
	}

	// A streaming CLI from before the history.
	streams := map[string]*buffer{}
	for _, disp := range []string{"group", "single", "shortproto"} {
		b := &buffer{}
		streams[disp] = b
		c := exec.Command(bin("gnmi_cli"), append(append([]string(nil), common...), "-t", "dev1", "-q", "/", "-qt", "s", "-dt", disp)...)
		c.Stdout = b
		if err := start(c); err != nil {
			return "", err
		}
		defer func() { c.Process.Kill(); c.Wait() }()
	}

	wants := map[string]state{"dev1": {}, "dev2": {}}
	ts := int64(0)
	send := func(name string, f func() *pb.Notification) {
		n := f()
		ts += 10
		n.Timestamp = ts
		wants[name].apply(name, n)
		t.send(name, vx.Upd(n))
	}
	send("dev1", base)
	for _, i := range []int{2, 3, 6, 15} {
		send("dev2", steps[i].n)
	}
	t.send("dev1", vx.Sync())
	t.send("dev2", vx.Sync())
	for _, s := range h {
		send("dev1", s.n)
	}

	for disp, b := range streams {
		if err := wait("gnmi_cli -qt s -dt "+disp, func() string { return judge(wants["dev1"], disp, b.String(), true) }); err != nil {
			return "", err
		}
	}
	for _, dev := range []string{"dev1", "dev2"} {
		for _, disp := range []string{"group", "single", "proto", "shortproto"} {
			if err := wait(fmt.Sprintf("gnmi_cli -t %s -qt o -dt %s", dev, disp), func() string {
				return judge(wants[dev], disp, cliOut("-t", dev, "-q", "/", "-qt", "o", "-dt", disp), false)
			}); err != nil {
				return "", err
			}
		}
	}
	if err := wait("gnmi_cli polling", func() string {
		return judge(wants["dev2"], "group", cliOut("-t", "dev2", "-q", "openconfig,other", "-qt", "p", "-pi", "100ms", "-c", "2"), false)
	}); err != nil {
		return "", err
	}
	for _, qu := range queries {
		qu.name = ""
		for _, how := range []string{"prefix origin", "path origin"} {
			b, _ := prototext.Marshal(qu.requestFor("dev2", how, 0))
			want := wants["dev2"].sub(qu.index("dev2")...)
			for _, args := range [][]string{{"-proto", string(b)}, {"-proto_file", vx.File("realreq", string(b))}} {
				if err := wait(fmt.Sprintf("gnmi_cli %q", args), func() string {
					return judge(want, "group", cliOut(args...), false)
				}); err != nil {
					return "", err
				}
			}
		}
	}
	return "", nil
}
