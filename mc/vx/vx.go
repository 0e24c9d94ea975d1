// Package vx runs the real collector and CLI main programs, scripted targets
// and clients of the client library in one process, over an in-memory
// transport under the controlled scheduler.
package vx

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/cache"
	"github.com/openconfig/gnmi/client"
	gclient "github.com/openconfig/gnmi/client/gnmi"
	"github.com/openconfig/gnmi/latency"
	pb "github.com/openconfig/gnmi/proto/gnmi"
	tpb "github.com/openconfig/gnmi/proto/target"
	cliflag "github.com/openconfig/gnmi/zz_verif/vflag/gnmi_cli"
	collflag "github.com/openconfig/gnmi/zz_verif/vflag/gnmi_collector"
	"github.com/openconfig/gnmi/zz_verif/vc"
	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vgrpc"
	"github.com/openconfig/gnmi/zz_verif/vh"
	"github.com/openconfig/gnmi/zz_verif/vos"
	"github.com/openconfig/gnmi/zz_verif/vrt"
	xcli "github.com/openconfig/gnmi/zz_verif/x/gnmi_cli"
	xcoll "github.com/openconfig/gnmi/zz_verif/x/gnmi_collector"
)

// Addr is where the collector serves.
const (
	Port = "9339"
	Addr = ":" + Port
)

var (
	dir     string
	outFile *os.File
	stdout  = os.Stdout
)

// Dir returns a scratch directory holding cert.pem and key.pem.
func Dir() string {
	if dir != "" {
		return dir
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d := filepath.Join(filepath.Dir(exe), "tmp")
	os.MkdirAll(d, 0o755)
	if _, err := os.Stat(filepath.Join(d, "cert.pem")); err != nil {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotAfter: time.Now().Add(24 * 365 * 50 * time.Hour), DNSNames: []string{"localhost"}}
		c, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			panic(err)
		}
		kb, err := x509.MarshalECPrivateKey(k)
		if err != nil {
			panic(err)
		}
		// Both parts go into one file, so that it is replaced at once.
		b := append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})...)
		tmp := filepath.Join(d, fmt.Sprintf("cert.%d", os.Getpid()))
		if err := os.WriteFile(tmp, b, 0o600); err != nil {
			panic(err)
		}
		os.Rename(tmp, filepath.Join(d, "cert.pem"))
	}
	dir = d
	return d
}

// Cert is the certificate and key file.
func Cert() string { return filepath.Join(Dir(), "cert.pem") }

// File writes a scratch file of this process.
func File(name, content string) string {
	p := filepath.Join(Dir(), fmt.Sprintf("%d.%s", os.Getpid(), name))
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic(err)
	}
	return p
}

// World is one composition.
type World struct {
	X       *vh.X
	Targets map[string]*Target
	// CollErr is what the collector's main ended with.
	CollErr string
	tick    int64
}

// New starts a world. Virtual clocks of cache and latency advance with every
// reading.
func New(x *vh.X) *World {
	vgrpc.ResetMem()
	w := &World{X: x, Targets: map[string]*Target{}}
	now := func() time.Time { vrt.Touch(); w.tick++; return time.Unix(0, vc.Base+w.tick) }
	cache.Now = now
	latency.Now = func() time.Time { return time.Unix(0, vc.Base) }
	return w
}

// Settle lets everything run until nothing can, and a little time pass.
func (w *World) Settle() {
	vrt.Quiesce()
	vrt.Sleep(1)
	vrt.Quiesce()
}

// Target is a scripted gNMI target.
type Target struct {
	pb.UnimplementedGNMIServer
	Addr string
	sess     []*session // the current one of each name
	// OnSession, if set, runs at the start of every session.
	OnSession func(name string, n int)
}

type session struct {
	name string
	n    int
	req  *pb.SubscribeRequest
	out  []*pb.SubscribeResponse
	sent int
	end  bool
	err  error
}

// Target starts a target at addr.
func (w *World) Target(addr string) *Target {
	t := &Target{Addr: addr}
	w.Targets[addr] = t
	s := vgrpc.NewServer()
	pb.RegisterGNMIServer(s, t)
	vgrpc.Listen(addr, s)
	return t
}

// Subscribe streams what Send is given.
func (t *Target) Subscribe(stream pb.GNMI_SubscribeServer) error {
	req, err := stream.Recv()
	if err != nil {
		return err
	}
	vrt.Touch()
	s := &session{name: req.GetSubscribe().GetPrefix().GetTarget(), n: 1, req: req}
	if old := t.find(s.name); old != nil {
		s.n = old.n + 1
		for i := range t.sess {
			if t.sess[i] == old {
				t.sess[i] = s
			}
		}
	} else {
		t.sess = append(t.sess, s)
	}
	if t.OnSession != nil {
		t.OnSession(s.name, s.n)
	}
	ended := false
	vcontext.AfterFunc(stream.Context(), func() { vrt.Touch(); ended = true })
	for {
		vrt.Await("script of "+t.Addr, func() bool { return ended || s.end || s.sent < len(s.out) })
		if ended {
			return status.FromContextError(stream.Context().Err()).Err()
		}
		if s.sent < len(s.out) {
			m := s.out[s.sent]
			s.sent++
			if err := stream.Send(m); err != nil {
				return err
			}
			continue
		}
		return s.err
	}
}

func (t *Target) find(name string) *session {
	for _, s := range t.sess {
		if s.name == name {
			return s
		}
	}
	return nil
}

// Send queues responses for the current session asked for as name.
func (t *Target) Send(name string, rs ...*pb.SubscribeResponse) {
	vrt.Touch()
	s := t.find(name)
	if s == nil {
		panic("no session for " + name + " at " + t.Addr)
	}
	s.out = append(s.out, rs...)
}

// Request is the request of the current session of name.
func (t *Target) Request(name string) *pb.SubscribeRequest {
	if s := t.find(name); s != nil {
		return s.req
	}
	return nil
}

// Sessions is the number of sessions so far asked for as name.
func (t *Target) Sessions(name string) int {
	if s := t.find(name); s != nil {
		return s.n
	}
	return 0
}

// End ends the current session of name.
func (t *Target) End(name string, err error) {
	vrt.Touch()
	s := t.find(name)
	s.end, s.err = true, err
}

// Upd and Sync make responses.
func Upd(n *pb.Notification) *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_Update{Update: n}}
}

func Sync() *pb.SubscribeResponse {
	return &pb.SubscribeResponse{Response: &pb.SubscribeResponse_SyncResponse{SyncResponse: true}}
}

// Collector starts the collector main program on conf.
func (w *World) Collector(conf *tpb.Configuration, args ...string) {
	txt, err := prototext.Marshal(conf)
	if err != nil {
		panic(err)
	}
	xcoll.ZZReset()
	collflag.Argv = append([]string{"-config_file", File("config", string(txt)), "-cert_file", Cert(), "-key_file", Cert(), "-port", Port}, args...)
	vrt.GoN("collector", func() {
		defer func() {
			if r := recover(); r != nil {
				w.CollErr = exit(r)
			}
		}()
		xcoll.Main()
		w.CollErr = "returned"
	})
}

func exit(r any) string {
	switch v := r.(type) {
	case vos.ExitCode:
		return fmt.Sprintf("exit %d", int(v))
	case string:
		if strings.HasPrefix(v, "glog.Exit: ") || strings.HasPrefix(v, "flag: ") {
			return v
		}
	}
	panic(r)
}

// CLI is a run of the CLI main program.
type CLI struct {
	Args []string
	Done bool
	Exit string // "" for a normal end
	off  int64
	out  []byte
}

// CLI starts the CLI main program. Only one can run at a time.
func (w *World) CLI(args ...string) *CLI {
	if outFile == nil {
		f, err := os.OpenFile(filepath.Join(Dir(), fmt.Sprintf("%d.stdout", os.Getpid())), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
		if err != nil {
			panic(err)
		}
		outFile = f
	}
	outFile.Truncate(0)
	outFile.Seek(0, io.SeekStart)
	c := &CLI{Args: args}
	xcli.ZZReset()
	cliflag.Argv = args
	vos.Stdout, os.Stdout = outFile, outFile
	vrt.GoN("cli", func() {
		defer func() {
			vrt.Touch()
			c.Done = true
			os.Stdout = stdout
			if r := recover(); r != nil {
				c.Exit = exit(r)
			}
		}()
		xcli.Main()
	})
	return c
}

// Out returns the output so far.
func (c *CLI) Out() string {
	b := make([]byte, 1<<20)
	n, err := outFile.ReadAt(b, 0)
	if err != nil && err != io.EOF {
		panic(err)
	}
	return string(b[:n])
}

// New returns the output since the last call.
func (c *CLI) New() string {
	s := c.Out()[c.off:]
	c.off += int64(len(s))
	return s
}

// Client is a caching client of the collector.
type Client struct {
	*client.CacheClient
	Sub  error
	Done bool
	Got  []client.Notification
}

// Client subscribes to addr. A nil handler records notifications.
func (w *World) Client(q client.Query) *Client {
	c := &Client{CacheClient: client.New()}
	if q.NotificationHandler == nil && q.ProtoHandler == nil {
		q.NotificationHandler = func(n client.Notification) error { c.Got = append(c.Got, n); return nil }
	}
	if q.Addrs == nil {
		q.Addrs = []string{Addr}
	}
	vrt.GoN("client", func() {
		c.Sub = c.CacheClient.Subscribe(vcontext.Background(), q, gclient.Type)
		vrt.Touch()
		c.Done = true
	})
	return c
}

// Unimplemented RPCs of a target, for the CLI.
func (t *Target) Capabilities(context.Context, *pb.CapabilityRequest) (*pb.CapabilityResponse, error) {
	return nil, status.Error(codes.Unimplemented, "no")
}

// Wire sends m over the wire.
func Wire[M proto.Message](m M) M {
	b, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	o := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return o.(M)
}
