package vgrpc

import (
	"context"
	"fmt"
	"io"
	"net"
	"strings"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/peer"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"

	"github.com/openconfig/gnmi/zz_verif/vcontext"
	"github.com/openconfig/gnmi/zz_verif/vrt"
)

// This file is an in-memory transport between clients and servers of
// instrumented code, under the controlled scheduler. Messages are marshalled
// and unmarshalled on the way.

// Server stands for *grpc.Server.
type Server struct {
	services map[string]*service
	stop     chan struct{}
	stopped  bool
	cancels  []func()
	// Closed, if set, makes the server refuse streams.
	Down bool
}

type service struct {
	desc *grpc.ServiceDesc
	impl any
}

func NewServer(opts ...grpc.ServerOption) *Server {
	return &Server{services: map[string]*service{}, stop: make(chan struct{})}
}

func (s *Server) RegisterService(desc *grpc.ServiceDesc, impl any) {
	s.services[desc.ServiceName] = &service{desc, impl}
}

func (s *Server) GetServiceInfo() map[string]grpc.ServiceInfo { return nil }

var (
	servers map[string]*Server
	changed chan struct{}
	connID  int
)

// ResetMem forgets all servers and makes MemDial the dialer. To be called at
// the start of every execution.
func ResetMem() {
	servers = map[string]*Server{}
	changed = make(chan struct{})
	connID = 0
	OnDial = MemDial
}

// Listen makes s reachable at addr.
func Listen(addr string, s *Server) {
	servers[addr] = s
	c := changed
	changed = make(chan struct{})
	vrt.Close(c)
}

// Unlisten makes addr unreachable.
func Unlisten(addr string) { delete(servers, addr) }

func (s *Server) Serve(lis net.Listener) error {
	vrt.Yield()
	if s.stopped {
		return grpc.ErrServerStopped
	}
	addr := lis.Addr().String()
	Listen(addr, s)
	vrt.Recv(s.stop)
	return nil
}

func (s *Server) Stop() {
	if s.stopped {
		return
	}
	s.stopped = true
	for a, x := range servers {
		if x == s {
			delete(servers, a)
		}
	}
	vrt.Close(s.stop)
	for _, c := range s.cancels {
		c()
	}
	s.cancels = nil
}

func (s *Server) GracefulStop() { s.Stop() }

// MemDial connects to a server at target, waiting for one.
func MemDial(ctx context.Context, target string, opts []grpc.DialOption) (*ClientConn, error) {
	for {
		vrt.Yield()
		if servers[target] != nil {
			break
		}
		done, ch := vrt.CaseRecv(ctx.Done()), vrt.CaseRecv(changed)
		if vrt.Select(false, done, ch) == 0 {
			return nil, ctx.Err()
		}
	}
	connID++
	cc := &ClientConn{Addr: target, ID: connID}
	m := &memConn{cc: cc}
	cc.State = m
	cc.OnNewStream = func(ctx context.Context, c *ClientConn) (grpc.ClientStream, error) {
		return nil, status.Error(codes.Internal, "no method")
	}
	cc.OnMethod = m.newStream
	cc.OnInvoke = m.invoke
	cc.OnClose = func(*ClientConn) error {
		if m.closed {
			return ErrClosing
		}
		m.closed = true
		for _, c := range m.cancels {
			c()
		}
		m.cancels = nil
		return nil
	}
	cc.OnState = func(*ClientConn) connectivity.State {
		if m.closed {
			return connectivity.Shutdown
		}
		return connectivity.Ready
	}
	return cc, nil
}

type memConn struct {
	cc      *ClientConn
	closed  bool
	cancels []func()
}

func split(method string) (string, string) {
	p := strings.Split(strings.TrimPrefix(method, "/"), "/")
	if len(p) != 2 {
		return "", ""
	}
	return p[0], p[1]
}

func (m *memConn) server() (*Server, error) {
	if m.closed {
		return nil, status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	s := servers[m.cc.Addr]
	if s == nil || s.Down {
		return nil, status.Error(codes.Unavailable, "connection refused")
	}
	return s, nil
}

func (m *memConn) invoke(ctx context.Context, method string, args, reply any) error {
	s, err := m.server()
	if err != nil {
		return err
	}
	sn, mn := split(method)
	sv := s.services[sn]
	if sv == nil {
		return status.Errorf(codes.Unimplemented, "unknown service %s", sn)
	}
	for _, d := range sv.desc.Methods {
		if d.MethodName == mn {
			b, err := proto.Marshal(args.(proto.Message))
			if err != nil {
				return status.Errorf(codes.Internal, "marshal: %v", err)
			}
			out, err := d.Handler(sv.impl, ctx, func(in any) error { return proto.Unmarshal(b, in.(proto.Message)) }, nil)
			if err != nil {
				return status.Convert(err).Err()
			}
			if b, err = proto.Marshal(out.(proto.Message)); err != nil {
				return status.Errorf(codes.Internal, "marshal: %v", err)
			}
			return proto.Unmarshal(b, reply.(proto.Message))
		}
	}
	return status.Errorf(codes.Unimplemented, "unknown method %s", method)
}

const window = 64

type pipe struct {
	c2s, s2c chan []byte
	cctx     context.Context // ends with the call
	sctx     context.Context
	cancel   context.CancelFunc
	half     bool
	err      error
	m        *memConn
}

func (m *memConn) newStream(ctx context.Context, desc *grpc.StreamDesc, method string) (grpc.ClientStream, error) {
	vrt.Yield()
	if ctx.Err() != nil {
		return nil, status.FromContextError(ctx.Err()).Err()
	}
	s, err := m.server()
	if err != nil {
		return nil, err
	}
	p := &pipe{c2s: make(chan []byte, window), s2c: make(chan []byte, window), m: m}
	p.cctx, p.cancel = vcontext.WithCancel(ctx)
	m.cancels = append(m.cancels, p.cancel)
	s.cancels = append(s.cancels, p.cancel)
	p.sctx = peer.NewContext(p.cctx, &peer.Peer{Addr: memAddr(fmt.Sprintf("conn%d", m.cc.ID))})
	sn, mn := split(method)
	var h grpc.StreamHandler
	var impl any
	if sv := s.services[sn]; sv != nil {
		impl = sv.impl
		for _, d := range sv.desc.Streams {
			if d.StreamName == mn {
				h = d.Handler
			}
		}
	}
	if h == nil {
		p.err = status.Errorf(codes.Unimplemented, "unknown method %s", method)
		vrt.Close(p.s2c)
		return (*clientStream)(p), nil
	}
	vrt.GoN("rpc "+m.cc.Addr, func() {
		err := h(impl, (*serverStream)(p))
		if err != nil {
			err = status.Convert(err).Err()
		}
		p.err = err
		vrt.Close(p.s2c)
	})
	return (*clientStream)(p), nil
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

func (p *pipe) gone() error {
	if p.m.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	return status.FromContextError(p.cctx.Err()).Err()
}

type clientStream pipe

func (c *clientStream) Header() (metadata.MD, error) { return nil, nil }
func (c *clientStream) Trailer() metadata.MD         { return nil }
func (c *clientStream) Context() context.Context     { return c.cctx }
func (c *clientStream) CloseSend() error {
	if !c.half {
		c.half = true
		vrt.Close(c.c2s)
	}
	return nil
}

func (c *clientStream) SendMsg(m any) error {
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "marshal: %v", err)
	}
	done, ch := vrt.CaseRecv(c.cctx.Done()), vrt.SendOn(c.c2s).V(b)
	if vrt.Select(false, done, ch) == 0 {
		return io.EOF
	}
	return nil
}

func (c *clientStream) RecvMsg(m any) error {
	ch, done := vrt.CaseRecv(c.s2c), vrt.CaseRecv(c.cctx.Done())
	if vrt.Select(false, ch, done) == 1 {
		return (*pipe)(c).gone()
	}
	b, ok := ch.Get()
	if !ok {
		c.cancel()
		if c.err == nil {
			return io.EOF
		}
		return c.err
	}
	return unmarshal(b, m)
}

func unmarshal(b []byte, m any) error {
	if err := proto.Unmarshal(b, m.(proto.Message)); err != nil {
		return status.Errorf(codes.Internal, "unmarshal: %v", err)
	}
	return nil
}

type serverStream pipe

func (s *serverStream) SetHeader(metadata.MD) error  { return nil }
func (s *serverStream) SendHeader(metadata.MD) error { return nil }
func (s *serverStream) SetTrailer(metadata.MD)       {}
func (s *serverStream) Context() context.Context     { return s.sctx }

func (s *serverStream) SendMsg(m any) error {
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "marshal: %v", err)
	}
	done, ch := vrt.CaseRecv(s.cctx.Done()), vrt.SendOn(s.s2c).V(b)
	if vrt.Select(false, done, ch) == 0 {
		return status.FromContextError(s.cctx.Err()).Err()
	}
	return nil
}

func (s *serverStream) RecvMsg(m any) error {
	ch, done := vrt.CaseRecv(s.c2s), vrt.CaseRecv(s.cctx.Done())
	if vrt.Select(false, ch, done) == 1 {
		return status.FromContextError(s.cctx.Err()).Err()
	}
	b, ok := ch.Get()
	if !ok {
		return io.EOF
	}
	return unmarshal(b, m)
}
