package vgrpc

import (
	"context"
	"errors"

	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
)

// ClientConn stands for *grpc.ClientConn in instrumented code. Everything it
// does is scripted by the harness.
type ClientConn struct {
	Addr        string
	ID          int
	State       any
	OnNewStream func(ctx context.Context, c *ClientConn) (grpc.ClientStream, error)
	OnMethod    func(ctx context.Context, desc *grpc.StreamDesc, method string) (grpc.ClientStream, error)
	OnInvoke    func(ctx context.Context, method string, args, reply any) error
	OnClose     func(c *ClientConn) error
	OnState     func(c *ClientConn) connectivity.State
}

// OnDial scripts dialing.
var OnDial func(ctx context.Context, target string, opts []grpc.DialOption) (*ClientConn, error)

// ErrClosing is returned by a second Close.
var ErrClosing = errors.New("grpc: the client connection is closing")

func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	if c.OnInvoke != nil {
		return c.OnInvoke(ctx, method, args, reply)
	}
	return errors.New("vgrpc: unary calls are not modelled")
}

func (c *ClientConn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if c.OnMethod != nil {
		return c.OnMethod(ctx, desc, method)
	}
	if c.OnNewStream == nil {
		return nil, errors.New("vgrpc: no stream script")
	}
	return c.OnNewStream(ctx, c)
}

func (c *ClientConn) Close() error {
	if c.OnClose != nil {
		return c.OnClose(c)
	}
	return nil
}

func (c *ClientConn) Target() string          { return c.Addr }
func (c *ClientConn) CanonicalTarget() string { return c.Addr }
func (c *ClientConn) Connect()                {}
func (c *ClientConn) ResetConnectBackoff()    {}
func (c *ClientConn) GetState() connectivity.State {
	if c.OnState != nil {
		return c.OnState(c)
	}
	return connectivity.Ready
}

func (c *ClientConn) WaitForStateChange(ctx context.Context, s connectivity.State) bool { return false }

func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*ClientConn, error) {
	if OnDial == nil {
		return nil, errors.New("vgrpc: no dial script")
	}
	return OnDial(ctx, target, opts)
}

func Dial(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}

func NewClient(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return DialContext(context.Background(), target, opts...)
}
