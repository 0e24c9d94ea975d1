// Package vtdialer replaces github.com/openconfig/grpctunnel/dialer in
// instrumented code.
package vtdialer

import (
	"context"
	"errors"

	"github.com/openconfig/grpctunnel/tunnel"
	"google.golang.org/grpc"

	"github.com/openconfig/gnmi/zz_verif/vgrpc"
)

type ServerDialer struct{}
type ClientDialer struct{}

func FromServer(ts *tunnel.Server) (*ServerDialer, error) {
	if ts == nil {
		return nil, errors.New("tunnel server connection is nil")
	}
	return &ServerDialer{}, nil
}

func FromClient(tc *tunnel.Client) (*ClientDialer, error) {
	if tc == nil {
		return nil, errors.New("tunnel client connection is nil")
	}
	return &ClientDialer{}, nil
}

// DialContext dials tunnel/<target>.
func (*ServerDialer) DialContext(ctx context.Context, target, targetType string, opts ...grpc.DialOption) (*vgrpc.ClientConn, error) {
	return vgrpc.DialContext(ctx, "tunnel/"+target, opts...)
}

func (*ClientDialer) DialContext(ctx context.Context, target, targetType string, opts ...grpc.DialOption) (*vgrpc.ClientConn, error) {
	return vgrpc.DialContext(ctx, "tunnel/"+target, opts...)
}
