package vnet

import (
	"errors"
	"net"
)

type listener string

func (l listener) Accept() (net.Conn, error) { return nil, errors.New("vnet: no connections") }
func (l listener) Close() error              { return nil }
func (l listener) Addr() net.Addr            { return addr(l) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Listen returns a listener that only has an address.
func Listen(network, address string) (net.Listener, error) { return listener(address), nil }
