// Package net puts the simulated network behind the net API.
package net

import (
	"context"
	real "net"
	"strconv"
	"syscall"
	"time"

	"verif.local/simrt"
)

func addr(s string) *real.TCPAddr {
	a, _ := real.ResolveTCPAddr("tcp4", s)
	return a
}

// TCPConn is a simulated connection.
type TCPConn struct{ c *simrt.TCPConn }

func (c *TCPConn) ok() bool { return c != nil && c.c != nil }

func (c *TCPConn) Read(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.c.Read(b)
}
func (c *TCPConn) Write(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	return c.c.Write(b)
}
func (c *TCPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.c.Close()
}
func (c *TCPConn) CloseRead() error { return nil }
func (c *TCPConn) CloseWrite() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return c.c.CloseWrite()
}
func (c *TCPConn) noop() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                { return c.noop() }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return c.noop() }
func (c *TCPConn) SetNoDelay(bool) error                  { return c.noop() }
func (c *TCPConn) SetLinger(int) error                    { return c.noop() }
func (c *TCPConn) SetReadBuffer(int) error                { return c.noop() }
func (c *TCPConn) SetWriteBuffer(int) error               { return c.noop() }

func (c *TCPConn) dl(t time.Time, r, w bool) error {
	if !c.ok() {
		return syscall.EINVAL
	}
	x := int64(0)
	if !t.IsZero() {
		x = t.UnixNano() - simrt.Epoch
		if x < 1 {
			x = 1
		}
	}
	rr, ww := int64(-1), int64(-1)
	if r {
		rr = x
	}
	if w {
		ww = x
	}
	c.c.SetDeadlines(rr, ww)
	return nil
}
func (c *TCPConn) SetDeadline(t time.Time) error      { return c.dl(t, true, true) }
func (c *TCPConn) SetReadDeadline(t time.Time) error  { return c.dl(t, true, false) }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { return c.dl(t, false, true) }
func (c *TCPConn) LocalAddr() real.Addr {
	if !c.ok() {
		return nil
	}
	l, _ := c.c.Addrs()
	return addr(l)
}
func (c *TCPConn) RemoteAddr() real.Addr {
	if !c.ok() {
		return nil
	}
	_, r := c.c.Addrs()
	return addr(r)
}

// TCPListener is a simulated listening socket.
type TCPListener struct{ l *simrt.Listener }

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	if l == nil || l.l == nil {
		return nil, syscall.EINVAL
	}
	c, err := l.l.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error {
	if l == nil || l.l == nil {
		return syscall.EINVAL
	}
	return l.l.Close()
}
func (l *TCPListener) Addr() real.Addr               { return addr(l.l.Addr()) }
func (l *TCPListener) SetDeadline(t time.Time) error { return nil }

func ListenTCP(network string, laddr *real.TCPAddr) (*TCPListener, error) {
	host, port := "", 0
	if laddr != nil {
		port = laddr.Port
		if laddr.IP != nil {
			host = laddr.IP.String()
		}
	}
	l, err := simrt.Listen(host, port)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: real.UnknownNetworkError("missing address")}
	}
	host := ""
	if raddr.IP != nil {
		host = raddr.IP.String()
	}
	c, err := simrt.Dial(host, raddr.Port)
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

func Dial(network, address string) (real.Conn, error) {
	a, err := real.ResolveTCPAddr("tcp4", address)
	if err != nil {
		return nil, err
	}
	c, err := DialTCP(network, nil, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, _ time.Duration) (real.Conn, error) {
	return Dial(network, address)
}

func Listen(network, address string) (real.Listener, error) {
	a, err := real.ResolveTCPAddr("tcp4", address)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}

// Dialer dials the simulated network.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr real.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }
func (d *Dialer) DialContext(_ context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}

// ListenConfig listens on the simulated network.
type ListenConfig struct{ KeepAlive time.Duration }

func (ListenConfig) Listen(_ context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}

func SplitHostPort(s string) (string, string, error)  { return real.SplitHostPort(s) }
func LookupPort(network, service string) (int, error) { return strconv.Atoi(service) }
