//go:build go1.24

package net

import (
	"context"
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/crimist/trakx/zz/rt"
)

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(rt.TimeUntil(t))
	if d <= 0 {
		d = 0
	}
	at := rt.S.Now() + d
	if at <= 0 {
		at = 1
	}
	return at
}

func toAP(a net.Addr) netip.AddrPort {
	switch x := a.(type) {
	case *net.UDPAddr:
		if x == nil {
			return netip.AddrPort{}
		}
		ap := x.AddrPort()
		if !ap.Addr().IsValid() {
			return netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), ap.Port())
		}
		return netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port())
	case *net.TCPAddr:
		if x == nil {
			return netip.AddrPort{}
		}
		ap := x.AddrPort()
		return netip.AddrPortFrom(ap.Addr().Unmap(), ap.Port())
	}
	return netip.AddrPort{}
}

func family(network string, ip net.IP) (a netip.Addr, dual bool) {
	a, _ = netip.AddrFromSlice(ip)
	a = a.Unmap()
	last := network[len(network)-1]
	if last == '4' {
		return a, false
	}
	if !a.IsValid() || a.IsUnspecified() {
		return netip.Addr{}, true
	}
	return a, a.Is6()
}

// ---------------------------------------------------------------- UDP

type UDPConn struct {
	u   *rt.UDPSock
	net string
}

func (c *UDPConn) ok() bool { return c != nil && c.u != nil }
func (c *UDPConn) laddr() net.Addr {
	return &net.UDPAddr{IP: net.IPv6unspecified, Port: int(c.u.Port)}
}
func (c *UDPConn) err(op string, e error, to net.Addr) error {
	return &net.OpError{Op: op, Net: c.net, Source: c.laddr(), Addr: to, Err: e}
}

func ListenUDP(network string, la *net.UDPAddr) (*UDPConn, error) {
	if la == nil {
		la = &net.UDPAddr{}
	}
	a, dual := family(network, la.IP)
	u, err := rt.S.Net.ListenUDP(a, dual, uint16(la.Port))
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: la, Err: os.NewSyscallError("bind", err)}
	}
	return &UDPConn{u, network}, nil
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	a, err := resolve(address)
	if err != nil {
		return nil, err
	}
	c, err := ListenUDP(network, &net.UDPAddr{IP: a.Addr().AsSlice(), Port: int(a.Port())})
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (c *UDPConn) src(a netip.AddrPort) *net.UDPAddr {
	return &net.UDPAddr{IP: c.u.SourceIP(a.Addr()), Port: int(a.Port())}
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	if !c.ok() {
		return 0, nil, syscall.EINVAL
	}
	n, from, err := c.u.Read(b)
	if err != nil {
		return 0, nil, c.err("read", err, nil)
	}
	return n, c.src(from), nil
}
func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}
func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}
func (c *UDPConn) ReadMsgUDP(b, oob []byte) (int, int, int, *net.UDPAddr, error) {
	n, a, err := c.ReadFromUDP(b)
	return n, 0, 0, a, err
}
func (c *UDPConn) Read(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	n, _, err := c.u.Read(b)
	if err != nil {
		return 0, c.err("read", err, c.RemoteAddr())
	}
	return n, nil
}
func (c *UDPConn) WriteToUDP(b []byte, a *net.UDPAddr) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	if a == nil {
		return 0, c.err("write", net.InvalidAddrError("missing address"), nil)
	}
	if c.u.Remote().IsValid() {
		return 0, c.err("write", net.ErrWriteToConnected, a)
	}
	n, err := c.u.Write(b, toAP(a))
	if err != nil {
		return n, c.err("write", err, a)
	}
	return n, nil
}
func (c *UDPConn) WriteTo(b []byte, a net.Addr) (int, error) {
	u, ok := a.(*net.UDPAddr)
	if !ok {
		return 0, syscall.EINVAL
	}
	return c.WriteToUDP(b, u)
}
func (c *UDPConn) WriteToUDPAddrPort(b []byte, a netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, net.UDPAddrFromAddrPort(a))
}
func (c *UDPConn) WriteMsgUDP(b, oob []byte, a *net.UDPAddr) (int, int, error) {
	n, err := c.WriteToUDP(b, a)
	return n, 0, err
}
func (c *UDPConn) Write(b []byte) (int, error) {
	if !c.ok() {
		return 0, syscall.EINVAL
	}
	if !c.u.Remote().IsValid() {
		return 0, c.err("write", syscall.EDESTADDRREQ, nil)
	}
	n, err := c.u.Write(b, c.u.Remote())
	if err != nil {
		return n, c.err("write", err, c.RemoteAddr())
	}
	return n, nil
}
func (c *UDPConn) Close() error {
	if !c.ok() {
		return syscall.EINVAL
	}
	if err := c.u.Close(); err != nil {
		return c.err("close", err, nil)
	}
	return nil
}
func (c *UDPConn) LocalAddr() net.Addr {
	if !c.ok() {
		return nil
	}
	return c.laddr()
}
func (c *UDPConn) RemoteAddr() net.Addr {
	if !c.ok() || !c.u.Remote().IsValid() {
		return nil
	}
	return net.UDPAddrFromAddrPort(c.u.Remote())
}
func (c *UDPConn) SetDeadline(t time.Time) error      { return c.SetReadDeadline(t) }
func (c *UDPConn) SetReadDeadline(t time.Time) error  { c.u.SetReadDeadline(dl(t)); return nil }
func (c *UDPConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (int, int, int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDPAddrPort(b)
	return n, 0, 0, a, err
}
func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, a netip.AddrPort) (int, int, error) {
	n, err := c.WriteToUDPAddrPort(b, a)
	return n, 0, err
}
func (c *UDPConn) SetReadBuffer(int) error            { return nil }
func (c *UDPConn) SetWriteBuffer(int) error           { return nil }

// ---------------------------------------------------------------- TCP

type TCPListener struct {
	l *rt.TCPListen
}

func (l *TCPListener) Addr() net.Addr {
	return &net.TCPAddr{IP: net.IPv6unspecified, Port: int(l.l.Port)}
}
func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.l.Accept()
	if err != nil {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.Addr(), Err: err}
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) Close() error {
	if err := l.l.Close(); err != nil {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.Addr(), Err: err}
	}
	return nil
}
func (l *TCPListener) SetDeadline(t time.Time) error { l.l.SetDeadline(dl(t)); return nil }

func Listen(network, address string) (net.Listener, error) {
	a, err := resolve(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return ListenTCP(network, &net.TCPAddr{IP: a.Addr().AsSlice(), Port: int(a.Port())})
}
func ListenTCP(network string, la *net.TCPAddr) (*TCPListener, error) {
	if la == nil {
		la = &net.TCPAddr{}
	}
	a, dual := family(network, la.IP)
	l, err := rt.S.Net.ListenTCP(a, dual, uint16(la.Port))
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: la, Err: os.NewSyscallError("bind", err)}
	}
	return &TCPListener{l}, nil
}

// TCPConn wraps a simulated connection.
type TCPConn struct{ C *rt.TCPConn }

func (c *TCPConn) addr(a netip.AddrPort) net.Addr {
	ip := net.IP(a.Addr().AsSlice())
	if c.C.Dual() && a.Addr().Is4() {
		x := a.Addr().As16()
		ip = x[:]
	}
	return &net.TCPAddr{IP: ip, Port: int(a.Port())}
}
func (c *TCPConn) LocalAddr() net.Addr  { return c.addr(c.C.Local) }
func (c *TCPConn) RemoteAddr() net.Addr { return c.addr(c.C.Remote) }
func (c *TCPConn) err(op string, e error) error {
	if e == nil || e == io.EOF {
		return e
	}
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: e}
}
func (c *TCPConn) Read(b []byte) (int, error)  { n, e := c.C.Read(b); return n, c.err("read", e) }
func (c *TCPConn) Write(b []byte) (int, error) { n, e := c.C.Write(b); return n, c.err("write", e) }
func (c *TCPConn) Close() error                { return c.err("close", c.C.Close()) }
func (c *TCPConn) CloseWrite() error           { return c.err("close", c.C.CloseWrite()) }
func (c *TCPConn) CloseRead() error            { return nil }
func (c *TCPConn) SetDeadline(t time.Time) error {
	if c.C.Closed() {
		return c.err("set", net.ErrClosed)
	}
	c.C.SetReadDeadline(dl(t))
	c.C.SetWriteDeadline(dl(t))
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.C.Closed() {
		return c.err("set", net.ErrClosed)
	}
	c.C.SetReadDeadline(dl(t))
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.C.Closed() {
		return c.err("set", net.ErrClosed)
	}
	c.C.SetWriteDeadline(dl(t))
	return nil
}
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }
func (c *TCPConn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

// ---------------------------------------------------------------- dialing

func resolve(address string) (netip.AddrPort, error) {
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return netip.AddrPort{}, err
	}
	p, err := strconv.Atoi(port)
	if err != nil || p < 0 || p > 65535 {
		return netip.AddrPort{}, &net.AddrError{Err: "invalid port", Addr: port}
	}
	switch host {
	case "":
		return netip.AddrPortFrom(netip.Addr{}, uint16(p)), nil
	case "localhost":
		return netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), uint16(p)), nil
	}
	a, err := netip.ParseAddr(host)
	if err != nil {
		return netip.AddrPort{}, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return netip.AddrPortFrom(a.Unmap(), uint16(p)), nil
}

func ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	a, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.UDPAddr{IP: a.Addr().AsSlice(), Port: int(a.Port())}, nil
}
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	a, err := resolve(address)
	if err != nil {
		return nil, err
	}
	return &net.TCPAddr{IP: a.Addr().AsSlice(), Port: int(a.Port())}, nil
}

func Dial(network, address string) (net.Conn, error) { return dial(network, address, 0) }
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return dial(network, address, d)
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dial(network, address, d.Timeout)
}
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return dial(network, address, d.Timeout)
}

func dial(network, address string, d time.Duration) (net.Conn, error) {
	a, err := resolve(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	if !a.Addr().IsValid() {
		a = netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), a.Port())
	}
	if network[:3] == "udp" {
		return DialUDP(network, nil, net.UDPAddrFromAddrPort(a))
	}
	rt.SyncOp()
	if rt.HostAddr(a.Addr()) {
		c, err := rt.S.Net.DialHost(rt.S.Net.LoopAddr(), a, rt.CurProc(), 1<<16)
		if err != nil {
			return nil, &net.OpError{Op: "dial", Net: network, Addr: net.TCPAddrFromAddrPort(a), Err: err}
		}
		return &TCPConn{c}, nil
	}
	return nil, &net.OpError{Op: "dial", Net: network, Addr: net.TCPAddrFromAddrPort(a), Err: os.NewSyscallError("connect", syscall.ENETUNREACH)}
}

// ListenConfig ignores its Control function.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}

func DialTCP(network string, la, ra *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(network, ra.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

func DialUDP(network string, la, ra *net.UDPAddr) (*UDPConn, error) {
	u, err := rt.S.Net.ListenUDP(netip.Addr{}, true, 0)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: ra, Err: err}
	}
	u.Connect(toAP(ra))
	return &UDPConn{u, network}, nil
}
