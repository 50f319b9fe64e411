//go:build go1.24

package rt

import (
	"fmt"
	"io"
	"net"
	"net/netip"
	"os"
	"sort"
	"syscall"
)

// Net is the simulated network of one server host (where processes run) and any number of harness clients.
type Net struct {
	s       *Sim
	udp     map[uint16]*UDPSock
	tcp     map[uint16]*TCPListen
	cli     map[netip.AddrPort]func(data []byte)
	ephe    uint16
	K       NetKnobs
	In      []*UDPIn  // datagrams handed to the server
	Out     []*UDPOut // datagrams the server sent
	Conn    []*TCPConn
	Socks   int
	lastUDP map[netip.AddrPort]int64
}

// NetKnobs are fault rates in permille and delays in ns; they may change during a run.
type NetKnobs struct {
	Delay, Jitter                              int64
	Quantum                                    int64 // delays are multiples of this, so that messages coincide
	Drop, Dup, Corrupt                         int
	RecvErr, SendErr, AcceptErr, ReadErr, WErr int
	Frag                                       int // permille of TCP reads that return less than available
	LoopDrop                                   int // loss on the loopback (heartbeats)
}

// UDPIn is one datagram read by server code.
type UDPIn struct {
	Seq  int64
	At   int64
	From netip.AddrPort
	Data []byte
	Size int // bytes given to the reader
	Task *Task
	Proc *Proc
	Tag  any
	User any
}

// UDPOut is one datagram sent by server code.
type UDPOut struct {
	Seq  int64
	At   int64
	To   netip.AddrPort
	Data []byte
	Err  bool
	Task *Task
	Last *UDPIn // the datagram that task read last
	Proc *Proc
}

type UDPSock struct {
	n       *Net
	Proc    *Proc
	Port    uint16
	IP      netip.Addr // zero: any
	dual    bool
	rq      []dgram
	rw      WaitQ
	closed  bool
	rdl     int64
	remote  netip.AddrPort // connected
	pendErr error
}

type dgram struct {
	from netip.AddrPort
	data []byte
	tag  any
}

const rcvQueue = 512

func newNet(s *Sim) *Net {
	return &Net{s: s, udp: map[uint16]*UDPSock{}, tcp: map[uint16]*TCPListen{}, cli: map[netip.AddrPort]func([]byte){}, ephe: 40000,
		K: NetKnobs{Delay: 50_000}, lastUDP: map[netip.AddrPort]int64{}}
}

func (n *Net) delay() int64 {
	d := n.K.Delay
	if n.K.Jitter > 0 {
		q := n.K.Quantum
		if q <= 0 {
			q = 1000
		}
		d += int64(n.s.Draw(SNet, int(n.K.Jitter/q)+1)) * q
	}
	if d < 1000 {
		d = 1000
	}
	return d
}

func (n *Net) closeProc(p *Proc) {
	for port, u := range n.udp {
		if u.Proc == p {
			u.closed = true
			delete(n.udp, port)
			n.Socks--
		}
	}
	var ports []uint16
	for port, l := range n.tcp {
		if l.Proc == p {
			ports = append(ports, port)
		}
	}
	for len(ports) > 0 {
		m := 0
		for i := range ports {
			if ports[i] < ports[m] {
				m = i
			}
		}
		n.tcp[ports[m]].close()
		ports = append(ports[:m], ports[m+1:]...)
	}
	for _, c := range n.Conn {
		if c.proc == p && !c.closed {
			c.close(true)
		}
	}
}

// ---------------------------------------------------------------- UDP, server side

// hostAddrs are the addresses of the simulated host besides loopback.
var hostAddrs = map[netip.Addr]bool{netip.MustParseAddr("192.0.2.1"): true, netip.MustParseAddr("192.0.2.2"): true, netip.MustParseAddr("2001:db8:ffff::1"): true}

// HostAddr tells whether an address is one of the simulated host.
func HostAddr(a netip.Addr) bool { return a.IsLoopback() || hostAddrs[a] }

func anyAddr(a netip.Addr) bool { return !a.IsValid() || a.IsUnspecified() }

// reaches tells whether what is sent to dst arrives at a socket bound to ip.
func reaches(ip, dst netip.Addr) bool { return anyAddr(dst) || anyAddr(ip) || ip == dst }

// Bound lists the ports and addresses a process listens at, e.g. "udp 1337 any".
func (n *Net) Bound(p *Proc) (r []string) {
	name := func(a netip.Addr) string {
		if anyAddr(a) {
			return "any"
		}
		return a.String()
	}
	for port, u := range n.udp {
		if u.Proc == p && !u.remote.IsValid() {
			r = append(r, fmt.Sprintf("udp %d %s", port, name(u.IP)))
		}
	}
	for port, l := range n.tcp {
		if l.Proc == p {
			r = append(r, fmt.Sprintf("tcp %d %s", port, name(l.IP)))
		}
	}
	sort.Strings(r)
	return
}

func (n *Net) ListenUDP(ip netip.Addr, dual bool, port uint16) (*UDPSock, error) {
	alive()
	SyncPoint()
	if !anyAddr(ip) && !HostAddr(ip) {
		return nil, syscall.EADDRNOTAVAIL
	}
	if port == 0 {
		for n.ephe++; n.udp[n.ephe] != nil; n.ephe++ {
		}
		port = n.ephe
	}
	if n.udp[port] != nil {
		return nil, syscall.EADDRINUSE
	}
	u := &UDPSock{n: n, Proc: CurProc(), Port: port, IP: ip, dual: dual}
	n.udp[port] = u
	n.Socks++
	n.s.Logf("udp listen :%d", port)
	return u, nil
}

func (u *UDPSock) Connect(to netip.AddrPort) { u.remote = to }
func (u *UDPSock) Remote() netip.AddrPort    { return u.remote }
func (u *UDPSock) SetReadDeadline(at int64) {
	u.rdl = at
	u.rw.WakeAll()
}

// Read returns one datagram.
func (u *UDPSock) Read(b []byte) (int, netip.AddrPort, error) {
	alive()
	SyncPoint()
	n := u.n
	for {
		if u.closed {
			return 0, netip.AddrPort{}, net.ErrClosed
		}
		if u.rdl != 0 && n.s.now >= u.rdl {
			return 0, netip.AddrPort{}, os.ErrDeadlineExceeded
		}
		if u.pendErr != nil {
			e := u.pendErr
			u.pendErr = nil
			return 0, netip.AddrPort{}, e
		}
		if len(u.rq) > 0 {
			if !u.remote.IsValid() && n.s.Chance(SFault, n.K.RecvErr) {
				n.s.Inc("fault.udp_recv_error")
				n.s.Logf("udp read fails")
				errs := []syscall.Errno{syscall.ECONNREFUSED, syscall.ENOMEM, syscall.EHOSTUNREACH, syscall.EINTR}
				return 0, netip.AddrPort{}, os.NewSyscallError("recvfrom", errs[n.s.Draw(SFault, len(errs))])
			}
			d := u.rq[0]
			u.rq = u.rq[1:]
			k := copy(b, d.data)
			in := &UDPIn{Seq: n.s.Next(), At: n.s.now, From: d.from, Data: d.data, Size: k, Task: cur, Proc: u.Proc, Tag: d.tag}
			if !u.remote.IsValid() {
				n.In = append(n.In, in)
				cur.Last = in
			}
			if n.s.Cfg.Verbose {
				n.s.Logf("udp read %d bytes from %v: %x", k, d.from, b[:min(k, 36)])
			}
			n.s.Mix(uint64(k))
			n.s.MixB(b[:k])
			return k, d.from, nil
		}
		u.rw.Wait(u.rdl, "udp read")
	}
}

// Write sends one datagram.
func (u *UDPSock) Write(b []byte, to netip.AddrPort) (int, error) {
	alive()
	SyncPoint()
	n := u.n
	if u.closed {
		return 0, net.ErrClosed
	}
	data := append([]byte(nil), b...)
	out := &UDPOut{Seq: n.s.Next(), At: n.s.now, To: to, Data: data, Task: cur, Proc: u.Proc}
	if !u.remote.IsValid() {
		if l, ok := cur.Last.(*UDPIn); ok {
			out.Last = l
		}
		n.Out = append(n.Out, out)
		n.s.Mix(uint64(len(b)))
		n.s.MixB(b)
		if n.s.Cfg.Verbose {
			n.s.Logf("udp write %d bytes to %v: %x", len(b), to, data[:min(len(data), 64)])
		}
		if n.s.Chance(SFault, n.K.SendErr) {
			out.Err = true
			n.s.Inc("fault.udp_send_error")
			n.s.Logf("udp write fails")
			errs := []syscall.Errno{syscall.EPERM, syscall.ENOBUFS, syscall.EHOSTUNREACH}
			return 0, os.NewSyscallError("sendto", errs[n.s.Draw(SFault, len(errs))])
		}
	}
	if len(b) > 65507 {
		out.Err = true
		return 0, os.NewSyscallError("sendto", syscall.EMSGSIZE)
	}
	if HostAddr(to.Addr()) && n.cli[to] == nil { // another process of the host
		if n.s.Chance(SNet, n.K.LoopDrop) {
			n.s.Inc("fault.heartbeat_lost")
			return len(b), nil
		}
		from := netip.MustParseAddr("127.0.0.1")
		if !to.Addr().IsLoopback() || to.Addr().Is6() {
			from = to.Addr()
		}
		src := netip.AddrPortFrom(from, u.Port)
		n.s.After(n.delay(), func() {
			if t := n.udp[to.Port()]; t != nil && reaches(t.IP, to.Addr()) {
				t.deliver(dgram{src, data, nil})
			} else if u.remote.IsValid() && !u.closed {
				u.pendErr = os.NewSyscallError("read", syscall.ECONNREFUSED)
				u.rw.WakeAll()
			}
		})
		return len(b), nil
	}
	n.transit(func() {
		if fn := n.cli[to]; fn != nil {
			fn(data)
		}
	}, &data)
	return len(b), nil
}

// transit applies loss, duplication and delay.
func (n *Net) transit(fn func(), data *[]byte) {
	if n.s.Chance(SNet, n.K.Drop) {
		n.s.Inc("fault.udp_loss")
		return
	}
	n.s.After(n.delay(), fn)
	if n.s.Chance(SNet, n.K.Dup) {
		n.s.Inc("fault.udp_dup")
		n.s.After(n.delay()+n.delay(), fn)
	}
}

func (u *UDPSock) deliver(d dgram) {
	if u.closed {
		return
	}
	if len(u.rq) >= rcvQueue {
		u.n.s.Inc("fault.udp_overflow")
		return
	}
	u.rq = append(u.rq, d)
	u.rw.WakeOne()
	if u.remote.IsValid() {
		u.rw.WakeAll()
	}
}

func (u *UDPSock) Close() error {
	alive()
	SyncPoint()
	if u.closed {
		return net.ErrClosed
	}
	u.closed = true
	delete(u.n.udp, u.Port)
	u.n.Socks--
	u.rw.WakeAll()
	u.n.s.Logf("udp close :%d", u.Port)
	return nil
}
func (u *UDPSock) Closed() bool { return u.closed }

// SourceIP is the address in the form the Go runtime reports it.
func (u *UDPSock) SourceIP(a netip.Addr) net.IP {
	if u.dual && a.Is4() {
		x := a.As16()
		return net.IP(x[:])
	}
	return net.IP(a.AsSlice())
}

// ---------------------------------------------------------------- UDP, harness side

// Bind registers a harness client.
func (n *Net) Bind(a netip.AddrPort, fn func(data []byte)) { n.cli[a] = fn }

// SendUDP sends a datagram from a harness client to a port of the server.
func (n *Net) SendUDP(from netip.AddrPort, port uint16, data []byte, tag any) {
	if n.K.Corrupt > 0 && n.s.Chance(SNet, n.K.Corrupt) {
		n.s.Inc("fault.udp_truncated")
		data = data[:n.s.Draw(SNet, len(data)+1)]
	}
	d := append([]byte(nil), data...)
	n.transit(func() {
		if u := n.udp[port]; u != nil {
			u.deliver(dgram{from, d, tag})
		} else {
			n.s.Inc("udp_to_closed_port")
		}
	}, &d)
}

// UDPOpen tells whether a server socket listens on the port.
func (n *Net) UDPOpen(port uint16) bool { return n.udp[port] != nil }
func (n *Net) TCPOpen(port uint16) bool { return n.tcp[port] != nil }
func (n *Net) UDPQueue(port uint16) int {
	if u := n.udp[port]; u != nil {
		return len(u.rq)
	}
	return 0
}

// ---------------------------------------------------------------- TCP

type TCPListen struct {
	n       *Net
	Proc    *Proc
	Port    uint16
	IP      netip.Addr
	dual    bool
	backlog []*TCPConn
	aw      WaitQ
	closed  bool
	dl      int64
}

const backlogMax = 128

// TCPConn is the end of a connection held by a simulated process or (Harness) by a client.
type TCPConn struct {
	n             *Net
	proc          *Proc
	peer          *TCPConn
	Local, Remote netip.AddrPort
	dual          bool
	rbuf          []byte
	eof, rst      bool
	wclosed       bool
	closed        bool
	window        int // receive window of this end
	inflight      int
	rdl, wdl      int64
	rw, ww        WaitQ
	lastAt        int64
	Tag           any

	// history of the server end
	AcceptAt, CloseAt, FirstAt, LastReadAt int64
	AcceptSeq, FirstSeq, CloseSeq          int64
	ReadN                                  int
	Written                                []byte
	WriteSeq                               int64 // of the first write
	WSeqs                                  []int64
	ReadErr                                bool
	WriteFailed                            bool
	Accepted, Taken                        bool
	Task                                   *Task
	Got                                    []byte // bytes handed to the server
}

func (n *Net) ListenTCP(ip netip.Addr, dual bool, port uint16) (*TCPListen, error) {
	alive()
	SyncPoint()
	if !anyAddr(ip) && !HostAddr(ip) {
		return nil, syscall.EADDRNOTAVAIL
	}
	if port == 0 {
		for n.ephe++; n.tcp[n.ephe] != nil; n.ephe++ {
		}
		port = n.ephe
	}
	if n.tcp[port] != nil {
		return nil, syscall.EADDRINUSE
	}
	l := &TCPListen{n: n, Proc: CurProc(), Port: port, IP: ip, dual: dual}
	n.tcp[port] = l
	n.Socks++
	n.s.Logf("tcp listen :%d", port)
	return l, nil
}

func (l *TCPListen) SetDeadline(at int64) { l.dl = at; l.aw.WakeAll() }

func (l *TCPListen) Accept() (*TCPConn, error) {
	alive()
	SyncPoint()
	for {
		if l.closed {
			return nil, net.ErrClosed
		}
		if l.dl != 0 && l.n.s.now >= l.dl {
			return nil, os.ErrDeadlineExceeded
		}
		if len(l.backlog) > 0 {
			if l.n.s.Chance(SFault, l.n.K.AcceptErr) {
				l.n.s.Inc("fault.accept_error")
				l.n.s.Logf("accept fails")
				errs := []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ECONNABORTED}
				return nil, os.NewSyscallError("accept4", errs[l.n.s.Draw(SFault, len(errs))])
			}
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.proc = CurProc()
			c.Accepted = true
			c.AcceptAt, c.AcceptSeq = l.n.s.now, l.n.s.Next()
			c.Task = cur
			l.n.s.Logf("accept %v", c.Remote)
			l.n.s.Mix(uint64(c.Remote.Port()))
			return c, nil
		}
		l.aw.Wait(l.dl, "accept")
	}
}

func (l *TCPListen) close() {
	if l.closed {
		return
	}
	l.closed = true
	delete(l.n.tcp, l.Port)
	l.n.Socks--
	l.aw.WakeAll()
	for _, c := range l.backlog {
		c.close(true)
	}
	l.backlog = nil
	l.n.s.Logf("tcp close :%d", l.Port)
}

func (l *TCPListen) Close() error {
	alive()
	SyncPoint()
	if l.closed {
		return net.ErrClosed
	}
	l.close()
	return nil
}

// push moves bytes to the peer, in order.
func (c *TCPConn) push(data []byte) {
	p := c.peer
	p.inflight += len(data)
	at := c.n.s.now + c.n.delay()
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	c.n.s.At(at, func() {
		p.inflight -= len(data)
		if p.closed {
			c.reset() // data for a closed socket
			return
		}
		p.rbuf = append(p.rbuf, data...)
		p.rw.WakeAll()
	})
}

func (c *TCPConn) reset() {
	if c.closed {
		return
	}
	c.rst = true
	c.rw.WakeAll()
	c.ww.WakeAll()
}

func (c *TCPConn) shut(rst bool) {
	p := c.peer
	at := c.n.s.now + c.n.delay()
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	c.n.s.At(at, func() {
		if rst {
			p.reset()
			p.rbuf = nil
		}
		p.eof = true
		p.rw.WakeAll()
	})
}

func (c *TCPConn) close(rst bool) {
	if c.closed {
		return
	}
	c.closed = true
	c.CloseAt, c.CloseSeq = c.n.s.now, c.n.s.Next()
	if c.proc != nil && !c.proc.Harness {
		c.n.s.Logf("close conn %v", c.Remote)
	}
	c.shut(rst || len(c.rbuf) > 0)
	c.rw.WakeAll()
	c.ww.WakeAll()
}

func (c *TCPConn) Close() error {
	alive()
	SyncPoint()
	if c.closed {
		return net.ErrClosed
	}
	c.close(false)
	return nil
}
func (c *TCPConn) CloseWrite() error {
	alive()
	if c.closed {
		return net.ErrClosed
	}
	if !c.wclosed {
		c.wclosed = true
		c.shut(false)
	}
	return nil
}

// Reset closes with RST.
func (c *TCPConn) Reset()       { c.close(true) }
func (c *TCPConn) Closed() bool { return c.closed }

func (c *TCPConn) harness() bool { return c.proc != nil && c.proc.Harness }

// take notes that the process begins to serve the connection: at accept, unless another task than the one that accepted
// it does so later.
func (c *TCPConn) take() {
	if c.Taken || c.harness() || cur == nil {
		return
	}
	c.Taken = true
	if c.Task != nil && c.Task != cur {
		c.AcceptAt, c.Task = c.n.s.now, cur
	}
}

func (c *TCPConn) SetReadDeadline(at int64)  { c.take(); c.rdl = at; c.rw.WakeAll() }
func (c *TCPConn) SetWriteDeadline(at int64) { c.take(); c.wdl = at; c.ww.WakeAll() }

func (c *TCPConn) Read(b []byte) (int, error) {
	alive()
	c.take()
	s := c.n.s
	if !c.harness() {
		SyncPoint()
	}
	for {
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.rdl != 0 && s.now >= c.rdl {
			c.ReadErr = true
			return 0, os.ErrDeadlineExceeded
		}
		if c.rst {
			c.ReadErr = true
			return 0, os.NewSyscallError("read", syscall.ECONNRESET)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(c.rbuf) > 0 {
			k := min(len(b), len(c.rbuf))
			if !c.harness() {
				if s.Chance(SFault, c.n.K.ReadErr) {
					s.Inc("fault.tcp_read_error")
					c.ReadErr = true
					errs := []syscall.Errno{syscall.ECONNRESET, syscall.ETIMEDOUT, syscall.EHOSTUNREACH}
					return 0, os.NewSyscallError("read", errs[s.Draw(SFault, len(errs))])
				}
				if k > 1 && s.Chance(SNet, c.n.K.Frag) {
					s.Inc("fault.tcp_short_read")
					k = 1 + s.Draw(SNet, k-1)
				}
			}
			copy(b, c.rbuf[:k])
			c.rbuf = append([]byte(nil), c.rbuf[k:]...)
			if c.peer != nil {
				c.peer.ww.WakeAll()
			}
			if !c.harness() {
				if c.FirstSeq == 0 {
					c.FirstSeq, c.FirstAt = s.Next(), s.now
				}
				c.ReadN += k
				c.LastReadAt = s.now
				c.Got = append(c.Got, b[:k]...)
				cur.Last = c
				if s.Cfg.Verbose {
					s.Logf("tcp read %d bytes from %v: %q", k, c.Remote, string(b[:min(k, 200)]))
				}
				s.Mix(uint64(k))
			}
			return k, nil
		}
		if c.eof {
			c.ReadErr = true
			return 0, io.EOF
		}
		c.rw.Wait(c.rdl, "tcp read")
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	alive()
	c.take()
	s := c.n.s
	if !c.harness() {
		SyncPoint()
		c.WSeqs = append(c.WSeqs, s.Next())
		if c.WriteSeq == 0 {
			c.WriteSeq = s.EvSeq
		}
		if s.Cfg.Verbose {
			s.Logf("tcp write %d bytes to %v: %q", len(b), c.Remote, string(b[:min(len(b), 300)]))
		}
		s.Mix(uint64(len(b)))
		s.MixB(b)
	}
	total := 0
	for {
		if c.closed || c.wclosed {
			return total, net.ErrClosed
		}
		if c.wdl != 0 && s.now >= c.wdl {
			c.WriteFailed = true
			return total, os.ErrDeadlineExceeded
		}
		if c.rst {
			c.WriteFailed = true
			return total, os.NewSyscallError("write", syscall.EPIPE)
		}
		if !c.harness() && s.Chance(SFault, c.n.K.WErr) {
			s.Inc("fault.tcp_write_error")
			c.WriteFailed = true
			errs := []syscall.Errno{syscall.ECONNRESET, syscall.EPIPE, syscall.ENOBUFS}
			return total, os.NewSyscallError("write", errs[s.Draw(SFault, len(errs))])
		}
		if total == len(b) {
			return total, nil
		}
		space := c.peer.window - len(c.peer.rbuf) - c.peer.inflight
		if space > 0 {
			k := min(space, len(b)-total)
			chunk := append([]byte(nil), b[total:total+k]...)
			c.push(chunk)
			if !c.harness() {
				c.Written = append(c.Written, chunk...)
			}
			total += k
			if total == len(b) {
				return total, nil
			}
			continue
		}
		c.ww.Wait(c.wdl, "tcp write")
	}
}

// DialHost is DialTCP to one of the host's addresses.
func (n *Net) DialHost(src netip.AddrPort, dst netip.AddrPort, proc *Proc, window int) (*TCPConn, error) {
	if l := n.tcp[dst.Port()]; l != nil && !reaches(l.IP, dst.Addr()) {
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	return n.DialTCP(src, dst.Port(), proc, window)
}

// DialTCP opens a connection to a port of the server host; src is the client's address, proc its process.
func (n *Net) DialTCP(src netip.AddrPort, port uint16, proc *Proc, window int) (*TCPConn, error) {
	l := n.tcp[port]
	if l == nil {
		return nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)
	}
	if len(l.backlog) >= backlogMax {
		return nil, os.NewSyscallError("connect", syscall.ETIMEDOUT)
	}
	srv := netip.AddrPortFrom(netip.MustParseAddr("192.0.2.1"), port)
	a := &TCPConn{n: n, proc: proc, Local: src, Remote: srv, window: window}
	b := &TCPConn{n: n, Local: srv, Remote: src, dual: l.dual, window: 1 << 16}
	a.peer, b.peer = b, a
	n.Conn = append(n.Conn, b)
	n.s.After(n.delay(), func() {
		if l.closed {
			b.close(true)
			return
		}
		l.backlog = append(l.backlog, b)
		l.aw.WakeOne()
	})
	return a, nil
}

// Peer is the other end (the server end of a client's connection).
func (c *TCPConn) Peer() *TCPConn { return c.peer }
func (c *TCPConn) Dual() bool     { return c.dual }
func (c *TCPConn) Proc() *Proc    { return c.proc }

// Buffered is the number of received, unread bytes.
func (c *TCPConn) Buffered() int { return len(c.rbuf) }

// LoopAddr is a fresh loopback client address.
func (n *Net) LoopAddr() netip.AddrPort {
	n.ephe++
	return netip.AddrPortFrom(netip.MustParseAddr("127.0.0.1"), n.ephe)
}
