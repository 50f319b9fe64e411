//go:build go1.24

package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net/netip"
	"strings"

	"github.com/crimist/trakx/zz/rt"
)

// uclient is one UDP source address.
type uclient struct {
	w     *World
	addr  netip.AddrPort
	ids   []uint64 // ids received, in order of arrival
	inbox map[uint32][]byte
	hb    bool
	q     rt.WaitQ
	got   [][]byte
}

func (w *World) ucli(a int) *uclient {
	ap := addrOf(a)
	c := w.ucl[ap]
	if c == nil {
		c = &uclient{w: w, addr: ap, inbox: map[uint32][]byte{}}
		w.ucl[ap] = c
		w.s.Net.Bind(ap, func(b []byte) {
			if len(b) == 1 {
				c.hb = true
			}
			if len(b) >= 8 {
				c.inbox[be32(b[4:])] = b
				if be32(b) == 0 && len(b) == 16 {
					c.ids = append(c.ids, be64(b[8:]))
				}
			}
			c.q.WakeAll()
		})
	}
	return c
}

func (w *World) tx() uint32 { w.nextTx++; return w.nextTx*2654435761 + 12345 }

// ask sends one datagram and waits for the answer with the same transaction id.
func (c *uclient) ask(b []byte, wait int64, tries int) []byte {
	switch c.w.p.k("txmode") { // clients need not choose transaction ids well
	case 1:
		binary.BigEndian.PutUint32(b[12:], 0)
	case 2:
		binary.BigEndian.PutUint32(b[12:], uint32(c.addr.Port()))
	}
	tx := be32(b[12:])
	delete(c.inbox, tx)
	for i := 0; i <= tries; i++ {
		c.w.s.Net.SendUDP(c.addr, uint16(c.w.p.k("port")), b, nil)
		c.w.sent++
		dl := c.w.s.Now() + wait
		for c.inbox[tx] == nil {
			if c.q.Wait(dl, "udp answer") {
				break
			}
			if c.w.s.Now() >= dl || c.w.s.Ended() {
				break
			}
		}
		if r := c.inbox[tx]; r != nil {
			return r
		}
		if c.w.s.Ended() {
			return nil
		}
	}
	return nil
}

func (c *uclient) post(b []byte) {
	c.w.s.Net.SendUDP(c.addr, uint16(c.w.p.k("port")), b, nil)
	c.w.sent++
}

func (c *uclient) connect(wait int64, tries int) bool {
	n := len(c.ids)
	r := c.ask(udpHead(magic, 0, c.w.tx()), wait, tries)
	return r != nil && len(c.ids) > n
}

func (c *uclient) cur() (uint64, bool) {
	if len(c.ids) == 0 {
		return 0, false
	}
	return c.ids[len(c.ids)-1], true
}

const (
	mCur = iota
	mStale
	mForeign
	mRandom
	mZero
	mAnyOld
	mNear
	mMagic
)

func (w *World) pickID(c *uclient, op *Op) uint64 {
	switch op.M {
	case mStale:
		if n := len(c.ids); n > 1 {
			return c.ids[n-2]
		}
		return 0x1234567
	case mForeign:
		if d := w.ucl[addrOf(op.X>>16)]; d != nil && len(d.ids) > 0 {
			return d.ids[len(d.ids)-1]
		}
		return 0x7654321
	case mRandom:
		return w.s.Misc.U64()
	case mZero:
		return 0
	case mMagic:
		return magic
	case mNear: // one bit off
		if id, ok := c.cur(); ok {
			return id ^ 1<<w.s.Misc.N(64)
		}
		return 3
	case mAnyOld:
		if n := len(c.ids); n > 0 {
			return c.ids[w.s.Misc.N(n)]
		}
		return 1
	}
	if _, ok := c.cur(); !ok && w.p.k("validate") != 0 {
		c.connect(2e9, int(w.p.k("retry")))
	}
	id, _ := c.cur()
	return id
}

func (w *World) udpOp(op *Op) {
	c := w.ucli(op.A)
	tries := int(w.p.k("retry"))
	send := func(b []byte) {
		if op.W == 1 {
			c.post(b)
		} else {
			c.ask(b, 2e9, tries)
		}
	}
	switch op.K {
	case "u.con":
		send(udpHead(magic, 0, w.tx()))
	case "u.hb":
		c.post(udpHead(0, 4, 0))
		if op.W == 0 {
			w.s.Sleep(1e6)
		}
	case "u.ann":
		id := w.pickID(c, op)
		a := annFields{Hash: hashOf(op.H[0]), Peer: peerOf(op.P), Down: 1, Up: 2, Left: leftOf(op), Event: uint32(op.F >> 1 & 3), NumWant: int32(op.N), Port: uint16(op.X)}
		if op.F&1 != 0 {
			a.Left = 0
		}
		if op.F&32 != 0 {
			a.IP = 0x0a000001 + uint32(op.P)
		}
		a.Key = uint32(op.E)
		b := udpAnnounce(id, w.tx(), a)
		if op.F&64 != 0 { // BEP 41 extension bytes after the fixed part
			b = append(b, 2, 3, 'a', 'b', 'c', 0)
		}
		send(b)
	case "u.scr":
		id := w.pickID(c, op)
		b := udpHead(id, 2, w.tx())
		for _, h := range op.H {
			x := hashOf(h)
			b = append(b, x[:]...)
		}
		send(b)
	case "u.act": // any action with a chosen id
		b := udpHead(w.pickID(c, op), uint32(op.X&0xffff), w.tx())
		send(append(b, make([]byte, op.N)...))
	case "u.bulk": // N announces of as many peers
		for i := 0; i < op.N && !w.s.Ended() && !w.exited; i++ {
			o := Op{K: "u.ann", A: op.A, H: op.H, P: op.P + i, N: 1, X: 1 + i%65000, W: 1}
			switch op.X {
			case 1:
				o.F = 1
			case 2:
				o.A, o.F, o.W = op.A&^1|i&1|(i%50)<<7, i/2&1, 0
				if len(op.H) > 1 {
					o.H = op.H[i%len(op.H):][:1]
				}
				if w.p.k("http") == 1 && i%3 == 0 {
					o.K = "h.ann"
					w.httpOp(&o)
					continue
				}
			}
			w.udpOp(&o)
			if o.W == 1 && i%200 == 199 {
				for j := 0; j < 1000 && !w.s.Ended(); j++ {
					w.s.Sleep(w.p.k("delay") + 100_000)
					if w.s.Net.UDPQueue(uint16(w.p.k("port"))) == 0 {
						break
					}
				}
			}
		}
	case "u.crowd": // connections of N addresses
		for i := 0; i < op.N && !w.s.Ended() && !w.exited; i++ {
			w.ucli(op.A | (1+i)<<7).post(udpHead(magic, 0, w.tx()))
			if i%50 == 49 || i == op.N-1 {
				w.s.Sleep(w.p.k("delay") + 100_000)
				for j := 0; j < 1000 && w.s.Net.UDPQueue(uint16(w.p.k("port"))) > 0 && !w.s.Ended(); j++ {
					w.s.Sleep(w.p.k("delay") + 100_000)
				}
			}
		}
		w.s.Inc("crowds")
	case "u.raw":
		b, _ := hex.DecodeString(op.S)
		c.post(b)
		w.s.Sleep(1000)
	}
}

// ---------------------------------------------------------------- HTTP client

const (
	clNormal   = iota
	clHalf     // half-close after the request
	clTruncEnd // only a prefix, then close
	clTruncMum // only a prefix, then silence
	clNoRead   // tiny window, never reads
	clReset    // resets right after sending
	clSlowRead // reads slowly
	clVanish   // connects and never sends
	clTruncHalf
	clHold // sends everything and keeps the connection for minutes
)

func (w *World) httpText(op *Op) string {
	q := func(k, v string) string { return k + "=" + v }
	var path string
	var ps []string
	switch op.K {
	case "h.ann":
		path = "/announce"
		h, p := hashOf(op.H[0]), peerOf(op.P)
		ps = append(ps, q("info_hash", esc(h[:], op.E, op.E&512 != 0)), q("peer_id", esc(p[:], op.E>>1, op.E&512 != 0)))
		if op.X != 0 {
			ps = append(ps, q("port", fmt.Sprint(op.X)))
		} else if op.E&4096 != 0 {
			ps = append(ps, q("port", "0"))
		}
		if op.F&32 != 0 {
			ps = append(ps, q("ip", "10.9.8.7"), q("ipv6", "2001%3Adb8%3A%3Abad"))
		}
		ps = append(ps, "uploaded=0", "downloaded=0")
		if op.F&64 == 0 {
			if op.F&1 != 0 {
				ps = append(ps, "left=0")
			} else {
				ps = append(ps, fmt.Sprint("left=", leftOf(op)))
			}
		}
		if ev := [...]string{"", "completed", "started", "stopped"}[op.F>>1&3]; ev != "" {
			ps = append(ps, q("event", ev))
		}
		if op.N != -1 {
			ps = append(ps, q("numwant", fmt.Sprint(op.N)))
		}
		if op.F&8 != 0 {
			ps = append(ps, "compact=1")
		}
		if op.F&16 != 0 {
			ps = append(ps, "no_peer_id=1")
		}
		if op.E&128 != 0 { // text that unescapes to a header
			ps = append(ps, q("tag", "%0d%0aX-Forwarded-For:%2010.9.8.7%0D%0A"))
		}
		if op.E&8 != 0 { // another order
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		}
	case "h.scr":
		path = "/scrape"
		for _, x := range op.H {
			h := hashOf(x)
			ps = append(ps, q("info_hash", esc(h[:], op.E, op.E&512 != 0)))
		}
	case "h.get":
		path = op.S
	case "h.raw":
		return op.S
	}
	if op.E&2048 != 0 && len(ps) > 0 {
		more := []string{"passkey=0123456789abcdef", "supportcrypto=1", "key=7F3A", "trackerid=a%20b"}
		if op.E&8 != 0 {
			ps = append(more, ps...)
		} else {
			ps = append(ps, more...)
		}
	}
	t := "GET " + path
	if len(ps) > 0 {
		t += "?" + strings.Join(ps, "&")
	}
	if op.E&64 != 0 && len(ps) > 0 {
		t += "&"
	}
	t += " HTTP/1.1\r\nHost: tracker.example\r\n"
	if op.E&256 != 0 {
		t += "Not-X-Forwarded-For: 10.9.8.7\r\n"
	}
	if op.K != "h.get" && op.S != "" {
		t += "X-Forwarded-For: " + op.S + "\r\n"
	}
	if op.E&16 != 0 {
		t += "User-Agent: sim/1.0\r\nAccept: */*\r\nAccept-Encoding: gzip\r\n"
	}
	t += "\r\n"
	if op.E&1024 != 0 {
		t += "\r\nX-Forwarded-For: 10.9.8.7\r\n\r\n"
	}
	if op.E&32 != 0 && op.K == "h.scr" {
		t = base64.StdEncoding.EncodeToString([]byte(t))
	}
	return t
}

// hcli is the client's view of one connection.
type hcli struct {
	op      *Op
	Text    string // what it means to send
	Sent    int
	SentAt  int64 // when the last byte left
	Start   int64
	Got     []byte
	EOF     bool
	RST     bool
	Timeout bool
	Refused bool
	End     int64
	Normal  bool // sends everything and reads to the end
}

func (w *World) httpOp(op *Op) *hcli {
	s := w.s
	text := w.httpText(op)
	w.nextTCP++
	src := netip.AddrPortFrom(addrOf(op.A).Addr(), uint16(30000+w.nextTCP%30000))
	win := int(w.p.k("window"))
	if op.Cl == clNoRead || op.Cl == clSlowRead {
		win = 40
	}
	h := &hcli{op: op, Text: text, Start: s.Now(), Normal: op.Cl == clNormal || op.Cl == clHalf || op.Cl == clSlowRead}
	w.hclis = append(w.hclis, h)
	c, err := s.Net.DialTCP(src, uint16(w.p.k("port")), rt.CurProc(), win)
	if err != nil {
		h.Refused = true
		h.End = s.Now()
		return h
	}
	c.Peer().Tag = h
	send := text
	switch op.Cl {
	case clTruncEnd, clTruncMum, clTruncHalf:
		send = text[:op.M%len(text)]
	case clVanish:
		send = ""
	}
	fr := op.Fr
	if fr < 1 {
		fr = 1
	}
	for i := 0; i < fr && len(send) > 0; i++ {
		k := len(send)
		if i < fr-1 {
			k = (op.M*(i+3)+i*7919)%len(send) + 1
		}
		n, err := c.Write([]byte(send[:k]))
		h.Sent += n
		send = send[k:]
		if err != nil {
			break
		}
		if i < fr-1 && len(send) > 0 && op.Dl > 0 {
			s.Sleep(op.Dl)
		}
	}
	h.SentAt = s.Now()
	patience := func() int64 { // every connection ahead may hold a worker for both timeouts
		ahead := int64(1)
		for _, o := range w.hclis {
			if o.End == 0 {
				ahead++
			}
		}
		return s.Now() + ahead*(w.p.k("rto")+w.p.k("wto"))*1e6 + 3e9
	}
	limit := patience()
	switch op.Cl {
	case clHalf, clTruncHalf:
		c.CloseWrite()
	case clTruncEnd:
		if op.Dl > 0 {
			s.Sleep(op.Dl)
		}
		c.Close()
		h.End = s.Now()
		return h
	case clReset:
		if op.Dl > 0 {
			s.Sleep(op.Dl)
		}
		c.Reset()
		h.End = s.Now()
		return h
	case clHold:
		h.End = s.Now()
		s.Go("holder", func() {
			for end := s.Now() + 300e9; s.Now() < end && !c.Peer().Closed() && !s.Ended(); {
				s.Sleep(500e6)
			}
			c.Close()
		})
		return h
	case clNoRead, clVanish, clTruncMum:
		for s.Now() < limit && !c.Peer().Closed() && !s.Ended() {
			s.Sleep(100e6)
		}
		c.Close()
		h.End = s.Now()
		return h
	}
	c.SetReadDeadline(limit)
	buf := make([]byte, 4096)
	for {
		b := buf
		if op.Cl == clSlowRead {
			s.Sleep(op.Dl)
			b = buf[:16]
		}
		n, err := c.Read(b)
		h.Got = append(h.Got, b[:n]...)
		if err == nil {
			continue
		}
		if err == io.EOF {
			h.EOF = true
		} else if strings.Contains(err.Error(), "reset") {
			h.RST = true
		} else if p := c.Peer(); s.Now() < h.Start+120e9 && (!p.Accepted || !p.Closed() && s.Now() < p.AcceptAt+w.holdLimit()) {
			// overtaken while it waited for a worker
			c.SetReadDeadline(patience())
			continue
		} else {
			h.Timeout = true
		}
		break
	}
	c.Close()
	h.End = s.Now()
	return h
}

var _ = binary.BigEndian

// leftOf is what an incomplete peer still lacks.
func leftOf(op *Op) uint64 {
	return [...]uint64{1000, 1, 10, 1 << 32, 5 << 40, 1 << 16, 1<<63 - 1, 300 << 8}[(op.P+op.X+op.F>>5)&7]
}
