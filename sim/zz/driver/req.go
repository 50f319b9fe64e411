//go:build go1.24

package main

import (
	"fmt"
	"net/netip"
	"strconv"
	"strings"

	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
)

// Req is one request the tracker received, with what it must do and what it did.
type Req struct {
	Proto      byte // 'u' or 'h'
	Src        netip.AddrPort
	IP         netip.Addr // the address it is advertised under
	Call, Ret  int64
	CallAt     int64
	RetAt      int64
	Kind       string // connect announce stop scrape hb error (as asked), junk
	WF         bool   // the expectation Exp is exact
	Exp        string // connect announce stop scrape error hb status file none any
	Status     string
	Hash, Peer hashID
	Port       uint16
	Complete   bool
	Limit      int64 // most peers it may be told
	DefNW      bool  // over UDP: it asked for less than one, which means the default
	Hashes     []hashID
	ID         uint64
	NeedID     bool
	Tx         uint32
	Compact    bool
	NoID       bool
	In         *rt.UDPIn
	Outs       []*rt.UDPOut
	Conn       *rt.TCPConn
	H          hreq
	Died       bool // the process ended before it was answered
	Finished   bool // the worker is done with it

	// the answer
	Got      string // "", connect announce stop scrape error hb status bad
	GotErr   string
	Seeders  int64
	Leechers int64
	Interval int64
	L4, L6   []entry
	LD       []entry
	Counts   [][2]int64
	Counted  []hashID
	NewID    uint64
	Rep      hrep

	own *hev[PS]
}

func (r *Req) String() string {
	s := fmt.Sprintf("%c %s from %v #%d-#%d", r.Proto, r.Kind, r.Src, r.Call, r.Ret)
	if r.Kind == "announce" || r.Kind == "stop" {
		s += fmt.Sprintf(" swarm %x peer %x port %d complete=%v", r.Hash[16:], r.Peer[8:12], r.Port, r.Complete)
	}
	return s
}

func (w *World) newUDPReq(in *rt.UDPIn) *Req {
	b, cut := in.Data[:in.Size], in.Size < len(in.Data)
	if cut && len(in.Data) <= 1496 { // a scrape of 74 hashes, the longest request there is, must fit
		b, cut = in.Data, false
	}
	r := &Req{Proto: 'u', Src: in.From, IP: in.From.Addr().Unmap(), Call: in.Seq, CallAt: in.At, In: in, Ret: inf, Kind: "junk", Exp: "any"}
	if len(b) < 16 {
		r.Exp = "none"
		r.WF = true
		return r
	}
	if cut { // longer than the receive buffer
		r.Exp = "any"
	}
	act := be32(b[8:])
	r.Tx = be32(b[12:])
	r.ID = be64(b)
	switch act {
	case 0:
		r.Kind, r.Exp = "connect", "connect"
		r.WF = len(b) == 16 && r.ID == magic
	case 4:
		r.Kind, r.Exp, r.WF = "hb", "hb", len(b) == 16
	case 1:
		r.NeedID = true
		r.Kind, r.Exp = "badannounce", "error"
		r.WF = true
		if len(b) >= 98 {
			a := parseAnnounce(b)
			r.Hash, r.Peer, r.Port = a.Hash, a.Peer, a.Port
			r.Complete = a.Event == 1 || a.Left == 0
			if a.Port != 0 {
				r.Kind, r.Exp = "announce", "announce"
				if a.Event == 3 {
					r.Kind, r.Exp = "stop", "stop"
				}
			}
			r.Limit = int64(a.NumWant)
			if r.Limit < 1 {
				r.DefNW = true
				r.Limit = min(w.p.k("nwdef"), w.p.k("nwlim"))
			} else if r.Limit > w.p.k("nwlim") {
				r.Limit = w.p.k("nwlim")
			}
			if a.Event > 3 {
				r.WF = false
			}
		}
	case 2:
		r.NeedID = true
		r.Kind, r.Exp = "scrape", "scrape"
		for i := 16; i+20 <= len(b); i += 20 {
			r.Hashes = append(r.Hashes, hashID(b[i:i+20]))
		}
		r.WF = len(b) > 16 && (len(b)-16)%20 == 0 && len(r.Hashes) <= 74 && !cut
	default:
		r.Kind, r.Exp = "error", "error"
		r.WF = true
		if act == 3 {
			r.NeedID = true
		}
	}
	return r
}

// suits says whether a reply of this action is one the request may get.
func (r *Req) suits(b []byte) bool {
	if len(b) < 4 {
		return true
	}
	switch be32(b) {
	case 0:
		return r.Exp == "connect" || r.Exp == "any"
	case 1:
		return r.Exp == "announce" || r.Exp == "stop" || r.Exp == "any"
	case 2:
		return r.Exp == "scrape" || r.Exp == "any"
	}
	return true
}

func (r *Req) udpAnswer(o *rt.UDPOut) {
	b := o.Data
	r.Ret, r.RetAt = o.Seq, o.At
	r.Finished = true
	bad := func(f string, a ...any) { r.Got = "bad"; r.GotErr = fmt.Sprintf(f, a...) }
	if len(b) == 1 && b[0] == 0xff {
		r.Got = "hb"
		return
	}
	if len(b) < 8 {
		bad("reply of %d bytes", len(b))
		return
	}
	switch be32(b) {
	case 0:
		if len(b) != 16 {
			bad("connect reply of %d bytes", len(b))
			return
		}
		r.Got = "connect"
		r.NewID = be64(b[8:])
	case 1:
		if len(b) < 20 {
			bad("announce reply of %d bytes", len(b))
			return
		}
		r.Got = "announce"
		if r.Kind == "stop" {
			r.Got = "stop"
		}
		r.Interval, r.Leechers, r.Seeders = int64(int32(be32(b[8:]))), int64(int32(be32(b[12:]))), int64(int32(be32(b[16:])))
		l, err := splitPeers(b[20:], r.IP.Is6())
		if err != nil {
			bad("%v", err)
			return
		}
		if r.IP.Is6() {
			r.L6 = l
		} else {
			r.L4 = l
		}
	case 2:
		r.Got = "scrape"
		if (len(b)-8)%12 != 0 {
			bad("scrape reply of %d bytes", len(b))
			return
		}
		for i := 8; i < len(b); i += 12 {
			r.Counts = append(r.Counts, [2]int64{int64(int32(be32(b[i:]))), int64(int32(be32(b[i+8:])))})
		}
		if r.Kind == "scrape" && len(r.Counts) != len(r.Hashes) {
			bad("scrape reply with %d results for %d hashes: % x", len(r.Counts), len(r.Hashes), b[:min(len(b), 40)])
			return
		}
		r.Counted = r.Hashes
	case 3:
		r.Got = "error"
	default:
		bad("reply with action %d: % x", be32(b), b[:min(len(b), 24)])
	}
}

func (w *World) newHTTPReq(c *rt.TCPConn) *Req {
	r := &Req{Proto: 'h', Src: c.Remote, IP: c.Remote.Addr().Unmap(), Conn: c, Call: c.FirstSeq, CallAt: c.FirstAt, Ret: inf, Kind: "junk", Exp: "any"}
	if c.FirstSeq == 0 {
		r.Call, r.CallAt = c.AcceptSeq, c.AcceptAt
	}
	h := parseHTTP(c.Got)
	r.H = h
	switch {
	case len(c.Got) >= 2600: // more than the tracker takes, it may serve what it has
	case !h.Complete:
		r.Kind = "incomplete"
	case !h.Plain:
	case w.p.k("http") == 2: // the info server answers everything and takes nothing in
		r.WF, r.Kind = true, "info"
	default:
		r.WF = true
		if strings.Contains(app.Tags, "heroku") && h.HasFwd && h.Path == "/announce" {
			last := h.Forwarded[strings.LastIndex(h.Forwarded, ",")+1:]
			a, err := netip.ParseAddr(strings.TrimSpace(last))
			if err != nil {
				r.Kind, r.Exp = "badannounce", "error"
				break
			}
			r.IP = a
			if a.Is4In6() || a.Zone() != "" {
				r.WF = false
			}
		}
		switch h.Path {
		case "/announce":
			w.httpAnnounce(r)
		case "/scrape":
			r.Kind, r.Exp = "scrape", "scrape"
			seen := map[string]bool{}
			for _, p := range h.Params {
				if p[0] == "info_hash" {
					if len(p[1]) != 20 {
						r.Exp = "error"
						continue
					}
					if seen[p[1]] {
						r.WF = false
					}
					seen[p[1]] = true
					r.Hashes = append(r.Hashes, hashID([]byte(p[1])))
				}
			}
			if len(seen) == 0 {
				r.Exp = "error"
			}
		case "/heartbeat":
			r.Kind, r.Exp, r.Status = "status", "status", "200"
		case "/stats", "/", "/index.html":
			r.Kind, r.Exp, r.Status = "file", "file", "200"
		default:
			r.Kind, r.Exp, r.Status = "status", "status", "404"
			if strings.Contains(h.Path, ".") {
				r.WF = false // possibly an embedded file
			}
		}
	}
	return r
}

func (w *World) httpAnnounce(r *Req) {
	h := &r.H
	r.Kind, r.Exp = "badannounce", "error"
	ih, _ := h.get("info_hash")
	id, _ := h.get("peer_id")
	if len(ih) != 20 || len(id) != 20 {
		return
	}
	copy(r.Hash[:], ih)
	copy(r.Peer[:], id)
	ev, _ := h.get("event")
	if ev == "stopped" {
		r.Kind, r.Exp = "stop", "stop"
		return
	}
	ps, _ := h.get("port")
	port, err := strconv.Atoi(ps)
	if err != nil || port < 1 || port > 65535 {
		return
	}
	r.Limit = min(w.p.k("nwdef"), w.p.k("nwlim"))
	if nw, ok := h.get("numwant"); ok && nw != "" {
		n, err := strconv.Atoi(nw)
		if err != nil || n < 0 {
			return
		}
		r.Limit = min(int64(n), w.p.k("nwlim"))
	}
	r.Port = uint16(port)
	left, _ := h.get("left")
	r.Complete = ev == "completed" || left == "0"
	c, _ := h.get("compact")
	r.Compact = c == "1"
	n, _ := h.get("no_peer_id")
	r.NoID = n == "1"
	r.Kind, r.Exp = "announce", "announce"
}

func (r *Req) httpAnswer() {
	c := r.Conn
	bad := func(f string, a ...any) { r.Got = "bad"; r.GotErr = fmt.Sprintf(f, a...) }
	r.Ret, r.RetAt = c.CloseSeq, c.CloseAt
	r.Finished = c.Closed()
	if c.WriteSeq > 0 {
		r.Ret = c.WriteSeq
		r.RetAt = c.CloseAt
	}
	if len(c.Written) == 0 {
		return
	}
	rep := parseReply(c.Written)
	r.Rep = rep
	if rep.Err != "" {
		bad("%s", rep.Err)
		return
	}
	if rep.Dict == nil {
		r.Got = "status"
		if len(rep.Body) > 0 {
			r.Got = "file"
		}
		if r.Kind == "stop" && rep.Status == "200" && len(rep.Body) == 0 {
			r.Got = "stop"
		}
		return
	}
	d := rep.Dict
	if _, ok := d["failure reason"].(string); ok {
		r.Got = "error"
		return
	}
	if iv, ok := d["interval"].(int64); ok {
		r.Got = "announce"
		r.Interval = iv
		var ok1, ok2 bool
		r.Seeders, ok1 = d["complete"].(int64)
		r.Leechers, ok2 = d["incomplete"].(int64)
		if !ok1 || !ok2 {
			bad("announce reply without counts")
			return
		}
		switch p := d["peers"].(type) {
		case string:
			var err error
			if r.L4, err = splitPeers([]byte(p), false); err != nil {
				bad("%v", err)
				return
			}
			if p6, ok := d["peers6"].(string); ok {
				if r.L6, err = splitPeers([]byte(p6), true); err != nil {
					bad("%v", err)
					return
				}
			}
		case []any:
			for _, x := range p {
				pd, ok := x.(map[string]any)
				if s, isS := x.(string); isS { // this tracker sends each entry as an encoded string
					var err error
					if pd, err = bdict([]byte(s)); err != nil {
						bad("peer entry %q: %v", s, err)
						return
					}
				} else if !ok {
					bad("peer entry of type %T", x)
					return
				}
				ip, _ := pd["ip"].(string)
				a, err := netip.ParseAddr(ip)
				port, ok := pd["port"].(int64)
				if err != nil || !ok || port < 0 || port > 65535 {
					bad("peer entry %v", pd)
					return
				}
				e := entry{AP: netip.AddrPortFrom(a, uint16(port))}
				e.ID, _ = pd["peer id"].(string)
				if e.ID == "" && !r.NoID {
					bad("peer entry without peer id: %v", pd)
					return
				}
				r.LD = append(r.LD, e)
			}
		case nil:
		default:
			bad("peers of type %T", p)
			return
		}
		return
	}
	if f, ok := d["files"].(map[string]any); ok {
		r.Got = "scrape"
		for _, k := range sortedKeys(f) {
			x, ok := f[k].(map[string]any)
			if !ok || len(k) != 20 {
				bad("scrape entry %q: %v", k, f[k])
				return
			}
			s, ok1 := x["complete"].(int64)
			l, ok2 := x["incomplete"].(int64)
			if !ok1 || !ok2 {
				bad("scrape entry %q without counts", k)
				return
			}
			r.Counted = append(r.Counted, hashID([]byte(k)))
			r.Counts = append(r.Counts, [2]int64{s, l})
		}
		return
	}
	bad("unexpected dictionary %v", d)
}
