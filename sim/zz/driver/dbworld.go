//go:build go1.24 && zzdb

package main

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"sort"
	"strings"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
)

// dbWorld calls the peer database directly from concurrent tasks and checks the history for linearizability.
func dbWorld(s *rt.Sim, p *Plan) {
	s.FS.MkdirAll("/home/sim/.config/trakx", 0755)
	s.FS.MkdirAll("/cwd", 0755)
	s.FS.MkdirAll("/data", 0755)
	s.FS.PutFile(cfgPath, []byte(configYAML(p)))
	s.FS.K.Space = -1
	s.Cfg.StallPM, s.Cfg.TickPM, s.Cfg.PausePM = int(p.k("stallpm")), int(p.k("tickpm")), int(p.k("pause"))
	var db storage.Database
	var err error
	ready := false
	proc := s.StartProc("trakx", []string{"trakx", "execute"}, func() {
		app.Reset()
		pools.Initialize(int(p.k("nwlim")))
		db, err = storage.Open()
		ready = true
		for {
			s.Sleep(3600e9)
		}
	})
	for i := 0; !ready && proc.Alive && i < 10000; i++ {
		s.Sleep(1e6)
	}
	if err != nil || db == nil {
		s.HarnErr = fmt.Sprintf("opening the database: %v %s %s", err, proc.Crash, proc.FatalMsg)
		return
	}
	var hist []*dbOp
	init := map[int]linState{}
	for ri := range p.Rounds {
		if p.Rounds[ri].Idle > 0 { // every peer outlives its expiry; only a trim removes them
			s.Sleep(p.k("exp")*1e9 + 2e9)
			for h := range init {
				init[h] = init[h].age()
			}
		}
		actors := map[int][]Op{}
		var ids []int
		for _, o := range p.Rounds[ri].Ops {
			if _, ok := actors[o.C]; !ok {
				ids = append(ids, o.C)
			}
			actors[o.C] = append(actors[o.C], o)
		}
		left := len(ids)
		for _, id := range ids {
			ops := actors[id]
			s.InProc(proc, fmt.Sprintf("caller%d", id), func() {
				for i := range ops {
					if s.Ended() {
						break
					}
					if ops[i].D > 0 {
						s.Sleep(ops[i].D)
					}
					if d := dbDo(s, db, &ops[i], int(p.k("nwlim"))); d != nil {
						hist = append(hist, d)
					}
				}
				left--
			})
		}
		for i := 0; left > 0 && proc.Alive && !s.Ended() && i < 200000; i++ {
			s.Sleep(1e6)
		}
		if s.Ended() {
			return
		}
		if !proc.Alive {
			s.Fail(p.Prop, "crash", "the tracker process died: %s at %s %s", proc.Crash, proc.CrashStack, proc.FatalMsg)
			return
		}
		if left > 0 {
			s.Fail(p.Prop, "stuck", "%d database callers never return", left)
			return
		}
		// sequential reads at the end, which must agree with the history too
		done := false
		s.InProc(proc, "reader", func() {
			for _, h := range planHashes(p) {
				for _, o := range []Op{{K: "d.stats", H: []int{h}}, {K: "d.list", H: []int{h}, N: 60}, {K: "d.bytes", H: []int{h}, N: 60}} {
					if s.Ended() {
						break
					}
					hist = append(hist, dbDo(s, db, &o, int(p.k("nwlim"))))
				}
			}
			done = true
		})
		for i := 0; !done && proc.Alive && !s.Ended() && i < 100000; i++ {
			s.Sleep(1e6)
		}
		if s.Ended() {
			return
		}
		byHash := map[int][]*dbOp{}
		for _, d := range hist {
			if d.op.K == "d.trim" { // it removes each old peer of each swarm at some moment of its own
				for _, h := range planHashes(p) {
					for _, q := range init[h].peers() {
						if q.old {
							byHash[h] = append(byHash[h], &dbOp{op: Op{K: "d.expire", P: q.p}, call: d.call, ret: d.ret})
						}
					}
				}
				continue
			}
			byHash[d.op.H[0]] = append(byHash[d.op.H[0]], d)
		}
		hist = nil
		for _, h := range planHashes(p) {
			sort.SliceStable(byHash[h], func(i, j int) bool { return byHash[h][i].call < byHash[h][j].call })
			end, msg := linearize(init[h], byHash[h])
			if msg != "" {
				s.Fail(p.Prop, "nonlinearizable", "swarm %d: %s", h, msg)
				return
			}
			init[h] = end
			s.Count["lin_ops"] += int64(len(byHash[h]))
		}
	}
}

func planHashes(p *Plan) []int {
	m := map[int]bool{}
	for _, r := range p.Rounds {
		for _, o := range r.Ops {
			for _, h := range o.H {
				m[h] = true
			}
		}
	}
	var l []int
	for h := range m {
		l = append(l, h)
	}
	sort.Ints(l)
	return l
}

type dbOp struct {
	op        Op
	call, ret int64
	cap       int
	c, i      int64
	list      []entry
	l4, l6    []netip.AddrPort
	err       string
}

func dbDo(s *rt.Sim, db storage.Database, o *Op, limit int) *dbOp {
	d := &dbOp{op: *o, cap: limit}
	var h storage.Hash
	if len(o.H) > 0 {
		h = storage.Hash(hashOf(o.H[0]))
	}
	id := storage.PeerID(peerOf(o.P))
	d.call = s.Next()
	switch o.K {
	case "d.save":
		ap := dbAddr(o)
		db.Save(ap.Addr(), ap.Port(), o.F&1 != 0, h, id)
	case "d.drop":
		db.Drop(h, id)
	case "d.trim":
		db.Trim()
	case "d.stats":
		c, i := db.HashStats(h)
		d.c, d.i = int64(c), int64(i)
	case "d.list":
		l := db.PeerList(h, uint(o.N), o.F&1 != 0)
		d.ret = s.Next()
		rt.SyncPoint() // what was returned must not change any more
		for _, b := range l {
			pd, err := bdict(b)
			if err != nil {
				d.err = fmt.Sprintf("entry %q: %v", b, err)
				break
			}
			ip, _ := pd["ip"].(string)
			a, err := netip.ParseAddr(ip)
			port, ok := pd["port"].(int64)
			if err != nil || !ok {
				d.err = fmt.Sprintf("entry %q", b)
				break
			}
			e := entry{AP: netip.AddrPortFrom(a, uint16(port))}
			e.ID, _ = pd["peer id"].(string)
			d.list = append(d.list, e)
		}
		s.Mix(uint64(len(l)))
		return d
	case "d.bytes":
		a, b := db.PeerListBytes(h, uint(o.N))
		d.ret = s.Next()
		rt.SyncPoint()
		if len(a)%6 != 0 || len(b)%18 != 0 {
			d.err = fmt.Sprintf("lists of %d and %d bytes", len(a), len(b))
		} else {
			for i := 0; i+6 <= len(a); i += 6 {
				d.l4 = append(d.l4, netip.AddrPortFrom(netip.AddrFrom4([4]byte(a[i:i+4])), binary.BigEndian.Uint16(a[i+4:])))
			}
			for i := 0; i+18 <= len(b); i += 18 {
				d.l6 = append(d.l6, netip.AddrPortFrom(netip.AddrFrom16([16]byte(b[i:i+16])), binary.BigEndian.Uint16(b[i+16:])))
			}
		}
		pools.Peerlists4.Put(a)
		pools.Peerlists6.Put(b)
		s.Mix(uint64(len(d.l4)<<16 | len(d.l6)))
		return d
	}
	d.ret = s.Next()
	return d
}

func dbAddr(o *Op) netip.AddrPort {
	return netip.AddrPortFrom(addrOf(o.A).Addr(), uint16(o.X))
}

// linState: peer -> address and completeness
type linState string

type linPeer struct {
	p    int
	ap   netip.AddrPort
	comp bool
	old  bool
}

// age marks every peer as older than the expiry.
func (l linState) age() linState {
	ps := l.peers()
	for i := range ps {
		ps[i].old = true
	}
	return mkState(ps)
}

func (l linState) peers() (out []linPeer) {
	if l == "" {
		return nil
	}
	for _, x := range strings.Split(string(l), ";") {
		var q linPeer
		var ap string
		var c int
		fmt.Sscanf(x, "%d|%d|%s", &q.p, &c, &ap)
		q.ap = netip.MustParseAddrPort(ap)
		q.comp, q.old = c&1 != 0, c&2 != 0
		out = append(out, q)
	}
	return
}

func mkState(ps []linPeer) linState {
	sort.Slice(ps, func(i, j int) bool { return ps[i].p < ps[j].p })
	var xs []string
	for _, q := range ps {
		c := 0
		if q.comp {
			c = 1
		}
		if q.old {
			c |= 2
		}
		xs = append(xs, fmt.Sprintf("%d|%d|%s", q.p, c, q.ap))
	}
	return linState(strings.Join(xs, ";"))
}

// step applies an operation to a state, or reports that its result is impossible there.
// A compact list holds at most cap peers of a family (the configured limit), whatever is asked for.
func (l linState) step(d *dbOp) (linState, bool) {
	ps := l.peers()
	switch d.op.K {
	case "d.save":
		n := linPeer{d.op.P, dbAddr(&d.op), d.op.F&1 != 0, false}
		for i := range ps {
			if ps[i].p == d.op.P {
				ps[i] = n
				return mkState(ps), true
			}
		}
		return mkState(append(ps, n)), true
	case "d.drop", "d.expire":
		for i := range ps {
			if ps[i].p == d.op.P && (ps[i].old || d.op.K == "d.drop") {
				return mkState(append(ps[:i], ps[i+1:]...)), true
			}
		}
		return l, true
	case "d.stats":
		var c, i int64
		for _, q := range ps {
			if q.comp {
				c++
			} else {
				i++
			}
		}
		return l, c == d.c && i == d.i
	case "d.list":
		if d.err != "" || len(d.list) != min(d.op.N, len(ps)) {
			return l, false
		}
		seen := map[int]bool{}
		for _, e := range d.list {
			ok := false
			for _, q := range ps {
				id := peerOf(q.p)
				if q.ap == e.AP && !seen[q.p] && (d.op.F&1 != 0 && e.ID == "" || string(id[:]) == e.ID) {
					ok = true
					seen[q.p] = true
					break
				}
			}
			if !ok {
				return l, false
			}
		}
		return l, true
	case "d.bytes":
		if d.err != "" {
			return l, false
		}
		for six, got := range [][]netip.AddrPort{d.l4, d.l6} {
			n := 0
			for _, q := range ps {
				if q.ap.Addr().Is6() == (six == 1) {
					n++
				}
			}
			if len(got) > min(n, d.op.N) || n <= min(d.op.N, d.cap) && len(got) != n {
				return l, false
			}
			seen := map[int]bool{}
			for _, e := range got {
				ok := false
				for _, q := range ps {
					if q.ap == e && !seen[q.p] {
						ok = true
						seen[q.p] = true
						break
					}
				}
				if !ok {
					return l, false
				}
			}
		}
		return l, true
	}
	return l, true
}

func (d *dbOp) String() string {
	t := fmt.Sprintf("%s #%d-#%d", d.op.K, d.call, d.ret)
	switch d.op.K {
	case "d.save":
		t += fmt.Sprintf(" peer %d at %v complete=%v", d.op.P, dbAddr(&d.op), d.op.F&1 != 0)
	case "d.drop", "d.expire":
		t += fmt.Sprintf(" peer %d", d.op.P)
	case "d.stats":
		t += fmt.Sprintf(" -> %d complete, %d incomplete", d.c, d.i)
	case "d.list":
		t += fmt.Sprintf(" max %d -> ", d.op.N)
		for _, e := range d.list {
			t += fmt.Sprintf("%v(%x) ", e.AP, lastBytes(e.ID))
		}
		t += d.err
	case "d.bytes":
		t += fmt.Sprintf(" max %d -> %v %v %s", d.op.N, d.l4, d.l6, d.err)
	}
	return t
}

// linearize searches an order of the operations, consistent with real time, that explains every result
// (Wing and Gong's algorithm with memoisation). It returns the only state the final reads admit.
func linearize(init linState, ops []*dbOp) (linState, string) {
	if len(ops) > 64 {
		return init, "" // never generated
	}
	type key struct {
		done uint64
		st   linState
	}
	seen := map[key]bool{}
	var end linState
	best := 0
	var bestOps uint64
	var rec func(done uint64, st linState, n int) bool
	rec = func(done uint64, st linState, n int) bool {
		if n == len(ops) {
			end = st
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		if n > best {
			best, bestOps = n, done
		}
		// the earliest return among the pending ones bounds what may go next
		minRet := inf
		for i, d := range ops {
			if done>>i&1 == 0 && d.ret < minRet {
				minRet = d.ret
			}
		}
		for i, d := range ops {
			if done>>i&1 != 0 || d.call > minRet {
				continue
			}
			if ns, ok := st.step(d); ok && rec(done|1<<i, ns, n+1) {
				return true
			}
		}
		return false
	}
	if rec(0, init, 0) {
		return end, ""
	}
	msg := fmt.Sprintf("no order of the calls explains their results (initially %q); ", string(init))
	for i, d := range ops {
		if bestOps>>i&1 == 0 {
			msg += "[unexplained] "
		}
		msg += d.String() + "; "
	}
	return "", msg
}
