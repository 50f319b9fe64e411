//go:build go1.24

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/crimist/trakx/zz/rt"
)

// resources is what a quiet tracker holds.
type resources struct {
	tasks, files, conns, pg int
	bound                   string
	names                   []string
}

func (w *World) resources() resources {
	r := resources{tasks: w.proc.Tasks(), files: w.proc.OpenFiles, names: w.proc.TaskNames(), bound: strings.Join(w.s.Net.Bound(w.proc), ", ")}
	seen := map[*rt.TCPConn]bool{}
	for _, l := range [][]*rt.TCPConn{w.s.Net.Conn, w.pend} {
		for _, c := range l {
			if !seen[c] && c.Accepted && c.Proc() == w.proc && !c.Closed() {
				seen[c] = true
				r.conns++
			}
		}
	}
	r.pg = w.s.PG.InUse()
	return r
}

// quietResources lets every timeout pass and measures several times: periodic work may be under way.
func (w *World) quietResources() (r resources) {
	s, p := w.s, w.p
	w.settle()
	s.Sleep((p.k("rto")+p.k("wto"))*1e6 + 3e9)
	if p.k("http") == 2 { // the info server has its own timeouts
		s.Sleep(12e9)
	}
	for i := 0; i < 4 && !w.exited && !s.Ended(); i++ {
		if i > 0 {
			s.Sleep(370e6 + 20*s.FS.K.Lat)
			w.settle()
		}
		n := w.resources()
		if i == 0 {
			r = n
			continue
		}
		if n.tasks < r.tasks {
			r.tasks, r.names = n.tasks, n.names
		}
		r.files, r.conns, r.pg = min(r.files, n.files), min(r.conns, n.conns), min(r.pg, n.pg)
	}
	return
}

// leaks compares what the tracker holds once everything is over with what it held before it served anything.
func (w *World) leaks() {
	if w.exited || w.s.Ended() {
		return
	}
	n := w.quietResources()
	if w.exited || w.s.Ended() {
		return
	}
	w.collect()
	if w.held == nil || w.heldProc != w.proc { // the first measurement of this life
		w.held, w.heldProc = &n, w.proc
		return
	}
	o := w.held
	w.s.Inc("leak_checks")
	w.s.Inc("nontrivial")
	switch {
	case n.conns > 0:
		w.viol("C31", "conns", "%d client connections are still open although everything is over and every timeout has passed", n.conns)
	case n.files > o.files:
		w.viol("C31", "files", "the tracker holds %d open files, %d before", n.files, o.files)
	case n.tasks > o.tasks:
		w.viol("C31", "tasks", "the tracker runs %d goroutines, %d before (%s)", n.tasks, o.tasks, extra(o.names, n.names))
	case n.pg > o.pg+2:
		w.viol("C31", "dbconns", "the tracker holds %d database connections, %d before", n.pg, o.pg)
	case n.bound != o.bound:
		w.viol("C31", "sockets", "the tracker serves on %s, before on %s", n.bound, o.bound)
	}
}

func extra(a, b []string) string {
	c := map[string]int{}
	for _, x := range a {
		c[x]--
	}
	for _, x := range b {
		c[x]++
	}
	var r []string
	for x, n := range c {
		if n > 0 {
			r = append(r, fmt.Sprintf("%s×%d", x, n))
		}
	}
	sort.Strings(r)
	return strings.Join(r, ", ")
}

// drained waits until everything has expired and was trimmed; then nothing is left.
func (w *World) drained() {
	s, p := w.s, w.p
	if w.exited || s.Ended() {
		return
	}
	w.settle()
	d := max(p.k("exp"), p.k("cexp"))*1e9 + 1.2e9
	s.Sleep(d)
	w.passWait("trim", &w.m.passes)
	w.passWait("ctrim", &w.m.cpass)
	s.Sleep(2*p.k("expvar")*1e9 + 400e6 + 2*p.k("stallmax"))
	if w.exited || s.Ended() || w.clockStepped {
		return
	}
	s.Inc("drain_checks")
	for _, g := range []string{"hashes", "ips", "seeds", "leeches", "peers", "udpconnections"} {
		if appFast() && g == "ips" {
			continue
		}
		if g == "udpconnections" && p.k("udp") == 0 {
			continue
		}
		if v, ok := w.gauge("trakx.database." + g); ok && v != 0 {
			w.viol("C31", "drained-"+g, "everything has expired and was trimmed, trakx.database.%s is %d", g, v)
			return
		}
	}
}

func genC31(g *gen) {
	r := g.r
	g.base()
	rto := r.Pick(1000, 2000, 3000)
	trim := r.Pick(1, 2, 5)
	g.sets("http", r.Pick(1, 1, 1, 0, 2), "udp", 1, "hthreads", r.Range(1, 3), "rto", rto, "wto", r.Pick(rto, rto+1000, 400), "window", r.Pick(60, 200, 65536),
		"expvar", r.Pick(1, 2), "trim", trim, "exp", r.Pick(4, 8, 20), "ctrim", r.Pick(1, 3), "cexp", r.Pick(5, 15))
	if r.P(200) {
		g.set("udp", 0)
		g.set("http", int64(r.Pick(1, 1, 2)))
	}
	g.tickS = []int{trim, int(g.p.k("ctrim"))}
	g.www = []wk{{"u.ann", 30}, {"u.stop", 10}, {"h.ann", 25}, {"h.stop", 8}, {"u.scr", 6}, {"h.scr", 10}, {"h.get", 12}, {"h.raw", 8}, {"u.con", 6}, {"u.act", 3}, {"u.bad", 4}, {"u.junk", 6}, {"u.hb", 3}}
	switch r.N(6) {
	case 0, 1:
		g.sets("btype", 1, "bfreq", r.Pick(0, 1, 2))
		if r.P(300) {
			g.set("flat", int64(r.Pick(1, 5))*1e6)
		}
		if r.P(600) {
			g.disk()
		}
	case 2:
		g.sets("btype", 2, "bfreq", r.Pick(0, 2, 5))
		g.genPG()
	}
	for _, k := range []string{"recverr", "senderr", "accepterr", "readerr", "werr", "corrupt", "frag"} {
		if r.P(300) {
			g.set(k, int64(r.Pick(10, 60, 300)))
		}
	}
	g.add(Round{}, "leaks")
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		rd := g.traffic(r.Range(2, 6), 1, 6)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			g.oddUDP(o)
			g.oddHTTP(o)
			if strings.HasPrefix(o.K, "h.") && r.P(450) {
				g.misbehave(o, rto)
			} else if strings.HasPrefix(o.K, "h.") && r.P(100) {
				o.Cl = clHold
			}
		}
		if g.p.k("btype") != 0 {
			for k, m := 0, r.Range(0, 3); k < m; k++ {
				rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(300)) * 100_000})
			}
			if g.p.k("btype") == 2 && r.P(250) {
				rd.Ops = append(rd.Ops, Op{C: -2, K: "pgdown", X: 1, D: int64(r.N(300)) * 100_000})
			}
		}
		e := r.PickS("leaks", "leaks", "drained", "drained leaks", "probe leaks drained")
		if g.p.k("btype") == 1 && r.P(250) {
			e += r.PickS(" stop leaks usr1 leaks", " kill leaks", " stop drained", " term leaks usr1 drained leaks")
		}
		g.add(rd, e)
	}
}
