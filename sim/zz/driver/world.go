//go:build go1.24

package main

import (
	"fmt"
	"net/netip"
	"os"
	"sort"
	"strings"

	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
	zos "github.com/crimist/trakx/zz/sh/os"
)

// World runs the whole tracker against simulated clients, disk, clock, signals and network.
type World struct {
	s    *rt.Sim
	p    *Plan
	proc *rt.Proc
	m    *Model

	ucl     map[netip.AddrPort]*uclient
	hclis   []*hcli
	nextTx  uint32
	nextTCP int
	sent    int

	inPos, outPos, connPos int
	hcliPos                int
	pend                   []*rt.TCPConn
	reqs                   []*Req // of this round
	quiet                  bool
	served                 int

	// life cycle of the process
	stopSeq, stopAt int64 // the stop signal that ended it
	stopWhy         string
	expectDown      bool // something may end the process now
	exited          bool
	exitSeq, exitAt int64
	crashed         string
	startSeq        int64
	backups         []*backup
	lastQuiet       int64                     // event number of the last quiescent point
	diskFault       bool                      // disk faults were on since the last quiescent point
	idFault         bool                      // disk faults that the connection database may have met
	idSave          map[netip.AddrPort]*idImg // what the latest save signal of this life wrote, if that is certain
	everIDs         map[netip.AddrPort][]*hev[uint64]
	fsFaulty        bool
	usedH           map[int]bool
	starts          int
	hits, st        statSums
	tot             map[string]int64
	ipsUsed         map[netip.Addr]bool
	sampler         *sampler
	idsFile         map[netip.AddrPort][]*hev[uint64]
	usrFault        bool
	noSettle        bool
	clockStepped    bool
	probeN          int
	held            *resources // what it held before it served
	heldProc        *rt.Proc
	ticks           []tick
	lastWrite       int64 // event number of the last write of the backup file
	lastWriteAt     int64
	writes          []int64
}

type tick struct{ at, seq int64 }

type backup struct {
	c, r    int64
	rAt, at int64
	certain bool
	img     map[hashID]map[hashID]*img // what it may contain
	ids     map[netip.AddrPort]*idImg
	name    string
}

type img struct {
	vals   []*hev[PS]
	absent bool
}
type idImg struct {
	vals   []*hev[uint64]
	absent bool
}

const probeBase = 9000

// viol reports a violation if this run decides one of the listed properties; "*" always counts.
func (w *World) viol(props, class, f string, a ...any) {
	if w.s.Viol != nil {
		return
	}
	prop := w.p.Prop
	if prop == "C03" { // the system instead of the database alone: see genC03
		prop = "C01"
	}
	if props != "*" && !strings.Contains(","+props+",", ","+prop+",") {
		return
	}
	w.s.Fail(w.p.Prop, class, f, a...)
}

// stepLimit bounds a run; lower while minimising, where a candidate may run away.
var stepLimit int64 = 400_000_000

func runPlan(p *Plan, streams [][]uint32, record, verbose bool) *Result {
	wall := p.k("wall")
	if wall == 0 {
		wall = 1_700_000_000_123456789
	}
	cfg := rt.Config{Seed: p.Seed, Replay: streams, Record: record, Strategy: int(p.k("strategy")), Fuel: int(p.k("fuel")),
		StallPM: 0, StallMax: p.k("stallmax"), TickMax: p.k("tickmax"), WallBase: wall, Verbose: verbose, MaxSteps: stepLimit}
	s := rt.New(cfg)
	s.Vars = append(app.Vars(), &zos.Args)
	var w *World
	s.Run(func() {
		switch p.World {
		case "db":
			dbWorld(s, p)
		case "bigdb":
			bigWorld(s, p)
		case "cli":
			cliWorld(s, p)
		case "runon":
			runonWorld(s, p)
		case "set":
			setWorldRun(s, p)
		default:
			w = newWorld(s, p)
			w.run()
		}
	})
	r := &Result{Seed: p.Seed, Hash: s.Hash, Viol: s.Viol, HarnErr: s.HarnErr, Steps: s.Steps(), Time: s.Now(), Tasks: s.NTasks(), Count: s.Count, Trace: s.Trace, pairs: s.Pairs}
	if record {
		r.Streams = s.Recorded()
	}
	r.Nontriv = s.Switches > 0 || s.Count["nontrivial"] > 0
	return r
}

func newWorld(s *rt.Sim, p *Plan) *World {
	return &World{s: s, p: p, m: newModel(), ucl: map[netip.AddrPort]*uclient{}, usedH: map[int]bool{}, everIDs: map[netip.AddrPort][]*hev[uint64]{},
		tot: map[string]int64{}, ipsUsed: map[netip.Addr]bool{}, exitSeq: inf}
}

// ---------------------------------------------------------------- process life cycle

func (w *World) trackerMain() {
	zos.Args = []string{"trakx", "execute"}
	app.Reset()
	app.Main()
}

func (w *World) launch() {
	w.exited, w.stopSeq, w.stopWhy, w.exitSeq, w.crashed = false, 0, "", inf, ""
	w.expectDown = false
	w.startSeq = w.s.Next()
	w.starts++
	w.s.OnExit = func(p *rt.Proc) {
		if p != w.proc {
			return
		}
		w.exited = true
		w.exitSeq, w.exitAt = w.s.Next(), w.s.Now()
		if p.Crash != "" {
			w.crashed = p.Crash + " at " + p.CrashStack
		} else if p.FatalMsg != "" {
			w.crashed = "fatal: " + p.FatalMsg
		}
	}
	w.ticks = nil
	w.proc = w.s.StartProc("trakx", []string{"trakx", "execute"}, w.trackerMain)
	w.watchTicks(w.proc)
}

func (w *World) listening() bool {
	port := uint16(w.p.k("port"))
	return (w.p.k("udp") == 0 || w.s.Net.UDPOpen(port)) && (w.p.k("http") == 0 || w.s.Net.TCPOpen(port))
}

// start launches the tracker and waits until it serves.
func (w *World) start() bool {
	w.launch()
	return w.awaitUp()
}

func (w *World) awaitUp() bool {
	limit := w.s.Now() + 30e9 + w.s.FS.K.Lat*50
	for !w.listening() {
		if w.exited {
			return false
		}
		if w.s.Now() > limit {
			w.viol("*", "nostart", "the tracker does not listen %v s after its start", (w.s.Now()-limit)/1e9+30)
			return false
		}
		w.s.Sleep(1e6)
	}
	return true
}

func (w *World) checkCrash() {
	if !w.exited || w.s.Viol != nil {
		return
	}
	if w.crashed != "" {
		w.viol("*", "crash", "the tracker process died: %s", w.crashed)
		return
	}
	if !w.expectDown {
		w.viol("*", "exit", "the tracker process ended by itself with status %d", w.proc.ExitCode)
	}
}

// ---------------------------------------------------------------- faults

func (w *World) faults(on bool) {
	k := func(n string) int {
		if !on {
			return 0
		}
		return int(w.p.k(n))
	}
	n := &w.s.Net.K
	n.Delay, n.Jitter, n.Quantum = w.p.k("delay"), w.p.k("jitter"), w.p.k("quantum")
	n.Drop, n.Dup, n.Corrupt = k("drop"), k("dup"), k("corrupt")
	n.RecvErr, n.SendErr, n.AcceptErr, n.ReadErr, n.WErr, n.Frag = k("recverr"), k("senderr"), k("accepterr"), k("readerr"), k("werr"), k("frag")
	w.s.Cfg.StallPM, w.s.Cfg.TickPM, w.s.Cfg.PausePM = k("stallpm"), k("tickpm"), k("pause")
	w.diskFaults(on)
	if w.p.k("btype") == 2 {
		g := &w.s.PG.K
		g.Err, g.Lost, g.LostAfter, g.Lat = k("pgerr"), k("pglost"), k("pglostafter"), int64(k("pglat"))
		w.s.PG.Down = on && k("pgdown") != 0
		if on && p_any(g.Err, g.Lost, g.LostAfter, k("pgdown")) {
			w.diskFault = true
		}
		if !on {
			w.s.PG.Down = false
		}
	}
}

func (w *World) diskFaults(on bool) {
	k := func(n string) int {
		if !on {
			return 0
		}
		return int(w.p.k(n))
	}
	f := &w.s.FS.K
	f.WriteErr, f.OpenErr, f.SyncErr, f.RenameErr, f.ReadErr, f.CloseErr, f.ShortW = k("fwerr"), k("foerr"), k("fserr"), k("frerr"), k("frderr"), k("fcerr"), k("fshort")
	f.StatErr = k("fstat")
	f.Lat = w.p.k("flat")
	w.s.FS.ReadOnly = ""
	f.Space = -1
	if on && w.p.k("fspace") > 0 {
		f.Space = w.p.k("fspace") - 1
	}
	if on && (f.WriteErr+f.OpenErr+f.SyncErr+f.RenameErr+f.CloseErr+f.ShortW > 0 || f.Space >= 0) {
		w.diskFault, w.idFault = true, true
		w.fsFaulty = true
	} else {
		w.fsFaulty = false
	}
}

func p_any(xs ...int) bool {
	for _, x := range xs {
		if x != 0 {
			return true
		}
	}
	return false
}

// quiesce waits until nothing is in flight.
func (w *World) quiesce() {
	w.faults(false)
	d := int64(50e6) + w.p.k("stallmax") + 20*(w.p.k("delay")+w.p.k("jitter"))
	w.s.Sleep(d)
	for i := 0; i < 200 && !w.exited && !w.s.Ended(); i++ {
		if w.s.Net.UDPQueue(uint16(w.p.k("port"))) == 0 && w.connsDone() {
			break
		}
		w.s.Sleep(100e6)
	}
	w.s.Sleep(20e6 + w.s.FS.K.Lat*4)
}

func (w *World) connsDone() bool {
	for _, c := range w.s.Net.Conn[w.connPos:] {
		if !c.Closed() {
			return false
		}
	}
	for _, c := range w.pend {
		if !c.Closed() {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- history

// collect turns what crossed the sockets since the last call into requests, adds their effects to the model and checks
// the answers. It is called when nothing is in flight or the process is gone.
func (w *World) collect() {
	n := w.s.Net
	var reqs []*Req
	byAddr := map[netip.AddrPort][]*Req{}
	byIn := map[*rt.UDPIn]*Req{}
	for _, in := range n.In[w.inPos:] {
		r := w.newUDPReq(in)
		reqs = append(reqs, r)
		byAddr[in.From] = append(byAddr[in.From], r)
		byIn[in] = r
	}
	w.inPos = len(n.In)
	for _, o := range n.Out[w.outPos:] {
		to := o.To
		var cand *Req
		match := func(r *Req) bool {
			if len(o.Data) == 1 && o.Data[0] == 0xff {
				return r.Exp == "hb" || r.Kind == "junk" && (r.Exp != "none" || r == byIn[o.Last])
			}
			return len(o.Data) >= 8 && be32(o.Data[4:]) == r.Tx && r.Exp != "none" && r.Exp != "hb"
		}
		if l := byIn[o.Last]; l != nil && l.Src == to && match(l) && len(l.Outs) == 0 {
			cand = l
		} else {
			// A reply whose request is not known by the task that sent it: the least answered request it may answer,
			// one it suits before one it does not.
			score := func(r *Req) int {
				n := 2 * len(r.Outs)
				if !r.suits(o.Data) {
					n++
				}
				return n
			}
			for _, r := range byAddr[to] {
				if match(r) && r.Call < o.Seq && (cand == nil || score(cand) > score(r)) {
					cand = r
				}
			}
		}
		if cand == nil {
			w.viol("C06", "spurious", "a datagram was sent to %v that answers no request from there: % x", to, o.Data[:min(len(o.Data), 40)])
			continue
		}
		cand.Outs = append(cand.Outs, o)
		if len(cand.Outs) == 1 {
			cand.udpAnswer(o)
		}
	}
	w.outPos = len(n.Out)
	var pend []*rt.TCPConn
	for _, c := range append(append([]*rt.TCPConn(nil), w.pend...), n.Conn[w.connPos:]...) {
		if !c.Closed() {
			pend = append(pend, c)
			hold := w.holdLimit()
			if !c.Taken { // accepted, but no worker was free yet
				hold *= int64(len(w.s.Net.Conn))
			}
			if c.Accepted && !w.exited && w.p.k("http") == 1 && w.s.Now() > c.AcceptAt+hold+1e9 {
				w.viol("C12", "leaked", "a connection from %v is still open %.3f s after it was accepted; read and write timeout are %d ms and %d ms",
					c.Remote, float64(w.s.Now()-c.AcceptAt)/1e9, w.p.k("rto"), w.p.k("wto"))
			}
			continue
		}
		if !c.Accepted {
			continue
		}
		r := w.newHTTPReq(c)
		r.httpAnswer()
		reqs = append(reqs, r)
	}
	w.pend = pend
	w.connPos = len(n.Conn)
	sort.SliceStable(reqs, func(i, j int) bool { return reqs[i].Call < reqs[j].Call })
	for _, r := range reqs {
		if !r.Finished || r.Ret > w.exitSeq {
			r.Died = w.exited
			if r.Ret == inf || r.Ret > w.exitSeq {
				r.Ret, r.RetAt = w.exitSeq, w.exitAt
				if !w.exited {
					r.Ret, r.RetAt = w.s.Next(), w.s.Now()
				}
			}
		}
		w.effect(r)
	}
	for _, r := range reqs {
		w.tally(r)
	}
	w.served += len(reqs)
	w.reqs = append(w.reqs, reqs...)
	for i, r := range reqs {
		if w.s.Viol != nil {
			return
		}
		if sp := w.p.k("sparse"); sp > 0 && !w.quiet && i%int(sp) != 0 {
			continue
		}
		w.check(r)
	}
	w.checkClients()
}

// effect adds the request's effect to the model.
func (w *World) effect(r *Req) {
	answered := r.Got != ""
	switch r.Kind {
	case "connect":
		if r.Got == "connect" {
			e := &hev[uint64]{call: r.Call, ret: r.Ret, lo: r.CallAt, hi: r.RetAt, present: true, v: r.NewID}
			w.m.addID(r.Src, e)
			w.everIDs[r.Src] = append(w.everIDs[r.Src], e)
		} else if r.Died && r.Proto == 'u' {
			// an id was possibly issued that nobody knows: it may have replaced the current one
			w.m.addID(r.Src, &hev[uint64]{call: r.Call, ret: r.Ret, lo: r.CallAt, hi: r.RetAt, present: true, maybe: true, v: ^uint64(0)})
		}
	case "announce", "stop":
		e := &hev[PS]{call: r.Call, ret: r.Ret, lo: r.CallAt, hi: r.RetAt, present: r.Kind == "announce"}
		e.v = PS{AP: netip.AddrPortFrom(r.IP, r.Port), Complete: r.Complete}
		if r.Got == "error" || r.Got == "scrape" || r.Got == "connect" || (r.Got == "status" && r.Rep.Status != "200") {
			return
		}
		if !answered || r.Got == "bad" {
			e.maybe = true
		}
		w.m.add(r.Hash, r.Peer, e)
		r.own = e
	}
}

// ---------------------------------------------------------------- checks of one answer

func (w *World) check(r *Req) {
	s := w.s
	if r.Proto == 'u' {
		w.checkUDP(r)
	} else {
		w.checkHTTP(r)
	}
	if s.Viol != nil {
		return
	}
	exactP := ""
	if w.quiet {
		exactP = "C01,"
	}
	switch r.Got {
	case "announce":
		if r.Kind != "announce" {
			return
		}
		ms := w.m.members(r.Hash, r.Call, r.Ret, r.RetAt, &r.Peer, r.own)
		w.checkCounts(r, exactP, r.Hash, ms, r.Seeders, r.Leechers)
		w.checkLists(r, exactP, ms)
		if lo, hi := w.p.k("base"), w.p.k("base")+w.p.k("fuzz"); r.Interval < lo || r.Interval > hi {
			w.viol("C23", "interval", "%v is told interval %d, outside [%d,%d]", r, r.Interval, lo, hi)
		}
	case "scrape":
		for i, h := range r.Counted {
			ms := w.m.members(h, r.Call, r.Ret, r.RetAt, nil, nil)
			w.checkCounts(r, exactP, h, ms, r.Counts[i][0], r.Counts[i][1])
		}
	}
}

func (w *World) checkCounts(r *Req, exactP string, h hashID, ms []member, s, l int64) {
	if !countsFit(ms, s, l) {
		sLo, sHi, lLo, lHi := bounds(ms)
		lo, hi := sizeBounds(ms)
		props := exactP + "C02,C26"
		if w.quiet {
			props += ",C04,C07,C09,C13,C15,C14,C16,C22,C11,C10,C18"
		}
		if r.Kind == "scrape" {
			props += ",C06,C24"
		}
		w.viol(props, "counts", "%v: swarm %x has counts seeders=%d leechers=%d, possible are [%d,%d] and [%d,%d], together [%d,%d]", r, h[16:], s, l, sLo, sHi, lLo, lHi, lo, hi)
	}
}

func (w *World) checkLists(r *Req, exactP string, ms []member) {
	props := exactP + "C05,C26"
	if w.quiet {
		props += ",C04,C07,C09,C13,C15,C14,C16,C22,C11,C10"
	}
	type lst struct {
		name string
		l    []entry
		six  int // 0 v4, 1 v6, 2 both
	}
	var ls []lst
	switch {
	case r.Proto == 'u' && r.IP.Is6():
		ls = []lst{{"IPv6 list", r.L6, 1}}
	case r.Proto == 'u':
		ls = []lst{{"IPv4 list", r.L4, 0}}
	case r.Compact:
		ls = []lst{{"compact IPv4 list", r.L4, 0}, {"compact IPv6 list", r.L6, 1}}
	default:
		ls = []lst{{"peer list", r.LD, 2}}
	}
	for _, l := range ls {
		if int64(len(l.l)) > r.Limit {
			w.viol("C23", "toomany", "%v: %s of %d peers, at most %d were asked for", r, l.name, len(l.l), r.Limit)
		}
		type pk struct {
			ap netip.AddrPort
			id string
		}
		allowed := map[pk]int{}
		must := map[pk]int{}
		total := 0
		for _, m := range ms {
			aps := map[netip.AddrPort]bool{}
			fam := false
			for _, v := range m.vals {
				if l.six == 2 || v.v.AP.Addr().Is6() == (l.six == 1) {
					aps[v.v.AP] = true
					fam = true
				}
			}
			if fam {
				total++
			}
			id := ""
			if l.six == 2 && !r.NoID {
				id = string(m.id[:])
			}
			for ap := range aps {
				allowed[pk{ap, id}]++
				if len(m.vals) == 1 && !m.absent {
					must[pk{ap, id}]++
				}
			}
		}
		seen := map[pk]int{}
		for _, e := range l.l {
			k := pk{e.AP, e.ID}
			seen[k]++
			if seen[k] > allowed[k] {
				why := "is no member of the swarm"
				if allowed[k] > 0 {
					why = "is listed more often than there are members under it"
				}
				w.viol(props+",C09,C24", "listed", "%v: %s names %v (peer id %x), which %s", r, l.name, e.AP, lastBytes(e.ID), why)
				return
			}
		}
		if len(l.l) > total {
			w.viol(props+",C24", "listed", "%v: %s has %d entries for at most %d members", r, l.name, len(l.l), total)
			return
		}
		ids := map[string]bool{}
		for _, e := range l.l {
			if e.ID != "" && ids[e.ID] {
				w.viol(props+",C24", "listed", "%v: %s names peer %x twice", r, l.name, lastBytes(e.ID))
				return
			}
			ids[e.ID] = true
		}
		if int64(total) <= r.Limit && r.Finished {
			var mk []pk
			for k := range must {
				mk = append(mk, k)
			}
			sort.Slice(mk, func(i, j int) bool {
				if c := mk[i].ap.Compare(mk[j].ap); c != 0 {
					return c < 0
				}
				return mk[i].id < mk[j].id
			})
			for _, k := range mk {
				if seen[k] < must[k] {
					if r.DefNW { // a count below one means the default
						props += ",C23"
					}
					w.viol(props, "missing", "%v: %s omits member %v (peer id %x) although it has room (%d of at most %d listed, %d members)", r, l.name, k.ap, lastBytes(k.id), len(l.l), r.Limit, total)
					return
				}
			}
		}
	}
}

func lastBytes(s string) string {
	if len(s) > 8 {
		return s[8:12]
	}
	return s
}

func (w *World) checkUDP(r *Req) {
	if r.Exp == "none" {
		if len(r.Outs) > 0 {
			w.viol("C06", "answered", "a datagram of %d bytes from %v was answered", r.In.Size, r.Src)
		}
		return
	}
	sent := 0
	for _, o := range r.Outs {
		if !o.Err {
			sent++
		}
	}
	if sent > 1 {
		w.viol("C06", "twice", "%v got %d answers", r, len(r.Outs))
		return
	}
	if len(r.Outs) == 0 {
		if !w.exited && r.WF {
			w.viol("C06,C11", "unanswered", "%v got no answer", r)
		}
		return
	}
	if r.Got == "bad" {
		w.viol("C06", "malformed", "%v: %s", r, r.GotErr)
		return
	}
	exp := r.Exp
	if r.NeedID && w.p.k("validate") != 0 {
		accept, refuse := w.idVerdict(r)
		accepted := r.Got != "error"
		if !accepted && exp == "error" {
			return
		}
		if accepted && !accept {
			w.viol("C07,C08,C16,C17", "accepted", "%v with connection id %x was accepted: %s", r, r.ID, w.idWhy(r))
			return
		}
		if !accepted && !refuse && exp != "error" {
			w.viol("C06,C07,C08,C16,C17", "refused", "%v with connection id %x was refused: %s", r, r.ID, w.idWhy(r))
			return
		}
		if !accepted {
			return
		}
	}
	if r.WF && r.Got != exp {
		props := "C06"
		if exp == "announce" || exp == "stop" {
			props += ",C01"
		}
		w.viol(props, "kind", "%v was answered with %q, expected %q", r, r.Got, exp)
	}
}

// idVerdict: may the id be accepted, may it be refused.
func (w *World) idVerdict(r *Req) (accept, refuse bool) {
	h := w.m.ids[r.Src]
	if h == nil {
		return false, true
	}
	vals, absent := h.at(r.Call, r.Ret, r.RetAt, nil, w.m.cexp, w.m.cpass)
	refuse = absent
	for _, v := range vals {
		if v.v == r.ID {
			accept = true
		} else {
			refuse = true
		}
	}
	return
}

func (w *World) idWhy(r *Req) string {
	h := w.m.ids[r.Src]
	if h == nil {
		return "no id was ever issued to this address"
	}
	vals, absent := h.at(r.Call, r.Ret, r.RetAt, nil, w.m.cexp, w.m.cpass)
	t := ""
	for _, v := range vals {
		t += fmt.Sprintf(" %x (issued at %.3fs)", v.v, float64(v.lo)/1e9)
	}
	if absent {
		t += " none"
	}
	return fmt.Sprintf("at %.3fs the address could have id%s", float64(r.RetAt)/1e9, t)
}

func (w *World) checkHTTP(r *Req) {
	c := r.Conn
	if r.Kind == "incomplete" {
		if r.Got == "announce" || r.Got == "scrape" || r.Got == "stop" || r.Got == "file" {
			w.viol("C10,C24", "incomplete", "a request from %v of which only %d bytes arrived (%.80q) was served: %s", r.Src, len(c.Got), c.Got, r.Got)
		}
		return
	}
	if !r.WF && r.Kind == "junk" && r.H.Complete && len(c.Got) < 2600 && w.p.k("http") == 1 && !c.WriteFailed && !c.ReadErr && r.Finished && !r.Died &&
		w.p.k("werr") == 0 && c.LastReadAt < c.AcceptAt+w.p.k("rto")*1e6 {
		// whatever it asks for, it has ended
		if r.Got == "" {
			w.viol("C24", "noreply", "%v (%.100q) got no reply", r, c.Got)
		} else if r.Got == "bad" {
			w.viol("C24", "malformed", "%v (%.100q): %s", r, c.Got, r.GotErr)
		}
		return
	}
	if !r.WF || c.WriteFailed || c.ReadErr && r.Got == "" || !r.Finished {
		return
	}
	if r.Got == "" {
		// a complete request on a connection without socket errors
		if !r.Died && w.p.k("werr") == 0 && c.LastReadAt < c.AcceptAt+w.p.k("rto")*1e6 {
			w.viol("C10,C11,C24", "noreply", "%v (%.100q) got no reply", r, c.Got)
		}
		return
	}
	if r.Exp == "any" {
		return
	}
	if r.Got == "bad" {
		w.viol("C10,C24", "malformed", "%v: %s", r, r.GotErr)
		return
	}
	ok := r.Got == r.Exp
	if r.Exp == "stop" && (r.Got == "announce" || r.Got == "stop") {
		ok = true
	}
	if r.Exp == "file" || r.Exp == "status" {
		ok = r.Rep.Status == r.Status && (r.Got == r.Exp || r.Exp == "status" && r.Got == "file")
	}
	if !ok {
		props := "C09,C10,C24"
		if r.Exp == "announce" || r.Exp == "stop" {
			props += ",C01"
		}
		w.viol(props, "kind", "%v (%.120q) was answered with %q %s (%.100q), expected %q %s", r, c.Got, r.Got, r.Rep.Status, r.Rep.Body, r.Exp, r.Status)
		return
	}
	if r.Exp == "announce" || r.Exp == "scrape" || r.Exp == "error" {
		if r.Rep.Status != "200" {
			w.viol("C24", "status", "%v was answered with status %s", r, r.Rep.Status)
		}
	}
	if r.Exp == "scrape" {
		want := map[hashID]bool{}
		for _, h := range r.Hashes {
			want[h] = true
		}
		for _, h := range r.Counted {
			if !want[h] {
				w.viol("C06,C10,C24", "scrapekey", "%v: the reply names swarm %x, which was not asked for", r, h)
			}
		}
		if len(r.Counted) != len(want) {
			w.viol("C10,C24", "scrapekey", "%v: the reply has %d swarms, %d were asked for", r, len(r.Counted), len(want))
		}
	}
	if r.Exp == "file" && r.H.Path == "/stats" && len(c.Written) > 0 {
		b := strings.TrimSpace(string(r.Rep.Body))
		if !strings.HasPrefix(b, "{") || !strings.HasSuffix(b, "}") {
			w.viol("C24,C10", "stats", "the statistics page is cut: %.60q ... %q", b, b[max(0, len(b)-40):])
		}
	}
}

// holdLimit is how long a connection may be kept.
func (w *World) holdLimit() int64 {
	return (w.p.k("rto")+w.p.k("wto"))*1e6 + 1e6 + w.p.k("stallmax")*4 + w.p.k("tickmax")*50
}

// checkClients checks what HTTP clients saw.
func (w *World) checkClients() {
	var keep []*hcli
	for _, h := range w.hclis[w.hcliPos:] {
		if h.End == 0 {
			keep = append(keep, h)
		}
	}
	byTag := map[*hcli]*rt.TCPConn{}
	for _, c := range w.s.Net.Conn {
		if h, ok := c.Tag.(*hcli); ok {
			byTag[h] = c
		}
	}
	for _, h := range w.hclis[w.hcliPos:] {
		if h.End == 0 {
			continue
		}
		c := byTag[h]
		if c == nil || !c.Accepted {
			continue
		}
		occ := c.CloseAt - c.AcceptAt
		lim := w.holdLimit()
		if c.Closed() && occ > lim {
			w.viol("C12", "overstay", "a connection from %v occupied a worker for %.3f s; read and write timeout are %d ms and %d ms", c.Remote, float64(occ)/1e9, w.p.k("rto"), w.p.k("wto"))
		}
		// a window's worth of bytes needs a round trip
		transfer := (int64(len(c.Written))/max(1, w.p.k("window")) + 2) * 2 * (w.p.k("delay") + w.p.k("jitter") + 1e6)
		if h.Normal && h.op.Cl != clSlowRead && c.WriteFailed && !c.ReadErr && !w.exited && len(c.Got) == len(h.Text) &&
			w.p.k("werr")+w.p.k("readerr")+w.p.k("stallpm")+w.p.k("tickpm") == 0 && transfer < w.p.k("wto")*1e6/2 {
			w.viol("C12", "cut", "a client at %v that sent its request within %.3f s of being accepted and was reading had its reply cut off after %d bytes (timeouts %d and %d ms)",
				c.Remote, float64(c.LastReadAt-c.AcceptAt)/1e9, len(c.Written), w.p.k("rto"), w.p.k("wto"))
		}
		if !h.Normal || c.WriteFailed || w.exited || w.p.k("werr")+w.p.k("readerr") > 0 {
			continue
		}
		if h.op.Cl == clSlowRead {
			continue
		}
		ph := parseHTTP([]byte(h.Text))
		if ph.Complete && (w.p.k("http") == 1 || h.op.K != "h.raw") && ph.Plain && (ph.Body == "" || len(c.Written) == 0) && len(h.Text) <= 2600 && h.SentAt < c.AcceptAt+w.p.k("rto")*1e6-2*w.p.k("stallmax")-100e6-w.p.k("tickmax")*50 && h.Sent == len(h.Text) && len(h.Got) == 0 && !(h.Timeout && h.End < c.AcceptAt+lim) {
			w.viol("C24,C12,C10,C11", "noreply", "a client at %v sent its complete request %.3f s after accept (read timeout %d ms) and got no reply", c.Remote, float64(h.SentAt-c.AcceptAt)/1e9, w.p.k("rto"))
		}
		if c.ReadErr {
			continue
		}
		if !h.EOF && len(c.Got) == len(h.Text) && !(h.Timeout && h.End < c.AcceptAt+lim) {
			w.viol("C24,C12,C10", "cut", "a client at %v that sent its request completely saw no orderly end of the reply (reset=%v timeout=%v, %d bytes received, %d written)", c.Remote, h.RST, h.Timeout, len(h.Got), len(c.Written))
		}
		if h.EOF && string(h.Got) != string(c.Written) {
			w.s.HarnErr = "client and server views of a connection differ"
		}
	}
	w.hclis = append(w.hclis[:0:0], keep...)
	w.hcliPos = 0
}

var _ = os.Args
