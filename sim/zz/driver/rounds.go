//go:build go1.24

package main

import (
	"bytes"
	_ "embed"
	"fmt"
	"net/netip"
	"sort"
	"strings"

	"github.com/crimist/trakx/zz/rt"
)

//go:embed default.yaml
var defaultConfig []byte

func (w *World) run() {
	s, p := w.s, w.p
	w.m.exp = p.k("exp") * 1e9
	if p.k("trim") == 0 {
		w.m.exp = 0
	}
	w.m.cexp = p.k("cexp") * 1e9
	w.setupFS()
	w.collectUsed()
	w.faults(false)
	s.FS.OnWrite = func(name string) {
		if name == backupF {
			w.lastWrite, w.lastWriteAt = s.Next(), s.Now()
			w.writes = append(w.writes, s.Now())
		}
	}
	if p.World == "conf" {
		w.confWorld()
		return
	}
	if !w.start() {
		w.checkCrash()
		return
	}
	if p.k("sample") != 0 {
		w.startSampler()
	}
	for i := range p.Rounds {
		if s.Ended() {
			return
		}
		w.round(&p.Rounds[i])
	}
}

func (w *World) setupFS() {
	s, p := w.s, w.p
	fs := s.FS
	if p.k("nodir") == 0 {
		fs.MkdirAll("/home/sim/.config/trakx", 0755)
	} else {
		fs.MkdirAll("/home/sim", 0755)
	}
	fs.MkdirAll("/cwd", 0755)
	fs.MkdirAll("/data", 0755)
	switch p.k("cfg") {
	case 0:
		fs.PutFile(cfgPath, []byte(configYAML(p)))
	case 2: // a truncated configuration of the user's own
		fs.PutFile(cfgPath, []byte(configYAML(p))[:200])
	}
	fs.SyncAll()
	s.PG.MaxConn = int(p.k("pgconn"))
	if s.PG.MaxConn == 0 {
		s.PG.MaxConn = 20
	}
}

func (w *World) collectUsed() {
	for _, r := range w.p.Rounds {
		for _, o := range r.Ops {
			for _, h := range o.H {
				w.usedH[h] = true
			}
		}
	}
	w.usedH[990] = true // never announced
}

func (w *World) round(r *Round) {
	s := w.s
	if !w.exited {
		w.faults(true)
	}
	actors := map[int][]Op{}
	var ids []int
	for _, o := range r.Ops {
		if _, ok := actors[o.C]; !ok {
			ids = append(ids, o.C)
		}
		actors[o.C] = append(actors[o.C], o)
	}
	var ts []*rt.Task
	for _, id := range ids {
		ops := actors[id]
		ts = append(ts, s.Go(fmt.Sprintf("client%d", id), func() {
			for i := range ops {
				if s.Ended() {
					return
				}
				w.do(&ops[i])
			}
		}))
	}
	s.Join(ts...)
	if r.Idle > 0 {
		s.Sleep(r.Idle)
	}
	w.quiesce()
	if s.Ended() {
		return
	}
	w.checkStop()
	w.collect()
	w.checkCrash()
	if s.Ended() {
		return
	}
	if w.exited {
		if !w.restart() {
			return
		}
	}
	for _, e := range strings.Fields(r.End) {
		if s.Ended() {
			return
		}
		w.end(e)
		if s.Ended() {
			return
		}
		w.checkCrash()
	}
	w.settle()
}

// settle is called at a quiescent point after everything was checked.
func (w *World) settle() {
	if w.exited || w.s.Ended() {
		return
	}
	w.collect()
	w.awaitBackups()
	if w.exited || w.s.Ended() {
		return
	}
	w.noteBackups()
	w.m.settleAll(w.s.Next())
	w.lastQuiet = w.s.Next()
	w.diskFault, w.idFault = false, false
	w.reqs = w.reqs[:0]
}

// bmargin is how long after its start a backup is certainly over when the disk works.
func (w *World) bmargin() int64 {
	m := 60e6 + 30*w.p.k("flat") + 12*w.p.k("stallmax") + 200*w.p.k("tickmax")
	if w.p.k("btype") == 2 {
		m += 8 * w.p.k("pglat")
	}
	return m
}

// watchTicks records the instants just before periodic backups.
func (w *World) watchTicks(proc *rt.Proc) {
	per := w.p.k("bfreq") * 1e9
	if per == 0 || w.p.k("btype") == 0 || w.proc != proc || !proc.Alive {
		return
	}
	d := per - w.s.Wall()%per - 1
	if d <= 0 {
		d += per
	}
	w.s.After(d, func() {
		if w.proc == proc && proc.Alive {
			w.ticks = append(w.ticks, tick{w.s.Now(), w.s.Next()})
			w.watchTicks(proc)
		}
	})
}

// awaitBackups waits until no backup is in progress.
func (w *World) awaitBackups() {
	if w.p.k("btype") == 0 {
		return
	}
	for i := 0; i < 50 && !w.exited && !w.s.Ended(); i++ {
		last := int64(-1)
		for _, b := range w.backups {
			if b.img == nil {
				last = max(last, b.at)
			}
		}
		if n := len(w.ticks); n > 0 {
			last = max(last, w.ticks[n-1].at)
		}
		if last < 0 || w.s.Now() >= last+w.bmargin() {
			return
		}
		w.s.Sleep(last + w.bmargin() - w.s.Now())
	}
}

// noteBackups decides, when no backup is in progress, what the stored one may contain.
func (w *World) noteBackups() {
	if w.p.k("btype") == 0 {
		return
	}
	s := w.s
	latest := int64(-1)
	name := ""
	for _, b := range w.backups {
		if b.img == nil && b.c > latest {
			latest, name = b.c, b.name
		}
	}
	if name == "usr1" { // the connection database was saved too
		w.idSave = nil
		if !w.idFault && w.p.k("btype") == 1 {
			w.idSave = w.snap(&backup{}, latest, s.Next(), s.Now()).ids
		}
	}
	for _, t := range w.ticks {
		if t.seq > latest {
			latest, name = t.seq, "periodic"
		}
	}
	var done []*backup
	for _, b := range w.backups {
		if b.img != nil {
			done = append(done, b)
		}
	}
	w.ticks = nil
	if latest < 0 {
		w.backups = done
		return
	}
	if w.diskFault {
		for _, b := range w.backups {
			if b.img == nil {
				w.snap(b, b.c, s.Next(), s.Now())
			}
		}
		if w.p.k("bfreq") > 0 {
			w.backups = append(w.backups, w.snap(&backup{name: "periodic"}, max(w.lastQuiet, w.startSeq), s.Next(), s.Now()))
		}
		return
	}
	r, rAt := s.Next(), s.Now()
	if w.lastWrite > latest && w.p.k("btype") == 1 {
		r, rAt = w.lastWrite+1, w.lastWriteAt
	}
	b := w.snap(&backup{name: name}, latest, r, rAt)
	b.certain = true
	w.backups = []*backup{b}
	s.Inc("backups_certain")
}

func (w *World) do(op *Op) {
	s := w.s
	if op.D > 0 {
		s.Sleep(op.D)
	}
	for i := 1; i < op.R && !s.Ended() && !w.exited; i++ { // the same again and again
		if strings.HasPrefix(op.K, "u.") && w.p.k("udp") != 0 {
			w.udpOp(op)
		} else if strings.HasPrefix(op.K, "h.") && w.p.k("http") != 0 {
			w.httpOp(op)
		}
		if op.W != 0 {
			s.Sleep(w.p.k("delay") + 100_000)
		}
	}
	switch {
	case strings.HasPrefix(op.K, "u."):
		if w.p.k("udp") != 0 {
			w.udpOp(op)
		}
	case strings.HasPrefix(op.K, "h."):
		if w.p.k("http") != 0 {
			w.httpOp(op)
		}
	case op.K == "tick": // until X seconds' next multiple of the wall clock, plus N
		per := int64(op.X) * 1e9
		d := per - s.Wall()%per + int64(op.N)
		if d < 0 {
			d += per
		}
		s.Sleep(d)
	case op.K == "sig":
		w.signal(op.S)
	case op.K == "kill":
		w.kill(false)
	case op.K == "power":
		w.kill(true)
	case op.K == "fscrash": // die at the N-th disk operation from now
		w.armCrash(int64(op.N), op.X == 1)
	case op.K == "disarm":
		s.FS.CrashAt = -1
	case op.K == "fsspace":
		s.FS.K.Space = int64(op.N)
		w.diskFault, w.idFault, w.fsFaulty = true, true, true
	case op.K == "fsfault":
		k := &s.FS.K
		k.WriteErr, k.OpenErr, k.SyncErr, k.RenameErr, k.CloseErr, k.ShortW = op.N, op.X, op.M, op.E, op.Fr, op.F
		w.diskFault, w.idFault, w.fsFaulty = true, true, true
	case op.K == "fsro":
		s.FS.ReadOnly = "/data"
		w.diskFault, w.fsFaulty = true, true
		s.Inc("fault.fs_readonly")
	case op.K == "fsok":
		w.diskFaults(false)
	case op.K == "clock":
		s.StepClock(int64(op.N) * 1e6)
		w.clockStepped = true
	case op.K == "sleep":
	case op.K == "pgdown":
		s.PG.Down = op.X == 1
		w.diskFault = true
		s.Inc("fault.pg_outage")
	default:
		panic("unknown op " + op.K)
	}
}

func (w *World) armCrash(n int64, power bool) {
	w.s.FS.CrashAt = n
	w.s.FS.OnCrash = func() { w.kill(power) }
}

func (w *World) kill(power bool) {
	if w.exited {
		return
	}
	w.expectDown = true
	if w.stopWhy == "" || w.stopWhy == "stop" {
		w.stopWhy = "kill"
	}
	if power {
		w.stopWhy = "power"
	}
	w.s.Inc("fault.kill")
	if power {
		w.s.OnExit = func(o func(p *rt.Proc)) func(p *rt.Proc) {
			return func(p *rt.Proc) {
				o(p)
				w.s.OnExit = o
				w.s.FS.PowerLoss()
			}
		}(w.s.OnExit)
	}
	w.proc.Kill()
}

// signal sends a signal to the tracker.
func (w *World) signal(name string) {
	if w.exited || w.proc == nil {
		return
	}
	switch name {
	case "interrupt", "terminated":
		if !w.proc.Notified { // not handled yet: the default action ends the process
			w.expectDown = true
			w.stopWhy = "kill"
			w.proc.Signal(name)
			return
		}
		if w.stopSeq == 0 {
			w.stopSeq, w.stopAt = w.s.Next(), w.s.Now()
			w.stopWhy = "stop"
			w.expectDown = true
		}
		w.proc.Signal(name)
	case "user defined signal 1":
		if !w.proc.Notified {
			return
		}
		b := &backup{c: w.s.Next(), at: w.s.Now(), name: "usr1"}
		w.backups = append(w.backups, b)
		w.proc.Signal(name)
	default:
		w.proc.Signal(name)
	}
}

const stopLimit = 20e9

// checkStop: a stop signal ends the tracker in bounded time, with success and its sockets released.
func (w *World) checkStop() {
	if w.stopSeq == 0 {
		return
	}
	lim := w.stopAt + int64(stopLimit) + 200*w.s.FS.K.Lat + w.p.k("stallmax")*20
	for !w.exited && w.s.Now() < lim && !w.s.Ended() {
		w.s.Sleep(20e6)
	}
	if w.s.Ended() {
		return
	}
	if !w.exited {
		w.viol("*", "nostop", "the tracker is still running %.1f s after the stop signal", float64(w.s.Now()-w.stopAt)/1e9)
		return
	}
	if w.crashed == "" && w.stopWhy == "stop" && (w.proc.ExitCode != 0 || w.proc.Signaled != "") {
		w.viol("C16", "exitcode", "after the stop signal the tracker ended with status %d signal %q", w.proc.ExitCode, w.proc.Signaled)
	}
}

// snap is what a backup taken during [c,r] may contain.
func (w *World) snap(b *backup, c, r, rAt int64) *backup {
	b.c, b.r, b.rAt = c, r, rAt
	b.img = map[hashID]map[hashID]*img{}
	for h, s := range w.m.sw {
		b.img[h] = map[hashID]*img{}
		for id, k := range s {
			v, a := k.at(c, r, rAt, nil, w.m.exp, w.m.passes)
			b.img[h][id] = &img{v, a}
		}
	}
	b.ids = map[netip.AddrPort]*idImg{}
	for a, k := range w.m.ids {
		v, abs := k.at(c, r, rAt, nil, w.m.cexp, w.m.cpass)
		b.ids[a] = &idImg{v, abs}
	}
	return b
}

// downState is what the next start may find, once the process is gone.
func (w *World) downState() (cands []*backup, idc map[netip.AddrPort]*idImg) {
	graceful := w.stopWhy == "stop" && w.crashed == ""
	clean := !w.diskFault
	saved := w.idSave
	if w.idFault || w.stopSeq > 0 {
		saved = nil
	}
	for _, b := range w.backups {
		if b.img == nil && b.name == "usr1" {
			saved = nil
		}
	}
	if w.p.k("btype") == 0 {
		w.backups = nil
		cands = []*backup{{name: "empty"}}
	} else {
		// backups of this life that were not resolved at a quiescent point
		for _, b := range w.backups {
			if b.img == nil {
				w.snap(b, b.c, w.exitSeq, w.exitAt)
			}
		}
		if w.p.k("bfreq") > 0 && len(w.ticks) > 0 {
			w.backups = append(w.backups, w.snap(&backup{name: "periodic"}, max(w.lastQuiet, w.startSeq), w.exitSeq, w.exitAt))
		}
		w.ticks = nil
		if w.stopSeq > 0 {
			b := w.snap(&backup{name: "final"}, w.stopSeq, w.exitSeq, w.exitAt)
			b.certain = graceful && clean
			w.backups = append(w.backups, b)
		}
		cands = w.candidates()
	}
	idc = map[netip.AddrPort]*idImg{}
	if graceful && !w.idFault {
		b := w.snap(&backup{}, w.stopSeq, w.exitSeq, w.exitAt)
		idc = b.ids
	} else if saved != nil { // what the save signal wrote
		idc = saved
		w.s.Inc("ids_restored_from_save_signal")
	} else {
		for a, l := range w.everIDs {
			idc[a] = &idImg{l, true}
		}
	}
	return
}

// restart starts the tracker again after it went down and derives what it must contain now.
func (w *World) restart() bool {
	cands, idc := w.downState()
	return w.bring(cands, idc)
}

func (w *World) bring(cands []*backup, idc map[netip.AddrPort]*idImg) bool {
	s := w.s
	bt := w.p.k("btype")
	s.FS.CrashAt = -1
	w.faults(false)
	s.Sleep(1e6 + int64(s.Misc.N(3000))*1e6)
	if a := w.p.k("away"); a > 0 && s.Misc.N(2) == 0 { // down for long
		s.Sleep(a * 1e9)
		s.Inc("long_downtimes")
	}
	why := w.stopWhy
	up := false
	for i := w.p.k("bootfail"); i > 0 && !up && s.Misc.N(3) > 0; i-- { // the storage fails while it starts: it may not come up, but not without its data either
		f, g := &s.FS.K, &s.PG.K
		switch {
		case bt == 1:
			s.FS.FaultOnly = "/data"
			f.ReadErr, f.OpenErr = s.Misc.Pick(0, 300, 1000), s.Misc.Pick(0, 300, 1000)
		case bt == 2:
			g.Err, g.Lost, g.LostAfter = s.Misc.Pick(0, 150, 400), s.Misc.Pick(0, 150, 400), s.Misc.Pick(0, 150, 400)
			s.PG.Down = s.Misc.N(10) == 0
		}
		up = w.start()
		s.FS.FaultOnly = ""
		f.ReadErr, f.OpenErr = 0, 0
		g.Err, g.Lost, g.LostAfter, s.PG.Down = 0, 0, 0, false
		if s.Viol != nil {
			return false
		}
		if up {
			s.Inc("boots.survived_faults")
		} else if w.proc.Crash != "" {
			w.viol("*", "bootcrash", "the tracker crashes when its backup cannot be read: %s", w.crashed)
			return false
		} else {
			s.Inc("boots.failed")
			s.Sleep(1e6 + int64(s.Misc.N(3000))*1e6)
		}
	}
	if !up && !w.start() {
		if w.crashed != "" {
			w.viol("*", "restart", "after a %s the tracker does not start again: %s", why, w.crashed)
		} else {
			w.viol("*", "restart", "after a %s the tracker does not start again (status %d)", why, w.proc.ExitCode)
		}
		return false
	}
	// the new model: any candidate
	seq := s.Next() + 1
	s.Next()
	s.Next()
	w.m.sw = map[hashID]map[hashID]*hist[PS]{}
	type key struct{ h, id hashID }
	alts := map[key]*img{}
	var keys []key
	for _, c := range cands {
		for h, m := range c.img {
			for id := range m {
				k := key{h, id}
				if alts[k] == nil {
					alts[k] = &img{}
					keys = append(keys, k)
				}
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		return string(keys[i].h[:])+string(keys[i].id[:]) < string(keys[j].h[:])+string(keys[j].id[:])
	})
	for _, k := range keys {
		a := alts[k]
		for _, c := range cands {
			x := (*img)(nil)
			if m := c.img[k.h]; m != nil {
				x = m[k.id]
			}
			if x == nil {
				a.absent = true
				continue
			}
			a.absent = a.absent || x.absent
			a.vals = append(a.vals, x.vals...)
		}
		for _, v := range a.vals {
			w.m.add(k.h, k.id, &hev[PS]{call: seq - 1, ret: seq, lo: v.lo, hi: v.hi, present: true, v: v.v})
		}
		if a.absent {
			w.m.add(k.h, k.id, &hev[PS]{call: seq - 1, ret: seq})
		}
	}
	w.idSave = nil
	w.m.ids = map[netip.AddrPort]*hist[uint64]{}
	for a, x := range idc {
		for _, v := range x.vals {
			w.m.addID(a, &hev[uint64]{call: seq - 1, ret: seq, lo: v.lo, hi: v.hi, present: true, v: v.v})
		}
		if x.absent || len(x.vals) == 0 {
			w.m.addID(a, &hev[uint64]{call: seq - 1, ret: seq})
		}
	}
	w.lastQuiet = s.Next()
	w.s.Inc("restart." + why)
	w.s.Inc("nontrivial")
	// what was restored is what the disk holds
	if bt != 0 {
		w.backups = []*backup{{c: seq, r: seq, certain: true, name: "restored"}}
		w.snap(w.backups[0], s.Next(), s.Next()+1, s.Now())
	}
	for i := range w.ticks { // a backup made while it was starting holds what was restored
		w.ticks[i].seq = max(w.ticks[i].seq, s.Next())
	}
	w.diskFault, w.idFault = false, false
	if bt != 0 && len(cands) > 1 {
		w.pickCandidate(cands)
	}
	return true
}

// candidates are the backups the next start may load: the newest certain one and everything after it.
func (w *World) candidates() []*backup {
	from := -1
	for i, b := range w.backups {
		if b.certain {
			from = i
		}
	}
	var out []*backup
	if from < 0 {
		out = append(out, &backup{name: "empty", img: map[hashID]map[hashID]*img{}})
		from = 0
	}
	return append(out, w.backups[from:]...)
}

// pickCandidate reads the restored contents and requires them to be those of one backup.
func (w *World) pickCandidate(cands []*backup) {
	if w.p.k("http") != 1 {
		return
	}
	type obs struct {
		m    map[string]netip.AddrPort
		s, l int64
		cut  bool // the list may not name every member
		at   int64
		me   hashID // the observer
	}
	seen := map[hashID]*obs{}
	for _, h := range w.hashes() {
		list, sd, lc, ok := w.observe(h)
		if !ok {
			return
		}
		o := &obs{map[string]netip.AddrPort{}, sd, lc, int64(len(list))+1 >= w.p.k("nwlim") && int64(len(list)) != sd+lc, w.s.Now(), peerOf(probeBase + w.probeN%7)}
		for _, e := range list {
			o.m[e.ID] = e.AP
		}
		seen[hashOf(h)] = o
	}
	if w.s.Ended() {
		return
	}
	var fits []*backup
	why := ""
	for _, c := range cands {
		msg := ""
	hashes:
		for _, hi := range w.hashes() {
			h := hashOf(hi)
			o := seen[h]
			var ms []member
			for id, x := range c.img[h] {
				if len(x.vals) > 0 && id != o.me {
					m := member{id, x.vals, x.absent}
					for _, v := range x.vals { // it may have expired since the start
						m.absent = m.absent || w.m.exp > 0 && o.at-v.lo > w.m.exp
					}
					ms = append(ms, m)
				}
			}
			sort.Slice(ms, func(i, j int) bool { return string(ms[i].id[:]) < string(ms[j].id[:]) })
			for _, m := range ms {
				ap, ok := o.m[string(m.id[:])]
				if !ok && !m.absent && !o.cut {
					msg = fmt.Sprintf("peer %x of swarm %x is missing", m.id[8:12], h[16:])
					break hashes
				}
				if ok {
					fit := false
					for _, v := range m.vals {
						fit = fit || v.v.AP == ap
					}
					if !fit {
						msg = fmt.Sprintf("peer %x of swarm %x is %v", m.id[8:12], h[16:], ap)
						break hashes
					}
				}
			}
			for _, id := range sortedKeys(o.m) {
				if c.img[h][hashID([]byte(id))] == nil {
					msg = fmt.Sprintf("peer %x of swarm %x is extra", id[8:12], h[16:])
					break hashes
				}
			}
			if !countsFit(ms, o.s, o.l) {
				msg = fmt.Sprintf("swarm %x has counts %d/%d", h[16:], o.s, o.l)
				break
			}
		}
		if msg == "" {
			fits = append(fits, c)
		}
		why += fmt.Sprintf(" [%s: %s]", c.name, msg)
	}
	if len(fits) == 0 {
		w.viol("C13,C14,C15,C22,C26", "mixture", "what was restored after the %s matches no single backup:%s", w.p.Prop, why)
		return
	}
}

func (w *World) hashes() []int {
	var hs []int
	for h := range w.usedH {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	return hs
}

// ---------------------------------------------------------------- quiescent ends

func probeAddr(fam int) int { return 60<<1 | fam }

// observe lists a swarm with a reserved peer, which it removes again.
func (w *World) observe(h int) (list []entry, s, l int64, ok bool) {
	w.quiet = true
	defer func() { w.quiet = false }()
	w.probeN++
	pid := probeBase + w.probeN%7
	w.collect()
	lim := int(w.p.k("nwlim"))
	w.httpOp(&Op{K: "h.ann", A: probeAddr(w.probeN & 1), H: []int{h}, P: pid, X: 4000 + w.probeN%1000, N: lim})
	n := len(w.reqs)
	w.collect()
	var r *Req
	for _, x := range w.reqs[n:] {
		if x.Kind == "announce" && x.Got == "announce" {
			r = x
		}
	}
	w.answered(r, "an HTTP announce")
	if r == nil {
		return nil, 0, 0, false
	}
	id := peerOf(pid)
	for _, e := range r.LD {
		if e.ID != string(id[:]) {
			list = append(list, e)
		}
	}
	w.httpOp(&Op{K: "h.ann", A: probeAddr(0), H: []int{h}, P: pid, X: 4000, N: -1, F: 3 << 1})
	w.collect()
	return list, r.Seeders, r.Leechers - 1, !w.s.Ended()
}

func (w *World) answered(r *Req, what string) {
	if r == nil && !w.exited && !w.s.Ended() {
		w.viol("*", "unresponsive", "with all faults over, %s gets no answer", what)
	}
}

// probe reads every swarm through every protocol while nothing else is in flight; the generic checks are exact then.
func (w *World) probe() {
	if w.exited || w.s.Ended() {
		return
	}
	w.settle()
	if w.exited || w.s.Ended() {
		return
	}
	w.quiet = true
	defer func() { w.quiet = false }()
	hs := w.hashes()
	p := w.p
	last := func(kind string, n int) *Req {
		w.collect()
		for i := len(w.reqs) - 1; i >= n; i-- {
			if w.reqs[i].Kind == kind && w.reqs[i].Got == kind {
				return w.reqs[i]
			}
		}
		return nil
	}
	if p.k("udp") != 0 {
		for _, fam := range []int{0, 1} {
			c := w.ucli(probeAddr(fam))
			if p.k("validate") != 0 {
				n := len(w.reqs)
				c.connect(2e9, 0)
				w.answered(last("connect", n), "a UDP connect")
			}
			for i := 0; i < len(hs) && !w.s.Ended(); i += 20 {
				n := len(w.reqs)
				w.udpOp(&Op{K: "u.scr", A: probeAddr(fam), H: hs[i:min(len(hs), i+20)]})
				w.answered(last("scrape", n), "a UDP scrape")
			}
			for _, h := range hs {
				if w.s.Ended() {
					return
				}
				n := len(w.reqs)
				w.udpOp(&Op{K: "u.ann", A: probeAddr(fam), H: []int{h}, P: probeBase + 10 + fam, N: int(p.k("nwlim")), X: 5000 + fam, F: fam})
				w.answered(last("announce", n), "a UDP announce")
				n = len(w.reqs)
				w.udpOp(&Op{K: "u.ann", A: probeAddr(fam), H: []int{h}, P: probeBase + 10 + fam, X: 5000, F: 3 << 1})
				w.answered(last("stop", n), "a UDP stop")
			}
		}
	}
	if p.k("http") == 1 {
		for i := 0; i < len(hs) && !w.s.Ended(); i += 15 {
			n := len(w.reqs)
			w.httpOp(&Op{K: "h.scr", A: probeAddr(0), H: hs[i:min(len(hs), i+15)]})
			w.answered(last("scrape", n), "an HTTP scrape")
		}
		for _, h := range hs {
			if w.s.Ended() {
				return
			}
			w.quiet = true
			w.observe(h)
			w.quiet = true
			n := len(w.reqs)
			w.httpOp(&Op{K: "h.ann", A: probeAddr(1), H: []int{h}, P: probeBase + 20, X: 5002, N: int(p.k("nwlim")), F: 8 | 1})
			w.answered(last("announce", n), "an HTTP announce")
			n = len(w.reqs)
			w.httpOp(&Op{K: "h.ann", A: probeAddr(1), H: []int{h}, P: probeBase + 20, X: 5002, N: -1, F: 3 << 1})
			w.answered(last("stop", n), "an HTTP stop")
		}
	}
}

func (w *World) end(e string) {
	s := w.s
	switch e {
	case "probe":
		w.probe()
	case "settle":
		w.settle()
	case "usr1": // a backup in a quiet moment
		w.settle()
		if w.p.k("btype") == 0 {
			return
		}
		w.signal("user defined signal 1")
		s.Sleep(1e9)
		w.settle()
	case "stop", "term":
		w.settle()
		if e == "stop" {
			w.signal("interrupt")
		} else {
			w.signal("terminated")
		}
		w.checkStop()
		w.checkCrash()
		if !s.Ended() {
			w.restart()
		}
	case "kill", "power":
		w.settle()
		w.kill(e == "power")
		s.Sleep(1e6)
		w.restart()
	case "crashsave": // the process dies in the middle of a save
		w.settle()
		w.armCrash(int64(1+s.Misc.N(5)), s.Misc.N(2) == 0)
		w.signal("user defined signal 1")
		s.Sleep(1e9)
		w.quiesce()
		w.collect()
		w.checkCrash()
		s.FS.CrashAt = -1
		if !s.Ended() && w.exited {
			w.restart()
		}
	case "early": // a stop signal while the tracker is starting
		w.settle()
		w.signal("interrupt")
		w.checkStop()
		w.checkCrash()
		if s.Ended() || !w.exited {
			return
		}
		cands, idc := w.downState()
		s.FS.K.Lat = int64(s.Misc.N(40)) * 1e6
		w.launch()
		if s.Misc.N(3) > 0 { // aim at the moment the handlers appear
			for i := 0; i < 2000 && !w.proc.Notified && !w.exited; i++ {
				s.Sleep(1e6)
			}
			s.Sleep(int64(s.Misc.N(100)) * int64([]int{1000, 100_000, 1_000_000}[s.Misc.N(3)]))
		} else {
			s.Sleep(int64(s.Misc.N(400)) * 1e6)
		}
		w.signal("interrupt")
		s.Inc("early_stops")
		w.checkStop()
		s.FS.K.Lat = w.p.k("flat")
		w.checkCrash()
		if s.Ended() || !w.exited {
			return
		}
		w.bring(cands, idc)
	case "damage0", "damage1", "damage2", "damage3", "damage4": // the connection file is damaged while the tracker is down
		w.settle()
		w.signal("interrupt")
		w.checkStop()
		w.checkCrash()
		if s.Ended() || !w.exited {
			return
		}
		cands, idc := w.downState()
		b, ok := s.FS.ReadFile(connF)
		if ok {
			switch e[6] {
			case '0':
				s.FS.Remove(connF)
			case '1':
				s.FS.PutFile(connF, b[:s.Misc.N(len(b)+1)])
			case '2':
				s.FS.PutFile(connF, nil)
			case '3':
				s.FS.PutFile(connF, []byte("\x07garbage\xff\xff\x00\x01"))
			case '4':
				s.FS.PutFile(connF, make([]byte, len(b)))
			}
			s.FS.SyncAll()
			s.Inc("fault.conn_file_damaged")
			idc = map[netip.AddrPort]*idImg{}
			for a, l := range w.everIDs {
				idc[a] = &idImg{l, true}
			}
		}
		w.bring(cands, idc)
	case "sched":
		w.schedEnd()
	case "trim": // let a trim pass of the peer database run in a quiet moment
		w.passWait("trim", &w.m.passes)
	case "ctrim":
		w.passWait("ctrim", &w.m.cpass)
	case "gauges":
		w.gauges(false)
	case "gaugestrim":
		w.passWait("trim", &w.m.passes)
		w.gauges(true)
	case "expire": // everything grows older than the expiry
		s.Sleep(w.p.k("exp")*1e9 + 1.2e9)
	case "half": // a little more than half of it
		s.Sleep(w.p.k("exp")*5e8 + 1.2e9)
	case "most":
		s.Sleep(w.p.k("exp") * 85e7)
	case "bit":
		s.Sleep(w.p.k("exp")*2e8 + 1.2e9)
	case "ids":
		w.probeIDs()
	case "leaks":
		w.leaks()
	case "drained":
		w.drained()
	case "litter":
		w.litter()
	case "sums":
		w.sums()
	default:
		panic("unknown end " + e)
	}
}

func (w *World) passWait(k string, ps *[]pass) {
	s := w.s
	per := w.p.k(k) * 1e9
	if per == 0 {
		return
	}
	w.settle()
	d := per - s.Wall()%per
	from := s.Next()
	s.Sleep(d)
	at := s.Now()
	s.Sleep(300e6 + w.p.k("stallmax"))
	if !w.clockStepped {
		*ps = append(*ps, pass{from: from, to: s.Next(), at: at})
	}
}

// schedEnd watches the periodic work of an otherwise idle tracker over several periods.
func (w *World) schedEnd() {
	s, p := w.s, w.p
	per := p.k("bfreq") * 1e9
	slack := int64(100e6)
	w.settle()
	if w.clockStepped { // a step may disturb one period
		s.Sleep(max(per, p.k("expvar")*1e9, p.k("trim")*1e9) + 500e6)
		w.clockStepped = false
	}
	w.writes = nil
	t0 := s.Now()
	d := per - s.Wall()%per
	if d < slack {
		d += per
	}
	s.Sleep(d - slack)
	w.writes = nil
	n := 4
	base := s.Now() + slack // the first multiple
	s.Sleep(int64(n)*per - 2*slack + slack)
	if s.Ended() || w.exited {
		return
	}
	hit := make([]int, n)
	for _, x := range w.writes {
		i := (x - base) / per
		if x < base || (x-base)%per > slack {
			w.viol("C20", "sys-offtick", "the backup was written %.3f s after a multiple of its period of %d s", float64(x-base)/1e9, per/1e9)
			return
		}
		hit[i]++
	}
	for i, h := range hit {
		if h == 0 {
			w.viol("C20", "sys-missed", "no backup was written at the multiple %d of its period of %d s (%.3f s after %.3f s)", i, per/1e9, float64(base+int64(i)*per-t0)/1e9, float64(t0)/1e9)
			return
		}
	}
	// statistics: requests sent within one interval show up in the next one, and only there
	ev := p.k("expvar") * 1e9
	toMid := func() {
		d := ev - s.Wall()%ev + ev/4
		s.Sleep(d)
	}
	w.collect()
	toMid()
	k := 1 + s.Misc.N(4)
	for i := 0; i < k; i++ {
		w.httpOp(&Op{K: "h.get", A: probeAddr(0), S: "/heartbeat"})
	}
	for _, want := range []int64{int64(k), 0} {
		toMid()
		if s.Ended() || w.exited {
			return
		}
		if v, ok := w.gauge("trakx.requests.hits"); !ok || v != want {
			w.viol("C20", "sys-stats", "one interval after %d requests the published hits are %d, expected %d (interval %d s)", k, v, want, ev/1e9)
			return
		}
	}
	// trimming: a peer is gone after the first trim after its expiry
	w.collect()
	h := 985
	ann := func() { w.httpOp(&Op{K: "h.ann", A: probeAddr(0), H: []int{h}, P: probeBase + 30, X: 999, N: 1}) }
	ann()
	tp := p.k("trim") * 1e9
	s.Sleep(p.k("exp")*1e9 + 1.2e9)
	s.Sleep(tp - s.Wall()%tp + slack)
	w.httpOp(&Op{K: "h.scr", A: probeAddr(0), H: []int{h}})
	n0 := len(w.reqs)
	w.collect()
	for _, r := range w.reqs[n0:] {
		if r.Kind == "scrape" && r.Got == "scrape" && len(r.Counts) == 1 && r.Counts[0] != [2]int64{} {
			w.viol("C20", "sys-trim", "a peer silent for %.1f s is still counted after a multiple of the trim period of %d s (expiry %d s)", float64(s.Now()-r.CallAt)/1e9, tp/1e9, p.k("exp"))
		}
	}
}

// probeIDs uses every connection id ever issued and checks the verdicts (in collect).
func (w *World) probeIDs() {
	if w.p.k("udp") == 0 || w.exited {
		return
	}
	w.settle()
	w.quiet = true
	defer func() { w.quiet = false }()
	var as []netip.AddrPort
	for a := range w.everIDs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Compare(as[j]) < 0 })
	if len(as) > 60 { // some of a crowd
		for i := range as[:60] {
			j := i + w.s.Misc.N(len(as)-i)
			as[i], as[j] = as[j], as[i]
		}
		as = as[:60]
	}
	h := hashOf(991)
	n := 0
	for i, a := range as {
		c := w.ucl[a]
		if c == nil {
			continue
		}
		l := w.everIDs[a]
		for j := max(0, len(l)-3); j < len(l); j++ {
			c.ask(append(udpHead(l[j].v, 2, w.tx()), h[:]...), 1e9, 0)
			n++
		}
		if o := w.everIDs[as[(i+1)%len(as)]]; len(o) > 0 && len(as) > 1 {
			c.ask(append(udpHead(o[len(o)-1].v, 2, w.tx()), h[:]...), 1e9, 0)
		}
	}
	w.collect()
	_ = n
}

// litter: temporary files never accumulate.
func (w *World) litter() {
	for _, d := range []string{"/data", "/home/sim/.cache/trakx", "/cwd", "/home/sim/.config/trakx", "/home/sim"} {
		l := w.s.FS.DirList(d)
		if len(l) > 6 {
			w.viol("C26,C14", "litter", "after %d starts the directory %s holds %d entries: %v", w.starts, d, len(l), l[:6])
		}
	}
}

// ---------------------------------------------------------------- first start (C25)

func (w *World) confWorld() {
	s, p := w.s, w.p
	own := []byte(nil)
	switch p.k("cfg") {
	case 0:
		own = []byte(configYAML(p))
	case 2:
		own = []byte(configYAML(p))[:200]
	}
	tries := int(p.k("tries"))
	for i := 0; i < tries && !s.Ended(); i++ {
		w.diskFaults(true)
		if n := p.k("crash0") * int64(i+1) / int64(tries); n > 0 {
			w.armCrash(n, p.k("power") != 0)
		}
		w.launch()
		lim := s.Now() + 5e9
		for !w.exited && s.Now() < lim {
			s.Sleep(10e6)
		}
		s.FS.CrashAt = -1
		if !w.exited {
			w.kill(p.k("power") != 0)
		}
		w.diskFaults(false)
		s.Sleep(1e6)
		s.Inc("nontrivial")
		s.Inc("restart.firststart")
		if b, ok := s.FS.ReadFile(cfgPath); ok && own != nil && !bytes.Equal(b, own) {
			w.viol("C25", "modified", "an existing configuration file was modified: %d bytes instead of %d", len(b), len(own))
			return
		}
	}
	s.FS.CrashAt = -1
	w.diskFaults(false)
	before, had := s.FS.ReadFile(cfgPath)
	if own == nil && had && !bytes.Equal(before, defaultConfig) {
		w.s.Logf("the configuration file has %d of %d bytes", len(before), len(defaultConfig))
	}
	w.launch()
	w.s.Sleep(3e9)
	got, ok := s.FS.ReadFile(cfgPath)
	if own != nil {
		if !ok || !bytes.Equal(got, own) {
			w.viol("C25", "modified", "an existing configuration file was modified: %d bytes instead of %d", len(got), len(own))
		}
		return
	}
	if !ok {
		w.viol("C25", "notinstalled", "a start without faults leaves no configuration file")
		return
	}
	if !bytes.Equal(got, defaultConfig) {
		w.viol("C25", "truncated", "after an interrupted first start the tracker runs with a configuration file of %d bytes (%q...), the default has %d", len(got), got[:min(len(got), 20)], len(defaultConfig))
		return
	}
	if w.exited && w.crashed != "" {
		w.viol("C25", "crash", "with the default configuration in place the tracker dies: %s", w.crashed)
		return
	}
	if !w.exited && (!s.Net.UDPOpen(1337) || !s.Net.TCPOpen(1337)) {
		w.viol("C25", "nostart", "with the default configuration in place the tracker does not listen")
	}
	n := 0
	for _, d := range []string{"/home/sim/.config/trakx"} {
		n += len(s.FS.DirList(d))
	}
	if n > 4+tries {
		w.viol("C25", "litter", "%d files in the configuration directory after %d starts", n, tries+1)
	}
}
