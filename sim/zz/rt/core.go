//go:build go1.24

// Package rt is the simulator: a deterministic scheduler for coroutines, a virtual clock, and the simulated
// network, disk, processes and signals (other files). Exactly one task runs at any time; every choice is drawn
// from recorded streams derived from one seed.
package rt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime/debug"
	"strings"
	"unicode/utf8"
	"unsafe"
)

// ---------------------------------------------------------------- choices

type Stream int

const (
	SSched Stream = iota // which task runs, for how long
	SNet                 // delays, losses, fragmentation
	SFault               // socket / disk / process faults
	NStreams
)

var StreamNames = [...]string{"sched", "net", "fault"}

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64, salt string) *Rng {
	h := seed ^ 0x9E3779B97F4A7C15
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 0x100000001B3
		h ^= h >> 29
	}
	r := &Rng{h}
	r.U64()
	return r
}
func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int) int      { return lo + r.N(hi-lo+1) }
func (r *Rng) P(permille int) bool       { return r.N(1000) < permille }
func (r *Rng) Pick(xs ...int) int        { return xs[r.N(len(xs))] }
func (r *Rng) PickS(xs ...string) string { return xs[r.N(len(xs))] }

// Src is one recorded stream of choices. Replaying a shorter list continues with zeros, and zero always is the
// plainest choice (no preemption, no delay, no fault).
type Src struct {
	rng    *Rng
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
	record bool
}

func (s *Src) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % uint32(n)
		}
		s.pos++
	} else {
		v = uint32(s.rng.U64() % uint64(n))
	}
	if s.record {
		s.Rec = append(s.Rec, v)
	}
	return int(v)
}

// ---------------------------------------------------------------- vector clocks

type VC []uint32

func (v *VC) Join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	x := *v
	for i, c := range o {
		if c > x[i] {
			x[i] = c
		}
	}
}
func (v VC) Copy() VC { return append(VC(nil), v...) }

// ---------------------------------------------------------------- tasks

type Task struct {
	ID      int
	Name    string
	Proc    *Proc
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	queued  bool
	done    bool
	killed  bool
	started bool
	prio    int
	vc      VC
	vix     int
	wait    string
	site    int32
	Last    any // last request read by this task (network bookkeeping)
	joiners []*Task
}

type killed struct{}

type event struct {
	at  int64
	seq uint64
	fn  func()
	ix  int
}

// Timer is a cancellable event.
type Timer struct{ e *event }

// Config of one run.
type Config struct {
	Seed     uint64
	Replay   [][]uint32 // nil: generate
	Record   bool
	Strategy int // 0 random walk, 1 priorities, 2 run-to-block
	Fuel     int // mean steps between preemptions
	StallPM  int // permille of preemptions that stall the task for virtual time
	StallMax int64
	PausePM  int   // permille of unlocks and pool returns after which the task waits until everything else has run
	TickPM   int   // permille of preemptions at which the clock moves to the next event although tasks are runnable
	TickMax  int64 // only if that event is at most this far away
	WallBase int64 // unix ns of sim time 0
	Verbose  bool
	MaxSteps int64
	MaxTime  int64
}

type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Sim struct {
	Cfg     Config
	src     [NStreams]*Src
	Misc    *Rng // connection ids etc: not recorded
	now     int64
	wallOff int64
	heap    []*event
	seq     uint64
	runq    []*Task
	tasks   []*Task
	ntask   int
	fuel    int
	steps   int64
	inst    int64
	root    *Task
	ended   bool
	Hash    uint64
	Trace   []string
	Count   map[string]int64
	Pairs   map[uint64]struct{}
	Viol    *Violation
	HarnErr string
	Vars    []any // addresses of the package variables of the program under test
	loaded  *Proc // whose package variables are in place
	curProc *Proc
	EvSeq   int64 // global event sequence number for histories

	procs    map[int]*Proc
	nextPid  int
	FS       *FS
	Net      *Net
	PG       *PG
	chans    map[unsafe.Pointer]*chanState
	maps     map[unsafe.Pointer]*mapShadow
	atoms    map[unsafe.Pointer]*VC
	nvc      int
	tick     bool
	reap     []*Proc
	Expvars  *expvarReg
	OnExit   func(*Proc)
	ExecHook func(args []string) (*Proc, error)
	Switches int64
	lowPrio  int
	Logs     []string
}

// S is the running simulation, cur the running task.
var (
	S   *Sim
	cur *Task
)

func New(cfg Config) *Sim {
	s := &Sim{Cfg: cfg, Count: map[string]int64{}, Pairs: map[uint64]struct{}{}, procs: map[int]*Proc{}, nextPid: 100}
	for i := range s.src {
		s.src[i] = &Src{rng: NewRng(cfg.Seed, StreamNames[i]), record: cfg.Record}
		if cfg.Replay != nil {
			s.src[i].isRep = true
			if i < len(cfg.Replay) {
				s.src[i].replay = cfg.Replay[i]
			}
		}
	}
	s.Misc = NewRng(cfg.Seed, "misc")
	s.FS = newFS(s)
	s.Net = newNet(s)
	s.PG = newPG(s)
	s.chans = map[unsafe.Pointer]*chanState{}
	s.maps = map[unsafe.Pointer]*mapShadow{}
	s.atoms = map[unsafe.Pointer]*VC{}
	s.Expvars = newExpvarReg()
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 60_000_000
	}
	s.Hash = 14695981039346656037
	return s
}

func (s *Sim) Recorded() [][]uint32 {
	out := make([][]uint32, NStreams)
	for i := range s.src {
		r := s.src[i].Rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		out[i] = r
	}
	return out
}

func (s *Sim) Draw(st Stream, n int) int { return s.src[st].Draw(n) }

// Chance draws a fault with the given permille rate; zero in the stream means no fault.
func (s *Sim) Chance(st Stream, permille int) bool {
	if permille <= 0 {
		return false
	}
	return s.src[st].Draw(1000) >= 1000-permille
}

func (s *Sim) Mix(x uint64) {
	s.Hash = (s.Hash ^ x) * 1099511628211
	s.Hash ^= s.Hash >> 31
}
func (s *Sim) MixS(x string) {
	for i := 0; i < len(x); i++ {
		s.Hash = (s.Hash ^ uint64(x[i])) * 1099511628211
	}
}
func (s *Sim) MixB(x []byte) {
	for _, b := range x {
		s.Hash = (s.Hash ^ uint64(b)) * 1099511628211
	}
}

// Logf appends to the event trace (only kept when verbose).
func (s *Sim) Logf(f string, a ...any) {
	if !s.Cfg.Verbose {
		return
	}
	n := ""
	if cur != nil {
		n = cur.Name
	}
	s.Trace = append(s.Trace, fmt.Sprintf("%12.6f #%d [%s] ", float64(s.now)/1e9, s.EvSeq, n)+fmt.Sprintf(f, a...))
}

func (s *Sim) Inc(k string) { s.Count[k]++ }

// Fail records the first violation and ends the run.
func (s *Sim) Fail(prop, class, f string, a ...any) {
	if s.Viol == nil {
		s.Viol = &Violation{prop, class, printable(fmt.Sprintf(f, a...))}
		s.Logf("VIOLATION %s %s: %s", prop, class, s.Viol.Msg)
	}
}

// printable makes any bytes printable, so that a message survives JSON unchanged.
func printable(m string) string {
	var b strings.Builder
	for i, w := 0, 0; i < len(m); i += w {
		var r rune
		r, w = utf8.DecodeRuneInString(m[i:])
		if r == utf8.RuneError && w <= 1 || r < ' ' && r != '\n' && r != '\t' || r == 127 {
			fmt.Fprintf(&b, "\\x%02x", m[i])
		} else {
			b.WriteString(m[i : i+w])
		}
	}
	return b.String()
}

func (s *Sim) Next() int64 { s.EvSeq++; return s.EvSeq }

// Now is monotonic virtual time in ns; Wall is unix ns.
func (s *Sim) Now() int64  { return s.now }
func (s *Sim) Wall() int64 { return s.Cfg.WallBase + s.now + s.wallOff }

// StepClock moves the wall clock.
func (s *Sim) StepClock(d int64) {
	s.wallOff += d
	s.Inc("fault.clockstep")
	s.Logf("wall clock stepped by %dns", d)
}

// ---------------------------------------------------------------- events

func less(a, b *event) bool { return a.at < b.at || (a.at == b.at && a.seq < b.seq) }

func (s *Sim) At(at int64, fn func()) *Timer {
	if at < s.now {
		at = s.now
	}
	s.seq++
	e := &event{at: at, seq: s.seq, fn: fn}
	h := append(s.heap, e)
	i := len(h) - 1
	e.ix = i
	for i > 0 {
		p := (i - 1) / 2
		if !less(h[i], h[p]) {
			break
		}
		h[i], h[p] = h[p], h[i]
		h[i].ix, h[p].ix = i, p
		i = p
	}
	s.heap = h
	return &Timer{e}
}
func (s *Sim) After(d int64, fn func()) *Timer {
	at := s.now + d
	if d > 0 && at < s.now {
		at = 1<<63 - 1
	}
	return s.At(at, fn)
}

func (s *Sim) removeAt(i int) *event {
	h := s.heap
	e := h[i]
	n := len(h) - 1
	h[i] = h[n]
	h[i].ix = i
	h[n] = nil
	h = h[:n]
	if i < n {
		for {
			c := 2*i + 1
			if c >= n {
				break
			}
			if c+1 < n && less(h[c+1], h[c]) {
				c++
			}
			if !less(h[c], h[i]) {
				break
			}
			h[i], h[c] = h[c], h[i]
			h[i].ix, h[c].ix = i, c
			i = c
		}
		for i > 0 {
			p := (i - 1) / 2
			if !less(h[i], h[p]) {
				break
			}
			h[i], h[p] = h[p], h[i]
			h[i].ix, h[p].ix = i, p
			i = p
		}
	}
	e.ix = -1
	s.heap = h
	return e
}

// Stop cancels the timer and tells whether it was still pending.
func (t *Timer) Stop() bool {
	if t == nil || t.e == nil || t.e.ix < 0 || S == nil {
		return false
	}
	if t.e.ix < len(S.heap) && S.heap[t.e.ix] == t.e {
		S.removeAt(t.e.ix)
		return true
	}
	return false
}

// ---------------------------------------------------------------- task control

func (s *Sim) Spawn(p *Proc, name string, fn func()) *Task {
	s.ntask++
	t := &Task{ID: s.ntask, Name: name, Proc: p}
	t.vix = -1
	if p != nil && !p.Harness {
		if cur != nil {
			t.vc = cur.vc.Copy()
			cur.tick()
		}
		t.vix = s.nvc
		s.nvc++
		for len(t.vc) <= t.vix {
			t.vc = append(t.vc, 0)
		}
		t.vc[t.vix] = 1
	}
	if s.Cfg.Strategy == 1 {
		t.prio = s.Draw(SSched, 1000)
	}
	body := func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			r := recover()
			t.done = true
			if r != nil {
				if _, ok := r.(killed); !ok && !t.killed {
					s.taskPanic(t, r)
				}
			}
		}()
		fn()
	}
	t.next, t.stop = iter.Pull(iter.Seq[struct{}](body))
	s.tasks = append(s.tasks, t)
	if p != nil {
		p.tasks = append(p.tasks, t)
	}
	s.ready(t)
	return t
}

func (t *Task) tick() {
	if t.vix >= 0 {
		t.vc[t.vix]++
	}
}

func (s *Sim) taskPanic(t *Task, r any) {
	st := string(debug.Stack())
	if t.Proc == nil || t.Proc.Harness {
		s.HarnErr = fmt.Sprintf("harness task %s panicked: %v\n%s", t.Name, r, st)
		s.ended = true
		return
	}
	msg := fmt.Sprintf("panic: %v", r)
	s.Logf("PANIC in %s: %v", t.Name, r)
	t.Proc.crash(msg, trimStack(st))
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "github.com/crimist/trakx/") && !strings.Contains(l, "/zz/") && !strings.HasPrefix(l, "\t") {
			loc := strings.TrimSpace(lines[i+1])
			if k := strings.LastIndex(loc, "/"); k >= 0 {
				loc = loc[k+1:]
			}
			if k := strings.Index(loc, " "); k >= 0 {
				loc = loc[:k]
			}
			if k := strings.Index(l, "("); k > 0 {
				l = l[:k]
			}
			out = append(out, l[strings.LastIndex(l, "/")+1:]+"@"+loc)
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

func (s *Sim) ready(t *Task) {
	if t.queued || t.done || t.killed {
		return
	}
	t.queued = true
	s.runq = append(s.runq, t)
}

// park blocks the current task until somebody wakes it.
func park(why string) {
	t := cur
	if t == nil {
		panic("simulated blocking operation outside a task: " + why)
	}
	if t.killed {
		panic(killed{})
	}
	t.wait = why
	if !t.yield(struct{}{}) {
		t.killed = true
		panic(killed{})
	}
}

// Alive stops the current task if its process is gone.
func alive() {
	if cur != nil && cur.killed {
		panic(killed{})
	}
}

// Wake makes a parked task runnable.
func Wake(t *Task) { S.ready(t) }

// Cur is the running task.
func Cur() *Task { return cur }

// Y is the yield point before every statement of instrumented code.
func Y(site int32) {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.steps++
	s.inst++
	t.site = site
	s.fuel--
	if s.fuel > 0 {
		return
	}
	s.yieldSlow(t)
}

// SyncPoint is the yield point at synchronisation and I/O operations.
func SyncPoint() {
	t := cur
	if t == nil {
		return
	}
	s := S
	s.steps++
	s.inst++
	s.fuel -= 3
	if s.fuel > 0 {
		return
	}
	s.yieldSlow(t)
}

// PausePoint is the yield point at an unlock or at the return of a pooled object: like SyncPoint, but it sometimes
// lets everything else that can run go first, so that what was given up is taken up by others.
func PausePoint() {
	t := cur
	if t == nil {
		return
	}
	s := S
	if s.Cfg.PausePM > 0 && !t.killed && !s.ended && s.Viol == nil && t.Proc != nil && !t.Proc.Harness && len(s.runq) > 0 && s.Chance(SSched, s.Cfg.PausePM) {
		s.Inc("sched.pause")
		d := int64(1+s.Draw(SSched, 4)) * 1000
		if s.Cfg.StallPM > 0 && s.Chance(SSched, 60) {
			d = int64(1+s.Draw(SSched, 1000)) * s.Cfg.StallMax / 1000
			s.Inc("fault.stall")
		}
		s.After(d, func() { s.ready(t) })
		park("paused")
		return
	}
	SyncPoint()
}

const livelockSteps = 3_000_000

func (s *Sim) yieldSlow(t *Task) {
	if t.killed {
		s.fuel = 1 << 30
		return
	}
	if s.inst > livelockSteps {
		s.livelock(t)
	}
	if s.ended || s.Viol != nil {
		s.ready(t)
		park("ended")
		return
	}
	if s.Cfg.StallPM > 0 && t.Proc != nil && !t.Proc.Harness && s.Chance(SSched, s.Cfg.StallPM) {
		d := int64(1+s.Draw(SSched, 1000)) * s.Cfg.StallMax / 1000
		s.Inc("fault.stall")
		s.Logf("stall %s for %dns", t.Name, d)
		s.After(d, func() { s.ready(t) })
		park("stalled")
		return
	}
	if len(s.runq) == 0 {
		if s.Cfg.TickPM == 0 || len(s.heap) == 0 || s.heap[0].at-s.now > s.Cfg.TickMax || !s.Chance(SSched, s.Cfg.TickPM) {
			s.drawFuel()
			return
		}
		s.tick = true
		s.ready(t)
		park("preempted")
		return
	}
	if s.Cfg.Strategy == 1 {
		s.lowPrio--
		t.prio = s.lowPrio
	}
	s.Switches++
	s.Inc("sched.preempt")
	if s.Cfg.TickPM > 0 && len(s.heap) > 0 && s.heap[0].at-s.now <= s.Cfg.TickMax && s.Chance(SSched, s.Cfg.TickPM) {
		s.tick = true
	}
	s.ready(t)
	park("preempted")
}

func (s *Sim) livelock(t *Task) {
	s.inst = 0
	if t.Proc == nil || t.Proc.Harness {
		s.HarnErr = "harness livelock in " + t.Name
		s.ended = true
		return
	}
	t.Proc.crash("livelock: the process burns CPU without making progress", siteName(t.site))
	if t.killed {
		panic(killed{})
	}
}

func (s *Sim) drawFuel() {
	f := s.Cfg.Fuel
	if s.Cfg.Strategy == 2 || f <= 0 {
		s.fuel = 1_000_000
		return
	}
	v := s.Draw(SSched, 2*f)
	if v == 0 {
		s.fuel = 1_000_000
	} else {
		s.fuel = v
	}
}

// Run executes root in its own harness process until it returns.
func (s *Sim) Run(root func()) {
	S = s
	hp := s.newProc("harness")
	hp.Harness = true
	s.root = s.Spawn(hp, "root", root)
	for !s.ended {
		if s.tick {
			s.tick = false
			if len(s.heap) > 0 && s.heap[0].at > s.now {
				s.now = s.heap[0].at
				clear(s.maps)
				s.Inc("sched.tick")
			}
		}
		for len(s.heap) > 0 && s.heap[0].at <= s.now {
			s.removeAt(0).fn()
		}
		if s.root.done || s.HarnErr != "" {
			break
		}
		if s.Viol != nil {
			break
		}
		if s.steps > s.Cfg.MaxSteps {
			s.HarnErr = "step budget exhausted"
			break
		}
		if len(s.runq) == 0 {
			if len(s.heap) == 0 {
				s.HarnErr = "simulation deadlock: " + s.dump()
				break
			}
			at := s.heap[0].at
			if s.Cfg.MaxTime > 0 && at > s.Cfg.MaxTime {
				s.HarnErr = "virtual time budget exhausted: " + s.dump()
				break
			}
			if at > s.now {
				s.now = at
				s.inst = 0
				if len(s.maps) > 0 {
					clear(s.maps)
				}
			}
			continue
		}
		s.dispatch()
	}
	s.ended = true
	if s.Viol != nil {
		s.HarnErr = ""
	}
	s.teardown()
}

func (s *Sim) dispatch() {
	ix := 0
	if len(s.runq) > 1 {
		if s.Cfg.Strategy == 1 {
			for i, t := range s.runq {
				if t.prio > s.runq[ix].prio {
					ix = i
				}
			}
		} else {
			ix = s.Draw(SSched, len(s.runq))
		}
	}
	t := s.runq[ix]
	copy(s.runq[ix:], s.runq[ix+1:])
	s.runq[len(s.runq)-1] = nil
	s.runq = s.runq[:len(s.runq)-1]
	t.queued = false
	if t.done || t.killed {
		return
	}
	if cur != nil {
		panic("dispatch with a current task")
	}
	s.drawFuel()
	if t.started {
		s.Mix(uint64(t.ID)<<32 | uint64(uint32(t.site)))
	}
	t.started = true
	s.enter(t.Proc)
	cur = t
	_, alive := t.next()
	cur = nil
	s.reapNow()
	if !alive {
		t.done = true
		for _, j := range t.joiners {
			s.ready(j)
		}
	}
	if len(s.Pairs) < 1<<16 && len(s.runq) > 0 {
		s.Pairs[uint64(uint32(t.site))<<32|uint64(uint32(s.runq[0].site))] = struct{}{}
	}
}

// enter makes the package variables those of process p, every process has its own.
func (s *Sim) enter(p *Proc) {
	if p == nil || p.Harness || p == s.loaded {
		return
	}
	if o := s.loaded; o != nil && len(s.Vars) > 0 {
		if o.Alive {
			if o.vars == nil {
				o.vars = make([]reflect.Value, len(s.Vars))
				for i, v := range s.Vars {
					o.vars[i] = reflect.New(reflect.TypeOf(v).Elem()).Elem()
				}
			}
			for i, v := range s.Vars {
				o.vars[i].Set(reflect.ValueOf(v).Elem())
			}
		}
		if p.vars != nil {
			for i, v := range s.Vars {
				reflect.ValueOf(v).Elem().Set(p.vars[i])
			}
		}
	}
	s.loaded = p
}

func (s *Sim) dump() string {
	var b strings.Builder
	for _, t := range s.tasks {
		if !t.done {
			fmt.Fprintf(&b, "%s(%s) ", t.Name, t.wait)
		}
	}
	return b.String()
}

func (s *Sim) killTask(t *Task) {
	if t.done || t.killed {
		return
	}
	t.killed = true
	if t.started {
		s.enter(t.Proc)
	}
	cur = t
	t.stop()
	cur = nil
	t.done = true
	for _, j := range t.joiners {
		s.ready(j)
	}
}

func (s *Sim) teardown() {
	for i := 0; i < len(s.tasks); i++ {
		s.killTask(s.tasks[i])
	}
	S = nil
	cur = nil
}

// Steps executed so far.
func (s *Sim) Steps() int64 { return s.steps }
func (s *Sim) NTasks() int  { return s.ntask }

// Tasks counts the live tasks of a process.
func (p *Proc) Tasks() int {
	n := 0
	for _, t := range p.tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// TaskNames lists them.
func (p *Proc) TaskNames() []string {
	var ns []string
	for _, t := range p.tasks {
		if !t.done {
			ns = append(ns, t.Name)
		}
	}
	return ns
}

// LiveTasks counts the tasks of the current process.
func LiveTasks() int {
	if S == nil || cur == nil || cur.Proc == nil {
		return 1
	}
	n := 0
	for _, t := range cur.Proc.tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// Ended tells harness loops that the run is over.
func (s *Sim) Ended() bool { return s.ended || s.Viol != nil }

var SiteNames []string

func siteName(i int32) string {
	if int(i) < len(SiteNames) && i >= 0 {
		return SiteNames[i]
	}
	return fmt.Sprint(i)
}

// Sleep for harness tasks.
func (s *Sim) Sleep(d int64) {
	if d < 0 {
		d = 0
	}
	t := cur
	s.After(d, func() { s.ready(t) })
	park("sleep")
}

// Go starts a harness task.
func (s *Sim) Go(name string, fn func()) *Task { return s.Spawn(s.root.Proc, name, fn) }

// Join waits for harness tasks.
func (s *Sim) Join(ts ...*Task) {
	for _, t := range ts {
		for !t.done {
			t.joiners = append(t.joiners, cur)
			park("join")
		}
	}
}

// WaitQ is a list of parked tasks.
type WaitQ struct{ ts []*Task }

func (q *WaitQ) WakeAll() {
	for _, t := range q.ts {
		Wake(t)
	}
	q.ts = q.ts[:0]
}
func (q *WaitQ) WakeOne() {
	for len(q.ts) > 0 {
		t := q.ts[0]
		q.ts = q.ts[1:]
		if !t.done && !t.killed {
			Wake(t)
			return
		}
	}
}

// Wait parks the current task until woken or until the deadline (absolute virtual time, 0 none); it tells
// whether the deadline has passed.
func (q *WaitQ) Wait(deadline int64, why string) bool {
	s := S
	t := cur
	if t.killed {
		panic(killed{})
	}
	if deadline != 0 && deadline <= s.now {
		return true
	}
	q.ts = append(q.ts, t)
	var tm *Timer
	if deadline != 0 {
		tm = s.At(deadline, func() { s.ready(t) })
	}
	park(why)
	tm.Stop()
	for i, x := range q.ts {
		if x == t {
			q.ts = append(q.ts[:i], q.ts[i+1:]...)
			break
		}
	}
	return deadline != 0 && deadline <= s.now
}

// Dead tells whether the current task belongs to a killed process (its deferred calls are running).
func Dead() bool { return cur != nil && cur.killed }

// Recover wraps recover() in instrumented code so that a kill is not swallowed.
func Recover(r any) any {
	if _, ok := r.(killed); ok {
		panic(r)
	}
	return r
}
