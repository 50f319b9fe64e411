//go:build go1.24

package rt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// Proc is a simulated operating-system process.
type Proc struct {
	Pid        int
	Name       string
	Harness    bool
	vars       []reflect.Value // its package variables while another process runs
	Args       []string
	Env        map[string]string
	Alive      bool
	Exited     bool
	ExitCode   int
	Signaled   string // name of the signal that killed it
	Crash      string // panic or fatal error that ended it
	CrashStack string
	Start, End int64
	tasks      []*Task
	OpenFiles  int
	notify     []*notifyReg
	waiters    WaitQ
	OnSignal   func(sig string) bool // stub processes
	closers    []func()
	Foreign    bool // runs as another user
	Notified   bool // has installed a handler for the stop signals
	OnNotify   func()
	FatalMsg   string
	Out        []byte // what it printed
}

type notifyReg struct {
	sigs map[string]bool // nil: all
	send func(sig string)
	key  any
}

func (s *Sim) newProc(name string) *Proc {
	s.nextPid++
	p := &Proc{Pid: s.nextPid, Name: name, Alive: true, Start: s.now, Env: map[string]string{}}
	s.procs[p.Pid] = p
	return p
}

// StartProc starts a simulated process.
func (s *Sim) StartProc(name string, args []string, main func()) *Proc {
	p := s.newProc(name)
	p.Args = args
	s.Logf("process %d (%s) starts", p.Pid, name)
	t := s.Spawn(p, fmt.Sprintf("%s.%d/main", name, p.Pid), func() {
		main()
		p.finish(0, "")
		panic(killed{})
	})
	if s.Cfg.Strategy == 1 {
		t.prio = 2000
	}
	return p
}

// StubProc is a process without code.
func (s *Sim) StubProc(name string, onSignal func(sig string) bool) *Proc {
	p := s.newProc(name)
	p.OnSignal = onSignal
	return p
}

func (s *Sim) FindProc(pid int) *Proc { return s.procs[pid] }

// finish ends the process; tasks are reaped by the scheduler.
func (p *Proc) finish(code int, signaled string) {
	if !p.Alive {
		return
	}
	s := S
	p.Alive = false
	p.Exited = true
	p.ExitCode = code
	p.Signaled = signaled
	p.End = s.now
	s.Logf("process %d ends code=%d signal=%q crash=%q", p.Pid, code, signaled, p.Crash)
	s.Mix(uint64(0xE0<<32 | p.Pid))
	for _, c := range p.closers {
		c()
	}
	p.closers = nil
	s.Net.closeProc(p)
	s.PG.closeProc(p)
	p.waiters.WakeAll()
	s.reap = append(s.reap, p)
	if cur == nil { // from an event
		s.reapNow()
	}
	if s.OnExit != nil {
		s.OnExit(p)
	}
}

func (s *Sim) reapNow() {
	for len(s.reap) > 0 {
		p := s.reap[0]
		s.reap = s.reap[1:]
		for i := 0; i < len(p.tasks); i++ {
			s.killTask(p.tasks[i])
		}
	}
}

// Exit ends the current process from within.
func Exit(code int) {
	t := cur
	if t == nil || t.Proc == nil {
		panic("exit outside a process")
	}
	if t.Proc.Harness {
		panic("harness called exit")
	}
	if t.killed {
		panic(killed{})
	}
	t.Proc.finish(code, "")
	t.killed = true
	panic(killed{})
}

// Fatal is a fatal log message.
func Fatal(msg string) {
	if cur != nil && cur.Proc != nil {
		cur.Proc.FatalMsg = msg
	}
	Exit(1)
}

func (p *Proc) crash(msg, stack string) {
	if !p.Alive {
		return
	}
	p.Crash = msg
	p.CrashStack = stack
	p.finish(2, "")
}

// CrashCur crashes the process of the current task (a fatal runtime error).
func CrashCur(msg string) {
	t := cur
	if t == nil || t.killed {
		panic(killed{})
	}
	if t.Proc == nil || t.Proc.Harness {
		panic(msg)
	}
	t.Proc.crash(msg, siteName(t.site))
	t.killed = true
	panic(killed{})
}

// Kill ends the process as SIGKILL does.
func (p *Proc) Kill() {
	p.finish(-1, "killed")
	if cur != nil && cur.Proc == p {
		cur.killed = true
		panic(killed{})
	}
}

// Signal delivers a signal to the process; it tells whether the process exists.
func (p *Proc) Signal(sig string) bool {
	if p == nil || !p.Alive {
		return false
	}
	S.Logf("signal %s to %d", sig, p.Pid)
	S.Inc("signal." + sig)
	if sig == "none" {
		return true
	}
	if sig == "killed" {
		p.Kill()
		return true
	}
	if p.OnSignal != nil {
		if p.OnSignal(sig) {
			p.finish(0, sig)
		}
		return true
	}
	handled := false
	for _, n := range p.notify {
		if n.sigs == nil || n.sigs[sig] {
			handled = true
			n.send(sig)
		}
	}
	if !handled {
		switch sig {
		case "child exited", "window changed", "urgent I/O condition", "continued":
		default:
			p.finish(-1, sig)
			if cur != nil && cur.Proc == p {
				cur.killed = true
				panic(killed{})
			}
		}
	}
	return true
}

// Notify registers a signal channel of the current process.
func Notify(key any, sigs []string, send func(sig string)) {
	p := cur.Proc
	n := &notifyReg{send: send, key: key}
	if len(sigs) > 0 {
		n.sigs = map[string]bool{}
		for _, x := range sigs {
			n.sigs[x] = true
		}
	}
	p.notify = append(p.notify, n)
	if n.sigs == nil || n.sigs["interrupt"] || n.sigs["terminated"] {
		p.Notified = true
	}
}

// NotifyStop unregisters a channel.
func NotifyStop(key any) {
	p := cur.Proc
	var out []*notifyReg
	for _, n := range p.notify {
		if n.key != key {
			out = append(out, n)
		}
	}
	p.notify = out
}

// Wait parks until the process has ended or the deadline (absolute, 0 none) has passed; it tells whether it ended.
func (p *Proc) Wait(deadline int64) bool {
	for p.Alive {
		if p.waiters.Wait(deadline, "wait for process") {
			return !p.Alive
		}
	}
	return true
}

// CurProc is the process of the running task.
func CurProc() *Proc {
	if cur == nil {
		return nil
	}
	return cur.Proc
}

// Go starts a goroutine of the current process (instrumented go statement).
func Go(name string, fn func()) {
	if cur == nil {
		panic("go statement outside a simulation: " + name)
	}
	if cur.killed {
		panic(killed{})
	}
	S.Spawn(cur.Proc, fmt.Sprintf("%s#%d", name, S.ntask), fn).Last = cur.Last
	SyncPoint()
}

// InProc runs fn as a task of process p (harness code that calls the code under test directly).
func (s *Sim) InProc(p *Proc, name string, fn func()) *Task { return s.Spawn(p, name, fn) }

// Done tells whether the task has finished.
func (t *Task) Done() bool { return t.done }

// SyncOp is the entry of a synchronisation operation.
func SyncOp() {
	if cur == nil {
		return
	}
	alive()
	SyncPoint()
}

// AtomVC is the clock of an atomic word.
func AtomVC(p unsafe.Pointer) *VC {
	if S == nil {
		return new(VC)
	}
	v := S.atoms[p]
	if v == nil {
		v = new(VC)
		S.atoms[p] = v
	}
	return v
}
