//go:build go1.24

package main

import (
	"fmt"
	"net/netip"
	"strconv"
	"strings"

	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
	zos "github.com/crimist/trakx/zz/sh/os"
)

// What a started tracker does.
const (
	trReal     = iota
	trHung     // holds its sockets, answers nothing, ignores signals
	trCrash    // dies at once
	trSlow     // ends some time after the stop signal
	trHungBare // as hung, without sockets
	trWrong    // as hung, but something answers on its sockets, wrongly
	trModes
)

// wrong answers every request on the tracker's ports with what no tracker
// answers a heartbeat with.
func wrong(s *rt.Sim, port uint16, kind int) {
	u, err := s.Net.ListenUDP(netip.Addr{}, true, port)
	if err == nil {
		s.InProc(rt.CurProc(), "wrong udp", func() {
			b := make([]byte, 2000)
			for {
				_, from, err := u.Read(b)
				if err != nil {
					return
				}
				u.Write([][]byte{{0}, {0xfe, 0xff}, {1, 2, 3, 4, 5, 6, 7, 8}, nil}[kind%4], from)
			}
		})
	}
	t, err := s.Net.ListenTCP(netip.Addr{}, true, port)
	if err == nil {
		s.InProc(rt.CurProc(), "wrong tcp", func() {
			for {
				c, err := t.Accept()
				if err != nil {
					return
				}
				c.Read(make([]byte, 4000))
				c.Write([]byte([]string{"HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 404 Not Found\r\n\r\n", "HTTP/1.1 500 Internal Server Error\r\n\r\n", "220 mail\r\n"}[kind/4%4]))
				c.Close()
			}
		})
	}
}

// cliWorld runs sequences of controller commands against trackers in every condition.
func cliWorld(s *rt.Sim, p *Plan) {
	w := newWorld(s, p)
	w.setupFS()
	w.faults(false)
	mode, slow := trReal, int64(0)
	var tr *rt.Proc // the tracker started last
	trMode := -1
	var slowMS int64
	loss, disk := 0, 0
	execs := 0
	var all []*rt.Proc // every tracker started, more than one may live after the record of the first was lost
	slowEnding := false
	others := func() bool {
		for _, q := range all {
			if q != tr && q.Alive {
				return true
			}
		}
		return false
	}
	port := uint16(p.k("port"))
	s.ExecHook = func(args []string) (*rt.Proc, error) {
		execs++
		trMode, slowMS = mode, slow
		switch mode {
		case trReal:
			tr = s.StartProc("tracker", args, func() {
				s.Sleep(int64(1+s.Misc.N(3)) * 1e6)
				zos.Args = args
				app.Reset()
				app.Main()
			})
		case trCrash:
			tr = s.StartProc("tracker", args, func() {
				s.Sleep(int64(s.Misc.N(3)) * 1e6)
				rt.Exit(1)
			})
		case trHung, trHungBare, trSlow, trWrong:
			m, ms := mode, slow
			var self *rt.Proc
			self = s.StartProc("tracker", args, func() {
				if m == trHung {
					s.Net.ListenUDP(netip.Addr{}, true, port)
					s.Net.ListenTCP(netip.Addr{}, true, port)
				}
				if m == trWrong {
					wrong(s, port, int(ms))
				}
				for {
					s.Sleep(3600e9)
				}
			})
			ending := false
			slowEnding = false
			self.OnSignal = func(sig string) bool {
				if m == trSlow && !ending && (sig == "interrupt" || sig == "terminated") {
					ending, slowEnding = true, true
					s.After(ms*1e6, func() { self.Kill() })
				}
				return false
			}
			tr = self
		}
		all = append(all, tr)
		return tr, nil
	}
	crashed := func() bool {
		return tr != nil && trMode == trReal && tr.Crash != ""
	}
	record := func() (int, bool) { // the recorded pid
		b, ok := s.FS.ReadFile(pidF)
		if !ok {
			return 0, false
		}
		n, err := strconv.Atoi(string(b))
		return n, err == nil
	}
	// serving: 1 it answers, -1 certainly nothing answers, 0 unknown
	serving := func() int {
		udp, http := p.k("udp") != 0, p.k("http") == 1
		if !udp && !http {
			return -1
		}
		if tr == nil || !tr.Alive || trMode != trReal {
			if others() {
				return 0
			}
			return -1
		}
		if tr.Notified && (!udp || s.Net.UDPOpen(port)) && (!http || s.Net.TCPOpen(port)) {
			return 1
		}
		return 0
	}
	run := func(cmd string) (*rt.Proc, bool) {
		lim := map[string]int64{"status": 30e9, "start": 30e9, "stop": 15e9, "restart": 45e9, "reset": 5e9}[cmd]
		if lim == 0 {
			lim = 5e9
		}
		s.Inc("cli." + cmd)
		c := s.StartProc("cli", []string{"trakx", cmd}, func() {
			zos.Args = []string{"trakx", cmd}
			app.Reset()
			app.Main()
		})
		at := s.Now()
		c.Wait(at + lim)
		if s.Ended() {
			return c, false
		}
		if c.Alive {
			s.Fail(p.Prop, "hangs", "'trakx %s' has not returned after %d s (tracker mode %d)", cmd, lim/1e9, trMode)
			return c, false
		}
		if c.Crash != "" {
			s.Fail(p.Prop, "clicrash", "'trakx %s' crashed: %s at %s", cmd, c.Crash, c.CrashStack)
			return c, false
		}
		s.Inc("nontrivial")
		return c, true
	}
	ok := func(c *rt.Proc) bool { return c.ExitCode == 0 }
	alivePid := func(n int) bool {
		q := s.FindProc(n)
		return n > 0 && q != nil && q.Alive
	}
	line := func(out, what string) int {
		for _, l := range strings.Split(out, "\n") {
			if strings.Contains(l, what) {
				switch {
				case strings.Contains(l, "✅"):
					return 1
				case strings.Contains(l, "❌"):
					return -1
				}
			}
		}
		return 0
	}
	b2s := map[bool]int{true: 1, false: -1}
	// the expected outcome of the two halves
	type pre struct {
		pid     int
		rec     bool
		alive   bool
		serve   int
		held    bool
		execs   int
		stopped string // must, mustnot, may
		foreign bool
	}
	look := func() pre {
		q := pre{serve: serving(), execs: execs}
		q.pid, q.rec = record()
		q.alive = q.rec && alivePid(q.pid)
		q.held = s.Net.UDPOpen(port) || s.Net.TCPOpen(port)
		q.stopped = "may"
		switch {
		case !q.rec:
			q.stopped = "mustnot" // there is nothing it could stop
		case q.alive && s.FindProc(q.pid).Foreign:
			q.stopped, q.foreign = "mustnot", true
		case q.alive && tr != nil && q.pid == tr.Pid && trMode == trReal:
			if !others() { // another one can hold the port, then this one gives up by itself
				q.stopped = "must"
			}
		case q.alive && tr != nil && q.pid == tr.Pid && trMode == trSlow && slowMS < 9000:
			q.stopped = "must"
		case q.alive && tr != nil && q.pid == tr.Pid && trMode == trSlow && slowMS > 12000 && !slowEnding:
			q.stopped = "mustnot"
		case q.alive && tr != nil && q.pid == tr.Pid && (trMode == trHung || trMode == trHungBare || trMode == trWrong):
			q.stopped = "mustnot"
		}
		return q
	}
	afterStop := func(q pre, cmd string) {
		if q.alive && alivePid(q.pid) {
			s.Fail(p.Prop, "stoplie", "'trakx %s' reported success but process %d is still alive", cmd, q.pid)
		}
		if n, rec := record(); rec && n == q.pid && cmd == "stop" {
			s.Fail(p.Prop, "record", "'trakx stop' reported success but the pid file still names process %d", n)
		}
	}
	for i := range p.Rounds[0].Ops {
		o := &p.Rounds[0].Ops[i]
		if s.Ended() {
			return
		}
		if o.D > 0 {
			s.Sleep(o.D)
		}
		s.Net.K.LoopDrop = loss
		switch o.K {
		case "mode":
			mode, slow = o.X, int64(o.N)
		case "loss":
			loss = o.N
			if loss > 0 {
				s.Inc("fault.heartbeat_loss")
			}
		case "killtr":
			if tr != nil {
				tr.Kill()
				s.Inc("fault.kill")
			}
		case "disk":
			s.FS.K.Space, s.FS.K.WriteErr, s.FS.K.OpenErr, s.FS.K.RenameErr, s.FS.K.SyncErr = -1, 0, 0, 0, 0
			disk = o.X
			switch o.X {
			case 1:
				s.FS.K.Space = int64(o.N % 3)
			case 2:
				s.FS.K.WriteErr, s.FS.K.SyncErr = o.N, o.N/2
			case 3:
				s.FS.K.WriteErr, s.FS.K.RenameErr = o.N/2, o.N/2
			}
		case "pid":
			s.FS.MkdirAll(cacheDir, 0755)
			switch o.X {
			case 0:
				s.FS.Remove(pidF)
			case 1:
				s.FS.PutFile(pidF, nil)
			case 2:
				s.FS.PutFile(pidF, []byte("12x4\n"))
			case 3:
				d := s.StubProc("gone", func(string) bool { return true })
				s.FS.PutFile(pidF, []byte(fmt.Sprint(d.Pid)))
				d.Kill()
			case 4: // the process id was taken by an unrelated process
				d := s.StubProc("other", func(sig string) bool { return sig == "interrupt" && o.N == 1 })
				s.FS.PutFile(pidF, []byte(fmt.Sprint(d.Pid)))
			case 5: // or belongs to another user
				d := s.StubProc("other", func(sig string) bool { return false })
				d.Foreign = true
				s.FS.PutFile(pidF, []byte(fmt.Sprint(d.Pid)))
			}
			s.Inc("fault.pidfile")
		case "status":
			q := look()
			c, fin := run("status")
			if !fin {
				return
			}
			after := look()
			out := string(c.Out)
			if g := line(out, "process id file"); g != b2s[q.rec] {
				s.Fail(p.Prop, "status-record", "status says %q, but a valid pid record exists: %v", out, q.rec)
			}
			if g := line(out, "process is"); g != b2s[q.alive] && q.alive == after.alive && !q.foreign {
				s.Fail(p.Prop, "status-process", "status says %q, but the recorded process %d is alive: %v", out, q.pid, q.alive)
			}
			if (loss == 0 || p.k("http") == 1) && q.serve == after.serve { // only datagrams are lost
				g := line(out, "heartbeat")
				if g == 1 && q.serve == -1 || g != 1 && q.serve == 1 {
					s.Fail(p.Prop, "status-heartbeat", "status says %q, but a tracker is serving: %v", out, q.serve == 1)
				}
			}
		case "start":
			q := look()
			c, fin := run("start")
			if !fin {
				return
			}
			running := q.alive || q.serve == 1 && (loss == 0 || p.k("http") == 1)
			if running {
				if ok(c) || execs != q.execs {
					s.Fail(p.Prop, "double", "start succeeded or launched a process although a tracker is running (record %v, alive %v, answering %v)", q.rec, q.alive, q.serve == 1)
				}
				break
			}
			if !ok(c) {
				if execs != q.execs {
					s.Sleep(2e9)
					if tr.Alive {
						s.Fail(p.Prop, "startfail", "start reported an error (%q) but left the process it launched running", c.Out)
					}
				}
				if disk == 0 && !q.rec && q.serve == -1 && !q.held {
					s.Fail(p.Prop, "startrefused", "start refused (%q) although nothing is running and no pid is recorded", c.Out)
				}
				break
			}
			if execs != q.execs+1 {
				s.Fail(p.Prop, "startcount", "start reported success and launched %d processes", execs-q.execs)
			}
			if n, rec := record(); !rec || n != tr.Pid {
				s.Fail(p.Prop, "record", "after start the pid file names %d (%v), the tracker is %d", n, rec, tr.Pid)
			}
		case "stop":
			q := look()
			c, fin := run("stop")
			if !fin {
				return
			}
			if ok(c) {
				if q.stopped == "mustnot" {
					s.Fail(p.Prop, "stoplie", "'trakx stop' reported success (%q) although the process was not stopped (recorded %v, mode %d)", c.Out, q.rec, trMode)
				}
				afterStop(q, "stop")
			} else if n, rec := record(); q.alive && alivePid(q.pid) && disk == 0 && (!rec || n != q.pid) {
				s.Fail(p.Prop, "record", "'trakx stop' failed, process %d goes on, but the pid file no longer names it", q.pid)
			} else if q.stopped == "must" && disk == 0 {
				s.Fail(p.Prop, "stopfail", "'trakx stop' failed (%q) on a tracker that stops when told to (mode %d, after %d ms)", c.Out, trMode, slowMS)
			}
		case "restart":
			q := look()
			c, fin := run("restart")
			if !fin {
				return
			}
			if ok(c) {
				if q.stopped == "mustnot" {
					s.Fail(p.Prop, "stoplie", "'trakx restart' reported success although the old process was not stopped")
				}
				afterStop(q, "restart")
				if n, rec := record(); !rec || n != tr.Pid || execs != q.execs+1 {
					s.Fail(p.Prop, "record", "after restart the pid file names %d (%v), %d processes were launched, the last is %d", n, rec, execs-q.execs, tr.Pid)
				}
			} else {
				if n, rec := record(); q.alive && alivePid(q.pid) && disk == 0 && (!rec || n != q.pid) && execs == q.execs {
					s.Fail(p.Prop, "record", "'trakx restart' failed, process %d goes on, but the pid file no longer names it", q.pid)
				}
				if q.stopped == "must" && loss == 0 && disk == 0 && !others() {
					s.Fail(p.Prop, "restartfail", "'trakx restart' failed (%q) on a tracker that stops when told to (mode %d, after %d ms)", c.Out, trMode, slowMS)
				}
				if execs > q.execs {
					s.Sleep(2e9)
					if tr.Alive {
						s.Fail(p.Prop, "startfail", "restart reported an error but left the process it launched running")
					}
				}
			}
		case "reset":
			if _, fin := run("reset"); !fin {
				return
			}
			if n, rec := record(); rec && disk == 0 {
				s.Fail(p.Prop, "reset", "after reset the pid file still names %d", n)
			}
		case "sleep":
		default:
			panic("unknown cli op " + o.K)
		}
		if crashed() && !s.Ended() {
			s.Fail(p.Prop, "crash", "the tracker died: %s %s %s", tr.Crash, tr.CrashStack, tr.FatalMsg)
		}
	}
}
