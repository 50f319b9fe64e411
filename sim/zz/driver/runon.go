//go:build go1.24 && zzrunon

package main

import (
	"time"

	"github.com/crimist/trakx/tracker/utils"
	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
)

const runonBuild = true

// runonWorld runs the periodic scheduler itself with a function of scripted duration while the wall clock is stepped.
// Ops: "job" X-th run lasts N ms; "step" at D the clock moves by N ms.
func runonWorld(s *rt.Sim, p *Plan) {
	s.FS.MkdirAll("/home/sim/.config/trakx", 0755)
	s.FS.MkdirAll("/cwd", 0755)
	s.FS.PutFile(cfgPath, []byte(configYAML(p)))
	s.FS.K.Space = -1
	s.Cfg.StallPM, s.Cfg.TickPM, s.Cfg.PausePM = int(p.k("stallpm")), int(p.k("tickpm")), int(p.k("pause"))
	D := max(p.k("period"), 1) * 1e6
	type run struct{ at, end, wall int64 }
	var runs []*run
	jobs := map[int]int64{}
	var steps []int64
	horizon := int64(0)
	for _, o := range p.Rounds[0].Ops {
		switch o.K {
		case "job":
			jobs[o.X] = int64(o.N) * 1e6
			horizon += int64(o.N) * 1e6
		case "step":
			at := o.D
			n := int64(o.N) * 1e6
			steps = append(steps, at)
			s.At(at, func() { s.StepClock(n) })
			horizon = max(horizon, at)
		}
	}
	horizon += (4 + p.k("periods")) * D
	proc := s.StartProc("trakx", []string{"trakx", "execute"}, func() {
		app.Reset()
		utils.RunOn(time.Duration(D), func() {
			r := &run{at: s.Now(), wall: s.Wall()}
			n := len(runs)
			runs = append(runs, r)
			if d := jobs[n]; d > 0 {
				s.Sleep(d)
			}
			r.end = s.Now()
		})
	})
	start := s.Now()
	for s.Now() < start+horizon && proc.Alive && !s.Ended() {
		s.Sleep(D / 2)
		if len(runs) > 100000 {
			break
		}
	}
	if s.Ended() {
		return
	}
	if !proc.Alive {
		s.Fail(p.Prop, "crash", "the scheduler died or returned: %s %s", proc.Crash, proc.FatalMsg)
		return
	}
	now := s.Now()
	slack := 5e6 + 2*p.k("stallmax") + p.k("tickmax")*50
	s.Inc("nontrivial")
	s.Count["runs_of_job"] += int64(len(runs))
	// regular(t): no clock step disturbs the instant t any more
	regular := func(t int64) bool {
		for _, st := range steps {
			// a step may disturb what was in progress and one period after it
			e := st
			for _, r := range runs {
				end := r.end
				if end == 0 {
					end = now
				}
				if r.at <= e+slack && end > st {
					e = max(e, end)
				}
			}
			if t >= st-slack && t <= e+D+2*slack {
				return false
			}
		}
		return true
	}
	wall := func(t int64) int64 { // wall clock at sim time t
		w := s.Cfg.WallBase + t
		for _, o := range p.Rounds[0].Ops {
			if o.K == "step" && o.D <= t {
				w += int64(o.N) * 1e6
			}
		}
		return w
	}
	busy := func(from, to int64) *run { // a run in progress somewhere in the interval
		for _, r := range runs {
			end := r.end
			if end == 0 {
				end = now
			}
			if r.at <= to && end >= from {
				return r
			}
		}
		return nil
	}
	// every multiple of the period gets its run
	for t := start; t < now-2*slack-D/10; {
		w := wall(t)
		next := t + D - w%D
		for _, st := range steps { // the clock may be stepped before it comes
			if st > t && st <= next {
				next = st
			}
		}
		if wall(next)%D != 0 || next == start {
			t = next
			continue
		}
		t = next
		if t >= now-2*slack || !regular(t) || t < start+slack {
			continue
		}
		n := 0
		for _, r := range runs {
			if r.at >= t && r.at <= t+slack {
				n++
			}
		}
		b := busy(t-slack, t-1)
		if n == 0 && b == nil {
			s.Fail(p.Prop, "missed", "period %d ms: nothing ran at the multiple %d s (%.3f s after the start) although nothing was in progress; runs at %v", D/1e6, wall(t)/1e9, float64(t-start)/1e9, runTimes(len(runs), func(i int) (int64, int64) { return runs[i].at - start, runs[i].end - start }))
			return
		}
		if n > 1 && b == nil {
			s.Fail(p.Prop, "repeated", "period %d ms: %d runs at the multiple %.3f s after the start; runs at %v", D/1e6, n, float64(t-start)/1e9, runTimes(len(runs), func(i int) (int64, int64) { return runs[i].at - start, runs[i].end - start }))
			return
		}
	}
	// and nothing runs at other times, except late because of an overrun
	for i, r := range runs {
		if !regular(r.at) || i > 0 && !regular(runs[i-1].at) {
			continue
		}
		if off := wall(r.at) % D; off <= slack {
			continue
		}
		late := false
		for j := i - 1; j >= 0; j-- {
			q := runs[j]
			if runs[j+1].at-q.end > slack {
				break
			}
			if q.end/1-q.at >= D-slack || wall(q.at)/D != wall(q.end)/D { // overlapped a multiple
				late = true
				break
			}
		}
		if !late {
			s.Fail(p.Prop, "offtick", "period %d ms: a run %.3f s after the start, %.3f s after a multiple, without an overrun before it; runs at %v", D/1e6, float64(r.at-start)/1e9, float64(wall(r.at)%D)/1e9, runTimes(len(runs), func(i int) (int64, int64) { return runs[i].at - start, runs[i].end - start }))
			return
		}
	}
	// the number of runs never exceeds the number of multiples by more than the steps explain
	mult := int64(0)
	first := start + D - wall(start)%D
	if len(steps) == 0 && now >= first {
		mult = (now-first)/D + 1
		if int64(len(runs)) > mult {
			s.Fail(p.Prop, "toomany", "period %d ms: %d runs for %d multiples; runs at %v", D/1e6, len(runs), mult, runTimes(len(runs), func(i int) (int64, int64) { return runs[i].at - start, runs[i].end - start }))
			return
		}
	}
	// after a step at most two runs happen off the regular schedule
	for _, st := range steps {
		n := 0
		var over int64
		for i, r := range runs {
			if r.at >= st && r.at <= st+D {
				n++
				if d := jobs[i]; d > over {
					over = d
				}
			}
		}
		lim := 3
		for i, r := range runs { // ticks overlapped by an overrun may be made up for
			if r.at <= st+D && r.end >= st-D || r.end == 0 {
				lim += int(jobs[i]/D) + 1
			}
		}
		others := 0
		for _, o := range steps {
			if o >= st && o <= st+D {
				others++
			}
		}
		if n > lim+others {
			s.Fail(p.Prop, "burst", "period %d ms: %d runs within one period after a clock step; runs at %v", D/1e6, n, runTimes(len(runs), func(i int) (int64, int64) { return runs[i].at - start, runs[i].end - start }))
			return
		}
	}
}

func runTimes(n int, f func(i int) (int64, int64)) (out []float64) {
	for i := 0; i < n && i < 40; i++ {
		a, _ := f(i)
		out = append(out, float64(a/1e6)/1e3)
	}
	return
}
