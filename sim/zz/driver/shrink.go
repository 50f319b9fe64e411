//go:build go1.24

package main

import (
	"sort"
	"time"
)

// shrink minimises the plan (fewer rounds, ops and special settings), then the choice streams, keeping the violation's
// property and class.
func shrink(rp *Replay, deadline time.Time) *Replay {
	cls, prop := rp.Violation.Class, rp.Violation.Prop
	best := rp
	stepLimit = 5*runPlan(rp.Plan, rp.Streams, true, false).Steps + 3*2_000_000
	tries := 0
	try := func(p *Plan, streams [][]uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		tries++
		r := runPlan(p, streams, true, false)
		if r.HarnErr != "" || r.Viol == nil || r.Viol.Class != cls || r.Viol.Prop != prop {
			return false
		}
		best = &Replay{Property: rp.Property, Tags: rp.Tags, Violation: r.Viol, Hash: r.Hash, Plan: p.clone(), Streams: r.Streams, OrigOps: rp.OrigOps, Ops: p.nops()}
		return true
	}
	// a candidate plan is tried with the recorded choices and with a few fresh seeds
	tryPlan := func(p *Plan, seeds int) bool {
		if try(p, best.Streams) {
			return true
		}
		for i := 0; i < seeds; i++ {
			q := p.clone()
			q.Seed = p.Seed + uint64(i)*1000003
			if try(q, nil) {
				return true
			}
		}
		return false
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		// rounds after the failing one are cut by the run itself; drop rounds
		for i := len(best.Plan.Rounds) - 1; i >= 0; i-- {
			if i >= len(best.Plan.Rounds) || len(best.Plan.Rounds) == 1 {
				continue
			}
			q := best.Plan.clone()
			q.Rounds = append(q.Rounds[:i], q.Rounds[i+1:]...)
			again = tryPlan(q, 6) || again
		}
		for ri := range best.Plan.Rounds {
			for size := max(1, len(best.Plan.Rounds[ri].Ops)/2); size >= 1; size /= 2 {
				for at := 0; at < len(best.Plan.Rounds[ri].Ops) && time.Now().Before(deadline); {
					q := best.Plan.clone()
					ops := q.Rounds[ri].Ops
					end := min(at+size, len(ops))
					q.Rounds[ri].Ops = append(append([]Op(nil), ops[:at]...), ops[end:]...)
					if tryPlan(q, 4) {
						again = true
					} else {
						at += size
					}
				}
			}
		}
		var ks []string
		for k := range best.Plan.K {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			q := best.Plan.clone()
			delete(q.K, k)
			again = tryPlan(q, 3) || again
		}
		for ri := range best.Plan.Rounds {
			if ri < len(best.Plan.Rounds) && best.Plan.Rounds[ri].Idle > 0 {
				q := best.Plan.clone()
				q.Rounds[ri].Idle = 0
				again = tryPlan(q, 2) || again
			}
			for oi := range best.Plan.Rounds[ri].Ops {
				o := best.Plan.Rounds[ri].Ops[oi]
				for n := o.R / 2; n > 0; n /= 2 {
					q := best.Plan.clone()
					q.Rounds[ri].Ops[oi].R = o.R - n
					if tryPlan(q, 2) {
						o, again = best.Plan.Rounds[ri].Ops[oi], true
					}
				}
				simpler := o
				simpler.D, simpler.Dl, simpler.Fr, simpler.E = 0, 0, 0, 0
				if simpler.D != o.D || simpler.Dl != o.Dl || simpler.Fr != o.Fr || simpler.E != o.E {
					q := best.Plan.clone()
					q.Rounds[ri].Ops[oi] = simpler
					again = tryPlan(q, 2) || again
				}
			}
		}
	}
	// streams: zero whole streams, truncate, zero blocks
	for si := range best.Streams {
		set := func(f func(x []uint32) []uint32) bool {
			c := make([][]uint32, len(best.Streams))
			copy(c, best.Streams)
			c[si] = f(append([]uint32(nil), best.Streams[si]...))
			return try(best.Plan, c)
		}
		if len(best.Streams[si]) == 0 {
			continue
		}
		if set(func(x []uint32) []uint32 { return nil }) {
			continue
		}
		for size := len(best.Streams[si]) / 2; size >= 1 && size*64 > len(best.Streams[si]); size /= 2 {
			for at := 0; at < len(best.Streams[si]) && time.Now().Before(deadline); at += size {
				zero := true
				for _, v := range best.Streams[si][at:min(at+size, len(best.Streams[si]))] {
					zero = zero && v == 0
				}
				if !zero {
					set(func(x []uint32) []uint32 {
						for j := at; j < min(at+size, len(x)); j++ {
							x[j] = 0
						}
						return x
					})
				}
			}
		}
	}
	r := runPlan(best.Plan, best.Streams, false, true)
	if r.Viol != nil && r.Hash == best.Hash {
		best.Trace = r.Trace
		if len(best.Trace) > 400 {
			best.Trace = best.Trace[len(best.Trace)-400:]
		}
	}
	return best
}
