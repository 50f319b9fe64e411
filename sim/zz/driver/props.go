//go:build go1.24

package main

import (
	"encoding/base64"
	"fmt"
	"strings"

	"github.com/crimist/trakx/zz/rt"
)

// gen builds the scenario of one seed.
type gen struct {
	r *rt.Rng
	p *Plan
	// shape of the traffic
	swarms, peers, addrs int
	hbase                int
	dmax                 int64 // largest delay before an op
	tickS                []int // wall-clock periods to aim at, seconds
	fams                 int   // 0 both, 1 v4 only, 2 v6 only
	www                  []wk  // op kinds and weights
}

type wk struct {
	k string
	w int
}

func genPlan(prop string, seed uint64) *Plan {
	g := &gen{r: rt.NewRng(seed*2+1, "plan "+prop), p: &Plan{Prop: prop, Seed: seed, World: "main", K: map[string]int64{}}}
	f := generators[prop]
	if f == nil {
		panic("no generator for " + prop)
	}
	// three kinds of wall-clock start, all a little before a round multiple
	g.set("wall", 1_700_000_000_000000000+int64(g.r.N(3600))*1e9+int64(g.r.N(1000))*1e6)
	if dbBuild && prop != "C03" {
		f = genBig
	}
	f(g)
	if g.p.Kind == "" {
		g.p.Kind = g.p.World
	}
	return g.p
}

func (g *gen) set(k string, v int64) { g.p.K[k] = v }
func (g *gen) sets(kv ...any) {
	for i := 0; i < len(kv); i += 2 {
		g.set(kv[i].(string), int64(kv[i+1].(int)))
	}
}

// sched chooses the scheduling strategy.
func (g *gen) sched() {
	r := g.r
	switch r.N(8) {
	case 0:
		g.sets("strategy", 2, "fuel", 0)
	case 1, 2:
		g.sets("strategy", 1, "fuel", r.Pick(30, 100, 400))
	default:
		g.sets("strategy", 0, "fuel", r.Pick(8, 20, 60, 200, 800))
	}
	if r.P(150) {
		g.sets("stallpm", r.Pick(1, 5, 20), "stallmax", r.Pick(100_000, 5_000_000, 40_000_000))
	}
	if r.P(100) {
		g.sets("tickpm", r.Pick(1, 10), "tickmax", r.Pick(1000, 200_000))
	}
	if r.P(250) {
		g.set("pause", int64(r.Pick(20, 100, 300)))
	}
}

// net chooses delays and, if faulty, loss, duplication and reordering.
func (g *gen) net(faulty bool) {
	r := g.r
	g.sets("delay", r.Pick(50_000, 200_000, 1_000_000))
	switch r.N(4) {
	case 0:
	case 1:
		g.sets("jitter", r.Pick(20_000, 200_000), "quantum", 10_000)
	case 2:
		g.sets("jitter", 2_000_000, "quantum", 500_000)
	case 3:
		g.sets("jitter", r.Pick(5_000, 20_000_000), "quantum", 1000)
	}
	if faulty && r.P(500) {
		g.sets("retry", r.N(3))
		if r.P(600) {
			g.set("drop", int64(r.Pick(10, 50, 200)))
		}
		if r.P(600) {
			g.set("dup", int64(r.Pick(20, 100, 300)))
		}
	}
	if r.P(300) {
		g.set("frag", int64(r.Pick(100, 500)))
	}
}

// base is the ordinary tracker under ordinary traffic.
func (g *gen) base() {
	r := g.r
	g.sched()
	g.net(true)
	g.sets("uthreads", r.Range(1, 4), "hthreads", r.Range(1, 4), "nwdef", r.Pick(2, 5, 75), "nwlim", r.Pick(4, 10, 200))
	if r.P(150) {
		g.set("validate", 0)
	}
	if r.P(80) {
		g.set("txmode", int64(1+r.N(2)))
	}
	if r.P(80) {
		g.set("debug", 1)
	}
	g.swarms, g.peers, g.addrs = r.Range(1, 3), r.Range(2, 6), r.Range(2, 6)
	g.hbase = r.N(40)
	g.dmax = int64(r.Pick(0, 20_000, 1_000_000, 30_000_000))
	g.www = []wk{{"u.ann", 30}, {"u.stop", 12}, {"h.ann", 25}, {"h.stop", 10}, {"u.scr", 8}, {"h.scr", 8}, {"u.con", 3}}
	switch r.N(8) {
	case 0:
		g.set("http", 0)
	case 1:
		g.set("udp", 0)
	}
	if r.P(250) {
		g.fams = 1 + r.N(2)
	}
}

func (g *gen) addr() int {
	i := g.r.N(g.addrs)
	fam := i & 1
	switch g.fams {
	case 1:
		fam = 0
	case 2:
		fam = 1
	}
	return fam | (1+i%7)<<1 | (i*37%90)<<7
}

// port is mostly one the peer keeps, as clients do.
func (g *gen) port(peer int) int {
	if g.r.P(600) {
		return 6881 + 13*peer
	}
	return g.r.Range(1, 65535)
}

func (g *gen) numwant() int { return g.r.Pick(0, 1, 2, 3, 5, 20, 74, 200, 1000) }

func (g *gen) op(c int) Op {
	r := g.r
	tot := 0
	for _, x := range g.www {
		tot += x.w
	}
	n := r.N(tot)
	k := ""
	for _, x := range g.www {
		if n < x.w {
			k = x.k
			break
		}
		n -= x.w
	}
	o := Op{C: c, A: g.addr(), H: []int{g.hbase + r.N(g.swarms)}, P: r.N(g.peers)}
	if g.dmax > 0 && r.P(700) {
		o.D = int64(r.N(int(g.dmax/1000)+1)) * 1000
	}
	if len(g.tickS) > 0 && r.P(120) {
		return Op{C: c, K: "tick", X: g.tickS[r.N(len(g.tickS))], N: r.Range(-3, 6) * r.Pick(1000, 50_000, 300_000)}
	}
	switch k {
	case "u.ann", "h.ann":
		o.K = k
		o.N = g.numwant()
		o.X = g.port(o.P)
		o.F = r.N(2) | r.Pick(0, 0, 1, 2)<<1 | r.N(2)<<3 | r.N(2)<<4
		if r.P(200) {
			o.F |= 32
		}
		if r.P(100) {
			o.F |= 64
		}
		if k == "h.ann" {
			o.E = r.N(32)
			if r.P(200) {
				o.N = -1
			}
		}
	case "u.stop", "h.stop":
		o.K = strings.Replace(k, "stop", "ann", 1)
		o.X = g.port(o.P)
		if k == "h.stop" && r.P(80) {
			o.X = 0
		}
		o.F = 3<<1 | r.N(2)
		if k == "h.stop" {
			o.E = r.N(32)
			o.N = r.Pick(-1, -1, -1, -1, -1, 0, 50, -2)
			if o.X == 0 && r.P(500) {
				o.E |= 4096
			}
		}
	case "u.scr", "h.scr":
		o.K = k
		n := r.Range(1, 4)
		seen := map[int]bool{}
		o.H = nil
		for i := 0; i < n; i++ {
			h := g.hbase + r.N(g.swarms+1)
			if r.P(100) {
				h = 900 + r.N(3)
			}
			if !seen[h] || k == "u.scr" && r.P(200) {
				o.H = append(o.H, h)
				seen[h] = true
			}
		}
		o.E = r.N(32)
		if k == "h.scr" && r.P(100) {
			o.E |= 32
		}
	default:
		o.K = k
	}
	if strings.HasPrefix(o.K, "u.") && r.P(150) {
		o.W = 1
	}
	return o
}

// traffic fills a round with concurrent clients.
func (g *gen) traffic(clients, lo, hi int) Round {
	var rd Round
	for c := 0; c < clients; c++ {
		for i, n := 0, g.r.Range(lo, hi); i < n; i++ {
			rd.Ops = append(rd.Ops, g.op(c))
		}
	}
	return rd
}

func (g *gen) add(r Round, end string) *Round {
	r.End = end
	g.p.Rounds = append(g.p.Rounds, r)
	return &g.p.Rounds[len(g.p.Rounds)-1]
}

func (g *gen) rounds(n int, lo, hi int, end string) {
	for i := 0; i < n; i++ {
		g.add(g.traffic(g.r.Range(3, 6), lo, hi), end)
	}
}

// burst makes many clients send at the same instant, with requests that are
// served in small interleaved pieces.
func (g *gen) burst(rd *Round, kind string) {
	r := g.r
	g.sets("strategy", 0, "fuel", r.Pick(2, 4, 8, 15, 40), "uthreads", r.Range(2, 6), "hthreads", r.Range(2, 6), "jitter", 0)
	n := r.Range(3, 9)
	for c := 0; c < n; c++ {
		rd.Ops = append(rd.Ops, Op{C: 40 + c, K: "tick", X: 1, N: r.N(3) * r.Pick(0, 1000, 20_000)})
		for i, m := 0, r.Range(1, 3); i < m; i++ {
			for try := 0; try < 20; try++ {
				o := g.op(40 + c)
				if strings.HasPrefix(o.K, kind) {
					o.D = 0
					rd.Ops = append(rd.Ops, o)
					break
				}
			}
		}
	}
}

// dying makes swarms lose their last peer and gain one while a trim pass or
// other announces meet them.
func (g *gen) dying(rd *Round) {
	r := g.r
	t := int(g.p.k("trim"))
	if t == 0 || t > 10 {
		return
	}
	d := int(g.p.k("delay"))
	proto := func() string {
		if g.p.k("http") != 1 || g.p.k("udp") != 0 && r.P(700) {
			return "u.ann"
		}
		return "h.ann"
	}
	h0 := g.hbase + 50 + r.N(3)
	n := r.Range(1, 4)
	scale := r.Pick(0, 0, 1, 1000, 50_000)
	for c := 0; c < n; c++ {
		h := []int{h0 + r.N(n)}
		a, p := g.addr(), 100+c
		ann := func(p int, ev int) Op {
			return Op{C: 20 + c, K: proto(), A: a, H: h, P: p, X: g.port(p), N: 5, F: r.N(2) | ev<<1 | 8}
		}
		for i, m := 0, r.Range(1, 3); i < m; i++ {
			switch r.N(4) {
			case 0:
				rd.Ops = append(rd.Ops, ann(p, 0), ann(p, 3))
			case 1:
				rd.Ops = append(rd.Ops, ann(p, 0), ann(p, 3), ann(p, 0), ann(p, 3))
			case 2:
				rd.Ops = append(rd.Ops, ann(p, 0))
			}
			off := -d
			if r.P(300) {
				off = -2 * d
			}
			rd.Ops = append(rd.Ops, Op{C: 20 + c, K: "tick", X: t, N: off + scale*r.Range(-4, 4)})
			for _, o := range [][]Op{{ann(p, 0)}, {ann(p, 3), ann(p, 0)}, {ann(p+10, 0)}, {ann(p, 3)}}[r.N(4)] {
				o.W = r.N(2)
				rd.Ops = append(rd.Ops, o)
			}
		}
	}
}

// expiring has peers announce again right when a trim finds them expired.
func (g *gen) expiring(rd *Round) {
	r := g.r
	t, e := int(g.p.k("trim")), int(g.p.k("exp"))
	if t == 0 || t > 10 || e == 0 || e > 60 {
		return
	}
	g.p.K["pause"] = int64(r.Pick(0, 50, 300))
	g.p.K["stallpm"], g.p.K["tickpm"] = 0, 0
	if r.P(500) {
		g.p.K["jitter"] = 0
	}
	d := int(g.p.k("delay"))
	h0 := g.hbase + 60
	scale := r.Pick(0, 0, 300, 1000, 10_000)
	for c, n := 0, r.Range(1, 5); c < n; c++ {
		k := "u.ann"
		if g.p.k("udp") == 0 || g.p.k("http") == 1 && r.P(300) {
			k = "h.ann"
		}
		ann := Op{C: 30 + c, K: k, A: g.addr(), H: []int{h0 + r.N(2)}, P: 120 + c, N: 5, F: r.N(2) | 8}
		ann.X = g.port(ann.P)
		rd.Ops = append(rd.Ops, ann, Op{C: 30 + c, K: "tick", X: t, D: int64(e)*1e9 + int64(r.Range(300, 1100))*1e6, N: -d*r.Pick(0, 1, 1, 1, 2) + scale*r.Range(-6, 6)})
		again := ann
		again.F ^= r.N(2)
		again.W = r.N(2)
		rd.Ops = append(rd.Ops, again)
	}
}

// storm repeats one request many times.
func (g *gen) storm(rd *Round) {
	if len(rd.Ops) == 0 {
		return
	}
	o := &rd.Ops[g.r.N(len(rd.Ops))]
	if o.K != "tick" && o.Cl != clHold {
		o.R = g.r.Pick(30, 70, 140, 280)
		o.D = min(o.D, 1e9)
	}
}

// crowd has many connections or many peers (of one swarm or of many) at once, for limits that small numbers never reach.
func (g *gen) crowd(rd *Round, conns bool) {
	r := g.r
	n := r.Pick(20, 70, 130, 300, 700)
	if r.P(100) {
		n = r.Pick(1100, 1500)
	}
	if conns {
		if r.P(250) {
			n = r.Pick(1100, 2100)
		}
		rd.Ops = append(rd.Ops, Op{C: 9, K: "u.crowd", A: 20<<1 | r.N(2), N: n, D: int64(r.N(3000)) * 1e6})
		return
	}
	hs := []int{g.hbase + 70}
	for i, m := 1, r.Pick(1, 1, 3, 20, 80); i < m; i++ {
		hs = append(hs, g.hbase+70+i)
	}
	k := "u.bulk"
	if g.p.k("udp") == 0 {
		return
	}
	rd.Ops = append(rd.Ops, Op{C: 9, K: k, A: 9 << 1, H: hs, P: 3000, N: n, X: 2, D: int64(r.N(3000)) * 1e6})
}

func (g *gen) smallTrim() {
	g.sets("trim", g.r.Pick(1, 2, 5), "exp", g.r.Pick(60, 600))
	g.tickS = []int{int(g.p.k("trim"))}
}

// genBig is the big-swarm scenario, which the build with direct access to the database runs.
func genBig(g *gen) {
	r := g.r
	g.p.World, g.p.Kind = "bigdb", "bigswarm"
	g.sets("strategy", 2, "fuel", 0, "expvar", 1, "trim", 0, "btype", 1, "nwlim", 10, "nwdef", 5, "ips", r.Pick(1, 1, 2, 200), "swarms", r.Pick(1, 1, 1, 2, 40, 700))
	step := func(k string, p, n, f int) {
		g.p.Rounds = append(g.p.Rounds, Round{Ops: []Op{{K: k, P: p, N: n, F: f}}})
	}
	n := r.Pick(200, 300, 33000, 65400, 65534, 66200)
	step("fill", 0, n, r.N(3))
	for i, m := 0, r.Range(1, 3); i < m; i++ {
		at := r.N(n)
		if (g.p.Prop == "C04" || g.p.Prop == "C31") && r.P(600) || r.P(100) {
			step("age", 0, 0, 0)
			if r.P(400) {
				step("flip", at, r.Pick(1, 100, 700), r.N(3)) // some announce again
			}
			step("trim", 0, 0, 0)
		}
		switch r.N(5) {
		case 0:
			step("fill", n, r.Pick(1, 2, 150), r.N(3))
		case 1:
			step("flip", at, r.Pick(1, 100, 700), r.N(3))
		case 2, 3:
			step("drop", at, r.Pick(1, 2, 700), 0)
		default:
			step("restart", 0, 0, 0)
		}
	}
}

var generators map[string]func(g *gen)

func init() {
	generators = map[string]func(g *gen){
		"C01": genC01, "C02": genC02, "C03": genC03, "C04": genC04, "C05": genC05, "C06": genC06, "C07": genC07, "C08": genC08,
		"C09": genC09, "C10": genC10, "C11": genC11, "C12": genC12, "C13": genC13, "C14": genC14, "C15": genC15, "C16": genC16,
		"C17": genC17, "C18": genC18, "C19": genC19, "C20": genC20, "C21": genC21, "C22": genC22, "C23": genC23, "C24": genC24,
		"C25": genC25, "C26": genC26, "C29": genC29, "C31": genC31,
	}
}

func genC01(g *gen) {
	g.base()
	if g.r.P(500) {
		g.smallTrim()
	}
	if g.r.P(300) { // contention on one peer or one swarm that comes and goes
		g.swarms, g.peers, g.dmax = 1, g.r.Range(1, 2), 0
	}
	if g.p.k("trim") < 100 && g.r.P(350) {
		g.swarms, g.dmax = g.r.Range(1, 2), 0
		for i, n := 0, g.r.Range(2, 5); i < n; i++ {
			rd := g.traffic(g.r.Range(0, 2), 1, 3)
			g.dying(&rd)
			g.add(rd, "probe")
		}
		return
	}
	if g.r.P(80) {
		g.sets("trim", g.r.Pick(1, 2, 5), "exp", g.r.Pick(6, 10, 20))
		g.tickS = []int{int(g.p.k("trim"))}
		for i, n := 0, g.r.Range(1, 3); i < n; i++ {
			rd := g.traffic(g.r.Range(0, 2), 1, 3)
			g.expiring(&rd)
			g.add(rd, "probe")
		}
		return
	}
	g.rounds(g.r.Range(1, 4), 2, 7, "probe")
	if g.r.P(200) {
		g.burst(&g.p.Rounds[0], "")
	}
}

func genC02(g *gen) {
	g.base()
	if g.r.P(400) {
		g.smallTrim()
	}
	if g.r.P(400) {
		g.swarms, g.peers, g.dmax = 1, g.r.Range(1, 3), int64(g.r.Pick(0, 10_000))
	}
	g.www = append(g.www, wk{"u.scr", 12}, wk{"h.scr", 12})
	ends := []string{"probe"}
	if g.r.P(200) {
		g.sets("btype", 1)
		ends = []string{"probe", "stop probe", "probe stop"}
	}
	for i, n := 0, g.r.Range(1, 4); i < n; i++ {
		rd := g.traffic(g.r.Range(3, 6), 2, 7)
		if g.r.P(150) {
			g.dying(&rd)
		}
		if g.r.P(150) {
			g.burst(&rd, "")
		}
		g.add(rd, ends[g.r.N(len(ends))])
	}
}

func genC03(g *gen) {
	r := g.r
	if !dbBuild { // the whole system instead
		genC01(g)
		return
	}
	g.sched()
	g.p.World = "db"
	if r.P(800) {
		g.sets("strategy", r.Pick(0, 0, 1), "fuel", r.Pick(3, 6, 12, 30, 100))
	}
	g.sets("exp", 2400, "trim", 0, "nwlim", r.Pick(2, 60))
	hs, ps := r.Range(1, 2), r.Range(1, 4)
	for rd := 0; rd < r.Range(1, 3); rd++ {
		var x Round
		clients := r.Range(2, 5)
		trims, ntrim := r.P(300), 0
		same := r.P(300)
		if rd > 0 && r.P(400) {
			x.Idle, trims = 1e9, true
		}
		for c := 0; c < clients; c++ {
			for i, n := 0, r.Range(1, 4); i < n; i++ {
				o := Op{C: c, H: []int{r.N(hs)}, P: r.N(ps), A: r.N(2) | r.N(4)<<1, X: r.Range(1, 65535)}
				if same || r.P(300) { // as at the last announce
					o.A, o.X = o.P&1|o.P>>1<<1, 7000+o.P
				}
				switch k := r.N(20); {
				case k < 8:
					o.K, o.F = "d.save", r.N(2)
					if same {
						o.F = o.P & 1
					}
				case k < 11:
					o.K = "d.drop"
				case k < 14:
					o.K = "d.stats"
				case k < 17:
					o.K, o.N, o.F = "d.list", r.Pick(0, 1, 2, 60), r.N(2)
				default:
					o.K, o.N = "d.bytes", r.Pick(0, 1, 2, 60)
				}
				if trims && ntrim < 5 && r.P(200) {
					o.K = "d.trim"
					ntrim++
				}
				if o.K == "d.bytes" || o.K == "d.list" {
					if int64(o.N) > g.p.k("nwlim") {
						o.N = int(g.p.k("nwlim"))
					}
				}
				if r.P(200) {
					o.D = int64(r.N(50)) * 1000
				}
				x.Ops = append(x.Ops, o)
			}
		}
		g.add(x, "")
	}
	g.p.Kind = "db"
}

func genC04(g *gen) {
	r := g.r
	g.base()
	exp, trim := r.Pick(6, 10, 20), r.Pick(1, 2, 5)
	if r.P(100) {
		exp, trim = r.Pick(3, 10), 10
	}
	g.sets("exp", exp, "trim", trim, "expvar", 0)
	g.tickS = []int{trim}
	if r.P(300) {
		g.swarms, g.peers = 1, r.Range(1, 2)
	}
	n := r.Range(2, 5)
	bk := r.P(300)
	if bk {
		g.sets("btype", 1)
	}
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 5), 2, 5)
		if r.P(300) {
			rd = g.traffic(r.Range(0, 2), 2, 5)
			g.dying(&rd)
			g.add(rd, "probe")
			continue
		}
		if r.P(200) {
			g.expiring(&rd)
			g.add(rd, "probe")
			continue
		}
		if r.P(500) { // spread over the expiry
			for j := range rd.Ops {
				if rd.Ops[j].K != "tick" && r.P(250) {
					rd.Ops[j].D += int64(r.N(exp*1200)) * 1e6
				}
			}
		}
		if r.P(500) {
			rd.Idle = int64(r.N(exp*1100)) * 1e6
		}
		e := r.PickS("trim probe", "probe trim probe", "probe", "expire trim probe", "trim trim probe", "half trim half trim probe")
		if r.P(40) {
			g.crowd(&rd, false)
			e = "half expire trim probe"
		}
		if bk && r.P(400) {
			e += r.PickS(" stop trim probe", " stop expire trim probe", " usr1 kill trim probe", " half stop half trim probe")
		}
		g.add(rd, e)
	}
}

func genC05(g *gen) {
	r := g.r
	g.base()
	lim := r.Pick(1, 2, 3, 8, 100)
	g.sets("nwlim", lim, "nwdef", r.Range(1, lim+lim/3))
	g.peers, g.addrs = r.Range(2, 9), r.Range(3, 9)
	g.swarms = r.Range(1, 4)
	if r.P(500) {
		g.smallTrim()
	}
	g.www = []wk{{"u.ann", 30}, {"u.stop", 8}, {"h.ann", 40}, {"h.stop", 8}}
	g.rounds(r.Range(2, 4), 2, 7, "probe")
	if r.P(250) {
		g.burst(&g.p.Rounds[r.N(len(g.p.Rounds))], r.PickS("", "h.", "u."))
	}
	if r.P(200) {
		// many peers in several swarms, so that buffers of every length circulate
		g.p.Rounds[0].Ops = append([]Op{{C: 9, K: "u.bulk", A: 3 << 1, H: []int{g.hbase}, P: 2000, N: r.Range(5, 60), X: 2}}, g.p.Rounds[0].Ops...)
	}
}

func genC06(g *gen) {
	r := g.r
	g.base()
	g.sets("http", r.Pick(0, 1), "udp", 1, "validate", r.Pick(0, 1, 1))
	g.www = []wk{{"u.ann", 25}, {"u.stop", 6}, {"u.scr", 20}, {"u.con", 10}, {"u.hb", 5}, {"u.act", 10}, {"u.bad", 10}, {"u.junk", 6}}
	if r.P(300) {
		g.sets("senderr", r.Pick(20, 100))
	}
	if r.P(200) {
		g.sets("recverr", r.Pick(20, 100))
	}
	if r.P(150) {
		g.sets("corrupt", r.Pick(20, 100))
	}
	g.uRounds(r.Range(1, 3), "probe")
}

// uRounds: UDP traffic with odd requests.
func (g *gen) uRounds(n int, end string) {
	r := g.r
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 6), 2, 8)
		if g.p.Prop == "C06" && r.P(250) {
			g.burst(&rd, "u.")
		}
		for j := range rd.Ops {
			g.oddUDP(&rd.Ops[j])
		}
		if r.P(40) {
			g.storm(&rd)
		}
		g.add(rd, end)
	}
}

func (g *gen) oddUDP(o *Op) {
	r := g.r
	switch o.K {
	case "u.act":
		o.X = r.Pick(3, 3, 5, 6, 255, 256, 257, 258, 0x100, 0xff00, 4)
		o.N = r.Pick(0, 0, 4, 20, 82, 200)
		o.M = r.Pick(mCur, mCur, mRandom, mZero)
	case "u.bad":
		switch r.N(3) {
		case 0: // an announce without a port
			*o = Op{C: o.C, D: o.D, K: "u.ann", A: o.A, H: o.H, P: o.P, N: 5, X: 0, F: r.N(2)}
		case 1: // too short for an announce
			o.K, o.X, o.N, o.M = "u.act", 1, r.Pick(0, 20, 81), mCur
		case 2: // a long scrape
			o.K = "u.scr"
			o.H = nil
			for k, n := 0, r.Pick(10, 60, 73, 74, 74, 75); k < n; k++ {
				o.H = append(o.H, g.hbase+r.N(g.swarms+2))
			}
		}
	case "u.junk":
		o.K = "u.raw"
		o.S = g.junk(r.Pick(0, 1, 7, 11, 15, 16, 17, 40, 97, 98, 99, 120, 1400))
	case "u.ann", "u.scr":
		if g.p.k("validate") != 0 && r.P(120) {
			o.M = r.Pick(mStale, mForeign, mRandom, mZero, mAnyOld, mMagic)
			o.X = o.X&0xffff | g.addr()<<16
		}
	}
}

func (g *gen) junk(n int) string {
	r := g.r
	b := make([]byte, n)
	switch r.N(3) {
	case 0:
		for i := range b {
			b[i] = byte(r.N(256))
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	}
	if n > 12 && r.P(600) {
		b[8], b[9], b[10], b[11] = 0, 0, 0, byte(r.N(6))
		if r.P(300) {
			b[10-r.N(3)] = byte(r.N(256))
		}
		if b[11] == 0 && r.P(700) {
			copy(b, udpHead(magic, 0, 0)[:8])
		}
	}
	return fmt.Sprintf("%x", b)
}

func genC07(g *gen) {
	r := g.r
	g.base()
	g.sets("validate", 1, "udp", 1, "http", r.Pick(0, 1), "csize", r.Pick(0, 4), "cexp", r.Pick(5, 30, 1800), "ctrim", r.Pick(1, 5, 600))
	if g.p.k("ctrim") < 100 {
		g.tickS = []int{int(g.p.k("ctrim"))}
	}
	if r.P(300) {
		g.sets("jitter", 30_000_000, "quantum", 1_000_000)
	}
	g.www = []wk{{"u.ann", 35}, {"u.stop", 8}, {"u.scr", 15}, {"u.con", 20}}
	n := r.Range(1, 4)
	bk := r.P(250)
	if bk {
		g.sets("btype", 1)
	}
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 6), 2, 8)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			if (o.K == "u.ann" || o.K == "u.scr") && r.P(500) {
				o.M = r.Pick(mStale, mForeign, mRandom, mZero, mAnyOld, mNear, mMagic)
				o.X = o.X&0xffff | g.addr()<<16
				if o.X&0xffff == 0 {
					o.X |= 99
				}
			}
		}
		e := r.PickS("probe", "ids probe", "ctrim ids probe")
		if bk && r.P(500) {
			e = r.PickS("stop ids probe", "kill ids probe")
		}
		g.add(rd, e)
	}
}

func genC08(g *gen) {
	r := g.r
	g.base()
	cexp, ctrim := r.Pick(5, 10, 30), r.Pick(1, 2, 5, 10)
	g.sets("validate", 1, "udp", 1, "http", 0, "cexp", cexp, "ctrim", ctrim, "expvar", r.Pick(0, 5), "trim", 600, "exp", 3600)
	g.tickS = []int{ctrim}
	g.www = []wk{{"u.ann", 20}, {"u.scr", 20}, {"u.con", 25}}
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 5), 2, 6)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			if o.K != "tick" && r.P(200) {
				o.D += int64(r.N(cexp*1200)) * 1e6
			}
			if o.K == "u.ann" || o.K == "u.scr" {
				o.M = r.Pick(mCur, mAnyOld, mAnyOld)
			}
		}
		if r.P(500) {
			rd.Idle = int64(r.N(cexp*1100)) * 1e6
		}
		e := r.PickS("ids", "ctrim ids", "ids ctrim ids", "ctrim ctrim ids")
		if r.P(40) {
			g.crowd(&rd, true)
			rd.Idle = int64(r.N(cexp*1100)) * 1e6
		}
		if r.P(150) {
			e += " stop ids ctrim ids"
		}
		g.add(rd, e)
	}
}

func (g *gen) forwarded() string {
	return g.r.PickS("1.2.3.4", "8.8.8.8, 9.8.7.6", "8.8.8.8, 2001:db8::5", "garbage, 9.9.9.9", "1.2.3.4,", "7.7.7.7,5.5.5.5", "5.4.3.2 ",
		"2001:db8:1::77", "10.0.0.1, 10.0.0.2, 10.0.0.3", "unknown", "1.2.3.4, ", "99.1.1.1", "a, b, 203.0.113.7", "203.0.113.77", "1.1.1.1,  8.8.4.4")
}

func genC09(g *gen) {
	r := g.r
	g.base()
	g.sets("nwlim", 200)
	g.www = []wk{{"u.ann", 25}, {"u.stop", 4}, {"h.ann", 40}, {"h.stop", 4}}
	g.addrs = r.Range(4, 10)
	g.sets("hthreads", r.Range(1, 3))
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		rd := g.traffic(r.Range(3, 6), 2, 7)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			if o.K == "u.ann" || o.K == "h.ann" {
				if r.P(500) {
					o.F |= 32
				}
				if o.K == "h.ann" && r.P(500) {
					o.S = g.forwarded()
				}
				if o.K == "h.ann" {
					g.tcp(o, 300)
					if r.P(150) {
						o.E |= 128
					}
					if r.P(100) {
						o.E |= 256
					}
				}
			}
		}
		g.add(rd, "probe")
	}
}

// tcp lets a client behave in one of the ways TCP allows.
func (g *gen) tcp(o *Op, pm int) {
	r := g.r
	if !r.P(pm) {
		return
	}
	switch r.N(6) {
	case 0, 1, 2:
		o.Fr = r.Range(2, 5)
		o.M = r.N(400)
		o.Dl = int64(r.Pick(0, 1000, 200_000, 20_000_000))
	case 3:
		o.Cl = r.Pick(clTruncEnd, clTruncHalf)
		o.M = r.N(300)
	case 4:
		o.Cl = clHalf
	case 5:
		o.Cl = clReset
		o.Dl = int64(r.Pick(0, 100_000, 3_000_000))
	}
}

func genC10(g *gen) {
	r := g.r
	g.base()
	g.sets("http", 1, "udp", r.N(2), "hthreads", r.Range(1, 2), "rto", 1500, "wto", 2500, "stallmax", 5_000_000)
	g.www = []wk{{"h.ann", 40}, {"h.stop", 10}, {"h.scr", 20}, {"h.get", 12}, {"u.ann", 5}, {"h.raw", 8}}
	if r.P(200) {
		g.sets("readerr", r.Pick(10, 50))
	}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		rd := g.traffic(r.Range(2, 5), 2, 6)
		if r.P(150) {
			g.burst(&rd, "h.")
		}
		for j := range rd.Ops {
			o := &rd.Ops[j]
			g.oddHTTP(o)
			if strings.HasPrefix(o.K, "h.") {
				g.tcp(o, 500)
				if o.Cl == 0 && r.P(60) {
					o.Cl = clTruncMum
					o.M = r.N(300)
				}
			}
			if r.P(50) {
				o.E |= 32
			}
		}
		if r.P(40) {
			g.storm(&rd)
		}
		g.add(rd, "probe")
	}
}

func (g *gen) oddHTTP(o *Op) {
	r := g.r
	switch o.K {
	case "h.ann", "h.stop", "h.scr":
		if r.P(60) {
			o.E |= 64
		}
		if r.P(150) { // bytes that needn't be escaped aren't
			o.E |= 512
		}
		if r.P(60) && o.E&32 == 0 { // more follows the request
			o.E |= 1024
		}
		if r.P(100) { // parameters of other trackers and clients
			o.E |= 2048
		}
		if o.K == "h.scr" && r.P(60) {
			o.H = nil
			for n := r.Range(35, 40); len(o.H) < n; {
				o.H = append(o.H, g.hbase+len(o.H))
			}
		}
	case "h.get":
		o.S = r.PickS("/heartbeat", "/stats", "/nothing", "/heartbeat?x=1", "/announce", "/announce?", "/scrape?", "/scrape", "/", "/announce?info_hash=short&peer_id=x&port=1",
			"/scrape?info_hash=short", "/scrape?foo=bar", "/announcex", "/stats?a=b")
		o.E &^= 32
	case "h.raw":
		o.S = r.PickS(
			"POST /announce HTTP/1.1\r\n\r\n", "GET\r\n\r\n", "\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "GET /announce?", "GET /announce?info_hash=%", "x",
			"GET /announce?&&&&=&=%zz&%4 HTTP/1.1\r\n\r\n", "GET "+strings.Repeat("/a", 600)+" HTTP/1.1\r\n\r\n", "R0VU", "R0VUIC8gSFRUUC8xLjENCg0K",
			"R0VU!!!!", strings.Repeat("A", 2600), strings.Repeat("GET ", 700), "GET /scrape?info_hash=%aa%aa HTTP/1.0\n\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03",
			"GET /announce?info_hash=%%%%%%%%%%%%%%%%%%%% HTTP/1.1\r\n\r\n", "GET /announce?info_hash HTTP/1.1\r\nX-Forwarded-For: ,\r\n\r\n", "GET /announce HTTP/1.1\r\nX-Forwarded-For: ,\r\n\r\n",
			"GET /announce HTTP/1.1\r\nX-Forwarded-For: 1.2.3.4,\r\n\r\n", "GET /announce HTTP/1.1\r\nX-Forwarded-For:\r\n\r\n", "GET /announce HTTP/1.1\r\nX-Forwarded-For: 1.2.3.4",
			"GET /scrape?info_hash= HTTP/1.1\r\n\r\n", "GET ? HTTP/1.1\r\n\r\n", "GET  HTTP/1.1\r\n\r\n", "GET /announce? HTTP/1.1\r\n\r\n", "GET /%", "GET /%2 HTTP/1.1\r\n\r\n")
		if r.P(200) {
			b := []byte(g.junk(r.Range(1, 400)))
			o.S = string(b)
		} else if r.P(600) {
			o.S = g.rawHTTP()
		}
	}
}

// rawHTTP is something that resembles a request.
func (g *gen) rawHTTP() string {
	r := g.r
	esc20 := func() string {
		// swarms that nothing else uses: what the tracker makes of a malformed
		// request is its own affair
		h := hashOf(g.hbase + 5000 + r.N(g.swarms+1))
		return esc(h[:], r.N(32))
	}
	param := func() string {
		switch r.N(10) {
		case 0:
			return "info_hash=" + esc20()
		case 1:
			return "peer_id=" + esc20()
		case 2:
			return r.PickS("port=", "left=", "numwant=", "event=", "compact=", "no_peer_id=") + r.PickS("0", "1", "-1", "65535", "65536", "99999999999999999999", "stopped", "completed", "", "%", "%4", "%41", "%zz")
		case 3:
			return r.PickS("", "=", "==", "a", "a=b", "?", "%", "%%", "info_hash", "info_hash=", "info_hash=%", "info_hash=%4", "peer_id=%0")
		case 4:
			return "info_hash=" + strings.Repeat(r.PickS("%00", "%", "a", "%4", "+"), r.Range(1, 60))
		default:
			return r.PickS("a=b", "key=1234", "x", "ip=1.2.3.4")
		}
	}
	one := func() string {
		var q string
		if r.P(800) {
			n := r.Pick(0, 1, 2, 5, 10, 30, 43, 44, 45, 46, 47, 60, 200)
			var ps []string
			for i := 0; i < n; i++ {
				ps = append(ps, param())
			}
			q = "?" + strings.Join(ps, r.PickS("&", "&", "&", "&", ";", "&&"))
			if r.P(150) {
				q += "&"
			}
		}
		parts := []string{
			r.PickS("GET", "GET", "GET", "GET", "GET", "POST", "get", "", "GETGET", "HEAD", "R0VU"), r.PickS(" ", " ", " ", " ", "  ", "", "\t"),
			r.PickS("/announce", "/announce", "/scrape", "/scrape", "/stats", "/", "", "announce", "//", "*", "/heartbeat", "http://x/announce", "/index.html", "/../x", "/\x00"), q,
			r.PickS(" HTTP/1.1", " HTTP/1.1", " HTTP/1.1", " HTTP/1.0", " HTTP/", "", " HTTP", "HTTP/1.1"), r.PickS("\r\n", "\r\n", "\r\n", "\n", ""),
			r.PickS("", "Host: x\r\n", "X-Forwarded-For: 1.2.3.4\r\n", "X-Forwarded-For: \r\n", "X-Forwarded-For:", "X-Forwarded-For: ,", "X-Forwarded-For: "+strings.Repeat("1", r.N(2500))+"\r\n"),
			r.PickS("\r\n", "\r\n", "\r\n", "\n", ""),
		}
		for r.P(200) { // something is at another place, missing or there twice
			i, j := r.N(len(parts)), r.N(len(parts))
			switch r.N(3) {
			case 0:
				parts[i], parts[j] = parts[j], parts[i]
			case 1:
				parts[i] = ""
			case 2:
				parts[i] += parts[j]
			}
		}
		return strings.Join(parts, "")
	}
	t := one()
	for r.P(100) {
		t += one()
	}
	for r.P(120) { // what marks a part of the request, before it
		t = r.PickS("?", "?", "x?", "?a=b ", "/", " /", " HTTP/", "GET", " ", "\r\n", "&", "=", "%") + t
	}
	for r.P(150) && len(t) > 0 { // damaged bytes
		i := r.N(len(t))
		t = t[:i] + string([]byte{byte(r.Pick(0, 10, 13, 32, 37, 38, 47, 61, 63, 255))}) + t[i+r.N(2):]
	}
	if r.P(100) {
		t = base64.StdEncoding.EncodeToString([]byte(t))
	}
	if r.P(50) {
		t = t[:r.N(len(t)+1)]
	}
	if t == "" {
		return "G"
	}
	return t
}

func genC11(g *gen) {
	r := g.r
	g.base()
	g.sets("http", r.Pick(1, 1, 1, 2), "udp", 1, "hthreads", r.Range(1, 4), "uthreads", r.Range(1, 4), "rto", 1500, "wto", 2500, "stallmax", 5_000_000)
	g.www = []wk{{"h.ann", 12}, {"h.stop", 3}, {"h.scr", 10}, {"h.get", 25}, {"h.raw", 25}, {"u.ann", 10}, {"u.stop", 3}, {"u.scr", 8}, {"u.con", 4}, {"u.act", 8}, {"u.bad", 8}, {"u.junk", 15}, {"u.hb", 3}}
	for _, k := range []string{"recverr", "senderr", "accepterr", "readerr", "werr", "corrupt", "frag"} {
		if r.P(350) {
			g.set(k, int64(r.Pick(10, 60, 300)))
		}
	}
	if r.P(300) {
		g.smallTrim()
	}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		rd := g.traffic(r.Range(3, 7), 2, 8)
		statsRush := r.P(200)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			g.oddUDP(o)
			g.oddHTTP(o)
			if strings.HasPrefix(o.K, "h.") {
				g.tcp(o, 300)
				if o.K == "h.ann" && r.P(300) {
					o.S = g.forwarded()
				}
				if o.K == "h.get" && statsRush {
					o.S, o.D = "/stats", 0
				}
				if o.K == "h.scr" && r.P(100) {
					for len(o.H) < 38 {
						o.H = append(o.H, 900+len(o.H))
					}
				}
			}
		}
		if r.P(60) {
			g.storm(&rd)
		}
		g.add(rd, "probe")
	}
}

func genC12(g *gen) {
	r := g.r
	g.base()
	rto := r.Pick(1000, 2000, 3000)
	g.sets("http", 1, "udp", 0, "hthreads", r.Range(1, 3), "rto", rto, "wto", r.Pick(rto, rto+1000, rto/2+200, 400), "stallpm", 0, "tickpm", 0, "drop", 0, "window", r.Pick(60, 200, 65536))
	g.www = []wk{{"h.ann", 30}, {"h.scr", 20}, {"h.get", 20}, {"h.raw", 12}}
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		rd := g.traffic(r.Range(3, 7), 1, 3)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			g.oddHTTP(o)
			if r.P(600) {
				g.misbehave(o, rto)
			}
		}
		if r.P(60) {
			g.storm(&rd)
		}
		if r.P(500) { // long enough for every connection to be closed
			rd.Idle = (g.p.k("rto")+g.p.k("wto"))*1e6 + 2e9
		}
		g.add(rd, "probe")
	}
}

// misbehave makes the client of a TCP request slow, silent or gone.
func (g *gen) misbehave(o *Op, rto int) {
	r := g.r
	switch r.N(8) {
	case 0:
		o.Cl = clVanish
	case 1:
		o.Cl, o.M = clTruncMum, r.N(300)
	case 2:
		o.Cl = clNoRead
	case 3:
		o.Cl, o.Dl = clSlowRead, int64(r.Pick(1_000_000, 100_000_000, 900_000_000))
	case 4: // trickle
		o.Fr, o.M, o.Dl = r.Range(3, 12), r.N(60), int64(r.Pick(50, 200, 400))*1e6
	case 5: // just within the time allowed
		o.Fr, o.M, o.Dl = 2, r.N(100), int64(rto-r.Pick(300, 600))*1e6
	case 6:
		o.Cl = clHalf
	case 7:
		o.Cl, o.Dl = clReset, int64(r.N(2000))*1e6
	}
}

// stopTick sends a stop signal right around a periodic backup, with requests
// around that moment too.
func (g *gen) stopTick(rd *Round) { g.sigTick(rd, g.r.PickS("interrupt", "terminated")) }

// sigTick sends signals around a periodic backup.
func (g *gen) sigTick(rd *Round, sigs ...string) {
	r := g.r
	b := int(g.p.k("bfreq"))
	if b == 0 {
		return
	}
	scale := r.Pick(10_000, 1_000_000, 20_000_000)
	if lat := int(g.p.k("pglat") + g.p.k("flat")); lat > 0 && r.P(700) {
		scale = lat / 3
	}
	tick := func(c int) Op { return Op{C: c, K: "tick", X: b, N: r.Range(-3, 9) * scale / 3} }
	seen := map[int]bool{}
	var ops []Op
	for j := len(rd.Ops) - 1; j >= 0; j-- {
		o := rd.Ops[j]
		ops = append(ops, o)
		if o.C >= 0 && !seen[o.C] {
			seen[o.C] = true
			if r.P(600) {
				ops = append(ops, tick(o.C))
			}
		}
	}
	rd.Ops = nil
	for j := len(ops) - 1; j >= 0; j-- {
		rd.Ops = append(rd.Ops, ops[j])
	}
	rd.Ops = append(rd.Ops, tick(-1))
	for _, x := range sigs {
		rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: x, D: int64(r.N(2*scale + 1))})
	}
}

func genC13(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", 1, "bfreq", r.Pick(0, 0, 0, 1, 5), "exp", r.Pick(60, 2400), "trim", r.Pick(5, 600))
	if r.P(200) {
		g.set("flat", int64(r.Pick(1, 20, 200))*1e6)
	}
	if r.P(100) {
		g.set("csize", 3)
	}
	if r.P(100) {
		g.sets("away", r.Pick(30, 600, 2000))
	}
	if r.P(120) {
		g.sets("bootfail", r.Range(1, 2))
	}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		lo := r.Pick(0, 1, 3)
		rd := g.traffic(r.Range(2, 5), lo, lo+4)
		if r.P(120) { // nothing at all
			rd = Round{}
		}
		if r.P(100) {
			rd.Ops = append(rd.Ops, Op{C: 8, K: "u.bulk", A: 9 << 1, H: []int{g.hbase}, P: 3000, N: r.Range(10, 300), X: 2})
		}
		if r.P(150) && g.p.k("bfreq") > 0 {
			g.stopTick(&rd)
			g.add(rd, "probe")
			continue
		}
		if r.P(350) { // the signal arrives under traffic
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: r.PickS("interrupt", "terminated"), D: int64(r.N(3000)) * 10_000})
			g.add(rd, "probe")
			continue
		}
		if r.P(200) {
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(3000)) * 10_000})
		}
		g.add(rd, r.PickS("stop probe", "term probe", "probe stop probe", "stop stop probe", "probe stop gaugesx"))
	}
	for i := range g.p.Rounds {
		g.p.Rounds[i].End = strings.ReplaceAll(g.p.Rounds[i].End, "gaugesx", "expire trim probe")
	}
	g.aging()
}

// aging adds a restart in the middle of the expiry.
func (g *gen) aging() {
	r := g.r
	if g.p.k("exp") <= 60 && g.p.k("trim") <= 5 && r.P(300) {
		ends := r.PickS("half,half", "half,half", "most,bit", "bit,most")
		first, second, _ := strings.Cut(ends, ",")
		g.p.Rounds[len(g.p.Rounds)-1].End += " " + first + " " + r.PickS("stop", "stop", "term", "usr1 kill", "stop stop") + " " + second + " trim probe"
	}
}

// disk chooses disk faults.
func (g *gen) disk() {
	r := g.r
	for _, k := range []string{"fwerr", "foerr", "fserr", "frerr", "fcerr", "fshort"} {
		if r.P(300) {
			g.set(k, int64(r.Pick(30, 200, 600)))
		}
	}
	if r.P(200) {
		g.set("fspace", int64(1+r.N(400)))
	}
}

func genC14(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", 1, "bfreq", r.Pick(0, 0, 5), "exp", 2400, "trim", 600)
	g.peers = r.Range(2, 8)
	if r.P(400) {
		g.set("flat", int64(r.Pick(1, 5, 50))*1e6)
	}
	n := r.Range(2, 4)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 4), 1, 4)
		if i == 0 {
			g.add(rd, r.PickS("usr1", "stop", "probe usr1"))
			continue
		}
		switch r.N(6) {
		case 0, 1: // crash at some disk operation of a backup
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fscrash", N: r.Range(1, 14), X: r.N(2), D: int64(r.N(200)) * 10_000},
				Op{C: -1, K: "sig", S: r.PickS("user defined signal 1", "user defined signal 1", "interrupt"), D: int64(r.N(2)) * 1e6})
			if r.P(400) {
				rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(5)) * 1e6})
			}
			g.add(rd, r.PickS("probe", "kill probe", "power probe"))
		case 2: // kill at some time after the start of a backup
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(200)) * 10_000},
				Op{C: -1, K: r.PickS("kill", "power"), D: int64(r.N(100)) * int64(r.Pick(1000, 100_000, 3_000_000))})
			g.add(rd, "probe")
		case 3: // failing disk while saving, then a kill
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fsfault", N: r.Pick(0, 300, 1000), X: r.Pick(0, 300), M: r.Pick(0, 300, 1000), E: r.Pick(0, 300, 1000), Fr: r.Pick(0, 300), F: r.Pick(0, 500)},
				Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(200)) * 10_000})
			g.add(rd, r.PickS("kill probe", "power probe", "stop probe", "usr1 kill probe"))
		case 4: // a full disk
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fsspace", N: r.N(300)}, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(200)) * 10_000})
			g.add(rd, r.PickS("kill probe", "power probe", "stop probe", "probe"))
		case 5: // a failing disk during the final save
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fsfault", N: r.Pick(0, 300, 1000), X: r.Pick(0, 300), M: r.Pick(0, 300, 1000), E: r.Pick(0, 300, 1000), F: r.Pick(0, 500)},
				Op{C: -1, K: "sig", S: "interrupt", D: int64(r.N(200)) * 10_000})
			g.add(rd, "probe")
		}
	}
}

func genC15(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", 1, "bfreq", r.Pick(0, 1, 2), "exp", r.Pick(8, 2400), "trim", r.Pick(1, 2, 600))
	g.peers, g.swarms = r.Range(1, 6), r.Range(1, 4)
	g.tickS = nil
	if b := g.p.k("bfreq"); b > 0 {
		g.tickS = append(g.tickS, int(b))
	}
	if t := g.p.k("trim"); t < 60 {
		g.tickS = append(g.tickS, int(t))
	}
	g.sets("strategy", r.Pick(0, 0, 1), "fuel", r.Pick(5, 10, 30, 100))
	g.dmax = int64(r.Pick(0, 20_000, 300_000))
	if r.P(350) { // slow disk: backups overlap
		g.set("flat", int64(r.Pick(1, 5, 20))*1e6)
		g.dmax = int64(r.Pick(100_000, 3_000_000))
	}
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(3, 6), 3, 8)
		if g.p.k("bfreq") > 0 && r.P(300) {
			g.sigTick(&rd, []string{"user defined signal 1", "user defined signal 1", "interrupt"}[r.N(2):r.Range(2, 3)]...)
			g.add(rd, r.PickS("kill probe", "kill probe", "power probe", "probe"))
			continue
		}
		for k, m := 0, r.Range(1, 3); k < m; k++ {
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(400)) * int64(r.Pick(1000, 10_000))})
		}
		if r.P(150) {
			g.stopTick(&rd)
			g.add(rd, "probe")
			continue
		}
		g.add(rd, r.PickS("kill probe", "kill probe", "power probe", "stop probe"))
		if r.P(300) {
			g.p.Rounds[len(g.p.Rounds)-1].Ops = append(g.p.Rounds[len(g.p.Rounds)-1].Ops, Op{C: -2, K: "kill", D: int64(r.N(4000)) * 1000})
			g.p.Rounds[len(g.p.Rounds)-1].End = "probe"
		}
	}
}

// readOnlyData has the tracker save while the file system of its backup is read-only.
func (g *gen) readOnlyData(rd *Round) {
	r := g.r
	rd.Ops = append(rd.Ops, Op{C: -1, K: "fsro", D: int64(r.N(2000)) * 1000},
		Op{C: -1, K: "sig", S: r.PickS("user defined signal 1", "interrupt", "terminated"), D: int64(r.N(2000)) * 10_000},
		Op{C: -1, K: "sleep", D: 500e6 + 30*g.p.k("flat")})
	g.add(*rd, r.PickS("kill ids", "ids", "power ids"))
}

func genC16(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", r.Pick(0, 1, 1), "bfreq", r.Pick(0, 2), "http", r.Pick(0, 1, 2), "udp", r.Pick(0, 1, 1), "rto", 1500, "wto", 2500)
	if r.P(400) {
		g.set("flat", int64(r.Pick(1, 20, 300))*1e6)
	}
	if r.P(250) {
		g.disk()
	}
	if g.p.k("udp") == 0 && g.p.k("http") == 0 {
		g.set("udp", 1)
	}
	sigs := func() string {
		return r.PickS("user defined signal 1", "user defined signal 1", "user defined signal 1", "hangup?", "interrupt", "terminated", "child exited", "window changed")
	}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(1, 5), 0, 5)
		if r.P(120) && g.p.k("btype") == 1 { // the backup can't be written, the connection ids can
			g.readOnlyData(&rd)
			continue
		}
		for k, m := 0, r.Range(0, 4); k < m; k++ {
			s := sigs()
			if s == "hangup?" {
				continue
			}
			rd.Ops = append(rd.Ops, Op{C: -1 - r.N(2), K: "sig", S: s, D: int64(r.N(200)) * int64(r.Pick(0, 1000, 100_000, 2_000_000))})
		}
		e := r.PickS("probe", "stop ids", "term probe", "stop probe", "early", "early early", "usr1 probe", "usr1 kill ids probe", "usr1 power ids", "stop probe")
		if strings.Contains(e, "usr1") && g.p.k("btype") == 0 {
			e = "probe"
		}
		g.add(rd, e)
	}
}

func genC17(g *gen) {
	r := g.r
	g.base()
	g.sets("udp", 1, "validate", 1, "http", r.Pick(0, 1), "btype", r.Pick(0, 1), "cexp", r.Pick(20, 1800), "ctrim", r.Pick(5, 600), "csize", r.Pick(0, 3))
	g.addrs = r.Range(2, 12)
	if r.P(150) {
		g.sets("away", r.Pick(10, 30, 600, 2000))
	}
	g.www = []wk{{"u.con", 20}, {"u.ann", 15}, {"u.scr", 8}}
	if r.P(300) {
		g.set("flat", int64(r.Pick(1, 20, 200))*1e6)
	}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 5), 1, 5)
		if r.P(120) && g.p.k("btype") == 1 {
			g.readOnlyData(&rd)
			continue
		}
		switch r.N(6) {
		case 0:
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fscrash", N: r.Range(1, 14), X: r.N(2), D: int64(r.N(200)) * 10_000},
				Op{C: -1, K: "sig", S: r.PickS("user defined signal 1", "interrupt"), D: int64(r.N(2)) * 1e6})
			g.add(rd, r.PickS("ids", "kill ids", "power ids"))
		case 1:
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fsfault", N: r.Pick(0, 300, 1000), X: r.Pick(0, 300), M: r.Pick(0, 300, 1000), E: r.Pick(0, 300, 1000), F: r.Pick(0, 500)},
				Op{C: -1, K: "sig", S: r.PickS("interrupt", "user defined signal 1"), D: int64(r.N(200)) * 10_000})
			g.add(rd, r.PickS("ids", "kill ids", "stop ids"))
		case 2:
			g.add(rd, fmt.Sprintf("damage%d ids", r.N(5)))
		case 3:
			g.add(rd, r.PickS("stop early ids", "early ids", "early stop ids"))
		default:
			g.add(rd, r.PickS("stop ids", "ids stop ids", "term ids ctrim ids", "stop stop ids", "power ids stop ids", "usr1 kill ids", "usr1 power ids"))
		}
	}
}

func genC18(g *gen) {
	r := g.r
	g.base()
	g.sets("expvar", r.Pick(1, 2, 5), "trim", r.Pick(1, 5), "exp", r.Pick(10, 60), "cexp", r.Pick(10, 1800), "ctrim", r.Pick(5, 600), "drop", 0)
	g.tickS = []int{int(g.p.k("trim")), int(g.p.k("expvar"))}
	g.addrs = r.Range(1, 6)
	if r.P(300) {
		g.swarms, g.peers = 1, r.Range(1, 2)
	}
	bk := r.P(400)
	if bk {
		g.sets("btype", 1)
	}
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		rd := g.traffic(r.Range(3, 6), 2, 7)
		if r.P(150) {
			g.dying(&rd)
		}
		e := r.PickS("probe gauges", "gauges", "gaugestrim", "gauges expire trim gaugestrim")
		if bk && r.P(600) {
			e += r.PickS(" stop gauges", " stop gaugestrim", " usr1 kill gauges", " stop expire trim gaugestrim")
		}
		g.add(rd, e)
	}
}

func genC19(g *gen) {
	r := g.r
	g.base()
	g.sets("expvar", r.Pick(1, 2), "stallpm", 0, "tickpm", 0, "sample", 1, "nohttpprobe", 0, "drop", 0)
	g.sets("strategy", r.Pick(0, 0, 1), "fuel", r.Pick(3, 6, 15, 60))
	g.tickS = []int{int(g.p.k("expvar"))}
	g.dmax = int64(r.Pick(0, 10_000, 100_000))
	g.www = append(g.www, wk{"u.bad", 6}, wk{"h.get", 8}, wk{"u.hb", 4})
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		rd := g.traffic(r.Range(3, 6), 3, 9)
		for j := range rd.Ops {
			o := &rd.Ops[j]
			g.oddUDP(o)
			if o.K == "h.get" {
				o.S = r.PickS("/heartbeat", "/nothing", "/announce", "/scrape", "/stats")
				o.E &^= 32
			}
			if o.K != "tick" && r.P(200) {
				rd.Ops[j] = Op{C: o.C, K: "tick", X: g.tickS[0], N: -int(g.p.k("delay")) + r.Range(-20, 20)*r.Pick(1000, 10_000)}
			}
		}
		g.add(rd, "")
	}
	g.p.Rounds[len(g.p.Rounds)-1].End = "sums"
}

func genC20(g *gen) {
	r := g.r
	if !runonBuild || r.P(350) {
		g.base()
		b := r.Pick(2, 3, 5)
		g.sets("btype", 1, "bfreq", b, "expvar", r.Pick(1, 2, 4), "trim", r.Pick(2, 3, 5), "exp", r.Pick(4, 10), "udp", 1, "http", 1, "validate", 0, "drop", 0, "stallpm", 0, "tickpm", 0, "dup", 0, "jitter", 0)
		g.p.Kind = "system"
		g.add(g.traffic(2, 1, 3), "sched")
		if r.P(600) {
			g.add(Round{Ops: []Op{{C: -1, K: "clock", N: r.Pick(-3600_000, -1500, -400, 700, 2500, 86400_000, 10_000), D: int64(r.N(5000)) * 1e6}}}, "sched")
		}
		return
	}
	g.p.World, g.p.Kind = "runon", "runon"
	g.sets("period", r.Pick(1000, 1000, 2000, 5000, 60_000, 300_000, 500), "periods", r.Range(6, 14))
	if r.P(200) {
		g.sets("stallpm", r.Pick(10, 100), "stallmax", 20_000_000)
	}
	if r.P(200) {
		g.sets("tickpm", 50, "tickmax", r.Pick(100_000, 1_000_000))
	}
	D := g.p.k("period")
	var rd Round
	for i, n := 0, r.Pick(0, 0, 1, 2, 3); i < n; i++ {
		d := int64(r.N(1000)) * D / 1000
		if r.P(300) {
			d += int64(r.Range(1, 4)) * D
		}
		rd.Ops = append(rd.Ops, Op{C: 0, K: "job", X: r.N(8), N: int(d)})
	}
	for i, n := 0, r.Pick(0, 0, 1, 1, 2); i < n; i++ {
		s := r.Pick(-1, 1) * r.Pick(int(D)/7, int(D), int(D)*5/2, int(D)*20, 3_600_000, 86_400_000, 50)
		rd.Ops = append(rd.Ops, Op{C: 0, K: "step", D: int64(r.N(int(D)*8)) * 1e6, N: s})
	}
	g.add(rd, "")
}

func genC21(g *gen) {
	r := g.r
	g.sched()
	g.p.World, g.p.Kind = "cli", "cli"
	if r.P(250) {
		g.sets("hip", r.N(len(bindIPs)), "uip", r.N(len(bindIPs)))
	}
	g.sets("udp", r.Pick(0, 1, 1, 1), "http", r.Pick(0, 1, 1, 2), "btype", r.Pick(0, 1), "stallpm", 0, "tickpm", 0)
	var rd Round
	n := r.Range(3, 9)
	for i := 0; i < n; i++ {
		o := Op{K: r.PickS("status", "status", "start", "start", "start", "stop", "stop", "restart", "reset", "mode", "mode", "killtr", "pid", "loss", "disk")}
		switch o.K {
		case "disk":
			o.X, o.N = r.Pick(0, 0, 1, 2, 3), r.Pick(1, 2, 3, 300, 1000)
		case "mode":
			o.X = r.Pick(trReal, trReal, trHung, trCrash, trSlow, trSlow, trHungBare, trWrong)
			o.N = r.Pick(50, 900, 5000, 8000, 13000, 40000)
			if o.X == trWrong {
				o.N = r.N(16)
			}
		case "pid":
			o.X = r.N(6)
			o.N = r.N(2)
		case "loss":
			o.N = r.Pick(0, 0, 300, 1000)
		}
		if r.P(600) {
			o.D = int64(r.Pick(1, 50, 3000, 15000)) * 1e6
		}
		rd.Ops = append(rd.Ops, o)
	}
	g.add(rd, "")
}

// genPG chooses faults of the database server.
func (g *gen) genPG() {
	r := g.r
	if r.P(600) {
		g.set("pgfault", 1)
		for _, k := range []string{"pgerr", "pglost", "pglostafter"} {
			if r.P(500) {
				g.set(k, int64(r.Pick(50, 300, 1000)))
			}
		}
		if r.P(200) {
			g.set("pgdown", 1)
		}
	}
	if r.P(400) {
		g.set("pglat", int64(r.Pick(1, 50, 500))*1e6)
	}
}

func genC22(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", 2, "bfreq", r.Pick(0, 1, 3), "pgconn", r.Pick(3, 5, 20), "exp", r.Pick(60, 2400), "trim", r.Pick(5, 600))
	g.genPG()
	if r.P(200) {
		g.sets("away", r.Pick(60, 1190, 1300, 1300, 4000))
	}
	if r.P(250) {
		g.sets("bootfail", r.Range(1, 3))
	}
	n := r.Range(1, 4)
	for i := 0; i < n; i++ {
		lo := r.Pick(0, 1, 2)
		rd := g.traffic(r.Range(2, 4), lo, lo+4)
		if r.P(150) {
			rd = Round{}
		}
		for k, m := 0, r.Pick(0, 0, 1, 2, 8); k < m; k++ {
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(400)) * int64(r.Pick(1000, 100_000, 3_000_000))})
		}
		if r.P(200) {
			rd.Ops = append(rd.Ops, Op{C: -2, K: "pgdown", X: 1, D: int64(r.N(100)) * 1e5}, Op{C: -2, K: "pgdown", X: 0, D: int64(r.N(100)) * 1e6})
		}
		if r.P(250) {
			rd.Idle = int64(r.N(20000)) * 1e6
		}
		if r.P(200) && g.p.k("bfreq") > 0 {
			g.sigTick(&rd, []string{"user defined signal 1", "user defined signal 1", "interrupt"}[r.N(3):]...)
			g.add(rd, r.PickS("probe", "kill probe"))
			continue
		}
		g.add(rd, r.PickS("probe", "usr1 kill probe", "usr1 usr1 usr1 usr1 probe", "stop probe", "usr1 stop probe", "kill probe", "usr1 usr1 usr1 usr1 usr1 usr1 kill probe", "stop stop probe", "probe stop probe"))
	}
	g.aging()
}

func genC23(g *gen) {
	r := g.r
	g.base()
	lim := r.Pick(1, 2, 3, 5, 10, 50)
	g.sets("nwlim", lim, "nwdef", r.Range(1, lim+lim/2), "base", r.Pick(1, 10, 1800), "fuzz", r.Pick(0, 1, 2, 10, 300, 3000))
	g.peers, g.addrs, g.swarms = r.Range(3, 12), r.Range(3, 8), r.Range(1, 2)
	g.www = []wk{{"u.ann", 40}, {"u.stop", 4}, {"h.ann", 40}, {"h.stop", 4}}
	g.rounds(r.Range(1, 3), 3, 8, "probe")
	for i := range g.p.Rounds {
		for j := range g.p.Rounds[i].Ops {
			o := &g.p.Rounds[i].Ops[j]
			if o.K == "u.ann" && r.P(300) {
				o.N = r.Pick(-1, 0, -2147483648, 2147483647, 1, lim, lim+1, lim-1)
			}
			if o.K == "h.ann" && o.F>>1&3 != 3 && r.P(300) {
				o.N = r.Pick(-1, 0, 2147483647, 1, lim, lim+1, 999999999, -2, -2147483648, -9000000000000000000, 4294967296, 4294967297)
			}
		}
	}
	if r.P(500) {
		// more members than any limit
		g.p.Rounds[0].Ops = append([]Op{{C: 9, K: "u.bulk", A: 3 << 1, H: []int{g.hbase}, P: 2000, N: r.Range(5, 80), X: 2}}, g.p.Rounds[0].Ops...)
	}
}

func genC24(g *gen) {
	r := g.r
	g.base()
	g.sets("http", 1, "udp", r.N(2), "hthreads", r.Range(1, 5), "rto", 1500, "wto", 2500, "stallmax", 5_000_000)
	g.www = []wk{{"h.ann", 35}, {"h.stop", 10}, {"h.scr", 35}, {"h.get", 20}, {"h.raw", 10}, {"u.ann", 5}}
	g.swarms = r.Range(1, 5)
	if r.P(200) {
		g.sets("werr", r.Pick(10, 60), "readerr", r.Pick(0, 20))
	}
	crowd := r.P(400)
	for i, n := 0, r.Range(1, 3); i < n; i++ {
		var rd Round
		if !crowd || r.P(300) {
			rd = g.traffic(r.Range(3, 7), 2, 7)
		}
		if crowd {
			g.burst(&rd, "h.")
		}
		for j := range rd.Ops {
			o := &rd.Ops[j]
			if crowd && r.P(800) {
				continue
			}
			g.oddHTTP(o)
			if strings.HasPrefix(o.K, "h.") {
				g.tcp(o, 250)
			}
			if o.K == "h.scr" && r.P(150) {
				for len(o.H) < r.Range(5, 38) {
					o.H = append(o.H, 900+len(o.H))
				}
			}
			if o.K == "h.ann" && r.P(60) {
				o.X = r.Pick(0, 70000, 65536)
			}
		}
		if r.P(40) {
			g.storm(&rd)
		}
		g.add(rd, "probe")
	}
}

func genC25(g *gen) {
	r := g.r
	g.sched()
	g.p.World, g.p.Kind = "conf", "conf"
	g.sets("stallpm", 0, "tickpm", 0)
	switch r.N(6) {
	case 0:
		g.sets("cfg", 0) // an existing file
	case 1:
		g.sets("cfg", 2) // an existing, odd file
	default:
		g.sets("cfg", 1, "nodir", r.N(2))
	}
	g.sets("tries", r.Range(1, 3), "crash0", r.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 20), "power", r.N(2))
	if r.P(500) {
		g.disk()
	}
	if r.P(200) {
		g.set("fstat", int64(r.Pick(200, 600, 1000)))
	}
}

func genC26(g *gen) {
	r := g.r
	g.base()
	g.sets("btype", 1, "bfreq", r.Pick(0, 0, 5), "exp", r.Pick(30, 2400), "trim", r.Pick(5, 600))
	if r.P(300) {
		g.set("flat", int64(r.Pick(1, 20))*1e6)
	}
	n := r.Range(3, 7)
	for i := 0; i < n; i++ {
		rd := g.traffic(r.Range(2, 4), 1, 4)
		switch r.N(9) {
		case 8:
			g.stopTick(&rd)
			g.add(rd, "probe")
		case 0:
			rd.Ops = append(rd.Ops, Op{C: -1, K: "fscrash", N: r.Range(1, 14), X: r.N(2), D: int64(r.N(200)) * 10_000}, Op{C: -1, K: "sig", S: "user defined signal 1", D: 1e6})
			g.add(rd, "probe")
		case 1:
			rd.Ops = append(rd.Ops, Op{C: -1, K: r.PickS("kill", "power"), D: int64(r.N(300)) * 100_000})
			g.add(rd, "probe")
		case 2:
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "interrupt", D: int64(r.N(300)) * 100_000})
			g.add(rd, "probe")
		case 3:
			rd.Ops = append(rd.Ops, Op{C: -1, K: "sig", S: "user defined signal 1", D: int64(r.N(300)) * 100_000})
			g.add(rd, r.PickS("kill probe", "probe"))
		default:
			g.add(rd, r.PickS("stop probe", "usr1 kill probe", "usr1 power probe", "kill probe", "term probe", "probe", "usr1 stop probe"))
		}
	}
	if r.P(300) {
		g.p.Rounds[len(g.p.Rounds)-1].End += strings.Repeat(r.PickS(" usr1 kill", " crashsave", " crashsave"), 8) + " probe litter"
	} else {
		g.p.Rounds[len(g.p.Rounds)-1].End += " litter"
	}
	g.aging()
}
