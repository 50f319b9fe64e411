//go:build go1.24

package main

import (
	"net/netip"

	"github.com/crimist/trakx/zz/rt"
)

type statSums struct{}

// gauge reads a published number of the tracker.
func (w *World) gauge(name string) (int64, bool) {
	v, ok := rt.ExpvarAll(w.proc)[name]
	if !ok {
		return 0, false
	}
	x, ok := v.(interface{ Value() int64 })
	if !ok {
		return 0, false
	}
	return x.Value(), true
}

// gauges compares the published numbers with the model once a statistics interval has passed without traffic.
func (w *World) gauges(afterTrim bool) {
	if w.exited || w.p.k("expvar") == 0 {
		return
	}
	s := w.s
	w.settle()
	s.Sleep(2*w.p.k("expvar")*1e9 + 300e6 + 2*w.p.k("stallmax"))
	c := s.Next()
	r := s.Next()
	at := s.Now()
	var sLo, sHi, lLo, lHi, nLo, nHi int64
	ipLo, ipHi := map[netip.Addr]bool{}, map[netip.Addr]bool{}
	for h := range w.m.sw {
		ms := w.m.members(h, c, r, at, nil, nil)
		a, b, d, e := bounds(ms)
		sLo, sHi, lLo, lHi = sLo+a, sHi+b, lLo+d, lHi+e
		lo, hi := sizeBounds(ms)
		if lo > 0 {
			nLo++
		}
		if hi > 0 {
			nHi++
		}
		for _, m := range ms {
			for _, v := range m.vals {
				ipHi[v.v.AP.Addr()] = true
			}
			if len(m.vals) == 1 && !m.absent {
				ipLo[m.vals[0].v.AP.Addr()] = true
			}
		}
	}
	cmp := func(name string, lo, hi int64) {
		v, ok := w.gauge("trakx.database." + name)
		if !ok {
			w.viol("C18", "gauge", "trakx.database.%s is not published", name)
			return
		}
		if v < lo || v > hi {
			w.viol("C18", "gauge-"+name, "trakx.database.%s is %d, the tracker holds between %d and %d", name, v, lo, hi)
		}
	}
	cmp("seeds", sLo, sHi)
	cmp("leeches", lLo, lHi)
	if v, ok := w.gauge("trakx.database.peers"); ok {
		a, _ := w.gauge("trakx.database.seeds")
		b, _ := w.gauge("trakx.database.leeches")
		if v != a+b {
			w.viol("C18", "gauge-peers", "trakx.database.peers is %d, seeds+leeches %d", v, a+b)
		}
	}
	cmp("peers", sLo+lLo, sHi+lHi)
	if appFast() {
		return
	}
	cmp("ips", int64(len(ipLo)), int64(len(ipHi)))
	if afterTrim {
		cmp("hashes", nLo, nHi)
	} else {
		cmp("hashes", nLo, int64(len(w.usedH))+2)
	}
	if w.p.k("udp") != 0 {
		var lo, hi int64
		for _, k := range w.m.ids {
			v, a := k.at(c, r, at, nil, w.m.cexp, w.m.cpass)
			if len(v) > 0 {
				hi++
				if !a {
					lo++
				}
			}
		}
		cmp("udpconnections", lo, hi)
	}
}

// sampler adds up the per-interval request numbers by reading them once per interval, between two ticks.
type sampler struct {
	sum   map[string]int64
	n     int
	stop  bool
	names []string
}

func (w *World) startSampler() {
	sm := &sampler{sum: map[string]int64{}, names: []string{"hits", "connects", "announces", "scrapes"}}
	w.sampler = sm
	per := w.p.k("expvar") * 1e9
	w.s.Go("sampler", func() {
		for !w.s.Ended() && !sm.stop {
			d := per - w.s.Wall()%per + per/2
			if d > per {
				d -= per
			}
			w.s.Sleep(d)
			if w.exited {
				return
			}
			for _, n := range sm.names {
				v, _ := w.gauge("trakx.requests." + n)
				sm.sum[n] += v
			}
			sm.n++
		}
	})
}

// sums compares the added-up numbers with the requests that were received.
func (w *World) sums() {
	if w.exited || w.sampler == nil {
		return
	}
	w.collect()
	w.s.Sleep(2*w.p.k("expvar")*1e9 + 100e6)
	sm := w.sampler
	t := w.tot
	cmp := func(n string, lo, hi int64) {
		if v := sm.sum[n]; v < lo || v > hi {
			w.viol("C19", "sum-"+n, "over %d intervals the published %s add up to %d, the tracker received between %d and %d", sm.n, n, v, lo, hi)
		}
	}
	for _, n := range sm.names {
		cmp(n, t[n+"Lo"], t[n+"Hi"])
	}
	if v, ok := w.gauge("trakx.errors.client"); ok && (v < t["errLo"] || v > t["errHi"]) {
		w.viol("C19", "sum-errors", "trakx.errors.client is %d, between %d and %d errors were answered", v, t["errLo"], t["errHi"])
	}
}

// tally counts a request for sums; what is not a well-formed request of its kind counts at most once.
func (w *World) tally(r *Req) {
	t := w.tot
	add := func(n string, lo, hi int64) { t[n+"Lo"] += lo; t[n+"Hi"] += hi }
	if r.Proto == 'u' {
		if r.In.Size < 16 {
			add("hits", 0, 1)
			return
		}
		add("hits", 1, 1)
		switch {
		case r.Kind == "connect":
			if r.Got == "connect" {
				add("connects", 1, 1)
			} else {
				add("connects", 0, 1)
			}
		case r.Kind == "announce" || r.Kind == "stop":
			if r.Got == "error" {
				add("announces", 0, 1)
			} else {
				add("announces", 1, 1)
			}
		case r.Kind == "badannounce":
			add("announces", 0, 1)
		case r.Kind == "scrape":
			if r.Got == "scrape" {
				add("scrapes", 1, 1)
			} else {
				add("scrapes", 0, 1)
			}
		}
		if r.Got == "error" {
			add("err", 1, 1)
		}
		return
	}
	if r.Conn.FirstSeq == 0 {
		return
	}
	if r.H.Complete {
		add("hits", 1, 1)
	} else {
		add("hits", 0, 1)
	}
	switch r.Kind {
	case "announce", "stop":
		add("announces", 1, 1)
	case "badannounce":
		add("announces", 0, 1)
	case "scrape":
		if r.Exp == "scrape" {
			add("scrapes", 1, 1)
		} else {
			add("scrapes", 0, 1)
		}
	}
	if r.Got == "error" {
		add("err", 1, 1)
	} else if r.Exp == "error" && r.Got == "" {
		add("err", 0, 1)
	}
}
