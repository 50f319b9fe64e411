//go:build go1.24 && zzdb

package main

import (
	"fmt"
	"net/netip"
	"strconv"
	"time"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
)

const dbBuild = true

// bigWorld fills one swarm with tens of thousands of peers and checks the counts, the gauges and, over a restart, the
// backup around the limits of narrow integers.
func bigWorld(s *rt.Sim, p *Plan) {
	s.FS.MkdirAll("/home/sim/.config/trakx", 0755)
	s.FS.MkdirAll("/cwd", 0755)
	s.FS.MkdirAll("/data", 0755)
	s.FS.PutFile(cfgPath, []byte(configYAML(p)))
	s.FS.K.Space = -1
	var db storage.Database
	var err error
	var proc *rt.Proc
	start := func() bool {
		ready := false
		proc = s.StartProc("trakx", []string{"trakx", "execute"}, func() {
			app.Reset()
			pools.Initialize(int(p.k("nwlim")))
			db, err = storage.Open()
			ready = true
			if err != nil {
				return
			}
			stats.Publish(db, func() int64 { return 0 })
		})
		for i := 0; !ready && proc.Alive && i < 10000; i++ {
			s.Sleep(1e6)
		}
		if err != nil || !ready {
			s.Fail(p.Prop, "start", "opening the database of a big swarm fails: %v %s %s %s", err, proc.Crash, proc.CrashStack, proc.FatalMsg)
			return false
		}
		return true
	}
	if !start() {
		return
	}
	type pst struct {
		ip   netip.Addr
		comp bool
		seen int64
	}
	peers := map[int]pst{}
	swarms := int(p.k("swarms"))
	if swarms == 0 {
		swarms = 1
	}
	seeds, leeches := make([]int, swarms), make([]int, swarms)
	trimmed := true // no empty swarm can be left over
	ever := map[int]bool{}
	hash := func(i int) storage.Hash { return storage.Hash(hashOf(7 + i%swarms)) }
	peerID := func(i int) (id storage.PeerID) {
		copy(id[:], fmt.Sprintf("-SM0001-%012d", i))
		return
	}
	ips := int(p.k("ips"))
	do := func(f func()) bool {
		done := false
		s.InProc(proc, "caller", func() { f(); done = true })
		for i := 0; !done && proc.Alive && !s.Ended() && i < 1000000; i++ {
			s.Sleep(1e6)
		}
		if !proc.Alive && !s.Ended() {
			s.Fail(p.Prop, "crash", "the tracker process died: %s at %s %s", proc.Crash, proc.CrashStack, proc.FatalMsg)
		}
		return done && !s.Ended()
	}
	count := func(i int, c bool, d int) {
		if c {
			seeds[i%swarms] += d
		} else {
			leeches[i%swarms] += d
		}
	}
	restarted := false
	check := func(when string) bool {
		tc, ti := 0, 0
		bad := ""
		if !do(func() {
			for k := 0; k < swarms; k++ {
				a, b := db.HashStats(hash(k))
				c, i := int(a), int(b)
				tc, ti = tc+c, ti+i
				if (c != seeds[k] || i != leeches[k]) && bad == "" {
					bad = fmt.Sprintf("swarm %d has %d seeders and %d leechers, reported are %d and %d", k, seeds[k], leeches[k], c, i)
				}
			}
		}) {
			return false
		}
		s.Mix(uint64(tc)<<32 | uint64(ti))
		if bad != "" && (p.Prop == "C02" || p.Prop == "C04" || p.Prop == "C15" || p.Prop == "C13" && restarted) {
			s.Fail(p.Prop, "bigcount", "%s: %s", when, bad)
			return false
		}
		if p.Prop != "C18" && p.Prop != "C31" {
			return true
		}
		used := map[netip.Addr]bool{}
		for _, x := range peers {
			used[x.ip] = true
		}
		s.Sleep(int64(2*time.Second) + 1000)
		ns, nl, nh := 0, 0, 0
		for k := range seeds {
			ns, nl = ns+seeds[k], nl+leeches[k]
			if seeds[k]+leeches[k] > 0 {
				nh++
			}
		}
		for _, g := range []struct {
			name string
			want int
		}{{"seeds", ns}, {"leeches", nl}, {"peers", ns + nl}, {"ips", len(used)}, {"hashes", nh}} {
			v, ok := rt.ExpvarAll(proc)["trakx.database."+g.name].(fmt.Stringer)
			if !ok {
				s.Fail(p.Prop, "gauge-missing", "trakx.database.%s is not published", g.name)
				return false
			}
			if g.name == "ips" && appFast() {
				continue
			}
			if n, err := strconv.Atoi(v.String()); g.name == "hashes" && !trimmed && err == nil && n >= g.want && n <= len(ever) {
				continue
			}
			if v.String() != fmt.Sprint(g.want) {
				s.Fail(p.Prop, "big-gauge-"+g.name, "%s: trakx.database.%s is %s, the database has %d", when, g.name, v.String(), g.want)
				return false
			}
		}
		return true
	}
	for ri, rd := range p.Rounds {
		for _, o := range rd.Ops {
			switch o.K {
			case "fill", "flip":
				if !do(func() {
					for i := 0; i < o.N && !s.Ended(); i++ {
						n := pst{netip.AddrFrom4([4]byte{198, 51, 100, byte(1 + (o.P+i)%ips)}), o.F&1 != 0, s.Wall() / 1e9}
						if o.F&2 != 0 {
							n.comp = i%3 == 0
						}
						db.Save(n.ip, uint16(1+i%65000), n.comp, hash(o.P+i), peerID(o.P+i))
						ever[(o.P+i)%swarms] = true
						if old, ok := peers[o.P+i]; ok {
							count(o.P+i, old.comp, -1)
						}
						count(o.P+i, n.comp, 1)
						peers[o.P+i] = n
						if i%1000 == 999 {
							s.Sleep(1000)
						}
					}
				}) {
					return
				}
			case "drop":
				if !do(func() {
					for i := 0; i < o.N && !s.Ended(); i++ {
						if old, ok := peers[o.P+i]; ok {
							count(o.P+i, old.comp, -1)
							delete(peers, o.P+i)
						}
						db.Drop(hash(o.P+i), peerID(o.P+i))
						trimmed = false
						if i%1000 == 999 {
							s.Sleep(1000)
						}
					}
				}) {
					return
				}
			case "age": // everything grows older than the expiry
				s.Sleep(p.k("exp")*1e9 + 2e9)
			case "trim":
				if !do(func() { db.Trim() }) {
					return
				}
				for i, x := range peers {
					if s.Wall()/1e9-x.seen > p.k("exp") {
						count(i, x.comp, -1)
						delete(peers, i)
					}
				}
				trimmed = true
				ever = map[int]bool{}
				for i := range peers {
					ever[i%swarms] = true
				}
			case "restart":
				var e error
				if !do(func() { e = db.Backup().Save() }) {
					return
				}
				if e != nil {
					s.Fail(p.Prop, "bigsave", "saving %d peers fails: %v", len(peers), e)
					return
				}
				proc.Kill()
				s.Sleep(1e6)
				if !start() {
					return
				}
				restarted = true
			}
			if !check(fmt.Sprintf("round %d after %s of %d", ri, o.K, o.N)) {
				return
			}
		}
	}
	s.Count["nontrivial"]++
	s.Count["big_swarm_peers"] += int64(len(peers))
}
