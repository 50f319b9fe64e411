//go:build go1.24

package main

import (
	"bytes"
	"fmt"
	"net/netip"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
	zos "github.com/crimist/trakx/zz/sh/os"
)

// The settings world: successive lives of a tracker whose settings come from the environment, a file in the working
// directory and a file of the user's, all of which change between the lives. What took effect is read off the
// tracker's behaviour: where it listens, how it answers, where and when it writes, when things expire.

type setting struct {
	key, def string
	vals     []string
}

// settingTab has the installed configuration's values as defaults.
var settingTab = []setting{
	{"loglevel", "info", []string{"debug", "info", "warn", "error", "fatal", "DEBUG", "Info"}},
	{"expvarinterval", "1s", []string{"0s", "1s", "3s"}},
	{"debug.pprof", "0", nil},
	{"announce.base", "30m", []string{"30s", "1h", "1800s", "7m30s", "2000s", "45m"}},
	{"announce.fuzz", "5m", []string{"0s", "0s", "3s", "1m"}},
	{"http.mode", "enabled", []string{"enabled", "enabled", "enabled", "Enabled", "info", "INFO", "disabled"}},
	{"http.ip", "null", []string{"null", "192.0.2.1", "192.0.2.2", "127.0.0.1", "2001:db8:ffff::1", "::1"}},
	{"http.port", "1337", []string{"1337", "8080", "6969", "81"}},
	{"http.timeout.read", "3s", []string{"1s", "1500ms", "2500ms", "4s"}},
	{"http.timeout.write", "10s", []string{"1s", "2s"}},
	{"http.threads", "512", []string{"1", "2", "3", "5"}},
	{"udp.enabled", "true", []string{"true", "true", "true", "false"}},
	{"udp.ip", "null", []string{"null", "192.0.2.1", "192.0.2.2", "127.0.0.1", "2001:db8:ffff::1", "::1"}},
	{"udp.port", "1337", []string{"1337", "6881", "8080", "82"}},
	{"udp.threads", "512", []string{"1", "2", "4"}},
	{"udp.conndb.validate", "true", []string{"true", "true", "false"}},
	{"udp.conndb.size", "0", []string{"0", "5"}},
	{"udp.conndb.trim", "10m", []string{"1s", "2s", "10m"}},
	{"udp.conndb.expiry", "30m", []string{"4s", "8s", "30m"}},
	{"numwant.default", "75", []string{"1", "2", "3", "6"}},
	{"numwant.limit", "200", []string{"2", "3", "4", "5", "9"}},
	{"db.type", "gomap", nil},
	{"db.backup.frequency", "0s", []string{"0s", "0s", "2s", "5s"}},
	{"db.backup.type", "none", []string{"none", "file", "file", "file"}},
	{"db.backup.path", "ENV:DATABASE_URL", []string{"ENV:DATABASE_URL", "ENV:OTHER_PATH", "/data/a.db", "/data/b.db", "/data/ENV:c.db"}},
	{"db.trim", "10m", []string{"1s", "2s", "5s", "10m"}},
	{"db.expiry", "40m", []string{"4s", "9s", "20s", "40m"}},
	{"path.log", "~/.cache/trakx/trakx.log", []string{"~/t.log", "/data/t.log", "~/.cache/trakx/other.log"}},
	{"path.pid", "~/.cache/trakx/trakx.pid", []string{"~/t.pid", "/data/t.pid", "~/.cache/trakx/other.pid"}},
}

func envName(key string) string {
	return "TRAKX_" + strings.ToUpper(strings.ReplaceAll(key, ".", "_"))
}

func renderYAML(m map[string]string) []byte {
	var b bytes.Buffer
	var open []string
	for _, st := range settingTab {
		v, ok := m[st.key]
		if !ok {
			v = st.def
		}
		p := strings.Split(st.key, ".")
		d := p[:len(p)-1]
		k := 0
		for k < len(d) && k < len(open) && open[k] == d[k] {
			k++
		}
		for ; k < len(d); k++ {
			fmt.Fprintf(&b, "%s%s:\n", strings.Repeat("  ", k), d[k])
		}
		open = d
		switch {
		case v == "null" || v == "true" || v == "false":
		case strings.ContainsAny(v, "~:/") || v == "" || v[0] > '9':
			v = strconv.Quote(v)
		}
		fmt.Fprintf(&b, "%s%s: %s\n", strings.Repeat("  ", len(d)), p[len(p)-1], v)
	}
	return b.Bytes()
}

func genC29(g *gen) {
	r := g.r
	g.sched()
	g.p.World, g.p.Kind = "set", "set"
	g.sets("stallpm", 0, "tickpm", 0)
	for i, n := 0, r.Range(1, 4); i < n; i++ {
		var rd Round
		add := func(o Op) { rd.Ops = append(rd.Ops, o) }
		src := func() int { return r.Pick(0, 0, 1, 2, 2) }
		if r.P(150) {
			add(Op{K: "home", S: r.PickS("/home/two", "/home/sim", "/root~x")})
		}
		for s := 0; s < 2; s++ {
			if r.P(350) {
				add(Op{K: "file", X: s, N: r.Pick(0, 1, 1)})
			}
		}
		for k, m := 0, r.Pick(2, 6, 15, 30); k < m; k++ {
			st := settingTab[r.N(len(settingTab))]
			if len(st.vals) == 0 {
				continue
			}
			add(Op{K: "set", X: src(), S: st.key + "=" + st.vals[r.N(len(st.vals))]})
		}
		if i == 0 {
			// the limits the checks can see
			for _, k := range []string{"numwant.default", "numwant.limit", "http.threads", "udp.threads"} {
				for _, st := range settingTab {
					if st.key == k {
						for s := 0; s < 2; s++ {
							if r.P(800) {
								add(Op{K: "set", X: s, S: k + "=" + st.vals[r.N(len(st.vals))]})
							}
						}
					}
				}
			}
		}
		for k, m := 0, r.N(3); k < m; k++ {
			add(Op{K: "unset", S: settingTab[r.N(len(settingTab))].key})
		}
		if r.P(200) {
			add(Op{K: "env", S: r.PickS("PORT=9090", "PORT=1338", "PORT")})
		}
		if r.P(400) {
			add(Op{K: "env", S: r.PickS("DATABASE_URL=/data/e1.db", "DATABASE_URL=/data/e2.db", "OTHER_PATH=/data/e3.db", "OTHER_PATH=/data/e1.db")})
		}
		g.add(rd, r.PickS("exec", "exec", "cli")+" "+r.PickS("stop", "stop", "kill")+r.PickS("", " usr1", " usr1"))
	}
}

type setWorld struct {
	*World
	env   map[string]string
	files map[string]map[string]string
	home  string
	nhash int
}

func setWorldRun(s *rt.Sim, p *Plan) {
	w := newWorld(s, p.clone())
	for _, d := range []string{"/cwd", "/data", "/home/sim", "/home/two", "/root~x"} {
		s.FS.MkdirAll(d, 0755)
	}
	s.FS.K.Space = -1
	w.faults(false)
	s.Cfg.PausePM = int(p.k("pause"))
	z := &setWorld{World: w, env: map[string]string{"DATABASE_URL": "/data/e1.db", "OTHER_PATH": "/data/e3.db"}, files: map[string]map[string]string{}, home: "/home/sim"}
	for i := range p.Rounds {
		for j := range p.Rounds[i].Ops {
			z.change(&p.Rounds[i].Ops[j])
		}
		z.write()
		z.life(p.Rounds[i].End)
		if s.Ended() || s.Viol != nil {
			return
		}
	}
}

func (z *setWorld) path(src int) string {
	if src == 1 {
		return "/cwd/trakx.yaml"
	}
	return z.home + "/.config/trakx/trakx.yaml"
}

func (z *setWorld) change(o *Op) {
	k, v, ok := strings.Cut(o.S, "=")
	switch o.K {
	case "home":
		z.home = o.S
		z.env["HOME"] = o.S
	case "file":
		if o.N == 0 {
			delete(z.files, z.path(o.X))
			z.s.FS.Remove(z.path(o.X))
		} else if z.files[z.path(o.X)] == nil {
			z.files[z.path(o.X)] = map[string]string{}
		}
	case "set":
		if o.X == 2 {
			if v != "null" {
				z.env[envName(k)] = v
			}
			return
		}
		if z.files[z.path(o.X)] == nil {
			if o.X == 1 {
				return // no file in the working directory
			}
			z.files[z.path(o.X)] = map[string]string{}
		}
		z.files[z.path(o.X)][k] = v
	case "unset":
		delete(z.env, envName(k))
	case "env":
		if ok {
			z.env[k] = v
		} else {
			delete(z.env, k)
		}
	}
}

// write puts the files in place; an existing file that nobody changed stays.
func (z *setWorld) write() {
	var ps []string
	for p := range z.files {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		z.s.FS.MkdirAll(p[:strings.LastIndexByte(p, '/')], 0755)
		z.s.FS.PutFile(p, renderYAML(z.files[p]))
	}
	z.s.FS.SyncAll()
}

// value is what the documentation says a setting has.
func (z *setWorld) value(key string) string {
	if v, ok := z.env[envName(key)]; ok {
		return v
	}
	for _, src := range []int{1, 0} {
		if f := z.files[z.path(src)]; f != nil {
			if v, ok := f[key]; ok {
				return v
			}
			break
		}
	}
	for _, st := range settingTab {
		if st.key == key {
			return st.def
		}
	}
	panic(key)
}

func (z *setWorld) num(key string) int { n, _ := strconv.Atoi(z.value(key)); return n }
func (z *setWorld) dur(key string) int64 {
	d, _ := time.ParseDuration(z.value(key))
	return int64(d)
}

func (z *setWorld) fail(class, f string, a ...any) bool {
	if z.s.Viol == nil && !z.s.Ended() {
		z.viol("C29", class, f, a...)
	}
	return false
}

func (z *setWorld) expand(p string) string {
	if strings.HasPrefix(p, "~") {
		return z.home + p[1:]
	}
	return p
}

func (z *setWorld) cli(args ...string) *rt.Proc {
	c := z.s.StartProc("cli", append([]string{"trakx"}, args...), func() {
		zos.Args = append([]string{"trakx"}, args...)
		app.Reset()
		app.Main()
	})
	for k, v := range z.env {
		c.Env[k] = v
	}
	c.Wait(z.s.Now() + 40e9)
	return c
}

func (z *setWorld) life(end string) {
	s := z.s
	var proc *rt.Proc
	s.ExecHook = func(args []string) (*rt.Proc, error) {
		proc = s.StartProc("trakx", args, func() {
			zos.Args = args
			app.Reset()
			app.Main()
		})
		return proc, nil
	}
	udp, mode := z.value("udp.enabled") == "true", strings.ToLower(z.value("http.mode"))
	uport, hport := z.num("udp.port"), z.num("http.port")
	if v, ok := z.env["PORT"]; ok {
		hport, _ = strconv.Atoi(v)
	}
	bpath := z.value("db.backup.path")
	if k, ok := strings.CutPrefix(bpath, "ENV:"); ok {
		bpath = z.env[k]
	}
	old := z.backups()
	viaCLI := strings.Contains(end, "cli")
	pidf, logf := z.expand(z.value("path.pid")), z.expand(z.value("path.log"))
	if viaCLI {
		s.FS.Remove(pidf)
		c := z.cli("start")
		if c.Alive || c.ExitCode != 0 || proc == nil {
			z.fail("start", "'trakx start' fails or hangs: %q %s", c.Out, c.Crash)
			return
		}
		if b, ok := s.FS.ReadFile(pidf); !ok || string(b) != strconv.Itoa(proc.Pid) {
			z.fail("pidpath", "path.pid is %s, so %s should hold the process id %d; it holds %q (exists %v)", z.value("path.pid"), pidf, proc.Pid, b, ok)
			return
		}
		if _, ok := s.FS.ReadFile(logf); !ok {
			z.fail("logpath", "path.log is %s, but %s does not exist after start", z.value("path.log"), logf)
			return
		}
	} else {
		s.ExecHook([]string{"trakx", "execute"})
		for k, v := range z.env {
			proc.Env[k] = v
		}
	}
	gone := func() bool {
		if proc.Alive {
			return false
		}
		z.fail("died", "the tracker ended: status %d %s %s %s", proc.ExitCode, proc.Crash, proc.CrashStack, proc.FatalMsg)
		return true
	}
	// where it listens
	var want []string
	ip := func(k string) string {
		if v := z.value(k); v != "null" {
			return v
		}
		return "any"
	}
	if mode == "enabled" {
		want = append(want, fmt.Sprintf("tcp %d %s", hport, ip("http.ip")))
	} else if mode == "info" {
		want = append(want, fmt.Sprintf("tcp %d %s", hport, ip("http.ip")))
	}
	if udp {
		want = append(want, fmt.Sprintf("udp %d %s", uport, ip("udp.ip")))
	}
	sort.Strings(want)
	ws := strings.Join(want, ", ")
	for i := 0; ; i++ {
		if gone() {
			return
		}
		got := strings.Join(s.Net.Bound(proc), ", ")
		if got == ws && proc.Notified {
			break
		}
		if i == 500 {
			z.fail("listen", "the tracker should listen at %q, it listens at %q", ws, got)
			return
		}
		s.Sleep(10e6)
	}
	s.Inc("nontrivial")
	s.Inc("lives")
	z.p.K["port"] = int64(uport)
	z.nhash++
	hash := z.nhash
	// a swarm of a few peers
	def, lim := z.num("numwant.default"), z.num("numwant.limit")
	if def > lim {
		def = lim
	}
	peers := 3
	if lim < 20 {
		peers = lim + 2
	}
	base, fuzz := z.dur("announce.base")/1e9, z.dur("announce.fuzz")/1e9
	validate := z.value("udp.conndb.validate") == "true"
	announced := s.Now()
	var first *uclient
	var connAt int64
	interval := func(n int64) bool {
		if n < base || n > base+fuzz {
			return z.fail("interval", "announce.base is %d s and fuzz %d s, the interval told is %d s", base, fuzz, n)
		}
		return true
	}
	listed := func(n, asked int) bool {
		m := asked
		if m < 1 {
			m = def
		}
		if m > lim {
			m = lim
		}
		if m > peers {
			m = peers
		}
		if n != m {
			return z.fail("numwant", "numwant.default %s and limit %s: of %d peers %d are listed to one who asked for %d", z.value("numwant.default"), z.value("numwant.limit"), peers, n, asked)
		}
		return true
	}
	scrape := func(c *uclient, id uint64) (seeds int, err bool) {
		x := hashOf(hash)
		r := c.ask(append(udpHead(id, 2, z.tx()), x[:]...), 1e9, 2)
		if r == nil {
			z.fail("noanswer", "a scrape at UDP port %d is not answered", uport)
			return 0, true
		}
		if be32(r) != 2 || len(r) < 20 {
			return 0, true
		}
		return int(be32(r[8:])), false
	}
	if udp {
		for i := 0; i < peers; i++ {
			c := z.ucli(i<<1 | (z.nhash%100)<<7)
			if !c.connect(1e9, 2) {
				if !gone() {
					z.fail("noanswer", "a connect at UDP port %d is not answered", uport)
				}
				return
			}
			if i == 0 {
				first, connAt = c, s.Now()
			}
			id, _ := c.cur()
			for _, nw := range []int{-1, 100} {
				r := c.ask(udpAnnounce(id, z.tx(), annFields{Hash: hashOf(hash), Peer: peerOf(i * 3), NumWant: int32(nw), Port: 6000}), 1e9, 2)
				if r == nil || be32(r) != 1 || len(r) < 20 {
					z.fail("noanswer", "an announce at UDP port %d is answered with %x", uport, r)
					return
				}
				if !interval(int64(be32(r[8:]))) || i == peers-1 && !listed((len(r)-20)/6, nw) {
					return
				}
			}
		}
		announced = s.Now()
		bad, _ := first.cur()
		if seeds, err := scrape(first, bad^0x5555); err == (!validate) || !err && seeds != peers {
			z.fail("validate", "udp.conndb.validate is %v: a scrape with a wrong connection id is answered with error %v, seeds %d of %d", validate, err, seeds, peers)
			return
		}
	}
	z.p.K["port"] = int64(hport)
	if mode == "enabled" && !udp {
		for i := 0; i < peers; i++ {
			q := fmt.Sprintf("/announce?info_hash=%s&peer_id=%s&port=6000&left=0&compact=1", esc(hs(hash), 0), esc(ps(i*3), 0))
			for _, nw := range []int{0, 100} {
				x := q
				if nw > 0 {
					x += "&numwant=100"
				}
				_, body, _ := z.get(x)
				d, err := bdict([]byte(body))
				if err != nil {
					if !gone() {
						z.fail("noanswer", "an announce at HTTP port %d is answered with %q (%v)", hport, body, err)
					}
					return
				}
				n, _ := d["interval"].(int64)
				l, _ := d["peers"].(string)
				if lb, ok := d["peers"].([]byte); ok {
					l = string(lb)
				}
				if !interval(n) || i == peers-1 && !listed(len(l)/6, nw) {
					return
				}
			}
		}
		announced = s.Now()
	}
	if mode == "info" {
		_, body, _ := z.get("/announce?info_hash=" + esc(hs(hash), 0) + "&peer_id=" + esc(ps(99), 0) + "&port=6000&left=0")
		if !strings.Contains(body, "interval") {
			z.fail("info", "http.mode is info: an announce is answered with %q", body)
			return
		}
	}
	// workers and their read timeout
	if th := z.num("http.threads"); mode == "enabled" && th <= 5 {
		rto := z.dur("http.timeout.read")
		var cs []*rt.TCPConn
		at := s.Now()
		for i := 0; i < th+1; i++ {
			z.nextTCP++
			c, err := s.Net.DialTCP(netip.AddrPortFrom(netip.MustParseAddr("198.51.100.77"), uint16(30000+z.nextTCP%30000)), uint16(hport), rt.CurProc(), 1<<16)
			if err != nil {
				z.fail("noanswer", "a connection to HTTP port %d is refused", hport)
				return
			}
			cs = append(cs, c)
		}
		s.Sleep(rto - 200e6)
		acc := 0
		for _, c := range cs {
			if c.Peer().Accepted {
				acc++
			}
		}
		if acc != th {
			z.fail("threads", "http.threads is %d: %d of %d silent connections are being served %.3f s after they came", th, acc, th+1, float64(s.Now()-at)/1e9)
			return
		}
		s.Sleep(400e6)
		for _, c := range cs[:th] {
			if q := c.Peer(); !q.Closed() || q.CloseAt-q.AcceptAt < rto-100e6 {
				z.fail("timeout", "http.timeout.read is %s: a silent connection is closed %v, %.3f s after it was accepted", z.value("http.timeout.read"), q.Closed(), float64(q.CloseAt-q.AcceptAt)/1e9)
				return
			}
		}
		for _, c := range cs {
			c.Close()
		}
		s.Sleep(10e6)
	}
	z.p.K["port"] = int64(uport)
	// backups
	freq := z.dur("db.backup.frequency")
	file := z.value("db.backup.type") == "file"
	must, may := false, false
	if strings.Contains(end, "usr1") {
		proc.Signal("user defined signal 1")
		s.Sleep(300e6)
		must = true
	}
	if freq > 0 {
		may = true
		if !must && s.Misc.N(2) == 0 {
			s.Sleep(freq + 300e6)
			must = true
		}
	}
	if gone() {
		return
	}
	now := z.backups()
	for _, p := range sortedKeys(now) {
		ch := now[p] != old[p]
		switch {
		case ch && (!file || p != bpath):
			z.fail("backuppath", "db.backup.type is %s and path %s (%s), but %s was written", z.value("db.backup.type"), z.value("db.backup.path"), bpath, p)
			return
		case ch && !must && !may:
			z.fail("backupfreq", "db.backup.frequency is 0 and no save was asked for, but %s was written", p)
			return
		case !ch && must && file && p == bpath && (udp || mode == "enabled"):
			z.fail("nobackup", "db.backup.type is file, path %s, frequency %s: %s was not written by a backup", z.value("db.backup.path"), z.value("db.backup.frequency"), p)
			return
		}
	}
	// expiry
	exp, trim := z.dur("db.expiry"), z.dur("db.trim")
	if udp && exp <= 30e9 {
		id, _ := first.cur()
		see := func() int {
			n, err := scrape(first, id)
			if err { // the connection id is gone
				if !first.connect(1e9, 2) {
					return -1
				}
				connAt = -1
				id, _ = first.cur()
				n, err = scrape(first, id)
			}
			if err {
				return -1
			}
			return n
		}
		if d := announced + exp - 1500e6 - s.Now(); d > 0 {
			s.Sleep(d)
			if n := see(); n != peers {
				z.fail("expiry", "db.expiry is %s: %d of %d peers are left %.1f s after they announced", z.value("db.expiry"), n, peers, float64(s.Now()-announced)/1e9)
				return
			}
		}
		if trim <= 10e9 {
			s.Sleep(announced + exp + trim + 2500e6 - s.Now())
			if n := see(); n != 0 {
				z.fail("expiry", "db.expiry is %s and db.trim %s: %d of %d peers are left %.1f s after they announced", z.value("db.expiry"), z.value("db.trim"), n, peers, float64(s.Now()-announced)/1e9)
				return
			}
		}
	}
	cexp, ctrim := z.dur("udp.conndb.expiry"), z.dur("udp.conndb.trim")
	if udp && validate && connAt > 0 {
		id := first.ids[len(first.ids)-1]
		if cexp > 60e9 || s.Now() < connAt+cexp-1500e6 {
			if _, err := scrape(first, id); err {
				z.fail("connexpiry", "udp.conndb.expiry is %s: a connection id of %.1f s is refused", z.value("udp.conndb.expiry"), float64(s.Now()-connAt)/1e9)
				return
			}
		}
		if cexp <= 30e9 && ctrim <= 10e9 {
			if d := connAt + cexp + ctrim + 2500e6 - s.Now(); d > 0 {
				s.Sleep(d)
			}
			if _, err := scrape(first, id); !err {
				z.fail("connexpiry", "udp.conndb.expiry is %s and trim %s: a connection id of %.1f s is accepted", z.value("udp.conndb.expiry"), z.value("udp.conndb.trim"), float64(s.Now()-connAt)/1e9)
				return
			}
		}
	}
	if gone() || s.Ended() {
		return
	}
	switch {
	case strings.Contains(end, "kill"):
		proc.Kill()
	case viaCLI:
		if c := z.cli("stop"); c.Alive || c.ExitCode != 0 || proc.Alive {
			z.fail("stop", "'trakx stop' fails (%q) or leaves the tracker running (%v) with the settings it was started with", c.Out, proc.Alive)
			return
		}
	default:
		proc.Signal("interrupt")
	}
	proc.Wait(s.Now() + 30e9)
	if proc.Alive {
		z.fail("stop", "the tracker does not end")
	}
	s.Sleep(10e6)
}

func hs(i int) []byte { h := hashOf(i); return h[:] }
func ps(i int) []byte { p := peerOf(i); return p[:] }

func (z *setWorld) backups() map[string]string {
	m := map[string]string{}
	for _, p := range []string{"/data/a.db", "/data/b.db", "/data/e1.db", "/data/e2.db", "/data/e3.db", "/data/ENV:c.db", "/cwd/ENV:DATABASE_URL", "/cwd/ENV:OTHER_PATH"} {
		b, _ := z.s.FS.ReadFile(p)
		m[p] = string(b)
		if n, err := z.s.FS.Stat(p); err == nil {
			m[p] += n.Stamp()
		}
	}
	return m
}

// get makes one HTTP request.
func (z *setWorld) get(target string) (head, body string, ok bool) {
	h := z.httpOp(&Op{K: "h.raw", A: 50 << 1, S: "GET " + target + " HTTP/1.1\r\nHost: x\r\n\r\n"})
	head, body, ok = strings.Cut(string(h.Got), "\r\n\r\n")
	return
}
