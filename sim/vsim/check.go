package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// spec says how a property is decided.
type spec struct {
	variants []variant
}

type variant struct {
	tags  string
	share int // of 8 workers
}

var (
	one8   = []variant{{"", 8}}
	heroku = []variant{{"", 5}, {"heroku", 3}}
	big    = []variant{{"", 7}, {"zzdb", 1}}
	specs  = map[string]spec{
		"C03": {variants: []variant{{"zzdb", 8}}},
		"C20": {variants: []variant{{"zzrunon", 8}}},
		"C02": {variants: big},
		"C04": {variants: big},
		"C15": {variants: big},
		"C31": {variants: big},
		"C13": {variants: big},
		"C18": {variants: big},
		"C09": {variants: heroku},
		"C10": {variants: heroku},
		"C11": {variants: heroku},
	}
)

func specOf(prop string) spec {
	s, ok := specs[prop]
	if !ok {
		s.variants = one8
	}
	return s
}

// workerSummary mirrors the driver's Summary.
type workerSummary struct {
	Runs     int              `json:"runs"`
	Nontriv  int              `json:"nontriv"`
	Steps    int64            `json:"steps"`
	Time     int64            `json:"time"`
	Tasks    int64            `json:"tasks"`
	Secs     float64          `json:"secs"`
	Count    map[string]int64 `json:"count"`
	HashList []uint64         `json:"hash_list"`
	PairList []uint64         `json:"pair_list"`
	NontHash []uint64         `json:"nontriv_hash_list"`
	First    []uint64         `json:"first"`
	Samples  []string         `json:"samples"`
	Kinds    map[string]int   `json:"kinds"`
	HarnErr  string           `json:"harn_err"`
	Unjudged []string         `json:"unjudged"`
	Known    map[string]int   `json:"known"`
	Replay   string           `json:"replay"`
	Viol     *violation       `json:"viol"`
	LastSeed uint64           `json:"last_seed"`
	Slowest  float64          `json:"slowest"`
	SlowSeed uint64           `json:"slow_seed"`
}

type violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type worker struct {
	i      int
	v      variant
	bin    string
	seed   uint64
	stride uint64
	out    string
	cmd    *exec.Cmd
	errb   *bytes.Buffer
	sum    *workerSummary
	died   string
	killed bool
}

// harnessError is the exit status for no verdict.
const harnessError = 2

type checker struct {
	prop     string
	tier     string
	seed     int
	secs     float64
	scratch  string
	verif    string
	repo     string
	known    string
	variants []variant
	start    time.Time
	mu       sync.Mutex
	procs    map[*exec.Cmd]bool
	over     bool
}

func driverEnv() []string {
	// nothing of the real environment reaches a simulated process, but keep the driver's own environment lean as well
	return []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=UTC", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "ZZ_FIGDIR=."}
}

// run starts a driver process and waits for it.
func (c *checker) run(limit time.Duration, cmd *exec.Cmd) (timedOut bool, err error) {
	cmd.Env = driverEnv()
	cmd.Dir = c.scratch
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	c.mu.Lock()
	if c.over {
		c.mu.Unlock()
		return false, fmt.Errorf("stopped")
	}
	if err := cmd.Start(); err != nil {
		c.mu.Unlock()
		return false, err
	}
	c.procs[cmd] = true
	c.mu.Unlock()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Kill()
		err = <-done
	}
	c.mu.Lock()
	delete(c.procs, cmd)
	c.mu.Unlock()
	return
}

func (c *checker) killAll() {
	c.mu.Lock()
	for p := range c.procs {
		p.Process.Kill()
	}
	c.mu.Unlock()
}

// tailBuf keeps the first and last bytes of a stream.
type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 64<<10 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (c *checker) build() (map[string]string, error) {
	bins := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var first error
	one := func(tags string) {
		defer wg.Done()
		b, err := buildDriver(c.repo, filepath.Join(c.verif, "sim"), c.scratch, tags)
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			err = fmt.Errorf("building the simulation of %s (tags %q): %w", c.repo, tags, err)
			fmt.Fprintln(os.Stderr, err)
			if first == nil {
				first = err
			}
			return
		}
		bins[tags] = b
	}
	c.variants = specOf(c.prop).variants
	for _, v := range c.variants {
		wg.Add(1)
		go one(v.tags)
	}
	wg.Wait()
	if first == nil {
		return bins, nil
	}
	// The variants call functions of the repository directly. If those are not what they were, the whole system still
	// can be simulated.
	if _, ok := bins[""]; !ok && specOf(c.prop).variants[0].tags != "" {
		wg.Add(1)
		one("")
	}
	if _, ok := bins[""]; !ok {
		return bins, first
	}
	c.variants = one8
	return bins, nil
}

func check(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: check ID")
		return harnessError
	}
	c := &checker{prop: args[0], tier: os.Getenv("VERIF_TIER"), verif: verifDir(), repo: repoDir(), start: time.Now(), procs: map[*exec.Cmd]bool{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.secs = 40
	if c.tier == "thorough" {
		c.secs = 420
	}
	if s := os.Getenv("VERIF_SECS"); s != "" {
		c.secs, _ = strconv.ParseFloat(s, 64)
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	c.known = filepath.Join(c.verif, "KNOWN_FINDINGS")
	var err error
	if c.scratch, err = os.MkdirTemp("", "vsim-"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return harnessError
	}
	defer os.RemoveAll(c.scratch)
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		c.mu.Lock()
		c.over = true
		c.mu.Unlock()
		c.killAll()
		os.RemoveAll(c.scratch)
		os.Exit(harnessError)
	}()
	bins, err := c.build()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return harnessError
	}
	buildSecs := time.Since(c.start).Seconds()
	for _, l := range c.knownLines() {
		fmt.Println(l)
	}
	return c.search(bins, buildSecs)
}

func (c *checker) knownLines() (out []string) {
	b, _ := os.ReadFile(c.known)
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) match=(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == c.prop {
			out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", m[1], m[2], m[3]))
		}
	}
	return
}

func (c *checker) search(bins map[string]string, buildSecs float64) int {
	var ws []*worker
	n := 0
	for _, v := range c.variants {
		for k := 0; k < v.share; k++ {
			base := uint64(c.seed) * 10_000_000
			ws = append(ws, &worker{i: n, v: v, bin: bins[v.tags], seed: base + uint64(k) + 1, stride: uint64(v.share), out: filepath.Join(c.scratch, fmt.Sprintf("w%d", n))})
			n++
		}
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			c.runWorker(w)
			if w.sum != nil && w.sum.Viol != nil || w.died != "" && !w.killed {
				// one is enough: stop the others
				c.mu.Lock()
				for _, o := range ws {
					o.killed = o.killed || o.sum == nil && o.died == ""
				}
				c.mu.Unlock()
				c.killAll()
			}
		}(w)
	}
	wg.Wait()
	searchSecs := time.Since(c.start).Seconds() - buildSecs

	// the violation with the smallest seed of those found
	var bad *worker
	for _, w := range ws {
		if w.sum != nil && w.sum.Viol != nil && (bad == nil || w.sum.LastSeed < bad.sum.LastSeed) {
			bad = w
		}
	}
	replay, msg := "", ""
	var viol *violation
	harn := ""
	switch {
	case bad != nil:
		replay, viol, msg = c.minimise(bad)
		if replay == "" {
			harn = msg
		}
	default:
		for _, w := range ws {
			if w.killed || w.died == "" {
				continue
			}
			if replay, viol, msg = c.deadWorker(w); replay == "" {
				harn = msg
				continue
			}
			break
		}
	}
	unjudged, runs := []string{}, 0
	for _, w := range ws {
		if w.sum != nil {
			runs += w.sum.Runs
			unjudged = append(unjudged, w.sum.Unjudged...)
			if w.sum.HarnErr != "" && harn == "" {
				harn = w.sum.HarnErr
			}
		}
	}
	det := "not run"
	if replay == "" && harn == "" {
		det, harn = c.determinism(ws[0])
	}
	if harn == "" && replay == "" && len(unjudged)*200 > runs {
		harn = fmt.Sprintf("the simulator could not finish %d of %d runs, the first: %s", len(unjudged), runs, unjudged[0])
	}
	c.evidence(ws, buildSecs, searchSecs, viol, unjudged, det)
	if replay != "" {
		fmt.Printf("%s\n", msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, replay)
		return 1
	}
	if harn != "" {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR (no verdict) property=%s: %s\n", c.prop, harn)
		return harnessError
	}
	fmt.Printf("%s: no violation in %d simulated runs (%.0f s)\n", c.prop, runs, time.Since(c.start).Seconds())
	return 0
}

func (c *checker) runWorker(w *worker) {
	cmd := exec.Command(w.bin, "search", "-prop", c.prop, "-seed", fmt.Sprint(w.seed), "-stride", fmt.Sprint(w.stride),
		"-secs", fmt.Sprint(c.secs), "-out", w.out, "-known", c.known)
	var tb tailBuf
	cmd.Stderr = &tb
	to, err := c.run(time.Duration((c.secs+90)*1e9), cmd)
	b, rerr := os.ReadFile(w.out)
	if rerr == nil && err == nil {
		s := new(workerSummary)
		if json.Unmarshal(b, s) == nil {
			c.mu.Lock()
			w.sum = s
			c.mu.Unlock()
			return
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if w.killed {
		return
	}
	if to {
		w.died = "a run did not end"
	} else {
		w.died = fmt.Sprintf("the driver died (%v): %.2000s", err, tb.b.String())
	}
}

// minimise shrinks the worker's violation and confirms it in a fresh process.
func (c *checker) minimise(w *worker) (string, *violation, string) {
	min := filepath.Join(c.scratch, "min.replay")
	secs := 25.0
	if c.tier == "thorough" {
		secs = 60
	}
	c.run(time.Duration((secs+100)*1e9), exec.Command(w.bin, "shrink", "-secs", fmt.Sprint(secs), w.sum.Replay, min))
	for _, f := range []string{min, w.sum.Replay} {
		if _, err := os.Stat(f); err != nil {
			continue
		}
		var out bytes.Buffer
		cmd := exec.Command(w.bin, "replay", f)
		cmd.Stdout = &out
		_, err := c.run(300*time.Second, cmd)
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
			b, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			dst := c.replayPath(b)
			if os.MkdirAll(filepath.Dir(dst), 0755) != nil || os.WriteFile(dst, b, 0644) != nil {
				continue
			}
			var rp struct {
				Violation *violation `json:"violation"`
				OrigOps   int        `json:"orig_ops"`
				Ops       int        `json:"ops"`
				Plan      struct {
					Seed uint64 `json:"seed"`
				} `json:"plan"`
			}
			json.Unmarshal(b, &rp)
			return dst, rp.Violation, fmt.Sprintf("%s, seed %d (%d operations, %d before minimising): %s", rp.Violation.Class, w.sum.LastSeed, rp.Ops, rp.OrigOps, rp.Violation.Msg)
		}
	}
	return "", nil, fmt.Sprintf("the violation of seed %d (%s) was not reproduced in a fresh process", w.sum.LastSeed, w.sum.Viol.Msg)
}

func (c *checker) replayPath(b []byte) string {
	return filepath.Join(c.verif, "replays", fmt.Sprintf("%s-%.6x.json", c.prop, sha256.Sum256(b)))
}

// deadWorker looks at the run a worker didn't survive: if the process dies or hangs on that seed again, alone, the code
// under test did that.
func (c *checker) deadWorker(w *worker) (string, *violation, string) {
	b, err := os.ReadFile(w.out + ".seed")
	if err != nil {
		return "", nil, w.died
	}
	seed := strings.TrimLeft(strings.TrimSpace(string(b)), "0")
	var tb tailBuf
	cmd := exec.Command(w.bin, "search", "-prop", c.prop, "-seed", seed, "-runs", "1", "-secs", "1", "-out", filepath.Join(c.scratch, "alone"), "-known", c.known)
	cmd.Stderr = &tb
	to, err := c.run(120*time.Second, cmd)
	if err == nil {
		return "", nil, fmt.Sprintf("seed %s: %s, but not when run alone", seed, w.died)
	}
	first := strings.SplitN(strings.TrimSpace(tb.b.String()), "\n", 2)[0]
	msg := "the run with this seed kills the process: " + first
	if to {
		msg = "the run with this seed does not end"
	}
	rp := map[string]any{"property": c.prop, "tags": w.v.tags, "seed": seed, "fatal": true, "violation": violation{c.prop, "fatal", msg}, "stderr": fmt.Sprintf("%.8000s", tb.b.String())}
	j, _ := json.MarshalIndent(rp, "", " ")
	dst := c.replayPath(j)
	if os.MkdirAll(filepath.Dir(dst), 0755) != nil || os.WriteFile(dst, j, 0644) != nil {
		return "", nil, "cannot write " + dst
	}
	return dst, &violation{c.prop, "fatal", msg}, fmt.Sprintf("seed %s: %s", seed, msg)
}

// determinism repeats a worker's first runs in a fresh process with another number of processors.
func (c *checker) determinism(w *worker) (string, string) {
	if w.sum == nil {
		return "not run", ""
	}
	n := len(w.sum.First)
	if n > 12 {
		n = 12
	}
	out := filepath.Join(c.scratch, "again")
	cmd := exec.Command(w.bin, "search", "-prop", c.prop, "-seed", fmt.Sprint(w.seed), "-stride", fmt.Sprint(w.stride), "-runs", fmt.Sprint(n), "-secs", "60", "-out", out, "-known", c.known)
	to, err := c.run(150*time.Second, cmd)
	if to || err != nil {
		return "", fmt.Sprintf("repeating the first runs: %v", err)
	}
	var s workerSummary
	b, _ := os.ReadFile(out)
	if err := json.Unmarshal(b, &s); err != nil {
		return "", err.Error()
	}
	for i := range s.First {
		if s.First[i] != w.sum.First[i] {
			return "", fmt.Sprintf("seed %d is not repeatable: execution %x, then %x", w.seed+uint64(i)*w.stride, w.sum.First[i], s.First[i])
		}
	}
	return fmt.Sprintf("%d runs repeated in a fresh process, identical", len(s.First)), ""
}

func (c *checker) evidence(ws []*worker, buildSecs, searchSecs float64, viol *violation, unjudged []string, det string) {
	hashes, nont, pairs := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var runs int
	var steps, simt, tasks int64
	count := map[string]int64{}
	kinds := map[string]int{}
	known := map[string]int{}
	var samples []string
	slow := 0.0
	byTag := map[string]int{}
	for _, w := range ws {
		s := w.sum
		if s == nil {
			continue
		}
		runs += s.Runs
		t := w.v.tags
		if t == "" {
			t = "default"
		}
		byTag[t] += s.Runs
		steps += s.Steps
		simt += s.Time
		tasks += s.Tasks
		for k, v := range s.Count {
			count[k] += v
		}
		for k, v := range s.Kinds {
			kinds[k] += v
		}
		for k, v := range s.Known {
			known[k] += v
		}
		for _, h := range s.HashList {
			hashes[h] = true
		}
		for _, h := range s.NontHash {
			nont[h] = true
		}
		for _, h := range s.PairList {
			pairs[h] = true
		}
		if len(samples) < 3 && len(s.Samples) > 0 {
			samples = append(samples, s.Samples[0])
		}
		if s.Slowest > slow {
			slow = s.Slowest
		}
	}
	faults, other := map[string]int64{}, map[string]int64{}
	for k, v := range count {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			other[k] = v
		}
	}
	if samples == nil {
		samples = []string{"no run was completed"}
	}
	sort.Strings(samples)
	cov := map[string]any{
		"evaluations":                    runs,
		"distinct_nontrivial":            len(nont),
		"rule":                           "one case is one simulated run: the property's generator draws a scenario (clients, requests, settings, faults, crash points) and the scheduler every interleaving and fault from one seed. Non-trivial: completed, with at least one switch between runnable tasks of the tracker or a reply checked; distinct: different hash of the whole event and scheduling history.",
		"samples":                        samples,
		"runs_per_hour":                  int(float64(runs) / searchSecs * 3600),
		"simulated_seconds":              float64(simt) / 1e9,
		"scheduler_steps":                steps,
		"tasks":                          tasks,
		"distinct_executions":            len(hashes),
		"distinct_preemption_site_pairs": len(pairs),
		"faults_injected":                faults,
		"events":                         other,
		"kinds_of_scenario":              kinds,
		"runs_by_build":                  byTag,
		"runs_not_judged":                len(unjudged),
		"known_findings_met":             known,
		"slowest_run_s":                  slow,
		"determinism":                    det,
		"first_seed":                     uint64(c.seed)*10_000_000 + 1,
		"real_code":                      "every package of /repo (main, config, controller, tracker and below, including the signal handler and daemon commands), the yaml/zap/pools libraries, encoding, bytes and the other pure standard packages; built from the current tree with yield points added",
		"simulated":                      "sync and sync/atomic, goroutines, channels, select, map order, time, net, net/http listeners of the repository's configuration, os and files, os/signal, os/exec, syscall, math/rand, expvar registry, database/sql with a small Postgres model, go-cache free pools",
	}
	if viol != nil {
		cov["violation"] = viol
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"sequentially consistent memory at statement granularity (a preemption can fall before every statement and between the reads and the write of shared compound updates, not inside library calls)",
			"the simulated kernel: UDP may lose, duplicate and reorder, TCP may fragment, delay and reset, rename is atomic, data not synced may be lost at power failure",
			"Postgres is a model: one table, serial ids, commit visible at once, connection limit",
		},
		"wall_s": time.Since(c.start).Seconds(), "violations": nv}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		dir := filepath.Join(c.verif, "evidence")
		os.MkdirAll(dir, 0755)
		err = os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replayFile builds the driver the file was made with from the current tree and replays it.
func replayFile(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rp struct {
		Property string `json:"property"`
		Tags     string `json:"tags"`
		Seed     string `json:"seed"`
		Fatal    bool   `json:"fatal"`
	}
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	scratch, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		return 3
	}
	defer os.RemoveAll(scratch)
	bin, err := buildDriver(repoDir(), filepath.Join(verifDir(), "sim"), scratch, rp.Tags)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	f, _ := filepath.Abs(args[0])
	a := append([]string{"replay", f}, args[1:]...)
	if rp.Fatal {
		a = []string{"one", "-prop", rp.Property, "-seed", rp.Seed}
	}
	cmd := exec.Command(bin, a...)
	cmd.Env = driverEnv()
	cmd.Dir = scratch
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		if rp.Fatal {
			return 1
		}
		return ee.ExitCode()
	}
	return 0
}

// setup builds every variant once, which checks the installation and fills the build cache.
func setup() int {
	scratch, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return harnessError
	}
	defer os.RemoveAll(scratch)
	for _, t := range []string{"", "zzdb", "zzrunon", "heroku"} {
		bin, err := buildDriver(repoDir(), filepath.Join(verifDir(), "sim"), scratch, t)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return harnessError
		}
		fmt.Println("built", filepath.Base(bin))
	}
	return 0
}

func verifDir() string {
	if d := os.Getenv("VSIM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VSIM_REPO"); d != "" {
		return d
	}
	return "/repo"
}
