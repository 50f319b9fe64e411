//go:build go1.24

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/crimist/trakx/zz/app"
	"github.com/crimist/trakx/zz/rt"
)

func appFast() bool { return strings.Contains(app.Tags, "fast") }

// Summary is what a search worker reports.
type Summary struct {
	Runs     int              `json:"runs"`
	Nontriv  int              `json:"nontriv"`
	Steps    int64            `json:"steps"`
	Time     int64            `json:"time"`
	Tasks    int64            `json:"tasks"`
	Secs     float64          `json:"secs"`
	Count    map[string]int64 `json:"count"`
	Seeds    [2]uint64        `json:"seeds"`
	Hashes   int              `json:"hashes"`
	Pairs    int              `json:"pairs"`
	HashList []uint64         `json:"hash_list,omitempty"`
	PairList []uint64         `json:"pair_list,omitempty"`
	Kinds    map[string]int   `json:"kinds"`
	NontHash []uint64         `json:"nontriv_hash_list,omitempty"`
	First    []uint64         `json:"first,omitempty"`
	Samples  []string         `json:"samples,omitempty"`
	HarnErr  string           `json:"harn_err,omitempty"` // the search stopped
	Unjudged []string         `json:"unjudged,omitempty"` // runs the simulator couldn't finish
	Known    map[string]int   `json:"known,omitempty"`
	Replay   string           `json:"replay,omitempty"`
	Viol     *rt.Violation    `json:"viol,omitempty"`
	LastSeed uint64           `json:"last_seed"`
	Slowest  float64          `json:"slowest"`
	SlowSeed uint64           `json:"slow_seed"`
}

func writeJSON(f string, v any) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(f+".tmp", b, 0644)
	}
	if err == nil {
		err = os.Rename(f+".tmp", f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// knownFinding is one line "known: property=C01 class=counts match=REGEXP" of the known-findings file.
type knownFinding struct {
	prop, class string
	re          *regexp.Regexp
	line        string
}

func loadKnown(f string) (out []knownFinding) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) class=(\S+) match=(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, knownFinding{m[1], m[2], regexp.MustCompile(m[3]), l})
		}
	}
	return
}

func matchKnown(ks []knownFinding, v *rt.Violation) string {
	for _, k := range ks {
		if v != nil && k.prop == v.Prop && k.class == v.Class && k.re.MatchString(v.Msg) {
			return k.line
		}
	}
	return ""
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "driver search|replay|shrink|one")
		os.Exit(3)
	}
	// the real environment must not reach the simulated processes
	os.Stdin = nil
	switch os.Args[1] {
	case "search":
		search(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "shrink":
		shrinkCmd(os.Args[2:])
	case "one":
		one(os.Args[2:])
	default:
		os.Exit(3)
	}
}

func search(args []string) {
	fl := flag.NewFlagSet("search", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	stride := fl.Uint64("stride", 1, "")
	secs := fl.Float64("secs", 5, "")
	maxRuns := fl.Int("runs", math.MaxInt, "")
	out := fl.String("out", "", "")
	known := fl.String("known", "", "")
	fl.Parse(args)
	ks := loadKnown(*known)
	sum := &Summary{Count: map[string]int64{}, Kinds: map[string]int{}, Known: map[string]int{}}
	hashes := map[uint64]struct{}{}
	pairs := map[uint64]struct{}{}
	nont := map[uint64]struct{}{}
	start := time.Now()
	sum.Seeds[0] = *seed
	last := start
	var prog *os.File
	if *out != "" {
		prog, _ = os.Create(*out + ".seed")
	}
	for sd := *seed; sum.Runs < *maxRuns && time.Since(start).Seconds() < *secs; sd += *stride {
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%020d\n", sd)), 0)
		}
		p := genPlan(*prop, sd)
		r := runPlan(p, nil, false, false)
		sum.Runs++
		sum.Kinds[p.kind()]++
		sum.LastSeed, sum.Seeds[1] = sd, sd
		now := time.Now()
		if d := now.Sub(last).Seconds(); d > sum.Slowest {
			sum.Slowest, sum.SlowSeed = d, sd
		}
		last = now
		sum.Steps += r.Steps
		sum.Time += r.Time
		sum.Tasks += int64(r.Tasks)
		if len(sum.First) < 40 {
			sum.First = append(sum.First, r.Hash)
		}
		if r.Nontriv && r.HarnErr == "" {
			sum.Nontriv++
			nont[r.Hash] = struct{}{}
			if len(sum.Samples) < 2 && r.Viol == nil {
				sum.Samples = append(sum.Samples, p.describe(r))
			}
		}
		for k, v := range r.Count {
			sum.Count[k] += v
		}
		hashes[r.Hash] = struct{}{}
		if len(pairs) < 300000 {
			for k := range r.pairs {
				pairs[k] = struct{}{}
			}
		}
		if r.HarnErr != "" {
			sum.Unjudged = append(sum.Unjudged, fmt.Sprintf("seed %d: %.300s", sd, r.HarnErr))
			if len(sum.Unjudged) >= 50 {
				break
			}
			continue
		}
		if r.Viol != nil {
			if l := matchKnown(ks, r.Viol); l != "" {
				sum.Known[l]++
				continue
			}
			rr := runPlan(p, nil, true, false)
			if rr.Viol == nil || rr.Hash != r.Hash {
				sum.HarnErr = fmt.Sprintf("seed %d is not repeatable: %x %+v, then %x %+v", sd, r.Hash, r.Viol, rr.Hash, rr.Viol)
				break
			}
			sum.Viol = r.Viol
			if *out != "" {
				sum.Replay = *out + ".replay"
				writeJSON(sum.Replay, &Replay{Property: *prop, Tags: app.Tags, Violation: r.Viol, Hash: r.Hash, Plan: p, Streams: rr.Streams, OrigOps: p.nops(), Ops: p.nops()})
			} else {
				fmt.Printf("seed %d: %s/%s: %s\n", sd, r.Viol.Prop, r.Viol.Class, r.Viol.Msg)
			}
			break
		}
	}
	sum.Secs = time.Since(start).Seconds()
	sum.Hashes, sum.Pairs = len(hashes), len(pairs)
	if *out != "" {
		for h := range hashes {
			sum.HashList = append(sum.HashList, h)
		}
		for h := range nont {
			sum.NontHash = append(sum.NontHash, h)
		}
		for h := range pairs {
			sum.PairList = append(sum.PairList, h)
		}
		writeJSON(*out, sum)
		return
	}
	sum.print()
}

func (s *Summary) print() {
	fmt.Printf("runs %d (nontrivial %d, distinct %d) in %.1f s, %.3g steps, %.3g s simulated, pairs %d, slowest %.2f s (seed %d), last seed %d\n",
		s.Runs, s.Nontriv, s.Hashes, s.Secs, float64(s.Steps), float64(s.Time)/1e9, s.Pairs, s.Slowest, s.SlowSeed, s.LastSeed)
	var ks []string
	for k := range s.Count {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s=%d", k, s.Count[k])
	}
	fmt.Println("\n ", s.Kinds)
	if s.HarnErr != "" {
		fmt.Println("HARNESS ERROR", s.HarnErr)
	}
	for _, u := range s.Unjudged {
		fmt.Println("HARNESS ERROR (unjudged)", u)
	}
}

// describe writes a run out for the evidence.
func (p *Plan) describe(r *Result) string {
	var b strings.Builder
	ks := []string{}
	for k, v := range p.K {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Fprintf(&b, "seed %d (%s): %d steps, %.3f s simulated, %d tasks; settings %s;", p.Seed, p.kind(), r.Steps, float64(r.Time)/1e9, r.Tasks, strings.Join(ks, " "))
	for i, rd := range p.Rounds {
		fmt.Fprintf(&b, " round %d:", i)
		for j, o := range rd.Ops {
			if j == 12 {
				fmt.Fprintf(&b, " ... %d more", len(rd.Ops)-j)
				break
			}
			fmt.Fprintf(&b, " [client %d %s", o.C, o.K)
			if o.D > 0 {
				fmt.Fprintf(&b, " after %.3fms", float64(o.D)/1e6)
			}
			if len(o.H) > 0 && len(o.H) < 5 {
				fmt.Fprintf(&b, " swarms %v", o.H)
			}
			b.WriteByte(']')
		}
		fmt.Fprintf(&b, " end %q;", rd.End)
		if b.Len() > 3000 {
			b.WriteString(" ...")
			break
		}
	}
	return b.String()
}

// one runs a single seed verbosely.
func one(args []string) {
	fl := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fl.String("prop", "", "")
	seed := fl.Uint64("seed", 1, "")
	v := fl.Bool("v", false, "")
	plan := fl.Bool("plan", false, "")
	fl.Parse(args)
	p := genPlan(*prop, *seed)
	if *plan {
		b, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(b))
	}
	t := time.Now()
	r := runPlan(p, nil, false, *v)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	fmt.Printf("%s seed %d hash %x steps %d time %.3f s, %.2f s real, %v\n", *prop, *seed, r.Hash, r.Steps, float64(r.Time)/1e9, time.Since(t).Seconds(), r.Count)
	if r.HarnErr != "" {
		fmt.Println("HARNESS ERROR", r.HarnErr)
	}
	if r.Viol != nil {
		fmt.Printf("VIOL %s/%s: %s\n", r.Viol.Prop, r.Viol.Class, r.Viol.Msg)
	}
}

// replay FILE [-v]: exit 1 if the recorded violation is reproduced exactly, 0 if the run is clean, 4 otherwise.
func replay(args []string) {
	rp, err := loadReplay(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := runPlan(rp.Plan, rp.Streams, false, true)
	if len(args) > 1 {
		for _, l := range r.Trace {
			fmt.Println(l)
		}
	}
	if r.HarnErr != "" {
		fmt.Println("HARNESS ERROR", r.HarnErr)
		os.Exit(3)
	}
	if r.Viol == nil {
		fmt.Printf("no violation (hash %x, recorded %x)\n", r.Hash, rp.Hash)
		os.Exit(0)
	}
	fmt.Printf("violation of %s (%s): %s\n", r.Viol.Prop, r.Viol.Class, r.Viol.Msg)
	if rp.Violation == nil || r.Viol.Class != rp.Violation.Class || r.Viol.Msg != rp.Violation.Msg || r.Hash != rp.Hash {
		fmt.Printf("differs from the recorded run (hash %x, recorded %x)\n", r.Hash, rp.Hash)
		os.Exit(4)
	}
	os.Exit(1)
}

func shrinkCmd(args []string) {
	fl := flag.NewFlagSet("shrink", flag.ExitOnError)
	secs := fl.Float64("secs", 30, "")
	fl.Parse(args)
	in, out := fl.Arg(0), fl.Arg(1)
	rp, err := loadReplay(in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rp = shrink(rp, time.Now().Add(time.Duration(*secs*1e9)))
	os.MkdirAll(filepath.Dir(out), 0755)
	writeJSON(out, rp)
}
