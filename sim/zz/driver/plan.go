//go:build go1.24

package main

import (
	"encoding/json"
	"net/netip"
	"os"

	"github.com/crimist/trakx/zz/rt"
)

// Op is one step of one simulated client or of the controller (C = -1).
type Op struct {
	C  int    `json:"c"`            // actor
	K  string `json:"k"`            // kind
	D  int64  `json:"d,omitempty"`  // delay before it, ns
	A  int    `json:"a,omitempty"`  // source address
	H  []int  `json:"h,omitempty"`  // swarms
	P  int    `json:"p,omitempty"`  // peer id
	N  int    `json:"n,omitempty"`  // numwant
	X  int    `json:"x,omitempty"`  // port, or another number
	F  int    `json:"f,omitempty"`  // flags
	M  int    `json:"m,omitempty"`  // connection-id mode
	E  int    `json:"e,omitempty"`  // escape style
	Fr int    `json:"fr,omitempty"` // TCP fragments
	Dl int64  `json:"dl,omitempty"` // delay between fragments
	Cl int    `json:"cl,omitempty"` // TCP client behaviour
	W  int    `json:"w,omitempty"`  // 1: do not wait for the answer
	S  string `json:"s,omitempty"`
	R  int    `json:"r,omitempty"` // repetitions
}

// Round is a phase of concurrent ops followed by a quiescent end.
type Round struct {
	Ops  []Op   `json:"ops"`
	Idle int64  `json:"idle,omitempty"` // extra virtual time before the end
	End  string `json:"end,omitempty"`  // what happens at the end: probe, usr1, stop, kill, power ... (space separated)
}

// Plan is a complete, serialisable scenario: with the choice streams it determines a run.
type Plan struct {
	Prop   string           `json:"prop"`
	World  string           `json:"world"`
	Seed   uint64           `json:"seed"`
	Kind   string           `json:"kind"`
	K      map[string]int64 `json:"k"`
	Rounds []Round          `json:"rounds"`
}

var defaults = map[string]int64{
	"udp": 1, "http": 1, "uthreads": 3, "hthreads": 3, "validate": 1, "cexp": 1800, "ctrim": 600, "csize": 0,
	"exp": 2400, "trim": 600, "bfreq": 0, "btype": 0, "nwdef": 75, "nwlim": 200, "base": 1800, "fuzz": 300,
	"expvar": 5, "rto": 3000, "wto": 5000, "port": 1337, "wall": 0,
	"strategy": 0, "fuel": 0, "stallpm": 0, "stallmax": 0, "tickpm": 0, "tickmax": 0, "pause": 0,
	"delay": 200_000, "jitter": 0, "quantum": 1000, "retry": 0, "window": 1 << 16, "sparse": 0,
	"nohttpprobe": 0, "debug": 0, "ulimit": 0,
}

func (p *Plan) k(n string) int64 {
	if v, ok := p.K[n]; ok {
		return v
	}
	return defaults[n]
}

func (p *Plan) kind() string { return p.Kind }

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := new(Plan)
	json.Unmarshal(b, q)
	if q.K == nil {
		q.K = map[string]int64{}
	}
	return q
}

func (p *Plan) nops() int {
	n := 0
	for _, r := range p.Rounds {
		n += len(r.Ops)
	}
	return n
}

// Result of one run.
type Result struct {
	Seed    uint64           `json:"seed"`
	Hash    uint64           `json:"hash"`
	Viol    *rt.Violation    `json:"viol,omitempty"`
	HarnErr string           `json:"harn_err,omitempty"`
	Steps   int64            `json:"steps"`
	Time    int64            `json:"time"`
	Tasks   int              `json:"tasks"`
	Count   map[string]int64 `json:"count,omitempty"`
	Streams [][]uint32       `json:"streams,omitempty"`
	Trace   []string         `json:"trace,omitempty"`
	Nontriv bool             `json:"nontriv"`
	pairs   map[uint64]struct{}
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string        `json:"property"`
	Tags      string        `json:"tags"`
	Violation *rt.Violation `json:"violation"`
	Hash      uint64        `json:"hash"`
	Plan      *Plan         `json:"plan"`
	Streams   [][]uint32    `json:"streams"`
	OrigOps   int           `json:"orig_ops"`
	Ops       int           `json:"ops"`
	Trace     []string      `json:"trace"`
}

func loadReplay(f string) (*Replay, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, err
	}
	r := new(Replay)
	return r, json.Unmarshal(b, r)
}

// ---------------------------------------------------------------- identifiers

func hashOf(i int) (h [20]byte) {
	r := rt.NewRng(uint64(i/2), "hash")
	for j := range h {
		h[j] = byte(r.U64() >> 11)
	}
	h[19] = byte(i)
	h[18] = byte(i >> 8)
	if i%5 == 3 {
		h[4], h[7], h[9] = '&', '=', '%'
	}
	return
}

func peerOf(i int) (p [20]byte) {
	r := rt.NewRng(uint64(i/3), "peer")
	copy(p[:], "-SM0001-")
	for j := 8; j < 20; j++ {
		p[j] = byte(r.U64() >> 13)
	}
	p[9], p[10], p[19] = byte(i), byte(i>>8), byte(i>>16)
	return
}

// addrOf: bit 0 family, bits 1..6 host, bits 7.. port.
func addrOf(a int) netip.AddrPort {
	host := byte(a>>1&63) + 1
	port := uint16(20000 + a>>7&0x3fff)
	if a&1 == 1 {
		return netip.AddrPortFrom(netip.AddrFrom16([16]byte{0x20, 1, 0xd, 0xb8, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 1, host}), port)
	}
	return netip.AddrPortFrom(netip.AddrFrom4([4]byte{198, 51, 100, host}), port)
}
