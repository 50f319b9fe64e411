//go:build go1.24

package rand

import (
	"math"

	"github.com/crimist/trakx/zz/rt"
)

func u() uint64 {
	if rt.S == nil {
		return 4
	}
	rt.SyncPoint()
	return rt.S.Misc.U64()
}
func Seed(int64)       {}
func Int63() int64     { return int64(u() >> 1) }
func Int31() int32     { return int32(u() >> 33) }
func Int() int         { return int(u() >> 1) }
func Uint32() uint32   { return uint32(u()) }
func Uint64() uint64   { return u() }
func Float64() float64 { return float64(u()>>11) / (1 << 53) }
func Float32() float32 { return float32(u()>>40) / (1 << 24) }
func edge(n uint64) uint64 { // the ends of the range come up often
	x := u()
	switch x >> 61 {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return (x & (1<<60 - 1)) % n
}
func Int63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(edge(uint64(n)))
}
func Int31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(edge(uint64(n)))
}
func Intn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(edge(uint64(n)))
}
func Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(u())
	}
	return len(b), nil
}
func Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(u()%uint64(i+1)))
	}
}
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
	return p
}

// Source and Rand: whatever its source, a generator draws from the simulator.
type Source interface {
	Int63() int64
	Seed(seed int64)
}
type Source64 interface {
	Source
	Uint64() uint64
}
type source struct{}

func (source) Int63() int64   { return Int63() }
func (source) Uint64() uint64 { return Uint64() }
func (source) Seed(int64)     {}

func NewSource(int64) Source { return source{} }

type Rand struct{ src Source }

func New(src Source) *Rand                                { return &Rand{src} }
func (r *Rand) Seed(int64)                                {}
func (r *Rand) Int63() int64                              { return Int63() }
func (r *Rand) Int31() int32                              { return Int31() }
func (r *Rand) Int() int                                  { return Int() }
func (r *Rand) Uint32() uint32                            { return Uint32() }
func (r *Rand) Uint64() uint64                            { return Uint64() }
func (r *Rand) Float64() float64                          { return Float64() }
func (r *Rand) Float32() float32                          { return Float32() }
func (r *Rand) Int63n(n int64) int64                      { return Int63n(n) }
func (r *Rand) Int31n(n int32) int32                      { return Int31n(n) }
func (r *Rand) Intn(n int) int                            { return Intn(n) }
func (r *Rand) Read(b []byte) (int, error)                { return Read(b) }
func (r *Rand) Shuffle(n int, swap func(i, j int))        { Shuffle(n, swap) }
func (r *Rand) Perm(n int) []int                          { return Perm(n) }
func (r *Rand) NormFloat64() float64                      { return NormFloat64() }
func (r *Rand) ExpFloat64() float64                       { return ExpFloat64() }

func NormFloat64() float64 { return math.Sqrt(-2*math.Log(1-Float64())) * math.Cos(2*math.Pi*Float64()) }
func ExpFloat64() float64  { return -math.Log(1 - Float64()) }
