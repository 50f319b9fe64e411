//go:build go1.24

package rand

import v1 "github.com/crimist/trakx/zz/sh/math/rand"

func Int64() int64          { return v1.Int63() }
func Int32() int32          { return v1.Int31() }
func Int() int              { return v1.Int() }
func Uint32() uint32        { return v1.Uint32() }
func Uint64() uint64        { return v1.Uint64() }
func Float64() float64      { return v1.Float64() }
func Float32() float32      { return v1.Float32() }
func Int64N(n int64) int64  { return v1.Int63n(n) }
func Int32N(n int32) int32  { return v1.Int31n(n) }
func IntN(n int) int        { return v1.Intn(n) }
func Perm(n int) []int      { return v1.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { v1.Shuffle(n, swap) }
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64](n T) T { return T(v1.Int63n(int64(n))) }

func Uint32N(n uint32) uint32 { return uint32(v1.Int63n(int64(n))) }
func Uint64N(n uint64) uint64 { return v1.Uint64() % n }
func UintN(n uint) uint       { return uint(v1.Uint64() % uint64(n)) }

type Source interface{ Uint64() uint64 }
type PCG struct{}

func (*PCG) Uint64() uint64              { return v1.Uint64() }
func NewPCG(seed1, seed2 uint64) *PCG    { return &PCG{} }

type Rand struct{ src Source }

func New(src Source) *Rand                         { return &Rand{src} }
func (r *Rand) Int64() int64                       { return Int64() }
func (r *Rand) Int32() int32                       { return Int32() }
func (r *Rand) Int() int                           { return Int() }
func (r *Rand) Uint32() uint32                     { return Uint32() }
func (r *Rand) Uint64() uint64                     { return Uint64() }
func (r *Rand) Float64() float64                   { return Float64() }
func (r *Rand) Int64N(n int64) int64               { return Int64N(n) }
func (r *Rand) Int32N(n int32) int32               { return Int32N(n) }
func (r *Rand) IntN(n int) int                     { return IntN(n) }
func (r *Rand) Perm(n int) []int                   { return Perm(n) }
func (r *Rand) Shuffle(n int, swap func(i, j int)) { Shuffle(n, swap) }
