// Package rand replaces math/rand/v2 inside the transformed code.
package rand

import (
	rr "math/rand/v2"

	"verif.local/sim/simrt"
)

type (
	Rand    = rr.Rand
	Source  = rr.Source
	PCG     = rr.PCG
	ChaCha8 = rr.ChaCha8
	Zipf    = rr.Zipf
)

func New(s Source) *Rand                               { return rr.New(s) }
func NewPCG(a, b uint64) *PCG                          { return rr.NewPCG(a, b) }
func NewChaCha8(s [32]byte) *ChaCha8                   { return rr.NewChaCha8(s) }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rr.NewZipf(r, s, v, imax) }

func g() *rr.Rand {
	e := simrt.E().Gen()
	if e.V2 == nil {
		e.V2 = rr.New(rr.NewPCG(e.Seed64(), e.Seed64()))
	}
	return e.V2.(*rr.Rand)
}

func Int64() int64                       { return g().Int64() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Int32() int32                       { return g().Int32() }
func Int() int                           { return g().Int() }
func Uint() uint                         { return uint(g().Uint64()) }
func Int64N(n int64) int64               { return g().Int64N(n) }
func Uint64N(n uint64) uint64            { return g().Uint64N(n) }
func Int32N(n int32) int32               { return g().Int32N(n) }
func Uint32N(n uint32) uint32            { return g().Uint32N(n) }
func IntN(n int) int                     { return g().IntN(n) }
func UintN(n uint) uint                  { return g().UintN(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }

func N[Int interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n Int) Int {
	if n <= 0 {
		panic("invalid argument to N")
	}
	return Int(g().Uint64N(uint64(n)))
}
