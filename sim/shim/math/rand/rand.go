// Package rand replaces math/rand inside the transformed code: generators
// made from sources are the real ones, the global generator belongs to the
// environment of the running task.
package rand

import (
	rr "math/rand"

	"verif.local/sim/simrt"
)

type (
	Rand     = rr.Rand
	Source   = rr.Source
	Source64 = rr.Source64
	Zipf     = rr.Zipf
)

func New(s Source) *Rand                               { return rr.New(s) }
func NewSource(seed int64) Source                      { return &src{s: rr.NewSource(seed).(rr.Source64)} }
func NewZipf(r *Rand, s, v float64, imax uint64) *Zipf { return rr.NewZipf(r, s, v, imax) }

// src is the real source, which threads may race for.
type src struct {
	s rr.Source64
	d simrt.Draw
}

func (x *src) Uint64() uint64  { return x.d.Next(x.s.Uint64) }
func (x *src) Int63() int64    { return int64(x.Uint64() & (1<<63 - 1)) }
func (x *src) Seed(seed int64) { x.s.Seed(seed) }

func g() *rr.Rand {
	e := simrt.E().Gen()
	if e.Global == nil {
		e.Global = rr.New(rr.NewSource(int64(e.Seed64())))
	}
	return e.Global.(*rr.Rand)
}

func Seed(seed int64)                    { g().Seed(seed) }
func Int63() int64                       { return g().Int63() }
func Uint32() uint32                     { return g().Uint32() }
func Uint64() uint64                     { return g().Uint64() }
func Int31() int32                       { return g().Int31() }
func Int() int                           { return g().Int() }
func Int63n(n int64) int64               { return g().Int63n(n) }
func Int31n(n int32) int32               { return g().Int31n(n) }
func Intn(n int) int                     { return g().Intn(n) }
func Float64() float64                   { return g().Float64() }
func Float32() float32                   { return g().Float32() }
func Perm(n int) []int                   { return g().Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g().Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g().Read(p) }
func NormFloat64() float64               { return g().NormFloat64() }
func ExpFloat64() float64                { return g().ExpFloat64() }
