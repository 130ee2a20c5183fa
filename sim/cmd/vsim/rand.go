package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- statistics
//
// Every statistical verdict below is drawn from one seeded run, so it is as
// repeatable as any other; the bounds are set so that a correct generator
// exceeds one of them with a probability below 1e-9.

const zMax = 6.6 // two-sided: 4e-11

// chiMax bounds a chi-square statistic of df degrees of freedom
// (Wilson-Hilferty, one-sided 2e-11).
func chiMax(df int) float64 {
	d := float64(df)
	t := 1 - 2/(9*d) + zMax*math.Sqrt(2/(9*d))
	return d * t * t * t * 1.05
}

func chi2(obs []int, exp float64) float64 {
	s := 0.0
	for _, o := range obs {
		d := float64(o) - exp
		s += d * d / exp
	}
	return s
}

// corr is the correlation of two samples times the root of their size: normal
// with variance one when they are independent.
func corrZ(a, b []float64) float64 {
	n := len(a)
	if n < 50 {
		return 0
	}
	var ma, mb float64
	for i := range a {
		ma += a[i]
		mb += b[i]
	}
	ma, mb = ma/float64(n), mb/float64(n)
	var sab, saa, sbb float64
	for i := range a {
		x, y := a[i]-ma, b[i]-mb
		sab, saa, sbb = sab+x*y, saa+x*x, sbb+y*y
	}
	if saa == 0 || sbb == 0 {
		return 0
	}
	return sab / math.Sqrt(saa*sbb) * math.Sqrt(float64(n))
}

// ---------------------------------------------------------------- R01

func genR01(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = []string{"pairs", "pairs", "pairs", "pairs", "pairs", "pairs", "uniform", "large", "threads", "processes"}[g.Intn(10)]
	if g.Intn(100) == 0 {
		p.Kind = "huge"
	}
	p.Env.Clock = simrt.ClockModes[g.Intn(len(simrt.ClockModes))]
	switch p.Kind {
	case "huge":
		n := []int{1000, 1024, 1025, 2000, 2049, 4096, 5000, 8193, 10000, 20000, 32769, 40000, 65537, 70000}[g.Intn(14)]
		p.P["n"], p.P["k"] = int64(n), int64(1+60000/n)
		if p.P["k"] > 20 {
			p.P["k"] = 20
		}
		p.P["alias"] = int64(g.Intn(6))
	case "pairs":
		p.P["threads"] = int64(1 + g.Intn(3))
		k := 1 + g.Intn(5)
		for i := 0; i < k; i++ {
			n := g.Intn(9)
			if g.Intn(4) == 0 {
				n = g.Intn(60)
			}
			if g.Intn(60) == 0 {
				n = []int{100, 127, 128, 129, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049, 4097}[g.Intn(14)]
			}
			p.Steps = append(p.Steps, Step{T: g.Intn(int(p.P["threads"])), K: "shuffle", N: n, B: 1 + g.Intn(3), L: 1 + g.Intn(3), Seed: g.U64(), D: g.Intn(3), Cap: int64(g.Intn(8))})
		}
		p.Sched = randSched(g)
	case "uniform":
		p.P["n"], p.P["k"] = int64(3+g.Intn(2)), 6000
		p.P["apart"] = int64(g.Intn(3)) // what happens between shuffles
		p.P["alias"] = int64(g.Intn(6))
	case "large":
		p.P["n"], p.P["k"] = int64(5+g.Intn(40)), 1500
		if g.Intn(6) == 0 {
			n := []int{100, 128, 129, 255, 256, 257, 300, 512, 513, 700}[g.Intn(10)]
			p.P["n"], p.P["k"] = int64(n), int64(40000/n)
		} else if g.Intn(20) == 0 { // more orders than there are seeds
			p.P["n"], p.P["k"] = int64(16+g.Intn(9)), 8000
		}
		p.P["alias"] = int64(g.Intn(6))
	case "threads":
		p.P["threads"], p.P["k"] = int64(2+g.Intn(3)), 60
		p.P["same"] = int64(g.Intn(2))
		p.Sched = randSched(g)
	case "processes":
		p.P["k"] = 1500
		p.Env.Clock = simrt.ClockNormal
	}
}

// ids makes a data set in which every row tells which sample it is.
func ids(n, cx, cy int) (nn.Matrix, nn.Matrix) {
	x := nn.Matrix{Rows: n, Cols: cx, M: make([][]float64, n)}
	y := nn.Matrix{Rows: n, Cols: cy, M: make([][]float64, n)}
	for i := 0; i < n; i++ {
		x.M[i], y.M[i] = make([]float64, cx), make([]float64, cy)
		for j := range x.M[i] {
			x.M[i][j] = float64(i*10 + j)
		}
		for j := range y.M[i] {
			y.M[i][j] = -float64(i*10+j) - 1
		}
	}
	return x, y
}

// idsAs is ids with the two matrices related as data sets are: targets of their
// own (most modes), the samples being their own targets (mode 1: one matrix
// passed twice, as for an autoencoder; mode 2: two matrices of the same rows).
func idsAs(n, cx, cy int, mode int64) (x, y nn.Matrix, wy int) {
	x, y = ids(n, cx, cy)
	switch mode {
	case 1:
		return x, x, cx
	case 2:
		return x, nn.Matrix{Rows: n, Cols: cx, M: append([][]float64(nil), x.M...)}, cx
	}
	return x, y, cy
}

// permOfAs reads the permutation off such a data set.
func permOfAs(x, y nn.Matrix, n, cx, cy int, mode int64) ([]int, string) {
	if mode == 1 || mode == 2 {
		if x.Rows != y.Rows || x.Cols != y.Cols || len(x.M) != len(y.M) {
			return nil, "the two matrices came back in different sizes"
		}
		z := nn.Matrix{Rows: y.Rows, Cols: y.Cols, M: make([][]float64, len(y.M))}
		for i := range y.M {
			for _, v := range y.M[i] {
				z.M[i] = append(z.M[i], -v-1)
			}
		}
		return permOf(x, z, n, cx, cy)
	}
	return permOf(x, y, n, cx, cy)
}

// permOf reads the permutation off a shuffled data set, or says what is wrong.
func permOf(x, y nn.Matrix, n, cx, cy int) ([]int, string) {
	if x.Rows != n || y.Rows != n || x.Cols != cx || y.Cols != cy || len(x.M) != n || len(y.M) != n {
		return nil, fmt.Sprintf("%d samples and %d targets came back as %dx%d and %dx%d", n, n, x.Rows, x.Cols, y.Rows, y.Cols)
	}
	p := make([]int, n)
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		if len(x.M[i]) != cx || len(y.M[i]) != cy {
			return nil, fmt.Sprintf("row %d has %d and %d values", i, len(x.M[i]), len(y.M[i]))
		}
		k := int(x.M[i][0]) / 10
		if k < 0 || k >= n || seen[k] {
			return nil, fmt.Sprintf("sample %d came back twice or never (row %d)", k, i)
		}
		seen[k] = true
		p[i] = k
		for j := range x.M[i] {
			if x.M[i][j] != float64(k*10+j) {
				return nil, fmt.Sprintf("sample %d was altered: %v", k, x.M[i])
			}
		}
		for j := range y.M[i] {
			if y.M[i][j] != -float64(k*10+j)-1 {
				return nil, fmt.Sprintf("sample %d lost its target: row %d has target %v", k, i, y.M[i])
			}
		}
	}
	return p, ""
}

func permIndex(p []int) int {
	k := 0
	for i := range p {
		c := 0
		for j := i + 1; j < len(p); j++ {
			if p[j] < p[i] {
				c++
			}
		}
		k = k*(len(p)-i) + c
	}
	return k
}

func fact(n int) int {
	f := 1
	for ; n > 1; n-- {
		f *= n
	}
	return f
}

// otherWork is what a program may do between two random calls.
func otherWork(k int64, i int) {
	switch k {
	case 1:
		l, err := nn.NewLinearLayer(2, 3)
		if err == nil {
			l.Init()
		}
	case 2:
		if i%2 == 0 {
			l, err := nn.NewSigmoidLayer(3, 1)
			if err == nil {
				l.Init()
			}
		}
		d, err := nn.NewDropoutLayer(1, 2, 0.5)
		if err == nil {
			d.Forward(nn.Matrix{Rows: 1, Cols: 1, M: [][]float64{{1}}})
		}
	}
}

func runR01(r *R) {
	p := r.p
	switch p.Kind {
	case "pairs":
		n := int(p.P["threads"])
		if n < 1 {
			n = 1
		}
		msgs := make([]string, n)
		perms := make([][][]int, n)
		var ts []taskFn
		for t := 0; t < n; t++ {
			t := t
			ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), nil, func() {
				for i, s := range p.Steps {
					if s.T != t || msgs[t] != "" {
						continue
					}
					x, y, wy := idsAs(s.N, s.B, s.L, s.Cap)
					for k := 0; k <= s.D; k++ { // shuffled again and again
						x, y = nn.ShuffleDataset(x, y)
						pm, m := permOfAs(x, y, s.N, s.B, wy, s.Cap)
						if m != "" {
							msgs[t] = fmt.Sprintf("step %d, shuffle %d: %s", i, k, m)
							return
						}
						perms[t] = append(perms[t], pm)
					}
				}
			}})
		}
		r.seg(p.Sched, 0, 0, false, 0, ts...)
		if r.bad() {
			r.stop()
		}
		r.nontriv = len(p.Steps) > 0
		for t := range msgs {
			r.ev("thread%d %v", t, perms[t])
			r.mark("%v", perms[t])
			if msgs[t] != "" {
				r.fail("pairs", "thread %d, %s", t, msgs[t])
			}
		}
	case "uniform", "processes":
		n := int(p.P["n"])
		if n == 0 {
			n = 3
		}
		K := int(p.P["k"])
		obs := make([]int, fact(n))
		pair := make([]int, 36)
		msg := ""
		prev := -1
		one := func(i int) {
			x, y, wy := idsAs(n, 1, 1, p.P["alias"])
			x, y = nn.ShuffleDataset(x, y)
			pm, m := permOfAs(x, y, n, 1, wy, p.P["alias"])
			if m != "" {
				msg = m
				return
			}
			k := permIndex(pm)
			obs[k]++
			if n == 3 {
				if i%2 == 1 && prev >= 0 {
					pair[prev*6+k]++
				}
				prev = k
			}
		}
		if p.Kind == "uniform" {
			r.do("shuffles", func() {
				for i := 0; i < K && msg == ""; i++ {
					one(i)
					otherWork(p.P["apart"], i)
				}
			})
		} else {
			for i := 0; i < K && msg == "" && !r.bad(); i++ {
				r.process(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, uint64(i)), Clock: simrt.ClockNormal})
				r.do("first shuffle", func() { one(i) })
			}
		}
		if r.bad() {
			r.stop()
		}
		if msg != "" {
			r.fail("pairs", "%s", msg)
			return
		}
		r.nontriv = true
		r.ev("counts %v", obs)
		r.mark("%v", obs)
		c := chi2(obs, float64(K)/float64(len(obs)))
		r.stat("shuffles", K)
		if lim := chiMax(len(obs) - 1); c > lim {
			r.fail("uniform", "%d shuffles of %d samples (clock %s, %s): the %d permutations came up %s times; chi-square %.1f, limit %.1f", K, n, p.Env.Clock, p.Kind, len(obs), counts(obs), c, lim)
			return
		}
		if n == 3 {
			c := chi2(pair, float64(K/2)/36)
			if lim := chiMax(35); c > lim {
				r.fail("dependent", "%d shuffles of 3 samples (clock %s, %s): successive permutations depend on each other: pairs came up %s times; chi-square %.1f, limit %.1f", K, p.Env.Clock, p.Kind, counts(pair), c, lim)
			}
		}
	case "large":
		n, K := int(p.P["n"]), int(p.P["k"])
		pos := make([][]int, n) // element, position
		for i := range pos {
			pos[i] = make([]int, n)
		}
		fixed, asc := 0, 0
		follow := 0
		even, cycles := 0, 0
		orders, again := map[uint64]bool{}, 0
		msg := ""
		r.do("shuffles", func() {
			var last []int
			for i := 0; i < K && msg == ""; i++ {
				x, y, wy := idsAs(n, 1, 1, p.P["alias"])
				x, y = nn.ShuffleDataset(x, y)
				pm, m := permOfAs(x, y, n, 1, wy, p.P["alias"])
				if m != "" {
					msg = m
					return
				}
				for k, e := range pm {
					pos[e][k]++
					if e == k {
						fixed++
					}
					if k > 0 && pm[k-1] < e {
						asc++
					}
					if last != nil && last[k] == e {
						follow++
					}
				}
				c := 0
				seen := make([]bool, n)
				for k := range pm {
					if !seen[k] {
						c++
						for at := k; !seen[at]; at = pm[at] {
							seen[at] = true
						}
					}
				}
				h := uint64(0)
				for _, e := range pm {
					h = (h + uint64(e) + 1) * 0x9E3779B97F4A7C15
					h ^= h >> 29
				}
				if orders[h] {
					again++
				}
				orders[h] = true
				cycles += c
				even += (n - c + 1) % 2
				last = pm
			}
		})
		if r.bad() {
			r.stop()
		}
		if msg != "" {
			r.fail("pairs", "%s", msg)
			return
		}
		r.nontriv = true
		r.ev("fixed %d ascents %d", fixed, asc)
		r.mark("%d %d %d", n, fixed, asc)
		r.stat("shuffles", K)
		c := 0.0
		for i := range pos {
			c += chi2(pos[i], float64(K)/float64(n))
		}
		// the table's statistic is n/(n-1) times chi-square with (n-1)^2 df
		c *= float64(n-1) / float64(n)
		if lim := chiMax((n - 1) * (n - 1)); c > lim {
			r.fail("positions", "%d shuffles of %d samples (clock %s): samples are not equally likely at every position: chi-square %.1f, limit %.1f; the first sample went to positions %s", K, n, p.Env.Clock, c, lim, counts(pos[0]))
			return
		}
		// fixed points: mean 1, variance 1 per shuffle
		if z := (float64(fixed) - float64(K)) / math.Sqrt(float64(K)); math.Abs(z) > zMax+1 {
			r.fail("fixed", "%d shuffles of %d samples left %d samples in place, expected about %d", K, n, fixed, K)
			return
		}
		if z := (float64(follow) - float64(K-1)) / math.Sqrt(float64(K)); math.Abs(z) > zMax+1 {
			r.fail("repeat", "%d successive shuffles of %d samples agree in %d places, expected about %d", K, n, follow, K-1)
			return
		}
		// 14! orders and more: a generator of 2^31 seeds comes back to one now and then
		if n >= 14 && again >= 4 {
			r.fail("copies", "%d of %d shuffles of %d samples gave an order seen before", again, K, n)
			return
		}
		// even and odd permutations are as many
		if z := (float64(even) - float64(K)/2) / math.Sqrt(float64(K)/4); math.Abs(z) > zMax+1 {
			r.fail("parity", "%d of %d shuffles of %d samples were even permutations", even, K, n)
			return
		}
		// cycles: mean the sum of 1/i, variance the sum of 1/i-1/i^2
		cm, cv := 0.0, 0.0
		for i := 1; i <= n; i++ {
			cm += 1 / float64(i)
			cv += 1/float64(i) - 1/float64(i)/float64(i)
		}
		if z := (float64(cycles) - float64(K)*cm) / math.Sqrt(float64(K)*cv); math.Abs(z) > zMax+2 {
			r.fail("cycles", "%d shuffles of %d samples have %d cycles, expected about %.0f", K, n, cycles, float64(K)*cm)
			return
		}
		// ascents: mean (n-1)/2, variance (n+1)/12 per shuffle
		mean, sd := float64(K)*float64(n-1)/2, math.Sqrt(float64(K)*float64(n+1)/12)
		if z := (float64(asc) - mean) / sd; math.Abs(z) > zMax+1 {
			r.fail("order", "%d shuffles of %d samples keep %d neighbours in ascending order, expected about %.0f", K, n, asc, mean)
		}
	case "huge":
		n, K := int(p.P["n"]), int(p.P["k"])
		const bins = 16
		grid := make([]int, bins*bins)
		next := make([]int, bins*bins) // bin of a row, bin of the row after it
		size := make([]int, bins)
		for i := 0; i < n; i++ {
			size[i*bins/n]++
		}
		near, fixed, asc := 0, 0, 0
		msg := ""
		r.do("shuffles", func() {
			for i := 0; i < K && msg == ""; i++ {
				x, y, wy := idsAs(n, 1, 1, p.P["alias"])
				x, y = nn.ShuffleDataset(x, y)
				pm, m := permOfAs(x, y, n, 1, wy, p.P["alias"])
				if m != "" {
					msg = m
					return
				}
				for k, e := range pm {
					grid[e*bins/n*bins+k*bins/n]++
					if k > 0 {
						next[pm[k-1]*bins/n*bins+e*bins/n]++
						if pm[k-1] < e {
							asc++
						}
					}
					if e == k {
						fixed++
					}
					if d := e - k; d >= -8 && d <= 8 {
						near++
					}
				}
			}
		})
		if r.bad() {
			r.stop()
		}
		if msg != "" {
			r.fail("pairs", "%s", msg)
			return
		}
		r.nontriv = true
		r.ev("near %d fixed %d ascents %d", near, fixed, asc)
		r.mark("%d %d %d %d", n, near, fixed, asc)
		r.stat("shuffles", K)
		for t, o := range [][]int{grid, next} {
			c := 0.0
			for a := 0; a < bins; a++ {
				for b := 0; b < bins; b++ {
					e := float64(K) * float64(size[a]) * float64(size[b]) / float64(n)
					d := float64(o[a*bins+b]) - e
					c += d * d / e
				}
			}
			if lim := chiMax(bins*bins - 1); c > lim {
				r.fail("positions", "%d shuffles of %d samples (clock %s): %s are not independent: chi-square %.1f, limit %.1f", K, n, p.Env.Clock, []string{"a sample's old and new position", "neighbours in the new order"}[t], c, lim)
				return
			}
		}
		if e := 17 * float64(K); float64(near) > e+9*math.Sqrt(e)+12 || float64(near) < e-9*math.Sqrt(e) {
			r.fail("near", "%d shuffles of %d samples moved %d samples by at most 8 places, expected about %.0f", K, n, near, e)
			return
		}
		if e := float64(K); float64(fixed) > e+9*math.Sqrt(e)+12 {
			r.fail("fixed", "%d shuffles of %d samples left %d samples in place, expected about %d", K, n, fixed, K)
			return
		}
		mean, sd := float64(K)*float64(n-1)/2, math.Sqrt(float64(K)*float64(n+1)/12)
		if z := (float64(asc) - mean) / sd; math.Abs(z) > zMax+1 {
			r.fail("order", "%d shuffles of %d samples keep %d neighbours in ascending order, expected about %.0f", K, n, asc, mean)
		}
	case "threads":
		n, K := int(p.P["threads"]), int(p.P["k"])
		const rows = 9
		perms := make([][]int, n)
		msgs := make([]string, n)
		var ts []taskFn
		for t := 0; t < n; t++ {
			t := t
			var env *simrt.Env // one environment for all
			if p.P["same"] == 1 {
				env = r.sameClock()
			}
			ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), env, func() {
				for i := 0; i < K && msgs[t] == ""; i++ {
					x, y := ids(rows, 1, 1)
					x, y = nn.ShuffleDataset(x, y)
					pm, m := permOf(x, y, rows, 1, 1)
					if m != "" {
						msgs[t] = m
						return
					}
					perms[t] = append(perms[t], permIndex(pm))
				}
			}})
		}
		r.seg(p.Sched, 0, 0, false, 0, ts...)
		if r.bad() {
			r.stop()
		}
		for t := range msgs {
			if msgs[t] != "" {
				r.fail("pairs", "thread %d: %s", t, msgs[t])
				return
			}
		}
		r.nontriv = r.last.Switches >= 2
		all := map[int]int{}
		coll := 0
		for t := range perms {
			for _, k := range perms[t] {
				coll += all[k]
				all[k]++
			}
		}
		r.ev("perms %v", perms)
		tot := float64(n * K)
		mean := tot * (tot - 1) / 2 / float64(fact(rows))
		if float64(coll) > mean+12+8*math.Sqrt(mean) {
			r.fail("copies", "%d threads shuffling %d samples %d times each (clock %s) got the same permutation in %d pairs of shuffles, expected %.2f", n, rows, K, p.Env.Clock, coll, mean)
		}
	}
}

// sameClock is an environment that shows its task the same clock readings as
// others of its kind, while the process-wide generators are shared.
func (r *R) sameClock() *simrt.Env {
	e := simrt.NewEnv(simrt.EnvSpec{Seed: r.p.Seed, Clock: r.p.Env.Clock})
	e.Shared = r.env
	return e
}

func counts(o []int) string {
	s := fmt.Sprint(o)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// ---------------------------------------------------------------- R02

func genR02(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = []string{"small", "small", "small", "sample", "threads", "model"}[g.Intn(6)]
	switch k := g.Intn(1200); {
	case k == 0:
		p.Kind = "shape"
	case k < 30:
		p.Kind = "large"
	}
	p.Env.Clock = simrt.ClockModes[g.Intn(len(simrt.ClockModes))]
	dim := func(max int) int {
		if g.Intn(4) == 0 {
			return 1
		}
		return 1 + g.Intn(max)
	}
	n := 1 + g.Intn(4)
	max := 7
	switch p.Kind {
	case "sample":
		n, max = 1+g.Intn(2), 24
		p.P["draws"] = 6000
	case "threads":
		n, max = 2+g.Intn(3), 6
		p.P["draws"] = 2000
		p.P["same"] = int64(g.Intn(2))
		p.Sched = randSched(g)
	case "model":
		n, max = 2+g.Intn(3), 8
		p.P["draws"] = 3000
	case "large":
		n, max = 1, 64
	case "shape":
		n, max = len(layerKinds), 200
		p.P["draws"] = 400_000
	default:
		p.P["draws"] = 0
	}
	p.P["apart"] = int64(g.Intn(3))
	s := ModelSpec{Loss: "mse", Opt: "sgd", OptV: []F64{0.1, 0, 0}, WSeed: g.U64(), WMode: "special"}
	d := dim(max)
	for i := 0; i < n; i++ {
		l := LayerSpec{K: layerKinds[g.Intn(len(layerKinds))], In: d, Out: dim(max), P: pickF(g, 0.25, 0.5, 0.1, 0.75)}
		if p.Kind != "model" && g.Intn(2) == 0 {
			l.In = dim(max)
		}
		if p.Kind == "shape" {
			l.K, l.Out = layerKinds[i], 20+g.Intn(180)
		}
		if p.Kind == "large" {
			l.In, l.Out = 8+g.Intn(max), 8+g.Intn(max)
		}
		if p.Kind == "threads" && i > 0 && g.Intn(2) == 0 {
			l.In, l.Out = s.Layers[0].In, s.Layers[0].Out
		}
		d = l.Out
		s.Layers = append(s.Layers, l)
	}
	if p.Kind == "small" && g.Intn(20) == 0 { // long and wide layers
		for i := range s.Layers {
			w := []int{33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 513, 784, 1000, 1024, 1025, 2049}[g.Intn(19)]
			s.Layers[i].In, s.Layers[i].Out = w, 1+g.Intn(4)
			if g.Intn(2) == 0 {
				s.Layers[i].In, s.Layers[i].Out = s.Layers[i].Out, w
			}
			if i > 0 && g.Intn(2) == 0 {
				s.Layers[i].In, s.Layers[i].Out = s.Layers[0].In, s.Layers[0].Out
			}
			if g.Intn(3) == 0 {
				s.Layers[i].K = s.Layers[0].K
			}
		}
	}
	p.Models = []ModelSpec{s}
}

// initOnce initialises a layer and returns its weights; msg says what the call
// did besides that, or failed to do.
func initOnce(l nn.Layer, initf func()) ([]float64, string) {
	w, _ := params(l)
	rows, cols := w.Rows, w.Cols
	sent := math.Float64frombits(0x7ff8dead00001234)
	for i := range w.M {
		for j := range w.M[i] {
			w.M[i][j] = sent
		}
	}
	rest := func() string {
		var b bytes.Buffer
		dumpLayer(&b, l)
		s := b.String()
		i, j := strings.Index(s, " W "), strings.Index(s, "\nB ")
		if i < 0 || j < 0 {
			return s
		}
		return s[:i] + s[j:]
	}
	before := rest()
	initf()
	if after := rest(); after != before {
		return nil, "changed something else than the weights: " + diff(before, after)
	}
	w, _ = params(l)
	if w.Rows != rows || w.Cols != cols || len(w.M) != rows {
		return nil, fmt.Sprintf("turned %dx%d weights into %dx%d", rows, cols, w.Rows, w.Cols)
	}
	var out []float64
	for i := range w.M {
		if len(w.M[i]) != cols {
			return nil, fmt.Sprintf("row %d has %d weights", i, len(w.M[i]))
		}
		for j := range w.M[i] {
			v := w.M[i][j]
			if math.Float64bits(v) == math.Float64bits(sent) {
				return nil, fmt.Sprintf("left weight [%d][%d] of a %dx%d layer as it was", i, j, rows, cols)
			}
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return nil, fmt.Sprintf("set weight [%d][%d] to %v", i, j, v)
			}
			out = append(out, v)
		}
	}
	return out, ""
}

func runR02(r *R) {
	p := r.p
	spec := p.Models[0]
	n := len(spec.Layers)
	layers := make([]nn.Layer, n)
	draws := make([][][]float64, n) // layer, initialisation, weights
	var m *nn.Model
	r.do("build", func() {
		if p.Kind == "model" {
			var err error
			m, err = build(spec)
			if err != nil {
				r.fail("build", "building a valid model failed: %v", err)
				return
			}
			copy(layers, m.Layers)
			return
		}
		g := simrt.NewRng(spec.WSeed)
		for i, ls := range spec.Layers {
			l, err := newLayer(ls)
			if err != nil {
				r.fail("build", "building a valid layer failed: %v", err)
				return
			}
			fillLayer(l, g, "special")
			layers[i] = l
		}
	})
	if r.bad() {
		r.stop()
	}
	reps := func(i int) int {
		sz := spec.Layers[i].In * spec.Layers[i].Out
		k := (int(p.P["draws"]) + sz - 1) / sz
		if k < 3 {
			k = 3
		}
		if k > 3000 && p.Kind != "shape" {
			k = 3000
		}
		return k
	}
	msgs := make([]string, n)
	switch p.Kind {
	case "threads":
		var ts []taskFn
		for i := range layers {
			i := i
			var env *simrt.Env
			if p.P["same"] == 1 {
				env = r.sameClock()
			}
			ts = append(ts, taskFn{fmt.Sprintf("thread%d", i), env, func() {
				for k := 0; k < reps(i) && msgs[i] == ""; k++ {
					var v []float64
					v, msgs[i] = initOnce(layers[i], layers[i].Init)
					draws[i] = append(draws[i], v)
				}
			}})
		}
		r.seg(p.Sched, 0, 0, false, 0, ts...)
	case "model":
		r.do("init", func() {
			for k := 0; k < reps(0); k++ {
				done := false
				for i := range layers {
					i := i
					v, msg := initOnce(layers[i], func() {
						if i == 0 {
							// all layers get their sentinel first
							if !done {
								m.InitLayers()
								done = true
							}
							return
						}
						layers[i].Init()
					})
					if msg != "" {
						msgs[i] = msg
						return
					}
					draws[i] = append(draws[i], v)
				}
			}
			// the whole model at once: every layer is initialised
			for i := range layers {
				w, _ := params(layers[i])
				for a := range w.M {
					for b := range w.M[a] {
						w.M[a][b] = math.NaN()
					}
				}
			}
			m.InitLayers()
			for i := range layers {
				w, _ := params(layers[i])
				var v []float64
				for a := range w.M {
					for b := range w.M[a] {
						if math.IsNaN(w.M[a][b]) && msgs[i] == "" {
							msgs[i] = fmt.Sprintf("left weight [%d][%d] of layer %d as it was", a, b, i)
						}
						v = append(v, w.M[a][b])
					}
				}
				draws[i] = append(draws[i], v)
			}
		})
	default:
		r.do("init", func() {
			k := 3
			if p.Kind == "sample" || p.Kind == "shape" {
				k = 0
				for i := range layers {
					if reps(i) > k {
						k = reps(i)
					}
				}
			}
			for ; k > 0; k-- { // layers in turn, so that neighbours in time are different layers
				for i := range layers {
					if (p.Kind == "sample" || p.Kind == "shape") && len(draws[i]) >= reps(i) || msgs[i] != "" {
						continue
					}
					var v []float64
					v, msgs[i] = initOnce(layers[i], layers[i].Init)
					draws[i] = append(draws[i], v)
					otherWork(p.P["apart"], k)
				}
			}
		})
	}
	if r.bad() {
		r.stop()
	}
	r.nontriv = true
	tot := 0
	for i := range layers {
		if msgs[i] != "" {
			r.fail("init", "initialising a %s layer of %d inputs and %d outputs %s", spec.Layers[i].K, spec.Layers[i].In, spec.Layers[i].Out, msgs[i])
			return
		}
		for k := range draws[i] {
			tot += len(draws[i][k])
		}
		r.ev("layer%d %d initialisations, first %v", i, len(draws[i]), draws[i][0][0])
		r.mark("%v", draws[i][0][0])
	}
	r.stat("draws", tot)
	r.judgeInit(spec, draws)
}

func (r *R) judgeInit(spec ModelSpec, draws [][][]float64) {
	p := r.p
	name := func(i int) string {
		l := spec.Layers[i]
		return fmt.Sprintf("%s layer of %d inputs and %d outputs (clock %s, %s)", l.K, l.In, l.Out, p.Env.Clock, p.Kind)
	}
	// copies: math/rand's normal draws have 32 bits or so, so a few equal
	// values are chance; whole matrices or many equal values are not
	seen := map[uint64]string{}
	equal, total := 0, 0
	where := ""
	for i := range draws {
		for k := range draws[i] {
			for j, v := range draws[i][k] {
				// free of scale and sign: the same draw in layers of different
				// sizes, and mirrored draws
				z := math.Float64bits(float64(float32(math.Abs(v) * math.Sqrt(float64(spec.Layers[i].In)))))
				if j > 3000 && p.Kind != "large" || total > 20_000 {
					break
				}
				total++
				if prev, ok := seen[z]; ok {
					equal++
					if where == "" {
						where = prev + fmt.Sprintf(" and layer %d, initialisation %d, weight %d", i, k, j)
					}
				} else {
					seen[z] = fmt.Sprintf("layer %d, initialisation %d, weight %d", i, k, j)
				}
			}
		}
	}
	// float32 normal values: about 2^24 distinct in the bulk
	mean := float64(total) * float64(total-1) / 2 / (1 << 22)
	if float64(equal) > mean+12+8*math.Sqrt(mean) {
		r.fail("copies", "%d of %d initial weights are copies of earlier ones (clock %s, %s), first: %s", equal, total, p.Env.Clock, p.Kind, where)
		return
	}
	for i := range draws {
		sd := math.Sqrt(2 / float64(spec.Layers[i].In))
		var z []float64
		for k := range draws[i] {
			for _, v := range draws[i][k] {
				z = append(z, v/sd)
			}
		}
		N := float64(len(z))
		var s1, s2, s4, mx float64
		for _, v := range z {
			s1 += v
			s2 += v * v
			s4 += v * v * v * v
			mx = math.Max(mx, math.Abs(v))
		}
		if mx > 9 {
			r.fail("distribution", "initialising a %s drew a weight %.1f standard deviations away", name(i), mx)
			return
		}
		if N < 200 {
			continue
		}
		if q := s1 / math.Sqrt(N); math.Abs(q) > zMax {
			r.fail("distribution", "initialising a %s: the mean of %d weights is %.4f standard deviations, %.1f standard errors from zero", name(i), len(z), s1/N, q)
			return
		}
		if q := (s2/N - 1) * math.Sqrt(N/2); q > 1.35*zMax || q < -zMax {
			r.fail("distribution", "initialising a %s: the variance of %d weights is %.4f times two divided by the number of inputs, %.1f standard errors off", name(i), len(z), s2/N, q)
			return
		}
		if N >= 1000 {
			obs := make([]int, 16)
			for _, v := range z {
				u := 0.5 * math.Erfc(-v/math.Sqrt2)
				k := int(u * 16)
				if k > 15 {
					k = 15
				}
				obs[k]++
			}
			if c, lim := chi2(obs, N/16), chiMax(15); c > lim {
				r.fail("distribution", "initialising a %s: %d weights are not normally distributed: chi-square %.1f, limit %.1f", name(i), len(z), c, lim)
				return
			}
		}
		if N >= 200_000 { // the shape, tails included
			if q := (s4/N - 3) * math.Sqrt(N/96); math.Abs(q) > zMax+2 {
				r.fail("distribution", "initialising a %s: the fourth moment of %d weights is %.4f instead of 3, %.1f standard errors off", name(i), len(z), s4/N, q)
				return
			}
			for _, t := range []float64{2, 2.5, 3, 3.5, 4} {
				k := 0
				for _, v := range z {
					if math.Abs(v) > t {
						k++
					}
				}
				e := N * math.Erfc(t/math.Sqrt2)
				if q := (float64(k) - e) / math.Sqrt(e); e > 20 && math.Abs(q) > zMax+1+6/math.Sqrt(e) {
					r.fail("distribution", "initialising a %s: %d of %d weights are beyond %.1f standard deviations, expected %.0f", name(i), k, len(z), t, e)
					return
				}
			}
			obs := make([]int, 200)
			for _, v := range z {
				u := 0.5 * math.Erfc(-v/math.Sqrt2)
				obs[int(math.Min(u*200, 199))]++
			}
			if c, lim := chi2(obs, N/200), chiMax(199); c > lim {
				r.fail("distribution", "initialising a %s: %d weights are not normally distributed: chi-square %.1f, limit %.1f", name(i), len(z), c, lim)
				return
			}
		}
		if p.Kind == "large" { // weights at any distance within a matrix
			for k := range draws[i] {
				if t, d := worstLag(draws[i][k], 1, sd); t > zMax+2.5 {
					r.fail("dependent", "initialising a %s: weights depend on those %d places before them, %.1f standard errors", name(i), d, t)
					return
				}
			}
		}
		// neighbours in a row, in a column, in successive initialisations
		out := spec.Layers[i].Out
		var a, b, c, d, e, f []float64
		for k := range draws[i] {
			w := draws[i][k]
			for j := range w {
				if (j+1)%out != 0 {
					a, b = append(a, w[j]), append(b, w[j+1])
				}
				if j+out < len(w) {
					c, d = append(c, w[j]), append(d, w[j+out])
				}
				if k > 0 && len(draws[i][k-1]) == len(w) {
					e, f = append(e, w[j]), append(f, draws[i][k-1][j])
				}
			}
		}
		for q, pr := range [][2][]float64{{a, b}, {c, d}, {e, f}} {
			if len(pr[0]) < 300 {
				continue
			}
			if zz := corrZ(pr[0], pr[1]); math.Abs(zz) > zMax+1 {
				r.fail("dependent", "initialising a %s: weights depend on %s (%d pairs, correlation %.4f)", name(i), []string{"their neighbour in the row", "their neighbour in the column", "those of the previous initialisation"}[q], len(pr[0]), zz/math.Sqrt(float64(len(pr[0]))))
				return
			}
		}
		// other layers initialised next to this one
		for o := range draws {
			if o == i {
				continue
			}
			var a, b []float64
			for k := range draws[i] {
				if k >= len(draws[o]) {
					break
				}
				for j := range draws[i][k] {
					if j < len(draws[o][k]) {
						a, b = append(a, draws[i][k][j]), append(b, draws[o][k][j])
					}
				}
			}
			if len(a) < 300 {
				continue
			}
			if zz := corrZ(a, b); math.Abs(zz) > zMax+1 {
				r.fail("dependent", "initialising a %s: weights depend on those of another layer initialised next to it (%d pairs, correlation %.4f)", name(i), len(a), zz/math.Sqrt(float64(len(a))))
				return
			}
		}
	}
}

// worstLag finds the distance at which the values of a sequence, or their
// squares, depend most on each other, and how many standard errors that is.
func worstLag(v []float64, from int, sd float64) (float64, int) {
	n := len(v)
	sq := make([]float64, n)
	z := make([]float64, n)
	for i := range v {
		z[i] = v[i] / sd
		sq[i] = math.Min(z[i]*z[i], 9) - 0.98
	}
	worst, at := 0.0, 0
	for d := from; n-d >= 200; d++ {
		var a, b float64
		for i := 0; i+d < n; i++ {
			a += z[i] * z[i+d]
			b += sq[i] * sq[i+d]
		}
		m := math.Sqrt(float64(n - d))
		// the variance of sq is below 2, with heavier tails than the normal
		if q := math.Max(math.Abs(a)/m, math.Abs(b)/m/1.8-1); q > worst {
			worst, at = q, d
		}
	}
	return worst, at
}

// ---------------------------------------------------------------- R03

var rates = []float64{0, 0.05, 0.1, 0.25, 0.3, 0.5, 0.5, 0.6, 0.75, 0.8, 0.9, 0.95, 1}

func genR03(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = []string{"layer", "layer", "layer", "model", "model", "fit", "threads"}[g.Intn(7)]
	p.Env.Clock = simrt.ClockModes[g.Intn(len(simrt.ClockModes))]
	rate := func() F64 {
		if g.Intn(4) == 0 {
			return F64(math.Round(g.Float()*1000) / 1000)
		}
		return F64(rates[g.Intn(len(rates))])
	}
	s := ModelSpec{Loss: []string{"mse", "mae"}[g.Intn(2)], Opt: "sgd", OptV: []F64{0.01, 0, 0}, WSeed: g.U64(), WMode: "normal"}
	p.P["passes"] = int64(2 + g.Intn(6))
	if g.Intn(4) == 0 {
		p.P["passes"] = int64(20 + g.Intn(40))
	}
	rows := 1 + g.Intn(6)
	switch p.Kind {
	case "layer":
		s.Layers = []LayerSpec{{K: "dropout", In: 1 + g.Intn(4), Out: 1 + g.Intn(20), P: rate()}}
		if g.Intn(60) == 0 { // many samples, or many units
			s.Layers[0] = LayerSpec{K: "dropout", In: 1 + g.Intn(2), Out: 10 + g.Intn(30), P: pickF(g, 0.5, 0.5, 0.3, 0.7, 0.25, 0.6)}
			rows = 20 + g.Intn(110)
			p.P["passes"] = int64(1 + g.Intn(3))
		}
		switch g.Intn(90) {
		case 3: // passes of very many units
			s.Layers[0] = LayerSpec{K: "dropout", In: 1, Out: 64 + g.Intn(193), P: pickF(g, 0.5, 0.5, 0.3, 0.7, 0.4, 0.6)}
			rows = (33_000 + g.Intn(120_000)) / s.Layers[0].Out
			p.P["passes"], p.P["lit"] = int64(1+g.Intn(2)), 1
		case 4: // thousands of passes
			s.Layers[0] = LayerSpec{K: "dropout", In: 1, Out: 50 + g.Intn(11), P: pickF(g, 0.5, 0.5, 0.3, 0.7, 0.4, 0.6)}
			rows = 2
			p.P["passes"], p.P["lit"] = 3000, 1
		case 0: // batches of usual sizes, many times
			s.Layers[0] = LayerSpec{K: "dropout", In: 1, Out: 5 + g.Intn(10), P: pickF(g, 0.5, 0.5, 0.3, 0.7, 0.25)}
			rows = 8 + g.Intn(27)
			p.P["passes"] = int64(40 + g.Intn(20))
		case 1: // few units, very often
			s.Layers[0] = LayerSpec{K: "dropout", In: 1, Out: 1 + g.Intn(6), P: pickF(g, 0.5, 0.5, 0.3, 0.7, 0.25)}
			rows = 1 + g.Intn(5)
			p.P["passes"] = 500
		case 2: // nearly never and nearly always
			s.Layers[0] = LayerSpec{K: "dropout", In: 1, Out: 30 + g.Intn(20), P: pickF(g, 0.01, 0.005, 0.02, 0.001, 0.98, 0.99, 0.995, 0.999, 0.03, 0.97, 0.9995, 0.9999, 0.0001)}
			p.P["lit"] = int64(g.Intn(2))
			rows = 30 + g.Intn(20)
			p.P["passes"] = int64(10 + g.Intn(6))
		}
	case "threads":
		n := 2 + g.Intn(3)
		for i := 0; i < n; i++ {
			s.Layers = append(s.Layers, LayerSpec{K: "dropout", In: 1 + g.Intn(3), Out: 30, P: pickF(g, 0.5, 0.5, 0.3, 0.7)})
		}
		rows = 5
		p.P["same"] = int64(g.Intn(2))
		p.Sched = randSched(g)
	case "model":
		n := 1 + g.Intn(3)
		d := 1 + g.Intn(3)
		for i := 0; i < n; i++ {
			l := LayerSpec{K: "dropout", In: d, Out: 2 + g.Intn(10), P: rate()}
			if i == 0 || g.Intn(2) == 0 {
				s.Layers = append(s.Layers, l)
			} else {
				l.K, l.P = []string{"hidden", "linear", "sigmoid", "leaky"}[g.Intn(4)], 0.1
				s.Layers = append(s.Layers, l)
			}
			d = l.Out
		}
		s.Acc = 0
	case "fit":
		s.Layers = []LayerSpec{{K: "dropout", In: 2, Out: 8 + g.Intn(10), P: rate()}}
		s.Layers = append(s.Layers, LayerSpec{K: "linear", In: s.Layers[0].Out, Out: 2})
		s.Loss = "mse"
		rows = 1
		p.P["passes"] = int64(60 + g.Intn(100))
	}
	p.Models = []ModelSpec{s}
	p.Data = []DataSpec{{Rows: rows, Seed: g.U64()}}
}

// plainOf is the activation without dropout, from the parameters alone.
func plainOf(l nn.Layer, x nn.Matrix) [][]float64 {
	w, b := params(l)
	o := make([][]float64, x.Rows)
	for i := range o {
		o[i] = make([]float64, w.Cols)
		for j := range o[i] {
			s := 0.0
			for k := 0; k < w.Rows; k++ {
				s += x.M[i][k] * w.M[k][j]
			}
			s += b.M[0][j]
			if s > 0 {
				o[i][j] = s
			}
		}
	}
	return o
}

// maskOf reads off which units a training pass kept: 1 kept, 0 dropped, -1
// cannot be told (the plain activation is zero).
func maskOf(out nn.Matrix, plain [][]float64, p float64) ([]int, string) {
	if out.Rows != len(plain) {
		return nil, fmt.Sprintf("%d rows became %d", len(plain), out.Rows)
	}
	var mk []int
	for i := range plain {
		if len(out.M[i]) != len(plain[i]) {
			return nil, fmt.Sprintf("row %d has %d values, expected %d", i, len(out.M[i]), len(plain[i]))
		}
		for j, v := range plain[i] {
			o := out.M[i][j]
			switch {
			case math.Abs(v) < 1e-9:
				if math.Abs(o) > 1e-6 {
					return nil, fmt.Sprintf("[%d][%d] is %g, the plain activation is zero", i, j, o)
				}
				mk = append(mk, -1)
			case o == 0:
				if p == 0 {
					return nil, fmt.Sprintf("[%d][%d] was dropped at rate 0", i, j)
				}
				mk = append(mk, 0)
			case p < 1 && math.Abs(o-v/(1-p)) <= 1e-9*math.Abs(v/(1-p)):
				mk = append(mk, 1)
			default:
				return nil, fmt.Sprintf("[%d][%d] is %g; the plain activation is %g, divided by the probability of keeping it %g", i, j, o, v, v/(1-p))
			}
		}
	}
	return mk, ""
}

// gradOf is the exact derivative of a dropout pass with a given mask.
func gradOf(l nn.Layer, x, d nn.Matrix, mk []int, p float64) (dw, db, dx [][]float64) {
	w, _ := params(l)
	z := func(r, c int) [][]float64 {
		m := make([][]float64, r)
		for i := range m {
			m[i] = make([]float64, c)
		}
		return m
	}
	dw, db, dx = z(w.Rows, w.Cols), z(1, w.Cols), z(x.Rows, w.Rows)
	for i := 0; i < x.Rows; i++ {
		for j := 0; j < w.Cols; j++ {
			if mk[i*w.Cols+j] != 1 {
				continue
			}
			g := d.M[i][j] / (1 - p)
			db[0][j] += g
			for k := 0; k < w.Rows; k++ {
				dw[k][j] += x.M[i][k] * g
				dx[i][k] += g * w.M[k][j]
			}
		}
	}
	return
}

func near(a nn.Matrix, b [][]float64) string {
	if len(a.M) != len(b) {
		return fmt.Sprintf("%d rows, expected %d", len(a.M), len(b))
	}
	for i := range b {
		if len(a.M[i]) != len(b[i]) {
			return fmt.Sprintf("row %d: %d values, expected %d", i, len(a.M[i]), len(b[i]))
		}
		for j := range b[i] {
			if !(math.Abs(a.M[i][j]-b[i][j]) <= 1e-9*(1+math.Abs(b[i][j]))) {
				return fmt.Sprintf("[%d][%d] is %g, expected %g", i, j, a.M[i][j], b[i][j])
			}
		}
	}
	return ""
}

// masks gathers the choices of many passes for the statistics.
type masks struct {
	p     float64
	m     [][]int // pass, unit
	cols  int
	where string
}

func (r *R) judgeMasks(s masks) {
	kept, known := 0, 0
	var a, b, c, d, e, f []float64
	for t, mk := range s.m {
		for i, v := range mk {
			if v < 0 {
				continue
			}
			known++
			kept += v
			if i+1 < len(mk) && (i+1)%s.cols != 0 && mk[i+1] >= 0 {
				a, b = append(a, float64(v)), append(b, float64(mk[i+1]))
			}
			if i+s.cols < len(mk) && mk[i+s.cols] >= 0 {
				c, d = append(c, float64(v)), append(d, float64(mk[i+s.cols]))
			}
			if t > 0 && len(s.m[t-1]) == len(mk) && s.m[t-1][i] >= 0 {
				e, f = append(e, float64(v)), append(f, float64(s.m[t-1][i]))
			}
		}
	}
	r.stat("choices", known)
	if s.p == 0 || s.p == 1 || known < 20 {
		return
	}
	N, q := float64(known), 1-s.p
	mean, sd := N*q, math.Sqrt(N*q*s.p)
	// exact enough in the tails for a bound this far out once sd is large
	if z := (float64(kept) - mean) / sd; math.Abs(z) > zMax+3/sd+2*math.Exp(-sd/8) {
		r.fail("rate", "%s: %d of %d activations were kept at rate %g, expected %.0f (%.1f standard errors)", s.where, kept, known, s.p, mean, z)
		return
	}
	for _, mk := range s.m {
		// choices at any distance within a pass
		if len(mk) < 200 || s.p < 0.2 || s.p > 0.8 {
			continue
		}
		worst, at := 0.0, 0
		for d := 1; len(mk)-d >= 150; d++ {
			if len(mk) > 8000 && d > 300 && d%s.cols != 0 && d&(d-1) != 0 && d&(d+1) != 0 || len(mk) > 8000 && d > 200*s.cols && d&(d-1) != 0 {
				continue
			}
			sum, n := 0.0, 0
			for i := 0; i+d < len(mk); i++ {
				if mk[i] >= 0 && mk[i+d] >= 0 {
					sum += (float64(mk[i]) - q) * (float64(mk[i+d]) - q)
					n++
				}
			}
			if n < 150 {
				continue
			}
			if z := math.Abs(sum) / (q * s.p) / math.Sqrt(float64(n)); z > worst {
				worst, at = z, d
			}
		}
		if worst > zMax+3.5 {
			r.fail("dependent", "%s: choices depend on those %d places before them in the same pass at rate %g (%d units of %d samples, %.1f standard errors)", s.where, at, s.p, s.cols, len(mk)/s.cols, worst)
			return
		}
	}
	if t := longRun(s, known); t != "" {
		r.fail("dependent", "%s: %s at rate %g", s.where, t, s.p)
		return
	}
	if t := repeats(s); t != "" {
		r.fail("dependent", "%s: %s at rate %g", s.where, t, s.p)
		return
	}
	if s.p >= 0.2 && s.p <= 0.8 && len(s.m) >= 20 && len(s.m) < 1000 {
		// every pair of samples of a pass, over all passes, and every pair of units
		if t := worstPair(s, q, true); t != "" {
			r.fail("dependent", "%s: choices for %s at rate %g", s.where, t, s.p)
			return
		}
		if len(s.m) >= 150 && len(s.m[0]) <= 60 {
			if t := worstPair(s, q, false); t != "" {
				r.fail("dependent", "%s: choices for %s at rate %g", s.where, t, s.p)
				return
			}
		}
	}
	for k, pr := range [][2][]float64{{a, b}, {c, d}, {e, f}} {
		if float64(len(pr[0]))*math.Min(s.p, 1-s.p) < 40 || len(pr[0]) < 150 {
			continue
		}
		// known marginals: products of centred choices
		var sum float64
		for i := range pr[0] {
			sum += (pr[0][i] - q) * (pr[1][i] - q)
		}
		z := sum / (q * s.p) / math.Sqrt(float64(len(pr[0])))
		kurt := (1 - 3*q*s.p) / (q * s.p) // excess pushes the tails out for rare events
		if math.Abs(z) > zMax+kurt*kurt/math.Sqrt(float64(len(pr[0])))+2 {
			r.fail("dependent", "%s: choices depend on %s at rate %g (%d pairs, %.1f standard errors)", s.where, []string{"the neighbouring unit", "the neighbouring sample", "the previous pass"}[k], s.p, len(pr[0]), z)
			return
		}
	}
}

// longRun looks for a stretch of equal choices too long to be an accident.
func longRun(s masks, known int) string {
	q := math.Max(s.p, 1-s.p)
	if q > 0.9 {
		return ""
	}
	limit := int(math.Ceil((32 + math.Log(float64(known))) / -math.Log(q)))
	for t, mk := range s.m {
		run, last := 0, -1
		for i, v := range mk {
			if v < 0 {
				continue
			}
			if v != last {
				run, last = 0, v
			}
			if run++; run >= limit {
				return fmt.Sprintf("%d choices in a row, up to unit %d of pass %d, are the same", run, i, t)
			}
		}
	}
	return ""
}

// repeats looks for the same stretch of choices, or its mirror image, at two
// places: twice in a pass it is no accident at all; in two passes it may be the
// fault of a generator of 2^31 seeds once, never three times.
func repeats(s masks) string {
	const L = 100
	if s.p < 0.3 || s.p > 0.7 {
		return ""
	}
	type at struct{ pass, i int }
	seen := map[uint64]at{}
	pairs, msg := map[[2]int]bool{}, ""
	pow := uint64(1)
	const B = 0x9E3779B97F4A7C15
	for i := 0; i < L; i++ {
		pow *= B
	}
	for t, mk := range s.m {
		var h [2]uint64 // of the choices, of their mirror image
		run := 0
		for i, v := range mk {
			if v < 0 {
				run, h = 0, [2]uint64{}
				continue
			}
			c := [2]uint64{uint64(v) + 0x51ED27, uint64(1-v) + 0x51ED27}
			h[0], h[1] = h[0]*B+c[0], h[1]*B+c[1]
			if run++; run > L {
				o := uint64(mk[i-L])
				h[0] -= pow * (o + 0x51ED27)
				h[1] -= pow * (1 - o + 0x51ED27)
			}
			if run < L {
				continue
			}
			for k := range h {
				if a, ok := seen[h[k]]; ok {
					what := []string{"the same", "the opposite"}[k]
					if a.pass == t {
						return fmt.Sprintf("%d choices from place %d of pass %d are %s as those from place %d of that pass", L, i-L+1, t, what, a.i)
					}
					pairs[[2]int{a.pass, t}] = true
					msg = fmt.Sprintf("%d choices from place %d of pass %d are %s as those from place %d of pass %d", L, i-L+1, t, what, a.i, a.pass)
					if len(pairs) >= 3 || len(s.m) <= 5 {
						return msg
					}
				}
			}
			if run%7 == 0 || len(mk) < 500 { // enough to meet any longer stretch
				seen[h[0]] = at{t, i - L + 1}
			}
		}
	}
	return ""
}

// crossDep compares the choices of two layers in the same passes, unit by unit.
func crossDep(a, b masks) string {
	for _, p := range []float64{a.p, b.p} {
		if p < 0.2 || p > 0.8 {
			return ""
		}
	}
	sum, n := 0.0, 0
	for k := range a.m {
		if k >= len(b.m) {
			break
		}
		for i := 0; i < len(a.m[k])/a.cols; i++ {
			for u := 0; u < a.cols && u < b.cols; u++ {
				if (i+1)*b.cols > len(b.m[k]) {
					break
				}
				if x, y := a.m[k][i*a.cols+u], b.m[k][i*b.cols+u]; x >= 0 && y >= 0 {
					sum += (float64(x) - 1 + a.p) * (float64(y) - 1 + b.p)
					n++
				}
			}
		}
	}
	if n < 150 {
		return ""
	}
	if z := math.Abs(sum) / math.Sqrt(a.p*(1-a.p)*b.p*(1-b.p)*float64(n)); z > zMax+3.5 {
		return fmt.Sprintf("choices depend on each other (%d pairs, %.1f standard errors)", n, z)
	}
	return ""
}

// worstPair looks for two samples (or two units) of a pass whose choices depend
// on each other, taking all passes together.
func worstPair(s masks, q float64, rows bool) string {
	n, w := len(s.m[0]), 1
	if rows {
		n, w = len(s.m[0])/s.cols, s.cols
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			sum, c := 0.0, 0
			for _, mk := range s.m {
				if len(mk) != len(s.m[0]) {
					return ""
				}
				for k := 0; k < w; k++ {
					if a, b := mk[i*w+k], mk[j*w+k]; a >= 0 && b >= 0 {
						sum += (float64(a) - q) * (float64(b) - q)
						c++
					}
				}
			}
			if c < 150 {
				continue
			}
			if z := math.Abs(sum) / (q * (1 - q)) / math.Sqrt(float64(c)); z > zMax+3.5 {
				t := "units"
				if rows {
					t = "samples"
				}
				return fmt.Sprintf("%s %d and %d of a pass depend on each other in %d passes (%.1f standard errors)", t, i, j, len(s.m), z)
			}
		}
	}
	return ""
}

func runR03(r *R) {
	p := r.p
	spec := p.Models[0]
	K := int(p.P["passes"])
	g := simrt.NewRng(simrt.Mix(p.Seed, 31))
	if p.Kind == "layer" || p.Kind == "threads" {
		n := len(spec.Layers)
		ls := make([]*nn.DropoutLayer, n)
		sets := make([]masks, n)
		xs := make([]nn.Matrix, n)
		msgs := make([]string, n)
		for i, s := range spec.Layers {
			nl, err := nn.NewDropoutLayer(s.In, s.Out, float64(s.P))
			if err != nil {
				r.fail("build", "building a dropout layer of rate %g failed: %v", s.P, err)
				return
			}
			ls[i] = &nl
			fillLayer(ls[i], g, "normal")
			if p.P["lit"] == 1 { // no unit without a choice to see
				for u := range ls[i].Biases.M[0] {
					ls[i].Biases.M[0][u] = 30 + math.Abs(ls[i].Biases.M[0][u])
				}
			}
			xs[i], _ = mkData(DataSpec{Rows: p.Data[0].Rows, Seed: p.Data[0].Seed + uint64(i)}, s.In, s.Out, "mse")
			sets[i] = masks{p: float64(s.P), cols: s.Out, where: fmt.Sprintf("dropout layer %dx%d (clock %s, %s)", s.In, s.Out, p.Env.Clock, p.Kind)}
		}
		dseed := g.U64()
		pass := func(i int) {
			rate := float64(spec.Layers[i].P)
			dg := simrt.NewRng(dseed + uint64(i))
			for k := 0; k < K && msgs[i] == ""; k++ {
				plain := plainOf(ls[i], xs[i])
				if k%3 == 1 { // evaluation in between
					o, err := ls[i].ForwardNoDropout(xs[i])
					if err != nil {
						msgs[i] = "evaluation failed: " + err.Error()
						return
					}
					if d := near(o, plain); d != "" {
						msgs[i] = "outside training, " + d
						return
					}
				}
				o, err := ls[i].Forward(xs[i])
				if err != nil {
					msgs[i] = "the training pass failed: " + err.Error()
					return
				}
				mk, m := maskOf(o, plain, rate)
				if m != "" {
					msgs[i] = m
					return
				}
				sets[i].m = append(sets[i].m, mk)
				dv := nn.Matrix{Rows: o.Rows, Cols: o.Cols}
				for a := 0; a < o.Rows; a++ {
					row := make([]float64, o.Cols)
					for b := range row {
						row[b] = norm(dg)
					}
					dv.M = append(dv.M, row)
				}
				dw, db, dx, err := ls[i].Backward(xs[i], cloneM(dv))
				if err != nil {
					msgs[i] = "the backward pass failed: " + err.Error()
					return
				}
				ew, eb, ex := gradOf(ls[i], xs[i], dv, mk, rate)
				for q, t := range []string{near(dw, ew), near(db, eb), near(dx, ex)} {
					if t != "" {
						msgs[i] = fmt.Sprintf("the backward pass is not the derivative of the forward pass: %s %s", []string{"weights", "biases", "inputs"}[q], t)
						return
					}
				}
			}
		}
		var ts []taskFn
		for i := range ls {
			i := i
			var env *simrt.Env
			if p.P["same"] == 1 {
				env = r.sameClock()
			}
			ts = append(ts, taskFn{fmt.Sprintf("thread%d", i), env, func() { pass(i) }})
		}
		r.seg(p.Sched, 0, 0, false, 0, ts...)
		if r.bad() {
			r.stop()
		}
		r.nontriv = true
		for i := range ls {
			r.ev("layer%d rate %g: %v", i, spec.Layers[i].P, sets[i].m)
			r.mark("%v", sets[i].m)
			if msgs[i] != "" {
				r.fail("dropout", "%s, rate %g: %s", sets[i].where, spec.Layers[i].P, msgs[i])
				return
			}
			r.judgeMasks(sets[i])
			if r.bad() {
				return
			}
		}
		// threads must not draw the same choices
		for i := range ls {
			for j := 0; j < i; j++ {
				same, tot := 0, 0
				for k := range sets[i].m {
					if k < len(sets[j].m) {
						for u := range sets[i].m[k] {
							if u < len(sets[j].m[k]) && sets[i].m[k][u] >= 0 && sets[j].m[k][u] >= 0 {
								tot++
								if sets[i].m[k][u] == sets[j].m[k][u] {
									same++
								}
							}
						}
					}
				}
				pi, pj := sets[i].p, sets[j].p
				q := pi*pj + (1-pi)*(1-pj)
				if tot >= 100 && q < 1 {
					if z := (float64(same) - float64(tot)*q) / math.Sqrt(float64(tot)*q*(1-q)); math.Abs(z) > zMax+1 {
						r.fail("copies", "threads %d and %d dropped the same units in %d of %d choices, expected %.0f", j, i, same, tot, float64(tot)*q)
						return
					}
				}
			}
		}
		return
	}
	x, y := r.data(0, 0)
	m := r.mk(0)
	if p.Kind == "model" {
		sets := make([]masks, len(spec.Layers))
		msg := ""
		r.do("passes", func() {
			var evalFirst string
			for k := 0; k < K; k++ {
				out, err := m.Forward(x, true)
				if err != nil || len(out) != len(spec.Layers)+1 {
					msg = fmt.Sprintf("the training pass failed: %v", err)
					return
				}
				for i, s := range spec.Layers {
					if s.K != "dropout" {
						continue
					}
					mk, t := maskOf(out[i+1], plainOf(m.Layers[i], out[i]), float64(s.P))
					if t != "" {
						msg = fmt.Sprintf("training pass %d, layer %d of rate %g: %s", k, i, s.P, t)
						return
					}
					sets[i].m = append(sets[i].m, mk)
				}
				ev, err := m.Forward(x, false)
				if err != nil || len(ev) != len(spec.Layers)+1 {
					msg = fmt.Sprintf("evaluation failed: %v", err)
					return
				}
				t := ""
				for i, s := range spec.Layers {
					t += dumpMat(ev[i+1])
					if s.K != "dropout" {
						continue
					}
					if d := near(ev[i+1], plainOf(m.Layers[i], ev[i])); d != "" {
						msg = fmt.Sprintf("outside training, layer %d of rate %g is not plain: %s", i, s.P, d)
						return
					}
				}
				if k == 0 {
					evalFirst = t
				} else if t != evalFirst {
					msg = "evaluation differs from pass to pass: " + diff(evalFirst, t)
					return
				}
				pr, err := m.Predict(x)
				if err != nil {
					msg = "prediction failed: " + err.Error()
					return
				}
				if d := dumpMat(ev[len(ev)-1]); spec.Acc == 0 && dumpMat(pr) != d {
					msg = "prediction is not the output of an evaluation pass: " + diff(d, dumpMat(pr))
					return
				}
			}
		})
		if r.bad() {
			r.stop()
		}
		r.nontriv = true
		if msg != "" {
			r.fail("dropout", "%s", msg)
			return
		}
		for i, s := range spec.Layers {
			if s.K == "dropout" {
				sets[i].p, sets[i].cols = float64(s.P), s.Out
				sets[i].where = fmt.Sprintf("layer %d of a model (clock %s)", i, p.Env.Clock)
				r.ev("layer%d %v", i, sets[i].m)
				r.mark("%v", sets[i].m)
				r.judgeMasks(sets[i])
				if r.bad() {
					return
				}
				for j := 0; j < i; j++ {
					if t := crossDep(sets[j], sets[i]); t != "" {
						r.fail("dependent", "layers %d and %d of a model (clock %s), rates %g and %g: %s", j, i, p.Env.Clock, sets[j].p, sets[i].p, t)
						return
					}
				}
			}
		}
		return
	}
	// fit: which units does a training step update?
	rate := float64(spec.Layers[0].P)
	set := masks{p: rate, cols: spec.Layers[0].Out, where: "training steps of a model (clock " + p.Env.Clock + ")"}
	orig := dump(m)
	msg := ""
	r.do("fits", func() {
		for k := 0; k < K && msg == ""; k++ {
			c, err := build(spec)
			if err != nil {
				msg = err.Error()
				return
			}
			plain := plainOf(c.Layers[0], x)
			w0, _ := params(c.Layers[0])
			w0c := cloneM(*w0)
			if err := c.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				msg = "training failed: " + err.Error()
				return
			}
			w1, _ := params(c.Layers[0])
			var mk []int
			for j := 0; j < w0c.Cols; j++ {
				moved := w1.M[0][j] != w0c.M[0][j] || w1.M[1][j] != w0c.M[1][j]
				switch {
				case plain[0][j] < 1e-9:
					mk = append(mk, -1)
				case moved:
					mk = append(mk, 1)
					if rate == 1 {
						msg = fmt.Sprintf("unit %d was trained at dropout rate 1", j)
					}
				default:
					mk = append(mk, 0)
					if rate == 0 {
						msg = fmt.Sprintf("unit %d was not trained at dropout rate 0", j)
					}
				}
			}
			set.m = append(set.m, mk)
		}
	})
	if r.bad() {
		r.stop()
	}
	r.nontriv = true
	if msg != "" {
		r.fail("dropout", "%s", msg)
		return
	}
	r.ev("fit %s %v", short(orig), set.m)
	r.mark("%v", set.m)
	r.judgeMasks(set)
}

// ---------------------------------------------------------------- R04

func genR04(p *Plan, g *simrt.Rng, thorough bool) {
	s := genModel(g, genOpt{maxLayers: 3, maxDim: 5})
	p.Models = []ModelSpec{s}
	nd := 1 + g.Intn(2)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(7), Seed: g.U64(), Mode: genMode(g)})
	}
	oddWeights(&p.Models[0], g)
	p.P["fresh"] = int64(g.Intn(2))
	kinds := []string{"predict", "predict", "loss", "accuracy", "forward", "save", "load", "buffer", "layer", "badpredict", "onehot", "refill", "scribble", "tweak"}
	if !s.has("dropout") {
		kinds = append(kinds, "fit", "fit", "fit", "fit", "grad", "rebuild", "badfit")
	}
	n := 2 + g.Intn(5)
	if thorough {
		n += g.Intn(6)
	}
	for i := 0; i < n; i++ {
		st := Step{K: kinds[g.Intn(len(kinds))], D: g.Intn(nd), N: g.Intn(2)}
		switch st.K {
		case "fit":
			st.N, st.B, st.L = 1+g.Intn(3), g.Intn(4), g.Intn(3)
			if g.Intn(3) == 0 {
				st.S = "val"
			}
		case "save", "load":
			st.Path = []string{"a.model", "b.model"}[g.Intn(2)]
		case "refill":
			st.Seed, st.S = g.U64(), genMode(g)
		case "tweak":
			st.Seed = g.U64()
		}
		p.Steps = append(p.Steps, st)
	}
	p.P["otherseed"] = int64(g.U64() >> 1)
	p.P["otherclock"] = int64(g.Intn(len(simrt.ClockModes)))
	p.P["before"] = int64(g.Intn(256)) // what the process did before
	p.P["between"] = int64(g.Intn(2))
	p.P["log"] = int64(g.Intn(3))
}

// pastLife is what a process may have done before.
func (r *R) pastLife(mask int64, salt uint64) {
	g := simrt.NewRng(simrt.Mix(r.p.Seed, 41, salt))
	r.do("past", func() {
		if mask&1 != 0 {
			l, _ := nn.NewLayer(2, 3)
			l.Init()
		}
		if mask&2 != 0 {
			x, y := ids(5, 1, 1)
			nn.ShuffleDataset(x, y)
		}
		if mask&4 != 0 { // another model, with dropout, trained and saved
			s := genModel(g, genOpt{maxLayers: 2, maxDim: 3, kinds: []string{"dropout", "hidden"}})
			if m, err := build(s); err == nil {
				m.InitLayers()
				x, y := mkData(DataSpec{Rows: 4, Seed: salt}, s.in(), s.out(), s.Loss)
				m.Fit(x, y, 2, 2, nn.Matrix{}, nn.Matrix{}, 0)
				nn.SaveFile(m, "/w/other.model")
				nn.LoadFile("/w/other.model")
			}
		}
		if mask&8 != 0 { // the same architecture, other weights
			s := r.p.Models[0]
			s.WSeed++
			if m, err := build(s); err == nil {
				x, y := mkData(DataSpec{Rows: 3, Seed: salt}, s.in(), s.out(), s.Loss)
				m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0)
				m.Predict(x)
			}
		}
		if mask&64 != 0 { // nearly the same model, on nearly the same data
			s := r.p.Models[0]
			if m, err := build(s); err == nil {
				f := 1 + []float64{1e-13, 1e-10, 1e-7, 1e-4}[g.Intn(4)]*(g.Float()-0.5)
				for _, l := range m.Layers {
					w, _ := params(l)
					for i := range w.M {
						for j := range w.M[i] {
							w.M[i][j] *= f
						}
					}
				}
				for _, d := range r.p.Data {
					x, y := mkData(d, s.in(), s.out(), s.Loss)
					m.Predict(x)
					m.CalculateLoss(x, y)
					if mask&1 != 0 {
						m.Fit(x, y, 1, 1+g.Intn(4), nn.Matrix{}, nn.Matrix{}, 0)
					}
				}
			}
		}
		if mask&128 != 0 { // the same layers, other settings
			s := r.p.Models[0]
			o := genModel(g, genOpt{maxLayers: 1, maxDim: 1})
			s.Opt, s.OptV, s.Acc, s.Prec = o.Opt, o.OptV, o.Acc, o.Prec
			if m, err := build(s); err == nil {
				x, y := mkData(r.p.Data[0], s.in(), s.out(), s.Loss)
				m.Fit(x, y, 2, 2, nn.Matrix{}, nn.Matrix{}, 0)
				m.CalculateAccuracy(x, y)
				nn.SaveFile(m, "/w/twin.model")
				nn.LoadFile("/w/twin.model")
			}
		}
		if mask&16 != 0 {
			nn.LoadFile("/w/nothing.model")
			nn.InitLogger(false, false, "")
		}
		if mask&32 != 0 {
			d, _ := nn.NewDropoutLayer(2, 2, 0.5)
			d.Init()
			d.Forward(nn.Matrix{Rows: 1, Cols: 2, M: [][]float64{{1, 2}}})
		}
	})
	if r.bad() {
		r.stop()
	}
}

func runR04(r *R) {
	p := r.p
	exec := func(env simrt.EnvSpec, past bool) (trace []string, files map[string]string) {
		r.freshDisk()
		r.process(env)
		r.setLog(p.P["log"])
		if past {
			r.pastLife(p.P["before"], 1)
		}
		xs, ys := r.sets(0)
		w := r.worker(0, "/w/", xs, ys)
		w.log = true
		w.fresh = past && p.P["fresh"] == 1
		for i, s := range p.Steps {
			if past && p.P["between"] == 1 && i%2 == 1 {
				r.pastLife(p.P["before"], uint64(i)+2)
			}
			r.do(s.K, func() { w.op(s) })
			if r.bad() {
				r.stop()
			}
		}
		files = map[string]string{}
		for _, f := range []string{"/w/a.model", "/w/b.model"} {
			if b, ok := r.fs.Get(f); ok {
				files[f] = canonical(b)
			}
		}
		return append(w.trace, "final "+dump(w.m)), files
	}
	a, fa := exec(p.Env, false)
	b, fb := exec(simrt.EnvSpec{Seed: uint64(p.P["otherseed"]), Clock: simrt.ClockModes[int(p.P["otherclock"])%len(simrt.ClockModes)]}, true)
	r.nontriv = len(p.Steps) > 0
	r.ev("%s", short(strings.Join(a, "\n")))
	r.mark("%s %d", short(strings.Join(a, "\n")), p.P["before"])
	if i, d := compareTraces(a, b); i >= 0 {
		k := "the final model"
		if i < len(p.Steps) {
			k = fmt.Sprintf("step %d (%s)", i, p.Steps[i].K)
		}
		r.fail("random", "%s depends on the clock, random generators, map order or earlier activity: %s", k, d)
		return
	}
	for _, f := range sortedKeys(fa) {
		if fa[f] != fb[f] {
			r.fail("file", "equal models were saved with different content in %s: %s", f, diff(fa[f], fb[f]))
			return
		}
	}
}

// canonical is the content of a stored model with the optimizer pairs sorted.
func canonical(b []byte) string {
	d := &dec{b: b}
	s := d.model()
	if d.err != "" {
		return fmt.Sprintf("%x", b)
	}
	return fdump(s) + fmt.Sprintf("rest %x", b[d.at:])
}

func init() {
	register(&Prop{ID: "R01", Quick: 24000, Thoro: 2000000000, Gen: genR01, Run: runR01,
		Rule: "A run shuffles marked data sets and checks that pairs are permuted and kept, or makes thousands of shuffles (in one process under a seeded clock mode with other random activity in between, one per process, or in several threads under a seeded schedule) and tests permutation frequencies, independence of successive shuffles, positions, fixed points, ascents and copies at error probabilities below 1e-9; non-trivial: something was shuffled."})
	register(&Prop{ID: "R02", Quick: 12000, Thoro: 2000000000, Gen: genR02, Run: runR02,
		Rule: "A run initialises 1-4 layers of random kinds and sizes repeatedly under a seeded clock mode, in turn, as a model or in several threads, over sentinel weights, checks that every weight and nothing else is set, and tests mean, variance, normality, correlations and copies; non-trivial: always."})
	register(&Prop{ID: "R03", Quick: 22000, Thoro: 2000000000, Gen: genR03, Run: runR03,
		Rule: "A run makes training passes of dropout layers of random sizes and rates (also 0 and 1) alone, inside models, in training, or in several threads, checks every value against the plain activation and every gradient against the derivative under the same choices, evaluation passes against the plain activation, and tests rates and independence of the choices; non-trivial: always."})
	register(&Prop{ID: "R04", Quick: 200000, Thoro: 2000000000, Gen: genR04, Run: runR04,
		Rule: "A run executes one list of operations on a model twice, in environments that differ in clock, random generators, map enumeration and in what the process did before and does in between, and compares all results, the final model and the files bit for bit; non-trivial: at least one operation."})
}
