package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simrt"
)

// T07: matrix arithmetic is exact, and pure: threads calculate directly with
// the same matrices, losses and gradients. Each result must be the defined one
// (a small independent reference), bit for bit what the call gives alone,
// fresh (overwriting it changes nothing else), and lasting.

var calcKinds = []string{"new", "slice", "get", "getcol", "getrow", "equals", "add", "sub", "neg", "adds", "muls", "pows", "dot", "dot", "dot",
	"t", "t", "sum0", "sum1", "rowmax", "onehot", "lossf", "lossb", "update", "set", "setrow", "setcol", "chain", "bad"}

func genT07(p *Plan, g *simrt.Rng, thorough bool) {
	dims := []int{1 + g.Intn(4), 1 + g.Intn(4), 1 + g.Intn(7)}
	big := g.Intn(25) == 0
	if g.Intn(8) == 0 {
		dims[g.Intn(3)] = 5 + g.Intn(30)
	}
	if big {
		dims[g.Intn(3)] = manyRows[g.Intn(len(manyRows))]
		if g.Intn(3) == 0 {
			dims[g.Intn(3)] = manyUnits[g.Intn(len(manyUnits))]
		}
	}
	nm := 2 + g.Intn(4)
	for i := 0; i < nm; i++ {
		d := DataSpec{Rows: dims[g.Intn(3)], Seed: g.U64()}
		c := dims[g.Intn(3)]
		if d.Rows*c > 40000 {
			c = 1 + g.Intn(4)
		}
		p.P[fmt.Sprint("c", i)] = int64(c)
		switch g.Intn(12) {
		case 0:
			d.Mode = "special"
		case 1:
			d.Mode = "dup"
		case 2:
			d.Mode = "tiny"
		case 3, 4, 5:
			d.Mode = "prob"
		case 6:
			d.Mode = "hot"
		}
		p.Data = append(p.Data, d)
	}
	n := 1 + g.Intn(4)
	for t := 0; t < n; t++ {
		k := 1 + g.Intn(5)
		if n == 1 {
			k += 3
		}
		if thorough {
			k += g.Intn(6)
		}
		for i := 0; i < k; i++ {
			p.Steps = append(p.Steps, Step{T: t, K: calcKinds[g.Intn(len(calcKinds))], D: g.Intn(nm), M: g.Intn(nm),
				N: g.Intn(1 << 20), L: g.Intn(3) / 2, F: []F64{0, 1, -1, 2, 0.5, 3, -2, 1e-3, F64(norm(g)), F64(fval(g, "special", 1))}[g.Intn(10)]})
		}
	}
	// more than one thread with the same operation on the same operands
	if n > 1 && g.Intn(2) == 0 {
		s := p.Steps[g.Intn(len(p.Steps))]
		for t := 0; t < n; t++ {
			s.T = t
			if g.Intn(3) == 0 {
				s.M = g.Intn(nm)
			}
			p.Steps = append(p.Steps, s)
		}
	}
	p.Sched = randSched(g)
}

// operand makes the i-th matrix of a plan.
func (p *Plan) operand(i int) nn.Matrix {
	d := p.Data[i]
	c := int(p.P[fmt.Sprint("c", i)])
	if c < 1 {
		c = 1
	}
	g := simrt.NewRng(d.Seed)
	m := nn.Matrix{Rows: d.Rows, Cols: c, M: make([][]float64, d.Rows)}
	for r := range m.M {
		m.M[r] = make([]float64, c)
		for j := range m.M[r] {
			switch d.Mode {
			case "prob":
				m.M[r][j] = g.Float()
			case "hot":
			case "special", "tiny":
				m.M[r][j] = fval(g, d.Mode, 1)
			default:
				m.M[r][j] = norm(g)
			}
		}
		if d.Mode == "hot" {
			m.M[r][g.Intn(c)] = 1
		}
		if d.Mode == "dup" && r > 0 && g.Intn(2) == 0 {
			copy(m.M[r], m.M[g.Intn(r)])
		}
	}
	return m
}

func probs(m nn.Matrix) bool {
	for _, r := range m.M {
		for _, v := range r {
			if !(v > 0 && v < 1) {
				return false
			}
		}
	}
	return true
}

// val is what a call of a step gave: matrices, numbers and an error.
type val struct {
	ms   []nn.Matrix
	fs   []float64
	err  error
	skip bool
	own  bool // the first matrix was made from parts of the thread's own
}

func (v val) dump() string {
	var b bytes.Buffer
	b.WriteString(errS(v.err))
	if v.err != nil {
		return b.String()
	}
	for i := range v.ms {
		b.WriteString(" ")
		b.WriteString(dumpMat(v.ms[i]))
	}
	for _, f := range v.fs {
		b.WriteString(" " + bits(f))
	}
	return b.String()
}

// spoil overwrites what a call handed out: it is the caller's.
func (v val) spoil() {
	for _, m := range v.ms {
		for i := range m.M {
			for j := range m.M[i] {
				m.M[i][j] = 1e9
			}
		}
	}
	for i := range v.fs {
		v.fs[i] = -1e9
	}
}

var calcLosses = []string{"mse", "mae", "ce", "bce"}

// calc performs a step with the library.
func calc(s Step, a, b nn.Matrix) (v val) {
	one := func(m nn.Matrix, err error) val { return val{ms: []nn.Matrix{m}, err: err} }
	i, j := s.N%a.Rows, (s.N/7)%a.Cols
	switch s.K {
	case "new":
		return one(nn.NewMatrix(a.Rows, b.Cols))
	case "slice":
		c := cloneM(a)
		return one(nn.NewMatrixFromSlice(c.M))
	case "get":
		f, err := a.Get(i, j)
		return val{fs: []float64{f}, err: err}
	case "getcol":
		c, err := a.GetColumn(j)
		return val{fs: c, err: err}
	case "getrow": // may be a view
		c, err := a.GetRow(i)
		return val{fs: append([]float64(nil), c...), err: err}
	case "equals":
		c := cloneM(a)
		v := val{fs: make([]float64, 3)}
		if a.Equals(b) {
			v.fs[0] = 1
		}
		if a.Equals(c) {
			v.fs[1] = 1
		}
		c.M[i][j] += 1
		if a.Equals(c) {
			v.fs[2] = 1
		}
		return v
	case "add":
		return one(a.Add(b))
	case "sub":
		return one(a.Sub(b))
	case "neg":
		return one(a.Neg(), nil)
	case "adds":
		return one(a.AddScalar(float64(s.F)), nil)
	case "muls":
		return one(a.MulScalar(float64(s.F)), nil)
	case "pows":
		return one(a.PowScalar(float64(s.F)), nil)
	case "dot":
		if a.Cols == b.Rows && a.Rows*a.Cols*b.Cols > 150000 {
			return val{skip: true}
		}
		return one(a.Dot(b))
	case "t":
		return one(a.T(), nil)
	case "sum0":
		return one(a.Sum(0), nil)
	case "sum1":
		return one(a.Sum(1), nil)
	case "rowmax":
		return one(nn.RowMax(a), nil)
	case "onehot":
		n := 1 + s.N%9
		x := nn.Matrix{Rows: a.Rows, Cols: 1}
		for r := range a.M {
			x.M = append(x.M, []float64{float64(sparse(a, r, n))})
		}
		if s.N%40 == 0 {
			n = 0
		}
		return one(nn.SparseToOneHot(x, n))
	case "lossf", "lossb":
		k := calcLosses[s.N%4]
		size := a.Cols
		if s.N%11 == 0 {
			size++
		}
		if a.Cols == b.Cols && a.Cols == size && (k == "ce" || k == "bce") && (!probs(a) || a.Rows != b.Rows) {
			return val{skip: true}
		}
		l, err := newLoss(k, size)
		if err != nil {
			return val{err: err}
		}
		if s.K == "lossb" {
			return one(l.Backward(a, b))
		}
		f, err := l.Forward(a, b)
		return val{fs: []float64{f}, err: err}
	case "update": // its own parameters and optimizer, shared gradients
		if a.Rows != b.Rows || a.Cols != b.Cols {
			return val{skip: true}
		}
		kind, ov := "sgd", []F64{0.1, F64(s.N%3) / 2, F64(s.N/3%3) / 2}
		if s.N%2 == 0 {
			kind, ov = "adam", []F64{0.1, F64(s.N%3) / 2, 1e-7, 0.9, 0.999}
		}
		o, err := newOpt(kind, ov)
		if err != nil {
			return val{err: err}
		}
		w, c := cloneM(a), nn.Matrix{Rows: 1, Cols: a.Cols, M: [][]float64{append([]float64(nil), a.M[0]...)}}
		dc := nn.Matrix{Rows: 1, Cols: b.Cols, M: b.M[:1]}
		for k := 0; k < 2 && err == nil; k++ {
			err = o.Update(&w, &c, b, dc)
		}
		return val{ms: []nn.Matrix{w, c}, err: err}
	case "set", "setrow", "setcol": // on a matrix of its own
		m, err := nn.NewMatrix(a.Rows, a.Cols)
		for r := 0; r < a.Rows && err == nil; r++ {
			switch s.K {
			case "setrow":
				err = m.SetRow(r, append([]float64(nil), a.M[r]...))
			case "set":
				for c := 0; c < a.Cols && err == nil; c++ {
					err = m.Set(r, c, a.M[r][c])
				}
			}
		}
		if s.K == "setcol" {
			for c := 0; c < a.Cols && err == nil; c++ {
				col := make([]float64, a.Rows)
				for r := range col {
					col[r] = a.M[r][c]
				}
				err = m.SetColumn(c, col)
			}
		}
		return one(m, err)
	case "chain": // (a^T a) * f - a^T a
		if a.Rows*a.Cols*a.Cols > 100000 {
			return val{skip: true}
		}
		t := a.T()
		d, err := t.Dot(a)
		if err != nil {
			return val{err: err}
		}
		e := d.MulScalar(float64(s.F))
		f, err := e.Sub(d)
		return val{ms: []nn.Matrix{t, d, e, f}, err: err}
	case "bad":
		switch s.N % 8 {
		case 0:
			return one(nn.NewMatrix(0, a.Cols))
		case 1:
			return one(nn.NewMatrixFromSlice(nil))
		case 2:
			f, err := a.Get(a.Rows, j)
			return val{fs: []float64{f}, err: err}
		case 3:
			f, err := a.Get(i, a.Cols)
			return val{fs: []float64{f}, err: err}
		case 4:
			_, err := a.GetColumn(a.Cols)
			return val{err: err}
		case 5:
			_, err := a.GetRow(a.Rows)
			return val{err: err}
		case 6:
			c := cloneM(a)
			return val{err: c.SetRow(i, make([]float64, a.Cols+1))}
		}
		c := cloneM(a)
		return val{err: c.SetColumn(j, make([]float64, a.Rows+1))}
	}
	panic("harness: calc " + s.K)
}

func sparse(a nn.Matrix, r, n int) int {
	return int(math.Float64bits(a.M[r][0]) >> 7 % uint64(n))
}

// defined is what a step must give: for each number the value and how far
// from it the order of the additions may lead. ok is false where nothing more
// than purity is promised.
func defined(s Step, a, b nn.Matrix) (want [][]float64, tol func(i, j int) float64, fails, ok bool) {
	exact := func(i, j int) float64 { return 0 }
	mk := func(r, c int, f func(i, j int) float64) [][]float64 {
		m := make([][]float64, r)
		for i := range m {
			m[i] = make([]float64, c)
			for j := range m[i] {
				m[i][j] = f(i, j)
			}
		}
		return m
	}
	i, j := s.N%a.Rows, (s.N/7)%a.Cols
	same := a.Rows == b.Rows && a.Cols == b.Cols
	f := float64(s.F)
	at := func(i, j int) float64 { return a.M[i][j] }
	switch s.K {
	case "new":
		return mk(a.Rows, b.Cols, func(i, j int) float64 { return 0 }), exact, false, true
	case "slice", "set", "setrow", "setcol":
		return mk(a.Rows, a.Cols, at), exact, false, true
	case "get":
		return [][]float64{{a.M[i][j]}}, exact, false, true
	case "getcol":
		return mk(1, a.Rows, func(_, r int) float64 { return a.M[r][j] }), exact, false, true
	case "getrow":
		return [][]float64{a.M[i]}, exact, false, true
	case "equals":
		w := []float64{0, 1, 1}
		eq := same
		for r := range a.M {
			for c := range a.M[r] {
				if a.M[r][c] != a.M[r][c] {
					w[1], w[2] = 0, 0
				}
				if same && a.M[r][c] != b.M[r][c] {
					eq = false
				}
			}
		}
		if eq {
			w[0] = 1
		}
		if a.M[i][j]+1 != a.M[i][j] {
			w[2] = 0
		}
		return [][]float64{w}, exact, false, true
	case "add":
		if !same {
			return nil, nil, true, true
		}
		return mk(a.Rows, a.Cols, func(i, j int) float64 { return a.M[i][j] + b.M[i][j] }), exact, false, true
	case "sub":
		if !same {
			return nil, nil, true, true
		}
		return mk(a.Rows, a.Cols, func(i, j int) float64 { return a.M[i][j] - b.M[i][j] }), exact, false, true
	case "neg":
		return mk(a.Rows, a.Cols, func(i, j int) float64 { return -a.M[i][j] }), exact, false, true
	case "adds":
		return mk(a.Rows, a.Cols, func(i, j int) float64 { return a.M[i][j] + f }), exact, false, true
	case "muls":
		return mk(a.Rows, a.Cols, func(i, j int) float64 { return a.M[i][j] * f }), exact, false, true
	case "pows":
		w := mk(a.Rows, a.Cols, func(i, j int) float64 { return math.Pow(a.M[i][j], f) })
		return w, func(i, j int) float64 { return 1e-12 * math.Abs(w[i][j]) }, false, true
	case "dot":
		if a.Cols != b.Rows {
			return nil, nil, true, true
		}
		abs := mk(a.Rows, b.Cols, func(i, j int) float64 { return 0 })
		w := mk(a.Rows, b.Cols, func(i, j int) float64 {
			sum := 0.0
			for n := a.Cols - 1; n >= 0; n-- { // another order than the library's
				sum += a.M[i][n] * b.M[n][j]
				abs[i][j] += math.Abs(a.M[i][n] * b.M[n][j])
			}
			return sum
		})
		return w, func(i, j int) float64 { return 1e-9 * abs[i][j] }, false, true
	case "t":
		return mk(a.Cols, a.Rows, func(i, j int) float64 { return a.M[j][i] }), exact, false, true
	case "sum0", "sum1":
		n, m := a.Cols, a.Rows
		if s.K == "sum1" {
			n, m = m, n
		}
		abs := make([]float64, n)
		w := mk(1, n, func(_, k int) float64 {
			sum := 0.0
			for q := m - 1; q >= 0; q-- {
				x := 0.0
				if s.K == "sum0" {
					x = a.M[q][k]
				} else {
					x = a.M[k][q]
				}
				sum += x
				abs[k] += math.Abs(x)
			}
			return sum
		})
		return w, func(_, k int) float64 { return 1e-9 * abs[k] }, false, true
	case "rowmax":
		return mk(a.Rows, 1, func(i, _ int) float64 {
			k := 0
			for c, x := range a.M[i] {
				if x > a.M[i][k] || a.M[i][k] != a.M[i][k] {
					k = c
				}
			}
			if !(a.M[i][k] > 0) { // not promised for rows without a positive number
				return math.NaN()
			}
			return float64(k)
		}), exact, false, true
	case "onehot":
		if s.N%40 == 0 {
			return nil, nil, true, true
		}
		n := 1 + s.N%9
		return mk(a.Rows, n, func(i, j int) float64 {
			if j == sparse(a, i, n) {
				return 1
			}
			return 0
		}), exact, false, true
	case "lossf", "lossb":
		bad := a.Cols != b.Cols || s.N%11 == 0
		if k := calcLosses[s.N%4]; (k == "mse" || k == "mae") && !same {
			bad = true
		}
		return nil, nil, bad, bad
	case "bad":
		return nil, nil, true, true
	}
	return nil, nil, false, false
}

// undefinedRow: rowmax of a row with no positive number or with NaN is left open.
func undefinedRow(row []float64) bool {
	pos := false
	for _, x := range row {
		if x != x {
			return true
		}
		pos = pos || x > 0
	}
	return !pos
}

// judge compares what a call gave with what it must give.
func judge(s Step, a, b nn.Matrix, v val) string {
	want, tol, fails, ok := defined(s, a, b)
	if !ok || v.skip {
		return ""
	}
	if fails {
		if v.err == nil {
			return "must fail, and does not"
		}
		return ""
	}
	if v.err != nil {
		return "fails: " + v.err.Error()
	}
	got := [][]float64{v.fs}
	if len(v.ms) > 0 {
		m := v.ms[0]
		got = m.M
		if m.Rows != len(want) || m.Cols != len(want[0]) || len(m.M) != m.Rows {
			return fmt.Sprintf("gives a matrix of %d x %d (%d rows stored), not %d x %d", m.Rows, m.Cols, len(m.M), len(want), len(want[0]))
		}
	}
	for i := range want {
		if len(got[i]) != len(want[i]) {
			return fmt.Sprintf("row %d has %d numbers, not %d", i, len(got[i]), len(want[i]))
		}
		if s.K == "rowmax" && undefinedRow(a.M[i]) {
			continue
		}
		for j, w := range want[i] {
			g, t := got[i][j], tol(i, j)
			if t != t && g != g { // 0 * Inf or a NaN among the terms
				continue
			}
			if math.IsInf(t, 0) || math.Abs(w) > 1e290 { // overflow depends on the order
				continue
			}
			if g == w || g != g && w != w || math.Abs(g-w) <= t+1e-300*sign(t) {
				continue
			}
			return fmt.Sprintf("number %d,%d is %v, not %v", i, j, g, w)
		}
	}
	return ""
}

func sign(t float64) float64 {
	if t > 0 {
		return 1
	}
	return 0
}

func runT07(r *R) {
	p := r.p
	nm := len(p.Data)
	if nm == 0 {
		return
	}
	var ms, alone []nn.Matrix
	for i := 0; i < nm; i++ {
		ms = append(ms, p.operand(i))
		alone = append(alone, p.operand(i))
	}
	ab := func(s Step, ms []nn.Matrix) (a, b nn.Matrix) { return ms[s.D%nm], ms[s.M%nm] }
	// alone, forwards and once more backwards: the second time every call has
	// a different past
	want := make([]string, len(p.Steps))
	for round := 0; round < 2; round++ {
		for k := range p.Steps {
			i := k
			if round == 1 {
				i = len(p.Steps) - 1 - k
			}
			s := p.Steps[i]
			a, b := ab(s, alone)
			r.do("alone "+s.K, func() {
				v := calc(s, a, b)
				t := v.dump()
				if w := judge(s, a, b, v); w != "" {
					r.fail("value", "step %d, %s (%d x %d, %d x %d, %v) %s", i, s.K, a.Rows, a.Cols, b.Rows, b.Cols, float64(s.F), w)
				} else if round == 1 && t != want[i] {
					r.fail("past", "step %d, %s gave something else the second time: %s", i, s.K, diff(want[i], t))
				}
				want[i] = t
				if round == 0 {
					v.spoil()
				}
			})
			if r.bad() {
				r.stop()
			}
		}
	}
	for i := range ms {
		if dumpMat(ms[i]) != dumpMat(alone[i]) {
			r.fail("operands", "calculating alone changed matrix %d: %s", i, diff(dumpMat(ms[i]), dumpMat(alone[i])))
			return
		}
	}
	n := 0
	for _, s := range p.Steps {
		if s.T >= n {
			n = s.T + 1
		}
	}
	type handed struct {
		i    int
		t    string
		mine string
		v    val
	}
	hand := make([][]handed, n)
	var ts []taskFn
	for t := 0; t < n; t++ {
		t := t
		env := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, 800+uint64(t)), Clock: p.Env.Clock})
		ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), env, func() {
			for i, s := range p.Steps {
				if s.T != t {
					continue
				}
				a, b := ab(s, ms)
				v := calc(s, a, b)
				h := handed{i: i, t: v.dump(), v: v}
				if s.L == 1 {
					v.spoil()
				}
				h.mine = v.dump()
				hand[t] = append(hand[t], h)
			}
		}})
	}
	r.seg(p.Sched, 0, 0, false, 0, ts...)
	if r.bad() {
		r.stop()
	}
	r.nontriv = r.last.Switches >= 2 || n == 1 && len(p.Steps) > 1
	var kinds []string
	for t := range hand {
		for _, h := range hand[t] {
			s := p.Steps[h.i]
			kinds = append(kinds, s.K)
			r.ev("thread%d step %d %s %s", t, h.i, s.K, short(h.t))
			if h.t != want[h.i] {
				r.fail("result", "thread %d, step %d (%s) gave something else than alone (alone / now): %s", t, h.i, s.K, diff(want[h.i], h.t))
				return
			}
			if now := h.v.dump(); now != h.mine {
				r.fail("later", "the result of thread %d, step %d (%s) changed after it was handed out: %s", t, h.i, s.K, diff(h.mine, now))
				return
			}
		}
	}
	for i := range ms {
		if dumpMat(ms[i]) != dumpMat(alone[i]) {
			r.fail("operands", "calculating changed matrix %d: %s", i, diff(dumpMat(alone[i]), dumpMat(ms[i])))
			return
		}
	}
	r.mark("%s", strings.Join(kinds, " "))
}

func init() {
	register(&Prop{ID: "T07", Quick: 250000, Thoro: 2000000000, Gen: genT07, Run: runT07,
		Rule: "A run makes 2-5 matrices (ordinary, probabilities, one-hot, repeated, denormal and special values; now and then hundreds of rows or columns) and lets 1-4 threads create, read, compare, add, scale, multiply, transpose and sum them, take losses of them and use them as gradients, under a seeded schedule; each result is compared with an independent reference and, bit for bit, with the same call alone, some are overwritten by their owner, and at the end all results and operands are compared again; non-trivial: two switches between threads, or several calls of one."})
}
