package main

import (
	"bytes"
	"fmt"

	"github.com/cubeflix/nn"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// freshDisk gives the run an empty disk (the fired faults stay in the books).
func (r *R) freshDisk() {
	for k, n := range r.fs.Fired {
		r.fired[k] += n
	}
	r.fs = simfs.New()
	simfs.Cur = r.fs
}

// wk is one user's thread of work on one model: a list of API calls whose
// results are recorded, to be compared with other executions of the same list.
type wk struct {
	spec  ModelSpec
	m     *nn.Model
	dir   string
	xs    []nn.Matrix // data sets, possibly shared with other threads
	ys    []nn.Matrix
	vx    nn.Matrix
	vy    nn.Matrix
	trace []string
	log   bool // steps may ask for logging
	fresh bool // evaluate on a newly built model of the same parameters
	last  nn.Matrix
}

// eval is what evaluations are done with: the model and data as they are, or
// equal ones that nothing has happened to yet.
func (w *wk) eval(x, y nn.Matrix) (*nn.Model, nn.Matrix, nn.Matrix) {
	if w.fresh {
		if m, err := build(w.spec); err == nil {
			for i := range m.Layers {
				copyParams(m.Layers[i], w.m.Layers[i])
			}
			return m, cloneM(x), cloneM(y)
		}
	}
	return w.m, x, y
}

func (w *wk) note(f string, a ...any) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

// op performs one step; called inside a simulated task.
func (w *wk) op(s Step) {
	x, y := w.xs[s.D%len(w.xs)], w.ys[s.D%len(w.ys)]
	switch s.K {
	case "fit":
		vx, vy := nn.Matrix{}, nn.Matrix{}
		if s.S == "val" {
			vx, vy = w.vx, w.vy
		}
		l := 0
		if w.log {
			l = s.L
		}
		err := w.m.Fit(x, y, s.N, s.B, vx, vy, l)
		w.note("fit(%d epochs, batch %d, log %d) %s %s", s.N, s.B, l, errS(err), dumpParams(w.m))
	case "predict":
		m, x, _ := w.eval(x, y)
		p, err := m.Predict(x)
		w.last = p
		w.note("predict %s %s", errS(err), dumpMat(p))
	case "loss":
		m, x, y := w.eval(x, y)
		v, err := m.CalculateLoss(x, y)
		w.note("loss %s %s", errS(err), bits(v))
	case "accuracy":
		m, x, y := w.eval(x, y)
		v, err := m.CalculateAccuracy(x, y)
		w.note("accuracy %s %s", errS(err), bits(v))
	case "forward":
		m, x, _ := w.eval(x, y)
		o, err := m.Forward(x, false)
		t := ""
		for i := range o {
			t += dumpMat(o[i])
		}
		w.note("forward %s %s", errS(err), t)
	case "grad":
		o, err := w.m.Forward(x, true)
		if err != nil {
			w.note("grad forward %s", errS(err))
			return
		}
		gs, err := w.m.Backward(o, y)
		t := ""
		for i := range gs {
			t += dumpMat(gs[i].DWeights) + dumpMat(gs[i].DBiases)
		}
		w.note("grad %s %s", errS(err), t)
	case "save":
		err := nn.SaveFile(w.m, w.dir+s.Path)
		w.note("save %s", errS(err))
	case "load":
		m, err := nn.LoadFile(w.dir + s.Path)
		if err == nil {
			w.m = &m
			w.note("load ok %s", dump(w.m))
		} else {
			w.note("load error")
		}
	case "common":
		m, err := nn.LoadFile("/w/common.model")
		if err == nil {
			w.m = &m
			w.note("common ok %s", dump(w.m))
		} else {
			w.note("common error")
		}
	case "buffer":
		var b bytes.Buffer
		d := nn.NewSavedModelData(*w.m)
		if err := d.Serialize(&b); err != nil {
			w.note("serialize error")
			return
		}
		n := b.Len()
		m, err := nn.LoadModel(&b)
		if err == nil {
			w.note("buffer %d ok %s", n, dump(&m))
			if s.N > 0 {
				w.m = &m
			}
		} else {
			w.note("buffer error")
		}
	case "rebuild":
		m, err := build(w.spec)
		if err == nil {
			w.m = m
		}
		w.note("build %s", errS(err))
	case "badpredict": // wrong number of columns
		_, err := w.m.Predict(widen(x))
		w.note("badpredict %s", errS(err))
	case "badloss":
		_, err := w.m.CalculateLoss(widen(x), y)
		w.note("badloss %s", errS(err))
	case "badacc":
		_, err := w.m.CalculateAccuracy(widen(x), y)
		w.note("badacc %s", errS(err))
	case "badfit":
		err := w.m.Fit(widen(x), y, 1, s.B, nn.Matrix{}, nn.Matrix{}, 0)
		w.note("badfit %s %s", errS(err), dumpParams(w.m))
	case "badval": // the validation data does not fit
		err := w.m.Fit(x, y, s.N, s.B, widen(w.vx), w.vy, s.L)
		w.note("badval %s %s", errS(err), dumpParams(w.m))
	case "badlast": // targets of the wrong shape
		err := w.m.Fit(x, widen(y), s.N, s.B, nn.Matrix{}, nn.Matrix{}, s.L)
		w.note("badlast %s %s", errS(err), dumpParams(w.m))
	case "loadver":
		m, err := nn.LoadFile(w.dir + s.Path)
		w.note("loadver %s", errS(err))
		if err == nil {
			w.note("loaded %s", dump(&m))
			if s.N > 0 {
				w.m = &m
			}
		}
	case "badload":
		_, err := nn.LoadFile(w.dir + "absent.model")
		w.note("badload %s", errS(err))
	case "badsave":
		err := nn.SaveFile(w.m, w.dir+"nodir/x.model")
		w.note("badsave %s", errS(err))
	case "layer":
		for _, l := range w.m.Layers {
			var b bytes.Buffer
			d := nn.NewSavedLayerData(l)
			err := d.SerializeLayer(&b)
			w.note("layer %s %x", errS(err), b.Bytes())
		}
	case "refill": // the caller puts other values into its matrices
		nx, ny := mkData(DataSpec{Rows: x.Rows, Seed: s.Seed, Mode: s.S}, w.spec.in(), w.spec.out(), w.spec.Loss)
		for i := range x.M {
			copy(x.M[i], nx.M[i])
			copy(y.M[i], ny.M[i])
		}
		w.note("refill %s", dumpMat(x))
	case "scribble": // the caller uses the last result as it likes
		for i := range w.last.M {
			for j := range w.last.M[i] {
				w.last.M[i][j] = 1e9
			}
		}
		w.note("scribble")
	case "tweak": // the caller changes a parameter
		l := w.m.Layers[s.N%len(w.m.Layers)]
		fillLayer(l, simrt.NewRng(s.Seed), "normal")
		w.note("tweak")
	case "onehot":
		in := nn.Matrix{Rows: 2, Cols: 1, M: [][]float64{{0}, {1}}}
		o, err := nn.SparseToOneHot(in, 3)
		w.note("onehot %s %s", errS(err), dumpMat(o))
	default:
		panic("harness: step " + s.K)
	}
}

// widen is a matrix of one more column than its model takes.
func widen(x nn.Matrix) nn.Matrix {
	c := cloneM(x)
	c.Cols++
	for i := range c.M {
		c.M[i] = append(c.M[i], 1)
	}
	return c
}

// worker makes the worker of a model spec over data sets fitting it.
func (r *R) worker(mi int, dir string, xs, ys []nn.Matrix) *wk {
	s := r.p.Models[mi]
	w := &wk{spec: s, m: r.mk(mi), dir: dir, xs: xs, ys: ys}
	w.vx, w.vy = mkData(DataSpec{Rows: 3, Seed: s.WSeed ^ 99}, s.in(), s.out(), s.Loss)
	return w
}

// sets makes the data sets of the plan for a model.
func (r *R) sets(mi int) (xs, ys []nn.Matrix) {
	s := r.p.Models[mi]
	for _, d := range r.p.Data {
		x, y := mkData(d, s.in(), s.out(), s.Loss)
		xs, ys = append(xs, x), append(ys, y)
	}
	return
}

func dumpSets(ms ...[]nn.Matrix) string {
	t := ""
	for _, l := range ms {
		for i := range l {
			t += dumpMat(l[i])
		}
	}
	return t
}

func compareTraces(a, b []string) (int, string) {
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y string
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			return i, diff(x, y)
		}
	}
	return -1, ""
}

// privateDraws says whether the dropout choices of a task depend on that
// task's environment alone. If the code draws them from a generator that all
// threads of a process share, "the same random draws" cannot be arranged by
// the simulator, and models with dropout are left out of such comparisons.
var privKnown, privIs bool

func privateDraws() bool {
	if privKnown {
		return privIs
	}
	privKnown = true
	spec := ModelSpec{Layers: []LayerSpec{{K: "dropout", In: 2, Out: 40, P: 0.5}}, Loss: "mse", Opt: "sgd", OptV: []F64{0.1, 0, 0}, WSeed: 7, WMode: "big"}
	one := func(other bool) string {
		r := &R{p: &Plan{Env: simrt.EnvSpec{Seed: 3, Clock: simrt.ClockNormal}}, fired: map[string]int{}, stats: map[string]int{}}
		r.fs = simfs.New()
		simfs.Cur = r.fs
		simrt.ResetTime()
		simrt.AllocReset(0)
		r.process(r.p.Env)
		m, err := build(spec)
		if err != nil {
			return "?"
		}
		x := nn.Matrix{Rows: 2, Cols: 2, M: [][]float64{{1, 2}, {3, 4}}}
		t := ""
		ts := []taskFn{{"a", simrt.NewEnv(simrt.EnvSpec{Seed: 11}), func() {
			o, _ := m.Forward(x, true)
			t = dumpMat(o[len(o)-1])
		}}}
		if other {
			m2, _ := build(spec)
			ts = append([]taskFn{{"b", simrt.NewEnv(simrt.EnvSpec{Seed: 12}), func() {
				for i := 0; i < 3; i++ {
					m2.Forward(x, true)
				}
			}}}, ts...)
		}
		r.seg(simrt.Sched{}, 0, 0, false, 0, ts...)
		return t
	}
	func() {
		defer func() {
			if recover() != nil {
				privIs = false
			}
		}()
		privIs = one(false) == one(true)
	}()
	return privIs
}

func randSched(g *simrt.Rng) simrt.Sched {
	return simrt.Sched{Mode: "random", Seed: g.U64(), Mean: []int64{2, 5, 15, 50, 200, 1000}[g.Intn(6)]}
}
