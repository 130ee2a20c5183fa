package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// T06: what a model does depends on its layers, its current parameters and
// the settings of its last Finalize (for training: and the trainings since),
// not on anything else that happened to it, its layers, its loss or its
// optimizer before. Every finalized model has a twin that was built new at
// that moment and has only seen the successful trainings since.

// fin are the settings of a Finalize.
type fin struct {
	loss string
	opt  string
	optV []F64
	acc  int
	prec float64
}

// hist is a model with a history.
type hist struct {
	m      *nn.Model
	specs  []LayerSpec
	ids    []int // which layer object each place has
	set    fin
	twin   *nn.Model // nil: not finalized with its present layers
	trains int
	past   int // things that happened before or between, which may leave no trace
}

func (h *hist) in() int { return h.specs[0].In }
func (h *hist) out() int {
	if len(h.specs) == 0 {
		return 0
	}
	return h.specs[len(h.specs)-1].Out
}

func genT06(p *Plan, g *simrt.Rng, thorough bool) {
	n := 1 + g.Intn(3)
	p.P["log"] = int64(g.Intn(3))
	p.P["nm"] = int64(n)
	p.P["opts"] = int64(g.Intn(3)) // new optimizer objects, one of a kind for all models, one loss of a kind too
	if g.Intn(20) == 0 {
		p.P["deep"] = 12
	}
	k := 8 + g.Intn(14)
	if thorough {
		k += g.Intn(30)
	}
	kinds := []string{"add", "add", "add", "badadd", "share", "fin", "fin", "fin", "badfin", "badprec",
		"fit", "fit", "fit", "fit", "badfit", "badlast", "badval", "observe", "observe", "forward", "grad", "save", "load", "buffer",
		"init", "tweak", "assign", "new", "other", "bigfit", "badpredict", "badgrad", "badgrad"}
	for i := 0; i < n; i++ {
		for j := 1 + g.Intn(3); j > 0; j-- {
			p.Steps = append(p.Steps, Step{T: i, K: "add", Seed: g.U64()})
		}
		if g.Intn(4) > 0 {
			p.Steps = append(p.Steps, Step{T: i, K: "fin", Seed: g.U64()})
		}
	}
	for i := 0; i < k; i++ {
		s := Step{T: g.Intn(n), K: kinds[g.Intn(len(kinds))], Seed: g.U64(), D: 1 + g.Intn(6), N: 1 + g.Intn(3), B: g.Intn(4), L: g.Intn(2)}
		switch s.K {
		case "fit":
			if g.Intn(3) == 0 {
				s.S = "val"
			}
			if g.Intn(60) == 0 {
				s.N = 20 + g.Intn(60)
			}
		case "bigfit":
			s.K, s.D, s.N, s.B = "fit", 30+g.Intn(200), 1, []int{0, 0, 16, 33, 64}[g.Intn(5)]
		case "save":
			s.Path = []string{"a.model", "b.model"}[g.Intn(2)]
			if g.Intn(3) == 0 {
				s.Faults = []simfs.Fault{{Op: g.Intn(12), Kind: errFaults[g.Intn(len(errFaults))], Arg: g.Intn(40)}}
				if g.Intn(8) == 0 {
					s.Faults[0].Stay = simfs.Stays(s.Faults[0].Kind)
				}
			}
		case "load":
			s.Path = []string{"a.model", "b.model"}[g.Intn(2)]
		}
		p.Steps = append(p.Steps, s)
	}
	for i := 0; i < n; i++ { // in the end everyone is finalized and trains
		if g.Intn(3) > 0 {
			p.Steps = append(p.Steps, Step{T: i, K: "fin", Seed: g.U64()})
		}
		p.Steps = append(p.Steps, Step{T: i, K: "fit", Seed: g.U64(), D: 1 + g.Intn(6), N: 1 + g.Intn(4), B: g.Intn(4)})
	}
}

// genFin makes settings for a model of given output size.
func genFin(g *simrt.Rng) fin {
	s := genModel(g, genOpt{maxLayers: 1, maxDim: 2})
	return fin{s.Loss, s.Opt, s.OptV, s.Acc, float64(s.Prec)}
}

type pastRun struct {
	r      *R
	ms     []*hist
	files  map[string]*hist // what is stored under a name (specs and settings)
	next   int
	opts   map[string]nn.Optimizer
	losses map[string]nn.Loss
	drop   bool
	deep   int
	n      int
}

// call runs fn with random draws that depend only on the step.
func (q *pastRun) call(name string, sub uint64, fn func()) {
	e := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(q.r.p.Seed, 1200, uint64(q.n), sub), Clock: q.r.p.Env.Clock})
	q.r.seg(simrt.Sched{}, 0, 0, false, 0, taskFn{name, e, fn})
	if q.r.bad() {
		q.r.stop()
	}
}

func (q *pastRun) fail(class, f string, a ...any) {
	q.r.fail(class, f, a...)
	q.r.stop()
}

// layer makes a layer that takes in inputs.
func (q *pastRun) layer(g *simrt.Rng, in int) (LayerSpec, nn.Layer) {
	k := layerKinds[g.Intn(len(layerKinds))]
	if k == "dropout" && !q.drop {
		k = "linear"
	}
	s := LayerSpec{K: k, In: in, Out: 1 + g.Intn(4)}
	if g.Intn(3) == 0 {
		s.Out = in
	}
	switch k {
	case "leaky":
		s.P = pickF(g, 0.01, 0.3, 1, 0)
	case "dropout":
		s.P = pickF(g, 0, 0.25, 0.5, 0.75)
	}
	l, err := newLayer(s)
	if err != nil {
		q.fail("layer", "making a valid layer failed: %v", err)
	}
	fillLayer(l, g, "normal")
	return s, l
}

// settle gives a newly built model the present layers and settings of another.
func (q *pastRun) settle(h *hist) *nn.Model {
	m := nn.NewModel()
	made := map[int]nn.Layer{}
	var err error
	q.call("twin", 1, func() {
		for i, s := range h.specs {
			l := made[h.ids[i]]
			if l == nil {
				if l, err = newLayer(s); err != nil {
					return
				}
				made[h.ids[i]] = l
				copyParams(l, h.m.Layers[i])
			}
			if err = m.AddLayer(l); err != nil {
				return
			}
		}
		var lo nn.Loss
		var op nn.Optimizer
		if lo, err = newLoss(h.set.loss, h.out()); err != nil {
			return
		}
		if op, err = newOpt(h.set.opt, h.set.optV); err != nil {
			return
		}
		err = m.Finalize(lo, op, nn.AccuracyType(h.set.acc), h.set.prec)
	})
	if err != nil {
		q.fail("build", "building a valid model failed: %v", err)
	}
	return &m
}

// same compares a model with its twin, whose parameters are made the same.
func (q *pastRun) same(h *hist, when string, g *simrt.Rng) {
	if h.twin == nil {
		return
	}
	for i := range h.twin.Layers {
		copyParams(h.twin.Layers[i], h.m.Layers[i])
	}
	if a, b := seen(h.twin), seen(h.m); a != b {
		q.fail("settings", "%s: the model differs from a newly built one of the same layers, parameters and settings (new / this): %s", when, diff(a, b))
	}
	x, y := mkData(DataSpec{Rows: 1 + g.Intn(5), Seed: g.U64()}, h.in(), h.out(), h.set.loss)
	var a, b string
	q.call("observe twin", 2, func() { a = observe(h.twin, cloneM(x), cloneM(y)) })
	q.call("observe", 2, func() { b = observe(h.m, x, y) })
	if a != b {
		q.fail("results", "%s: the model evaluates differently from a newly built one of the same layers, parameters and settings (new / this): %s", when, diff(a, b))
	}
}

func (q *pastRun) step(i int, s Step) {
	h := q.ms[s.T%len(q.ms)]
	g := simrt.NewRng(s.Seed)
	when := fmt.Sprintf("step %d (%s of model %d)", i, s.K, s.T%len(q.ms))
	r := q.r
	refused := func(what string, err error, before string) {
		h.past++
		if err == nil {
			q.fail("accepted", "%s: %s was accepted", when, what)
		}
		if d := seen(h.m); d != before {
			q.fail("refused", "%s: %s was refused, but changed the model: %s", when, what, diff(before, d))
		}
	}
	switch s.K {
	case "new":
		m := nn.NewModel()
		*h = hist{m: &m}
		sp, l := q.layer(g, 1+g.Intn(4))
		q.add(h, sp, l, q.next, when)
		q.next++
	case "add":
		in := h.out()
		if in == 0 {
			in = 1 + g.Intn(4)
		}
		if len(h.specs) < q.deep {
			sp, l := q.layer(g, in)
			q.add(h, sp, l, q.next, when)
			q.next++
		}
	case "share": // a layer that is, or was, also part of another model (or this one)
		o := q.ms[g.Intn(len(q.ms))]
		for k := range o.specs {
			if len(h.specs) < q.deep && (h.out() == 0 || o.specs[k].In == h.out()) {
				q.add(h, o.specs[k], o.m.Layers[k], o.ids[k], when)
				o.past++
				h.past++
				break
			}
		}
	case "badadd":
		if h.out() > 0 {
			before := seen(h.m)
			_, l := q.layer(g, h.out()+1+g.Intn(2))
			var err error
			q.call("badadd", 3, func() { err = h.m.AddLayer(l) })
			refused("a layer of another input size", err, before)
			q.same(h, when, g)
		}
	case "fin", "badfin", "badprec":
		if h.out() == 0 {
			return
		}
		f := genFin(g)
		if h.set.loss != "" && g.Intn(3) == 0 { // other settings of the same kinds, or the same again
			o := f
			f = h.set
			if g.Intn(2) == 0 {
				f.acc, f.prec = o.acc, o.prec
			}
		}
		size := h.out()
		if s.K == "badfin" {
			size++
		}
		var lo nn.Loss
		var op nn.Optimizer
		var err error
		q.call("settings", 4, func() {
			if lo, err = q.loss(f.loss, size); err == nil {
				op, err = q.optimizer(f)
			}
		})
		if err != nil {
			q.fail("build", "%s: making a valid loss and optimizer failed: %v", when, err)
		}
		prec := f.prec
		if s.K == "badprec" {
			prec = -0.25
		}
		before := seen(h.m)
		q.call("finalize", 4, func() { err = h.m.Finalize(lo, op, nn.AccuracyType(f.acc), prec) })
		switch s.K {
		case "badfin":
			refused("a loss of another size", err, before)
			q.same(h, when, g)
			return
		case "badprec":
			refused("a negative precision", err, before)
			q.same(h, when, g)
			return
		}
		if err != nil {
			q.fail("finalize", "%s: finalizing a valid model failed: %v", when, err)
		}
		if h.trains > 0 {
			h.past++
		}
		h.set, h.trains = f, 0
		h.twin = q.settle(h)
		q.same(h, when, g)
	case "fit":
		if h.twin == nil {
			return
		}
		q.same(h, "before "+when, g)
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		vx, vy, l := nn.Matrix{}, nn.Matrix{}, 0
		if s.S == "val" {
			vx, vy = mkData(DataSpec{Rows: 2, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
			l = s.L
		}
		var e1, e2 error
		q.call("fit twin", 5, func() { e1 = h.twin.Fit(cloneM(x), cloneM(y), s.N, s.B, nn.Matrix{}, nn.Matrix{}, 0) })
		q.call("fit", 5, func() { e2 = h.m.Fit(x, y, s.N, s.B, vx, vy, l) })
		if e1 != nil || e2 != nil {
			q.fail("train", "%s: training a valid model failed: new: %v, this: %v", when, e1, e2)
		}
		if a, b := dumpParams(h.twin), dumpParams(h.m); a != b {
			q.fail("training", "%s: the model trains differently from one built new at its last Finalize, with the same layers, parameters, settings and trainings since (new / this): %s", when, diff(a, b))
		}
		q.same(h, "after "+when, g)
		h.trains++
		r.stat("trainings", 1)
		if h.past > 0 {
			r.nontriv = true
			r.stat("trainings_with_a_past", 1)
		}
	case "badval": // fails at the first report, after one epoch of training
		if h.twin == nil {
			return
		}
		q.same(h, "before "+when, g)
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		vx, vy := mkData(DataSpec{Rows: 2, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		q.call("badval", 5, func() { h.m.Fit(x, y, s.N, s.B, widen(vx), vy, 1) })
		h.past++
		before := dumpParams(h.twin)
		q.call("fit twin", 5, func() { h.twin.Fit(cloneM(x), cloneM(y), 1, s.B, nn.Matrix{}, nn.Matrix{}, 0) })
		switch one, got := dumpParams(h.twin), dumpParams(h.m); {
		case got == before: // refused at once, or an epoch that changes nothing: there is no telling
			h.twin = nil
		case got != one:
			q.fail("training", "%s: after a training that failed at its first report the parameters are neither the old ones nor those after one epoch (one epoch / this): %s", when, diff(one, got))
		}
		q.same(h, when, g)
	case "badfit", "badlast", "badpredict":
		if h.twin == nil {
			return
		}
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		switch s.K {
		case "badfit", "badpredict":
			x = widen(x)
		case "badlast":
			y = widen(y)
		}
		q.call(s.K, 6, func() {
			if s.K == "badpredict" {
				h.m.Predict(x)
			} else {
				h.m.Fit(x, y, s.N, s.B, nn.Matrix{}, nn.Matrix{}, 0)
			}
		})
		h.past++
		q.same(h, when, g)
	case "observe":
		h.past++
		q.same(h, when, g)
	case "forward", "grad":
		if h.twin == nil {
			return
		}
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		q.call(s.K, 7, func() {
			o, err := h.m.Forward(x, s.K == "grad" || s.L > 0)
			if err == nil && s.K == "grad" {
				h.m.Backward(o, y)
			}
		})
		h.past++
		q.same(h, when, g)
	case "badgrad": // a backward pass that fails on the way
		if h.twin == nil {
			return
		}
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, h.in(), h.out(), h.set.loss)
		q.call(s.K, 7, func() {
			o, err := h.m.Forward(x, true)
			if err != nil {
				return
			}
			k := g.Intn(len(o) - 1)
			o[k] = nn.Matrix{Rows: o[k].Rows + 1, Cols: o[k].Cols, M: append(append([][]float64(nil), o[k].M...), make([]float64, o[k].Cols))}
			h.m.Backward(o, y)
		})
		h.past++
		q.same(h, when, g)
	case "save":
		if h.twin == nil {
			return
		}
		if res := r.saveF(h.m, "/w/"+s.Path, s); res.err == nil && res.done {
			c := *h
			q.files[s.Path] = &c
		} else if delete(q.files, s.Path); len(s.Faults) == 0 { // a failed save: which of the two is stored is another property's business
			q.fail("save", "%s: saving a valid model failed: %v", when, res.err)
		}
		h.past++
		q.same(h, when, g)
	case "load", "buffer": // the model goes on as its stored form
		if s.K == "load" && q.files[s.Path] == nil || s.K == "buffer" && h.twin == nil {
			return
		}
		f := h
		var m nn.Model
		var err error
		if s.K == "load" {
			f = q.files[s.Path]
			q.call("load", 8, func() { m, err = nn.LoadFile("/w/" + s.Path) })
		} else {
			q.call("buffer", 8, func() {
				var b bytes.Buffer
				d := nn.NewSavedModelData(*h.m)
				if err = d.Serialize(&b); err == nil {
					m, err = nn.LoadModel(&b)
				}
			})
		}
		if err != nil {
			q.fail("load", "%s: loading a stored model failed: %v", when, err)
		}
		n := hist{m: &m, specs: append([]LayerSpec(nil), f.specs...), set: f.set, past: 1}
		for range n.specs {
			n.ids = append(n.ids, q.next)
			q.next++
		}
		if len(m.Layers) != len(n.specs) {
			q.fail("load", "%s: the loaded model has %d layers, not %d", when, len(m.Layers), len(n.specs))
		}
		*h = n
		h.twin = q.settle(h)
		q.same(h, when, g)
	case "init":
		if len(h.specs) > 0 {
			q.call("init", 9, func() { h.m.InitLayers() })
			h.past++
			q.same(h, when, g)
		}
	case "tweak": // parameters assigned in place
		if n := len(h.specs); n > 0 {
			fillLayer(h.m.Layers[g.Intn(n)], g, "normal")
			h.past++
			q.same(h, when, g)
		}
	case "assign": // other matrices put in
		if n := len(h.specs); n > 0 {
			w, b := params(h.m.Layers[g.Intn(n)])
			*w, *b = cloneM(*w), cloneM(*b)
			for i := range w.M {
				for j := range w.M[i] {
					w.M[i][j] = norm(g)
				}
			}
			h.past++
			q.same(h, when, g)
		}
	case "other": // a model made, trained and forgotten
		c := &hist{}
		m := nn.NewModel()
		c.m = &m
		sp, l := q.layer(g, 1+g.Intn(4))
		q.add(c, sp, l, q.next, when)
		q.next++
		c.set = genFin(g)
		t := q.settle(c)
		x, y := mkData(DataSpec{Rows: s.D, Seed: g.U64()}, c.in(), c.out(), c.set.loss)
		q.call("other", 10, func() { t.Fit(x, y, s.N, s.B, nn.Matrix{}, nn.Matrix{}, 0) })
		h.past++
		q.same(h, when, g)
	}
}

// optimizer is the optimizer object the user hands to Finalize: a new one, or
// always the same, set to other values in between.
func (q *pastRun) optimizer(f fin) (nn.Optimizer, error) {
	n, err := newOpt(f.opt, f.optV)
	if err != nil || q.r.p.P["opts"] == 0 {
		return n, err
	}
	old := q.opts[f.opt]
	if old == nil {
		q.opts[f.opt] = n
		return n, nil
	}
	for _, k := range []string{"LearningRate", "Decay", "Momentum", "Epsilon", "Beta1", "Beta2"} {
		if v, ok := field(n, k); ok {
			if t, ok := field(old, k); ok {
				t.SetFloat(v.Float())
			}
		}
	}
	return old, nil
}

// loss is the loss object the user hands to Finalize: a new one, or one for
// all models it fits.
func (q *pastRun) loss(k string, size int) (nn.Loss, error) {
	key := fmt.Sprintf("%s %d", k, size)
	if l := q.losses[key]; l != nil && q.r.p.P["opts"] == 2 {
		return l, nil
	}
	l, err := newLoss(k, size)
	q.losses[key] = l
	return l, err
}

// seen is what a user sees of a model; when the optimizers are made is its own
// business, what they do shows in the trainings.
func seen(m *nn.Model) string {
	var keep []string
	for _, l := range strings.Split(dump(m), "\n") {
		if !strings.HasPrefix(l, "optimizer ") {
			keep = append(keep, l)
		}
	}
	return strings.Join(keep, "\n")
}

func (q *pastRun) add(h *hist, s LayerSpec, l nn.Layer, id int, when string) {
	var err error
	q.call("add", 11, func() { err = h.m.AddLayer(l) })
	if err != nil {
		q.fail("add", "%s: adding a fitting layer failed: %v", when, err)
	}
	h.specs = append(append([]LayerSpec(nil), h.specs...), s)
	h.ids = append(append([]int(nil), h.ids...), id)
	if h.twin != nil || h.trains > 0 {
		h.past++
	}
	h.twin = nil
}

func runT06(r *R) {
	q := &pastRun{r: r, files: map[string]*hist{}, opts: map[string]nn.Optimizer{}, losses: map[string]nn.Loss{}, drop: privateDraws(), deep: 5 + int(r.p.P["deep"])}
	r.process(r.p.Env)
	r.setLog(r.p.P["log"])
	for i := int64(0); i < r.p.P["nm"]; i++ {
		m := nn.NewModel()
		q.ms = append(q.ms, &hist{m: &m})
	}
	for i, s := range r.p.Steps {
		q.n = i
		q.step(i, s)
		r.ev("%d %s", i, s.K)
	}
	for _, h := range q.ms {
		if h.twin != nil {
			r.mark("%s", short(dumpParams(h.m)))
		}
	}
}

func init() {
	register(&Prop{ID: "T06", Quick: 120000, Thoro: 2000000000, Gen: genT06, Run: runT06,
		Rule: "A run leads 1-3 models through a seeded history of added, refused and shared layers, successful and refused Finalize calls with other losses, optimizers and accuracies, successful and failing trainings, evaluations, saves under disk faults, loads, initialisations and hand-set parameters, and keeps for each a twin newly built at its last Finalize that sees only the successful trainings since; settings, results and every trained parameter are compared bit for bit after each step; non-trivial: a training of a model that had a past."})
}
