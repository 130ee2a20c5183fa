package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

var logFiles = []string{"", "quiet", "file"}

// setLog sets up logging as a plan asks: 0 never, 1 quiet, 2 to a file.
func (r *R) setLog(mode int64) {
	if mode == 0 {
		return
	}
	var err error
	r.do("initlogger", func() { err = nn.InitLogger(false, mode == 2, "/w/train.log") })
	if err != nil {
		r.fail("initlogger", "InitLogger failed on a working disk: %v", err)
		r.stop()
	}
}

func hasK(steps []Step, k string) bool {
	for _, s := range steps {
		if s.K == k {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- T01

func genT01(p *Plan, g *simrt.Rng, thorough bool) {
	n := 2 + g.Intn(3)
	if thorough {
		n = 2 + g.Intn(4)
	}
	in, out := 1+g.Intn(4), 1+g.Intn(3)
	if g.Intn(10) == 0 {
		out = 4 + g.Intn(20)
	}
	loss := lossKinds[g.Intn(len(lossKinds))]
	for i := 0; i < n; i++ {
		s := genLike(g, genOpt{maxLayers: 3, maxDim: 4}, in, out, loss)
		if i > 0 && g.Intn(4) == 0 { // the same architecture, perhaps the same weights
			w := s.WSeed
			s = p.Models[0]
			s.Layers = append([]LayerSpec(nil), s.Layers...)
			if g.Intn(2) == 0 {
				s.WSeed = w
			}
		} else {
			oddWeights(&s, g)
		}
		p.Models = append(p.Models, s)
	}
	nd := 1 + g.Intn(3)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(7), Seed: g.U64(), Mode: genMode(g)})
	}
	p.P["share"] = int64(g.Intn(4)) // 0: every thread has its own copies
	p.P["log"] = int64(g.Intn(3))
	kinds := []string{"fit", "fit", "fit", "fit", "predict", "loss", "accuracy", "forward", "grad", "save", "load", "buffer", "rebuild", "badpredict", "badfit", "layer", "badload", "onehot", "common"}
	for t := 0; t < n; t++ {
		k := 1 + g.Intn(4)
		if thorough {
			k += g.Intn(4)
		}
		for i := 0; i < k; i++ {
			s := Step{T: t, K: kinds[g.Intn(len(kinds))], D: g.Intn(nd), N: g.Intn(2)}
			if i == 0 && g.Intn(2) == 0 {
				s.K = "fit"
			}
			if i == 0 && g.Intn(4) == 0 {
				s.K = "common" // everyone starts from the same stored model
			}
			switch s.K {
			case "fit":
				s.N, s.B, s.L = 1+g.Intn(2), g.Intn(4), g.Intn(3)
				if g.Intn(3) == 0 {
					s.S = "val"
				}
			case "save", "load":
				s.Path = []string{"a.model", "b.model"}[g.Intn(2)]
			}
			p.Steps = append(p.Steps, s)
		}
	}
	p.Sched = randSched(g)
}

func runT01(r *R) {
	p := r.p
	n := len(p.Models)
	for i := range p.Models {
		if p.Models[i].has("dropout") && !privateDraws() {
			for k := range p.Models[i].Layers {
				if p.Models[i].Layers[k].K == "dropout" {
					p.Models[i].Layers[k].K = "hidden"
				}
			}
		}
	}
	steps := make([][]Step, n)
	for _, s := range p.Steps {
		if s.T < n {
			steps[s.T] = append(steps[s.T], s)
		}
	}
	tenv := func(t int) *simrt.Env {
		e := simrt.EnvSpec{Seed: simrt.Mix(p.Seed, 500+uint64(t)), Clock: p.Env.Clock}
		return simrt.NewEnv(e)
	}
	dir := func(t int) string { return fmt.Sprintf("/w/t%d/", t) }
	body := func(w *wk, t int) func() {
		return func() {
			for _, s := range steps[t] {
				w.op(s)
			}
		}
	}
	var common []byte
	if hasK(p.Steps, "common") {
		m := r.mk(0)
		if res := r.save(m, "common.model"); res.err != nil {
			r.fail("save", "saving a valid model failed: %v", res.err)
			r.stop()
		}
		common, _ = r.fs.Get("/w/common.model")
	}
	want := make([][]string, n)
	for t := 0; t < n; t++ {
		r.freshDisk()
		r.process(p.Env)
		r.fs.PutDir(dir(t))
		r.fs.Put("/w/common.model", common)
		r.setLog(p.P["log"])
		xs, ys := r.sets(t)
		w := r.worker(t, dir(t), xs, ys)
		w.log = true
		r.seg(simrt.Sched{}, 0, 0, false, 0, taskFn{fmt.Sprintf("alone%d", t), tenv(t), body(w, t)})
		if r.bad() {
			r.stop()
		}
		want[t] = append(w.trace, "final "+dump(w.m))
	}
	r.freshDisk()
	r.process(p.Env)
	r.fs.Put("/w/common.model", common)
	r.setLog(p.P["log"])
	sx, sy := r.sets(0)
	before := dumpSets(sx, sy)
	ws := make([]*wk, n)
	var ts []taskFn
	for t := 0; t < n; t++ {
		r.fs.PutDir(dir(t))
		xs, ys := sx, sy
		if p.P["share"] == 0 {
			xs, ys = r.sets(t)
		}
		ws[t] = r.worker(t, dir(t), xs, ys)
		ws[t].log = true
		ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), tenv(t), body(ws[t], t)})
	}
	r.seg(p.Sched, 0, 0, false, 0, ts...)
	if r.bad() {
		r.stop()
	}
	r.nontriv = r.last.Switches >= 2
	if s := dumpSets(sx, sy); s != before {
		r.fail("data", "the shared data changed: %s", diff(before, s))
		return
	}
	for t := 0; t < n; t++ {
		got := append(ws[t].trace, "final "+dump(ws[t].m))
		r.ev("thread%d %s", t, short(strings.Join(got, "\n")))
		if i, d := compareTraces(want[t], got); i >= 0 {
			k := "the final model"
			if i < len(steps[t]) {
				k = fmt.Sprintf("step %d (%s)", i, steps[t][i].K)
			}
			r.fail("influence", "thread %d, %s: differs from the thread working alone (alone / concurrent): %s", t, k, d)
			return
		}
	}
	r.stat("threads", n)
}

// ---------------------------------------------------------------- T02

func genT02(p *Plan, g *simrt.Rng, thorough bool) {
	s := genModel(g, genOpt{maxLayers: 3, maxDim: 5})
	p.Models = []ModelSpec{s}
	nd := 1 + g.Intn(3)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(8), Seed: g.U64(), Mode: genMode(g)})
	}
	p.P["train"] = int64(g.Intn(3))
	p.P["load"] = int64(g.Intn(2))
	n := 1 + g.Intn(4)
	kinds := []string{"predict", "predict", "predict", "loss", "accuracy", "forward", "buffer", "layer", "save", "badpredict"}
	for t := 0; t < n; t++ {
		k := 1 + g.Intn(4)
		if n == 1 {
			k += 2
		}
		if thorough {
			k += g.Intn(5)
		}
		for i := 0; i < k; i++ {
			s := Step{T: t, K: kinds[g.Intn(len(kinds))], D: g.Intn(nd)}
			if s.K == "predict" && g.Intn(3) == 0 {
				s.B = 1 // the result is the caller's to overwrite
			}
			p.Steps = append(p.Steps, s)
		}
	}
	oddWeights(&p.Models[0], g)
	p.P["acc"] = int64(g.Intn(3))
	p.Models[0].Acc = int(p.P["acc"])
	p.Sched = randSched(g)
}

// query is one inference call: its result as text, and how to render the
// matrices it handed out again later.
func query(m *nn.Model, s Step, x, y nn.Matrix, path string) (string, func() string) {
	switch s.K {
	case "predict":
		o, err := m.Predict(x)
		f := func() string { return "predict " + errS(err) + " " + dumpMat(o) }
		return f(), f
	case "loss":
		v, err := m.CalculateLoss(x, y)
		t := "loss " + errS(err) + " " + bits(v)
		return t, func() string { return t }
	case "accuracy":
		v, err := m.CalculateAccuracy(x, y)
		t := "accuracy " + errS(err) + " " + bits(v)
		return t, func() string { return t }
	case "forward":
		o, err := m.Forward(x, false)
		f := func() string {
			t := "forward " + errS(err)
			for i := range o {
				t += dumpMat(o[i])
			}
			return t
		}
		return f(), f
	case "badpredict":
		o, err := m.Predict(widen(x))
		f := func() string { return "badpredict " + errS(err) + " " + dumpMat(o) }
		return f(), f
	case "buffer":
		var b bytes.Buffer
		d := nn.NewSavedModelData(*m)
		err := d.Serialize(&b)
		t := "buffer " + errS(err) + fmt.Sprint(b.Len())
		if m2, err := nn.LoadModel(&b); err == nil {
			t += dump(&m2)
		}
		return t, func() string { return t }
	case "layer":
		t := "layer"
		for _, l := range m.Layers {
			var b bytes.Buffer
			d := nn.NewSavedLayerData(l)
			err := d.SerializeLayer(&b)
			t += fmt.Sprintf(" %s %x", errS(err), b.Bytes())
		}
		return t, func() string { return t }
	case "save":
		err := nn.SaveFile(m, path)
		t := "save " + errS(err)
		m2, err := nn.LoadFile(path)
		t += errS(err)
		if err == nil {
			t += dump(&m2)
		}
		return t, func() string { return t }
	}
	panic("harness: query " + s.K)
}

// copyOf is a newly built model with the parameters of another.
func (r *R) copyOf(mi int, from *nn.Model) *nn.Model {
	c := r.mk(mi)
	for i := range c.Layers {
		copyParams(c.Layers[i], from.Layers[i])
	}
	return c
}

func copyParams(to, from nn.Layer) {
	w, b := params(to)
	w2, b2 := params(from)
	for i := range w.M {
		copy(w.M[i], w2.M[i])
	}
	for i := range b.M {
		copy(b.M[i], b2.M[i])
	}
}

func runT02(r *R) {
	p := r.p
	xs, ys := r.sets(0)
	m := r.mk(0)
	if p.P["train"] > 0 {
		r.do("train", func() {
			if err := m.Fit(cloneM(xs[0]), cloneM(ys[0]), int(p.P["train"]), 2, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				r.fail("train", "training a valid model failed: %v", err)
			}
		})
	}
	if p.P["load"] > 0 && !r.bad() {
		r.do("reload", func() {
			if err := nn.SaveFile(m, "/w/shared.model"); err != nil {
				r.fail("save", "saving failed: %v", err)
				return
			}
			m2, err := nn.LoadFile("/w/shared.model")
			if err != nil {
				r.fail("load", "loading failed: %v", err)
				return
			}
			m = &m2
		})
	}
	if r.bad() {
		r.stop()
	}
	// what each call returns alone, on a model of its own
	want := map[string]string{}
	key := func(s Step) string { return fmt.Sprint(s.K, s.D%len(xs)) }
	for _, s := range p.Steps {
		if _, ok := want[key(s)]; ok {
			continue
		}
		c := r.copyOf(0, m)
		r.do("alone "+s.K, func() {
			x, y := r.data(s.D%len(xs), 0)
			want[key(s)], _ = query(c, s, x, y, "/w/alone.model")
		})
		if r.bad() {
			r.stop()
		}
	}
	pBefore, dBefore := dump(m), dumpSets(xs, ys)
	n := 0
	for _, s := range p.Steps {
		if s.T >= n {
			n = s.T + 1
		}
	}
	type handed struct {
		at    string
		s     Step
		again func() string
	}
	hand := make([][]handed, n)
	var ts []taskFn
	for t := 0; t < n; t++ {
		t := t
		env := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, 700+uint64(t)), Clock: p.Env.Clock})
		ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), env, func() {
			for i, s := range p.Steps {
				if s.T != t {
					continue
				}
				var got string
				var again func() string
				if s.K == "predict" && s.B == 1 {
					o, err := m.Predict(xs[s.D%len(xs)])
					got = "predict " + errS(err) + " " + dumpMat(o)
					for i := range o.M {
						for j := range o.M[i] {
							o.M[i][j] = 1e9
						}
					}
					mine := dumpMat(o)
					again = func() string {
						if t := dumpMat(o); t != mine {
							return t
						}
						return got
					}
				} else {
					got, again = query(m, s, xs[s.D%len(xs)], ys[s.D%len(ys)], fmt.Sprintf("/w/t%d-%d.model", t, i))
				}
				hand[t] = append(hand[t], handed{got, s, again})
			}
		}})
	}
	r.seg(p.Sched, 0, 0, false, 0, ts...)
	if r.bad() {
		r.stop()
	}
	r.nontriv = r.last.Switches >= 2 || n == 1 && len(p.Steps) > 1
	for t := range hand {
		for i, h := range hand[t] {
			r.ev("thread%d call %d %s %s", t, i, h.s.K, short(h.at))
			if h.at != want[key(h.s)] {
				r.fail("result", "thread %d, call %d (%s, data %d) returned something else than alone (alone / now): %s", t, i, h.s.K, h.s.D, diff(want[key(h.s)], h.at))
				return
			}
			if a := h.again(); a != h.at {
				r.fail("later", "the result of thread %d, call %d (%s) changed after it was handed out: %s", t, i, h.s.K, diff(h.at, a))
				return
			}
		}
	}
	if s := dump(m); s != pBefore {
		r.fail("params", "inference changed the model: %s", diff(pBefore, s))
		return
	}
	if s := dumpSets(xs, ys); s != dBefore {
		r.fail("data", "inference changed its input: %s", diff(dBefore, s))
	}
}

// ---------------------------------------------------------------- T03

func genT03(p *Plan, g *simrt.Rng, thorough bool) {
	s := genModel(g, genOpt{maxLayers: 3, maxDim: 5})
	p.Models = []ModelSpec{s}
	nd := 1 + g.Intn(3)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(8), Seed: g.U64(), Mode: genMode(g)})
	}
	long, big := 0, false
	switch g.Intn(60) {
	case 0: // a long training of a small model
		long = 40 + g.Intn(200)
		p.Models[0] = genModel(g, genOpt{maxLayers: 2, maxDim: 2})
		for i := range p.Data {
			p.Data[i].Rows = 1 + g.Intn(2)
		}
	case 1: // many samples
		big = true
		p.Models[0] = genModel(g, genOpt{maxLayers: 2, maxDim: 2})
		for i := range p.Data {
			p.Data[i].Rows = 100 + g.Intn(1000)
		}
	}
	oddWeights(&p.Models[0], g)
	p.P["log"] = int64(g.Intn(3))
	kinds := []string{"predict", "predict", "loss", "accuracy", "forward", "save", "save", "buffer", "layer", "badpredict", "badloss", "badacc", "badsave", "badload", "fullsave"}
	n := 2 + g.Intn(3)
	if thorough {
		n += g.Intn(4)
	}
	for i := 0; i < n; i++ {
		for k := g.Intn(4); k > 0; k-- {
			s := Step{K: kinds[g.Intn(len(kinds))], D: g.Intn(nd), Seed: g.U64()}
			if s.K == "save" {
				s.Path = []string{"a.model", "b.model"}[g.Intn(2)]
				if g.Intn(2) == 0 {
					s.Faults = []simfs.Fault{{Op: g.Intn(12), Kind: errFaults[g.Intn(len(errFaults))], Arg: g.Intn(40)}}
					if g.Intn(8) == 0 {
						s.Faults[0].Stay = simfs.Stays(s.Faults[0].Kind)
					}
				}
			}
			if s.K == "fullsave" {
				s.K, s.Path, s.Cap = "save", "c.model", int64(1+g.Intn(60))
			}
			p.Steps = append(p.Steps, s)
		}
		f := Step{K: "fit", D: g.Intn(nd), N: 1 + g.Intn(3), B: g.Intn(4), L: g.Intn(3), Seed: g.U64()}
		if long > 0 {
			f.N, f.L = 1+g.Intn(long), g.Intn(40)
		}
		if big {
			f.N, f.B = 1, []int{0, 64, 100, 512, 1000}[g.Intn(5)]
		}
		if g.Intn(2) == 0 {
			f.S = "val"
		}
		p.Steps = append(p.Steps, f)
	}
}

func runT03(r *R) {
	p := r.p
	if p.Models[0].has("dropout") && !privateDraws() {
		for k := range p.Models[0].Layers {
			if p.Models[0].Layers[k].K == "dropout" {
				p.Models[0].Layers[k].K = "hidden"
			}
		}
	}
	// every call gets an environment of its own, so that both executions
	// train with the same random draws
	call := func(i int, name string, fn func()) {
		e := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, 900, uint64(i)), Clock: p.Env.Clock})
		r.seg(simrt.Sched{}, 0, 0, false, 0, taskFn{name, e, fn})
		if r.bad() {
			r.stop()
		}
	}
	control := map[int]string{}
	xs, ys := r.sets(0)
	w := r.worker(0, "/w/", xs, ys)
	for i, s := range p.Steps {
		if s.K != "fit" {
			continue
		}
		s.L, s.S = 0, ""
		call(i, "control fit", func() { w.op(s) })
		control[i] = dumpParams(w.m)
		if strings.Contains(w.trace[len(w.trace)-1], "error") {
			r.stop() // not a training that works; not this property's business
		}
	}
	// the same again, observed
	r.freshDisk()
	r.process(p.Env)
	r.setLog(p.P["log"])
	xs, ys = r.sets(0)
	w = r.worker(0, "/w/", xs, ys)
	w.log = true
	data := func() string { return dumpSets(xs, ys, []nn.Matrix{w.vx, w.vy}) }
	d0 := data()
	seen := 0
	for i, s := range p.Steps {
		before := dump(w.m)
		r.fs.Cap = s.Cap
		r.fs.Arm(s.Faults)
		call(i, s.K, func() { w.op(s) })
		r.fs.Disarm()
		r.fs.Cap = 0
		r.ev("%d %s %s", i, s.K, short(w.trace[len(w.trace)-1]))
		if d := data(); d != d0 {
			r.fail("data", "step %d (%s) changed the caller's data: %s", i, s.K, diff(d0, d))
			return
		}
		after := dump(w.m)
		if s.K != "fit" {
			seen++
			if after != before {
				r.fail("observed", "step %d (%s) changed the model: %s", i, s.K, diff(before, after))
				return
			}
			continue
		}
		if got := dumpParams(w.m); got != control[i] {
			r.fail("outcome", "the training of step %d ends differently when the model is observed (unobserved / observed): %s", i, diff(control[i], got))
			return
		}
		if s.L > 0 {
			seen++
		}
	}
	r.nontriv = seen > 0
	r.stat("observations", seen)
	r.mark("%s", short(dumpParams(w.m)))
}

// ---------------------------------------------------------------- T04

func genT04(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = []string{"split", "resume", "crash", "crash"}[g.Intn(4)]
	s := genModel(g, genOpt{maxLayers: 3, maxDim: 4, noDropout: true, plainSGD: p.Kind == "crash"})
	oddWeights(&s, g)
	p.Models = []ModelSpec{s}
	p.Data = []DataSpec{{Rows: 1 + g.Intn(6), Seed: g.U64(), Mode: genMode(g)}}
	p.P["batch"] = int64(g.Intn(4))
	p.P["inproc"] = int64(g.Intn(3)) // 1: the checkpoint is loaded again without a restart
	long := 0
	if p.Kind != "crash" && g.Intn(60) == 0 { // a long training of a small model
		long = 30 + g.Intn(150)
		p.Models[0] = genModel(g, genOpt{maxLayers: 2, maxDim: 2, noDropout: true})
		p.Data[0].Rows = 1 + g.Intn(2)
	}
	switch p.Kind {
	case "split":
		n := 1 + g.Intn(4)
		for i := 0; i < n; i++ {
			p.Steps = append(p.Steps, Step{K: "fit", N: g.Intn(4 + long)})
		}
		p.P["log"] = int64(g.Intn(3))
	case "resume":
		p.P["before"], p.P["after"] = int64(g.Intn(3+long)), int64(1+g.Intn(3+long))
		p.P["gen"] = int64(1 + g.Intn(3))
	case "crash":
		p.P["epochs"] = int64(2 + g.Intn(5))
		n := 1 + g.Intn(4)
		if thorough {
			n = 1 + g.Intn(8)
		}
		for i := 0; i < n; i++ {
			// F: where in the work that is left the process dies
			p.Steps = append(p.Steps, Step{K: "life", F: F64(g.Float()), Pow: g.Intn(2) == 0, Keep: g.U64(), Seed: g.U64()})
			if g.Intn(3) == 0 {
				p.Steps[i].N = 1 // die near a save
			}
			if g.Intn(4) == 0 {
				p.Steps[i].Faults = []simfs.Fault{{Op: g.Intn(60), Kind: errFaults[g.Intn(len(errFaults))], Arg: g.Intn(100)}}
				if g.Intn(8) == 0 {
					p.Steps[i].Faults[0].Stay = simfs.Stays(p.Steps[i].Faults[0].Kind)
				}
			}
		}
	}
}

func runT04(r *R) {
	switch r.p.Kind {
	case "split":
		r.t04split()
	case "resume":
		r.t04resume()
	default:
		r.t04crash()
	}
}

func (r *R) fit(m *nn.Model, x, y nn.Matrix, epochs, batch int) {
	var err error
	r.do("fit", func() { err = m.Fit(x, y, epochs, batch, nn.Matrix{}, nn.Matrix{}, 0) })
	if err != nil {
		r.fail("train", "training a valid model failed: %v", err)
	}
	if r.bad() {
		r.stop()
	}
}

func (r *R) t04split() {
	p := r.p
	x, y := r.data(0, 0)
	r.setLog(p.P["log"])
	one, many := r.mk(0), r.mk(0)
	total := 0
	for _, s := range p.Steps {
		total += s.N
		r.fit(many, x, y, s.N, int(p.P["batch"]))
	}
	r.fit(one, x, y, total, int(p.P["batch"]))
	r.nontriv = total > 1 && len(p.Steps) > 1
	a, b := dumpParams(one), dumpParams(many)
	r.mark("%s", short(a))
	r.ev("split %d in %d: %s", total, len(p.Steps), short(a))
	if a != b {
		r.fail("split", "%d epochs in one call and in %d calls end differently (one / several): %s", total, len(p.Steps), diff(a, b))
	}
}

func (r *R) t04resume() {
	p := r.p
	x, y := r.data(0, 0)
	m := r.mk(0)
	for gen := int64(0); gen < p.P["gen"]; gen++ {
		r.fit(m, x, y, int(p.P["before"]), int(p.P["batch"]))
		if res := r.save(m, "ck.model"); res.err != nil {
			r.fail("save", "saving failed: %v", res.err)
			r.stop()
		}
		fresh := r.copyOf(0, m)
		if p.P["inproc"] != 1 {
			r.restart(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, uint64(gen)), Clock: p.Env.Clock})
		}
		l, err := r.load("ck.model")
		if err != nil {
			r.fail("load", "loading the checkpoint failed: %v", err)
			r.stop()
		}
		r.fit(fresh, x, y, int(p.P["after"]), int(p.P["batch"]))
		r.fit(l, x, y, int(p.P["after"]), int(p.P["batch"]))
		a, b := dumpParams(fresh), dumpParams(l)
		r.nontriv = true
		r.mark("%s", short(a))
		r.ev("resume %s", short(b))
		if a != b {
			r.fail("resume", "training goes on differently from the checkpoint than from a newly built model with the same parameters (new / loaded): %s", diff(a, b))
			r.stop()
		}
		if p.P["inproc"] != 0 { // the checkpoint is still what it was, and can be resumed from again
			l2, err := r.load("ck.model")
			if err != nil {
				r.fail("load", "loading the checkpoint again failed: %v", err)
				r.stop()
			}
			r.fit(l2, x, y, int(p.P["after"]), int(p.P["batch"]))
			if c := dumpParams(l2); c != a {
				r.fail("resume", "training goes on differently when the checkpoint is loaded once more (new / loaded again): %s", diff(a, c))
				r.stop()
			}
		}
		m = l
	}
}

func (r *R) t04crash() {
	p := r.p
	x, y := r.data(0, 0)
	E, batch := int(p.P["epochs"]), int(p.P["batch"])
	// the uninterrupted run
	m := r.mk(0)
	hist := []string{dumpParams(m)}
	var steps int64
	for e := 0; e < E; e++ {
		o := r.do("fit", func() {
			if err := m.Fit(x, y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
				r.fail("train", "training a valid model failed: %v", err)
			}
		})
		if r.bad() {
			r.stop()
		}
		steps += o.w.Tasks[0].Steps()
		hist = append(hist, dumpParams(m))
	}
	perFit := steps / int64(E)
	o := r.do("save", func() { nn.SaveFile(m, "/w/probe.model") })
	perSave := o.w.Tasks[0].Steps()
	r.fs.Del("/w/probe.model")
	r.fs.SyncAll()

	acked, tried := 0, 0 // last acknowledged checkpoint; last one started
	life := func(s Step, killAt int64) (done bool) {
		var lm *nn.Model
		at := 0
		if mm, err := r.load("/w/job.model"); err == nil {
			lm = mm
			got := dumpParams(lm)
			at = -1
			for i := acked; i <= tried && i < len(hist); i++ {
				if hist[i] == got {
					at = i
					break
				}
			}
			if at < 0 {
				w := "no state of the uninterrupted run"
				for i := range hist {
					if hist[i] == got {
						w = fmt.Sprintf("the state after %d epochs", i)
					}
				}
				r.fail("checkpoint", "the checkpoint loaded after the crash is %s; acknowledged: %d, started: %d", w, acked, tried)
				r.stop()
			}
		} else {
			if acked > 0 {
				r.fail("lost", "the checkpoint after %d epochs was acknowledged and cannot be loaded: %v", acked, err)
				r.stop()
			}
			if tried == 0 {
				lm = r.mk(0)
			} else {
				lm = r.mk(0) // the first checkpoint never made it
				acked = 0
			}
		}
		r.fs.Arm(s.Faults)
		o := r.doKill("job", killAt, s.Pow, s.Keep, func() {
			for e := at; e < E; e++ {
				if err := lm.Fit(x, y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0); err != nil {
					r.fail("train", "training failed: %v", err)
					return
				}
				if e+1 > tried {
					tried = e + 1
				}
				if err := nn.SaveFile(lm, "/w/job.model"); err == nil {
					acked = e + 1
				}
			}
		})
		r.fs.Disarm()
		if r.bad() {
			r.stop()
		}
		r.ev("life from %d: crashed %v, acknowledged %d, started %d", at, o.crashed, acked, tried)
		r.mark("%d-%v-%d-%d", at, o.crashed, acked, tried)
		if o.crashed {
			return false
		}
		// ended without a crash: the job holds the final parameters
		if got := dumpParams(lm); got != hist[E] {
			r.fail("resume", "the job restarted from its checkpoint after %d epochs ends differently from an uninterrupted one (uninterrupted / restarted): %s", at, diff(hist[E], got))
			r.stop()
		}
		return true
	}
	for _, s := range p.Steps {
		if s.K != "life" {
			continue
		}
		left := int64(E-acked) * (perFit + perSave)
		if left <= 0 {
			left = perSave + 1
		}
		kill := 1 + int64(float64(s.F)*float64(left))
		if s.N == 1 && perFit > 0 {
			k := kill / (perFit + perSave)
			kill = k*(perFit+perSave) + perFit + 1 + int64(float64(s.F)*1e6)%(perSave+20)
		}
		done := life(s, kill)
		env := simrt.EnvSpec{Seed: simrt.Mix(p.Seed, s.Seed), Clock: p.Env.Clock}
		if done && s.Pow {
			r.fs.SyncAll()
		}
		r.restart(env)
		if !done {
			r.nontriv = true
		}
	}
	// the last life is left alone
	if !life(Step{}, 0) {
		r.fail("stuck", "the job did not finish")
	}
}

// ---------------------------------------------------------------- T05

// rec is what one watched call saw.
type rec struct {
	kind  string // fwd bwd lossf lossb upd
	layer int
	in    string // x or yhat
	in2   string // dValues or y
	out   string // result
	out2  string // dWeights+dBiases
	rows  int
	state string // parameters of the model at entry
	w, b  *nn.Matrix
	err   bool
}

type watch struct {
	recs   []rec
	failK  string
	failN  int
	count  map[string]int
	err    error
	m      *nn.Model
	after  int // calls after the injected failure
	failed bool
}

func (w *watch) begin(r rec) bool {
	if w.failed {
		w.after++
	}
	if w.m != nil && r.kind == "fwd" && r.layer == 0 {
		r.state = dumpParams(w.m)
	}
	w.count[r.kind]++
	if w.failK == r.kind && w.count[r.kind] == w.failN {
		w.failed = true
		r.err = true
		w.recs = append(w.recs, r)
		return false
	}
	w.recs = append(w.recs, r)
	return true
}
func (w *watch) last() *rec { return &w.recs[len(w.recs)-1] }

type wlayer struct {
	nn.Layer
	w *watch
	i int
}

func (l *wlayer) Unwrap() any { return l.Layer }
func (l *wlayer) Forward(x nn.Matrix) (nn.Matrix, error) {
	if !l.w.begin(rec{kind: "fwd", layer: l.i, in: dumpMat(x), rows: x.Rows}) {
		return nn.Matrix{}, l.w.err
	}
	k := len(l.w.recs) - 1
	o, err := l.Layer.Forward(x)
	l.w.recs[k].out = dumpMat(o)
	return o, err
}
func (l *wlayer) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) {
	if !l.w.begin(rec{kind: "bwd", layer: l.i, in: dumpMat(x), in2: dumpMat(d), rows: x.Rows}) {
		return nn.Matrix{}, nn.Matrix{}, nn.Matrix{}, l.w.err
	}
	k := len(l.w.recs) - 1
	dw, db, dx, err := l.Layer.Backward(x, d)
	l.w.recs[k].out, l.w.recs[k].out2 = dumpMat(dx), dumpMat(dw)+dumpMat(db)
	return dw, db, dx, err
}

type wloss struct {
	nn.Loss
	w *watch
}

func (l *wloss) Unwrap() any { return l.Loss }
func (l *wloss) Forward(yh, y nn.Matrix) (float64, error) {
	if !l.w.begin(rec{kind: "lossf", in: dumpMat(yh), in2: dumpMat(y)}) {
		return 0, l.w.err
	}
	return l.Loss.Forward(yh, y)
}
func (l *wloss) Backward(yh, y nn.Matrix) (nn.Matrix, error) {
	if !l.w.begin(rec{kind: "lossb", in: dumpMat(yh), in2: dumpMat(y)}) {
		return nn.Matrix{}, l.w.err
	}
	k := len(l.w.recs) - 1
	d, err := l.Loss.Backward(yh, y)
	l.w.recs[k].out = dumpMat(d)
	return d, err
}

type wopt struct {
	nn.Optimizer
	w *watch
	i int
}

func (o *wopt) Unwrap() any { return o.Optimizer }
func (o *wopt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	if !o.w.begin(rec{kind: "upd", layer: o.i, out2: dumpMat(dw) + dumpMat(db), w: w, b: b}) {
		return o.w.err
	}
	return o.Optimizer.Update(w, b, dw, db)
}

func genT05(p *Plan, g *simrt.Rng, thorough bool) {
	s := genModel(g, genOpt{maxLayers: 4, maxDim: 4, dropoutRates: []float64{0, 1}})
	p.Models = []ModelSpec{s}
	p.Data = []DataSpec{{Rows: 1 + g.Intn(8), Seed: g.U64()}}
	size := g.Intn(80)
	if size < 2 {
		s = genModel(g, genOpt{maxLayers: 2, maxDim: 2, dropoutRates: []float64{0, 1}})
		p.Models[0] = s
		p.Data[0].Rows = 100 + g.Intn(1500)
		if size == 1 { // many epochs
			p.Data[0].Rows = 1 + g.Intn(2)
		}
	} else if size == 2 {
		p.Data[0].Rows = 9 + g.Intn(80)
	}
	n := p.Data[0].Rows
	p.P["batch"] = int64([]int{0, 1, 2, 3, n - 1, n, n + 1, 2*n + 3, 5}[g.Intn(9)])
	if size == 0 {
		p.P["batch"] = int64([]int{0, 31, 32, 64, 100, 128, 256, 500, 512, 1000, 1024, n / 2, n - 1, n, n + 1, 5000}[g.Intn(16)])
	}
	if p.P["batch"] < 0 {
		p.P["batch"] = 0
	}
	p.P["epochs"] = int64(1 + g.Intn(3))
	if thorough {
		p.P["epochs"] = int64(1 + g.Intn(5))
	}
	if size == 1 {
		p.P["epochs"] = int64(10 + g.Intn(250))
		if g.Intn(2) == 0 { // a model that has nothing left to learn
			p.P["fitted"] = 1
		}
	}
	if size == 0 {
		p.P["epochs"] = int64(1 + g.Intn(2))
	}
	p.Kind = []string{"steps", "steps", "reference", "failure", "failure"}[g.Intn(5)]
	if size == 1 && p.Kind == "reference" {
		p.Kind = "steps" // rounding differences may grow over many steps
	}
	if p.Kind != "reference" {
		p.Data[0].Mode = genMode(g)
		if g.Intn(12) == 0 {
			p.P["fitted"] = 1
		}
	}
	if g.Intn(3) == 0 {
		p.P["logevery"] = int64(1 + g.Intn(2))
	}
	p.P["log"] = int64(g.Intn(3))
	if p.Kind == "failure" {
		p.P["kind"] = int64(g.Intn(5))
		p.P["at"] = int64(1 + g.Intn(12))
		if size < 2 {
			p.P["at"] = int64(1 + g.Intn(1000))
		}
	}
}

var failKinds = []string{"fwd", "bwd", "lossb", "upd", "lossf"}

// batches lists the rows of each batch.
func batches(n, size int) (bs [][2]int) {
	if size == 0 {
		size = n
	}
	for lo := 0; lo < n; lo += size {
		hi := lo + size
		if hi > n {
			hi = n
		}
		bs = append(bs, [2]int{lo, hi})
	}
	return
}

func rowsOf(m nn.Matrix, b [2]int) nn.Matrix {
	return nn.Matrix{Rows: b[1] - b[0], Cols: m.Cols, M: m.M[b[0]:b[1]]}
}

func runT05(r *R) {
	p := r.p
	r.setLog(p.P["log"])
	x, y := r.data(0, 0)
	spec := p.Models[0]
	E, B, L := int(p.P["epochs"]), int(p.P["batch"]), int(p.P["logevery"])
	if p.Kind == "reference" {
		r.t05reference(spec, x, y, E, B, L)
		return
	}
	if p.P["fitted"] == 1 && spec.Loss != "ce" {
		r.do("predict", func() {
			m, err := build(spec)
			if err != nil {
				return
			}
			if o, err := m.Forward(x, false); err == nil {
				y = cloneM(o[len(o)-1])
			}
		})
	}
	w := &watch{count: map[string]int{}, err: errors.New("injected failure " + fmt.Sprint(p.Seed%1000))}
	last := len(spec.Layers) - 1
	fused := spec.Loss == "ce" && spec.Layers[last].K == "softmax"
	watched := make([]bool, len(spec.Layers))
	var m *nn.Model
	var err error
	r.do("build", func() {
		m, err = buildW(spec, func(i int, l nn.Layer) nn.Layer {
			if spec.Layers[i].K == "dropout" || i == last && fused {
				return l
			}
			watched[i] = true
			return &wlayer{l, w, i}
		})
		if err == nil {
			m.Loss = &wloss{m.Loss, w}
			for i := range m.Optimizers {
				m.Optimizers[i] = &wopt{m.Optimizers[i], w, i}
			}
		}
	})
	if err != nil {
		r.fail("build", "building a valid model failed: %v", err)
	}
	if r.bad() {
		r.stop()
	}
	nb := len(batches(x.Rows, B)) * E
	if p.Kind == "failure" {
		k := failKinds[p.P["kind"]%5]
		// how often does the call happen? then fail one of those
		per := map[string]int{"lossb": nb, "upd": nb * len(spec.Layers)}
		for i := range watched {
			if watched[i] {
				per["fwd"] += nb
				per["bwd"] += nb
			}
		}
		if fused {
			per["lossb"] = 0
		}
		if L > 0 {
			per["lossf"] = (E + L - 1) / L
		}
		if per[k] == 0 {
			k = "upd"
		}
		w.failK, w.failN = k, 1+int(p.P["at"]-1)%per[k]
	}
	w.m = m
	x0, y0 := cloneM(x), cloneM(y)
	vx, vy := nn.Matrix{}, nn.Matrix{}
	var ferr error
	r.do("fit", func() { ferr = m.Fit(x, y, E, B, vx, vy, L) })
	if r.bad() {
		r.stop()
	}
	r.ev("fit %s, %d calls, fail %s %d", errText(ferr), len(w.recs), w.failK, w.failN)
	if dumpMat(x) != dumpMat(x0) || dumpMat(y) != dumpMat(y0) {
		r.fail("data", "training changed the caller's data")
		return
	}
	if p.Kind == "failure" {
		r.nontriv = w.failed
		r.mark("%s-%d, %d rows, %d, %d epochs, %s", w.failK, w.failN, x.Rows, B, E, spec.shape())
		if !w.failed {
			if w.failK == "lossf" {
				r.nontriv = false // reporting may do without it
				return
			}
			r.fail("steps", "the training ended (%v) before call %d of %s, which the requested epochs and batches contain", ferr, w.failN, w.failK)
			return
		}
		r.fired["call failure"]++
		if ferr == nil {
			r.fail("swallowed", "call %d of %s failed, and the training reported success", w.failN, w.failK)
			return
		}
		if !errors.Is(ferr, w.err) && !strings.Contains(ferr.Error(), w.err.Error()) {
			r.fail("othererror", "call %d of %s failed with %q, and the training returned %q", w.failN, w.failK, w.err, ferr)
			return
		}
		if w.after > 0 {
			r.fail("goeson", "after call %d of %s failed, %d more calls were made, the first being %s", w.failN, w.failK, w.after, w.recs[len(w.recs)-w.after].kind)
			return
		}
		if w.failK != "upd" {
			// no update of the failed pass: the parameters are those of the
			// start of the batch
			upds := 0
			for i := len(w.recs) - 1; i >= 0 && w.recs[i].kind != "upd"; i-- {
				upds = i
			}
			_ = upds
			full := 0
			for _, q := range w.recs {
				if q.kind == "upd" {
					full++
				}
			}
			if full%len(spec.Layers) != 0 {
				r.fail("partial", "%d updates were made before the failing pass, which is not a whole number of steps", full)
				return
			}
			if watched[0] {
				st := ""
				for _, q := range w.recs {
					if q.kind == "fwd" && q.layer == 0 {
						st = q.state
					}
				}
				if w.failK != "lossf" && st != "" && st != dumpParams(m) {
					r.fail("updated", "the parameters changed although %s failed: %s", w.failK, diff(st, dumpParams(m)))
					return
				}
			}
		}
		return
	}
	if ferr != nil {
		r.fail("train", "training a valid model failed: %v", ferr)
		return
	}
	r.nontriv = nb > 1
	// the calls, batch by batch
	var recs []rec
	skip := false
	for _, q := range w.recs {
		if q.kind == "lossf" {
			continue
		}
		recs = append(recs, q)
	}
	_ = skip
	at := 0
	next := func() *rec {
		if at < len(recs) {
			at++
			return &recs[at-1]
		}
		return nil
	}
	bs := batches(x.Rows, B)
	r.mark("%d rows, %d, %d batches, %d epochs, %s", x.Rows, B, len(bs), E, spec.shape())
	for e := 0; e < E; e++ {
		for bi, b := range bs {
			where := fmt.Sprintf("epoch %d, batch %d (rows %d-%d)", e, bi, b[0], b[1]-1)
			bx, by := dumpMat(rowsOf(x, b)), dumpMat(rowsOf(y, b))
			outs := make([]string, len(spec.Layers))
			ins := make([]string, len(spec.Layers))
			for i := range spec.Layers {
				if !watched[i] {
					continue
				}
				q := next()
				if q == nil || q.kind != "fwd" || q.layer != i {
					r.fail("steps", "%s: expected the forward pass of layer %d, saw %s", where, i, recS(q))
					return
				}
				if i == 0 && q.in != bx {
					r.fail("batch", "%s: the forward pass got other rows (expected / got): %s", where, diff(bx, q.in))
					return
				}
				if i > 0 && watched[i-1] && q.in != outs[i-1] {
					r.fail("chain", "%s: layer %d got something else than layer %d put out: %s", where, i, i-1, diff(outs[i-1], q.in))
					return
				}
				ins[i], outs[i] = q.in, q.out
			}
			var dv string
			if !fused {
				q := next()
				if q == nil || q.kind != "lossb" {
					r.fail("steps", "%s: expected the loss's backward pass, saw %s", where, recS(q))
					return
				}
				if q.in2 != by {
					r.fail("batch", "%s: the loss got other targets (expected / got): %s", where, diff(by, q.in2))
					return
				}
				if watched[last] && q.in != outs[last] {
					r.fail("chain", "%s: the loss got something else than the last layer put out: %s", where, diff(outs[last], q.in))
					return
				}
				dv = q.out
			}
			grads := make([]string, len(spec.Layers))
			for i := last; i >= 0; i-- {
				if !watched[i] {
					dv = ""
					continue
				}
				q := next()
				if q == nil || q.kind != "bwd" || q.layer != i {
					r.fail("steps", "%s: expected the backward pass of layer %d, saw %s", where, i, recS(q))
					return
				}
				if q.in != ins[i] {
					r.fail("chain", "%s: the backward pass of layer %d got other inputs than its forward pass: %s", where, i, diff(ins[i], q.in))
					return
				}
				if dv != "" && q.in2 != dv {
					r.fail("chain", "%s: the backward pass of layer %d got other gradients than came down to it: %s", where, i, diff(dv, q.in2))
					return
				}
				dv, grads[i] = q.out, q.out2
			}
			seen := make([]bool, len(spec.Layers))
			for k := 0; k < len(spec.Layers); k++ {
				q := next()
				if q == nil || q.kind != "upd" || q.layer >= len(seen) || seen[q.layer] {
					r.fail("steps", "%s: expected one update of every layer, saw %s after %d", where, recS(q), k)
					return
				}
				seen[q.layer] = true
				if watched[q.layer] && q.out2 != grads[q.layer] {
					r.fail("gradients", "%s: the update of layer %d did not get the gradients of this batch: %s", where, q.layer, diff(grads[q.layer], q.out2))
					return
				}
				pw, pb := params(m.Layers[q.layer])
				if q.w != pw || q.b != pb {
					r.fail("target", "%s: the update of layer %d was given other parameters than the layer's", where, q.layer)
					return
				}
			}
		}
		// an epoch that reports evaluates the model: forward passes only
		if L > 0 && e%L == 0 {
			for at < len(recs) && recs[at].kind == "fwd" && !(recs[at].layer == firstWatched(watched) && trainsNext(recs[at:], watched)) {
				at++
			}
		}
	}
	if q := next(); q != nil {
		r.fail("steps", "after the last batch: unexpected %s", recS(q))
	}
}

func firstWatched(w []bool) int {
	for i, v := range w {
		if v {
			return i
		}
	}
	return -1
}

// trainsNext says whether the forward pass starting here is followed by a
// backward pass or an update, so that it belongs to a training step.
func trainsNext(rs []rec, watched []bool) bool {
	n := 0
	for _, v := range watched {
		if v {
			n++
		}
	}
	return len(rs) > n && rs[n].kind != "fwd"
}

func recS(q *rec) string {
	if q == nil {
		return "the end of the training"
	}
	n := map[string]string{"fwd": "the forward pass", "bwd": "the backward pass", "lossb": "the loss's backward pass", "upd": "the update"}[q.kind]
	if q.kind == "lossb" {
		return n
	}
	return fmt.Sprintf("%s of layer %d", n, q.layer)
}

// t05reference trains a second model by the textbook loop, through the layers
// only, and compares the parameters.
func (r *R) t05reference(spec ModelSpec, x, y nn.Matrix, E, B, L int) {
	m, ref := r.mk(0), r.mk(0)
	var vx, vy nn.Matrix
	if r.p.Seed%3 == 0 {
		vx, vy = mkData(DataSpec{Rows: 2, Seed: r.p.Seed}, spec.in(), spec.out(), spec.Loss)
	}
	var err error
	r.do("fit", func() { err = m.Fit(x, y, E, B, vx, vy, L) })
	if err != nil {
		r.fail("train", "training a valid model failed: %v", err)
	}
	if r.bad() {
		r.stop()
	}
	last := len(ref.Layers) - 1
	r.do("reference", func() {
		for e := 0; e < E; e++ {
			for _, b := range batches(x.Rows, B) {
				err = step(ref, cloneM(rowsOf(x, b)), cloneM(rowsOf(y, b)), spec.Loss == "ce" && spec.Layers[last].K == "softmax")
				if err != nil {
					return
				}
			}
		}
	})
	if err != nil {
		r.fail("train", "a training step through the layers failed: %v", err)
	}
	if r.bad() {
		r.stop()
	}
	r.nontriv = true
	r.mark("%d rows, %d, %d epochs %d layers %s %s", x.Rows, B, E, len(spec.Layers), spec.Loss, spec.Opt)
	r.ev("reference %s", short(dumpParams(ref)))
	for i := range m.Layers {
		w1, b1 := params(m.Layers[i])
		w2, b2 := params(ref.Layers[i])
		for k, pr := range [][2]*nn.Matrix{{w1, w2}, {b1, b2}} {
			if d := close2(pr[0], pr[1], 1e-7); d != "" {
				r.fail("reference", "layer %d %s after %d epochs with batch size %d on %d samples differ from one forward, backward and update per batch (trained / expected): %s", i, []string{"weights", "biases"}[k], E, B, x.Rows, d)
				return
			}
		}
	}
}

// step is one training step on one batch.
func step(m *nn.Model, x, y nn.Matrix, fused bool) error {
	n := len(m.Layers)
	outs := []nn.Matrix{x}
	for _, l := range m.Layers {
		o, err := l.Forward(outs[len(outs)-1])
		if err != nil {
			return err
		}
		outs = append(outs, o)
	}
	dw, db := make([]nn.Matrix, n), make([]nn.Matrix, n)
	var d nn.Matrix
	var err error
	top := n - 1
	if fused {
		dw[top], db[top], d, err = m.Layers[top].(*nn.SoftmaxLayer).BackwardCrossEntropy(outs[top], y, outs[n])
		top--
	} else {
		d, err = m.Loss.Backward(outs[n], y)
	}
	if err != nil {
		return err
	}
	for i := top; i >= 0; i-- {
		dw[i], db[i], d, err = m.Layers[i].Backward(outs[i], d)
		if err != nil {
			return err
		}
	}
	for i := range m.Layers {
		w, b := params(m.Layers[i])
		if err := m.Optimizers[i].Update(w, b, dw[i], db[i]); err != nil {
			return err
		}
	}
	return nil
}

func close2(a, b *nn.Matrix, tol float64) string {
	if a.Rows != b.Rows || a.Cols != b.Cols || len(a.M) != len(b.M) {
		return fmt.Sprintf("%dx%d / %dx%d", a.Rows, a.Cols, b.Rows, b.Cols)
	}
	for i := range a.M {
		for j := range a.M[i] {
			x, y := a.M[i][j], b.M[i][j]
			if math.IsNaN(x) && math.IsNaN(y) || x == y {
				continue
			}
			if !(math.Abs(x-y) <= tol*(1+math.Abs(x)+math.Abs(y))) {
				return fmt.Sprintf("[%d][%d] %g / %g", i, j, x, y)
			}
		}
	}
	return ""
}

func init() {
	register(&Prop{ID: "T01", Quick: 70000, Thoro: 2000000000, Gen: genT01, Run: runT01,
		Rule: "A run gives 2-4 (thorough: 2-5) threads a model and a list of operations each (training with batches, validation and logging, prediction, scoring, saving, loading, serializing, rebuilding, failing calls), on shared or private data, records every result and the final model bit for bit when each thread works alone, and compares with the same lists executed concurrently under a seeded statement-level preemptive schedule; non-trivial: at least two preemptions happened."})
	register(&Prop{ID: "T02", Quick: 200000, Thoro: 2000000000, Gen: genT02, Run: runT02,
		Rule: "A run lets 1-4 threads predict, score, run forward passes and serialize on one shared model (built, trained or loaded) with data of varying row counts under a seeded schedule, compares every result with the same call made alone on a copy, at its return and again at the end, and checks parameters and inputs; non-trivial: two preemptions, or several calls of one thread."})
	register(&Prop{ID: "T03", Quick: 120000, Thoro: 2000000000, Gen: genT03, Run: runT03,
		Rule: "A run trains a model in several calls twice from the same state: once unobserved, once with random predictions, scorings, saves (also to failing and full disks), serializations, failing calls, validation data and logging in between, and compares the parameters bit for bit after every training; non-trivial: at least one observation happened."})
	register(&Prop{ID: "T04", Quick: 250000, Thoro: 2000000000, Gen: genT04, Run: runT04,
		Rule: "A run compares (a) one training call with the same epochs in several calls, (b) training continued from a loaded checkpoint with a newly built model of the same parameters, or (c) a plain-SGD job checkpointing every epoch, killed at seeded statements or by power losses (also with failing saves) and restarted, with an uninterrupted one; non-trivial: several calls, a resumption, or at least one crash."})
	register(&Prop{ID: "T05", Quick: 300000, Thoro: 2000000000, Gen: genT05, Run: runT05,
		Rule: "A run trains a model whose layers, loss and optimizers are watched and checks the whole sequence of calls, their rows, chained values, gradients and parameter pointers; or compares with a textbook loop through the layers; or makes the n-th call of some kind fail and checks the error, that nothing follows, and that nothing was updated; non-trivial: several batches, a comparison, or an injected failure."})
}
