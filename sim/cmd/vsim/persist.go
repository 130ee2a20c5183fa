package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/shim/time"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- helpers

// save, load: one call in its own simulated segment.
type saveRes struct {
	err     error
	done    bool // the call returned
	crashed bool
}

func (r *R) save(m *nn.Model, path string) saveRes {
	return r.saveF(m, path, Step{})
}

// saveF saves under the faults of a step.
func (r *R) saveF(m *nn.Model, path string, s Step) saveRes {
	var res saveRes
	r.fs.Cap = s.Cap
	r.fs.Arm(s.Faults)
	o := r.doKill("save "+path, s.Kill, s.Pow, s.Keep, func() {
		res.err = nn.SaveFile(m, path)
		res.done = true
	})
	r.fs.Disarm()
	r.fs.Cap = 0
	res.crashed = o.crashed
	r.ev("save %s done=%v err=%v crashed=%v", path, res.done, errText(res.err), res.crashed)
	return res
}

func errText(e error) string {
	if e == nil {
		return "nil"
	}
	return e.Error()
}

func (r *R) load(path string) (*nn.Model, error) {
	var m nn.Model
	var err error
	o := r.do("load "+path, func() { m, err = nn.LoadFile(path) })
	_ = o
	if r.bad() {
		r.stop()
	}
	r.ev("load %s err=%v", path, errText(err))
	if err != nil {
		return nil, err
	}
	return &m, nil
}

func (r *R) dumpOf(m *nn.Model) (s string) {
	r.do("dump", func() { s = dump(m) })
	return s
}

// probeOps learns which I/O operations a save performs and how many
// statements it executes, by running it on a scratch disk.
type opInfo struct {
	op   string
	n    int
	path string
}

func probeSave(p *Plan, mi int, oldModel int, path string, prep func(fs *simfs.FS)) (ops []opInfo, steps int64) {
	q := &Plan{Prop: p.Prop, Env: p.Env, Models: p.Models}
	r := &R{p: q, fired: map[string]int{}, stats: map[string]int{}}
	r.fs = simfs.New()
	simfs.Cur = r.fs
	r.process(q.Env)
	if prep != nil {
		prep(r.fs)
	}
	if oldModel >= 0 {
		r.fs.Put(realPath(path), encodeSpec(p.Models[oldModel], simrt.NewRng(1), "1.0.3"))
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stopRun); !ok {
				panic(x)
			}
		}
	}()
	m := r.mk(mi)
	r.fs.KeepTr = true
	r.fs.Arm(nil)
	o := r.do("probe", func() { nn.SaveFile(m, path) })
	for _, t := range r.fs.Trace {
		ops = append(ops, opInfo{t.Op, t.Len, t.Path})
	}
	return ops, o.w.Tasks[0].Steps()
}

func probeLoad(p *Plan, path string, prep func(fs *simfs.FS)) (ops []opInfo, steps int64) {
	q := &Plan{Prop: p.Prop, Env: p.Env, Models: p.Models}
	r := &R{p: q, fired: map[string]int{}, stats: map[string]int{}}
	r.fs = simfs.New()
	simfs.Cur = r.fs
	r.process(q.Env)
	prep(r.fs)
	r.fs.KeepTr = true
	r.fs.Arm(nil)
	o := r.do("probe", func() { nn.LoadFile(path) })
	for _, t := range r.fs.Trace {
		ops = append(ops, opInfo{t.Op, t.Len, t.Path})
	}
	return ops, o.w.Tasks[0].Steps()
}

// pickFault places a fault of one of the kinds at one of the operations; ops
// late in the call (write, sync, close, rename) are preferred.
func pickFault(g *simrt.Rng, ops []opInfo, kinds []string) (simfs.Fault, bool) {
	for try := 0; try < 30; try++ {
		if len(ops) == 0 {
			break
		}
		k := g.Intn(len(ops))
		ap := simfs.Applicable(ops[k].op, kinds)
		if len(ap) == 0 {
			continue
		}
		f := simfs.Fault{Op: k, Kind: ap[g.Intn(len(ap))]}
		if ops[k].n > 0 {
			switch g.Intn(4) {
			case 0:
				f.Arg = g.Intn(ops[k].n + 1)
			case 1:
				f.Arg = 0
			case 2:
				f.Arg = ops[k].n - 1
			default:
				f.Arg = g.Intn(ops[k].n + 1)
			}
		}
		if strings.HasPrefix(f.Kind, "crash") {
			f.Pow = g.Intn(2) == 0
			f.Keep = g.U64()
		} else if g.Intn(8) == 0 {
			f.Stay = simfs.Stays(f.Kind)
		}
		return f, true
	}
	return simfs.Fault{}, false
}

var errFaults = []string{"eio", "enospc", "partial", "emfile", "eacces", "deferred", "shortw"}
var crashFaults = []string{"crash", "crash-torn", "crash-aft"}

// ---------------------------------------------------------------- P01

func genP01(p *Plan, g *simrt.Rng, thorough bool) {
	nm := 1 + g.Intn(3)
	for i := 0; i < nm; i++ {
		o := genOpt{special: true, maxLayers: 5, maxDim: 7}
		switch g.Intn(30) {
		case 0:
			o.maxLayers, o.maxDim = 2, 90 // wide
		case 1:
			o.maxLayers, o.maxDim = 60, 2 // deep
		}
		s := genModel(g, o)
		if g.Intn(25) == 0 { // around the limit of the layer count field
			n := []int{100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 384, 512}[g.Intn(13)]
			s.Layers = nil
			for k := 0; k < n; k++ {
				s.Layers = append(s.Layers, LayerSpec{K: layerKinds[g.Intn(5)], In: 1, Out: 1, P: 0.5})
			}
			if s.WMode == "special" && g.Intn(2) == 0 {
				s.WMode = "normal"
			}
		} else if g.Intn(40) == 0 {
			d := []int{127, 128, 255, 256, 257, 300}[g.Intn(6)]
			s.Layers = []LayerSpec{{K: layerKinds[g.Intn(6)], In: d, Out: 1 + g.Intn(3), P: 0.25}}
			if g.Intn(2) == 0 {
				s.Layers[0].In, s.Layers[0].Out = s.Layers[0].Out, s.Layers[0].In
			}
		}
		p.Models = append(p.Models, s)
	}
	p.Data = []DataSpec{{Rows: 1 + g.Intn(4), Seed: g.U64()}}
	paths := []string{anyPath(g), anyPath(g), anyPath(g), anyPath(g), strings.Repeat("n", 247+g.Intn(9))}
	n := 3 + g.Intn(8)
	if thorough {
		n += g.Intn(10)
	}
	for i := 0; i < n; i++ {
		s := Step{M: g.Intn(nm), Path: paths[g.Intn(len(paths))]}
		switch g.Intn(13) {
		case 0, 1, 2, 3:
			s.K = "save"
		case 4:
			s.K = "load"
		case 5, 6:
			s.K, s.N = "buf", 1+g.Intn(3)
		case 7:
			s.K = "layer"
		case 8:
			s.K, s.N, s.B = "train", 1+g.Intn(2), g.Intn(3)
		case 9:
			s.K, s.Seed = "restart", g.U64()
		case 10:
			s.K, s.N, s.Seed = "junk", []int{0, 1, 10, 5000, 100000}[g.Intn(5)], g.U64()
		case 11:
			s.K = "resave" // load and save again
		case 12: // one that cannot be saved
			s.K, s.S, s.Seed = "bad", badKinds[g.Intn(len(badKinds))], g.U64()
		}
		p.Steps = append(p.Steps, s)
	}
	p.P["touch"] = int64(g.Intn(4))
	if z := g.Intn(3000); z < 6 || p.Index%20000 == 17 { // large files
		size := manyBytes(g, 1<<18, 1<<19, 1<<20, 2<<20)
		if z == 0 {
			size = manyBytes(g, 4<<20, 5_000_000, 8<<20, 10_000_000)
		}
		if p.Index%20000 == 17 {
			size = manyBytes(g, 16<<20, 20_000_000, 32<<20)
			if thorough {
				size = manyBytes(g, 32<<20, 50_000_000, 64<<20, 100_000_000)
			}
		}
		bulk(&p.Models[0], g, size)
		p.Models, p.Steps = p.Models[:1], nil
	}
	if g.Intn(400) == 0 { // sizes beyond 16 bits
		d := []int{32767, 32768, 40000, 65535, 65536, 70000}[g.Intn(6)]
		l := LayerSpec{K: layerKinds[g.Intn(6)], In: d, Out: 1, P: 0.25}
		if g.Intn(2) == 0 {
			l.In, l.Out = 1, d
		}
		s := genModel(g, genOpt{})
		s.Layers = []LayerSpec{l}
		p.Models, p.Steps = []ModelSpec{s}, nil
	}
	p.Steps = append(p.Steps, Step{K: "save", Path: paths[0]}, Step{K: "restart", Seed: g.U64()}, Step{K: "load", Path: paths[0]})
}

func runP01(r *R) {
	prepPaths(r.fs)
	r.fs.Put("/w/d/target.model", []byte("x"))
	models := make([]*nn.Model, len(r.p.Models))
	for i := range models {
		models[i] = r.mk(i)
	}
	stored := map[string]string{}       // path -> dump of what was saved
	storedObs := map[string][2]string{} // path -> observation, model index
	obs := func(mi int, m *nn.Model) (s string) {
		x, y := r.data(0, mi)
		r.do("observe", func() { s = observe(m, x, y) })
		return s
	}
	check := func(path string) {
		want, ok := stored[path]
		m, err := r.load(path)
		if !ok {
			return
		}
		if err != nil {
			r.fail("load", "loading %s after a successful save failed: %v", path, err)
			r.stop()
		}
		r.nontriv = true
		if got := r.dumpOf(m); got != want {
			r.fail("roundtrip", "%s: loaded model differs from the saved one (saved / loaded): %s", path, diff(want, got))
			r.stop()
		}
		var mi int
		fmt.Sscan(storedObs[path][1], &mi)
		if got := obs(mi, m); got != storedObs[path][0] {
			r.fail("predict", "%s: loaded model predicts differently (saved / loaded): %s", path, diff(storedObs[path][0], got))
			r.stop()
		}
		if r.p.P["touch"] != 1 {
			return
		}
		// what is done with a loaded model stays with it
		mine := r.dumpOf(models[mi])
		x, y := r.data(0, mi)
		r.do("touch", func() {
			g := simrt.NewRng(simrt.Mix(r.p.Seed, uint64(len(path))))
			if ls := r.p.Models[mi].Layers; ls[0].In < 1000 && ls[0].Out < 1000 {
				m.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0)
			}
			for _, l := range m.Layers {
				fillLayer(l, g, "normal")
			}
			for k := range m.OptimizerValues {
				m.OptimizerValues[k] = 77
			}
		})
		if r.bad() {
			r.stop()
		}
		if got := r.dumpOf(models[mi]); got != mine {
			r.fail("shared", "%s: training the loaded model changed the one that was saved: %s", path, diff(mine, got))
			r.stop()
		}
		m2, err := r.load(path)
		if err != nil {
			r.fail("load", "loading %s again failed: %v", path, err)
			r.stop()
		}
		if got := r.dumpOf(m2); got != want {
			r.fail("roundtrip", "%s: the model loaded again, after the first one loaded was trained, differs from the saved one (saved / loaded): %s", path, diff(want, got))
			r.stop()
		}
	}
	for si, s := range r.p.Steps {
		if s.M >= len(models) {
			s.M = 0
		}
		m := models[s.M]
		switch s.K {
		case "save":
			d0 := r.dumpOf(m)
			ob := obs(s.M, m)
			res := r.save(m, s.Path)
			if r.bad() {
				r.stop()
			}
			if res.err != nil {
				if representable(r.p.Models[s.M]) {
					r.fail("save", "saving a valid model failed: %v", res.err)
					r.stop()
				}
				r.stat("refused", 1)
				r.mark("refused%d", len(r.p.Models[s.M].Layers))
				delete(stored, s.Path)
				continue
			}
			stored[s.Path] = d0
			storedObs[s.Path] = [2]string{ob, fmt.Sprint(s.M)}
			check(s.Path)
		case "bad":
			bm := r.mk(s.M)
			d0 := ""
			r.do("spoil", func() { spoil(bm, s.S, simrt.NewRng(s.Seed)); d0 = dump(bm) })
			res := r.save(bm, s.Path)
			if r.bad() {
				r.stop()
			}
			if res.err != nil {
				r.stat("refused", 1)
				check(s.Path)
				continue
			}
			delete(stored, s.Path)
			lm, err := r.load(s.Path)
			if err != nil {
				r.fail("load", "a model that cannot be saved (%s) was reported as saved, and loading it failed: %v", s.S, err)
				r.stop()
			}
			if got := r.dumpOf(lm); got != d0 {
				r.fail("roundtrip", "a model that cannot be saved (%s) was reported as saved and loads as something else (saved / loaded): %s", s.S, diff(d0, got))
				r.stop()
			}
		case "load":
			check(s.Path)
		case "resave":
			if stored[s.Path] == "" {
				continue
			}
			lm, err := r.load(s.Path)
			if err != nil {
				r.fail("load", "loading %s after a successful save failed: %v", s.Path, err)
				r.stop()
			}
			if res := r.save(lm, s.Path); res.err != nil {
				r.fail("save", "saving a loaded model failed: %v", res.err)
				r.stop()
			}
			check(s.Path)
		case "buf":
			d0 := r.dumpOf(m)
			ob := obs(s.M, m)
			for k := 0; k < s.N; k++ {
				var buf bytes.Buffer
				var err error
				var m2 nn.Model
				r.do("serialize", func() {
					d := nn.NewSavedModelData(*m)
					err = d.Serialize(&buf)
				})
				if r.bad() {
					r.stop()
				}
				if err != nil {
					if representable(r.p.Models[s.M]) {
						r.fail("save", "serializing a valid model failed: %v", err)
						r.stop()
					}
					break
				}
				r.do("loadmodel", func() { m2, err = nn.LoadModel(&buf) })
				if r.bad() {
					r.stop()
				}
				if err != nil {
					r.fail("load", "loading a serialized model of %d layers failed: %v", len(m.Layers), err)
					r.stop()
				}
				if buf.Len() != 0 {
					r.fail("roundtrip", "%d bytes of the serialized model were not read", buf.Len())
					r.stop()
				}
				r.nontriv = true
				if got := r.dumpOf(&m2); got != d0 {
					r.fail("roundtrip", "model read from a buffer differs (saved / loaded): %s", diff(d0, got))
					r.stop()
				}
				if got := obs(s.M, &m2); got != ob {
					r.fail("predict", "model read from a buffer predicts differently: %s", diff(ob, got))
					r.stop()
				}
			}
		case "layer":
			for _, l := range m.Layers {
				var buf, b1, b2 bytes.Buffer
				var err error
				var l2 nn.Layer
				r.do("layer", func() {
					d := nn.NewSavedLayerData(l)
					if err = d.SerializeLayer(&buf); err == nil {
						l2, err = nn.LoadLayer(&buf)
					}
				})
				if r.bad() {
					r.stop()
				}
				if err != nil {
					r.fail("load", "layer round trip failed: %v", err)
					r.stop()
				}
				dumpLayer(&b1, l)
				dumpLayer(&b2, l2)
				if b1.String() != b2.String() {
					r.fail("roundtrip", "layer differs after a round trip: %s", diff(b1.String(), b2.String()))
					r.stop()
				}
			}
		case "train":
			x, y := r.data(0, s.M)
			r.do("fit", func() { m.Fit(x, y, s.N, s.B, nn.Matrix{}, nn.Matrix{}, 0) })
			if r.bad() {
				r.stop()
			}
		case "restart":
			// an orderly end: what was in memory is gone, files stay
			sp := r.p.Env
			sp.Seed = s.Seed
			r.restart(sp)
			for i := range models {
				models[i] = r.mk(i)
			}
			for _, path := range sortedKeys(stored) {
				check(path)
			}
		case "junk":
			g := simrt.NewRng(s.Seed)
			b := make([]byte, s.N)
			for i := range b {
				b[i] = byte(g.U64())
			}
			r.fs.Put(realPath(s.Path), b)
			delete(stored, s.Path)
		}
		if r.bad() {
			r.stop()
		}
		r.mark("%d%s", si, s.K)
	}
	r.mark("%v", r.p.Models)
}

// representable says whether the documented format can hold the model: its
// layer count is one signed byte.
func representable(s ModelSpec) bool { return len(s.Layers) <= 127 && s.Bad == "" }

// ---------------------------------------------------------------- P02 and P03

// A register with two views: what a process sees and what may be durable.
type regState struct {
	vis map[string]bool // possible visible contents ("" means no model)
	dur map[string]bool // possible contents after a power loss
}

func newReg(v string) *regState {
	return &regState{map[string]bool{v: true}, map[string]bool{v: true}}
}

func genSaveModels(p *Plan, g *simrt.Rng, n int) {
	for i := 0; i < n; i++ {
		o := genOpt{maxLayers: 3, maxDim: 5}
		switch g.Intn(12) {
		case 0:
			o.maxDim = 40 // several pages
		case 1:
			o.maxLayers = 1
			o.maxDim = 2
		}
		s := genModel(g, o)
		if g.Intn(400) == 0 {
			bulk(&s, g, manyBytes(g, 1<<15, 1<<16, 1<<16, 1<<17, 1<<18))
		}
		p.Models = append(p.Models, s)
	}
	if p.Index%20000 == 11 {
		for i := range p.Models {
			bulk(&p.Models[i], g, manyBytes(g, 1<<19, 1<<20, 1<<21))
		}
	}
}

func genP02(p *Plan, g *simrt.Rng, thorough bool) {
	n := 2 + g.Intn(3)
	genSaveModels(p, g, n)
	path := anyPath(g)
	p.P["old"] = int64(g.Intn(4)) // 0: nothing stored at first
	p.Path = path
	k := 1 + g.Intn(3)
	if thorough {
		k = 1 + g.Intn(6)
	}
	for i := 0; i < k; i++ {
		s := Step{K: "save", M: 1 + g.Intn(n-1), Path: path, Keep: g.U64(), Pow: g.Intn(2) == 0}
		ops, steps := probeSave(p, s.M, 0, path, prepPaths)
		switch g.Intn(10) {
		case 0, 1: // an error
			if f, ok := pickFault(g, ops, errFaults); ok {
				s.Faults = append(s.Faults, f)
			}
			if g.Intn(4) == 0 {
				if f, ok := pickFault(g, ops, errFaults); ok {
					s.Faults = append(s.Faults, f)
				}
			}
		case 2: // the disk fills up
			s.Cap = 1 + int64(g.Intn(4000))
		case 3, 4, 5, 6: // crash at an operation
			if f, ok := pickFault(g, ops, crashFaults); ok {
				s.Faults = append(s.Faults, f)
			}
		case 7, 8: // kill at a statement, often close to the end
			if g.Intn(2) == 0 {
				s.Kill = 1 + int64(g.U64()%uint64(steps+1))
			} else {
				s.Kill = steps - int64(g.Intn(60))
			}
			if s.Kill < 1 {
				s.Kill = 1
			}
		case 9: // a model that cannot be saved
			s.K = "bad"
			s.S = badKinds[g.Intn(len(badKinds))]
		}
		p.Steps = append(p.Steps, s)
		if g.Intn(3) == 0 {
			p.Steps = append(p.Steps, Step{K: "crash", Pow: g.Intn(3) > 0, Keep: g.U64(), Path: path})
		}
	}
}

var badKinds = []string{"weights", "biases", "layers", "deeplast", "empty"}

// spoil makes a model that cannot be saved.
func spoil(m *nn.Model, how string, g *simrt.Rng) {
	if how == "empty" {
		*m = nn.NewModel()
		return
	}
	k := g.Intn(len(m.Layers))
	if how == "deeplast" {
		k = len(m.Layers) - 1
	}
	w, b := params(m.Layers[k])
	switch how {
	case "weights", "deeplast":
		x, _ := nn.NewMatrix(w.Rows+1, w.Cols)
		*w = x
	case "biases":
		x, _ := nn.NewMatrix(1, b.Cols+1)
		*b = x
	case "layers":
		for len(m.Layers) < 130+g.Intn(200) {
			out := m.OutputSize
			if out > 100 {
				out = 1
			}
			l, _ := nn.NewLinearLayer(m.OutputSize, out)
			m.AddLayer(&l)
		}
	}
}

func runP02(r *R) {
	path := r.p.Path
	prepPaths(r.fs)
	var dumps []string
	for i := range r.p.Models {
		dumps = append(dumps, r.dumpOf(r.mk(i)))
	}
	real := realPath(path)
	cur := ""
	if r.p.P["old"] > 0 {
		r.fs.Put(real, encodeSpec(r.p.Models[0], simrt.NewRng(r.p.Seed), "1.0.3"))
		cur = dumps[0]
	}
	reg := newReg(cur)
	name := func(d string) string {
		if d == "" {
			return "no model"
		}
		for i := range dumps {
			if dumps[i] == d {
				return fmt.Sprintf("model %d", i)
			}
		}
		return "an unknown model"
	}
	set := func(m map[string]bool) string {
		var s []string
		for _, k := range sortedKeys(m) {
			s = append(s, name(k))
		}
		sort.Strings(s)
		return strings.Join(s, " or ")
	}
	check := func(what string) {
		m, err := r.load(path)
		got := ""
		if err == nil {
			got = r.dumpOf(m)
		}
		if !reg.vis[got] {
			if err != nil {
				r.fail("lost", "%s: the stored model is gone: load fails with %v; it must be %s", what, err, set(reg.vis))
			} else {
				near := ""
				for _, k := range sortedKeys(reg.vis) {
					near = diff(k, got)
				}
				r.fail("mixed", "%s: load returns %s, it must be %s (expected / got: %s)", what, name(got), set(reg.vis), near)
			}
			r.stop()
		}
		reg.vis = map[string]bool{got: true}
		r.mark("%s->%s", what, name(got))
		r.ev("state %s", name(got))
	}
	for si, s := range r.p.Steps {
		switch s.K {
		case "save":
			if s.M >= len(r.p.Models) {
				s.M = 0
			}
			m := r.mk(s.M)
			res := r.saveF(m, path, s)
			if r.bad() {
				r.stop()
			}
			what := fmt.Sprintf("step %d, save of model %d over %s%s", si, s.M, set(reg.vis), faultText(s))
			switch {
			case res.crashed:
				reg.vis[dumps[s.M]] = true
				reg.dur[dumps[s.M]] = true
				if r.fs.Powered {
					reg.vis = copySet(reg.dur)
				}
				r.nontriv = true
				r.restart(r.p.Env)
				check(what + ", crash, restart")
			case res.err != nil:
				reg.vis[dumps[s.M]] = true
				reg.dur[dumps[s.M]] = true
				r.nontriv = true
				check(what + ": failed with " + res.err.Error())
			default:
				reg.vis = map[string]bool{dumps[s.M]: true}
				reg.dur[dumps[s.M]] = true // P03 decides whether it is durable
				if len(s.Faults) > 0 || s.Cap > 0 {
					r.nontriv = true
				}
				check(what + ": reported success")
			}
		case "bad":
			var m *nn.Model
			if s.M >= len(r.p.Models) {
				s.M = 0
			}
			m = r.mk(s.M)
			g := simrt.NewRng(s.Keep)
			var err error
			done := false
			r.do("spoil", func() { spoil(m, s.S, g) })
			r.do("save bad", func() { err = nn.SaveFile(m, path); done = true })
			if r.bad() {
				r.stop()
			}
			if done && err == nil {
				// what cannot be saved was reported as saved: whether it is right
				// is P01's business, but the model stored must not be lost
				if _, err := r.load(path); err != nil && !r.bad() {
					r.fail("lost", "step %d, save of a model that cannot be saved (%s) reported success, and now load fails with %v", si, s.S, err)
				}
				r.ev("bad model accepted")
				return
			}
			r.nontriv = true
			r.fired["unsavable"]++
			check(fmt.Sprintf("step %d, save of a model that cannot be saved (%s) failed with %v", si, s.S, err))
		case "crash":
			if s.Pow {
				r.fs.Fired["power"]++
				reg.vis = copySet(reg.dur)
			} else {
				r.fs.Fired["kill"]++
			}
			r.fs.CrashAt(s.Pow, s.Keep)
			r.restart(r.p.Env)
			check(fmt.Sprintf("step %d, restart (power loss: %v)", si, s.Pow))
		}
	}
}

func copySet(m map[string]bool) map[string]bool {
	c := map[string]bool{}
	for k := range m {
		c[k] = true
	}
	return c
}

func faultText(s Step) string {
	var t []string
	for _, f := range s.Faults {
		x := fmt.Sprintf("%s at I/O operation %d", f.Kind, f.Op)
		if f.Arg > 0 {
			x += fmt.Sprintf(" (arg %d)", f.Arg)
		}
		if strings.HasPrefix(f.Kind, "crash") {
			if f.Pow {
				x += " with power loss"
			} else {
				x += " (process kill)"
			}
		}
		if f.Stay {
			x += " and from then on"
		}
		t = append(t, x)
	}
	if s.Kill > 0 {
		t = append(t, fmt.Sprintf("killed at statement %d, power loss %v", s.Kill, s.Pow))
	}
	if s.Cap > 0 {
		t = append(t, fmt.Sprintf("disk capacity %d bytes", s.Cap))
	}
	if s.Short > 0 {
		t = append(t, "legal short reads")
	}
	if len(t) == 0 {
		return ""
	}
	return " with " + strings.Join(t, ", ")
}

// P03: what was acknowledged survives everything later.
func genP03(p *Plan, g *simrt.Rng, thorough bool) {
	n := 2 + g.Intn(2)
	if g.Intn(5) == 0 {
		genP03Threads(p, g, thorough)
		return
	}
	genSaveModels(p, g, n)
	paths := []string{anyPath(g), anyPath(g), anyPath(g), anyPath(g)}
	k := 2 + g.Intn(4)
	if thorough {
		k += g.Intn(6)
	}
	for i := 0; i < k; i++ {
		s := Step{K: "save", M: g.Intn(n), Path: paths[g.Intn(len(paths))], Keep: g.U64(), Pow: g.Intn(4) > 0}
		switch g.Intn(10) {
		case 0, 1, 2: // fault-free
		case 3, 4, 5, 6:
			ops, _ := probeSave(p, s.M, g.Intn(n), s.Path, prepPaths)
			if f, ok := pickFault(g, ops, errFaults); ok {
				s.Faults = append(s.Faults, f)
			}
			if g.Intn(3) == 0 {
				if f, ok := pickFault(g, ops, errFaults); ok {
					s.Faults = append(s.Faults, f)
				}
			}
		case 7:
			s.Cap = 1 + int64(g.Intn(6000))
		case 8:
			s.K = "load"
		case 9:
			s.K = "write" // somebody else's file activity
			s.Path = "other" + fmt.Sprint(g.Intn(3))
			s.N = g.Intn(3000)
		}
		p.Steps = append(p.Steps, s)
		if g.Intn(2) == 0 {
			p.Steps = append(p.Steps, Step{K: "crash", Pow: g.Intn(5) > 0, Keep: g.U64()})
		}
	}
	p.Steps = append(p.Steps, Step{K: "crash", Pow: true, Keep: g.U64()})
}

// Several threads save to the same paths, something fails or the machine goes
// down: every path then holds a save no acknowledged one came after.
func genP03Threads(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = "threads"
	nt := 2 + g.Intn(2)
	nm := 2 + g.Intn(3)
	for i := 0; i < nm; i++ {
		p.Models = append(p.Models, genModel(g, genOpt{maxLayers: 2, maxDim: 3}))
	}
	paths := []string{"a.model", "d/b.model", "/w/link", "d/../a.model"}[:1+g.Intn(4)]
	for t := 0; t < nt; t++ {
		k := 1 + g.Intn(2)
		if thorough {
			k += g.Intn(2)
		}
		for i := 0; i < k; i++ {
			s := Step{T: t, K: "save", M: g.Intn(nm), Path: paths[g.Intn(len(paths))]}
			if g.Intn(2) == 0 {
				s.Path = paths[0]
			}
			p.Steps = append(p.Steps, s)
		}
	}
	p.P["old"] = int64(g.Intn(2))
	if g.Intn(4) > 0 {
		ops, _ := probeSave(p, 0, 0, "a.model", prepPaths)
		nf := 1 + g.Intn(3)
		for i := 0; i < nf; i++ {
			if f, ok := pickFault(g, ops, errFaults); ok {
				f.Op += g.Intn(2*len(ops) + 1)
				p.Steps[0].Faults = append(p.Steps[0].Faults, f)
			}
		}
	}
	if g.Intn(2) == 0 {
		p.P["kill"] = int64(g.U64() >> 2)
		p.P["killtask"] = int64(g.Intn(nt))
	}
	p.P["pow"] = int64(g.Intn(5))
	p.P["keep"] = int64(g.U64() >> 1)
	p.Sched = simrt.Sched{Mode: "random", Seed: g.U64(), Mean: []int64{3, 10, 30, 100, 400, 1500}[g.Intn(6)]}
}

func runP03Threads(r *R) {
	p := r.p
	var dumps []string
	for i := range p.Models {
		dumps = append(dumps, r.dumpOf(r.mk(i)))
	}
	canon := realPath
	per := map[int][]Step{}
	maxT := 0
	var faults []simfs.Fault
	for _, s := range p.Steps {
		per[s.T] = append(per[s.T], s)
		if s.T > maxT {
			maxT = s.T
		}
		faults = append(faults, s.Faults...)
	}
	var hist map[string][]*hop
	init := map[string]string{}
	round := func(kill int64) out {
		r.freshDisk()
		prepPaths(r.fs)
		r.process(p.Env)
		ms := make([]*nn.Model, len(p.Models))
		for i := range ms {
			ms[i] = r.mk(i)
		}
		if p.P["old"] > 0 {
			for _, f := range []string{"a.model", "d/b.model", "/w/d/target.model"} {
				r.fs.Put(f, encodeSpec(p.Models[0], simrt.NewRng(1), "1.0.3"))
				init[canon(f)] = dumps[0]
			}
		}
		hist = map[string][]*hop{}
		var ts []taskFn
		kt := 0
		for t := 0; t <= maxT; t++ {
			steps := per[t]
			if len(steps) == 0 {
				continue
			}
			if int64(t) == p.P["killtask"] {
				kt = len(ts)
			}
			env := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(p.Seed, 50, uint64(t)), Clock: p.Env.Clock})
			ts = append(ts, taskFn{fmt.Sprintf("t%d", t), env, func() {
				for _, s := range steps {
					mi := s.M % len(ms)
					h := &hop{task: t, save: true, call: simrt.Event(), ret: 1 << 60, val: dumps[mi], mayNotHave: true}
					h.text = fmt.Sprintf("t%d save(model %d, %s) unfinished", t, mi, s.Path)
					hist[canon(s.Path)] = append(hist[canon(s.Path)], h)
					err := nn.SaveFile(ms[mi], s.Path)
					h.ret = simrt.Event()
					h.ok, h.mayNotHave, h.done = err == nil, err != nil, true
					h.text = fmt.Sprintf("t%d save(model %d, %s) -> %v", t, mi, s.Path, errText(err))
				}
			}})
		}
		r.fs.Arm(faults)
		o := r.seg(p.Sched, kt, kill, p.P["pow"] > 0, uint64(p.P["keep"]), ts...)
		r.fs.Disarm()
		if r.bad() {
			r.stop()
		}
		return o
	}
	check := func(what string) {
		for _, path := range sortedKeys(hist) {
			ops := hist[path]
			m, err := r.load(path)
			val, name := "", errText(err)
			if err == nil {
				val, name = r.dumpOf(m), "a model nobody saved"
				for i := range dumps {
					if dumps[i] == val {
						name = fmt.Sprintf("model %d", i)
					}
				}
			}
			// the stored model before counts as a save acknowledged long ago
			all := append([]*hop{{save: true, ok: true, done: true, call: -2, ret: -1, val: init[path]}}, ops...)
			fine := false
			for _, h := range all {
				if h.val != val || err != nil && !errors.Is(err, errNotExist) {
					continue
				}
				over := false
				for _, a := range ops {
					over = over || a.ok && a.call > h.ret
				}
				fine = fine || !over
			}
			r.ev("%s: %s -> %s", what, path, name)
			if !fine {
				r.fail("lost", "%s: load of %s gives %s; an acknowledged save was lost:\n%s", what, path, name, histText(ops))
				r.stop()
			}
		}
	}
	note := func() {
		for _, path := range sortedKeys(hist) {
			for _, h := range hist[path] {
				r.ev("[%d,%d] %s", h.call, h.ret, h.text)
				if h.ok {
					r.stat("acknowledged", 1)
					r.nontriv = true
				} else {
					r.stat("refused", 1)
				}
				if h.done && !h.ok && len(faults) == 0 {
					r.fail("save", "a save without any fault failed: %s", h.text)
					r.stop()
				}
			}
		}
	}
	round(0)
	world := r.last
	note()
	check("after all saves")
	r.fs.CrashAt(p.P["pow"] > 0, uint64(p.P["keep"]))
	r.fs.Fired[[]string{"kill", "power"}[b2i(p.P["pow"] > 0)]]++
	r.restart(p.Env)
	check(fmt.Sprintf("after all saves and a crash (power loss: %v)", p.P["pow"] > 0))
	if p.P["kill"] > 0 && int(p.P["killtask"]) < len(world.Tasks) {
		if st := world.Tasks[p.P["killtask"]].Steps(); st > 0 {
			o := round(1 + p.P["kill"]%st)
			note()
			if o.crashed {
				r.restart(p.Env)
				check(fmt.Sprintf("after a crash amid the saves (power loss: %v)", p.P["pow"] > 0))
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runP03(r *R) {
	if r.p.Kind == "threads" {
		runP03Threads(r)
		return
	}
	prepPaths(r.fs)
	var dumps []string
	for i := range r.p.Models {
		dumps = append(dumps, r.dumpOf(r.mk(i)))
	}
	// path -> dump that must be there; absent: anything goes
	must := map[string]string{}
	who := map[string]string{}
	check := func(what string) {
		for _, path := range sortedKeys(must) {
			m, err := r.load(path)
			if err != nil {
				r.fail("lost", "%s: %s was acknowledged (%s), but load fails: %v", what, path, who[path], err)
				r.stop()
			}
			if got := r.dumpOf(m); got != must[path] {
				r.fail("lost", "%s: %s was acknowledged (%s), but load returns another model (acknowledged / loaded): %s", what, path, who[path], diff(must[path], got))
				r.stop()
			}
		}
	}
	for si, s := range r.p.Steps {
		switch s.K {
		case "save":
			if s.M >= len(r.p.Models) {
				s.M = 0
			}
			m := r.mk(s.M)
			delete(must, s.Path)
			res := r.saveF(m, s.Path, s)
			if r.bad() {
				r.stop()
			}
			faulty := len(s.Faults) > 0 || s.Cap > 0
			if res.err == nil && res.done {
				must[s.Path] = dumps[s.M]
				who[s.Path] = fmt.Sprintf("step %d, model %d%s", si, s.M, faultText(s))
				r.nontriv = true
				r.stat("acknowledged", 1)
				if faulty {
					r.stat("acknowledged despite faults", 1)
				}
			} else if !faulty {
				r.fail("save", "step %d: a save without any fault failed: %v", si, res.err)
				r.stop()
			} else {
				r.stat("refused", 1)
			}
			check(fmt.Sprintf("after step %d", si))
		case "load":
			check(fmt.Sprintf("step %d", si))
		case "write":
			r.fs.Put("/w/"+s.Path, make([]byte, s.N))
		case "crash":
			if s.Pow {
				r.fs.Fired["power"]++
			} else {
				r.fs.Fired["kill"]++
			}
			r.fs.CrashAt(s.Pow, s.Keep)
			r.restart(r.p.Env)
			check(fmt.Sprintf("step %d, restart after a crash (power loss: %v)", si, s.Pow))
		}
		r.mark("%d %s %s %v", si, s.K, s.Path, s.Faults)
	}
}

// ---------------------------------------------------------------- P05

func genP05(p *Plan, g *simrt.Rng, thorough bool) {
	o := genOpt{maxLayers: 3, maxDim: 6, special: g.Intn(3) == 0}
	if g.Intn(6) == 0 {
		o.maxDim = 40
	}
	p.Models = []ModelSpec{genModel(g, o), genModel(g, o)}
	if g.Intn(500) == 0 {
		bulk(&p.Models[0], g, manyBytes(g, 1<<15, 1<<16, 1<<17, 1<<18))
	}
	if p.Index%20000 == 19 {
		bulk(&p.Models[0], g, manyBytes(g, 1<<20, 2<<20, 4<<20))
	}
	data := encodeSpec(p.Models[0], simrt.NewRng(1), "1.0.3")
	k := 1 + g.Intn(4)
	for i := 0; i < k; i++ {
		s := Step{K: "load", Path: "a.model"}
		if g.Intn(2) == 0 {
			s.Short = g.U64() | 1
		}
		ops, _ := probeLoad(p, "a.model", func(fs *simfs.FS) { fs.Put("a.model", data) })
		nf := g.Intn(3)
		if s.Short == 0 && nf == 0 {
			nf = 1
		}
		for j := 0; j < nf; j++ {
			f, ok := pickFault(g, ops, []string{"short", "eof", "eio", "eio-part", "emfile", "eacces", "short"})
			if !ok {
				continue
			}
			if g.Intn(3) == 0 { // later reads, which exist only after short ones
				f.Op += g.Intn(4)
			}
			s.Faults = append(s.Faults, f)
		}
		if g.Intn(8) == 0 {
			s.K = "save" // replace the file between loads
			s.M = g.Intn(2)
			s.Faults, s.Short = nil, 0
		}
		p.Steps = append(p.Steps, s)
	}
}

func runP05(r *R) {
	r.fs.Put("a.model", encodeSpec(r.p.Models[0], simrt.NewRng(r.p.Seed), "1.0.3"))
	want := r.dumpOf(r.mk(0))
	for si, s := range r.p.Steps {
		if s.K == "save" {
			m := r.mk(s.M % len(r.p.Models))
			if res := r.save(m, "a.model"); res.err != nil {
				r.fail("save", "a save without any fault failed: %v", res.err)
				r.stop()
			}
			want = r.dumpOf(m)
			continue
		}
		before, _ := r.fs.Get("a.model")
		before = append([]byte(nil), before...)
		var m nn.Model
		var err error
		f0 := map[string]int{}
		for k, v := range r.fs.Fired {
			f0[k] = v
		}
		r.fs.ShortR = nil
		if s.Short != 0 {
			r.fs.ShortR = simrt.NewRng(s.Short)
		}
		r.fs.Arm(s.Faults)
		r.do("load", func() { m, err = nn.LoadFile(s.Path) })
		r.fs.Disarm()
		r.fs.ShortR = nil
		if r.bad() {
			r.stop()
		}
		hard := 0
		for k, v := range r.fs.Fired {
			if k != "short" {
				hard += v - f0[k]
			}
		}
		if hard > 0 || r.fs.Fired["short"] > f0["short"] {
			r.nontriv = true
		}
		r.ev("load err=%v hard=%d short=%d", errText(err), hard, r.fs.Fired["short"]-f0["short"])
		if err != nil && hard == 0 {
			r.fail("shortread", "step %d: load%s failed although every read was legal: %v", si, faultText(s), err)
			r.stop()
		}
		if err == nil {
			if got := r.dumpOf(&m); got != want {
				r.fail("wrong", "step %d: load%s returned a wrong model without an error (stored / loaded): %s", si, faultText(s), diff(want, got))
				r.stop()
			}
		}
		after, _ := r.fs.Get("a.model")
		if !bytes.Equal(before, after) {
			r.fail("changed", "step %d: load changed the file", si)
		}
		r.mark("%v %v", s.Faults, errText(err))
	}
}

// ---------------------------------------------------------------- P08

func genP08(p *Plan, g *simrt.Rng, thorough bool) {
	genSaveModels(p, g, 2)
	paths := []string{anyPath(g), anyPath(g), anyPath(g), "nodir/x.model", "", "d", "a.model/x", "/dev/null", "garbage", "ro.model"}
	k := 2 + g.Intn(6)
	if thorough {
		k += g.Intn(10)
	}
	for i := 0; i < k; i++ {
		s := Step{K: "save", M: g.Intn(2), Path: paths[g.Intn(len(paths))], Keep: g.U64()}
		if g.Intn(2) == 0 {
			s.Path = paths[g.Intn(3)]
		}
		if g.Intn(5) < 2 {
			s.K = "load"
		}
		if g.Intn(8) == 0 {
			s.K, s.S = "bad", badKinds[g.Intn(len(badKinds))]
		}
		if g.Intn(3) > 0 && s.K != "bad" {
			var ops []opInfo
			if s.K == "save" {
				ops, _ = probeSave(p, s.M, g.Intn(2), "a.model", prepPaths)
			} else {
				ops, _ = probeLoad(p, "a.model", func(fs *simfs.FS) {
					fs.Put("a.model", encodeSpec(p.Models[0], simrt.NewRng(1), "1.0.3"))
				})
			}
			nf := 1 + g.Intn(2)
			for j := 0; j < nf; j++ {
				if f, ok := pickFault(g, ops, []string{"eio", "enospc", "partial", "emfile", "eacces", "deferred", "shortw", "short", "eof", "eio-part"}); ok {
					s.Faults = append(s.Faults, f)
				}
			}
		}
		if g.Intn(12) == 0 && s.K == "save" {
			s.Cap = 1 + int64(g.Intn(5000))
		}
		p.Steps = append(p.Steps, s)
	}
	if g.Intn(12) == 0 && p.Models[0].params()+p.Models[1].params() < 5000 {
		p.P["many"] = 1
		if len(p.Steps) > 3 {
			p.Steps = p.Steps[:3]
		}
	} else if g.Intn(3) == 0 { // several tasks at once
		p.Kind = "tasks"
		for i := range p.Steps {
			p.Steps[i].T = g.Intn(3)
			p.Steps[i].Faults, p.Steps[i].Cap = nil, 0
			if p.Steps[i].K == "bad" {
				p.Steps[i].K = "save"
			}
		}
		p.Sched = simrt.Sched{Mode: "random", Seed: g.U64(), Mean: []int64{5, 40, 300, 2000}[g.Intn(4)]}
	}
}

func runP08(r *R) {
	prepPaths(r.fs)
	r.fs.Put("garbage", []byte("garbage"))
	r.fs.Put("/w/d/target.model", encodeSpec(r.p.Models[0], simrt.NewRng(3), "1.0.3"))
	r.fs.Put("neighbour.tmp", []byte("neighbour"))
	r.fs.Put("a.model.tmp", []byte("neighbour 2"))
	r.fs.Put("a.model.bak", []byte("neighbour 3"))
	r.fs.Put("d/b.model~", []byte("neighbour 4"))
	ms := []*nn.Model{r.mk(0), r.mk(1 % len(r.p.Models))}
	snap := func() map[string]string {
		s := map[string]string{}
		for _, p := range r.fs.List() {
			if l := r.fs.LinkOf(p); l != "" {
				s[p] = "link to " + l
				continue
			}
			d, _ := r.fs.Get(p)
			s[p] = string(d)
		}
		return s
	}
	check := func(what string, before map[string]string, targets map[string]bool, removeFailed bool) {
		if n := len(r.fs.Open); n > 0 {
			var l []string
			for h := range r.fs.Open {
				l = append(l, h.Name())
			}
			sort.Strings(l)
			r.fail("handles", "%s: %d open file(s) left: %s", what, n, strings.Join(l, ", "))
		}
		after := snap()
		for _, p := range sortedKeys(after) {
			if targets[p] {
				continue
			}
			b, ok := before[p]
			if !ok {
				if !removeFailed {
					r.fail("tempfile", "%s: left the file %s behind", what, p)
				}
			} else if b != after[p] {
				r.fail("neighbour", "%s: changed the file %s", what, p)
			}
		}
		for _, p := range sortedKeys(before) {
			if _, ok := after[p]; !ok && !targets[p] {
				r.fail("neighbour", "%s: removed the file %s", what, p)
			}
		}
		if r.bad() {
			r.stop()
		}
	}
	target := realPath
	if r.p.Kind == "tasks" {
		before := snap()
		targets := map[string]bool{}
		per := map[int][]Step{}
		for _, s := range r.p.Steps {
			per[s.T] = append(per[s.T], s)
			if s.K == "save" {
				targets[target(s.Path)] = true
			}
		}
		var ts []taskFn
		for t := 0; t < 3; t++ {
			steps := per[t]
			if len(steps) == 0 {
				continue
			}
			ts = append(ts, taskFn{fmt.Sprintf("t%d", t), r.env, func() {
				for _, s := range steps {
					if s.K == "save" {
						nn.SaveFile(ms[s.M%2], s.Path)
					} else {
						nn.LoadFile(s.Path)
					}
				}
			}})
		}
		r.seg(r.p.Sched, 0, 0, false, 0, ts...)
		if r.bad() {
			r.stop()
		}
		r.nontriv = len(ts) > 1
		check("concurrent saves and loads", before, targets, false)
		return
	}
	for si, s := range r.p.Steps {
		before := snap()
		targets := map[string]bool{}
		rm0 := r.fs.FiredOp["remove"]
		var err error
		m := ms[s.M%2]
		if s.K == "bad" {
			m = r.mk(s.M % len(r.p.Models))
			r.do("spoil", func() { spoil(m, s.S, simrt.NewRng(s.Keep)) })
		}
		r.fs.Cap = s.Cap
		r.fs.Arm(s.Faults)
		if s.K == "load" {
			r.do("load", func() { _, err = nn.LoadFile(s.Path) })
		} else {
			targets[target(s.Path)] = true
			r.do("save", func() { err = nn.SaveFile(m, s.Path) })
		}
		r.fs.Disarm()
		r.fs.Cap = 0
		if r.bad() {
			r.stop()
		}
		if err != nil {
			r.nontriv = true
			r.stat("failed calls", 1)
		}
		r.ev("%s %s err=%v", s.K, s.Path, errText(err))
		// a save that failed before it had anything to store leaves no new target either
		if _, had := before[target(s.Path)]; s.K == "bad" && !had && err != nil {
			targets = map[string]bool{}
		}
		check(fmt.Sprintf("step %d, %s %q%s returned %v", si, s.K, s.Path, faultText(s), errText(err)), before, targets, r.fs.FiredOp["remove"] > rm0)
		r.mark("%s %s %v %v", s.K, s.Path, s.Faults, errText(err) != "nil")
	}
	if r.p.P["many"] == 0 {
		return
	}
	// the same again and again: what calls leave running may not grow with them
	var left []int
	for k := 0; k < 2; k++ {
		for i := 0; i < 20; i++ {
			for _, s := range r.p.Steps {
				if s.K == "bad" {
					continue
				}
				r.fs.Cap = s.Cap
				r.fs.Arm(s.Faults)
				if s.K == "load" {
					r.do("load", func() { nn.LoadFile(s.Path) })
				} else {
					r.do("save", func() { nn.SaveFile(ms[s.M%2], s.Path) })
				}
				r.fs.Disarm()
				r.fs.Cap = 0
				if r.bad() {
					r.stop()
				}
			}
		}
		r.do("wait", func() { time.Sleep(3600 * time.Second) })
		left = append(left, simrt.Lingering())
	}
	r.ev("left running %v", left)
	if left[1] >= left[0]+20 {
		r.fail("goroutines", "the same calls made 20 times more left %d more goroutines running", left[1]-left[0])
	}
}

// ---------------------------------------------------------------- P04

func genP04(p *Plan, g *simrt.Rng, thorough bool) {
	nt := 2 + g.Intn(3)
	per := 1 + g.Intn(4)
	if g.Intn(12) == 0 { // a crowd
		nt, per = 5+g.Intn(4), 1+g.Intn(2)
	}
	nm := 2 + g.Intn(4)
	for i := 0; i < nm; i++ {
		o := genOpt{maxLayers: 2, maxDim: 3}
		if g.Intn(6) == 0 {
			o.maxDim = 12
		}
		p.Models = append(p.Models, genModel(g, o))
	}
	if g.Intn(500) == 0 {
		for i := range p.Models {
			bulk(&p.Models[i], g, manyBytes(g, 1<<12, 1<<15, 1<<16, 1<<17))
		}
	}
	paths := []string{"a.model", "b.model", "d/../a.model", "/w/link"}
	np := 1 + g.Intn(2)
	if g.Intn(6) == 0 {
		np = 4
	}
	p.P["old"] = int64(g.Intn(2))
	for t := 0; t < nt; t++ {
		for k := 0; k < per; k++ {
			s := Step{T: t, K: "save", M: g.Intn(nm), Path: paths[g.Intn(np)]}
			if g.Intn(2) == 0 {
				s.K = "load"
			}
			p.Steps = append(p.Steps, s)
		}
	}
	p.Sched = simrt.Sched{Mode: "random", Seed: g.U64(), Mean: []int64{3, 10, 30, 100, 400, 1500}[g.Intn(6)]}
	if g.Intn(4) == 0 { // some I/O error somewhere
		p.P["fault"] = int64(1 + g.Intn(40))
		p.P["kind"] = int64(g.Intn(3))
	}
	if g.Intn(3) == 0 {
		p.P["short"] = int64(g.U64()>>2) | 1
	}
}

type hop struct {
	task       int
	save       bool
	val        string // dump saved or loaded ("" = no model)
	ok         bool
	call, ret  int64
	text       string
	done       bool
	mayNotHave bool // failed save: may or may not have taken effect
}

func runP04(r *R) {
	prepPaths(r.fs)
	var dumps []string
	ms := make([]*nn.Model, len(r.p.Models))
	for i := range r.p.Models {
		ms[i] = r.mk(i)
		dumps = append(dumps, r.dumpOf(ms[i]))
	}
	canon := realPath
	init := map[string]string{}
	if r.p.P["old"] > 0 {
		for _, p := range []string{"a.model", "b.model", "/w/d/target.model"} {
			r.fs.Put(p, encodeSpec(r.p.Models[0], simrt.NewRng(1), "1.0.3"))
			init[canon(p)] = dumps[0]
		}
	}
	faulty := false
	if k := r.p.P["fault"]; k > 0 {
		kind := []string{"eio", "enospc", "emfile"}[r.p.P["kind"]]
		r.fs.Arm([]simfs.Fault{{Op: int(k), Kind: kind}})
		faulty = true
	}
	if r.p.P["short"] != 0 {
		r.fs.ShortR = simrt.NewRng(uint64(r.p.P["short"]))
	}
	hist := map[string][]*hop{}
	per := map[int][]Step{}
	maxT := 0
	for _, s := range r.p.Steps {
		per[s.T] = append(per[s.T], s)
		if s.T > maxT {
			maxT = s.T
		}
	}
	var ts []taskFn
	for t := 0; t <= maxT; t++ {
		steps := per[t]
		if len(steps) == 0 {
			continue
		}
		env := simrt.NewEnv(simrt.EnvSpec{Seed: simrt.Mix(r.p.Seed, 50, uint64(t)), Clock: r.p.Env.Clock})
		ts = append(ts, taskFn{fmt.Sprintf("t%d", t), env, func() {
			for _, s := range steps {
				h := &hop{task: t, save: s.K == "save", call: simrt.Event()}
				c := canon(s.Path)
				hist[c] = append(hist[c], h)
				if h.save {
					mi := s.M % len(ms)
					err := nn.SaveFile(ms[mi], s.Path)
					h.ret = simrt.Event()
					h.val, h.ok = dumps[mi], err == nil
					h.mayNotHave = err != nil
					h.text = fmt.Sprintf("t%d save(model %d, %s) -> %v", t, mi, s.Path, errText(err))
				} else {
					m, err := nn.LoadFile(s.Path)
					h.ret = simrt.Event()
					h.ok = err == nil
					name := "error " + errText(err)
					if err == nil {
						h.val = dump(&m)
						name = "a model nobody saved"
						for i := range dumps {
							if dumps[i] == h.val {
								name = fmt.Sprintf("model %d", i)
							}
						}
					}
					h.text = fmt.Sprintf("t%d load(%s) -> %s", t, s.Path, name)
					if err != nil && !errors.Is(err, errNotExist) {
						h.mayNotHave = true // an error other than absence
					}
				}
				h.done = true
			}
		}})
	}
	r.seg(r.p.Sched, 0, 0, false, 0, ts...)
	r.fs.Disarm()
	r.fs.ShortR = nil
	if r.bad() {
		r.stop()
	}
	r.nontriv = r.sw > 1
	for _, path := range sortedKeys(hist) {
		ops := hist[path]
		for _, h := range ops {
			r.ev("[%d,%d] %s", h.call, h.ret, h.text)
		}
		// a last look from a quiet process
		m, err := r.load(path)
		h := &hop{task: 99, call: 1 << 40, ret: 1<<40 + 1, ok: err == nil, done: true}
		if err == nil {
			h.val = r.dumpOf(m)
		} else if !errors.Is(err, errNotExist) {
			h.mayNotHave = true
		}
		h.text = fmt.Sprintf("final load -> err=%v", errText(err))
		var ck []*hop
		for _, o := range append(append([]*hop{}, ops...), h) {
			if !o.save && o.mayNotHave {
				// load failed although nothing says the file is absent
				if !faulty || o == h {
					r.fail("loaderror", "%s (file %s); history:\n%s", o.text, path, histText(ops))
					r.stop()
				}
				continue // an injected fault hit this load
			}
			if o.save && !o.ok && !faulty {
				r.fail("saveerror", "a save failed without any fault: %s; history:\n%s", o.text, histText(ops))
				r.stop()
			}
			ck = append(ck, o)
		}
		if !linearizable(ck, init[path]) {
			extra := h.text
			if h.ok {
				extra = "final load -> a model nobody saved completely"
				for i := range dumps {
					if dumps[i] == h.val {
						extra = fmt.Sprintf("final load -> model %d", i)
					}
				}
			}
			r.fail("linear", "no order of the operations on %s explains the results (stored before: %v):\n%s\n%s", path, init[path] != "", histText(ops), extra)
			r.stop()
		}
	}
}

func histText(ops []*hop) string {
	var s []string
	for _, o := range ops {
		s = append(s, fmt.Sprintf("  [%d,%d] %s", o.call, o.ret, o.text))
	}
	return strings.Join(s, "\n")
}

// linearizable checks a register history by search: saves write, loads read;
// a failed save may take effect at any time after its call or never.
func linearizable(ops []*hop, init string) bool {
	n := len(ops)
	if n > 24 {
		n = 24
	}
	seen := map[string]bool{}
	var rec func(done uint32, cur string) bool
	rec = func(done uint32, cur string) bool {
		all := true
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if done>>uint(i)&1 == 0 && !(ops[i].save && ops[i].mayNotHave) {
				all = false
				if ops[i].ret < minRet {
					minRet = ops[i].ret
				}
			}
		}
		if all {
			return true
		}
		key := fmt.Sprintf("%d|%s", done, short(cur))
		if seen[key] {
			return false
		}
		seen[key] = true
		for i := 0; i < n; i++ {
			o := ops[i]
			if done>>uint(i)&1 == 1 || o.call > minRet {
				continue
			}
			d := done | 1<<uint(i)
			if o.save {
				if rec(d, o.val) {
					return true
				}
			} else if (o.ok && o.val == cur) || (!o.ok && cur == "") {
				if rec(d, cur) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

func init() {
	register(&Prop{ID: "P01", Quick: 60000, Thoro: 2000000000, Gen: genP01, Run: runP01,
		Rule: "A run builds 1-3 random models (all layer kinds, losses, optimizers, special float values, up to 512 layers) and performs a random sequence of saves, loads, serializations, trainings, overwrites and process restarts on the simulated disk with seeded map enumeration; non-trivial: at least one saved model was loaded and compared."})
	register(&Prop{ID: "P02", Quick: 200000, Thoro: 2000000000, Gen: genP02, Run: runP02,
		Rule: "A run stores a model and performs 1-3 (thorough: up to 6) further saves over it, each with a seeded I/O error, full disk, unsavable model, process kill (at an I/O operation or any statement) or power loss (losing any suffix of the directory journal and any subset of unsynced pages), reloading after each; non-trivial: a save failed or was interrupted."})
	register(&Prop{ID: "P03", Quick: 180000, Thoro: 2000000000, Gen: genP03, Run: runP03,
		Rule: "A run performs saves to several paths with seeded errors (including deferred write errors and full disks) followed by kills and power losses, reloading every acknowledged path after each; non-trivial: at least one save was acknowledged."})
	register(&Prop{ID: "P04", Quick: 250000, Thoro: 2000000000, Gen: genP04, Run: runP04,
		Rule: "A run lets 2-4 threads save and load 1-3 files under a seeded statement-level preemptive schedule and checks the history against an atomic register; non-trivial: at least two preemptions happened."})
	register(&Prop{ID: "P05", Quick: 250000, Thoro: 2000000000, Gen: genP05, Run: runP05,
		Rule: "A run loads a stored model several times with seeded short reads, premature ends, read errors at chosen offsets and failing open/stat; non-trivial: at least one fault fired."})
	register(&Prop{ID: "P08", Quick: 200000, Thoro: 2000000000, Gen: genP08, Run: runP08,
		Rule: "A run performs saves and loads to valid and invalid targets with seeded faults (or concurrently) and inspects open handles and all other files after each; non-trivial: at least one call failed, or tasks really overlapped."})
}
