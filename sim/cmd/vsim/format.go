package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- P06

var damageKinds = []string{"trunc", "trunc", "flip", "flip", "field", "field", "field", "byte", "zero", "ones", "swap", "dup", "cut", "insert", "garbage", "chain", "header", "dims", "dims", "random"}

func genP06(p *Plan, g *simrt.Rng, thorough bool) {
	o := genOpt{maxLayers: 4, maxDim: 6, special: g.Intn(3) == 0}
	switch g.Intn(12) {
	case 0:
		o.maxDim = 30
	case 1:
		o.maxLayers, o.maxDim = 30, 3
	}
	p.Models = []ModelSpec{genModel(g, o)}
	n := 2 + g.Intn(6)
	if thorough {
		n += g.Intn(8)
	}
	for i := 0; i < n; i++ {
		s := Step{K: damageKinds[g.Intn(len(damageKinds))], Seed: g.U64(), N: 1 + g.Intn(3), S: []string{"buf", "file", "layer"}[g.Intn(3)]}
		if g.Intn(4) == 0 {
			s.B = 1 // a second damage on top
		}
		p.Steps = append(p.Steps, s)
	}
}

// badDims are sizes a damaged header may declare.
var badDims = []int{0, -1, -2, -128, -2147483648, 2147483647, 65536, 65537, 46341, 131072, 1 << 24, 1 << 28, 1 << 30, 255, 256, 32768, 1000, 7, 2, 1}

// damage applies one damage of a kind to encoded data.
func damage(e *enc, f *fModel, layer bool, kind string, n int, g *simrt.Rng) []byte {
	b := append([]byte(nil), e.b...)
	pick := func(names ...string) *fieldOff {
		var c []int
		for i, o := range e.offs {
			for _, nm := range names {
				if o.name == nm {
					c = append(c, i)
				}
			}
		}
		if len(c) == 0 {
			return nil
		}
		return &e.offs[c[g.Intn(len(c))]]
	}
	put32 := func(o *fieldOff, v int) {
		if o != nil && o.at+4 <= len(b) {
			copy(b[o.at:], le32(v))
		}
	}
	if len(b) == 0 {
		return b
	}
	switch kind {
	case "trunc":
		if g.Intn(2) == 0 { // at or next to a field boundary
			o := e.offs[g.Intn(len(e.offs))]
			at := o.at + g.Intn(3) - 1
			if at < 0 {
				at = 0
			}
			if at < len(b) {
				return b[:at]
			}
		}
		return b[:g.Intn(len(b))]
	case "flip":
		for k := 0; k < n; k++ {
			i := g.Intn(len(b))
			if g.Intn(2) == 0 && len(b) > 60 {
				i = g.Intn(60)
			}
			b[i] ^= 1 << uint(g.Intn(8))
		}
	case "byte":
		for k := 0; k < n; k++ {
			o := e.offs[g.Intn(len(e.offs))]
			if o.n > 0 && o.at < len(b) {
				b[o.at+g.Intn(o.n)%max(1, len(b)-o.at)] = byte(g.U64())
			}
		}
	case "field":
		names := []string{"magic", "size", "in", "out", "loss", "acc", "opt", "npairs", "keylen", "lmagic", "ltype", "lin", "lout", "drop", "prec", "value", "slope"}
		nm := names[g.Intn(len(names))]
		if layer {
			nm = []string{"lmagic", "ltype", "lin", "lout", "drop", "slope"}[g.Intn(6)]
		}
		o := pick(nm)
		if o == nil {
			break
		}
		switch {
		case o.n == 1 || nm == "magic" || nm == "lmagic":
			v := []byte{0, 1, 2, 3, 4, 5, 6, 7, 126, 127, 128, 129, 200, 254, 255}[g.Intn(15)]
			b[o.at+g.Intn(o.n)] = v
		case o.n == 4:
			put32(o, badDims[g.Intn(len(badDims))])
		default:
			copy(b[o.at:], le64(fval(g, "special", 1)))
		}
	case "dims":
		// one layer declares other, possibly overflowing, dimensions
		d1, d2 := badDims[g.Intn(len(badDims))], badDims[g.Intn(len(badDims))]
		if g.Intn(3) == 0 { // products that overflow 32 or 64 bits or come out small
			pr := [][2]int{{65536, 65536}, {1 << 30, 4}, {1 << 30, 8}, {46341, 46341}, {2147483647, 2147483647}, {-1, -1}, {-2, -3}, {1 << 29, 8}, {2147483647, 2}, {-2147483648, 2}, {-2147483648, -2147483648}, {1, 2147483647}, {2147483647, 1}}[g.Intn(13)]
			d1, d2 = pr[0], pr[1]
		}
		o := pick("lin")
		q := fieldOff{at: o.at + 4, n: 4}
		if g.Intn(3) > 0 {
			put32(o, d1)
		}
		if g.Intn(3) > 0 {
			put32(&q, d2)
		}
	case "zero", "ones":
		v := byte(0)
		if kind == "ones" {
			v = 255
		}
		at := g.Intn(len(b))
		l := 1 + g.Intn(64)
		for i := at; i < len(b) && i < at+l; i++ {
			b[i] = v
		}
	case "swap":
		l := 1 + g.Intn(16)
		if len(b) > 2*l {
			i, j := g.Intn(len(b)-l), g.Intn(len(b)-l)
			x := append([]byte(nil), b[i:i+l]...)
			copy(b[i:i+l], b[j:j+l])
			copy(b[j:j+l], x)
		}
	case "dup":
		i := g.Intn(len(b))
		j := i + 1 + g.Intn(32)
		if j > len(b) {
			j = len(b)
		}
		return append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
	case "cut":
		i := g.Intn(len(b))
		j := i + 1 + g.Intn(32)
		if j > len(b) {
			j = len(b)
		}
		return append(append([]byte(nil), b[:i]...), b[j:]...)
	case "insert":
		i := g.Intn(len(b))
		x := make([]byte, 1+g.Intn(16))
		for k := range x {
			x[k] = byte(g.U64())
		}
		return append(append(append([]byte(nil), b[:i]...), x...), b[i:]...)
	case "garbage":
		i := g.Intn(len(b))
		for ; i < len(b); i++ {
			b[i] = byte(g.U64())
		}
	case "random":
		l := g.Intn(200)
		b = b[:0]
		if g.Intn(2) == 0 {
			b = append(b, "NNML1.0.3"...)
		}
		for i := 0; i < l; i++ {
			b = append(b, byte(g.U64()))
		}
	case "chain", "header":
		// complete data whose dimensions do not fit together
		m := *f
		m.Layers = append([]fLayer(nil), f.Layers...)
		if kind == "header" || len(m.Layers) < 2 || layer {
			d := []int{m.In + 1, m.In - 1, -m.In, 0, m.In * 2, 1 << 30}[g.Intn(6)]
			if g.Intn(2) == 0 {
				m.In = d
			} else {
				m.Out = d - m.In + m.Out
			}
		} else {
			k := 1 + g.Intn(len(m.Layers)-1)
			l := m.Layers[k]
			l.In += 1 + g.Intn(3)
			l.W = append([]float64(nil), l.W...)
			for len(l.W) < l.In*l.Out {
				l.W = append(l.W, norm(g))
			}
			m.Layers[k] = l
		}
		if !layer {
			var e2 enc
			e2.model(m)
			return e2.b
		}
		b[2+g.Intn(4)] ^= byte(1 + g.Intn(255))
	}
	return b
}

// refuse tells why data must be refused ("" if nothing says so), by the
// independent reader of the documented layout.
func refuse(b []byte, layer bool) (why string, m fModel, l fLayer, used int) {
	d := &dec{b: b}
	if layer {
		l = d.layer()
		if d.err == "" && rev(layerCode, l.Type) == "" {
			d.err = fmt.Sprintf("unknown layer kind %d", l.Type)
		}
		return d.err, m, l, d.at
	}
	m = d.model()
	if d.err == "" {
		for i, x := range m.Layers {
			if rev(layerCode, x.Type) == "" {
				d.err = fmt.Sprintf("unknown layer kind %d", x.Type)
			} else if i > 0 && m.Layers[i-1].Out != x.In {
				d.err = fmt.Sprintf("layer %d takes %d inputs, the layer before has %d outputs", i, x.In, m.Layers[i-1].Out)
			}
		}
	}
	if d.err == "" {
		switch {
		case rev(lossCode, m.Loss) == "":
			d.err = fmt.Sprintf("unknown loss kind %d", m.Loss)
		case rev(optCode, m.Opt) == "":
			d.err = fmt.Sprintf("unknown optimizer kind %d", m.Opt)
		case m.Out != m.Layers[len(m.Layers)-1].Out:
			d.err = fmt.Sprintf("model output size %d, last layer has %d", m.Out, m.Layers[len(m.Layers)-1].Out)
		case m.In != m.Layers[0].In:
			d.err = fmt.Sprintf("model input size %d, first layer has %d", m.In, m.Layers[0].In)
		}
	}
	if d.err == "negative key length" {
		return "?", m, l, d.at
	}
	return d.err, m, l, d.at
}

func runP06(r *R) {
	f := fspec(r.p.Models[0], "1.0.3")
	for si, s := range r.p.Steps {
		g := simrt.NewRng(s.Seed)
		layer := s.S == "layer"
		fm := f
		fm.Pairs = append([]pair(nil), f.Pairs...)
		shufflePairs(fm.Pairs, g)
		var e enc
		if layer {
			e.layer(f.Layers[g.Intn(len(f.Layers))], 0)
		} else {
			e.model(fm)
		}
		b := damage(&e, &fm, layer, s.K, s.N, g)
		if s.B > 0 {
			e2 := enc{b: b}
			for _, o := range e.offs {
				if o.at+o.n <= len(b) {
					e2.offs = append(e2.offs, o)
				}
			}
			if len(e2.offs) > 0 && len(b) > 0 {
				b = damage(&e2, &fm, layer, []string{"flip", "trunc", "byte", "zero"}[g.Intn(4)], 1, g)
			}
		}
		if bytes.Equal(b, e.b) {
			continue
		}
		r.nontriv = true
		r.fired["damage:"+s.K]++
		why, fm2, fl, used := refuse(b, layer)
		what := fmt.Sprintf("step %d: %s of %d bytes (damage %s, seed %d)", si, map[bool]string{true: "layer", false: "model"}[layer], len(b), s.K, s.Seed)
		var err error
		var m nn.Model
		var l nn.Layer
		r.capSt = 3_000_000 + 400*int64(len(b))
		simrt.AllocReset(65536 + 32*int64(len(b)))
		nv := len(r.viol)
		buf := bytes.NewBuffer(append([]byte(nil), b...))
		switch s.S {
		case "layer":
			r.do("load damaged layer", func() { l, err = nn.LoadLayer(buf) })
		case "file":
			r.fs.Put("bad.model", b)
			r.do("load damaged file", func() { m, err = nn.LoadFile("bad.model") })
		default:
			r.do("load damaged buffer", func() { m, err = nn.LoadModel(buf) })
		}
		r.capSt = 0
		simrt.AllocReset(0)
		if len(r.viol) > nv {
			r.viol[nv].Msg = what + ": " + r.viol[nv].Msg + "\ndata: " + hexCut(b)
			r.stop()
		}
		r.ev("%s -> %v (%s)", what, errText(err), why)
		r.mark("%s %s %v", s.K, why, err != nil)
		if err == nil && why != "" && why != "?" {
			r.fail("accepted", "%s was accepted although %s\ndata: %s", what, why, hexCut(b))
			r.stop()
		}
		if err != nil {
			r.stat("refused", 1)
			continue
		}
		r.stat("accepted", 1)
		// accepted: consistent with the bytes, and usable
		if layer {
			var db bytes.Buffer
			r.do("dump", func() { dumpLayer(&db, l) })
			if !r.bad() && why == "" && db.String() != flayerDump(fl) {
				r.fail("inconsistent", "%s was loaded as something else (data / loaded): %s\ndata: %s", what, diff(flayerDump(fl), db.String()), hexCut(b))
			}
			r.do("use", func() {
				x, _ := nn.NewMatrix(2, fl.In)
				if _, e := l.Forward(x); e != nil && why == "" {
					err = e
				}
			})
			if r.bad() {
				r.stop()
			}
			if err != nil {
				r.fail("unusable", "%s was accepted but its forward pass fails: %v", what, err)
				r.stop()
			}
			continue
		}
		keys := map[string]bool{}
		dups := false
		for _, p := range fm2.Pairs {
			dups = dups || keys[p.K]
			keys[p.K] = true
		}
		got := r.dumpOf(&m)
		if r.bad() {
			r.stop()
		}
		if why == "" && !dups {
			if want := fdump(fm2); got != want {
				r.fail("inconsistent", "%s was loaded as something else (data / loaded): %s\ndata: %s", what, diff(want, got), hexCut(b))
				r.stop()
			}
		}
		_ = used
		r.use(&m, what)
		if r.bad() {
			r.stop()
		}
	}
}

// use exercises a model that came out of damaged data.
func (r *R) use(m *nn.Model, what string) {
	nv := len(r.viol)
	var e1, e2, e3, e4 error
	r.do("use", func() {
		x, y := mkData(DataSpec{Rows: 3, Seed: 5}, m.InputSize, m.OutputSize, "mse")
		if m.AccuracyType >= 0 && m.AccuracyType <= 2 {
			_, e1 = m.Predict(x)
		} else {
			m.Predict(x)
		}
		_, e2 = m.CalculateLoss(x, y)
		m.CalculateAccuracy(x, y)
		e3 = m.Fit(x, y, 1, 2, nn.Matrix{}, nn.Matrix{}, 0)
		var b bytes.Buffer
		d := nn.NewSavedModelData(*m)
		e4 = d.Serialize(&b)
	})
	if len(r.viol) > nv {
		r.viol[nv].Msg = what + " was accepted but cannot be used: " + r.viol[nv].Msg
		return
	}
	for _, e := range []error{e1, e2, e3, e4} {
		if e != nil {
			r.fail("unusable", "%s was accepted but using the model fails: %v", what, e)
			return
		}
	}
}

func hexCut(b []byte) string {
	s := fmt.Sprintf("%x", b)
	if len(s) > 400 {
		s = s[:400] + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return s
}

// ---------------------------------------------------------------- P07

func genP07(p *Plan, g *simrt.Rng, thorough bool) {
	nm := 1 + g.Intn(3)
	for i := 0; i < nm; i++ {
		o := genOpt{special: g.Intn(2) == 0, maxLayers: 5, maxDim: 7}
		switch g.Intn(25) {
		case 0:
			o.maxLayers, o.maxDim = 2, 60
		case 1:
			o.maxLayers, o.maxDim = 50, 2
		case 2:
			o.maxLayers = 1
			o.maxDim = 300
		}
		s := genModel(g, o)
		if g.Intn(40) == 0 {
			n := []int{63, 64, 100, 126, 127}[g.Intn(5)]
			s.Layers = nil
			for k := 0; k < n; k++ {
				s.Layers = append(s.Layers, LayerSpec{K: layerKinds[g.Intn(6)], In: 1, Out: 1, P: 0.5})
			}
		}
		if g.Intn(700) == 0 { // sizes beyond 16 bits
			l := LayerSpec{K: layerKinds[g.Intn(6)], In: []int{32767, 32768, 40000, 65535, 65536, 70000}[g.Intn(6)], Out: 1, P: 0.25}
			if g.Intn(2) == 0 {
				l.In, l.Out = 1, l.In
			}
			s.Layers = []LayerSpec{l}
		}
		p.Models = append(p.Models, s)
	}
	p.P["log"] = int64(g.Intn(4)) // 0: never set up, 1: file, 2: quiet, 3: console
	n := 2 + g.Intn(5)
	if thorough {
		n += g.Intn(6)
	}
	for i := 0; i < n; i++ {
		s := Step{M: g.Intn(nm), Seed: g.U64()}
		switch g.Intn(8) {
		case 0, 1:
			s.K, s.S = "read", []string{"buf", "file"}[g.Intn(2)]
		case 2, 3:
			s.K, s.S = "write", []string{"buf", "file"}[g.Intn(2)]
		case 4:
			s.K, s.N, s.B = "stream", 2+g.Intn(3), g.Intn(3)
		case 5:
			s.K = "layers"
		case 6, 7:
			s.K, s.S, s.L = "read", []string{"buf", "file"}[g.Intn(2)], 1+g.Intn(6)
		}
		p.Steps = append(p.Steps, s)
	}
}

func version(l int, g *simrt.Rng) string {
	switch l {
	case 0:
		return nn.VERSION
	case 1:
		return "1.0.2"
	case 2:
		return "9.9.9"
	case 3:
		return "0.0.0"
	case 4:
		return "%s%d%"
	case 5:
		return "1.0.4"
	}
	var b [5]byte
	for i := range b {
		b[i] = byte(g.U64())
	}
	return string(b[:])
}

func runP07(r *R) {
	switch r.p.P["log"] {
	case 1:
		r.do("initlogger", func() { nn.InitLogger(false, true, "log.log") })
	case 2:
		r.do("initlogger", func() { nn.InitLogger(false, false, "") })
	case 3:
		r.do("initlogger", func() { nn.InitLogger(true, false, "") })
	}
	sink := func() string {
		switch r.p.P["log"] {
		case 1:
			b, _ := r.fs.Get("log.log")
			return string(b)
		case 3:
			return string(r.fs.StdoutData())
		}
		return ""
	}
	nameOf := func(si int, what string) string { return fmt.Sprintf("step %d, %s", si, what) }
	for si, s := range r.p.Steps {
		g := simrt.NewRng(s.Seed)
		spec := r.p.Models[s.M%len(r.p.Models)]
		switch s.K {
		case "read":
			ver := version(s.L, g)
			f := fspec(spec, ver)
			want := fdump(f)
			if ver != nn.VERSION && g.Intn(6) == 0 { // another version knows further values
				for k := 1 + g.Intn(3)*g.Intn(12); k > 0; k-- {
					f.Pairs = append(f.Pairs, pair{strings.Repeat("z", g.Intn(2)*g.Intn(110)) + fmt.Sprintf("extra%d", k), norm(g)})
				}
			}
			shufflePairs(f.Pairs, g)
			var e enc
			e.model(f)
			var m nn.Model
			var err error
			log0 := sink()
			what := nameOf(si, fmt.Sprintf("reading a documented file of version %q", ver))
			if s.S == "file" {
				r.fs.Put("ref.model", e.b)
				r.do("load", func() { m, err = nn.LoadFile("ref.model") })
			} else {
				buf := bytes.NewBuffer(e.b)
				r.do("load", func() { m, err = nn.LoadModel(buf) })
				if err == nil && buf.Len() != 0 {
					r.fail("consumed", "%s: %d bytes left over", what, buf.Len())
				}
			}
			if r.bad() {
				r.stop()
			}
			if err != nil {
				r.fail("unread", "%s failed: %v\ndata: %s", what, err, hexCut(e.b))
				r.stop()
			}
			r.nontriv = true
			if got := r.dumpOf(&m); got != want {
				r.fail("misread", "%s gives other values (file / loaded): %s", what, diff(want, got))
				r.stop()
			}
			log1 := sink()
			if r.p.P["log"] == 1 || r.p.P["log"] == 3 {
				added := strings.TrimPrefix(log1, log0)
				if ver != nn.VERSION {
					if !strings.Contains(strings.ToLower(added), "warning") {
						r.fail("nowarn", "%s gave no warning (log: %q)", what, added)
						r.stop()
					}
				} else if strings.Contains(strings.ToLower(added), "warning") {
					r.fail("nowarn", "%s gave a warning: %q", what, added)
					r.stop()
				}
			}
			r.mark("read %q", ver)
		case "write":
			m := r.mk(s.M % len(r.p.Models))
			var b []byte
			var err error
			if s.S == "file" {
				r.do("save", func() { err = nn.SaveFile(m, "out.model") })
				d, _ := r.fs.Get("out.model")
				b = append([]byte(nil), d...)
			} else {
				var buf bytes.Buffer
				r.do("serialize", func() { d := nn.NewSavedModelData(*m); err = d.Serialize(&buf) })
				b = buf.Bytes()
			}
			if r.bad() {
				r.stop()
			}
			if err != nil {
				r.fail("save", "step %d: saving failed: %v", si, err)
				r.stop()
			}
			r.nontriv = true
			r.checkWritten(si, b, spec)
			r.mark("write %v", spec)
		case "stream":
			var e enc
			var want []string
			for k := 0; k < s.N; k++ {
				sp := r.p.Models[(s.M+k)%len(r.p.Models)]
				f := fspec(sp, nn.VERSION)
				shufflePairs(f.Pairs, g)
				want = append(want, fdump(f))
				if g.Intn(2) == 0 { // by the library
					m := r.mk((s.M + k) % len(r.p.Models))
					var buf bytes.Buffer
					var err error
					r.do("serialize", func() { d := nn.NewSavedModelData(*m); err = d.Serialize(&buf) })
					if err != nil {
						r.fail("save", "step %d: serializing failed: %v", si, err)
					}
					if r.bad() {
						r.stop()
					}
					e.b = append(e.b, buf.Bytes()...)
				} else {
					e.model(f)
				}
			}
			tail := make([]byte, s.B*5)
			for i := range tail {
				tail[i] = byte(g.U64())
			}
			e.b = append(e.b, tail...)
			buf := bytes.NewBuffer(e.b)
			for k := range want {
				var m nn.Model
				var err error
				r.do("load", func() { m, err = nn.LoadModel(buf) })
				if r.bad() {
					r.stop()
				}
				if err != nil {
					r.fail("stream", "step %d: model %d of %d written one after another fails to load: %v", si, k+1, len(want), err)
					r.stop()
				}
				if got := r.dumpOf(&m); got != want[k] {
					r.fail("stream", "step %d: model %d of %d written one after another differs (stored / loaded): %s", si, k+1, len(want), diff(want[k], got))
					r.stop()
				}
			}
			if !bytes.Equal(buf.Bytes(), tail) {
				r.fail("consumed", "step %d: %d bytes remain after the models, must be the %d that follow them", si, buf.Len(), len(tail))
				r.stop()
			}
			r.nontriv = true
			r.mark("stream %d", s.N)
		case "layers":
			f := fspec(spec, nn.VERSION)
			m := r.mk(s.M % len(r.p.Models))
			var lb bytes.Buffer
			for i, fl := range f.Layers {
				var buf bytes.Buffer
				var err error
				r.do("serialize layer", func() { d := nn.NewSavedLayerData(m.Layers[i]); err = d.SerializeLayer(&buf) })
				if r.bad() {
					r.stop()
				}
				if err != nil {
					r.fail("save", "step %d: serializing layer %d failed: %v", si, i, err)
					r.stop()
				}
				d := &dec{b: buf.Bytes()}
				got := d.layer()
				if d.err != "" || d.at != buf.Len() {
					r.fail("layout", "step %d: layer %d is not laid out as documented: %s (%d of %d bytes read)\ndata: %s", si, i, d.err, d.at, buf.Len(), hexCut(buf.Bytes()))
					r.stop()
				}
				if flayerDump(got) != flayerDump(fl) {
					r.fail("layout", "step %d: layer %d is stored with other values (model / stored): %s", si, i, diff(flayerDump(fl), flayerDump(got)))
					r.stop()
				}
				var e enc
				e.layer(fl, 0)
				lb.Write(e.b)
			}
			for i, fl := range f.Layers {
				var l nn.Layer
				var err error
				var db bytes.Buffer
				r.do("load layer", func() { l, err = nn.LoadLayer(&lb) })
				if r.bad() {
					r.stop()
				}
				if err != nil {
					r.fail("unread", "step %d: documented layer %d fails to load: %v", si, i, err)
					r.stop()
				}
				r.do("dump", func() { dumpLayer(&db, l) })
				if db.String() != flayerDump(fl) {
					r.fail("misread", "step %d: documented layer %d loads with other values (stored / loaded): %s", si, i, diff(flayerDump(fl), db.String()))
					r.stop()
				}
			}
			r.nontriv = true
		}
		if r.bad() {
			r.stop()
		}
	}
}

// checkWritten decodes what the library stored with the independent reader.
func (r *R) checkWritten(si int, b []byte, spec ModelSpec) {
	d := &dec{b: b}
	got := d.model()
	want := fspec(spec, nn.VERSION)
	if d.err != "" {
		r.fail("layout", "step %d: the stored model is not laid out as documented: %s\ndata: %s", si, d.err, hexCut(b))
		r.stop()
	}
	if d.at != len(b) {
		r.fail("layout", "step %d: the stored model is followed by %d undocumented bytes", si, len(b)-d.at)
		r.stop()
	}
	if got.Version != nn.VERSION {
		r.fail("layout", "step %d: stored version %q, library version %q", si, got.Version, nn.VERSION)
		r.stop()
	}
	pv := map[string]string{}
	for _, p := range got.Pairs {
		if _, dup := pv[p.K]; dup {
			r.fail("layout", "step %d: optimizer value %q stored twice", si, p.K)
			r.stop()
		}
		pv[p.K] = bits(p.V)
	}
	for _, p := range want.Pairs {
		if pv[p.K] != bits(p.V) {
			r.fail("layout", "step %d: optimizer value %q stored as %q, must be %s", si, p.K, pv[p.K], bits(p.V))
			r.stop()
		}
	}
	for i, l := range want.Layers {
		if l.Type != 3 {
			want.Layers[i].Slope = 0
		}
	}
	if a, c := fdump(want), fdump(got); a != c {
		r.fail("layout", "step %d: the stored values are not the model's (model / stored): %s", si, diff(a, c))
		r.stop()
	}
}

func init() {
	register(&Prop{ID: "P06", Quick: 250000, Thoro: 2000000000, Gen: genP06, Run: runP06,
		Rule: "A run encodes a random model or layer with an independent encoder, damages the stored bytes 2-7 times (thorough: up to 15) in seeded ways (cuts, bit flips, overwritten, zeroed, duplicated, swapped or inserted blocks, out-of-range field values, overflowing dimensions, mismatching chains, garbage) and loads each from a buffer or a file under an allocation account and a step budget; non-trivial: at least one damaged input differed from the original."})
	register(&Prop{ID: "P07", Quick: 50000, Thoro: 2000000000, Gen: genP07, Run: runP07,
		Rule: "A run exchanges random models and layers between the library and an independent reader and writer of the documented layout, in any pair order, with any version string, alone or one after another, with any logger set-up; non-trivial: at least one exchange was compared."})
}
