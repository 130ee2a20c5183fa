package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- building

var layerKinds = []string{"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout"}
var lossKinds = []string{"mse", "mae", "ce", "bce"}

func newLayer(s LayerSpec) (nn.Layer, error) {
	switch s.K {
	case "hidden":
		l, err := nn.NewLayer(s.In, s.Out)
		return &l, err
	case "linear":
		l, err := nn.NewLinearLayer(s.In, s.Out)
		return &l, err
	case "sigmoid":
		l, err := nn.NewSigmoidLayer(s.In, s.Out)
		return &l, err
	case "leaky":
		l, err := nn.NewLeakyLayer(s.In, s.Out, float64(s.P))
		return &l, err
	case "softmax":
		l, err := nn.NewSoftmaxLayer(s.In, s.Out)
		return &l, err
	case "dropout":
		l, err := nn.NewDropoutLayer(s.In, s.Out, float64(s.P))
		return &l, err
	}
	return nil, errors.New("harness: layer kind " + s.K)
}

func newLoss(k string, size int) (nn.Loss, error) {
	switch k {
	case "mse":
		l, err := nn.NewMeanSquaredLoss(size)
		return &l, err
	case "mae":
		l, err := nn.NewMeanAbsoluteLoss(size)
		return &l, err
	case "ce":
		l, err := nn.NewCrossEntropyLoss(size)
		return &l, err
	case "bce":
		l, err := nn.NewBinaryCrossEntropyLoss(size)
		return &l, err
	}
	return nil, errors.New("harness: loss kind " + k)
}

func newOpt(k string, v []F64) (nn.Optimizer, error) {
	g := func(i int) float64 {
		if i < len(v) {
			return float64(v[i])
		}
		return 0
	}
	switch k {
	case "sgd":
		o, err := nn.NewSGDOptimizer(g(0), g(1), g(2))
		return &o, err
	case "adam":
		o, err := nn.NewAdamOptimizer(g(0), g(1), g(2), g(3), g(4))
		return &o, err
	}
	return nil, errors.New("harness: optimizer kind " + k)
}

// fval is the i-th weight of a spec.
func fval(g *simrt.Rng, mode string, std float64) float64 {
	switch mode {
	case "zero":
		return 0
	case "special":
		switch g.Intn(12) {
		case 0:
			return math.NaN()
		case 1:
			return math.Float64frombits(0x7ff8000000000000 | g.U64()&0x7ffffffffffff)
		case 2:
			return math.Inf(1)
		case 3:
			return math.Inf(-1)
		case 4:
			return math.Copysign(0, -1)
		case 5:
			return math.SmallestNonzeroFloat64
		case 6:
			return math.MaxFloat64
		case 7:
			return math.Float64frombits(0xfff0000000000001 | g.U64()&0x7ffffffffffff)
		case 8:
			return math.Float64frombits(g.U64())
		}
		return norm(g)
	case "big":
		return norm(g) * 1e3
	case "tiny": // ordinary values among zeros and numbers too small to matter
		switch g.Intn(6) {
		case 0:
			return 0
		case 1:
			return math.Copysign(0, -1)
		case 2:
			return math.Float64frombits(g.U64() & 0x800fffffffffffff) // denormal
		case 3:
			return norm(g) * 1e-200
		}
	}
	return norm(g) * std
}

// norm is a normal draw (Box-Muller), from the harness's own generator.
func norm(g *simrt.Rng) float64 {
	u, v := g.Float(), g.Float()
	if u < 1e-300 {
		u = 1e-300
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*v)
}

func fillLayer(l nn.Layer, g *simrt.Rng, mode string) {
	w, b := params(l)
	for i := range w.M {
		for j := range w.M[i] {
			w.M[i][j] = fval(g, mode, math.Sqrt(2/float64(w.Rows)))
		}
	}
	for i := range b.M {
		for j := range b.M[i] {
			b.M[i][j] = fval(g, mode, 0.5)
		}
	}
}

// build makes the finalized model of a spec through the public API.
func build(s ModelSpec) (*nn.Model, error) {
	return buildW(s, nil)
}

func buildW(s ModelSpec, wrap func(i int, l nn.Layer) nn.Layer) (*nn.Model, error) {
	m := nn.NewModel()
	g := simrt.NewRng(s.WSeed)
	for i, ls := range s.Layers {
		l, err := newLayer(ls)
		if err != nil {
			return nil, err
		}
		fillLayer(l, g, s.WMode)
		if wrap != nil {
			l = wrap(i, l)
		}
		if err := m.AddLayer(l); err != nil {
			return nil, err
		}
	}
	loss, err := newLoss(s.Loss, s.out())
	if err != nil {
		return nil, err
	}
	opt, err := newOpt(s.Opt, s.OptV)
	if err != nil {
		return nil, err
	}
	if err := m.Finalize(loss, opt, nn.AccuracyType(s.Acc), float64(s.Prec)); err != nil {
		return nil, err
	}
	return &m, nil
}

// mk builds a model of the plan; failure to build is the harness's problem
// unless the code under test refuses what its API promises.
func (r *R) mk(i int) *nn.Model {
	var m *nn.Model
	var err error
	r.do(fmt.Sprintf("build%d", i), func() { m, err = build(r.p.Models[i]) })
	if err != nil {
		r.fail("build", "building a valid model failed: %v", err)
	}
	if m == nil {
		r.stop()
	}
	return m
}

// ---------------------------------------------------------------- looking at models

// strip unwraps harness wrappers (structs embedding the interface).
func strip(x any) any {
	for {
		u, ok := x.(interface{ Unwrap() any })
		if !ok {
			return x
		}
		x = u.Unwrap()
	}
}

func field(x any, name string) (reflect.Value, bool) {
	v := reflect.ValueOf(strip(x))
	for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return v, false
	}
	f := v.FieldByName(name)
	return f, f.IsValid()
}

// params returns the weights and biases of a layer.
func params(l nn.Layer) (*nn.Matrix, *nn.Matrix) {
	w, ok1 := field(l, "Weights")
	b, ok2 := field(l, "Biases")
	if !ok1 || !ok2 {
		return &nn.Matrix{}, &nn.Matrix{}
	}
	wm, _ := w.Interface().(*nn.Matrix)
	bm, _ := b.Interface().(*nn.Matrix)
	if wm == nil {
		wm = &nn.Matrix{}
	}
	if bm == nil {
		bm = &nn.Matrix{}
	}
	return wm, bm
}

func dumpMatrix(b *bytes.Buffer, m *nn.Matrix) {
	fmt.Fprintf(b, "%dx%d[%d]", m.Rows, m.Cols, len(m.M))
	for _, row := range m.M {
		b.WriteByte('\n')
		for _, v := range row {
			b.WriteByte(' ')
			b.WriteString(bits(v))
		}
	}
	b.WriteByte('\n')
}

const hexd = "0123456789abcdef"

func bits(v float64) string {
	u := math.Float64bits(v)
	var s [16]byte
	for i := 15; i >= 0; i-- {
		s[i] = hexd[u&15]
		u >>= 4
	}
	return string(s[:])
}

func typeName(x any) string {
	t := reflect.TypeOf(strip(x))
	for t != nil && t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if t == nil {
		return "nil"
	}
	return t.Name()
}

func dumpLayer(b *bytes.Buffer, l nn.Layer) {
	fmt.Fprintf(b, "layer %s", typeName(l))
	for _, n := range []string{"InputSize", "OutputSize"} {
		if f, ok := field(l, n); ok {
			fmt.Fprintf(b, " %s=%d", n, f.Int())
		}
	}
	for _, n := range []string{"Slope", "Dropout"} {
		if f, ok := field(l, n); ok {
			fmt.Fprintf(b, " %s=%s", n, bits(f.Float()))
		}
	}
	w, bi := params(l)
	b.WriteString(" W ")
	dumpMatrix(b, w)
	b.WriteString("B ")
	dumpMatrix(b, bi)
}

// dump is everything the model is, in comparable text: two models with equal
// dumps have the same layers, parameters, settings and hyperparameters.
func dump(m *nn.Model) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "model size=%d in=%d out=%d loss=%d acc=%d prec=%s opt=%d\n", m.ModelSize, m.InputSize, m.OutputSize, m.LossType, m.AccuracyType, bits(m.AccuracyPercision), m.OptimizerType)
	fmt.Fprintf(&b, "values")
	for _, k := range sortedKeys(m.OptimizerValues) {
		fmt.Fprintf(&b, " %s=%s", k, bits(m.OptimizerValues[k]))
	}
	fmt.Fprintf(&b, "\nloss %s", typeName(m.Loss))
	if f, ok := field(m.Loss, "Size"); ok {
		fmt.Fprintf(&b, " size=%d", f.Int())
	}
	b.WriteByte('\n')
	for _, o := range m.Optimizers {
		fmt.Fprintf(&b, "optimizer %s", typeName(o))
		for _, n := range []string{"LearningRate", "Decay", "Momentum", "Epsilon", "Beta1", "Beta2"} {
			if f, ok := field(o, n); ok {
				fmt.Fprintf(&b, " %s=%s", n, bits(f.Float()))
			}
		}
		b.WriteByte('\n')
	}
	for _, l := range m.Layers {
		dumpLayer(&b, l)
	}
	return b.String()
}

// dumpParams is only the trainable parameters.
func dumpParams(m *nn.Model) string {
	var b bytes.Buffer
	for _, l := range m.Layers {
		dumpLayer(&b, l)
	}
	return b.String()
}

func dumpMat(m nn.Matrix) string {
	var b bytes.Buffer
	dumpMatrix(&b, &m)
	return b.String()
}

func short(s string) string {
	return fmt.Sprintf("%016x", simrt.HashStr(s))
}

// diff tells where two dumps differ first.
func diff(a, b string) string {
	if a == b {
		return "equal"
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			u, v := strings.Fields(p), strings.Fields(q)
			for k := 0; k < len(u) || k < len(v); k++ {
				var s, t string
				if k < len(u) {
					s = u[k]
				}
				if k < len(v) {
					t = v[k]
				}
				if s != t {
					return fmt.Sprintf("line %d item %d: %s / %s", i, k, show(s), show(t))
				}
			}
			return fmt.Sprintf("line %d: %q / %q", i, cut(p), cut(q))
		}
	}
	return "?"
}

func show(s string) string {
	var u uint64
	if len(s) == 16 {
		if _, err := fmt.Sscanf(s, "%x", &u); err == nil {
			return fmt.Sprintf("%s(%g)", s, math.Float64frombits(u))
		}
	}
	if s == "" {
		return "nothing"
	}
	return s
}

func cut(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

// ---------------------------------------------------------------- data

// mkData makes the data of a spec for a model: inputs are normal draws,
// targets fit the loss.
func mkData(d DataSpec, in, outN int, loss string) (nn.Matrix, nn.Matrix) {
	g := simrt.NewRng(d.Seed)
	x := make([][]float64, d.Rows)
	y := make([][]float64, d.Rows)
	for i := range x {
		x[i] = make([]float64, in)
		y[i] = make([]float64, outN)
		for j := range x[i] {
			x[i][j] = math.Round(norm(g)*1000) / 1000
		}
		switch loss {
		case "ce":
			y[i][g.Intn(outN)] = 1
		case "bce":
			for j := range y[i] {
				y[i][j] = float64(g.Intn(2))
			}
		default:
			for j := range y[i] {
				y[i][j] = math.Round(norm(g)*1000) / 1000
			}
		}
	}
	switch d.Mode {
	case "special": // unusual, but valid numbers here and there
		for i := range x {
			for j := range x[i] {
				if g.Intn(4) == 0 {
					x[i][j] = fval(g, "special", 1)
				}
			}
			for j := range y[i] {
				if loss != "ce" && loss != "bce" && g.Intn(6) == 0 {
					y[i][j] = fval(g, "special", 1)
				}
			}
		}
	case "dup": // equal samples, some with other targets
		for i := 1; i < len(x); i++ {
			if k := g.Intn(i); g.Intn(2) == 0 {
				copy(x[i], x[k])
				if g.Intn(2) == 0 {
					copy(y[i], y[k])
				}
			}
		}
	}
	return nn.Matrix{Rows: d.Rows, Cols: in, M: x}, nn.Matrix{Rows: d.Rows, Cols: outN, M: y}
}

// genMode picks the kind of a data set; most are ordinary.
func genMode(g *simrt.Rng) string {
	switch g.Intn(24) {
	case 0:
		return "special"
	case 1:
		return "dup"
	}
	return ""
}

func (r *R) data(d int, m int) (nn.Matrix, nn.Matrix) {
	s := r.p.Models[m]
	return mkData(r.p.Data[d], s.in(), s.out(), s.Loss)
}

func cloneM(m nn.Matrix) nn.Matrix {
	c := nn.Matrix{Rows: m.Rows, Cols: m.Cols, M: make([][]float64, len(m.M))}
	for i := range m.M {
		c.M[i] = append([]float64(nil), m.M[i]...)
	}
	return c
}

// observe is everything a user sees of a model on data without training it.
func observe(m *nn.Model, x, y nn.Matrix) string {
	var b bytes.Buffer
	p, err := m.Predict(x)
	fmt.Fprintf(&b, "predict %s %s", errS(err), dumpMat(p))
	l, err := m.CalculateLoss(x, y)
	fmt.Fprintf(&b, "loss %s %s\n", bits(l), errS(err))
	a, err := m.CalculateAccuracy(x, y)
	fmt.Fprintf(&b, "accuracy %s %s\n", bits(a), errS(err))
	return b.String()
}

func errS(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

// ---------------------------------------------------------------- generators

func pickF(g *simrt.Rng, vs ...float64) F64 { return F64(vs[g.Intn(len(vs))]) }

type genOpt struct {
	maxLayers, maxDim int
	special           bool // special float values everywhere
	noDropout         bool
	plainSGD          bool
	dropoutRates      []float64
	stable            bool // keep training numerically tame
	kinds             []string
	loss              string
}

// genLike makes a model spec of given outer dimensions and loss.
func genLike(g *simrt.Rng, o genOpt, in, out int, loss string) ModelSpec {
	o.loss = loss
	s := genModel(g, o)
	s.Layers[0].In = in
	s.Layers[len(s.Layers)-1].Out = out
	return s
}

// genModel makes a valid model spec.
func genModel(g *simrt.Rng, o genOpt) ModelSpec {
	if o.maxLayers == 0 {
		o.maxLayers = 4
	}
	if o.maxDim == 0 {
		o.maxDim = 6
	}
	var s ModelSpec
	n := 1 + g.Intn(o.maxLayers)
	d := 1 + g.Intn(o.maxDim)
	s.Loss = lossKinds[g.Intn(len(lossKinds))]
	if o.loss != "" {
		s.Loss = o.loss
	}
	for i := 0; i < n; i++ {
		k := layerKinds[g.Intn(len(layerKinds))]
		if len(o.kinds) > 0 {
			k = o.kinds[g.Intn(len(o.kinds))]
		}
		if o.noDropout && k == "dropout" {
			k = "hidden"
		}
		if i == n-1 {
			switch s.Loss {
			case "ce":
				if o.stable || g.Intn(4) > 0 {
					k = "softmax"
				}
			case "bce":
				if o.stable || g.Intn(4) > 0 {
					k = "sigmoid"
				}
			default:
				if o.stable || g.Intn(3) > 0 {
					k = []string{"linear", "leaky", "sigmoid", "hidden"}[g.Intn(4)]
				}
			}
		}
		l := LayerSpec{K: k, In: d, Out: 1 + g.Intn(o.maxDim)}
		switch k {
		case "leaky":
			l.P = pickF(g, 0.01, 0.1, 0.5, 1, 0, 1.5, 0.3)
			if o.stable {
				l.P = pickF(g, 0.01, 0.1, 0.3, 0.5)
			}
			if o.special && g.Intn(4) == 0 {
				l.P = F64(math.Float64frombits(g.U64() >> 1)) // any non-negative bit pattern
			} else if o.special && g.Intn(12) == 0 {
				l.P = F64(math.Copysign(0, -1))
			}
		case "dropout":
			l.P = pickF(g, 0, 0.1, 0.25, 0.5, 0.5, 0.75, 0.9, 1)
			if len(o.dropoutRates) > 0 {
				l.P = pickF(g, o.dropoutRates...)
			}
			if o.special && g.Intn(4) == 0 {
				l.P = F64(g.Float())
			} else if o.special && g.Intn(4) == 0 {
				l.P = pickF(g, 1, 1, math.Nextafter(1, 0), math.Copysign(0, -1), 5e-324, 1e-300, math.NaN(), 0.5, 1e-17)
			}
		}
		d = l.Out
		s.Layers = append(s.Layers, l)
	}
	if o.plainSGD {
		s.Opt, s.OptV = "sgd", []F64{pickF(g, 0.01, 0.1, 0.05, 0.001), 0, 0}
	} else if g.Intn(2) == 0 {
		s.Opt = "sgd"
		s.OptV = []F64{pickF(g, 0.01, 0.1, 0.05, 1e-3), pickF(g, 0, 0, 1e-3, 0.1), pickF(g, 0, 0, 0.9, 0.5)}
		if g.Intn(8) == 0 { // unusual, but valid
			s.OptV = []F64{pickF(g, 1, 0.5, 1e-9, 0.01), pickF(g, 0, 1, 25, 1e-12), pickF(g, 0, 1, 1e-3, 1.5)}
		}
	} else {
		s.Opt = "adam"
		s.OptV = []F64{pickF(g, 0.01, 0.02, 1e-3), pickF(g, 0, 0, 1e-3, 5e-7), pickF(g, 1e-7, 1e-8), pickF(g, 0.9, 0.8), pickF(g, 0.999, 0.99)}
		if g.Intn(6) == 0 { // unusual, but valid
			s.OptV = []F64{pickF(g, 1, 0.5, 1e-9, 0.01), pickF(g, 0, 1, 25, 1e-12), pickF(g, 0, 1, 1e-300, 1e-7), pickF(g, 0, 0.5, 0.9, 0.99), pickF(g, 0, 0.5, 0.9, 0.99)}
		}
	}
	if o.special && g.Intn(3) == 0 {
		for i := range s.OptV {
			if g.Intn(3) == 0 {
				v := math.Float64frombits(g.U64() >> 1)
				if math.IsNaN(v) && i == 0 {
					v = math.MaxFloat64
				}
				if i == 0 && v <= 0 {
					v = math.SmallestNonzeroFloat64
				}
				if i > 0 && g.Intn(6) == 0 {
					v = math.Copysign(0, -1)
				}
				if i > 1 && s.Opt == "adam" && g.Intn(4) == 0 { // not restricted either
					v = -v
				}
				s.OptV[i] = F64(v)
			}
		}
	}
	if o.maxDim > 2 && g.Intn(50) == 0 { // one wide connection
		w := []int{8, 16, 17, 32, 33, 64, 65, 100, 128, 130}[g.Intn(10)]
		if k := g.Intn(n + 1); k == 0 {
			s.Layers[0].In = w
		} else {
			s.Layers[k-1].Out = w
			if k < n {
				s.Layers[k].In = w
			}
		}
	}
	s.Acc = g.Intn(3)
	s.Prec = pickF(g, 0.01, 0.1, 0.5, 0, 2.5)
	if o.special && g.Intn(4) == 0 {
		s.Prec = F64(math.Float64frombits(g.U64() >> 1))
		if g.Intn(6) == 0 {
			s.Prec = F64(math.Copysign(0, -1))
		}
	}
	s.WSeed = g.U64()
	s.WMode = "normal"
	if o.special {
		s.WMode = []string{"normal", "special", "special", "zero", "big"}[g.Intn(5)]
	}
	return s
}

// bulk gives a model that needs about size bytes when stored.
func bulk(s *ModelSpec, g *simrt.Rng, size int) {
	k := layerKinds[g.Intn(len(layerKinds))]
	a := 1 + g.Intn(600)
	b := size/8/a + 1
	if g.Intn(2) == 0 {
		a, b = b, a
	}
	s.Layers = []LayerSpec{{K: k, In: a, Out: b, P: 0.25}}
	if g.Intn(2) == 0 {
		s.Layers = append(s.Layers, LayerSpec{K: layerKinds[g.Intn(len(layerKinds))], In: b, Out: 1 + g.Intn(3), P: 0.5})
	}
}

var manyRows = []int{9, 10, 12, 15, 16, 17, 20, 25, 31, 32, 33, 40, 50, 60, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 150, 200, 250, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2000}
var manyUnits = []int{8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500, 512, 513, 600, 784, 1000, 1024, 1025}

// grow sometimes gives a plan many samples or wide layers, within bounds.
func grow(p *Plan, g *simrt.Rng) {
	limit := 4_000_000 // statements, roughly
	switch g.Intn(1000) {
	case 0:
		limit *= 8
	default:
		if g.Intn(20) > 0 {
			return
		}
	}
	epochs, evals := 1, 2
	switch p.Prop {
	case "T02":
		epochs += 6
	case "R04": // what the process did before
		epochs, evals = epochs+20, evals+20
	case "T04":
		epochs += 3 * int(p.P["epochs"]+p.P["before"]+p.P["after"])
	}
	for _, s := range p.Steps {
		switch s.K {
		case "fit", "badval", "badlast":
			n := s.N
			if p.Prop == "L01" && n > 0 { // each report is computed from a training of its own
				n += n * (n + 1) / 2
			}
			epochs += n
		case "life":
			epochs += 6
		default:
			evals++
		}
	}
	cost := func() int {
		params, rows := 0, 0
		for _, m := range p.Models {
			params += m.params()
		}
		for _, d := range p.Data {
			if d.Rows > rows {
				rows = d.Rows
			}
		}
		return params * (rows*epochs*40 + rows*evals*12 + 200)
	}
	what := g.Intn(3)
	if what > 0 { // wide layers
		one := g.Intn(len(p.Models))
		all := g.Intn(2) == 0
		if w := manyUnits[g.Intn(len(manyUnits))]; len(p.Models) > 1 && g.Intn(3) == 0 { // the models share their data
			old := make([]int, len(p.Models))
			for i := range p.Models {
				old[i], p.Models[i].Layers[0].In = p.Models[i].Layers[0].In, w
			}
			if cost() > limit {
				for i := range p.Models {
					p.Models[i].Layers[0].In = old[i]
				}
			}
		}
		if w := manyUnits[g.Intn(len(manyUnits))]; len(p.Models) > 1 && g.Intn(3) == 0 {
			last := func(i int) *int { m := &p.Models[i]; return &m.Layers[len(m.Layers)-1].Out }
			old := make([]int, len(p.Models))
			for i := range p.Models {
				old[i], *last(i) = *last(i), w
			}
			if cost() > limit {
				for i := range p.Models {
					*last(i) = old[i]
				}
			}
		}
		for mi := range p.Models {
			if mi != one && !all {
				continue
			}
			m := &p.Models[mi]
			old := append([]LayerSpec(nil), m.Layers...)
			for k := 1 + g.Intn(2); k > 0; k-- {
				w := manyUnits[g.Intn(len(manyUnits))]
				n := len(m.Layers)
				switch i := g.Intn(n + 1); {
				case i > 0 && i < n:
					m.Layers[i-1].Out, m.Layers[i].In = w, w
				case len(p.Models) > 1:
				case i == 0:
					m.Layers[0].In = w
				default:
					m.Layers[n-1].Out = w
				}
				if cost() > limit {
					copy(m.Layers, old)
				}
			}
		}
	}
	if what < 2 {
		for i := range p.Data {
			old := p.Data[i].Rows
			p.Data[i].Rows = manyRows[g.Intn(len(manyRows))]
			for k := 0; k < 4 && cost() > limit; k++ {
				p.Data[i].Rows = manyRows[g.Intn(len(manyRows)/(k+1))]
			}
			if cost() > limit {
				p.Data[i].Rows = old
			}
		}
		batch := func() int { return []int{1, 2, 3, 5, 8, 10, 16, 20, 31, 32, 33, 50, 64, 100, 128}[g.Intn(15)] }
		for i := range p.Steps {
			if s := &p.Steps[i]; s.K == "fit" && s.B > 0 && g.Intn(2) == 0 {
				s.B = batch()
			}
		}
		if p.P["batch"] > 0 && g.Intn(2) == 0 {
			p.P["batch"] = int64(batch())
		}
	}
}

// manyBytes draws a size a little above a round one.
func manyBytes(g *simrt.Rng, sizes ...int) int {
	n := sizes[g.Intn(len(sizes))]
	return n + g.Intn(n/8+1)
}

// oddWeights sometimes gives a model parameters unlike freshly initialised ones.
func oddWeights(s *ModelSpec, g *simrt.Rng) {
	switch g.Intn(24) {
	case 0, 1, 2:
		s.WMode = "tiny"
	case 3:
		s.WMode = "big"
	case 4:
		s.WMode = "special"
	case 5:
		s.WMode = "zero"
	}
}
