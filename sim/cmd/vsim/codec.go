package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/fs"
	"math"

	"github.com/cubeflix/nn"

	"verif.local/sim/simrt"
)

var errNotExist = fs.ErrNotExist

// An independent reading of ModelData.md and LayerData.md. It shares no code
// with the library: fields are written and read here byte by byte.

var layerCode = map[string]int{"hidden": 0, "linear": 1, "sigmoid": 2, "leaky": 3, "softmax": 4, "dropout": 5}
var layerType = map[string]string{"hidden": "HiddenLayer", "linear": "LinearLayer", "sigmoid": "SigmoidLayer", "leaky": "LeakyLayer", "softmax": "SoftmaxLayer", "dropout": "DropoutLayer"}
var lossCode = map[string]int{"mse": 0, "mae": 1, "ce": 2, "bce": 3}
var lossType = map[string]string{"mse": "MeanSquaredLoss", "mae": "MeanAbsoluteLoss", "ce": "CrossEntropyLoss", "bce": "BinaryCrossEntropyLoss"}
var optCode = map[string]int{"sgd": 0, "adam": 1}
var optKeys = map[string][]string{"sgd": {"learningRate", "decay", "momentum"}, "adam": {"learningRate", "decay", "epsilon", "beta1", "beta2"}}

type pair struct {
	K string
	V float64
}

// fLayer and fModel are the contents of a stored layer and model.
type fLayer struct {
	Type    int
	In, Out int
	Slope   float64
	Drop    float64
	W, B    []float64
}
type fModel struct {
	Version string
	In, Out int
	Loss    int
	Acc     int
	Prec    float64
	Opt     int
	Pairs   []pair
	Layers  []fLayer
}

type enc struct {
	b    []byte
	offs []fieldOff // where fields start, for targeted damage
}
type fieldOff struct {
	name   string
	at, n  int
	parent int // index of the layer, -1: model header
}

func (e *enc) field(name string, parent int, b ...byte) {
	e.offs = append(e.offs, fieldOff{name, len(e.b), len(b), parent})
	e.b = append(e.b, b...)
}
func le32(v int) []byte {
	u := uint32(int32(v))
	return []byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}
}
func le64(v float64) []byte {
	u := math.Float64bits(v)
	b := make([]byte, 8)
	for i := range b {
		b[i] = byte(u >> (8 * i))
	}
	return b
}

func (e *enc) layer(l fLayer, i int) {
	e.field("lmagic", i, 'L', 'A')
	e.field("ltype", i, byte(l.Type))
	e.field("lin", i, le32(l.In)...)
	e.field("lout", i, le32(l.Out)...)
	e.field("slope", i, le64(l.Slope)...)
	e.field("drop", i, le64(l.Drop)...)
	var w, b []byte
	for _, v := range l.W {
		w = append(w, le64(v)...)
	}
	for _, v := range l.B {
		b = append(b, le64(v)...)
	}
	e.field("weights", i, w...)
	e.field("biases", i, b...)
}

func (e *enc) model(m fModel) {
	e.field("magic", -1, 'N', 'N', 'M', 'L')
	e.field("version", -1, []byte(m.Version)...)
	e.field("size", -1, byte(len(m.Layers)))
	e.field("in", -1, le32(m.In)...)
	e.field("out", -1, le32(m.Out)...)
	e.field("loss", -1, byte(m.Loss))
	e.field("acc", -1, byte(m.Acc))
	e.field("prec", -1, le64(m.Prec)...)
	e.field("opt", -1, byte(m.Opt))
	e.field("npairs", -1, byte(len(m.Pairs)))
	for _, p := range m.Pairs {
		e.field("keylen", -1, byte(len(p.K)))
		e.field("key", -1, []byte(p.K)...)
		e.field("value", -1, le64(p.V)...)
	}
	for i, l := range m.Layers {
		e.layer(l, i)
	}
}

// fspec is the stored content of a spec.
func fspec(s ModelSpec, version string) fModel {
	m := fModel{Version: version, In: s.in(), Out: s.out(), Loss: lossCode[s.Loss], Acc: s.Acc, Prec: float64(s.Prec), Opt: optCode[s.Opt]}
	for i, k := range optKeys[s.Opt] {
		m.Pairs = append(m.Pairs, pair{k, float64(s.OptV[i])})
	}
	g := simrt.NewRng(s.WSeed)
	for _, ls := range s.Layers {
		l := fLayer{Type: layerCode[ls.K], In: ls.In, Out: ls.Out}
		if ls.K == "leaky" {
			l.Slope = float64(ls.P)
		}
		if ls.K == "dropout" {
			l.Drop = float64(ls.P)
		}
		std := math.Sqrt(2 / float64(ls.In))
		for i := 0; i < ls.In*ls.Out; i++ {
			l.W = append(l.W, fval(g, s.WMode, std))
		}
		for i := 0; i < ls.Out; i++ {
			l.B = append(l.B, fval(g, s.WMode, 0.5))
		}
		m.Layers = append(m.Layers, l)
	}
	return m
}

func shufflePairs(ps []pair, g *simrt.Rng) {
	for i := len(ps) - 1; i > 0; i-- {
		j := g.Intn(i + 1)
		ps[i], ps[j] = ps[j], ps[i]
	}
}

// encodeSpec lays out a spec as documented, optimizer pairs in any order.
func encodeSpec(s ModelSpec, g *simrt.Rng, version string) []byte {
	m := fspec(s, version)
	shufflePairs(m.Pairs, g)
	var e enc
	e.model(m)
	return e.b
}

// decoder reads the documented layout.
type dec struct {
	b   []byte
	at  int
	err string
}

func (d *dec) take(n int, what string) []byte {
	if d.err != "" {
		return make([]byte, n)
	}
	if d.at+n > len(d.b) {
		d.err = fmt.Sprintf("data ends inside %s (byte %d of %d)", what, d.at, len(d.b))
		return make([]byte, n)
	}
	v := d.b[d.at : d.at+n]
	d.at += n
	return v
}
func (d *dec) i8(what string) int  { return int(int8(d.take(1, what)[0])) }
func (d *dec) i32(what string) int { return int(int32(binary.LittleEndian.Uint32(d.take(4, what)))) }
func (d *dec) f64(what string) float64 {
	return math.Float64frombits(binary.LittleEndian.Uint64(d.take(8, what)))
}
func (d *dec) magic(s string) {
	if v := d.take(len(s), "magic "+s); d.err == "" && string(v) != s {
		d.err = fmt.Sprintf("magic bytes %q, must be %q (at %d)", v, s, d.at-len(s))
	}
}

func (d *dec) layer() fLayer {
	var l fLayer
	d.magic("LA")
	l.Type = d.i8("layer type")
	l.In = d.i32("layer input size")
	l.Out = d.i32("layer output size")
	l.Slope = d.f64("slope")
	l.Drop = d.f64("dropout")
	if d.err == "" && (l.In <= 0 || l.Out <= 0 || l.In > 1<<31 || l.Out > 1<<31) {
		d.err = fmt.Sprintf("layer of %dx%d", l.In, l.Out)
	}
	if d.err != "" {
		return l
	}
	if (len(d.b)-d.at)/8 < l.In*l.Out+l.Out {
		d.err = "data ends inside the parameters"
		return l
	}
	for i := 0; i < l.In*l.Out; i++ {
		l.W = append(l.W, d.f64("weights"))
	}
	for i := 0; i < l.Out; i++ {
		l.B = append(l.B, d.f64("biases"))
	}
	return l
}

func (d *dec) model() fModel {
	var m fModel
	d.magic("NNML")
	m.Version = string(d.take(5, "version"))
	n := d.i8("model size")
	m.In = d.i32("input size")
	m.Out = d.i32("output size")
	m.Loss = d.i8("loss type")
	m.Acc = d.i8("accuracy type")
	m.Prec = d.f64("accuracy percision")
	m.Opt = d.i8("optimizer type")
	k := d.i8("optimizer value count")
	for i := 0; i < k && d.err == ""; i++ {
		kl := d.i8("key length")
		if kl < 0 {
			d.err = "negative key length"
			break
		}
		key := string(d.take(kl, "key"))
		m.Pairs = append(m.Pairs, pair{key, d.f64("value")})
	}
	if d.err == "" && n <= 0 {
		d.err = fmt.Sprintf("model size %d", n)
	}
	for i := 0; i < n && d.err == ""; i++ {
		m.Layers = append(m.Layers, d.layer())
	}
	return m
}

func rev(m map[string]int, v int) string {
	for _, k := range sortedKeys(m) {
		if m[k] == v {
			return k
		}
	}
	return ""
}

// fdump is the dump of the model a stored content describes (the text dump
// gives for a loaded model), so that stored and loaded compare.
func fdump(m fModel) string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "model size=%d in=%d out=%d loss=%d acc=%d prec=%s opt=%d\n", len(m.Layers), m.In, m.Out, m.Loss, m.Acc, bits(m.Prec), m.Opt)
	vals := map[string]float64{}
	got := map[string]float64{}
	for _, p := range m.Pairs {
		got[p.K] = p.V
	}
	on := rev(optCode, m.Opt)
	for _, k := range optKeys[on] {
		vals[k] = got[k]
	}
	b.WriteString("values")
	for _, k := range sortedKeys(vals) {
		fmt.Fprintf(&b, " %s=%s", k, bits(vals[k]))
	}
	fmt.Fprintf(&b, "\nloss %s size=%d\n", lossType[rev(lossCode, m.Loss)], m.Out)
	fn := map[string]string{"learningRate": "LearningRate", "decay": "Decay", "momentum": "Momentum", "epsilon": "Epsilon", "beta1": "Beta1", "beta2": "Beta2"}
	for range m.Layers {
		fmt.Fprintf(&b, "optimizer %s", map[string]string{"sgd": "SGDOptimizer", "adam": "AdamOptimizer"}[on])
		for _, k := range []string{"learningRate", "decay", "momentum", "epsilon", "beta1", "beta2"} {
			if v, ok := vals[k]; ok {
				fmt.Fprintf(&b, " %s=%s", fn[k], bits(v))
			}
		}
		b.WriteByte('\n')
	}
	for _, l := range m.Layers {
		b.WriteString(flayerDump(l))
	}
	return b.String()
}

func flayerDump(l fLayer) string {
	var b bytes.Buffer
	k := rev(layerCode, l.Type)
	fmt.Fprintf(&b, "layer %s InputSize=%d OutputSize=%d", layerType[k], l.In, l.Out)
	if k == "leaky" {
		fmt.Fprintf(&b, " Slope=%s", bits(l.Slope))
	}
	if k == "dropout" {
		fmt.Fprintf(&b, " Dropout=%s", bits(l.Drop))
	}
	mat := func(rows, cols int, v []float64) {
		m := nn.Matrix{Rows: rows, Cols: cols}
		for i := 0; i < rows; i++ {
			m.M = append(m.M, v[i*cols:(i+1)*cols])
		}
		dumpMatrix(&b, &m)
	}
	b.WriteString(" W ")
	mat(l.In, l.Out, l.W)
	b.WriteString("B ")
	mat(1, l.Out, l.B)
	return b.String()
}
