package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"github.com/cubeflix/nn"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- records

// logRec is one record a training has to leave in the log.
type logRec struct {
	epoch     int
	val       bool
	loss, acc float64
}

func (l logRec) String() string {
	v := ""
	if l.val {
		v = "validation "
	}
	return fmt.Sprintf("epoch %d %sloss %g accuracy %g", l.epoch, v, l.loss, l.acc)
}

var recLine = regexp.MustCompile(`(?i)\bepoch\b\D*(\d+)\D(.*)$`)
var recNum = regexp.MustCompile(`(?i)([a-z ]*)[:= ]+([-+]?(?:\d[0-9.e+-]*|\.\d[0-9e+-]*|inf|nan))\b`)

// parseRec reads a log line; ok is false when it is not an epoch record.
func parseRec(s string) (q logRec, ok bool, msg string) {
	m := recLine.FindStringSubmatch(s)
	if m == nil {
		return q, false, ""
	}
	if strings.Count(strings.ToLower(s), "epoch") > 1 {
		return q, true, "more than one record on a line"
	}
	q.epoch, _ = strconv.Atoi(m[1])
	low := strings.ToLower(m[2])
	q.val = strings.Contains(low, "val")
	nl, na := 0, 0
	for _, f := range recNum.FindAllStringSubmatch(low, -1) {
		v, err := strconv.ParseFloat(f[2], 64)
		if err != nil {
			continue
		}
		switch {
		case strings.Contains(f[1], "loss"):
			q.loss = v
			nl++
		case strings.Contains(f[1], "acc"):
			q.acc = v
			na++
		}
	}
	if nl != 1 || na != 1 {
		return q, true, fmt.Sprintf("%d losses and %d accuracies on a line", nl, na)
	}
	return q, true, ""
}

func sameNum(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return a == b
	}
	return math.Abs(a-b) <= 2e-6*math.Max(1, math.Abs(b))
}
func sameRec(a, b logRec) bool {
	return a.epoch == b.epoch && a.val == b.val && sameNum(a.loss, b.loss) && sameNum(a.acc, b.acc)
}

// judgeLog says what is wrong with the text added to a log: it has to be whole
// lines whose records are an interleaving of prefixes of the tasks' records,
// each at least as long as what is due.
func judgeLog(added []byte, want [][]logRec, due []int, lost int, others bool) string {
	if len(added) > 0 && added[len(added)-1] != '\n' {
		return fmt.Sprintf("the log ends in an unfinished line: %q", cut(string(added)))
	}
	var got []logRec
	for _, l := range strings.Split(string(added), "\n") {
		if l == "" {
			continue
		}
		q, ok, msg := parseRec(l)
		if msg != "" {
			return fmt.Sprintf("%s: %q", msg, cut(l))
		}
		if !ok {
			if !others {
				return fmt.Sprintf("a line that is no record: %q", cut(l))
			}
			continue
		}
		got = append(got, q)
	}
	if lost > 0 { // the device refused some lines of the only task: these alone may be missing
		at := 0
		for k, q := range got {
			from := at
			for at < len(want[0]) && !sameRec(q, want[0][at]) {
				at++
			}
			if at == len(want[0]) {
				exp := "nothing more"
				if from < at {
					exp = want[0][from].String()
				}
				return fmt.Sprintf("line %d of the log says %v, expected %s, or a later record if lines were refused", k+1, q, exp)
			}
			at++
		}
		if len(got)+lost < due[0] {
			return fmt.Sprintf("the log has %d records where %d are due and the device refused %d at most", len(got), due[0], lost)
		}
		return ""
	}
	// positions reachable after each line
	n := len(want)
	cur := map[string][]int{fmt.Sprint(make([]int, n)): make([]int, n)}
	for k, q := range got {
		next := map[string][]int{}
		for _, key := range sortedKeys(cur) {
			at := cur[key]
			for t := 0; t < n; t++ {
				if at[t] < len(want[t]) && sameRec(q, want[t][at[t]]) {
					b := append([]int(nil), at...)
					b[t]++
					next[fmt.Sprint(b)] = b
				}
			}
		}
		if len(next) == 0 {
			var exp []string
			for _, key := range sortedKeys(cur) {
				for t, i := range cur[key] {
					if i < len(want[t]) {
						exp = append(exp, fmt.Sprintf("%v", want[t][i]))
					} else {
						exp = append(exp, "nothing more")
					}
				}
				break
			}
			return fmt.Sprintf("line %d of the log says %v, expected %s", k+1, q, strings.Join(exp, " or "))
		}
		cur = next
	}
	for _, at := range cur {
		ok := true
		for t := range at {
			if at[t] < due[t] {
				ok = false
			}
		}
		if ok {
			return ""
		}
	}
	miss := 0
	for _, d := range due {
		miss += d
	}
	return fmt.Sprintf("the log has %d records where %d are due", len(got), miss)
}

// ---------------------------------------------------------------- L01

// lopt tells when a training step updates the first layer.
type lopt struct {
	nn.Optimizer
	f func()
}

func (o *lopt) Unwrap() any { return o.Optimizer }
func (o *lopt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	o.f()
	return o.Optimizer.Update(w, b, dw, db)
}

var oldLogs = []string{"", "2022/09/19 01:02:03 [info]: kept\n", "an older log\nof two lines\n", "no end of line", strings.Repeat("x", 5000) + "\n", "[info]: 2022/09/19 01:02:03 Epoch: 0, Loss: 1.000000, Accuracy: 0.500000\n"}

// bigLog makes an older log of about n bytes.
func bigLog(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "[info]: 2022/09/19 01:02:03 Epoch: %d, Loss: 1.%06d, Accuracy: 0.500000\n", i, i)
	}
	return b.String()
}

func oldLog(k int64) (string, bool) {
	switch {
	case k >= 1000:
		return bigLog(int(k)), true
	case int(k) < len(oldLogs):
		return oldLogs[k], true
	}
	return "", false
}

func genL01(p *Plan, g *simrt.Rng, thorough bool) {
	p.Kind = []string{"history", "history", "history", "history", "threads", "threads", "kill", "kill"}[g.Intn(8)]
	n := 1
	if p.Kind == "threads" || p.Kind == "kill" && g.Intn(2) == 0 {
		n = 2 + g.Intn(2)
	}
	p.P["threads"] = int64(n)
	p.P["old"] = int64(g.Intn(len(oldLogs) + 2)) // beyond: no file yet
	p.P["old2"] = int64(g.Intn(len(oldLogs) + 2))
	big := func() int64 {
		switch g.Intn(80) {
		case 0:
			if g.Intn(8) == 0 {
				return []int64{10_000_100, 10<<20 + 100, 16<<20 + 100}[g.Intn(3)]
			}
			return []int64{100_000, 1 << 20, 1<<20 + 1000, 3 << 20}[g.Intn(4)]
		case 1, 2:
			return []int64{4096, 8192, 10_000, 16 << 10, 32 << 10, 64 << 10, 65 << 10}[g.Intn(7)]
		}
		return 0
	}
	if b := big(); b > 0 {
		p.P["old"] = b
	}
	if b := big(); b > 0 {
		p.P["old2"] = b
	}
	if n > 1 {
		p.Sched = randSched(g)
	}
	for t := 0; t < n; t++ {
		p.Models = append(p.Models, genModel(g, genOpt{maxLayers: 3, maxDim: 3, dropoutRates: []float64{0, 1}}))
	}
	nd := 1 + g.Intn(2)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(6), Seed: g.U64(), Mode: genMode(g)})
	}
	long := g.Intn(80) == 0 // a long training of small models
	if long {
		for t := range p.Models {
			p.Models[t] = genModel(g, genOpt{maxLayers: 2, maxDim: 2, dropoutRates: []float64{0, 1}})
		}
		for i := range p.Data {
			p.Data[i].Rows = 1 + g.Intn(2)
		}
	}
	fit := func(t int) Step {
		s := Step{T: t, K: "fit", D: g.Intn(nd), N: 1 + g.Intn(4), B: g.Intn(4), L: 1 + g.Intn(3)}
		if long {
			s.N, s.L = 10+g.Intn(120), []int{1, 5, 10, 50, 100, 7}[g.Intn(6)]
			if g.Intn(4) == 0 && p.Kind == "history" {
				s.N, s.L = 1001, []int{250, 500, 1000}[g.Intn(3)]
				if g.Intn(2) == 0 {
					s.N = 1001 + g.Intn(1200)
					s.L = s.N/8 + g.Intn(s.N/3)
				}
			}
			if s.N > 12*s.L { // each report is computed from a training of its own
				s.N = 12 * s.L
			}
		}
		if g.Intn(8) == 0 {
			s.L = 0
		}
		if g.Intn(10) == 0 {
			s.N = 0
		}
		if thorough && g.Intn(4) == 0 {
			s.N = 5 + g.Intn(8)
		}
		if g.Intn(2) == 0 {
			s.S = "val"
		}
		return s
	}
	inits := []Step{{K: "init", S: "file", Path: "/w/train.log"}, {K: "init", S: "file", Path: "/w/train.log"}, {K: "init", S: "file", Path: "train.log"}, {K: "init", S: "file", Path: "/w/b.log"}, {K: "init", S: "quiet", Path: "/w/train.log"}, {K: "init", S: "console"}, {K: "init", S: "both", Path: "/w/b.log"}}
	if p.Kind == "history" {
		k := 2 + g.Intn(5)
		if thorough {
			k += g.Intn(6)
		}
		for i := 0; i < k; i++ {
			switch g.Intn(9) {
			case 0, 1, 2:
				p.Steps = append(p.Steps, inits[g.Intn(len(inits))])
			case 3:
				p.Steps = append(p.Steps, Step{K: "restart", Seed: g.U64()})
				if g.Intn(3) > 0 {
					p.Steps = append(p.Steps, inits[g.Intn(len(inits))])
				}
			case 4:
				if g.Intn(2) == 0 { // the file is rotated away or written by somebody else
					p.Steps = append(p.Steps, Step{K: []string{"rotate", "foreign"}[g.Intn(2)], S: "file", Path: []string{"/w/train.log", "/w/train.log", "/w/b.log"}[g.Intn(3)]})
					break
				}
				p.Steps = append(p.Steps, Step{K: []string{"predict", "loss", "accuracy", "badfit"}[g.Intn(4)], D: g.Intn(nd)})
			default:
				if i == 0 && g.Intn(4) > 0 {
					p.Steps = append(p.Steps, inits[g.Intn(len(inits))])
				}
				f := fit(0)
				if g.Intn(6) == 0 { // the device refuses some lines
					for o := 0; o < 12; o++ {
						if g.Intn(3) == 0 {
							f.Faults = append(f.Faults, simfs.Fault{Op: o, Kind: []string{"eio", "enospc"}[g.Intn(2)]})
						}
					}
				}
				p.Steps = append(p.Steps, f)
			}
		}
		return
	}
	p.Steps = append(p.Steps, inits[[]int{0, 0, 0, 0, 1, 5}[g.Intn(6)]])
	for t := 0; t < n; t++ {
		k := 1 + g.Intn(3)
		for i := 0; i < k; i++ {
			if g.Intn(6) == 0 {
				p.Steps = append(p.Steps, Step{T: t, K: []string{"predict", "loss", "badfit"}[g.Intn(3)], D: g.Intn(nd)})
			}
			p.Steps = append(p.Steps, fit(t))
		}
	}
	p.P["kill"] = int64(g.U64() >> 2)
	p.P["killtask"] = int64(g.Intn(n))
}

// lrun is the work of one user under a log.
type lrun struct {
	r      *R
	x, y   []nn.Matrix
	vx, vy nn.Matrix
	spec   ModelSpec
	fits   []Step // done since the model was built
	m      *nn.Model
	others bool
}

func (r *R) lwork(t int) *lrun {
	s := r.p.Models[t]
	xs, ys := r.sets(t)
	w := &lrun{r: r, x: xs, y: ys, spec: s}
	w.vx, w.vy = mkData(DataSpec{Rows: 3, Seed: s.WSeed ^ 77}, s.in(), s.out(), s.Loss)
	return w
}

func (w *lrun) fit(m *nn.Model, s Step, epochs, logEvery int) error {
	vx, vy := nn.Matrix{}, nn.Matrix{}
	if s.S == "val" {
		vx, vy = w.vx, w.vy
	}
	return m.Fit(w.x[s.D%len(w.x)], w.y[s.D%len(w.y)], epochs, s.B, vx, vy, logEvery)
}

// expect computes the records of a training from trainings that log nothing.
func (w *lrun) expect(s Step) (recs []logRec, epochOf []int, ok bool) {
	for e := 0; e < s.N && s.L > 0; e += s.L {
		m, err := build(w.spec)
		if err != nil {
			return nil, nil, false
		}
		for _, f := range w.fits {
			if w.fit(m, f, f.N, 0) != nil {
				return nil, nil, false
			}
		}
		if w.fit(m, s, e+1, 0) != nil {
			return nil, nil, false
		}
		sets := [][2]nn.Matrix{{w.x[s.D%len(w.x)], w.y[s.D%len(w.y)]}}
		if s.S == "val" {
			sets = append(sets, [2]nn.Matrix{w.vx, w.vy})
		}
		for i, d := range sets {
			l, err := m.CalculateLoss(d[0], d[1])
			if err != nil {
				return nil, nil, false
			}
			a, err := m.CalculateAccuracy(d[0], d[1])
			if err != nil {
				return nil, nil, false
			}
			recs = append(recs, logRec{e, i == 1, l, a})
			epochOf = append(epochOf, e)
		}
	}
	return recs, epochOf, true
}

// lsink is a place where log lines go.
type lsink struct {
	path string // "" for the console
	old  []byte
	want [][]logRec // per task
	due  []int
	lost int // lines the device may have refused
}

// settle takes what the file holds now for what it held before.
func (r *R) settle(s *lsink) {
	s.old, _ = r.fs.Get(s.path)
	s.old = append([]byte(nil), s.old...)
	s.want, s.due, s.lost = make([][]logRec, len(s.want)), make([]int, len(s.due)), 0
}

func (r *R) sinkText(s *lsink) ([]byte, string) {
	if s.path == "" {
		return append(append([]byte(nil), r.fs.StdoutData()...), r.fs.StderrData()...), ""
	}
	b, _ := r.fs.Get(s.path)
	if len(b) < len(s.old) || string(b[:len(s.old)]) != string(s.old) {
		return nil, fmt.Sprintf("%s no longer starts with what it held before", s.path)
	}
	return b[len(s.old):], ""
}

func (r *R) checkSink(s *lsink, others bool, where string) bool {
	b, msg := r.sinkText(s)
	if msg == "" {
		msg = judgeLog(b, s.want, s.due, s.lost, others)
	}
	if msg != "" {
		n := s.path
		if n == "" {
			n = "the console"
		}
		r.fail("log", "%s: %s: %s", where, n, msg)
		return false
	}
	return true
}

func runL01(r *R) {
	p := r.p
	n := len(p.Models)
	// what has to be logged, from trainings that log nothing
	type due struct {
		recs []logRec
		ep   []int
	}
	exp := make([]due, len(p.Steps))
	others := false
	ok := true
	r.do("reference", func() {
		ws := make([]*lrun, n)
		for t := range ws {
			ws[t] = r.lwork(t)
		}
		for i, s := range p.Steps {
			switch s.K {
			case "restart":
				for t := range ws {
					ws[t].fits = nil
				}
			case "badfit":
				others = true
			case "fit":
				w := ws[s.T%n]
				var o bool
				exp[i].recs, exp[i].ep, o = w.expect(s)
				ok = ok && o
				w.fits = append(w.fits, s)
			}
		}
	})
	if r.bad() {
		r.stop()
	}
	if !ok {
		r.ev("a training without logging failed")
		return
	}
	var sinks map[string]*lsink
	var sink *lsink
	var quietOut bool // nothing may be printed
	reset := func() {
		r.freshDisk()
		sinks = map[string]*lsink{"": {want: make([][]logRec, n), due: make([]int, n)}}
		for _, f := range []struct {
			path string
			k    int64
		}{{"/w/train.log", p.P["old"]}, {"/w/b.log", p.P["old2"]}} {
			s := &lsink{path: f.path, want: make([][]logRec, n), due: make([]int, n)}
			if o, ok := oldLog(f.k); ok {
				s.old = []byte(o)
				r.fs.Put(f.path, s.old)
			}
			sinks[f.path] = s
		}
		sink, quietOut = nil, true
		r.process(p.Env)
	}
	initLog := func(s Step) {
		verbose, file := s.S == "console" || s.S == "both", s.S == "file" || s.S == "both"
		var err error
		r.do("initlogger", func() { err = nn.InitLogger(verbose, file, s.Path) })
		if r.bad() {
			r.stop()
		}
		if err != nil {
			r.fail("initlogger", "InitLogger(%v, %v, %q) failed on a working disk: %v", verbose, file, s.Path, err)
			r.stop()
		}
		sink = nil
		switch s.S {
		case "file", "both":
			sink = sinks[simfs.Abs(s.Path)]
		case "console":
			sink = sinks[""]
		}
		if verbose {
			quietOut = false
		}
	}
	checkAll := func(where string) bool {
		for _, k := range sortedKeys(sinks) {
			if k == "" && !quietOut && sink != sinks[""] && len(sinks[""].want[0]) == 0 {
				continue // verbose together with a file: left open
			}
			if !r.checkSink(sinks[k], others, where) {
				return false
			}
		}
		return true
	}
	// perform runs a step of a task and checks the log on the way
	perform := func(ws []*lrun, i int, s Step) {
		t := s.T % n
		w := ws[t]
		if w.m == nil {
			m, err := build(w.spec)
			if err != nil {
				panic("harness: " + err.Error())
			}
			w.m = m
		}
		x, y := w.x[s.D%len(w.x)], w.y[s.D%len(w.y)]
		switch s.K {
		case "fit":
			sk := sink
			base := 0
			if sk != nil {
				base = len(sk.want[t])
				sk.want[t] = append(sk.want[t], exp[i].recs...)
			}
			steps := 1
			if s.B > 0 {
				steps = (y.Rows + s.B - 1) / s.B
			}
			count := 0
			if sk != nil && sk.path != "" && len(s.Faults) > 0 {
				sk.lost += len(s.Faults)
				r.fs.Arm(s.Faults)
				r.fs.PathPin = sk.path
				defer func() {
					r.fs.Disarm()
					r.fs.PathPin = ""
				}()
			}
			inner := w.m.Optimizers[0]
			w.m.Optimizers[0] = &lopt{inner, func() {
				if count%steps == 0 && count > 0 && sk != nil && !r.bad() {
					k := 0
					for _, e := range exp[i].ep {
						if e < count/steps {
							k++
						}
					}
					if base+k > sk.due[t] {
						sk.due[t] = base + k
						r.checkSink(sk, others, fmt.Sprintf("step %d of thread %d, at the start of epoch %d", i, t, count/steps))
					}
				}
				count++
			}}
			err := w.fit(w.m, s, s.N, s.L)
			w.m.Optimizers[0] = inner
			if err != nil {
				r.fail("fit", "step %d: training under a working log failed: %v", i, err)
				return
			}
			if sk != nil {
				sk.due[t] = len(sk.want[t])
				if !r.bad() {
					r.checkSink(sk, others, fmt.Sprintf("after step %d of thread %d (fit, %d epochs, every %d)", i, t, s.N, s.L))
				}
			}
		case "predict":
			w.m.Predict(x)
		case "loss":
			w.m.CalculateLoss(x, y)
		case "accuracy":
			w.m.CalculateAccuracy(x, y)
		case "badfit":
			w.m.Fit(widen(x), y, 1+s.N, s.B, nn.Matrix{}, nn.Matrix{}, 1)
		}
	}
	work := func() []*lrun {
		ws := make([]*lrun, n)
		for t := range ws {
			ws[t] = r.lwork(t)
		}
		return ws
	}
	if p.Kind == "history" {
		reset()
		ws := work()
		for i, s := range p.Steps {
			switch s.K {
			case "init":
				initLog(s)
			case "restart":
				r.restart(simrt.EnvSpec{Seed: s.Seed, Clock: p.Env.Clock})
				sink = nil
				ws = work()
			case "rotate": // moved away from outside; the user sets up logging again
				if b, ok := r.fs.Get(s.Path); ok {
					to := fmt.Sprintf("%s.%d", s.Path, i)
					if err := r.fs.Rename(s.Path, to); err != nil {
						panic("harness: " + err.Error())
					}
					sinks[to] = &lsink{path: to, old: append([]byte(nil), b...), want: make([][]logRec, n), due: make([]int, n)}
					r.settle(sinks[s.Path])
					initLog(s)
				}
			case "foreign": // somebody else adds a line
				if b, ok := r.fs.Get(s.Path); ok {
					f, err := r.fs.OpenFile(s.Path, syscall.O_WRONLY|syscall.O_APPEND, 0)
					if err == nil {
						_, err = f.Write([]byte("a line of another program\n"))
						f.Close()
					}
					if err != nil {
						panic("harness: " + err.Error())
					}
					if a, _ := r.fs.Get(s.Path); len(a) != len(b)+26 {
						panic("harness: foreign line")
					}
					r.settle(sinks[s.Path])
				}
			default:
				r.do(s.K, func() { perform(ws, i, s) })
			}
			if r.bad() {
				r.stop()
			}
			if !checkAll(fmt.Sprintf("after step %d (%s %s)", i, s.K, s.S)) {
				return
			}
			r.nontriv = r.nontriv || len(exp[i].recs) > 0
		}
	} else {
		var world *simrt.World
		round := func(kill int64) {
			reset()
			ws := work()
			for _, s := range p.Steps {
				if s.K == "init" {
					initLog(s)
				}
			}
			var ts []taskFn
			for t := 0; t < n; t++ {
				t := t
				ts = append(ts, taskFn{fmt.Sprintf("thread%d", t), nil, func() {
					for i, s := range p.Steps {
						if s.K != "init" && s.T%n == t && !r.bad() {
							perform(ws, i, s)
						}
					}
				}})
			}
			r.seg(p.Sched, int(p.P["killtask"])%n, kill, false, 0, ts...)
			world = r.last
			if r.bad() {
				r.stop()
			}
			if kill > 0 {
				r.fs.Restart()
			}
			if !checkAll("after the run") {
				r.stop()
			}
		}
		round(0)
		r.nontriv = true
		if p.Kind == "kill" {
			st := world.Tasks[int(p.P["killtask"])%n].Steps()
			if st > 0 {
				at := 1 + p.P["kill"]%st
				round(at)
				// the next process goes on with the same file
				r.process(p.Env)
				for _, s := range p.Steps {
					if s.K == "init" {
						initLog(s)
					}
				}
				for i, s := range p.Steps {
					if s.K == "fit" {
						w := r.lwork(s.T % n)
						var recs []logRec
						r.do("reference", func() {
							var o bool
							recs, _, o = w.expect(s)
							ok = ok && o
						})
						if r.bad() || !ok {
							r.stop()
						}
						if sink != nil {
							b, _ := r.sinkText(sink)
							next := &lsink{path: sink.path, old: append(append([]byte(nil), sink.old...), b...), want: [][]logRec{recs}, due: []int{len(recs)}}
							if sink.path == "" {
								break
							}
							r.do("fit", func() {
								m, err := build(w.spec)
								if err == nil {
									err = w.fit(m, s, s.N, s.L)
								}
								if err != nil {
									r.fail("fit", "training failed after a restart: %v", err)
								}
							})
							if r.bad() {
								r.stop()
							}
							if !r.checkSink(next, others, fmt.Sprintf("after a kill at statement %d and a restart, step %d", at, i)) {
								return
							}
						}
						break
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(sinks) {
		b, _ := r.sinkText(sinks[k])
		r.ev("%s %q", k, b)
		r.mark("%s %q", k, short(string(b)))
	}
}

// ---------------------------------------------------------------- L02

const logPath = "/w/train.log"

func genL02(p *Plan, g *simrt.Rng, thorough bool) {
	s := genModel(g, genOpt{maxLayers: 3, maxDim: 4, dropoutRates: []float64{0, 1}})
	p.Models = []ModelSpec{s}
	nd := 1 + g.Intn(2)
	for i := 0; i < nd; i++ {
		p.Data = append(p.Data, DataSpec{Rows: 1 + g.Intn(6), Seed: g.U64(), Mode: genMode(g)})
	}
	kinds := []string{"fit", "fit", "fit", "fit", "badfit", "badval", "badlast", "loadver", "loadver", "predict", "badpredict", "loss", "badloss", "accuracy", "badacc", "save", "load", "buffer", "badload", "badsave", "layer", "grad"}
	n := 2 + g.Intn(5)
	if thorough {
		n += g.Intn(6)
	}
	for i := 0; i < n; i++ {
		st := Step{K: kinds[g.Intn(len(kinds))], D: g.Intn(nd), N: g.Intn(2)}
		switch st.K {
		case "fit":
			st.N, st.B, st.L = 1+g.Intn(3), g.Intn(4), g.Intn(3)
			if g.Intn(2) == 0 {
				st.S = "val"
			}
		case "badval", "badlast":
			st.N, st.B, st.L = 1+g.Intn(3), g.Intn(3), g.Intn(3)
		case "save", "load":
			st.Path = []string{"a.model", "b.model"}[g.Intn(2)]
		case "loadver":
			st.Path = []string{"old.model", "new.model", "odd.model"}[g.Intn(3)]
		}
		p.Steps = append(p.Steps, st)
	}
	p.Kind = []string{"faults", "faults", "faults", "badinit"}[g.Intn(4)]
	p.P["mode"] = int64([]int{0, 1, 2, 2, 2, 2, 3, 3}[g.Intn(8)]) // none quiet file console
	if p.Kind == "badinit" {
		p.P["at"] = int64(g.Intn(n + 1))
		p.P["how"] = int64(g.Intn(4))
		return
	}
	if p.P["mode"] >= 2 {
		kinds := []string{"eio", "enospc", "partial", "shortw", "deferred"}
		from := g.Intn(8)
		only := ""
		if g.Intn(2) == 0 {
			only = kinds[g.Intn(len(kinds))]
		}
		dense := g.Intn(3) > 0
		for i := 0; i < 60; i++ {
			if i < from || !dense && g.Intn(3) > 0 {
				continue
			}
			k := only
			if k == "" {
				k = kinds[g.Intn(len(kinds))]
			}
			p.Steps[0].Faults = append(p.Steps[0].Faults, simfs.Fault{Op: i, Kind: k, Arg: g.Intn(60)})
		}
		if f := p.Steps[0].Faults; len(f) > 0 && g.Intn(3) == 0 { // the device never recovers
			x := &f[g.Intn(1+g.Intn(len(f)))]
			x.Stay = simfs.Stays(x.Kind)
			if g.Intn(2) == 0 {
				p.Steps[0].Faults = []simfs.Fault{*x}
			}
		}
		if g.Intn(6) == 0 { // no fault at all: logging alone must not matter
			p.Steps[0].Faults = nil
		}
	}
}

func runL02(r *R) {
	p := r.p
	spec := p.Models[0]
	g := simrt.NewRng(simrt.Mix(p.Seed, 61))
	vers := map[string][]byte{
		"old.model": encodeSpec(spec, g, "1.0.0"),
		"new.model": encodeSpec(spec, g, "9.12.7-beta"),
		"odd.model": encodeSpec(spec, g, "%s%d\n%!x"),
	}
	exec := func(mode int64, initBad bool) []string {
		r.freshDisk()
		for _, f := range sortedKeys(vers) {
			r.fs.Put("/w/"+f, vers[f])
		}
		r.process(p.Env)
		init := func(mode int64) error {
			var err error
			r.do("initlogger", func() { err = nn.InitLogger(mode == 3, mode == 2, logPath) })
			if r.bad() {
				r.stop()
			}
			return err
		}
		if mode > 0 {
			if err := init(mode); err != nil {
				r.fail("initlogger", "InitLogger failed on a working disk: %v", err)
				r.stop()
			}
		}
		xs, ys := r.sets(0)
		w := r.worker(0, "/w/", xs, ys)
		w.log = true
		pin := logPath
		if mode == 3 {
			pin = "/dev/stdout"
		}
		if initBad {
			pin = ""
		}
		var fired, ops int
		if len(p.Steps) > 0 && mode >= 2 && pin != "" {
			r.fs.Arm(p.Steps[0].Faults)
			r.fs.PathPin = pin
		}
		console := func() int { return len(r.fs.StdoutData()) + len(r.fs.StderrData()) }
		text := func() []byte {
			if mode == 3 {
				return r.fs.StdoutData()
			}
			b, _ := r.fs.Get(logPath)
			return b
		}
		for i := 0; i <= len(p.Steps); i++ {
			if initBad && int(p.P["at"]) == i {
				path := "/w/nodir/x.log"
				switch p.P["how"] {
				case 1:
					path = "/w"
				case 2:
					path = "/w/c.log"
					r.fs.Arm([]simfs.Fault{{Op: 0, Kind: []string{"eacces", "emfile", "eio", "enospc"}[p.Seed%4]}})
					r.fs.PathPin = path
				case 3:
					path = ""
				}
				before := string(text())
				con := console()
				var err error
				r.do("initlogger", func() { err = nn.InitLogger(p.Seed%3 == 0, true, path) })
				r.fs.Disarm()
				if r.bad() {
					r.stop()
				}
				if err == nil && (p.P["how"] != 2 || r.fs.Fired["eacces"]+r.fs.Fired["emfile"]+r.fs.Fired["eio"]+r.fs.Fired["enospc"] > 0) {
					if b, ok := r.fs.Get(path); !ok || b == nil {
						r.fail("badinit", "setting up logging with %q, which cannot be opened, gave no error", path)
						r.stop()
					}
				}
				if err == nil {
					r.ev("init recovered")
					return w.trace // a second attempt worked: the log has moved
				}
				r.stat("logger set-ups failed", 1)
				// a training that reports has to show in the log used before
				c, berr := build(spec)
				if berr != nil {
					panic("harness: " + berr.Error())
				}
				var ferr error
				r.do("fit after failed set-up", func() {
					ferr = c.Fit(xs[0], ys[0], 2, 0, nn.Matrix{}, nn.Matrix{}, 1)
				})
				if r.bad() {
					r.stop()
				}
				if ferr != nil {
					r.fail("badinit", "training failed after logging could not be set up with %q: %v", path, ferr)
					r.stop()
				}
				after := string(text())
				switch mode {
				case 0, 1:
					if console() != con {
						r.fail("badinit", "after logging could not be set up with %q, a training printed although logging was %s before", path, []string{"not set up", "quiet"}[mode])
						r.stop()
					}
				default:
					if mode == 2 && console() != con {
						r.fail("badinit", "after logging could not be set up with %q, a training printed instead of logging to the file in use", path)
						r.stop()
					}
					if !strings.HasPrefix(after, before) || strings.Count(after[len(before):], "\n") != 2 {
						r.fail("badinit", "after logging could not be set up with %q, the previous log (%s) did not receive the 2 lines of a training: it grew by %q", path, []string{"", "", "file", "console"}[mode], cut(strings.TrimPrefix(after, before)))
						r.stop()
					}
				}
			}
			if i == len(p.Steps) {
				break
			}
			s := p.Steps[i]
			r.do(s.K, func() { w.op(s) })
			if r.bad() {
				r.stop()
			}
		}
		for _, k := range []string{"eio", "enospc", "partial", "shortw", "deferred"} {
			fired += r.fs.Fired[k]
		}
		ops = r.fs.OpN
		r.fs.Disarm()
		tr := append(w.trace, "final "+dump(w.m))
		for _, f := range r.fs.List() {
			if strings.HasSuffix(f, ".model") {
				b, _ := r.fs.Get(f)
				tr = append(tr, f+" "+canonical(b))
			}
		}
		r.ev("mode %d: %d log operations, %d faults, %s", mode, ops, fired, short(strings.Join(tr, "\n")))
		var ks []string
		for _, s := range p.Steps {
			ks = append(ks, s.K)
		}
		r.mark("%d %d %d %v %s", mode, ops, fired, ks, spec.Opt)
		return tr
	}
	quiet := exec(1, false)
	modes := []string{"never set up", "quiet", "to a file", "to the console"}
	m := p.P["mode"]
	got := exec(m, p.Kind == "badinit")
	r.nontriv = true
	if p.Kind == "badinit" && len(got) < len(quiet) {
		quiet = quiet[:len(got)]
	}
	if i, d := compareTraces(quiet, got); i >= 0 {
		k := "the final state"
		if i < len(p.Steps) {
			k = fmt.Sprintf("step %d (%s)", i, p.Steps[i].K)
		}
		r.fail("result", "%s differs from quiet logging when logging is %s%s: %s", k, modes[m], faultText(p.Steps[0]), d)
	}
}

func init() {
	register(&Prop{ID: "L01", Quick: 60000, Thoro: 2000000000, Gen: genL01, Run: runL01,
		Rule: "A run performs logger set-ups, trainings, other calls and restarts over files that may hold earlier content, or concurrent trainings under a seeded schedule, or such a run killed at a seeded statement and continued by a new process; the text added to every log is checked at the start of every epoch, after every call and at the end against the records computed by trainings that log nothing; non-trivial: at least one record due."})
	register(&Prop{ID: "L02", Quick: 200000, Thoro: 2000000000, Gen: genL02, Run: runL02,
		Rule: "A run executes one list of operations (including failing ones and loads of files of other versions) under quiet logging and again with logging never set up, to a file or to the console with seeded write faults on it, or with a set-up that fails on the way, and compares all results bit for bit; non-trivial: always."})
}
