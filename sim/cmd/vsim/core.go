package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/cubeflix/nn"

	shimlog "verif.local/sim/shim/log"
	shimos "verif.local/sim/shim/os"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// F64 is a float that survives JSON whatever its value.
type F64 float64

func (f F64) MarshalJSON() ([]byte, error) {
	v := float64(f)
	if math.IsNaN(v) || math.IsInf(v, 0) || (v == 0 && math.Signbit(v)) {
		return []byte(fmt.Sprintf("\"%016x\"", math.Float64bits(v))), nil
	}
	return json.Marshal(v)
}
func (f *F64) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var u uint64
		if _, err := fmt.Sscanf(strings.Trim(string(b), "\""), "%x", &u); err != nil {
			return err
		}
		*f = F64(math.Float64frombits(u))
		return nil
	}
	var v float64
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	*f = F64(v)
	return nil
}

type LayerSpec struct {
	K   string `json:"k"` // hidden linear sigmoid leaky softmax dropout
	In  int    `json:"in"`
	Out int    `json:"out"`
	P   F64    `json:"p,omitempty"` // slope or dropout rate
}

type ModelSpec struct {
	Layers []LayerSpec `json:"layers"`
	Loss   string      `json:"loss"` // mse mae ce bce
	Opt    string      `json:"opt"`  // sgd adam
	OptV   []F64       `json:"optv"`
	Acc    int         `json:"acc"`
	Prec   F64         `json:"prec"`
	WSeed  uint64      `json:"wseed"`
	WMode  string      `json:"wmode"` // normal special zero big
	Bad    string      `json:"bad,omitempty"`
}

func (m ModelSpec) in() int  { return m.Layers[0].In }
func (m ModelSpec) out() int { return m.Layers[len(m.Layers)-1].Out }

// shape is the architecture, for telling runs apart.
func (m ModelSpec) shape() string {
	s := m.Loss + " " + m.Opt
	for _, l := range m.Layers {
		s += fmt.Sprintf(" %s%dx%d", l.K, l.In, l.Out)
	}
	return s
}

func (m ModelSpec) params() int {
	n := 0
	for _, l := range m.Layers {
		n += l.In*l.Out + l.Out
	}
	return n
}
func (m ModelSpec) has(k string) bool {
	for _, l := range m.Layers {
		if l.K == k {
			return true
		}
	}
	return false
}

type DataSpec struct {
	Rows int    `json:"rows"`
	Seed uint64 `json:"seed"`
	Mode string `json:"mode,omitempty"` // "", special, dup
}

// Step is one operation of a plan.
type Step struct {
	T      int           `json:"t,omitempty"`
	K      string        `json:"k"`
	M      int           `json:"m,omitempty"`
	D      int           `json:"d,omitempty"`
	Path   string        `json:"path,omitempty"`
	N      int           `json:"n,omitempty"`
	B      int           `json:"b,omitempty"`
	L      int           `json:"l,omitempty"`
	S      string        `json:"s,omitempty"`
	Seed   uint64        `json:"seed,omitempty"`
	F      F64           `json:"f,omitempty"`
	Faults []simfs.Fault `json:"faults,omitempty"`
	Kill   int64         `json:"kill,omitempty"` // kill at this statement of the step (0: never)
	Pow    bool          `json:"pow,omitempty"`
	Keep   uint64        `json:"keep,omitempty"`
	Cap    int64         `json:"cap,omitempty"`
	Short  uint64        `json:"short,omitempty"` // seed of legal short reads
}

type Plan struct {
	Prop   string           `json:"prop"`
	Index  int              `json:"index"`
	VSeed  uint64           `json:"verif_seed"`
	Seed   uint64           `json:"seed"`
	Kind   string           `json:"kind,omitempty"`
	Env    simrt.EnvSpec    `json:"env"`
	Models []ModelSpec      `json:"models,omitempty"`
	Data   []DataSpec       `json:"data,omitempty"`
	Steps  []Step           `json:"steps,omitempty"`
	Sched  simrt.Sched      `json:"sched,omitempty"`
	Cap    int64            `json:"cap,omitempty"`
	Path   string           `json:"path,omitempty"`
	P      map[string]int64 `json:"params,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// R is one simulated run.
type R struct {
	p       *Plan
	fs      *simfs.FS
	env     *simrt.Env
	viol    []Viol
	hash    uint64
	log     []string
	keep    bool
	nontriv bool
	cov     uint64
	ilv     uint64 // identifies the interleavings of its concurrent parts
	fired   map[string]int
	steps   int64
	segs    int
	sw      int
	execd   []simrt.Switch // executed schedule of the last multi-task segment
	last    *simrt.World
	kills   int
	capSt   int64
	capBig  int64
	stats   map[string]int
}

type Result struct {
	Viol    []Viol
	Hash    uint64
	Log     []string
	NonTriv bool
	Cov     uint64
	Ilv     uint64
	Fired   map[string]int
	Steps   int64
	SimNs   int64
	Sw      int
	Execd   []simrt.Switch
	Stats   map[string]int
}

func (r *R) fail(class, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if len(m) > 1500 {
		m = m[:1500] + "..."
	}
	r.viol = append(r.viol, Viol{class, m})
	r.ev("VIOLATION %s: %s", class, m)
}
func (r *R) bad() bool { return len(r.viol) > 0 }

// ev records an event of the run; the hash of all events identifies the run.
func (r *R) ev(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	r.hash = simrt.Mix(r.hash, simrt.HashStr(s))
	if r.keep {
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		r.log = append(r.log, s)
	}
}

// mark books a state or interleaving reached, for the coverage measure.
func (r *R) mark(f string, a ...any) { r.cov = simrt.Mix(r.cov, simrt.HashStr(fmt.Sprintf(f, a...))) }

func (r *R) stat(k string, n int) { r.stats[k] += n }

// process starts a new simulated process on the current disk.
func (r *R) process(env simrt.EnvSpec) {
	fs := simfs.Cur
	was := fs.Dead
	simrt.OnDying = func(d bool) { fs.Dead = d || was }
	simrt.KillDaemons()
	r.env = simrt.NewEnv(env)
	w := simrt.NewWorld(env, simrt.Sched{}, nil, 0)
	w.Main = r.env
	simrt.Install(w)
	nn.ZZSimReset()
	shimlog.Reset()
}

// out is what became of a segment.
type out struct {
	w       *simrt.World
	crashed bool
}

type taskFn struct {
	name string
	env  *simrt.Env
	fn   func()
}

// seg runs tasks in the current process under a schedule. kill>0 kills the
// process at that statement of task killT.
func (r *R) seg(s simrt.Sched, killT int, kill int64, pow bool, keep uint64, ts ...taskFn) out {
	var k *simrt.Kill
	if kill > 0 {
		k = &simrt.Kill{Task: killT, At: kill}
	}
	cap := r.capSt
	if cap == 0 {
		cap = 1_000_000_000 + r.capBig
	}
	w := simrt.NewWorld(r.env.Spec, s, k, cap)
	w.Main = r.env
	w.OnCrash = func() {
		if !r.fs.Dead {
			r.fs.CrashAt(pow, keep)
			if pow {
				r.fs.Fired["power@stmt"]++
			} else {
				r.fs.Fired["kill@stmt"]++
			}
		}
	}
	simrt.Install(w)
	simrt.AllocRestart()
	for _, t := range ts {
		w.Spawn(t.name, t.env, t.fn)
	}
	s0 := simrt.Steps()
	w.Run()
	r.steps += simrt.Steps() - s0
	if slowRun > 0 && simrt.Steps()-s0 > cap/5 {
		fmt.Fprintf(os.Stderr, "long: %s run %d seed %d: %d of %d statements\n", r.p.Prop, r.p.Index, r.p.VSeed, simrt.Steps()-s0, cap)
	}
	r.segs++
	r.sw += w.Switches
	if len(ts) > 1 {
		r.execd = append([]simrt.Switch(nil), w.Executed...)
		r.cov = simrt.Mix(r.cov, w.SchedHash())
		r.ilv = simrt.Mix(r.ilv, w.SchedHash())
	}
	r.last = w
	if w.Crashed {
		r.kills++
	}
	if w.Deadlock {
		r.fail("deadlock", "tasks blocked forever: %s", blockedNames(w))
	}
	for _, t := range w.Tasks {
		if t.Panic != nil && !t.Killed {
			if e, ok := t.Panic.(shimos.Exited); ok {
				r.fail("exit", "%s ended the process with status %d", t.Name, e.Code)
			} else if a, ok := t.Panic.(simrt.AllocFailure); ok {
				r.fail("alloc", "%s: allocation out of proportion: %d elements in one request, %d in total (limit %d)", t.Name, a.N, simrt.AllocUsed(), simrt.AllocLimit())
			} else {
				r.fail("panic", "%s panicked: %v\n%s", t.Name, t.Panic, trimStack(t.Stack))
			}
		}
		if t.Aborted != "" {
			r.fail("hang", "%s: %s after %d statements", t.Name, t.Aborted, t.Steps())
		}
	}
	simrt.Install(func() *simrt.World {
		w2 := simrt.NewWorld(r.env.Spec, simrt.Sched{}, nil, 0)
		w2.Main = r.env
		return w2
	}())
	simrt.AllocRestart()
	return out{w, w.Crashed}
}

func blockedNames(w *simrt.World) string {
	var s []string
	for _, t := range w.Tasks {
		if t.Blocked() {
			s = append(s, t.Name+" on "+t.Why())
		}
	}
	return strings.Join(s, ", ")
}

// do runs one call in the current process.
func (r *R) do(name string, fn func()) out {
	return r.seg(simrt.Sched{}, 0, 0, false, 0, taskFn{name, r.env, fn})
}

// doKill runs one call that is killed at a statement.
func (r *R) doKill(name string, kill int64, pow bool, keep uint64, fn func()) out {
	return r.seg(simrt.Sched{}, 0, kill, pow, keep, taskFn{name, r.env, fn})
}

// restart is a new process after a crash (or an orderly end).
func (r *R) restart(env simrt.EnvSpec) {
	r.fs.Restart()
	r.process(env)
}

// the arguments of a call in a stack trace are addresses: not repeatable
var stackArgs = regexp.MustCompile(`\((0x|\{|\.\.\.|\)|[0-9]).*$`)

func trimStack(s string) string {
	var keep []string
	ls := strings.Split(s, "\n")
	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "cubeflix/nn") || strings.Contains(ls[i], "verif.local/sim/cmd") {
			f := strings.TrimSpace(ls[i+1])
			if k := strings.LastIndex(f, "/nn/"); k >= 0 {
				f = f[k+4:]
			}
			if k := strings.Index(f, " +0x"); k >= 0 {
				f = f[:k]
			}
			fn := ls[i]
			if k := strings.LastIndex(fn, "/"); k >= 0 {
				fn = fn[k+1:]
			}
			fn = stackArgs.ReplaceAllString(fn, "")
			keep = append(keep, "  at "+fn+" "+f)
		}
		if len(keep) >= 6 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// ---------------------------------------------------------------- properties

type Prop struct {
	ID     string
	Quick  int // runs
	Thoro  int
	Gen    func(p *Plan, g *simrt.Rng, thorough bool)
	Run    func(r *R)
	Rule   string
	Assume []string
	NoShr  bool
	Budget float64 // seconds of wall time for quick, 0: default
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func genPlan(pr *Prop, vseed uint64, i int, thorough bool) *Plan {
	p := &Plan{Prop: pr.ID, Index: i, VSeed: vseed, P: map[string]int64{}}
	p.Seed = simrt.Mix(vseed, simrt.HashStr(pr.ID), uint64(i))
	g := simrt.NewRng(p.Seed)
	p.Env = simrt.EnvSpec{Seed: g.U64(), Clock: simrt.ClockModes[0]}
	if g.Intn(3) == 0 {
		p.Env.Clock = simrt.ClockModes[g.Intn(len(simrt.ClockModes))]
	}
	pr.Gen(p, g, thorough)
	switch p.Prop {
	case "T01", "T02", "T03", "T04", "R04", "L01", "L02":
		grow(p, g)
	}
	return p
}

// run executes a plan: a pure function of the plan and the code under test.
func run(p *Plan, keep bool) (res *Result) {
	privateDraws()
	pr := props[p.Prop]
	r := &R{p: p, keep: keep, fired: map[string]int{}, stats: map[string]int{}}
	r.fs = simfs.New()
	simfs.Cur = r.fs
	simrt.ResetTime()
	simrt.AllocReset(0)
	big := 0
	for _, m := range p.Models {
		if n := m.params(); n > big && n > 2000 {
			big = n
		}
	}
	if big > 0 { // limits that grow with the models
		r.capBig = 5000 * int64(big)
		simrt.AllocSingle(1<<26 + 200*int64(big))
	}
	r.process(p.Env)
	res = &Result{}
	defer func() {
		if x := recover(); x != nil {
			if h, ok := x.(stopRun); ok {
				_ = h
			} else {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, false)]
				panic(fmt.Sprintf("harness: plan %s/%d: %v\n%s", p.Prop, p.Index, x, buf))
			}
		}
		for k, n := range r.fs.Fired {
			r.fired[k] += n
		}
		res.Viol, res.Hash, res.Log, res.NonTriv, res.Cov, res.Ilv = r.viol, r.hash, r.log, r.nontriv, r.cov, r.ilv
		res.Fired, res.Steps, res.SimNs, res.Sw, res.Execd, res.Stats = r.fired, r.steps, int64(simrt.SimTime()), r.sw, r.execd, r.stats
	}()
	pr.Run(r)
	return res
}

type stopRun struct{}

// stop ends the run (after a violation that makes going on pointless).
func (r *R) stop() { panic(stopRun{}) }

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+f+"\n", a...)
	os.Exit(2)
}

var started = time.Now()
