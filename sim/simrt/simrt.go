// Package simrt is the deterministic runtime under which the transformed nn
// package runs: cooperative tasks that switch only at yield points placed
// before every statement, seeded or replayed preemption, kill points, a step
// budget, an allocation account, and per-task clock and random streams.
//
// Exactly one task (or the harness itself) runs at any time; control moves
// over channels, so plain variables need no locks.
package simrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- yield points

// left counts down the yield points until slow has something to do.
var left int64 = 1 << 60

// Y is the yield point the transformer puts before every statement.
func Y() {
	left--
	if left < 0 {
		slow()
	}
}

// ---------------------------------------------------------------- randomness

// Rng is splitmix64: small, fast and stable across Go versions.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) Bool(p float64) bool {
	return r.Float() < p
}

// Mix derives a seed from a seed and labels.
func Mix(seed uint64, labels ...uint64) uint64 {
	r := Rng{s: seed}
	x := r.U64()
	for _, l := range labels {
		r.s = x ^ (l * 0xd6e8feb86659fd93)
		x = r.U64()
	}
	return x
}

// HashStr is FNV-1a.
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// ---------------------------------------------------------------- environment

// Clock modes.
const (
	ClockNormal   = "normal"   // advances 1us..1ms per reading
	ClockStalled  = "stalled"  // never advances
	ClockCoarse   = "coarse"   // advances, but shown in 15.625ms ticks
	ClockBackward = "backward" // sometimes steps back
	ClockJump     = "jump"     // jumps by up to years either way
	ClockExtreme  = "extreme"  // zero, negative and far-future readings
)

var ClockModes = []string{ClockNormal, ClockStalled, ClockCoarse, ClockBackward, ClockJump, ClockExtreme}

// EnvSpec says where an environment's answers come from.
type EnvSpec struct {
	Seed  uint64 `json:"seed"`
	Clock string `json:"clock,omitempty"`
}

// Env answers every question of one task (or of the harness) to its
// environment: what time it is, what the next random draw is, in which order
// a map is enumerated, how a temporary file is called.
type Env struct {
	Spec   EnvSpec
	now    int64 // ns since the epoch
	clock  *Rng
	maps   *Rng
	names  *Rng
	seedg  *Rng
	Global any // state of the math/rand shim's global generator
	Exp    any // state of the x/exp/rand shim's global generator
	V2     any
	Reads  int64
	start  int64
	Shared *Env // whose process-wide generators to draw from, if not its own
}

// Gen is the environment holding the process-wide generators.
func (e *Env) Gen() *Env {
	if e.Shared != nil {
		return e.Shared
	}
	return e
}

// Draw is one draw from a generator that is not safe for concurrent use. A
// second task entering while a draw is under way sees the same state and gets
// the same value, as threads racing for an unprotected generator do.
type Draw struct {
	busy bool
	last uint64
}

func (d *Draw) Next(f func() uint64) uint64 {
	if d.busy {
		return d.last
	}
	d.last = f()
	d.busy = true
	v := d.last
	Y()
	d.busy = false
	return v
}

func NewEnv(s EnvSpec) *Env {
	e := &Env{Spec: s}
	e.clock = NewRng(Mix(s.Seed, 1))
	e.maps = NewRng(Mix(s.Seed, 2))
	e.names = NewRng(Mix(s.Seed, 3))
	e.seedg = NewRng(Mix(s.Seed, 4))
	e.now = 1663545600_000000000 + int64(e.clock.U64()%(1<<50))
	e.start = e.now
	return e
}

// Now is one clock reading.
func (e *Env) Now() time.Time {
	e.Reads++
	shown := e.now
	switch e.Spec.Clock {
	case ClockStalled:
	case ClockCoarse:
		e.now += int64(1000 + e.clock.Intn(1000000))
		shown = e.now - e.now%15625000
	case ClockBackward:
		if e.clock.Intn(3) == 0 {
			e.now -= int64(e.clock.Intn(5_000_000))
		} else {
			e.now += int64(1000 + e.clock.Intn(1000000))
		}
		shown = e.now
	case ClockJump:
		switch e.clock.Intn(4) {
		case 0:
			e.now += int64(e.clock.U64() % (3 * 365 * 86400_000000000))
		case 1:
			e.now -= int64(e.clock.U64() % (3 * 365 * 86400_000000000))
		default:
			e.now += int64(1000 + e.clock.Intn(1000000))
		}
		shown = e.now
	case ClockExtreme:
		switch e.clock.Intn(6) {
		case 0:
			shown = 0
		case 1:
			shown = -1
		case 2:
			shown = 1<<62 - 1
		case 3:
			shown = -(1 << 61)
		default:
			e.now += int64(1000 + e.clock.Intn(1000000))
			shown = e.now
		}
	default:
		e.now += int64(1000 + e.clock.Intn(1000000))
		shown = e.now
	}
	return time.Unix(0, shown).UTC()
}

// Advance moves the task's clock (sleeps, I/O latency).
func (e *Env) Advance(d time.Duration) {
	if d > 0 && e.Spec.Clock != ClockStalled {
		e.now += int64(d)
	}
	simTime += d
}

// Seed64 gives the seed of an unseeded generator.
func (e *Env) Seed64() uint64 { return e.seedg.U64() }
func (e *Env) NameRng() *Rng  { return e.names }

var simTime time.Duration

// ResetTime starts the books of a new run.
func ResetTime() { simTime, totalSteps, worlds = 0, 0, 0; chans = map[uintptr]*hchan{} }

// Blocked and Why tell what a task waits for.
func (t *Task) Blocked() bool { return t.st == blocked || t.why != "" && t.Killed }
func (t *Task) Why() string   { return t.why }

// SimTime is the simulated time that passed in sleeps, I/O and steps.
func SimTime() time.Duration { return simTime + time.Duration(Steps()) }

// ---------------------------------------------------------------- tasks

type Switch struct {
	T  int   `json:"t"`  // task preempted
	At int64 `json:"at"` // at its local step (-1: when it ended or blocked for the n-th time, see N)
	N  int   `json:"n,omitempty"`
	To int   `json:"to"`
}

// Sched decides preemption. Mode "" means run each task to its end in order.
type Sched struct {
	Mode string   `json:"mode,omitempty"` // "", "random", "explicit"
	Seed uint64   `json:"seed,omitempty"`
	Mean int64    `json:"mean,omitempty"` // random: mean steps between switches
	List []Switch `json:"list,omitempty"` // explicit
}

// Kill asks for a process kill when the given task reaches a local step.
type Kill struct {
	Task int   `json:"task"`
	At   int64 `json:"at"`
}

type state int

const (
	ready state = iota
	blocked
	done
)

type Task struct {
	ID    int
	Name  string
	Env   *Env
	fn    func()
	wake  chan struct{}
	st    state
	why   string
	steps int64 // steps at last suspension
	seg   int64 // countdown value set at resume
	segT  int64 // trigger local step
	next  int64 // next preemption step of the policy
	ends  int   // times it blocked or ended
	cond  func() bool
	root  bool // started by the harness; the others may outlive the world
	sleep bool // parked until the world has executed until statements
	until int64
	sw    []Switch
	// results
	Panic   any
	Stack   string
	Aborted string
	Killed  bool
	exiting bool
}

// World is one simulated process execution over a set of tasks.
type World struct {
	Tasks    []*Task
	live     []*Task // without those that have ended
	Cur      *Task
	Main     *Env
	sched    Sched
	rng      *Rng
	yielded  chan *Task
	kill     *Kill
	Crashed  bool
	StepCap  int64
	total    int64
	charged  int64 // I/O operations, counted towards the step budget only
	Executed []Switch
	Switches int
	Deadlock bool
	OnCrash  func()
	running  bool
	events   uint64
	schedH   uint64
	nextTask *Task
}

// W is the current world.
var W = NewWorld(EnvSpec{Seed: 1}, Sched{}, nil, 0)

var totalSteps int64

// Steps is the number of statements executed so far in the current world.
func Steps() int64 { return totalSteps }

func NewWorld(env EnvSpec, s Sched, k *Kill, cap int64) *World {
	if cap == 0 {
		cap = 400_000_000
	}
	w := &World{Main: NewEnv(env), sched: s, rng: NewRng(Mix(s.Seed, 77)), kill: k, StepCap: cap,
		yielded: make(chan *Task)}
	return w
}

// Install makes w the current world; harness code outside tasks uses w.Main.
func Install(w *World) {
	W = w
	left = 1 << 60
	allocs = 0
	maxAlloc = 0
}

// E is the environment of whoever is running.
func E() *Env {
	if W.Cur != nil {
		return W.Cur.Env
	}
	return W.Main
}

// Spawn adds a task of the harness before Run.
func (w *World) Spawn(name string, env *Env, fn func()) *Task {
	t := w.newTask(name, env, fn)
	t.root = true
	w.add(t)
	return t
}

func (w *World) newTask(name string, env *Env, fn func()) *Task {
	if env == nil {
		env = w.Main
	}
	t := &Task{Name: name, Env: env, fn: fn, wake: make(chan struct{})}
	go body(t)
	return t
}

func (w *World) add(t *Task) {
	t.ID = len(w.Tasks)
	t.sw = nil
	for _, s := range w.sched.List {
		if s.T == t.ID {
			t.sw = append(t.sw, s)
		}
	}
	sort.SliceStable(t.sw, func(i, j int) bool { return key(t.sw[i]) < key(t.sw[j]) })
	w.plan(t)
	w.Tasks = append(w.Tasks, t)
	w.live = append(w.live, t)
}

// goroutines of the code under test that outlived the call that started them
var daemons []*Task

// worlds counts the worlds of a run in which such goroutines existed.
var worlds uint64

// loosen gives a world without a schedule of its own a random one: the code
// under test has started goroutines, whose interleaving is the environment's.
func (w *World) loosen() {
	if w.sched.Mode == "" {
		worlds++
		s := Mix(w.Main.Spec.Seed, 91, worlds)
		w.sched = Sched{Mode: "random", Seed: s, Mean: []int64{2, 8, 40, 300, 3000}[s%5]}
		w.rng = NewRng(Mix(s, 77))
	}
}

// KillDaemons ends all goroutines left over from a process.
func KillDaemons() {
	if len(daemons) == 0 {
		return
	}
	w := NewWorld(EnvSpec{}, Sched{}, nil, 0)
	w.Crashed = true
	Install(w)
	if OnDying != nil {
		OnDying(true)
	}
	ds := daemons
	daemons = nil
	for _, t := range ds {
		w.leave(t)
	}
	w.Cur = nil
	if OnDying != nil {
		OnDying(false)
	}
}

// Lingering is the number of goroutines that calls have left running.
func Lingering() int {
	n := 0
	for _, t := range daemons {
		if t.st != done {
			n++
		}
	}
	return n
}

// OnDying is told when goroutines of a dead process unwind: what they still do
// has no effect.
var OnDying func(bool)

// leave lets the goroutine of a task end.
func (w *World) leave(t *Task) {
	for t.st != done {
		w.Cur = t
		t.wake <- struct{}{}
		<-w.yielded
	}
}

func key(s Switch) int64 {
	if s.At < 0 {
		return 1<<60 + int64(s.N)
	}
	return s.At
}

// plan sets the step of the next preemption of t.
func (w *World) plan(t *Task) {
	const never = int64(1) << 58
	switch w.sched.Mode {
	case "random":
		m := w.sched.Mean
		if m < 1 {
			m = 1
		}
		// geometric-like: uniform over 1..2m-1 half the time, short otherwise
		var d int64
		if w.rng.Intn(4) == 0 {
			d = 1 + int64(w.rng.Intn(3))
		} else {
			d = 1 + int64(w.rng.U64()%uint64(2*m))
		}
		t.next = t.steps + d
	case "explicit":
		t.next = never
		for _, s := range t.sw {
			if s.At > t.steps {
				t.next = s.At
				break
			}
		}
	default:
		t.next = never
	}
}

func body(t *Task) {
	<-t.wake
	defer func() {
		w := W
		if r := recover(); r != nil {
			t.Panic = r
			t.Stack = string(debug.Stack())
		}
		t.st = done
		w.account(t)
		w.yielded <- t
	}()
	if W.Crashed {
		t.Killed = true
		return
	}
	t.fn()
}

// account books the steps of the running segment.
func (w *World) account(t *Task) {
	used := t.seg - left
	if used < 0 {
		used = 0
	}
	t.steps += used
	w.total += used
	totalSteps += used
	t.seg = left
}

// arm sets the countdown for the segment about to run.
func (w *World) arm(t *Task) {
	trig := t.next
	if w.kill != nil && w.kill.Task == t.ID && !w.Crashed && w.kill.At > t.steps && w.kill.At < trig {
		trig = w.kill.At
	}
	if capAt := t.steps + (w.StepCap - w.total - w.charged); capAt < trig {
		trig = capAt
	}
	d := trig - t.steps - 1
	if d < 0 {
		d = 0
	}
	t.segT = trig
	t.seg = d
	left = d
}

func slow() {
	w := W
	t := w.Cur
	if t == nil {
		left = 1 << 60
		return
	}
	w.account(t)
	if w.Crashed {
		if t.exiting {
			left, t.seg = 1<<60, 1<<60
			return
		}
		w.exitTask(t)
	}
	if w.total+w.charged >= w.StepCap {
		if t.exiting {
			left, t.seg = 1<<60, 1<<60
			return
		}
		t.Aborted = "step budget exceeded"
		t.exiting = true
		left, t.seg = 1<<60, 1<<60
		runtime.Goexit()
	}
	if w.kill != nil && w.kill.Task == t.ID && t.steps >= w.kill.At && !w.Crashed {
		CrashNow()
	}
	if t.steps >= t.next {
		to := w.pick(t, false)
		if to != nil && to != t {
			w.suspend(t, to)
			return
		}
		w.plan(t)
	}
	w.arm(t)
}

// Charge books an I/O operation as n statements of the step budget, so that a
// loop around I/O that never ends is found out before long.
func Charge(n int64) {
	w := W
	t := w.Cur
	if t == nil || t.exiting {
		return
	}
	w.charged += n
	if w.total+t.seg-left+w.charged >= w.StepCap {
		slow()
	}
}

// pick chooses who runs after t was preempted (ended=false) or cannot go on.
func (w *World) pick(t *Task, ended bool) *Task {
	var r []*Task
	n := 0
	for _, x := range w.live {
		if x.st == done {
			continue
		}
		w.live[n] = x
		n++
		if x.st == blocked && (x.sleep && w.total >= x.until || x.cond != nil && x.cond()) {
			x.sleep = false
			x.st = ready
			x.cond = nil
		}
		if x.st == ready && !(ended && x == t) {
			r = append(r, x)
		}
	}
	w.live = w.live[:n]
	if len(r) == 0 {
		// nobody can run: time passes until the first sleeper wakes
		var s *Task
		for _, x := range w.live {
			if x.st == blocked && x.sleep && (s == nil || x.until < s.until) {
				s = x
			}
		}
		if s == nil {
			return nil
		}
		s.st, s.sleep = ready, false
		return s
	}
	switch w.sched.Mode {
	case "explicit":
		if !ended {
			for _, s := range t.sw {
				if s.At == t.steps {
					for _, x := range r {
						if x.ID == s.To {
							return x
						}
					}
				}
			}
			for _, x := range r {
				if x == t {
					return x
				}
			}
		} else if t != nil {
			for _, s := range t.sw {
				if s.At < 0 && s.N == t.ends {
					for _, x := range r {
						if x.ID == s.To {
							return x
						}
					}
				}
			}
		}
		return r[0]
	case "random":
		var o []*Task
		for _, x := range r {
			if x != t {
				o = append(o, x)
			}
		}
		if len(o) == 0 {
			return r[0]
		}
		return o[w.rng.Intn(len(o))]
	}
	if !ended && t != nil && t.st == ready {
		return t
	}
	return r[0]
}

func (w *World) note(t *Task, to *Task, ended bool) {
	s := Switch{T: t.ID, At: t.steps, To: to.ID}
	if ended {
		s.At, s.N = -1, t.ends
	}
	if len(w.Executed) < 20000 {
		w.Executed = append(w.Executed, s)
	}
	w.Switches++
	w.schedH = Mix(w.schedH, uint64(s.T)<<8|uint64(s.To), uint64(s.At))
}

// SchedHash identifies the interleaving.
func (w *World) SchedHash() uint64 { return w.schedH }

// suspend hands control from t (the running task) to another through Run.
func (w *World) suspend(t *Task, to *Task) {
	w.note(t, to, false)
	w.nextTask = to
	w.yielded <- t
	<-t.wake
	if W.Crashed && !t.exiting {
		W.exitTask(t)
	}
}

func (w *World) exitTask(t *Task) {
	t.Killed = true
	t.exiting = true
	left, t.seg = 1<<60, 1<<60
	runtime.Goexit()
}

// Run executes the harness's tasks to their end. Goroutines the code under
// test has started run along; those still alive at the end stay suspended and
// go on in the next world of the process.
func (w *World) Run() {
	if len(w.Tasks) == 0 {
		return
	}
	roots := w.Tasks
	w.running = true
	if len(daemons) > 0 {
		w.loosen()
		for _, t := range daemons {
			t.until = 0
			t.steps, t.ends = 0, 0
			w.add(t)
		}
		daemons = nil
	}
	cur := w.Tasks[0]
	if w.sched.Mode == "random" {
		cur = roots[w.rng.Intn(len(roots))]
		w.Executed = append(w.Executed, Switch{T: -1, At: -1, To: cur.ID})
	} else if w.sched.Mode == "explicit" {
		for _, s := range w.sched.List {
			if s.T == -1 && s.To < len(w.Tasks) {
				cur = w.Tasks[s.To]
			}
		}
	}
	w.drive(cur, func() bool {
		for _, x := range roots {
			if x.st != done {
				return false
			}
		}
		return true
	})
	w.running = false
	for _, t := range w.Tasks {
		if t.st != done {
			daemons = append(daemons, t)
		}
	}
	left = 1 << 60
}

// drive runs tasks, beginning with cur, until end holds at a switch.
func (w *World) drive(cur *Task, end func() bool) {
	for cur != nil {
		w.Cur = cur
		w.nextTask = nil
		w.plan(cur)
		w.arm(cur)
		cur.wake <- struct{}{}
		t := <-w.yielded
		w.Cur = nil
		left = 1 << 60
		if w.Crashed {
			// let every other goroutine leave
			for _, x := range w.Tasks {
				w.leave(x)
			}
			w.Cur = nil
			return
		}
		if end() {
			return
		}
		if w.nextTask != nil {
			cur = w.nextTask
			continue
		}
		t.ends++
		nx := w.pick(t, true)
		if nx == nil {
			// somebody the end depends on is blocked forever
			w.Deadlock = true
			w.Crashed = true
			for _, x := range w.Tasks {
				w.leave(x)
			}
			w.Crashed = false
			w.Cur = nil
			return
		}
		if nx != t {
			w.note(t, nx, true)
		}
		cur = nx
	}
}

// Yield is an explicit scheduling point (API call boundary, coarse mode).
func Yield() {
	if W.Cur == nil {
		return
	}
	Y()
}

// BlockUntil parks the running task until cond holds.
func BlockUntil(why string, cond func() bool) {
	w := W
	t := w.Cur
	if cond() {
		return
	}
	if t == nil {
		// the harness itself waits: goroutines of the code under test run
		w.idle(why, cond)
		return
	}
	if t.exiting {
		runtime.Goexit()
	}
	for { // what woke it may have been undone before it ran
		park(t, why, cond)
		if cond() {
			break
		}
	}
	t.why = ""
}

func park(t *Task, why string, cond func() bool) {
	w := W
	w.account(t)
	t.st = blocked
	t.why = why
	t.cond = cond
	w.nextTask = nil
	w.yielded <- t
	<-t.wake
	if W.Crashed && !t.exiting {
		W.exitTask(t)
	}
	if t.exiting {
		runtime.Goexit()
	}
}

// idle runs left-over goroutines until cond holds.
func (w *World) idle(why string, cond func() bool) {
	if w.running {
		panic("simrt: the harness blocks in a running world: " + why)
	}
	v := NewWorld(w.Main.Spec, Sched{}, nil, 0)
	v.Main = w.Main
	Install(v)
	defer Install(w)
	v.running = true
	v.loosen()
	for _, t := range daemons {
		t.until, t.steps, t.ends = 0, 0, 0
		v.add(t)
	}
	daemons = nil
	if nx := v.pick(nil, true); nx != nil {
		v.drive(nx, cond)
	}
	v.running = false
	for _, t := range v.Tasks {
		if t.st != done {
			daemons = append(daemons, t)
		}
	}
	if !cond() {
		panic("simrt: blocked forever: " + why)
	}
}

// SleepSteps parks the running task until the world has executed n more
// statements, or nobody else can run.
func SleepSteps(n int64) {
	w := W
	t := w.Cur
	if t == nil {
		return
	}
	if t.exiting {
		return
	}
	w.account(t)
	t.sleep = true
	t.until = w.total + n
	t.st = blocked
	t.why = "sleep"
	t.cond = nil
	w.nextTask = nil
	w.yielded <- t
	<-t.wake
	if W.Crashed && !t.exiting {
		W.exitTask(t)
	}
	t.why = ""
}

// Go starts a goroutine of the code under test.
func Go(fn func()) {
	w := W
	if w.Cur == nil || !w.running {
		t := w.newTask("go", w.Main, fn)
		daemons = append(daemons, t)
		return
	}
	t := w.Cur
	if t.exiting {
		return
	}
	w.account(t)
	w.loosen()
	w.add(w.newTask(fmt.Sprintf("%s/go%d", t.Name, len(w.Tasks)), t.Env, fn))
	w.plan(t)
	w.arm(t)
}

// CrashNow kills the simulated process: nothing after this point happens.
func CrashNow() {
	w := W
	if w.Crashed {
		return
	}
	w.Crashed = true
	if w.OnCrash != nil {
		w.OnCrash()
	}
	if w.Cur != nil {
		w.exitTask(w.Cur)
	}
}

// InTask says whether a simulated task is running.
func InTask() bool { return W.Cur != nil }

// Event numbers events of a history in one global order.
func Event() int64 { W.events++; return int64(W.events) }

// TaskSteps is the local step count of a task (valid after it was suspended).
func (t *Task) Steps() int64 { return t.steps }

// StepsNow is the current local step of the running task.
func StepsNow() int64 {
	t := W.Cur
	if t == nil {
		return 0
	}
	return t.steps + t.seg - left
}

// ---------------------------------------------------------------- allocation

var allocs, maxAlloc, allocLimit int64 = 0, 0, 1 << 26

// allocTotal bounds the whole account; without a limit of its own only single
// requests are bounded, for long runs ask for much in all and keep little.
var allocTotal int64 = 1 << 40

// AllocFailure is the panic of a simulated allocation failure.
type AllocFailure struct{ N int64 }

func (a AllocFailure) Error() string {
	return fmt.Sprintf("simulated allocation failure: %d elements asked for", a.N)
}

// A accounts for a make of n elements and stands for the allocator failing
// when the account exceeds the limit.
func A(n int) int {
	if n > 0 {
		allocs += int64(n)
		if int64(n) > maxAlloc {
			maxAlloc = int64(n)
		}
		if allocs > allocTotal || int64(n) > allocLimit {
			AllocFailed = true
			panic(AllocFailure{int64(n)})
		}
	}
	return n
}

// AllocFailed is set when the simulated allocator refused a request.
var AllocFailed bool

// AllocReset starts an account with a limit (elements); AllocUsed reads it.
func AllocReset(limit int64) {
	allocs, maxAlloc, AllocFailed = 0, 0, false
	allocTotal = limit
	if limit <= 0 {
		limit = 1 << 26
		allocTotal = 1 << 40
	}
	allocLimit = limit
}
func AllocUsed() int64 { return allocs }

// AllocSingle bounds single requests only; AllocRestart empties the account
// and keeps the limits.
func AllocSingle(limit int64) { allocTotal, allocLimit = 1<<40, limit }
func AllocRestart()           { allocs, maxAlloc, AllocFailed = 0, 0, false }

// AllocLimit is the limit in force.
func AllocLimit() int64 { return allocLimit }

// ---------------------------------------------------------------- maps

// mapBusy has the maps a task is about to store into or delete from.
var mapBusy = map[uintptr]*Task{}

// MapW stands before a store into a map. Another task that touches the map
// before the store is done is what makes a real process abort.
func MapW[M ~map[K]T, K comparable, T any](m M) M {
	if t := W.Cur; t != nil && m != nil && len(W.live) > 1 && !t.exiting {
		p := reflect.ValueOf(m).Pointer()
		mapCheck(p, t, "concurrent map writes")
		mapBusy[p] = t
		defer delete(mapBusy, p)
		Y()
	}
	return m
}

// MapR stands before a reading of a map.
func MapR[M ~map[K]T, K comparable, T any](m M) M {
	if t := W.Cur; t != nil && len(mapBusy) > 0 && !t.exiting {
		mapCheck(reflect.ValueOf(m).Pointer(), t, "concurrent map read and map write")
	}
	return m
}

func mapCheck(p uintptr, t *Task, what string) {
	if o := mapBusy[p]; o != nil && o != t {
		t.Panic = "fatal error: " + what
		t.Stack = string(debug.Stack())
		t.exiting = true
		W.account(t)
		left, t.seg = 1<<60, 1<<60
		runtime.Goexit()
	}
}

// Rd stands between the reading and the writing of a statement that does both.
func Rd[T any](v T) T {
	Y()
	return v
}

// St stores v in *p field by field: no processor stores a structure at once.
func St[T any](v T, p *T) {
	if t := W.Cur; t != nil && len(W.live) > 1 && !t.exiting {
		ty := reflect.TypeOf(v)
		for i := 0; i < ty.NumField(); i++ {
			f := ty.Field(i)
			to := reflect.NewAt(f.Type, unsafe.Add(unsafe.Pointer(p), f.Offset)).Elem()
			to.Set(reflect.NewAt(f.Type, unsafe.Add(unsafe.Pointer(&v), f.Offset)).Elem())
			if i+1 < ty.NumField() {
				Y()
			}
		}
		return
	}
	*p = v
}

// Entry is one key of a map being enumerated.
type Entry[K comparable, T any] struct {
	K K
	m map[K]T
}

// Live says whether the key is still in the map.
func (e Entry[K, T]) Live() bool { _, ok := e.m[e.K]; return ok }

// V is the current value of the key.
func (e Entry[K, T]) V() T { return e.m[e.K] }

// Entries returns the entries of a map in an order the environment chooses.
func Entries[M ~map[K]T, K comparable, T any](m M) []Entry[K, T] {
	MapR(m)
	es := make([]Entry[K, T], 0, len(m))
	for k := range m {
		es = append(es, Entry[K, T]{k, m})
	}
	sort.Slice(es, func(i, j int) bool { return fmt.Sprint(es[i].K) < fmt.Sprint(es[j].K) })
	r := E().maps
	for i := len(es) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		es[i], es[j] = es[j], es[i]
	}
	return es
}

// Zero sets *p to its zero value.
func Zero(p any) { reflect.ValueOf(p).Elem().SetZero() }
