// Package sync replaces the standard package inside the transformed code:
// the same types, blocking in the simulator.
package sync

import (
	"fmt"
	"sort"

	"verif.local/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type noCopy struct{}

type Mutex struct {
	_      noCopy
	locked bool
}

func (m *Mutex) Lock() {
	simrt.Yield()
	if m.locked {
		simrt.BlockUntil("mutex", func() bool { return !m.locked })
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Yield()
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	if m.w || m.readers > 0 {
		m.waiting++
		simrt.BlockUntil("rwmutex", func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	simrt.Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Yield()
}
func (m *RWMutex) RLock() {
	simrt.Yield()
	if m.w || m.waiting > 0 {
		simrt.BlockUntil("rwmutex", func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	simrt.Yield()
	if m.w {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	simrt.Yield()
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1); simrt.Yield() }
func (w *WaitGroup) Wait() { simrt.BlockUntil("waitgroup", func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	simrt.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var t T
	var u U
	return func() (T, U) { o.Do(func() { t, u = f() }); return t, u }
}

// Pool hands items back in an order the environment decides and sometimes
// drops them, as the real one may.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	simrt.Yield()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x != nil {
		p.items = append(p.items, x)
	}
	simrt.Yield()
}

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) { simrt.Yield(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	simrt.Yield()
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Yield()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Yield()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Yield()
	x, ok := m.m[k]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.Yield()
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.Yield()
	if x, ok := m.m[k]; ok && x == o {
		delete(m.m, k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m = nil }
func (m *Map) Range(f func(k, v any) bool) {
	ks := make([]any, 0, len(m.m))
	for k := range m.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

type Cond struct {
	L    Locker
	seq  int
	wait []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	go1 := false
	c.wait = append(c.wait, &go1)
	c.L.Unlock()
	simrt.BlockUntil("cond", func() bool { return go1 })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
	simrt.Yield()
}
func (c *Cond) Broadcast() {
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
	simrt.Yield()
}
