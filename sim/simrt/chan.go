package simrt

import (
	"reflect"
)

// Channels of the code under test. Their Go types stay what they are; a
// channel made by the code is registered here, and every operation on it acts
// on the registered state, so that the simulator owns all blocking. Channels
// made elsewhere (by the standard library) are polled.

type hchan struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type sel struct {
	fired bool
	idx   int
	val   any
	ok    bool
	panic bool
}

type waiter struct {
	s   *sel
	idx int
	val any
}

var chans = map[uintptr]*hchan{}

// Chan registers a channel the code under test made.
func Chan[C ~chan T, T any](c C) C {
	chans[reflect.ValueOf(c).Pointer()] = &hchan{keep: c, cap: cap(c)}
	return c
}

func chanOf(c any) (h *hchan, v reflect.Value) {
	v = reflect.ValueOf(c)
	if v.IsNil() {
		return nil, v
	}
	return chans[v.Pointer()], v
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.s.fired {
			return w
		}
	}
	return nil
}

func waiting(q []*waiter) bool {
	for _, w := range q {
		if !w.s.fired {
			return true
		}
	}
	return false
}

func (w *waiter) fire(val any, ok bool) {
	w.s.fired, w.s.idx, w.s.val, w.s.ok = true, w.idx, val, ok
}

func (h *hchan) canSend() bool { return h.closed || waiting(h.recvq) || len(h.buf) < h.cap }
func (h *hchan) canRecv() bool { return len(h.buf) > 0 || waiting(h.sendq) || h.closed }

// send and recv act at once; canSend or canRecv holds.
func (h *hchan) send(x any) {
	if h.closed {
		panic(chanError("send on closed channel"))
	}
	if w := pop(&h.recvq); w != nil {
		w.fire(x, true)
		return
	}
	h.buf = append(h.buf, x)
}

func (h *hchan) recv() (any, bool) {
	if len(h.buf) > 0 {
		x := h.buf[0]
		h.buf = h.buf[1:]
		if w := pop(&h.sendq); w != nil {
			h.buf = append(h.buf, w.val)
			w.fire(nil, true)
		}
		return x, true
	}
	if w := pop(&h.sendq); w != nil {
		w.fire(nil, true)
		return w.val, true
	}
	return nil, false
}

type chanError string

func (e chanError) Error() string { return string(e) }
func (e chanError) RuntimeError() {}

func never() bool { return false }

// Sender(c)(x) is c <- x.
func Sender[T any](c chan<- T) func(T) {
	return func(x T) {
		Yield()
		h, v := chanOf(c)
		switch {
		case v.IsNil():
			BlockUntil("send on nil channel", never)
		case h == nil:
			done := false
			BlockUntil("send", func() bool {
				done = done || v.TrySend(reflect.ValueOf(&x).Elem())
				return done
			})
		case h.canSend():
			h.send(x)
		default:
			s := &sel{}
			h.sendq = append(h.sendq, &waiter{s, 0, x})
			BlockUntil("channel send", func() bool { return s.fired })
			if s.panic {
				panic(chanError("send on closed channel"))
			}
		}
		Yield()
	}
}

func as[T any](x any) T {
	t, _ := x.(T)
	return t
}

// Recv2 is x, ok := <-c.
func Recv2[T any](c <-chan T) (T, bool) {
	Yield()
	h, v := chanOf(c)
	switch {
	case v.IsNil():
		BlockUntil("receive from nil channel", never)
	case h == nil:
		var x reflect.Value
		var ok bool
		BlockUntil("receive", func() bool {
			if !x.IsValid() {
				x, ok = v.TryRecv()
			}
			return x.IsValid()
		})
		return as[T](x.Interface()), ok
	case h.canRecv():
		x, ok := h.recv()
		Yield()
		return as[T](x), ok
	default:
		s := &sel{}
		h.recvq = append(h.recvq, &waiter{s, 0, nil})
		BlockUntil("channel receive", func() bool { return s.fired })
		return as[T](s.val), s.ok
	}
	var zero T
	return zero, false
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	x, _ := Recv2(c)
	return x
}

// Close is close(c).
func Close[T any](c chan<- T) {
	Yield()
	h, v := chanOf(c)
	if h == nil {
		if v.IsNil() {
			panic(chanError("close of nil channel"))
		}
		close(c)
		return
	}
	if h.closed {
		panic(chanError("close of closed channel"))
	}
	h.closed = true
	for w := pop(&h.recvq); w != nil; w = pop(&h.recvq) {
		w.fire(nil, false)
	}
	for w := pop(&h.sendq); w != nil; w = pop(&h.sendq) {
		w.fire(nil, false)
		w.s.panic = true
	}
	Yield()
}

// ChanLen is len(c).
func ChanLen(c any) int {
	h, v := chanOf(c)
	if h != nil {
		return len(h.buf)
	}
	return v.Len()
}

// Case is one communication of a select.
type Case interface {
	ready() bool
	act()
	wait(s *sel, i int)
	got(s *sel)
}

// RC is a receive case; Val and Ok hold what it received.
type RC[T any] struct {
	h    *hchan
	v    reflect.Value
	x    reflect.Value
	xok  bool
	Val  T
	Ok   bool
	none bool
}

func RecvCase[T any](c <-chan T) *RC[T] {
	r := &RC[T]{}
	r.h, r.v = chanOf(c)
	r.none = r.v.IsNil()
	return r
}
func (r *RC[T]) ready() bool {
	if r.none {
		return false
	}
	if r.h == nil {
		if !r.x.IsValid() {
			r.x, r.xok = r.v.TryRecv()
		}
		return r.x.IsValid()
	}
	return r.h.canRecv()
}
func (r *RC[T]) act() {
	if r.h == nil {
		r.Val, r.Ok = as[T](r.x.Interface()), r.xok
		return
	}
	x, ok := r.h.recv()
	r.Val, r.Ok = as[T](x), ok
}
func (r *RC[T]) wait(s *sel, i int) {
	if r.h != nil {
		r.h.recvq = append(r.h.recvq, &waiter{s, i, nil})
	}
}
func (r *RC[T]) got(s *sel) { r.Val, r.Ok = as[T](s.val), s.ok }

// SC is a send case.
type SC struct {
	h    *hchan
	v    reflect.Value
	x    reflect.Value
	val  any
	sent bool
	none bool
}

func SendCase[T any](c chan<- T) func(T) *SC {
	return func(x T) *SC {
		s := &SC{val: x, x: reflect.ValueOf(&x).Elem()}
		s.h, s.v = chanOf(c)
		s.none = s.v.IsNil()
		return s
	}
}
func (c *SC) ready() bool {
	if c.none {
		return false
	}
	if c.h == nil {
		c.sent = c.sent || c.v.TrySend(c.x)
		return c.sent
	}
	return c.h.canSend()
}
func (c *SC) act() {
	if c.h != nil {
		c.h.send(c.val)
	}
}
func (c *SC) wait(s *sel, i int) {
	if c.h != nil {
		c.h.sendq = append(c.h.sendq, &waiter{s, i, c.val})
	}
}
func (c *SC) got(s *sel) {
	if s.panic {
		panic(chanError("send on closed channel"))
	}
}

// Select is a select statement: the index of the case that went ahead, or -1
// for the default.
func Select(def bool, cs ...Case) int {
	Yield()
	pick := func() int {
		var r []int
		for i, c := range cs {
			if c.ready() {
				r = append(r, i)
			}
			if rc, ok := c.(interface{ polled() bool }); ok && rc.polled() {
				return i // already taken out of its channel
			}
		}
		if len(r) == 0 {
			return -1
		}
		return r[E().maps.Intn(len(r))]
	}
	if i := pick(); i >= 0 {
		cs[i].act()
		Yield()
		return i
	}
	if def {
		return -1
	}
	s := &sel{}
	for i, c := range cs {
		c.wait(s, i)
	}
	at := -1
	BlockUntil("select", func() bool {
		if s.fired {
			return true
		}
		if at < 0 {
			for i, c := range cs {
				if p, ok := c.(interface{ foreign() bool }); ok && p.foreign() && c.ready() {
					at = i
					s.fired = true
					return true
				}
			}
		}
		return false
	})
	if at >= 0 {
		cs[at].act()
		return at
	}
	cs[s.idx].got(s)
	return s.idx
}

func (r *RC[T]) foreign() bool { return r.h == nil && !r.none }
func (c *SC) foreign() bool    { return c.h == nil && !c.none }
func (r *RC[T]) polled() bool  { return r.foreign() && r.x.IsValid() }
func (c *SC) polled() bool     { return c.foreign() && c.sent }

// Gosched is runtime.Gosched.
func Gosched() {
	if t := W.Cur; t != nil && !t.exiting {
		SleepSteps(1)
	}
}
