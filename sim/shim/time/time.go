// Package time replaces the standard package inside the transformed code:
// the same types over the simulated clock of the running task.
package time

import (
	rt "time"

	"verif.local/sim/simrt"
)

type (
	Time       = rt.Time
	Duration   = rt.Duration
	Month      = rt.Month
	Weekday    = rt.Weekday
	Location   = rt.Location
	ParseError = rt.ParseError
)

const (
	Nanosecond  = rt.Nanosecond
	Microsecond = rt.Microsecond
	Millisecond = rt.Millisecond
	Second      = rt.Second
	Minute      = rt.Minute
	Hour        = rt.Hour

	Layout      = rt.Layout
	ANSIC       = rt.ANSIC
	UnixDate    = rt.UnixDate
	RubyDate    = rt.RubyDate
	RFC822      = rt.RFC822
	RFC822Z     = rt.RFC822Z
	RFC850      = rt.RFC850
	RFC1123     = rt.RFC1123
	RFC1123Z    = rt.RFC1123Z
	RFC3339     = rt.RFC3339
	RFC3339Nano = rt.RFC3339Nano
	Kitchen     = rt.Kitchen
	Stamp       = rt.Stamp
	StampMilli  = rt.StampMilli
	StampMicro  = rt.StampMicro
	StampNano   = rt.StampNano
	DateTime    = rt.DateTime
	DateOnly    = rt.DateOnly
	TimeOnly    = rt.TimeOnly

	January   = rt.January
	February  = rt.February
	March     = rt.March
	April     = rt.April
	May       = rt.May
	June      = rt.June
	July      = rt.July
	August    = rt.August
	September = rt.September
	October   = rt.October
	November  = rt.November
	December  = rt.December
	Sunday    = rt.Sunday
	Monday    = rt.Monday
	Tuesday   = rt.Tuesday
	Wednesday = rt.Wednesday
	Thursday  = rt.Thursday
	Friday    = rt.Friday
	Saturday  = rt.Saturday
)

var (
	UTC   = rt.UTC
	Local = rt.UTC
)

func Now() Time                                { return simrt.E().Now() }
func Since(t Time) Duration                    { return Now().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(Now()) }
func Unix(s, n int64) Time                     { return rt.Unix(s, n) }
func UnixMilli(ms int64) Time                  { return rt.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return rt.UnixMicro(us) }
func Parse(l, v string) (Time, error)          { return rt.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return rt.ParseDuration(s) }
func ParseInLocation(l, v string, loc *Location) (Time, error) {
	return rt.ParseInLocation(l, v, loc)
}
func Date(y int, mo Month, d, h, mi, s, ns int, l *Location) Time {
	return rt.Date(y, mo, d, h, mi, s, ns, l)
}
func LoadLocation(string) (*Location, error) { return rt.UTC, nil }
func FixedZone(n string, o int) *Location    { return rt.FixedZone(n, o) }

// Sleep advances the task's clock and lets others run meanwhile; a simulated
// nanosecond is the time of one statement.
func Sleep(d Duration) {
	simrt.E().Advance(d)
	if d < 0 {
		d = 0
	}
	simrt.SleepSteps(int64(d))
}

func fire(d Duration, f func(), live func() bool) {
	e := simrt.E()
	simrt.Go(func() {
		if d < 0 {
			d = 0
		}
		simrt.SleepSteps(int64(d))
		e.Advance(d)
		if live() {
			f()
		}
	})
}

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	gen  int
	live bool
}

func (t *Timer) start(d Duration) {
	t.gen++
	t.live = true
	g := t.gen
	fire(d, func() {
		t.live = false
		if t.f != nil {
			t.f()
			return
		}
		if simrt.ChanLen(t.c) == 0 {
			simrt.Sender[Time](t.c)(Now())
		}
	}, func() bool { return t.live && t.gen == g })
}

func NewTimer(d Duration) *Timer {
	c := simrt.Chan(make(chan Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}
func (t *Timer) Stop() bool { l := t.live; t.live = false; return l }
func (t *Timer) Reset(d Duration) bool {
	l := t.live
	t.start(d)
	return l
}
func After(d Duration) <-chan Time { return NewTimer(d).C }
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

type Ticker struct {
	C    <-chan Time
	c    chan Time
	gen  int
	live bool
}

func (t *Ticker) start(d Duration) {
	t.gen++
	t.live = true
	g := t.gen
	e := simrt.E()
	simrt.Go(func() {
		for t.live && t.gen == g {
			simrt.SleepSteps(int64(d))
			e.Advance(d)
			if t.live && t.gen == g && simrt.ChanLen(t.c) == 0 {
				simrt.Sender[Time](t.c)(Now())
			}
		}
	})
}
func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := simrt.Chan(make(chan Time, 1))
	t := &Ticker{C: c, c: c}
	t.start(d)
	return t
}
func (t *Ticker) Stop()            { t.live = false }
func (t *Ticker) Reset(d Duration) { t.start(d) }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
