// Package log replaces the standard package inside the transformed code: the
// same line format, one Write per line under the logger's lock, the time read
// from the simulated clock.
package log

import (
	"fmt"
	"io"
	"time"

	"verif.local/sim/shim/os"
	"verif.local/sim/shim/sync"
	"verif.local/sim/simrt"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct {
	mu     sync.Mutex
	out    io.Writer
	prefix string
	flag   int
}

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flag: flag}
}

var std = New(os.Stderr, "", LstdFlags)

// Reset is a process restart.
func Reset() { std = New(os.Stderr, "", LstdFlags) }

func Default() *Logger { return std }

func itoa(b *[]byte, i, wid int) {
	s := fmt.Sprintf("%0*d", wid, i)
	*b = append(*b, s...)
}

func (l *Logger) header(t time.Time) []byte {
	var b []byte
	if l.flag&Lmsgprefix == 0 {
		b = append(b, l.prefix...)
	}
	if l.flag&LUTC != 0 {
		t = t.UTC()
	}
	if l.flag&Ldate != 0 {
		y, m, d := t.Date()
		itoa(&b, y, 4)
		b = append(b, '/')
		itoa(&b, int(m), 2)
		b = append(b, '/')
		itoa(&b, d, 2)
		b = append(b, ' ')
	}
	if l.flag&(Ltime|Lmicroseconds) != 0 {
		h, m, s := t.Clock()
		itoa(&b, h, 2)
		b = append(b, ':')
		itoa(&b, m, 2)
		b = append(b, ':')
		itoa(&b, s, 2)
		if l.flag&Lmicroseconds != 0 {
			b = append(b, '.')
			itoa(&b, t.Nanosecond()/1e3, 6)
		}
		b = append(b, ' ')
	}
	if l.flag&(Lshortfile|Llongfile) != 0 {
		b = append(b, "nn.go:1: "...)
	}
	if l.flag&Lmsgprefix != 0 {
		b = append(b, l.prefix...)
	}
	return b
}

func (l *Logger) Output(depth int, s string) error {
	if l.out == io.Discard { // as in the real package; panics on a nil logger
		return nil
	}
	b := append(l.header(simrt.E().Now()), s...)
	if len(s) == 0 || s[len(s)-1] != '\n' {
		b = append(b, '\n')
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write(b)
	return err
}

func (l *Logger) Print(v ...any)            { l.Output(2, fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)          { l.Output(2, fmt.Sprintln(v...)) }
func (l *Logger) Fatal(v ...any)            { l.Output(2, fmt.Sprint(v...)); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)); os.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Output(2, fmt.Sprintln(v...)); os.Exit(1) }
func (l *Logger) Panic(v ...any)            { s := fmt.Sprint(v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicf(f string, v ...any) { s := fmt.Sprintf(f, v...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(v ...any)          { s := fmt.Sprintln(v...); l.Output(2, s); panic(s) }
func (l *Logger) Flags() int                { return l.flag }
func (l *Logger) SetFlags(f int)            { l.flag = f }
func (l *Logger) Prefix() string            { return l.prefix }
func (l *Logger) SetPrefix(p string)        { l.prefix = p }
func (l *Logger) Writer() io.Writer         { return l.out }
func (l *Logger) SetOutput(w io.Writer)     { l.out = w }

func SetOutput(w io.Writer)            { std.SetOutput(w) }
func Flags() int                       { return std.Flags() }
func SetFlags(f int)                   { std.SetFlags(f) }
func Prefix() string                   { return std.Prefix() }
func SetPrefix(p string)               { std.SetPrefix(p) }
func Writer() io.Writer                { return std.Writer() }
func Print(v ...any)                   { std.Print(v...) }
func Printf(f string, v ...any)        { std.Printf(f, v...) }
func Println(v ...any)                 { std.Println(v...) }
func Fatal(v ...any)                   { std.Fatal(v...) }
func Fatalf(f string, v ...any)        { std.Fatalf(f, v...) }
func Fatalln(v ...any)                 { std.Fatalln(v...) }
func Panic(v ...any)                   { std.Panic(v...) }
func Panicf(f string, v ...any)        { std.Panicf(f, v...) }
func Panicln(v ...any)                 { std.Panicln(v...) }
func Output(depth int, s string) error { return std.Output(depth, s) }
