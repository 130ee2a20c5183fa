// Package fmt replaces the standard package inside the transformed code so
// that printing goes to the simulated standard output.
package fmt

import (
	rf "fmt"
	"io"

	"verif.local/sim/shim/os"
)

type (
	Formatter  = rf.Formatter
	GoStringer = rf.GoStringer
	Scanner    = rf.Scanner
	ScanState  = rf.ScanState
	State      = rf.State
	Stringer   = rf.Stringer
)

func Append(b []byte, a ...any) []byte                     { return rf.Append(b, a...) }
func Appendf(b []byte, f string, a ...any) []byte          { return rf.Appendf(b, f, a...) }
func Appendln(b []byte, a ...any) []byte                   { return rf.Appendln(b, a...) }
func Errorf(f string, a ...any) error                      { return rf.Errorf(f, a...) }
func FormatString(s rf.State, v rune) string               { return rf.FormatString(s, v) }
func Fprint(w io.Writer, a ...any) (int, error)            { return rf.Fprint(w, a...) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) { return rf.Fprintf(w, f, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return rf.Fprintln(w, a...) }
func Fscan(r io.Reader, a ...any) (int, error)             { return rf.Fscan(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error)  { return rf.Fscanf(r, f, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)           { return rf.Fscanln(r, a...) }
func Print(a ...any) (int, error)                          { return rf.Fprint(os.Stdout, a...) }
func Printf(f string, a ...any) (int, error)               { return rf.Fprintf(os.Stdout, f, a...) }
func Println(a ...any) (int, error)                        { return rf.Fprintln(os.Stdout, a...) }
func Scan(a ...any) (int, error)                           { return rf.Fscan(os.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)                { return rf.Fscanf(os.Stdin, f, a...) }
func Scanln(a ...any) (int, error)                         { return rf.Fscanln(os.Stdin, a...) }
func Sprint(a ...any) string                               { return rf.Sprint(a...) }
func Sprintf(f string, a ...any) string                    { return rf.Sprintf(f, a...) }
func Sprintln(a ...any) string                             { return rf.Sprintln(a...) }
func Sscan(s string, a ...any) (int, error)                { return rf.Sscan(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)            { return rf.Sscanf(s, f, a...) }
func Sscanln(s string, a ...any) (int, error)              { return rf.Sscanln(s, a...) }
