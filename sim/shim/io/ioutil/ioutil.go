// Package ioutil replaces io/ioutil inside the transformed code.
package ioutil

import (
	"io"
	"io/fs"

	"verif.local/sim/shim/os"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, m fs.FileMode) error { return os.WriteFile(n, d, m) }
func TempFile(dir, p string) (*os.File, error)          { return os.CreateTemp(dir, p) }
func TempDir(dir, p string) (string, error)             { return os.MkdirTemp(dir, p) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
