// Package filepath replaces path/filepath inside the transformed code.
package filepath

import (
	"io/fs"
	rf "path/filepath"
	"sort"

	"verif.local/sim/shim/os"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = rf.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = rf.WalkFunc

func Abs(p string) (string, error)          { return simfs.Abs(p), nil }
func Base(p string) string                  { return rf.Base(p) }
func Clean(p string) string                 { return rf.Clean(p) }
func Dir(p string) string                   { return rf.Dir(p) }
func Ext(p string) string                   { return rf.Ext(p) }
func FromSlash(p string) string             { return p }
func ToSlash(p string) string               { return p }
func HasPrefix(p, q string) bool            { return rf.HasPrefix(p, q) }
func IsAbs(p string) bool                   { return rf.IsAbs(p) }
func IsLocal(p string) bool                 { return rf.IsLocal(p) }
func Join(e ...string) string               { return rf.Join(e...) }
func Match(p, n string) (bool, error)       { return rf.Match(p, n) }
func Rel(b, t string) (string, error)       { return rf.Rel(b, t) }
func Split(p string) (string, string)       { return rf.Split(p) }
func SplitList(p string) []string           { return rf.SplitList(p) }
func VolumeName(p string) string            { return "" }
func EvalSymlinks(p string) (string, error) { simrt.Yield(); return simfs.Cur.EvalSymlinks(p) }
func Glob(pattern string) ([]string, error) {
	d, pat := rf.Split(pattern)
	if _, err := rf.Match(pat, "x"); err != nil {
		return nil, err
	}
	dir := d
	if dir == "" {
		dir = "."
	}
	l, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		if ok, _ := rf.Match(pat, e.Name()); ok {
			r = append(r, d+e.Name())
		}
	}
	sort.Strings(r)
	return r, nil
}
func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, fs.FileInfoToDirEntry(i), fn)
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			return nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		return fn(p, d, err)
	}
	for _, e := range l {
		if err := walk(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, i, err)
	})
}
