// Package os replaces the standard package inside the transformed code: the
// same names over the simulated disk.
package os

import (
	"io"
	"io/fs"
	ros "os"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

const (
	O_RDONLY = syscall.O_RDONLY
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_APPEND = syscall.O_APPEND
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_SYNC   = syscall.O_SYNC
	O_TRUNC  = syscall.O_TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	ModeDir        = fs.ModeDir
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeSymlink    = fs.ModeSymlink
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular
	ModeType       = fs.ModeType
	ModePerm       = fs.ModePerm
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = ros.LinkError
	SyscallError = ros.SyscallError
	Signal       = ros.Signal
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrProcessDone      = ros.ErrProcessDone
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill
	Args                = []string{"sim"}
)

// File is an open file of the simulated disk.
type File struct {
	h   *simfs.File
	std string
	pos int
}

var (
	Stdin  = &File{std: "stdin"}
	Stdout = &File{std: "stdout"}
	Stderr = &File{std: "stderr"}
)

func (f *File) get() *simfs.File {
	if f == nil {
		return nil
	}
	if f.std != "" && (f.h == nil || f.h.FS() != simfs.Cur) {
		fl := O_WRONLY
		if f.std == "stdin" {
			fl = O_RDONLY
		}
		f.h = simfs.Cur.Std(f.std, fl)
	}
	return f.h
}

func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	simrt.Yield()
	h, err := simfs.Cur.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return Stdin
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return nil
}

func (f *File) ok(op string) error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}
func (f *File) Name() string { return f.get().Name() }
func (f *File) Fd() uintptr {
	switch f.std {
	case "stdin":
		return 0
	case "stdout":
		return 1
	case "stderr":
		return 2
	}
	return 99
}
func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	simrt.Yield()
	return f.get().Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	simrt.Yield()
	return f.get().ReadAt(b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	simrt.Yield()
	return f.get().Write(b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	simrt.Yield()
	return f.get().WriteAt(b, off)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(b []byte) (int, error) { return o.w.Write(b) }

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(b []byte) (int, error) { return o.r.Read(b) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	return io.Copy(onlyWriter{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	return io.Copy(w, onlyReader{f})
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	simrt.Yield()
	return f.get().Seek(off, whence)
}
func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	simrt.Yield()
	return f.get().Sync()
}
func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	simrt.Yield()
	if f.std != "" {
		return nil
	}
	return f.get().Close()
}
func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	simrt.Yield()
	return f.get().Truncate(n)
}
func (f *File) Chmod(m FileMode) error {
	if err := f.ok("chmod"); err != nil {
		return err
	}
	simrt.Yield()
	return f.get().Chmod(m)
}
func (f *File) Chown(uid, gid int) error { return f.ok("chown") }
func (f *File) Stat() (FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	simrt.Yield()
	return f.get().Stat()
}
func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.ok("readdir"); err != nil {
		return nil, err
	}
	l, err := simfs.Cur.ReadDir(f.get().Name())
	if err != nil {
		return nil, err
	}
	if f.pos > len(l) {
		f.pos = len(l)
	}
	l = l[f.pos:]
	if n > 0 {
		if len(l) == 0 {
			return nil, io.EOF
		}
		if len(l) > n {
			l = l[:n]
		}
	}
	f.pos += len(l)
	return l, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var r []string
	for _, e := range l {
		r = append(r, e.Name())
	}
	return r, err
}
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := 0
	if i, err := f.Stat(); err == nil {
		size = int(i.Size())
	}
	size++
	if size < 512 {
		size = 512
	}
	d := make([]byte, 0, size)
	for {
		n, err := f.Read(d[len(d):cap(d)])
		d = d[:len(d)+n]
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return d, err
		}
		if len(d) >= cap(d) {
			d = append(append(d, 0)[:len(d)], make([]byte, 512)...)[:len(d)]
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	if strings.ContainsRune(pattern, '/') {
		return nil, &PathError{Op: "createtemp", Path: pattern, Err: syscall.EINVAL}
	}
	for try := 0; ; try++ {
		n := strconv.Itoa(simrt.E().NameRng().Intn(1000000000))
		p := dir + "/" + pre + n + suf
		f, err := OpenFile(p, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		p := dir + "/" + pre + strconv.Itoa(simrt.E().NameRng().Intn(1000000000)) + suf
		err := Mkdir(p, 0700)
		if IsExist(err) && try < 10000 {
			continue
		}
		if err != nil {
			return "", err
		}
		return p, nil
	}
}

func link(err error) error {
	if err == nil {
		return nil
	}
	if l, ok := err.(*simfs.LinkError); ok {
		return &LinkError{Op: l.Op, Old: l.Old, New: l.New, Err: l.Err}
	}
	return err
}

func Rename(a, b string) error         { simrt.Yield(); return link(simfs.Cur.Rename(a, b)) }
func Link(a, b string) error           { simrt.Yield(); return link(simfs.Cur.Link(a, b)) }
func Symlink(a, b string) error        { simrt.Yield(); return link(simfs.Cur.Symlink(a, b)) }
func Remove(name string) error         { simrt.Yield(); return simfs.Cur.Remove(name) }
func RemoveAll(name string) error      { simrt.Yield(); return simfs.Cur.RemoveAll(name) }
func Mkdir(n string, m FileMode) error { simrt.Yield(); return simfs.Cur.Mkdir(n, m) }
func MkdirAll(n string, m FileMode) error {
	simrt.Yield()
	return simfs.Cur.MkdirAll(n, m)
}
func ReadDir(n string) ([]DirEntry, error)   { simrt.Yield(); return simfs.Cur.ReadDir(n) }
func Stat(n string) (FileInfo, error)        { simrt.Yield(); return simfs.Cur.Stat(n, true) }
func Lstat(n string) (FileInfo, error)       { simrt.Yield(); return simfs.Cur.Stat(n, false) }
func Readlink(n string) (string, error)      { return simfs.Cur.Readlink(n) }
func Chmod(n string, m FileMode) error       { simrt.Yield(); return simfs.Cur.Chmod(n, m) }
func Chown(n string, uid, gid int) error     { return nil }
func Lchown(n string, uid, gid int) error    { return nil }
func Chtimes(n string, a, m time.Time) error { return nil }
func Truncate(name string, size int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func SameFile(a, b FileInfo) bool             { return simfs.SameInode(a, b) }
func IsExist(err error) bool                  { return ros.IsExist(err) }
func IsNotExist(err error) bool               { return ros.IsNotExist(err) }
func IsPermission(err error) bool             { return ros.IsPermission(err) }
func IsTimeout(err error) bool                { return ros.IsTimeout(err) }
func IsPathSeparator(c uint8) bool            { return c == '/' }
func NewSyscallError(s string, e error) error { return ros.NewSyscallError(s, e) }

func TempDir() string                               { return "/tmp" }
func Getwd() (string, error)                        { return "/w", nil }
func Chdir(string) error                            { return nil }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return "/w/sim", nil }
func UserHomeDir() (string, error)                  { return "/w", nil }
func UserCacheDir() (string, error)                 { return "/tmp", nil }
func UserConfigDir() (string, error)                { return "/w", nil }
func Getenv(string) string                          { return "" }
func LookupEnv(string) (string, bool)               { return "", false }
func Setenv(k, v string) error                      { return nil }
func Unsetenv(k string) error                       { return nil }
func Clearenv()                                     {}
func Environ() []string                             { return nil }
func ExpandEnv(s string) string                     { return Expand(s, Getenv) }
func Expand(s string, m func(string) string) string { return ros.Expand(s, m) }
func Getpid() int                                   { return 4242 }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return 1000 }
func Geteuid() int                                  { return 1000 }
func Getgid() int                                   { return 1000 }
func Getegid() int                                  { return 1000 }
func Getpagesize() int                              { return 4096 }
func Pipe() (*File, *File, error)                   { return nil, nil, syscall.ENOSYS }

// Exited is the panic by which the simulated process ends itself.
type Exited struct{ Code int }

func Exit(code int) { panic(Exited{code}) }

// DirFS is the simulated disk as an fs.FS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}
