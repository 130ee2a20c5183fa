// Package simfs is the simulated disk: an in-memory POSIX-like file system
// that distinguishes what the page cache holds from what is durable, counts
// and can fail every operation, and loses unsynced state at a power loss.
//
// Model. File data is durable once Sync of the file succeeded. Directory
// changes (create, rename, remove) form one ordered journal; they are durable
// once a Sync of a directory commits the journal up to the last change in that
// directory. A power loss keeps a prefix of the uncommitted journal and, for
// every file, an arbitrary subset of its unsynced writes, page by page; pages
// that were not written read as zeros. A process kill loses nothing.
package simfs

import (
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/sim/simrt"
)

const page = 512 // torn-write granularity

type Inode struct {
	Data    []byte // page cache view
	Dir     bool
	Mode    fs.FileMode
	Link    string      // symlink target
	durable []byte      // content that survives a power loss
	dmode   fs.FileMode // mode that survives one
	pend    []pendOp
	lost    bool // a deferred write error is pending (reported at Sync or Close)
	id      int
	Special string // "stdout", "null", ...
	mtime   time.Time
}

type pendOp struct {
	trunc bool
	off   int64
	data  []byte
	size  int64
}

type jop struct {
	kind string // set, del, mode
	dir  string
	name string // full path
	ino  *Inode
	mode fs.FileMode
}

// Fault asks for a fault at the I/O operation with the given number.
type Fault struct {
	Op   int    `json:"op"`            // number of the I/O operation within the run's armed window, from 0
	Kind string `json:"kind"`          // see Kinds
	Arg  int    `json:"arg,omitempty"` // bytes for partial effects
	Pow  bool   `json:"pow,omitempty"` // crash kinds: power loss instead of a kill
	Keep uint64 `json:"keep,omitempty"`
	Path string `json:"path,omitempty"` // only operations on this path count and fail
	Stay bool   `json:"stay,omitempty"` // errors: the device stays broken, and every later operation of the window the kind applies to fails at once
}

// OpRec is one executed operation, for traces.
type OpRec struct {
	N    int
	Op   string
	Path string
	Len  int
	Err  string
}

type FS struct {
	names   map[string]*Inode
	dnames  map[string]*Inode // durable name space
	journal []jop
	nextID  int

	Faults   []Fault
	Armed    bool
	Cap      int64 // bytes the disk can hold; 0: unlimited
	ShortR   *simrt.Rng
	OpN      int
	Trace    []OpRec
	KeepTr   bool
	Fired    map[string]int
	FiredOp  map[string]int // faults by operation
	Open     map[*File]bool
	Dead     bool // process was killed; further operations do nothing
	Powered  bool // the crash was a power loss
	keep     uint64
	Stdout   *Inode
	EINTR    bool
	Events   func(op, path string) // observer
	SyncFail map[string]bool       // directories whose Sync was made to fail
	PathPin  string
	Mounts   []string    // directories that are file systems of their own
	Umask    fs.FileMode // of the process
}

// Cur is the file system of the current world.
var Cur = New()

func New() *FS {
	f := &FS{names: map[string]*Inode{}, dnames: map[string]*Inode{}, Fired: map[string]int{}, FiredOp: map[string]int{}, Open: map[*File]bool{}, SyncFail: map[string]bool{}, Mounts: []string{"/tmp", "/dev", "/w/mnt"}, Umask: 022}
	for _, d := range []string{"/", "/w", "/w/mnt", "/tmp", "/dev"} {
		n := f.ino()
		n.Dir, n.Mode = true, fs.ModeDir|0755
		f.names[d], f.dnames[d] = n, n
	}
	for _, d := range []string{"null", "stdout", "stderr", "stdin", "full"} {
		n := f.ino()
		n.Special, n.Mode = d, fs.ModeDevice|fs.ModeCharDevice|0666
		f.names["/dev/"+d], f.dnames["/dev/"+d] = n, n
	}
	f.Stdout = f.names["/dev/stdout"]
	return f
}

func (f *FS) ino() *Inode { f.nextID++; return &Inode{id: f.nextID, Mode: 0644, dmode: 0644} }

// Abs is the canonical form of a path; the working directory is /w.
func Abs(p string) string {
	if p == "" {
		return ""
	}
	if !strings.HasPrefix(p, "/") {
		p = "/w/" + p
	}
	return path.Clean(p)
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

// ---------------------------------------------------------------- fault engine

// step books one I/O operation and returns the fault to apply to it, if any.
func (f *FS) step(op, p string, n int) *Fault {
	simrt.E().Advance(20 * time.Microsecond)
	simrt.Charge(1000)
	if f.Dead {
		return &Fault{Kind: "dead"}
	}
	if f.Events != nil {
		f.Events(op, p)
	}
	if !f.Armed {
		return nil
	}
	if f.PathPin != "" && Abs(p) != f.PathPin {
		return nil
	}
	k := f.OpN
	f.OpN++
	if f.KeepTr {
		f.Trace = append(f.Trace, OpRec{N: k, Op: op, Path: p, Len: n})
	}
	for i := range f.Faults {
		x := &f.Faults[i]
		if x.Op == k && applies(x.Kind, op) {
			f.Fired[x.Kind]++
			f.FiredOp[op]++
			return x
		}
	}
	for i := range f.Faults {
		x := &f.Faults[i]
		if !x.Stay || x.Op >= k || !applies(x.Kind, op) {
			continue
		}
		y := &Fault{Op: k, Kind: x.Kind}
		switch x.Kind {
		case "partial", "shortw":
			y.Kind = "enospc" // nothing more is taken
		case "eio-part":
			y.Kind = "eio"
		case "eio", "enospc", "emfile", "eacces":
		default:
			continue
		}
		f.Fired["stays"]++
		f.Fired[y.Kind]++
		f.FiredOp[op]++
		return y
	}
	return nil
}

// Stays tells whether a device can stay broken in this way.
func Stays(kind string) bool {
	switch kind {
	case "partial", "shortw", "eio-part", "eio", "enospc", "emfile", "eacces":
		return true
	}
	return false
}

// Kinds lists the faults and the operations they apply to.
var Kinds = map[string]string{
	"eio":        "open create write sync close rename remove read stat chmod link readlink mkdir readdir truncate seek",
	"enospc":     "create write mkdir rename link truncate",
	"partial":    "write",                                                                                                // Arg bytes stored, then ENOSPC
	"emfile":     "open create",                                                                                          // out of descriptors
	"eacces":     "open create rename remove",                                                                            // permission denied
	"deferred":   "write",                                                                                                // accepted, then lost: error at Sync or Close
	"short":      "read",                                                                                                 // Arg bytes returned, no error
	"eof":        "read",                                                                                                 // premature end of file
	"eio-part":   "read",                                                                                                 // Arg bytes returned together with EIO
	"crash":      "open create write sync close rename remove read stat chmod link readlink mkdir readdir truncate seek", // before the operation
	"crash-torn": "write",                                                                                                // after Arg bytes of it
	"crash-aft":  "open create write sync close rename remove chmod link mkdir truncate",                                 // right after it
	"shortw":     "write",                                                                                                // Arg bytes stored, io.ErrShortWrite-like EIO
}

func applies(kind, op string) bool {
	for _, o := range strings.Fields(Kinds[kind]) {
		if o == op {
			return true
		}
	}
	return false
}

// Applicable returns the fault kinds applicable to op, in a fixed order.
func Applicable(op string, kinds []string) []string {
	var r []string
	for _, k := range kinds {
		if applies(k, op) {
			r = append(r, k)
		}
	}
	return r
}

func (x *Fault) errno() error {
	switch x.Kind {
	case "enospc", "partial":
		return syscall.ENOSPC
	case "emfile":
		return syscall.EMFILE
	case "eacces":
		return syscall.EACCES
	}
	return syscall.EIO
}

func (f *FS) crash(x *Fault) {
	f.Dead = true
	f.Powered = x.Pow
	f.keep = x.Keep
	simrt.CrashNow()
}

// CrashAt is used for kills that strike between I/O operations.
func (f *FS) CrashAt(pow bool, keep uint64) { f.Dead, f.Powered, f.keep = true, pow, keep }

// Restart is the state a new process finds: after a kill everything the page
// cache held, after a power loss only what was or became durable.
func (f *FS) Restart() {
	if f.Powered {
		r := simrt.NewRng(f.keep)
		// how much of the journal made it
		k := 0
		if len(f.journal) > 0 {
			switch r.Intn(3) {
			case 0:
				k = len(f.journal)
			case 1:
				k = 0
			default:
				k = r.Intn(len(f.journal) + 1)
			}
		}
		for _, j := range f.journal[:k] {
			f.commit(j)
		}
		f.journal = nil
		seen := map[*Inode]bool{}
		var inos []*Inode
		for _, m := range []map[string]*Inode{f.dnames, f.names} {
			ps := make([]string, 0, len(m))
			for p := range m {
				ps = append(ps, p)
			}
			sort.Strings(ps)
			for _, p := range ps {
				if !seen[m[p]] {
					seen[m[p]] = true
					inos = append(inos, m[p])
				}
			}
		}
		mode := r.Intn(4) // 0 nothing, 1 everything, 2 random pages, 3 sizes but no data
		for _, n := range inos {
			n.powerLoss(r, mode)
		}
		f.names = map[string]*Inode{}
		for p, n := range f.dnames {
			f.names[p] = n
		}
	}
	f.Dead, f.Powered, f.Armed = false, false, false
	f.Faults = nil
	f.Open = map[*File]bool{}
	for _, n := range f.names {
		n.lost = false
	}
}

func (n *Inode) powerLoss(r *simrt.Rng, mode int) {
	if n.Dir || n.Special != "" || n.Link != "" {
		return
	}
	d := append([]byte(nil), n.durable...)
	stop := len(n.pend) + 1
	if r.Intn(2) == 0 {
		stop = r.Intn(len(n.pend) + 1)
	}
	for i, o := range n.pend {
		if mode == 0 || i >= stop {
			break
		}
		if o.trunc {
			if mode == 1 || mode == 3 || r.Intn(3) > 0 {
				d = resize(d, o.size)
			}
			continue
		}
		end := o.off + int64(len(o.data))
		if int64(len(d)) < end && (mode == 1 || mode == 3 || r.Intn(3) > 0) {
			d = resize(d, end)
		}
		if mode == 3 {
			continue
		}
		for a := int64(0); a < int64(len(o.data)); {
			b := a + page - (o.off+a)%page
			if b > int64(len(o.data)) {
				b = int64(len(o.data))
			}
			if mode == 1 || r.Intn(2) == 0 {
				for k := a; k < b && o.off+k < int64(len(d)); k++ {
					d[o.off+k] = o.data[k]
				}
			}
			a = b
		}
	}
	n.durable, n.pend, n.Mode = d, nil, n.dmode
	n.Data = append([]byte(nil), d...)
}

func resize(d []byte, n int64) []byte {
	if int64(len(d)) >= n {
		return d[:n]
	}
	return append(d, make([]byte, n-int64(len(d)))...)
}

func (f *FS) commit(j jop) {
	switch j.kind {
	case "set":
		f.dnames[j.name] = j.ino
	case "mode":
		j.ino.dmode = j.mode
	default:
		delete(f.dnames, j.name)
	}
}

func (f *FS) set(p string, n *Inode) {
	f.names[p] = n
	f.journal = append(f.journal, jop{kind: "set", dir: path.Dir(p), name: p, ino: n})
}
func (f *FS) del(p string) {
	delete(f.names, p)
	f.journal = append(f.journal, jop{kind: "del", dir: path.Dir(p), name: p})
}

// SyncAll makes everything durable (used between phases of a run).
func (f *FS) SyncAll() {
	for _, j := range f.journal {
		f.commit(j)
	}
	f.journal = nil
	for _, n := range f.names {
		n.durable = append([]byte(nil), n.Data...)
		n.pend = nil
		n.lost = false
		n.dmode = n.Mode
	}
}

func (f *FS) used() int64 {
	var s int64
	seen := map[*Inode]bool{}
	for _, n := range f.names {
		if !seen[n] && n.Special == "" {
			seen[n] = true
			s += int64(len(n.Data))
		}
	}
	return s
}

// ---------------------------------------------------------------- harness access

// Put stores a durable file without going through operations.
func (f *FS) Put(p string, data []byte) {
	p = Abs(p)
	n := f.ino()
	n.Data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	f.names[p], f.dnames[p] = n, n
}

// PutLink stores a durable symbolic link.
func (f *FS) PutLink(p, target string) {
	p = Abs(p)
	n := f.ino()
	n.Link, n.Mode = target, fs.ModeSymlink|0777
	f.names[p], f.dnames[p] = n, n
}

func (f *FS) PutDir(p string) {
	p = Abs(p)
	n := f.ino()
	n.Dir, n.Mode = true, fs.ModeDir|0755
	f.names[p], f.dnames[p] = n, n
}

// Get returns the visible content of a file (following links).
func (f *FS) Get(p string) ([]byte, bool) {
	q, n, err := f.resolve(Abs(p), true)
	_ = q
	if err != nil || n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// PutSpecial stores a device or pipe: "fifo", "null", "full".
func (f *FS) PutSpecial(p, what string) {
	p = Abs(p)
	n := f.ino()
	n.Special, n.Mode = what, fs.ModeDevice|fs.ModeCharDevice|0666
	if what == "fifo" {
		n.Mode = fs.ModeNamedPipe | 0644
	}
	f.names[p], f.dnames[p] = n, n
}

// SetMode changes the permission bits of a durable file.
func (f *FS) SetMode(p string, m fs.FileMode) {
	if _, n, _ := f.resolve(Abs(p), true); n != nil {
		n.Mode = n.Mode&^0777 | m&0777
		n.dmode = n.Mode
	}
}

// Entry describes what is at p itself (links not followed).
func (f *FS) Entry(p string) string {
	n := f.names[Abs(p)]
	switch {
	case n == nil:
		return "nothing"
	case n.Link != "":
		return "link to " + n.Link
	case n.Dir:
		return "directory"
	case n.Special != "":
		return "device " + n.Special
	}
	return "file"
}

// Names returns all names, sorted.
func (f *FS) Names() []string {
	var r []string
	for p := range f.names {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Raw is the content at p itself (links not followed).
func (f *FS) Raw(p string) []byte {
	if n := f.names[Abs(p)]; n != nil {
		return n.Data
	}
	return nil
}

// RawMode is the mode at p itself.
func (f *FS) RawMode(p string) fs.FileMode {
	if n := f.names[Abs(p)]; n != nil {
		return n.Mode
	}
	return 0
}

func (f *FS) ModeOf(p string) fs.FileMode {
	_, n, _ := f.resolve(Abs(p), true)
	if n == nil {
		return 0
	}
	return n.Mode
}

func (f *FS) Del(p string) { p = Abs(p); delete(f.names, p); delete(f.dnames, p) }

// List returns all names that are not directories or devices, sorted.
func (f *FS) List() []string {
	var r []string
	for p, n := range f.names {
		if !n.Dir && n.Special == "" {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

func (f *FS) Arm(faults []Fault) { f.Armed, f.OpN, f.Faults, f.Trace = true, 0, faults, nil }
func (f *FS) Disarm()            { f.Armed = false }

// ---------------------------------------------------------------- operations

// resolve follows symbolic links, component by component. It returns the
// final path and the inode there (nil if the last component does not exist).
func (f *FS) resolve(p string, last bool) (string, *Inode, error) {
	rest := strings.Split(strings.Trim(p, "/"), "/")
	at, hops := "/", 0
	cur := f.names["/"]
	for len(rest) > 0 {
		c := rest[0]
		rest = rest[1:]
		if c == "" || c == "." {
			continue
		}
		if !cur.Dir {
			return at, nil, syscall.ENOTDIR
		}
		if c == ".." {
			at = path.Dir(at)
			cur = f.names[at]
			continue
		}
		if len(c) > 255 {
			return path.Join(at, c), nil, syscall.ENAMETOOLONG
		}
		q := path.Join(at, c)
		n := f.names[q]
		if n == nil {
			if len(rest) > 0 {
				return q, nil, syscall.ENOENT
			}
			return q, nil, nil
		}
		if n.Link != "" && (last || len(rest) > 0) {
			if hops++; hops > 40 {
				return q, nil, syscall.ELOOP
			}
			rest = append(strings.Split(n.Link, "/"), rest...)
			if strings.HasPrefix(n.Link, "/") {
				at, cur = "/", f.names["/"]
			}
			continue
		}
		at, cur = q, n
	}
	return at, cur, nil
}

// device is the mount point p lies under.
func (f *FS) device(p string) string {
	d := "/"
	for _, m := range f.Mounts {
		if (p == m || strings.HasPrefix(p, m+"/")) && len(m) > len(d) {
			d = m
		}
	}
	return d
}

// File is an open file.
type File struct {
	fs     *FS
	ino    *Inode
	name   string
	abs    string
	off    int64
	flag   int
	closed bool
	wrote  bool
	dirPos int
}

var ErrDead = syscall.EIO

func (f *FS) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	op := "open"
	if flag&syscall.O_CREAT != 0 {
		op = "create"
	}
	x := f.step(op, name, 0)
	if x != nil {
		switch x.Kind {
		case "dead":
			return nil, perr("open", name, ErrDead)
		case "crash":
			f.crash(x)
			return nil, perr("open", name, ErrDead)
		case "crash-aft":
		default:
			return nil, perr("open", name, x.errno())
		}
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	p, n, err := f.resolve(Abs(name), true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if n == nil {
		if flag&syscall.O_CREAT == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if f.Cap > 0 && f.used() >= f.Cap {
			f.Fired["diskfull"]++
			return nil, perr("open", name, syscall.ENOSPC)
		}
		n = f.ino()
		n.Mode = perm & 0777 &^ f.Umask
		n.dmode = n.Mode
		n.mtime = time.Unix(0, 0)
		f.set(p, n)
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if wr && n.Special == "" && n.Mode&0200 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&(syscall.O_WRONLY|syscall.O_RDWR) != syscall.O_WRONLY && n.Special == "" && !n.Dir && n.Mode&0400 == 0 {
			return nil, perr("open", name, syscall.EACCES)
		}
		if flag&syscall.O_TRUNC != 0 && wr && n.Special == "" && !n.Dir {
			n.truncate(0)
		}
	}
	h := &File{fs: f, ino: n, name: name, abs: p, flag: flag}
	f.Open[h] = true
	if x != nil && x.Kind == "crash-aft" {
		f.crash(x)
	}
	return h, nil
}

func (n *Inode) truncate(size int64) {
	n.Data = resize(append([]byte(nil), n.Data...), size)
	n.pend = append(n.pend, pendOp{trunc: true, size: size})
}

func (h *File) bad(op string) error {
	if h == nil {
		return fs.ErrInvalid
	}
	if h.closed {
		return perr(op, h.name, fs.ErrClosed)
	}
	return nil
}

func (h *File) Name() string { return h.name }

func (h *File) Write(b []byte) (int, error) { return h.write("write", b, -1) }
func (h *File) WriteAt(b []byte, off int64) (int, error) {
	return h.write("write", b, off)
}
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }

func (h *File) write(op string, b []byte, at int64) (int, error) {
	if err := h.bad(op); err != nil {
		return 0, err
	}
	f := h.fs
	x := f.step("write", h.name, len(b))
	if h.flag&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, perr(op, h.name, syscall.EBADF)
	}
	if h.ino.Special != "" {
		if x != nil && x.Kind == "dead" {
			return 0, perr(op, h.name, ErrDead)
		}
		switch h.ino.Special {
		case "full":
			return 0, perr(op, h.name, syscall.ENOSPC)
		case "stdout", "stderr", "fifo":
			if x != nil && x.Kind != "crash-aft" {
				if x.Kind == "crash" {
					f.crash(x)
				}
				k := 0
				if (x.Kind == "partial" || x.Kind == "shortw") && x.Arg < len(b) {
					k = x.Arg
				}
				h.ino.Data = append(h.ino.Data, b[:k]...)
				return k, perr(op, h.name, x.errno())
			}
			h.ino.Data = append(h.ino.Data, b...)
		}
		if x != nil && x.Kind == "crash-aft" {
			f.crash(x)
		}
		return len(b), nil
	}
	var ferr error
	n := len(b)
	aft := false
	if x != nil {
		switch x.Kind {
		case "dead":
			return 0, perr(op, h.name, ErrDead)
		case "crash":
			f.crash(x)
			return 0, perr(op, h.name, ErrDead)
		case "crash-torn":
			if x.Arg < n {
				n = x.Arg
			}
			aft = true
		case "crash-aft":
			aft = true
		case "partial", "shortw":
			if x.Arg < n {
				n = x.Arg
			} else if n > 0 {
				n--
			}
			ferr = perr(op, h.name, x.errno())
		case "deferred":
			h.ino.lost = true
			h.wrote = true
			// the cache shows the data until the write-back fails
		default:
			return 0, perr(op, h.name, x.errno())
		}
	}
	if f.Cap > 0 {
		if room := f.Cap - f.used(); int64(n) > room {
			f.Fired["diskfull"]++
			if room < 0 {
				room = 0
			}
			n = int(room)
			ferr = perr(op, h.name, syscall.ENOSPC)
		}
	}
	off := h.off
	if at >= 0 {
		off = at
	} else if h.flag&syscall.O_APPEND != 0 {
		off = int64(len(h.ino.Data))
	}
	h.ino.put(off, b[:n])
	h.wrote = true
	if at < 0 {
		h.off = off + int64(n)
	}
	if aft {
		f.crash(x)
	}
	return n, ferr
}

func (n *Inode) put(off int64, b []byte) {
	end := off + int64(len(b))
	d := n.Data
	if int64(len(d)) < end {
		d = resize(append([]byte(nil), d...), end)
	} else {
		d = append([]byte(nil), d...)
	}
	copy(d[off:], b)
	n.Data = d
	n.pend = append(n.pend, pendOp{off: off, data: append([]byte(nil), b...)})
}

func (h *File) Read(b []byte) (int, error) {
	n, err := h.read(b, h.off)
	h.off += int64(n)
	return n, err
}

func (h *File) ReadAt(b []byte, off int64) (int, error) {
	if err := h.bad("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", h.name, syscall.EINVAL)
	}
	t := 0
	for t < len(b) {
		n, err := h.read(b[t:], off+int64(t))
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

func (h *File) read(b []byte, off int64) (int, error) {
	if err := h.bad("read"); err != nil {
		return 0, err
	}
	f := h.fs
	x := f.step("read", h.name, len(b))
	if h.flag&syscall.O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	if h.ino.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.ino.Special != "" {
		return 0, io.EOF
	}
	d := h.ino.Data
	lim := len(b)
	var ferr error
	if x != nil {
		switch x.Kind {
		case "dead":
			return 0, perr("read", h.name, ErrDead)
		case "crash":
			f.crash(x)
			return 0, perr("read", h.name, ErrDead)
		case "short":
			if x.Arg < 1 {
				x.Arg = 1
			}
			if x.Arg < lim {
				lim = x.Arg
			}
		case "eof":
			if len(b) == 0 {
				return 0, nil
			}
			return 0, io.EOF
		case "eio-part":
			if x.Arg < lim {
				lim = x.Arg
			}
			ferr = perr("read", h.name, syscall.EIO)
		default:
			return 0, perr("read", h.name, x.errno())
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(d)) {
		if ferr != nil {
			return 0, ferr
		}
		return 0, io.EOF
	}
	if f.ShortR != nil && lim > 1 && f.ShortR.Intn(3) > 0 {
		k := 1 + f.ShortR.Intn(lim)
		if rest := len(d) - int(off); k > rest {
			k = rest
		}
		if k < lim {
			f.Fired["short"]++
			lim = k
		}
	}
	n := copy(b[:lim], d[off:])
	return n, ferr
}

func (h *File) Seek(off int64, whence int) (int64, error) {
	if err := h.bad("seek"); err != nil {
		return 0, err
	}
	if x := h.fs.step("seek", h.name, 0); x != nil {
		if x.Kind == "crash" {
			h.fs.crash(x)
		}
		return 0, perr("seek", h.name, syscall.EIO)
	}
	switch whence {
	case 1:
		off += h.off
	case 2:
		off += int64(len(h.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.off = off
	return off, nil
}

// writeback is the moment a deferred write error surfaces: the data that was
// never stored disappears.
func (h *File) writeback() error {
	if !h.ino.lost {
		return nil
	}
	h.ino.lost = false
	// drop every unsynced write that follows the last durable state
	d := append([]byte(nil), h.ino.durable...)
	cut := len(h.ino.pend) / 2
	for i, o := range h.ino.pend {
		if i >= cut && !o.trunc {
			break
		}
		if o.trunc {
			d = resize(d, o.size)
		} else {
			if int64(len(d)) < o.off+int64(len(o.data)) {
				d = resize(d, o.off+int64(len(o.data)))
			}
			copy(d[o.off:], o.data)
		}
	}
	h.ino.Data = d
	h.ino.pend = append(h.ino.pend[:0:0], pendOp{trunc: true, size: 0}, pendOp{off: 0, data: append([]byte(nil), d...)})
	return syscall.EIO
}

func (h *File) Sync() error {
	if err := h.bad("sync"); err != nil {
		return err
	}
	f := h.fs
	x := f.step("sync", h.name, 0)
	aft := false
	if x != nil {
		switch x.Kind {
		case "dead":
			return perr("sync", h.name, ErrDead)
		case "crash":
			f.crash(x)
			return perr("sync", h.name, ErrDead)
		case "crash-aft":
			aft = true
		default:
			if h.ino.Dir {
				f.SyncFail[h.abs] = true
			}
			return perr("sync", h.name, x.errno())
		}
	}
	if h.ino.Special != "" {
		return perr("sync", h.name, syscall.EINVAL)
	}
	if h.ino.Dir {
		last := -1
		for i, j := range f.journal {
			if j.dir == h.abs {
				last = i
			}
		}
		for _, j := range f.journal[:last+1] {
			f.commit(j)
		}
		f.journal = append([]jop(nil), f.journal[last+1:]...)
	} else {
		if err := h.writeback(); err != nil {
			return perr("sync", h.name, err)
		}
		h.ino.durable = append([]byte(nil), h.ino.Data...)
		h.ino.pend = nil
		h.ino.dmode = h.ino.Mode
	}
	if aft {
		f.crash(x)
	}
	return nil
}

func (h *File) Close() error {
	if err := h.bad("close"); err != nil {
		return err
	}
	f := h.fs
	x := f.step("close", h.name, 0)
	if x != nil && x.Kind == "dead" {
		return perr("close", h.name, ErrDead)
	}
	if x != nil && x.Kind == "crash" {
		f.crash(x)
		return perr("close", h.name, ErrDead)
	}
	h.closed = true
	delete(f.Open, h)
	if x != nil && x.Kind == "crash-aft" {
		f.crash(x)
	}
	if h.wrote {
		if err := h.writeback(); err != nil {
			return perr("close", h.name, err)
		}
	}
	if x != nil && x.Kind == "eio" {
		if h.wrote && h.ino.Special == "" && len(h.ino.pend) > 0 {
			h.ino.lost = true
			h.writeback()
		}
		return perr("close", h.name, syscall.EIO)
	}
	return nil
}

func (h *File) Truncate(n int64) error {
	if err := h.bad("truncate"); err != nil {
		return err
	}
	x := h.fs.step("truncate", h.name, 0)
	if x != nil && x.Kind != "crash-aft" {
		if x.Kind == "crash" {
			h.fs.crash(x)
		}
		return perr("truncate", h.name, x.errno())
	}
	h.ino.truncate(n)
	h.wrote = true
	if x != nil {
		h.fs.crash(x)
	}
	return nil
}

func (h *File) Chmod(m fs.FileMode) error {
	if err := h.bad("chmod"); err != nil {
		return err
	}
	return h.fs.chmod("chmod", h.name, h.ino, m)
}

func (f *FS) chmod(op, name string, n *Inode, m fs.FileMode) error {
	x := f.step("chmod", name, 0)
	if x != nil && x.Kind != "crash-aft" {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return perr(op, name, x.errno())
	}
	n.Mode = n.Mode&^0777 | m&0777
	f.journal = append(f.journal, jop{kind: "mode", ino: n, mode: n.Mode})
	if x != nil {
		f.crash(x)
	}
	return nil
}

type info struct {
	name string
	n    *Inode
	size int64
	mode fs.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return i.n.mtime }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return i.n }

// SameInode compares two infos of this file system.
func SameInode(a, b fs.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

func mkinfo(p string, n *Inode) fs.FileInfo {
	return info{path.Base(p), n, int64(len(n.Data)), n.Mode}
}

func (h *File) Stat() (fs.FileInfo, error) {
	if err := h.bad("stat"); err != nil {
		return nil, err
	}
	if x := h.fs.step("stat", h.name, 0); x != nil {
		if x.Kind == "crash" {
			h.fs.crash(x)
		}
		return nil, perr("stat", h.name, syscall.EIO)
	}
	return mkinfo(h.name, h.ino), nil
}

func (f *FS) Stat(name string, follow bool) (fs.FileInfo, error) {
	if x := f.step("stat", name, 0); x != nil {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return nil, perr("stat", name, syscall.EIO)
	}
	if name == "" {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	_, n, err := f.resolve(Abs(name), follow)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return mkinfo(name, n), nil
}

func (f *FS) Rename(a, b string) error {
	lerr := func(e error) error { return &LinkError{"rename", a, b, e} }
	x := f.step("rename", b, 0)
	aft := false
	if x != nil {
		switch x.Kind {
		case "dead":
			return lerr(ErrDead)
		case "crash":
			f.crash(x)
			return lerr(ErrDead)
		case "crash-aft":
			aft = true
		default:
			return lerr(x.errno())
		}
	}
	pa, na, err := f.resolve(Abs(a), false)
	if err == nil && na == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return lerr(err)
	}
	pb, nb, err := f.resolve(Abs(b), false)
	if err != nil {
		return lerr(err)
	}
	if f.device(pa) != f.device(pb) {
		return lerr(syscall.EXDEV)
	}
	if nb != nil && nb.Dir && !na.Dir {
		return lerr(syscall.EEXIST)
	}
	if na.Dir {
		return lerr(syscall.EINVAL) // directories are never renamed here
	}
	if pa != pb {
		f.names[pb] = na
		delete(f.names, pa)
		// one atomic journal entry per rename: del+set with the same position
		f.journal = append(f.journal, jop{kind: "set", dir: path.Dir(pb), name: pb, ino: na})
		f.mergeDel(pa)
	}
	if aft {
		f.crash(x)
	}
	return nil
}

// mergeDel records the removal of the old name right after the new one. A
// prefix that ends between the two leaves both names, which is weaker than
// what a journal guarantees but harmless: the content is the same.
func (f *FS) mergeDel(p string) {
	f.journal = append(f.journal, jop{kind: "del", dir: path.Dir(p), name: p})
}

func (f *FS) Link(a, b string) error {
	x := f.step("link", b, 0)
	if x != nil && x.Kind != "crash-aft" {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return &LinkError{"link", a, b, x.errno()}
	}
	_, na, err := f.resolve(Abs(a), false)
	if err != nil || na == nil {
		return &LinkError{"link", a, b, syscall.ENOENT}
	}
	pb, nb, err := f.resolve(Abs(b), false)
	if err != nil || nb != nil {
		return &LinkError{"link", a, b, syscall.EEXIST}
	}
	if pa, _, _ := f.resolve(Abs(a), false); f.device(pa) != f.device(pb) {
		return &LinkError{"link", a, b, syscall.EXDEV}
	}
	f.set(pb, na)
	if x != nil {
		f.crash(x)
	}
	return nil
}

func (f *FS) Symlink(target, b string) error {
	if x := f.step("link", b, 0); x != nil {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return &LinkError{"symlink", target, b, x.errno()}
	}
	pb, nb, err := f.resolve(Abs(b), false)
	if err != nil || nb != nil {
		return &LinkError{"symlink", target, b, syscall.EEXIST}
	}
	n := f.ino()
	n.Link, n.Mode = target, fs.ModeSymlink|0777
	f.set(pb, n)
	return nil
}

func (f *FS) Readlink(a string) (string, error) {
	if x := f.step("readlink", a, 0); x != nil {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return "", perr("readlink", a, x.errno())
	}
	_, n, err := f.resolve(Abs(a), false)
	if err == nil && (n == nil || a == "") {
		err = syscall.ENOENT
	}
	if err == nil && n.Link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", perr("readlink", a, err)
	}
	return n.Link, nil
}

// EvalSymlinks is filepath.EvalSymlinks on this file system.
func (f *FS) EvalSymlinks(a string) (string, error) {
	p, n, err := f.resolve(Abs(a), true)
	if err == nil && (n == nil || a == "") {
		err = syscall.ENOENT
	}
	if err != nil {
		return "", perr("lstat", a, err)
	}
	if strings.HasPrefix(a, "/") {
		return p, nil
	}
	return strings.TrimPrefix(p, "/w/"), nil
}

func (f *FS) Remove(a string) error {
	x := f.step("remove", a, 0)
	aft := false
	if x != nil {
		switch x.Kind {
		case "dead":
			return perr("remove", a, ErrDead)
		case "crash":
			f.crash(x)
			return perr("remove", a, ErrDead)
		case "crash-aft":
			aft = true
		default:
			return perr("remove", a, x.errno())
		}
	}
	p, n, err := f.resolve(Abs(a), false)
	if err == nil && n == nil {
		err = syscall.ENOENT
	}
	if err != nil {
		return perr("remove", a, err)
	}
	if n.Dir {
		for q := range f.names {
			if path.Dir(q) == p {
				return perr("remove", a, syscall.ENOTEMPTY)
			}
		}
	}
	f.del(p)
	if aft {
		f.crash(x)
	}
	return nil
}

func (f *FS) RemoveAll(a string) error {
	p := Abs(a)
	for _, q := range f.List() {
		if q == p || strings.HasPrefix(q, p+"/") {
			if err := f.Remove(q); err != nil {
				return err
			}
		}
	}
	if n := f.names[p]; n != nil && n.Dir && p != "/" && p != "/w" && p != "/tmp" && p != "/dev" {
		return f.Remove(p)
	}
	return nil
}

func (f *FS) Mkdir(a string, m fs.FileMode) error {
	x := f.step("mkdir", a, 0)
	if x != nil && x.Kind != "crash-aft" {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return perr("mkdir", a, x.errno())
	}
	p, n, err := f.resolve(Abs(a), false)
	if err != nil {
		return perr("mkdir", a, err)
	}
	if n != nil {
		return perr("mkdir", a, syscall.EEXIST)
	}
	n = f.ino()
	n.Dir, n.Mode = true, fs.ModeDir|m&0777
	f.set(p, n)
	if x != nil {
		f.crash(x)
	}
	return nil
}

func (f *FS) MkdirAll(a string, m fs.FileMode) error {
	p := Abs(a)
	if n := f.names[p]; n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", a, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := f.MkdirAll(d, m); err != nil {
			return err
		}
	}
	return f.Mkdir(p, m)
}

func (f *FS) ReadDir(a string) ([]fs.DirEntry, error) {
	if x := f.step("readdir", a, 0); x != nil {
		if x.Kind == "crash" {
			f.crash(x)
		}
		return nil, perr("open", a, x.errno())
	}
	p, n, err := f.resolve(Abs(a), true)
	if err != nil || n == nil {
		return nil, perr("open", a, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", a, syscall.ENOTDIR)
	}
	var r []fs.DirEntry
	var ps []string
	for q := range f.names {
		if q != "/" && path.Dir(q) == p {
			ps = append(ps, q)
		}
	}
	sort.Strings(ps)
	for _, q := range ps {
		r = append(r, fs.FileInfoToDirEntry(mkinfo(q, f.names[q])))
	}
	return r, nil
}

func (f *FS) Chmod(name string, m fs.FileMode) error {
	_, n, err := f.resolve(Abs(name), true)
	if err != nil || n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	return f.chmod("chmod", name, n, m)
}

func (h *File) IsDir() bool   { return h.ino.Dir }
func (h *File) FS() *FS       { return h.fs }
func (h *File) Abs() string   { return h.abs }
func (h *File) Closed() bool  { return h.closed }
func (h *File) Inode() *Inode { return h.ino }

// LinkError mirrors os.LinkError; the shim aliases it.
type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

// Std opens the standard streams.
func (f *FS) Std(name string, flag int) *File {
	return &File{fs: f, ino: f.names["/dev/"+name], name: "/dev/" + name, abs: "/dev/" + name, flag: flag}
}

// StdoutData is everything printed to the standard streams.
func (f *FS) StdoutData() []byte { return f.names["/dev/stdout"].Data }
func (f *FS) StderrData() []byte { return f.names["/dev/stderr"].Data }

// LinkOf is the target of a symbolic link ("" if p is none).
func (f *FS) LinkOf(p string) string {
	if n := f.names[Abs(p)]; n != nil {
		return n.Link
	}
	return ""
}
