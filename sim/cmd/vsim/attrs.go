package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"strings"

	"github.com/cubeflix/nn"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// ---------------------------------------------------------------- P09
//
// A save replaces the content of the file its name stands for. Links, kinds
// of files, permissions and directories stay what they were.

var (
	modesRW = []fs.FileMode{0644, 0600, 0640, 0664, 0666, 0755, 0777, 0700, 0620, 0604, 0200, 0222, 0622}
	modesRO = []fs.FileMode{0444, 0400, 0555, 0440, 0}
	// names a model cannot be stored under
	noTargets = []string{"d", "dirlink", "loop1", "d/self", "dang", "nodir/x.model", "file/x", "", "fulldev", "/dev/full", "d/lfull"}
	// devices and pipes
	devTargets = []string{"pipe", "d/lpipe", "/dev/stdout", "/dev/null", "d/lnull", "d/lout", "mnt/lchain"}
)

func prepP09(f *simfs.FS) {
	prepPaths(f)
	f.PutSpecial("pipe", "fifo")
	f.PutSpecial("fulldev", "full")
	f.PutLink("d/lpipe", "../pipe")
	f.PutLink("d/lnull", "/dev/null")
	f.PutLink("d/lout", "/dev/stdout")
	f.PutLink("d/lfull", "../fulldev")
	f.PutLink("mnt/lchain", "../d/lpipe")
	f.PutLink("loop1", "d/loop2")
	f.PutLink("d/loop2", "../loop1")
	f.PutLink("d/self", "self")
	f.PutLink("dang", "nodir/x")
	f.PutLink("dirlink", "d")
	f.Put("file", []byte("a file"))
}

func genP09(p *Plan, g *simrt.Rng, thorough bool) {
	genSaveModels(p, g, 2)
	p.P["umask"] = []int64{022, 022, 077, 002, 0, 027}[g.Intn(6)]
	k := 2 + g.Intn(5)
	if thorough {
		k += g.Intn(8)
	}
	paths := []string{anyPath(g), anyPath(g), pathForms[g.Intn(len(pathForms))].p}
	for i := 0; i < k; i++ {
		s := Step{K: "save", M: g.Intn(2), Path: paths[g.Intn(3)], Keep: g.U64(), Pow: g.Intn(2) == 0}
		switch g.Intn(16) {
		case 0, 1, 2, 3, 4, 5: // over a file with permissions of its own
			put := Step{K: "put", M: g.Intn(3) - 1, Path: s.Path, Seed: g.U64()}
			if g.Intn(4) == 0 {
				put.N = int(modesRO[g.Intn(len(modesRO))])
			} else {
				put.N = int(modesRW[g.Intn(len(modesRW))])
			}
			p.Steps = append(p.Steps, put)
		case 6, 7:
			s.Path = devTargets[g.Intn(len(devTargets))]
		case 8, 9:
			s.Path = noTargets[g.Intn(len(noTargets))]
		case 10:
			s.K = "load"
		case 11:
			s.K = "crash"
		case 12: // gone, by somebody else's hand
			p.Steps = append(p.Steps, Step{K: "del", Path: s.Path})
		}
		if s.K == "save" {
			ops, steps := probeSave(p, s.M, 0, s.Path, prepP09)
			switch g.Intn(8) {
			case 0, 1:
				if f, ok := pickFault(g, ops, errFaults); ok {
					s.Faults = append(s.Faults, f)
				}
			case 2, 3:
				if f, ok := pickFault(g, ops, crashFaults); ok {
					s.Faults = append(s.Faults, f)
				}
			case 4:
				s.Kill = 1 + int64(g.U64()%uint64(steps+1))
			}
		}
		p.Steps = append(p.Steps, s)
		if g.Intn(6) == 0 {
			p.Steps = append(p.Steps, Step{K: "crash", Pow: g.Intn(2) == 0, Keep: g.U64()})
		}
	}
}

func runP09(r *R) {
	p := r.p
	f := r.fs
	f.Umask = fs.FileMode(p.P["umask"])
	prepP09(f)
	var dumps []string
	for i := range p.Models {
		dumps = append(dumps, r.dumpOf(r.mk(i)))
	}
	layout := f.Names() // links, directories, devices: these stay as they are
	kind := map[string]string{}
	mode := map[string]fs.FileMode{}
	for _, n := range layout {
		kind[n], mode[n] = f.Entry(n), f.RawMode(n)
	}
	// files at the targets that are certain to be there, with their permissions
	perm := map[string]fs.FileMode{}
	look := func(what string) bool {
		for _, n := range layout {
			if e := f.Entry(n); e != kind[n] {
				r.fail("kind", "%s: %s was a %s, now there is %s", what, n, kind[n], e)
				return false
			}
			if m := f.RawMode(n); m != mode[n] {
				r.fail("mode", "%s: the permissions of %s went from %v to %v", what, n, mode[n], m)
				return false
			}
		}
		for _, n := range sortedKeys(perm) {
			if e := f.Entry(n); e != "file" {
				r.fail("kind", "%s: %s was a file, now there is %s", what, n, e)
				return false
			}
			if m := f.RawMode(n).Perm(); m != perm[n] {
				r.fail("mode", "%s: the permissions of %s went from %v to %v", what, n, perm[n], m)
				return false
			}
		}
		return true
	}
	isDev := func(path string) string {
		for _, d := range devTargets {
			if d == path {
				switch {
				case strings.HasSuffix(d, "null"):
					return "/dev/null"
				case strings.HasSuffix(d, "out"):
					return "/dev/stdout"
				}
				return "/w/pipe"
			}
		}
		return ""
	}
	isNo := func(path string) bool {
		for _, d := range noTargets {
			if d == path {
				return true
			}
		}
		return false
	}
	loads := func(b []byte) (d string, left int, err error) {
		var m nn.Model
		buf := bytes.NewBuffer(append([]byte(nil), b...))
		r.do("read back", func() { m, err = nn.LoadModel(buf) })
		if r.bad() {
			r.stop()
		}
		if err == nil {
			d = r.dumpOf(&m)
		}
		return d, buf.Len(), err
	}
	for si, s := range p.Steps {
		real := realPath(s.Path)
		what := fmt.Sprintf("step %d, %s %q", si, s.K, s.Path)
		switch s.K {
		case "put":
			b := []byte("junk")
			if s.M >= 0 {
				b = encodeSpec(p.Models[s.M%len(p.Models)], simrt.NewRng(s.Seed), "1.0.3")
			}
			f.SyncAll()
			f.Put(real, b)
			f.SetMode(real, fs.FileMode(s.N))
			perm[real] = fs.FileMode(s.N)
			r.ev("put %s %o", s.Path, s.N)
		case "del":
			f.SyncAll()
			f.Del(real)
			delete(perm, real)
		case "load":
			before := map[string]string{}
			for _, n := range f.Names() {
				before[n] = string(f.Raw(n))
			}
			var err error
			r.do("load", func() { _, err = nn.LoadFile(s.Path) })
			if r.bad() {
				r.stop()
			}
			for _, n := range f.Names() {
				if b, ok := before[n]; !ok || b != string(f.Raw(n)) {
					r.fail("load", "%s changed or created %s", what, n)
					r.stop()
				}
			}
			if !look(what) {
				r.stop()
			}
			r.ev("load %s err=%v", s.Path, errText(err))
		case "crash":
			if s.Pow {
				f.Fired["power"]++
			} else {
				f.Fired["kill"]++
			}
			f.CrashAt(s.Pow, s.Keep)
			r.restart(p.Env)
			if !look(what) {
				r.stop()
			}
		case "save":
			mi := s.M % len(p.Models)
			m := r.mk(mi)
			dev, no := isDev(s.Path), isNo(s.Path)
			was, had := perm[real]
			_, visible := f.Get(real)
			had = had && dev == "" && !no
			ro := had && was&0200 == 0
			old := append([]byte(nil), f.Raw(real)...)
			d0 := 0
			if dev != "" {
				d0 = len(f.Raw(dev))
			}
			known := map[string]bool{}
			for _, n := range f.Names() {
				known[n] = true
			}
			what += fmt.Sprintf(" (model %d, permissions before: %s)%s", mi, permText(was, had), faultText(s))
			// at every instant
			bad := false
			f.Events = func(op, at string) {
				if bad {
					return
				}
				if !look(fmt.Sprintf("%s, before %s of %s", what, op, at)) {
					bad = true
					return
				}
				if !had {
					return
				}
				for _, n := range f.Names() {
					if known[n] || n == real || len(f.Raw(n)) == 0 {
						continue
					}
					if w := f.RawMode(n).Perm() & 077 &^ was; w != 0 {
						r.fail("privacy", "%s, before %s of %s: %s holds model data and has permissions %v, the target has %v", what, op, at, n, f.RawMode(n).Perm(), was)
						bad = true
						return
					}
				}
			}
			fired := len(f.Fired)
			n0 := 0
			for _, c := range f.Fired {
				n0 += c
			}
			res := r.saveF(m, s.Path, s)
			f.Events = nil
			n1 := 0
			for _, c := range f.Fired {
				n1 += c
			}
			faulty := n1 > n0 || len(f.Fired) > fired
			if r.bad() {
				r.stop()
			}
			if res.crashed {
				if !had && dev == "" && !no {
					delete(perm, real)
				}
				r.nontriv = true
				r.restart(p.Env)
				if !look(what + ", after the restart") {
					r.stop()
				}
				r.mark("%s crashed %s", s.Path, permText(was, had))
				continue
			}
			if !look(what + ", which returned " + errText(res.err)) {
				r.stop()
			}
			r.mark("%s %s %v", s.Path, permText(was, had), res.err == nil)
			switch {
			case no:
				r.nontriv = true
				if res.err == nil {
					r.fail("accepted", "%s: reported success, but nothing can be stored there", what)
					r.stop()
				}
			case ro:
				r.nontriv = true
				if res.err == nil {
					r.fail("accepted", "%s: reported success over a file without write permission", what)
				} else if !bytes.Equal(old, f.Raw(real)) {
					r.fail("content", "%s: changed a file without write permission", what)
				}
				if r.bad() {
					r.stop()
				}
			case res.err != nil:
				if !faulty {
					r.fail("refused", "%s: failed without any fault: %v", what, res.err)
					r.stop()
				}
				if !had && dev == "" && !visible {
					delete(perm, real)
				}
			case dev != "":
				r.nontriv = true
				if dev == "/dev/null" {
					break
				}
				d, left, err := loads(f.Raw(dev)[d0:])
				if err != nil || left != 0 || d != dumps[mi] {
					r.fail("content", "%s: reported success, but %s received something else: %d bytes, load error %v, %d bytes too many", what, dev, len(f.Raw(dev))-d0, errText(err), left)
					r.stop()
				}
			default:
				r.nontriv = r.nontriv || had
				d, left, err := loads(f.Raw(real))
				if f.Entry(real) != "file" || err != nil || left != 0 || d != dumps[mi] {
					r.fail("content", "%s: reported success, but %s is %s of %d bytes, which loads with %v and %d bytes too many", what, real, f.Entry(real), len(f.Raw(real)), errText(err), left)
					r.stop()
				}
				if !had { // whatever the library chose stays from now on
					perm[real] = f.RawMode(real).Perm()
				}
			}
		}
	}
}

func permText(m fs.FileMode, had bool) string {
	if !had {
		return "no file"
	}
	return m.String()
}

func init() {
	register(&Prop{ID: "P09", Quick: 120000, Thoro: 2000000000, Gen: genP09, Run: runP09,
		Rule: "A run lays out directories, links (relative, absolute, chained, dangling, looping, across file systems), devices and a pipe, and performs saves to names that stand for files with seeded permissions, for devices, or for nothing a model can be stored in, under a seeded file creation mask, with seeded I/O errors, kills at any statement and power losses; kinds, link targets and permissions are compared before every I/O operation, after every call and after every restart; non-trivial: a save met an existing file, a device, an impossible target or a crash."})
}
