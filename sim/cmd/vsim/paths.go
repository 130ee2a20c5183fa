package main

import (
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// pathForm is a way to name a model file: the name the caller uses and the
// file it stands for on the disk prepPaths lays out. No two forms stand for
// the same file.
type pathForm struct{ p, real string }

var pathForms = []pathForm{
	{"a.model", "/w/a.model"},
	{"d/b.model", "/w/d/b.model"},
	{"/w/link", "/w/d/target.model"}, // absolute name, relative link into a directory
	{"/w/c.model", "/w/c.model"},
	{"mnt/m.model", "/w/mnt/m.model"},                         // another file system
	{"d/ln", "/w/d/t.model"},                                  // relative to the directory of the link
	{"d/up", "/w/t2.model"},                                   // out of it
	{"chain", "/w/e/end.model"},                               // links across directories and file systems
	{"abslink", "/w/mnt/abs.model"},                           // absolute target, another file system
	{"dl/x.model", "/w/d/x.model"},                            // through a directory that is a link
	{"d/dl2/z.model", "/w/mnt/z.model"},                       // onto another file system
	{"dl/ln3", "/w/d/t3.model"},                               // link reached through a linked directory
	{"d/../dots.model", "/w/dots.model"},                      // not in canonical form
	{"./e//sl.model", "/w/e/sl.model"},                        // nor this
	{"/tmp/t.model", "/tmp/t.model"},                          // the directory for temporary files
	{".hidden", "/w/.hidden"},                                 // no name before the dot
	{"with space & *[1].mod?l", "/w/with space & *[1].mod?l"}, // characters with a meaning elsewhere
}

// prepPaths lays out the directories and links of pathForms.
func prepPaths(fs *simfs.FS) {
	fs.PutDir("/w/d")
	fs.PutDir("/w/e")
	fs.PutLink("/w/link", "d/target.model")
	fs.PutLink("/w/d/ln", "t.model")
	fs.PutLink("/w/d/up", "../t2.model")
	fs.PutLink("/w/chain", "d/c1")
	fs.PutLink("/w/d/c1", "../mnt/c2")
	fs.PutLink("/w/mnt/c2", "/w/e/end.model")
	fs.PutLink("/w/abslink", "/w/mnt/abs.model")
	fs.PutLink("/w/dl", "d")
	fs.PutLink("/w/d/dl2", "../mnt")
	fs.PutLink("/w/d/ln3", "t3.model")
}

// realPath is the file a path form stands for.
func realPath(p string) string {
	for _, f := range pathForms {
		if f.p == p {
			return f.real
		}
	}
	return simfs.Abs(p)
}

// anyPath picks a form: plain names half of the time.
func anyPath(g *simrt.Rng) string {
	if g.Intn(2) == 0 {
		return pathForms[g.Intn(3)].p
	}
	return pathForms[g.Intn(len(pathForms))].p
}
