package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- a model of a file tree

type vnode struct {
	typ    string // dir reg link fifo
	kids   map[string]*vnode
	data   *string // shared by the names of a file
	target string
	perm   int // -1: not checked
	pre    bool
}

func vdir(perm int) *vnode { return &vnode{typ: "dir", kids: map[string]*vnode{}, perm: perm} }

// voutcome is how far the model can tell.
type voutcome int

const (
	vOK     voutcome = iota
	vFail            // cannot be carried out: extraction must not report success
	vUnsure          // symbolic links that leave the destination and the like: anything goes here
)

type vfs struct {
	root  *vnode
	real  string // absolute location of root, for absolute symbolic links
	depth int
}

// walk follows p from the directory stack (root first), symbolic links and all.
func (v *vfs) walk(stack []*vnode, p string) ([]*vnode, voutcome) {
	if v.depth++; v.depth > 60 {
		return nil, vUnsure
	}
	if strings.HasPrefix(p, "/") {
		if p != v.real && !strings.HasPrefix(p, v.real+"/") {
			return nil, vUnsure
		}
		stack, p = []*vnode{v.root}, strings.TrimPrefix(p, v.real)
	}
	stack = append([]*vnode(nil), stack...)
	for _, c := range strings.Split(p, "/") {
		cur := stack[len(stack)-1]
		if cur.typ != "dir" {
			if c == "" {
				continue
			}
			return nil, vFail
		}
		switch c {
		case "", ".":
			continue
		case "..":
			if len(stack) == 1 {
				return nil, vUnsure
			}
			stack = stack[:len(stack)-1]
			continue
		}
		kid := cur.kids[c]
		if kid == nil {
			return nil, vUnsure // dangling
		}
		if kid.typ == "link" {
			s, out := v.walk(stack, kid.target)
			if out != vOK {
				return nil, out
			}
			stack = s
			continue
		}
		stack = append(stack, kid)
	}
	return stack, vOK
}

// parent finds the directory that holds p, creating what is missing.
func (v *vfs) parent(p string) (*vnode, string, voutcome) {
	stack := []*vnode{v.root}
	parts := strings.Split(p, "/")
	for _, c := range parts[:len(parts)-1] {
		cur := stack[len(stack)-1]
		kid := cur.kids[c]
		if kid == nil {
			kid = vdir(-1)
			cur.kids[c] = kid
		}
		if kid.typ == "link" {
			v.depth = 0
			s, out := v.walk(stack, kid.target)
			if out != vOK {
				return nil, "", out
			}
			stack = s
		} else {
			stack = append(stack, kid)
		}
		if stack[len(stack)-1].typ != "dir" {
			return nil, "", vFail
		}
	}
	return stack[len(stack)-1], parts[len(parts)-1], vOK
}

// ---------------------------------------------------------------- C18

// XEnt is an archive member or, for a hard-link group, several.
type XEnt struct {
	Path  S      `json:"path"` // clean and relative; "." for the destination
	Form  int    `json:"form"` // how the name is written
	Mode  uint32 `json:"mode"`
	Data  Blob   `json:"data"`
	Link  S      `json:"link,omitempty"`  // @ stands for the destination
	Group int    `json:"group,omitempty"` // hard-link group, from 1
	Away  uint32 `json:"away,omitempty"`  // links of the group that the archive doesn't have
}

// XPre is something that lies in the destination beforehand.
type XPre struct {
	Path S      `json:"path"`
	Kind string `json:"kind"` // reg dir link fifo hard
	Data Blob   `json:"data"`
	Link S      `json:"link,omitempty"` // target, or the file linked to
}

type c18Case struct {
	Pre    []XPre   `json:"pre,omitempty"`
	Arcs   [][]XEnt `json:"arcs"`
	Dest   int      `json:"dest"`
	Via    int      `json:"via"` // 0 cpio.Extract, 1 ExpandPayload
	Comp   string   `json:"comp"`
	Chunks Chunks   `json:"chunks"`
}

func genXPath(t *rapid.T, what string) S {
	if rapid.IntRange(0, 9).Draw(t, what+"odd") == 0 {
		return S(rapid.SampledFrom([]string{"...", "..a/b", "a..", "a b", "\xff\xfe", "TRAILER!!", "-", "~", "a\nb", "ü/é", "C:\\x", strings.Repeat("n", 255), strings.Repeat("d/", 40) + "x", "*", ".hidden/.f", " a", "a ", "b\t", " ", "a\r", "a\\b", "%2e%2e", "A", "a\x7f", "a;b", "$HOME", "x\xc0\xaf"}).Draw(t, what+"oddname"))
	}
	n := rapid.IntRange(1, 3).Draw(t, what+"depth")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f", "g"}).Draw(t, what+"comp"))
	}
	return S(strings.Join(p, "/"))
}

func genXLink(t *rapid.T) S {
	switch rapid.IntRange(0, 7).Draw(t, "linkkind") {
	case 0:
		return "@/" + genXPath(t, "labs")
	case 1:
		return "../" + genXPath(t, "lup")
	case 2:
		return S(rapid.SampledFrom([]string{".", "..", "@", "a", "b", "a/..", "./b/", "//", "/nonexistent/x", ""}).Draw(t, "lspec"))
	case 3:
		n := rapid.SampledFrom([]int{1, 100, 511, 512, 513, 2000, 4095}).Draw(t, "llen")
		return S(strings.Repeat("long/", 1000)[:n])
	case 4:
		return S(rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 30).Filter(func(b []byte) bool { return !bytes.Contains(b, []byte("@")) }).Draw(t, "lraw"))
	}
	return genXPath(t, "lrel")
}

func genXArc(t *rapid.T, maxN int) []XEnt {
	var out []XEnt
	n := rapid.IntRange(0, maxN).Draw(t, "nents")
	for i := 0; i < n; i++ {
		e := XEnt{Path: genXPath(t, "x"), Form: rapid.IntRange(0, 8).Draw(t, "form")}
		perm := uint32(rapid.SampledFrom([]int{0644, 0755, 0600, 0400, 04755, 02755, 01777, 0777, 0666, 0}).Draw(t, "perm"))
		switch k := rapid.IntRange(0, 19).Draw(t, "type"); {
		case k < 7:
			e.Mode, e.Data = mReg|perm, genBlob(3000).Draw(t, "data")
		case k < 11:
			e.Mode = mDir | perm | 0700
			if rapid.IntRange(0, 6).Draw(t, "dot") == 0 {
				e.Path = "."
			}
		case k < 14:
			e.Mode, e.Link = mLnk|0777, genXLink(t)
		case k < 16:
			e.Mode = mFifo | perm
		case k < 17:
			e.Mode = rapid.SampledFrom([]uint32{mChr, mBlk}).Draw(t, "device") | perm
			e.Path = S(rapid.SampledFrom([]string{"null", "sda"}).Draw(t, "devname"))
		case k < 18:
			// a directory nothing else goes into, so that its owner need not be able to
			e.Path = S(fmt.Sprintf("lf%d", i))
			e.Mode = mDir | uint32(rapid.SampledFrom([]int{0, 0111, 0444, 0555, 0550, 0070, 0500, 0300, 07000, 0777}).Draw(t, "leafperm"))
		default:
			// a hard-link group, its members side by side or mixed with others
			g := 1 + i
			m := rapid.IntRange(1, 4).Draw(t, "names")
			away := uint32(0)
			if m == 1 || rapid.IntRange(0, 3).Draw(t, "someaway") == 0 {
				away = uint32(rapid.IntRange(1, 3).Draw(t, "away"))
			}
			at := m - 1
			if rapid.IntRange(0, 2).Draw(t, "early") == 0 {
				at = rapid.IntRange(0, m-1).Draw(t, "contentsat")
			}
			blob := genBlob(300).Draw(t, "gdata")
			if rapid.IntRange(0, 2).Draw(t, "gempty") == 0 {
				blob = Blob{}
			}
			for j := 0; j < m; j++ {
				x := XEnt{Path: S(fmt.Sprintf("%s%d", strings.ReplaceAll(string(genXPath(t, "g")), "nnnnn", "n"), j)), Form: rapid.IntRange(0, 8).Draw(t, "gform"), Mode: mReg | perm, Group: g, Away: away}
				if j == at {
					x.Data = blob
				}
				if rapid.IntRange(0, 3).Draw(t, "mixed") == 0 {
					out = append(out, XEnt{Path: S(fmt.Sprintf("m%d", len(out))), Mode: mReg | 0644, Data: Blob{Kind: "text", N: 5, Seed: 1}})
				}
				out = append(out, x)
			}
			continue
		}
		out = append(out, e)
	}
	return out
}

func genC18(t *rapid.T) c18Case {
	c := c18Case{Dest: rapid.IntRange(0, 11).Draw(t, "dest"), Via: rapid.IntRange(0, 1).Draw(t, "via"), Comp: rapid.SampledFrom([]string{"uncompressed", "none-gzip", "gzip", "zstd", "xz"}).Draw(t, "comp"), Chunks: genChunks(true).Draw(t, "chunks")}
	c.Arcs = append(c.Arcs, genXArc(t, 7))
	var names, files []S
	for _, e := range c.Arcs[0] {
		if e.Path != "." {
			names = append(names, e.Path)
		}
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 3, 6}).Draw(t, "npre"); i > 0; i-- {
		at := genXPath(t, "p")
		if len(names) > 0 && rapid.Bool().Draw(t, "intheway") {
			at = rapid.SampledFrom(names).Draw(t, "inthewayof")
		}
		p := XPre{Path: at, Kind: rapid.SampledFrom([]string{"reg", "reg", "dir", "dir", "link", "fifo", "hard"}).Draw(t, "pkind")}
		switch p.Kind {
		case "reg":
			p.Data = genBlob(4000).Draw(t, "pdata")
			files = append(files, p.Path)
		case "link":
			p.Link = genXLink(t)
			if rapid.IntRange(0, 3).Draw(t, "beside") == 0 {
				p.Link = S(strings.Repeat("../", 1+strings.Count(string(at), "/"))) + "beside/file"
			}
		case "hard":
			p.Link = genXPath(t, "phard")
			if len(files) > 0 && rapid.Bool().Draw(t, "hardto") {
				p.Link = rapid.SampledFrom(files).Draw(t, "hardof")
			}
		}
		c.Pre = append(c.Pre, p)
	}
	switch rapid.IntRange(0, 4).Draw(t, "more") {
	case 0:
		c.Arcs = append(c.Arcs, c.Arcs[0]) // the same once more
	case 1:
		c.Arcs = append(c.Arcs, genXArc(t, 5))
	}
	return c
}

// genC18Tidy has archives without conflicts, which must all be extracted.
func genC18Tidy(t *rapid.T) c18Case {
	c := genC18(t)
	c.Pre = nil
	for i := range c.Arcs {
		if i > 0 {
			c.Arcs[i] = c.Arcs[0]
			continue
		}
		dirs := 1
		for j := range c.Arcs[0] {
			e := &c.Arcs[0][j]
			if e.Mode&^07777 == mChr || e.Mode&^07777 == mBlk || e.Path == "." {
				continue
			}
			if e.Mode&^07777 == mDir {
				if strings.HasPrefix(string(e.Path), "lf") {
					continue
				}
				dirs++
				e.Path = S(fmt.Sprintf("dir%d", dirs-1))
				if dirs > 2 && j%2 == 0 {
					e.Path = S(fmt.Sprintf("dir%d/dir%d", dirs-2, dirs-1))
				}
				continue
			}
			if e.Mode&^07777 == mLnk && e.Link == "" {
				e.Link = "x"
			}
			if e.Group%2 == 1 {
				// names that differ in their directories only
				e.Path = S(fmt.Sprintf("dir%d/n%d/group%d", j%dirs, j, e.Group))
				continue
			}
			e.Path = S(fmt.Sprintf("dir%d/%s_%d", j%dirs, path.Base(string(e.Path))[:min(20, len(path.Base(string(e.Path))))], j))
		}
	}
	return c
}

func (e XEnt) name() S {
	p := e.Path
	if p == "." {
		return []S{".", "./", "./.", ".//", ".", ".", "."}[e.Form%7]
	}
	switch e.Form {
	case 0, 1:
		return "./" + p
	case 2:
		return p
	case 3:
		return "/" + p
	case 4:
		return S(strings.ReplaceAll(string(p), "/", "//"))
	case 5:
		return "./zz/.././" + p
	case 7:
		// whatever leads out of the destination at the front is dropped
		return S(strings.Repeat("../", 1+len(p)%5)) + p
	case 8:
		return S([]string{"zz/../../", "./../", "./../../", "..//../../"}[len(p)%4]) + p
	default:
		if e.Mode&^07777 == mDir {
			return "./" + p + "/"
		}
		return "././" + p
	}
}

// encodeX encodes the members; @ in symbolic links becomes real.
func encodeX(ents []XEnt, real string) []byte {
	count := map[int]uint32{}
	for _, e := range ents {
		if e.Group > 0 {
			count[e.Group]++
		}
	}
	var out []CEnt
	for i, e := range ents {
		c := CEnt{Name: e.name(), Mode: e.Mode, Ino: uint32(1000 + i), Nlink: 1, Dev: 3, Data: e.Data}
		switch e.Mode &^ 07777 {
		case mDir:
			c.Nlink = uint32(2 + i%3)
		case mLnk:
			c.Data = Blob{Kind: "lit", Lit: e.expandLink(real)}
		case mReg:
			if e.Group > 0 {
				// groups on different devices may share an inode number
				c.Nlink, c.Ino, c.Dev = count[e.Group]+e.Away, 7, uint32(e.Group)<<(16*uint(e.Group%2))
			}
		}
		out = append(out, c)
	}
	b, _ := encodeCpio(out, 0)
	return b
}

func (e XEnt) expandLink(real string) S { return S(strings.ReplaceAll(string(e.Link), "@", real)) }

// apply carries out one archive on the model.
func (v *vfs) apply(ents []XEnt) voutcome {
	type name struct {
		dir  *vnode
		base string
	}
	groups := map[int][]name{}
	pending := map[name]bool{}
	full := map[int]*string{} // groups with contents
	put := func(n name, x *vnode) voutcome {
		if old := n.dir.kids[n.base]; old != nil && old.typ == "dir" {
			return vFail
		}
		n.dir.kids[n.base] = x
		return vOK
	}
	finish := func(g int, d *string) voutcome {
		for _, n := range groups[g] {
			if out := put(n, &vnode{typ: "reg", data: d, perm: -1}); out != vOK {
				return out
			}
		}
		return vOK
	}
	for _, e := range ents {
		typ := e.Mode &^ 07777
		if typ == mChr || typ == mBlk {
			continue
		}
		p := string(e.Path)
		if p == "." {
			if typ != mDir {
				return vFail
			}
			continue
		}
		dir, base, out := v.parent(p)
		if out != vOK {
			return out
		}
		n := name{dir, base}
		if pending[n] {
			return vUnsure // a name of a hard-linked file given twice
		}
		switch typ {
		case mDir:
			switch old := dir.kids[base]; {
			case old == nil:
				dir.kids[base] = vdir(int(e.Mode & 0777 &^ 022))
			case old.typ == "dir":
			case old.typ == "link":
				// the directory it leads to, if any, will do
				v.depth = 0
				d, _, _ := v.dirOf(p)
				if d == nil {
					return vUnsure
				}
				if s, out := v.walk(d, old.target); out != vOK {
					return out
				} else if s[len(s)-1].typ != "dir" {
					return vFail
				}
			default:
				return vFail
			}
		case mFifo:
			if out := put(n, &vnode{typ: "fifo", perm: int(e.Mode & 0777 &^ 022)}); out != vOK {
				return out
			}
		case mLnk:
			if e.Link == "" {
				return vFail
			}
			if out := put(n, &vnode{typ: "link", target: string(e.expandLink(v.real)), perm: -1}); out != vOK {
				return out
			}
		case mReg:
			if e.Group > 0 {
				pending[n] = true
				groups[e.Group] = append(groups[e.Group], n)
				if len(e.Data.Bytes()) == 0 {
					continue
				}
				data := string(e.Data.Bytes())
				full[e.Group] = &data
				if out := finish(e.Group, &data); out != vOK {
					return out
				}
				groups[e.Group] = nil
				continue
			}
			data := string(e.Data.Bytes())
			if out := put(n, &vnode{typ: "reg", data: &data, perm: -1}); out != vOK {
				return out
			}
		}
	}
	for g := range groups {
		d := full[g]
		if d == nil {
			d = new(string)
		}
		if out := finish(g, d); out != vOK {
			return out
		}
	}
	return vOK
}

// dirOf is the stack of directories that lead to the directory that holds p.
func (v *vfs) dirOf(p string) ([]*vnode, string, voutcome) {
	s, out := v.walk([]*vnode{v.root}, path.Dir(p))
	return s, path.Base(p), out
}

// compare checks the tree at real against the model.
func (v *vfs) compare() error {
	got := scanTree(v.real, nil)
	delete(got, ".")
	ino := map[*string]uint64{}
	owner := map[uint64]*string{}
	var walk func(n *vnode, rel string) error
	walk = func(n *vnode, rel string) error {
		var names []string
		for k := range n.kids {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			kid, p := n.kids[k], filepath.Join(rel, k)
			g, ok := got[p]
			if !ok {
				return errf("%q is missing, want %s", p, kid.typ)
			}
			delete(got, p)
			if g.Type != kid.typ {
				return errf("%q is %s, want %s", p, g.Type, kid.typ)
			}
			if kid.perm >= 0 && int(g.Perm&0777) != kid.perm {
				return errf("%s %q has permissions %o, want %o", kid.typ, p, g.Perm, kid.perm)
			}
			switch kid.typ {
			case "reg":
				if g.Data != *kid.data {
					return errf("%q has wrong contents: %d bytes, want %d", p, len(g.Data), len(*kid.data))
				}
				if o, ok := ino[kid.data]; ok && o != g.Ino {
					return errf("%q is a file of its own, not a hard link", p)
				}
				if o, ok := owner[g.Ino]; ok && o != kid.data {
					return errf("%q is a hard link to another file", p)
				}
				ino[kid.data], owner[g.Ino] = g.Ino, kid.data
			case "link":
				if g.Data != kid.target {
					return errf("symbolic link %q points to %.100q, want %.100q", p, g.Data, kid.target)
				}
			case "dir":
				if err := walk(kid, p); err != nil {
					return err
				}
			}
		}
		return nil
	}
	if err := walk(v.root, ""); err != nil {
		return err
	}
	for p, g := range got {
		return errf("unexpected %s %q", g.Type, p)
	}
	return nil
}

// inDir runs f with another working directory.
func inDir(dir string, f func()) {
	old, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() { must(os.Chdir(old)) }()
	f()
}

// prepare puts the prior contents in place, on disk and in the model. What
// cannot be there is left out.
func (v *vfs) prepare(pre []XPre) {
	for _, p := range pre {
		// no symbolic links on the way
		dir := v.root
		ok := true
		parts := strings.Split(string(p.Path), "/")
		for _, c := range parts[:len(parts)-1] {
			kid := dir.kids[c]
			if kid == nil {
				kid = vdir(-1)
				dir.kids[c] = kid
			}
			if kid.typ != "dir" {
				ok = false
				break
			}
			dir = kid
		}
		base := parts[len(parts)-1]
		real := filepath.Join(v.real, string(p.Path))
		if !ok || dir.kids[base] != nil {
			continue
		}
		must(os.MkdirAll(filepath.Dir(real), 0755))
		switch p.Kind {
		case "reg":
			data := string(p.Data.Bytes())
			writeFile(real, []byte(data))
			dir.kids[base] = &vnode{typ: "reg", data: &data, perm: -1}
		case "dir":
			must(os.Mkdir(real, 0755))
			dir.kids[base] = vdir(0755)
		case "link":
			target := strings.ReplaceAll(string(p.Link), "@", v.real)
			if target == "" {
				continue
			}
			must(os.Symlink(target, real))
			dir.kids[base] = &vnode{typ: "link", target: target, perm: -1}
		case "fifo":
			must(syscall.Mkfifo(real, 0644))
			dir.kids[base] = &vnode{typ: "fifo", perm: 0644}
		case "hard":
			v.depth = 0
			s, base2, out := v.dirOf(string(p.Link))
			if out != vOK || s[len(s)-1].typ != "dir" {
				continue
			}
			old := s[len(s)-1].kids[base2]
			if old == nil || old.typ != "reg" {
				continue
			}
			must(os.Link(filepath.Join(v.real, string(p.Link)), real))
			dir.kids[base] = old
		}
	}
}

// destForm gives the working directory and the destination as passed.
func destForm(form int, top, real string) (cwd, dest string) {
	cwd = top
	switch form {
	case 0:
		dest = real
	case 1:
		dest = "out"
	case 2:
		dest = "./out"
	case 3:
		dest = "out/"
	case 4, 5:
		cwd, dest = real, "."
	case 6:
		cwd, dest = real, ""
	case 7:
		dest = real + "//"
	case 8:
		dest = filepath.Join(top, "ln")
	case 9:
		dest = "sub/../out"
	case 10:
		cwd, dest = filepath.Join(top, "sub"), "../out"
	case 11:
		dest = "ln"
	}
	return
}

func checkC18(k *K, c c18Case) error { return checkC18x(k, c, false) }

func checkC18Tidy(k *K, c c18Case) error { return checkC18x(k, c, true) }

func checkC18x(k *K, c c18Case, tidy bool) error {
	top, err := filepath.EvalSymlinks(k.Dir())
	must(err)
	real := filepath.Join(top, "out")
	v := &vfs{root: vdir(-1), real: real}
	switch {
	case c.Dest == 0 && len(c.Pre) == 0 && len(c.Arcs[0]) > 0:
		// does not exist, nor does its parent
		real = filepath.Join(top, "x/y/out")
		v.real = real
	case c.Dest >= 1 && c.Dest <= 3 && len(c.Pre) == 0:
	default:
		must(os.Mkdir(real, 0755))
	}
	must(os.Mkdir(filepath.Join(top, "sub"), 0755))
	must(os.Symlink("out", filepath.Join(top, "ln")))
	v.prepare(c.Pre)
	cwd, dest := destForm(c.Dest, top, real)
	k.Label(fmt.Sprintf("dest form %d", c.Dest))
	k.LabelIf(len(c.Pre) > 0, "not empty before")
	k.LabelIf(len(c.Arcs) > 1, "extracted more than once")
	types := map[uint32]bool{}
	for i, ents := range c.Arcs {
		for _, e := range ents {
			types[e.Mode&^07777] = true
			k.LabelIf(e.Group > 0, "hard links")
		}
		arch := encodeX(ents, real)
		want := v.apply(ents)
		var got error
		inDir(cwd, func() {
			if c.Via == 0 {
				got = cpio.Extract(c.Chunks.reader(arch), dest)
				return
			}
			var p Pkg
			p.Gen.Tags = append(identityTags(), compressorTags(c.Comp, true)...)
			sortTags(p.Gen.Tags)
			b := p.BuildWith(compress(c.Comp, arch, 1))
			rpm, err := rpmutils.ReadRpm(c.Chunks.reader(b.All))
			if err != nil {
				got = err
				return
			}
			got = rpm.ExpandPayload(dest)
		})
		if tidy && want != vOK {
			harnessFail("tidy archive: outcome %d", want)
		}
		switch want {
		case vUnsure:
			k.Label("open outcome")
			return nil
		case vFail:
			k.Label("must fail")
			if got == nil {
				return errf("archive %d: success although the destination cannot take it", i)
			}
			k.NT()
			return nil
		}
		if got != nil {
			return errf("archive %d: extraction to %q failed: %v", i, dest, got)
		}
		if err := v.compare(); err != nil {
			return errf("archive %d, extracted to %q: %v", i, dest, err)
		}
	}
	k.NTIf(len(types) >= 2)
	return nil
}

// ---------------------------------------------------------------- C31

// Every file system call of an extraction fails in turn.
type c31Case struct {
	Pre   []XPre `json:"pre,omitempty"`
	Arc   []XEnt `json:"arc"`
	Dest  int    `json:"dest"`
	Via   int    `json:"via"`
	Errno int    `json:"errno"`
}

func genC31(t *rapid.T) c31Case {
	g := genC18
	if rapid.Bool().Draw(t, "tidy") {
		g = genC18Tidy
	}
	x := g(t)
	for i := range x.Arcs[0] {
		// every directory on the way is looked up again and again
		if e := &x.Arcs[0][i]; strings.Count(string(e.Path), "/") > 5 {
			e.Path = S(fmt.Sprintf("deep%d/a/b", i))
		}
	}
	return c31Case{Pre: x.Pre, Arc: x.Arcs[0][:min(len(x.Arcs[0]), 6)], Dest: rapid.IntRange(0, 2).Draw(t, "where"), Via: x.Via, Errno: rapid.IntRange(0, len(extractErrnos)-1).Draw(t, "errno")}
}

// sameTree compares two trees but for times, inode numbers standing for which
// names are links to one file.
func sameTree(got, want map[string]TNode) error {
	inos := map[uint64]uint64{}
	for p, w := range want {
		g, ok := got[p]
		if !ok {
			return errf("%s %q is missing", w.Type, p)
		}
		if g.Type != w.Type || g.Perm != w.Perm || g.Data != w.Data || g.Nlink != w.Nlink {
			return errf("%q is %s %o with %d bytes and %d links, want %s %o with %d and %d", p, g.Type, g.Perm, len(g.Data), g.Nlink, w.Type, w.Perm, len(w.Data), w.Nlink)
		}
		if w.Type == "reg" {
			if i, ok := inos[w.Ino]; ok && i != g.Ino {
				return errf("%q is not linked to the same file", p)
			}
			inos[w.Ino] = g.Ino
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok {
			return errf("unexpected %s %q", g.Type, p)
		}
	}
	return nil
}

func checkC31(k *K, c c31Case) error {
	if !faultsAvailable() {
		k.Label("system calls cannot be intercepted here")
		return nil
	}
	base, err := filepath.EvalSymlinks(k.Dir())
	must(err)
	top := filepath.Join(base, "top")
	real := filepath.Join(top, "out")
	dest := real
	switch c.Dest {
	case 1:
		dest = filepath.Join(top, "ln")
	case 2:
		if len(c.Pre) == 0 {
			real = filepath.Join(top, "x/y/out") // not there yet
			dest = real
		}
	}
	data := encodeX(c.Arc, real)
	if c.Via == 1 {
		var p Pkg
		p.Gen.Tags = append(identityTags(), compressorTags("none", false)...)
		sortTags(p.Gen.Tags)
		data = p.BuildWith(data).All
	}
	in := filepath.Join(base, "in")
	writeFile(in, data)
	outside := map[string]TNode{}
	cmd := FaultCmd{Op: "extract", In: in, X: &XChild{Via: c.Via, Dest: dest}}
	calls := 0
	var want map[string]TNode
	k.NTIf(len(c.Arc) > 0)
	k.Label(extractErrnos[c.Errno].Error())
	for n := 0; n == 0 || n <= calls; n++ {
		removeAll(top)
		must(os.Mkdir(top, 0755))
		if c.Dest == 0 || c.Dest == 1 || len(c.Pre) > 0 {
			must(os.Mkdir(real, 0755))
		}
		must(os.Symlink("out", filepath.Join(top, "ln")))
		must(os.Mkdir(filepath.Join(top, "beside"), 0755))
		writeFile(filepath.Join(top, "beside/file"), []byte("precious"))
		v := &vfs{root: vdir(-1), real: real}
		v.prepare(c.Pre)
		if n == 0 {
			outside = scanTree(filepath.Join(top, "beside"), nil)
		}
		run := runFault(cmd, faultPlan{At: n, Errno: extractErrnos[c.Errno]})
		if n == 0 {
			if run.Err != nil {
				// conflicts between members and the like
				k.Label("fails by itself")
				return nil
			}
			calls, want = run.Calls, scanTree(real, nil)
			continue
		}
		if run.Hit == "" {
			break
		}
		if run.Hit == "-" {
			if run.Err != nil {
				return errf("call %d left alone: %v", n, run.Err)
			}
			continue
		}
		k.Count("calls that failed", 1)
		what := fmt.Sprintf("call %d of %d, %s, failed (%v)", n, calls, run.Hit, extractErrnos[c.Errno])
		if run.Err == nil {
			if err := sameTree(scanTree(real, nil), want); err != nil {
				return errf("%s: success was reported, but %v", what, err)
			}
			if run.Lost {
				return errf("%s: success was reported", what)
			}
		} else if strings.HasPrefix(run.Err.Error(), "panic: ") {
			return errf("%s: %v", what, run.Err)
		}
		after := scanTree(filepath.Join(top, "beside"), nil)
		if err := sameTree(after, outside); err != nil {
			return errf("%s: beside the destination, %v", what, err)
		}
	}
	return nil
}

// removeAll removes dir whatever the permissions in it.
func removeAll(dir string) {
	if os.RemoveAll(dir) == nil {
		return
	}
	_ = filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			_ = os.Chmod(p, 0700)
		}
		return nil
	})
	must(os.RemoveAll(dir))
}

// The disk is full after some bytes of one file.
type c31FullCase struct {
	Arc   []XEnt `json:"arc"`
	Via   int    `json:"via"`
	Comp  string `json:"comp"`
	Limit int    `json:"limit"`
}

func genC31Full(t *rapid.T) c31FullCase {
	x := genC18Tidy(t)
	return c31FullCase{Arc: x.Arcs[0], Via: x.Via, Comp: x.Comp, Limit: rapid.IntRange(1, 3000).Draw(t, "limit")}
}

func checkC31Full(k *K, c c31FullCase) error {
	warmPoller()
	dest := filepath.Join(k.Dir(), "out")
	data := encodeX(c.Arc, dest)
	big := 0
	for _, e := range c.Arc {
		if e.Mode&^07777 == mReg {
			big = max(big, len(e.Data.Bytes()))
		}
	}
	if big == 0 {
		return nil
	}
	limit := c.Limit % (big + 1)
	var f func() error
	if c.Via == 0 {
		f = func() error { return cpio.Extract(bytes.NewReader(data), dest) }
	} else {
		var p Pkg
		p.Gen.Tags = append(identityTags(), compressorTags(c.Comp, true)...)
		sortTags(p.Gen.Tags)
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(p.BuildWith(compress(c.Comp, data, 1)).All))
		must(err)
		f = func() error { return rpm.ExpandPayload(dest) }
	}
	var err error
	withLimit(syscall.RLIMIT_FSIZE, uint64(limit), func() { err = f() })
	k.NTIf(limit < big)
	if err == nil && limit < big {
		return errf("files could be written up to byte %d, one has %d, and success was reported", limit, big)
	}
	if err != nil && limit > big {
		return errf("extraction failed: %v", err)
	}
	return nil
}

// ---------------------------------------------------------------- C19

// HEnt is a member of a hostile archive. @ stands for the absolute path of the
// directory that holds both the destination and its surroundings.
type HEnt struct {
	Name  S      `json:"name"`
	Mode  uint32 `json:"mode"`
	Data  Blob   `json:"data"`
	Link  S      `json:"link,omitempty"`
	Nlink uint32 `json:"nlink,omitempty"`
	Ino   uint32 `json:"ino,omitempty"`
}

type c19Case struct {
	Ents []HEnt `json:"ents"`
	More []HEnt `json:"more,omitempty"` // a second archive
	Pre  []XPre `json:"pre,omitempty"`  // @ as above
	Dest int    `json:"dest"`
	Via  int    `json:"via"`
}

var hostileTargets = []string{"../outside", "@/outside", "@/outside/file", "../outside/file", "../outside/empty", "../outside/dir", "..", "../..", "@", "/", "../destx", "@/destx", "../outside/fifo", "../outside/missing", "@/outside/new/deep", "l1", "l2", "a", ".", "a/../..", "./../outside", "@/dest/../outside", "l1/../../outside", "../dest/../outside/dir"}

func genHName(t *rapid.T, links []string) S {
	tail := rapid.SampledFrom([]string{"file", "dir", "dir/f", "new", "new/deep/er", "fifo", "outside/file", "outside/new", "outside/dir/f", "destx/file", "."}).Draw(t, "tail")
	switch rapid.IntRange(0, 9).Draw(t, "namekind") {
	case 0:
		return S(rapid.SampledFrom([]string{"../outside/", "../../top/outside/", "@/outside/", "./../outside/", "a/../../outside/", "/../outside/", "..//outside/", "../destx/", "../../../../../../../../../..@/outside/", "./@/outside/", "a/b/../../../outside/", "./.././../top/outside/", "..\\outside\\", "../outside/./"}).Draw(t, "dots") + tail)
	case 1:
		return S(rapid.SampledFrom([]string{"..", ".", "./", "/", "../", "../..", "../../..", "../outside", "", "a/../..", "/..", "./..", "..//", "../."}).Draw(t, "bare"))
	case 2, 3, 4, 5:
		return S(rapid.SampledFrom(links).Draw(t, "through") + "/" + tail)
	case 6, 7:
		return S(rapid.SampledFrom(links).Draw(t, "as"))
	case 8:
		return S(rapid.SampledFrom(links).Draw(t, "dotted") + "/../" + rapid.SampledFrom(links).Draw(t, "dotted2") + "/" + tail)
	}
	return genXPath(t, "plain")
}

func genHEnts(t *rapid.T, n int, links []string) []HEnt {
	var out []HEnt
	for i := rapid.IntRange(1, n).Draw(t, "nents"); i > 0; i-- {
		e := HEnt{Nlink: 1, Ino: uint32(rapid.IntRange(1, 3).Draw(t, "ino"))}
		perm := uint32(rapid.SampledFrom([]int{0644, 0755, 0777, 06755, 0}).Draw(t, "perm"))
		switch rapid.IntRange(0, 9).Draw(t, "type") {
		case 0, 1, 2:
			e.Mode, e.Link = mLnk|0777, S(rapid.SampledFrom(hostileTargets).Draw(t, "target"))
			e.Name = S(rapid.SampledFrom(links).Draw(t, "linkname"))
			if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
				e.Name = genHName(t, links)
			}
		case 3, 4, 5:
			e.Mode, e.Data, e.Name = mReg|perm, Blob{Kind: "lit", Lit: "pwned"}, genHName(t, links)
		case 6:
			// hard links: names without contents first, or an odd one out
			e.Mode, e.Nlink, e.Name = mReg|perm, uint32(rapid.IntRange(2, 3).Draw(t, "nlink")), genHName(t, links)
			if rapid.Bool().Draw(t, "contents") {
				e.Data = Blob{Kind: "lit", Lit: "pwned"}
			}
		case 7:
			e.Mode, e.Name = mDir|perm, genHName(t, links)
		case 8:
			e.Mode, e.Name = mFifo|perm, genHName(t, links)
		default:
			e.Mode, e.Name = rapid.SampledFrom([]uint32{mChr, mBlk, mSock, 0, 0170000}).Draw(t, "oddmode")|perm, genHName(t, links)
		}
		out = append(out, e)
	}
	return out
}

func genC19(t *rapid.T) c19Case {
	links := []string{"l1", "l2", "a", "l1/a", "a/l2", "./l1"}
	c := c19Case{Dest: rapid.IntRange(0, 6).Draw(t, "dest"), Via: rapid.IntRange(0, 3).Draw(t, "via")}
	c.Ents = genHEnts(t, 6, links)
	if rapid.IntRange(0, 2).Draw(t, "two") == 0 {
		c.More = genHEnts(t, 4, links)
	}
	for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "npre"); i > 0; i-- {
		p := XPre{Path: S(rapid.SampledFrom([]string{"l1", "l2", "a", "a/l2", "file", "dir", "l1/file"}).Draw(t, "prename")), Kind: rapid.SampledFrom([]string{"link", "link", "hard", "dir", "reg", "fifo"}).Draw(t, "prekind")}
		switch p.Kind {
		case "link":
			p.Link = S(rapid.SampledFrom(hostileTargets).Draw(t, "pretarget"))
		case "hard":
			p.Link = S(rapid.SampledFrom([]string{"outside/file", "outside/empty", "outside/dir/f", "destx/file"}).Draw(t, "prehard"))
		case "reg":
			p.Data = Blob{Kind: "lit", Lit: "old"}
		}
		c.Pre = append(c.Pre, p)
	}
	return c
}

// genC19Pairs: one link to somewhere outside, in place before or made by the
// archive, and one member at, below or beside it, so that every way of making a
// member meets every kind of link with nothing to stop the extraction first.
func genC19Pairs(t *rapid.T) c19Case {
	c := c19Case{Dest: rapid.IntRange(0, 6).Draw(t, "dest"), Via: rapid.IntRange(0, 3).Draw(t, "via")}
	at := rapid.SampledFrom([]string{"l1", "a/l2", "a"}).Draw(t, "at")
	target := S(rapid.SampledFrom([]string{"../outside/file", "@/outside/file", "../outside/missing", "@/outside/missing", "../outside/dir", "@/outside/dir", "../outside", "@/outside/new/deep", "@/outside/fifo", "../destx", "..", "/", "@/outside/link"}).Draw(t, "target"))
	if at == "a/l2" && strings.HasPrefix(string(target), "..") {
		target = "../" + target
	}
	switch rapid.IntRange(0, 3).Draw(t, "setup") {
	case 0:
		c.Ents = append(c.Ents, HEnt{Name: S(at), Mode: mLnk | 0777, Nlink: 1, Ino: 9, Link: target})
	case 1:
		c.Pre = append(c.Pre, XPre{Path: S(at), Kind: "hard", Link: S(rapid.SampledFrom([]string{"outside/file", "outside/empty", "outside/dir/f", "destx/file"}).Draw(t, "prehard"))})
	default:
		c.Pre = append(c.Pre, XPre{Path: S(at), Kind: "link", Link: target})
	}
	name := at
	if rapid.IntRange(0, 2).Draw(t, "where") == 0 {
		name += "/" + rapid.SampledFrom([]string{"file", "f", "new", "new/deep", "."}).Draw(t, "child")
	}
	one := func(mode uint32, nlink uint32, name, data string) {
		c.Ents = append(c.Ents, HEnt{Name: S(name), Mode: mode, Nlink: nlink, Ino: 1, Data: Blob{Kind: "lit", Lit: S(data)}})
	}
	perm := uint32(rapid.SampledFrom([]int{0644, 0755, 0777, 06755, 0}).Draw(t, "perm"))
	switch rapid.IntRange(0, 8).Draw(t, "attack") {
	case 0:
		one(mReg|perm, 1, name, "pwned")
	case 1:
		one(mReg|perm, 1, name, "")
	case 2: // an empty file with several names
		one(mReg|perm, 2, name, "")
		if rapid.Bool().Draw(t, "second") {
			one(mReg|perm, 2, "second", "")
		}
	case 3:
		one(mReg|perm, 2, "first", "")
		one(mReg|perm, 2, name, "")
	case 4:
		one(mReg|perm, 2, name, "")
		one(mReg|perm, 2, "last", "pwned")
	case 5:
		one(mReg|perm, 2, "first", "")
		one(mReg|perm, 2, name, "pwned")
	case 6:
		one(mDir|perm, 1, name, "")
	case 7:
		one(mFifo|perm, 1, name, "")
	default:
		c.Ents = append(c.Ents, HEnt{Name: S(name), Mode: mLnk | 0777, Nlink: 1, Ino: 1, Link: "elsewhere"})
	}
	if rapid.IntRange(0, 2).Draw(t, "after") == 0 {
		// a second archive over the first
		c.More = c.Ents
	}
	return c
}

func (e HEnt) cent(top string) CEnt {
	exp := func(s S) S { return S(strings.ReplaceAll(string(s), "@", top)) }
	c := CEnt{Name: exp(e.Name), Mode: e.Mode, Nlink: e.Nlink, Ino: e.Ino, Data: e.Data}
	if e.Mode&^07777 == mLnk {
		c.Data = Blob{Kind: "lit", Lit: exp(e.Link)}
	}
	return c
}

func checkC19(k *K, c c19Case) error {
	base, err := filepath.EvalSymlinks(k.Dir())
	must(err)
	// some levels between the scratch directory and what ../../.. can reach
	top := filepath.Join(base, "1/2/3/top")
	dest := filepath.Join(top, "dest")
	for _, d := range []string{"outside/dir", "outside/ro", "destx"} {
		must(os.MkdirAll(filepath.Join(top, d), 0755))
	}
	for _, f := range []string{"outside/file", "outside/dir/f", "destx/file", "file"} {
		writeFile(filepath.Join(top, f), []byte("precious "+f))
	}
	writeFile(filepath.Join(top, "outside/empty"), nil)
	must(syscall.Mkfifo(filepath.Join(top, "outside/fifo"), 0644))
	must(os.Symlink("file", filepath.Join(top, "outside/link")))
	exists := c.Dest != 1 && c.Dest != 2 || len(c.Pre) > 0
	realDest := dest
	if c.Dest == 5 {
		realDest = filepath.Join(top, "destreal")
		must(os.Symlink("destreal", dest))
	}
	if exists {
		must(os.Mkdir(realDest, 0755))
	}
	for _, p := range c.Pre {
		at := filepath.Join(realDest, string(p.Path))
		// no prior content lies beyond a symbolic link
		if fi, err := os.Lstat(filepath.Dir(at)); err == nil && !fi.IsDir() {
			continue
		}
		must(os.MkdirAll(filepath.Dir(at), 0755))
		if _, err := os.Lstat(at); err == nil {
			continue
		}
		switch p.Kind {
		case "link":
			must(os.Symlink(strings.ReplaceAll(string(p.Link), "@", top), at))
		case "hard":
			must(os.Link(filepath.Join(top, string(p.Link)), at))
		case "dir":
			must(os.Mkdir(at, 0755))
		case "reg":
			writeFile(at, p.Data.Bytes())
		case "fifo":
			must(syscall.Mkfifo(at, 0644))
		}
	}
	cwd, arg := top, dest
	switch c.Dest {
	case 2, 3:
		arg = "dest"
	case 4:
		cwd, arg = realDest, "."
	case 6:
		arg = "outside/../dest/"
	}
	// a hard link shares contents, times and all with its other names: changing
	// these through the destination is what must not happen
	skip := map[string]bool{realDest: true}
	before := scanTree(base, skip)
	k.Label(fmt.Sprintf("dest form %d", c.Dest))
	var errs []error
	for i, ents := range [][]HEnt{c.Ents, c.More} {
		if i > 0 && ents == nil {
			break
		}
		var es []CEnt
		for _, e := range ents {
			es = append(es, e.cent(top))
		}
		arch, _ := encodeCpio(es, 0)
		var got error
		inDir(cwd, func() {
			if c.Via > 0 {
				got = cpio.Extract(bytes.NewReader(arch), arg)
				return
			}
			var p Pkg
			p.Gen.Tags = append(identityTags(), compressorTags("gzip", true)...)
			sortTags(p.Gen.Tags)
			var rpm *rpmutils.Rpm
			if rpm, got = rpmutils.ReadRpm(bytes.NewReader(p.BuildWith(compress("gzip", arch, 1)).All)); got == nil {
				got = rpm.ExpandPayload(arg)
			}
		})
		errs = append(errs, got)
	}
	k.LabelIf(errs[0] != nil, "refused")
	k.LabelIf(errs[0] == nil, "extracted")
	k.NTIf(c.hostile())
	k.LabelIf(c.hostile(), "attack")
	after := scanTree(base, skip)
	for p, b := range before {
		a, ok := after[p]
		if !ok {
			return errf("%q was removed (extraction: %v)", p, errs)
		}
		b.Nlink, a.Nlink = 0, 0
		if p == "1/2/3/top" && !exists {
			b.Mtime, a.Mtime = 0, 0 // the destination was created in it
		}
		if a != b {
			return errf("%q outside of the destination was changed: %+v, was %+v (extraction: %v)", p, a, b, errs)
		}
	}
	for p, a := range after {
		if _, ok := before[p]; !ok {
			return errf("%s %q was created outside of the destination (extraction: %v)", a.Type, p, errs)
		}
	}
	return nil
}

// hostile: something would go wrong in an extractor that joins names to the
// destination and follows symbolic links and hard links.
func (c c19Case) hostile() bool {
	links := map[string]bool{}
	for _, p := range c.Pre {
		if p.Kind == "link" || p.Kind == "hard" {
			links[string(p.Path)] = true
		}
	}
	for _, es := range [][]HEnt{c.Ents, c.More} {
		for _, e := range es {
			n := strings.TrimPrefix(path.Clean(string(e.Name)), "/")
			if n == ".." || strings.HasPrefix(n, "../") {
				return true
			}
			for d := n; ; d = path.Dir(d) {
				if links[d] {
					return true
				}
				if d == "." || d == "/" {
					break
				}
			}
			if e.Mode&^07777 == mLnk {
				links[n] = true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C25

// patReader yields literal parts and huge parts that are made up on the fly.
type patPart struct {
	lit  []byte
	size int64 // of a made-up part
}

type patReader struct {
	parts []patPart
	pos   int64 // within the first part
}

const patPeriod = 65521

var patBlock = func() []byte {
	b := make([]byte, 4*patPeriod)
	p := prng(77)
	for i := 0; i < patPeriod; i++ {
		b[i] = byte(p.next() >> 32)
	}
	for i := patPeriod; i < len(b); i++ {
		b[i] = b[i-patPeriod]
	}
	return b
}()

// patAt is what a made-up part holds from off on, at most n bytes.
func patAt(off int64, n int) []byte {
	s := int(off % patPeriod)
	return patBlock[s:min(len(patBlock), s+n)]
}

func (r *patReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(r.parts) > 0 {
		x := r.parts[0]
		n := 0
		if x.lit != nil {
			n = copy(p, x.lit[r.pos:])
		} else if left := x.size - r.pos; left > 0 {
			n = copy(p, patAt(r.pos, int(min(left, int64(len(p))))))
		}
		r.pos += int64(n)
		if n > 0 {
			return n, nil
		}
		r.parts, r.pos = r.parts[1:], 0
	}
	return 0, io.EOF
}

type c25File struct {
	Size int64 `json:"size"`
	Plan int64 `json:"plan"` // 0 skip, -1 read it all, n read n bytes
	Buf  int   `json:"buf"`
	Link bool  `json:"link,omitempty"` // has its contents under the next name
}

type c25Case struct {
	Files []c25File `json:"files"`
	API   int       `json:"api"` // 0 cpio.Reader with sizes, 1 PayloadReaderExtended, 2 cpio.Reader on newc, 3 PayloadReader on newc, 4 CpioStream on newc
	Both  bool      `json:"both"`
}

func genC25(t *rapid.T) c25Case {
	c := c25Case{API: rapid.IntRange(0, 4).Draw(t, "api"), Both: rapid.Bool().Draw(t, "both")}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Files = append(c.Files, c25File{Size: int64(rapid.IntRange(0, 5000).Draw(t, "small")), Plan: -1, Buf: rapid.SampledFrom([]int{100, 4096}).Draw(t, "smallbuf")})
	}
	big := rapid.IntRange(0, n-1).Draw(t, "big")
	edges := []int64{1 << 31, 1 << 32, 1<<32 + 1<<31, 5 << 30}
	if c.API >= 2 {
		edges = []int64{1 << 31, 1<<32 - 1, 1<<32 - 8, 3 << 30}
	}
	s := rapid.SampledFrom(edges).Draw(t, "edge") + int64(rapid.IntRange(-6, 6).Draw(t, "off"))
	if c.API >= 2 {
		s = min(s, 1<<32-1)
	}
	f := c25File{Size: s, Buf: rapid.SampledFrom([]int{1 << 16, 1 << 20, 99991}).Draw(t, "buf")}
	switch rapid.IntRange(0, 3).Draw(t, "plan") {
	case 0:
	case 1:
		f.Plan = int64(rapid.IntRange(1, 10000).Draw(t, "part"))
	case 2:
		f.Plan = max(1, s-int64(rapid.IntRange(1, 9).Draw(t, "lastpart")))
	default:
		f.Plan = -1
	}
	if c.API == 4 {
		// this one has no way to read contents
		f.Plan = 0
		for i := range c.Files {
			c.Files[i].Plan = 0
		}
	}
	c.Files[big] = f
	if c.API == 1 && big > 0 && rapid.Bool().Draw(t, "linked") {
		c.Files[big-1] = c25File{Size: s, Link: true}
	}
	return c
}

func checkC25(k *K, c c25Case) error {
	var src patReader
	lit := func(b []byte) { src.parts = append(src.parts, patPart{lit: b}) }
	stripped := c.API <= 1
	k.Label([]string{"NewReaderWithSizes", "PayloadReaderExtended", "newc Reader", "newc PayloadReader", "newc CpioStream"}[c.API])
	var specs []FileSpec
	pos := int64(0)
	var sizes []int64
	for i, f := range c.Files {
		size := f.Size
		if f.Link {
			size = 0
		}
		ino := uint32(i + 1)
		if i > 0 && c.Files[i-1].Link {
			ino = uint32(i)
		}
		specs = append(specs, FileSpec{Dir: "/d/", Base: S(fmt.Sprint("f", i)), Mode: 0100644, Size: uint64(f.Size), Dev: 1, Ino: ino, User: "root", Group: "root"})
		sizes = append(sizes, size)
		var h []byte
		if stripped {
			h = []byte(fmt.Sprintf("07070X%08x", i))
		} else {
			e := CEnt{Name: S(fmt.Sprint("./d/f", i)), Mode: 0100644, Nlink: 1, Ino: ino}
			h = append(newcHeader(e, uint32(size), uint32(len(e.Name)+1)), (e.Name + "\x00")...)
			h = append(h, make([]byte, pad4(int(pos%4)+len(h)))...)
		}
		lit(h)
		pos += int64(len(h))
		src.parts = append(src.parts, patPart{size: size})
		pos += size
		if p := pad4(int(pos % 4)); p > 0 {
			lit(make([]byte, p))
			pos += int64(p)
		}
	}
	tr, _ := encodeCpio(nil, 0)
	lit(tr)
	if c.API == 1 || c.API == 3 {
		var p Pkg
		p.Gen.Tags = append(identityTags(), fileTags(specs, FileEnc{Long: true, Both: c.Both})...)
		p.Gen.Tags = append(p.Gen.Tags, compressorTags("uncompressed", true)...)
		sortTags(p.Gen.Tags)
		b := p.BuildWith(nil)
		src.parts = append([]patPart{{lit: b.All}}, src.parts...)
	}
	var failed error
	k.NT()
	used := allocDuring(func() { failed = c.consume(&src, sizes) })
	if failed != nil {
		return failed
	}
	if used > 64<<20 {
		return errf("%d MiB allocated", used>>20)
	}
	return nil
}

// Extracting a file of more than 2 GiB.
type c25OutCase struct {
	Size int64 `json:"size"`
	Pkg  bool  `json:"pkg"`
}

func checkC25Out(k *K, c c25OutCase) error {
	var fs syscall.Statfs_t
	dir := k.Dir()
	must(syscall.Statfs(dir, &fs))
	if int64(fs.Bavail)*fs.Bsize < 4*c.Size {
		k.Label("no room on the disk")
		return nil
	}
	k.NT()
	e := CEnt{Name: "./big", Mode: 0100644, Nlink: 1, Ino: 1}
	h := append(newcHeader(e, uint32(c.Size), uint32(len(e.Name)+1)), (e.Name + "\x00")...)
	h = append(h, make([]byte, pad4(len(h)))...)
	small, _ := encodeCpio([]CEnt{{Name: "./small", Mode: 0100644, Nlink: 1, Ino: 2, Data: Blob{Kind: "lit", Lit: "after it"}}}, 0)
	src := &patReader{parts: []patPart{{lit: h}, {size: c.Size}, {lit: make([]byte, pad4(int(c.Size%4)))}, {lit: small}}}
	out := filepath.Join(dir, "out")
	must(os.Mkdir(out, 0755))
	var err error
	used := allocDuring(func() {
		if c.Pkg {
			var p Pkg
			p.Gen.Tags = append(identityTags(), compressorTags("uncompressed", true)...)
			sortTags(p.Gen.Tags)
			src.parts = append([]patPart{{lit: p.BuildWith(nil).All}}, src.parts...)
			var rpm *rpmutils.Rpm
			if rpm, err = rpmutils.ReadRpm(src); err == nil {
				err = rpm.ExpandPayload(out)
			}
		} else {
			err = cpio.Extract(src, out)
		}
	})
	if err != nil {
		return errf("extraction: %v", err)
	}
	if used > 64<<20 {
		return errf("%d MiB allocated", used>>20)
	}
	if b, err := os.ReadFile(filepath.Join(out, "small")); err != nil || string(b) != "after it" {
		return errf("the member behind is %q, %v", b, err)
	}
	f, err := os.Open(filepath.Join(out, "big"))
	if err != nil {
		return errf("%v", err)
	}
	defer f.Close()
	want := &patReader{parts: []patPart{{size: c.Size}}}
	a, b := make([]byte, patPeriod), make([]byte, patPeriod)
	for off := int64(0); ; {
		n, err := io.ReadFull(f, a)
		m, _ := io.ReadFull(want, b)
		if n != m || !bytes.Equal(a[:n], b[:m]) {
			return errf("the contents differ at offset %d or up to %d bytes on (%d and %d bytes)", off, patPeriod, n, m)
		}
		if err != nil {
			return nil
		}
		off += int64(n)
	}
}

func (c c25Case) consume(src io.Reader, sizes []int64) error {
	var next func(i int) error
	var rd io.Reader
	hdr := func(i int, h *cpio.Cpio_newc_header, err error) error {
		if err != nil {
			return err
		}
		if h.Filesize64() != sizes[i] {
			return errf("Filesize64 is %d, want %d", h.Filesize64(), sizes[i])
		}
		if c.API >= 2 && h.Filename() != fmt.Sprint("./d/f", i) {
			return errf("name is %q", h.Filename())
		}
		if c.API < 2 && h.Index() != i {
			return errf("index is %d", h.Index())
		}
		if c.API >= 2 && int64(h.Filesize()) != sizes[i] {
			return errf("Filesize is %d, want %d", h.Filesize(), sizes[i])
		}
		return nil
	}
	var rpm *rpmutils.Rpm
	var err error
	if c.API == 1 || c.API == 3 {
		if rpm, err = rpmutils.ReadRpm(src); err != nil {
			return errf("ReadRpm: %v", err)
		}
	}
	switch c.API {
	case 1:
		pr, err := rpm.PayloadReaderExtended()
		if err != nil {
			return errf("PayloadReaderExtended: %v", err)
		}
		rd = pr
		next = func(i int) error {
			fi, err := pr.Next()
			if err != nil {
				return err
			}
			if i >= len(sizes) {
				return errf("file %q after the last", fi.Name())
			}
			if fi.Name() != fmt.Sprint("/d/f", i) || fi.Size() != c.Files[i].Size || pr.IsLink() != c.Files[i].Link {
				return errf("%q of %d bytes, link %v, want %d bytes, link %v", fi.Name(), fi.Size(), pr.IsLink(), c.Files[i].Size, c.Files[i].Link)
			}
			return nil
		}
	case 4:
		cs := cpio.NewCpioStream(src)
		next = func(i int) error {
			e, err := cs.ReadNextEntry()
			if err != nil {
				return err
			}
			if e.Header.Filename() == "TRAILER!!!" {
				return io.EOF
			}
			return hdr(i, e.Header, nil)
		}
	default:
		var r *cpio.Reader
		switch c.API {
		case 0:
			r = cpio.NewReaderWithSizes(src, sizes)
		case 2:
			r = cpio.NewReader(src)
		default:
			if r, err = rpm.PayloadReader(); err != nil {
				return errf("PayloadReader: %v", err)
			}
		}
		rd = r
		next = func(i int) error {
			h, err := r.Next()
			return hdr(i, h, err)
		}
	}
	for i, f := range c.Files {
		if err := next(i); err != nil {
			return errf("member %d of %d bytes: %v", i, f.Size, err)
		}
		want := sizes[i]
		if f.Plan >= 0 {
			want = min(want, f.Plan)
		}
		if want == 0 && f.Plan >= 0 {
			continue
		}
		buf := make([]byte, max(1, f.Buf))
		for done := int64(0); f.Plan < 0 || done < want; {
			b := buf
			if f.Plan >= 0 {
				b = buf[:min(int64(len(buf)), want-done)]
			}
			n, err := rd.Read(b)
			if done+int64(n) > want {
				return errf("member %d: more than %d bytes", i, want)
			}
			for j := 0; j < n; {
				p := patAt(done+int64(j), n-j)
				if !bytes.Equal(b[j:j+len(p)], p) {
					return errf("member %d: wrong contents near %d", i, done+int64(j))
				}
				j += len(p)
			}
			done += int64(n)
			if err == io.EOF {
				if done != want {
					return errf("member %d: end after %d of %d bytes", i, done, want)
				}
				break
			}
			if err != nil {
				return errf("member %d: %v after %d bytes", i, err, done)
			}
		}
	}
	if err := next(len(c.Files)); err != io.EOF {
		return errf("after the last member: %v, want io.EOF", err)
	}
	return nil
}

// Verification and signing of big packages.
type c25SignCase struct {
	MiB  int     `json:"mib"`
	Odd  int     `json:"odd"`
	Op   int     `json:"op"` // opVerify, opVerifyKeys, opSign, opRead; 10 SignRpmFile
	Sigs int     `json:"sigs"`
	Dig  Digests `json:"dig"`
}

func genC25Sign(t *rapid.T) c25SignCase {
	c := c25SignCase{MiB: rapid.IntRange(70, 110).Draw(t, "mib"), Odd: rapid.IntRange(0, 4096).Draw(t, "odd"), Op: rapid.SampledFrom([]int{opVerify, opVerifyKeys, opSign, opRead, 10}).Draw(t, "op"),
		Sigs: rapid.IntRange(0, 2).Draw(t, "sigs"), Dig: Digests{SHA256: true, MD5: rapid.Bool().Draw(t, "md5"), PayAlgo: rapid.SampledFrom([]int{0, 8}).Draw(t, "payalgo")}}
	c.Dig.MD5 = c.Dig.MD5 || c.Dig.PayAlgo == 0
	return c
}

func checkC25Sign(k *K, c c25SignCase) error {
	payload := make([]byte, c.MiB<<20+c.Odd)
	for i := 0; i < len(payload); {
		i += copy(payload[i:], patAt(int64(i), len(payload)-i))
	}
	var p Pkg
	p.Gen.Tags = append(identityTags(), compressorTags("uncompressed", true)...)
	sortTags(p.Gen.Tags)
	p.Dig = c.Dig
	plain := p.BuildWith(payload)
	for i := 0; i < c.Sigs; i++ {
		s := SigSpec{Key: i, Hash: int(crypto.SHA256), Time: 1000000, KeyID: 1}
		p.Sig.Tags = append(p.Sig.Tags, binTag([]int32{sigRSA, sigGPG}[i], makeSig(s, plain.Gen, [][]byte{nil, payload}[i])))
	}
	b := p.BuildWith(payload)
	k.NT()
	if c.Op == 10 {
		k.Label("SignRpmFile")
	} else {
		k.Label(opNames[c.Op])
	}
	var opErr error
	dir := k.Dir()
	in, out := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "out.rpm")
	if c.Op == 10 {
		writeFile(in, b.All)
	}
	src := bytes.NewReader(b.All)
	used := allocDuring(func() {
		if c.Op == 10 {
			opErr = signFile(in, out, fixedSign)
			return
		}
		// a reader without shortcuts such as WriteTo
		_, opErr = runOp(c.Op, struct{ io.Reader }{src}, "")
	})
	if opErr != nil {
		return errf("operation on a package of %d MiB failed: %v", c.MiB, opErr)
	}
	if used > 48<<20 {
		return errf("%d MiB allocated for a package of %d MiB", used>>20, c.MiB)
	}
	if c.Op == 10 {
		got, err := os.ReadFile(out)
		must(err)
		if !bytes.HasSuffix(got, b.Payload) {
			return errf("the payload of %d MiB was not copied", c.MiB)
		}
	}
	return nil
}

func init() {
	register("C18", "random archives over a small name space (regular files, directories, symbolic links, FIFOs, hard-link groups, devices; names in several spellings) extracted once or several times to random prior states under 12 forms of the destination, against a model of the file tree; non-trivial: the model decides the outcome and at least two file types occur, or failure is required", func(x *Ctx) {
		sub(x, "tidy", subOpts{quick: 16000, thorough: 150000}, genC18Tidy, checkC18Tidy)
		sub(x, "tree", subOpts{quick: 30000, thorough: 400000}, genC18, checkC18)
	})
	register("C31", "random archives, tidy or with conflicts, extracted into a random prior state in a child process whose file system calls are intercepted: each call in turn is refused with one of five errors; plus archives whose files can be written only up to a random byte; non-trivial: the archive has members, or a file is cut off", func(x *Ctx) {
		sub(x, "calls", subOpts{quick: 240, thorough: 6000}, genC31, checkC31)
		sub(x, "full", subOpts{quick: 6000, thorough: 60000}, genC31Full, checkC31Full)
	})
	register("C19", "random hostile archives and prior states; everything around the destination is compared before and after (type, permissions, contents, times, inode); non-trivial: a name with .. or one that leads through or to a symbolic or hard link", func(x *Ctx) {
		sub(x, "hostile", subOpts{quick: 10000, thorough: 600000}, genC19, checkC19)
		sub(x, "pairs", subOpts{quick: 6000, thorough: 200000}, genC19Pairs, checkC19)
	})
	register("C25", "archives with a member of 2 to 5 GiB made up on the fly among small ones, read, partly read or skipped; packages of 70 to 110 MiB verified and signed; a member of more than 2 GiB extracted; non-trivial: all", func(x *Ctx) {
		sub(x, "huge", subOpts{quick: 160, thorough: 3000}, genC25, checkC25)
		sub(x, "stream", subOpts{quick: 48, thorough: 800}, genC25Sign, checkC25Sign)
		out := []c25OutCase{{Size: 1<<31 + 5}}
		if *optTier == "thorough" {
			out = append(out, c25OutCase{Size: 1<<32 - 3, Pkg: true}, c25OutCase{Size: 1 << 31, Pkg: true}, c25OutCase{Size: 1<<32 - 1})
		}
		each(x, "extract", subOpts{}, out, checkC25Out)
	})
}
