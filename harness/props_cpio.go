package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C14

type c14Case struct {
	Ents   []CEnt   `json:"ents"`
	Fill   byte     `json:"fill"`
	Tail   Blob     `json:"tail"` // bytes after the trailer
	Trail  CEnt     `json:"trail"`
	Chunks Chunks   `json:"chunks"`
	Plan   ReadPlan `json:"plan"`
	API    int      `json:"api"` // 0 Reader, 1 Reader with sizes, 2 CpioStream
}

func genEnts(t *rapid.T, maxN, maxData int) []CEnt {
	n := rapid.IntRange(0, maxN).Draw(t, "nents")
	var out []CEnt
	for i := 0; i < n; i++ {
		e := CEnt{Name: genCName(t)}
		if e.Name == "TRAILER!!!" {
			e.Name = "x"
		}
		e.Mode = uint32(genUint(32).Draw(t, "mode"))
		e.Ino, e.Nlink = uint32(genUint(32).Draw(t, "ino")), uint32(genUint(32).Draw(t, "nlink"))
		e.Dev = uint32(genUint(32).Draw(t, "dev"))
		for j := 0; j < 6; j++ {
			e.Meta = append(e.Meta, uint32(genUint(32).Draw(t, "meta")))
		}
		e.Upper = rapid.Bool().Draw(t, "upper")
		e.Data = genBlob(maxData).Draw(t, "data")
		out = append(out, e)
	}
	return out
}

func genC14(t *rapid.T) c14Case {
	c := c14Case{Ents: genEnts(t, 6, 300), Chunks: genStreams(true).Draw(t, "chunks")}
	c.Plan = genReadPlan(t, len(c.Ents))
	c.Fill = rapid.SampledFrom([]byte{0, 0, 0xff, '0'}).Draw(t, "fill")
	if rapid.Bool().Draw(t, "hastail") {
		c.Tail = genBlob(600).Draw(t, "tail")
	}
	c.API = rapid.IntRange(0, 2).Draw(t, "api")
	// writers differ in what the trailer's header holds: its name alone counts
	c.Trail.Nlink = 1
	if rapid.Bool().Draw(t, "oddtrailer") {
		c.Trail = CEnt{Mode: uint32(genUint(32).Draw(t, "mode")), Ino: uint32(genUint(32).Draw(t, "ino")), Nlink: uint32(genUint(2).Draw(t, "nlink")), Upper: rapid.Bool().Draw(t, "upper")}
		for j := 0; j < 6; j++ {
			c.Trail.Meta = append(c.Trail.Meta, uint32(genUint(32).Draw(t, "meta")))
		}
	}
	return c
}

func checkHdr(i int, h *cpio.Cpio_newc_header, e CEnt, size int) error {
	type row struct {
		n    string
		g, w any
	}
	for _, r := range []row{
		{"Magic", h.Magic(), "070701"}, {"Filename", h.Filename(), string(e.Name)}, {"Ino", h.Ino(), int(e.Ino)}, {"Mode", h.Mode(), int(e.Mode)},
		{"Uid", h.Uid(), int(e.meta(0))}, {"Gid", h.Gid(), int(e.meta(1))}, {"Nlink", h.Nlink(), int(e.Nlink)}, {"Mtime", h.Mtime(), int(e.meta(2))},
		{"Filesize", h.Filesize(), size}, {"Filesize64", h.Filesize64(), int64(size)}, {"Devmajor", h.Devmajor(), int(e.Dev >> 16)},
		{"Devminor", h.Devminor(), int(e.Dev & 0xffff)}, {"Rdevmajor", h.Rdevmajor(), int(e.meta(3))}, {"Rdevminor", h.Rdevminor(), int(e.meta(4))},
		{"Namesize", h.Namesize(), len(e.Name) + 1}, {"Check", h.Check(), int(e.meta(5))}, {"IsStripped", h.IsStripped(), false},
	} {
		if r.g != r.w {
			return errf("member %d: %s=%#v want %#v", i, r.n, r.g, r.w)
		}
	}
	return nil
}

func checkC14(k *K, c c14Case) error {
	arch, ex := encodeCpioT(c.Ents, c.Fill, c.Trail)
	arch = append(arch, c.Tail.Bytes()...)
	src := c.Chunks.readerOf(k, arch)
	k.LabelIf(len(c.Ents) == 0, "empty archive")
	skips := 0
	for i, b := range c.Plan.Bufs {
		if b <= 0 && b != -1 && ex[i].End > ex[i].Data {
			skips++
		}
	}
	k.LabelIf(skips > 0, "unread contents skipped")
	k.NTIf(len(c.Ents) >= 2)
	if c.API == 2 {
		cs := cpio.NewCpioStream(src)
		for i := 0; ; i++ {
			ent, err := cs.ReadNextEntry()
			if err != nil {
				return errf("entry %d: %v", i, err)
			}
			if i == len(c.Ents) {
				if ent.Header.Filename() != cpio.TRAILER {
					return errf("entry %d is %q, want the trailer", i, ent.Header.Filename())
				}
				return nil
			}
			data := c.Ents[i].Data.Bytes()
			if err := checkHdr(i, ent.Header, c.Ents[i], len(data)); err != nil {
				return err
			}
		}
	}
	var r *cpio.Reader
	if c.API == 1 {
		r = cpio.NewReaderWithSizes(src, []int64{7, 7, 7})
	} else {
		r = cpio.NewReader(src)
	}
	for i, e := range c.Ents {
		h, err := r.Next()
		if err != nil {
			return errf("Next for member %d: %v", i, err)
		}
		data := e.Data.Bytes()
		if err := checkHdr(i, h, e, len(data)); err != nil {
			return err
		}
		if err := c.Plan.follow(i, r, data); err != nil {
			return err
		}
	}
	for i := 0; i < 3; i++ {
		if h, err := r.Next(); err != io.EOF {
			return errf("Next %d after the last member: %v, %v, want io.EOF", i, h, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- packages with payloads

// PFile is a file of a package: what the header records, and what the archive holds.
type PFile struct {
	Spec  FileSpec `json:"spec"`
	Data  Blob     `json:"data"`
	Ghost bool     `json:"ghost,omitempty"` // in the header but not in the archive
}

// PayPkg is a package with a real payload.
type PayPkg struct {
	Files    []PFile `json:"files"`
	Enc      FileEnc `json:"enc"`
	Stripped bool    `json:"stripped,omitempty"`
	Comp     string  `json:"comp"`
	Members  int     `json:"members,omitempty"` // independent compressed streams
	Format   bool    `json:"format,omitempty"`  // record the payload format
	Prefix   int     `json:"prefix,omitempty"`  // archive names: 0 "./usr/x", 1 "/usr/x", 2 "usr/x" if the header name has no slash
	Fill     byte    `json:"fill,omitempty"`
	Tail     int     `json:"tail,omitempty"`  // zero bytes after the trailer
	Order    []int   `json:"order,omitempty"` // moves: member Order[i] is archived as early as its link group allows
}

// order is the archive's order of the header's files. rpm archives the names of
// a hard-linked file next to each other, wherever they are in the file list;
// within a group the order stays.
func (p PayPkg) order() []int {
	var out []int
	for i := range p.Files {
		out = append(out, i)
	}
	last := p.linkLast()
	for i, m := range p.Order {
		if len(out) == 0 {
			break
		}
		at, to := m%len(out), i%len(out)
		for at > to && last[out[at]] != last[out[at-1]] {
			out[at], out[at-1] = out[at-1], out[at]
			at--
		}
	}
	return out
}

// linkGroups returns for each file the index of the last file of its hard-link
// group (itself if it is in none).
func (p PayPkg) linkLast() []int {
	type key struct{ dev, ino uint32 }
	last := map[key]int{}
	out := make([]int, len(p.Files))
	for i := len(p.Files) - 1; i >= 0; i-- {
		f := p.Files[i].Spec
		out[i] = i
		if f.Mode&0170000 != mReg || p.Enc.NoIno || p.Enc.NoDev || f.Ino == 0 && f.Dev == 0 {
			continue
		}
		if l, ok := last[key{f.Dev, f.Ino}]; ok {
			out[i] = l
		} else {
			last[key{f.Dev, f.Ino}] = i
		}
	}
	return out
}

// contents is what the archive holds for file i.
func (p PayPkg) contents(i int, last []int) []byte {
	f := p.Files[i]
	switch f.Spec.Mode & 0170000 {
	case mReg:
		if last[i] != i {
			return nil
		}
		return f.Data.Bytes()
	case mLnk:
		return []byte(f.Spec.Link)
	}
	return nil
}

func (p PayPkg) archiveName(s FileSpec) S {
	n := s.Dir + s.Base
	if strings.HasPrefix(string(n), "/") && p.Prefix == 0 {
		return "." + n
	}
	if p.Prefix == 0 || p.Prefix == 1 {
		return n
	}
	return n
}

// archive encodes the payload archive; idx maps members to header files.
func (p PayPkg) archive() (arch []byte, ex []Extent, idx []int) {
	last := p.linkLast()
	count := map[int]int{}
	for i := range p.Files {
		count[last[i]]++
	}
	if p.Stripped {
		var es []SEnt
		for _, i := range p.order() {
			f := p.Files[i]
			if f.Ghost {
				continue
			}
			es = append(es, SEnt{Index: i, Data: Blob{Kind: "lit", Lit: S(p.contents(i, last))}})
			idx = append(idx, i)
		}
		arch, ex = encodeStripped(es, p.Fill)
	} else {
		var es []CEnt
		for _, i := range p.order() {
			f := p.Files[i]
			if f.Ghost {
				continue
			}
			es = append(es, CEnt{Name: p.archiveName(f.Spec), Mode: f.Spec.Mode, Ino: f.Spec.Ino, Dev: f.Spec.Dev, Nlink: uint32(count[last[i]]),
				Data: Blob{Kind: "lit", Lit: S(p.contents(i, last))}, Meta: []uint32{0, 0, f.Spec.Mtime}})
			idx = append(idx, i)
		}
		arch, ex = encodeCpio(es, p.Fill)
	}
	arch = append(arch, make([]byte, p.Tail)...)
	return
}

// specs are the header's file records, with sizes that match the contents.
func (p PayPkg) specs() []FileSpec {
	var out []FileSpec
	last := p.linkLast()
	for i, f := range p.Files {
		s := f.Spec
		switch s.Mode & 0170000 {
		case mReg:
			// every name of a hard-linked file records its full size
			s.Size = uint64(len(p.Files[last[i]].Data.Bytes()))
		case mLnk:
			s.Size = uint64(len(s.Link))
		}
		out = append(out, s)
	}
	return out
}

func (p PayPkg) pkg() Pkg {
	var g Pkg
	g.Gen.Tags = append(identityTags(), fileTags(p.specs(), p.Enc)...)
	g.Gen.Tags = append(g.Gen.Tags, compressorTags(p.Comp, p.Format)...)
	sortTags(g.Gen.Tags)
	g.Dig = Digests{SHA256: true, MD5: true, PayAlgo: 8}
	return g
}

// build encodes the package around an encoded archive.
func (p PayPkg) build(arch []byte) *Built {
	return p.pkg().BuildWith(compress(p.Comp, arch, p.Members))
}

func genPayPkg(t *rapid.T, maxFiles, maxData int, comps []string) PayPkg {
	p := PayPkg{Comp: rapid.SampledFrom(comps).Draw(t, "comp"), Members: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "members"), Format: rapid.Bool().Draw(t, "format"),
		Stripped: rapid.Bool().Draw(t, "stripped"), Prefix: rapid.IntRange(0, 1).Draw(t, "prefix"), Fill: rapid.SampledFrom([]byte{0, 0, 0x20}).Draw(t, "fill")}
	p.Tail = rapid.SampledFrom([]int{0, 0, 3, 300}).Draw(t, "tail")
	p.Enc = FileEnc{OldNames: rapid.IntRange(0, 2).Draw(t, "old") == 0, Long: rapid.Bool().Draw(t, "long"), NoDev: rapid.IntRange(0, 7).Draw(t, "nodev") == 0, NoIno: rapid.IntRange(0, 7).Draw(t, "noino") == 0}
	n := rapid.IntRange(0, maxFiles).Draw(t, "nfiles")
	seen := map[S]bool{}
	wide := rapid.IntRange(0, 2).Draw(t, "wide") == 0 // numbers that use all of their bits
	for i := 0; i < n; i++ {
		var f PFile
		s := &f.Spec
		s.Dir = rapid.SampledFrom(dirPool).Draw(t, "dir")
		s.Base = S(rapid.StringMatching(`\.?[a-zA-Z0-9_+~-][a-zA-Z0-9._+~ -]{0,8}`).Draw(t, "base"))
		if seen[s.Dir+s.Base] {
			continue
		}
		seen[s.Dir+s.Base] = true
		s.Mode = rapid.SampledFrom([]uint32{mReg, mReg, mReg, mReg, mReg, mReg, mDir, mLnk, mLnk, mFifo, mChr, mBlk, mSock}).Draw(t, "type") | uint32(rapid.IntRange(0, 07777).Draw(t, "perm"))
		s.Mtime = uint32(genUint(32).Draw(t, "mtime"))
		s.Flags = uint32(genUint(7).Draw(t, "flags"))
		s.User, s.Group = "root", S(rapid.SampledFrom([]string{"root", "wheel"}).Draw(t, "group"))
		switch s.Mode & 0170000 {
		case mReg:
			f.Data = genBlob(maxData).Draw(t, "data")
			s.Digest = S(rapid.StringMatching(`[0-9a-f]{8}`).Draw(t, "digest"))
			// few inode and device numbers, so that groups form, also across devices
			s.Ino = uint32(rapid.SampledFrom([]int{1, 1, 2, 3, 0}).Draw(t, "ino"))
			s.Dev = uint32(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "dev"))
			if wide {
				s.Ino |= 1 << rapid.SampledFrom([]int{0, 0, 8, 16, 24, 31}).Draw(t, "inobit")
				s.Dev |= uint32(rapid.SampledFrom([]int{0, 0, 0, 0, 0x100, 0x10000, 0x80000000}).Draw(t, "devbit"))
			}
			if s.Ino == 0 {
				// an inode number of zero means none is known
				s.Dev = 0
			}
		case mLnk:
			s.Link = S(rapid.StringMatching(`[a-z./]{1,20}`).Draw(t, "link"))
			s.Ino = uint32(rapid.IntRange(0, 9).Draw(t, "ino"))
		default:
			s.Ino = uint32(rapid.IntRange(0, 9).Draw(t, "ino"))
			// what is recorded is not in the payload
			s.Size = uint64(rapid.SampledFrom([]int{0, 0, 4096, 6, 13}).Draw(t, "isize"))
		}
		p.Files = append(p.Files, f)
	}
	if rapid.IntRange(0, 3).Draw(t, "onegroup") == 0 {
		// most regular files are names of one
		for i := range p.Files {
			if s := &p.Files[i].Spec; s.Mode&0170000 == mReg && i%4 != 3 {
				s.Ino, s.Dev = 7, 1
			}
		}
	}
	if p.Enc.NoIno || p.Enc.NoDev {
		// without both arrays there is nothing to tie links together by: every
		// file stands alone
		for i := range p.Files {
			p.Files[i].Spec.Dev = 0
			p.Files[i].Spec.Ino = uint32(1000 + i)
			if p.Enc.NoIno {
				p.Files[i].Spec.Ino = 0
			}
		}
	}
	// ghosts: files in no link group
	last := p.linkLast()
	inGroup := map[int]int{}
	for i := range p.Files {
		inGroup[last[i]]++
	}
	for i := range p.Files {
		if inGroup[last[i]] == 1 && rapid.IntRange(0, 5).Draw(t, "ghost") == 0 {
			p.Files[i].Ghost = true
		}
	}
	return p
}

// Many members, and large ones.
type c14LargeCase struct {
	N    int      `json:"n"`
	Seed uint64   `json:"seed"`
	Big  []int    `json:"big"` // sizes of members among them
	API  int      `json:"api"`
	Plan ReadPlan `json:"plan"`
}

func genC14Large(t *rapid.T) c14LargeCase {
	c := c14LargeCase{N: rapid.SampledFrom([]int{0, 1, 3, 300, 4096, 66000}).Draw(t, "n"), Seed: uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed")), API: rapid.IntRange(0, 2).Draw(t, "api")}
	for i := rapid.IntRange(0, 3).Draw(t, "nbig"); i > 0; i-- {
		c.Big = append(c.Big, max(0, rapid.SampledFrom([]int{4096, 32 << 10, 64 << 10, 1 << 20, 3 << 20}).Draw(t, "big")+rapid.IntRange(-5, 5).Draw(t, "more")))
	}
	c.Plan = genReadPlan(t, 6)
	return c
}

func checkC14Large(k *K, c c14LargeCase) error {
	r := prng(c.Seed)
	x := c14Case{API: c.API, Trail: CEnt{Nlink: 1}}
	for i := 0; i < c.N+len(c.Big); i++ {
		n := r.next()
		e := CEnt{Name: S(fmt.Sprintf("d%d/%x", n%5, n>>40)), Mode: mReg | uint32(n>>8)&0777, Ino: uint32(i), Nlink: 1, Data: Blob{Kind: "rand", N: int(n >> 20 % 9), Seed: n}}
		if i < len(c.Big) {
			e.Data.N = c.Big[i]
		}
		x.Ents = append(x.Ents, e)
		if i < len(c.Plan.Bufs) {
			x.Plan.Bufs, x.Plan.Zero = append(x.Plan.Bufs, c.Plan.Bufs[i]), append(x.Plan.Zero, c.Plan.Zero[i])
		} else {
			x.Plan.Bufs, x.Plan.Zero = append(x.Plan.Bufs, -1), append(x.Plan.Zero, false)
		}
	}
	k.LabelIf(c.N > 1<<16, "more than 64 Ki members")
	k.LabelIf(len(c.Big) > 0, "large members")
	return checkC14(k, x)
}

// ---------------------------------------------------------------- C15

type c15Case struct {
	Pkg    PayPkg   `json:"pkg"`
	Chunks Chunks   `json:"chunks"`
	Plan   ReadPlan `json:"plan"`
}

func genC15(t *rapid.T) c15Case {
	c := c15Case{Pkg: genPayPkg(t, 7, 300, []string{"uncompressed", "none", "gzip", "zstd", "lzma", "xz", "bzip2"}), Chunks: genStreams(false).Draw(t, "chunks")}
	c.Plan = genReadPlan(t, len(c.Pkg.Files)+1)
	if rapid.IntRange(0, 3).Draw(t, "rootdir") == 0 {
		c.Pkg.Files = append(c.Pkg.Files, PFile{Spec: FileSpec{Dir: "/", Mode: mDir | 0555, User: "root", Group: "root", Ino: uint32(rapid.IntRange(0, 9).Draw(t, "rootino"))}})
	}
	if rapid.Bool().Draw(t, "reorder") {
		c.Pkg.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 1, 4).Draw(t, "order")
	}
	return c
}

// checkPayload reads a package's payload through PayloadReaderExtended and
// compares every member with the model.
func checkPayload(k *K, p PayPkg, b *Built, idx []int, src io.Reader, plan ReadPlan) error {
	rpm, err := rpmutils.ReadRpm(src)
	if err != nil {
		return errf("ReadRpm: %v", err)
	}
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		return errf("PayloadReaderExtended: %v", err)
	}
	last := p.linkLast()
	specs := p.specs()
	links := 0
	if len(plan.Zero) > 0 && plan.Zero[0] {
		// too early
		if n, err := pr.Read(make([]byte, 10)); n != 0 || err == nil {
			return errf("Read before the first Next gives %d bytes, %v", n, err)
		}
		if pr.IsLink() {
			return errf("IsLink before the first Next")
		}
	}
	for m, i := range idx {
		fi, err := pr.Next()
		if err != nil {
			return errf("Next for member %d: %v", m, err)
		}
		if err := checkFileInfo(i, fi, specs[i], p.Enc); err != nil {
			return err
		}
		wantLink := last[i] != i
		if wantLink {
			links++
		}
		if got := pr.IsLink(); got != wantLink {
			return errf("member %d (%s): IsLink=%v want %v", m, specs[i].Dir+specs[i].Base, got, wantLink)
		}
		if err := plan.follow(m, pr, p.contents(i, last)); err != nil {
			return err
		}
	}
	for i := 0; i < 2; i++ {
		if fi, err := pr.Next(); err != io.EOF {
			return errf("Next %d after the last file: %v, %v, want io.EOF", i, fi, err)
		}
	}
	k.LabelIf(links > 0, "hard links")
	k.LabelIf(p.Stripped, "stripped archive")
	k.LabelIf(!sort.IntsAreSorted(idx), "archived in another order")
	k.LabelIf(len(idx) < len(p.Files), "ghost files")
	k.LabelIf(p.Comp != "uncompressed" && p.Comp != "none", "compressed")
	return nil
}

func checkC15(k *K, c c15Case) error {
	arch, _, idx := c.Pkg.archive()
	b := c.Pkg.build(arch)
	k.NTIf(len(idx) >= 2)
	return checkPayload(k, c.Pkg, b, idx, c.Chunks.readerOf(k, b.All), c.Plan)
}

// Archives of many members.
type c15ManyCase struct {
	N        int    `json:"n"`
	Dirs     int    `json:"dirs"`
	Seed     uint64 `json:"seed"`
	Stripped bool   `json:"stripped"`
	Comp     string `json:"comp"`
	Groups   int    `json:"groups"` // hard-link groups of neighbours
}

func genC15Many(t *rapid.T) c15ManyCase {
	return c15ManyCase{N: genLargeN(t), Dirs: rapid.SampledFrom([]int{1, 10, 300}).Draw(t, "dirs"), Seed: uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed")),
		Stripped: rapid.Bool().Draw(t, "stripped"), Comp: rapid.SampledFrom([]string{"uncompressed", "gzip", "zstd"}).Draw(t, "comp"), Groups: rapid.SampledFrom([]int{0, 2, 300}).Draw(t, "groups")}
}

func checkC15Many(k *K, c c15ManyCase) error {
	p := PayPkg{Stripped: c.Stripped, Comp: c.Comp, Format: true, Members: 1}
	for i, s := range manyFiles(c.N, min(c.N, c.Dirs), c.Seed) {
		if c.Groups > 0 && i%7 < 3 {
			s.Ino = uint32(i/7/c.Groups + 1<<20)
		}
		s.Flags, s.Mtime = s.Flags&0xff, s.Mtime&0x7fffffff
		p.Files = append(p.Files, PFile{Spec: s, Data: Blob{Kind: "lit", Lit: S(fmt.Sprint(i)[:int(s.Size%4)%len(fmt.Sprint(i))])}})
	}
	arch, _, idx := p.archive()
	b := p.build(arch)
	k.NT()
	k.LabelIf(c.N > 1<<16, "more than 64 Ki members")
	return checkPayload(k, p, b, idx, bytes.NewReader(b.All), ReadPlan{})
}

// Archives that do not belong to the header.
type c15BadCase struct {
	Pkg  PayPkg `json:"pkg"`
	How  int    `json:"how"`
	Idx  uint32 `json:"idx"`
	At   int    `json:"at"`
	Name S      `json:"name"`
}

func genC15Bad(t *rapid.T) c15BadCase {
	c := c15BadCase{Pkg: genPayPkg(t, 4, 50, []string{"uncompressed", "gzip"}), At: rapid.IntRange(0, 10).Draw(t, "at")}
	c.How = rapid.IntRange(0, 1).Draw(t, "how")
	c.Idx = rapid.SampledFrom([]uint32{0, 1, 4, 0x7fffffff, 0x80000000, 0xffffffff}).Draw(t, "idx")
	c.Name = S(rapid.StringMatching(`(\./|/)?not/in/header[a-z]{1,5}`).Draw(t, "name"))
	return c
}

func checkC15Bad(k *K, c c15BadCase) error {
	n := len(c.Pkg.Files)
	// a foreign member somewhere among the real ones
	good, ex, idx := c.Pkg.archive()
	at := c.At % (len(idx) + 1)
	pos := ex[at].Hdr
	var member []byte
	if c.How == 0 {
		m, mx := encodeCpio([]CEnt{{Name: c.Name, Mode: mReg | 0644, Data: Blob{Kind: "lit", Lit: "abc"}}}, 0)
		member = m[:mx[1].Hdr]
	} else {
		member = []byte(fmt.Sprintf("07070X%08x", uint64(n)+uint64(c.Idx)&0x7fffffff))
	}
	arch := bytes.Join([][]byte{good[:pos], member, good[pos:]}, nil)
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(c.Pkg.build(arch).All))
	if err != nil {
		return err
	}
	pr, err := rpm.PayloadReaderExtended()
	if err != nil {
		return errf("PayloadReaderExtended: %v", err)
	}
	k.NT()
	for m := 0; ; m++ {
		fi, err := pr.Next()
		if err == io.EOF {
			return errf("archive with a member the header does not describe was read to the end without an error")
		}
		if err != nil {
			if m < at {
				return errf("member %d, before the foreign one: %v", m, err)
			}
			return nil
		}
		if m >= at {
			return errf("foreign member %q/%d reported as %q", c.Name, c.Idx, fi.Name())
		}
	}
}

// ---------------------------------------------------------------- C16

type c16Case struct {
	Pkg PayPkg `json:"pkg"`
	Cut int    `json:"cut"`
	API int    `json:"api"` // 0 cpio.Reader, 1 PayloadReaderExtended, 2 Extract/ExpandPayload
	Buf int    `json:"buf"` // 0 ReadAll, else skip or buffered
	End bool   `json:"end"` // cut counted from the end of the data

	Direct bool   `json:"direct,omitempty"` // the archive itself, where it is not compressed
	Chunks Chunks `json:"chunks"`
}

func genC16(t *rapid.T) c16Case {
	comps := []string{"uncompressed", "uncompressed", "uncompressed", "gzip", "bzip2", "xz", "lzma", "zstd"}
	c := c16Case{Pkg: genPayPkg(t, 4, 200, comps), API: rapid.IntRange(0, 2).Draw(t, "api"), Buf: rapid.IntRange(-1, 40).Draw(t, "buf")}
	c.Pkg.Members = 1
	c.End = rapid.Bool().Draw(t, "end")
	if c.End {
		c.Cut = rapid.IntRange(1, 140).Draw(t, "cut")
	} else {
		c.Cut = rapid.IntRange(0, 4000).Draw(t, "cut")
	}
	if c.API == 2 {
		c.Pkg.Stripped = false
		c.Pkg.makeExtractable()
	}
	c.Direct = rapid.Bool().Draw(t, "direct")
	c.Chunks = genStreams(true).Draw(t, "chunks")
	return c
}

// makeExtractable keeps only what can be unpacked by an ordinary user under any
// order: distinct, non-nested paths.
func (p *PayPkg) makeExtractable() {
	for i := range p.Files {
		s := &p.Files[i].Spec
		s.Dir = S(fmt.Sprintf("/d%d/", i%3))
		s.Base = S(fmt.Sprintf("f%d", i))
		if m := s.Mode & 0170000; m == mSock {
			s.Mode = mFifo | s.Mode&0777
		}
	}
}

// readWhole goes through an archive, and returns what it saw and how it ended
// (nil for a clean end).
func readWhole(r *cpio.Reader, buf int) (names []string, contents []string, err error) {
	for {
		h, err := r.Next()
		if err == io.EOF {
			return names, contents, nil
		}
		if err != nil {
			return names, contents, err
		}
		names = append(names, h.Filename())
		switch {
		case buf == 0:
			b, err := io.ReadAll(r)
			if err != nil {
				return names, contents, err
			}
			contents = append(contents, string(b))
		case buf > 0:
			var all []byte
			d := make([]byte, buf)
			for {
				n, err := r.Read(d)
				all = append(all, d[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					return names, contents, err
				}
			}
			contents = append(contents, string(all))
		default: // skip
			contents = append(contents, "")
		}
	}
}

func readWholeExt(pr rpmutils.PayloadReader, buf int) (names []string, contents []string, err error) {
	for {
		h, err := pr.Next()
		if err == io.EOF {
			return names, contents, nil
		}
		if err != nil {
			return names, contents, err
		}
		names = append(names, h.Name())
		switch {
		case buf == 0:
			b, err := io.ReadAll(pr)
			if err != nil {
				return names, contents, err
			}
			contents = append(contents, string(b))
		case buf > 0:
			var all []byte
			d := make([]byte, buf)
			for {
				n, err := pr.Read(d)
				all = append(all, d[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					return names, contents, err
				}
			}
			contents = append(contents, string(all))
		default:
			contents = append(contents, "")
		}
	}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkC16(k *K, c c16Case) error {
	arch, ex, idx := c.Pkg.archive()
	full := compress(c.Pkg.Comp, arch, 1)
	last := c.Pkg.linkLast()
	plain := c.Pkg.Comp == "uncompressed"
	// what must be there for the archive to be complete
	need := len(full)
	if plain {
		need = ex[len(ex)-1].Name + len("TRAILER!!!") + 1
	}
	cut := c.Cut
	if c.End {
		cut = need - c.Cut
	}
	if cut < 0 || cut >= need {
		return nil
	}
	b := c.Pkg.pkg().BuildWith(full)
	data := b.All[:b.End()+cut]
	k.Label(c.Pkg.Comp)
	k.LabelIf(c.End, "cut near the end")
	k.NT()
	var want, wantC []string
	for _, i := range idx {
		s := c.Pkg.Files[i].Spec
		switch {
		case c.API == 1:
			want = append(want, string(s.Dir+s.Base))
		case c.Pkg.Stripped:
			want = append(want, "")
		default:
			want = append(want, string(c.Pkg.archiveName(s)))
		}
		if c.Buf < 0 {
			wantC = append(wantC, "")
		} else {
			wantC = append(wantC, string(c.Pkg.contents(i, last)))
		}
	}
	var names, contents []string
	direct := c.Direct && plain && c.API != 1 || c.API == 0 && c.Pkg.Stripped
	if direct {
		data = data[b.End():]
	}
	src := c.Chunks.readerOf(k, data)
	var rpm *rpmutils.Rpm
	var err error
	if !direct {
		if rpm, err = rpmutils.ReadRpm(src); err != nil {
			return errf("ReadRpm: %v", err)
		}
	}
	switch c.API {
	case 0:
		if c.Pkg.Stripped {
			if !plain {
				return nil
			}
			var sizes []int64
			for i := range c.Pkg.Files {
				sizes = append(sizes, int64(len(c.Pkg.contents(i, last))))
			}
			if sizes == nil {
				sizes = []int64{0}
			}
			names, contents, err = readWhole(cpio.NewReaderWithSizes(src, sizes), c.Buf)
		} else if direct {
			names, contents, err = readWhole(cpio.NewReader(src), c.Buf)
		} else {
			var r *cpio.Reader
			r, err = rpm.PayloadReader()
			if err == nil {
				names, contents, err = readWhole(r, c.Buf)
			}
		}
	case 1:
		var pr rpmutils.PayloadReader
		pr, err = rpm.PayloadReaderExtended()
		if err == nil {
			names, contents, err = readWholeExt(pr, c.Buf)
		}
	case 2:
		if direct {
			err = cpio.Extract(src, k.Dir())
		} else {
			err = rpm.ExpandPayload(k.Dir())
		}
		if err == nil && plain {
			return errf("ExpandPayload of an archive cut at %d of %d reported success", cut, need)
		}
		if err == nil {
			k.Label("cut behind what is needed")
		}
		return nil // what a complete extraction holds is another property's business
	}
	if err == nil {
		if plain {
			return errf("an archive cut at %d of %d was read to a clean end (%d of %d members)", cut, need, len(names), len(want))
		}
		// a compressed stream may carry all the archive needs before its own end
		if !sameStrings(names, want) || !sameStrings(contents, wantC) {
			return errf("a %s payload cut at %d of %d was read to a clean end with %d of %d members", c.Pkg.Comp, cut, need, len(names), len(want))
		}
		k.Label("cut behind what is needed")
		return nil
	}
	// everything handed out before the error is right
	for i := range contents {
		if i >= len(want) || contents[i] != wantC[i] || names[i] != want[i] {
			return errf("cut at %d: member %d was handed out complete, but wrong", cut, i)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C17

// A reading of a damaged archive from the format description.
type refMember struct {
	hdr  [13]uint64
	name []byte
	data []byte

	stripped bool
	index    int
}

// refCpio reads a newc archive; bad says what is wrong with it, "" if nothing is.
// maybe is set where readers may differ.
func refCpio(b []byte) (out []refMember, bad string, maybe bool) {
	return refCpioSizes(b, nil)
}

// refCpioSizes also reads stripped members, whose sizes come from a table.
func refCpioSizes(b []byte, sizes []int64) (out []refMember, bad string, maybe bool) {
	pos := 0
	for {
		if pos+14 <= len(b) && string(b[pos:pos+6]) == "07070X" {
			if sizes == nil {
				return out, "stripped member without sizes", maybe
			}
			idx, err := strconv.ParseUint(string(b[pos+6:pos+14]), 16, 32)
			if err != nil || b[pos+6] == '+' || b[pos+6] == '-' {
				return out, "index is not hexadecimal", maybe
			}
			if idx >= uint64(len(sizes)) {
				return out, "index not in the table", maybe
			}
			fs := sizes[idx]
			if fs < 0 {
				return out, "negative size", maybe
			}
			pos += 14
			if fs > int64(len(b)-pos) {
				return out, "truncated data", maybe
			}
			out = append(out, refMember{data: b[pos : pos+int(fs)], stripped: true, index: int(idx)})
			pos += int(fs)
			pos += pad4(pos)
			continue
		}
		if pos+110 > len(b) {
			return out, "truncated header", maybe
		}
		if string(b[pos:pos+6]) != "070701" {
			return out, "magic", maybe
		}
		var m refMember
		for i := range m.hdr {
			f := b[pos+6+8*i : pos+14+8*i]
			var v uint64
			for _, ch := range f {
				switch {
				case ch >= '0' && ch <= '9':
					v = v<<4 | uint64(ch-'0')
				case ch >= 'a' && ch <= 'f':
					v = v<<4 | uint64(ch-'a'+10)
				case ch >= 'A' && ch <= 'F':
					v = v<<4 | uint64(ch-'A'+10)
				default:
					return out, fmt.Sprintf("field %d is not hexadecimal", i), maybe
				}
			}
			m.hdr[i] = v
		}
		ns, fs := int(m.hdr[11]), int(m.hdr[6])
		if ns == 0 {
			return out, "name without a terminator", maybe
		}
		if pos+110+ns > len(b) {
			return out, "truncated name", maybe
		}
		raw := b[pos+110 : pos+110+ns]
		if raw[ns-1] != 0 || bytes.IndexByte(raw, 0) != ns-1 {
			maybe = true
		}
		m.name = raw[:ns-1]
		pos += 110 + ns
		if string(m.name) == "TRAILER!!!" {
			// readers need not miss padding that is followed by nothing
			return out, "", maybe || pos+pad4(pos) > len(b)
		}
		pos += pad4(pos)
		if pos+fs > len(b) {
			return out, "truncated data", maybe
		}
		m.data = b[pos : pos+fs]
		out = append(out, m)
		pos += fs
		pos += pad4(pos)
	}
}

type Mut struct {
	Member int  `json:"member"`
	Field  int  `json:"field"` // 0-12 header field, 13 magic, 14 raw byte, 15 delete bytes, 16 insert bytes
	Text   S    `json:"text"`
	At     int  `json:"at"`
	N      int  `json:"n"`
	B      byte `json:"b"`
}

type c17Case struct {
	Ents []CEnt `json:"ents"`
	Muts []Mut  `json:"muts"`
	API  int    `json:"api"`
	Buf  int    `json:"buf"`
}

func genC17(t *rapid.T) c17Case {
	c := c17Case{Ents: genEnts(t, 3, 60), API: rapid.IntRange(0, 3).Draw(t, "api"), Buf: rapid.IntRange(-1, 30).Draw(t, "buf")}
	n := rapid.IntRange(1, 3).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		m := Mut{Member: rapid.IntRange(0, 3).Draw(t, "member"), At: rapid.IntRange(0, 1000).Draw(t, "at"), N: rapid.IntRange(1, 9).Draw(t, "n"), B: rapid.Byte().Draw(t, "b")}
		switch rapid.IntRange(0, 6).Draw(t, "mutkind") {
		case 0:
			m.Field = rapid.IntRange(13, 16).Draw(t, "field")
			m.Text = S(rapid.SampledFrom([]string{"070702", "070707", "07070X", "000000", "07070x", "\x00\x00\x00\x00\x00\x00", "07070 "}).Draw(t, "text"))
		case 1, 2, 3:
			// sizes, the fields that steer the reader
			m.Field = rapid.SampledFrom([]int{6, 11}).Draw(t, "field")
			m.Text = S(rapid.SampledFrom([]string{"ffffffff", "7fffffff", "80000000", "00000000", "00000001", "0000000b", "+0000001", "-0000001", "-7fffffff", "-fffffff", "0x000010", "        ", "0000001 ",
				" 0000001", "000_0001", "0000001g", "40000000", "00000010", "\x00\x00\x00\x00\x00\x00\x00\x00", "-0000000"}).Draw(t, "text"))
		default:
			m.Field = rapid.IntRange(0, 12).Draw(t, "field")
			m.Text = S(rapid.SampledFrom([]string{"ffffffff", "+0000001", "-0000001", "0x000010", "-fffffff", "zzzzzzzz", "0000000G", "ABCDEF01"}).Draw(t, "text"))
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

func applyMuts(arch []byte, ex []Extent, muts []Mut) []byte {
	arch = append([]byte(nil), arch...)
	for _, m := range muts {
		x := ex[m.Member%len(ex)]
		switch {
		case m.Field <= 12:
			if x.Hdr+14+8*m.Field <= len(arch) {
				copy(arch[x.Hdr+6+8*m.Field:], m.Text[:8])
			}
		case m.Field == 13:
			if x.Hdr+6 <= len(arch) {
				copy(arch[x.Hdr:], m.Text[:6])
			}
		}
	}
	for _, m := range muts {
		if len(arch) == 0 {
			break
		}
		at := m.At % len(arch)
		switch m.Field {
		case 14:
			arch[at] = m.B
		case 15:
			arch = append(arch[:at:at], arch[min(len(arch), at+m.N):]...)
		case 16:
			arch = append(arch[:at:at], append(bytes.Repeat([]byte{m.B}, m.N), arch[at:]...)...)
		}
	}
	return arch
}

func checkC17(k *K, c c17Case) error {
	arch, ex := encodeCpio(c.Ents, 0)
	return checkDamaged(k, applyMuts(arch, ex, c.Muts), c.API, c.Buf)
}

// Two archives, damaged or not, cut and joined anywhere.
type c17BytesCase struct {
	Data S   `json:"data"`
	API  int `json:"api"`
	Buf  int `json:"buf"`
}

func genC17Bytes(t *rapid.T) c17BytesCase {
	one := func() []byte {
		arch, ex := encodeCpio(genEnts(t, 3, 60), 0)
		if rapid.Bool().Draw(t, "damage") {
			arch = applyMuts(arch, ex, genC17(t).Muts)
		}
		return arch
	}
	a, b := one(), one()
	at, from := rapid.IntRange(0, len(a)).Draw(t, "cut"), rapid.IntRange(0, len(b)).Draw(t, "from")
	if rapid.Bool().Draw(t, "aligned") {
		at, from = at&^3, from&^3
	}
	return c17BytesCase{S(append(a[:at:at], b[from:]...)), rapid.IntRange(0, 3).Draw(t, "api"), rapid.IntRange(-1, 30).Draw(t, "buf")}
}

func checkC17Bytes(k *K, c c17BytesCase) error {
	return checkDamaged(k, []byte(c.Data), c.API, c.Buf)
}

// checkDamaged reads an archive that may be malformed and compares what comes of
// it with what the reference reader says.
func checkDamaged(k *K, bad []byte, api, buf int) error {
	want, why, maybe := refCpio(bad)
	hasStripped := bytes.Contains(bad, []byte("07070X"))
	k.LabelIf(why != "", "malformed: "+strings.SplitN(why, " ", 2)[0])
	k.LabelIf(why == "", "still well-formed")
	k.NTIf(why != "")
	var names, contents []string
	var hdrs []*cpio.Cpio_newc_header
	var err error
	perr := error(nil)
	var alloc uint64
	run := func(f func()) {
		alloc = allocDuring(func() { perr = guard("reading", f) })
	}
	switch api {
	case 0, 1:
		var r *cpio.Reader
		if api == 0 {
			r = cpio.NewReader(bytes.NewReader(bad))
		} else {
			r = cpio.NewReaderWithSizes(bytes.NewReader(bad), []int64{5, 1 << 40, -1, 0})
		}
		run(func() { names, contents, err = readWhole(r, buf) })
	case 2:
		run(func() {
			cs := cpio.NewCpioStream(bytes.NewReader(bad))
			for {
				var e *cpio.CpioEntry
				e, err = cs.ReadNextEntry()
				if err != nil || e.Header.Filename() == cpio.TRAILER {
					return
				}
				hdrs = append(hdrs, e.Header)
			}
		})
	case 3:
		dir := k.Dir()
		run(func() { err = cpio.Extract(bytes.NewReader(bad), dir) })
	}
	if perr != nil {
		return perr
	}
	if limit := uint64(1<<20 + 64*len(bad)); alloc > limit {
		return errf("reading %d damaged bytes (%s) allocated %d bytes", len(bad), why, alloc)
	}
	if hasStripped {
		return nil // another format; only robustness is claimed
	}
	if why != "" && err == nil {
		return errf("malformed archive (%s) read to a clean end", why)
	}
	if maybe || api == 3 {
		return nil
	}
	if why == "" && err != nil {
		return errf("well-formed archive refused: %v", err)
	}
	switch api {
	case 0, 1:
		for i := range names {
			if i < len(want) && names[i] != string(want[i].name) {
				return errf("member %d named %q, want %q", i, names[i], want[i].name)
			}
		}
		for i := range contents {
			if i >= len(want) {
				if why == "" {
					return errf("more members than the archive has")
				}
				if buf >= 0 {
					return errf("member %d is malformed (%s) but was handed out complete", i, why)
				}
				continue
			}
			if buf >= 0 && contents[i] != string(want[i].data) {
				return errf("member %d has the wrong contents", i)
			}
		}
		if why == "" && len(contents) != len(want) {
			return errf("%d members, want %d", len(contents), len(want))
		}
	case 2:
		for i, h := range hdrs {
			if i >= len(want) {
				break
			}
			w := want[i].hdr
			got := []int{h.Ino(), h.Mode(), h.Uid(), h.Gid(), h.Nlink(), h.Mtime(), h.Filesize(), h.Devmajor(), h.Devminor(), h.Rdevmajor(), h.Rdevminor(), h.Namesize(), h.Check()}
			for j := range got {
				if got[j] != int(w[j]) {
					return errf("member %d field %d is %d, want %d", i, j, got[j], w[j])
				}
			}
		}
	}
	return nil
}

// Stripped archives with sizes that do not belong to them, and random bytes.
type c17StripCase struct {
	Ents  []SEnt  `json:"ents"`
	Sizes []int64 `json:"sizes"`
	NoSz  bool    `json:"nosizes"`
	Muts  []Mut   `json:"muts"`
	Idx   []S     `json:"idx"`
	Buf   int     `json:"buf"`
}

func genC17Strip(t *rapid.T) c17StripCase {
	var c c17StripCase
	n := rapid.IntRange(1, 3).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ents = append(c.Ents, SEnt{Index: rapid.IntRange(0, 3).Draw(t, "idx"), Data: genBlob(40).Draw(t, "data")})
		c.Idx = append(c.Idx, S(rapid.SampledFrom([]string{"", "", "ffffffff", "80000000", "-0000001", "-0000000", "+0000001", "0000000x", "7fffffff", "00000004"}).Draw(t, "idxtext")))
	}
	c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int64{0, 1, 5, 40, 1 << 20, 1 << 33, 1 << 62, -1, -4096, -1 << 63, 1<<63 - 1}), 0, 4).Draw(t, "sizes")
	c.NoSz = rapid.IntRange(0, 4).Draw(t, "nosz") == 0
	c.Buf = rapid.IntRange(-1, 30).Draw(t, "buf")
	if rapid.Bool().Draw(t, "mut") {
		c.Muts = []Mut{{Field: rapid.IntRange(14, 16).Draw(t, "field"), At: rapid.IntRange(0, 200).Draw(t, "at"), N: rapid.IntRange(1, 9).Draw(t, "nn"), B: rapid.Byte().Draw(t, "b")}}
	}
	return c
}

func checkC17Strip(k *K, c c17StripCase) error {
	arch, ex := encodeStripped(c.Ents, 0)
	for i, s := range c.Idx {
		if s != "" && i < len(c.Ents) {
			copy(arch[ex[i].Hdr+6:], s)
		}
	}
	arch = applyMuts(arch, ex, c.Muts)
	var err error
	var names, contents []string
	sizes := c.Sizes
	if c.NoSz {
		sizes = nil
	}
	k.NT()
	var perr error
	alloc := allocDuring(func() {
		perr = guard("reading a stripped archive", func() {
			names, contents, err = readWhole(cpio.NewReaderWithSizes(bytes.NewReader(arch), sizes), c.Buf)
		})
	})
	if perr != nil {
		return perr
	}
	if alloc > uint64(1<<20+64*len(arch)) {
		return errf("reading %d bytes allocated %d", len(arch), alloc)
	}
	if c.NoSz && len(c.Muts) == 0 && !errors.Is(err, cpio.ErrStrippedHeader) && (c.Idx[0] == "" || c.Idx[0] == "ffffffff") {
		return errf("stripped archive without sizes: %v after %d members, want ErrStrippedHeader", err, len(names))
	}
	// the size table alone says where each member ends
	want, why, maybe := refCpioSizes(arch, sizes)
	if why != "" {
		if err == nil {
			return errf("malformed stripped archive (%s) read to a clean end, %d members", why, len(names))
		}
	} else if err != nil && !maybe {
		return errf("well-formed stripped archive refused: %v", err)
	}
	if maybe {
		return nil
	}
	if why == "" && len(names) != len(want) {
		return errf("%d members, want %d", len(names), len(want))
	}
	for i := range contents {
		switch {
		case i < len(want):
			if c.Buf >= 0 && contents[i] != string(want[i].data) {
				return errf("member %d has the wrong contents", i)
			}
		case why == "" || c.Buf >= 0:
			return errf("member %d is malformed (%s) but was handed out complete", i, why)
		}
	}
	return nil
}

// Arbitrary bytes behind a valid start.
type c17RawCase struct {
	Head int  `json:"head"`
	Raw  S    `json:"raw"`
	API  int  `json:"api"`
	Rep  int  `json:"rep"`
	Ent  CEnt `json:"ent"`
}

func genC17Raw(t *rapid.T) c17RawCase {
	c := c17RawCase{Head: rapid.IntRange(0, 130).Draw(t, "head"), Raw: S(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")), API: rapid.IntRange(0, 1).Draw(t, "api"), Rep: rapid.IntRange(1, 4).Draw(t, "rep")}
	c.Ent = CEnt{Name: "./a", Mode: mReg | 0644, Nlink: 1, Data: Blob{Kind: "lit", Lit: "hello"}}
	return c
}

func checkC17Raw(k *K, c c17RawCase) error {
	arch, _ := encodeCpio([]CEnt{c.Ent}, 0)
	b := append(arch[:min(c.Head, len(arch)):min(c.Head, len(arch))], bytes.Repeat([]byte(c.Raw), c.Rep)...)
	_, why, _ := refCpio(b)
	var err error
	var perr error
	k.NTIf(why != "")
	dir := ""
	if c.API == 1 {
		dir = k.Dir()
	}
	alloc := allocDuring(func() {
		perr = guard("reading", func() {
			if c.API == 1 {
				err = cpio.Extract(bytes.NewReader(b), dir)
			} else {
				_, _, err = readWhole(cpio.NewReader(bytes.NewReader(b)), 0)
			}
		})
	})
	if perr != nil {
		return perr
	}
	if alloc > uint64(1<<20+64*len(b)) {
		return errf("reading %d bytes allocated %d", len(b), alloc)
	}
	if why != "" && err == nil && !bytes.Contains(b, []byte("07070X")) {
		return errf("malformed archive (%s) read to a clean end", why)
	}
	return nil
}

// Calls in any order: reading before the first member, after the last one and
// after an error, asking again for the next one, and reads of all sizes.
type c17CallsCase struct {
	Ents  []CEnt  `json:"ents,omitempty"`
	Strip []SEnt  `json:"strip,omitempty"` // instead: a stripped archive
	Muts  []Mut   `json:"muts,omitempty"`
	Tail  S       `json:"tail,omitempty"`
	Cut   int     `json:"cut,omitempty"`
	Calls []int   `json:"calls"` // -1 Next, n >= 0 Read of n bytes
	Sizes []int64 `json:"sizes,omitempty"`
}

func genC17Calls(t *rapid.T) c17CallsCase {
	var c c17CallsCase
	if rapid.IntRange(0, 2).Draw(t, "stripped") == 0 {
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			e := SEnt{Index: len(c.Strip), Data: genBlob(40).Draw(t, "data")}
			c.Strip = append(c.Strip, e)
			c.Sizes = append(c.Sizes, int64(len(e.Data.Bytes())))
		}
	} else {
		c.Ents = genEnts(t, 3, 60)
	}
	switch rapid.IntRange(0, 5).Draw(t, "damage") {
	case 0:
		c.Cut = rapid.IntRange(1, 250).Draw(t, "cut")
	case 1:
		c.Muts = []Mut{{Member: rapid.IntRange(0, 3).Draw(t, "member"), Field: rapid.IntRange(13, 16).Draw(t, "field"), Text: "070702", At: rapid.IntRange(0, 200).Draw(t, "at"), N: rapid.IntRange(1, 9).Draw(t, "nn"), B: rapid.Byte().Draw(t, "b")}}
	case 2:
		c.Tail = S(rapid.StringN(0, 200, 200).Draw(t, "tail"))
	}
	c.Calls = rapid.SliceOfN(rapid.OneOf(rapid.Just(-1), rapid.IntRange(0, 70), rapid.SampledFrom([]int{0, 1, 300})), 1, 14).Draw(t, "calls")
	return c
}

func checkC17Calls(k *K, c c17CallsCase) error {
	var arch []byte
	var ex []Extent
	if c.Ents == nil && c.Strip != nil {
		arch, ex = encodeStripped(c.Strip, 0)
	} else {
		arch, ex = encodeCpio(c.Ents, 0)
	}
	arch = applyMuts(arch, ex, c.Muts)
	arch = append(arch[:max(0, len(arch)-c.Cut)], c.Tail...)
	want, why, maybe := refCpioSizes(arch, c.Sizes)
	if maybe {
		return nil
	}
	var r *cpio.Reader
	if c.Sizes != nil {
		r = cpio.NewReaderWithSizes(bytes.NewReader(arch), c.Sizes)
	} else {
		r = cpio.NewReader(bytes.NewReader(arch))
	}
	cur, pos := -1, 0
	var end error // of the archive
	seen := map[string]bool{}
	return guardErr("calls in any order", func() error {
		for i, n := range c.Calls {
			if n < 0 {
				h, err := r.Next()
				switch {
				case end == io.EOF && err != io.EOF:
					return errf("call %d: Next after the end gives %v, %v", i, h, err)
				case end != nil && err == nil || end != nil && end != io.EOF && err == io.EOF:
					return errf("call %d: Next after it failed with %v gives %v, %v", i, end, h, err)
				case end != nil:
					seen["Next after the end"] = true
				case err != nil:
					if end = err; cur+1 < len(want) || why == "" && err != io.EOF || why != "" && err == io.EOF {
						return errf("call %d: Next for member %d of %d (%s) gives %v", i, cur+1, len(want), why, err)
					}
				case cur+1 >= len(want) && why == "":
					return errf("call %d: one more member than the %d there are", i, len(want))
				default:
					cur, pos = cur+1, 0
				}
				continue
			}
			buf := make([]byte, n)
			for j := range buf {
				buf[j] = 0xa5
			}
			got, err := r.Read(buf)
			if got < 0 || got > n {
				return errf("call %d: Read of %d bytes gives %d", i, n, got)
			}
			for _, b := range buf[got:] {
				if b != 0xa5 {
					return errf("call %d: Read of %d bytes gives %d, but changes what follows", i, n, got)
				}
			}
			switch {
			case cur < 0 || end != nil:
				seen["Read outside of a member"] = true
				if got != 0 || err == nil && n > 0 {
					return errf("call %d: Read without a member (%d members before it, end: %v) gives %d bytes, %v", i, cur+1, end, got, err)
				}
			case cur >= len(want):
				// a member that is not complete
				pos += got
			case pos+got > len(want[cur].data) || !bytes.Equal(buf[:got], want[cur].data[pos:pos+got]):
				return errf("call %d: Read of %d bytes at %d of member %d gives something else than the %d bytes it has", i, n, pos, cur, len(want[cur].data))
			default:
				pos += got
				if err == io.EOF && pos < len(want[cur].data) || err != nil && err != io.EOF || got == 0 && n > 0 && err == nil {
					return errf("call %d: Read of %d bytes at %d of member %d with %d bytes gives %d, %v", i, n, pos, cur, len(want[cur].data), got, err)
				}
			}
		}
		for l := range seen {
			k.Label(l)
		}
		k.NTIf(len(seen) > 0)
		return nil
	})
}

// Archives cut at each of their offsets, through the low-level interface, whose
// users look for the trailer themselves.
type c16StreamCase struct {
	Ents  []CEnt  `json:"ents,omitempty"`
	Strip []Blob  `json:"strip,omitempty"`
	Sizes []int64 `json:"-"`
}

func genC16Stream(t *rapid.T) c16StreamCase {
	var c c16StreamCase
	if rapid.IntRange(0, 2).Draw(t, "stripped") == 0 {
		c.Strip = rapid.SliceOfN(genBlob(20), 1, 3).Draw(t, "strip")
	} else {
		c.Ents = genEnts(t, 3, 30)
	}
	return c
}

func checkC16Stream(k *K, c c16StreamCase) error {
	var arch []byte
	var ex []Extent
	sizes := []int64{}
	if c.Strip != nil {
		var es []SEnt
		for i, b := range c.Strip {
			es = append(es, SEnt{Index: i, Data: b})
			sizes = append(sizes, int64(len(b.Bytes())))
		}
		arch, ex = encodeStripped(es, 0)
	} else {
		arch, ex = encodeCpio(c.Ents, 0)
	}
	for _, e := range c.Ents {
		if e.Name == cpio.TRAILER {
			return nil
		}
	}
	boundary := map[int]bool{}
	for _, e := range ex {
		boundary[e.Hdr] = true
	}
	k.NTIf(len(ex) > 1)
	for cut := 0; cut < ex[len(ex)-1].Name+len(cpio.TRAILER)+1; cut++ {
		st := cpio.NewCpioStream(bytes.NewReader(arch[:cut]))
		if c.Strip != nil {
			st.SetFileSizes(sizes)
		}
		for n := 0; ; n++ {
			e, err := st.ReadNextEntry()
			if err == io.EOF && !boundary[cut] {
				return errf("archive cut at %d, within a member: entry %d gives EOF", cut, n)
			}
			if err != nil {
				// the end of member n's name is needed to give it out
				if n < len(ex) && (c.Strip == nil || n == len(ex)-1) && ex[n].Data <= cut || n < len(ex)-1 && c.Strip != nil && ex[n].Hdr+14 <= cut {
					return errf("archive cut at %d: entry %d, which is there, gives %v", cut, n, err)
				}
				break
			}
			if n >= len(ex)-1 || e.Header.Filename() == cpio.TRAILER {
				return errf("archive cut at %d: entry %d is %q", cut, n, e.Header.Filename())
			}
			if c.Strip == nil && e.Header.Filename() != string(c.Ents[n].Name) || c.Strip != nil && e.Header.Index() != n {
				return errf("archive cut at %d: entry %d is %q", cut, n, e.Header.Filename())
			}
		}
	}
	return nil
}

// Calls in any order on the payload reader of a package, also past its end and
// past errors, when the decompressor is closed already.
type c17PayCallsCase struct {
	Pkg   PayPkg `json:"pkg"`
	Cut   int    `json:"cut,omitempty"` // bytes missing at the end of the package
	Flip  int    `json:"flip,omitempty"`
	Calls []int  `json:"calls"` // -1 Next, -2 IsLink, n Read(n)
}

func genC17PayCalls(t *rapid.T) c17PayCallsCase {
	c := c17PayCallsCase{Pkg: genPayPkg(t, 3, 60, []string{"uncompressed", "none", "gzip", "none-gzip", "bzip2", "xz", "lzma", "zstd", "zstd"})}
	switch rapid.IntRange(0, 3).Draw(t, "damage") {
	case 0:
		c.Cut = rapid.IntRange(1, 300).Draw(t, "cut")
	case 1:
		c.Flip = rapid.IntRange(1, 300).Draw(t, "flip")
	}
	c.Calls = rapid.SliceOfN(rapid.OneOf(rapid.Just(-1), rapid.Just(-2), rapid.IntRange(0, 70), rapid.SampledFrom([]int{0, 1, 300})), 1, 14).Draw(t, "calls")
	return c
}

func checkC17PayCalls(k *K, c c17PayCallsCase) error {
	arch, _, idx := c.Pkg.archive()
	b := c.Pkg.build(arch)
	all := append([]byte(nil), b.All...)
	pay := len(all) - b.End()
	if c.Cut > 0 {
		all = all[:len(all)-min(c.Cut, pay)]
	}
	if c.Flip > 0 {
		all[len(all)-min(c.Flip, pay)] ^= 0x41
	}
	damaged := c.Cut+c.Flip > 0
	plain := c.Pkg.Comp == "uncompressed" || c.Pkg.Comp == "none"
	last, specs := c.Pkg.linkLast(), c.Pkg.specs()
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(all))
	if err != nil {
		return errf("ReadRpm: %v", err)
	}
	return guardErr("calls on a payload reader in any order", func() error {
		pr, err := rpm.PayloadReaderExtended()
		if err != nil {
			if damaged {
				return nil
			}
			return errf("PayloadReaderExtended: %v", err)
		}
		cur, pos := -1, 0
		var end, failed error
		past := false
		for i, n := range c.Calls {
			if n == -2 {
				got := pr.IsLink()
				if cur < 0 && got && (plain || end == nil) || cur >= 0 && cur < len(idx) && end == nil && !(damaged && c.Flip > 0) && got != (last[idx[cur]] != idx[cur]) {
					return errf("call %d: IsLink is %v at member %d", i, got, cur)
				}
				continue
			}
			if n == -1 {
				fi, err := pr.Next()
				if end != nil {
					past = true
					if end == io.EOF && err != io.EOF || plain && c.Flip == 0 && end != io.EOF && (err == nil || err == io.EOF) {
						return errf("call %d: Next after %v gives %v, %v", i, end, fi, err)
					}
					continue
				}
				if err != nil {
					end = err
					if err == io.EOF && cur+1 < len(idx) && c.Flip == 0 {
						return errf("call %d: Next ends after %d members of %d", i, cur+1, len(idx))
					}
					if err != io.EOF && !damaged {
						return errf("call %d: Next for member %d of %d gives %v", i, cur+1, len(idx), err)
					}
					continue
				}
				cur, pos, failed = cur+1, 0, nil
				if c.Flip > 0 {
					continue // anything may have become of it
				}
				if cur >= len(idx) {
					return errf("call %d: one more member than the %d there are", i, len(idx))
				}
				if err := checkFileInfo(idx[cur], fi, specs[idx[cur]], c.Pkg.Enc); err != nil {
					return err
				}
				continue
			}
			buf := make([]byte, n)
			got, err := pr.Read(buf)
			switch {
			case got < 0 || got > n:
				return errf("call %d: Read of %d bytes gives %d", i, n, got)
			case end != nil && end != io.EOF && (!plain || c.Flip > 0):
				// some decompressors go on after an error
				past = true
			case cur < 0 || end != nil:
				past = true
				if got != 0 || err == nil && n > 0 {
					return errf("call %d: Read without a member (end: %v) gives %d bytes, %v", i, end, got, err)
				}
			case c.Flip > 0:
			case cur < len(idx):
				want := c.Pkg.contents(idx[cur], last)
				if pos+got > len(want) || !bytes.Equal(buf[:got], want[pos:pos+got]) {
					return errf("call %d: Read of %d bytes at %d of member %d gives something else", i, n, pos, cur)
				}
				pos += got
				if err == io.EOF && pos < len(want) {
					return errf("call %d: Read ends after %d bytes of member %d, which has %d", i, pos, cur, len(want))
				}
				if failed != nil {
					past = true
					if err == nil && n > 0 && plain {
						return errf("call %d: Read after it failed with %v goes on", i, failed)
					}
				}
				if err != nil && err != io.EOF {
					if failed = err; !damaged {
						return errf("call %d: Read of %d bytes at %d of member %d gives %v", i, n, pos, cur, err)
					}
				}
			}
		}
		k.LabelIf(past, "past the end or an error")
		k.LabelIf(end == io.EOF, "read to the end")
		k.LabelIf(end != nil && end != io.EOF || failed != nil, "failed")
		k.NTIf(past)
		return nil
	})
}

func init() {
	register("C14", "random newc archives (0-6 members, every header field drawn over 32 bits, names of any bytes, random contents, padding bytes and data after the trailer) read through three interfaces under random chunking and a random plan of full, partial and skipped reads; non-trivial: at least two members", func(x *Ctx) {
		sub(x, "newc", subOpts{quick: 192000, thorough: 500000}, genC14, checkC14)
		sub(x, "large", subOpts{quick: 240, thorough: 4000}, genC14Large, checkC14Large)
	})
	register("C15", "random packages whose payload archive (newc or stripped, plain or compressed) is derived from their file list with hard-link groups, ghosts and every file type, read under a random plan; plus archives with a member the header does not describe; non-trivial: at least two archived files, or a foreign member", func(x *Ctx) {
		sub(x, "payload", subOpts{quick: 60000, thorough: 300000}, genC15, checkC15)
		sub(x, "foreign", subOpts{quick: 24000, thorough: 60000}, genC15Bad, checkC15Bad)
		sub(x, "many", subOpts{quick: 96, thorough: 2000}, genC15Many, checkC15Many)
	})
	register("C16", "random package payloads (newc or stripped; uncompressed or with any compressor) cut at a random offset before their end, read through the archive reader, the payload reader and extraction; non-trivial: every case where the cut falls before the archive's end", func(x *Ctx) {
		sub(x, "truncated", subOpts{quick: 48000, thorough: 250000}, genC16, checkC16)
		sub(x, "stream", subOpts{quick: 8000, thorough: 100000}, genC16Stream, checkC16Stream)
	})
	register("C17", "valid archives with 1-3 damaged header fields, magics, bytes, insertions or deletions, stripped archives with foreign size tables, and arbitrary bytes behind a valid start; plus random sequences of calls on the archive reader and the payload reader, past the end and past errors; non-trivial: the independent reader calls the archive malformed, or a call past the end or an error", func(x *Ctx) {
		sub(x, "damaged", subOpts{quick: 72000, thorough: 400000}, genC17, checkC17)
		sub(x, "stripped", subOpts{quick: 36000, thorough: 100000}, genC17Strip, checkC17Strip)
		sub(x, "raw", subOpts{quick: 36000, thorough: 200000}, genC17Raw, checkC17Raw)
		sub(x, "bytes", subOpts{quick: 24000, thorough: 200000}, genC17Bytes, checkC17Bytes)
		sub(x, "calls", subOpts{quick: 30000, thorough: 300000}, genC17Calls, checkC17Calls)
		sub(x, "payload-calls", subOpts{quick: 24000, thorough: 300000}, genC17PayCalls, checkC17PayCalls)
	})
}
