package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sync"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C20

type c20Case struct {
	Pkg    PayPkg   `json:"pkg"`
	Chunks Chunks   `json:"chunks"`
	API    int      `json:"api"`
	Ext    []string `json:"ext,omitempty"` // an external program and its arguments instead of the built-in encoder
}

// what external programs can produce
var extPrograms = map[string][][]string{
	"gzip":  {{"gzip", "-1"}, {"gzip", "-9"}, {"gzip", "-n"}, {"gzip", "-6", "-n"}},
	"bzip2": {{"bzip2", "-1"}, {"bzip2", "-9"}},
	"xz":    {{"xz", "-0"}, {"xz", "-6"}, {"xz", "--check=crc32"}, {"xz", "--check=sha256"}, {"xz", "--check=none"}, {"xz", "--block-size=1000"}, {"xz", "-0", "-T2", "--block-size=4096"}, {"xz", "--lzma2=lc=0,lp=2,pb=0"}},
	"lzma":  {{"xz", "--format=lzma", "-0"}, {"xz", "--format=lzma", "--lzma1=dict=4KiB,lc=3,lp=1,pb=2"}},
	"zstd":  {{"zstd", "-1"}, {"zstd", "-19"}, {"zstd", "--no-check"}, {"zstd", "--ultra", "-22"}, {"zstd", "-3", "--check"}, {"zstd", "--fast=5"}},
}

func genC20(t *rapid.T) c20Case {
	c := c20Case{Pkg: genPayPkg(t, 5, 4000, compressors), Chunks: genChunks(false).Draw(t, "chunks"), API: rapid.IntRange(0, 1).Draw(t, "api")}
	c.Pkg.Stripped = c.Pkg.Stripped && c.API == 1
	return c
}

func genC20Ext(t *rapid.T) c20Case {
	c := genC20(t)
	c.Pkg.Comp = rapid.SampledFrom([]string{"gzip", "bzip2", "xz", "lzma", "zstd"}).Draw(t, "extcomp")
	c.Ext = rapid.SampledFrom(extPrograms[c.Pkg.Comp]).Draw(t, "program")
	if rapid.IntRange(0, 2).Draw(t, "big") == 0 {
		// more than one block or window
		c.Pkg.Files = append(c.Pkg.Files, PFile{Spec: FileSpec{Dir: "/big/", Base: "file", Mode: 0100644}, Data: Blob{Kind: rapid.SampledFrom([]string{"text", "rand", "zero"}).Draw(t, "bigkind"), N: rapid.IntRange(1, 1<<20).Draw(t, "bign"), Seed: 3}})
	}
	return c
}

func checkC20(k *K, c c20Case) error {
	arch, _, idx := c.Pkg.archive()
	var payload []byte
	if c.Ext != nil {
		if _, err := exec.LookPath(c.Ext[0]); err != nil {
			k.Label("program missing")
			return nil
		}
		n := max(1, c.Pkg.Members)
		if c.Pkg.Comp == "zstd" || c.Pkg.Comp == "lzma" {
			n = 1
		}
		for i := 0; i < n; i++ {
			cmd := exec.Command(c.Ext[0], append(append([]string(nil), c.Ext[1:]...), "-c")...)
			cmd.Stdin = bytes.NewReader(arch[len(arch)*i/n : len(arch)*(i+1)/n])
			out, err := cmd.Output()
			must(err)
			payload = append(payload, out...)
		}
		k.Label(fmt.Sprint(c.Ext))
	} else {
		payload = compress(c.Pkg.Comp, arch, c.Pkg.Members)
		k.Label(c.Pkg.Comp)
	}
	b := c.Pkg.pkg().BuildWith(payload)
	k.LabelIf(c.Pkg.Members > 1, "several streams")
	k.NTIf(len(idx) >= 2 && c.Pkg.Comp != "uncompressed" && c.Pkg.Comp != "none")
	if c.API == 1 {
		return checkPayload(k, c.Pkg, b, idx, c.Chunks.reader(b.All), ReadPlan{})
	}
	rpm, err := rpmutils.ReadRpm(c.Chunks.reader(b.All))
	if err != nil {
		return errf("ReadRpm: %v", err)
	}
	r, err := rpm.PayloadReader()
	if err != nil {
		return errf("PayloadReader: %v", err)
	}
	names, contents, err := readWhole(r, 0)
	if err != nil {
		return errf("%s payload: %v", c.Pkg.Comp, err)
	}
	last := c.Pkg.linkLast()
	if len(names) != len(idx) {
		return errf("%d members, want %d", len(names), len(idx))
	}
	for m, i := range idx {
		if names[m] != string(c.Pkg.archiveName(c.Pkg.Files[i].Spec)) || contents[m] != string(c.Pkg.contents(i, last)) {
			return errf("member %d: %q with %d bytes, want %q with %d", m, names[m], len(contents[m]), c.Pkg.archiveName(c.Pkg.Files[i].Spec), len(c.Pkg.contents(i, last)))
		}
	}
	return nil
}

// Unknown or misannounced compressors and formats.
type c20BadCase struct {
	Pkg    PayPkg `json:"pkg"`
	Format *S     `json:"format,omitempty"`
	Name   *S     `json:"name,omitempty"`
	Typed  *TagV  `json:"typed,omitempty"`
}

func genC20Bad(t *rapid.T) c20BadCase {
	c := c20BadCase{Pkg: genPayPkg(t, 3, 100, []string{"none", "none-gzip"})}
	c.Pkg.Stripped = false
	if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
		// a value that is not one name
		v := TagV{Tag: rapid.SampledFrom([]int32{tagPayloadFormat, tagPayloadCompressor}).Draw(t, "tag")}
		good := S("cpio")
		if v.Tag == tagPayloadCompressor {
			good = S(rapid.SampledFrom([]string{"gzip", "xz", "uncompressed"}).Draw(t, "good"))
		}
		switch rapid.IntRange(0, 3).Draw(t, "form") {
		case 0:
			v.Type, v.Ints = tInt32, []uint64{uint64(rapid.IntRange(0, 3).Draw(t, "n"))}
		case 1:
			v.Type, v.Bin = tBin, &Blob{Kind: "lit", Lit: good}
		case 2:
			v.Type, v.Strs = tStrArr, []S{good, good}
		default:
			v.Type, v.Strs = tI18N, []S{"cpio", "gzip", good}
		}
		c.Typed = &v
	} else if rapid.Bool().Draw(t, "badformat") {
		v := S(rapid.SampledFrom([]string{"", "drpm", "tar", "cpi", "cpio ", "CPIO", "ustar", "newc"}).Draw(t, "fmt"))
		c.Format = &v
	} else {
		v := S(rapid.SampledFrom([]string{"", "GZIP", "gz", "gzip ", "xzz", "zst", "lz4", "lzip", "lzma2", "bzip", "bz2", "none", "identity", "zstd\n", "uncompresse"}).Draw(t, "comp"))
		c.Name = &v
	}
	return c
}

func checkC20Bad(k *K, c c20BadCase) error {
	c.Pkg.Format = false
	arch, _, _ := c.Pkg.archive()
	p := c.Pkg.pkg()
	what := "compressor"
	if c.Format != nil {
		p.Gen.Tags = append(p.Gen.Tags, strTag(tagPayloadFormat, string(*c.Format)))
		what = "format"
	}
	if c.Name != nil {
		p.Gen.Tags = append(p.Gen.Tags, strTag(tagPayloadCompressor, string(*c.Name)))
	}
	if c.Typed != nil {
		p.Gen.Tags = append(p.Gen.Tags, *c.Typed)
		what = "kind of value"
	}
	b := p.BuildWith(compress(c.Pkg.Comp, arch, 1))
	k.Label("unknown " + what)
	k.NT()
	for i := 0; i < 3; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(b.All))
		if err != nil {
			return errf("ReadRpm: %v", err)
		}
		switch i {
		case 0:
			var r *cpio.Reader
			if r, err = rpm.PayloadReader(); err == nil {
				_, _, err = readWhole(r, 0)
			}
		case 1:
			var r rpmutils.PayloadReader
			if r, err = rpm.PayloadReaderExtended(); err == nil {
				_, _, err = readWholeExt(r, 0)
			}
		default:
			err = rpm.ExpandPayload(filepath.Join(k.Dir(), "x"))
		}
		if err == nil {
			return errf("payload of an unknown %s was read", what)
		}
	}
	return nil
}

// zstd frames one after another. The cgo decoder the library uses cannot read
// these under all circumstances: see the known finding.
type c20FramesCase struct {
	Pkg    PayPkg `json:"pkg"`
	Frames int    `json:"frames"`
	Chunks Chunks `json:"chunks"`
}

func genC20Frames(t *rapid.T) c20FramesCase {
	if cgoEnabled {
		f := PFile{Spec: FileSpec{Dir: "/", Base: "f", Mode: 0100644, User: "root", Group: "root"}, Data: Blob{Kind: "rand", N: 1000, Seed: 1}}
		return c20FramesCase{Pkg: PayPkg{Files: []PFile{f}, Comp: "zstd", Format: true}, Frames: 2}
	}
	c := c20FramesCase{Pkg: genPayPkg(t, 5, 2000, []string{"zstd"}), Chunks: genChunks(false).Draw(t, "chunks"), Frames: rapid.IntRange(2, 4).Draw(t, "frames")}
	return c
}

func checkC20Frames(k *K, c c20FramesCase) error {
	arch, _, idx := c.Pkg.archive()
	var payload []byte
	for i := 0; i < c.Frames; i++ {
		payload = append(payload, compress("zstd", arch[len(arch)*i/c.Frames:len(arch)*(i+1)/c.Frames], 1)...)
	}
	k.NT()
	return checkPayload(k, c.Pkg, c.Pkg.pkg().BuildWith(payload), idx, c.Chunks.reader(c.Pkg.pkg().BuildWith(payload).All), ReadPlan{})
}

// ---------------------------------------------------------------- C23

type c23Case struct {
	Pkg    StreamPkg `json:"pkg"`
	Muts   []HMut    `json:"muts,omitempty"`
	PayMut []HMut    `json:"paymuts,omitempty"` // damages within the payload
	Chunks Chunks    `json:"chunks"`
	Op     int       `json:"op"`
}

func genC23(t *rapid.T) c23Case {
	c := c23Case{Pkg: genStreamPkg(t, []string{"uncompressed", "uncompressed", "none", "none-gzip", "gzip", "bzip2", "xz", "lzma", "zstd"}, 600), Op: rapid.IntRange(0, numOps-1).Draw(t, "op")}
	c.Chunks = genStreams(true).Draw(t, "chunks")
	switch rapid.IntRange(0, 5).Draw(t, "damage") {
	case 0:
		c.Muts = []HMut{genHMut(t)}
	case 1:
		m := genHMut(t)
		m.Kind = rapid.SampledFrom([]string{"byte", "trunc", "cut"}).Draw(t, "paykind")
		m.Val = uint32(rapid.IntRange(1, 255).Draw(t, "payval"))
		c.PayMut = []HMut{m}
	}
	if len(c.Muts) > 0 || len(c.PayMut) > 0 && c.PayMut[0].Kind != "trunc" {
		c.Op = lzmaSafe(c.Pkg, c.Op)
	}
	return c
}

// lzmaSafe keeps damaged packages with lzma payloads from having the payload
// read: the size of the dictionary is stated in its first bytes and may come
// out as anything up to 4 GiB.
func lzmaSafe(p StreamPkg, op int) int {
	if p.Pay.Comp == "lzma" && op >= opPayload {
		return op % opPayload
	}
	return op
}

func checkC23(k *K, c c23Case) error {
	b := c.Pkg.build()
	data := b.All
	for _, m := range c.Muts {
		data = m.apply(data, 96, b.Start())
	}
	for _, m := range c.PayMut {
		data = append(append([]byte(nil), data[:b.End()]...), m.apply(data[b.End():], 0, 0)...)
	}
	k.Label(opNames[c.Op])
	k.Label(c.Pkg.Pay.Comp)
	if c.Pkg.Pay.Comp == "zstd" && c.Op >= opPayload && !bytes.HasSuffix(data, b.All[b.End():]) {
		// whether this decoder notices damage behind what it needs to decode
		// the archive depends on how much it gets at once
		k.Label("damaged zstd payload: skipped")
		return nil
	}
	dirs := make([]string, 2)
	for i := range dirs {
		dirs[i] = filepath.Join(k.Dir(), fmt.Sprint("d", i))
		must(os.Mkdir(dirs[i], 0755))
	}
	want, werr := runOp(c.Op, newChunkReader(data, Chunks{}), dirs[0])
	got, gerr := runOp(c.Op, c.Chunks.readerOf(k, data), dirs[1])
	k.LabelIf(werr != nil, "error")
	k.NTIf(len(c.Chunks.Sizes) > 0 || c.Chunks.Stutter || c.Chunks.EOFWith || c.Chunks.Form != formPlain)
	if (werr == nil) != (gerr == nil) {
		return errf("%s: read at once: error %v; read as %+v: error %v", opNames[c.Op], werr, c.Chunks, gerr)
	}
	if werr == nil && !sameStrings(want, got) {
		return errf("%s: results differ: %s", opNames[c.Op], firstDiff(want, got))
	}
	plain := c.Pkg.Pay.Comp == "uncompressed" || c.Pkg.Pay.Comp == "none"
	if werr != nil && plain && c.Op >= opPayload && c.Op < opExpand && !sameStrings(want, got) {
		return errf("%s: members before the error differ: %s", opNames[c.Op], firstDiff(want, got))
	}
	// errors of the same kind
	var kw, kg rpmutils.KeyNotFoundError
	if errors.As(werr, &kw) != errors.As(gerr, &kg) || kw.Error() != kg.Error() {
		return errf("%s: error %v, but %v when read as %+v", opNames[c.Op], werr, gerr, c.Chunks)
	}
	if plain && errors.Is(werr, io.ErrUnexpectedEOF) != errors.Is(gerr, io.ErrUnexpectedEOF) {
		return errf("%s: error %v, but %v when read as %+v", opNames[c.Op], werr, gerr, c.Chunks)
	}
	return nil
}

// ---------------------------------------------------------------- C24

type c24Case struct {
	Pkg    StreamPkg `json:"pkg"`
	Op     int       `json:"op"`
	At     int       `json:"at"`
	End    bool      `json:"end"`
	Chunks Chunks    `json:"chunks"`
	Eof    bool      `json:"eof"` // the fault is io.ErrUnexpectedEOF, as from a cut connection
}

func genC24(t *rapid.T) c24Case {
	c := c24Case{Pkg: genStreamPkg(t, []string{"uncompressed", "uncompressed", "none", "none-gzip", "gzip", "bzip2", "xz", "lzma", "zstd"}, 300), Op: rapid.IntRange(0, numOps-1).Draw(t, "op")}
	c.Pkg.Pay.Tail = rapid.SampledFrom([]int{0, 0, 5}).Draw(t, "tail")
	c.At = rapid.IntRange(0, 5000).Draw(t, "at")
	c.End = rapid.Bool().Draw(t, "end")
	if c.End {
		c.At = rapid.IntRange(0, 150).Draw(t, "fromend")
	}
	c.Chunks = genChunks(false).Draw(t, "chunks")
	c.Eof = rapid.IntRange(0, 3).Draw(t, "eof") == 0
	return c
}

// checkFault runs one operation on a stream that fails at the given offset.
func checkFault(k *K, op int, data []byte, good []string, need, at int, chunks Chunks, fault error, dir string) error {
	r := newChunkReader(data, chunks)
	r.failAt, r.failErr = at, fault
	must(os.Mkdir(dir, 0755))
	got, err := runOp(op, r, dir)
	if err != nil {
		if op == opPayload || op == opPayloadExt {
			if !prefixOf(got, good) {
				return errf("%s with a fault at %d: members read before it are wrong: %s", opNames[op], at, firstDiff(got, good))
			}
		}
		return nil
	}
	if at < need {
		return errf("%s succeeded although the stream failed at %d of %d bytes (needs %d)", opNames[op], at, len(data), need)
	}
	if !sameStrings(got, good) {
		return errf("%s succeeded with a wrong result although the stream failed at %d of %d bytes: %s", opNames[op], at, len(data), firstDiff(got, good))
	}
	k.Label("not needed")
	return nil
}

// needed is how many bytes an operation cannot do without.
func (s StreamPkg) needed(op int, b *Built) int {
	switch op {
	case opRead:
		return b.End()
	case opVerify, opVerifyKeys, opSign:
		return len(b.All) + 1 // up to and including the end itself
	}
	if s.Pay.Comp == "uncompressed" || s.Pay.Comp == "none" {
		_, ex, _ := s.Pay.archive()
		return b.End() + ex[len(ex)-1].Name + len("TRAILER!!!") + 1
	}
	return b.End() + 1
}

func checkC24(k *K, c c24Case) error {
	b := c.Pkg.build()
	d0 := filepath.Join(k.Dir(), "good")
	must(os.Mkdir(d0, 0755))
	good, err := runOp(c.Op, bytes.NewReader(b.All), d0)
	if err != nil {
		k.Label("fails anyway")
		return nil // a stripped archive cannot be extracted, for instance
	}
	at := c.At % (len(b.All) + 1)
	if c.End {
		at = max(0, len(b.All)-c.At)
	}
	k.Label(opNames[c.Op])
	k.LabelIf(at >= b.End(), "fault in the payload")
	k.NT()
	fault := errInjected
	if c.Eof {
		fault = io.ErrUnexpectedEOF
	}
	return checkFault(k, c.Op, b.All, good, c.Pkg.needed(c.Op, b), at, c.Chunks, fault, filepath.Join(k.Dir(), "bad"))
}

type c24AllCase struct {
	Pkg    StreamPkg `json:"pkg"`
	Op     int       `json:"op"`
	Chunks Chunks    `json:"chunks"`
}

func genC24All(t *rapid.T) c24AllCase {
	c := c24AllCase{Pkg: genStreamPkg(t, []string{"uncompressed", "gzip", "bzip2", "xz", "lzma", "zstd"}, 40), Op: rapid.IntRange(0, numOps-1).Draw(t, "op"), Chunks: genChunks(false).Draw(t, "chunks")}
	if len(c.Pkg.Pay.Files) > 2 {
		c.Pkg.Pay.Files = c.Pkg.Pay.Files[:2]
	}
	return c
}

func checkC24All(k *K, c c24AllCase) error {
	b := c.Pkg.build()
	d0 := filepath.Join(k.Dir(), "good")
	must(os.Mkdir(d0, 0755))
	good, err := runOp(c.Op, bytes.NewReader(b.All), d0)
	if err != nil {
		k.Label("fails anyway")
		return nil
	}
	k.Label(opNames[c.Op])
	k.NT()
	need := c.Pkg.needed(c.Op, b)
	step := 1
	if c.Op == opSign || c.Op == opExpand {
		step = 3
	}
	for at := 0; at <= len(b.All); at += step {
		if err := checkFault(&K{}, c.Op, b.All, good, need, at, c.Chunks, errInjected, filepath.Join(k.Dir(), fmt.Sprint("b", at))); err != nil {
			return err
		}
	}
	return nil
}

// ---------------------------------------------------------------- C26

type c26Case struct {
	Pkg   StreamPkg `json:"pkg"`
	Op    int       `json:"op"` // runOp's, then: 7 SignRpmFile, 8 cpio.Extract of the plain archive
	Muts  []HMut    `json:"muts,omitempty"`
	Cut   int       `json:"cut"`   // -1: whole, else bytes of the payload
	Fault int       `json:"fault"` // -1: none, else the stream fails at that offset of the payload
	Dest  int       `json:"dest"`  // 0 fine, 1 a file is in the way, 2 a directory is in the way of a file, 3 not writable, 4 missing parent
	Foul  int       `json:"foul"`  // 1: bad file list, 2: bad compressor, 3: payload too short to have one, 4: no archive in the payload
	Buf   int       `json:"buf"`
	Room  int       `json:"room"` // nonzero: no file may grow beyond this many bytes
	Way   int       `json:"way"`  // of signing a file: 0 to dest, 1 onto itself, 2 onto itself once signed, 3 raw signatures onto itself, 4 to a FIFO, 5 through a symbolic link
}

func genC26(t *rapid.T) c26Case {
	c := c26Case{Pkg: genStreamPkg(t, []string{"uncompressed", "none", "gzip", "bzip2", "xz", "lzma", "zstd", "zstd", "zstd"}, 3000), Op: rapid.IntRange(0, numOps+1).Draw(t, "op"), Cut: -1, Fault: -1}
	switch rapid.IntRange(0, 5).Draw(t, "what") {
	case 0:
		c.Muts = []HMut{genHMut(t)}
	case 1:
		c.Cut = rapid.IntRange(0, 4000).Draw(t, "cut")
	case 2:
		c.Fault = rapid.IntRange(0, 4000).Draw(t, "fault")
	case 3:
		c.Foul = rapid.IntRange(1, 3).Draw(t, "foul")
	}
	if rapid.IntRange(0, 11).Draw(t, "big") == 0 {
		// so much that a decompressor working ahead has to wait for its reader
		c.Pkg.Pay.Comp = rapid.SampledFrom([]string{"zstd", "zstd", "zstd", "gzip"}).Draw(t, "bigcomp")
		big := PFile{Spec: FileSpec{Dir: "/", Base: "big", Mode: mReg | 0644, Ino: 999, User: "root", Group: "root"}, Data: Blob{Kind: "rand", N: rapid.IntRange(1<<20, 6<<20).Draw(t, "bigsize"), Seed: 1}}
		c.Pkg.Pay.Files = append([]PFile{big}, c.Pkg.Pay.Files...)
		if rapid.Bool().Draw(t, "last") {
			c.Pkg.Pay.Files = append(c.Pkg.Pay.Files[1:], big)
		}
		if c.Foul == 0 && rapid.Bool().Draw(t, "fouled") {
			c.Foul = 4
		}
		c.Cut *= 1000
		c.Fault *= 1000
	}
	c.Dest = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "dest")
	c.Buf = rapid.SampledFrom([]int{0, 0, 1000, -1}).Draw(t, "buf")
	if c.Op == numOps {
		c.Way = rapid.IntRange(0, 5).Draw(t, "way")
	}
	if rapid.IntRange(0, 3).Draw(t, "full") == 0 {
		c.Room = rapid.SampledFrom([]int{1, 50, 97, 500, 1500, 3000, 5000}).Draw(t, "room")
	}
	if len(c.Muts) > 0 {
		c.Op = lzmaSafe(c.Pkg, c.Op)
	}
	return c
}

func openFDs() map[string]string {
	out := map[string]string{}
	d, err := os.Open("/proc/self/fd")
	must(err)
	names, err := d.Readdirnames(-1)
	must(err)
	self := fmt.Sprint(d.Fd())
	d.Close()
	for _, n := range names {
		if n != self {
			l, _ := os.Readlink("/proc/self/fd/" + n)
			out[n] = l
		}
	}
	return out
}

// leaks runs f and reports what it left behind. Nothing is collected meanwhile,
// so that no finalizer covers for a missing Close.
func leaks(f func()) error {
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	// opening something makes the runtime set up its poller, once
	pr, pw, err := os.Pipe()
	must(err)
	pr.Close()
	pw.Close()
	before, g0 := openFDs(), runtime.NumGoroutine()
	f()
	deadline := time.Now().Add(3 * time.Second)
	for wait := time.Microsecond; runtime.NumGoroutine() > g0; wait *= 2 {
		if time.Now().After(deadline) {
			buf := make([]byte, 1<<16)
			return errf("%d goroutines left, had %d:\n%s", runtime.NumGoroutine(), g0, buf[:runtime.Stack(buf, true)])
		}
		time.Sleep(min(wait, 20*time.Millisecond))
	}
	for fd, l := range openFDs() {
		if before[fd] != l {
			return errf("file descriptor %s is left open: %s", fd, l)
		}
	}
	return nil
}

// closeWatch is a stream of the caller, who will want to close it himself.
type closeWatch struct {
	io.Reader
	closed *bool
}

func (w closeWatch) Close() error {
	*w.closed = true
	return nil
}

func checkC26(k *K, c c26Case) error {
	b := c.Pkg.build()
	arch, _, _ := c.Pkg.Pay.archive()
	data := b.All
	switch c.Foul {
	case 1, 2:
		p := c.Pkg.Pay.pkg()
		if c.Foul == 1 {
			p.Gen.Tags = append(p.Gen.Tags, strsTag(tagOldFilenames, "a", "b", "c", "d", "e", "f", "g"))
		} else {
			var keep []TagV
			for _, v := range p.Gen.Tags {
				if v.Tag != tagPayloadCompressor {
					keep = append(keep, v)
				}
			}
			p.Gen.Tags = append(keep, strTag(tagPayloadCompressor, "huffman"))
		}
		data = p.BuildWith(b.Payload).All
	case 3:
		data = b.All[:b.End()+1]
	case 4:
		// not an archive, but properly compressed
		bad := append([]byte("junk"), arch...)
		data = c.Pkg.Pay.pkg().BuildWith(compress(c.Pkg.Pay.Comp, bad, 0)).All
	}
	for _, m := range c.Muts {
		data = m.apply(data, 96, b.Start())
	}
	if c.Cut >= 0 && c.Cut < len(b.Payload) && len(data) > b.End()+c.Cut {
		data = data[:b.End()+c.Cut]
	}
	dir := k.Dir()
	dest := filepath.Join(dir, "dest")
	switch c.Dest {
	case 0:
		must(os.Mkdir(dest, 0755))
	case 1:
		writeFile(dest, []byte("in the way"))
	case 2:
		must(os.MkdirAll(dest, 0755))
		for i := 0; i < 4; i++ {
			must(os.MkdirAll(filepath.Join(dest, fmt.Sprintf("d%d/f%d/x", i%3, i)), 0755))
		}
	case 3:
		must(os.Mkdir(dest, 0500))
	case 4:
		dest = filepath.Join(dir, "a/b/c")
	}
	name := fmt.Sprintf("SignRpmFile/%d", c.Way)
	if c.Op < numOps {
		name = opNames[c.Op]
	} else if c.Op == numOps+1 {
		name = "cpio.Extract"
	}
	in := filepath.Join(dir, "in.rpm")
	writeFile(in, data)
	out := dest
	switch c.Way {
	case 0:
		if c.Dest == 0 {
			out = filepath.Join(dest, "out.rpm")
		}
	case 1, 2, 3:
		out = in
		if c.Way == 2 {
			// the second time the size stays the same; data is replaced by what was signed
			_ = signFile(in, in, fixedSign)
		}
	case 4:
		out = filepath.Join(dir, "fifo")
		must(syscall.Mkfifo(out, 0600))
	case 5:
		out = filepath.Join(dir, "link")
		must(os.Symlink("in.rpm", out))
	}
	var opErr error
	closed := false
	src := func() io.Reader {
		r := newChunkReader(data, Chunks{})
		if c.Fault >= 0 {
			r.failAt, r.failErr = b.End()+c.Fault, errInjected
		}
		return closeWatch{r, &closed}
	}
	limited := func(f func()) func() { return f }
	if c.Room > 0 {
		limited = func(f func()) func() { return func() { withLimit(syscall.RLIMIT_FSIZE, uint64(c.Room), f) } }
	}
	err := leaks(limited(func() {
		switch {
		case c.Op == opPayload || c.Op == opPayloadExt:
			var rpm *rpmutils.Rpm
			if rpm, opErr = rpmutils.ReadRpm(src()); opErr != nil {
				return
			}
			// only this reader knows how to let go of the decompressor
			var r rpmutils.PayloadReader
			if r, opErr = rpm.PayloadReaderExtended(); opErr != nil {
				return
			}
			if _, _, opErr = readWholeExt(r, c.Buf); opErr != nil {
				// the reader is told by whoever gives up on a damaged member and moves on
				// (past members the header does not know, too)
				for i := 0; i < 100; i++ {
					_, _ = r.Next()
				}
			}
		case c.Op == opExpand:
			var rpm *rpmutils.Rpm
			if rpm, opErr = rpmutils.ReadRpm(src()); opErr == nil {
				opErr = rpm.ExpandPayload(dest)
			}
		case c.Op < numOps:
			_, opErr = runOp(c.Op, src(), "")
		case c.Op == numOps:
			f, err := os.Open(in)
			must(err)
			if c.Way == 4 {
				// something that takes the package, whether it comes or not
				r, err := os.OpenFile(out, os.O_RDWR, 0)
				must(err)
				done := make(chan bool)
				go func() {
					_, _ = io.Copy(io.Discard, r)
					close(done)
				}()
				defer func() {
					must(r.Close())
					<-done
				}()
			}
			if c.Way == 3 {
				_, opErr = rpmutils.RewriteWithSignatures(f, out, []byte("aaaa"), []byte("bbbb"))
			} else {
				_, opErr = rpmutils.SignRpmFile(f, out, testKeys()[0].Priv, fixedSign.options())
			}
			// the caller's file is his to close
			closed = f.Close() != nil
		default:
			r := newChunkReader(arch, Chunks{})
			if c.Fault >= 0 {
				r.failAt, r.failErr = c.Fault, errInjected
			}
			if c.Cut >= 0 && c.Cut < len(arch) {
				r.data = arch[:c.Cut]
			}
			opErr = cpio.Extract(closeWatch{r, &closed}, dest)
		}
	}))
	if closed {
		return errf("%s closed the stream it was given", name)
	}
	k.Label(name)
	k.LabelIf(opErr != nil, name+" failed")
	k.LabelIf(errors.Is(opErr, syscall.EFBIG), name+" out of room")
	k.NT()
	if err != nil {
		return errf("%s of a %s payload (error %v): %v", name, c.Pkg.Pay.Comp, opErr, err)
	}
	return nil
}

// ---------------------------------------------------------------- C27

type c27Case struct {
	Jobs   []c27Job  `json:"jobs"`
	Shared StreamPkg `json:"shared"` // one header used by several goroutines
	Procs  int       `json:"procs"`
	Vers   []S       `json:"vers"` // versions compared by several goroutines
}

type c27Job struct {
	Pkg    StreamPkg `json:"pkg"`
	Op     int       `json:"op"`
	Chunks Chunks    `json:"chunks"`
	Cut    int       `json:"cut"`
}

func genC27(t *rapid.T) c27Case {
	c := c27Case{Shared: genStreamPkg(t, []string{"gzip"}, 50), Procs: rapid.SampledFrom([]int{1, 2, 8}).Draw(t, "procs")}
	n := rapid.IntRange(2, 6).Draw(t, "njobs")
	for i := 0; i < n; i++ {
		j := c27Job{Pkg: genStreamPkg(t, []string{"uncompressed", "gzip", "bzip2", "xz", "lzma", "zstd"}, 400), Op: rapid.IntRange(0, numOps-1).Draw(t, "op"), Chunks: genChunks(false).Draw(t, "chunks")}
		if rapid.IntRange(0, 5).Draw(t, "damaged") == 0 {
			j.Cut = rapid.IntRange(1, 300).Draw(t, "cut")
		}
		c.Jobs = append(c.Jobs, j)
	}
	for i := rapid.IntRange(2, 8).Draw(t, "nvers"); i > 0; i-- {
		c.Vers = append(c.Vers, S(genVersion(t)))
	}
	return c
}

func checkC27(k *K, c c27Case) error {
	datas := make([][]byte, len(c.Jobs))
	want := make([][]string, len(c.Jobs))
	werr := make([]error, len(c.Jobs))
	ndir := 0
	newDir := func() string {
		ndir++
		d := filepath.Join(k.Dir(), fmt.Sprint("d", ndir))
		must(os.Mkdir(d, 0755))
		return d
	}
	for i, j := range c.Jobs {
		b := j.Pkg.build()
		datas[i] = b.All[:max(0, len(b.All)-j.Cut)]
		want[i], werr[i] = runOp(j.Op, j.Chunks.reader(datas[i]), newDir())
	}
	sb := c.Shared.build().All
	sh, err := rpmutils.ReadHeader(bytes.NewReader(sb))
	if err != nil {
		return errf("ReadHeader: %v", err)
	}
	sharedWant := describeHeader(sh)
	// one that nobody has looked at yet
	sh, err = rpmutils.ReadHeader(bytes.NewReader(sb))
	must(err)
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(c.Procs))
	const rounds = 2
	errs := make(chan error, rounds*len(c.Jobs)+20)
	var wg sync.WaitGroup
	start := make(chan struct{})
	spawn := func(f func() error) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if e := guard("a concurrent operation", func() {
				if err := f(); err != nil {
					errs <- err
				}
			}); e != nil {
				errs <- e
			}
		}()
	}
	for r := 0; r < rounds; r++ {
		for i, j := range c.Jobs {
			dir := newDir()
			spawn(func() error {
				got, err := runOp(j.Op, j.Chunks.reader(datas[i]), dir)
				if (err == nil) != (werr[i] == nil) {
					return errf("job %d (%s): error %v alone, %v concurrently", i, opNames[j.Op], werr[i], err)
				}
				if err == nil && !sameStrings(got, want[i]) {
					return errf("job %d (%s): other result concurrently: %s", i, opNames[j.Op], firstDiff(want[i], got))
				}
				return nil
			})
		}
	}
	for r := 0; r < 3; r++ {
		spawn(func() error {
			if got := describeHeader(sh); !sameStrings(got, sharedWant) {
				return errf("a shared header reads differently concurrently: %s", firstDiff(sharedWant, got))
			}
			return nil
		})
	}
	for r := 0; r < 3; r++ {
		spawn(func() error {
			for i := range c.Vers {
				for j := range c.Vers {
					a, b := string(c.Vers[i]), string(c.Vers[j])
					if got, want := rpmutils.Vercmp(a, b), refVercmp(a, b); got != want {
						return errf("Vercmp(%q, %q) is %d concurrently, want %d", a, b, got, want)
					}
					if got, want := rpmutils.NEVRAcmp(rpmutils.NEVRA{Version: a}, rpmutils.NEVRA{Version: b}), refVercmp(a, b); got != want {
						return errf("NEVRAcmp of versions %q and %q is %d concurrently, want %d", a, b, got, want)
					}
				}
			}
			return nil
		})
	}
	close(start)
	wg.Wait()
	close(errs)
	k.NTIf(c.Procs > 1)
	ops := map[string]bool{}
	for _, j := range c.Jobs {
		ops[opNames[j.Op]] = true
	}
	for o := range ops {
		k.Label(o)
	}
	return <-errs
}

// The same options, key and key ring used by several goroutines.
type c27ShareCase struct {
	Pkgs []StreamPkg `json:"pkgs"`
	Op   SignOp      `json:"op"`
}

func genC27Share(t *rapid.T) c27ShareCase {
	c := c27ShareCase{Op: genSignOp(t)}
	for i := rapid.IntRange(2, 4).Draw(t, "n"); i > 0; i-- {
		c.Pkgs = append(c.Pkgs, genStreamPkg(t, []string{"uncompressed"}, 50))
	}
	return c
}

func checkC27Share(k *K, c c27ShareCase) error {
	opts := c.Op.options()
	before := fmt.Sprintf("%+v", opts)
	key := testKeys()[c.Op.Key]
	kr := keyring(keyringKeys...)
	var wg sync.WaitGroup
	errs := make(chan error, len(c.Pkgs))
	t0 := time.Now()
	for _, p := range c.Pkgs {
		b := p.build()
		orig, err := parseRPM(b.All)
		must(err)
		wg.Add(1)
		go func() {
			defer wg.Done()
			h, err := rpmutils.SignRpmStream(bytes.NewReader(b.All), key.Priv, opts)
			if err != nil {
				errs <- errf("SignRpmStream: %v", err)
				return
			}
			sig, err := h.DumpSignatureHeader(c.Op.Same)
			if err != nil {
				errs <- errf("DumpSignatureHeader: %v", err)
				return
			}
			out := append(append([]byte(nil), sig...), b.All[b.Start():]...)
			if err := checkSigned(out, orig, c.Op, t0, time.Now()); err != nil {
				errs <- err
				return
			}
			if _, _, err := rpmutils.Verify(bytes.NewReader(out), kr); err != nil && key != testKeys()[strangerKey] {
				errs <- errf("Verify: %v", err)
			}
		}()
	}
	wg.Wait()
	close(errs)
	k.NT()
	if err := <-errs; err != nil {
		return err
	}
	if after := fmt.Sprintf("%+v", opts); after != before {
		return errf("signing changed the caller's options: %s, were %s", after, before)
	}
	return nil
}

func init() {
	register("C20", "random package payloads (newc or stripped, up to 1 MiB) encoded by every compressor, by in-process encoders with varied parameters and by the gzip, bzip2, xz and zstd programs with varied options, as one or several streams, announced or found by inspection, read under random chunking in cgo and non-cgo builds; and unknown compressors and formats; non-trivial: at least two archived files and a real compressor, or an unknown name", func(x *Ctx) {
		sub(x, "compressors", subOpts{quick: 15000, thorough: 150000}, genC20, checkC20)
		sub(x, "programs", subOpts{quick: 1250, thorough: 12000}, genC20Ext, checkC20)
		sub(x, "unknown", subOpts{quick: 3750, thorough: 30000}, genC20Bad, checkC20Bad)
		o := subOpts{quick: 5000, thorough: 40000}
		if cgoEnabled {
			o = subOpts{quick: 2, thorough: 1}
		}
		sub(x, "zstd-frames", o, genC20Frames, checkC20Frames)
	})
	register("C23", "random packages (with payloads under every compressor, signed or not, intact or damaged) run through every stream operation twice, once from memory at once and once under a random chunking with single bytes, empty reads and an end reported with data; non-trivial: the chunking differs from plain reads", func(x *Ctx) {
		sub(x, "chunking", subOpts{quick: 20000, thorough: 250000}, genC23, checkC23)
	})
	register("C24", "random packages run through every stream operation on a stream that fails at a random offset, or at every offset; non-trivial: every case whose operation succeeds without the fault", func(x *Ctx) {
		sub(x, "fault", subOpts{quick: 16000, thorough: 250000}, genC24, checkC24)
		sub(x, "every-offset", subOpts{quick: 120, thorough: 2000}, genC24All, checkC24All)
	})
	register("C26", "random packages under every compressor through every operation that opens files or starts goroutines, with truncation, damage, stream faults, unusable file lists and compressors, and destinations that cannot be written; every case is non-trivial", func(x *Ctx) {
		sub(x, "leaks", subOpts{quick: 4000, thorough: 100000}, genC26, checkC26)
	})
	register("C27", "2-6 random operations on different packages run concurrently (twice each, on 1, 2 or 8 processors) against the results of running them alone, with several goroutines reading one shared header; and several goroutines signing with one key, one options value and one key ring; non-trivial: more than one processor", func(x *Ctx) {
		sub(x, "jobs", subOpts{quick: 1200, thorough: 40000}, genC27, checkC27)
		sub(x, "shared", subOpts{quick: 800, thorough: 20000}, genC27Share, checkC27Share)
	})
}
