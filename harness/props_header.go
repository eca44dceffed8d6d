package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

// checkAccessors compares every accessor with the stored value (nil: absent).
func checkAccessors(h *rpmutils.RpmHeader, id int, v *TagV) error {
	fail := func(f string, a ...any) error { return errf("tag %d: "+f, append([]any{id}, a...)...) }
	if got := h.HasTag(id); got != (v != nil) {
		return fail("HasTag=%v, want %v", got, v != nil)
	}
	val, errGet := h.Get(id)
	ss, errSS := h.GetStrings(id)
	s, errS := h.GetString(id)
	is, errIs := h.GetInts(id)
	i, errI := h.GetInt(id)
	u32s, errU32s := h.GetUint32s(id)
	u32, errU32 := h.GetUint32(id)
	u64s, errU64s := h.GetUint64s(id)
	u64, errU64 := h.GetUint64(id)
	bs, errBs := h.GetBytes(id)
	if v == nil {
		for n, e := range map[string]error{"Get": errGet, "GetStrings": errSS, "GetString": errS, "GetInts": errIs, "GetInt": errI, "GetUint32s": errU32s,
			"GetUint32": errU32, "GetUint64s": errU64s, "GetUint64": errU64, "GetBytes": errBs} {
			var nst rpmutils.NoSuchTagError
			if !errors.As(e, &nst) {
				return fail("%s of an absent tag gave error %v, want NoSuchTagError", n, e)
			}
		}
		return nil
	}
	wantErr := func(name string, err error, want bool) error {
		if (err != nil) != want {
			return fail("%s of type %d %v: error %v, want error: %v", name, v.Type, v.Ints, err, want)
		}
		return nil
	}
	// what each accessor should do
	isStr, isInt, isBin := isStrType(v.Type), isIntType(v.Type), v.Type == tBin
	n := len(v.Ints)
	if isStr {
		n = len(v.Strs)
	}
	fits31 := true
	for _, x := range v.Ints {
		if x > 1<<31-1 {
			fits31 = false
		}
	}
	okInt := isInt && v.Type != tInt64 && fits31
	okU32 := isInt && v.Type != tInt64
	for _, e := range []error{
		wantErr("Get", errGet, !(isStr || isInt || isBin)),
		wantErr("GetStrings", errSS, !isStr), wantErr("GetString", errS, !(isStr && n == 1)),
		wantErr("GetInts", errIs, !okInt), wantErr("GetInt", errI, !(okInt && n == 1)),
		wantErr("GetUint32s", errU32s, !okU32), wantErr("GetUint32", errU32, !(okU32 && n == 1)),
		wantErr("GetUint64s", errU64s, !isInt), wantErr("GetUint64", errU64, !(isInt && n == 1)),
		wantErr("GetBytes", errBs, !isBin),
	} {
		if e != nil {
			return e
		}
	}
	var want any
	switch {
	case isStr:
		w := make([]string, 0, n)
		for _, x := range v.Strs {
			w = append(w, string(x))
		}
		want = w
		if !reflect.DeepEqual(ss, w) {
			return fail("GetStrings=%q want %q", ss, w)
		}
		if n == 1 && s != w[0] {
			return fail("GetString=%q want %q", s, w[0])
		}
	case isBin:
		w := v.Bin.Bytes()
		want = w
		if !bytes.Equal(bs, w) {
			return fail("GetBytes=%x want %x", bs, w)
		}
	case isInt:
		switch intSize[v.Type] {
		case 1:
			w := make([]uint8, n)
			for k, x := range v.Ints {
				w[k] = uint8(x)
			}
			want = w
		case 2:
			w := make([]uint16, n)
			for k, x := range v.Ints {
				w[k] = uint16(x)
			}
			want = w
		case 4:
			w := make([]uint32, n)
			for k, x := range v.Ints {
				w[k] = uint32(x)
			}
			want = w
		case 8:
			want = append([]uint64(nil), v.Ints...)
		}
		if len(u64s) != n || (okU32 && len(u32s) != n) || (okInt && len(is) != n) {
			return fail("lengths %d %d %d, want %d", len(u64s), len(u32s), len(is), n)
		}
		for k, x := range v.Ints {
			if u64s[k] != x {
				return fail("GetUint64s[%d]=%d want %d", k, u64s[k], x)
			}
			if okU32 && uint64(u32s[k]) != x {
				return fail("GetUint32s[%d]=%d want %d", k, u32s[k], x)
			}
			if okInt && uint64(is[k]) != x {
				return fail("GetInts[%d]=%d want %d", k, is[k], x)
			}
		}
		if n == 1 {
			if u64 != v.Ints[0] || (okU32 && uint64(u32) != v.Ints[0]) || (okInt && uint64(i) != v.Ints[0]) {
				return fail("single-value accessors gave %d %d %d, want %d", u64, u32, i, v.Ints[0])
			}
		}
	}
	if want != nil && !reflect.DeepEqual(val, want) {
		return fail("Get=%#v want %#v", val, want)
	}
	return nil
}

// publicTags maps public tag ids to what is stored under them.
func publicTags(b *Built) map[int]*TagV {
	m := map[int]*TagV{}
	for i := range b.SigH.Tags {
		v := &b.SigH.Tags[i]
		m[int(v.Tag)+sigOff] = v
		if v.Tag < 1000 {
			m[int(v.Tag)] = v
		}
	}
	for i := range b.GenH.Tags {
		v := &b.GenH.Tags[i]
		if v.Tag >= 1000 && v.Tag < sigOff {
			m[int(v.Tag)] = v
		}
	}
	return m
}

type c01Case struct {
	Pkg    Pkg    `json:"pkg"`
	Chunks Chunks `json:"chunks"`
	Absent []int  `json:"absent"`
}

func genC01(t *rapid.T) c01Case {
	c := c01Case{Pkg: genPkg(t, 12, 40), Chunks: genStreams(true).Draw(t, "chunks")}
	c.Absent = rapid.SliceOfN(rapid.IntRange(64, 60000), 0, 6).Draw(t, "absent")
	// tags the library interprets are read like any other
	special := func(h *Hdr, tags []int32) {
		for i := rapid.IntRange(0, 3).Draw(t, "nspecial"); i > 0; i-- {
			h.Tags = append([]TagV{genVal(t, rapid.SampledFrom(tags).Draw(t, "special"), true)}, h.Tags...)
		}
		dedup(h)
		sortTags(h.Tags)
	}
	if rapid.Bool().Draw(t, "specials") {
		special(&c.Pkg.Gen, []int32{tagName, tagEpoch, tagArch, tagSize, tagLongSize, tagOldFilenames, tagOldFilenames, tagBasenames, tagDirnames, tagDirIndexes, tagFileSizes, tagLongFileSizes, tagFileModes, tagFileLinktos, tagFileDevices, tagPayloadFormat, tagPayloadCompressor})
		special(&c.Pkg.Sig, []int32{sigDSA, sigRSA, sigPGP, sigMD5, sigGPG, sigPayloadSize, sigReserved, sigLongArchive})
	}
	if _, ok := c.Pkg.Sig.find(sigMD5); ok {
		c.Pkg.Dig.MD5 = false
	}
	return c
}

func checkC01(k *K, c c01Case) error {
	b := c.Pkg.Build()
	h, err := rpmutils.ReadHeader(c.Chunks.readerOf(k, b.All))
	if err != nil {
		return errf("well-formed package rejected: %v", err)
	}
	m := publicTags(b)
	types := map[int32]bool{}
	for id, v := range m {
		types[v.Type] = true
		if err := checkAccessors(h, id, v); err != nil {
			return err
		}
	}
	// ids that are absent, including the other reading of every stored tag
	probe := append([]int{}, c.Absent...)
	for _, v := range b.GenH.Tags {
		probe = append(probe, int(v.Tag)+sigOff)
	}
	for _, v := range b.SigH.Tags {
		if v.Tag >= 1000 && v.Tag < sigOff {
			probe = append(probe, int(v.Tag))
		}
	}
	for _, id := range probe {
		if id == sigOff || id == sigOff+62 || id == tagOldFilenames || id == sigOff+tagOldFilenames {
			continue
		}
		if _, ok := m[id]; !ok {
			if err := checkAccessors(h, id, nil); err != nil {
				return err
			}
		}
	}
	for ty := range types {
		k.Label("type " + strconv.Itoa(int(ty)))
	}
	k.LabelIf(c.Pkg.Gen.Perm != 0 || c.Pkg.Sig.Perm != 0, "data not in index order")
	k.NTIf(len(c.Pkg.Gen.Tags) > 5 || len(c.Pkg.Sig.Tags) > 2)
	return nil
}

type c01FallCase struct {
	Int  *TagV `json:"int"`
	Long *TagV `json:"long"`
	Sig  bool  `json:"sig"`
}

func genC01Fall(t *rapid.T) c01FallCase {
	c := c01FallCase{Sig: rapid.Bool().Draw(t, "sig")}
	one := func(tag int32) *TagV {
		if rapid.IntRange(0, 2).Draw(t, "present") == 0 {
			return nil
		}
		ty := rapid.SampledFrom([]int32{tInt8, tInt16, tInt32, tInt64}).Draw(t, "ty")
		v := intTag(tag, ty, genUint(intSize[ty]*8).Draw(t, "v"))
		switch rapid.IntRange(0, 9).Draw(t, "more") {
		case 0:
			v.Ints = append(v.Ints, genUint(intSize[ty]*8).Draw(t, "v2"))
		case 1:
			v = strTag(tag, strconv.FormatUint(v.Ints[0], 10))
		case 2:
			v.Ints = nil
		}
		return &v
	}
	c.Int, c.Long = one(1009), one(5009)
	if c.Sig {
		if c.Int != nil {
			c.Int.Tag = 1000
		}
		if c.Long != nil {
			c.Long.Tag = 270
		}
	}
	return c
}

func checkC01Fall(k *K, c c01FallCase) error {
	var p Pkg
	p.Gen.Tags = identityTags()
	intID, longID := 1009, 5009
	dst := &p.Gen.Tags
	if c.Sig {
		dst = &p.Sig.Tags
		intID, longID = sigOff+1000, 270
	}
	var want *uint64
	if c.Int != nil {
		*dst = append(*dst, *c.Int)
		want = new(uint64)
		if len(c.Int.Ints) > 0 {
			want = &c.Int.Ints[0]
		}
	}
	if c.Long != nil {
		*dst = append(*dst, *c.Long)
		want = new(uint64)
		if len(c.Long.Ints) > 0 {
			want = &c.Long.Ints[0]
		}
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(p.Build().All))
	if err != nil {
		return err
	}
	got, err := h.GetUint64Fallback(intID, longID)
	if want == nil {
		var nst rpmutils.NoSuchTagError
		if !errors.As(err, &nst) {
			return errf("fallback of two absent tags: %d, %v", got, err)
		}
		return nil
	}
	k.NT()
	rec := c.Int
	if c.Long != nil {
		rec = c.Long
	}
	if isStrType(rec.Type) || len(rec.Ints) != 1 {
		k.Label("not a single number")
		if err == nil {
			return errf("GetUint64Fallback=%d of a tag of type %d with %d values", got, rec.Type, len(rec.Ints))
		}
		return nil
	}
	if err != nil || got != *want {
		return errf("GetUint64Fallback=%d,%v want %d", got, err, *want)
	}
	return nil
}

// Values of many elements, and headers of many tags.
type c01LargeCase struct {
	Vals []LargeVal `json:"vals"`
	Tags int        `json:"tags"` // further tags
	Sig  bool       `json:"sig"`
	Blob int        `json:"blob,omitempty"` // the length of a large value
}

type LargeVal struct {
	Type int32  `json:"type"`
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
}

func (l LargeVal) tag(tag int32) TagV {
	v := TagV{Tag: tag, Type: l.Type}
	r := prng(l.Seed)
	for i := 0; i < l.N; i++ {
		x := r.next()
		switch {
		case isStrType(l.Type):
			v.Strs = append(v.Strs, S(strconv.FormatUint(x>>(x%60), 36)))
			if x%7 == 0 {
				v.Strs[i] = ""
			}
		default:
			if l.Seed%2 == 0 {
				x &= 0x7fffffff
			}
			v.Ints = append(v.Ints, x&(1<<(8*intSize[l.Type]-1)*2-1))
		}
	}
	return v
}

func genLargeN(t *rapid.T) int {
	return rapid.SampledFrom([]int{100, 255, 256, 257, 300, 1000, 4095, 4096, 4097, 5000, 32767, 32768, 65535, 65536, 65537, 70000}).Draw(t, "n")
}

func genC01Large(t *rapid.T) c01LargeCase {
	c := c01LargeCase{Sig: rapid.Bool().Draw(t, "sig")}
	for i := rapid.IntRange(1, 3).Draw(t, "nvals"); i > 0; i-- {
		c.Vals = append(c.Vals, LargeVal{rapid.SampledFrom([]int32{tInt8, tInt16, tInt32, tInt64, tStrArr, tStrArr, tI18N}).Draw(t, "type"), genLargeN(t), uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed"))})
	}
	c.Tags = rapid.SampledFrom([]int{0, 0, 300, 1000, 4000, 4096, 5000, 20000, 32768, 65000}).Draw(t, "tags")
	c.Blob = genLargeBlob(t)
	return c
}

// genLargeBlob draws the size of one large value: rpm allows 256 MiB in a header.
func genLargeBlob(t *rapid.T) int {
	if rapid.IntRange(0, 11).Draw(t, "blob") != 0 {
		return 0
	}
	return rapid.SampledFrom([]int{1<<20 - 1, 1 << 20, 1<<24 - 1, 1<<24 + 1, 33 << 20, 40<<20 + 3}).Draw(t, "bloblen")
}

func checkC01Large(k *K, c c01LargeCase) error {
	var p Pkg
	p.Gen.Tags = identityTags()
	p.Gen.Perm = uint64(c.Tags)
	dst, at := &p.Gen.Tags, int32(1500)
	if c.Sig {
		dst, at = &p.Sig.Tags, 300
	}
	for i, l := range c.Vals {
		*dst = append(*dst, l.tag(at+int32(i)))
	}
	for i := 0; i < c.Tags; i++ {
		if i%2 == 0 {
			*dst = append(*dst, intTag(at+1000+int32(i), tInt32, uint64(i)))
		} else {
			*dst = append(*dst, strTag(at+1000+int32(i), strconv.Itoa(i)))
		}
	}
	if c.Blob > 0 {
		*dst = append(*dst, binTag(at+500, Blob{Kind: "rand", N: c.Blob, Seed: 1}.Bytes()))
		k.Label("a value of 1 MiB and more")
	}
	b := p.Build()
	h, err := rpmutils.ReadHeader(bytes.NewReader(b.All))
	if err != nil {
		return errf("well-formed package rejected: %v", err)
	}
	for id, v := range publicTags(b) {
		if err := checkAccessors(h, id, v); err != nil {
			return errf("%.400s", err)
		}
	}
	k.NT()
	k.LabelIf(c.Tags > 0, "many tags")
	for _, l := range c.Vals {
		k.LabelIf(l.N > 1<<16, "more than 64 Ki elements")
	}
	return nil
}

// ---------------------------------------------------------------- C02

type c02Case struct {
	Pkg    Pkg    `json:"pkg"`
	Chunks Chunks `json:"chunks"`
	Extra  []int  `json:"extra"` // lengths of extra signature tags, to vary the padding
	Via    int    `json:"via"`
}

func genC02(t *rapid.T) c02Case {
	return c02Case{Pkg: genPkg(t, 8, 400), Chunks: genStreams(true).Draw(t, "chunks"), Extra: rapid.SliceOfN(rapid.IntRange(1, 9), 0, 2).Draw(t, "extra"), Via: rapid.IntRange(0, 1).Draw(t, "via")}
}

func checkC02(k *K, c c02Case) error {
	for i, n := range c.Extra {
		c.Pkg.Sig.Tags = append(c.Pkg.Sig.Tags, binTag(int32(2000+i), make([]byte, n)))
	}
	b := c.Pkg.Build()
	r := c.Chunks.readerOf(k, b.All)
	var h *rpmutils.RpmHeader
	if c.Via == 0 {
		var err error
		if h, err = rpmutils.ReadHeader(r); err != nil {
			return err
		}
	} else {
		rpm, err := rpmutils.ReadRpm(r)
		if err != nil {
			return err
		}
		h = rpm.Header
	}
	if r, ok := r.(*chunkReader); ok && r.pos != b.End() {
		return errf("reading the header consumed %d bytes, the headers end at %d", r.pos, b.End())
	}
	rest, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(rest, b.Payload) {
		return errf("stream not positioned at the payload: %d bytes left, want %d", len(rest), len(b.Payload))
	}
	if got := h.GetRange(); got.Start != b.Start() || got.End != b.End() {
		return errf("GetRange=%+v want {%d %d}", got, b.Start(), b.End())
	}
	if got := h.OriginalSignatureHeaderSize(); got != b.Start() {
		return errf("OriginalSignatureHeaderSize=%d want %d", got, b.Start())
	}
	if h.IsSource() != c.Pkg.Source {
		return errf("IsSource=%v want %v", h.IsSource(), c.Pkg.Source)
	}
	size := binary.BigEndian.Uint32(b.Sig[12:])
	k.Label(fmt.Sprintf("sig size mod 8 = %d", size%8))
	k.LabelIf(len(b.Payload) == 0, "empty payload")
	k.NTIf(size%8 != 0 || len(b.Payload) > 0)
	return nil
}

// c02LargeCase is a package with large headers.
type c02LargeCase struct {
	Sig  int `json:"sig"` // length of a value in the signature header
	Gen  int `json:"gen"`
	Tags int `json:"tags"`
	Pay  int `json:"pay"`
	Via  int `json:"via"`
}

func genC02Large(t *rapid.T) c02LargeCase {
	c := c02LargeCase{Sig: genLargeBlob(t), Gen: genLargeBlob(t), Tags: rapid.SampledFrom([]int{0, 255, 256, 257, 4095, 4096, 5000, 16384, 32768, 65000}).Draw(t, "tags"), Pay: rapid.SampledFrom([]int{0, 1, 100, 70000}).Draw(t, "pay"), Via: rapid.IntRange(0, 1).Draw(t, "via")}
	return c
}

func checkC02Large(k *K, c c02LargeCase) error {
	p := Pkg{Payload: Blob{Kind: "rand", N: c.Pay, Seed: 2}}
	p.Gen.Tags = identityTags()
	if c.Sig > 0 {
		p.Sig.Tags = append(p.Sig.Tags, binTag(2000, make([]byte, c.Sig)))
	}
	if c.Gen > 0 {
		p.Gen.Tags = append(p.Gen.Tags, binTag(1999, make([]byte, c.Gen)))
	}
	for i := 0; i < c.Tags; i++ {
		p.Gen.Tags = append(p.Gen.Tags, intTag(int32(6000+i), tInt32, uint64(i)))
	}
	b := p.Build()
	f := bytes.NewReader(b.All)
	var h *rpmutils.RpmHeader
	if c.Via == 0 {
		var err error
		if h, err = rpmutils.ReadHeader(f); err != nil {
			return err
		}
	} else {
		rpm, err := rpmutils.ReadRpm(f)
		if err != nil {
			return err
		}
		h = rpm.Header
	}
	if f.Len() != c.Pay {
		return errf("reading the header left %d bytes, the payload has %d", f.Len(), c.Pay)
	}
	if got := h.GetRange(); got.Start != b.Start() || got.End != b.End() {
		return errf("GetRange=%+v want {%d %d}", got, b.Start(), b.End())
	}
	k.NT()
	k.LabelIf(c.Sig > 0 || c.Gen > 0, "a value of 1 MiB and more")
	k.LabelIf(c.Tags > 255, "more than 255 tags")
	return nil
}

// ---------------------------------------------------------------- C04

type c04Case struct {
	Pkg     Pkg  `json:"pkg"`
	BadSHA1 int  `json:"badsha1"` // 0 right, 1 wrong, 2 truncated, 3 digest of other bytes, 4 one digit, 5 too long, 6 headless
	BadSHA2 int  `json:"badsha2"`
	FlipAt  int  `json:"flipat"` // byte of the general header to alter, -1 for none
	FlipBit byte `json:"flipbit"`
	API     int  `json:"api"`
	Opts    int  `json:"opts"` // hash for signing
}

func genC04(t *rapid.T) c04Case {
	c := c04Case{Pkg: genPkg(t, 4, 60), FlipAt: -1}
	c.Pkg.Gen.Tags = append(c.Pkg.Gen.Tags, TagV{Tag: 1004, Type: tString, Strs: []S{"summary"}})
	dedup(&c.Pkg.Gen)
	if c.Pkg.Dig.PayAlgo == 0 {
		c.Pkg.Dig.PayAlgo = 8
	}
	switch rapid.IntRange(0, 3).Draw(t, "mode") {
	case 0: // nothing wrong
	case 1:
		c.FlipAt = rapid.IntRange(0, 1<<16).Draw(t, "flip")
		c.FlipBit = byte(1) << rapid.IntRange(0, 7).Draw(t, "bit")
	default:
		c.BadSHA1 = rapid.IntRange(0, 10).Draw(t, "bad1")
		c.BadSHA2 = rapid.IntRange(0, 10).Draw(t, "bad2")
	}
	c.API = rapid.IntRange(0, 2).Draw(t, "api")
	c.Opts = rapid.IntRange(0, 4).Draw(t, "opts")
	return c
}

// dedup drops later duplicates of a tag.
func dedup(h *Hdr) {
	seen := map[int32]bool{}
	var out []TagV
	for _, v := range h.Tags {
		if !seen[v.Tag] {
			seen[v.Tag] = true
			out = append(out, v)
		}
	}
	h.Tags = out
}

func corruptHex(kind int, s string) string {
	switch kind {
	case 1: // one digit changed
		c := byte('0')
		if s[len(s)-1] == '0' {
			c = '1'
		}
		return s[:len(s)-1] + string(c)
	case 2:
		return s[:len(s)-2]
	case 3:
		d, _ := hex.DecodeString(s)
		for i := range d {
			d[i] ^= 0xff
		}
		return hex.EncodeToString(d)
	case 4:
		return s[:1]
	case 5:
		return s + "0"
	case 6:
		return s[1:]
	case 7:
		return " " + s
	case 8:
		return s + "\n"
	case 9:
		return "0x" + s
	case 10:
		return s + s
	}
	return s
}

func checkC04(k *K, c c04Case) error {
	p := c.Pkg
	b := p.Build()
	// recompute the signature header with damaged records
	sig := b.SigH
	sig.Tags = append([]TagV(nil), sig.Tags...)
	for i, v := range sig.Tags {
		switch v.Tag {
		case sigSHA1:
			sig.Tags[i] = strTag(sigSHA1, corruptHex(c.BadSHA1, string(v.Strs[0])))
		case sigSHA2:
			sig.Tags[i] = strTag(sigSHA2, corruptHex(c.BadSHA2, string(v.Strs[0])))
		}
	}
	gen := append([]byte(nil), b.Gen...)
	flipped := false
	if c.FlipAt >= 0 {
		gen[c.FlipAt%len(gen)] ^= c.FlipBit
		flipped = true
	}
	all := bytes.Join([][]byte{b.Lead, sig.Encode(true), gen, b.Payload}, nil)
	var wantOK bool
	switch {
	case p.Dig.SHA256:
		wantOK = c.BadSHA2 == 0 && !flipped
		k.Label("sha256 decides")
		if c.BadSHA2 == 0 && p.Dig.SHA1 && c.BadSHA1 != 0 && !flipped {
			// the weaker record disagrees with the stronger one: either is defensible
			return nil
		}
	case p.Dig.SHA1:
		wantOK = c.BadSHA1 == 0 && !flipped
		k.Label("sha1 decides")
	default:
		if flipped {
			return nil // nothing recorded, nothing promised
		}
		wantOK = true
		k.Label("no header digest")
	}
	k.LabelIf(flipped, "header altered")
	k.LabelIf(!wantOK, "must be rejected")
	k.NTIf(p.Dig.SHA1 || p.Dig.SHA256)
	var err error
	name := ""
	switch c.API {
	case 0:
		name = "ReadHeader"
		_, err = rpmutils.ReadHeader(bytes.NewReader(all))
	case 1:
		name = "Verify"
		_, _, err = rpmutils.Verify(bytes.NewReader(all), nil)
	default:
		name = "SignRpmStream"
		var opts *rpmutils.SignatureOptions
		if h := []crypto.Hash{0, crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512}[c.Opts%5]; h != 0 {
			opts = &rpmutils.SignatureOptions{Hash: h}
		}
		_, err = rpmutils.SignRpmStream(bytes.NewReader(all), testKeys()[0].Entity.PrivateKey, opts)
	}
	if (err == nil) != wantOK {
		return errf("%s: error %v, want acceptance=%v (sha256 recorded=%v bad=%d, sha1 recorded=%v bad=%d, header altered=%v)", name, err, wantOK, p.Dig.SHA256, c.BadSHA2, p.Dig.SHA1, c.BadSHA1, flipped)
	}
	return nil
}

// The record itself in other shapes, and its bytes altered where they are stored.
type c04RecCase struct {
	Pkg   Pkg     `json:"pkg"`
	SHA1  *c04Rec `json:"sha1,omitempty"`
	SHA2  *c04Rec `json:"sha2,omitempty"`
	Other bool    `json:"other"` // the general header is not the one the records are about
	API   int     `json:"api"`
}

type c04Rec struct {
	Type int32 `json:"type"`
	Vals []int `json:"vals"` // of corruptHex; 11 empty, 12 the digest's bytes
	// then one byte of the record is altered
	Where int  `json:"where"` // 0 nothing, 1 its text, 2 its index entry
	At    int  `json:"at"`
	Xor   byte `json:"xor"`
}

func genC04Rec(t *rapid.T) c04RecCase {
	c := c04RecCase{Pkg: genPkg(t, 4, 60), API: rapid.IntRange(0, 2).Draw(t, "api"), Other: rapid.IntRange(0, 3).Draw(t, "other") == 0}
	c.Pkg.Dig = Digests{PayAlgo: 8}
	one := func() *c04Rec {
		if rapid.IntRange(0, 2).Draw(t, "none") == 0 {
			return nil
		}
		r := &c04Rec{Type: rapid.SampledFrom([]int32{tString, tString, tString, tStrArr, tI18N, tBin, tInt8, tInt32}).Draw(t, "type"), Vals: []int{0}}
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			r.Vals = rapid.SliceOfN(rapid.IntRange(0, 12), 1, 3).Draw(t, "vals")
		case 1:
			r.Where, r.At = rapid.IntRange(1, 2).Draw(t, "where"), rapid.IntRange(0, 64).Draw(t, "at")
			r.Xor = rapid.ByteRange(1, 255).Draw(t, "xor")
		}
		return r
	}
	c.SHA1, c.SHA2 = one(), one()
	return c
}

// value returns what is stored, and whether any of it can be called the digest.
func (r c04Rec) value(tag int32, digest string) (v TagV, any bool) {
	var vals []string
	raw, _ := hex.DecodeString(digest)
	for _, x := range r.Vals {
		s := corruptHex(x, digest)
		if x == 11 {
			s = ""
		} else if x == 12 {
			s = string(raw)
		}
		any = any || s == digest || s == string(raw)
		vals = append(vals, s)
	}
	switch {
	case r.Type == tString:
		vals = vals[:1]
		any = vals[0] == digest || vals[0] == string(raw)
		return strTag(tag, vals[0]), any
	case isStrType(r.Type):
		v = strsTag(tag, vals...)
		v.Type = r.Type
	case r.Type == tBin:
		v = binTag(tag, []byte(strings.Join(vals, "\x00")+"\x00"))
	default:
		v = TagV{Tag: tag, Type: r.Type}
		for _, x := range []byte(vals[0] + "\x00") {
			v.Ints = append(v.Ints, uint64(x))
		}
	}
	return v, any
}

// alter changes one byte of the record in an encoded signature header. It
// reports whether what is recorded may still be the digest.
func (r c04Rec) alter(sig []byte, tag int32) bool {
	n := int(binary.BigEndian.Uint32(sig[8:]))
	for e := 16; e < 16+16*n; e += 16 {
		if int32(binary.BigEndian.Uint32(sig[e:])) != tag {
			continue
		}
		switch r.Where {
		case 1:
			off := 16 + 16*n + int(binary.BigEndian.Uint32(sig[e+8:]))
			l := bytes.IndexByte(sig[off:], 0)
			at := off + r.At%(l+1)
			was := sig[at]
			sig[at] ^= r.Xor
			return strings.EqualFold(string(was), string(sig[at]))
		case 2:
			// not the tag: without it there is no record; nor the count, which
			// may add to what is recorded
			at := e + 4 + r.At%8
			sig[at] ^= r.Xor
			return at < e+8
		}
	}
	return true
}

func checkC04Rec(k *K, c c04RecCase) error {
	b := c.Pkg.Build()
	sig := b.SigH
	sig.Tags = append([]TagV(nil), sig.Tags...)
	of := b.Gen
	if c.Other {
		of = append([]byte("x"), b.Gen...)
	}
	var decides *c04Rec
	open := true
	for _, r := range []struct {
		rec  *c04Rec
		tag  int32
		hash crypto.Hash
	}{{c.SHA1, sigSHA1, crypto.SHA1}, {c.SHA2, sigSHA2, crypto.SHA256}} {
		if r.rec == nil {
			continue
		}
		v, any := r.rec.value(r.tag, hex.EncodeToString(sum(r.hash, of)))
		sig.Tags = append(sig.Tags, v)
		decides, open = r.rec, any && !c.Other
	}
	sortTags(sig.Tags)
	raw := sig.Encode(true)
	if c.SHA1 != nil && !c.SHA1.alter(raw, sigSHA1) && c.SHA2 == nil {
		open = false
	}
	if c.SHA2 != nil && !c.SHA2.alter(raw, sigSHA2) {
		open = false
	}
	if decides == nil {
		return nil
	}
	plain := func(r *c04Rec) bool { return r == nil || r.Type == tString && r.Vals[0] == 0 && r.Where == 0 }
	good := plain(c.SHA1) && plain(c.SHA2) && !c.Other
	k.NT()
	k.LabelIf(!open, "must be rejected")
	k.LabelIf(good, "must be accepted")
	k.Label(fmt.Sprintf("record of type %d", decides.Type))
	all := bytes.Join([][]byte{b.Lead, raw, b.Gen, b.Payload}, nil)
	var err error
	name := "ReadHeader"
	switch c.API {
	case 0:
		_, err = rpmutils.ReadHeader(bytes.NewReader(all))
	case 1:
		name = "Verify"
		_, _, err = rpmutils.Verify(bytes.NewReader(all), nil)
	default:
		name = "SignRpmStream"
		_, err = rpmutils.SignRpmStream(bytes.NewReader(all), testKeys()[0].Entity.PrivateKey, nil)
	}
	if err == nil && !open {
		return errf("%s succeeds although the digest recorded is not the header's (sha1 %+v, sha256 %+v)", name, c.SHA1, c.SHA2)
	}
	if err != nil && good {
		return errf("%s: %v", name, err)
	}
	return nil
}

// ---------------------------------------------------------------- C05

// FileSpec is a file recorded in a package header.
type FileSpec struct {
	Dir    S      `json:"dir"` // with trailing slash, or empty
	Base   S      `json:"base"`
	Size   uint64 `json:"size"`
	User   S      `json:"user"`
	Group  S      `json:"group"`
	Flags  uint32 `json:"flags"`
	Mtime  uint32 `json:"mtime"`
	Digest S      `json:"digest"`
	Mode   uint32 `json:"mode"`
	Link   S      `json:"link"`
	Dev    uint32 `json:"dev"`
	Ino    uint32 `json:"ino"`
}

// manyFiles makes up a long file list.
func manyFiles(n, dirs int, seed uint64) []FileSpec {
	r := prng(seed)
	fs := make([]FileSpec, n)
	for i := range fs {
		x := r.next()
		d := int(x % uint64(dirs))
		if i < dirs {
			d = i // every directory has its use
		}
		fs[i] = FileSpec{Dir: S("/d" + strconv.Itoa(d) + "/"), Base: S("f" + strconv.Itoa(i)), Size: x >> 33, User: S("u" + strconv.Itoa(int(x>>8%7))),
			Group: S("g" + strconv.Itoa(int(x>>16%300))), Flags: uint32(x >> 5), Mtime: uint32(x >> 7), Mode: mReg | uint32(x>>11)&0777, Dev: 1, Ino: uint32(i + 1)}
		if x>>20%3 == 0 {
			fs[i].Digest = S(strconv.FormatUint(x, 16))
		}
	}
	return fs
}

// Long file lists.
type c05LargeCase struct {
	N    int     `json:"n"`
	Dirs int     `json:"dirs"`
	Seed uint64  `json:"seed"`
	Enc  FileEnc `json:"enc"`
}

func genC05Large(t *rapid.T) c05LargeCase {
	c := c05LargeCase{N: genLargeN(t), Seed: uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed"))}
	c.Dirs = min(c.N, rapid.SampledFrom([]int{1, 127, 128, 129, 255, 256, 257, 300, 1000, 32769, 65535, 65536, 65537, 70000}).Draw(t, "dirs"))
	if c.N > 1<<16 && rapid.Bool().Draw(t, "alldirs") {
		c.Dirs = c.N
	}
	c.Enc = FileEnc{OldNames: rapid.IntRange(0, 3).Draw(t, "old") == 0, Long: rapid.Bool().Draw(t, "long"), NoDev: rapid.IntRange(0, 4).Draw(t, "nodev") == 0,
		NoIno: rapid.IntRange(0, 4).Draw(t, "noino") == 0, DupDirs: rapid.IntRange(0, 4).Draw(t, "dupdirs") == 0, DirRev: rapid.Bool().Draw(t, "dirrev")}
	return c
}

func checkC05Large(k *K, c c05LargeCase) error {
	k.NT()
	k.LabelIf(c.N > 1<<16, "more than 64 Ki files")
	k.LabelIf(c.Dirs > 1<<16, "more than 64 Ki directories")
	return checkC05(k, c05Case{manyFiles(c.N, c.Dirs, c.Seed), c.Enc})
}

// FileEnc says how the file list is stored.
type FileEnc struct {
	OldNames bool  `json:"oldnames,omitempty"` // one array of full names
	Long     bool  `json:"long,omitempty"`     // 64-bit sizes
	Both     bool  `json:"both,omitempty"`     // both size arrays, the 32-bit one meaningless
	NoDev    bool  `json:"nodev,omitempty"`
	NoIno    bool  `json:"noino,omitempty"`
	ModeType int32 `json:"modetype,omitempty"`
	DupDirs  bool  `json:"dupdirs,omitempty"` // store a directory once per file
	DirRev   bool  `json:"dirrev,omitempty"`  // directory table in reverse order of use
}

func fileTags(fs []FileSpec, e FileEnc) []TagV {
	if len(fs) == 0 {
		return nil
	}
	var dirs []S
	idx := map[S]int{}
	var dirIdx []uint64
	for _, f := range fs {
		i, ok := idx[f.Dir]
		if !ok || e.DupDirs {
			i = len(dirs)
			idx[f.Dir] = i
			dirs = append(dirs, f.Dir)
		}
		dirIdx = append(dirIdx, uint64(i))
	}
	if e.DirRev {
		for i, j := 0, len(dirs)-1; i < j; i, j = i+1, j-1 {
			dirs[i], dirs[j] = dirs[j], dirs[i]
		}
		for i := range dirIdx {
			dirIdx[i] = uint64(len(dirs)-1) - dirIdx[i]
		}
	}
	strs := func(tag int32, f func(FileSpec) S) TagV {
		v := TagV{Tag: tag, Type: tStrArr}
		for _, x := range fs {
			v.Strs = append(v.Strs, f(x))
		}
		return v
	}
	ints := func(tag, typ int32, f func(FileSpec) uint64) TagV {
		v := TagV{Tag: tag, Type: typ}
		for _, x := range fs {
			v.Ints = append(v.Ints, f(x))
		}
		return v
	}
	mt := e.ModeType
	if mt == 0 {
		mt = tInt16
	}
	var out []TagV
	if e.OldNames {
		out = append(out, strs(tagOldFilenames, func(f FileSpec) S { return f.Dir + f.Base }))
	} else {
		out = append(out, TagV{Tag: tagDirnames, Type: tStrArr, Strs: dirs}, TagV{Tag: tagDirIndexes, Type: tInt32, Ints: dirIdx}, strs(tagBasenames, func(f FileSpec) S { return f.Base }))
	}
	if e.Long || e.Both {
		out = append(out, ints(tagLongFileSizes, tInt64, func(f FileSpec) uint64 { return f.Size }))
	}
	if !e.Long || e.Both {
		out = append(out, ints(tagFileSizes, tInt32, func(f FileSpec) uint64 {
			if e.Both {
				return 4242
			}
			return f.Size & 0xffffffff
		}))
	}
	out = append(out,
		ints(tagFileModes, mt, func(f FileSpec) uint64 { return uint64(f.Mode) }),
		ints(tagFileMtimes, tInt32, func(f FileSpec) uint64 { return uint64(f.Mtime) }),
		strs(tagFileDigests, func(f FileSpec) S { return f.Digest }),
		strs(tagFileLinktos, func(f FileSpec) S { return f.Link }),
		ints(tagFileFlags, tInt32, func(f FileSpec) uint64 { return uint64(f.Flags) }),
		strs(tagFileUser, func(f FileSpec) S { return f.User }),
		strs(tagFileGroup, func(f FileSpec) S { return f.Group }))
	if !e.NoDev {
		out = append(out, ints(tagFileDevices, tInt32, func(f FileSpec) uint64 { return uint64(f.Dev) }))
	}
	if !e.NoIno {
		out = append(out, ints(tagFileInodes, tInt32, func(f FileSpec) uint64 { return uint64(f.Ino) }))
	}
	sortTags(out)
	return out
}

type c05Case struct {
	Files []FileSpec `json:"files"`
	Enc   FileEnc    `json:"enc"`
}

var dirPool = []S{"/", "/usr/", "/usr/share/", "/usr/share/doc/pkg/", "/etc/", "/opt/a b/", "/var/lib/x.y/", ""}

func genC05(t *rapid.T) c05Case {
	var c c05Case
	n := rapid.IntRange(0, 8).Draw(t, "nfiles")
	for i := 0; i < n; i++ {
		f := FileSpec{Dir: rapid.SampledFrom(dirPool).Draw(t, "dir")}
		f.Base = S(rapid.StringMatching(`\.?[a-zA-Z0-9_+~-][a-zA-Z0-9._+~ -]{0,10}`).Draw(t, "base"))
		if rapid.IntRange(0, 9).Draw(t, "utf8") == 0 {
			f.Base += "\xff\xc3\xa9"
		}
		f.Size = genUint(63).Draw(t, "size")
		f.User, f.Group = genText(8).Draw(t, "user"), genText(8).Draw(t, "group")
		f.Flags = uint32(genUint(32).Draw(t, "flags"))
		f.Mtime = uint32(genUint(32).Draw(t, "mtime"))
		f.Digest = S(rapid.StringMatching(`([0-9a-f]{32}|[0-9a-f]{64}|)`).Draw(t, "digest"))
		f.Mode = uint32(genUint(16).Draw(t, "mode"))
		f.Link = genText(20).Draw(t, "link")
		f.Dev = uint32(genUint(32).Draw(t, "dev"))
		f.Ino = uint32(genUint(32).Draw(t, "ino"))
		c.Files = append(c.Files, f)
	}
	c.Enc = FileEnc{OldNames: rapid.Bool().Draw(t, "old"), Long: rapid.Bool().Draw(t, "long"), Both: rapid.IntRange(0, 4).Draw(t, "both") == 0,
		NoDev: rapid.IntRange(0, 4).Draw(t, "nodev") == 0, NoIno: rapid.IntRange(0, 4).Draw(t, "noino") == 0,
		DupDirs: rapid.Bool().Draw(t, "dupdirs"), DirRev: rapid.Bool().Draw(t, "dirrev")}
	if rapid.IntRange(0, 5).Draw(t, "mode32") == 0 {
		c.Enc.ModeType = tInt32
		for i := range c.Files {
			c.Files[i].Mode = uint32(genUint(32).Draw(t, "mode32v"))
		}
	}
	if !c.Enc.Long && !c.Enc.Both {
		for i := range c.Files {
			c.Files[i].Size &= 0xffffffff
		}
	}
	return c
}

func checkFileInfo(i int, got rpmutils.FileInfo, f FileSpec, e FileEnc) error {
	if e.NoDev {
		f.Dev = 0
	}
	if e.NoIno {
		f.Ino = 0
	}
	type row struct {
		n    string
		g, w any
	}
	for _, r := range []row{
		{"Name", got.Name(), string(f.Dir + f.Base)}, {"Size", got.Size(), int64(f.Size)}, {"UserName", got.UserName(), string(f.User)},
		{"GroupName", got.GroupName(), string(f.Group)}, {"Flags", got.Flags(), int(f.Flags)}, {"Mtime", got.Mtime(), int(f.Mtime)},
		{"Digest", got.Digest(), string(f.Digest)}, {"Mode", got.Mode(), int(f.Mode)}, {"Linkname", got.Linkname(), string(f.Link)},
		{"Device", got.Device(), int(f.Dev)}, {"Inode", got.Inode(), int(f.Ino)},
	} {
		if r.g != r.w {
			return errf("file %d: %s=%#v want %#v", i, r.n, r.g, r.w)
		}
	}
	return nil
}

func checkC05(k *K, c c05Case) error {
	var p Pkg
	p.Gen.Tags = append(identityTags(), fileTags(c.Files, c.Enc)...)
	sortTags(p.Gen.Tags)
	p.Dig.SHA256 = true
	h, err := rpmutils.ReadHeader(bytes.NewReader(p.Build().All))
	if err != nil {
		return err
	}
	files, err := h.GetFiles()
	if err != nil {
		return errf("GetFiles: %v", err)
	}
	if len(files) != len(c.Files) {
		return errf("GetFiles returned %d files, want %d", len(files), len(c.Files))
	}
	for i, f := range files {
		if err := checkFileInfo(i, f, c.Files[i], c.Enc); err != nil {
			return err
		}
	}
	if len(c.Files) > 0 {
		var want []string
		for _, f := range c.Files {
			want = append(want, string(f.Dir+f.Base))
		}
		got, err := h.GetStrings(rpmutils.OLDFILENAMES)
		if err != nil || !reflect.DeepEqual(got, want) {
			return errf("GetStrings(OLDFILENAMES)=%.300q,%v want %.300q", got, err, want)
		}
		gi, err := h.Get(rpmutils.OLDFILENAMES)
		if err != nil || !reflect.DeepEqual(gi, any(want)) {
			return errf("Get(OLDFILENAMES)=%.300q,%v want %.300q", gi, err, want)
		}
		if got := h.HasTag(rpmutils.BASENAMES); got == c.Enc.OldNames {
			return errf("HasTag(BASENAMES)=%v", got)
		}
	}
	k.LabelIf(c.Enc.OldNames, "old file names")
	k.LabelIf(c.Enc.Long || c.Enc.Both, "64-bit sizes")
	k.LabelIf(len(c.Files) == 0, "no files")
	k.NTIf(len(c.Files) >= 2)
	return nil
}

// Broken file lists: one array shorter, longer or missing, or an index out of range.
type c05BadCase struct {
	C     c05Case `json:"c"`
	Which int     `json:"which"`
	How   int     `json:"how"` // 0 drop last element, 1 add an element, 2 remove the tag, 3 bad dir index, 4 wrong type
	Idx   uint32  `json:"idx"`
}

func genC05Bad(t *rapid.T) c05BadCase {
	c := c05BadCase{C: genC05(t)}
	if len(c.C.Files) == 0 {
		c.C.Files = []FileSpec{{Dir: "/", Base: "a", Mode: 0100644}}
	}
	c.Which = rapid.IntRange(0, 20).Draw(t, "which")
	c.How = rapid.IntRange(0, 4).Draw(t, "how")
	c.Idx = rapid.SampledFrom([]uint32{0xffffffff, 0x80000000, 8, 9, 100}).Draw(t, "idx")
	return c
}

func checkC05Bad(k *K, c c05BadCase) error {
	tags := fileTags(c.C.Files, c.C.Enc)
	i := c.Which % len(tags)
	v := tags[i]
	mustFail := false
	required := v.Tag != tagFileDevices && v.Tag != tagFileInodes && v.Tag != tagDirnames && !(c.C.Enc.Both && (v.Tag == tagFileSizes || v.Tag == tagLongFileSizes))
	nameTag := v.Tag == tagOldFilenames || v.Tag == tagBasenames || v.Tag == tagDirIndexes || v.Tag == tagDirnames
	switch c.How {
	case 0: // shorter than the list of names
		if len(v.Strs) > 0 {
			v.Strs = v.Strs[:len(v.Strs)-1]
		} else {
			v.Ints = v.Ints[:len(v.Ints)-1]
		}
		if len(v.Strs)+len(v.Ints) == 0 {
			return nil // that is "no elements", which encodes differently
		}
		// a list of names that is too short leaves the others too long: see below
		mustFail = required && v.Tag != tagOldFilenames && v.Tag != tagBasenames || v.Tag == tagDirnames || v.Tag == tagFileDevices || v.Tag == tagFileInodes
	case 1:
		if isStrType(v.Type) {
			v.Strs = append(append([]S(nil), v.Strs...), "extra")
		} else {
			v.Ints = append(append([]uint64(nil), v.Ints...), 7)
		}
		mustFail = v.Tag == tagOldFilenames || v.Tag == tagBasenames
	case 2:
		tags = append(tags[:i:i], tags[i+1:]...)
		// without BASENAMES or OLDFILENAMES there is no list
		mustFail = required && !nameTag || v.Tag == tagDirnames || v.Tag == tagDirIndexes
		i = -1
	case 3:
		done := false
		for j := range tags {
			if tags[j].Tag == tagDirIndexes {
				x := append([]uint64(nil), tags[j].Ints...)
				x[c.Which%len(x)] = uint64(c.Idx)
				tags[j].Ints = x
				done = true
			}
		}
		if !done {
			return nil
		}
		i = -1
		mustFail = true
	case 4:
		v = TagV{Tag: v.Tag, Type: tBin, Bin: &Blob{Kind: "lit", Lit: "\x00\x00\x00\x01"}}
		mustFail = required || v.Tag == tagDirnames || v.Tag == tagFileDevices || v.Tag == tagFileInodes
	}
	if i >= 0 {
		tags[i] = v
	}
	var p Pkg
	p.Gen.Tags = append(identityTags(), tags...)
	sortTags(p.Gen.Tags)
	h, err := rpmutils.ReadHeader(bytes.NewReader(p.Build().All))
	if err != nil {
		return errf("ReadHeader: %v", err)
	}
	var files []rpmutils.FileInfo
	var gerr error
	if e := guard("GetFiles", func() { files, gerr = h.GetFiles() }); e != nil {
		return e
	}
	if c.How == 2 && nameTag {
		got, err := h.GetStrings(rpmutils.OLDFILENAMES)
		if !errors.As(err, &rpmutils.NoSuchTagError{}) {
			return errf("GetStrings(OLDFILENAMES) without tag %d: %q, %v", v.Tag, got, err)
		}
		any, err := h.Get(rpmutils.OLDFILENAMES)
		if !errors.As(err, &rpmutils.NoSuchTagError{}) {
			return errf("Get(OLDFILENAMES) without tag %d: %q, %v", v.Tag, any, err)
		}
	}
	k.LabelIf(mustFail, "must be refused")
	k.NT()
	if mustFail && gerr == nil {
		return errf("inconsistent file list accepted: %d files", len(files))
	}
	return nil
}

// ---------------------------------------------------------------- C06

type c06Case struct {
	Name, Version, Release, Arch S
	NameType                     int32
	Epoch                        *uint64
	EpochType                    int32
	Size, LongSize               *uint64
	PaySize, LongPay             *uint64
	Source                       bool
	Missing                      int // 1..4: identity tag left out
	Bad                          int // 1: no values instead, 2: not a string; 3: the epoch is not a number
	Lead                         uint64
	More                         int    // bits: related tags that say something else
	Odd                          [4]int // shape of the four sizes: 0 a number, 1 two, 2 none, 3 text, 4 bytes
}

func genArch(t *rapid.T) S {
	if rapid.Bool().Draw(t, "known") {
		return S(rapid.SampledFrom([]string{"noarch", "src", "nosrc", "x86_64", "i386", "i686", "aarch64"}).Draw(t, "arch"))
	}
	return genText(8).Draw(t, "arch")
}

func genC06(t *rapid.T) c06Case {
	c := c06Case{Name: genText(20).Draw(t, "name"), Version: genText(12).Draw(t, "ver"), Release: genText(12).Draw(t, "rel"), Arch: genArch(t), Source: rapid.Bool().Draw(t, "src")}
	opt := func(bits int, l string) *uint64 {
		if rapid.Bool().Draw(t, "has"+l) {
			v := genUint(bits).Draw(t, l)
			return &v
		}
		return nil
	}
	c.More = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 8, 16, 31}).Draw(t, "more")
	c.NameType = rapid.SampledFrom([]int32{tString, tString, tI18N, tStrArr}).Draw(t, "nametype")
	c.Epoch = opt(32, "epoch")
	c.EpochType = rapid.SampledFrom([]int32{tInt32, tInt32, tInt32, tInt8, tInt16, tInt64}).Draw(t, "epochtype")
	if c.Epoch != nil {
		*c.Epoch &= 1<<(8*intSize[c.EpochType]) - 1
	}
	c.Lead = uint64(rapid.IntRange(0, 4).Draw(t, "lead"))
	c.Size, c.LongSize = opt(32, "size"), opt(63, "longsize")
	c.PaySize, c.LongPay = opt(32, "pay"), opt(63, "longpay")
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		c.Odd[rapid.IntRange(0, 3).Draw(t, "oddwhich")] = rapid.IntRange(1, 4).Draw(t, "oddhow")
	}
	if rapid.IntRange(0, 6).Draw(t, "miss") == 0 {
		c.Missing = rapid.IntRange(1, 4).Draw(t, "missing")
		c.Bad = rapid.IntRange(0, 2).Draw(t, "bad")
	} else if c.Epoch != nil && rapid.IntRange(0, 9).Draw(t, "badepoch") == 0 {
		c.Bad = 3
	}
	return c
}

func checkC06(k *K, c c06Case) error {
	p := Pkg{Source: c.Source, Lead: c.Lead}
	id := []TagV{{Tag: tagName, Type: c.NameType, Strs: []S{c.Name}}, strTag(tagVersion, string(c.Version)), strTag(tagRelease, string(c.Release)), strTag(tagArch, string(c.Arch))}
	for i, v := range id {
		if c.Missing != i+1 {
			p.Gen.Tags = append(p.Gen.Tags, v)
		} else if c.Bad == 1 {
			p.Gen.Tags = append(p.Gen.Tags, TagV{Tag: v.Tag, Type: tStrArr})
		} else if c.Bad == 2 {
			p.Gen.Tags = append(p.Gen.Tags, intTag(v.Tag, tInt32, 7))
		}
	}
	wantEpoch := "0"
	if c.Epoch != nil {
		if c.Bad == 3 {
			p.Gen.Tags = append(p.Gen.Tags, strTag(tagEpoch, strconv.FormatUint(*c.Epoch, 10)))
		} else {
			p.Gen.Tags = append(p.Gen.Tags, intTag(tagEpoch, c.EpochType, *c.Epoch))
		}
		wantEpoch = strconv.FormatUint(*c.Epoch, 10)
	}
	size := func(dst *[]TagV, tag, ty int32, v *uint64, odd int) {
		if v == nil {
			return
		}
		rec := intTag(tag, ty, *v)
		switch odd {
		case 1:
			rec.Ints = append(rec.Ints, *v)
		case 2:
			rec.Ints = nil
		case 3:
			rec = strTag(tag, strconv.FormatUint(*v, 10))
		case 4:
			rec = binTag(tag, binary.BigEndian.AppendUint64(nil, *v))
		}
		*dst = append(*dst, rec)
	}
	size(&p.Gen.Tags, tagSize, tInt32, c.Size, c.Odd[0])
	size(&p.Gen.Tags, tagLongSize, tInt64, c.LongSize, c.Odd[1])
	size(&p.Sig.Tags, sigPayloadSize, tInt32, c.PaySize, c.Odd[2])
	size(&p.Sig.Tags, sigLongArchive, tInt64, c.LongPay, c.Odd[3])
	// tags with related meanings must not be taken for the ones asked for
	if c.More&1 != 0 {
		p.Gen.Tags = append(p.Gen.Tags, strTag(1044, "other-9-9.src.rpm")) // SOURCERPM
	}
	if c.More&2 != 0 {
		p.Gen.Tags = append(p.Gen.Tags, intTag(1106, tInt32, 1), intTag(1051, tInt32, 1)) // SOURCEPACKAGE, NOSOURCE
	}
	if c.More&4 != 0 {
		p.Gen.Tags = append(p.Gen.Tags, intTag(1046, tInt32, 4711)) // ARCHIVESIZE
	}
	if c.More&8 != 0 {
		p.Sig.Tags = append(p.Sig.Tags, intTag(1000, tInt32, 4712), intTag(270, tInt64, 4713)) // SIG_SIZE, LONGSIGSIZE
	}
	if c.More&16 != 0 {
		p.Gen.Tags = append(p.Gen.Tags, TagV{Tag: 1028, Type: tInt32, Ints: []uint64{5, 6}}, strTag(1021, "linux"), strTag(1047, "pkg"), strTag(1196, "n-v-r")) // FILESIZES, OS, PROVIDENAME, NVR
	}
	sortTags(p.Gen.Tags)
	sortTags(p.Sig.Tags)
	h, err := rpmutils.ReadHeader(bytes.NewReader(p.Build().All))
	if err != nil {
		return err
	}
	n, err := h.GetNEVRA()
	if c.Missing != 0 {
		var nst rpmutils.NoSuchTagError
		if err == nil || (c.Bad == 0 && !errors.As(err, &nst)) {
			return errf("identity with a missing part: %v, %v", n, err)
		}
	} else if c.Bad == 3 {
		if err == nil {
			return errf("identity with an epoch that is not a number: %v", n)
		}
	} else {
		if err != nil {
			return errf("GetNEVRA: %v", err)
		}
		want := rpmutils.NEVRA{Name: string(c.Name), Epoch: wantEpoch, Version: string(c.Version), Release: string(c.Release), Arch: string(c.Arch)}
		if *n != want {
			return errf("GetNEVRA=%+v want %+v", *n, want)
		}
		if s, w := n.String(), want.Name+"-"+want.Epoch+":"+want.Version+"-"+want.Release+"."+want.Arch+".rpm"; s != w {
			return errf("NEVRA.String()=%q want %q", s, w)
		}
	}
	chk := func(what string, f func() (int64, error), short, long *uint64, odd []int) error {
		want, odd1 := short, odd[0]
		if long != nil {
			want, odd1 = long, odd[1]
		}
		got, err := f()
		if want != nil && odd1 != 0 {
			k.Label("size that is not a number")
			if err == nil {
				return errf("%s=%d of a record that is not a number", what, got)
			}
			return nil
		}
		if want == nil {
			if err == nil {
				return errf("%s=%d with no size recorded", what, got)
			}
			return nil
		}
		if err != nil || got != int64(*want) {
			return errf("%s=%d,%v want %d", what, got, err, *want)
		}
		return nil
	}
	if err := chk("InstalledSize", h.InstalledSize, c.Size, c.LongSize, c.Odd[:2]); err != nil {
		return err
	}
	if err := chk("PayloadSize", h.PayloadSize, c.PaySize, c.LongPay, c.Odd[2:]); err != nil {
		return err
	}
	if h.IsSource() != c.Source {
		return errf("IsSource=%v", h.IsSource())
	}
	k.LabelIf(c.Epoch == nil, "no epoch")
	k.LabelIf(c.LongSize != nil && c.Size != nil, "both sizes")
	k.NTIf(c.Epoch != nil || c.LongSize != nil || c.LongPay != nil)
	return nil
}

func init() {
	register("C01", "packages are encoded by an independent writer from random typed tag values in both headers (types, counts, data order, gaps, regions, chunked delivery all drawn); non-trivial: more than 5 general or 2 signature tags (fallback sub-check: at least one of the two tags stored); values of up to 70000 elements and headers of up to 4000 tags", func(x *Ctx) {
		sub(x, "accessors", subOpts{quick: 120000, thorough: 400000}, genC01, checkC01)
		sub(x, "fallback", subOpts{quick: 40000, thorough: 60000}, genC01Fall, checkC01Fall)
		sub(x, "large", subOpts{quick: 240, thorough: 8000}, genC01Large, checkC01Large)
	})
	register("C02", "random packages with signature headers of every length modulo 8, random payload bytes and random read chunking; non-trivial: signature data not already aligned, or payload not empty", func(x *Ctx) {
		sub(x, "extent", subOpts{quick: 192000, thorough: 400000}, genC02, checkC02)
		sub(x, "large", subOpts{quick: 240, thorough: 4000}, genC02Large, checkC02Large)
	})
	register("C04", "random packages with SHA-1/SHA-256 header digests recorded or not, each right or wrong in several ways, or one bit of the header altered, read through ReadHeader, Verify and SignRpmStream; non-trivial: a header digest is recorded", func(x *Ctx) {
		sub(x, "digest", subOpts{quick: 100000, thorough: 300000}, genC04, checkC04)
		sub(x, "record", subOpts{quick: 60000, thorough: 300000}, genC04Rec, checkC04Rec)
	})
	register("C05", "random file lists (0-8 files, every attribute drawn over its whole range) stored with every combination of split/old names, 32/64-bit sizes, with or without device and inode arrays, plus inconsistent variants, and lists of up to 70000 files and directories; non-trivial: at least two files, or an inconsistent list", func(x *Ctx) {
		sub(x, "files", subOpts{quick: 120000, thorough: 300000}, genC05, checkC05)
		sub(x, "inconsistent", subOpts{quick: 80000, thorough: 200000}, genC05Bad, checkC05Bad)
		sub(x, "large", subOpts{quick: 240, thorough: 6000}, genC05Large, checkC05Large)
	})
	register("C06", "random identities, epochs and sizes over their whole ranges with each optional tag present or not; non-trivial: an epoch or a 64-bit size is stored", func(x *Ctx) {
		sub(x, "identity", subOpts{quick: 256000, thorough: 400000}, genC06, checkC06)
	})
}
