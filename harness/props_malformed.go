package main

import (
	"bytes"
	"encoding/binary"
	"io"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"pgregory.net/rapid"
)

// HMut damages an encoded package.
type HMut struct {
	Kind  string `json:"kind"`            // field, intro, byte, trunc, insert, cut, lead
	Hdr   int    `json:"hdr,omitempty"`   // 0 signature, 1 general
	Entry int    `json:"entry,omitempty"` // modulo the number of entries
	Field int    `json:"field,omitempty"` // 0 tag 1 type 2 offset 3 count; intro: 0 magic 1 reserved 2 entries 3 size
	Delta bool   `json:"delta,omitempty"` // Val is added to what is there
	Val   uint32 `json:"val,omitempty"`
	At    int    `json:"at,omitempty"` // position, modulo the length
	Bytes S      `json:"bytes,omitempty"`
}

func genHMut(t *rapid.T) HMut {
	m := HMut{Kind: rapid.SampledFrom([]string{"field", "field", "field", "field", "field", "intro", "intro", "byte", "byte", "trunc", "insert", "cut", "lead"}).Draw(t, "mut")}
	m.Hdr = rapid.IntRange(0, 1).Draw(t, "hdr")
	m.At = rapid.IntRange(0, 1<<16).Draw(t, "at")
	switch m.Kind {
	case "field", "intro":
		m.Entry = rapid.IntRange(0, 40).Draw(t, "entry")
		m.Field = rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3}).Draw(t, "field")
		if m.Field == 1 && m.Kind == "field" {
			m.Val = rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xffffffff, 0x01000000}).Draw(t, "type")
			return m
		}
		m.Delta = rapid.Bool().Draw(t, "delta")
		if m.Delta {
			m.Val = rapid.SampledFrom([]uint32{1, 0xffffffff, 2, 8, 0xfffffff8, 16, 0xfffffff0, 256, 0x7fffffff, 0x80000000, 3, 5}).Draw(t, "dv")
		} else if m.Kind == "field" && m.Field == 0 {
			m.Val = rapid.SampledFrom([]uint32{62, 63, 267, 268, 269, 273, 1000, 1002, 1004, 1005, 1008, 1022, 1027, 1028, 1030, 1116, 1117, 1118, 1124, 1125, 5008, 5092, 5093, 0, 0xffffffff, 0x80000000, 0x7fffffff, 16384 + 1000, 20000}).Draw(t, "tag")
		} else {
			m.Val = uint32(genUint(32).Draw(t, "val"))
		}
	case "byte", "lead":
		m.Val = uint32(rapid.ByteRange(1, 255).Draw(t, "xor"))
	case "insert":
		m.Bytes = S(rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(t, "bytes"))
	case "cut":
		m.Val = uint32(rapid.IntRange(1, 40).Draw(t, "cut"))
	}
	return m
}

func (m HMut) apply(b []byte, sigAt, genAt int) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b
	}
	at := sigAt
	if m.Hdr == 1 {
		at = genAt
	}
	put := func(p int) {
		if p < 0 || p+4 > len(b) {
			return
		}
		v := m.Val
		if m.Delta {
			v += binary.BigEndian.Uint32(b[p:])
		}
		binary.BigEndian.PutUint32(b[p:], v)
	}
	switch m.Kind {
	case "field":
		if at+16 > len(b) {
			return b
		}
		n := int(binary.BigEndian.Uint32(b[at+8:]))
		if n <= 0 || n > 10000 {
			return b
		}
		put(at + 16 + 16*(m.Entry%n) + 4*m.Field)
	case "intro":
		put(at + 4*m.Field)
	case "byte":
		b[m.At%len(b)] ^= byte(m.Val)
	case "lead":
		b[m.At%min(96, len(b))] ^= byte(m.Val)
	case "trunc":
		b = b[:m.At%len(b)]
	case "insert":
		p := m.At % len(b)
		b = append(b[:p:p], append([]byte(m.Bytes), b[p:]...)...)
	case "cut":
		p := m.At % len(b)
		b = append(b[:p:p], b[min(len(b), p+int(m.Val)):]...)
	}
	return b
}

type c03Case struct {
	Pkg    SignPkg    `json:"pkg"`
	Files  []FileSpec `json:"files,omitempty"`
	Enc    FileEnc    `json:"enc"`
	Muts   []HMut     `json:"muts"`
	Chunks Chunks     `json:"chunks"`
}

func genC03(t *rapid.T) c03Case {
	c := c03Case{Pkg: genSignPkg(t, 6, 60)}
	// a damaged header is only interesting if no digest gives it away
	if rapid.IntRange(0, 3).Draw(t, "nodigest") > 0 {
		c.Pkg.Pkg.Dig.SHA1, c.Pkg.Pkg.Dig.SHA256 = false, false
	}
	if rapid.Bool().Draw(t, "files") {
		f := genC05(t)
		c.Files, c.Enc = f.Files, f.Enc
	}
	n := rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3}).Draw(t, "nmuts")
	for i := 0; i < n; i++ {
		c.Muts = append(c.Muts, genHMut(t))
	}
	c.Chunks = genChunks(false).Draw(t, "chunks")
	return c
}

func (c c03Case) bytes() []byte {
	p := c.Pkg
	p.Pkg.Gen.Tags = append(append([]TagV(nil), p.Pkg.Gen.Tags...), fileTags(c.Files, c.Enc)...)
	b := p.build()
	out := b.All
	for _, m := range c.Muts {
		out = m.apply(out, 96, b.Start())
	}
	return out
}

// mustRefuse says why a reader has to refuse this package, or "".
func mustRefuse(b []byte) (why string, p *PRPM) {
	p, err := parseRPM(b)
	if err != nil {
		return err.Error(), nil
	}
	for i, h := range []*PHdr{p.Sig, p.Gen} {
		for _, e := range h.Entries {
			switch e.Bad {
			case "offset", "count", "extent", "unterminated":
				return []string{"signature header: ", "general header: "}[i] + e.Bad, p
			}
		}
	}
	return "", p
}

// allocBound is what reading n bytes may allocate in all.
func allocBound(n int) uint64 { return 64*uint64(n) + 1<<20 }

// poke calls every operation on a header that was read; only crashes count.
func poke(h *rpmutils.RpmHeader, tags []int, insize int) error {
	for _, id := range tags {
		id := id
		if err := guard("an accessor", func() {
			h.HasTag(id)
			_, _ = h.Get(id)
			_, _ = h.GetString(id)
			_, _ = h.GetStrings(id)
			_, _ = h.GetInt(id)
			_, _ = h.GetInts(id)
			_, _ = h.GetUint32(id)
			_, _ = h.GetUint32s(id)
			_, _ = h.GetUint64(id)
			_, _ = h.GetUint64s(id)
			_, _ = h.GetBytes(id)
		}); err != nil {
			return err
		}
	}
	var names int
	var n uint64
	if err := guard("GetFiles, GetNEVRA or another summary", func() {
		_, _ = h.GetNEVRA()
		_, _ = h.InstalledSize()
		_, _ = h.PayloadSize()
		_, _ = h.GetUint64Fallback(rpmutils.FILESIZES, rpmutils.LONGFILESIZES)
		_ = h.IsSource()
		_ = h.GetRange()
		n = allocDuring(func() {
			fs, _ := h.GetFiles()
			for _, f := range fs {
				names += len(f.Name()) + 500
			}
		})
	}); err != nil {
		return err
	}
	// names are spliced from directories and base names, so they may be larger than the header
	if n > allocBound(insize)+4*uint64(names) {
		return errf("GetFiles allocated %d bytes for a header of %d", n, insize)
	}
	for _, same := range []bool{false, true} {
		var out []byte
		var derr error
		if err := guard("DumpSignatureHeader", func() { out, derr = h.DumpSignatureHeader(same) }); err != nil {
			return err
		}
		if derr == nil && len(out) > 4*insize+1024 {
			return errf("DumpSignatureHeader(%v) of a %d byte package gave %d bytes", same, insize, len(out))
		}
	}
	return nil
}

func tagList(p *PRPM) (out []int) {
	if p != nil {
		for _, e := range p.Sig.Entries {
			out = append(out, int(e.Tag)+sigOff, int(e.Tag))
		}
		for _, e := range p.Gen.Entries {
			out = append(out, int(e.Tag))
		}
	}
	return append(out, rpmutils.OLDFILENAMES, rpmutils.NAME, -1, 0, 1<<31-1, -1<<31)
}

func checkMalformed(k *K, b []byte, chunks Chunks) error {
	why, p := mustRefuse(b)
	var h *rpmutils.RpmHeader
	var err error
	var alloc uint64
	if e := guard("ReadHeader", func() {
		alloc = allocDuring(func() { h, err = rpmutils.ReadHeader(chunks.reader(b)) })
	}); e != nil {
		return e
	}
	if alloc > allocBound(len(b)) {
		return errf("ReadHeader allocated %d bytes for an input of %d", alloc, len(b))
	}
	if err == nil && h == nil {
		return errf("ReadHeader returned neither a header nor an error")
	}
	if why != "" {
		k.Label("must be refused")
		if err == nil {
			return errf("ReadHeader accepted a malformed package (%s)", why)
		}
	}
	k.LabelIf(err == nil, "accepted")
	if err == nil {
		if e := goodEntries(h, p); e != nil {
			return e
		}
		if e := poke(h, tagList(p), len(b)); e != nil { // dumping resizes the reserved space: last
			return e
		}
		if r := h.GetRange(); r.Start != 96+p.Sig.Len || r.End != r.Start+p.Gen.Len {
			return errf("GetRange %+v, want %d %d", r, 96+p.Sig.Len, 96+p.Sig.Len+p.Gen.Len)
		}
	}
	// the other ways in
	var rpm *rpmutils.Rpm
	var rerr error
	if e := guard("ReadRpm", func() { rpm, rerr = rpmutils.ReadRpm(chunks.reader(b)) }); e != nil {
		return e
	}
	if (rerr == nil) != (err == nil) {
		return errf("ReadHeader: %v, but ReadRpm: %v", err, rerr)
	}
	if rerr == nil {
		if e := guard("reading the payload", func() {
			n := 0
			if pr, err := rpm.PayloadReaderExtended(); err == nil {
				for n < 1000 {
					if _, err := pr.Next(); err != nil {
						break
					}
					_ = pr.IsLink()
					_, _ = io.Copy(io.Discard, io.LimitReader(pr, 1<<20))
					n++
				}
			}
		}); e != nil {
			return e
		}
	}
	for i, kr := range [][]int{nil, {0, 1, 2, 3, 4}} {
		var verr error
		if e := guard("Verify", func() {
			alloc = allocDuring(func() { _, _, verr = rpmutils.Verify(chunks.reader(b), keyring(kr...)) })
		}); e != nil {
			return e
		}
		if alloc > allocBound(len(b))+8<<20 {
			return errf("Verify allocated %d bytes for an input of %d", alloc, len(b))
		}
		if i == 0 && err != nil && verr == nil {
			return errf("ReadHeader: %v, but Verify succeeds", err)
		}
	}
	key := testKeys()[4]
	var sh *rpmutils.RpmHeader
	var serr error
	if e := guard("SignRpmStream", func() {
		alloc = allocDuring(func() { sh, serr = rpmutils.SignRpmStream(chunks.reader(b), key.Priv, nil) })
	}); e != nil {
		return e
	}
	if alloc > allocBound(len(b))+8<<20 {
		return errf("SignRpmStream allocated %d bytes for an input of %d", alloc, len(b))
	}
	if err != nil && serr == nil {
		return errf("ReadHeader: %v, but SignRpmStream succeeds", err)
	}
	if serr == nil {
		k.Label("signed")
		if e := poke(sh, nil, len(b)); e != nil {
			return e
		}
		sig, err := sh.DumpSignatureHeader(false)
		if err == nil {
			out := append(sig, b[96+p.Sig.Len:]...)
			if why, _ := mustRefuse(out); why != "" {
				return errf("signing an accepted package gave a malformed one: %s", why)
			}
		}
	}
	return nil
}

// goodEntries compares what a header returns for undamaged entries with the
// reference parser.
func goodEntries(h *rpmutils.RpmHeader, p *PRPM) error {
	for i, hd := range []*PHdr{p.Sig, p.Gen} {
		seen := map[int32]int{}
		for _, e := range hd.Entries {
			seen[e.Tag]++
		}
		for _, e := range hd.Entries {
			if e.Bad != "" || seen[e.Tag] > 1 || e.Count == 0 || e.Type == tNull || e.Tag <= 0 {
				continue
			}
			if e.Type == tString && e.Count != 1 {
				continue
			}
			if sz := intSize[e.Type]; sz > 1 && int(e.Off)%sz != 0 {
				continue
			}
			id := int(e.Tag)
			if i == 0 {
				id += sigOff
			} else if e.Tag < 1000 || e.Tag >= sigOff {
				continue
			}
			v := rawTag(e)
			if err := checkAccessors(h, id, &v); err != nil {
				return err
			}
		}
	}
	return nil
}

func checkC03(k *K, c c03Case) error {
	b := c.bytes()
	orig := c
	orig.Muts = nil
	k.NTIf(len(b) > 112 && !bytes.Equal(b, orig.bytes()))
	for _, m := range c.Muts {
		k.Label("mutation " + m.Kind)
	}
	return checkMalformed(k, b, c.Chunks)
}

// Headers whose counts and sizes are as large as they can be, with next to no data.
type c03BombCase struct {
	Hdr     int    `json:"hdr"`
	Entries uint32 `json:"entries"`
	Size    uint32 `json:"size"`
	Body    Blob   `json:"body"`
	Chunks  Chunks `json:"chunks"`
}

func genC03Bomb(t *rapid.T) c03BombCase {
	big := []uint32{0, 1, 2, 4, 1000, 0xffff, 0x10000, 1 << 20, 1 << 24, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff}
	return c03BombCase{Hdr: rapid.IntRange(0, 1).Draw(t, "hdr"), Entries: rapid.SampledFrom(big).Draw(t, "entries"), Size: rapid.SampledFrom(big).Draw(t, "size"),
		Body: genBlob(3000).Draw(t, "body"), Chunks: genChunks(false).Draw(t, "chunks")}
}

func checkC03Bomb(k *K, c c03BombCase) error {
	b := makeLead(false, 0)
	if c.Hdr == 1 {
		b = append(b, Hdr{Tags: []TagV{intTag(sigSize, tInt32, 1)}}.Encode(true)...)
	}
	b = binary.BigEndian.AppendUint32(b, 0x8eade801)
	b = binary.BigEndian.AppendUint32(b, 0)
	b = binary.BigEndian.AppendUint32(b, c.Entries)
	b = binary.BigEndian.AppendUint32(b, c.Size)
	b = append(b, c.Body.Bytes()...)
	k.NTIf(c.Entries > 1000 || c.Size > 1000)
	return checkMalformed(k, b, c.Chunks)
}

// Large headers that are what they say they are.
type c03LargeCase struct {
	Hdr     int  `json:"hdr"`
	Entries int  `json:"entries"`
	Data    int  `json:"data"`
	Same    bool `json:"same"` // all entries have the same tag
	Strings bool `json:"strings"`
}

func genC03Large(t *rapid.T) c03LargeCase {
	return c03LargeCase{Hdr: rapid.IntRange(0, 1).Draw(t, "hdr"), Entries: rapid.IntRange(1, 30000).Draw(t, "entries"), Data: rapid.IntRange(1, 1<<20).Draw(t, "data"),
		Same: rapid.Bool().Draw(t, "same"), Strings: rapid.Bool().Draw(t, "strings")}
}

func checkC03Large(k *K, c c03LargeCase) error {
	n := c.Entries
	h := binary.BigEndian.AppendUint32(nil, 0x8eade801)
	h = append(h, 0, 0, 0, 0)
	h = binary.BigEndian.AppendUint32(h, uint32(n))
	h = binary.BigEndian.AppendUint32(h, uint32(c.Data))
	for i := 0; i < n; i++ {
		tag, typ, off, count := uint32(5200+i%11000), uint32(tBin), uint32(i%c.Data), uint32(1)
		if c.Hdr == 0 {
			tag = uint32(2000 + i)
		}
		if c.Same {
			tag = 5555
		}
		if c.Strings {
			typ = tStrArr
		}
		for _, w := range []uint32{tag, typ, off, count} {
			h = binary.BigEndian.AppendUint32(h, w)
		}
	}
	h = append(h, make([]byte, c.Data)...)
	small := Hdr{Tags: []TagV{intTag(1100, tInt32, 1)}}
	b := makeLead(false, 0)
	if c.Hdr == 0 {
		b = append(b, h...)
		for (len(b)-96)%8 != 0 {
			b = append(b, 0)
		}
		b = append(b, small.Encode(false)...)
	} else {
		b = append(append(b, small.Encode(true)...), h...)
	}
	k.NTIf(n > 1000)
	var err error
	if a := allocDuring(func() { _, err = rpmutils.ReadHeader(bytes.NewReader(b)) }); a > allocBound(len(b)) {
		return errf("ReadHeader allocated %d bytes for an input of %d", a, len(b))
	}
	if err != nil {
		return errf("ReadHeader of a well-formed large header: %v", err)
	}
	return nil
}

// Arbitrary bytes, mostly behind valid magics.
type c03RawCase struct {
	Prefix int    `json:"prefix"`
	Body   Blob   `json:"body"`
	Chunks Chunks `json:"chunks"`
}

func genC03Raw(t *rapid.T) c03RawCase {
	c := c03RawCase{Prefix: rapid.IntRange(0, 3).Draw(t, "prefix"), Chunks: genChunks(false).Draw(t, "chunks")}
	if rapid.Bool().Draw(t, "lit") {
		c.Body = Blob{Kind: "lit", Lit: S(rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 4, 6, 8, 16, 255}), rapid.Byte()), 0, 200).Draw(t, "body"))}
	} else {
		c.Body = genBlob(400).Draw(t, "blob")
	}
	return c
}

func checkC03Raw(k *K, c c03RawCase) error {
	body := c.Body.Bytes()
	var b []byte
	if c.Prefix >= 1 {
		b = makeLead(false, 0)
	}
	if c.Prefix >= 2 {
		b = binary.BigEndian.AppendUint32(b, 0x8eade801)
		b = binary.BigEndian.AppendUint32(b, 0)
	}
	if c.Prefix == 3 {
		// counts that fit
		n := min(len(body)/16, 5)
		b = binary.BigEndian.AppendUint32(b, uint32(n))
		b = binary.BigEndian.AppendUint32(b, uint32((len(body)-16*n)/2))
	}
	b = append(b, body...)
	k.NTIf(c.Prefix >= 2 && len(body) >= 16)
	return checkMalformed(k, b, c.Chunks)
}

// Every single-field damage of one small package.
type c03EachCase struct {
	Base int  `json:"base"`
	Mut  HMut `json:"mut"`
}

func c03Base(i int) c03Case {
	c := c03Case{Pkg: SignPkg{Reserved: 16}}
	c.Pkg.Pkg.Gen.Tags = identityTags()
	c.Pkg.Pkg.Sig.Tags = []TagV{intTag(sigSize, tInt32, 123)}
	c.Pkg.Pkg.Dig.MD5 = true
	if i == 2 {
		// entries beyond 64 KiB
		c.Pkg.Reserved = 0
		c.Pkg.Pkg.Gen.Tags = append([]TagV{{Tag: 999, Type: tBin, Bin: &Blob{Kind: "rand", N: 70001, Seed: 5}}}, identityTags()...)
		c.Pkg.Pkg.Gen.Tags = append(c.Pkg.Pkg.Gen.Tags, TagV{Tag: 5500, Type: tInt16, Ints: []uint64{1, 2, 3}}, TagV{Tag: 5501, Type: tStrArr, Strs: []S{"a", "", "bc"}})
		c.Pkg.Pkg.Sig.Tags = []TagV{{Tag: 900, Type: tBin, Bin: &Blob{Kind: "rand", N: 66000, Seed: 6}}, intTag(sigSize, tInt32, 123), strTag(1011, "x"), {Tag: 1012, Type: tInt64, Ints: []uint64{1, 2}}}
	}
	if i == 1 {
		c.Pkg.Pkg.Dig = Digests{MD5: true, PayAlgo: 8}
		c.Pkg.Pkg.Gen.Region, c.Pkg.Pkg.Sig.Region = 63, 62
		c.Pkg.Old = []OldSig{{Tag: sigPGP, Junk: &Blob{Kind: "rand", N: 21, Seed: 4}}}
		c.Files = []FileSpec{{Dir: "/d/", Base: "a", Mode: 0100644, Size: 3}, {Dir: "/", Base: "bb", Mode: 0100755}}
	}
	return c
}

func c03Each() []c03EachCase {
	var out []c03EachCase
	for base := 0; base < 3; base++ {
		b := c03Base(base).bytes()
		p, err := parseRPM(b)
		must(err)
		for hi, h := range []*PHdr{p.Sig, p.Gen} {
			size := h.DataSize
			for f := 0; f < 4; f++ {
				for _, v := range []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, size, size + 1, size - 1, h.NIndex + 1, h.NIndex - 1} {
					out = append(out, c03EachCase{base, HMut{Kind: "intro", Hdr: hi, Field: f, Val: v}})
				}
				for e := range h.Entries {
					for _, v := range []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 0xffff, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff, size, size + 1, size - 1, size - 2, size - 4, size + 7, size + 8, 0x10000000, 0x20000000, 0x40000000} {
						out = append(out, c03EachCase{base, HMut{Kind: "field", Hdr: hi, Entry: e, Field: f, Val: v}})
					}
				}
			}
		}
		if base == 2 {
			break
		}
		for i := range b {
			out = append(out, c03EachCase{base, HMut{Kind: "trunc", At: i}})
			for _, x := range []uint32{1, 0x80, 0xff} {
				out = append(out, c03EachCase{base, HMut{Kind: "byte", At: i, Val: x}})
			}
		}
	}
	return out
}

func checkC03Each(k *K, c c03EachCase) error {
	b := c03Base(c.Base)
	b.Muts = []HMut{c.Mut}
	return checkC03(k, b)
}

func init() {
	register("C03", "valid packages with 1-3 damages (any index field, header intro, single bytes, truncation, insertions, deletions), every single-field, single-byte and truncation damage of two fixed packages, huge counts and sizes with little data, and arbitrary bytes; read, queried, verified and signed, against a reference parser; non-trivial: damaged beyond the lead, or a huge count, or bytes behind valid magics", func(x *Ctx) {
		sub(x, "mutated", subOpts{quick: 24000, thorough: 400000}, genC03, checkC03)
		sub(x, "bombs", subOpts{quick: 4500, thorough: 40000}, genC03Bomb, checkC03Bomb)
		sub(x, "large", subOpts{quick: 480, thorough: 4000}, genC03Large, checkC03Large)
		sub(x, "raw", subOpts{quick: 12000, thorough: 200000}, genC03Raw, checkC03Raw)
		each(x, "every-field", subOpts{}, c03Each(), checkC03Each)
	})
}
