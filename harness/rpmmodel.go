package main

// An encoder and a parser for the RPM container written from the file format,
// sharing nothing with the library under test. Everything else generates
// against, and compares with, these.

import (
	"bytes"
	"crypto"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	_ "crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"sort"
	"strconv"

	"pgregory.net/rapid"
)

// S is a byte string that survives JSON.
type S string

func (s S) MarshalText() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return []byte(q[1 : len(q)-1]), nil
}

func (s *S) UnmarshalText(b []byte) error {
	u, err := strconv.Unquote(`"` + string(b) + `"`)
	*s = S(u)
	return err
}

// Blob describes a run of bytes compactly.
type Blob struct {
	Kind string `json:"kind"` // zero, rand, text, lit
	N    int    `json:"n,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	Lit  S      `json:"lit,omitempty"`
}

type prng uint64

func (p *prng) next() uint64 {
	*p += 0x9e3779b97f4a7c15
	z := uint64(*p)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (b Blob) Bytes() []byte {
	switch b.Kind {
	case "zero":
		return make([]byte, b.N)
	case "rand":
		p := prng(b.Seed)
		out := make([]byte, 0, b.N+8)
		for len(out) < b.N {
			out = binary.LittleEndian.AppendUint64(out, p.next())
		}
		return out[:b.N:b.N]
	case "text":
		p := prng(b.Seed)
		words := []string{"lorem ", "ipsum ", "dolor\n", "sit ", "amet, ", "07070100", "TRAILER!!!", "\x00\x00", "\x1f\x8b"}
		out := make([]byte, 0, b.N+16)
		for len(out) < b.N {
			out = append(out, words[p.next()%uint64(len(words))]...)
		}
		return out[:b.N:b.N]
	}
	return []byte(b.Lit)
}

func genBlob(maxN int) *rapid.Generator[Blob] {
	return rapid.Custom(func(t *rapid.T) Blob {
		switch rapid.IntRange(0, 4).Draw(t, "blobkind") {
		case 0:
			return Blob{Kind: "lit", Lit: S(rapid.SliceOfN(rapid.Byte(), 0, min(12, maxN)).Draw(t, "lit"))}
		case 1:
			return Blob{Kind: "zero", N: rapid.IntRange(0, maxN).Draw(t, "n")}
		case 2, 3:
			return Blob{Kind: "rand", N: rapid.IntRange(0, maxN).Draw(t, "n"), Seed: uint64(rapid.IntRange(0, 1<<20).Draw(t, "bseed"))}
		default:
			return Blob{Kind: "text", N: rapid.IntRange(0, maxN).Draw(t, "n"), Seed: uint64(rapid.IntRange(0, 1<<20).Draw(t, "bseed"))}
		}
	})
}

const (
	tNull, tChar, tInt8, tInt16, tInt32, tInt64, tString, tBin, tStrArr, tI18N = 0, 1, 2, 3, 4, 5, 6, 7, 8, 9
)

var intSize = map[int32]int{tChar: 1, tInt8: 1, tInt16: 2, tInt32: 4, tInt64: 8}

func isIntType(t int32) bool { return intSize[t] != 0 }
func isStrType(t int32) bool { return t == tString || t == tStrArr || t == tI18N }

// TagV is a typed value stored under a tag.
type TagV struct {
	Tag  int32    `json:"tag"`
	Type int32    `json:"type"`
	Strs []S      `json:"strs,omitempty"`
	Ints []uint64 `json:"ints,omitempty"`
	Bin  *Blob    `json:"bin,omitempty"`
}

func strTag(tag int32, s string) TagV { return TagV{Tag: tag, Type: tString, Strs: []S{S(s)}} }
func strsTag(tag int32, ss ...string) TagV {
	v := TagV{Tag: tag, Type: tStrArr}
	for _, s := range ss {
		v.Strs = append(v.Strs, S(s))
	}
	return v
}
func intTag(tag, typ int32, vs ...uint64) TagV { return TagV{Tag: tag, Type: typ, Ints: vs} }
func binTag(tag int32, b []byte) TagV {
	return TagV{Tag: tag, Type: tBin, Bin: &Blob{Kind: "lit", Lit: S(b)}}
}

// Raw returns the encoded data and the count of a value.
func (v TagV) Raw() (data []byte, count int) {
	switch {
	case isStrType(v.Type):
		for _, s := range v.Strs {
			data = append(append(data, s...), 0)
		}
		return data, len(v.Strs)
	case v.Type == tBin:
		data = v.Bin.Bytes()
		return data, len(data)
	case v.Type == tNull:
		return nil, 1
	}
	for _, i := range v.Ints {
		switch intSize[v.Type] {
		case 1:
			data = append(data, byte(i))
		case 2:
			data = binary.BigEndian.AppendUint16(data, uint16(i))
		case 4:
			data = binary.BigEndian.AppendUint32(data, uint32(i))
		case 8:
			data = binary.BigEndian.AppendUint64(data, i)
		}
	}
	return data, len(v.Ints)
}

// Hdr describes one header structure.
type Hdr struct {
	Tags     []TagV `json:"tags"`
	Region   int32  `json:"region,omitempty"`   // region tag, 0 for none
	Reserved uint32 `json:"reserved,omitempty"` // reserved word of the intro
	Gap      int    `json:"gap,omitempty"`      // junk bytes between values
	Perm     uint64 `json:"perm,omitempty"`     // if non-zero, data is laid out in another order than the index
	Tail     int    `json:"tail,omitempty"`     // junk bytes at the end of the data
}

func (h Hdr) find(tag int32) (TagV, bool) {
	for _, v := range h.Tags {
		if v.Tag == tag {
			return v, true
		}
	}
	return TagV{}, false
}

// Encode lays the header out as bytes. pad aligns the end to 8 bytes, as the
// signature header requires.
func (h Hdr) Encode(pad bool) []byte {
	n := len(h.Tags)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if h.Perm != 0 {
		p := prng(h.Perm)
		for i := n - 1; i > 0; i-- {
			j := int(p.next() % uint64(i+1))
			order[i], order[j] = order[j], order[i]
		}
	}
	var data []byte
	offs := make([]int, n)
	counts := make([]int, n)
	for _, i := range order {
		v := h.Tags[i]
		raw, count := v.Raw()
		for k := 0; k < h.Gap; k++ {
			data = append(data, 0xa5)
		}
		if sz := intSize[v.Type]; sz > 1 {
			for len(data)%sz != 0 {
				data = append(data, 0)
			}
		}
		offs[i], counts[i] = len(data), count
		data = append(data, raw...)
	}
	total := n
	var index []byte
	put := func(tag, typ int32, off, count int) {
		index = binary.BigEndian.AppendUint32(index, uint32(tag))
		index = binary.BigEndian.AppendUint32(index, uint32(typ))
		index = binary.BigEndian.AppendUint32(index, uint32(off))
		index = binary.BigEndian.AppendUint32(index, uint32(count))
	}
	if h.Region != 0 {
		total++
		put(h.Region, tBin, len(data), 16)
		var tr []byte
		for _, w := range []uint32{uint32(h.Region), tBin, uint32(int32(-16 * total)), 16} {
			tr = binary.BigEndian.AppendUint32(tr, w)
		}
		data = append(data, tr...)
	}
	for i, v := range h.Tags {
		put(v.Tag, v.Type, offs[i], counts[i])
	}
	for k := 0; k < h.Tail; k++ {
		data = append(data, 0x5a)
	}
	out := binary.BigEndian.AppendUint32(nil, 0x8eade801)
	out = binary.BigEndian.AppendUint32(out, h.Reserved)
	out = binary.BigEndian.AppendUint32(out, uint32(total))
	out = binary.BigEndian.AppendUint32(out, uint32(len(data)))
	out = append(out, index...)
	out = append(out, data...)
	if pad {
		for len(out)%8 != 0 {
			out = append(out, 0)
		}
	}
	return out
}

// PEntry is an index entry as parsed by the independent parser.
type PEntry struct {
	Tag, Type, Off, Count int32
	Data                  []byte
	Bad                   string // why it is malformed, or ""
}

// PHdr is a parsed header.
type PHdr struct {
	Entries  []PEntry
	NIndex   uint32
	DataSize uint32
	Reserved uint32
	Data     []byte
	Len      int // bytes, including padding for a signature header
	PadBytes []byte
}

func (p *PHdr) find(tag int32) *PEntry {
	for i := range p.Entries {
		if p.Entries[i].Tag == tag {
			return &p.Entries[i]
		}
	}
	return nil
}

func (p *PHdr) lastFind(tag int32) *PEntry {
	for i := len(p.Entries) - 1; i >= 0; i-- {
		if p.Entries[i].Tag == tag {
			return &p.Entries[i]
		}
	}
	return nil
}

// parseHdr parses one header at the start of b.
func parseHdr(b []byte, pad bool) (*PHdr, error) {
	if len(b) < 16 {
		return nil, fmt.Errorf("short intro")
	}
	if binary.BigEndian.Uint32(b) != 0x8eade801 {
		return nil, fmt.Errorf("bad magic")
	}
	p := &PHdr{Reserved: binary.BigEndian.Uint32(b[4:]), NIndex: binary.BigEndian.Uint32(b[8:]), DataSize: binary.BigEndian.Uint32(b[12:])}
	n, size := uint64(p.NIndex), uint64(p.DataSize)
	total := 16 + 16*n + size
	if pad {
		total = (total + 7) / 8 * 8
	}
	if total > uint64(len(b)) {
		return nil, fmt.Errorf("truncated header")
	}
	p.Len = int(total)
	p.Data = b[16+16*n : 16+16*n+size]
	p.PadBytes = b[16+16*n+size : total]
	for i := 0; i < int(n); i++ {
		w := b[16+16*i:]
		e := PEntry{Tag: int32(binary.BigEndian.Uint32(w)), Type: int32(binary.BigEndian.Uint32(w[4:])), Off: int32(binary.BigEndian.Uint32(w[8:])), Count: int32(binary.BigEndian.Uint32(w[12:]))}
		switch {
		case e.Type < 0 || e.Type > 9:
			e.Bad = "type"
		case e.Off < 0 || int64(e.Off) > int64(size):
			e.Bad = "offset"
		case e.Count < 0:
			e.Bad = "count"
		case isStrType(e.Type):
			end := int(e.Off)
			for k := 0; k < int(e.Count); k++ {
				z := bytes.IndexByte(p.Data[end:], 0)
				if z < 0 {
					e.Bad = "unterminated"
					break
				}
				end += z + 1
			}
			if e.Bad == "" {
				e.Data = p.Data[e.Off:end]
			}
		default:
			sz := int64(intSize[e.Type])
			if e.Type == tBin {
				sz = 1
			}
			end := int64(e.Off) + sz*int64(e.Count)
			if end > int64(size) {
				e.Bad = "extent"
			} else {
				e.Data = p.Data[e.Off:end]
			}
		}
		p.Entries = append(p.Entries, e)
	}
	return p, nil
}

// PRPM is a parsed package.
type PRPM struct {
	Lead     []byte
	Sig, Gen *PHdr
	SigBytes []byte
	GenBytes []byte
	Payload  []byte
}

func parseRPM(b []byte) (*PRPM, error) {
	if len(b) < 96 || binary.BigEndian.Uint32(b) != 0xedabeedb {
		return nil, fmt.Errorf("bad lead")
	}
	sig, err := parseHdr(b[96:], true)
	if err != nil {
		return nil, fmt.Errorf("signature header: %w", err)
	}
	gen, err := parseHdr(b[96+sig.Len:], false)
	if err != nil {
		return nil, fmt.Errorf("general header: %w", err)
	}
	e := 96 + sig.Len
	return &PRPM{Lead: b[:96], Sig: sig, Gen: gen, SigBytes: b[96:e], GenBytes: b[e : e+gen.Len], Payload: b[e+gen.Len:]}, nil
}

// ---------------------------------------------------------------- packages

// Tag numbers, from the RPM documentation (not from the library).
const (
	tagName, tagVersion, tagRelease, tagEpoch, tagSize, tagArch      = 1000, 1001, 1002, 1003, 1009, 1022
	tagOldFilenames, tagFileSizes, tagFileModes, tagFileRdevs        = 1027, 1028, 1030, 1033
	tagFileMtimes, tagFileDigests, tagFileLinktos, tagFileFlags      = 1034, 1035, 1036, 1037
	tagFileUser, tagFileGroup, tagFileDevices, tagFileInodes         = 1039, 1040, 1095, 1096
	tagDirIndexes, tagBasenames, tagDirnames                         = 1116, 1117, 1118
	tagPayloadFormat, tagPayloadCompressor                           = 1124, 1125
	tagLongFileSizes, tagLongSize, tagPayDigest, tagPayDigestAlgo    = 5008, 5009, 5092, 5093
	sigDSA, sigRSA, sigSHA1, sigLongSigSize, sigLongArchive, sigSHA2 = 267, 268, 269, 270, 271, 273
	sigSize, sigPGP, sigMD5, sigGPG, sigPayloadSize, sigReserved     = 1000, 1002, 1004, 1005, 1007, 1008
	sigOff                                                           = 16384
)

var payAlgos = map[int]crypto.Hash{1: crypto.MD5, 2: crypto.SHA1, 8: crypto.SHA256, 9: crypto.SHA384, 10: crypto.SHA512, 11: crypto.SHA224}

// Digests says which integrity records the package carries.
type Digests struct {
	SHA1    bool `json:"sha1,omitempty"`
	SHA256  bool `json:"sha256,omitempty"`
	MD5     bool `json:"md5,omitempty"`
	PayAlgo int  `json:"payalgo,omitempty"` // 0: none
}

// Pkg describes a whole package.
type Pkg struct {
	Source  bool    `json:"source,omitempty"`
	Lead    uint64  `json:"lead,omitempty"` // seed for the uninterpreted bytes of the lead
	Sig     Hdr     `json:"sig"`
	Gen     Hdr     `json:"gen"`
	Payload Blob    `json:"payload"`
	Dig     Digests `json:"dig"`
}

// Built is an encoded package.
type Built struct {
	Lead, Sig, Gen, Payload []byte
	All                     []byte
	SigH, GenH              Hdr // with the digest tags filled in
}

func (b *Built) Start() int { return len(b.Lead) + len(b.Sig) }
func (b *Built) End() int   { return b.Start() + len(b.Gen) }

func hexsum(h crypto.Hash, parts ...[]byte) string { return hex.EncodeToString(sum(h, parts...)) }

func sum(h crypto.Hash, parts ...[]byte) []byte {
	w := h.New()
	for _, p := range parts {
		w.Write(p)
	}
	return w.Sum(nil)
}

func makeLead(source bool, seed uint64) []byte {
	lead := Blob{Kind: "rand", N: 96, Seed: seed}.Bytes()
	if seed == 0 {
		lead = make([]byte, 96)
		lead[4] = 3
	}
	binary.BigEndian.PutUint32(lead, 0xedabeedb)
	lead[6], lead[7] = 0, 0
	switch {
	case source:
		lead[7] = 1
	case seed == 2:
		// neither binary (0) nor source (1)
		lead[7] = 2
	case seed == 3:
		lead[6], lead[7] = 1, 1
	}
	return lead
}

func sortTags(t []TagV) {
	sort.SliceStable(t, func(i, j int) bool { return t[i].Tag < t[j].Tag })
}

// Build encodes the package with an already encoded payload.
func (p Pkg) BuildWith(payload []byte) *Built {
	b := &Built{Lead: makeLead(p.Source, p.Lead), Payload: payload}
	gen := p.Gen
	gen.Tags = append([]TagV(nil), p.Gen.Tags...)
	if h := payAlgos[p.Dig.PayAlgo]; h != 0 {
		gen.Tags = append(gen.Tags, strsTag(tagPayDigest, hexsum(h, payload)), intTag(tagPayDigestAlgo, tInt32, uint64(p.Dig.PayAlgo)))
	}
	sortTags(gen.Tags)
	b.GenH = gen
	b.Gen = gen.Encode(false)
	b.SigH = p.sigWithDigests(b.Gen, payload)
	b.Sig = b.SigH.Encode(true)
	b.All = bytes.Join([][]byte{b.Lead, b.Sig, b.Gen, b.Payload}, nil)
	return b
}

func (p Pkg) sigWithDigests(gen, payload []byte) Hdr {
	sig := p.Sig
	sig.Tags = append([]TagV(nil), p.Sig.Tags...)
	if p.Dig.SHA1 {
		s := sha1.Sum(gen)
		sig.Tags = append(sig.Tags, strTag(sigSHA1, hex.EncodeToString(s[:])))
	}
	if p.Dig.SHA256 {
		s := sha256.Sum256(gen)
		sig.Tags = append(sig.Tags, strTag(sigSHA2, hex.EncodeToString(s[:])))
	}
	if p.Dig.MD5 {
		m := md5.New()
		m.Write(gen)
		m.Write(payload)
		sig.Tags = append(sig.Tags, binTag(sigMD5, m.Sum(nil)))
	}
	sortTags(sig.Tags)
	return sig
}

// Build encodes the package.
func (p Pkg) Build() *Built { return p.BuildWith(p.Payload.Bytes()) }

// ---------------------------------------------------------------- generators

func genText(maxLen int) *rapid.Generator[S] {
	return rapid.Custom(func(t *rapid.T) S {
		switch rapid.IntRange(0, 9).Draw(t, "textkind") {
		case 0:
			return ""
		case 1: // arbitrary bytes but NUL
			b := rapid.SliceOfN(rapid.ByteRange(1, 255), 0, min(24, maxLen)).Draw(t, "bytes")
			return S(b)
		case 2:
			n := rapid.IntRange(0, maxLen).Draw(t, "len")
			return S(bytes.Repeat([]byte("x"), n))
		default:
			return S(rapid.StringMatching(`[a-zA-Z0-9._+~^ -]{0,16}`).Draw(t, "text"))
		}
	})
}

// interesting numbers for each width
func genUint(bits int) *rapid.Generator[uint64] {
	hi := uint64(1)<<(bits-1) | (uint64(1)<<(bits-1) - 1)
	return rapid.Custom(func(t *rapid.T) uint64 {
		switch rapid.IntRange(0, 3).Draw(t, "uk") {
		case 0:
			vs := []uint64{0, 1, hi, hi - 1, hi >> 1, hi>>1 + 1, 127, 128, 255, 256 & hi, 0x0102030405060708 & hi, 1 << (bits / 2), 0x7fffffff & hi, 0x80000000 & hi, 0xffffffff & hi}
			return rapid.SampledFrom(vs).Draw(t, "v") & hi
		case 1:
			return rapid.Uint64Range(0, min(1000, hi)).Draw(t, "v")
		default:
			return rapid.Uint64Range(0, hi).Draw(t, "v")
		}
	})
}

// genVal draws a value of a random type for a tag; never with zero elements.
func genVal(t *rapid.T, tag int32, allowNull bool) TagV {
	types := []int32{tChar, tInt8, tInt16, tInt32, tInt32, tInt64, tString, tString, tBin, tBin, tStrArr, tStrArr, tI18N}
	if allowNull {
		types = append(types, tNull)
	}
	return genValOf(t, tag, rapid.SampledFrom(types).Draw(t, "type"))
}

func genValOf(t *rapid.T, tag, typ int32) TagV {
	v := TagV{Tag: tag, Type: typ}
	count := 1
	if rapid.IntRange(0, 2).Draw(t, "multi") > 0 {
		count = rapid.IntRange(1, 6).Draw(t, "count")
		if rapid.IntRange(0, 39).Draw(t, "many") == 0 {
			count = rapid.IntRange(7, 300).Draw(t, "manycount")
		}
	}
	switch {
	case typ == tString:
		v.Strs = []S{genText(300).Draw(t, "s")}
	case isStrType(typ):
		for i := 0; i < count; i++ {
			v.Strs = append(v.Strs, genText(40).Draw(t, "s"))
		}
	case typ == tBin:
		size := 300
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			size = 20000
		}
		b := genBlob(size).Draw(t, "bin")
		if len(b.Bytes()) == 0 {
			b = Blob{Kind: "lit", Lit: "\x00"}
		}
		v.Bin = &b
	case isIntType(typ):
		for i := 0; i < count; i++ {
			v.Ints = append(v.Ints, genUint(intSize[typ]*8).Draw(t, "i"))
		}
	}
	return v
}

// tags with a meaning to the library; random filler avoids them
var meaningful = map[int32]bool{
	tagName: true, tagVersion: true, tagRelease: true, tagEpoch: true, tagArch: true, tagSize: true, tagLongSize: true,
	tagOldFilenames: true, tagFileSizes: true, tagFileModes: true, tagFileMtimes: true, tagFileDigests: true, tagFileLinktos: true,
	tagFileFlags: true, tagFileUser: true, tagFileGroup: true, tagFileDevices: true, tagFileInodes: true, tagDirIndexes: true,
	tagBasenames: true, tagDirnames: true, tagPayloadFormat: true, tagPayloadCompressor: true, tagLongFileSizes: true,
	tagPayDigest: true, tagPayDigestAlgo: true,
}

var meaningfulSig = map[int32]bool{
	sigDSA: true, sigRSA: true, sigSHA1: true, sigSHA2: true, sigLongArchive: true, sigPGP: true, sigMD5: true, sigGPG: true,
	sigPayloadSize: true, sigReserved: true,
}

// genFillerTags draws random extra tags for a header.
func genFillerTags(t *rapid.T, sig bool, maxN int, allowNull bool) []TagV {
	n := rapid.IntRange(0, maxN).Draw(t, "nfiller")
	seen := map[int32]bool{}
	var out []TagV
	for i := 0; i < n; i++ {
		var tag int32
		if sig {
			switch rapid.IntRange(0, 3).Draw(t, "tagkind") {
			case 0:
				tag = rapid.Int32Range(64, 999).Draw(t, "tag")
			case 1:
				tag = rapid.SampledFrom([]int32{64, 100, 256, 264, 266, 270, 272, 274, 276, 279, 999, 1000, 1001, 1003, 1006, 1009, 1010, 1234}).Draw(t, "tag")
			case 2:
				tag = rapid.Int32Range(1000, 1020).Draw(t, "tag")
			default:
				tag = rapid.Int32Range(1001, 40000).Draw(t, "tag")
			}
			if meaningfulSig[tag] {
				continue
			}
		} else {
			switch rapid.IntRange(0, 3).Draw(t, "tagkind") {
			case 0:
				tag = rapid.Int32Range(1000, 1180).Draw(t, "tag")
			case 1:
				tag = rapid.SampledFrom([]int32{100, 1004, 1005, 1006, 1007, 1010, 1014, 1046, 1047, 1049, 1081, 1112, 1113, 5010, 5012, 5034, 5046, 5062, 16383}).Draw(t, "tag")
			case 2:
				tag = rapid.Int32Range(5000, 5120).Draw(t, "tag")
			default:
				tag = rapid.Int32Range(64, 16383).Draw(t, "tag")
			}
			if meaningful[tag] {
				continue
			}
		}
		if seen[tag] {
			continue
		}
		seen[tag] = true
		out = append(out, genVal(t, tag, allowNull))
	}
	sortTags(out)
	return out
}

func identityTags() []TagV {
	return []TagV{strTag(tagName, "pkg"), strTag(tagVersion, "1.0"), strTag(tagRelease, "1"), strTag(tagArch, "noarch")}
}

func genLayout(t *rapid.T, h *Hdr, region int32) {
	if rapid.Bool().Draw(t, "region") {
		h.Region = region
	}
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		h.Reserved = rapid.Uint32().Draw(t, "reserved")
		h.Gap = rapid.IntRange(0, 5).Draw(t, "gap")
		h.Perm = uint64(rapid.IntRange(0, 1000).Draw(t, "perm"))
		h.Tail = rapid.IntRange(0, 9).Draw(t, "tail")
	}
}

func genDigests(t *rapid.T) Digests {
	return Digests{
		SHA1:    rapid.Bool().Draw(t, "sha1"),
		SHA256:  rapid.Bool().Draw(t, "sha256"),
		MD5:     rapid.Bool().Draw(t, "md5"),
		PayAlgo: rapid.SampledFrom([]int{0, 0, 8, 8, 1, 2, 9, 10, 11}).Draw(t, "payalgo"),
	}
}

// genPkg draws a package with random filler and an opaque payload.
func genPkg(t *rapid.T, filler int, maxPayload int) Pkg {
	p := Pkg{Source: rapid.IntRange(0, 3).Draw(t, "src") == 0, Lead: uint64(rapid.IntRange(0, 3).Draw(t, "lead"))}
	p.Sig.Tags = genFillerTags(t, true, filler, true)
	p.Gen.Tags = append(identityTags(), genFillerTags(t, false, filler, true)...)
	sortTags(p.Gen.Tags)
	genLayout(t, &p.Sig, 62)
	genLayout(t, &p.Gen, 63)
	p.Payload = genBlob(maxPayload).Draw(t, "payload")
	p.Dig = genDigests(t)
	return p
}
