package main

import (
	"bytes"
	"crypto"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"io"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	"github.com/ProtonMail/go-crypto/openpgp/s2k"
	rpmutils "github.com/sassoftware/go-rpmutils"
	"pgregory.net/rapid"
)

var headerSlots = []int32{sigRSA, sigDSA}
var payloadSlots = []int32{sigPGP, sigGPG}
var allSlots = []int32{sigRSA, sigDSA, sigPGP, sigGPG}

var signHashes = []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA224}

// isSigSlot tells the tags that signing owns from those it must leave alone.
func isSigSlot(tag int32) bool {
	return tag == sigRSA || tag == sigDSA || tag == sigPGP || tag == sigGPG || tag == sigReserved || tag < 64
}

// OldSig is what a signature slot holds before signing.
type OldSig struct {
	Tag  int32    `json:"tag"`
	Sig  *SigSpec `json:"sig,omitempty"` // a genuine signature, or
	Junk *Blob    `json:"junk,omitempty"`
}

// SignPkg is a package with possibly some signatures and reserved space in it.
type SignPkg struct {
	Pkg      Pkg      `json:"pkg"`
	Old      []OldSig `json:"old,omitempty"`
	Reserved int      `json:"reserved"` // size of the reserved space tag, -1: none
}

// build encodes the package; the genuine signatures cover its real contents.
func (s SignPkg) build() *Built {
	plain := s.Pkg.Build()
	p := s.Pkg
	p.Sig.Tags = append([]TagV(nil), s.Pkg.Sig.Tags...)
	for _, o := range s.Old {
		var blob []byte
		switch {
		case o.Sig == nil:
			blob = o.Junk.Bytes()
		case o.Tag == sigRSA || o.Tag == sigDSA:
			blob = makeSig(*o.Sig, plain.Gen)
		default:
			blob = makeSig(*o.Sig, plain.Gen, plain.Payload)
		}
		p.Sig.Tags = append(p.Sig.Tags, binTag(o.Tag, blob))
	}
	if s.Reserved >= 0 {
		p.Sig.Tags = append(p.Sig.Tags, TagV{Tag: sigReserved, Type: tBin, Bin: &Blob{Kind: "zero", N: s.Reserved}})
	}
	return p.Build()
}

func genSigSpec(t *rapid.T, keys int) SigSpec {
	s := SigSpec{Key: rapid.IntRange(0, keys-1).Draw(t, "key"), Hash: int(rapid.SampledFrom(signHashes).Draw(t, "hash")), Time: uint32(genUint(32).Draw(t, "time"))}
	ids := rapid.SampledFrom([][2]int{{1, 0}, {2, 0}, {0, 1}, {0, 2}, {1, 1}, {2, 1}, {2, 2}}).Draw(t, "ids")
	s.KeyID, s.Fpr = ids[0], ids[1]
	s.Notation = rapid.SampledFrom([]int{0, 0, 0, 10, 300}).Draw(t, "notation")
	s.OldLen = rapid.IntRange(0, 2).Draw(t, "oldlen")
	return s
}

func genSignPkg(t *rapid.T, filler, maxPayload int) SignPkg {
	s := SignPkg{Pkg: genPkg(t, filler, maxPayload), Reserved: -1}
	if s.Pkg.Dig.PayAlgo == 0 {
		s.Pkg.Dig.MD5 = true // without any payload digest the library declines to sign
	}
	for _, tag := range allSlots {
		switch rapid.IntRange(0, 3).Draw(t, "oldsig") {
		case 0:
			spec := genSigSpec(t, len(testKeys()))
			s.Old = append(s.Old, OldSig{Tag: tag, Sig: &spec})
		case 1:
			b := genBlob(600).Draw(t, "junk")
			s.Old = append(s.Old, OldSig{Tag: tag, Junk: &b})
		}
	}
	if rapid.Bool().Draw(t, "hasreserved") {
		s.Reserved = rapid.SampledFrom([]int{0, 1, 7, 16, 100, 500, 600, 700, 1000, 4128}).Draw(t, "reserved") + rapid.IntRange(0, 9).Draw(t, "resx")
	}
	return s
}

// SignOp is one act of signing.
type SignOp struct {
	Key   int   `json:"key"`
	Opts  int   `json:"opts"` // 0 nil, 1 zero value, 2 hash, 3 time, 4 both
	Hash  int   `json:"hash"`
	Time  int64 `json:"time"`
	Nanos int   `json:"nanos"`
	Zone  int   `json:"zone"`
	Same  bool  `json:"same"` // dump with the original size
	File  bool  `json:"file"` // through SignRpmFile instead of the stream interface
}

func genSignOp(t *rapid.T) SignOp {
	return SignOp{Key: rapid.IntRange(0, len(testKeys())-1).Draw(t, "key"), Opts: rapid.IntRange(0, 4).Draw(t, "opts"), Hash: int(rapid.SampledFrom(signHashes).Draw(t, "hash")),
		Time: int64(genUint(32).Draw(t, "time")), Nanos: rapid.IntRange(0, 999999999).Draw(t, "nanos"), Zone: rapid.IntRange(-12, 12).Draw(t, "zone"), Same: rapid.Bool().Draw(t, "same")}
}

func (o SignOp) options() *rpmutils.SignatureOptions {
	if o.Opts == 0 {
		return nil
	}
	so := &rpmutils.SignatureOptions{}
	if o.Opts == 2 || o.Opts == 4 {
		so.Hash = crypto.Hash(o.Hash)
	}
	if o.Opts == 3 || o.Opts == 4 {
		so.CreationTime = time.Unix(o.Time, int64(o.Nanos)).In(time.FixedZone("z", o.Zone*3600))
	}
	return so
}

// checkMeta compares what a signature packet says with what was asked for.
func (o SignOp) checkMeta(hash crypto.Hash, at, before, after time.Time) error {
	want := crypto.SHA256
	if o.Opts == 2 || o.Opts == 4 {
		want = crypto.Hash(o.Hash)
	}
	if hash != want {
		return errf("signature uses %v, want %v", hash, want)
	}
	if o.Opts == 3 || o.Opts == 4 {
		if at.Unix() != o.Time {
			return errf("creation time %v, want %v", at, time.Unix(o.Time, 0))
		}
	} else if at.Unix() < before.Unix() || at.Unix() > after.Unix() {
		return errf("creation time %v, want the current time (%v to %v)", at, before, after)
	}
	return nil
}

// checkSigned decides whether out is orig signed once with op's key: nothing
// but the signatures changed, and the signatures are right. own is the signature
// header before, for the tags that must survive.
func checkSigned(out []byte, orig *PRPM, op SignOp, before, after time.Time) error {
	p, err := parseRPM(out)
	if err != nil {
		return errf("the signed package does not parse: %v", err)
	}
	if !bytes.Equal(p.Lead, orig.Lead) {
		return errf("signing changed the lead")
	}
	if !bytes.Equal(p.GenBytes, orig.GenBytes) {
		return errf("signing changed the general header")
	}
	if !bytes.Equal(p.Payload, orig.Payload) {
		return errf("signing changed the payload (%d bytes, was %d)", len(p.Payload), len(orig.Payload))
	}
	if err := sigHeaderKept(p.Sig, orig.Sig); err != nil {
		return err
	}
	key := testKeys()[op.Key]
	for _, slots := range [][]int32{headerSlots, payloadSlots} {
		var found []*PEntry
		for i := range p.Sig.Entries {
			e := &p.Sig.Entries[i]
			if e.Tag == slots[0] || e.Tag == slots[1] {
				found = append(found, e)
			}
		}
		what := "header"
		msg := [][]byte{p.GenBytes}
		if slots[0] == sigPGP {
			what = "header+payload"
			msg = append(msg, p.Payload)
		}
		if len(found) != 1 {
			return errf("%d %s signatures after signing, want 1", len(found), what)
		}
		si, err := openSig(found[0].Data, key.Priv, msg...)
		if err != nil {
			return errf("%s %v", what, err)
		}
		if si.Type != 0 || si.KeyID != key.Priv.KeyId {
			return errf("%s signature: type %d key %x, want 0 %x", what, si.Type, si.KeyID, key.Priv.KeyId)
		}
		if err := op.checkMeta(si.Hash, si.Time, before, after); err != nil {
			return errf("%s: %v", what, err)
		}
	}
	return nil
}

// sigHeaderKept checks that every tag but the signatures kept its value, and none was added.
func sigHeaderKept(now, was *PHdr) error {
	kept := 0
	for i := range was.Entries {
		e := was.Entries[i]
		if isSigSlot(e.Tag) {
			continue
		}
		kept++
		g := now.find(e.Tag)
		if g == nil {
			return errf("signature header tag %d was lost", e.Tag)
		}
		if g.Bad != "" {
			return errf("signature header tag %d is now malformed: %s", e.Tag, g.Bad)
		}
		if g.Type != e.Type || g.Count != e.Count || !bytes.Equal(g.Data, e.Data) {
			return errf("signature header tag %d changed: type %d count %d %x, was type %d count %d %x", e.Tag, g.Type, g.Count, clip(g.Data), e.Type, e.Count, clip(e.Data))
		}
		if sz := intSize[g.Type]; sz > 1 && int(g.Off)%sz != 0 {
			return errf("signature header tag %d is misaligned", e.Tag)
		}
	}
	n := 0
	for i := range now.Entries {
		if now.Entries[i].Bad != "" && now.Entries[i].Tag >= 64 {
			return errf("signature header tag %d is malformed: %s", now.Entries[i].Tag, now.Entries[i].Bad)
		}
		if !isSigSlot(now.Entries[i].Tag) {
			n++
		}
	}
	if n != kept {
		return errf("%d signature header tags besides the signatures, had %d", n, kept)
	}
	return nil
}

func clip(b []byte) []byte {
	if len(b) > 40 {
		return b[:40]
	}
	return b
}

// ---------------------------------------------------------------- C07

type c07Case struct {
	Pkg    SignPkg `json:"pkg"`
	Op     SignOp  `json:"op"`
	Ring   []int   `json:"ring"` // other keys in the verifier's keyring
	Front  bool    `json:"front"`
	Chunks Chunks  `json:"chunks"`
}

func genC07(t *rapid.T) c07Case {
	return c07Case{Pkg: genSignPkg(t, 4, 3000), Op: genSignOp(t), Ring: rapid.SliceOfNDistinct(rapid.IntRange(0, 5), 0, 3, rapid.ID[int]).Draw(t, "ring"),
		Front: rapid.Bool().Draw(t, "front"), Chunks: genStreams(true).Draw(t, "chunks")}
}

func checkC07(k *K, c c07Case) error {
	b := c.Pkg.build()
	orig, err := parseRPM(b.All)
	must(err)
	key := testKeys()[c.Op.Key]
	k.Label(key.Name)
	k.LabelIf(len(c.Pkg.Old) > 0, "signed before")
	k.NTIf(c.Op.Opts != 0 || len(c.Pkg.Old) > 0)
	before := time.Now()
	hdr, err := rpmutils.SignRpmStream(c.Chunks.readerOf(k, b.All), key.Priv, c.Op.options())
	after := time.Now()
	if err != nil {
		return errf("SignRpmStream: %v", err)
	}
	blob, err := hdr.DumpSignatureHeader(c.Op.Same)
	if err != nil {
		return errf("DumpSignatureHeader: %v", err)
	}
	if hdr.OriginalSignatureHeaderSize() != b.Start() {
		return errf("OriginalSignatureHeaderSize=%d, want %d", hdr.OriginalSignatureHeaderSize(), b.Start())
	}
	out := append(blob[:len(blob):len(blob)], b.All[b.Start():]...)
	if err := checkSigned(out, orig, c.Op, before, after); err != nil {
		return err
	}
	// and the library itself agrees
	ring := []int{}
	for _, i := range c.Ring {
		if i != entityIndex(c.Op.Key) {
			ring = append(ring, i)
		}
	}
	if c.Front {
		ring = append([]int{entityIndex(c.Op.Key)}, ring...)
	} else {
		ring = append(ring, entityIndex(c.Op.Key))
	}
	_, sigs, err := rpmutils.Verify(c.Chunks.readerOf(k, out), keyring(ring...))
	if err != nil {
		return errf("Verify of the signed package: %v", err)
	}
	if len(sigs) != 2 {
		return errf("Verify reports %d signatures, want 2", len(sigs))
	}
	nh := 0
	for _, s := range sigs {
		if s.HeaderOnly {
			nh++
		}
		if s.Signer != key.Entity {
			return errf("Verify names the wrong signer")
		}
		if s.KeyId != key.Priv.KeyId {
			return errf("Verify reports key %x, want %x", s.KeyId, key.Priv.KeyId)
		}
		if err := c.Op.checkMeta(s.Hash, s.CreationTime, before, after); err != nil {
			return errf("Verify: %v", err)
		}
	}
	if nh != 1 {
		return errf("Verify reports %d header-only signatures, want 1", nh)
	}
	return nil
}

// c07UseCase is a signing whose key or hash may be of no use.
type c07UseCase struct {
	Pkg   SignPkg `json:"pkg"`
	Op    SignOp  `json:"op"`
	Kind  string  `json:"kind"`
	At    int     `json:"at"` // the signature at which an external signer fails
	Exist int     `json:"exist"`
}

var c07Kinds = []string{"usable", "locked", "stub", "encryption-only", "signer", "signer-fails"}

func genC07Use(t *rapid.T) c07UseCase {
	c := c07UseCase{Pkg: genSignPkg(t, 4, 1000), Op: genSignOp(t), Kind: rapid.SampledFrom(c07Kinds).Draw(t, "kind"), At: rapid.IntRange(0, 1).Draw(t, "at"),
		Exist: rapid.IntRange(0, 2).Draw(t, "exist")}
	c.Op.File = rapid.Bool().Draw(t, "file")
	if rapid.Bool().Draw(t, "any hash") {
		c.Op.Opts = 2
		c.Op.Hash = rapid.IntRange(1, 40).Draw(t, "number")
	}
	return c
}

type flakySigner struct {
	crypto.Signer
	n, failAt int
}

func (s *flakySigner) Sign(r io.Reader, digest []byte, opts crypto.SignerOpts) ([]byte, error) {
	s.n++
	if s.n-1 == s.failAt {
		return nil, errors.New("the card was removed")
	}
	return s.Signer.Sign(r, digest, opts)
}

var encryptionKey = sync.OnceValue(func() *packet.PrivateKey {
	e, err := openpgp.NewEntity("e", "", "e@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA})
	must(err)
	return e.Subkeys[0].PrivateKey
})

// stubOf returns a key whose private part is elsewhere, as GnuPG exports it.
func stubOf(k *packet.PrivateKey) *packet.PrivateKey {
	var buf bytes.Buffer
	must(k.PublicKey.Serialize(&buf))
	// the body of the public key packet, whatever the form of its length
	r, err := packet.NewOpaqueReader(&buf).Next()
	must(err)
	body := append(append([]byte(nil), r.Contents...), 255, 7, 101, 2, 'G', 'N', 'U', 1)
	p, err := packet.Read(bytes.NewReader(wrapPacket(5, body, 0)))
	must(err)
	return p.(*packet.PrivateKey)
}

// key returns the key to sign with, and whether it can sign.
func (c c07UseCase) key() (*packet.PrivateKey, bool) {
	if c.Kind == "signer" || c.Kind == "signer-fails" {
		c.Op.Key &= 1 // go-crypto takes external signers for RSA only
	}
	key := *testKeys()[c.Op.Key].Priv
	switch c.Kind {
	case "locked":
		if key.PrivateKey != nil {
			must(key.EncryptWithConfig([]byte("secret"), &packet.Config{S2KConfig: &s2k.Config{S2KMode: 3, S2KCount: 1024, Hash: crypto.SHA256}}))
		}
		return &key, false
	case "stub":
		return stubOf(&key), false
	case "encryption-only":
		return encryptionKey(), false
	case "signer":
		key.PrivateKey = &flakySigner{key.PrivateKey.(crypto.Signer), 0, -1}
	case "signer-fails":
		key.PrivateKey = &flakySigner{key.PrivateKey.(crypto.Signer), 0, c.At}
		return &key, false
	}
	return &key, true
}

func checkC07Use(k *K, c c07UseCase) error {
	b := c.Pkg.build()
	orig, err := parseRPM(b.All)
	must(err)
	key, usable := c.key()
	if c.Kind == "signer" {
		c.Op.Key &= 1
	}
	k.Label(c.Kind)
	hash := crypto.SHA256
	if c.Op.Opts == 2 || c.Op.Opts == 4 {
		hash = crypto.Hash(c.Op.Hash)
	}
	open := false
	switch hash {
	case crypto.SHA224, crypto.SHA256, crypto.SHA384, crypto.SHA512:
	case crypto.MD5, crypto.SHA1, crypto.RIPEMD160, crypto.SHA3_256, crypto.SHA3_512:
		open = true // OpenPGP has numbers for these, but nobody need offer them
	default:
		usable = false
		k.Label("hash unknown to OpenPGP")
	}
	k.NTIf(!usable || open)
	before := time.Now()
	in, out := k.Dir()+"/in.rpm", k.Dir()+"/in.rpm"
	var result []byte
	if c.Op.File {
		writeFile(in, b.All)
		if c.Exist != 2 {
			out = k.Dir() + "/out.rpm"
		}
		if c.Exist == 1 {
			writeFile(out, []byte("something else"))
		}
		f := openFile(in)
		defer f.Close()
		_, err = rpmutils.SignRpmFile(f, out, key, c.Op.options())
		if err == nil {
			result = readFile(out)
		}
	} else {
		var hdr *rpmutils.RpmHeader
		hdr, err = rpmutils.SignRpmStream(bytes.NewReader(b.All), key, c.Op.options())
		if err == nil {
			blob, err := hdr.DumpSignatureHeader(c.Op.Same)
			if err != nil {
				return errf("DumpSignatureHeader: %v", err)
			}
			result = append(blob[:len(blob):len(blob)], b.All[b.Start():]...)
		}
	}
	after := time.Now()
	if err == nil && !usable {
		return errf("signing with a key or hash of no use (%s, %v) succeeded", c.Kind, hash)
	}
	if err != nil {
		if usable && !open {
			return errf("signing: %v", err)
		}
		if c.Op.File {
			want := map[string]string{"in.rpm": string(b.All)}
			if c.Exist == 1 {
				want["out.rpm"] = "something else"
			}
			ents, err := os.ReadDir(k.Dir())
			must(err)
			for _, e := range ents {
				if w, ok := want[e.Name()]; !ok {
					return errf("failed signing left %s", e.Name())
				} else if w != string(readFile(k.Dir()+"/"+e.Name())) {
					return errf("failed signing changed %s", e.Name())
				}
			}
			if len(ents) != len(want) {
				return errf("failed signing removed a file")
			}
		}
		return nil
	}
	if open {
		_, sigs, err := rpmutils.Verify(bytes.NewReader(result), keyring(entityIndex(c.Op.Key)))
		if err != nil || len(sigs) != 2 || sigs[0].Hash != hash || sigs[1].Hash != hash {
			return errf("signed with %v: %d signatures, %v", hash, len(sigs), err)
		}
		return nil
	}
	return checkSigned(result, orig, c.Op, before, after)
}

// ---------------------------------------------------------------- C08

type c08Case struct {
	Pkg SignPkg  `json:"pkg"`
	Ops []SignOp `json:"ops"`
	Raw []Blob   `json:"raw"` // for RewriteWithSignatures steps
}

func genC08(t *rapid.T) c08Case {
	c := c08Case{Pkg: genSignPkg(t, 8, 800)}
	n := rapid.IntRange(1, 4).Draw(t, "nops")
	for i := 0; i < n; i++ {
		op := genSignOp(t)
		op.File = rapid.Bool().Draw(t, "file")
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC08(k *K, c c08Case) error {
	b := c.Pkg.build()
	orig, err := parseRPM(b.All)
	must(err)
	k.NTIf(len(c.Ops) >= 2 || len(c.Pkg.Old) > 0)
	k.LabelIf(len(c.Ops) >= 2, "signed repeatedly")
	k.LabelIf(c.Pkg.Reserved >= 0, "reserved space")
	cur := b.All
	var path string
	for i, op := range c.Ops {
		key := testKeys()[op.Key]
		before := time.Now()
		var next []byte
		if op.File {
			if path == "" {
				path = k.Dir() + "/p.rpm"
			}
			writeFile(path, cur)
			if err := signFile(path, path, op); err != nil {
				return errf("step %d: SignRpmFile: %v", i, err)
			}
			next = readFile(path)
			k.Label("in place through a file")
		} else {
			hdr, err := rpmutils.SignRpmStream(bytes.NewReader(cur), key.Priv, op.options())
			if err != nil {
				return errf("step %d: SignRpmStream: %v", i, err)
			}
			blob, err := hdr.DumpSignatureHeader(op.Same)
			if err != nil {
				return errf("step %d: DumpSignatureHeader: %v", i, err)
			}
			next = append(blob, cur[hdr.OriginalSignatureHeaderSize():]...)
			// the returned header still describes the general header
			nevra, err := hdr.GetNEVRA()
			if err != nil || nevra.Name != "pkg" {
				return errf("step %d: header returned by signing: %v, %v", i, nevra, err)
			}
		}
		if err := checkSigned(next, orig, op, before, time.Now()); err != nil {
			return errf("step %d: %v", i, err)
		}
		cur = next
	}
	return nil
}

// RewriteWithSignatures stores what it is given, and otherwise keeps the package.
type c08RawCase struct {
	Pkg SignPkg `json:"pkg"`
	A   Blob    `json:"pgp"`
	B   Blob    `json:"rsa"`
	New bool    `json:"new"`
}

func genC08Raw(t *rapid.T) c08RawCase {
	return c08RawCase{Pkg: genSignPkg(t, 8, 500), A: genBlob(700).Draw(t, "pgp"), B: genBlob(700).Draw(t, "rsa"), New: rapid.Bool().Draw(t, "new")}
}

func checkC08Raw(k *K, c c08RawCase) error {
	b := c.Pkg.build()
	orig, err := parseRPM(b.All)
	must(err)
	k.NTIf(len(c.Pkg.Old) > 0)
	in := k.Dir() + "/in.rpm"
	out := in
	if c.New {
		out = k.Dir() + "/out.rpm"
	}
	writeFile(in, b.All)
	f := openFile(in)
	defer f.Close()
	h, err := rpmutils.RewriteWithSignatures(f, out, c.A.Bytes(), c.B.Bytes())
	if err != nil {
		return errf("RewriteWithSignatures: %v", err)
	}
	p, err := parseRPM(readFile(out))
	if err != nil {
		return errf("rewritten package: %v", err)
	}
	if !bytes.Equal(p.Lead, orig.Lead) || !bytes.Equal(p.GenBytes, orig.GenBytes) || !bytes.Equal(p.Payload, orig.Payload) {
		return errf("RewriteWithSignatures changed more than the signature header")
	}
	if err := sigHeaderKept(p.Sig, orig.Sig); err != nil {
		return err
	}
	for tag, w := range map[int32][]byte{sigPGP: c.A.Bytes(), sigRSA: c.B.Bytes()} {
		e := p.Sig.find(tag)
		if e == nil || e.Type != tBin || !bytes.Equal(e.Data, w) {
			return errf("signature tag %d does not hold the %d bytes given", tag, len(w))
		}
	}
	if p.Sig.find(sigDSA) != nil || p.Sig.find(sigGPG) != nil {
		return errf("old DSA signatures survived")
	}
	got, err := h.GetBytes(sigRSA)
	if err != nil || !bytes.Equal(got, c.B.Bytes()) {
		return errf("returned header: signature %x, %v", clip(got), err)
	}
	if c.New && !bytes.Equal(readFile(in), b.All) {
		return errf("the input file changed")
	}
	return nil
}

// ---------------------------------------------------------------- C09

type Tamper struct {
	Kind string `json:"kind"`
	At   int    `json:"at"`
	Bit  int    `json:"bit"`
	Blob Blob   `json:"blob"`
}

type c09Case struct {
	Pkg    Pkg       `json:"pkg"`
	Sigs   []OldSig  `json:"sigs"`
	Ring   []int     `json:"ring"`
	NilR   bool      `json:"nilring"`
	Tamper Tamper    `json:"tamper"`
	Chunks Chunks    `json:"chunks"`
	Fix    bool      `json:"fix"` // the attacker recomputes every digest
	_      [0]func() `json:"-"`
}

var tamperKinds = []string{"none", "none", "none", "gen-value", "gen-bit", "gen-add", "gen-swap", "pay-bit", "pay-append", "pay-cut", "pay-replace",
	"sig-hashed", "sig-mpi", "sig-transplant", "sig-slotswap", "sig-extra-stranger", "sig-other-package"}

func genC09(t *rapid.T) c09Case {
	c := c09Case{Pkg: genPkg(t, 3, 800), Chunks: genChunks(false).Draw(t, "chunks")}
	if c.Pkg.Dig.PayAlgo == 0 {
		c.Pkg.Dig.MD5 = true
	}
	for _, tag := range allSlots {
		if rapid.IntRange(0, 2).Draw(t, "has") > 0 {
			s := genSigSpec(t, len(testKeys()))
			if rapid.IntRange(0, 3).Draw(t, "known") > 0 && s.Key == strangerKey {
				s.Key = 0
			}
			c.Sigs = append(c.Sigs, OldSig{Tag: tag, Sig: &s})
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "ringkind") {
	case 0:
		c.NilR = true
	case 1:
		c.Ring = []int{}
	case 2:
		c.Ring = rapid.SliceOfNDistinct(rapid.IntRange(0, 4), 1, 4, rapid.ID[int]).Draw(t, "ring")
	default:
		c.Ring = rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "ringperm")
	}
	c.Fix = rapid.IntRange(0, 3).Draw(t, "fix") > 0
	c.Tamper = Tamper{Kind: rapid.SampledFrom(tamperKinds).Draw(t, "tamper"), At: rapid.IntRange(0, 5000).Draw(t, "at"), Bit: rapid.IntRange(0, 7).Draw(t, "bit"), Blob: genBlob(60).Draw(t, "blob")}
	return c
}

// sigSpans finds the hashed part and the MPI bytes of a signature packet made by makeSig.
func sigSpans(blob []byte) (hashed, mpis []int) {
	off := 2
	switch {
	case blob[0]&0x40 == 0:
		off = 3
	case blob[1] == 255:
		off = 6
	case blob[1] >= 192:
		off = 3
	}
	b := blob[off:]
	hl := int(binary.BigEndian.Uint16(b[4:]))
	// type, key algorithm and subpackets; not the version and hash id, whose
	// change leads into other formats altogether
	for i := 1; i < 6+hl; i++ {
		if i != 4 && i != 5 {
			hashed = append(hashed, off+i)
		}
	}
	ul := int(binary.BigEndian.Uint16(b[6+hl:]))
	p := 6 + hl + 2 + ul + 2
	for p+2 <= len(b) {
		n := (int(binary.BigEndian.Uint16(b[p:])) + 7) / 8
		for i := 0; i < n; i++ {
			mpis = append(mpis, off+p+2+i)
		}
		p += 2 + n
	}
	return
}

func checkC09(k *K, c c09Case) error {
	// the package as its vendor signed it
	vendor := SignPkg{Pkg: c.Pkg, Reserved: -1}
	plain := c.Pkg.Build()
	sigs := map[int32][]byte{}
	spec := map[int32]SigSpec{}
	for _, o := range c.Sigs {
		spec[o.Tag] = *o.Sig
		if o.Tag == sigRSA || o.Tag == sigDSA {
			sigs[o.Tag] = makeSig(*o.Sig, plain.Gen)
		} else {
			sigs[o.Tag] = makeSig(*o.Sig, plain.Gen, plain.Payload)
		}
	}
	_ = vendor
	// the attacker's turn
	genT := c.Pkg.Gen
	genT.Tags = append([]TagV(nil), plain.GenH.Tags...) // with the payload digest in
	payload := append([]byte(nil), plain.Payload...)
	var genRaw []byte
	genChanged, payChanged := false, false
	badSlots := map[int32]bool{}
	tm := c.Tamper
	switch tm.Kind {
	case "gen-value":
		for i := range genT.Tags {
			if genT.Tags[i].Tag == tagVersion {
				genT.Tags[i] = strTag(tagVersion, "6.6.6")
				genChanged = true
			}
		}
	case "gen-add":
		genT.Tags = append(genT.Tags, strTag(16000, string(tm.Blob.Kind)))
		genChanged = true
	case "gen-swap":
		// the same tags, listed in another order
		genT.Tags[0], genT.Tags[1] = genT.Tags[1], genT.Tags[0]
		genChanged = true
	case "gen-bit":
		genRaw = append([]byte(nil), plain.Gen...)
		genRaw[tm.At%len(genRaw)] ^= 1 << tm.Bit
		genChanged = true
	case "pay-bit":
		if len(payload) > 0 {
			payload[tm.At%len(payload)] ^= 1 << tm.Bit
			payChanged = true
		}
	case "pay-append":
		payload = append(payload, 0)
		payChanged = true
	case "pay-cut":
		if len(payload) > 0 {
			payload = payload[:tm.At%len(payload)]
			payChanged = true
		}
	case "pay-replace":
		payload = tm.Blob.Bytes()
		payChanged = !bytes.Equal(payload, plain.Payload)
	}
	if genRaw == nil {
		if payChanged && c.Fix && c.Pkg.Dig.PayAlgo != 0 {
			for i := range genT.Tags {
				if genT.Tags[i].Tag == tagPayDigest {
					genT.Tags[i] = strsTag(tagPayDigest, hexsum(payAlgos[c.Pkg.Dig.PayAlgo], payload))
					genChanged = true
				}
			}
		}
		genRaw = genT.Encode(false)
	}
	slots := []int32{}
	for _, s := range allSlots {
		if sigs[s] != nil {
			slots = append(slots, s)
		}
	}
	pick := int32(0)
	if len(slots) > 0 {
		pick = slots[tm.At%len(slots)]
	}
	k.Label("tamper: " + tm.Kind)
	switch {
	case tm.Kind == "sig-hashed" && pick != 0, tm.Kind == "sig-mpi" && pick != 0:
		blob := append([]byte(nil), sigs[pick]...)
		h, m := sigSpans(blob)
		if tm.Kind == "sig-mpi" {
			h = m
		}
		blob[h[(tm.At/7)%len(h)]] ^= 1 << tm.Bit
		sigs[pick] = blob
		badSlots[pick] = true
	case tm.Kind == "sig-slotswap":
		// a header signature offered as a payload signature, and the reverse
		if len(payload) > 0 {
			if h, p := sigs[sigRSA], sigs[sigPGP]; h != nil && p != nil {
				sigs[sigRSA], sigs[sigPGP] = p, h
				spec[sigRSA], spec[sigPGP] = spec[sigPGP], spec[sigRSA]
				badSlots[sigRSA], badSlots[sigPGP] = true, true
			}
		}
	case tm.Kind == "sig-transplant" && pick != 0, tm.Kind == "sig-other-package" && pick != 0:
		// a genuine signature by a known key over something else
		sigs[pick] = makeSig(spec[pick], []byte("some other header"), payload)
		badSlots[pick] = true
	case tm.Kind == "sig-extra-stranger":
		for _, s := range allSlots {
			if sigs[s] == nil {
				sp := SigSpec{Key: strangerKey, Hash: int(crypto.SHA256), Time: 1, KeyID: 1}
				spec[s] = sp
				if s == sigRSA || s == sigDSA {
					sigs[s] = makeSig(sp, genRaw)
				} else {
					sigs[s] = makeSig(sp, genRaw, payload)
				}
				break
			}
		}
	}
	sigH := c.Pkg.Sig
	sigH.Tags = append([]TagV(nil), c.Pkg.Sig.Tags...)
	for s, blob := range sigs {
		sigH.Tags = append(sigH.Tags, binTag(s, blob))
	}
	p := c.Pkg
	p.Sig = sigH
	digGen, digPay := plain.Gen, plain.Payload
	if c.Fix {
		digGen, digPay = genRaw, payload
	}
	final := p.sigWithDigests(digGen, digPay)
	data := bytes.Join([][]byte{plain.Lead, final.Encode(true), genRaw, payload}, nil)

	// what Verify should say
	ringNil := c.NilR
	var ring openpgp.EntityList
	known := map[int]bool{}
	if !ringNil {
		ring = keyring(c.Ring...)
		for _, i := range c.Ring {
			known[i] = true
		}
	}
	digestsBad := false
	if genChanged && !c.Fix && (c.Pkg.Dig.SHA1 || c.Pkg.Dig.SHA256 || (c.Pkg.Dig.MD5 && c.Pkg.Dig.PayAlgo == 0)) {
		digestsBad = true
	}
	if payChanged && (!c.Fix || (c.Pkg.Dig.PayAlgo != 0 && !genChanged)) {
		digestsBad = true
	}
	unknownKey, broken := false, false
	var unknown []uint64
	for s := range sigs {
		if badSlots[s] || genChanged || (payChanged && (s == sigPGP || s == sigGPG)) {
			// by the stranger, over the tampered contents, is valid but unknown
			if !(tm.Kind == "sig-extra-stranger" && spec[s].Key == strangerKey) {
				broken = true
			}
		}
		if !known[entityIndex(spec[s].Key)] {
			unknownKey = true
			unknown = append(unknown, testKeys()[spec[s].Key].Priv.KeyId)
		}
	}
	hdr, got, err := rpmutils.Verify(c.Chunks.reader(data), ring)
	tampered := genChanged || payChanged || len(badSlots) > 0
	k.NTIf(len(sigs) > 0)
	k.LabelIf(tampered && !digestsBad && broken, "only the signature can tell")
	switch {
	case ringNil:
		// only digests count; a damaged packet may be refused
		if digestsBad {
			if err == nil {
				return errf("%s: digests do not match, but Verify without keys accepted", tm.Kind)
			}
			return nil
		}
		if tm.Kind == "sig-hashed" || tm.Kind == "sig-mpi" || tm.Kind == "gen-bit" {
			return nil
		}
		if err != nil {
			return errf("%s: Verify without keys: %v", tm.Kind, err)
		}
		for _, s := range got {
			if s.Signer != nil || s.PrimaryName != "" {
				return errf("a signer is named without any keys")
			}
		}
	case digestsBad || broken || unknownKey:
		if err == nil {
			return errf("%s (digests recomputed: %v): Verify accepted; bad digests %v, broken signature %v, unknown key %v", tm.Kind, c.Fix, digestsBad, broken, unknownKey)
		}
		if hdr != nil || got != nil {
			return errf("Verify failed but returned results")
		}
		if !digestsBad && !broken && !tampered {
			var nf rpmutils.KeyNotFoundError
			if !errors.As(err, &nf) {
				return errf("unknown key: error %v, want KeyNotFoundError", err)
			}
			ok := false
			for _, id := range unknown {
				ok = ok || id == nf.KeyID
			}
			if !ok {
				return errf("KeyNotFoundError names key %x, unknown are %x", nf.KeyID, unknown)
			}
		}
		return nil
	default:
		if tm.Kind == "gen-bit" {
			return nil // no signature, no digest: it may or may not parse
		}
		if err != nil {
			return errf("%s: genuine package refused: %v", tm.Kind, err)
		}
	}
	if len(got) != len(sigs) {
		return errf("Verify reports %d signatures, the package has %d", len(got), len(sigs))
	}
	nh := 0
	for _, s := range got {
		if s.HeaderOnly {
			nh++
		}
	}
	wh := 0
	for _, s := range headerSlots {
		if sigs[s] != nil {
			wh++
		}
	}
	if nh != wh {
		return errf("Verify reports %d header-only signatures, want %d", nh, wh)
	}
	return nil
}

// ---------------------------------------------------------------- C10

type c10Case struct {
	Pkg    Pkg    `json:"pkg"`
	Algo   int    `json:"algo"`  // recorded algorithm number, 0 none
	Value  int    `json:"value"` // 0 right, 1 wrong digit, 2 empty, 3 of other data, 4 truncated, 5 digest of the prefix, 6 a wrong one after the right one, 7 no algo tag, 8 the right one after a wrong one
	MD5    int    `json:"md5"`   // 0 none, 1 right, 2 wrong, 3 short, 4 empty, 5 without the header
	Edit   Tamper `json:"edit"`
	Chunks Chunks `json:"chunks"`
	Via    int    `json:"via"`
	Shape  int    `json:"shape"` // of the record: 0 as rpm writes it, 1 a string, 2 an I18N string, 3 a short algorithm number, 4 a second algorithm
	// signatures over header and payload as they end up, whatever the digests say
	Slots []int     `json:"slots,omitempty"`
	Sigs  []SigSpec `json:"sigs,omitempty"`
	Keys  int       `json:"keys"` // 0 nil, 1 all, 2 none
}

func genC10(t *rapid.T) c10Case {
	c := c10Case{Pkg: genPkg(t, 2, 2000), Chunks: genChunks(true).Draw(t, "chunks"), Via: rapid.IntRange(0, 1).Draw(t, "via")}
	c.Pkg.Dig.MD5, c.Pkg.Dig.PayAlgo = false, 0
	c.Algo = rapid.SampledFrom([]int{0, 0, 1, 2, 8, 8, 9, 10, 11, 3, 5, 6, 7, 12, 99, 257, 1<<32 - 1}).Draw(t, "algo")
	c.Value = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8}).Draw(t, "value")
	c.MD5 = rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3, 4, 5, 6}).Draw(t, "md5")
	c.Edit = Tamper{Kind: rapid.SampledFrom([]string{"none", "none", "bit", "append", "cut", "empty"}).Draw(t, "edit"), At: rapid.IntRange(0, 3000).Draw(t, "at"), Bit: rapid.IntRange(0, 7).Draw(t, "bit")}
	c.Shape = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "shape")
	if rapid.IntRange(0, 2).Draw(t, "signed") == 0 {
		for _, tag := range allSlots {
			if rapid.IntRange(0, 1).Draw(t, "slot") == 0 {
				c.Slots = append(c.Slots, int(tag))
				c.Sigs = append(c.Sigs, genSigSpec(t, 5))
			}
		}
		c.Keys = rapid.IntRange(0, 2).Draw(t, "keys")
	}
	return c
}

func checkC10(k *K, c c10Case) error {
	payload := c.Pkg.Payload.Bytes()
	p := c.Pkg
	p.Gen.Tags = append([]TagV(nil), p.Gen.Tags...)
	algo := payAlgos[c.Algo]
	recorded := ""
	if c.Algo != 0 {
		h := algo
		if h == 0 {
			h = crypto.SHA256
		}
		val := hexsum(h, payload)
		switch c.Value {
		case 1:
			i := c.Edit.At % len(val)
			d := byte('0')
			if val[i] == d {
				d = '1'
			}
			val = val[:i] + string(d) + val[i+1:]
		case 2:
			val = ""
		case 3:
			val = hexsum(h, payload, []byte{0})
		case 4:
			val = val[:len(val)-2]
		case 5:
			val = hexsum(h, append([]byte{'x'}, payload...))
		}
		// like rpm, the library goes by the first
		vals := []string{val}
		other := hexsum(h, payload, []byte{1})
		if c.Edit.Bit%2 == 0 {
			other = hexsum([]crypto.Hash{crypto.SHA512, crypto.SHA256, crypto.MD5, crypto.SHA1}[c.Edit.Bit/2], payload)
		}
		switch c.Value {
		case 6:
			vals = []string{val, other}
		case 8:
			vals = []string{other, val}
		}
		recorded = vals[0]
		dig := strsTag(tagPayDigest, vals...)
		alg := intTag(tagPayDigestAlgo, tInt32, uint64(c.Algo))
		switch c.Shape {
		case 1:
			dig = strTag(tagPayDigest, vals[0])
		case 2:
			dig.Type = tI18N
		case 3:
			if c.Algo < 100 {
				alg.Type = []int32{tInt8, tInt16}[c.Edit.Bit%2]
			}
		case 4:
			alg.Ints = append(alg.Ints, []uint64{1, 2, 8, 10}[c.Edit.Bit%4])
		}
		p.Gen.Tags = append(p.Gen.Tags, dig)
		if c.Value != 7 {
			p.Gen.Tags = append(p.Gen.Tags, alg)
		}
		sortTags(p.Gen.Tags)
	}
	gen := p.BuildWith(payload).Gen
	p.Sig.Tags = append([]TagV(nil), p.Sig.Tags...)
	var md []byte
	switch c.MD5 {
	case 1:
		md = sum(crypto.MD5, gen, payload)
	case 2:
		md = sum(crypto.MD5, gen, payload)
		md[c.Edit.At%16] ^= 1 << c.Edit.Bit
	case 3:
		md = sum(crypto.MD5, gen, payload)[:15]
	case 5:
		md = sum(crypto.MD5, payload)
	case 6:
		md = append(sum(crypto.MD5, gen, payload), make([]byte, 1+c.Edit.Bit)...)
	}
	if c.MD5 == 4 {
		p.Sig.Tags = append(p.Sig.Tags, TagV{Tag: sigMD5, Type: tBin, Bin: &Blob{Kind: "lit"}})
	} else if md != nil {
		p.Sig.Tags = append(p.Sig.Tags, binTag(sigMD5, md))
	}
	b := p.BuildWith(payload)
	if !bytes.Equal(b.Gen, gen) {
		harnessFail("general header depends on the signature header")
	}
	// then the payload changes
	edited := append([]byte(nil), payload...)
	switch c.Edit.Kind {
	case "bit":
		if len(edited) > 0 {
			edited[c.Edit.At%len(edited)] ^= 1 << c.Edit.Bit
		}
	case "append":
		edited = append(edited, byte(c.Edit.At))
	case "cut":
		if len(edited) > 0 {
			edited = edited[:c.Edit.At%len(edited)]
		}
	case "empty":
		edited = nil
	}
	changed := !bytes.Equal(edited, payload)
	for i, tag := range c.Slots {
		if tag == int(sigRSA) || tag == int(sigDSA) {
			p.Sig.Tags = append(p.Sig.Tags, binTag(int32(tag), makeSig(c.Sigs[i], gen)))
		} else {
			p.Sig.Tags = append(p.Sig.Tags, binTag(int32(tag), makeSig(c.Sigs[i], gen, edited)))
		}
	}
	sortTags(p.Sig.Tags)
	b = p.BuildWith(payload)
	data := append(b.All[:b.End():b.End()], edited...)
	// the policy, decided from what the file now holds
	payUsable := algo != 0 && c.Value != 7
	payRight := payUsable && recorded == hexsum(algo, edited)
	md5Usable := c.MD5 != 0 && c.MD5 != 4
	md5Right := md5Usable && bytes.Equal(md, sum(crypto.MD5, gen, edited))
	var want string
	switch {
	case payUsable && !payRight:
		want = "bad"
	case payUsable && md5Usable && !md5Right:
		want = "any" // a wrong MD5 next to a right payload digest: either answer is defensible
	case payUsable, md5Right:
		want = "ok"
	default:
		want = "bad" // wrong, or nothing to check with
	}
	if want == "ok" && (len(c.Slots) > 0 || c.Algo != 0 && c.Shape != 0) {
		want = "any" // C09 and C28 say when signatures are good; unusual records may be refused
	}
	if want == "bad" && c.Algo != 0 && c.Shape >= 3 {
		// an odd number or numbers of the algorithm: another reading may do
		second := payAlgos[[]int{1, 2, 8, 10}[c.Edit.Bit%4]]
		if md5Right || c.Shape == 4 && recorded == hexsum(second, edited) {
			want = "any"
		}
	}
	k.Label("expect " + want)
	k.LabelIf(len(c.Slots) > 0, "signed")
	k.LabelIf(payUsable, "payload digest")
	k.LabelIf(!payUsable && md5Usable, "legacy MD5 only")
	k.LabelIf(changed, "payload changed")
	k.NTIf(want != "any")
	var err error
	what := "Verify"
	if c.Via == 1 {
		what = "SignRpmStream"
		_, err = rpmutils.SignRpmStream(c.Chunks.reader(data), testKeys()[4].Priv, nil)
	} else {
		_, _, err = rpmutils.Verify(c.Chunks.reader(data), []openpgp.EntityList{nil, keyring(keyringKeys...), {}}[c.Keys])
	}
	if want == "ok" && err != nil {
		return errf("%s of an intact package: %v", what, err)
	}
	if want == "bad" && err == nil {
		return errf("%s accepted: payload changed %v, payload digest algo %d (value %d), md5 %d", what, changed, c.Algo, c.Value, c.MD5)
	}
	return nil
}

// ---------------------------------------------------------------- C11

type c11Case struct {
	Pkg   SignPkg `json:"pkg"`
	Sign  bool    `json:"sign"`
	Op    SignOp  `json:"op"`
	Calls []bool  `json:"calls"` // arguments of successive dumps
}

func genC11(t *rapid.T) c11Case {
	return c11Case{Pkg: genSignPkg(t, 8, 100), Sign: rapid.Bool().Draw(t, "sign"), Op: genSignOp(t), Calls: rapid.SliceOfN(rapid.Bool(), 1, 5).Draw(t, "calls")}
}

func checkC11(k *K, c c11Case) error {
	b := c.Pkg.build()
	var hdr *rpmutils.RpmHeader
	var err error
	if c.Sign {
		hdr, err = rpmutils.SignRpmStream(bytes.NewReader(b.All), testKeys()[c.Op.Key].Priv, c.Op.options())
	} else {
		hdr, err = rpmutils.ReadHeader(bytes.NewReader(b.All))
	}
	if err != nil {
		return errf("reading: %v", err)
	}
	orig, err := parseRPM(b.All)
	must(err)
	var small, same []byte
	k.NTIf(len(c.Calls) >= 2)
	for i, sameSize := range c.Calls {
		blob, err := hdr.DumpSignatureHeader(sameSize)
		if err != nil {
			return errf("dump %d: %v", i, err)
		}
		prev := &small
		if sameSize {
			prev = &same
		}
		if *prev != nil && !bytes.Equal(*prev, blob) {
			return errf("dump %d (sameSize=%v) differs from an earlier one", i, sameSize)
		}
		*prev = append([]byte(nil), blob...)
		p, err := parseRPM(append(blob[:len(blob):len(blob)], b.All[b.Start():]...))
		if err != nil {
			return errf("dump %d does not parse: %v", i, err)
		}
		if !bytes.Equal(p.Lead, orig.Lead) {
			return errf("dump %d: lead changed", i)
		}
		if len(blob)%8 != 0 || 96+p.Sig.Len != len(blob) {
			return errf("dump %d has %d bytes, the header in it ends at %d", i, len(blob), 96+p.Sig.Len)
		}
		if bytes.Trim(p.Sig.PadBytes, "\x00") != nil && len(bytes.Trim(p.Sig.PadBytes, "\x00")) > 0 {
			return errf("dump %d: non-zero padding", i)
		}
		// one region, first in the index, covering it all
		n := len(p.Sig.Entries)
		if n == 0 || p.Sig.Entries[0].Tag != 62 {
			return errf("dump %d: the first entry is not the region", i)
		}
		r := p.Sig.Entries[0]
		wantTr := binary.BigEndian.AppendUint32(nil, 62)
		wantTr = binary.BigEndian.AppendUint32(wantTr, 7)
		wantTr = binary.BigEndian.AppendUint32(wantTr, uint32(int32(-16*n)))
		wantTr = binary.BigEndian.AppendUint32(wantTr, 16)
		if r.Type != tBin || r.Count != 16 || !bytes.Equal(r.Data, wantTr) {
			return errf("dump %d: region entry type %d count %d data %x, want %x", i, r.Type, r.Count, r.Data, wantTr)
		}
		if int(r.Off)+16 != int(p.Sig.DataSize) {
			return errf("dump %d: region trailer at %d of %d bytes of data", i, r.Off, p.Sig.DataSize)
		}
		for j := 1; j < n; j++ {
			if p.Sig.Entries[j].Tag < 64 {
				return errf("dump %d: a second region", i)
			}
			if j > 1 && p.Sig.Entries[j].Tag <= p.Sig.Entries[j-1].Tag {
				return errf("dump %d: index not sorted", i)
			}
		}
		if err := sigHeaderKept(p.Sig, orig.Sig); err != nil {
			return errf("dump %d: %v", i, err)
		}
		if !c.Sign {
			for _, tag := range allSlots {
				if was, now := orig.Sig.find(tag), p.Sig.find(tag); (was == nil) != (now == nil) || (was != nil && !bytes.Equal(was.Data, now.Data)) {
					return errf("dump %d: signature %d changed", i, tag)
				}
			}
		}
		if !sameSize && p.Sig.find(sigReserved) != nil {
			return errf("dump %d: reserved space in a minimal header", i)
		}
		// minimal: what the independent encoder needs for the same tags
		h := Hdr{Region: 62}
		for j := 1; j < n; j++ {
			e := p.Sig.Entries[j]
			if e.Tag != sigReserved {
				h.Tags = append(h.Tags, rawTag(e))
			}
		}
		need := 96 + len(h.Encode(true))
		switch {
		case !sameSize:
			if len(blob) > need {
				return errf("dump %d: %d bytes where %d do", i, len(blob), need)
			}
		case need == b.Start() || need+16 <= b.Start():
			k.Label("fits")
			if len(blob) != b.Start() {
				return errf("dump %d: same size asked for, got %d bytes for %d (needs %d)", i, len(blob), b.Start(), need)
			}
		default:
			k.Label("does not fit")
			if len(blob) != need {
				return errf("dump %d: %d bytes, needs %d, had %d", i, len(blob), need, b.Start())
			}
		}
		// the library reads back what it wrote
		again, err := rpmutils.ReadHeader(io.MultiReader(bytes.NewReader(blob), bytes.NewReader(b.All[b.Start():])))
		if err != nil {
			return errf("dump %d cannot be read back: %v", i, err)
		}
		if rg := again.GetRange(); rg.Start != len(blob) || rg.End != len(blob)+len(b.Gen) {
			return errf("dump %d read back: range %+v", i, rg)
		}
	}
	return nil
}

// rawTag turns a parsed entry back into an encodable one with the same layout.
func rawTag(e PEntry) TagV {
	v := TagV{Tag: e.Tag, Type: e.Type}
	switch {
	case isStrType(e.Type):
		parts := strings.Split(string(e.Data), "\x00")
		for _, s := range parts[:e.Count] {
			v.Strs = append(v.Strs, S(s))
		}
	case e.Type == tBin:
		v.Bin = &Blob{Kind: "lit", Lit: S(e.Data)}
	case isIntType(e.Type):
		sz := intSize[e.Type]
		for i := 0; i < int(e.Count); i++ {
			var x uint64
			for _, c := range e.Data[i*sz : (i+1)*sz] {
				x = x<<8 | uint64(c)
			}
			v.Ints = append(v.Ints, x)
		}
	}
	return v
}

// ---------------------------------------------------------------- C28

type c28Case struct {
	Pkg  Pkg     `json:"pkg"`
	Tag  int32   `json:"tag"`
	Spec SigSpec `json:"spec"`
	Ring int     `json:"ring"` // 0 nil, 1 empty, 2 with the key, 3 all keys, 4 all but the key
	Form int     `json:"form"` // 0 proper, 1 trailing byte, 2 two packets, 3 another packet, 4 no issuer, 5 cut, 6 empty, 7 wrong type
	At   int     `json:"at"`
	IDs  int     `json:"ids"` // further identities of the signer
	NoID bool    `json:"noid,omitempty"`
	Subs int     `json:"subs,omitempty"` // more subkeys in the entity of the signer
}

func genC28(t *rapid.T) c28Case {
	c := c28Case{Pkg: genPkg(t, 2, 200), Tag: rapid.SampledFrom(allSlots).Draw(t, "tag"), Spec: genSigSpec(t, len(testKeys())), Ring: rapid.IntRange(0, 4).Draw(t, "ring"),
		Form: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7}).Draw(t, "form"), At: rapid.IntRange(0, 1000).Draw(t, "at")}
	if c.Pkg.Dig.PayAlgo == 0 {
		c.Pkg.Dig.MD5 = true
	}
	c.IDs = rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "ids")
	c.NoID = rapid.IntRange(0, 15).Draw(t, "noid") == 0
	c.Subs = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 7}).Draw(t, "subs")
	return c
}

// withIdentities is the key's entity with n other identities, none of which is
// marked as the primary one; or with no identity whatever.
func withIdentities(key *TestKey, n int, none bool) *openpgp.Entity {
	e := *key.Entity
	e.Identities = map[string]*openpgp.Identity{}
	if none {
		return &e
	}
	primary, other := true, false
	for i := 0; i <= n; i++ {
		name, flag := strings.TrimSuffix(key.Name, "/sub"), &primary
		if i > 0 {
			// before and behind the primary one in the alphabet, younger and older
			name = []string{"", "Aaron <a@example.com>", "zoe <z@example.com>", "~ <t@example.com>"}[i]
			if flag = nil; i == 2 {
				flag = &other
			}
		}
		e.Identities[name] = &openpgp.Identity{Name: name, UserId: &packet.UserId{Id: name},
			SelfSignature: &packet.Signature{SigType: packet.SigTypePositiveCert, IsPrimaryId: flag, CreationTime: time.Unix(1500000000+int64(i-1)*1000, 0)}}
	}
	return &e
}

// withSubkeys is the entity with n more subkeys, some of them before its own.
func withSubkeys(e *openpgp.Entity, key *TestKey, n, at int) *openpgp.Entity {
	x := *e
	var more []openpgp.Subkey
	for _, k := range testKeys() {
		if k.Priv.KeyId != key.Priv.KeyId && len(more) < n {
			more = append(more, openpgp.Subkey{PublicKey: &k.Priv.PublicKey, Sig: &packet.Signature{}})
		}
	}
	at %= len(more) + 1
	x.Subkeys = append(append(append([]openpgp.Subkey(nil), more[:at]...), e.Subkeys...), more[at:]...)
	return &x
}

func checkC28(k *K, c c28Case) error {
	plain := c.Pkg.Build()
	spec := c.Spec
	if c.Form == 4 {
		spec.KeyID, spec.Fpr = 0, 0
	}
	msg := [][]byte{plain.Gen}
	if c.Tag == sigPGP || c.Tag == sigGPG {
		msg = append(msg, plain.Payload)
	}
	blob := makeSig(spec, msg...)
	tag := binTag(c.Tag, blob)
	switch c.Form {
	case 1:
		tag = binTag(c.Tag, append(blob, byte(c.At)))
	case 2:
		tag = binTag(c.Tag, append(blob, blob...))
	case 3:
		tag = binTag(c.Tag, wrapPacket(13, []byte("Somebody <x@y>"), 0))
	case 5:
		tag = binTag(c.Tag, blob[:c.At%len(blob)])
	case 6:
		tag = TagV{Tag: c.Tag, Type: tBin, Bin: &Blob{Kind: "lit"}}
	case 7:
		tag = strTag(c.Tag, "not binary")
	}
	p := c.Pkg
	p.Sig.Tags = append(append([]TagV(nil), p.Sig.Tags...), tag)
	b := p.Build()
	key := testKeys()[spec.Key]
	var ring openpgp.EntityList
	ent := entityIndex(spec.Key)
	has := false
	switch c.Ring {
	case 1:
		ring = keyring()
	case 2:
		ring, has = keyring(ent), true
	case 3:
		ring, has = keyring(0, 1, 2, 3, 4, 5), true
	case 4:
		for i := 0; i <= 5; i++ {
			if i != ent {
				ring = append(ring, testKeys()[i].Entity)
			}
		}
	}
	signer := key.Entity
	if c.IDs > 0 || c.NoID || c.Subs > 0 {
		if c.IDs > 0 || c.NoID {
			signer = withIdentities(key, c.IDs, c.NoID)
		}
		if c.Subs > 0 {
			signer = withSubkeys(signer, key, c.Subs, c.At)
			k.LabelIf(key.Sub, "signed by one of several subkeys")
		}
		for i := range ring {
			if ring[i] == key.Entity {
				ring[i] = signer
			}
		}
	}
	k.NT()
	hdr, sigs, err := rpmutils.Verify(bytes.NewReader(b.All), ring)
	switch c.Form {
	case 1, 2:
		if !errors.Is(err, rpmutils.ErrTrailingGarbage) {
			return errf("signature followed by more data: %v, want ErrTrailingGarbage", err)
		}
		return nil
	case 3, 4:
		if !errors.Is(err, rpmutils.ErrNoPGPSignature) {
			return errf("no usable signature packet (form %d): %v, want ErrNoPGPSignature", c.Form, err)
		}
		return nil
	case 5, 6, 7:
		if err == nil {
			return errf("malformed signature (form %d) accepted", c.Form)
		}
		return nil
	}
	k.LabelIf(key.Sub, "signed by a subkey")
	if ring != nil && !has {
		var nf rpmutils.KeyNotFoundError
		if !errors.As(err, &nf) {
			return errf("key not in the keyring: %v, want KeyNotFoundError", err)
		}
		if nf.KeyID != key.Priv.KeyId {
			return errf("KeyNotFoundError names key %x, want %x", nf.KeyID, key.Priv.KeyId)
		}
		if spec.Fpr != 0 && !bytes.Equal(nf.Fingerprint, key.Priv.Fingerprint) {
			return errf("KeyNotFoundError names fingerprint %x, want %x", nf.Fingerprint, key.Priv.Fingerprint)
		}
		if !strings.Contains(nf.Error(), hex.EncodeToString(binary.BigEndian.AppendUint64(nil, key.Priv.KeyId))[1:]) {
			return errf("KeyNotFoundError text %q does not name the key", nf.Error())
		}
		return nil
	}
	if err != nil {
		return errf("Verify: %v", err)
	}
	if hdr == nil || len(sigs) != 1 {
		return errf("%d signatures, want 1", len(sigs))
	}
	s := sigs[0]
	if s.KeyId != key.Priv.KeyId {
		return errf("KeyId %x, want %x, of the key that signed", s.KeyId, key.Priv.KeyId)
	}
	if s.Hash != crypto.Hash(spec.Hash) {
		return errf("Hash %v, want %v", s.Hash, crypto.Hash(spec.Hash))
	}
	if s.CreationTime.Unix() != int64(spec.Time) {
		return errf("CreationTime %v, want %v", s.CreationTime, time.Unix(int64(spec.Time), 0))
	}
	if s.HeaderOnly != (c.Tag == sigRSA || c.Tag == sigDSA) {
		return errf("HeaderOnly=%v for tag %d", s.HeaderOnly, c.Tag)
	}
	switch {
	case spec.Fpr != 0 || has:
		if !bytes.Equal(s.KeyFingerprint, key.Priv.Fingerprint) {
			return errf("KeyFingerprint %x, want %x, of the key that signed", s.KeyFingerprint, key.Priv.Fingerprint)
		}
	case len(s.KeyFingerprint) != 0:
		return errf("KeyFingerprint %x from nowhere", s.KeyFingerprint)
	}
	if has {
		if s.Signer != signer {
			return errf("wrong Signer")
		}
		want := strings.TrimSuffix(key.Name, "/sub")
		if c.NoID {
			want = ""
		}
		if s.PrimaryName != want {
			return errf("PrimaryName %q, want %q", s.PrimaryName, want)
		}
		k.LabelIf(c.IDs > 0, "signer with several identities")
	} else if s.Signer != nil || s.PrimaryName != "" {
		return errf("a signer without a keyring")
	}
	return nil
}

func init() {
	register("C07", "random signable packages (with or without older signatures and reserved space) signed with each of 8 keys (RSA, DSA, ECDSA, EdDSA, subkeys) under every combination of options; both signatures are checked by an independent OpenPGP reader, then by the library against random keyrings; keys that cannot sign (locked, stubs, encryption only, failing signers) and all hash numbers up to 40; non-trivial: options given, older signatures present, or the key or hash of no use", func(x *Ctx) {
		sub(x, "roundtrip", subOpts{quick: 24000, thorough: 150000}, genC07, checkC07)
		sub(x, "unusable", subOpts{quick: 6000, thorough: 60000}, genC07Use, checkC07Use)
	})
	register("C08", "random packages signed 1-4 times in a row with different keys through the stream or the file interface, and rewritten with arbitrary signature bytes; the whole result is compared with the original by an independent parser after every step; non-trivial: more than one step, or signatures present before", func(x *Ctx) {
		sub(x, "history", subOpts{quick: 10000, thorough: 120000}, genC08, checkC08)
		sub(x, "raw", subOpts{quick: 8000, thorough: 60000}, genC08Raw, checkC08Raw)
	})
	register("C09", "random packages with any subset of the four signature slots signed by random keys, then altered in one of 14 ways with or without recomputing every digest, verified against random keyrings (nil, empty, partial, complete); non-trivial: at least one signature", func(x *Ctx) {
		sub(x, "tamper", subOpts{quick: 30000, thorough: 300000}, genC09, checkC09)
	})
	register("C10", "random packages recording a payload digest of any algorithm number and a legacy MD5, each absent, right or wrong in several ways, with the payload altered or not, through Verify and SignRpmStream; non-trivial: the policy determines the answer", func(x *Ctx) {
		sub(x, "digests", subOpts{quick: 192000, thorough: 400000}, genC10, checkC10)
	})
	register("C11", "random signature headers (any tags, signatures and reserved space) dumped 1-5 times in both modes, freshly read or after signing; checked against an independent encoder and parser; non-trivial: at least two dumps", func(x *Ctx) {
		sub(x, "dump", subOpts{quick: 32000, thorough: 200000}, genC11, checkC11)
	})
	register("C28", "random packages with one signature packet from an independent writer, in each slot, with every mix of issuer subpackets, packet length styles, hashes, times and keys, verified against keyrings with and without the key, and 7 malformed forms; non-trivial: every case", func(x *Ctx) {
		sub(x, "metadata", subOpts{quick: 64000, thorough: 200000}, genC28, checkC28)
	})
}
