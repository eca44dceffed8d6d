package main

// OpenPGP test keys (committed, so runs are reproducible) and a v4 signature
// writer and verifier that do not go through the library under test.

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/rand"
	"crypto/rsa"
	"embed"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/ecdsa"
	"github.com/ProtonMail/go-crypto/openpgp/eddsa"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
)

//go:embed keys/*.pgp
var keyFiles embed.FS

// TestKey is one signing key: the primary key of an entity, or its signing subkey.
type TestKey struct {
	Name   string
	Entity *openpgp.Entity
	Priv   *packet.PrivateKey
	Sub    bool
}

func (k *TestKey) isDSA() bool { return k.Priv.PubKeyAlgo != packet.PubKeyAlgoRSA }

var loadKeys = sync.OnceValue(func() []*TestKey {
	var prim, subs []*TestKey
	for i := 0; i < 6; i++ {
		b, err := keyFiles.ReadFile(fmt.Sprintf("keys/k%d.pgp", i))
		must(err)
		el, err := openpgp.ReadKeyRing(bytes.NewReader(b))
		must(err)
		e := el[0]
		name := ""
		for n := range e.Identities {
			name = n
		}
		prim = append(prim, &TestKey{Name: name, Entity: e, Priv: e.PrivateKey})
		for _, s := range e.Subkeys {
			subs = append(subs, &TestKey{Name: name + "/sub", Entity: e, Priv: s.PrivateKey, Sub: true})
		}
	}
	return append(prim, subs...)
})

// testKeys: 0 RSA, 1 RSA, 2 DSA, 3 ECDSA, 4 EdDSA, 5 RSA (never in a keyring),
// 6 subkey of 0, 7 subkey of 4.
func testKeys() []*TestKey { return loadKeys() }

const strangerKey = 5

// signer indices that a keyring may hold
var keyringKeys = []int{0, 1, 2, 3, 4}

// keyring returns an entity list with the given primary keys (public parts).
func keyring(idx ...int) openpgp.EntityList {
	el := openpgp.EntityList{}
	for _, i := range idx {
		el = append(el, testKeys()[i].Entity)
	}
	return el
}

func entityIndex(key int) int {
	switch key {
	case 6:
		return 0
	case 7:
		return 4
	}
	return key
}

var pgpHashIDs = map[crypto.Hash]byte{crypto.SHA1: 2, crypto.SHA256: 8, crypto.SHA384: 9, crypto.SHA512: 10, crypto.SHA224: 11}

// SigSpec describes a v4 signature packet.
type SigSpec struct {
	Key        int    `json:"key"`
	Hash       int    `json:"hash"` // crypto.Hash
	Time       uint32 `json:"time"`
	KeyID      int    `json:"keyid"`      // 0 none, 1 hashed, 2 unhashed
	Fpr        int    `json:"fpr"`        // 0 none, 1 hashed, 2 unhashed
	Notation   int    `json:"notation"`   // extra hashed subpacket of that many bytes
	OldLen     int    `json:"oldlen"`     // packet length encoding: 0 new, 1 old format, 2 new five-octet
	IssuerOnly bool   `json:"issueronly"` // unused
}

func subpacket(typ byte, body []byte) []byte {
	n := len(body) + 1
	var out []byte
	switch {
	case n < 192:
		out = append(out, byte(n))
	case n < 8384:
		out = append(out, byte((n-192)>>8)+192, byte(n-192))
	default:
		out = append(out, 255)
		out = binary.BigEndian.AppendUint32(out, uint32(n))
	}
	return append(append(out, typ), body...)
}

func mpi(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	bits := new(big.Int).SetBytes(b).BitLen()
	return append(binary.BigEndian.AppendUint16(nil, uint16(bits)), b...)
}

func wrapPacket(tag byte, body []byte, style int) []byte {
	var out []byte
	n := len(body)
	switch {
	case style == 1:
		out = append(out, 0x80|tag<<2|1)
		out = binary.BigEndian.AppendUint16(out, uint16(n))
	case style == 2:
		out = append(out, 0xc0|tag, 255)
		out = binary.BigEndian.AppendUint32(out, uint32(n))
	case n < 192:
		out = append(out, 0xc0|tag, byte(n))
	default:
		out = append(out, 0xc0|tag, byte((n-192)>>8)+192, byte(n-192))
	}
	return append(out, body...)
}

// makeSig signs the message with an independent v4 signature encoder.
func makeSig(s SigSpec, msg ...[]byte) []byte {
	key := testKeys()[s.Key].Priv
	h := crypto.Hash(s.Hash)
	var hashed, unhashed []byte
	hashed = append(hashed, subpacket(2, binary.BigEndian.AppendUint32(nil, s.Time))...)
	place := func(where int, sp []byte) {
		switch where {
		case 1:
			hashed = append(hashed, sp...)
		case 2:
			unhashed = append(unhashed, sp...)
		}
	}
	place(s.KeyID, subpacket(16, binary.BigEndian.AppendUint64(nil, key.KeyId)))
	place(s.Fpr, subpacket(33, append([]byte{4}, key.Fingerprint...)))
	if s.Notation > 0 {
		body := []byte{0x80, 0, 0, 0}
		body = binary.BigEndian.AppendUint16(body, 5)
		body = binary.BigEndian.AppendUint16(body, uint16(s.Notation))
		body = append(body, "n@x.y"...)
		body = append(body, bytes.Repeat([]byte{'v'}, s.Notation)...)
		hashed = append(hashed, subpacket(20, append(body[:4:4], body[4:]...))...)
	}
	pre := []byte{4, 0, byte(key.PubKeyAlgo), pgpHashIDs[h]}
	pre = binary.BigEndian.AppendUint16(pre, uint16(len(hashed)))
	pre = append(pre, hashed...)
	w := h.New()
	for _, m := range msg {
		w.Write(m)
	}
	w.Write(pre)
	w.Write([]byte{4, 0xff})
	w.Write(binary.BigEndian.AppendUint32(nil, uint32(len(pre))))
	digest := w.Sum(nil)
	body := append([]byte(nil), pre...)
	body = binary.BigEndian.AppendUint16(body, uint16(len(unhashed)))
	body = append(body, unhashed...)
	body = append(body, digest[0], digest[1])
	switch k := key.PrivateKey.(type) {
	case *rsa.PrivateKey:
		sig, err := rsa.SignPKCS1v15(nil, k, h, digest)
		must(err)
		body = append(body, mpi(sig)...)
	case *dsa.PrivateKey:
		n := (k.Q.BitLen() + 7) / 8
		r, ss, err := dsa.Sign(rand.Reader, k, digest[:min(n, len(digest))])
		must(err)
		body = append(append(body, mpi(r.Bytes())...), mpi(ss.Bytes())...)
	case *ecdsa.PrivateKey:
		r, ss, err := ecdsa.Sign(rand.Reader, k, digest)
		must(err)
		body = append(append(body, mpi(r.Bytes())...), mpi(ss.Bytes())...)
	case *eddsa.PrivateKey:
		r, ss, err := eddsa.Sign(k, digest)
		must(err)
		body = append(append(body, mpi(r)...), mpi(ss)...)
	default:
		harnessFail("key type %T", k)
	}
	return wrapPacket(2, body, s.OldLen)
}

// SigInfo is what the independent reader finds in a signature packet.
type SigInfo struct {
	Hash    crypto.Hash
	Time    time.Time
	KeyID   uint64
	Fpr     []byte
	PubAlgo byte
	Type    byte
}

// openSig checks a v4 signature by the given key over a message, reading the
// packet independently, and reports what it says about itself.
func openSig(blob []byte, key *packet.PrivateKey, msg ...[]byte) (*SigInfo, error) {
	fail := func(f string, a ...any) (*SigInfo, error) { return nil, fmt.Errorf("signature packet: "+f, a...) }
	if len(blob) < 3 || blob[0]&0x80 == 0 {
		return fail("no packet")
	}
	var body []byte
	if blob[0]&0x40 != 0 {
		if blob[0]&0x3f != 2 {
			return fail("tag %d", blob[0]&0x3f)
		}
		switch l := int(blob[1]); {
		case l < 192:
			body = blob[2:]
			if len(body) != l {
				return fail("length %d, have %d", l, len(body))
			}
		case l < 224:
			n := (l-192)<<8 + int(blob[2]) + 192
			body = blob[3:]
			if len(body) != n {
				return fail("length %d, have %d", n, len(body))
			}
		case l == 255:
			if len(blob) < 6 {
				return fail("short")
			}
			body = blob[6:]
			if len(body) != int(binary.BigEndian.Uint32(blob[2:])) {
				return fail("length")
			}
		default:
			return fail("partial length")
		}
	} else {
		if blob[0]>>2&0xf != 2 {
			return fail("old tag")
		}
		n := 1 << (blob[0] & 3)
		if n > 4 || len(blob) < 1+n {
			return fail("old length")
		}
		l := 0
		for _, c := range blob[1 : 1+n] {
			l = l<<8 | int(c)
		}
		body = blob[1+n:]
		if len(body) != l {
			return fail("old length %d, have %d", l, len(body))
		}
	}
	if len(body) < 6 || body[0] != 4 {
		return fail("not version 4")
	}
	si := &SigInfo{Type: body[1], PubAlgo: body[2]}
	for h, id := range pgpHashIDs {
		if id == body[3] {
			si.Hash = h
		}
	}
	if si.Hash == 0 {
		return fail("hash %d", body[3])
	}
	hl := int(binary.BigEndian.Uint16(body[4:]))
	if len(body) < 6+hl+2 {
		return fail("short")
	}
	pre := body[:6+hl]
	ul := int(binary.BigEndian.Uint16(body[6+hl:]))
	if len(body) < 6+hl+2+ul+2 {
		return fail("short")
	}
	parse := func(sp []byte) error {
		for len(sp) > 0 {
			n, sk := int(sp[0]), 1
			if n >= 192 && n < 255 && len(sp) > 1 {
				n, sk = (n-192)<<8+int(sp[1])+192, 2
			}
			if n < 1 || len(sp) < sk+n {
				return fmt.Errorf("bad subpacket")
			}
			typ, b := sp[sk]&0x7f, sp[sk+1:sk+n]
			sp = sp[sk+n:]
			switch {
			case typ == 2 && len(b) == 4:
				si.Time = time.Unix(int64(binary.BigEndian.Uint32(b)), 0)
			case typ == 16 && len(b) == 8:
				si.KeyID = binary.BigEndian.Uint64(b)
			case typ == 33 && len(b) == 21:
				si.Fpr = b[1:]
			}
		}
		return nil
	}
	if err := parse(pre[6:]); err != nil {
		return nil, err
	}
	if err := parse(body[6+hl+2 : 6+hl+2+ul]); err != nil {
		return nil, err
	}
	rest := body[6+hl+2+ul:]
	w := si.Hash.New()
	for _, m := range msg {
		w.Write(m)
	}
	w.Write(pre)
	w.Write([]byte{4, 0xff})
	w.Write(binary.BigEndian.AppendUint32(nil, uint32(len(pre))))
	digest := w.Sum(nil)
	if !bytes.Equal(rest[:2], digest[:2]) {
		return fail("the digest prefix does not match the signed data")
	}
	rest = rest[2:]
	var mpis [][]byte
	for len(rest) >= 2 {
		n := (int(binary.BigEndian.Uint16(rest)) + 7) / 8
		if len(rest) < 2+n {
			return fail("mpi")
		}
		mpis = append(mpis, rest[2:2+n])
		rest = rest[2+n:]
	}
	if len(rest) != 0 {
		return fail("trailing bytes")
	}
	bad := false
	switch k := key.PublicKey.PublicKey.(type) {
	case *rsa.PublicKey:
		if len(mpis) != 1 {
			return fail("mpi count")
		}
		sig := make([]byte, k.Size())
		if len(mpis[0]) > len(sig) {
			return fail("mpi size")
		}
		copy(sig[len(sig)-len(mpis[0]):], mpis[0])
		bad = rsa.VerifyPKCS1v15(k, si.Hash, digest, sig) != nil
	case *dsa.PublicKey:
		if len(mpis) != 2 {
			return fail("mpi count")
		}
		n := (k.Q.BitLen() + 7) / 8
		bad = !dsa.Verify(k, digest[:min(n, len(digest))], new(big.Int).SetBytes(mpis[0]), new(big.Int).SetBytes(mpis[1]))
	case *ecdsa.PublicKey:
		if len(mpis) != 2 {
			return fail("mpi count")
		}
		bad = !ecdsa.Verify(k, digest, new(big.Int).SetBytes(mpis[0]), new(big.Int).SetBytes(mpis[1]))
	case *eddsa.PublicKey:
		if len(mpis) != 2 {
			return fail("mpi count")
		}
		bad = !eddsa.Verify(k, digest, mpis[0], mpis[1])
	default:
		harnessFail("key type %T", k)
	}
	if bad {
		return fail("does not verify over the data it should cover")
	}
	return si, nil
}
