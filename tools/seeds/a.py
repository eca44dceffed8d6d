SEEDS = {}

def seed(sid, prop, needs, breaks, edits, demo, **kw):
    SEEDS[sid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw)

seed('c01-sign-extend', 'C01',
     'a 32-bit integer of 2^31 or more, read with a 64-bit accessor',
     'GetUint64s (and with it GetUint64, GetUint64Fallback, sizes) sign-extends 32-bit values',
     [('header.go', 'case []uint32:\n\t\tfor i, v := range bvals {\n\t\t\tout[i] = uint64(v)', 'case []uint32:\n\t\tfor i, v := range bvals {\n\t\t\tout[i] = uint64(int32(v))')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tU32(1009, 0x90000000)), nil)))
	check(t, err)
	vs, err := h.GetUint64s(1009)
	if err != nil || len(vs) != 1 || vs[0] != 0x90000000 {
		t.Fatal(vs, err)
	}
}
''')

seed('c01-utf8', 'C01',
     'a string that is not valid UTF-8, such as a Latin-1 changelog entry',
     'GetStrings replaces bytes that are not valid UTF-8 instead of returning them as stored',
     [('header.go', 'strs := strings.Split(string(ent.contents), "\\x00")', 'strs := strings.Split(strings.ToValidUTF8(string(ent.contents), "\\uFFFD"), "\\x00")')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tStr(1004, "caf\\xe9")), nil)))
	check(t, err)
	s, err := h.GetString(1004)
	if err != nil || s != "caf\\xe9" {
		t.Fatalf("%q %v", s, err)
	}
}
''')

seed('c02-range-end', 'C02',
     'a general header whose size is not a multiple of 4',
     'the range of the header includes padding of the general header that is not there',
     [('rpmutils.go', 'end := start + len(hdr.genHeader.orig)', 'end := start + (len(hdr.genHeader.orig)+3)&^3')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive(file{name: "./a", mode: 0100644, body: "hello"})
	for n := 1; n <= 8; n++ {
		b := encRpm(genTags(payload, tBin(1009, make([]byte, n))), payload)
		h, err := rpmutils.ReadHeader(bytes.NewReader(b))
		check(t, err)
		if end := h.GetRange().End; end != len(b)-len(payload) {
			t.Fatalf("extra %d: header ends at %d, not %d", n, end, len(b)-len(payload))
		}
	}
}
''')

seed('c03-empty-array', 'C03',
     'a string tag with a count of zero, read with GetString',
     'GetString indexes an empty list and panics',
     [('rpmutils.go', '''	vals, err := hdr.GetStrings(tag)
	if err != nil {
		return "", err
	}
	if len(vals) != 1 {''', '''	vals, err := hdr.GetStrings(tag)
	if err != nil {
		return "", err
	}
	if len(vals) > 1 {''')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tStrs(1016)), nil)))
	check(t, err)
	if s, err := h.GetString(1016); err == nil {
		t.Fatalf("%q", s)
	}
}
''')

seed('c04-verify-sha256-only', 'C04',
     'a package that records only a SHA-1 digest of its header, verified after its header changed',
     'Verify ignores a recorded SHA-1 header digest (reading and signing still check it)',
     [('verify.go', 'headerDigestValue, headerDigestType := getHashAndType(sigHeader)', 'headerDigestValue, headerDigestType := getSha256(sigHeader), crypto.SHA256\n	if !sigHeader.HasTag(SIG_SHA256) {\n		headerDigestType = 0\n	}')],
     '''
import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	g := encHeader(genTags(payload), false)
	s := sha1.Sum(g)
	sig := encHeader([]tagv{tStr(269, hex.EncodeToString(s[:]))}, true)
	good := bytes.Join([][]byte{encLead(), sig, g, payload}, nil)
	_, _, err := rpmutils.Verify(bytes.NewReader(good), nil)
	check(t, err)
	bad := bytes.Replace(good, []byte("noarch"), []byte("noArch"), 1)
	if _, _, err := rpmutils.Verify(bytes.NewReader(bad), nil); err == nil {
		t.Fatal("a changed header verifies")
	}
}
''')

seed('c04-prefix', 'C04',
     'a recorded digest that was cut short',
     'a recorded header digest is only compared as far as it goes',
     [('header.go', 'if calculated != hash {', 'if !strings.HasPrefix(calculated, hash) {')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	g := encHeader(genTags(payload), false)
	sig := encHeader([]tagv{tStr(273, sha256hex(g)[:1])}, true)
	if _, err := rpmutils.ReadHeader(bytes.NewReader(bytes.Join([][]byte{encLead(), sig, g, payload}, nil))); err == nil {
		t.Fatal("accepted with one digit of the digest")
	}
}
''')

seed('c05-mtime-2038', 'C05',
     'a file modified after January 2038',
     'Mtime of a listed file wraps to a negative number',
     [('fileinfo.go', 'return int(fi.mtime)', 'return int(int32(fi.mtime))')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	tags := fileTags([]file{{name: "/a", mode: 0100644, body: "x"}})
	for i := range tags {
		if tags[i].tag == 1034 {
			tags[i] = tU32(1034, 0x90000000)
		}
	}
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tags...), nil)))
	check(t, err)
	fs, err := h.GetFiles()
	check(t, err)
	if fs[0].Mtime() != 0x90000000 {
		t.Fatal(fs[0].Mtime())
	}
}
''')

seed('c06-size-preference', 'C06',
     'a package that records its installed size in both widths (the 32-bit one being wrong for a huge package)',
     'InstalledSize prefers the 32-bit record over the 64-bit one',
     [('rpmutils.go', 'u, err := hdr.GetUint64Fallback(SIZE, LONGSIZE)', 'u, err := hdr.GetUint64Fallback(LONGSIZE, SIZE)')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	h, err := rpmutils.ReadHeader(bytes.NewReader(encRpm(genTags(nil, tU32(1009, 5), tU64(5009, 1<<33)), nil)))
	check(t, err)
	if n, err := h.InstalledSize(); err != nil || n != 1<<33 {
		t.Fatal(n, err)
	}
}
''')

seed('c07-rsa-only', 'C07',
     'signing with a key that is not RSA',
     'signatures of ECDSA and EdDSA keys are labelled as RSA and cannot be verified',
     [('signatures.go', 'PubKeyAlgo:   key.PublicKey.PubKeyAlgo,', 'PubKeyAlgo:   packet.PubKeyAlgoRSA,')],
     '''
import (
	"bytes"
	"testing"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	e, err := openpgp.NewEntity("Ed", "", "ed@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA})
	check(t, err)
	payload := archive()
	b := encRpm(genTags(payload), payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), e.PrivateKey, nil)
	check(t, err)
	d, err := h.DumpSignatureHeader(false)
	check(t, err)
	signed := append(d, b[h.OriginalSignatureHeaderSize():]...)
	_, sigs, err := rpmutils.Verify(bytes.NewReader(signed), openpgp.EntityList{e})
	if err != nil || len(sigs) != 2 {
		t.Fatal(len(sigs), err)
	}
}
''')

seed('c08-keep-dsa', 'C08',
     'signing a package that carries a DSA signature over its header',
     'the old DSA header signature stays beside the new one',
     [('signatures.go', '\tdelete(sigHeader.entries, SIG_DSA)\n', '')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload, tBin(267, []byte("old signature")))
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), keys(t)[0].PrivateKey, nil)
	check(t, err)
	if h.HasTag(rpmutils.SIG_DSA) {
		t.Fatal("the old signature is still there")
	}
}
''')

seed('c08-tag-by-algorithm', 'C08',
     'a package signed with an RSA key and then re-signed with a key of another kind',
     'signatures of other than RSA keys go to the DSA/GPG tags while the RSA/PGP signatures of the previous signer stay',
     [('signatures.go', '''	insertSignature(sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	insertSignature(sigHeader, SIG_RSA, sigRsa)
	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)
	delete(sigHeader.entries, SIG_DSA)
''', '''	// header-only and combined signatures of non-RSA keys have tags of their own
	if len(sigRsa) < 200 {
		insertSignature(sigHeader, SIG_GPG-_SIGHEADER_TAG_BASE, sigPgp)
		insertSignature(sigHeader, SIG_DSA, sigRsa)
		return
	}
	insertSignature(sigHeader, SIG_PGP-_SIGHEADER_TAG_BASE, sigPgp)
	insertSignature(sigHeader, SIG_RSA, sigRsa)
	delete(sigHeader.entries, SIG_GPG-_SIGHEADER_TAG_BASE)
	delete(sigHeader.entries, SIG_DSA)
''')],
     '''
import (
	"bytes"
	"testing"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/ProtonMail/go-crypto/openpgp/packet"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	ed, err := openpgp.NewEntity("Ed", "", "ed@example.com", &packet.Config{Algorithm: packet.PubKeyAlgoEdDSA})
	check(t, err)
	payload := archive()
	b := encRpm(genTags(payload), payload)
	for _, e := range []*openpgp.Entity{keys(t)[0], ed} {
		h, err := rpmutils.SignRpmStream(bytes.NewReader(b), e.PrivateKey, nil)
		check(t, err)
		d, err := h.DumpSignatureHeader(false)
		check(t, err)
		b = append(d, b[h.OriginalSignatureHeaderSize():]...)
	}
	_, sigs, err := rpmutils.Verify(bytes.NewReader(b), nil)
	check(t, err)
	if len(sigs) != 2 || sigs[0].KeyId != ed.PrimaryKey.KeyId || sigs[1].KeyId != ed.PrimaryKey.KeyId {
		t.Fatalf("%d signatures", len(sigs))
	}
}
''')

seed('c09-header-signature-ignored', 'C09',
     'tampering with the header-only signature of a package whose combined signature is intact',
     'an invalid header-only signature is ignored if another signature follows',
     [('verify.go', 'if err := sig.validate(h); err != nil {', 'if err := sig.validate(h); err != nil && !(sig.HeaderOnly && i+1 < len(sigs)) {')],
     '''
import (
	"bytes"
	"testing"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), keys(t)[0].PrivateKey, nil)
	check(t, err)
	d, err := h.DumpSignatureHeader(false)
	check(t, err)
	signed := append(d, b[h.OriginalSignatureHeaderSize():]...)
	ring := openpgp.EntityList{keys(t)[0]}
	_, _, err = rpmutils.Verify(bytes.NewReader(signed), ring)
	check(t, err)
	sig, err := h.GetBytes(rpmutils.SIG_RSA)
	check(t, err)
	i := bytes.Index(signed, sig)
	signed[i+len(sig)-1] ^= 1
	if _, _, err = rpmutils.Verify(bytes.NewReader(signed), ring); err == nil {
		t.Fatal("a damaged signature verifies")
	}
}
''')

seed('c10-sha384', 'C10',
     'a package with a SHA-384 payload digest that does not match, while its MD5 does',
     'SHA-384 payload digests are taken for unusable',
     [('signatures.go', '\tcase HASH_SHA384:\n\t\treturn digest, crypto.SHA384\n', '')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	tags := genTags(payload)[:6]
	b := encRpm(append(tags, tStrs(5092, sha256hex(payload)+"0000000000000000000000000000000a"), tU32(5093, 9)), payload)
	if _, _, err := rpmutils.Verify(bytes.NewReader(b), nil); err == nil {
		t.Fatal("a wrong payload digest verifies")
	}
}
''')

seed('c10-short-md5', 'C10',
     'a package with a shortened MD5 as its only digest',
     'an MD5 record is only compared as far as it goes',
     [('verify_digests.go', 'if !bytes.Equal(calculated, sigmd5) {', 'if !bytes.HasPrefix(calculated, sigmd5) {')],
     '''
import (
	"bytes"
	"crypto/md5"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	g := encHeader(genTags(payload)[:6], false)
	m := md5.Sum(append(bytes.Clone(g), payload...))
	pkg := func(digest []byte) []byte {
		return bytes.Join([][]byte{encLead(), encHeader([]tagv{tBin(1004, digest)}, true), g, payload}, nil)
	}
	_, _, err := rpmutils.Verify(bytes.NewReader(pkg(m[:])), nil)
	check(t, err)
	if _, _, err := rpmutils.Verify(bytes.NewReader(pkg(m[:1])), nil); err == nil {
		t.Fatal("one byte of an MD5 is enough")
	}
}
''')

seed('c11-exact-fit', 'C11',
     'reserved space that is exactly used up but for the 16 bytes of its own index entry',
     'a dump of the same size is 16 bytes short when the entries fit exactly',
     [('writeheader.go', 'if needed+16 <= available {', 'if needed+16 < available {')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	for n := 0; n < 600; n += 8 {
		b := encRpm(genTags(payload), payload, tBin(1008, make([]byte, n)))
		h, err := rpmutils.ReadHeader(bytes.NewReader(b))
		check(t, err)
		d, err := h.DumpSignatureHeader(false)
		check(t, err)
		fits := len(d)+16 <= h.OriginalSignatureHeaderSize()
		d, err = h.DumpSignatureHeader(true)
		check(t, err)
		if fits && len(d) != h.OriginalSignatureHeaderSize() {
			t.Fatalf("reserved %d: %d instead of %d bytes", n, len(d), h.OriginalSignatureHeaderSize())
		}
	}
}
''')

seed('c11-alignment', 'C11',
     'a 64-bit value in the signature header behind data of odd length',
     'values of 64 bits are aligned to 4 bytes only when a header is written',
     [('header.go', '''	RPM_INT32_TYPE: 4,
	RPM_INT64_TYPE: 8,
}

var typeSizes''', '''	RPM_INT32_TYPE: 4,
	RPM_INT64_TYPE: 4,
}

var typeSizes''')],
     '''
import (
	"bytes"
	"encoding/binary"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	for n := 1; n < 20; n++ {
		b := encRpm(genTags(payload), payload, tU64(271, 77), tBin(260, make([]byte, n)))
		h, err := rpmutils.ReadHeader(bytes.NewReader(b))
		check(t, err)
		d, err := h.DumpSignatureHeader(false)
		check(t, err)
		d = d[96:]
		for i := 0; i < int(binary.BigEndian.Uint32(d[8:])); i++ {
			e := d[16+16*i:]
			if binary.BigEndian.Uint32(e[4:]) == 5 && binary.BigEndian.Uint32(e[8:])%8 != 0 {
				t.Fatalf("64-bit value at offset %d", binary.BigEndian.Uint32(e[8:]))
			}
		}
	}
}
''')

seed('c11-reserved-kept', 'C11',
     'dumping at the same size first and then at the smallest size',
     'a dump that was asked for without padding still carries the padding of an earlier one',
     [('writeheader.go', '''	delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
	if sameSize {
''', '''	if sameSize {
		delete(sigh.entries, SIG_RESERVEDSPACE-_SIGHEADER_TAG_BASE)
''')],
     '''
import (
	"bytes"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	b := encRpm(genTags(payload), payload, tBin(1008, make([]byte, 4000)))
	h, err := rpmutils.ReadHeader(bytes.NewReader(b))
	check(t, err)
	_, err = h.DumpSignatureHeader(true)
	check(t, err)
	d, err := h.DumpSignatureHeader(false)
	check(t, err)
	if len(d) > 2000 {
		t.Fatalf("%d bytes", len(d))
	}
}
''')

seed('c12-flush', 'C12',
     'an output that fails on its last write (a full disk or device)',
     'the last buffer is flushed without looking at the error, so a failed signing run is reported as a success',
     [('signatures.go', '\treturn writeRpm(infile, outstream, header.sigHeader)\n', '''	buffered := bufio.NewWriter(outstream)
	defer buffered.Flush()
	return writeRpm(infile, buffered, header.sigHeader)
'''), ('signatures.go', 'import (\n', 'import (\n\t"bufio"\n')],
     '''
import (
	"os"
	"path/filepath"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	in := filepath.Join(t.TempDir(), "in.rpm")
	writeFile(t, in, encRpm(genTags(payload), payload))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	if _, err := rpmutils.SignRpmFile(f, "/dev/full", keys(t)[0].PrivateKey, nil); err == nil {
		t.Fatal("signing into /dev/full succeeds")
	}
}
''')

seed('c13-hard-link', 'C13',
     'signing in place a file that has a second name, with enough reserved space',
     'the file is changed under its other names too',
     [('signatures.go', '''	if fileutil.HasLinks(outinfo) {
		return false
	}
''', ''), ('signatures.go', '\n\t"github.com/sassoftware/go-rpmutils/fileutil"\n', '')],
     '''
import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	dir := t.TempDir()
	in, other := filepath.Join(dir, "in.rpm"), filepath.Join(dir, "other.rpm")
	b := encRpm(genTags(payload), payload, tBin(1008, make([]byte, 4000)))
	writeFile(t, in, b)
	check(t, os.Link(in, other))
	f, err := os.Open(in)
	check(t, err)
	defer f.Close()
	_, err = rpmutils.SignRpmFile(f, in, keys(t)[0].PrivateKey, nil)
	check(t, err)
	if o, _ := os.ReadFile(other); !bytes.Equal(o, b) {
		t.Fatal("the other name changed")
	}
}
''')

seed('c13-shorter-in-place', 'C13',
     'signing in place when the new signature header is 8 bytes shorter than the old one, so that no padding entry fits',
     'a shorter signature header is written over the old one in place, leaving its last bytes in front of the general header',
     [('signatures.go', 'if orig != len(blob) {', 'if orig < len(blob) {')],
     '''
import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	payload := archive()
	in := filepath.Join(t.TempDir(), "in.rpm")
	for n := 0; n < 1600; n += 8 {
		writeFile(t, in, encRpm(genTags(payload), payload, tBin(1008, make([]byte, n))))
		f, err := os.Open(in)
		check(t, err)
		_, err = rpmutils.SignRpmFile(f, in, keys(t)[0].PrivateKey, nil)
		f.Close()
		check(t, err)
		b, err := os.ReadFile(in)
		check(t, err)
		if _, _, err := rpmutils.Verify(bytes.NewReader(b), openpgp.EntityList{keys(t)[0]}); err != nil {
			t.Fatalf("%d bytes reserved: %v", n, err)
		}
	}
}
''')

seed('c14-trailer-prefix', 'C14',
     'a member whose name starts with TRAILER!!!',
     'such a member is taken for the end of the archive',
     [('cpio/reader.go', '} else if ent.Header.filename == TRAILER {', '} else if strings.HasPrefix(ent.Header.filename, TRAILER) {'), ('cpio/reader.go', 'import "io"\n', 'import (\n\t"io"\n\t"strings"\n)\n')],
     '''
import (
	"bytes"
	"io"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	r := cpio.NewReader(bytes.NewReader(archive(file{name: "TRAILER!!!.txt", mode: 0100644, body: "x"}, file{name: "b", mode: 0100644})))
	var n int
	for {
		_, err := r.Next()
		if err == io.EOF {
			break
		}
		check(t, err)
		n++
	}
	if n != 2 {
		t.Fatalf("%d members", n)
	}
}
''')

seed('c15-inode-key', 'C15',
     'two files on different devices whose inode numbers differ in the upper half only in what the device makes up for',
     'files of different devices are taken for hard links of each other: one is flagged as a link without contents',
     [('fileinfo.go', 'return (uint64(fi.device) << 32) | uint64(fi.inode)', 'return (uint64(fi.device) << 16) | uint64(fi.inode)')],
     '''
import (
	"bytes"
	"io"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	files := []file{{name: "/a", mode: 0100644, body: "first", dev: 1, ino: 5}, {name: "/b", mode: 0100644, body: "second", dev: 0, ino: 0x10005}}
	payload := append(append(stripped(0, "first"), stripped(1, "second")...), trailer...)
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(genTags(payload, fileTags(files)...), payload)))
	check(t, err)
	pr, err := rpm.PayloadReaderExtended()
	check(t, err)
	for _, f := range files {
		fi, err := pr.Next()
		check(t, err)
		b, err := io.ReadAll(pr)
		if err != nil || fi.Name() != f.name || string(b) != f.body || pr.IsLink() {
			t.Fatal(fi.Name(), string(b), pr.IsLink(), err)
		}
	}
}
''')

seed('c15-dot-files', 'C15',
     'files in the root directory whose names start with a dot',
     'a member is attributed to the file of the same name without the leading dot',
     [('payload.go', '''		if len(name) > 1 && name[0] == '.' && name[1] == '/' {
			name = name[1:]
		}
''', '''		if len(name) > 1 && name[0] == '.' {
			name = "/" + strings.TrimLeft(name, "./")
		}
'''), ('payload.go', '\t"io"\n', '\t"io"\n\t"strings"\n')],
     '''
import (
	"bytes"
	"io"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	files := []file{{name: "/.profile", mode: 0100644, body: "first"}, {name: "/profile", mode: 0100644, body: "second"}}
	payload := archive(file{name: "./.profile", mode: 0100644, body: "first"}, file{name: "./profile", mode: 0100644, body: "second"})
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(genTags(payload, fileTags(files)...), payload)))
	check(t, err)
	pr, err := rpm.PayloadReaderExtended()
	check(t, err)
	for _, f := range files {
		fi, err := pr.Next()
		check(t, err)
		b, err := io.ReadAll(pr)
		if err != nil || fi.Name() != f.name || string(b) != f.body {
			t.Fatal(fi.Name(), string(b), err)
		}
	}
}
''')

seed('c15-stripped-symlink', 'C15',
     'a stripped archive with a symbolic link',
     'the target of a symbolic link in a stripped archive is not read, and the members after it are lost',
     [('payload.go', '''		case cpio.S_ISLNK:
			fileSizes[i] = int64(len(fileSt.linkName))
''', '')],
     '''
import (
	"bytes"
	"io"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	files := []file{{name: "/a", mode: 0120777, body: "target"}, {name: "/b", mode: 0100644, body: "second"}}
	payload := append(append(stripped(0, "target"), stripped(1, "second")...), trailer...)
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(genTags(payload, fileTags(files)...), payload)))
	check(t, err)
	pr, err := rpm.PayloadReaderExtended()
	check(t, err)
	for _, f := range files {
		fi, err := pr.Next()
		check(t, err)
		b, err := io.ReadAll(pr)
		if err != nil || fi.Name() != f.name || string(b) != f.body {
			t.Fatal(fi.Name(), string(b), err)
		}
	}
}
''')

seed('c16-extract-no-trailer', 'C16',
     'an archive cut exactly between two members',
     'extraction takes the end of the stream at a member boundary for the end of the archive',
     [('cpio/extract.go', '''		entry, err := stream.ReadNextEntry()
		if err != nil {
''', '''		entry, err := stream.ReadNextEntry()
		if err == io.EOF && stream.nextPos > 0 {
			// some tools don't bother to write a trailer
			break
		}
		if err != nil {
''')],
     '''
import (
	"bytes"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	b := member(file{name: "a", mode: 0100644, body: "x"})
	if err := cpio.Extract(bytes.NewReader(b), t.TempDir()); err == nil {
		t.Fatal("a truncated archive extracts")
	}
}
''')

seed('c17-index', 'C17',
     'a stripped member whose index is the number of files',
     'an index just past the end of the size table crashes the reader',
     [('cpio/cpio.go', 'hdr.index >= len(cs.sizes)', 'hdr.index > len(cs.sizes)')],
     '''
import (
	"bytes"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	r := cpio.NewReaderWithSizes(bytes.NewReader(append(stripped(2, ""), trailer...)), []int64{0, 0})
	if _, err := r.Next(); err == nil {
		t.Fatal("no error")
	}
}
''')

seed('c18-no-truncate', 'C18',
     'extracting over a longer file of the same name',
     'the end of the previous file remains behind the new contents',
     [('cpio/extract.go', 'f, err := os.Create(target)', 'f, err := os.OpenFile(target, os.O_WRONLY|os.O_CREATE, 0666)')],
     '''
import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	writeFile(t, filepath.Join(dir, "a"), []byte("something longer"))
	check(t, cpio.Extract(bytes.NewReader(archive(file{name: "a", mode: 0100644, body: "new"})), dir))
	if b, err := os.ReadFile(filepath.Join(dir, "a")); string(b) != "new" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed('c18-two-links', 'C18',
     'a file with exactly two names',
     'the first of two names of a hard-linked file is not linked to the second',
     [('cpio/extract.go', 'if entry.Header.nlink > 1 && entry.Header.filesize == 0 {', 'if entry.Header.nlink > 2 && entry.Header.filesize == 0 {'),
      ('cpio/extract.go', 'if entry.Header.nlink > 1 && entry.Header.filesize > 0 {', 'if entry.Header.nlink > 2 && entry.Header.filesize > 0 {')],
     '''
import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	check(t, cpio.Extract(bytes.NewReader(archive(file{name: "a", mode: 0100644, ino: 3, nlnk: 2}, file{name: "b", mode: 0100644, body: "new", ino: 3, nlnk: 2})), dir))
	if b, err := os.ReadFile(filepath.Join(dir, "a")); string(b) != "new" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

seed('c19-chtimes', 'C19',
     'an archive with a symbolic link to an existing file outside of the destination',
     'restoring the modification time of a symbolic link changes that of its target, outside of the destination',
     [('cpio/extract.go', '''			if err := os.Symlink(string(buf), target); err != nil {
				return err
			}
''', '''			linkname := string(buf)
			if err := os.Symlink(linkname, target); err != nil {
				return err
			}
			mtime := time.Unix(int64(entry.Header.mtime), 0)
			if err := os.Chtimes(target, mtime, mtime); err != nil && !os.IsNotExist(err) {
				return err
			}
'''), ('cpio/extract.go', '\t"strings"\n', '\t"strings"\n\t"time"\n')],
     '''
import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	out := filepath.Join(dir, "outside")
	writeFile(t, out, nil)
	before, err := os.Stat(out)
	check(t, err)
	check(t, cpio.Extract(bytes.NewReader(archive(file{name: "a", mode: 0120777, body: "../outside"})), filepath.Join(dir, "dest")))
	after, err := os.Stat(out)
	check(t, err)
	if !after.ModTime().Equal(before.ModTime()) {
		t.Fatal("a file outside of the destination was touched")
	}
}
''')

seed('c20-multistream', 'C20',
     'a gzip payload of several members, as parallel compressors write it',
     'only the first gzip member is read',
     [('uncompress.go', '\t\treturn gzip.NewReader(r)\n', '''		zr, err := gzip.NewReader(r)
		if err != nil {
			return nil, err
		}
		// the payload is a single stream
		zr.Multistream(false)
		return zr, nil
''')],
     '''
import (
	"bytes"
	"compress/gzip"
	"io"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	raw := archive(file{name: "./a", mode: 0100644, body: "hello"}, file{name: "./b", mode: 0100644, body: "world"})
	var buf bytes.Buffer
	for _, part := range [][]byte{raw[:100], raw[100:]} {
		w := gzip.NewWriter(&buf)
		w.Write(part)
		w.Close()
	}
	tags := genTags(buf.Bytes())
	tags[5] = tStr(1125, "gzip")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(tags, buf.Bytes())))
	check(t, err)
	pr, err := rpm.PayloadReader()
	check(t, err)
	for i := 0; i < 2; i++ {
		_, err = pr.Next()
		check(t, err)
	}
	if _, err = pr.Next(); err != io.EOF {
		t.Fatal(err)
	}
}
''')

seed('c20-zstd-window', 'C20',
     'a zstd payload with a window of more than 8 MiB (as high compression levels use), in a build without cgo',
     'such payloads cannot be read without cgo',
     [('uncompress_nocgo.go', 'decoder, err := zstd.NewReader(r)', 'decoder, err := zstd.NewReader(r, zstd.WithDecoderMaxWindow(8<<20))')],
     '''
import (
	"bytes"
	"io"
	"testing"

	"github.com/klauspost/compress/zstd"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	raw := archive(file{name: "./a", mode: 0100644, body: string(make([]byte, 20<<20))})
	var buf bytes.Buffer
	w, err := zstd.NewWriter(&buf, zstd.WithWindowSize(16<<20), zstd.WithEncoderConcurrency(1))
	check(t, err)
	w.Write(raw)
	check(t, w.Close())
	tags := genTags(buf.Bytes())
	tags[5] = tStr(1125, "zstd")
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(encRpm(tags, buf.Bytes())))
	check(t, err)
	pr, err := rpm.PayloadReader()
	check(t, err)
	_, err = pr.Next()
	check(t, err)
	if _, err = pr.Next(); err != io.EOF {
		t.Fatal(err)
	}
}
''', nocgo=True)

seed('c21-parse-numbers', 'C21',
     'numeric segments of more than 19 digits, such as two timestamps run together',
     'all numbers of 2^64 or more compare as equal',
     [('vercmp.go', '''			// Throw away any leading zeros.
			m1Head = strings.TrimLeft(m1Head, "0")
			m2Head = strings.TrimLeft(m2Head, "0")

			// Whichever number has more digits wins
			m1Hlen := len(m1Head)
			m2Hlen := len(m2Head)
			if m1Hlen < m2Hlen {
				return -1
			}
			if m1Hlen > m2Hlen {
				return 1
			}
		}
''', '''			n1, _ := strconv.ParseUint(m1Head, 10, 64)
			n2, _ := strconv.ParseUint(m2Head, 10, 64)
			if n1 < n2 {
				return -1
			}
			if n1 > n2 {
				return 1
			}
			continue
		}
'''), ('vercmp.go', '\t"regexp"\n', '\t"regexp"\n\t"strconv"\n')],
     '''
import (
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	if c := rpmutils.Vercmp("1.2023010112000020230101", "1.2024010112000020240101"); c != -1 {
		t.Fatal(c)
	}
}
''')

seed('c22-arch', 'C22',
     'comparing builds of the same version for different architectures',
     'packages that differ in nothing but their architecture no longer compare as equal',
     [('nevra.go', '''	if res := Vercmp(a.Release, b.Release); res != 0 {
		return res
	}
	return 0
''', '''	if res := Vercmp(a.Release, b.Release); res != 0 {
		return res
	}
	return Vercmp(a.Arch, b.Arch)
''')],
     '''
import (
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	a := rpmutils.NEVRA{Name: "a", Epoch: "0", Version: "1", Release: "1", Arch: "i386"}
	b := a
	b.Arch = "x86_64"
	if c := rpmutils.NEVRAcmp(a, b); c != 0 {
		t.Fatal(c)
	}
}
''')

seed('c23-peek', 'C23',
     'a gzip package that does not name its compressor, from a stream that delivers single bytes',
     'the payload is not recognised as compressed if its first two bytes come separately',
     [('uncompress.go', '''		_, err := io.ReadFull(r, b)
		if err != nil {
			return nil, err
		}
		if b[0] == 0x1f && b[1] == 0x8b {''', '''		n, err := r.Read(b)
		if err != nil {
			return nil, err
		}
		b = b[:n]
		if bytes.Equal(b, []byte{0x1f, 0x8b}) {''')],
     '''
import (
	"bytes"
	"compress/gzip"
	"testing"
	"testing/iotest"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	raw := archive(file{name: "./a", mode: 0100644, body: "hello"})
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(raw)
	w.Close()
	tags := genTags(buf.Bytes())
	tags = append(tags[:5:5], tags[6:]...)
	rpm, err := rpmutils.ReadRpm(iotest.OneByteReader(bytes.NewReader(encRpm(tags, buf.Bytes()))))
	check(t, err)
	pr, err := rpm.PayloadReader()
	check(t, err)
	_, err = pr.Next()
	check(t, err)
}
''')

seed('c24-error-after-last-file', 'C24',
     'a stream that fails in the contents of the last file while the caller skips them',
     'any error after the last listed file was reached is reported as a clean end of the payload',
     [('payload.go', '''		return nil, err
	}
	var index int
''', '''		if len(pr.files) > 0 && pr.index == len(pr.files)-1 {
			// all files were delivered
			return nil, io.EOF
		}
		return nil, err
	}
	var index int
''')],
     '''
import (
	"bytes"
	"errors"
	"io"
	"testing"
	"testing/iotest"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	body := string(make([]byte, 10000))
	files := []file{{name: "/a", mode: 0100644, body: "x"}, {name: "/b", mode: 0100644, body: body}}
	payload := archive(file{name: "./a", mode: 0100644, body: "x"}, file{name: "./b", mode: 0100644, body: body})
	b := encRpm(genTags(payload, fileTags(files)...), payload)
	rpm, err := rpmutils.ReadRpm(io.MultiReader(bytes.NewReader(b[:len(b)-5000]), iotest.ErrReader(errors.New("broken"))))
	check(t, err)
	pr, err := rpm.PayloadReaderExtended()
	check(t, err)
	for range files {
		_, err = pr.Next()
		check(t, err)
	}
	if _, err = pr.Next(); err == nil || err == io.EOF {
		t.Fatal(err)
	}
}
''')

seed('c25-size32', 'C25',
     'a stripped archive with a file of more than 4 GiB',
     'file sizes are cut to 32 bits when a payload is read',
     [('payload.go', 'fileSizes[i] = fileSt.Size()', 'fileSizes[i] = int64(uint32(fileSt.Size()))')],
     '''
import (
	"bytes"
	"io"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

type zeros struct{}

func (zeros) Read(d []byte) (int, error) { return len(d), nil }

func TestDemo(t *testing.T) {
	const size = 1<<32 + 2
	files := []file{{name: "/a", mode: 0100644}, {name: "/b", mode: 0100644, body: "second"}}
	tags := fileTags(files)
	tags[0] = tU64(5008, size, 6)
	payload := io.MultiReader(bytes.NewReader(stripped(0, "")[:14]), io.LimitReader(zeros{}, size), bytes.NewReader(append(stripped(1, "second"), trailer...)))
	rpm, err := rpmutils.ReadRpm(io.MultiReader(bytes.NewReader(encRpm(genTags(nil, tags...), nil)), payload))
	check(t, err)
	pr, err := rpm.PayloadReaderExtended()
	check(t, err)
	_, err = pr.Next()
	check(t, err)
	_, err = pr.Next()
	check(t, err)
	if b, err := io.ReadAll(pr); string(b) != "second" {
		t.Fatal(len(b), err)
	}
}
''')

seed('c25-read-all', 'C25',
     'verifying or signing a package with a payload that does not fit into memory',
     'the payload is held in memory while it is digested',
     [('verify_digests.go', '''		payloadHasher := payloadType.New()
		// hash payload only
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {
			return err
		}
''', '''		payloadHasher := payloadType.New()
		// hash payload only
		payloadWriters = append(payloadWriters, payloadHasher)
		payload, err := io.ReadAll(payloadReader)
		if err != nil {
			return err
		}
		for _, w := range payloadWriters {
			w.Write(payload)
		}
''')],
     '''
import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"io"
	"runtime"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

type zeros struct{}

func (zeros) Read(d []byte) (int, error) { clear(d); return len(d), nil }

func TestDemo(t *testing.T) {
	const size = 64 << 20
	s := sha256.New()
	io.Copy(s, io.LimitReader(zeros{}, size))
	tags := genTags(nil)
	tags[6] = tStrs(5092, hex.EncodeToString(s.Sum(nil)))
	b := encRpm(tags, nil)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	_, _, err := rpmutils.Verify(io.MultiReader(bytes.NewReader(b), io.LimitReader(zeros{}, size)), nil)
	check(t, err)
	runtime.ReadMemStats(&m1)
	if n := m1.TotalAlloc - m0.TotalAlloc; n > size/2 {
		t.Fatalf("%d bytes allocated", n)
	}
}
''')

seed('c26-close-on-eof', 'C26',
     'a zstd payload that is cut short, in a build without cgo',
     'the decompressor and its goroutines stay when the payload ends with an error',
     [('payload.go', 'if c, ok := pr.stream.(io.Closer); ok {', 'if c, ok := pr.stream.(io.Closer); ok && err == io.EOF {')],
     '''
import (
	"bytes"
	"runtime"
	"testing"
	"time"

	"github.com/klauspost/compress/zstd"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	p := make([]byte, 8<<20)
	for i := range p {
		p[i] = byte(i*i>>8) ^ byte(i>>3)
	}
	body := string(p)
	files := []file{{name: "/a", mode: 0100644, body: body}}
	raw := archive(file{name: "./a", mode: 0100644, body: body})
	enc, err := zstd.NewWriter(nil, zstd.WithEncoderConcurrency(1))
	check(t, err)
	z := enc.EncodeAll([]byte("garbage that is no archive"+string(raw)), nil)
	enc.Close()
	tags := genTags(z, fileTags(files)...)
	tags[5] = tStr(1125, "zstd")
	b := encRpm(tags, z)
	time.Sleep(100 * time.Millisecond)
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		rpm, err := rpmutils.ReadRpm(bytes.NewReader(b))
		check(t, err)
		pr, err := rpm.PayloadReaderExtended()
		check(t, err)
		if _, err := pr.Next(); err == nil {
			t.Fatal("no error")
		}
	}
	time.Sleep(time.Second)
	if n := runtime.NumGoroutine(); n > before+5 {
		t.Fatalf("%d goroutines were left", n-before)
	}
}
''', nocgo=True)

seed('c27-shared-buffer', 'C27',
     'verifying two packages at the same time',
     'all digesting shares one buffer, so the digests of packages processed at the same time get mixed up',
     [('verify_digests.go', '''		// hash payload only
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.Copy(io.MultiWriter(payloadWriters...), payloadReader); err != nil {''', '''		// hash payload only
		payloadWriters = append(payloadWriters, payloadHasher)
		if _, err := io.CopyBuffer(io.MultiWriter(payloadWriters...), payloadReader, copyBuf); err != nil {'''),
      ('verify_digests.go', 'var headerSigTags = ', 'var copyBuf = make([]byte, 64*1024)\n\nvar headerSigTags = ')],
     '''
import (
	"bytes"
	"io"
	"sync"
	"testing"

	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		payload := archive(file{name: "./a", mode: 0100644, body: string(bytes.Repeat([]byte{byte(i)}, 1<<20))})
		b := encRpm(genTags(payload), payload)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 20; j++ {
				if _, _, err := rpmutils.Verify(struct{ io.Reader }{bytes.NewReader(b)}, nil); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed('c27-header-scratch', 'C27',
     'reading two archives at the same time',
     'all archives share one scratch buffer for header fields, so fields of one turn up in another',
     [('cpio/header.go', '''	r   io.Reader
	buf [8]byte
}
''', '''	r io.Reader
}

var fieldBuf [8]byte
'''), ('cpio/header.go', 'bb := br.buf[:8]', 'bb := fieldBuf[:]')],
     '''
import (
	"bytes"
	"io"
	"testing"

	"github.com/sassoftware/go-rpmutils/cpio"
)

// halting hands out few bytes at a time and lets another reader go on meanwhile.
type halting struct {
	r    io.Reader
	next func()
}

func (h halting) Read(p []byte) (int, error) {
	h.next()
	return h.r.Read(p[:min(len(p), 3)])
}

func TestDemo(t *testing.T) {
	var files []file
	for j := 0; j < 500; j++ {
		files = append(files, file{name: "a", mode: 0100644, ino: 0x11111111})
	}
	other := cpio.NewReader(bytes.NewReader(archive(files...)))
	r := cpio.NewReader(halting{bytes.NewReader(archive(file{name: "b", mode: 0100644, ino: 0x22222222})), func() { other.Next() }})
	h, err := r.Next()
	check(t, err)
	if h.Ino() != 0x22222222 {
		t.Fatalf("%x", h.Ino())
	}
}
''')

seed('c28-identity', 'C28',
     'a signer whose key has several identities, the primary of which is not the first in the alphabet',
     'the name reported for the signer is not that of the primary identity',
     [('verify_v4.go', '''	if identity := entity.PrimaryIdentity(); identity != nil {
		sig.PrimaryName = identity.Name
	}
''', '''	for name := range entity.Identities {
		if sig.PrimaryName == "" || name < sig.PrimaryName {
			sig.PrimaryName = name
		}
	}
''')],
     '''
import (
	"bytes"
	"testing"

	"github.com/ProtonMail/go-crypto/openpgp"
	rpmutils "github.com/sassoftware/go-rpmutils"
)

func TestDemo(t *testing.T) {
	e, err := openpgp.NewEntity("Zoe", "", "zoe@example.com", nil)
	check(t, err)
	want := e.PrimaryIdentity().Name
	check(t, e.AddUserId("Alias", "", "alias@example.com", nil))
	for name, id := range e.Identities {
		primary := name == want
		id.SelfSignature.IsPrimaryId = &primary
	}
	payload := archive()
	b := encRpm(genTags(payload), payload)
	h, err := rpmutils.SignRpmStream(bytes.NewReader(b), e.PrivateKey, nil)
	check(t, err)
	d, err := h.DumpSignatureHeader(false)
	check(t, err)
	_, sigs, err := rpmutils.Verify(bytes.NewReader(append(d, b[h.OriginalSignatureHeaderSize():]...)), openpgp.EntityList{e})
	check(t, err)
	if sigs[0].PrimaryName != want {
		t.Fatal(sigs[0].PrimaryName, want)
	}
}
''')
