package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"pgregory.net/rapid"
)

// Operations on a package stream, with results in a comparable form.
var opNames = []string{"ReadHeader", "Verify", "VerifyKeys", "SignRpmStream", "PayloadReader", "PayloadReaderExtended", "ExpandPayload"}

const (
	opRead = iota
	opVerify
	opVerifyKeys
	opSign
	opPayload
	opPayloadExt
	opExpand
	numOps
)

// fixedSign are options under which an RSA signature is the same every time.
var fixedSign = SignOp{Key: 0, Opts: 4, Hash: int(crypto.SHA256), Time: 1700000000}

// describeHeader lists everything a header says.
func describeHeader(h *rpmutils.RpmHeader) []string {
	var out []string
	add := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	add("range %+v", h.GetRange())
	add("source %v", h.IsSource())
	n, err := h.GetNEVRA()
	add("nevra %+v %v", n, err)
	i, err := h.InstalledSize()
	add("installed %d %v", i, err)
	i, err = h.PayloadSize()
	add("payload %d %v", i, err)
	for _, r := range [][2]int{{62, 300}, {1000, 1200}, {5000, 5100}, {16384 + 62, 16384 + 300}, {17384, 17400}} {
		for id := r[0]; id < r[1]; id++ {
			if h.HasTag(id) {
				v, err := h.Get(id)
				add("tag %d: %T %q %v", id, v, fmt.Sprint(v), err)
			}
		}
	}
	fs, err := h.GetFiles()
	for _, f := range fs {
		add("file %q %d %q %q %d %d %q %o %q %d %d", f.Name(), f.Size(), f.UserName(), f.GroupName(), f.Flags(), f.Mtime(), f.Digest(), f.Mode(), f.Linkname(), f.Device(), f.Inode())
	}
	add("files %d %v", len(fs), err != nil)
	return out
}

func describeSigs(sigs []*rpmutils.Signature) (out []string) {
	for _, s := range sigs {
		l := fmt.Sprintf("signature key=%x hash=%v time=%d headeronly=%v", s.KeyId, s.Hash, s.CreationTime.Unix(), s.HeaderOnly)
		if s.Signer != nil {
			l += fmt.Sprintf(" signer=%x fpr=%s", s.Signer.PrimaryKey.KeyId, s.PrimaryName)
		}
		out = append(out, l)
	}
	return
}

// runOp carries out one operation. On error the result is what was obtained
// before it. dir must be empty; it is only used by extraction.
func runOp(op int, src io.Reader, dir string) ([]string, error) {
	switch op {
	case opRead:
		h, err := rpmutils.ReadHeader(src)
		if err != nil {
			return nil, err
		}
		return describeHeader(h), nil
	case opVerify, opVerifyKeys:
		var h *rpmutils.RpmHeader
		var sigs []*rpmutils.Signature
		var err error
		if op == opVerify {
			h, sigs, err = rpmutils.Verify(src, nil)
		} else {
			h, sigs, err = rpmutils.Verify(src, keyring(keyringKeys...))
		}
		if err != nil {
			return nil, err
		}
		return append(describeHeader(h), describeSigs(sigs)...), nil
	case opSign:
		h, err := rpmutils.SignRpmStream(src, testKeys()[fixedSign.Key].Priv, fixedSign.options())
		if err != nil {
			return nil, err
		}
		out := describeHeader(h)
		b, err := h.DumpSignatureHeader(false)
		if err != nil {
			return nil, err
		}
		return append(out, fmt.Sprintf("dump %x", sum(crypto.SHA256, b))), nil
	case opPayload, opPayloadExt:
		rpm, err := rpmutils.ReadRpm(src)
		if err != nil {
			return nil, err
		}
		var names, contents []string
		if op == opPayload {
			var r *cpio.Reader
			r, err = rpm.PayloadReader()
			if err == nil {
				names, contents, err = readWhole(r, 0)
			}
		} else {
			var r rpmutils.PayloadReader
			r, err = rpm.PayloadReaderExtended()
			if err == nil {
				names, contents, err = readWholeExt(r, 0)
			}
		}
		var out []string
		for i, n := range names {
			if i < len(contents) {
				out = append(out, fmt.Sprintf("member %q %q", n, contents[i]))
			}
		}
		return out, err
	case opExpand:
		rpm, err := rpmutils.ReadRpm(src)
		if err != nil {
			return nil, err
		}
		if err := rpm.ExpandPayload(dir); err != nil {
			return nil, err
		}
		return describeTree(dir), nil
	}
	panic("op")
}

// TNode is one file of a tree.
type TNode struct {
	Type  string // reg dir link fifo other
	Perm  uint32
	Data  string
	Ino   uint64
	Mtime int64
	Nlink uint64
}

// scanTree describes everything at and below dir, symbolic links not followed.
func scanTree(dir string, skip map[string]bool) map[string]TNode {
	out := map[string]TNode{}
	var walk func(p, rel string)
	walk = func(p, rel string) {
		if skip[p] {
			return
		}
		fi, err := os.Lstat(p)
		if os.IsNotExist(err) && rel == "." {
			return
		}
		must(err)
		st := fi.Sys().(*syscall.Stat_t)
		n := TNode{Perm: uint32(st.Mode & 07777), Ino: st.Ino, Mtime: fi.ModTime().UnixNano(), Nlink: uint64(st.Nlink)}
		switch fi.Mode() & os.ModeType {
		case 0:
			n.Type = "reg"
			b, err := os.ReadFile(p)
			if err != nil {
				// not readable by its owner
				must(os.Chmod(p, 0600))
				b, err = os.ReadFile(p)
				must(err)
				must(os.Chmod(p, fi.Mode().Perm()))
			}
			n.Data = string(b)
		case os.ModeDir:
			n.Type = "dir"
		case os.ModeSymlink:
			n.Type = "link"
			n.Data, err = os.Readlink(p)
			must(err)
		case os.ModeNamedPipe:
			n.Type = "fifo"
		default:
			n.Type = "other"
		}
		out[rel] = n
		if n.Type == "dir" {
			if n.Perm&0700 != 0700 {
				must(os.Chmod(p, 0700))
				defer os.Chmod(p, fi.Mode().Perm())
			}
			ents, err := os.ReadDir(p)
			must(err)
			for _, e := range ents {
				walk(filepath.Join(p, e.Name()), filepath.Join(rel, e.Name()))
			}
		}
	}
	walk(dir, ".")
	return out
}

func describeTree(dir string) []string {
	t := scanTree(dir, nil)
	first := map[uint64]string{}
	var names []string
	for n := range t {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []string
	for _, n := range names {
		if n == "." {
			continue
		}
		f := t[n]
		l := fmt.Sprintf("%q %s %o %q", n, f.Type, f.Perm, f.Data)
		if f.Type == "reg" && f.Nlink > 1 {
			if o, ok := first[f.Ino]; ok {
				l += " same as " + o
			} else {
				first[f.Ino] = n
			}
		}
		out = append(out, l)
	}
	return out
}

// StreamPkg is a package with a payload and maybe signatures, for operations
// that need both.
type StreamPkg struct {
	Pay  PayPkg    `json:"pay"`
	Sigs []SigSpec `json:"sigs,omitempty"`
	Dig  Digests   `json:"dig"`
}

func genStreamPkg(t *rapid.T, comps []string, maxData int) StreamPkg {
	s := StreamPkg{Pay: genPayPkg(t, 4, maxData, comps)}
	s.Pay.Stripped = rapid.IntRange(0, 4).Draw(t, "strip") == 0
	s.Pay.makeExtractable()
	for i := rapid.IntRange(0, 1).Draw(t, "nsigs"); i > 0; i-- {
		s.Sigs = append(s.Sigs, genSigSpec(t, 5))
	}
	s.Dig = genDigests(t)
	if s.Dig.PayAlgo == 0 {
		s.Dig.MD5 = true
	}
	return s
}

func (s StreamPkg) build() *Built {
	arch, _, _ := s.Pay.archive()
	payload := compress(s.Pay.Comp, arch, s.Pay.Members)
	p := s.Pay.pkg()
	p.Dig = s.Dig
	plain := p.BuildWith(payload)
	for _, spec := range s.Sigs {
		p.Sig.Tags = append(p.Sig.Tags, binTag(sigRSA, makeSig(spec, plain.Gen)), binTag(sigPGP, makeSig(spec, plain.Gen, payload)))
	}
	return p.BuildWith(payload)
}

// prefixOf reports whether a is a beginning of b.
func prefixOf(a, b []string) bool { return len(a) <= len(b) && sameStrings(a, b[:len(a)]) }

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%.300s | nothing", a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("%.300s | %.300s", a[i], b[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("nothing | %.300s", b[len(a)])
	}
	return "same"
}

var _ = bytes.Equal
var _ = strings.Repeat
var _ = time.Now
