package main

// cpio archives, written from the format description: newc as in cpio(5), and
// the stripped variant RPM uses for files too big for newc.

import (
	"bytes"
	"fmt"
	"io"

	"pgregory.net/rapid"
)

const (
	mReg  = 0100000
	mDir  = 040000
	mLnk  = 0120000
	mFifo = 010000
	mChr  = 020000
	mBlk  = 060000
	mSock = 0140000
)

// CEnt is one archive member.
type CEnt struct {
	Name  S        `json:"name"`
	Mode  uint32   `json:"mode"`
	Ino   uint32   `json:"ino,omitempty"`
	Nlink uint32   `json:"nlink,omitempty"`
	Dev   uint32   `json:"dev,omitempty"` // devmajor<<16|devminor
	Data  Blob     `json:"data"`
	Meta  []uint32 `json:"meta,omitempty"` // uid gid mtime rdevmajor rdevminor check
	Upper bool     `json:"upper,omitempty"`
}

func (e CEnt) meta(i int) uint32 {
	if i < len(e.Meta) {
		return e.Meta[i]
	}
	return 0
}

func pad4(n int) int { return (4 - n%4) % 4 }

func newcHeader(e CEnt, filesize, namesize uint32) []byte {
	f := "%s%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x%08x"
	if e.Upper {
		f = "%s%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X%08X"
	}
	return []byte(fmt.Sprintf(f, "070701", e.Ino, e.Mode, e.meta(0), e.meta(1), e.Nlink, e.meta(2), filesize,
		e.Dev>>16, e.Dev&0xffff, e.meta(3), e.meta(4), namesize, e.meta(5)))
}

// Extent of a member within an archive.
type Extent struct{ Hdr, Name, Data, End int } // End: after the data, before the padding

// encodeCpio writes the archive, and says where each member (the trailer last) lies.
func encodeCpio(ents []CEnt, fill byte) ([]byte, []Extent) {
	return encodeCpioT(ents, fill, CEnt{Nlink: 1})
}

// encodeCpioT also says what the trailer's header holds.
func encodeCpioT(ents []CEnt, fill byte, trailer CEnt) ([]byte, []Extent) {
	var b bytes.Buffer
	var ex []Extent
	padTo := func() {
		for b.Len()%4 != 0 {
			b.WriteByte(fill)
		}
	}
	put := func(e CEnt, data []byte) {
		var x Extent
		x.Hdr = b.Len()
		b.Write(newcHeader(e, uint32(len(data)), uint32(len(e.Name)+1)))
		x.Name = b.Len()
		b.WriteString(string(e.Name))
		b.WriteByte(0)
		padTo()
		x.Data = b.Len()
		b.Write(data)
		x.End = b.Len()
		padTo()
		ex = append(ex, x)
	}
	for _, e := range ents {
		put(e, e.Data.Bytes())
	}
	trailer.Name = "TRAILER!!!"
	put(trailer, nil)
	return b.Bytes(), ex
}

// SEnt is a member of a stripped archive.
type SEnt struct {
	Index int  `json:"index"`
	Data  Blob `json:"data"`
}

// encodeStripped writes an archive whose member headers hold only a file index.
// The 14-byte header is not padded; the data are padded relative to the start of
// the archive, as in the packages rpm writes.
func encodeStripped(ents []SEnt, fill byte) ([]byte, []Extent) {
	var b bytes.Buffer
	var ex []Extent
	for _, e := range ents {
		var x Extent
		x.Hdr = b.Len()
		fmt.Fprintf(&b, "07070X%08x", e.Index)
		x.Name, x.Data = b.Len(), b.Len()
		b.Write(e.Data.Bytes())
		x.End = b.Len()
		for b.Len()%4 != 0 {
			b.WriteByte(fill)
		}
		ex = append(ex, x)
	}
	base := b.Len()
	t, tx := encodeCpio(nil, fill)
	b.Write(t)
	ex = append(ex, Extent{base + tx[0].Hdr, base + tx[0].Name, base + tx[0].Data, base + tx[0].End})
	return b.Bytes(), ex
}

// ReadPlan says how a consumer goes through an archive: for each member the
// buffer sizes it passes to Read before moving on.
type ReadPlan struct {
	Bufs []int  `json:"bufs"`           // per member: 0 skip, -1 read all, n>0 read in n-byte buffers, -n-1 one partial read of n
	Zero []bool `json:"zero,omitempty"` // per member: ask for nothing first
}

func genReadPlan(t *rapid.T, n int) ReadPlan {
	var p ReadPlan
	for i := 0; i < n; i++ {
		p.Zero = append(p.Zero, rapid.IntRange(0, 4).Draw(t, "zero") == 0)
		switch rapid.IntRange(0, 4).Draw(t, "planKind") {
		case 0:
			p.Bufs = append(p.Bufs, 0)
		case 1, 2:
			p.Bufs = append(p.Bufs, -1)
		case 3:
			p.Bufs = append(p.Bufs, rapid.IntRange(1, 70).Draw(t, "bufsize"))
		default:
			p.Bufs = append(p.Bufs, -1-rapid.IntRange(1, 70).Draw(t, "partial"))
		}
	}
	return p
}

// follow carries out the plan for member i against its expected contents.
func (p ReadPlan) follow(i int, r io.Reader, want []byte) error {
	b := -1
	if i < len(p.Bufs) {
		b = p.Bufs[i]
	}
	if i < len(p.Zero) && p.Zero[i] && len(want) > 0 {
		if n, err := r.Read(nil); n != 0 || err != nil {
			return errf("member %d of %d bytes: an empty read before the first byte gave %d, %v", i, len(want), n, err)
		}
	}
	switch {
	case b == 0:
		return nil
	case b == -1:
		got, err := io.ReadAll(r)
		if err != nil {
			return errf("member %d: reading: %v", i, err)
		}
		if !bytes.Equal(got, want) {
			return errf("member %d: contents differ: got %d bytes, want %d", i, len(got), len(want))
		}
	case b > 0:
		var got []byte
		zero := 0
		for {
			buf := make([]byte, b)
			n, err := r.Read(buf)
			if n > b || n < 0 {
				return errf("member %d: Read(%d bytes) returned %d", i, b, n)
			}
			got = append(got, buf[:n]...)
			if err == io.EOF {
				break
			}
			if err != nil {
				return errf("member %d: reading: %v", i, err)
			}
			if n == 0 {
				if zero++; zero > 1000 {
					return errf("member %d: Read makes no progress", i)
				}
			} else {
				zero = 0
			}
			if len(got) > len(want)+b {
				return errf("member %d: more than the %d bytes of the member", i, len(want))
			}
		}
		if !bytes.Equal(got, want) {
			return errf("member %d: contents differ (buffers of %d): got %d bytes, want %d", i, b, len(got), len(want))
		}
		// the end stays the end
		if n, err := r.Read(make([]byte, b)); n != 0 || err != io.EOF {
			return errf("member %d: Read after the end gave %d, %v", i, n, err)
		}
	default:
		n := -b - 1
		buf := make([]byte, n)
		m, err := io.ReadFull(r, buf)
		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return errf("member %d: partial read: %v", i, err)
		}
		if m != min(n, len(want)) || !bytes.Equal(buf[:m], want[:m]) {
			return errf("member %d: partial read of %d gave %d bytes of %d, or the wrong ones", i, n, m, len(want))
		}
	}
	return nil
}

func genCName(t *rapid.T) S {
	switch rapid.IntRange(0, 5).Draw(t, "namekind") {
	case 0:
		return S("./" + rapid.StringMatching(`[a-z0-9._ -]{1,12}`).Draw(t, "name"))
	case 1:
		return S(rapid.SliceOfN(rapid.ByteRange(1, 255), 1, 20).Draw(t, "rawname"))
	case 2:
		return S(rapid.SampledFrom([]string{"TRAILER!!", "TRAILER!!!!", "./TRAILER!!!", "trailer!!!", "070701", "", ".", "/"}).Draw(t, "special"))
	case 3:
		return S(bytes.Repeat([]byte("n"), rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 7, 8, 100, 255, 256, 300, 511, 512, 1024, 4095, 4096, 5000}).Draw(t, "namelen")))
	default:
		return S(rapid.StringMatching(`[a-zA-Z0-9._/-]{1,24}`).Draw(t, "name"))
	}
}
