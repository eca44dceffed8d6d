package main

import (
	"bytes"
	"compress/gzip"
	"sort"

	"github.com/klauspost/compress/zstd"
	"github.com/ulikunitz/xz"
	"github.com/ulikunitz/xz/lzma"
)

// Compressor names as RPM records them; "none" leaves the tag out.
var compressors = []string{"gzip", "bzip2", "xz", "lzma", "zstd", "uncompressed", "none", "none-gzip"}

// compress encodes data. Members > 1 splits it over that many independent
// streams one after another, where the format allows that.
func compress(kind string, data []byte, members int) []byte {
	// (several zstd frames are C20's business: see the known finding there)
	if members < 1 || kind == "lzma" || kind == "zstd" || kind == "uncompressed" || kind == "none" {
		members = 1
	}
	var out bytes.Buffer
	for i := 0; i < members; i++ {
		part := data[len(data)*i/members : len(data)*(i+1)/members]
		switch kind {
		case "gzip", "none-gzip":
			w, err := gzip.NewWriterLevel(&out, 1+len(part)%9)
			must(err)
			_, err = w.Write(part)
			must(err)
			must(w.Close())
		case "bzip2":
			out.Write(bzip2Encode(part, 5000))
		case "xz":
			w, err := xz.WriterConfig{DictCap: 1 << 16, CheckSum: []byte{xz.CRC32, xz.CRC64, xz.SHA256}[len(part)%3]}.NewWriter(&out)
			must(err)
			_, err = w.Write(part)
			must(err)
			must(w.Close())
		case "lzma":
			// both ways to end a stream: the size up front, or a marker
			cfg := lzma.WriterConfig{DictCap: 1 << 16}
			if len(part)%2 == 0 {
				cfg.SizeInHeader, cfg.Size = true, int64(len(part))
			} else {
				cfg.EOSMarker = true
			}
			w, err := cfg.NewWriter(&out)
			must(err)
			_, err = w.Write(part)
			must(err)
			must(w.Close())
		case "zstd":
			w, err := zstd.NewWriter(&out, zstd.WithEncoderConcurrency(1), zstd.WithEncoderCRC(len(part)%2 == 0), zstd.WithEncoderLevel(zstd.SpeedFastest), zstd.WithWindowSize(1<<17))
			must(err)
			_, err = w.Write(part)
			must(err)
			must(w.Close())
		case "uncompressed", "none":
			out.Write(part)
		default:
			harnessFail("compressor %q", kind)
		}
	}
	return out.Bytes()
}

// compressorTags gives the header tags that announce the compressor.
func compressorTags(kind string, format bool) []TagV {
	var out []TagV
	if format {
		out = append(out, strTag(tagPayloadFormat, "cpio"))
	}
	if kind != "none" && kind != "none-gzip" {
		out = append(out, strTag(tagPayloadCompressor, kind))
	}
	return out
}

// ---------------------------------------------------------------- bzip2

type bitWriter struct {
	out []byte
	acc uint64
	n   uint
}

func (w *bitWriter) put(v uint64, bits uint) {
	for bits > 24 {
		w.put(v>>24&(1<<(bits-24)-1), bits-24)
		v &= 1<<24 - 1
		bits = 24
	}
	w.acc = w.acc<<bits | v
	w.n += bits
	for w.n >= 8 {
		w.out = append(w.out, byte(w.acc>>(w.n-8)))
		w.n -= 8
	}
	w.acc &= 1<<w.n - 1
}

func bzCRC(data []byte) uint32 {
	crc := uint32(0xffffffff)
	for _, b := range data {
		crc ^= uint32(b) << 24
		for i := 0; i < 8; i++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04c11db7
			} else {
				crc <<= 1
			}
		}
	}
	return ^crc
}

// bzip2Encode is a plain, slow bzip2 compressor.
func bzip2Encode(data []byte, block int) []byte {
	w := &bitWriter{}
	w.put('B', 8)
	w.put('Z', 8)
	w.put('h', 8)
	w.put('9', 8)
	var combined uint32
	for len(data) > 0 {
		n := min(block, len(data))
		part := data[:n]
		data = data[n:]
		crc := bzCRC(part)
		combined = combined<<1 | combined>>31
		combined ^= crc
		// first run-length encoding
		var rle []byte
		for i := 0; i < len(part); {
			j := i
			for j < len(part) && part[j] == part[i] && j-i < 255 {
				j++
			}
			l := j - i
			if l < 4 {
				rle = append(rle, part[i:j]...)
			} else {
				rle = append(rle, part[i], part[i], part[i], part[i], byte(l-4))
			}
			i = j
		}
		// Burrows-Wheeler transform: rank doubling over the rotations
		m := len(rle)
		sa := make([]int, m)
		rank := make([]int, m)
		tmp := make([]int, m)
		for i := range sa {
			sa[i], rank[i] = i, int(rle[i])
		}
		for k := 1; ; k *= 2 {
			key := func(i int) (int, int) { return rank[i], rank[(i+k)%m] }
			sort.Slice(sa, func(x, y int) bool {
				a1, a2 := key(sa[x])
				b1, b2 := key(sa[y])
				if a1 != b1 {
					return a1 < b1
				}
				return a2 < b2
			})
			tmp[sa[0]] = 0
			for i := 1; i < m; i++ {
				a1, a2 := key(sa[i-1])
				b1, b2 := key(sa[i])
				tmp[sa[i]] = tmp[sa[i-1]]
				if a1 != b1 || a2 != b2 {
					tmp[sa[i]]++
				}
			}
			copy(rank, tmp)
			if rank[sa[m-1]] == m-1 || k >= m {
				break
			}
		}
		orig := 0
		last := make([]byte, m)
		for i, p := range sa {
			if p == 0 {
				orig = i
			}
			last[i] = rle[(p+m-1)%m]
		}
		// move to front, then zero-run encoding
		var used [256]bool
		for _, b := range last {
			used[b] = true
		}
		var list []byte
		for i := 0; i < 256; i++ {
			if used[i] {
				list = append(list, byte(i))
			}
		}
		nsym := len(list) + 2
		eob := nsym - 1
		var syms []int
		run := 0
		flush := func() {
			for run > 0 {
				run--
				syms = append(syms, run&1)
				run >>= 1
			}
		}
		for _, b := range last {
			p := bytes.IndexByte(list, b)
			copy(list[1:p+1], list[:p])
			list[0] = b
			if p == 0 {
				run++
				continue
			}
			flush()
			syms = append(syms, p+1)
		}
		flush()
		syms = append(syms, eob)
		// a complete prefix code with two code lengths
		k := uint(0)
		for 1<<(k+1) <= nsym {
			k++
		}
		short := 1<<(k+1) - nsym // symbols with k bits; the others have k+1
		lens := make([]uint, nsym)
		codes := make([]uint64, nsym)
		code := uint64(0)
		for i := range lens {
			if i < short {
				lens[i] = k
				codes[i] = uint64(i)
				code = uint64(i) + 1
			} else {
				if i == short {
					code <<= 1
				}
				lens[i] = k + 1
				codes[i] = code
				code++
			}
		}
		w.put(0x314159265359, 48)
		w.put(uint64(crc), 32)
		w.put(0, 1)
		w.put(uint64(orig), 24)
		for i := 0; i < 16; i++ {
			any := uint64(0)
			for j := 0; j < 16; j++ {
				if used[16*i+j] {
					any = 1
				}
			}
			w.put(any, 1)
		}
		for i := 0; i < 16; i++ {
			var v, any uint64
			for j := 0; j < 16; j++ {
				v <<= 1
				if used[16*i+j] {
					v |= 1
					any = 1
				}
			}
			if any == 1 {
				w.put(v, 16)
			}
		}
		nsel := (len(syms) + 49) / 50
		w.put(2, 3)
		w.put(uint64(nsel), 15)
		for i := 0; i < nsel; i++ {
			w.put(0, 1)
		}
		for tbl := 0; tbl < 2; tbl++ {
			cur := lens[0]
			w.put(uint64(cur), 5)
			for _, l := range lens {
				for cur < l {
					w.put(2, 2)
					cur++
				}
				for cur > l {
					w.put(3, 2)
					cur--
				}
				w.put(0, 1)
			}
		}
		for _, s := range syms {
			w.put(codes[s], lens[s])
		}
	}
	w.put(0x177245385090, 48)
	w.put(uint64(combined), 32)
	if w.n > 0 {
		w.put(0, 8-w.n)
	}
	return w.out
}
