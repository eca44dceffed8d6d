package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"

	"pgregory.net/rapid"
)

// Chunks says how a stream hands out its bytes. Every plan is a legal io.Reader.
type Chunks struct {
	Sizes   []int `json:"sizes,omitempty"`   // cycle of maximum read sizes; empty: as much as asked for
	EOFWith bool  `json:"eofwith,omitempty"` // return io.EOF together with the last bytes
	Stutter bool  `json:"stutter,omitempty"` // now and then return 0, nil
	Form    int   `json:"form,omitempty"`    // what else the stream can do, see below
}

// Forms of streams: what is behind the io.Reader must not matter.
const (
	formPlain      = iota // nothing, or a bytes.Reader
	formSeeker            // can seek, read at and write to; there is something in front of the stream
	formSeekChunks        // can seek, hands out chunks; there is something in front
	formBuffer            // a bytes.Buffer
	formBufio             // a bufio.Reader
	formFile              // a regular file, with something in front; closed with the case
	formPipe              // a pipe
)

var formNames = []string{"plain", "seeker behind a prefix", "seeker behind a prefix, chunked", "bytes.Buffer", "bufio.Reader", "file at an offset", "pipe"}

// what lies in front of a stream that can seek: another package's lead
var streamPrefix = append([]byte{0xed, 0xab, 0xee, 0xdb, 3, 0, 0, 0}, bytes.Repeat([]byte{0x30}, 41)...)

type seekChunks struct {
	*chunkReader
}

func (r seekChunks) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += int64(r.pos)
	case io.SeekEnd:
		offset += int64(len(r.data))
	}
	if offset < 0 {
		return 0, errors.New("seek to a negative offset")
	}
	r.pos = int(offset)
	return offset, nil
}

type chunkReader struct {
	data    []byte
	pos     int
	plan    Chunks
	i       int
	stut    bool
	failAt  int // -1: never
	failErr error
}

func newChunkReader(data []byte, plan Chunks) *chunkReader {
	return &chunkReader{data: data, plan: plan, failAt: -1}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.plan.Stutter && !r.stut {
		r.stut = true
		return 0, nil
	}
	r.stut = false
	if r.failAt >= 0 && r.pos >= r.failAt {
		return 0, r.failErr
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.plan.Sizes) > 0 {
		n = min(n, r.plan.Sizes[r.i%len(r.plan.Sizes)])
		r.i++
	}
	n = min(n, len(r.data)-r.pos)
	if r.failAt >= 0 {
		n = min(n, r.failAt-r.pos)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.plan.EOFWith {
		if r.failAt >= 0 && r.pos >= r.failAt {
			return n, r.failErr
		}
		if r.failAt < 0 && r.pos == len(r.data) {
			return n, io.EOF
		}
	}
	return n, nil
}

func genChunks(stutter bool) *rapid.Generator[Chunks] {
	return rapid.Custom(func(t *rapid.T) Chunks {
		var c Chunks
		switch rapid.IntRange(0, 3).Draw(t, "chunkkind") {
		case 0:
		case 1:
			c.Sizes = []int{1}
		default:
			c.Sizes = rapid.SliceOfN(rapid.IntRange(1, 200), 1, 5).Draw(t, "sizes")
		}
		c.EOFWith = rapid.Bool().Draw(t, "eofwith")
		if stutter {
			c.Stutter = rapid.IntRange(0, 3).Draw(t, "stutter") == 0
		}
		if rapid.IntRange(0, 2).Draw(t, "special") == 0 {
			c.Form = rapid.IntRange(formSeeker, formBufio).Draw(t, "form")
		}
		return c
	})
}

func (c Chunks) reader(data []byte) io.Reader {
	behind := func() []byte { return append(streamPrefix[:len(streamPrefix):len(streamPrefix)], data...) }
	switch c.Form {
	case formSeeker:
		r := bytes.NewReader(behind())
		_, _ = r.Seek(int64(len(streamPrefix)), io.SeekStart)
		return r
	case formSeekChunks:
		r := newChunkReader(behind(), c)
		r.pos = len(streamPrefix)
		return seekChunks{r}
	case formBuffer:
		return bytes.NewBuffer(data[:len(data):len(data)])
	case formBufio:
		return bufio.NewReaderSize(newChunkReader(data, c), 16)
	}
	if len(c.Sizes) == 0 && !c.EOFWith && !c.Stutter {
		return bytes.NewReader(data)
	}
	return newChunkReader(data, c)
}

// readerOf is reader for plans that may ask for a file, which lives as long as the case.
func (c Chunks) readerOf(k *K, data []byte) io.Reader {
	k.LabelIf(c.Form != formPlain, formNames[c.Form])
	switch c.Form {
	case formFile:
		name := fmt.Sprintf("%s/stream%d", *optScratch, len(k.closers))
		f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		must(err)
		must(os.Remove(name))
		k.closers = append(k.closers, f)
		_, err = f.Write(append(streamPrefix[:len(streamPrefix):len(streamPrefix)], data...))
		must(err)
		_, err = f.Seek(int64(len(streamPrefix)), io.SeekStart)
		must(err)
		return f
	case formPipe:
		r, w, err := os.Pipe()
		must(err)
		k.closers = append(k.closers, r)
		go func() {
			_, _ = w.Write(data)
			w.Close()
		}()
		return r
	}
	return c.reader(data)
}

// genStreams is genChunks with files and pipes; for readerOf.
func genStreams(stutter bool) *rapid.Generator[Chunks] {
	return rapid.Custom(func(t *rapid.T) Chunks {
		c := genChunks(stutter).Draw(t, "plan")
		if rapid.IntRange(0, 5).Draw(t, "file") == 0 {
			c.Form = rapid.IntRange(formFile, formPipe).Draw(t, "filekind")
		}
		return c
	})
}
