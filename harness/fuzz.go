package main

import (
	"bytes"

	"pgregory.net/rapid"
)

// fuzzing is how FuzzSub gets at a sub-check.
type fuzzing struct {
	name   string
	gen    func(*rapid.T)
	raw    func([]byte) error
	seeds  func() [][]byte
	report func(*violation)
}

// decoder makes the fuzzer's bytes the input of a sub-check.
type decoder[C any] struct {
	from  func([]byte) C
	seeds func() [][]byte
}

var fuzzDecoders = map[string]any{
	"C03/raw": decoder[c03RawCase]{
		from: func(b []byte) c03RawCase {
			c := c03RawCase{Body: Blob{Kind: "lit"}}
			if len(b) > 0 {
				c.Prefix, b = int(b[0])%4, b[1:]
			}
			c.Body.Lit = S(b)
			return c
		},
		seeds: func() (out [][]byte) {
			for i := 0; i < 40; i++ {
				c := rapid.Custom(genC03).Example(i)
				if b := c.bytes(); len(b) < 1<<14 {
					out = append(out, append([]byte{0}, b...))
				}
				b := c.Pkg.build().All
				if len(b) > 96 && len(b) < 1<<14 {
					out = append(out, append([]byte{1}, b[96:]...))
				}
			}
			return out
		},
	},
	"C17/bytes": decoder[c17BytesCase]{
		from: func(b []byte) (c c17BytesCase) {
			if len(b) > 1 {
				c.API, c.Buf = int(b[0])%4, int(b[1])%32-1
				b = b[2:]
			}
			c.Data = S(b)
			return c
		},
		seeds: func() (out [][]byte) {
			for i := 0; i < 80; i++ {
				if c := rapid.Custom(genC17Bytes).Example(i); len(c.Data) < 1<<13 {
					out = append(out, append([]byte{byte(c.API), byte(c.Buf + 1)}, c.Data...))
				}
			}
			return out
		},
	},
	"C21/random": decoder[c21Case]{
		from: func(b []byte) c21Case {
			a, c, _ := bytes.Cut(b, []byte{0})
			return c21Case{A: S(a), B: S(c)}
		},
		seeds: func() (out [][]byte) {
			for i := 0; i < 60; i++ {
				c := rapid.Custom(genC21).Example(i)
				out = append(out, []byte(string(c.A)+"\x00"+string(c.B)))
			}
			return out
		},
	},
}

func hookFuzz[C any](x *Ctx, name string, gen func(*rapid.T) C, check func(*K, C) error) {
	if x.fuzz.name != name {
		return
	}
	run := func(c C) error {
		err := runCase(x, name, c, check, nil)
		if err != nil {
			x.fuzz.report(&violation{Property: x.prop.ID, Sub: name, Error: err.Error(), Case: mustJSON(c), Cgo: cgoEnabled, Minimal: true})
		}
		return err
	}
	x.fuzz.gen = func(t *rapid.T) {
		if run(gen(t)) != nil {
			t.Fatalf("violated")
		}
	}
	if d, ok := fuzzDecoders[x.prop.ID+"/"+name].(decoder[C]); ok {
		x.fuzz.raw, x.fuzz.seeds = func(b []byte) error { return run(d.from(b)) }, d.seeds
	}
}
