package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
)

// FuzzSub hands one generated sub-check over to Go's coverage-guided fuzzer: its
// bytes are what the sub-check's generator draws from or, where fuzzDecoders has
// an entry, the input itself. The library is instrumented, and inputs that reach
// something new are kept and mutated further. VERIF_FUZZ names the sub-check
// (C17/raw), VERIF_FUZZ_OUT the directory failing cases are written to.
func FuzzSub(f *testing.F) {
	name, out := os.Getenv("VERIF_FUZZ"), os.Getenv("VERIF_FUZZ_OUT")
	if name == "" {
		f.Skip("no VERIF_FUZZ")
	}
	syscall.Umask(022)
	prop, subName, _ := strings.Cut(name, "/")
	p := registry[prop]
	if p == nil {
		f.Fatalf("unknown property %q", prop)
	}
	dir, err := os.MkdirTemp(out, "scratch-")
	if err != nil {
		f.Fatal(err)
	}
	*optScratch = dir
	if os.Getenv("VERIF_FUZZ_CASE") != "" {
		*optCase = os.Getenv("VERIF_FUZZ_CASE")
	}
	x := &Ctx{prop: p, hashes: map[uint64]struct{}{}, fuzz: &fuzzing{name: subName}, res: &result{Property: prop, Cgo: cgoEnabled, Subs: map[string]*subStats{}, Samples: map[string]json.RawMessage{}}}
	p.Run(x)
	if x.fuzz.gen == nil {
		f.Fatalf("no sub-check %q", name)
	}
	smallest := -1
	x.fuzz.report = func(v *violation) {
		if smallest < 0 || len(v.Case) < smallest {
			smallest = len(v.Case)
			must(os.WriteFile(filepath.Join(out, fmt.Sprintf("violation-%d.json", os.Getpid())), mustJSON(v), 0644))
		}
	}
	go watchdog(x, func() {
		for _, v := range x.res.Violations {
			x.fuzz.report(v)
		}
	})
	if x.fuzz.raw != nil {
		for _, s := range x.fuzz.seeds() {
			f.Add(s)
		}
		f.Fuzz(func(t *testing.T, b []byte) {
			if err := x.fuzz.raw(b); err != nil {
				t.Fatal(err)
			}
		})
		return
	}
	r := rand.New(rand.NewSource(int64(hash64(name))))
	for i := 0; i < 48; i++ {
		b := make([]byte, 512<<(i%6))
		r.Read(b)
		if i%3 == 0 {
			// small numbers: short, simple cases
			for j := range b {
				if j%8 > 0 {
					b[j] = 0
				}
			}
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(x.fuzz.gen))
}
