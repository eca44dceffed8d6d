package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- options

var (
	optProp    = flag.String("prop", "", "property id")
	optTier    = flag.String("tier", "quick", "quick or thorough")
	optSeed    = flag.Uint64("seed", 1, "seed")
	optShard   = flag.Int("shard", 0, "shard number")
	optShards  = flag.Int("shards", 1, "number of shards")
	optOut     = flag.String("out", "", "result file")
	optScratch = flag.String("scratch", "", "scratch directory")
	optReplay  = flag.String("replay", "", "replay file")
	optOnly    = flag.String("only", "", "run only this sub-check")
	optScale   = flag.Float64("scale", 1, "scale case counts")
	optList    = flag.Bool("list", false, "list properties")
	optCase    = flag.String("casefile", "", "write every case here before running it")
	optRootDir = flag.String("rootdir", "", "directory prepared by root")
	optChild   = flag.Bool("child", false, "carry out operations for another process")
	optVerbose = flag.Bool("v", false, "verbose")
)

// Property is one listed property with its generated checks.
type Property struct {
	ID   string
	Rule string
	Run  func(x *Ctx)
}

var registry = map[string]*Property{}

func register(id, rule string, run func(x *Ctx)) {
	registry[id] = &Property{ID: id, Rule: rule, Run: run}
}

// ---------------------------------------------------------------- results

type subStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	WallS       float64        `json:"wall_s"`
}

type violation struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Cgo      bool            `json:"cgo"`
	Seed     uint64          `json:"seed"`
	Shard    int             `json:"shard"`
	Minimal  bool            `json:"shrunk"`
}

type result struct {
	Property   string                     `json:"property"`
	Shard      int                        `json:"shard"`
	Cgo        bool                       `json:"cgo"`
	Subs       map[string]*subStats       `json:"subs"`
	Hashes     []string                   `json:"hashes"` // hashes of distinct non-trivial cases
	Samples    map[string]json.RawMessage `json:"samples"`
	Violations []*violation               `json:"violations"`
	Rule       string                     `json:"rule"`
	Done       bool                       `json:"done"`
	HarnessErr string                     `json:"harness_error,omitempty"`
}

// Ctx is the context of one shard of one property.
type Ctx struct {
	prop   *Property
	res    *result
	hashes map[uint64]struct{}
	replay *violation
	found  bool
	fuzz   *fuzzing
}

// K is handed to every case.
type K struct {
	x          *Ctx
	sub        string
	labels     []string
	nontrivial bool
	dir        string
	closers    []io.Closer
}

// Label classifies a case.
func (k *K) Label(l string) { k.labels = append(k.labels, l) }

// LabelIf classifies a case if the condition holds.
func (k *K) LabelIf(c bool, l string) {
	if c {
		k.labels = append(k.labels, l)
	}
}

// Count adds to a count of what happened within cases.
func (k *K) Count(label string, n int) {
	if st := k.x.res.Subs[k.sub]; st != nil { // not when replaying
		st.Labels[label] += n
	}
}

// NT marks the case as non-trivial.
func (k *K) NT() { k.nontrivial = true }

// NTIf marks the case as non-trivial if the condition holds.
func (k *K) NTIf(c bool) {
	if c {
		k.nontrivial = true
	}
}

var dirSeq int

// Dir returns a fresh scratch directory for this case; it is removed afterwards.
func (k *K) Dir() string {
	if k.dir == "" {
		dirSeq++
		k.dir = filepath.Join(*optScratch, fmt.Sprintf("s%d-%d", *optShard, dirSeq))
		if err := os.Mkdir(k.dir, 0755); err != nil {
			harnessFail("mkdir scratch: %v", err)
		}
	}
	return k.dir
}

func (k *K) cleanup() {
	for _, c := range k.closers {
		_ = c.Close()
	}
	k.closers = nil
	if k.dir == "" {
		return
	}
	if !strings.HasPrefix(k.dir, *optScratch+"/") {
		harnessFail("refusing to remove %q", k.dir)
	}
	// make removable whatever the permissions
	if err := os.RemoveAll(k.dir); err != nil {
		_ = filepath.WalkDir(k.dir, func(p string, d os.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				_ = os.Chmod(p, 0700)
			}
			return nil
		})
		if err := os.RemoveAll(k.dir); err != nil {
			harnessFail("cannot remove scratch: %v", err)
		}
	}
}

// harnessFail aborts the run as an error of the check, not as a violation.
func harnessFail(f string, a ...any) {
	panic(harnessError(fmt.Sprintf(f, a...)))
}

type harnessError string

// ---------------------------------------------------------------- rapid driver

type tbStub struct {
	name   string
	failed bool
	log    bytes.Buffer
}

type tbFail struct{}

func (t *tbStub) Helper()      {}
func (t *tbStub) Name() string { return t.name }
func (t *tbStub) Logf(f string, a ...any) {
	if *optVerbose {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, f+"\n", a...)
	}
}
func (t *tbStub) Log(a ...any)              { t.Logf("%s", fmt.Sprintln(a...)) }
func (t *tbStub) Skipf(f string, a ...any)  { t.Logf(f, a...) }
func (t *tbStub) Skip(a ...any)             {}
func (t *tbStub) SkipNow()                  {}
func (t *tbStub) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tbStub) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tbStub) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tbStub) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tbStub) FailNow()                  { t.failed = true; panic(tbFail{}) }
func (t *tbStub) Fail()                     { t.failed = true }
func (t *tbStub) Failed() bool              { return t.failed }

type subOpts struct {
	quick, thorough int // total number of cases, over all shards
	maxShards       int // run in at most this many shards (0: all)
	cgoOnly         bool
	allocHeavy      bool
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// sub runs one generated check: gen draws a case, check decides it.
func sub[C any](x *Ctx, name string, o subOpts, gen func(*rapid.T) C, check func(*K, C) error) {
	if x.replay != nil {
		if x.replay.Sub != name {
			return
		}
		var c C
		if err := json.Unmarshal(x.replay.Case, &c); err != nil {
			harnessFail("bad replay case: %v", err)
		}
		x.found = true
		if err := runCase(x, name, c, check, nil); err != nil {
			x.res.Violations = append(x.res.Violations, &violation{Property: x.prop.ID, Sub: name, Error: err.Error(), Case: x.replay.Case, Cgo: cgoEnabled})
		}
		return
	}
	if x.fuzz != nil {
		hookFuzz(x, name, gen, check)
		return
	}
	if *optOnly != "" && *optOnly != name {
		return
	}
	if len(x.res.Violations) > 0 {
		return
	}
	shards := *optShards
	if o.maxShards > 0 && shards > o.maxShards {
		shards = o.maxShards
	}
	if *optShard >= shards || (o.cgoOnly && !cgoEnabled) {
		return
	}
	n := o.quick
	if *optTier == "thorough" {
		n = o.thorough
	}
	n = int(float64(n) * *optScale)
	n = (n + shards - 1) / shards
	if n < 1 {
		n = 1
	}
	seed := hash64(x.prop.ID, name, strconv.FormatUint(*optSeed, 10), strconv.Itoa(*optShard))
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	must(flag.Set("rapid.nofailfile", "true"))
	st := &subStats{Labels: map[string]int{}}
	x.res.Subs[name] = st
	start := time.Now()
	tb := &tbStub{name: x.prop.ID + "/" + name}
	var last *violation
	var nsample int
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbFail); ok {
					return
				}
				panic(r)
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			c := gen(t)
			var k *K
			err := runCase(x, name, c, check, func(kk *K) { k = kk })
			if last == nil {
				st.Evaluations++
				for _, l := range k.labels {
					st.Labels[l]++
				}
				if k.nontrivial {
					st.Nontrivial++
					js := mustJSON(c)
					h := hash64(name, string(js))
					if _, dup := x.hashes[h]; !dup {
						x.hashes[h] = struct{}{}
						if nsample < 1 || (nsample < 2 && st.Evaluations > n/2) {
							nsample++
							x.res.Samples[fmt.Sprintf("%s#%d", name, nsample)] = js
						}
					}
				}
			}
			if err != nil {
				last = &violation{Property: x.prop.ID, Sub: name, Error: err.Error(), Case: mustJSON(c), Cgo: cgoEnabled, Seed: *optSeed, Shard: *optShard, Minimal: true}
				t.Fatalf("violated") // a constant message, or rapid takes the failure for flaky
			}
		})
	}()
	st.WallS = time.Since(start).Seconds()
	if last != nil {
		x.res.Violations = append(x.res.Violations, last)
	} else if tb.failed {
		harnessFail("rapid failed without a failing case: %s", tb.log.String())
	}
}

// inProgress is what the watchdog looks at.
type inProgress struct {
	sub   string
	start time.Time
	cpu   time.Duration
	js    func() []byte
}

var current atomic.Pointer[inProgress]

// stillAlive tells the watchdog that the case gets on, though not in this process.
func stillAlive() {
	if p := current.Load(); p != nil {
		q := *p
		q.start, q.cpu = time.Now(), cpuTime()
		current.Store(&q)
	}
}

func runCase[C any](x *Ctx, name string, c C, check func(*K, C) error, reg func(*K)) (err error) {
	k := &K{x: x, sub: name}
	if reg != nil {
		reg(k)
	}
	current.Store(&inProgress{sub: name, start: time.Now(), cpu: cpuTime(), js: func() []byte { return mustJSON(c) }})
	defer current.Store(nil)
	if *optCase != "" {
		must(os.WriteFile(*optCase, mustJSON(&violation{Property: x.prop.ID, Sub: name, Case: mustJSON(c), Cgo: cgoEnabled, Seed: *optSeed, Shard: *optShard}), 0644))
	}
	defer k.cleanup()
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return check(k, c)
}

func trimStack(s []byte) string {
	lines := strings.Split(string(s), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "go-rpmutils") || strings.Contains(l, "/repo/") || i < 6 {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog turns a case that does not come back into a result. A case normally
// takes milliseconds; three verdicts are possible:
//   - the process burnt 40 s of CPU time in this case: it does not terminate;
//   - the heap has grown past 3 GiB: memory use is out of all proportion;
//   - the case has been blocked for 60 watchdog ticks that were all on time
//     (so the machine was not starving us) with next to no CPU used: deadlock.
//
// Anything else that is slow is left to the caller's time limit (an error exit).
func watchdog(x *Ctx, finish func()) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var seen *inProgress
	onTime := 0
	lastTick := time.Now()
	tick := 0
	for {
		time.Sleep(100 * time.Millisecond)
		cur := current.Load()
		now := time.Now()
		late := now.Sub(lastTick) > 400*time.Millisecond
		lastTick = now
		if cur == nil || cur != seen {
			seen, onTime, tick = cur, 0, 0
			continue
		}
		tick++
		if !late {
			onTime++
		}
		metrics.Read(sample)
		heap := sample[0].Value.Uint64()
		cpu := cpuTime() - cur.cpu
		wall := now.Sub(cur.start)
		var why string
		switch {
		case cpu > 40*time.Second && wall > 20*time.Second:
			why = fmt.Sprintf("no result after %v of CPU time", cpu.Round(time.Second))
		case heap > 3<<30:
			why = fmt.Sprintf("heap grew to %d MiB", heap>>20)
		case onTime >= 600 && onTime*100 >= tick*95 && cpu < wall/4:
			why = fmt.Sprintf("blocked for %v while the machine was responsive", wall.Round(time.Second))
		}
		if why == "" {
			continue
		}
		js := x.replayJSON(cur)
		x.res.Violations = append(x.res.Violations, &violation{Property: x.prop.ID, Sub: cur.sub, Error: why, Case: js, Cgo: cgoEnabled, Seed: *optSeed, Shard: *optShard})
		finish()
		os.Exit(1)
	}
}

func (x *Ctx) replayJSON(p *inProgress) json.RawMessage { return p.js() }

func must(err error) {
	if err != nil {
		harnessFail("%v", err)
	}
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		harnessFail("json: %v", err)
	}
	return b
}

var finishOnce sync.Mutex

func main() {
	testing.Init()
	flag.Parse()
	_ = flag.Set("rapid.shrinktime", "8s")
	if *optList {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, registry[id].Rule)
		}
		return
	}
	syscall.Umask(022)
	if *optChild {
		faultChild()
		return
	}
	p := registry[*optProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *optProp)
		os.Exit(2)
	}
	if *optScratch == "" {
		d, err := os.MkdirTemp("", "verif-scratch-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer os.Remove(d)
		*optScratch = d
	}
	x := &Ctx{prop: p, hashes: map[uint64]struct{}{}, res: &result{Property: p.ID, Shard: *optShard, Cgo: cgoEnabled, Rule: p.Rule,
		Subs: map[string]*subStats{}, Samples: map[string]json.RawMessage{}}}
	if *optReplay != "" {
		b, err := os.ReadFile(*optReplay)
		if err == nil {
			x.replay = &violation{}
			err = json.Unmarshal(b, x.replay)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	finish := func() {
		finishOnce.Lock()
		for h := range x.hashes {
			x.res.Hashes = append(x.res.Hashes, strconv.FormatUint(h, 36))
		}
		b, err := json.Marshal(x.res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if *optOut != "" {
			if err := os.WriteFile(*optOut, b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
		if *optOut == "" || *optVerbose {
			for n, s := range x.res.Subs {
				fmt.Fprintf(os.Stderr, "%-28s evals=%d nontrivial=%d wall=%.1fs\n", n, s.Evaluations, s.Nontrivial, s.WallS)
				var ls []string
				for l, c := range s.Labels {
					ls = append(ls, fmt.Sprintf("    %-34s %5.1f%%", l, 100*float64(c)/float64(max(1, s.Evaluations))))
				}
				sort.Strings(ls)
				fmt.Fprintln(os.Stderr, strings.Join(ls, "\n"))
			}
			for _, v := range x.res.Violations {
				fmt.Fprintf(os.Stderr, "VIOLATION %s/%s: %s\ncase: %.3000s\n", v.Property, v.Sub, v.Error, v.Case)
			}
		}
	}
	go watchdog(x, finish)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if he, ok := r.(harnessError); ok {
					x.res.HarnessErr = string(he)
					return
				}
				x.res.HarnessErr = fmt.Sprintf("panic in harness: %v\n%s", r, debug.Stack())
			}
		}()
		p.Run(x)
		if x.replay != nil && !x.found {
			harnessFail("no sub-check %q", x.replay.Sub)
		}
		x.res.Done = true
	}()
	finish()
	switch {
	case x.res.HarnessErr != "":
		fmt.Fprintln(os.Stderr, "HARNESS ERROR:", x.res.HarnessErr)
		os.Exit(2)
	case len(x.res.Violations) > 0:
		os.Exit(1)
	}
}

// allocDuring reports how many bytes f allocated.
func allocDuring(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// guard runs f and turns a panic into an error.
func guard(what string, f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(harnessError); ok {
				panic(he)
			}
			err = fmt.Errorf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
	return nil
}

func guardErr(what string, f func() error) (err error) {
	if e := guard(what, func() { err = f() }); e != nil {
		return e
	}
	return err
}

func errf(f string, a ...any) error { return fmt.Errorf(f, a...) }

var errInjected = errors.New("injected I/O error")

// each runs a check on every one of a fixed list of cases, spread over the shards.
func each[C any](x *Ctx, name string, o subOpts, cases []C, check func(*K, C) error) {
	if x.fuzz != nil {
		return
	}
	if x.replay != nil {
		sub(x, name, o, nil, check)
		return
	}
	if *optOnly != "" && *optOnly != name {
		return
	}
	if len(x.res.Violations) > 0 || (o.cgoOnly && !cgoEnabled) {
		return
	}
	st := &subStats{Labels: map[string]int{}}
	x.res.Subs[name] = st
	start := time.Now()
	nsample := 0
	for i, c := range cases {
		if i%*optShards != *optShard {
			continue
		}
		var k *K
		err := runCase(x, name, c, check, func(kk *K) { k = kk })
		st.Evaluations++
		for _, l := range k.labels {
			st.Labels[l]++
		}
		js := mustJSON(c)
		if k.nontrivial {
			st.Nontrivial++
			x.hashes[hash64(name, string(js))] = struct{}{}
			if nsample < 1 {
				nsample++
				x.res.Samples[fmt.Sprintf("%s#%d", name, nsample)] = js
			}
		}
		if err != nil {
			x.res.Violations = append(x.res.Violations, &violation{Property: x.prop.ID, Sub: name, Error: err.Error(), Case: js, Cgo: cgoEnabled, Seed: *optSeed, Shard: *optShard})
			break
		}
	}
	st.WallS = time.Since(start).Seconds()
}
