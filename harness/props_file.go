package main

import (
	"bytes"
	"crypto"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// fileOp signs infile into out through one of the two interfaces. Both leave a
// package signed by key; the signatures for the second come from makeSig.
func fileOp(in *os.File, data []byte, out string, op SignOp, raw bool) error {
	return fileOpFunc(in, data, out, op, raw)()
}

// fileOpFunc does everything that comes before the call.
func fileOpFunc(in *os.File, data []byte, out string, op SignOp, raw bool) func() error {
	key, opts := testKeys()[op.Key].Priv, op.options()
	if !raw {
		return func() error {
			_, err := rpmutils.SignRpmFile(in, out, key, opts)
			return err
		}
	}
	p, err := parseRPM(data)
	must(err)
	h := crypto.SHA256
	if op.Opts == 2 || op.Opts == 4 {
		h = crypto.Hash(op.Hash)
	}
	at := time.Now().Unix()
	if op.Opts == 3 || op.Opts == 4 {
		at = op.Time
	}
	spec := SigSpec{Key: op.Key, Hash: int(h), Time: uint32(at), KeyID: 2, Fpr: 1}
	pgp, rsa := makeSig(spec, p.GenBytes, p.Payload), makeSig(spec, p.GenBytes)
	return func() error {
		_, err := rpmutils.RewriteWithSignatures(in, out, pgp, rsa)
		return err
	}
}

// ---------------------------------------------------------------- C12

type c12Case struct {
	Pkg   SignPkg `json:"pkg"`
	Op    SignOp  `json:"op"`
	Raw   bool    `json:"raw"`
	Fault string  `json:"fault"`
	Exist int     `json:"exist"` // destination before: 0 absent, 1 some file, 2 the input itself
	Limit int     `json:"limit"`
	End   bool    `json:"end"` // limit counted from the end of the output
}

var c12Faults = []string{"none", "fsize", "fsize", "fsize", "fsize", "fsize", "sticky", "rodir", "nodir", "isdir", "devfull", "pipe", "stdout-full", "in-pipe", "in-closed", "in-wronly", "in-corrupt", "fdlimit", "rofile"}

func genC12(t *rapid.T) c12Case {
	c := c12Case{Pkg: genSignPkg(t, 4, 3000), Op: genSignOp(t), Raw: rapid.Bool().Draw(t, "raw"), Fault: rapid.SampledFrom(c12Faults).Draw(t, "fault"), Exist: rapid.IntRange(0, 2).Draw(t, "exist")}
	// a deterministic signature, so that the length of the output is known
	c.Op.Key, c.Op.Opts = rapid.SampledFrom([]int{0, 1, 6}).Draw(t, "rsakey"), 4
	c.End = rapid.Bool().Draw(t, "end")
	if c.End {
		c.Limit = rapid.IntRange(-3, 40).Draw(t, "limit")
	} else {
		c.Limit = rapid.IntRange(0, 5000).Draw(t, "limit")
	}
	return c
}

// withLimit runs f under a soft resource limit.
func withLimit(res int, n uint64, f func()) {
	var old unix.Rlimit
	must(unix.Getrlimit(res, &old))
	must(unix.Setrlimit(res, &unix.Rlimit{Cur: n, Max: old.Max}))
	defer func() { must(unix.Setrlimit(res, &old)) }()
	f()
}

var warmPoller = func() func() {
	done := false
	return func() {
		if done {
			return
		}
		done = true
		// the runtime sets up its poller with the first pipe; it must not have to
		// do that while descriptors are limited
		r, w, err := os.Pipe()
		must(err)
		_ = r.SetReadDeadline(time.Now())
		_, _ = r.Read(make([]byte, 1))
		r.Close()
		w.Close()
		signal.Ignore(syscall.SIGXFSZ)
	}
}()

func checkC12(k *K, c c12Case) error {
	warmPoller()
	b := c.Pkg.build()
	if c.Fault == "in-corrupt" {
		b.All[len(b.All)-1] ^= 1 // the payload, or the last byte of a header
		if len(b.Payload) == 0 || c.Raw {
			return nil
		}
	}
	orig, err := parseRPM(b.All)
	must(err)
	dir := k.Dir()
	work := dir + "/work"
	must(os.Mkdir(work, 0755))
	inPath := work + "/in.rpm"
	writeFile(inPath, b.All)
	// the length of the result, from an undisturbed run
	want := 0
	if c.Fault == "fsize" {
		ref := dir + "/ref.rpm"
		if err := fileOp(openFileC(k, inPath), b.All, ref, c.Op, c.Raw); err != nil {
			return errf("without any fault: %v", err)
		}
		want = len(readFile(ref))
	}
	out := work + "/out.rpm"
	var prev []byte
	exist := c.Exist
	watch := work
	in := openFileC(k, inPath)
	mustFail := true
	root := os.Geteuid() == 0
	switch c.Fault {
	case "none", "fsize":
		mustFail = false
	case "sticky":
		if *optRootDir == "" || root {
			return nil
		}
		watch = *optRootDir + "/sticky"
		out = fmt.Sprintf("%s/dst%d", watch, 10+*optShard)
		exist = -1
		prev = readFile(out)
	case "rodir":
		if root {
			return nil
		}
		exist = min(exist, 1)
	case "nodir":
		out = work + "/missing/out.rpm"
		exist = 0
	case "isdir":
		exist = -1
		must(os.Mkdir(out, 0755))
		if c.Limit%2 == 0 {
			writeFile(out+"/inside", []byte("x"))
		}
	case "devfull":
		out, exist = "/dev/full", -1
	case "stdout-full":
		out, exist = "-", -1
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer full.Close()
		save := os.Stdout
		os.Stdout = full
		defer func() { os.Stdout = save }()
	case "pipe":
		exist = -1
		must(unix.Mkfifo(out, 0644))
	case "in-pipe":
		r, w, err := os.Pipe()
		must(err)
		defer r.Close()
		go func() {
			_, _ = w.Write(b.All)
			w.Close()
		}()
		in = r
		exist = min(exist, 1)
	case "in-closed":
		in.Close()
		exist = min(exist, 1)
	case "in-wronly":
		in, err = os.OpenFile(inPath, os.O_WRONLY, 0)
		must(err)
		defer in.Close()
		exist = min(exist, 1)
	case "rofile":
		if root {
			return nil
		}
		exist = 2
		must(os.Chmod(inPath, 0444))
		mustFail = false // a file that cannot be written in place may still be replaced
	case "in-corrupt", "fdlimit":
	}
	switch exist {
	case 1:
		prev = []byte("what was here before\n")
		writeFile(out, prev)
	case 2:
		out, prev = inPath, b.All
	}
	if c.Fault == "rodir" {
		must(os.Chmod(work, 0555))
		defer func() { _ = os.Chmod(work, 0755) }()
	}
	before := listDir(watch)
	k.Label(c.Fault)
	k.NTIf(c.Fault != "none")

	start := time.Now()
	limit := c.Limit
	switch c.Fault {
	case "fsize":
		if c.End {
			limit = want - c.Limit
		}
		limit = max(0, limit)
		withLimit(unix.RLIMIT_FSIZE, uint64(limit), func() { err = fileOp(in, b.All, out, c.Op, c.Raw) })
		mustFail = limit < want && exist != 2
		if exist == 2 {
			// onto itself the result may keep the input's size
			want = max(want, len(b.All)+64)
		}
		k.LabelIf(limit < want, "stopped while writing")
	case "fdlimit":
		null, e := os.Open("/dev/null")
		must(e)
		fd := null.Fd()
		null.Close()
		withLimit(unix.RLIMIT_NOFILE, uint64(fd), func() { err = fileOp(in, b.All, out, c.Op, c.Raw) })
		if c.Raw {
			mustFail = true
		}
	case "pipe":
		got := make(chan int, 1)
		fd := openFifo(out)
		opDone := make(chan struct{})
		go func() {
			// read a little, then leave
			defer unix.Close(fd)
			n := 0
			for n < max(1, c.Limit) {
				m, e := unix.Read(fd, make([]byte, min(4096, max(1, c.Limit)-n)))
				if m > 0 {
					n += m
					continue
				}
				select {
				case <-opDone:
					got <- n
					return
				default:
				}
				if e != unix.EINTR {
					time.Sleep(200 * time.Microsecond)
				}
			}
			got <- n
		}()
		// more than a pipe holds, so that writing to a reader that left is noticed
		big := append(b.All[:len(b.All):len(b.All)], make([]byte, 200000)...)
		writeFile(inPath, big)
		in = openFileC(k, inPath)
		_, err = rpmutils.RewriteWithSignatures(in, out, []byte("aaaa"), []byte("bbbb"))
		close(opDone)
		<-got
	default:
		err = fileOp(in, b.All, out, c.Op, c.Raw)
	}
	end := time.Now()
	if c.Fault == "rodir" {
		must(os.Chmod(work, 0755))
	}
	if err == nil && mustFail {
		return errf("%s: reported success", c.Fault)
	}
	// (at exactly the limit, the copy that only finds the end of the input may be refused)
	if err != nil && (c.Fault == "none" || (c.Fault == "fsize" && limit > want)) {
		return errf("%s: %v", c.Fault, err)
	}
	// no leftovers
	after := listDir(watch)
	expect := append([]string(nil), before...)
	if err == nil && exist == 0 {
		expect = append(expect, "out.rpm")
		sort.Strings(expect)
	}
	if c.Fault == "sticky" {
		after, expect = onlyPrefix(after, filepath.Base(out)), onlyPrefix(expect, filepath.Base(out))
	}
	if !sameStrings(after, expect) {
		return errf("%s (error: %v): directory holds %q, want %q", c.Fault, err, after, expect)
	}
	if exist != 2 && c.Fault != "pipe" && !bytes.Equal(readFile(inPath), b.All) {
		return errf("%s: the input file changed", c.Fault)
	}
	if err == nil {
		res := readFile(out)
		if e := checkSigned(res, orig, c.Op, start, end); e != nil {
			return errf("%s: reported success, but %v", c.Fault, e)
		}
		if st, _ := os.Stat(out); exist < 2 && st.Mode().Perm()&0444 != 0444 {
			return errf("the new file has mode %v", st.Mode())
		}
		return nil
	}
	switch exist {
	case 1, -1:
		if prev != nil && !bytes.Equal(readFile(out), prev) {
			return errf("%s: failed (%v), but the destination changed", c.Fault, err)
		}
	case 2:
		// the payload and general header are never at risk
		res := readFile(inPath)
		if bytes.Equal(res, prev) {
			break
		}
		if len(res) != len(prev) || !bytes.Equal(res[b.Start():], prev[b.Start():]) || !fits(b.All, c.Op) {
			return errf("%s: failed (%v), and the file was damaged: %d bytes, was %d", c.Fault, err, len(res), len(prev))
		}
		k.Label("stopped within the in-place update")
	}
	return nil
}

// fits tells whether signing could have updated the signature header in place.
func fits(data []byte, op SignOp) bool {
	hdr, err := rpmutils.SignRpmStream(bytes.NewReader(data), testKeys()[op.Key].Priv, op.options())
	if err != nil {
		// in-corrupt and the like: nothing may change
		return false
	}
	blob, err := hdr.DumpSignatureHeader(true)
	return err == nil && len(blob) == hdr.OriginalSignatureHeaderSize()
}

func onlyPrefix(ss []string, p string) (out []string) {
	for _, s := range ss {
		if strings.HasPrefix(s, p) {
			out = append(out, s)
		}
	}
	return
}

// openFileC opens a file that is closed with the case.
func openFileC(k *K, path string) *os.File {
	f := openFile(path)
	k.closers = append(k.closers, f)
	return f
}

// Every byte position of the output, one package after another.
type c12AllCase struct {
	Pkg   SignPkg `json:"pkg"`
	A     int     `json:"a"`
	Exist bool    `json:"exist"`
}

func genC12All(t *rapid.T) c12AllCase {
	c := c12AllCase{Pkg: genSignPkg(t, 2, 120), A: rapid.IntRange(0, 300).Draw(t, "a"), Exist: rapid.Bool().Draw(t, "exist")}
	c.Pkg.Reserved = -1
	return c
}

func checkC12All(k *K, c c12AllCase) error {
	warmPoller()
	b := c.Pkg.build()
	dir := k.Dir()
	inPath, out := dir+"/in.rpm", dir+"/out.rpm"
	writeFile(inPath, b.All)
	in := openFileC(k, inPath)
	rewrite := func() error {
		_, err := in.Seek(0, 0)
		must(err)
		_, err = rpmutils.RewriteWithSignatures(in, out, bytes.Repeat([]byte("a"), c.A), []byte("bbbb"))
		return err
	}
	if err := rewrite(); err != nil {
		return errf("without a fault: %v", err)
	}
	full := readFile(out)
	k.NT()
	names := []string{"in.rpm"}
	var prev []byte
	if c.Exist {
		prev = []byte("previous contents")
		writeFile(out, prev)
		names = []string{"in.rpm", "out.rpm"}
	} else {
		must(os.Remove(out))
	}
	for n := 0; n < len(full); n++ {
		var err error
		withLimit(unix.RLIMIT_FSIZE, uint64(n), func() { err = rewrite() })
		if err == nil {
			return errf("writing stopped after %d of %d bytes, and success was reported", n, len(full))
		}
		if got := listDir(dir); !sameStrings(got, names) {
			return errf("stopped after %d bytes: directory holds %q, want %q", n, got, names)
		}
		if c.Exist && !bytes.Equal(readFile(out), prev) {
			return errf("stopped after %d bytes: the destination changed", n)
		}
	}
	k.Count("write positions stopped at", len(full))
	return nil
}

// Every file system call of a signing run fails, or is the last thing the
// process did, in turn.
type c12CallCase struct {
	Pkg   SignPkg `json:"pkg"`
	Op    SignOp  `json:"op"`
	Raw   bool    `json:"raw"`
	Dest  int     `json:"dest"`
	Errno int     `json:"errno"` // index into faultErrnos; -1: the process is killed
}

var c12Dests = []string{"absent", "another file", "the input", "hard link of the input", "symlink to the input", "chain of symlinks to the input", "symlink to another file"}

func genC12Call(t *rapid.T) c12CallCase {
	c := c12CallCase{Pkg: genSignPkg(t, 2, 300), Op: genSignOp(t), Raw: rapid.IntRange(0, 2).Draw(t, "raw") == 0, Dest: rapid.IntRange(0, len(c12Dests)-1).Draw(t, "dest")}
	c.Op.Key = rapid.SampledFrom([]int{0, 1, 6}).Draw(t, "rsakey")
	c.Errno = rapid.IntRange(-1, len(faultErrnos)-1).Draw(t, "errno")
	return c
}

func checkC12Call(k *K, c c12CallCase) error {
	if !faultsAvailable() {
		k.Label("system calls cannot be intercepted here")
		return nil
	}
	b := c.Pkg.build()
	orig, err := parseRPM(b.All)
	must(err)
	inFits := fits(b.All, c.Op)
	base := k.Dir()
	work := base + "/work"
	inPath, out := work+"/in.rpm", work+"/out.rpm"
	var names []string
	prev := b.All
	reset := func() {
		must(os.RemoveAll(work))
		must(os.Mkdir(work, 0755))
		writeFile(inPath, b.All)
		switch c.Dest {
		case 1:
			prev = []byte("what was here before\n")
			writeFile(out, prev)
		case 2:
			out = inPath
		case 3:
			must(os.Link(inPath, out))
		case 4:
			must(os.Symlink("in.rpm", out))
		case 5:
			must(os.Symlink("in.rpm", work+"/mid"))
			must(os.Symlink(work+"/mid", out))
		case 6:
			prev = []byte("what was here before\n")
			writeFile(work+"/other.rpm", prev)
			must(os.Symlink("other.rpm", out))
		}
		names = listDir(work)
	}
	op := "sign"
	if c.Raw {
		op = "raw"
	}
	calls := 0
	k.Label(c12Dests[c.Dest])
	k.Label(map[bool]string{true: "killed", false: "failing call"}[c.Errno < 0])
	k.NT()
	for n := 0; n == 0 || n <= calls; n++ {
		reset()
		plan := faultPlan{At: n}
		what := "no fault"
		if c.Errno < 0 {
			plan.Kill = true
		} else {
			plan.Errno = faultErrnos[c.Errno]
		}
		start := time.Now()
		run := runFault(FaultCmd{Op: op, In: inPath, Out: out, Sign: c.Op}, plan)
		end := time.Now()
		if n == 0 {
			calls = run.Calls
			if run.Err != nil {
				return errf("onto %s without a fault: %v", c12Dests[c.Dest], run.Err)
			}
		} else if run.Hit == "" {
			break // this run made fewer calls than the first
		} else {
			what = fmt.Sprintf("call %d of %d, %s, %v", n, calls, run.Hit, plan.Errno)
			if plan.Kill {
				what = fmt.Sprintf("killed before call %d of %d, %s", n, calls, run.Hit)
			}
			k.Count("calls failed or killed at", 1)
		}
		what = fmt.Sprintf("onto %s: %s", c12Dests[c.Dest], what)
		if run.Err != nil && strings.HasPrefix(run.Err.Error(), "panic: ") {
			return errf("%s: %v", what, run.Err)
		}
		res, rerr := os.ReadFile(out)
		touched := !(os.IsNotExist(rerr) && c.Dest == 0) && (rerr != nil || !bytes.Equal(res, prev))
		inPlace := false
		if c.Dest == 6 {
			inPlace = true // written through the link: see checkC12Through
		} else if c.Dest >= 2 && rerr == nil && inFits && len(res) == len(prev) {
			// an update in place puts the signature header alone at risk
			inPlace = bytes.Equal(res[b.Start():], prev[b.Start():])
		}
		switch {
		case run.Killed:
			if touched && !inPlace {
				if e := checkSigned(res, orig, c.Op, start, end); e != nil || rerr != nil {
					return errf("%s: the destination is neither what it was nor the signed package: %v %v", what, rerr, e)
				}
			}
		case run.Err == nil:
			if rerr != nil {
				return errf("%s: success was reported, but %v", what, rerr)
			}
			if e := checkSigned(res, orig, c.Op, start, end); e != nil {
				return errf("%s: success was reported, but %v", what, e)
			}
			if run.Lost {
				return errf("%s: success was reported", what)
			}
			if st, e := os.Lstat(out); c.Dest >= 4 && (e != nil || st.Mode().Type() != os.ModeSymlink) {
				return errf("%s: success was reported, but the link is no longer one", what)
			}
		default:
			if touched && !inPlace {
				return errf("%s: failed (%v), but the destination changed", what, run.Err)
			}
		}
		if c.Dest < 2 || c.Dest == 3 || c.Dest == 6 {
			if in := readFile(inPath); !bytes.Equal(in, b.All) {
				return errf("%s: the input file changed", what)
			}
		}
		if run.Killed {
			continue // what was to be cleaned up stays
		}
		want := append([]string(nil), names...)
		if run.Err == nil && c.Dest == 0 {
			want = append(want, "out.rpm")
			sort.Strings(want)
		}
		if got := listDir(work); !sameStrings(got, want) && !strings.HasPrefix(run.Hit, "unlink") {
			return errf("%s (error: %v): directory holds %q, want %q", what, run.Err, got, want)
		}
	}
	return nil
}

// A destination that is a symbolic link to another file is truncated and written
// through the link, so that a failure damages it: a known finding, kept here as one
// case. Everything else about such destinations is checked by the other sub-checks.
type c12ThroughCase struct {
	Dest string `json:"dest"`
}

func genC12Through(*rapid.T) c12ThroughCase {
	return c12ThroughCase{Dest: "symlink to another file"}
}

func checkC12Through(k *K, c c12ThroughCase) error {
	warmPoller()
	k.NT()
	p := Pkg{Dig: Digests{SHA256: true, MD5: true, PayAlgo: 8}, Payload: Blob{Kind: "rand", N: 3000, Seed: 1}}
	p.Gen.Tags = identityTags()
	b := p.Build()
	dir := k.Dir()
	in, out, other := dir+"/in.rpm", dir+"/out.rpm", dir+"/other.rpm"
	prev := []byte("what was here before\n")
	writeFile(in, b.All)
	writeFile(other, prev)
	must(os.Symlink("other.rpm", out))
	infile := openFileC(k, in)
	run := fileOpFunc(infile, b.All, out, SignOp{}, false)
	var err error
	withLimit(unix.RLIMIT_FSIZE, 1000, func() { err = run() })
	if err == nil {
		return errf("writing was stopped at byte 1000, but success was reported")
	}
	if got := readFile(other); !bytes.Equal(got, prev) {
		return errf("signing onto a symbolic link to another file failed (%v), but that file changed: it has %d bytes, %d before", err, len(got), len(prev))
	}
	return nil
}

// ---------------------------------------------------------------- C13

// FNode is one name in the directory a history works on.
type FNode struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"` // file, hard, sym, fifo, dir
	Target string `json:"target,omitempty"`
	Abs    bool   `json:"abs,omitempty"` // absolute symbolic link
	Pkg    int    `json:"pkg,omitempty"`
}

type FStep struct {
	In      string `json:"in"`
	Out     string `json:"out"` // a name, or "-"
	Spell   int    `json:"spell"`
	InSpell int    `json:"inspell,omitempty"`
	Unlink  bool   `json:"unlink,omitempty"` // remove the input's name once it is open
	Raw     bool   `json:"raw,omitempty"`
	Late    bool   `json:"late,omitempty"` // the reader of a FIFO turns up late
	Op      SignOp `json:"op"`
}

type c13Case struct {
	Pkgs  []SignPkg `json:"pkgs"`
	Nodes []FNode   `json:"nodes"`
	Steps []FStep   `json:"steps"`
	Tmp   bool      `json:"tmp,omitempty"` // TMPDIR lies in another file system
}

func genC13(t *rapid.T) c13Case {
	var c c13Case
	np := rapid.IntRange(1, 2).Draw(t, "npkgs")
	for i := 0; i < np; i++ {
		c.Pkgs = append(c.Pkgs, genSignPkg(t, 3, 200))
	}
	c.Nodes = []FNode{{Name: "sub", Kind: "dir"}}
	files := []string{}
	nf := rapid.IntRange(1, 3).Draw(t, "nfiles")
	place := func(base string) string {
		if rapid.IntRange(0, 3).Draw(t, "insub") == 0 {
			return "sub/" + base
		}
		return base
	}
	for i := 0; i < nf; i++ {
		n := place(fmt.Sprintf("p%d.rpm", i))
		c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "file", Pkg: rapid.IntRange(0, np-1).Draw(t, "pkg")})
		files = append(files, n)
	}
	if rapid.Bool().Draw(t, "dirlink") {
		c.Nodes = append(c.Nodes, FNode{Name: "dl", Kind: "sym", Target: "sub"})
	}
	if rapid.Bool().Draw(t, "deeplink") {
		// the parent of what it leads to is not where it lies
		c.Nodes = append(c.Nodes, FNode{Name: "sub/deep", Kind: "dir"}, FNode{Name: "dd", Kind: "sym", Target: "sub/deep"})
	}
	all := append([]string(nil), files...)
	if rapid.IntRange(0, 2).Draw(t, "others") == 0 {
		// what is there already need not be a package
		n := place("e.rpm")
		c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "data", Target: rapid.SampledFrom([]string{"", "", "x", "not a package"}).Draw(t, "content")})
		all = append(all, n)
	}
	nx := rapid.IntRange(0, 4).Draw(t, "nextra")
	for i := 0; i < nx; i++ {
		switch rapid.IntRange(0, 7).Draw(t, "extra") {
		case 0, 1, 2:
			n := place(fmt.Sprintf("h%d.rpm", i))
			c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "hard", Target: rapid.SampledFrom(files).Draw(t, "target")})
			all = append(all, n)
			files = append(files, n)
		case 3, 4, 5:
			n := place(fmt.Sprintf("s%d.rpm", i))
			c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "sym", Target: rapid.SampledFrom(all).Draw(t, "target"), Abs: rapid.Bool().Draw(t, "abs")})
			all = append(all, n)
		case 6:
			n := place(fmt.Sprintf("d%d.rpm", i))
			c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "sym", Target: fmt.Sprintf("sub/new%d.rpm", i), Abs: rapid.Bool().Draw(t, "abs")})
			all = append(all, n)
		default:
			n := fmt.Sprintf("fifo%d", i)
			c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "fifo"})
			all = append(all, n)
		}
	}
	// files that must not be mistaken for anything of the library's own
	for i := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "nbystanders"); i > 0; i-- {
		base := rapid.SampledFrom(append([]string{"fresh.rpm", "sub/fresh.rpm", "odd*name.rpm"}, files...)).Draw(t, "besides")
		dir, file := filepath.Split(base)
		n := dir + fmt.Sprintf(rapid.SampledFrom([]string{"%s.tmp", "%s~", "%s.new", "%s.bak", ".%s", ".%s.tmp", "%s.part", "%s0", "tmp-%s", "%s.orig", "%s.sign", "%[1]s.1", "%s.lock", ".#%s", "%s.temp", "%[1]s-tmp", "tmp", "%[1]s_"}).Draw(t, "byname"), file)
		n = strings.ReplaceAll(n, "%!(EXTRA string="+file+")", "")
		fresh := true
		for _, x := range c.Nodes {
			fresh = fresh && x.Name != n
		}
		if fresh {
			c.Nodes = append(c.Nodes, FNode{Name: n, Kind: "file", Pkg: 0})
		}
	}
	c.Tmp = rapid.IntRange(0, 2).Draw(t, "tmp") == 0
	outs := append([]string{"-", "fresh.rpm", "sub/fresh.rpm", "odd*name.rpm", "sub/-"}, all...)
	for _, n := range files {
		// the same base name elsewhere
		if strings.HasPrefix(n, "sub/") {
			outs = append(outs, n[4:])
		} else {
			outs = append(outs, "sub/"+n)
		}
	}
	ns := rapid.IntRange(1, 4).Draw(t, "nsteps")
	for i := 0; i < ns; i++ {
		s := FStep{In: rapid.SampledFrom(all).Draw(t, "in"), Spell: rapid.IntRange(0, 7).Draw(t, "spell"), Raw: rapid.IntRange(0, 2).Draw(t, "raw") == 0, Op: genSignOp(t)}
		if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
			s.Out = s.In
		} else {
			s.Out = rapid.SampledFrom(outs).Draw(t, "out")
		}
		s.InSpell = rapid.IntRange(0, 2).Draw(t, "inspell")
		s.Unlink = rapid.IntRange(0, 9).Draw(t, "unlink") == 0
		s.Late = rapid.IntRange(0, 2).Draw(t, "late") == 0
		c.Steps = append(c.Steps, s)
	}
	return c
}

// the model: names to nodes, nodes to contents
type mNode struct {
	kind   string
	data   []byte
	target string // for sym: name it points to
}

type mFS map[string]*mNode

// resolve follows symbolic links; ok is false for a dangling or looping name.
func (m mFS) resolve(name string) (string, *mNode) {
	for i := 0; i < 20; i++ {
		n := m[name]
		if n == nil || n.kind != "sym" {
			return name, n
		}
		name = n.target
	}
	return "", nil
}

func (m mFS) links(n *mNode) int {
	c := 0
	for _, x := range m {
		if x == n {
			c++
		}
	}
	return c
}

// openFifo opens the reading end without waiting for a writer.
func openFifo(path string) int {
	fd, err := unix.Open(path, unix.O_RDONLY|unix.O_NONBLOCK|unix.O_CLOEXEC, 0)
	must(err)
	return fd
}

// drainFifo reads until the writer is done and nothing is left.
func drainFifo(fd int, done <-chan struct{}) []byte {
	defer unix.Close(fd)
	var out []byte
	buf := make([]byte, 65536)
	for {
		last := false
		select {
		case <-done:
			last = true
		default:
		}
		n, err := unix.Read(fd, buf)
		if n > 0 {
			out = append(out, buf[:n]...)
			continue
		}
		if err == unix.EINTR {
			continue
		}
		if last {
			return out
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// otherFS makes a directory in another file system than dir's.
func otherFS(dir string) string {
	var a, b unix.Stat_t
	if unix.Stat(dir, &a) != nil || unix.Stat("/dev/shm", &b) != nil || a.Dev == b.Dev {
		return ""
	}
	tmp, err := os.MkdirTemp("/dev/shm", "verif-")
	if err != nil {
		return ""
	}
	return tmp
}

func checkC13(k *K, c c13Case) error {
	warmPoller()
	dir := k.Dir()
	m := mFS{}
	for _, n := range c.Nodes {
		p := dir + "/" + n.Name
		switch n.Kind {
		case "dir":
			must(os.Mkdir(p, 0755))
			m[n.Name] = &mNode{kind: "dir"}
		case "file":
			data := c.Pkgs[n.Pkg].build().All
			writeFile(p, data)
			m[n.Name] = &mNode{kind: "file", data: data}
		case "data":
			writeFile(p, []byte(n.Target))
			m[n.Name] = &mNode{kind: "file", data: []byte(n.Target)}
		case "hard":
			must(os.Link(dir+"/"+n.Target, p))
			m[n.Name] = m[n.Target]
		case "sym":
			t := dir + "/" + n.Target
			if !n.Abs {
				r, err := filepath.Rel(filepath.Dir(p), t)
				must(err)
				t = r
			}
			must(os.Symlink(t, p))
			m[n.Name] = &mNode{kind: "sym", target: n.Target}
		case "fifo":
			must(unix.Mkfifo(p, 0644))
			m[n.Name] = &mNode{kind: "fifo"}
		}
	}
	wd, err := os.Getwd()
	must(err)
	must(os.Chdir(dir))
	defer func() { must(os.Chdir(wd)) }()
	if c.Tmp {
		if tmp := otherFS(dir); tmp != "" {
			save := os.Getenv("TMPDIR")
			must(os.Setenv("TMPDIR", tmp))
			defer func() {
				must(os.Setenv("TMPDIR", save))
				_ = os.RemoveAll(tmp)
			}()
			k.Label("TMPDIR in another file system")
		}
	}
	ran := 0
	for i, s := range c.Steps {
		inName, inNode := m.resolve(s.In)
		if inNode == nil || inNode.kind != "file" {
			continue
		}
		data := inNode.data
		if len(data) < 96 {
			continue
		}
		orig, err := parseRPM(data)
		must(err)
		in := openFileC(k, []string{dir + "/" + s.In, s.In, "./sub/../" + s.In}[s.InSpell%3])
		if s.Unlink {
			must(os.Remove(dir + "/" + inName))
			delete(m, inName)
		}
		// what should come of it
		outName, outNode := m.resolve(s.Out)
		var stdout, fifo bool
		var rel string
		switch {
		case s.Out == "-":
			stdout, rel = true, "standard output"
		case outName == "":
			continue
		case outNode == nil:
			rel = "new file"
			if outName != s.Out {
				rel = "dangling symlink"
			}
		case outNode.kind == "fifo":
			fifo, rel = true, "fifo"
		case outNode.kind != "file":
			continue
		case outNode == inNode:
			rel = "same name"
			if m.links(outNode) > 1 {
				rel = "hard link of the input"
			}
			if outName != s.Out {
				rel = "symlink to the input"
			}
		default:
			rel = "another file"
			if outName != s.Out {
				rel = "symlink to another file"
			}
		}
		out := s.Out
		if !stdout {
			_, hasDL := m["dl"]
			_, hasDD := m["dd"]
			switch {
			case s.Spell == 1:
				out = dir + "/" + out
			case s.Spell == 2:
				out = "./" + out
			case s.Spell == 3:
				out = "sub/../" + out
			case s.Spell == 4 && hasDL && strings.HasPrefix(out, "sub/"):
				out = "dl/" + out[4:]
			case s.Spell == 5:
				out = dir + "/sub/.././" + out
			case s.Spell >= 6 && hasDD && strings.HasPrefix(out, "sub/"):
				out = "dd/../" + out[4:]
			case s.Spell >= 6 && hasDD:
				out = "dd/../../" + out
			}
		}
		k.Label(rel)
		ran++
		got := make(chan []byte, 1)
		var save *os.File
		if stdout {
			r, w, err := os.Pipe()
			must(err)
			save = os.Stdout
			os.Stdout = w
			go func() {
				b, _ := io.ReadAll(r)
				r.Close()
				got <- b
			}()
		}
		done := make(chan struct{})
		if fifo {
			if s.Late {
				go func() {
					time.Sleep(2 * time.Millisecond)
					got <- drainFifo(openFifo(dir+"/"+outName), done)
				}()
			} else {
				fd := openFifo(dir + "/" + outName)
				go func() { got <- drainFifo(fd, done) }()
			}
		}
		start := time.Now()
		err = fileOp(in, data, out, s.Op, s.Raw)
		end := time.Now()
		close(done)
		if stdout {
			os.Stdout.Close()
			os.Stdout = save
		}
		if err != nil {
			if fifo {
				<-got
			}
			return errf("step %d (%s onto %s, %s): %v", i, s.In, out, rel, err)
		}
		in.Close()
		var res []byte
		if stdout || fifo {
			res = <-got
		} else {
			res, err = os.ReadFile(dir + "/" + s.Out)
			if err != nil {
				return errf("step %d (%s onto %s, %s): the output cannot be read: %v", i, s.In, out, rel, err)
			}
		}
		if err := checkSigned(res, orig, s.Op, start, end); err != nil {
			return errf("step %d (%s onto %s, %s): %v", i, s.In, out, rel, err)
		}
		if st, e := os.Stat(dir + "/" + s.Out); rel == "new file" && (e != nil || st.Mode().Perm()&0444 != 0444) {
			return errf("step %d (%s onto %s, %s): not everyone may read the new package: %v, %v", i, s.In, out, rel, st.Mode(), e)
		}
		loose := ""
		switch {
		case stdout, fifo:
		case outNode == nil:
			m[outName] = &mNode{kind: "file", data: res}
		case outNode == inNode, outName == s.Out:
			// this name gets a file of its own; other links keep the old one
			m[outName] = &mNode{kind: "file", data: res}
		default:
			// written through a symbolic link: whether other hard links of the
			// target follow is left open
			for n, x := range m {
				if x == outNode && n != outName {
					loose = n
					b := readFile(dir + "/" + n)
					if !bytes.Equal(b, res) && !bytes.Equal(b, x.data) {
						return errf("step %d: %s holds neither the old nor the new package", i, n)
					}
				}
			}
			if loose == "" || bytes.Equal(readFile(dir+"/"+loose), res) {
				outNode.data = res
			} else {
				m[outName] = &mNode{kind: "file", data: res}
			}
		}
		// the whole directory is as the model says
		want := []string{}
		for n := range m {
			want = append(want, n)
		}
		sort.Strings(want)
		if got := listDir(dir); !sameStrings(got, want) {
			return errf("step %d (%s onto %s, %s): directory holds %q, want %q", i, s.In, out, rel, got, want)
		}
		for n, x := range m {
			st, err := os.Lstat(dir + "/" + n)
			must(err)
			kind := map[os.FileMode]string{0: "file", os.ModeDir: "dir", os.ModeSymlink: "sym", os.ModeNamedPipe: "fifo"}[st.Mode().Type()]
			if kind != x.kind {
				return errf("step %d (%s onto %s, %s): %s is now a %s, was a %s", i, s.In, out, rel, n, kind, x.kind)
			}
			if kind == "file" && !bytes.Equal(readFile(dir+"/"+n), x.data) {
				return errf("step %d (%s onto %s, %s): %s changed", i, s.In, out, rel, n)
			}
		}
	}
	k.NTIf(ran > 0 && (len(c.Nodes) > 2 || ran > 1))
	return nil
}

func init() {
	register("C12", "random packages signed or rewritten onto an absent, existing or the same file while one of 14 faults strikes (writing stopped at a random byte by a file size limit, full device, broken pipe, rename refused, unwritable or missing directory, no descriptors, unusable input); plus, for small packages, writing stopped at every byte position in turn; plus signings in a child process whose file system calls are intercepted, each call in turn refused with one of five errors or made its last; non-trivial: a fault is injected", func(x *Ctx) {
		sub(x, "faults", subOpts{quick: 15000, thorough: 120000}, genC12, checkC12)
		sub(x, "every-byte", subOpts{quick: 40, thorough: 400}, genC12All, checkC12All)
		sub(x, "calls", subOpts{quick: 280, thorough: 6000}, genC12Call, checkC12Call)
		sub(x, "through-link", subOpts{quick: 8, thorough: 8}, genC12Through, checkC12Through)
	})
	register("C13", "histories of 1-4 signings in a directory with random regular files, hard links, symbolic links (chained, dangling, through directories), FIFOs and standard output, each from any name onto any name under several spellings of the path, compared after each step with a model of the directory; non-trivial: more than one step, or links present", func(x *Ctx) {
		sub(x, "history", subOpts{quick: 12000, thorough: 150000}, genC13, checkC13)
	})
}
