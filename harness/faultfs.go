package main

// System calls that fail, and processes that die, at chosen points: the library
// runs in a child process under a seccomp filter that asks this process about
// every file system call before it is carried out.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	rpmutils "github.com/sassoftware/go-rpmutils"
	"github.com/sassoftware/go-rpmutils/cpio"
	"golang.org/x/sys/unix"
)

// the calls asked about, on amd64
var faultCalls = map[uint32]string{
	0: "read", 1: "write", 2: "open", 3: "close", 4: "stat", 5: "fstat", 6: "lstat", 8: "lseek", 17: "pread64", 18: "pwrite64", 19: "readv", 20: "writev",
	40: "sendfile", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate", 82: "rename", 83: "mkdir", 84: "rmdir", 85: "creat", 86: "link", 87: "unlink", 88: "symlink", 89: "readlink",
	90: "chmod", 91: "fchmod", 133: "mknod", 217: "getdents64", 257: "openat", 258: "mkdirat", 259: "mknodat", 262: "newfstatat", 263: "unlinkat", 264: "renameat", 265: "linkat",
	266: "symlinkat", 267: "readlinkat", 268: "fchmodat", 275: "splice", 285: "fallocate", 316: "renameat2", 326: "copy_file_range", 332: "statx", 437: "openat2", 452: "fchmodat2",
}

// calls that have failed for good if they fail: nothing may rely on the effect
var faultErrnos = []unix.Errno{unix.EIO, unix.ENOSPC, unix.EACCES, unix.EMFILE, unix.EINTR}

// what else calls that make something may say while others work in the same
// place; said of a lookup it would be a lie
var extractErrnos = append(append([]unix.Errno(nil), faultErrnos...), unix.ENOENT, unix.EEXIST)

func plausible(nr int32, e unix.Errno) bool {
	switch e {
	case unix.ENOENT:
		switch nr {
		case 83, 86, 88, 133, 258, 259, 265, 266: // the directory is gone
			return true
		}
		return false
	case unix.EEXIST:
		switch nr {
		case 86, 88, 133, 259, 265, 266: // someone was faster
			return true
		}
		return false
	}
	return true
}

const (
	markBegin = 0x7ffffff1 // close(markBegin): count from here
	markEnd   = 0x7ffffff2
)

// FaultCmd is what the child is told to do.
type FaultCmd struct {
	Op   string  `json:"op"` // sign, raw, extract
	In   string  `json:"in"`
	Out  string  `json:"out"`
	Sign SignOp  `json:"sign"`
	X    *XChild `json:"x,omitempty"`
}

// XChild is an extraction.
type XChild struct {
	Via  int    `json:"via"` // 0: In is an archive, 1: In is a package
	Dest string `json:"dest"`
}

func extractFunc(data []byte, x *XChild) func() error {
	if x.Via == 0 {
		return func() error { return cpio.Extract(bytes.NewReader(data), x.Dest) }
	}
	rpm, err := rpmutils.ReadRpm(bytes.NewReader(data))
	must(err)
	return func() error { return rpm.ExpandPayload(x.Dest) }
}

type faultReply struct {
	Err   string `json:"err,omitempty"`
	Panic string `json:"panic,omitempty"`
	Fds   int    `json:"fds"`
}

func sockSend(fd int, v any, oob []byte) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return unix.Sendmsg(fd, b, oob, nil, 0)
}

// faultChild is the child's main function.
func faultChild() {
	runtime.LockOSThread()
	const sock = 3
	die := func(what string, err error) {
		_ = sockSend(sock, faultReply{Err: fmt.Sprintf("%s: %v", what, err)}, nil)
		os.Exit(3)
	}
	type insn struct {
		code   uint16
		jt, jf uint8
		k      uint32
	}
	prog := []insn{{0x20, 0, 0, 4}, {0x15, 1, 0, 0xC000003E}, {0x06, 0, 0, 0x7fff0000}, {0x20, 0, 0, 0}}
	for nr := range faultCalls {
		prog = append(prog, insn{0x15, 0, 1, nr}, insn{0x06, 0, 0, 0x7fc00000})
	}
	prog = append(prog, insn{0x06, 0, 0, 0x7fff0000})
	if err := unix.Prctl(unix.PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0); err != nil {
		die("no_new_privs", err)
	}
	fprog := struct {
		n uint16
		p *insn
	}{uint16(len(prog)), &prog[0]}
	// TSYNC | NEW_LISTENER | TSYNC_ESRCH | WAIT_KILLABLE_RECV: no signal takes back a
	// call that is being decided upon
	l, _, e := unix.Syscall(unix.SYS_SECCOMP, 1, 1|8|16|32, uintptr(unsafe.Pointer(&fprog)))
	if e == unix.EINVAL {
		l, _, e = unix.Syscall(unix.SYS_SECCOMP, 1, 1|8|16, uintptr(unsafe.Pointer(&fprog)))
	}
	if e != 0 {
		die("seccomp", e)
	}
	if err := sockSend(sock, faultReply{}, unix.UnixRights(int(l))); err != nil {
		os.Exit(3)
	}
	unix.Close(int(l))
	buf := make([]byte, 1<<20)
	for {
		n, _, err := unix.Recvfrom(sock, buf, 0)
		if err == unix.EINTR {
			continue
		}
		if err != nil || n == 0 {
			os.Exit(0)
		}
		var cmd FaultCmd
		if err := json.Unmarshal(buf[:n], &cmd); err != nil {
			die("command", err)
		}
		var rep faultReply
		func() {
			defer func() {
				if r := recover(); r != nil {
					rep.Panic = fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
				}
			}()
			if err := faultOp(cmd); err != nil {
				rep.Err = err.Error()
				if rep.Err == "" {
					rep.Err = "(an error without a text)"
				}
			}
		}()
		if err := sockSend(sock, rep, nil); err != nil {
			os.Exit(3)
		}
	}
}

func faultOp(cmd FaultCmd) error {
	data := readFile(cmd.In)
	if cmd.Op == "extract" {
		f := extractFunc(data, cmd.X)
		_ = unix.Close(markBegin)
		defer unix.Close(markEnd)
		return f()
	}
	in := openFile(cmd.In)
	defer in.Close()
	f := fileOpFunc(in, data, cmd.Out, cmd.Sign, cmd.Op == "raw")
	_ = unix.Close(markBegin)
	defer unix.Close(markEnd)
	return f()
}

type seccompNotif struct {
	id         uint64
	pid, flags uint32
	nr         int32
	arch       uint32
	ip         uint64
	args       [6]uint64
}

type seccompResp struct {
	id    uint64
	val   int64
	err   int32
	flags uint32
}

// faultPlan says what happens to which call of an operation.
type faultPlan struct {
	At    int // from 1; 0: nothing happens
	Errno unix.Errno
	Kill  bool
}

// faultProc is the parent's side of a child.
type faultProc struct {
	cmd      *exec.Cmd
	sock     int
	listener int
	plan     chan faultPlan
	done     chan int // calls seen, once the operation is over
	hit      string
	lost     bool // the call that failed was to close a file written to
	uses     int
	gone     chan struct{}
}

var (
	theFaultProc  *faultProc
	faultDisabled string
)

func startFaultProc() (*faultProc, error) {
	if runtime.GOARCH != "amd64" {
		return nil, fmt.Errorf("not amd64")
	}
	pair, err := unix.Socketpair(unix.AF_UNIX, unix.SOCK_SEQPACKET|unix.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	theirs := os.NewFile(uintptr(pair[1]), "child socket")
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	p := &faultProc{cmd: exec.Command(exe, "-child"), sock: pair[0], plan: make(chan faultPlan, 1), done: make(chan int, 1), gone: make(chan struct{})}
	p.cmd.ExtraFiles = []*os.File{theirs}
	p.cmd.Stderr = os.Stderr
	p.cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GODEBUG=asyncpreemptoff=1")
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	theirs.Close()
	buf := make([]byte, 65536)
	oob := make([]byte, 256)
	n, on, _, _, err := unix.Recvmsg(p.sock, buf, oob, unix.MSG_CMSG_CLOEXEC)
	for err == unix.EINTR {
		n, on, _, _, err = unix.Recvmsg(p.sock, buf, oob, unix.MSG_CMSG_CLOEXEC)
	}
	var rep faultReply
	if err == nil && n == 0 {
		err = fmt.Errorf("the child went away")
	}
	if err == nil {
		err = json.Unmarshal(buf[:n], &rep)
	}
	if err == nil && rep.Err != "" {
		err = fmt.Errorf("%s", rep.Err)
	}
	var fds []int
	if err == nil {
		var ms []unix.SocketControlMessage
		if ms, err = unix.ParseSocketControlMessage(oob[:on]); err == nil && len(ms) == 1 {
			fds, err = unix.ParseUnixRights(&ms[0])
		}
	}
	if err != nil || len(fds) != 1 {
		unix.Close(p.sock)
		_ = p.cmd.Process.Kill()
		_ = p.cmd.Wait()
		return nil, fmt.Errorf("no listener: %v", err)
	}
	p.listener = fds[0]
	go p.supervise()
	return p, nil
}

func (p *faultProc) supervise() {
	defer close(p.gone)
	var plan faultPlan
	var next *faultPlan
	tid, n := uint32(0), 0
	var written map[uint64]bool
	for {
		pfd := []unix.PollFd{{Fd: int32(p.listener), Events: unix.POLLIN}}
		if _, err := unix.Poll(pfd, -1); err != nil {
			if err == unix.EINTR {
				continue
			}
			return
		}
		if pfd[0].Revents&unix.POLLIN == 0 {
			return // nobody is left to ask
		}
		var q seccompNotif
		if _, _, e := unix.Syscall(unix.SYS_IOCTL, uintptr(p.listener), 0xc0502100, uintptr(unsafe.Pointer(&q))); e != 0 {
			if e == unix.EINTR || e == unix.ENOENT {
				continue
			}
			return
		}
		r := seccompResp{id: q.id, flags: 1} // carry on
		begin, end := q.nr == 3 && q.args[0] == markBegin, q.nr == 3 && q.args[0] == markEnd
		counted := tid != 0 && q.pid == tid && !begin && !end
		fault := counted && n+1 == plan.At
		switch {
		case begin || end:
			r = seccompResp{id: q.id}
			if begin && next == nil {
				x := <-p.plan
				next = &x
			}
		case fault && plan.Kill:
			p.hit = fmt.Sprintf("%s(%d)", faultCalls[uint32(q.nr)], int32(q.args[0]))
			_ = p.cmd.Process.Kill()
			p.done <- n + 1
			tid = 0
			continue
		case fault && plausible(int32(q.nr), plan.Errno):
			r = seccompResp{id: q.id, err: -int32(plan.Errno)}
		}
		var e unix.Errno
		for {
			_, _, e = unix.Syscall(unix.SYS_IOCTL, uintptr(p.listener), 0xc0182101, uintptr(unsafe.Pointer(&r)))
			if e != unix.EINTR {
				break
			}
		}
		if e != 0 {
			continue // a signal took the call back; it will be made again
		}
		switch {
		case begin:
			plan, next, tid, n, written = *next, nil, q.pid, 0, map[uint64]bool{}
		case end:
			if tid != 0 {
				tid = 0
				p.done <- n
			}
		case fault && r.err != 0:
			n++
			p.lost = q.nr == 3 && written[q.args[0]] && plan.Errno != unix.EINTR
			p.hit = fmt.Sprintf("%s(%d)", faultCalls[uint32(q.nr)], int32(q.args[0]))
		case counted:
			n++
			if fault {
				p.hit = "-"
			}
			switch q.nr {
			case 1, 18, 20, 40, 77, 285:
				written[q.args[0]] = true
			case 275, 326:
				written[q.args[2]] = true
			case 3:
				delete(written, q.args[0])
			}
		}
	}
}

func (p *faultProc) stop() {
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
	<-p.gone
	unix.Close(p.sock)
	unix.Close(p.listener)
}

type faultRun struct {
	Calls  int    // file system calls the operation made
	Hit    string // the call that failed; -: left alone, the error makes no sense for it
	Killed bool
	Lost   bool  // the call that failed was to close a file written to
	Err    error // what the library reported
}

// faultsAvailable tells whether calls can be intercepted here.
func faultsAvailable() bool {
	if theFaultProc == nil && faultDisabled == "" {
		p, err := startFaultProc()
		if err != nil {
			faultDisabled = err.Error()
			if *optVerbose {
				fmt.Fprintln(os.Stderr, "system call faults are not available:", err)
			}
			return false
		}
		theFaultProc = p
	}
	return faultDisabled == ""
}

// runFault carries out cmd in a child with one fault.
func runFault(cmd FaultCmd, plan faultPlan) faultRun {
	stillAlive()
	if theFaultProc != nil && theFaultProc.uses > 150 {
		// calls to close that were made to fail leave descriptors behind
		theFaultProc.stop()
		theFaultProc = nil
	}
	if theFaultProc == nil {
		p, err := startFaultProc()
		must(err)
		theFaultProc = p
	}
	p := theFaultProc
	p.uses++
	p.hit, p.lost = "", false
	p.plan <- plan
	must(sockSend(p.sock, cmd, nil))
	buf := make([]byte, 1<<16)
	var n int
	var err error
	for {
		n, _, err = unix.Recvfrom(p.sock, buf, 0)
		if err != unix.EINTR {
			break
		}
	}
	run := faultRun{}
	if err != nil || n == 0 {
		if !plan.Kill {
			harnessFail("the child died (%v) with %+v", err, plan)
		}
		select {
		case run.Calls = <-p.done:
		case <-time.After(10 * time.Second):
			harnessFail("the child died on its own")
		}
		run.Hit, run.Killed = p.hit, true
		p.stop()
		theFaultProc = nil
		return run
	}
	var rep faultReply
	must(json.Unmarshal(buf[:n], &rep))
	if strings.Contains(rep.Panic, "harnessError") || strings.HasPrefix(rep.Panic, "open ") {
		harnessFail("in the child: %s", rep.Panic)
	}
	select {
	case run.Calls = <-p.done:
	case <-time.After(10 * time.Second):
		harnessFail("in the child: %s %s", rep.Err, rep.Panic)
	}
	run.Hit, run.Lost = p.hit, p.lost
	if rep.Panic != "" {
		run.Err = fmt.Errorf("panic: %s", rep.Panic)
	} else if rep.Err != "" {
		run.Err = fmt.Errorf("%s", rep.Err)
	}
	return run
}
