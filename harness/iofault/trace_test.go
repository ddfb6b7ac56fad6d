// Package iofault checks what the file helpers leave behind when the process dies at any system
// call (C44) and what they report when any system call fails or does only part of its work (C45).
package iofault

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"vharness/vt"
)

func TestMain(m *testing.M) {
	if os.Getenv("VT_CHILD") != "" {
		child()
		os.Exit(0)
	}
	vt.Main(m)
}

func ok(err error) {
	if err != nil {
		vt.Harness("%v", err)
	}
}

func must[T any](v T, err error) T { ok(err); return v }

// ---- the process that works

// op is one call of a helper.
type op struct {
	Kind string   `json:"k"`
	A    string   `json:"a"`
	B    string   `json:"b,omitempty"`
	N    int      `json:"n,omitempty"`
	Data []byte   `json:"d,omitempty"`
	List []string `json:"l,omitempty"`
}

func (o op) String() string {
	s := o.Kind + " " + o.A
	if o.B != "" {
		s += " " + o.B
	}
	if o.Kind == "store" {
		s += fmt.Sprintf(" #%d %d bytes", o.N, len(o.Data))
	}
	if n := len(o.List); n > 0 {
		size := 0
		for _, x := range o.List {
			size += len(x)
		}
		s += fmt.Sprintf(" %d items %d bytes", n, size)
	}
	return s
}

type result struct {
	Err  string     `json:"e,omitempty"`
	Text string     `json:"t,omitempty"`
	List []string   `json:"l,omitempty"`
	Rows [][]string `json:"r,omitempty"`
	Nil  bool       `json:"n,omitempty"`
}

func (o op) do() (r result) {
	var err error
	switch o.Kind {
	case "store":
		_, err = utils.BreakPointContinue(o.Data, o.A, o.N, 0, o.B)
	case "make":
		r.Text, err = utils.MakeFile(o.A, o.B)
	case "remove":
		err = utils.RemoveChunk(o.A)
	case "csv":
		err = utils.WriteCsv(o.A, o.List)
	case "readcsv":
		if rows := utils.ReadCsv(o.A); rows != nil {
			r.Rows = *rows
		} else {
			r.Nil = true
		}
	case "copy":
		var n int64
		n, err = utils.CopyFile(o.B, o.A)
		r.Text = fmt.Sprint(n)
	case "zip":
		err = utils.ZipFiles(o.A, o.List, "", "")
	case "unzip":
		r.List, err = utils.Unzip(o.A, o.B)
	case "move":
		err = utils.FileMove(o.A, o.B)
	case "delete":
		err = utils.DeLFile(o.A)
	case "createdir":
		err = utils.CreateDir(o.List...)
	case "mkdir":
		err = utils.MkDir(o.A)
	case "md5":
		r.Text, err = utils.FileMd5(o.A)
	case "image":
		r.Text = utils.ImageFileToBase64(o.A)
	case "scan":
		r.List, err = utils.ScanDir(o.A)
	case "exists":
		var yes bool
		yes, err = utils.PathExists(o.A)
		r.Text = fmt.Sprint(yes)
	default:
		vt.Harness("no such operation %q", o.Kind)
	}
	if err != nil {
		r.Err = err.Error()
		if r.Err == "" {
			r.Err = "an error without a text"
		}
	}
	return r
}

// marks are closes of descriptors that cannot exist.
const (
	markNext = 0x7d000001
	markEnd  = 0x7d000002
)

func mark(n uintptr) { syscall.RawSyscall(syscall.SYS_CLOSE, n, 0, 0) }

func child() {
	runtime.LockOSThread()
	var ops []op
	if err := json.Unmarshal(must(os.ReadFile(os.Getenv("VT_CHILD"))), &ops); err != nil {
		os.Exit(9)
	}
	results := make([]result, 0, len(ops))
	for _, o := range ops {
		mark(markNext)
		results = append(results, o.do())
	}
	mark(markEnd)
	b, err := json.Marshal(results)
	if err != nil {
		os.Exit(9)
	}
	if os.WriteFile(os.Getenv("VT_CHILD")+".out", b, 0o644) != nil {
		os.Exit(9)
	}
}

// ---- the tracer

type planKind int

const (
	none     planKind = iota
	kill              // the process dies in place of the call
	cutKill           // the call does part of its work, then the process dies
	fail              // the call fails
	failMany          // so do all that follow
	shorten           // the call does part of its work
)

type plan struct {
	kind  planKind
	at    int // which of the calls
	errno syscall.Errno
	part  uint64
}

type outcome struct {
	begun   int      // operations that were begun
	calls   []string // the file system calls made while working
	killed  bool
	hit     string // the call the plan applied to
	crash   string // what it printed when it ended by itself
	results []result
}

type sys struct {
	name string
	fd   bool
	size int // which argument is a size that may be cut (1-based), 0 if none
}

var table = map[uint64]sys{
	0: {"read", true, 3}, 1: {"write", true, 3}, 17: {"pread64", true, 3}, 18: {"pwrite64", true, 3},
	19: {"readv", true, 0}, 20: {"writev", true, 0}, 3: {"close", true, 0}, 5: {"fstat", true, 0},
	8: {"lseek", true, 0}, 77: {"ftruncate", true, 0}, 217: {"getdents64", true, 0}, 326: {"copy_file_range", true, 5},
	40: {"sendfile", true, 4}, 275: {"splice", true, 5}, 74: {"fsync", true, 0}, 75: {"fdatasync", true, 0},
	285: {"fallocate", true, 0}, 91: {"fchmod", true, 0}, 32: {"dup", true, 0},
	2: {"open", false, 0}, 257: {"openat", false, 0}, 437: {"openat2", false, 0}, 85: {"creat", false, 0},
	4: {"stat", false, 0}, 6: {"lstat", false, 0}, 262: {"newfstatat", false, 0}, 332: {"statx", false, 0},
	83: {"mkdir", false, 0}, 258: {"mkdirat", false, 0}, 84: {"rmdir", false, 0}, 87: {"unlink", false, 0},
	263: {"unlinkat", false, 0}, 82: {"rename", false, 0}, 264: {"renameat", false, 0}, 316: {"renameat2", false, 0},
	86: {"link", false, 0}, 265: {"linkat", false, 0}, 88: {"symlink", false, 0}, 266: {"symlinkat", false, 0},
	76: {"truncate", false, 0}, 90: {"chmod", false, 0}, 268: {"fchmodat", false, 0}, 89: {"readlink", false, 0},
	267: {"readlinkat", false, 0}, 21: {"access", false, 0}, 269: {"faccessat", false, 0}, 439: {"faccessat2", false, 0},
}

const optExitKill = 0x100000

// run lets a process of its own perform ops in dir, with the plan applied to it.
func run(dir string, ops []op, p plan) outcome {
	script := filepath.Join(filepath.Dir(dir), "script")
	ok(os.WriteFile(script, must(json.Marshal(ops)), 0o644))
	os.Remove(script + ".out")
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	cmd := exec.Command("/proc/self/exe", "-test.run=^$")
	cmd.Dir = dir
	cmd.Env = []string{"VT_CHILD=" + script, "GOMAXPROCS=1", "GOGC=off", "TZ=UTC", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "GODEBUG=asyncpreemptoff=1"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true}
	errFile := must(os.Create(script + ".err"))
	defer errFile.Close()
	cmd.Stderr = errFile
	ok(cmd.Start())
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, syscall.WALL, nil); err != nil || !ws.Stopped() {
		vt.Harness("the process to trace did not stop: %v %v", ws, err)
	}
	ok(syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|optExitKill))
	var out outcome
	var (
		inside  = map[int]bool{}    // threads between the entry and the exit of a call
		forced  = map[int]int64{}   // results to put in place
		opened  = map[int]bool{}    // threads inside an open
		fds     = map[uint64]bool{} // descriptors opened while working
		working bool
		dying   bool
		code    int
	)
	resume := func(tid, sig int) {
		if err := syscall.PtraceSyscall(tid, sig); err != nil && !errors.Is(err, syscall.ESRCH) {
			vt.Harness("ptrace: %v", err)
		}
	}
	resume(pid, 0)
	for {
		tid, err := syscall.Wait4(-1, &ws, syscall.WALL, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			vt.Harness("wait: %v", err)
		}
		if ws.Exited() || ws.Signaled() {
			if tid == pid {
				if ws.Exited() {
					code = ws.ExitStatus()
				} else {
					code = -int(ws.Signal())
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		sig := ws.StopSignal()
		if sig == syscall.SIGTRAP|0x80 {
			var regs syscall.PtraceRegs
			if err := syscall.PtraceGetRegs(tid, &regs); err != nil {
				continue // it is gone
			}
			if inside[tid] = !inside[tid]; !inside[tid] {
				if v, has := forced[tid]; has {
					delete(forced, tid)
					regs.Rax = uint64(v)
					ok(syscall.PtraceSetRegs(tid, &regs))
				}
				if opened[tid] {
					delete(opened, tid)
					if int64(regs.Rax) >= 0 {
						fds[regs.Rax] = true
					}
				}
				resume(tid, 0)
				continue
			}
			if regs.Orig_rax == syscall.SYS_CLOSE && (regs.Rdi == markNext || regs.Rdi == markEnd) {
				if working = regs.Rdi == markNext; working {
					out.begun++
				}
				resume(tid, 0)
				continue
			}
			s, known := table[regs.Orig_rax]
			if !working || !known || s.fd && !fds[regs.Rdi] && !(s.name == "copy_file_range" && fds[regs.Rdx]) {
				resume(tid, 0)
				continue
			}
			n := len(out.calls)
			out.calls = append(out.calls, s.name)
			switch s.name {
			case "open", "openat", "openat2", "creat", "dup":
				opened[tid] = true
			case "close":
				delete(fds, regs.Rdi)
			}
			if dying || p.kind == kill && n == p.at {
				out.hit, out.killed = s.name, true
				syscall.Kill(pid, syscall.SIGKILL)
				resume(tid, 0)
				continue
			}
			switch {
			case p.kind == fail && n == p.at, p.kind == failMany && n >= p.at:
				if out.hit == "" {
					out.hit = s.name
				}
				e := p.errno
				if s.name == "close" {
					e = syscall.EIO // the descriptor is gone all the same
				} else {
					regs.Orig_rax = ^uint64(0)
					ok(syscall.PtraceSetRegs(tid, &regs))
				}
				forced[tid] = -int64(e)
			case (p.kind == shorten || p.kind == cutKill) && n >= p.at && s.size > 0 && out.hit == "":
				arg := map[int]*uint64{3: &regs.Rdx, 4: &regs.R10, 5: &regs.R8}[s.size]
				if *arg > 1 {
					out.hit = s.name
					limit := *arg
					if limit > 1<<16 {
						limit = 1 << 16
					}
					*arg = 1 + p.part%(limit-1)
					ok(syscall.PtraceSetRegs(tid, &regs))
					dying = p.kind == cutKill
				}
			}
			resume(tid, 0)
			continue
		}
		switch sig {
		case syscall.SIGTRAP, syscall.SIGSTOP: // a new thread
			resume(tid, 0)
		default:
			resume(tid, int(sig))
		}
	}
	cmd.Process.Release()
	if out.killed {
		return out
	}
	if code == 2 { // a panic
		out.crash = string(must(os.ReadFile(script + ".err")))
		return out
	}
	if code != 0 {
		vt.Harness("the working process ended with %d while doing %v: %s", code, ops, must(os.ReadFile(script+".err")))
	}
	ok(json.Unmarshal(must(os.ReadFile(script+".out")), &out.results))
	if len(out.results) != len(ops) {
		vt.Harness("%d results of %d operations", len(out.results), len(ops))
	}
	return out
}

func tally(calls []string) string {
	n := map[string]int{}
	for _, c := range calls {
		n[c]++
	}
	var names []string
	for c := range n {
		names = append(names, c)
	}
	slices.Sort(names)
	s := ""
	for _, c := range names {
		s += fmt.Sprintf(" %s×%d", c, n[c])
	}
	return s
}
