// Package reloadc checks the reload helper (C39) on trees of real processes.
package reloadc

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

const (
	envSpec = "VT_RELOAD_NODE" // "id(kids)" as text
	envSock = "VT_RELOAD_SOCK"
)

func TestMain(m *testing.M) {
	if spec := os.Getenv(envSpec); spec != "" {
		node(spec, os.Getenv(envSock))
		os.Exit(0)
	}
	vt.Main(m)
}

func TestC39(t *testing.T) {
	vt.Check(t, "trees", "trees of two to seven real processes of which some call the helper, one after the other or several at the same moment, sometimes without a kill program to be found or with one that fails, and of which some die, so that their children have another parent; every process counts the signals it gets; non-trivial: two processes with different parents reloaded, or siblings at the same moment, or the helper failed",
		120, 6000, trees)
}

// ---- a process of the tree

// node starts its children, counts the signals it gets and does what the harness asks.
func node(spec, sock string) {
	sigs := make(chan os.Signal, 1000)
	signal.Notify(sigs)
	var mu sync.Mutex
	counts := map[string]int{}
	go func() {
		for s := range sigs {
			if s == syscall.SIGURG || s == syscall.SIGCHLD || s == syscall.SIGPIPE {
				continue
			}
			mu.Lock()
			counts[strings.ReplaceAll(s.String(), " ", "-")]++
			mu.Unlock()
		}
	}()
	id, kids := parse(spec)
	if id == "0" {
		const prSetChildSubreaper = 36 // orphans of the tree become the root's children
		if _, _, e := syscall.RawSyscall(syscall.SYS_PRCTL, prSetChildSubreaper, 1, 0); e != 0 {
			os.Exit(3)
		}
	}
	exe, err := os.Executable()
	if err != nil {
		os.Exit(3)
	}
	for _, k := range kids {
		cmd := exec.Command(exe)
		cmd.Env = append(os.Environ(), envSpec+"="+k)
		if err := cmd.Start(); err != nil {
			os.Exit(3)
		}
		go cmd.Wait()
	}
	c, err := net.Dial("unix", sock)
	if err != nil {
		os.Exit(3)
	}
	fmt.Fprintf(c, "%s %d\n", id, os.Getpid())
	in := bufio.NewScanner(c)
	path := os.Getenv("PATH")
	for in.Scan() {
		switch in.Text() {
		case "reload":
			os.Setenv("PATH", path)
			err := utils.Reload()
			fmt.Fprintf(c, "%v\n", err == nil)
		case "reload without kill", "reload with a failing kill":
			os.Setenv("PATH", filepath.Join(filepath.Dir(sock), strings.Fields(in.Text())[1]))
			err := utils.Reload()
			fmt.Fprintf(c, "%v\n", err == nil)
		case "parent":
			fmt.Fprintln(c, os.Getppid())
		case "exit":
			os.Exit(0)
		case "count":
			mu.Lock()
			var l []string
			for s, n := range counts {
				l = append(l, s+"="+strconv.Itoa(n))
			}
			mu.Unlock()
			sort.Strings(l)
			fmt.Fprintln(c, strings.Join(l, " "))
		}
	}
}

// parse splits "id(kid kid ...)".
func parse(spec string) (id string, kids []string) {
	i := strings.IndexByte(spec, '(')
	id = spec[:i]
	depth, start := 0, i+1
	for j := i + 1; j < len(spec)-1; j++ {
		switch spec[j] {
		case '(':
			depth++
		case ')':
			depth--
			if depth == 0 {
				kids = append(kids, spec[start:j+1])
				start = j + 1
			}
		}
	}
	return id, kids
}

// ---- the harness's side

type proc struct {
	id     int
	parent int
	pid    int
	dead   bool
	conn   net.Conn
	in     *bufio.Reader
}

// ask sends one line and returns the answer; a process that died gives ok=false.
func (p *proc) ask(q string) (string, bool) {
	if _, err := fmt.Fprintln(p.conn, q); err != nil {
		return "", false
	}
	s, err := p.in.ReadString('\n')
	return strings.TrimSuffix(s, "\n"), err == nil
}

func build(parents []int, i int) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d(", i)
	for j, p := range parents {
		if j > 0 && p == i {
			b.WriteString(build(parents, j))
		}
	}
	b.WriteString(")")
	return b.String()
}

func trees(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(2, 7).Draw(rt, "processes")
	parents := make([]int, n)
	parents[0] = -1
	for i := 1; i < n; i++ {
		parents[i] = rapid.IntRange(0, i-1).Draw(rt, "parent")
	}
	spec := build(parents, 0)
	c.Logf("tree %s", spec)

	dir, err := os.MkdirTemp("", "vtrel")
	if err != nil {
		vt.Harness("%v", err)
	}
	defer os.RemoveAll(dir)
	sock := filepath.Join(dir, "s")
	l, err := net.Listen("unix", sock)
	if err != nil {
		vt.Harness("%v", err)
	}
	defer l.Close()
	exe, err := os.Executable()
	if err != nil {
		vt.Harness("%v", err)
	}
	root := exec.Command(exe)
	root.Env = append(os.Environ(), envSpec+"="+spec, envSock+"="+sock)
	root.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if err := root.Start(); err != nil {
		vt.Harness("%v", err)
	}
	defer func() {
		syscall.Kill(-root.Process.Pid, syscall.SIGKILL)
		root.Wait()
	}()
	procs := make([]*proc, n)
	for range procs {
		l.(*net.UnixListener).SetDeadline(time.Now().Add(100 * time.Second))
		conn, err := l.Accept()
		if err != nil {
			vt.Harness("a process of the tree did not start: %v", err)
		}
		defer conn.Close()
		in := bufio.NewReader(conn)
		line, err := in.ReadString('\n')
		var id, pid int
		if _, e := fmt.Sscan(line, &id, &pid); err != nil || e != nil {
			vt.Harness("a process of the tree introduced itself with %q (%v)", line, err)
		}
		procs[id] = &proc{id: id, parent: parents[id], pid: pid, conn: conn, in: in}
	}

	// a kill program that fails: below "with", where the callers look for it
	if err := os.Mkdir(filepath.Join(dir, "with"), 0o755); err != nil {
		vt.Harness("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "with", "kill"), []byte("#!/bin/sh\nexit 1\n"), 0o755); err != nil {
		vt.Harness("%v", err)
	}

	// the harness is the root's parent, and the root never reloads
	own := make(chan os.Signal, 10)
	signal.Notify(own, syscall.SIGHUP)
	defer signal.Stop(own)

	want, most := make([]int, n), make([]int, n) // hang-ups each process got: at least, at most
	count := func(p *proc) (hup int, other string) {
		s, ok := p.ask("count")
		if !ok {
			rt.Fatalf("%s: process %d is gone", c.String(), p.id)
		}
		for _, f := range strings.Fields(s) {
			k, v, _ := strings.Cut(f, "=")
			if k == strings.ReplaceAll(syscall.SIGHUP.String(), " ", "-") {
				hup, _ = strconv.Atoi(v)
			} else {
				other = f
			}
		}
		return
	}
	settle := func() {
		for _, p := range procs {
			if p.dead {
				continue
			}
			end := time.Now().Add(30 * time.Second)
			for {
				hup, other := count(p)
				if other != "" {
					rt.Fatalf("%s: process %d got the signal %s", c.String(), p.id, other)
				}
				if hup > most[p.id] {
					rt.Fatalf("%s: process %d got %d hang-ups, want %d", c.String(), p.id, hup, most[p.id])
				}
				if hup >= want[p.id] {
					// signals that arrive together count once, or the last ones are still on their way
					want[p.id] = hup
					break
				}
				if time.Now().After(end) {
					rt.Fatalf("%s: process %d got %d hang-ups, want %d", c.String(), p.id, hup, want[p.id])
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	// expect is told the callers of one moment
	expect := func(group ...int) {
		once := map[int]bool{}
		for _, i := range group {
			if p := parents[i]; !once[p] {
				once[p] = true
				want[p]++ // what was seen before, and at least one more
			}
			most[parents[i]]++
		}
	}
	callers := map[int]bool{}
	caller := func() int {
		for {
			if i := rapid.IntRange(1, n-1).Draw(rt, "caller"); !procs[i].dead {
				return i
			}
		}
	}
	for s := rapid.IntRange(1, 7).Draw(rt, "steps"); s > 0; s-- {
		i := caller()
		switch vt.Weighted(rt, "how", 5, 2, 1, 1, 2) {
		case 0:
			c.Logf("%d reloads", i)
			r, ok := procs[i].ask("reload")
			if !ok {
				rt.Fatalf("%s: the caller is gone", c.String())
			}
			if r != "true" {
				rt.Fatalf("%s: an error was returned", c.String())
			}
			expect(i)
			callers[parents[i]] = true
			c.NTIf(len(callers) > 1)
		case 1:
			k := rapid.IntRange(2, 4).Draw(rt, "callers")
			group := map[int]bool{i: true}
			for ; k > 1; k-- {
				group[caller()] = true
			}
			var l []int
			for j := range group {
				l = append(l, j)
			}
			sort.Ints(l)
			c.Logf("%v reload together", l)
			expect(l...)
			var wg sync.WaitGroup
			var mu sync.Mutex
			bad := ""
			for _, j := range l {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					if r, ok := procs[j].ask("reload"); !ok || r != "true" {
						mu.Lock()
						bad = fmt.Sprintf("process %d: gone %v, reports success %v", j, !ok, r)
						mu.Unlock()
					}
				}(j)
			}
			wg.Wait()
			if bad != "" {
				rt.Fatalf("%s: %s", c.String(), bad)
			}
			c.NTIf(len(group) > 1)
		case 2, 3:
			q := "reload " + vt.Pick(rt, "kill", "without kill", "with a failing kill")
			c.Logf("%d: %s", i, q)
			r, ok := procs[i].ask(q)
			if !ok {
				rt.Fatalf("%s: the caller is gone", c.String())
			}
			// success is reported exactly when the signal was sent
			if r == "true" {
				expect(i)
			}
			c.LabelIf(r != "true", "not sent")
			c.NTIf(r != "true")
		default:
			alive := 0
			for _, p := range procs {
				if !p.dead {
					alive++
				}
			}
			if alive < 3 {
				continue
			}
			c.Logf("%d dies", i)
			procs[i].ask("exit")
			procs[i].dead = true
			for j, p := range procs {
				if parents[j] != i || p.dead {
					continue
				}
				parents[j] = 0
				c.Label("orphan")
				for end := time.Now().Add(30 * time.Second); ; time.Sleep(100 * time.Microsecond) {
					r, _ := p.ask("parent")
					if r == strconv.Itoa(procs[0].pid) {
						break
					}
					if time.Now().After(end) {
						vt.Harness("an orphan's parent is %s", r)
					}
				}
			}
		}
		settle()
	}
	time.Sleep(3 * time.Millisecond)
	settle()
	if len(own) > 0 {
		rt.Fatalf("%s: the parent of process 0 got a hang-up", c.String())
	}
}
