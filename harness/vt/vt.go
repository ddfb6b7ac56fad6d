// Package vt is the small framework under every check: it runs rapid properties with a
// case count per tier, counts and fingerprints the generated cases, watches for hangs and
// runaway memory, and writes what was covered to $VT_OUT for the driver (check.py).
package vt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	maxLog      = 3000    // bytes of case description kept
	maxPrints   = 400_000 // fingerprints kept per sub-check
	samplesKept = 4
)

// Sub is what one sub-check covered.
type Sub struct {
	Name       string         `json:"name"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	NonTrivial int            `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Exhaustive bool           `json:"exhaustive,omitempty"`
	prints     map[uint64]struct{}
	failed     bool
}

var (
	mu   sync.Mutex
	subs []*Sub

	current   atomic.Pointer[C]
	caseStart atomic.Int64 // process CPU nanoseconds when the current case began
	caseSeq   atomic.Int64
)

// C is one generated case.
type C struct {
	sub        *Sub
	mu         sync.Mutex
	log        strings.Builder
	h          uint64
	last       string
	nontrivial bool
	labels     map[string]int
}

// Last is the latest step logged.
func (c *C) Last() string { c.mu.Lock(); defer c.mu.Unlock(); return c.last }

// Logf adds one step to the description (and the fingerprint) of the case.
func (c *C) Logf(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.mu.Lock()
	defer c.mu.Unlock()
	f := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], c.h)
	f.Write(b[:])
	f.Write([]byte(s))
	c.h = f.Sum64()
	c.last = cut(s, 200)
	if c.log.Len() < maxLog {
		if c.log.Len() > 0 {
			c.log.WriteString("; ")
		}
		if len(s) > 400 {
			s = s[:400] + "…"
		}
		c.log.WriteString(s)
	}
}

// NT marks the case as non-trivial (by the rule given to Check).
func (c *C) NT() { c.mu.Lock(); c.nontrivial = true; c.mu.Unlock() }

// NTIf marks the case as non-trivial when b holds.
func (c *C) NTIf(b bool) {
	if b {
		c.NT()
	}
}

// Label counts the case in a class (once per call).
func (c *C) Label(s string) {
	c.mu.Lock()
	if c.labels == nil {
		c.labels = map[string]int{}
	}
	c.labels[s]++
	c.mu.Unlock()
}

func (c *C) LabelIf(b bool, s string) {
	if b {
		c.Label(s)
	}
}

func (c *C) String() string { c.mu.Lock(); defer c.mu.Unlock(); return c.log.String() }

func (c *C) commit() {
	mu.Lock()
	defer mu.Unlock()
	s := c.sub
	if s.failed {
		return
	}
	s.Evals++
	for l := range c.labels {
		s.Labels[l]++
	}
	if c.nontrivial {
		if _, dup := s.prints[c.h]; !dup && len(s.prints) < maxPrints {
			s.prints[c.h] = struct{}{}
			if len(s.Samples) < samplesKept && s.Evals >= len(s.Samples)*37 {
				s.Samples = append(s.Samples, cut(c.log.String(), 700))
			}
		}
		s.NonTrivial++
	}
}

func cut(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "?") + "…"
	}
	return strings.ToValidUTF8(s, "?")
}

// Thorough reports whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VT_TIER") == "thorough" }

func scale() float64 {
	f, err := strconv.ParseFloat(os.Getenv("VT_SCALE"), 64)
	if err != nil || f <= 0 {
		return 1
	}
	return f
}

func newSub(name, rule string) *Sub {
	s := &Sub{Name: name, Rule: rule, Labels: map[string]int{}, prints: map[uint64]struct{}{}}
	mu.Lock()
	subs = append(subs, s)
	mu.Unlock()
	return s
}

// Check runs one property over generated cases. rule says how cases are made and which are
// non-trivial; quick and thorough are the case counts.
func Check(t *testing.T, name, rule string, quick, thorough int, prop func(rt *rapid.T, c *C)) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		s := newSub(name, rule)
		n := quick
		if Thorough() {
			n = thorough
		}
		n = int(float64(n) * scale())
		if n < 1 {
			n = 1
		}
		flag.Set("rapid.checks", strconv.Itoa(n))
		defer current.Store(nil)
		rapid.Check(t, func(rt *rapid.T) {
			c := &C{sub: s}
			caseSeq.Add(1)
			caseStart.Store(cpuNow())
			current.Store(c)
			ok, normal := false, false
			defer func() {
				current.Store(nil)
				if ok {
					c.commit()
				} else if normal || rt.Failed() {
					rt.Logf("case: %s", c.String())
					mu.Lock()
					s.failed = true
					mu.Unlock()
				}
			}()
			prop(rt, c)
			normal = true
			ok = !rt.Failed()
		})
	})
}

// Sync runs the property inside a synctest bubble: time is fake and advances only when every
// goroutine is blocked.
func Sync(t *testing.T, name, rule string, quick, thorough int, prop func(rt *rapid.T, c *C)) {
	t.Helper()
	Check(t, name, rule, quick, thorough, func(rt *rapid.T, c *C) {
		rapid.SyncTest(rt, func(rt *rapid.T) { prop(rt, c) })
	})
}

// Exhaustive records a completely enumerated finite domain.
func Exhaustive(t *testing.T, name, rule string, f func(t *testing.T, count func(desc string))) {
	t.Helper()
	t.Run(name, func(t *testing.T) {
		s := newSub(name, rule)
		s.Exhaustive = true
		c := &C{sub: s}
		caseSeq.Add(1)
		caseStart.Store(cpuNow())
		current.Store(c)
		defer current.Store(nil)
		f(t, func(desc string) {
			s.Evals++
			s.NonTrivial++
			h := fnv.New64a()
			h.Write([]byte(desc))
			if len(s.prints) < maxPrints {
				s.prints[h.Sum64()] = struct{}{}
			}
			if len(s.Samples) < 2 {
				s.Samples = append(s.Samples, cut(desc, 300))
			}
		})
	})
}

// Panics runs f and returns what it panicked with.
func Panics(f func()) (v any, panicked bool) {
	done := false
	defer func() {
		if !done {
			v = recover()
			panicked = true
		}
	}()
	f()
	done = true
	return
}

// Harness reports that the harness itself (not the code under test) could not go on.
func Harness(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "VT-HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

func cpuNow() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

var (
	hangCPU = 60 * time.Second // CPU burnt by one case (a normal one takes milliseconds)
	heapMax = uint64(5 << 30)
)

// SetHangCPU changes how much CPU time a single case may burn before it counts as a livelock.
func SetHangCPU(d time.Duration) { hangCPU = d }

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// normalised goroutine dump: only states, without addresses and waiting times
func blockedState() (string, bool) {
	st := stacks()
	var out []string
	all := true
	for _, g := range strings.Split(st, "\n\n") {
		line, rest, _ := strings.Cut(g, "\n")
		if strings.Contains(rest, "vt.watch") {
			continue
		}
		i, j := strings.Index(line, "["), strings.Index(line, "]")
		if i < 0 || j < i {
			continue
		}
		state := strings.Split(line[i+1:j], ",")[0]
		out = append(out, line[:i]+state)
		switch {
		case strings.HasPrefix(state, "sleep") && strings.Contains(line, "synctest bubble"):
			// fake time stands still while another goroutine of the bubble waits for a mutex
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"),
			strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"),
			strings.HasPrefix(state, "synctest"), strings.HasPrefix(state, "durable"),
			strings.HasPrefix(state, "finalizer wait"), strings.HasPrefix(state, "GC "),
			strings.HasPrefix(state, "cleanup wait"), strings.HasPrefix(state, "force gc"):
		default:
			all = false
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n"), all
}

func die(kind string, c *C) {
	fmt.Printf("VT-HANG kind=%s sub=%s\ncase: %s\n", kind, c.sub.Name, c.String())
	fmt.Println(cut(stacks(), 20000))
	write(true)
	os.Exit(77)
}

func watch() {
	var lastSeq int64
	var idle int
	var lastState string
	for {
		time.Sleep(500 * time.Millisecond)
		c := current.Load()
		if c == nil {
			idle = 0
			continue
		}
		seq := caseSeq.Load()
		if seq == lastSeq {
			if d := cpuNow() - caseStart.Load(); d > int64(hangCPU) && seq == caseSeq.Load() {
				die("livelock", c)
			}
			var before, after syscall.Rusage
			syscall.Getrusage(syscall.RUSAGE_SELF, &before)
			st, blocked := blockedState()
			syscall.Getrusage(syscall.RUSAGE_SELF, &after)
			if blocked && st == lastState {
				idle++
			} else {
				idle = 0
			}
			lastState = st
			if idle >= 40 && seq == caseSeq.Load() { // 20 s in the same fully blocked state
				die("deadlock", c)
			}
		} else {
			idle = 0
			lastState = ""
		}
		lastSeq = seq
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapMax {
			if c := current.Load(); c != nil {
				die("memory", c)
			}
		}
	}
}

func write(partial bool) {
	path := os.Getenv("VT_OUT")
	if path == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	type outSub struct {
		*Sub
		Distinct int      `json:"distinct"`
		Prints   []string `json:"prints"`
	}
	var out struct {
		Partial bool     `json:"partial"`
		Subs    []outSub `json:"subs"`
	}
	out.Partial = partial
	for _, s := range subs {
		o := outSub{Sub: s, Distinct: len(s.prints)}
		for p := range s.prints {
			o.Prints = append(o.Prints, strconv.FormatUint(p, 36))
		}
		sort.Strings(o.Prints)
		out.Subs = append(out.Subs, o)
	}
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(path, b, 0o666)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "VT-HARNESS-ERROR: result file:", err)
		os.Exit(3)
	}
}

// Main is TestMain of every check.
func Main(m *testing.M) {
	flag.Parse()
	go watch()
	code := m.Run()
	write(false)
	os.Exit(code)
}
