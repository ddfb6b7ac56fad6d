package conc

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"pgregory.net/rapid"
	"vharness/vt"
)

// What is set up on first use is raced for only once in a process. So every case of this sub-check
// is a fresh process (this test binary again), in which the first calls of all are made at the same
// moment, and compared with the same calls made alone only afterwards. The case is a function of the
// drawn numbers alone.

const coldEnv = "VT_COLD"

type coldPlan struct {
	instances bool
	seed, g   int
}

func (p coldPlan) String() string { return fmt.Sprintf("%t %d %d", p.instances, p.seed, p.g) }

// calls are the calls of the case, of distinct helpers where possible.
func (p coldPlan) calls() []call {
	gen := rapid.Custom(func(rt *rapid.T) []call {
		l := make([]call, rapid.IntRange(1, 8).Draw(rt, "n"))
		for i := range l {
			l[i] = draw(rt)
		}
		return l
	})
	return gen.Example(p.seed)
}

func (p coldPlan) scripts() [][]step {
	gen := rapid.Custom(func(rt *rapid.T) [][]step {
		l := make([][]step, p.g)
		focus := rapid.IntRange(-8, 11).Draw(rt, "focus")
		for i := range l {
			l[i] = make([]step, rapid.IntRange(1, 25).Draw(rt, "steps"))
			for k := range l[i] {
				l[i][k] = step{rapid.IntRange(0, 11).Draw(rt, "on"), rapid.IntRange(0, 2).Draw(rt, "op"), rapid.IntRange(0, 40).Draw(rt, "n")}
				if focus >= 0 {
					l[i][k].on = focus
				}
			}
		}
		return l
	})
	return gen.Example(p.seed)
}

// TestCold is the fresh process.
func TestCold(t *testing.T) {
	var p coldPlan
	if n, _ := fmt.Sscanf(os.Getenv(coldEnv), "%t %d %d", &p.instances, &p.seed, &p.g); n != 3 {
		t.Skip("not a fresh process of C40")
	}
	if p.instances {
		scripts := p.scripts()
		synctest.Test(t, func(t *testing.T) {
			fs, got := make([]func(), p.g), make([]string, p.g)
			for i := range fs {
				fs[i] = func() { got[i] = play(scripts[i]) }
			}
			together(fs)
			for i := range got {
				if want := play(scripts[i]); got[i] != want {
					t.Fatalf("COLD: at first use goroutine %d saw\n%s\ntogether with others and\n%s\nalone", i, got[i], want)
				}
			}
		})
		return
	}
	setup()
	defer os.RemoveAll(scratch)
	calls := p.calls()
	fs := make([]func(), p.g)
	got := make([][]string, p.g)
	for i := range fs {
		got[i] = make([]string, len(calls))
		fs[i] = func() {
			for k := range calls {
				// the first calls of all goroutines are of the same helper
				got[i][k] = calls[k].f()
			}
		}
	}
	together(fs)
	for k, c := range calls {
		want := c.f()
		for i := range got {
			if got[i][k] != want {
				t.Fatalf("COLD: %s returned %q alone and %q when it was first used, together with others", c.name, want, got[i][k])
			}
		}
	}
}

var exe = sync.OnceValue(func() string {
	e, err := os.Executable()
	if err != nil {
		vt.Harness("%v", err)
	}
	return e
})

func cold(rt *rapid.T, c *vt.C) {
	p := coldPlan{rapid.IntRange(0, 3).Draw(rt, "instances") == 0, rapid.IntRange(1, 1<<30).Draw(rt, "seed"), rapid.IntRange(2, 8).Draw(rt, "goroutines")}
	if p.instances {
		c.Logf("fresh process, scripts %v", p.scripts())
	} else {
		var l []string
		for _, k := range p.calls() {
			l = append(l, k.name)
			c.Label(strings.SplitN(k.name, "(", 2)[0])
		}
		c.Logf("fresh process, %d goroutines, %s", p.g, strings.Join(l, ", "))
	}
	cmd := exec.Command(exe(), "-test.run=^TestCold$", "-test.timeout=120s")
	cmd.Env = append(os.Environ(), coldEnv+"="+p.String(), "VT_OUT=")
	out, err := cmd.CombinedOutput()
	var ee *exec.ExitError
	switch {
	case err == nil && strings.Contains(string(out), "PASS"):
		c.NT()
	case errors.As(err, &ee) && (strings.Contains(string(out), "COLD:") || strings.Contains(string(out), "WARNING: DATA RACE") || strings.Contains(string(out), "fatal error: concurrent map") || strings.Contains(string(out), "panic: ")):
		rt.Fatalf("a fresh process failed: %v\n%.6000s", err, out)
	default:
		vt.Harness("fresh process: %v\n%.3000s", err, out)
	}
}

func setup() {
	if scratch != "" {
		return
	}
	d, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "conc-")
	if err == nil {
		err = errors.Join(os.MkdirAll(filepath.Join(d, "shared", "sub"), 0o755), os.WriteFile(d+"/shared/f.csv", []byte("a,b\r\n\"c,\",d\r\n"), 0o644), os.WriteFile(d+"/shared/sub/g", nil, 0o644), os.Chdir(d))
	}
	if err != nil {
		vt.Harness("%v", err)
	}
	scratch = d
}
