package wheel

import (
	"context"
	"fmt"
	"math"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const ms = time.Millisecond

// bench is one wheel under test together with everything that was scheduled on it.
type bench struct {
	mu      sync.Mutex
	tw      *timingwheel.TimingWheel
	tick    time.Duration
	size    int64
	cancel  context.CancelFunc
	ran     bool          // Run was started
	started time.Time     // when
	done    chan struct{} // closed when Run returned
	tasks   []*task
	errs    []string
}

type task struct {
	id    int
	due   time.Time
	at    time.Time // when it was scheduled
	runs  []time.Time
	timer *timingwheel.Timer
}

func (b *bench) errf(format string, args ...any) {
	b.mu.Lock()
	if len(b.errs) < 5 {
		b.errs = append(b.errs, fmt.Sprintf(format, args...))
	}
	b.mu.Unlock()
}

func newBench(rt *rapid.T, c *vt.C) *bench {
	time.Sleep(time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "phase")))
	var tick int64
	switch vt.Weighted(rt, "tick kind", 3, 3, 1) {
	case 0:
		tick = rapid.Int64Range(1, 5).Draw(rt, "tick")
	case 1:
		tick = vt.Pick[int64](rt, "tick", 1, 7, 10, 50, 100, 333, 1000, 60000)
	default:
		tick = rapid.Int64Range(1, 5000).Draw(rt, "tick")
	}
	size := vt.Pick[int64](rt, "size", 2, 2, 3, 4, 5, 7, 10, 20, 64, 1)
	c.Logf("tick=%dms size=%d", tick, size)
	return &bench{tw: timingwheel.New(tick, size), tick: time.Duration(tick) * ms, size: max(size, 2), done: make(chan struct{})}
}

func (b *bench) start() {
	ctx, cancel := context.WithCancel(context.Background())
	b.cancel = cancel
	b.ran = true
	b.started = time.Now()
	go func() {
		b.tw.Run(ctx)
		close(b.done)
	}()
}

// abandon lets the wheel's goroutines end when a case ends early.
func (b *bench) abandon() {
	if b.cancel != nil {
		b.cancel()
	}
	time.Sleep(time.Hour) // tasks at work end
}

// drawDelay draws around zero, ticks, turns of the wheel and turns of its overflow wheels.
func (b *bench) drawDelay(rt *rapid.T) time.Duration {
	turn := b.tick * time.Duration(b.size)
	jitter := func() time.Duration {
		return vt.Pick(rt, "jitter", time.Duration(0), 0, 1, -1, ms, -ms, b.tick, -b.tick, b.tick/2, time.Duration(rapid.Int64Range(-int64(b.tick), int64(b.tick)).Draw(rt, "j")))
	}
	var d time.Duration
	switch vt.Weighted(rt, "delay kind", 3, 4, 4, 3, 2, 2, 2) {
	case 0:
		return vt.Pick(rt, "delay", time.Duration(0), -1, 1, -ms, ms, -time.Hour, -b.tick, b.tick, b.tick-1, b.tick+1, -time.Duration(1<<62))
	case 1:
		d = time.Duration(rapid.Int64Range(0, 2*b.size).Draw(rt, "ticks"))*b.tick + jitter()
	case 2:
		d = time.Duration(rapid.Int64Range(1, b.size+1).Draw(rt, "turns"))*turn + jitter()
	case 3:
		d = time.Duration(rapid.Int64Range(1, b.size+1).Draw(rt, "turns2"))*turn*time.Duration(b.size) + jitter()
	case 4:
		t := turn * time.Duration(b.size) * time.Duration(b.size)
		if t > 100*24*time.Hour {
			t = turn
		}
		d = time.Duration(rapid.Int64Range(1, 3).Draw(rt, "turns3"))*t + jitter()
	case 5:
		d = time.Duration(rapid.Int64Range(0, int64(3*turn)).Draw(rt, "any"))
	case 6:
		d = time.Duration(rapid.Int64Range(0, int64(20*time.Second)).Draw(rt, "ns"))
	}
	if d > 2000*24*time.Hour {
		d = 2000 * 24 * time.Hour
	}
	return d
}

// early is how much earlier than its due time a task may run.
func (b *bench) early() time.Duration { return b.tick + ms }

// schedule adds a one-shot task now. after, if not nil, runs inside the task.
func (b *bench) schedule(d time.Duration, after func(t *task)) *task {
	b.mu.Lock()
	now := time.Now()
	t := &task{id: len(b.tasks), due: now.Add(d), at: now}
	b.tasks = append(b.tasks, t)
	b.mu.Unlock()
	tm := b.tw.AfterFunc(d, func() {
		now := time.Now()
		b.mu.Lock()
		t.runs = append(t.runs, now)
		n := len(t.runs)
		b.mu.Unlock()
		if n > 1 {
			b.errf("task %d ran %d times", t.id, n)
		}
		if now.Before(t.due.Add(-b.early())) {
			b.errf("task %d ran %s before its due time (tick %s)", t.id, t.due.Sub(now), b.tick)
		}
		if after != nil {
			after(t)
		}
	})
	b.mu.Lock()
	t.timer = tm
	b.mu.Unlock()
	if tm == nil {
		b.errf("AfterFunc returned no timer")
	}
	return t
}

// deadline is the latest moment a task due at due and scheduled at `at` may run.
func (b *bench) deadline(due, at time.Time) time.Time {
	if due.Before(at) {
		due = at
	}
	if due.Before(b.started) {
		due = b.started
	}
	return due.Add(ms)
}

func (b *bench) fail(rt *rapid.T) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.errs) > 0 {
		rt.Fatalf("%s", b.errs[0])
	}
}

// overdue reports tasks that should have run by now.
func (b *bench) overdue(rt *rapid.T, skip func(*task) bool) {
	synctest.Wait()
	b.fail(rt)
	b.mu.Lock()
	defer b.mu.Unlock()
	if !b.ran {
		return
	}
	now := time.Now()
	for _, t := range b.tasks {
		if skip != nil && skip(t) {
			continue
		}
		if len(t.runs) == 0 && !now.Before(b.deadline(t.due, t.at)) {
			rt.Fatalf("task %d has not run %s after its due time", t.id, now.Sub(t.due))
		}
		if len(t.runs) > 0 && t.runs[0].After(b.deadline(t.due, t.at)) {
			rt.Fatalf("task %d ran %s after its due time", t.id, t.runs[0].Sub(t.due))
		}
	}
}

func (b *bench) finish(rt *rapid.T) {
	if !b.ran {
		return
	}
	b.cancel()
	synctest.Wait()
	select {
	case <-b.done:
	default:
		rt.Fatalf("Run has not returned after its context was cancelled")
	}
}

// sleepTo moves the clock towards an interesting moment.
func (b *bench) sleep(rt *rapid.T, c *vt.C) {
	now := time.Now()
	var d time.Duration
	switch vt.Weighted(rt, "sleep", 3, 4, 3, 3, 1) {
	case 0:
		return
	case 1:
		b.mu.Lock()
		var pend []time.Time
		for _, t := range b.tasks {
			if len(t.runs) == 0 && t.due.After(now) {
				pend = append(pend, t.due)
			}
		}
		b.mu.Unlock()
		if len(pend) > 0 {
			d = pend[rapid.IntRange(0, len(pend)-1).Draw(rt, "to")].Sub(now) + vt.Pick(rt, "off", time.Duration(0), -1, 1, ms, -ms, -b.tick, b.tick, -b.tick-ms, -b.tick*time.Duration(b.size))
		}
	case 2:
		d = time.Duration(rapid.Int64Range(0, int64(3*b.tick)).Draw(rt, "ns"))
	case 3:
		d = time.Duration(rapid.Int64Range(0, 3*b.size).Draw(rt, "ticks")) * b.tick
	case 4:
		d = time.Duration(rapid.Int64Range(0, int64(30*24*time.Hour)).Draw(rt, "idle"))
	}
	if d > 0 {
		c.Logf("sleep %s", d)
		time.Sleep(d)
	}
}

// ---------------------------------------------------------------- C09

func TestC09(t *testing.T) {
	vt.Check(t, "hammered", "50 to 250 goroutines schedule up to 200,000 tasks in 50 to 400 ms on a running wheel on the real clock, due within two ticks or about a turn ahead; none may run more than a tick early, and then every task that is due must have run, once, before 12 tasks scheduled after it was due have run one after the other; non-trivial: the wheel advanced while they scheduled",
		4, 200, hammered)
	vt.Sync(t, "crowds", "3 to 20000 (log-uniform) tasks due at one moment, within a tick or spread over several turns, most of which sleep or wait until a task due later has run, on a wheel that was started before or late; each must start on time, also while the others are at work; non-trivial: at least 100 tasks were at work at once",
		120, 3000, crowds)
	vt.Sync(t, "script", "a wheel (tick 1 ms..60 s, 2..64 slots, started at once or late) and one-shot tasks scheduled from the main goroutine, from concurrent goroutines and from tasks, with delays around zero, ticks and turns of the wheel and its overflow wheels, between sleeps; non-trivial: at least one task lay beyond the first turn of the wheel",
		4000, 100000, func(rt *rapid.T, c *vt.C) {
			b := newBench(rt, c)
			defer b.abandon()
			turn := b.tick * time.Duration(b.size)
			startAt := vt.Weighted(rt, "start", 3, 1) * rapid.IntRange(0, 4).Draw(rt, "start step")
			far, nested := false, false
			steps := rapid.IntRange(1, 10).Draw(rt, "steps")
			add := func(d time.Duration) {
				if d > turn {
					far = true
				}
				depth := vt.Pick(rt, "chain", 0, 0, 0, 1, 2, 3)
				var next []time.Duration
				for i := 0; i < depth; i++ {
					next = append(next, b.drawDelay(rt))
				}
				work := vt.Pick(rt, "work", time.Duration(0), 0, 0, ms, b.tick)
				c.Logf("after %s then %v", d, next)
				nested = nested || depth > 0
				var chain func(i int) func(*task)
				chain = func(i int) func(*task) {
					return func(*task) {
						if i < len(next) {
							b.schedule(next[i], chain(i+1))
						}
						if work > 0 {
							time.Sleep(work)
						}
					}
				}
				b.schedule(d, chain(0))
			}
			for s := 0; s < steps; s++ {
				if s == startAt {
					b.start()
					if rapid.Bool().Draw(rt, "settle start") {
						synctest.Wait()
					}
				}
				switch vt.Weighted(rt, "op", 5, 2) {
				case 0:
					add(b.drawDelay(rt))
				case 1:
					n := rapid.IntRange(2, 6).Draw(rt, "concurrent")
					same := rapid.Bool().Draw(rt, "same")
					d := b.drawDelay(rt)
					c.Logf("concurrently %d", n)
					var wg sync.WaitGroup
					for i := 0; i < n; i++ {
						if !same {
							d = b.drawDelay(rt)
						}
						if d > turn {
							far = true
						}
						c.Logf("after %s", d)
						wg.Add(1)
						go func(d time.Duration) { defer wg.Done(); b.schedule(d, nil) }(d)
					}
					wg.Wait()
				}
				b.overdue(rt, nil)
				b.sleep(rt, c)
				b.overdue(rt, nil)
			}
			if !b.ran {
				b.start()
			}
			// run to the end (tasks may schedule further ones)
			for {
				synctest.Wait()
				b.mu.Lock()
				var last time.Time
				for _, t := range b.tasks {
					if len(t.runs) == 0 && t.due.After(last) {
						last = t.due
					}
				}
				b.mu.Unlock()
				if last.IsZero() {
					break
				}
				time.Sleep(b.deadline(last, last).Sub(time.Now()))
				b.overdue(rt, nil)
			}
			time.Sleep(2*turn + b.tick + 2*ms) // nothing may run again
			b.overdue(rt, nil)
			b.finish(rt)
			c.LabelIf(nested, "scheduled from a task")
			c.LabelIf(startAt > 0, "late start")
			c.NTIf(far)
		})
}

// ---------------------------------------------------------------- C11

// series is a Scheduler yielding prepared steps from the time it is given.
type series struct {
	b      *bench
	name   string
	steps  []time.Duration // offset of each yielded time from the previous one (or from now)
	abs    bool            // first step counts from now, the others from the last yielded time (ns exact)
	n      int
	yields []time.Time
	at     []time.Time // when each was yielded
	runs   []time.Time
	zeroed bool
	panics int
}

func (s *series) Next(prev time.Time) time.Time {
	b := s.b
	b.mu.Lock()
	defer b.mu.Unlock()
	now := time.Now()
	bad := func(format string, args ...any) { b.errs = append(b.errs, s.name+": "+fmt.Sprintf(format, args...)) }
	if s.zeroed {
		bad("asked for a next time after the zero time")
		return time.Time{}
	}
	if s.n == 0 {
		if d := now.Sub(prev); d < 0 || d > ms {
			bad("first asked with a time %s before now", d)
		}
	} else if d := s.yields[s.n-1].Sub(prev); d >= ms || d <= -ms {
		bad("asked with %s, not with the previous scheduled time (%s away)", prev.Format("05.000000000"), d)
	}
	if s.n == len(s.steps) {
		s.zeroed = true
		return time.Time{}
	}
	base := prev
	if s.abs && s.n > 0 {
		base = s.yields[s.n-1]
	}
	next := base.Add(s.steps[s.n])
	if s.n > 0 && next.Before(s.yields[s.n-1]) {
		next = s.yields[s.n-1]
	}
	s.n++
	s.yields = append(s.yields, next)
	s.at = append(s.at, now)
	return next
}

func (s *series) run() {
	now := time.Now()
	s.b.mu.Lock()
	s.runs = append(s.runs, now)
	s.b.mu.Unlock()
}

// check matches the runs so far with the times yielded so far.
func (s *series) check(rt *rapid.T, complete bool) {
	b := s.b
	b.mu.Lock()
	defer b.mu.Unlock()
	runs := append([]time.Time(nil), s.runs...)
	sort.Slice(runs, func(i, j int) bool { return runs[i].Before(runs[j]) })
	if len(runs) > len(s.yields) {
		rt.Fatalf("%s ran %d times for %d scheduled times", s.name, len(runs), len(s.yields))
	}
	now := time.Now()
	for i, y := range s.yields {
		latest := b.deadline(y, s.at[i])
		if i >= len(runs) {
			if complete || !now.Before(latest) && b.ran {
				rt.Fatalf("%s: no run for scheduled time %d, %s ago", s.name, i, now.Sub(y))
			}
			break
		}
		if runs[i].Before(y.Add(-b.early())) {
			rt.Fatalf("%s: run %d came %s before its scheduled time (tick %s)", s.name, i, y.Sub(runs[i]), b.tick)
		}
		if runs[i].After(latest) {
			rt.Fatalf("%s: run %d came %s after its scheduled time", s.name, i, runs[i].Sub(y))
		}
	}
	if complete && !s.zeroed {
		rt.Fatalf("%s: not asked for the next time after its last run", s.name)
	}
}

func (b *bench) drawSeries(rt *rapid.T, c *vt.C, name string, maxN int) *series {
	s := &series{b: b, name: name, abs: rapid.Bool().Draw(rt, "abs")}
	n := rapid.IntRange(0, maxN).Draw(rt, "yields")
	same := rapid.Bool().Draw(rt, "periodic")
	d := b.drawDelay(rt)
	for i := 0; i < n; i++ {
		if !same && i > 0 {
			d = b.drawDelay(rt)
		}
		if i > 0 && d < 0 {
			d = 0
		}
		if d > 400*24*time.Hour {
			d = 400 * 24 * time.Hour
		}
		if d < -time.Hour {
			d = -time.Hour
		}
		s.steps = append(s.steps, d)
	}
	c.Logf("%s abs=%v %v", name, s.abs, s.steps)
	return s
}

func TestC11(t *testing.T) {
	vt.Sync(t, "script", "recurring tasks whose schedulers yield 0..8 times (periodic or irregular, in the past, below a tick, many turns ahead) and then the zero time, mixed with one-shot tasks and sleeps; non-trivial: a series of at least three times not all within one tick",
		4000, 100000, func(rt *rapid.T, c *vt.C) {
			b := newBench(rt, c)
			defer b.abandon()
			var all []*series
			startAt := vt.Weighted(rt, "start", 3, 1) * rapid.IntRange(0, 3).Draw(rt, "start step")
			steps := rapid.IntRange(1, 6).Draw(rt, "steps")
			for s := 0; s < steps; s++ {
				if s == startAt {
					b.start()
				}
				switch vt.Weighted(rt, "op", 4, 1) {
				case 0:
					sr := b.drawSeries(rt, c, fmt.Sprintf("series %d", len(all)), 8)
					work := vt.Pick(rt, "work", time.Duration(0), 0, b.tick, 5*b.tick)
					tm := b.tw.ScheduleFunc(sr, func() {
						sr.run()
						if work > 0 {
							time.Sleep(work)
						}
					})
					if (tm == nil) != (len(sr.steps) == 0) {
						rt.Fatalf("ScheduleFunc with %d times to come returned timer %v", len(sr.steps), tm)
					}
					all = append(all, sr)
				case 1:
					b.schedule(b.drawDelay(rt), nil)
				}
				if rapid.Bool().Draw(rt, "settle") {
					b.overdue(rt, nil)
				}
				b.sleep(rt, c)
				b.overdue(rt, nil)
				for _, sr := range all {
					sr.check(rt, false)
				}
			}
			if !b.ran {
				b.start()
			}
			for {
				b.overdue(rt, nil)
				var last time.Time
				b.mu.Lock()
				for _, sr := range all {
					if !sr.zeroed && len(sr.yields) > 0 && len(sr.runs) < len(sr.yields) && sr.yields[len(sr.yields)-1].After(last) {
						last = sr.yields[len(sr.yields)-1]
					}
				}
				b.mu.Unlock()
				if last.IsZero() {
					break
				}
				if w := b.deadline(last, last).Sub(time.Now()); w > 0 {
					time.Sleep(w)
				}
				b.overdue(rt, nil)
				for _, sr := range all {
					sr.check(rt, false)
				}
			}
			time.Sleep(2*b.tick*time.Duration(b.size) + 2*ms)
			synctest.Wait()
			b.fail(rt)
			long := false
			for _, sr := range all {
				sr.check(rt, true)
				if n := len(sr.yields); n >= 3 && sr.yields[n-1].Sub(sr.yields[0]) > b.tick {
					long = true
				}
			}
			b.finish(rt)
			c.NTIf(long)
		})
	vt.Sync(t, "distant", "one to five series of up to two times that come and then one that never does (decades to 292 million years ahead), beside one-shot tasks and delays of centuries, on wheels of 2 to 4096 slots: what is due runs, what is not can be stopped; non-trivial: a time more than 270 years ahead",
		300, 10000, distant)
}

// ---------------------------------------------------------------- C10

func TestC10(t *testing.T) {
	vt.Check(t, "hammered stops", "1000 to 6000 tasks that move down from the overflow wheel at one instant of the real clock, and are stopped, each by a goroutine of its own, within 1 to 12 ms around that instant, long before they are due: every stop must succeed and its task may not run; non-trivial: most stops returned before their tasks were due",
		12, 600, hammeredStops)
	stopScripts(t)
	cancelScripts(t)
}

func stopScripts(t *testing.T) {
	vt.Sync(t, "stop", "one-shot and recurring tasks, stopped when everything is quiet (result must be exact), from their own task, or by several goroutines racing with the expiry; non-trivial: a stop that had to succeed and one that had to fail both happened",
		4000, 100000, func(rt *rapid.T, c *vt.C) {
			b := newBench(rt, c)
			defer b.abandon()
			turn := b.tick * time.Duration(b.size)
			type st struct {
				t       *task
				stopped bool
				ambig   bool
				runs    int // runs counted when it was stopped
			}
			var one []*st
			type rec struct {
				s       *series
				tm      *timingwheel.Timer
				stopped bool
				runs    int
				own     int // run in which the task stops itself, -1 never
				ownDone bool
				ownRes  bool
				ownAt   time.Time
				ownNext time.Time
			}
			var recs []*rec
			lateStart := vt.Weighted(rt, "late start", 4, 1) == 1
			if !lateStart {
				b.start()
			}
			skip := func(t *task) bool {
				for _, x := range one {
					if x.t == t && (x.stopped || x.ambig) {
						return true
					}
				}
				return false
			}
			verify := func() {
				b.overdue(rt, skip)
				b.mu.Lock()
				defer b.mu.Unlock()
				for _, x := range one {
					if x.stopped && len(x.t.runs) != 0 {
						rt.Fatalf("task %d ran although stopping it reported true", x.t.id)
					}
				}
				for _, r := range recs {
					if r.stopped && len(r.s.runs) != r.runs {
						rt.Fatalf("%s ran again after stopping it reported true", r.s.name)
					}
					if r.ownDone && r.ownRes {
						for _, at := range r.s.runs {
							if at.After(r.ownAt) {
								rt.Fatalf("%s ran again after its task stopped it with result true", r.s.name)
							}
						}
					}
				}
			}
			okStop, noStop := false, false
			steps := rapid.IntRange(1, 14).Draw(rt, "steps")
			for s := 0; s < steps; s++ {
				switch vt.Weighted(rt, "op", 5, 2, 5, 2, 3) {
				case 0:
					d := b.drawDelay(rt)
					c.Logf("after %s", d)
					one = append(one, &st{t: b.schedule(d, nil)})
				case 1:
					r := &rec{s: b.drawSeries(rt, c, fmt.Sprintf("series %d", len(recs)), 6), own: -1}
					if rapid.IntRange(0, 2).Draw(rt, "own") == 0 {
						r.own = rapid.IntRange(0, 3).Draw(rt, "own run")
						c.Logf("stops itself in run %d", r.own)
					}
					ready := make(chan struct{})
					r.tm = b.tw.ScheduleFunc(r.s, func() {
						r.s.run()
						<-ready
						b.mu.Lock()
						mine := len(r.s.runs)-1 == r.own && !r.ownDone
						if mine {
							r.ownNext = r.s.yields[len(r.s.yields)-1]
						}
						b.mu.Unlock()
						if mine {
							res := r.tm.Stop()
							b.mu.Lock()
							r.ownDone, r.ownRes, r.ownAt = true, res, time.Now()
							b.mu.Unlock()
						}
					})
					close(ready)
					if r.tm != nil {
						recs = append(recs, r)
					}
				case 2: // stop a one-shot task when everything is quiet
					if len(one) == 0 {
						continue
					}
					x := one[rapid.IntRange(0, len(one)-1).Draw(rt, "which")]
					verify()
					if x.ambig {
						continue
					}
					b.mu.Lock()
					ran := len(x.t.runs) > 0
					b.mu.Unlock()
					want := !ran && !x.stopped
					c.Logf("stop %d", x.t.id)
					got := x.t.timer.Stop()
					if got != want {
						rt.Fatalf("stopping task %d reported %v, want %v (ran %v, stopped before %v)", x.t.id, got, want, ran, x.stopped)
					}
					okStop, noStop = okStop || got, noStop || !got
					x.stopped = x.stopped || got
				case 3: // stop a recurring task when everything is quiet
					if len(recs) == 0 {
						continue
					}
					r := recs[rapid.IntRange(0, len(recs)-1).Draw(rt, "which")]
					verify()
					b.mu.Lock()
					pending := len(r.s.runs) < len(r.s.yields) && !r.stopped && !(r.ownDone && r.ownRes)
					n := len(r.s.runs)
					b.mu.Unlock()
					c.Logf("stop %s", r.s.name)
					got := r.tm.Stop()
					if got != pending {
						rt.Fatalf("stopping %s reported %v, want %v (%d runs for %d times)", r.s.name, got, pending, n, len(r.s.yields))
					}
					okStop, noStop = okStop || got, noStop || !got
					if got {
						r.stopped, r.runs = true, n
					}
				case 4: // several goroutines stop at an instant where the task may run
					var cand []*st
					for _, x := range one {
						b.mu.Lock()
						if len(x.t.runs) == 0 && !x.stopped && !x.ambig {
							cand = append(cand, x)
						}
						b.mu.Unlock()
					}
					if len(cand) == 0 {
						continue
					}
					x := cand[rapid.IntRange(0, len(cand)-1).Draw(rt, "which")]
					edge := x.t.due
					if rapid.Bool().Draw(rt, "bucket edge") {
						edge = edge.Truncate(b.tick)
					} else if rapid.Bool().Draw(rt, "turn edge") {
						edge = edge.Truncate(turn)
					}
					n := rapid.IntRange(1, 4).Draw(rt, "stoppers")
					c.Logf("race %d stops of %d at %s before due", n, x.t.id, x.t.due.Sub(edge))
					wait := edge.Sub(time.Now())
					var wg sync.WaitGroup
					var mu sync.Mutex
					wins := 0
					for i := 0; i < n; i++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							if wait > 0 {
								time.Sleep(wait)
							}
							if x.t.timer.Stop() {
								mu.Lock()
								wins++
								mu.Unlock()
							}
						}()
					}
					wg.Wait()
					if wins > 1 {
						rt.Fatalf("%d concurrent stops of one task all reported true", wins)
					}
					if wins == 1 {
						x.stopped = true
					}
				}
				verify()
				if vt.Weighted(rt, "sleep?", 1, 1) == 1 {
					b.sleep(rt, c)
					verify()
				}
			}
			if lateStart {
				b.start()
			}
			verify()
			last := time.Now()
			for {
				b.mu.Lock()
				for _, x := range one {
					if x.t.due.After(last) {
						last = x.t.due
					}
				}
				n := 0
				for _, r := range recs {
					n += len(r.s.yields)
					for _, y := range r.s.yields {
						if y.After(last) {
							last = y
						}
					}
				}
				b.mu.Unlock()
				time.Sleep(last.Sub(time.Now()) + 2*ms)
				verify()
				m := 0
				for _, r := range recs {
					m += len(r.s.yields)
				}
				if m == n {
					break
				}
			}
			b.fail(rt)
			for _, r := range recs {
				// a series that nobody managed to stop must have run to its end
				if !r.stopped && !(r.ownDone && r.ownRes) {
					r.s.check(rt, true)
				}
				if r.ownDone && !r.stopped {
					together := 0 // runs at that instant (another one may have been scheduling just then)
					for _, at := range r.s.runs {
						if at.Equal(r.ownAt) {
							together++
						}
					}
					want := together == 1 && r.ownNext.Sub(r.ownAt) > 2*b.tick+ms
					if want && !r.ownRes {
						rt.Fatalf("%s: stopping from its own task reported false although the next run was %s ahead", r.s.name, r.ownNext.Sub(r.ownAt))
					}
				}
			}
			b.finish(rt)
			c.LabelIf(okStop, "stop true")
			c.LabelIf(noStop, "stop false")
			c.NTIf(okStop && noStop)
		})
}

func cancelScripts(t *testing.T) {
	vt.Sync(t, "cancel", "tasks scheduled before and after the wheel's context is cancelled (at task edges, with many buckets due at once, before Run even starts), timers stopped after it; non-trivial: a task was pending when the context was cancelled and something was scheduled afterwards",
		4000, 100000, func(rt *rapid.T, c *vt.C) {
			b := newBench(rt, c)
			defer b.abandon()
			var one []*task
			var sers []*series
			add := func() {
				if vt.Weighted(rt, "kind", 4, 1) == 0 {
					d := b.drawDelay(rt)
					c.Logf("after %s", d)
					one = append(one, b.schedule(d, nil))
					return
				}
				s := b.drawSeries(rt, c, fmt.Sprintf("series %d", len(sers)), 5)
				sers = append(sers, s)
				b.tw.ScheduleFunc(s, s.run)
			}
			mode := vt.Weighted(rt, "mode", 4, 2, 1)
			if mode == 0 {
				b.start()
			}
			n := rapid.IntRange(0, 6).Draw(rt, "tasks")
			for i := 0; i < n; i++ {
				add()
			}
			if rapid.IntRange(0, 4).Draw(rt, "many") == 0 { // more buckets than the wheel's channel holds
				m := rapid.IntRange(8, 30).Draw(rt, "n")
				c.Logf("%d ticks full", m)
				for i := 0; i < m; i++ {
					one = append(one, b.schedule(b.tick*time.Duration(i), nil))
				}
			}
			b.sleep(rt, c)
			if mode == 1 {
				b.start()
			}
			if mode == 2 { // cancelled before it runs
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				b.ran, b.started = true, time.Now()
				b.cancel = cancel
				go func() { b.tw.Run(ctx); close(b.done) }()
			} else {
				if rapid.Bool().Draw(rt, "settle") {
					synctest.Wait()
				}
				b.cancel()
			}
			at := time.Now()
			c.Logf("cancel")
			pending := false
			b.mu.Lock()
			for _, t := range one {
				pending = pending || t.due.After(at.Add(b.early()))
			}
			old := len(one)
			b.mu.Unlock()
			// more work at and after the moment of the cancellation
			type call struct {
				what string
				done bool
			}
			var calls []*call
			do := func(what string, f func()) {
				cl := &call{what: what}
				calls = append(calls, cl)
				go func() {
					f()
					b.mu.Lock()
					cl.done = true
					b.mu.Unlock()
				}()
			}
			settleCalls := func() {
				synctest.Wait()
				b.fail(rt)
				b.mu.Lock()
				defer b.mu.Unlock()
				for _, cl := range calls {
					if !cl.done {
						rt.Fatalf("%s is blocked after the wheel's context was cancelled", cl.what)
					}
				}
				select {
				case <-b.done:
				default:
					rt.Fatalf("Run has not returned after its context was cancelled")
				}
			}
			later := rapid.IntRange(0, 25).Draw(rt, "later")
			for i := 0; i < later; i++ {
				switch vt.Weighted(rt, "op", 4, 2, 2, 1) {
				case 0:
					d := b.drawDelay(rt)
					c.Logf("then after %s", d)
					do("AfterFunc", func() { b.schedule(d, nil) })
				case 1:
					if len(one) > 0 {
						t := one[rapid.IntRange(0, len(one)-1).Draw(rt, "which")]
						c.Logf("then stop %d", t.id)
						do("Stop", func() { t.timer.Stop() })
					}
				case 2:
					c.Logf("then")
					b.sleep(rt, c)
				case 3:
					s := b.drawSeries(rt, c, "late series", 4)
					do("ScheduleFunc", func() { b.tw.ScheduleFunc(s, s.run) })
				}
				if rapid.IntRange(0, 3).Draw(rt, "settle") == 0 {
					settleCalls()
				}
			}
			settleCalls()
			time.Sleep(b.tick*time.Duration(b.size)*2 + time.Hour)
			settleCalls()
			b.mu.Lock()
			for _, t := range one[:old] {
				for _, r := range t.runs {
					if r.After(at) {
						b.mu.Unlock()
						rt.Fatalf("task %d, pending when the context was cancelled, ran %s later", t.id, r.Sub(at))
					}
				}
				if len(t.runs) > 0 && t.due.Add(-b.early()).After(at) {
					b.mu.Unlock()
					rt.Fatalf("task %d ran although it was not due when the context was cancelled", t.id)
				}
			}
			b.mu.Unlock()
			c.NTIf(pending && later > 0)
		})
}

// crowds: tasks at work do not hold up others.
func crowds(rt *rapid.T, c *vt.C) {
	b := newBench(rt, c)
	defer b.abandon()
	n := int(math.Exp(rapid.Float64Range(math.Log(3), math.Log(20000)).Draw(rt, "log n")))
	spread := vt.Pick(rt, "spread", 0, b.tick, b.tick*time.Duration(b.size), 3*b.tick*time.Duration(b.size))
	base := b.drawDelay(rt)
	base = max(0, min(base, time.Hour))
	work := time.Duration(math.Exp(rapid.Float64Range(0, math.Log(float64(50*time.Minute))).Draw(rt, "log work")))
	kinds := rapid.IntRange(0, 2).Draw(rt, "kinds") // 0 sleep, 1 wait for a later task, 2 some of each and some idle
	seed := rapid.Uint64().Draw(rt, "seed")
	c.Logf("%d tasks after %s to %s more, work %s, kind %d", n, base, spread, work, kinds)
	late := rapid.IntRange(0, 3).Draw(rt, "late") == 0
	if !late {
		b.start()
	}
	gate := make(chan struct{})
	var busy, most atomic.Int64
	for i := 0; i < n; i++ {
		x := vt.Mix(seed + uint64(i))
		d := base
		if spread > 0 {
			d += time.Duration((x >> 8) % uint64(spread))
		}
		kind := kinds
		if kinds == 2 {
			kind = int(x % 3)
		}
		b.schedule(d, func(*task) {
			if v := busy.Add(1); v > most.Load() {
				most.Store(v)
			}
			switch kind {
			case 0:
				time.Sleep(work)
			case 1:
				<-gate
			}
			busy.Add(-1)
		})
	}
	var once sync.Once
	open := func() { once.Do(func() { close(gate) }) }
	defer open() // lets the tasks end
	b.schedule(base+spread+vt.Pick(rt, "last", 0, b.tick, time.Duration(b.size)*b.tick*2), func(*task) { open() })
	if late {
		time.Sleep(time.Duration(rapid.Int64Range(0, int64(base+2*spread)).Draw(rt, "start after")))
		b.start()
	}
	for i := rapid.IntRange(1, 4).Draw(rt, "looks"); i > 0; i-- {
		b.overdue(rt, nil)
		time.Sleep(time.Duration(rapid.Int64Range(0, int64(base+spread)).Draw(rt, "sleep")))
	}
	b.overdue(rt, nil)
	time.Sleep(base + spread + time.Duration(b.size)*b.tick*2 + 2*ms)
	b.overdue(rt, nil)
	for _, t := range b.tasks {
		if len(t.runs) != 1 {
			rt.Fatalf("task %d ran %d times", t.id, len(t.runs))
		}
	}
	c.NTIf(most.Load() >= 100)
	b.finish(rt)
}
