package wheel

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"pgregory.net/rapid"
	"vharness/vt"
)

// hammered schedules tasks from many more goroutines than there are processors, on the real
// clock, so that schedulers are interrupted between looking at the wheel and entering a slot while
// the wheel turns. Nothing about real time is required: once the schedulers are done and every
// task's time is past, tasks scheduled one after the other (each when the one before ran) may not
// all overtake one that was due before any of them was scheduled.
func hammered(rt *rapid.T, c *vt.C) {
	tick := vt.Pick[int64](rt, "tick", 1, 2, 5, 10)
	size := vt.Pick[int64](rt, "size", 3, 4, 8, 20, 50, 100, 200)
	workers := rapid.IntRange(50, 250).Draw(rt, "workers")
	limit := time.Duration(rapid.IntRange(50, 400).Draw(rt, "limit")) * ms
	each := 200000 / workers
	seed := rapid.Uint64().Draw(rt, "delays")
	c.Logf("tick=%dms size=%d, %d goroutines schedule up to %d tasks each within %v", tick, size, workers, each, limit)
	tw := timingwheel.New(tick, size)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { tw.Run(ctx); close(done) }()
	defer func() { cancel(); <-done }()

	type note struct {
		due   time.Time
		ran   atomic.Int32
		early atomic.Int64
	}
	all := make([][]note, workers)
	total := 0
	start := time.Now()
	var wg sync.WaitGroup
	for w := range all {
		notes := make([]note, each)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := vt.Mix(seed + uint64(w))
			defer func() { all[w] = notes }()
			for i := range notes {
				if time.Since(start) > limit {
					notes = notes[:i]
					return
				}
				x = vt.Mix(x + uint64(i))
				ticks := int64(x>>8) % 3
				switch kind := x & 7; {
				case kind < 3: // nearly a whole turn: the slot of the next round
					ticks = size - 1 - ticks
				case kind < 5: // about to belong to this turn
					ticks += size
				case kind == 5 && tick*size*size < 500: // the same, one level up
					ticks += size * (size - 1)
				}
				n := &notes[i]
				n.due = time.Now().Add(time.Duration(ticks*tick) * ms)
				tw.AfterFunc(time.Duration(ticks*tick)*ms, func() {
					if early := time.Until(n.due); early > time.Duration(tick)*ms+2*ms {
						n.early.Store(int64(early))
					}
					n.ran.Add(1)
				})
			}
		}()
	}
	wg.Wait()
	took := time.Since(start)
	// the short tasks are due by now; those of nearly a turn take longer
	checkDue := func(when time.Time, what string) {
		for range 12 {
			hit := make(chan struct{})
			tw.AfterFunc(time.Duration(tick)*ms, func() { close(hit) })
			<-hit
			time.Sleep(time.Millisecond)
			runtime.Gosched()
		}
		for w := range all {
			for i := range all[w] {
				n := &all[w][i]
				if e := n.early.Load(); e != 0 {
					rt.Fatalf("%s: a task ran %v before it was due, with a tick of %d ms", what, time.Duration(e), tick)
				}
				if r := n.ran.Load(); r > 1 || r == 0 && n.due.Before(when) {
					rt.Fatalf("%s: a task due %v after the start, scheduled within %v, ran %d times although 12 tasks scheduled after it was due, one after the other, ran", what, n.due.Sub(start), took, r)
				}
			}
		}
	}
	for k := 0; ; k++ {
		time.Sleep(time.Duration(4*tick)*ms + 5*ms)
		when := time.Now().Add(-time.Duration(2*tick)*ms - 2*ms)
		checkDue(when, "after the schedulers were done")
		left := false
		for w := range all {
			for i := range all[w] {
				left = left || all[w][i].ran.Load() == 0
			}
		}
		if !left {
			break
		}
		time.Sleep(time.Duration(tick*size/6) * ms)
	}
	for w := range all {
		total += len(all[w])
	}
	c.Label(fmt.Sprintf("1e%d tasks", len(fmt.Sprint(total))-1))
	c.NTIf(took > time.Duration(tick)*ms)
}

// hammeredStops lets thousands of tasks cascade from an overflow wheel at one instant of the real
// clock, and stops them one by one around that instant, long before any is due. Nothing about real
// time is required: a stop that returned false long before the task was due is wrong, unless the
// task did run early (C09), and a stopped task may not run.
func hammeredStops(rt *rapid.T, c *vt.C) {
	tick := vt.Pick[int64](rt, "tick", 1, 2, 5, 10)
	size := vt.Pick[int64](rt, "size", 16, 20, 32)
	turn := time.Duration(tick*size) * ms
	for turn < 60*ms {
		size *= 2
		turn *= 2
	}
	n := rapid.IntRange(1000, 6000).Draw(rt, "tasks")
	spread := time.Duration(rapid.IntRange(1, 12).Draw(rt, "spread")) * ms
	seed := rapid.Uint64().Draw(rt, "moments")
	tw := timingwheel.New(tick, size)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { tw.Run(ctx); close(done) }()
	defer func() { cancel(); <-done }()
	type note struct {
		tm    *timingwheel.Timer
		due   time.Time
		ran   atomic.Int32
		ok    bool
		ended time.Time // when the stop had returned
	}
	// the next-but-one turn of the wheel begins at move; what is due in it moves down then
	now := time.Now()
	move := time.UnixMilli((now.UnixMilli()/int64(turn/ms) + 2) * int64(turn/ms))
	notes := make([]note, n)
	x := seed
	for i := range notes {
		x = vt.Mix(x + uint64(i))
		e := &notes[i]
		e.due = move.Add(turn/2 + time.Duration(x%uint64(turn/4/ms))*ms)
		e.tm = tw.AfterFunc(time.Until(e.due), func() { e.ran.Add(1) })
	}
	late := time.Now().After(move)
	var wg sync.WaitGroup
	for i := range notes {
		x = vt.Mix(x + uint64(i))
		at := move.Add(time.Duration(x%uint64(spread)) - ms/2)
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := &notes[i]
			time.Sleep(time.Until(at))
			e.ok = e.tm.Stop()
			e.ended = time.Now()
		}()
	}
	wg.Wait()
	c.Logf("tick=%dms size=%d: %d tasks move down within a turn of %v and are stopped within %v", tick, size, n, turn, spread)
	// every task's time passes on the wheel too
	time.Sleep(time.Until(move.Add(turn)))
	for range 3 {
		hit := make(chan struct{})
		tw.AfterFunc(time.Duration(2*tick)*ms, func() { close(hit) })
		<-hit
	}
	time.Sleep(5 * ms)
	inTime := 0
	for i := range notes {
		e := &notes[i]
		left := e.due.Sub(e.ended)
		if e.ok && e.ran.Load() != 0 {
			rt.Fatalf("task %d of %d was stopped %v before it was due, and ran %d times", i, n, left, e.ran.Load())
		}
		if left < time.Duration(tick)*ms+2*ms {
			continue
		}
		inTime++
		if !e.ok {
			rt.Fatalf("Stop returned false %v before task %d of %d was due (it moved down the wheel around then); the task ran %d times after all", left, i, n, e.ran.Load())
		}
	}
	c.NTIf(!late && inTime > n/2)
}
