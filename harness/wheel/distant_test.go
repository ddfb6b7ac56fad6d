package wheel

import (
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"pgregory.net/rapid"
	"vharness/vt"
)

// distantly yields a prepared series and then a time that never comes.
type distantly struct {
	b     *bench
	times []time.Time
	asked int
	runs  []time.Time
}

func (d *distantly) Next(time.Time) time.Time {
	d.b.mu.Lock()
	defer d.b.mu.Unlock()
	d.asked++
	if d.asked > len(d.times) {
		d.b.errs = append(d.b.errs, "a scheduler is asked for more times than came")
		return time.Time{}
	}
	return d.times[d.asked-1]
}

// distant schedules tasks for times that never come beside others that do.
func distant(rt *rapid.T, c *vt.C) {
	time.Sleep(time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "phase")))
	tick := vt.Pick[int64](rt, "tick", 1, 1, 2, 10, 333, 1000, 60000, 3600000)
	size := vt.Pick[int64](rt, "size", 2, 3, 4, 7, 10, 20, 64, 1000, 1024, 4096, 1)
	c.Logf("tick=%dms size=%d", tick, size)
	b := &bench{tw: timingwheel.New(tick, size), tick: time.Duration(tick) * ms, size: max(size, 2), done: make(chan struct{})}
	b.start()
	defer b.abandon()
	var all []*distantly
	var timers []*timingwheel.Timer
	for n := rapid.IntRange(1, 5).Draw(rt, "tasks"); n > 0; n-- {
		d := &distantly{b: b}
		at := time.Now()
		for k := rapid.IntRange(0, 2).Draw(rt, "near times"); k > 0; k-- {
			at = at.Add(time.Duration(rapid.Int64Range(0, 3*int64(b.tick)+int64(5*time.Second)).Draw(rt, "ahead")))
			d.times = append(d.times, at)
		}
		never := time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)
		if rapid.IntRange(0, 3).Draw(rt, "any") > 0 { // 30 years to 292 million years ahead
			never = time.UnixMilli(max(60*365*86400e3, int64(rapid.Uint64().Draw(rt, "instant")>>rapid.IntRange(1, 24).Draw(rt, "shift"))))
		}
		d.times = append(d.times, never)
		c.Logf("times %v", d.times)
		c.NTIf(never.UnixMilli() > 1<<43)
		c.LabelIf(never.Year() > 1000000, "over a million years ahead")
		all = append(all, d)
		timers = append(timers, b.tw.ScheduleFunc(d, func() {
			b.mu.Lock()
			d.runs = append(d.runs, time.Now())
			b.mu.Unlock()
		}))
		b.schedule(time.Duration(rapid.Int64Range(0, int64(10*time.Second)).Draw(rt, "delay")), nil)
		if rapid.Bool().Draw(rt, "centuries") {
			timers = append(timers, b.tw.AfterFunc(time.Duration(rapid.Int64Range(int64(50*365*24*time.Hour), 1<<63-1).Draw(rt, "far delay")), func() { b.errf("a task that is due in decades ran") }))
		}
		time.Sleep(time.Duration(rapid.Int64Range(0, int64(time.Second)).Draw(rt, "gap")))
	}
	time.Sleep(10*time.Second + 20*b.tick + 20*ms)
	b.overdue(rt, nil)
	synctest.Wait()
	b.mu.Lock()
	for i, d := range all {
		if d.asked != len(d.times) || len(d.runs) != len(d.times)-1 {
			b.errs = append(b.errs, "a scheduler's tasks did not run once for each time that came")
			c.Logf("series %d: asked %d times, ran %v", i, d.asked, d.runs)
			break
		}
		for k, at := range d.runs {
			if at.Before(d.times[k].Add(-b.early())) {
				b.errs = append(b.errs, "a task ran early")
			}
		}
	}
	b.mu.Unlock()
	b.fail(rt)
	for _, tm := range timers {
		if tm == nil {
			rt.Fatalf("no timer for a time to come")
		}
		if rapid.Bool().Draw(rt, "stop") && !tm.Stop() {
			rt.Fatalf("a task that is due in decades cannot be stopped")
		}
	}
	time.Sleep(time.Second)
	synctest.Wait()
	b.fail(rt)
	b.finish(rt)
}
