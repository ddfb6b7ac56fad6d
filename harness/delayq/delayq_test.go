package delayq

import (
	"context"
	"fmt"
	"math"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// the clock is the bubble's: nothing takes time but waiting
const slack = 20 * time.Microsecond

// clamp keeps sums with small offsets from overflowing.
func clamp(d time.Duration) time.Duration { return min(max(d, -1<<62), 1<<62) }

func drawDelay(rt *rapid.T, now time.Time, dues []time.Time) time.Duration {
	switch vt.Weighted(rt, "delay kind", 5, 3, 3, 2, 1, 1) {
	case 0:
		return time.Duration(rapid.IntRange(0, 40).Draw(rt, "ms")) * time.Millisecond
	case 1:
		return vt.Pick(rt, "delay", 0, -1, 1, time.Millisecond, -time.Millisecond, time.Second, 10*time.Millisecond)
	case 2: // around the due time of an element already there
		if len(dues) > 0 {
			return clamp(dues[rapid.IntRange(0, len(dues)-1).Draw(rt, "of")].Sub(now)) + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "off"))
		}
		return 0
	case 3:
		return time.Duration(rapid.Int64Range(-int64(time.Second), int64(time.Minute)).Draw(rt, "ns"))
	case 4:
		return time.Duration(rapid.Int64Range(0, int64(100*24*time.Hour)).Draw(rt, "long"))
	default:
		return vt.Pick(rt, "extreme", time.Duration(1<<62), -time.Duration(1<<62), 200*365*24*time.Hour, -200*365*24*time.Hour, time.Duration(1<<63-1), time.Duration(-1<<63))
	}
}

// ---------------------------------------------------------------- C07

type elem struct {
	id  int
	due time.Time
}

func TestC07(t *testing.T) {
	vt.Sync(t, "history", "one queue, pushes with delays (ties, due-instant edges, negative, huge), pops, looks, blocking takes with and without deadline, sleeps to the edges of due times; non-trivial: at least three elements were handed out, out of push order",
		12000, 300000, func(rt *rapid.T, c *vt.C) {
			q := delayqueue.New[int]()
			var model []elem
			next, lastOut, out := 0, -1, 0
			disorder := false
			time.Sleep(time.Duration(rapid.Int64Range(0, int64(2*time.Second)).Draw(rt, "phase")))
			minDue := func() (time.Time, bool) {
				if len(model) == 0 {
					return time.Time{}, false
				}
				m := model[0].due
				for _, e := range model {
					if e.due.Before(m) {
						m = e.due
					}
				}
				return m, true
			}
			dues := func() []time.Time {
				var r []time.Time
				for _, e := range model {
					r = append(r, e.due)
				}
				return r
			}
			find := func(id int) int {
				for i, e := range model {
					if e.id == id {
						return i
					}
				}
				return -1
			}
			handed := func(how string, id int) {
				i := find(id)
				if i < 0 {
					rt.Fatalf("%s returned %d, which is not in the queue (handed out before, or never pushed)", how, id)
				}
				now := time.Now()
				if now.Before(model[i].due) {
					rt.Fatalf("%s returned element %d %s before its delay has elapsed", how, id, model[i].due.Sub(now))
				}
				if m, _ := minDue(); m.Before(model[i].due) {
					rt.Fatalf("%s returned element %d although one due %s earlier is in the queue", how, id, model[i].due.Sub(m))
				}
				model = append(model[:i], model[i+1:]...)
				if id < lastOut {
					disorder = true
				}
				lastOut = id
				out++
			}
			steps := rapid.IntRange(1, 40).Draw(rt, "steps")
			for s := 0; s < steps; s++ {
				now := time.Now()
				switch vt.Weighted(rt, "op", 10, 4, 3, 5, 4, 1) {
				case 0:
					d := drawDelay(rt, now, dues())
					c.Logf("push %d %s", next, d)
					q.Push(next, d)
					model = append(model, elem{next, now.Add(d)})
					next++
				case 1:
					v, ok := q.Pop()
					m, any := minDue()
					want := any && !now.Before(m)
					c.Logf("pop %v", ok)
					if ok != want {
						rt.Fatalf("Pop returned (%d, %v), want %v: head due in %s", v, ok, want, m.Sub(now))
					}
					if ok {
						handed("Pop", v)
					} else if v != 0 {
						rt.Fatalf("Pop of nothing returned %d", v)
					}
				case 2:
					v, ok := q.Peek()
					m, any := minDue()
					c.Logf("peek")
					if ok != any {
						rt.Fatalf("Peek returned %v with %d elements", ok, len(model))
					}
					if ok {
						i := find(v)
						if i < 0 || !model[i].due.Equal(m) {
							rt.Fatalf("Peek returned element %d, not one with the earliest due time", v)
						}
					}
				case 3: // sleep
					var d time.Duration
					m, any := minDue()
					switch vt.Weighted(rt, "sleep", 3, 2, 2, 2) {
					case 0:
						d = time.Duration(rapid.IntRange(0, 30).Draw(rt, "ms")) * time.Millisecond
					case 1:
						if any {
							d = clamp(m.Sub(now))
						}
					case 2:
						if any {
							d = clamp(m.Sub(now)) - 1
						}
					case 3:
						d = time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "ns"))
					}
					if d > 0 && d < 400*24*time.Hour {
						c.Logf("sleep %s", d)
						time.Sleep(d)
					}
				case 4: // take
					m, any := minDue()
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					limit := time.Duration(-1)
					wait := time.Duration(0)
					if any {
						if wait = m.Sub(now); wait < 0 {
							wait = 0
						}
					}
					if !any || wait > 400*24*time.Hour || rapid.Bool().Draw(rt, "deadline") {
						limit = time.Duration(rapid.Int64Range(1, int64(50*time.Millisecond)).Draw(rt, "limit"))
						if any && wait > slack && wait < time.Hour && rapid.Bool().Draw(rt, "near") {
							limit = wait + vt.Pick(rt, "by", -time.Duration(1), 2*slack, 1)
						}
						ctx, cancel = context.WithTimeout(ctx, limit)
					}
					v, ok := q.Take(ctx)
					cancel()
					took := time.Since(now)
					c.Logf("take limit=%s -> %v", limit, ok)
					if ok {
						handed("Take", v)
						if took-slack > wait {
							rt.Fatalf("Take returned element %d after %s, it was due after %s", v, took, wait)
						}
						if limit >= 0 && took > limit+slack {
							rt.Fatalf("Take returned %s after a deadline of %s", took, limit)
						}
					} else {
						if limit < 0 {
							rt.Fatalf("Take gave up without being cancelled")
						}
						if any && wait < limit-slack || any && wait == 0 {
							rt.Fatalf("Take gave up after %s although an element was due after %s", took, wait)
						}
						if took < limit || took > limit+slack {
							rt.Fatalf("Take with a deadline of %s gave up after %s", limit, took)
						}
						if v != 0 {
							rt.Fatalf("Take of nothing returned %d", v)
						}
					}
				case 5:
					q2 := delayqueue.New[int]() // a second queue is independent
					if _, ok := q2.Peek(); ok || !q2.Empty() {
						rt.Fatalf("new queue is not empty")
					}
				}
				if q.Empty() != (len(model) == 0) {
					rt.Fatalf("Empty() = %v with %d elements", q.Empty(), len(model))
				}
			}
			// drain everything that is due within the reach of the clock
			for {
				m, any := minDue()
				if !any || m.Sub(time.Now()) > 400*24*time.Hour {
					break
				}
				v, ok := q.Take(context.Background())
				if !ok {
					rt.Fatalf("Take gave up without being cancelled")
				}
				handed("draining Take", v)
			}
			if q.Empty() != (len(model) == 0) {
				rt.Fatalf("after draining: Empty() = %v with %d elements", q.Empty(), len(model))
			}
			c.LabelIf(disorder, "out of push order")
			c.NTIf(out >= 3 && disorder)
		})
	vt.Sync(t, "many", "up to 20000 elements (80000 in the thorough tier) pushed with delays of few or many distinct values, rising, falling or scattered, in one to three waves with sleeps and partial drainings between them; every element comes out once, by due time, at its due time; non-trivial: more than 1000 elements in the queue at once",
		12, 300, many)
}

func many(rt *rapid.T, c *vt.C) {
	q := delayqueue.New[int]()
	top := 20000.0
	if vt.Thorough() {
		top = 80000
	}
	var dues []time.Time
	out := map[int]bool{}
	last := time.Time{}
	drain := func(upTo int) { // takes that many elements
		for ; upTo > 0; upTo-- {
			start := time.Now()
			v, ok := q.Take(context.Background())
			now := time.Now()
			if !ok || v < 0 || v >= len(dues) || out[v] {
				rt.Fatalf("Take returned (%d, %v) after %d of %d elements came out", v, ok, len(out), len(dues))
			}
			out[v] = true
			if now.Before(dues[v]) {
				rt.Fatalf("element %d of %d came out %s early", v, len(dues), dues[v].Sub(now))
			}
			if dues[v].Before(last) {
				rt.Fatalf("element %d of %d, due %s before the one which came out ahead of it", v, len(dues), last.Sub(dues[v]))
			}
			last = dues[v]
			want := start
			if dues[v].After(want) {
				want = dues[v]
			}
			if now.Sub(want) > slack {
				rt.Fatalf("element %d of %d came out %s late", v, len(dues), now.Sub(want))
			}
		}
	}
	most := 0
	for wave := rapid.IntRange(1, 3).Draw(rt, "waves"); wave > 0; wave-- {
		n := int(math.Exp(rapid.Float64Range(math.Log(30), math.Log(top)).Draw(rt, "log n")))
		distinct := uint64(math.Exp(rapid.Float64Range(0, math.Log(1e6)).Draw(rt, "log distinct")))
		shape := rapid.IntRange(0, 2).Draw(rt, "shape")
		unit := vt.Pick(rt, "unit", time.Nanosecond, time.Microsecond, time.Millisecond, time.Second)
		seed := rapid.Uint64().Draw(rt, "seed")
		c.Logf("push %d, %d delays of %s, shape %d", n, distinct, unit, shape)
		last = time.Time{} // later pushes may be due before what came out
		for i := 0; i < n; i++ {
			k := uint64(i)
			switch shape {
			case 1:
				k = uint64(n - i)
			case 2:
				k = vt.Mix(seed + uint64(i))
			}
			d := time.Duration(k%distinct) * unit
			q.Push(len(dues), d)
			dues = append(dues, time.Now().Add(d))
		}
		left := len(dues) - len(out)
		most = max(most, left)
		if rapid.Bool().Draw(rt, "sleep") {
			time.Sleep(time.Duration(rapid.Int64Range(1, int64(time.Minute)).Draw(rt, "ns")))
		}
		part := rapid.IntRange(0, left).Draw(rt, "taken")
		c.Logf("take %d of %d", part, left)
		drain(part)
	}
	drain(len(dues) - len(out))
	if v, ok := q.Pop(); ok || !q.Empty() {
		rt.Fatalf("all %d elements came out, but Pop returned (%d, %v) and Empty %v", len(dues), v, ok, q.Empty())
	}
	c.NTIf(most > 1000)
}

// ---------------------------------------------------------------- C08

type pushed struct {
	due, at time.Time
	got     int
}

type world struct {
	mu       sync.Mutex
	q        *delayqueue.DelayQueue[int]
	els      []*pushed
	pushing  int // pushes under way
	putBacks []time.Time
	errs     []string
}

func (w *world) errf(format string, args ...any) {
	w.mu.Lock()
	w.errs = append(w.errs, fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

// deliver records that element id reached a consumer which has waited since `since`
// (zero: not known to have waited all the time).
func (w *world) deliver(how string, id int, since time.Time) {
	now := time.Now()
	w.mu.Lock()
	defer w.mu.Unlock()
	if id < 0 || id >= len(w.els) {
		w.errs = append(w.errs, fmt.Sprintf("%s delivered %d, which was never pushed", how, id))
		return
	}
	e := w.els[id]
	e.got++
	if e.got > 1 {
		w.errs = append(w.errs, fmt.Sprintf("%s delivered element %d a second time", how, id))
	}
	if now.Before(e.due) {
		w.errs = append(w.errs, fmt.Sprintf("%s delivered element %d %s early", how, id, e.due.Sub(now)))
	}
	if !since.IsZero() {
		ready := e.due
		for _, x := range append([]time.Time{e.at, since}, w.putBacks...) {
			if x.After(ready) {
				ready = x
			}
		}
		if now.After(ready.Add(slack)) {
			w.errs = append(w.errs, fmt.Sprintf("%s delivered element %d %s after it was due, although a taker was waiting", how, id, now.Sub(ready)))
		}
	}
}

func (w *world) push(d time.Duration) {
	w.mu.Lock()
	id := len(w.els)
	now := time.Now()
	w.els = append(w.els, &pushed{due: now.Add(d), at: now})
	w.pushing++
	w.mu.Unlock()
	go func() {
		w.q.Push(id, d)
		w.mu.Lock()
		w.pushing--
		w.mu.Unlock()
	}()
}

type taker struct {
	name      string
	cancel    context.CancelFunc
	cancelled bool
	loop      bool
	ch        <-chan int // delivery channel, if it is one
	size      int
	reader    bool // a goroutine reads ch all the time
	done      bool // the goroutine ended (under world.mu)
}

// startTaker starts a goroutine that takes once, or until it is cancelled.
func (w *world) startTaker(name string, loop bool, pre bool) *taker {
	ctx, cancel := context.WithCancel(context.Background())
	t := &taker{name: name, cancel: cancel, loop: loop}
	if pre {
		cancel()
		t.cancelled = true
	}
	go func() {
		defer func() { w.mu.Lock(); t.done = true; w.mu.Unlock() }()
		for {
			since := time.Now()
			v, ok := w.q.Take(ctx)
			if !ok {
				if ctx.Err() == nil {
					w.errf("%s: Take gave up without being cancelled", name)
				}
				return
			}
			w.deliver(name, v, since)
			if !loop || ctx.Err() != nil {
				return
			}
		}
	}()
	return t
}

func (w *world) startChannel(name string, size int, reader bool) *taker {
	ctx, cancel := context.WithCancel(context.Background())
	t := &taker{name: name, cancel: cancel, loop: true, size: size, reader: reader}
	since := time.Now()
	t.ch = w.q.Channel(ctx, size)
	if reader {
		go func() {
			for v := range t.ch {
				if ctx.Err() != nil {
					since = time.Time{}
				}
				w.deliver(name, v, since)
			}
			if ctx.Err() == nil {
				w.errf("%s: channel closed without being cancelled", name)
			}
			w.mu.Lock()
			t.done = true
			w.mu.Unlock()
		}()
	}
	return t
}

func (w *world) stop(t *taker) {
	t.cancelled = true
	w.mu.Lock()
	w.putBacks = append(w.putBacks, time.Now())
	w.mu.Unlock()
	t.cancel()
}

// settle lets everything at this instant run and checks the invariants.
func (w *world) settle(rt *rapid.T, takers []*taker) {
	synctest.Wait()
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		rt.Fatalf("%s", w.errs[0])
	}
	if w.pushing > 0 {
		rt.Fatalf("%d Push calls are blocked", w.pushing)
	}
	waiting := ""
	for _, t := range takers {
		switch {
		case t.cancelled && !t.done && (t.ch == nil || t.reader):
			rt.Fatalf("%s has not returned after its cancellation", t.name)
		case t.cancelled || t.done:
		case t.ch == nil, t.reader, len(t.ch) < t.size:
			waiting = t.name
		}
	}
	if waiting == "" {
		return
	}
	if v, ok := w.q.Peek(); ok {
		if v < 0 || v >= len(w.els) {
			rt.Fatalf("Peek returned %d, which was never pushed", v)
		}
		if late := time.Since(w.els[v].due); late >= slack {
			rt.Fatalf("element %d has been due for %s and is still in the queue although %s is waiting", v, late, waiting)
		}
	}
}

func TestC08(t *testing.T) {
	vt.Sync(t, "script", "scripts of steps, each step a burst of concurrent pushes, new takers (single or looping, also already cancelled), delivery channels with and without reader, cancellations and reads, then sleeps to due-time edges; non-trivial: a live taker was cancelled while elements were pending and later elements were delivered",
		5000, 120000, func(rt *rapid.T, c *vt.C) {
			w := &world{q: delayqueue.New[int]()}
			var takers []*taker
			cancels, chans := 0, 0
			defer func() {
				for _, t := range takers {
					t.cancel()
				}
			}()
			live := func() []*taker {
				var r []*taker
				for _, t := range takers {
					if !t.cancelled {
						r = append(r, t)
					}
				}
				return r
			}
			dues := func() []time.Time {
				var r []time.Time
				for _, e := range w.els {
					if e.got == 0 {
						r = append(r, e.due)
					}
				}
				return r
			}
			afterCancel := 0
			steps := rapid.IntRange(1, 18).Draw(rt, "steps")
			for s := 0; s < steps; s++ {
				w.mu.Lock()
				pending := dues()
				w.mu.Unlock()
				k := vt.Pick(rt, "burst", 1, 1, 1, 2, 2, 3, 5)
				for b := 0; b < k; b++ {
					switch vt.Weighted(rt, "op", 8, 5, 2, 2, 5, 2, 2) {
					case 0:
						d := drawDelay(rt, time.Now(), pending)
						d = min(max(d, -30*24*time.Hour), 30*24*time.Hour)
						c.Logf("push %s", d)
						w.push(d)
						if cancels > 0 {
							afterCancel++
						}
					case 1:
						loop := rapid.Bool().Draw(rt, "loop")
						c.Logf("take loop=%v", loop)
						takers = append(takers, w.startTaker(fmt.Sprintf("taker %d", len(takers)), loop, false))
					case 2:
						size := rapid.IntRange(0, 3).Draw(rt, "size")
						reader := rapid.Bool().Draw(rt, "reader")
						c.Logf("channel size=%d reader=%v", size, reader)
						takers = append(takers, w.startChannel(fmt.Sprintf("channel %d", len(takers)), size, reader))
						chans++
					case 3:
						c.Logf("take cancelled")
						takers = append(takers, w.startTaker(fmt.Sprintf("cancelled taker %d", len(takers)), rapid.Bool().Draw(rt, "loop"), true))
					case 4:
						if l := live(); len(l) > 0 {
							i := rapid.IntRange(0, len(l)-1).Draw(rt, "which")
							c.Logf("cancel %s", l[i].name)
							w.mu.Lock()
							if !l[i].done && len(pending) > 0 {
								cancels++
							}
							w.mu.Unlock()
							w.stop(l[i])
						}
					case 6: // look and pop without waiting
						c.Logf("poll")
						go func() {
							w.q.Empty()
							w.q.Peek()
							if v, ok := w.q.Pop(); ok {
								w.deliver("Pop", v, time.Time{})
							}
						}()
					case 5: // read from a channel without reader
						var cs []*taker
						for _, t := range takers {
							if t.ch != nil && !t.reader && !t.done {
								cs = append(cs, t)
							}
						}
						if len(cs) > 0 {
							t := cs[rapid.IntRange(0, len(cs)-1).Draw(rt, "which")]
							c.Logf("read %s", t.name)
							select {
							case v, ok := <-t.ch:
								if ok {
									w.deliver(t.name, v, time.Time{})
								} else if !t.cancelled {
									rt.Fatalf("%s closed without being cancelled", t.name)
								}
							default:
							}
						}
					}
					if rapid.IntRange(0, 2).Draw(rt, "settle") == 0 {
						w.settle(rt, takers)
					}
				}
				w.settle(rt, takers)
				w.mu.Lock()
				pending = dues()
				w.mu.Unlock()
				var d time.Duration
				switch vt.Weighted(rt, "sleep", 3, 3, 2, 2) {
				case 0:
				case 1:
					if len(pending) > 0 {
						d = clamp(time.Until(pending[rapid.IntRange(0, len(pending)-1).Draw(rt, "to")])) + vt.Pick(rt, "off", time.Duration(0), 0, -1, 1, slack)
					}
				case 2:
					d = time.Duration(rapid.IntRange(0, 30).Draw(rt, "ms")) * time.Millisecond
				case 3:
					d = time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "ns"))
				}
				if d > 0 {
					c.Logf("sleep %s", d)
					time.Sleep(d)
				}
				w.settle(rt, takers)
			}
			// the end: cancel everybody, then whatever was not delivered must still be there
			for _, t := range takers {
				if !t.cancelled {
					w.stop(t)
				}
			}
			w.settle(rt, takers)
			for _, t := range takers {
				if t.ch == nil || t.reader {
					continue
				}
			drain:
				for {
					select {
					case v, ok := <-t.ch:
						if !ok {
							break drain
						}
						w.deliver(t.name, v, time.Time{})
					default:
						rt.Fatalf("%s is not closed after its cancellation", t.name)
					}
				}
			}
			last := time.Now()
			for _, e := range w.els {
				if e.due.After(last) {
					last = e.due
				}
			}
			// sleeping to the end in up to three legs, taking what is due in between
			var prev time.Time
			for leg := rapid.IntRange(0, 2).Draw(rt, "legs"); leg >= 0; leg-- {
				d := time.Until(last) + slack
				if leg > 0 {
					d = time.Duration(rapid.Int64Range(0, int64(max(d, 0))).Draw(rt, "leg"))
				}
				if d > 0 {
					time.Sleep(d)
				}
				for {
					v, ok := w.q.Pop()
					if !ok {
						break
					}
					w.deliver("final Pop", v, time.Time{})
					if v >= 0 && v < len(w.els) {
						// nobody else uses the queue: the earliest due time comes first
						if due := w.els[v].due; due.Before(prev) {
							rt.Fatalf("the final Pop delivered element %d after one due %s later", v, prev.Sub(due))
						} else {
							prev = due
						}
					}
				}
			}
			if !w.q.Empty() {
				rt.Fatalf("elements left in the queue after all of them were due")
			}
			if len(w.errs) > 0 {
				rt.Fatalf("%s", w.errs[0])
			}
			for id, e := range w.els {
				if e.got != 1 {
					rt.Fatalf("element %d was delivered %d times", id, e.got)
				}
			}
			c.LabelIf(cancels > 0, "cancelled while pending")
			c.LabelIf(chans > 0, "channel")
			c.NTIf(cancels > 0 && afterCancel > 0)
		})
}
