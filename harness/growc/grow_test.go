// Package growc checks that objects in long use stay bounded (C42).
package growc

import (
	"bytes"
	"context"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	deque "github.com/ahKevinXy/go-web-tools/common/container/deque"
	heap "github.com/ahKevinXy/go-web-tools/common/container/heap"
	list "github.com/ahKevinXy/go-web-tools/common/container/list"
	meap "github.com/ahKevinXy/go-web-tools/common/container/meap"
	pqueue "github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	fix "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	round "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	unbounded "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	set "github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	bloom "github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	hash "github.com/ahKevinXy/go-web-tools/common/hash"
	fixed_window "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	leaky_bucket "github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	sliding_log "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	sliding_window "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	token_bucket "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	delayqueue "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	timingwheel "github.com/ahKevinXy/go-web-tools/common/timer/timingwheel"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC42(t *testing.T) {
	vt.Check(t, "containers", "one container, ring buffer, filter, hasher or map used for 6000 to 20000 random operations with at most 1 to 200 elements (of 64 bytes, never the same twice, keys ever new or from a small range) in it at once and a drawn mix of adding, removing from either side, removing by handle or key and changing; the memory in use after collection must not grow from the first quarter to the end; non-trivial: elements were removed in more than one way, or over 10000 went through",
		160, 6000, containers)
	vt.Sync(t, "limiters", "one limiter asked 3000 to 8000 times, and more in bursts, on a fake clock, with gaps of a drawn size from a thousandth of its window to many windows and a drawn share of bursts that are refused; the memory in use must not grow; non-trivial: admissions, and refusals unless the limit is out of reach",
		90, 4000, limiters)
	vt.Sync(t, "timers", "a running timing wheel or a delay queue used for 2500 to 6000 rounds on a fake clock: timers that fire, are stopped early (also with delays of years) or are scheduled again and again, elements taken, popped, received from channels, and waits and channels cancelled; at most 60 are pending at once; the memory in use and the number of goroutines must not grow; non-trivial: timers were stopped as well as fired, or waits were cancelled",
		70, 2500, timers)
	vt.Check(t, "helpers", "a helper that keeps no state called 3000 to 8000 times with ever new arguments; the memory in use must not grow; non-trivial: all",
		40, 2000, helpers)
}

// uniform draws without rapid's preference for small numbers.
func uniform(rt *rapid.T, label string, lo, hi int) int {
	return lo + int(vt.Mix(rapid.Uint64().Draw(rt, label)^0x9e3779b97f4a7c15)%uint64(hi-lo+1))
}

// ---- measuring

// live is the memory in use; other goroutines of the harness may hold some for a moment.
func live() int64 {
	var m runtime.MemStats
	best := int64(1) << 62
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int64(m.HeapAlloc))
	}
	return best
}

// steady runs round for a quarter of the rounds, notes the memory in use, and runs the rest.
func steady(rt *rapid.T, what string, rounds int, allowance int64, round func(i int)) {
	for i := 0; i < rounds/4; i++ {
		round(i)
	}
	before, gos := live(), runtime.NumGoroutine()
	for i := rounds / 4; i < rounds; i++ {
		round(i)
	}
	limit := 16<<10 + allowance
	grown := live() - before
	for tries := 0; grown > limit && tries < 8; tries++ {
		settle()
		grown = live() - before
	}
	if grown > limit {
		rt.Fatalf("%s: %d more bytes in use after %d more rounds (at most %d are explained by what it holds)", what, grown, rounds-rounds/4, limit)
	}
	if g := runtime.NumGoroutine(); g > gos+2 {
		rt.Fatalf("%s: %d goroutines after %d more rounds, %d before", what, g, rounds-rounds/4, gos)
	}
}

// settle gives transient memory of other goroutines real time to go away (the clock may be fake).
func settle() {
	ts := syscall.NsecToTimespec(int64(40 * time.Millisecond))
	syscall.Nanosleep(&ts, nil)
}

// ---- containers

type item struct {
	n uint64
	_ [7]uint64
}

func lessItem(a, b *item) bool { return a.n < b.n }

// use is one container seen through at most five operations. Each reports whether it changed the size.
type use struct {
	name string
	add  func(it *item)
	take []func(r uint64) // each removes one element (there is one)
	turn func(r uint64)   // changes something without changing the size
	len  func() int
}

type ring interface {
	Push(*item)
	Pop() *item
	MPush(...*item)
	MPop(uint64) []*item
	MPopCopy([]*item)
	Len() uint64
	Reset()
}

func ringUse(name string, bound int, r ring) use {
	return use{name, func(it *item) {
		if it.n%3 == 0 {
			more := []*item{it, it, it, it, it}
			r.MPush(more[:min(5, bound-int(r.Len()))]...)
		} else {
			r.Push(it)
		}
	}, []func(uint64){
		func(uint64) { r.Pop() },
		func(uint64) { r.MPop(1) },
		func(uint64) { r.MPopCopy(make([]*item, 1)) },
		func(x uint64) {
			if x%16 == 0 {
				r.Reset()
			} else {
				r.MPop(x % r.Len())
			}
		},
	}, nil, func() int { return int(r.Len()) }}
}

func draw(rt *rapid.T, bound int) (use, int64) {
	span := uint64(vt.Pick(rt, "keys", 8, 1000, 1<<62))
	switch uniform(rt, "container", 0, 17) {
	case 0:
		l := list.New[*item]()
		return use{"list", func(it *item) {
			switch it.n % 4 {
			case 0:
				l.PushFront(it)
			case 1:
				l.PushBack(it)
			default:
				if l.Empty() {
					l.PushBack(it)
				} else if it.n%4 == 2 {
					l.InsertAfter(it, l.Front())
				} else {
					l.InsertBefore(it, l.Back())
				}
			}
		}, []func(uint64){
			func(uint64) { l.RemoveFront() },
			func(uint64) { l.RemoveBack() },
			func(x uint64) {
				if x%64 == 0 {
					l.Clear()
				} else {
					l.Remove(l.Front())
				}
			},
		}, func(x uint64) {
			if l.Len() > 1 {
				switch x % 4 {
				case 0:
					l.MoveToBack(l.Front())
				case 1:
					l.MoveToFront(l.Back())
				case 2:
					l.MoveAfter(l.Front(), l.Back())
				case 3:
					o := list.New[*item]()
					o.PushBackList(l)
					l.Clear()
					l.PushFrontList(o)
				}
			}
		}, l.Len}, 0
	case 1:
		d := deque.New[*item]()
		return use{"deque", func(it *item) {
			if it.n%2 == 0 {
				d.PushFront(it)
			} else {
				d.PushBack(it)
			}
		}, []func(uint64){func(uint64) { d.PopFront() }, func(uint64) { d.PopBack() }}, nil, d.Len}, 0
	case 2:
		s := stack.New[*item]()
		return use{"stack", s.Push, []func(uint64){func(uint64) { s.Pop() }}, func(uint64) {
			if !s.Empty() {
				s.Peek()
			}
		}, s.Len}, 0
	case 3:
		s := set.New[uint64]()
		var in []uint64
		return use{"set", func(it *item) { s.Add(it.n % span); in = append(in, it.n%span) }, []func(uint64){
			func(uint64) { s.Remove(in[0]); in = in[1:] },
			func(uint64) { s.Remove(in[len(in)-1]); in = in[:len(in)-1] },
		}, func(x uint64) { s.Contains(x); s.Remove(x) }, func() int { return len(in) }}, 1 << 10
	case 4:
		h := heap.New(nil, lessItem)
		return use{"heap", h.Push, []func(uint64){
			func(uint64) { h.Pop() },
			func(x uint64) { h.Remove(int(x % uint64(h.Len()))) },
		}, func(x uint64) {
			if h.Len() > 0 {
				h.Fix(int(x % uint64(h.Len())))
			}
		}, h.Len}, 0
	case 5:
		h := heap.NewN(2+int(span%7), lessItem)
		return use{"n-ary heap", h.Push, []func(uint64){
			func(uint64) { h.Pop() },
			func(x uint64) { h.Remove(int(x % uint64(h.Len()))) },
		}, func(x uint64) {
			if h.Len() > 0 {
				h.Fix(int(x % uint64(h.Len())))
			}
		}, h.Len}, 0
	case 6:
		p := pqueue.New(nil, lessItem)
		return use{"priority queue", p.Push, []func(uint64){func(uint64) { p.Pop() }}, nil, p.Len}, 0
	case 7, 8:
		m := meap.New(func(a, b meap.Entry[uint64, *item]) bool { return a.Value.n < b.Value.n })
		return use{"map heap", func(it *item) { m.Push(vt.Mix(it.n)%span, it) }, []func(uint64){
			func(uint64) { m.Pop() },
			func(x uint64) {
				if x%2 == 0 {
					m.Remove(m.Peek().Key)
				} else {
					m.Remove(x % span)
				}
			},
		}, func(x uint64) {
			if m.Len() > 0 {
				k := m.Peek().Key
				m.Push(k, &item{n: x})
				m.Get(x)
				m.Contains(x)
			}
		}, m.Len}, 1 << 10
	case 9, 10:
		h := reap.New(lessItem)
		es := make([]*reap.Entry[*item], 2*bound) // handles, also of some that went out
		at := 0
		return use{"reference heap", func(it *item) {
			es[at%len(es)] = h.Push(it)
			at++
		}, []func(uint64){
			func(uint64) { h.Pop() },
			func(x uint64) {
				e := es[x%uint64(len(es))]
				if e == nil || !h.Remove(e) {
					h.Pop()
				} else {
					h.Remove(e)
				}
			},
		}, func(x uint64) {
			if e := es[x%uint64(len(es))]; e != nil {
				h.SetValue(e, &item{n: x})
			}
		}, h.Len}, int64(bound) * 400
	case 11:
		return ringUse("fixed ring", bound, fix.New[*item](uint64(bound+1))), 0
	case 12:
		return ringUse("power-of-two ring", bound, round.New[*item](uint64(bound+1))), 0
	case 13, 14:
		return ringUse("unbounded ring", bound, unbounded.New[*item](uint64(1+span%3))), 0
	case 15:
		f := bloom.New(uint64(bound)+10, 0.01)
		n := 0
		return use{"filter", func(it *item) { f.Add(it.n); f.AddString(fmt.Sprint(it.n)); n++ },
			[]func(uint64){func(uint64) { f.Clear(); n = 0 }}, func(x uint64) { f.ContainsString(fmt.Sprint(x)); f.AddBytes([]byte(fmt.Sprint(x))) },
			func() int { return n }}, 0
	case 16:
		h := hash.New()
		return use{"hasher", func(it *item) { h.Sum64String(fmt.Sprint(it.n)) }, []func(uint64){func(uint64) {}}, func(x uint64) { h.Sum64([]byte(fmt.Sprint(x))) }, func() int { return int(span % 2) }}, 0
	default:
		var m utils.Map
		var in []uint64
		return use{"concurrent map", func(it *item) {
			k := it.n % span
			if it.n%3 == 0 {
				m.TestAndSet(k, it)
			} else {
				m.Set(k, it)
			}
			in = append(in, k)
		}, []func(uint64){
			func(uint64) { m.Del(in[0]); in = in[1:] },
			func(uint64) { m.Del(in[len(in)-1]); in = in[:len(in)-1] },
		}, func(x uint64) { m.Get(x); m.Del(x) }, func() int { return len(in) }}, 1 << 10
	}
}

func containers(rt *rapid.T, c *vt.C) {
	bound := vt.Pick(rt, "bound", 1, 2, 5, 20, 64, 200)
	u, more := draw(rt, bound)
	rounds := uniform(rt, "rounds", 6000, 20000)
	seed := rapid.Uint64().Draw(rt, "mix")
	adds := uniform(rt, "adds of 16", 2, 14)
	turns := uniform(rt, "turns of 16", 0, 6)
	only := uniform(rt, "only", -2, len(u.take)-1)
	fill := rapid.Bool().Draw(rt, "fill and drain")
	c.Logf("%s, at most %d elements, %d rounds, mix %d/%d, only %d, waves %v", u.name, bound, rounds, adds, turns, only, fill)
	c.Label(u.name)
	c.NTIf(rounds > 10000 || only < 0)
	filling := true
	x := seed
	steady(rt, u.name, rounds, 64+int64(bound)*600+more, func(i int) {
		x = vt.Mix(x + 0x9e3779b97f4a7c15)
		n := u.len()
		if u.turn != nil && int(x>>8%16) < turns {
			u.turn(vt.Mix(x))
			return
		}
		if n == 0 {
			filling = true
		} else if n >= bound {
			filling = false
		}
		add := int(x>>16%16) < adds
		if fill {
			add = filling
		}
		if n == 0 || add && n < bound {
			u.add(&item{n: x})
			return
		}
		k := int(x >> 24 % uint64(len(u.take)))
		if only >= 0 {
			k = only
		}
		u.take[k](vt.Mix(x))
	})
	runtime.KeepAlive(u)
}

// ---- limiters

func limiters(rt *rapid.T, c *vt.C) {
	limit := uniform(rt, "limit", 1, 60)
	generous := rapid.Bool().Draw(rt, "generous")
	if generous {
		limit = 1 << 30
	}
	slots := uniform(rt, "slots", 1, 60)
	slot := time.Duration(vt.Pick(rt, "slot", int64(time.Nanosecond), int64(time.Millisecond), int64(time.Second), int64(time.Hour)))
	window := slot * time.Duration(slots)
	var name string
	var try func() bool
	switch uniform(rt, "limiter", 0, 6) {
	case 0:
		name = "fixed window"
		try = fixed_window.NewFixedWindowLimiter(limit, window).TryAcquire
	case 1:
		name = "leaky bucket"
		try = leaky_bucket.NewLeakyBucketLimiter(limit, slots).TryAcquire
		window = time.Second
	case 2:
		name = "token bucket"
		try = token_bucket.NewTokenBucketLimiter(limit, slots).TryAcquire
		window = time.Second
	case 3, 4:
		name = "sliding window"
		l, err := sliding_window.NewSlidingWindowLimiter(limit, window, slot)
		if err != nil {
			vt.Harness("%v", err)
		}
		try = l.TryAcquire
	default:
		name = "sliding log"
		ss := []*sliding_log.SlidingLogLimiterStrategy{sliding_log.NewSlidingLogLimiterStrategy(limit, window)}
		if limit > 1 && slots > 1 {
			ss = append(ss, sliding_log.NewSlidingLogLimiterStrategy(1+limit/2-limit/2/limit, slot))
		}
		if limit/2+1 >= limit {
			ss = ss[:1]
		}
		l, err := sliding_log.NewSlidingLogLimiter(slot, ss...)
		if err != nil {
			vt.Harness("%v", err)
		}
		try = func() bool { return l.TryAcquire() == nil }
	}
	rounds := uniform(rt, "rounds", 3000, 8000)
	gap := max(1, window*time.Duration(vt.Pick(rt, "gap", 1, 30, 300, 1000, 5000))/1000)
	gap = min(gap, 50*365*24*time.Hour/time.Duration(rounds)) // the fake clock ends in 2262
	burst := uniform(rt, "burst", 0, 8)
	x := rapid.Uint64().Draw(rt, "mix")
	c.Logf("%s %d per %v in %d, %d rounds with gaps up to %v, bursts %d", name, limit, window, slots, rounds, gap, burst)
	c.Label(name)
	yes, no := 0, 0
	steady(rt, name, rounds, 16<<10+int64(slots)*100, func(i int) {
		x = vt.Mix(x + 0x9e3779b97f4a7c15)
		time.Sleep(time.Duration(x % uint64(gap) * 2))
		for k := uint64(0); k <= x>>32%uint64(burst+1); k++ {
			if try() {
				yes++
			} else {
				no++
			}
		}
	})
	runtime.KeepAlive(try)
	c.NTIf(yes > 0 && (no > 0 || generous))
	c.LabelIf(no == 0, "never refused")
}

// ---- timers

type chain struct {
	left int
	step time.Duration
	end  func()
}

func (s *chain) Next(t time.Time) time.Time {
	if s.left == 0 {
		s.end()
		return time.Time{}
	}
	s.left--
	return t.Add(s.step)
}

func timers(rt *rapid.T, c *vt.C) {
	rounds := uniform(rt, "rounds", 2500, 6000)
	x := rapid.Uint64().Draw(rt, "mix")
	if uniform(rt, "which", 0, 4) < 3 {
		wheel(rt, c, rounds, x)
	} else {
		queue(rt, c, rounds, x)
	}
}

func wheel(rt *rapid.T, c *vt.C, rounds int, x uint64) {
	tick := int64(vt.Pick(rt, "tick", 1, 1, 7, 100))
	size := int64(vt.Pick(rt, "size", 2, 3, 8, 20))
	stops := uniform(rt, "stops of 16", 0, 16)
	far := vt.Pick(rt, "far", time.Millisecond, time.Second, time.Hour, 400*24*time.Hour)
	bound := uniform(rt, "bound", 1, 60)
	chains := uniform(rt, "chains of 16", 0, 3)
	c.Logf("wheel of %d ticks of %d ms, %d rounds, stops %d, delays up to %v, at most %d pending, chains %d", size, tick, rounds, stops, far, bound, chains)
	c.Label("wheel")
	tw := timingwheel.New(tick, size)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { tw.Run(ctx); close(done) }()
	type pending struct {
		t    *timingwheel.Timer
		gone *bool
	}
	var ps []pending
	stopped, fired := 0, 0
	pause := func(d time.Duration) { time.Sleep(d) }
	reached := time.Duration(0)
	steady(rt, "timing wheel", rounds, 48<<10+int64(bound)*1200, func(i int) {
		x = vt.Mix(x + 0x9e3779b97f4a7c15)
		// those that went
		for k := len(ps) - 1; k >= 0; k-- {
			if *ps[k].gone {
				fired++
				ps[k] = ps[len(ps)-1]
				ps[len(ps)-1] = pending{}
				ps = ps[:len(ps)-1]
			}
		}
		if len(ps) >= bound || len(ps) > 0 && int(x>>8%16) < stops {
			k := x >> 20 % uint64(len(ps))
			if ps[k].t.Stop() {
				stopped++
			}
			ps[k] = ps[len(ps)-1]
			ps[len(ps)-1] = pending{}
			ps = ps[:len(ps)-1]
		} else {
			delay := time.Duration(vt.Mix(x) % uint64(far))
			if x>>40%3 == 0 {
				delay = time.Duration(tick) * time.Millisecond * time.Duration(x>>44%8)
			}
			gone := new(bool)
			if int(x>>12%16) < chains {
				s := &chain{left: int(x >> 50 % 4), step: time.Duration(tick) * time.Millisecond * time.Duration(1+x>>54%5)}
				s.end = func() { *gone = true }
				if t := tw.ScheduleFunc(s, func() {}); t != nil {
					ps = append(ps, pending{t, gone})
				}
			} else {
				load := &item{n: x}
				ps = append(ps, pending{tw.AfterFunc(delay, func() { load.n++; *gone = true }), gone})
			}
		}
		if x>>60 == 0 {
			d := time.Duration(tick) * time.Millisecond * time.Duration(1+x>>56%32)
			pause(d)
			reached += d
		}
	})
	c.NTIf(stopped > 0 && fired > 0)
	runtime.KeepAlive(tw)
	cancel()
	<-done
}

func queue(rt *rapid.T, c *vt.C, rounds int, x uint64) {
	bound := uniform(rt, "bound", 1, 60)
	cancels := uniform(rt, "cancels of 16", 0, 12)
	channels := uniform(rt, "channels of 16", 0, 4)
	far := vt.Pick(rt, "far", time.Microsecond, time.Second, 100*time.Hour)
	c.Logf("delay queue, %d rounds, at most %d pending, delays up to %v, cancels %d, channels %d", rounds, bound, far, cancels, channels)
	c.Label("delay queue")
	// the program's own context, which outlives every call
	outer, end := context.Background(), func() {}
	if rapid.IntRange(0, 3).Draw(rt, "outer") > 0 {
		outer, end = context.WithCancel(outer)
	}
	defer end()
	q := delayqueue.New[*item]()
	n, cancelled := 0, 0
	steady(rt, "delay queue", rounds, 32<<10+int64(bound)*1200, func(i int) {
		x = vt.Mix(x + 0x9e3779b97f4a7c15)
		switch {
		case int(x>>8%16) < cancels: // a wait that ends before anything is due, or with what was due
			ctx, cancel := context.WithTimeout(outer, time.Duration(x>>20%uint64(far))/64)
			if _, got := q.Take(ctx); got {
				n--
			} else {
				cancelled++
			}
			cancel()
		case int(x>>12%16) < channels:
			ctx, cancel := context.WithTimeout(outer, time.Duration(x>>20%uint64(far))/16)
			for range q.Channel(ctx, int(x>>40%3)) {
				n--
			}
			cancel()
			cancelled++
		case n < bound:
			q.Push(&item{n: x}, time.Duration(vt.Mix(x)%uint64(far)))
			n++
		case x>>16%2 == 0:
			if _, got := q.Pop(); got {
				n--
			}
			q.Peek()
		default:
			if _, got := q.Take(outer); !got {
				rt.Fatalf("nothing taken from a queue of %d", n)
			}
			n--
		}
	})
	runtime.KeepAlive(q)
	c.NTIf(cancelled > 0)
}

// ---- helpers

func helpers(rt *rapid.T, c *vt.C) {
	type kind struct {
		name string
		cost int // relative
		f    func(s string, x uint64)
	}
	key := []byte("0123456789abcdef")
	table := []kind{
		{"digests", 1, func(s string, x uint64) {
			utils.Md5(s)
			utils.Md5Crypt(s)
			utils.MD5V([]byte(s))
			utils.CheckMd5([]byte(s), s)
			utils.ComputeFileMD5(strings.NewReader(s))
		}},
		{"ciphers", 1, func(s string, x uint64) {
			copy(key, s[len(s)-10:])
			e, err := utils.AesEncrypt([]byte(s), key)
			if err != nil {
				vt.Harness("%v", err)
			}
			utils.AesDecrypt(e, key)
		}},
		{"urls", 1, func(s string, x uint64) {
			utils.BuildUrl("http://"+s+".example/", s, x)
			utils.IsSameSiteURLPath("/" + s)
			utils.IsMaliciousPath(s)
		}},
		{"texts", 1, func(s string, x uint64) {
			utils.GetSuffixName(s, s[:1])
			utils.IsImage(s)
			utils.IsTextFile([]byte(s))
			utils.IsImageFile([]byte(s))
			utils.FileSize(int64(x >> 1))
			utils.FormatByte(int(x >> 1))
		}},
		{"conversions", 1, func(s string, x uint64) {
			utils.Base64Decode(utils.Base64Encode(s))
			utils.StringToInt64(utils.Int64ToString(int64(x)))
			utils.Map2JsonString(map[string]interface{}{s: x})
			utils.JsonStringToMap(utils.MapIntToJsonString(map[string]int32{s: int32(x)}))
			utils.Round(float64(x), int(x%9))
			m := map[string]bool{}
			utils.SetSwitchFromOptions(m, s, true)
			utils.GetSwitchFromOptions(m, s)
		}},
		{"masks", 1, func(s string, x uint64) {
			utils.HideStar(s + "@" + s)
			utils.MaskMobile("138"+s[len(s)-8:], 4)
			utils.MaskCustomerName(s)
			utils.MaskIDCard(s, 8)
			utils.MaskBackCard(s, 4)
			utils.UpperFirst(s)
			utils.Substr2(s, 1, 3)
		}},
		{"random texts", 1, func(s string, x uint64) { utils.RandStr(int(x%40), 3) }},
		{"files that are not there", 1, func(s string, x uint64) {
			utils.FileExist(s)
			utils.IsDir(s)
			utils.PathExists(s)
			utils.FileMd5(s)
			utils.ReadCsv(s)
			utils.ScanDir(s)
			utils.ImageFileToBase64(s)
		}},
	}
	k := rapid.SampledFrom(table).Draw(rt, "helper")
	rounds := uniform(rt, "rounds", 3000, 8000) / k.cost
	width := uniform(rt, "width", 0, 100)
	x := rapid.Uint64().Draw(rt, "mix")
	c.Logf("%s, %d rounds, arguments of %d bytes and more", k.name, rounds, width+16)
	c.Label(k.name)
	c.NT()
	pad := strings.Repeat("p", width)
	var b bytes.Buffer
	steady(rt, k.name, rounds, 40<<10, func(i int) {
		x = vt.Mix(x + 0x9e3779b97f4a7c15)
		b.Reset()
		fmt.Fprintf(&b, "%s%016x", pad, x)
		k.f(b.String(), x)
	})
}
