package conc

import (
	"fmt"
	"strings"
	"time"

	deque "github.com/ahKevinXy/go-web-tools/common/container/deque"
	heap "github.com/ahKevinXy/go-web-tools/common/container/heap"
	list "github.com/ahKevinXy/go-web-tools/common/container/list"
	meap "github.com/ahKevinXy/go-web-tools/common/container/meap"
	pqueue "github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	fix "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	round "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	unbounded "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	set "github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	bloom "github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	hash "github.com/ahKevinXy/go-web-tools/common/hash"
	fixed_window "github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	leaky_bucket "github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	sliding_log "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	sliding_window "github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	token_bucket "github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	delayqueue "github.com/ahKevinXy/go-web-tools/common/timer/delayqueue"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

// step is one operation: which instance, what, and a number.
type step struct{ on, op, n int }

func less(a, b int) bool { return a < b }

type ring interface {
	Push(int)
	Pop() int
	MPush(...int)
	MPop(uint64) []int
	Len() uint64
	Full() bool
	Empty() bool
}

// play runs a script on fresh instances and returns everything it saw. Elements are distinct where
// the order of equal ones would be open.
func play(script []step) string {
	var (
		out strings.Builder
		l   = list.New[int]()
		dq  = deque.New[int]()
		st  = stack.New[int]()
		se  = set.New[int]()
		h   = heap.New([]int{500, -3, 77}, less)
		hn  = heap.NewN[int](3, less)
		pq  = pqueue.New(nil, less)
		me  = meap.New[int, int](func(a, b meap.Entry[int, int]) bool {
			return a.Value < b.Value || a.Value == b.Value && a.Key < b.Key
		})
		re    = reap.New[int](less)
		held  []*reap.Entry[int]
		rings = []ring{fix.New[int](5), round.New[int](5), unbounded.New[int](1)}
		bl    = bloom.New(100, 0.0001)
		ha    = hash.New()
		fw    = fixed_window.NewFixedWindowLimiter(4, time.Second)
		lb    = leaky_bucket.NewLeakyBucketLimiter(3, 1)
		tb    = token_bucket.NewTokenBucketLimiter(3, 1)
		q     = delayqueue.New[int]()
		m     utils.Map
	)
	sw, err := sliding_window.NewSlidingWindowLimiter(3, 10*time.Second, time.Second)
	if err != nil {
		panic(err)
	}
	sl, err := sliding_log.NewSlidingLogLimiter(time.Second, sliding_log.NewSlidingLogLimiterStrategy(2, time.Second), sliding_log.NewSlidingLogLimiterStrategy(5, time.Minute))
	if err != nil {
		panic(err)
	}
	for i, s := range script {
		v := s.n*1000 + i
		say := func(x ...any) { fmt.Fprintln(&out, append([]any{i}, x...)...) }
		switch s.on {
		case 0:
			switch s.op {
			case 0:
				l.PushBack(v)
			case 1:
				l.PushFront(v)
			default:
				if !l.Empty() {
					l.MoveToBack(l.Front())
					say(l.RemoveFront(), l.Len())
				}
			}
		case 1:
			switch {
			case s.op == 0:
				dq.PushBack(v)
			case s.op == 1:
				dq.PushFront(v)
			case !dq.Empty():
				say(dq.PopBack(), dq.Len())
			}
		case 2:
			if s.op < 2 {
				st.Push(v)
			} else if !st.Empty() {
				say(st.Pop(), st.Len())
			}
		case 3:
			switch s.op {
			case 0:
				se.Add(s.n % 8)
			case 1:
				se.Remove(s.n % 8)
			}
			say(se.Contains(s.n%8), se.Len())
		case 4:
			if s.op < 2 {
				h.Push(v)
				hn.Push(v)
				pq.Push(v)
			} else if !pq.Empty() {
				say(h.Pop(), hn.Pop(), pq.Pop(), h.Len(), hn.Len())
			}
		case 5:
			switch {
			case s.op == 0:
				me.Push(s.n%8, v)
			case s.op == 1:
				me.Remove(s.n % 8)
			case !me.Empty():
				e := me.Pop()
				say(e.Key, e.Value, me.Len())
			}
		case 6:
			switch {
			case s.op == 0:
				held = append(held, re.Push(v))
			case s.op == 1 && len(held) > 0:
				say(re.SetValue(held[s.n%len(held)], v))
			case !re.Empty():
				say(re.Pop(), re.Len())
			}
		case 7:
			for _, r := range rings {
				switch {
				case s.op == 0 && (!r.Full() || r == rings[2]):
					r.Push(v)
				case s.op == 1:
					r.MPush(v, v+1, v+2)
				case !r.Empty():
					say(r.Pop(), r.MPop(2), r.Len())
				}
			}
		case 8:
			switch s.op {
			case 0:
				bl.AddString(fmt.Sprint(s.n % 16))
				say(bl.ContainsString(fmt.Sprint(s.n % 16)))
			case 1:
				bl.Clear()
				say(bl.ContainsString(fmt.Sprint(s.n % 16)))
			default:
				a := ha.Sum64String(fmt.Sprint(v))
				ha.Sum64String("between")
				say(ha.Sum64([]byte(fmt.Sprint(v))) == a)
			}
		case 9:
			say(fw.TryAcquire(), lb.TryAcquire(), tb.TryAcquire(), sw.TryAcquire(), sl.TryAcquire() == nil)
		case 10:
			if s.op < 2 {
				q.Push(v, -time.Duration(s.n+1)*time.Second-time.Duration(i)*time.Millisecond)
			} else {
				x, ok := q.Pop()
				say(x, ok, q.Empty())
			}
		case 11:
			switch s.op {
			case 0:
				m.Set(s.n%4, v)
			case 1:
				m.Del(s.n % 4)
			default:
				say(m.TestAndSet(s.n%4, v))
			}
			say(m.Get(s.n%4), m.Len())
		}
	}
	return out.String()
}

func instances(rt *rapid.T, c *vt.C) {
	g := rapid.IntRange(2, 6).Draw(rt, "goroutines")
	fs, got, want := make([]func(), g), make([]string, g), make([]string, g)
	focus := rapid.IntRange(-8, 11).Draw(rt, "focus")
	for i := range fs {
		script := make([]step, rapid.IntRange(4, 60).Draw(rt, "steps"))
		for k := range script {
			script[k] = step{rapid.IntRange(0, 11).Draw(rt, "on"), rapid.IntRange(0, 2).Draw(rt, "op"), rapid.IntRange(0, 40).Draw(rt, "n")}
			if focus >= 0 {
				script[k].on = focus
			}
		}
		c.Logf("%v", script)
		c.NTIf(len(script) > 20)
		want[i] = play(script)
		fs[i] = func() { got[i] = play(script) }
	}
	together(fs)
	for i := range got {
		if got[i] != want[i] {
			rt.Fatalf("goroutine %d saw\n%s\ntogether with others and\n%s\nalone", i, got[i], want[i])
		}
	}
}
