package limiter

import (
	"errors"
	"math"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"pgregory.net/rapid"
	"vharness/vt"
)

// The busy histories: limits in the thousands and hundreds of steps, so that counters, logs and
// tables grow well beyond what a short history fills.

const busyRule = "limits up to 100000 and up to 400 steps, 200000 requests at most; non-trivial: more than 2000 admissions and a refusal"

// logFrom draws from bottom to top, every magnitude alike.
func logFrom(rt *rapid.T, label string, bottom, top int) int {
	return int(math.Exp(rapid.Float64Range(math.Log(float64(bottom)), math.Log(float64(top)+0.5)).Draw(rt, "log "+label)))
}

func logInt(rt *rapid.T, label string, top int) int { return logFrom(rt, label, 1, top) }

type busy struct {
	c                 *vt.C
	rt                *rapid.T
	limit             int
	left              int
	admitted, refused int
}

// steps drives a history: gap gives the gap before a step, try makes one request and tells
// whether it was admitted as it should have been.
func (b *busy) steps(gap func() time.Duration, try func() (got, want bool)) {
	n := logFrom(b.rt, "steps", 20, 400)
	seed, odds := rapid.Uint64().Draw(b.rt, "seed"), uint64(rapid.IntRange(1, 8).Draw(b.rt, "odds"))
	burst := uint64(logFrom(b.rt, "burst", int(math.Sqrt(float64(b.limit))), b.limit))
	b.c.Logf("%d steps, bursts of up to %d, seed %d/%d", n, burst, seed, odds)
	b.left = 200000
	for i := 0; i < n && b.left > 0; i++ {
		if r := vt.Mix(seed + uint64(i)); r%8 < odds {
			advance(b.c, gap())
		}
		m := int(vt.Mix(seed^uint64(i)) % (burst + 1))
		if vt.Mix(seed+uint64(i)*7)%16 == 0 {
			m = b.limit + 1
		}
		for j := 0; j < m && b.left > 0; j++ {
			b.left--
			got, want := try()
			if got != want {
				b.rt.Fatalf("request %d of step %d (%d admitted before, %d refused): got %v, want %v", j, i, b.admitted, b.refused, got, want)
			}
			if got {
				b.admitted++
			} else {
				b.refused++
			}
		}
	}
	b.c.NTIf(b.admitted > 2000 && b.refused > 0)
}

func busyFixed(rt *rapid.T, c *vt.C) {
	limit := logFrom(rt, "limit", 30, 100000)
	window := time.Duration(logInt(rt, "window", int(time.Hour)))
	l := fixed_window.NewFixedWindowLimiter(limit, window)
	start, count := time.Now(), 0
	c.Logf("limit=%d window=%s", limit, window)
	b := &busy{c: c, rt: rt, limit: limit}
	b.steps(func() time.Duration {
		switch vt.Weighted(rt, "gap", 3, 2, 1, 1) {
		case 0:
			return time.Duration(rapid.Int64Range(0, int64(window)/4).Draw(rt, "in"))
		case 1:
			return max(0, window-time.Since(start)) + time.Duration(rapid.IntRange(0, 1).Draw(rt, "after"))
		case 2:
			return time.Duration(rapid.Int64Range(0, 3*int64(window)).Draw(rt, "far"))
		}
		return 1
	}, func() (bool, bool) {
		if now := time.Now(); now.Sub(start) > window {
			start, count = now, 0
		}
		want := count < limit
		if want {
			count++
		}
		return l.TryAcquire(), want
	})
}

func busyBucket(rt *rapid.T, c *vt.C, leaky bool) {
	size, rate := logFrom(rt, "size", 30, 100000), logFrom(rt, "rate", 10, 100000)
	try := token_bucket.NewTokenBucketLimiter(size, rate).TryAcquire
	if leaky {
		try = leaky_bucket.NewLeakyBucketLimiter(size, rate).TryAcquire
	}
	free := 0 // tokens, or space in the bucket
	if leaky {
		free = size
	}
	last := time.Now()
	c.Logf("size=%d rate=%d", size, rate)
	b := &busy{c: c, rt: rt, limit: size}
	b.steps(func() time.Duration {
		switch vt.Weighted(rt, "gap", 3, 2, 1, 1) {
		case 0:
			return time.Duration(rapid.Int64Range(0, int64(time.Second)).Draw(rt, "in"))
		case 1:
			return max(0, time.Second-time.Since(last)) - time.Duration(rapid.IntRange(0, 1).Draw(rt, "before"))
		case 2:
			return time.Duration(rapid.Int64Range(0, int64(time.Second)*int64(2+2*size/rate)).Draw(rt, "far"))
		}
		return time.Second
	}, func() (bool, bool) {
		if now := time.Now(); now.Sub(last) >= time.Second {
			free = min(size, free+rate*int(now.Sub(last)/time.Second))
			last = now
		}
		want := free > 0
		if want {
			free--
		}
		return try(), want
	})
}

// grid keeps the admissions per small window.
type grid struct{ cells, counts []int64 }

func (g *grid) since(from int64) (n int64) {
	for i := len(g.cells) - 1; i >= 0 && g.cells[i] >= from; i-- {
		n += g.counts[i]
	}
	return n
}

func (g *grid) add(cell int64) {
	if n := len(g.cells); n > 0 && g.cells[n-1] == cell {
		g.counts[n-1]++
		return
	}
	g.cells, g.counts = append(g.cells, cell), append(g.counts, 1)
}

// busyGap goes on by a few small windows as a rule, and now and then by about a whole window.
func busyGap(rt *rapid.T, small, k int64) time.Duration {
	toNext := small - time.Now().UnixNano()%small
	switch vt.Weighted(rt, "gap", 5, 3, 2, 1, 1) {
	case 0:
		return time.Duration(toNext)
	case 1:
		return time.Duration(rapid.Int64Range(0, 3*small).Draw(rt, "few"))
	case 2:
		return time.Duration(toNext - 1)
	case 3:
		return time.Duration(toNext + rapid.Int64Range(0, k/2+1).Draw(rt, "windows")*small)
	}
	return time.Duration(toNext + (k-1)*small - rapid.Int64Range(0, 1).Draw(rt, "before"))
}

// walk goes from small window to small window, hundreds of them, with about as many requests in
// each as fill the limit when the whole window has been walked through.
func walk(rt *rapid.T, c *vt.C, small, k int64, limit int, try func() (got, want bool)) {
	seed := rapid.Uint64().Draw(rt, "seed")
	per := 1 + uint64(float64(2*limit)*rapid.Float64Range(0.7, 1.5).Draw(rt, "share"))/uint64(k)
	rest := uint64(rapid.IntRange(3, 60).Draw(rt, "rest"))
	n := min(3*int(k)+10, 4000)
	c.Logf("%d small windows, up to %d requests in each, seed %d, longer rests 1/%d", n, per, seed, rest)
	refused, readmitted := 0, 0
	for i := 0; i < n; i++ {
		r := vt.Mix(seed + uint64(i))
		step := int64(1)
		if r%rest == 0 {
			step = int64(r>>8%8) + 1
		}
		if now := time.Now().UnixNano(); true {
			advance(c, time.Duration((now/small+step)*small-now)+time.Duration(r>>16%uint64(small)))
		}
		for j := 1 + r>>32%per; j > 0; j-- {
			got, want := try()
			if got != want {
				rt.Fatalf("request in step %d, %d refused before: got %v, want %v", i, refused, got, want)
			}
			if !got {
				refused++
			} else if refused > 0 {
				readmitted++
			}
		}
	}
	c.NTIf(refused > 0 && readmitted > 0 && k > 100)
}

const walkRule = "windows of 50 to 800 small windows, walked through one after the other up to three times with about as many requests as the limit allows; non-trivial: more than 100 small windows, a refusal and a later admission"

func walkWindow(rt *rapid.T, c *vt.C) {
	small := int64(logFrom(rt, "small", 1000, int(time.Hour)))
	k := int64(logFrom(rt, "k", 50, 800))
	limit := logFrom(rt, "limit", int(k)/2, 4*int(k))
	l, err := sliding_window.NewSlidingWindowLimiter(limit, time.Duration(small*k), time.Duration(small))
	if err != nil {
		rt.Fatalf("window %d small %d refused: %v", small*k, small, err)
	}
	c.Logf("limit=%d small=%s k=%d", limit, time.Duration(small), k)
	var g grid
	walk(rt, c, small, k, limit, func() (bool, bool) {
		cell := time.Now().UnixNano() / small
		want := g.since(cell-k+1) < int64(limit)
		if want {
			g.add(cell)
		}
		return l.TryAcquire(), want
	})
}

func walkLog(rt *rapid.T, c *vt.C) {
	small := int64(logFrom(rt, "small", 1000, int(time.Hour)))
	k := int64(logFrom(rt, "k", 50, 800))
	limit := logFrom(rt, "limit", int(k)/2, 4*int(k))
	ss := []strat{{limit, k}}
	for i := rapid.IntRange(0, 4).Draw(rt, "narrower"); i > 0 && ss[0].k > 2 && ss[0].limit > 2; i-- {
		nk := rapid.Int64Range(1, ss[0].k-1).Draw(rt, "k")
		// rarely the one that refuses
		nl := max(1, ss[0].limit-rapid.IntRange(1, 1+ss[0].limit/10).Draw(rt, "less"))
		ss = append([]strat{{nl, nk}}, ss...)
	}
	n := len(ss)
	objs := make([]*sliding_log.SlidingLogLimiterStrategy, n)
	for i, s := range rapid.Permutation(ss).Draw(rt, "order") {
		objs[i] = sliding_log.NewSlidingLogLimiterStrategy(s.limit, time.Duration(s.k*small))
	}
	l, err := sliding_log.NewSlidingLogLimiter(time.Duration(small), objs...)
	if err != nil {
		rt.Fatalf("small %d strategies %v refused: %v", small, ss, err)
	}
	c.Logf("small=%s strategies(limit,k)=%v", time.Duration(small), ss)
	var g grid
	walk(rt, c, small, k, limit, func() (bool, bool) { return logTry(rt, l, &g, ss, small) })
}

// logTry makes one request of a log limiter and of its model.
func logTry(rt *rapid.T, l *sliding_log.SlidingLogLimiter, g *grid, ss []strat, small int64) (got, admit bool) {
	cell := time.Now().UnixNano() / small
	var want *strat
	for x := len(ss) - 1; x >= 0 && want == nil; x-- { // widest first
		if g.since(cell-ss[x].k+1) >= int64(ss[x].limit) {
			want = &ss[x]
		}
	}
	err := l.TryAcquire()
	if want == nil {
		g.add(cell)
		return err == nil, true
	}
	var v *sliding_log.ViolationStrategyError
	if errors.As(err, &v) && (v.Limit != want.limit || v.Window != time.Duration(want.k*small)) {
		rt.Fatalf("refusal names limit %d window %s, want limit %d window %s", v.Limit, v.Window, want.limit, time.Duration(want.k*small))
	}
	return err == nil, false
}

func busyWindow(rt *rapid.T, c *vt.C) {
	small := int64(logInt(rt, "small", int(time.Minute)))
	k := int64(logInt(rt, "k", 500))
	limit := logFrom(rt, "limit", 100, 20000)
	l, err := sliding_window.NewSlidingWindowLimiter(limit, time.Duration(small*k), time.Duration(small))
	if err != nil {
		rt.Fatalf("window %d small %d refused: %v", small*k, small, err)
	}
	c.Logf("limit=%d small=%s k=%d", limit, time.Duration(small), k)
	var g grid
	b := &busy{c: c, rt: rt, limit: max(1, limit/int(min(k, 20)))}
	b.steps(func() time.Duration { return busyGap(rt, small, k) }, func() (bool, bool) {
		cell := time.Now().UnixNano() / small
		want := g.since(cell-k+1) < int64(limit)
		if want {
			g.add(cell)
		}
		return l.TryAcquire(), want
	})
}

func busyLog(rt *rapid.T, c *vt.C) {
	small := int64(logInt(rt, "small", int(time.Minute)))
	n := rapid.IntRange(1, 20).Draw(rt, "strategies")
	var ss []strat
	k, lim := int64(logInt(rt, "k0", 50)), logInt(rt, "l0", 3000)
	for i := 0; i < n; i++ {
		ss = append(ss, strat{lim, k})
		k += int64(logInt(rt, "dk", 40)) - 1
		lim += logInt(rt, "dl", 3000)
	}
	order := rapid.Permutation(ss).Draw(rt, "order")
	objs := make([]*sliding_log.SlidingLogLimiterStrategy, n)
	for i, s := range order {
		objs[i] = sliding_log.NewSlidingLogLimiterStrategy(s.limit, time.Duration(s.k*small))
	}
	l, err := sliding_log.NewSlidingLogLimiter(time.Duration(small), objs...)
	if err != nil {
		rt.Fatalf("small %d strategies %v refused: %v", small, order, err)
	}
	c.Logf("small=%s strategies(limit,k)=%v", time.Duration(small), order)
	var g grid
	b := &busy{c: c, rt: rt, limit: max(1, ss[0].limit)}
	b.steps(func() time.Duration { return busyGap(rt, small, vt.Pick(rt, "edge of", ss[n-1].k, ss[0].k)) }, func() (bool, bool) { return logTry(rt, l, &g, ss, small) })
}
