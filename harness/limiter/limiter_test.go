package limiter

import (
	"errors"
	"math/big"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const maxInt = int(^uint(0) >> 1)

// advance sleeps on the fake clock, which ends in 2262.
func advance(c *vt.C, d time.Duration) {
	if d > 0 && d < time.Date(2260, 1, 1, 0, 0, 0, 0, time.UTC).Sub(time.Now()) {
		time.Sleep(d)
	}
}

// wide draws a number of any magnitude from 1 to 2^bits.
func wide(rt *rapid.T, label string, bits int) int64 {
	b := rapid.IntRange(0, bits).Draw(rt, label+" bits")
	return rapid.Int64Range((1<<b+1)/2, 1<<b).Draw(rt, label)
}

// ---------------------------------------------------------------- C01

func TestC01(t *testing.T) {
	vt.Sync(t, "busy", busyRule, 60, 1500, busyFixed)
	vt.Sync(t, "history", "one limiter and a history of (gap, burst) steps on the fake clock, gaps drawn around the window edges; non-trivial: at least one refusal and one later admission in a new window",
		15000, 400000, func(rt *rapid.T, c *vt.C) {
			limit := vt.Pick(rt, "limit kind", 0, 1, 2, 3)
			switch limit {
			case 0:
				limit = rapid.IntRange(-2, 3).Draw(rt, "limit")
			case 1, 2:
				limit = rapid.IntRange(1, 8).Draw(rt, "limit")
			default:
				limit = vt.Pick(rt, "limit", 50, 100, 1000, maxInt)
			}
			window := time.Duration(vt.Pick(rt, "window", 0, 1, 2, 1000, 999999, int64(time.Millisecond), int64(37*time.Millisecond),
				int64(time.Second), int64(time.Second)+1, int64(90*time.Second), int64(time.Hour), int64(100*24*time.Hour)))
			switch vt.Weighted(rt, "free window", 4, 3, 2) {
			case 1:
				window = time.Duration(rapid.Int64Range(0, int64(5*time.Second)).Draw(rt, "w"))
			case 2: // up to 73 years
				window = time.Duration(wide(rt, "w", 61))
			}
			advance(c, time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "phase")))
			l := fixed_window.NewFixedWindowLimiter(limit, window)
			start := time.Now()
			count := 0
			c.Logf("limit=%d window=%s", limit, window)
			steps := rapid.IntRange(1, 14).Draw(rt, "steps")
			refused, reopened := false, false
			for i := 0; i < steps; i++ {
				toEdge := window - time.Since(start)
				var gap time.Duration
				switch vt.Weighted(rt, "gap", 3, 3, 3, 2, 3, 2, 2) {
				case 0:
					gap = 0
				case 1:
					gap = toEdge
				case 2:
					gap = toEdge + 1
				case 3:
					gap = toEdge - 1
				case 4:
					gap = time.Duration(rapid.Int64Range(0, int64(window)+1).Draw(rt, "in"))
				case 5:
					gap = time.Duration(rapid.Int64Range(0, min(3, (1<<62)/max(int64(window), 1))*int64(window)+2).Draw(rt, "far"))
				case 6:
					gap = toEdge + time.Duration(rapid.Int64Range(1, int64(time.Millisecond)).Draw(rt, "after"))
				}
				if gap < 0 {
					gap = 0
				}
				advance(c, gap)
				n := rapid.IntRange(1, 6).Draw(rt, "burst")
				if limit > 0 && limit <= 1000 && vt.Weighted(rt, "big", 2, 1) == 1 {
					n = limit + rapid.IntRange(-1, 3).Draw(rt, "over")
				}
				c.Logf("+%s x%d", gap, n)
				for j := 0; j < n; j++ {
					if now := time.Now(); now.Sub(start) > window {
						start, count = now, 0
						reopened = reopened || refused
						c.Label("window opened")
					}
					want := count < limit
					if want {
						count++
					} else {
						refused = true
					}
					if got := l.TryAcquire(); got != want {
						rt.Fatalf("limit %d window %s: request %d of step %d, %s after the window start: got %v, want %v (admitted so far in the window: %d)",
							limit, window, j, i, time.Since(start), got, want, count)
					}
				}
			}
			c.LabelIf(refused, "refusal")
			c.LabelIf(limit <= 0, "limit<=0")
			c.NTIf(refused && (reopened || limit <= 0))
		})
}

// ---------------------------------------------------------------- C02, C03

// gaps relative to the last whole-second event
func secondGap(rt *rapid.T, last time.Time) time.Duration {
	since := time.Since(last)
	var g time.Duration
	switch vt.Weighted(rt, "gap", 3, 3, 3, 2, 3, 3, 2, 1, 2) {
	case 8: // around any number of whole seconds up to 136 years
		g = time.Duration(wide(rt, "s", 32))*time.Second - since + time.Duration(rapid.Int64Range(-2, 1).Draw(rt, "ns"))
	case 0:
		g = 0
	case 1:
		g = time.Second - since
	case 2:
		g = time.Second - since - 1
	case 3:
		g = time.Duration(rapid.Int64Range(1, int64(time.Second)).Draw(rt, "sub"))
	case 4:
		g = time.Duration(rapid.Int64Range(1, 6).Draw(rt, "s"))*time.Second - since
	case 5:
		g = time.Duration(rapid.Int64Range(0, int64(7*time.Second)).Draw(rt, "few"))
	case 6:
		g = time.Duration(rapid.Int64Range(1, 1000).Draw(rt, "s"))*time.Second - since - time.Duration(rapid.Int64Range(0, 2).Draw(rt, "ns"))
	case 7:
		g = time.Duration(rapid.Int64Range(1, 3000).Draw(rt, "days")) * 24 * time.Hour
	}
	if g < 0 {
		g = 0
	}
	return g
}

// bucketSize is a peak or a capacity, one in eight of them zero or less.
func bucketSize(rt *rapid.T, name string) int {
	if vt.Weighted(rt, name+" sign", 7, 1) == 1 {
		return -bucketParam(rt, name) - rapid.IntRange(0, 1).Draw(rt, "more")
	}
	return bucketParam(rt, name)
}

func bucketParam(rt *rapid.T, name string) int {
	switch vt.Weighted(rt, name+" kind", 6, 3, 2, 2) {
	case 0:
		return rapid.IntRange(0, 6).Draw(rt, name)
	case 1:
		return rapid.IntRange(0, 40).Draw(rt, name)
	case 2:
		return rapid.IntRange(0, maxInt).Draw(rt, name)
	default:
		return maxInt / rapid.IntRange(1, 9).Draw(rt, name+" div")
	}
}

func TestC02(t *testing.T) {
	vt.Sync(t, "busy", busyRule, 60, 1500, func(rt *rapid.T, c *vt.C) { busyBucket(rt, c, true) })
	vt.Sync(t, "long idle", "a full bucket of velocity one, twice idle for half a year or more to within a nanosecond of a whole second and then filled again; non-trivial: all",
		2, 24, func(rt *rapid.T, c *vt.C) {
			peak := 1<<24 + 1<<21 + rapid.IntRange(0, 1000).Draw(rt, "peak")
			l := leaky_bucket.NewLeakyBucketLimiter(peak, 1)
			for i := 0; i < peak; i++ {
				if !l.TryAcquire() {
					rt.Fatalf("peak %d: request %d is refused", peak, i)
				}
			}
			longIdle(rt, c, "leaky bucket", l.TryAcquire)
		})
	vt.Sync(t, "history", "one bucket and a history of (gap, burst) steps, gaps drawn around whole seconds since the last drain, velocity and peak up to the maximum integer; non-trivial: a refusal happened and a drain happened",
		15000, 400000, func(rt *rapid.T, c *vt.C) {
			peak, vel := bucketSize(rt, "peak"), bucketParam(rt, "velocity")
			advance(c, time.Duration(rapid.Int64Range(0, int64(2*time.Second)).Draw(rt, "phase")))
			l := leaky_bucket.NewLeakyBucketLimiter(peak, vel)
			last := time.Now()
			level := big.NewInt(0)
			bpeak, bvel, one := big.NewInt(int64(peak)), big.NewInt(int64(vel)), big.NewInt(1)
			c.Logf("peak=%d velocity=%d", peak, vel)
			refused, drained := false, false
			steps := rapid.IntRange(1, 14).Draw(rt, "steps")
			for i := 0; i < steps; i++ {
				gap := secondGap(rt, last)
				advance(c, gap)
				n := rapid.IntRange(1, 7).Draw(rt, "burst")
				if peak <= 40 && vt.Weighted(rt, "big", 2, 1) == 1 {
					n = max(peak, 0) + rapid.IntRange(0, 2).Draw(rt, "over") + 1
				}
				c.Logf("+%s x%d", gap, n)
				for j := 0; j < n; j++ {
					now := time.Now()
					if iv := now.Sub(last); iv >= time.Second {
						if level.Sign() > 0 {
							drained = true
						}
						level.Sub(level, new(big.Int).Mul(big.NewInt(int64(iv/time.Second)), bvel))
						if level.Sign() < 0 {
							level.SetInt64(0)
						}
						last = now
					}
					want := level.Cmp(bpeak) < 0
					if want {
						level.Add(level, one)
					} else {
						refused = true
					}
					if got := l.TryAcquire(); got != want {
						rt.Fatalf("peak %d velocity %d: request %d of step %d: got %v, want %v (level now %s)", peak, vel, j, i, got, want, level)
					}
				}
			}
			c.LabelIf(refused, "refusal")
			c.LabelIf(drained, "drain")
			c.LabelIf(vel > 1<<40, "huge velocity")
			c.LabelIf(peak < 0, "peak below zero")
			c.NTIf(refused && drained || drained && vel > 1<<40)
		})
}

// longIdle asks after an idle time of just under, just over or exactly n whole seconds, n in the
// millions, at one unit a second: exactly as many requests as whole seconds are admitted, and no more.
func longIdle(rt *rapid.T, c *vt.C, name string, try func() bool) {
	for _, off := range []int{-1, rapid.IntRange(-1, 1).Draw(rt, "off")} {
		n := 1<<24 + int(wide(rt, "seconds", 21))
		c.Logf("%s idle for %d s %+d ns", name, n, off)
		time.Sleep(time.Duration(n)*time.Second + time.Duration(off))
		if off < 0 {
			n--
		}
		for i := 0; i < n; i++ {
			if !try() {
				rt.Fatalf("%s: request %d after %d whole seconds is refused", name, i, n)
			}
		}
		if try() {
			rt.Fatalf("%s: %d requests are admitted after %d whole seconds", name, n+1, n)
		}
	}
	c.NT()
}

func TestC03(t *testing.T) {
	vt.Sync(t, "busy", busyRule, 60, 1500, func(rt *rapid.T, c *vt.C) { busyBucket(rt, c, false) })
	vt.Sync(t, "long idle", "a bucket of rate one and a capacity that is not reached, twice idle for half a year or more to within a nanosecond of a whole second and then emptied; non-trivial: all",
		2, 24, func(rt *rapid.T, c *vt.C) {
			longIdle(rt, c, "token bucket", token_bucket.NewTokenBucketLimiter(vt.Pick(rt, "capacity", 1<<25, maxInt), 1).TryAcquire)
		})
	vt.Sync(t, "history", "one bucket and a history of (gap, burst) steps, gaps drawn around whole seconds since the last issue, rate and capacity up to the maximum integer; non-trivial: an admission and a refusal happened",
		15000, 400000, func(rt *rapid.T, c *vt.C) {
			capacity, rate := bucketSize(rt, "capacity"), bucketParam(rt, "rate")
			advance(c, time.Duration(rapid.Int64Range(0, int64(2*time.Second)).Draw(rt, "phase")))
			l := token_bucket.NewTokenBucketLimiter(capacity, rate)
			last := time.Now()
			tokens := big.NewInt(0)
			bcap, brate, one := big.NewInt(int64(capacity)), big.NewInt(int64(rate)), big.NewInt(1)
			c.Logf("capacity=%d rate=%d", capacity, rate)
			admitted, refused, capped := false, false, false
			steps := rapid.IntRange(1, 14).Draw(rt, "steps")
			for i := 0; i < steps; i++ {
				gap := secondGap(rt, last)
				advance(c, gap)
				n := rapid.IntRange(1, 7).Draw(rt, "burst")
				if capacity <= 40 && vt.Weighted(rt, "big", 2, 1) == 1 {
					n = max(capacity, 0) + rapid.IntRange(0, 2).Draw(rt, "over") + 1
				}
				c.Logf("+%s x%d", gap, n)
				for j := 0; j < n; j++ {
					now := time.Now()
					if iv := now.Sub(last); iv >= time.Second {
						tokens.Add(tokens, new(big.Int).Mul(big.NewInt(int64(iv/time.Second)), brate))
						if tokens.Cmp(bcap) > 0 {
							tokens.Set(bcap)
							capped = true
						}
						last = now
					}
					want := tokens.Sign() > 0
					if want {
						tokens.Sub(tokens, one)
						admitted = true
					} else {
						refused = true
					}
					if got := l.TryAcquire(); got != want {
						rt.Fatalf("capacity %d rate %d: request %d of step %d: got %v, want %v (tokens now %s)", capacity, rate, j, i, got, want, tokens)
					}
				}
			}
			c.LabelIf(admitted, "admission")
			c.LabelIf(refused, "refusal")
			c.LabelIf(capped, "capped")
			c.LabelIf(rate > 1<<40, "huge rate")
			c.LabelIf(capacity < 0, "capacity below zero")
			c.NTIf(admitted && refused)
		})
}

// ---------------------------------------------------------------- C04, C05

func smallWindow(rt *rapid.T) int64 {
	switch vt.Weighted(rt, "small kind", 6, 2, 1) {
	case 1:
		return rapid.Int64Range(1, int64(3*time.Second)).Draw(rt, "small")
	case 2:
		return max(wide(rt, "small", 54), 1)
	}
	return vt.Pick(rt, "small", 1, 3, 1000, int64(time.Millisecond), int64(7*time.Millisecond), int64(100*time.Millisecond), int64(time.Second), int64(time.Minute), int64(time.Hour))
}

// gap towards the edges of the epoch-aligned grid
func gridGap(rt *rapid.T, small, k int64) time.Duration {
	pos := time.Now().UnixNano() % small
	toNext := small - pos
	var g int64
	switch vt.Weighted(rt, "gap", 3, 3, 3, 3, 3, 2, 2, 2) {
	case 0:
		g = 0
	case 1:
		g = toNext
	case 2:
		g = toNext - 1
	case 3:
		g = rapid.Int64Range(0, small).Draw(rt, "in")
	case 4:
		g = toNext + rapid.Int64Range(0, k+1).Draw(rt, "windows")*small
	case 5:
		g = toNext + rapid.Int64Range(0, k+1).Draw(rt, "windows")*small - 1
	case 6:
		g = (k-1)*small - pos + rapid.Int64Range(-1, 1).Draw(rt, "off")
	case 7:
		g = rapid.Int64Range(0, 2*k*small).Draw(rt, "any")
	}
	if g < 0 {
		g = 0
	}
	return time.Duration(g)
}

// countSince sums admissions in grid cells >= from.
func countSince(cells map[int64]int, from int64) int {
	n := 0
	for c, v := range cells {
		if c >= from {
			n += v
		}
	}
	return n
}

func TestC04(t *testing.T) {
	vt.Sync(t, "busy", busyRule, 60, 1500, busyWindow)
	vt.Sync(t, "walk", walkRule, 40, 1000, walkWindow)
	vt.Sync(t, "history", "one limiter and a history of (gap, burst) steps, gaps drawn around the edges of the small windows and of the whole window, at any phase of the clock; non-trivial: a refusal, then an admission because old small windows expired",
		15000, 400000, func(rt *rapid.T, c *vt.C) {
			small := smallWindow(rt)
			k := rapid.Int64Range(1, 9).Draw(rt, "k")
			limit := rapid.IntRange(0, 9).Draw(rt, "limit")
			if vt.Weighted(rt, "many", 8, 1) == 1 { // small ones, up to 18 years in all
				k = wide(rt, "k", 17)
				small = min(small, 1<<59/k)
			}
			advance(c, time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "phase")))
			l, err := sliding_window.NewSlidingWindowLimiter(limit, time.Duration(small*k), time.Duration(small))
			if err != nil || l == nil {
				rt.Fatalf("window %d small %d refused: %v", small*k, small, err)
			}
			c.Logf("limit=%d small=%s k=%d", limit, time.Duration(small), k)
			cells := map[int64]int{}
			refused, reopened := false, false
			steps := rapid.IntRange(1, 18).Draw(rt, "steps")
			for i := 0; i < steps; i++ {
				gap := gridGap(rt, small, k)
				advance(c, gap)
				n := rapid.IntRange(1, 4).Draw(rt, "burst")
				c.Logf("+%s x%d", gap, n)
				for j := 0; j < n; j++ {
					cell := time.Now().UnixNano() / small
					want := countSince(cells, cell-k+1) < limit
					if want {
						cells[cell]++
						reopened = reopened || refused
					} else {
						refused = true
					}
					if got := l.TryAcquire(); got != want {
						rt.Fatalf("limit %d small %d k %d: request %d of step %d at cell %d: got %v, want %v (cells %v)", limit, small, k, j, i, cell, got, want, cells)
					}
				}
			}
			c.LabelIf(refused, "refusal")
			c.LabelIf(reopened, "refusal then admission")
			c.NTIf(reopened)
		})
	vt.Check(t, "constructor", "positive windows against small windows of any sign; non-trivial: the pair must be refused", 15000, 300000, func(rt *rapid.T, c *vt.C) {
		window := rapid.Int64Range(1, 200).Draw(rt, "window")
		small := rapid.Int64Range(-20, 60).Draw(rt, "small")
		if rapid.Bool().Draw(rt, "big") {
			window *= int64(time.Millisecond)
			small *= int64(time.Millisecond)
		}
		switch vt.Weighted(rt, "extreme", 12, 1, 1) {
		case 1:
			small = -1 << 63
		case 2:
			window = 1<<63 - 1
		}
		bad := small <= 0 || window%small != 0
		c.Logf("window=%d small=%d", window, small)
		var l *sliding_window.SlidingWindowLimiter
		var err error
		if v, p := vt.Panics(func() {
			l, err = sliding_window.NewSlidingWindowLimiter(3, time.Duration(window), time.Duration(small))
		}); p {
			rt.Fatalf("window %d small %d: panic %v", window, small, v)
		}
		if (err != nil) != bad {
			rt.Fatalf("window %d small %d: err %v, want refusal %v", window, small, err, bad)
		}
		if !bad && l == nil {
			rt.Fatalf("no limiter and no error")
		}
		c.LabelIf(small <= 0, "small<=0")
		c.NTIf(bad)
	})
}

type strat struct {
	limit int
	k     int64
}

func TestC05(t *testing.T) {
	vt.Sync(t, "busy", busyRule, 60, 1500, busyLog)
	vt.Sync(t, "walk", walkRule, 40, 1000, walkLog)
	vt.Sync(t, "history", "1 to 5 strategies over one grid in any order, values shared with a second limiter on another grid, and a history of (gap, burst) steps; non-trivial: a refusal with at least two strategies",
		15000, 400000, func(rt *rapid.T, c *vt.C) {
			small := smallWindow(rt)
			n := rapid.IntRange(1, 5).Draw(rt, "strategies")
			// built from the narrowest: windows non-decreasing, limits strictly increasing
			var ss []strat
			k, lim := rapid.Int64Range(1, 3).Draw(rt, "k0"), rapid.IntRange(0, 3).Draw(rt, "l0")
			for i := 0; i < n; i++ {
				ss = append(ss, strat{lim, k})
				k += rapid.Int64Range(0, 4).Draw(rt, "dk")
				lim += rapid.IntRange(1, 4).Draw(rt, "dl")
			}
			order := rapid.Permutation(ss).Draw(rt, "order")
			objs := make([]*sliding_log.SlidingLogLimiterStrategy, n)
			for i, s := range order {
				objs[i] = sliding_log.NewSlidingLogLimiterStrategy(s.limit, time.Duration(s.k*small))
			}
			advance(c, time.Duration(rapid.Int64Range(0, int64(3*time.Second)).Draw(rt, "phase")))
			arg := append(make([]*sliding_log.SlidingLogLimiterStrategy, 0, n+2), objs...)
			l, err := sliding_log.NewSlidingLogLimiter(time.Duration(small), arg...)
			if err != nil || l == nil {
				rt.Fatalf("small %d strategies %v refused: %v", small, order, err)
			}
			c.Logf("small=%s strategies(limit,k)=%v", time.Duration(small), order)
			kmax := ss[n-1].k
			// a second limiter from the same strategy values, on a finer grid; the caller also
			// reuses its own slice
			var l2 *sliding_log.SlidingLogLimiter
			if small%2 == 0 && rapid.Bool().Draw(rt, "share") {
				l2, err = sliding_log.NewSlidingLogLimiter(time.Duration(small/2), objs...)
				if err != nil {
					rt.Fatalf("sharing strategies refused: %v", err)
				}
				c.Label("shared strategies")
			}
			for i := range arg {
				arg[i] = nil
			}
			cells, cells2 := map[int64]int{}, map[int64]int{}
			refused, readmit := false, false
			try := func(l *sliding_log.SlidingLogLimiter, cells map[int64]int, small, mul int64, tag string) {
				cell := time.Now().UnixNano() / small
				var want *strat
				for x := n - 1; x >= 0; x-- { // widest first
					if countSince(cells, cell-ss[x].k*mul+1) >= ss[x].limit {
						want = &ss[x]
						break
					}
				}
				err := l.TryAcquire()
				if want == nil {
					cells[cell]++
					if err != nil {
						rt.Fatalf("%s: refused with %v although no strategy is violated (cells %v)", tag, err, cells)
					}
					readmit = readmit || refused
					return
				}
				refused = true
				if err == nil {
					rt.Fatalf("%s: admitted although limit %d over %d small windows is used up (cells %v, cell %d)", tag, want.limit, want.k, cells, cell)
				}
				var v *sliding_log.ViolationStrategyError
				if !errors.As(err, &v) {
					rt.Fatalf("%s: refusal is %T %v, not a ViolationStrategyError", tag, err, err)
				}
				if v.Limit != want.limit || v.Window != time.Duration(want.k*mul*small) {
					rt.Fatalf("%s: refusal names limit %d window %s, want limit %d window %s", tag, v.Limit, v.Window, want.limit, time.Duration(want.k*mul*small))
				}
			}
			steps := rapid.IntRange(1, 18).Draw(rt, "steps")
			for i := 0; i < steps; i++ {
				gap := gridGap(rt, small, vt.Pick(rt, "edge of", kmax, ss[0].k))
				advance(c, gap)
				b := rapid.IntRange(1, 6).Draw(rt, "burst")
				c.Logf("+%s x%d", gap, b)
				for j := 0; j < b; j++ {
					try(l, cells, small, 1, "first limiter")
					if l2 != nil {
						try(l2, cells2, small/2, 2, "second limiter")
					}
				}
			}
			c.LabelIf(refused, "refusal")
			c.LabelIf(readmit, "admission after refusal")
			c.NTIf(refused && n > 1)
		})
	vt.Check(t, "constructor", "any list of strategies with any small window; non-trivial: it must be refused", 20000, 400000, func(rt *rapid.T, c *vt.C) {
		small := rapid.Int64Range(-2, 6).Draw(rt, "small")
		n := rapid.IntRange(0, 4).Draw(rt, "n")
		type st struct {
			limit  int
			window int64
		}
		var ss []st
		for i := 0; i < n; i++ {
			w := rapid.Int64Range(1, 8).Draw(rt, "window")
			if small > 0 && vt.Weighted(rt, "multiple", 1, 5) == 1 {
				w *= small
			}
			ss = append(ss, st{rapid.IntRange(0, 12).Draw(rt, "limit"), w})
		}
		if small > 0 && rapid.Bool().Draw(rt, "sorted limits") { // make valid sets common
			for i := range ss {
				ss[i].limit = int(ss[i].window)*5 + i
			}
		}
		var arg []*sliding_log.SlidingLogLimiterStrategy
		for _, s := range ss {
			arg = append(arg, sliding_log.NewSlidingLogLimiterStrategy(s.limit, time.Duration(s.window)))
		}
		bad := n == 0 || small <= 0
		for i, a := range ss {
			if small > 0 && a.window%small != 0 {
				bad = true
			}
			for j, b := range ss {
				if i == j {
					continue
				}
				if a.window < b.window && a.limit >= b.limit || a.window == b.window && a.limit == b.limit {
					bad = true
				}
			}
		}
		c.Logf("small=%d strategies=%v", small, ss)
		var l *sliding_log.SlidingLogLimiter
		var err error
		if v, p := vt.Panics(func() { l, err = sliding_log.NewSlidingLogLimiter(time.Duration(small), arg...) }); p {
			rt.Fatalf("small %d strategies %v: panic %v", small, ss, v)
		}
		if (err != nil) != bad {
			rt.Fatalf("small %d strategies %v: err %v, want refusal %v", small, ss, err, bad)
		}
		if err == nil && l == nil {
			rt.Fatalf("no limiter and no error")
		}
		c.LabelIf(!bad, "accepted")
		c.NTIf(bad)
	})
}
