package limiterc

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/limiter/fixed_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/leaky_bucket"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_window"
	"github.com/ahKevinXy/go-web-tools/common/limiter/token_bucket"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// model answers one request at the current (fake) time, sequentially.
type model func() bool

// makeLimiter draws a limiter of the given kind with its sequential model.
func makeLimiter(rt *rapid.T, kind int) (try func() bool, m model, desc string) {
	switch kind {
	case 0:
		limit := rapid.IntRange(0, 40).Draw(rt, "limit")
		w := time.Duration(rapid.IntRange(1, 3000).Draw(rt, "w")) * time.Millisecond
		l := fixed_window.NewFixedWindowLimiter(limit, w)
		start, n := time.Now(), 0
		return l.TryAcquire, func() bool {
			if time.Since(start) > w {
				start, n = time.Now(), 0
			}
			if n >= limit {
				return false
			}
			n++
			return true
		}, fmt.Sprintf("fixed(%d,%s)", limit, w)
	case 1:
		peak, vel := rapid.IntRange(0, 40).Draw(rt, "peak"), rapid.IntRange(0, 20).Draw(rt, "vel")
		l := leaky_bucket.NewLeakyBucketLimiter(peak, vel)
		last, lev := time.Now(), 0
		return l.TryAcquire, func() bool {
			if iv := time.Since(last); iv >= time.Second {
				lev = max(0, lev-int(iv/time.Second)*vel)
				last = time.Now()
			}
			if lev >= peak {
				return false
			}
			lev++
			return true
		}, fmt.Sprintf("leaky(%d,%d)", peak, vel)
	case 2:
		cp, rate := rapid.IntRange(0, 40).Draw(rt, "cap"), rapid.IntRange(0, 20).Draw(rt, "rate")
		l := token_bucket.NewTokenBucketLimiter(cp, rate)
		last, tok := time.Now(), 0
		return l.TryAcquire, func() bool {
			if iv := time.Since(last); iv >= time.Second {
				tok = min(cp, tok+int(iv/time.Second)*rate)
				last = time.Now()
			}
			if tok == 0 {
				return false
			}
			tok--
			return true
		}, fmt.Sprintf("token(%d,%d)", cp, rate)
	case 3:
		limit, k := rapid.IntRange(0, 40).Draw(rt, "limit"), rapid.Int64Range(1, 6).Draw(rt, "k")
		small := int64(rapid.IntRange(1, 1000).Draw(rt, "small")) * int64(time.Millisecond)
		l, err := sliding_window.NewSlidingWindowLimiter(limit, time.Duration(k*small), time.Duration(small))
		if err != nil {
			rt.Fatalf("refused: %v", err)
		}
		cells := map[int64]int{}
		return l.TryAcquire, func() bool {
			cell, n := time.Now().UnixNano()/small, 0
			for c, v := range cells {
				if c > cell-k {
					n += v
				}
			}
			if n >= limit {
				return false
			}
			cells[cell]++
			return true
		}, fmt.Sprintf("slidingwindow(%d,%d*%dms)", limit, k, small/1e6)
	default:
		k1, l1 := rapid.Int64Range(1, 3).Draw(rt, "k1"), rapid.IntRange(0, 15).Draw(rt, "l1")
		k2, l2 := k1+rapid.Int64Range(0, 4).Draw(rt, "dk"), l1+rapid.IntRange(1, 25).Draw(rt, "dl")
		small := int64(rapid.IntRange(1, 1000).Draw(rt, "small")) * int64(time.Millisecond)
		l, err := sliding_log.NewSlidingLogLimiter(time.Duration(small),
			sliding_log.NewSlidingLogLimiterStrategy(l1, time.Duration(k1*small)),
			sliding_log.NewSlidingLogLimiterStrategy(l2, time.Duration(k2*small)))
		if err != nil {
			rt.Fatalf("refused: %v", err)
		}
		cells := map[int64]int{}
		return func() bool { return l.TryAcquire() == nil }, func() bool {
			cell, n1, n2 := time.Now().UnixNano()/small, 0, 0
			for c, v := range cells {
				if c > cell-k1 {
					n1 += v
				}
				if c > cell-k2 {
					n2 += v
				}
			}
			if n1 >= l1 || n2 >= l2 {
				return false
			}
			cells[cell]++
			return true
		}, fmt.Sprintf("slidinglog(%d/%d,%d/%d,%dms)", l1, k1, l2, k2, small/1e6)
	}
}

func TestC06(t *testing.T) {
	for kind, name := range []string{"fixed window", "leaky bucket", "token bucket", "sliding window", "sliding log"} {
		vt.Sync(t, name, "bursts of concurrent requests by 2 to 24 goroutines frozen at one instant of the fake clock; non-trivial: a burst in which some but not all requests are admitted",
			1200, 20000, func(rt *rapid.T, c *vt.C) {
				time.Sleep(time.Duration(rapid.Int64Range(0, int64(2*time.Second)).Draw(rt, "phase")))
				try, m, desc := makeLimiter(rt, kind)
				c.Logf("%s", desc)
				bursts := rapid.IntRange(1, 8).Draw(rt, "bursts")
				for b := 0; b < bursts; b++ {
					gap := time.Duration(vt.Pick(rt, "gap", 0, 100, 500, 999, 1000, 1001, 2000, 3001, 10000)) * time.Millisecond
					time.Sleep(gap)
					workers := rapid.IntRange(2, 24).Draw(rt, "workers")
					per := rapid.IntRange(1, 4).Draw(rt, "per")
					yields := rapid.SliceOfN(rapid.IntRange(0, 2), workers, workers).Draw(rt, "yields")
					var admitted, ready atomic.Int64
					var wg sync.WaitGroup
					for w := 0; w < workers; w++ {
						wg.Add(1)
						go func() {
							defer wg.Done()
							ready.Add(1)
							for ready.Load() < int64(workers) { // start together
								runtime.Gosched()
							}
							for i := 0; i < per; i++ {
								for y := 0; y < yields[w]; y++ {
									runtime.Gosched()
								}
								if try() {
									admitted.Add(1)
								}
							}
						}()
					}
					wg.Wait()
					want := int64(0)
					for i := 0; i < workers*per; i++ {
						if m() {
							want++
						}
					}
					c.Logf("+%s %dx%d->%d", gap, workers, per, want)
					if got := admitted.Load(); got != want {
						rt.Fatalf("%s: burst %d of %d concurrent requests: %d admitted, %d expected one after another", desc, b, workers*per, got, want)
					}
					if want > 0 && want < int64(workers*per) {
						c.NT()
						c.Label("contended burst")
					}
				}
			})
	}
}
