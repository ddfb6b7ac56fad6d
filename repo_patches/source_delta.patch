From 2bb5f4b4a6abf445ee6f4d4ca8d854f1df20ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 01/64] fix: leaky and token buckets: do not overflow
 seconds*rate

---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 8 +++++++-
 common/limiter/token_bucket/token_bucket.go         | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 3f10122..baa8626 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -32,7 +32,13 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
-		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
+		// 先用除法判断是否已经放完，避免乘法溢出
+		seconds := int(interval / time.Second)
+		if l.currentVelocity > 0 && seconds > l.currentLevel/l.currentVelocity {
+			l.currentLevel = 0
+		} else {
+			l.currentLevel = maxInt(0, l.currentLevel-seconds*l.currentVelocity)
+		}
 		l.lastTime = now
 	}
 
diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..e82ee88 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -32,7 +32,13 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
-		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
+		// 先用除法判断是否会装满，避免乘法和加法溢出
+		seconds := int(interval / time.Second)
+		if l.rate > 0 && seconds > (l.capacity-l.currentTokens)/l.rate {
+			l.currentTokens = l.capacity
+		} else {
+			l.currentTokens = minInt(l.capacity, l.currentTokens+seconds*l.rate)
+		}
 		l.lastTime = now
 	}
 
-- 
2.43.0


From d2264ce893bb788f9f6d57e9cd9b407eac7eef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 02/64] fix: sliding limiters: report a non-positive small
 window instead of dividing by zero

---
 common/limiter/sliding_log/sliding_log.go       | 5 +++++
 common/limiter/sliding_window/sliding_window.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..733216f 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -49,6 +49,11 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 		return nil, errors.New("must be set strategies")
 	}
 
+	// 小窗口时间必须大于0
+	if smallWindow <= 0 {
+		return nil, errors.New("small window must be positive")
+	}
+
 	// 排序策略，窗口时间大的排前面，相同窗口上限大的排前面
 	sort.Slice(strategies, func(i, j int) bool {
 		a, b := strategies[i], strategies[j]
diff --git a/common/limiter/sliding_window/sliding_window.go b/common/limiter/sliding_window/sliding_window.go
index 8896332..80303d2 100644
--- a/common/limiter/sliding_window/sliding_window.go
+++ b/common/limiter/sliding_window/sliding_window.go
@@ -17,6 +17,11 @@ type SlidingWindowLimiter struct {
 }
 
 func NewSlidingWindowLimiter(limit int, window, smallWindow time.Duration) (*SlidingWindowLimiter, error) {
+	// 小窗口时间必须大于0
+	if smallWindow <= 0 {
+		return nil, errors.New("small window must be positive")
+	}
+
 	// 窗口时间必须能够被小窗口时间整除
 	if window%smallWindow != 0 {
 		return nil, errors.New("window cannot be split by integers")
-- 
2.43.0


From c62fab2c924a6f3993b751e019706b0e66ef2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 03/64] fix: sliding log limiter: do not write into the
 caller's strategies

---
 common/limiter/sliding_log/sliding_log.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 733216f..929ae6a 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -41,8 +41,13 @@ type SlidingLogLimiter struct {
 }
 
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
-	// 复制策略避免被修改
-	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	// 复制策略避免被修改，策略本身也要复制，因为下面会写入smallWindows
+	copied := make([]*SlidingLogLimiterStrategy, 0, len(strategies))
+	for _, strategy := range strategies {
+		s := *strategy
+		copied = append(copied, &s)
+	}
+	strategies = copied
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From 0c233ed35f04a94fdc8f94988bea7816d907f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 04/64] fix: delay queue: hand out an element at its due
 instant instead of spinning past it

---
 common/timer/delayqueue/delayqueue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..5127470 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -82,7 +82,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 		if !q.h.Empty() {
 			entry := q.h.Peek()
 			now := time.Now()
-			if now.After(entry.expiration) {
+			if !now.Before(entry.expiration) {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry.value, true
-- 
2.43.0


From ba4aa504eefdd46290173c2d0bdd8029e9d39210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 05/64] fix: delay queue: cancelled or concurrent takers no
 longer block pushes or lose wake-ups

---
 common/timer/delayqueue/delayqueue.go | 31 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5127470..89c838a 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -18,9 +17,7 @@ type entry[T any] struct {
 type DelayQueue[T any] struct {
 	h     *heap.Heap[*entry[T]]
 	mutex sync.Mutex //保证并发安全
-	// 0 表示take 没在等待 1 表示在等待
-	sleeping int32
-	// 唤醒通道
+	// 唤醒通道，容量为1，保证通知不阻塞也不丢失
 	wakeup chan struct{}
 }
 
@@ -32,7 +29,7 @@ func New[T any]() *DelayQueue[T] {
 		h: heap.New(nil, func(e1, e2 *entry[T]) bool {
 			return e1.expiration.Before(e2.expiration)
 		}),
-		wakeup: make(chan struct{}),
+		wakeup: make(chan struct{}, 1),
 	}
 }
 
@@ -58,14 +55,19 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	// 唤醒等待的take
 
 	if q.h.Peek() == entry {
-		// 把sleep 从1修改成0
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		q.notify()
 	}
 
 }
 
+// 唤醒一个等待的take，已经有未处理的通知时不需要重复通知
+func (q *DelayQueue[T]) notify() {
+	select {
+	case q.wakeup <- struct{}{}:
+	default:
+	}
+}
+
 // Take
 //  @Description: 等待直到有元素到期
 //  @receiver q
@@ -84,6 +86,10 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			now := time.Now()
 			if !now.Before(entry.expiration) {
 				q.h.Pop()
+				// 还有元素时，让另一个等待的take接替等待新的队头
+				if !q.h.Empty() {
+					q.notify()
+				}
 				q.mutex.Unlock()
 				return entry.value, true
 			}
@@ -92,7 +98,6 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			timer = time.NewTimer(entry.expiration.Sub(now))
 		}
 
-		atomic.StoreInt32(&q.sleeping, 1)
 		q.mutex.Unlock()
 
 		if timer != nil {
@@ -100,11 +105,10 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			case <-q.wakeup:
 				timer.Stop()
 			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
 			case <-ctx.Done():
 				timer.Stop()
+				// 可能收到过通知，转交给另一个等待的take
+				q.notify()
 				var t T
 				return t, false
 
@@ -113,6 +117,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			select {
 			case <-q.wakeup: //
 			case <-ctx.Done(): // 被关闭
+				q.notify()
 				var t T
 				return t, false
 			}
-- 
2.43.0


From 10d8e4f713a396e648d8b74c9a787d24268242de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 06/64] fix: delay queue: a cancelled channel without a reader
 closes and keeps its pending element

---
 common/timer/delayqueue/delayqueue.go | 37 +++++++++++++++++++++------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 89c838a..1e9f8c5 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -68,6 +68,14 @@ func (q *DelayQueue[T]) notify() {
 	}
 }
 
+// 把取出但没有送出的元素放回队列
+func (q *DelayQueue[T]) putBack(e *entry[T]) {
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
+	q.h.Push(e)
+	q.notify()
+}
+
 // Take
 //  @Description: 等待直到有元素到期
 //  @receiver q
@@ -77,6 +85,15 @@ func (q *DelayQueue[T]) notify() {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 17:53:38
 func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
+	entry := q.take(ctx)
+	if entry == nil {
+		var t T
+		return t, false
+	}
+	return entry.value, true
+}
+
+func (q *DelayQueue[T]) take(ctx context.Context) *entry[T] {
 	for {
 		var timer *time.Timer
 		q.mutex.Lock()
@@ -91,7 +108,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 					q.notify()
 				}
 				q.mutex.Unlock()
-				return entry.value, true
+				return entry
 			}
 			// 到期时间,使用 time.NewAfter 才能调用stop
 
@@ -109,8 +126,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 				timer.Stop()
 				// 可能收到过通知，转交给另一个等待的take
 				q.notify()
-				var t T
-				return t, false
+				return nil
 
 			}
 		} else {
@@ -118,8 +134,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			case <-q.wakeup: //
 			case <-ctx.Done(): // 被关闭
 				q.notify()
-				var t T
-				return t, false
+				return nil
 			}
 		}
 	}
@@ -137,12 +152,18 @@ func (q *DelayQueue[T]) Channel(ctx context.Context, size int) <-chan T {
 	out := make(chan T, size)
 	go func() {
 		for {
-			entry, ok := q.Take(ctx)
-			if !ok {
+			entry := q.take(ctx)
+			if entry == nil {
+				close(out)
+				return
+			}
+			select {
+			case out <- entry.value:
+			case <-ctx.Done(): // 被关闭且没人接收，元素放回队列
+				q.putBack(entry)
 				close(out)
 				return
 			}
-			out <- entry
 		}
 	}()
 
-- 
2.43.0


From 9f8301331be0395e0e68e06861971b5c2a20a66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 07/64] fix: timing wheel: run tasks whose delay is shorter
 than a tick instead of dropping them

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..73507a5 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -78,7 +78,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From da2d9db46e6835656c452d3ecb9394c1317a9204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 08/64] fix: timing wheel: wait for the next bucket instead of
 spinning until after it

---
 common/timer/timingwheel/delayqueue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..83a33f0 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -67,13 +67,13 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			entry := q.h.Peek()
 			expiration := entry.getExpiration()
 			now := nowF()
-			if now > expiration {
+			if now >= expiration {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
-- 
2.43.0


From 2c2f417624f9cf1c44a521b94e9894275aa789fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 09/64] fix: timing wheel: scheduling no longer blocks after
 the wheel was shut down

---
 common/timer/timingwheel/delayqueue.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 83a33f0..54a4643 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -4,15 +4,13 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 type delayQueue struct {
-	h        *heap.Heap[*bucket]
-	mutex    sync.Mutex
-	sleeping int32         //
-	wakeup   chan struct{} //唤醒通道
+	h      *heap.Heap[*bucket]
+	mutex  sync.Mutex
+	wakeup chan struct{} //唤醒通道，容量为1，保证通知不阻塞也不丢失
 }
 
 // newDelayQueue
@@ -26,7 +24,7 @@ func newDelayQueue() *delayQueue {
 			return e1.getExpiration() < e2.getExpiration()
 		}),
 
-		wakeup: make(chan struct{}),
+		wakeup: make(chan struct{}, 1),
 	}
 }
 
@@ -43,8 +41,9 @@ func (q *delayQueue) push(b *bucket) {
 	q.h.Push(b)
 
 	if q.h.Peek() == b {
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
+		select {
+		case q.wakeup <- struct{}{}:
+		default: // 已经有未处理的通知
 		}
 	}
 }
@@ -75,8 +74,6 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
 			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
-		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
-		atomic.StoreInt32(&q.sleeping, 1)
 		q.mutex.Unlock()
 
 		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
@@ -85,10 +82,6 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			case <-q.wakeup: // 新的更快到期元素
 				t.Stop()
 			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
 				return nil
-- 
2.43.0


From 08c84424b0298671d0c3bc4229952b7d132219fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 10/64] fix: timing wheel: shut down without crashing on the
 closed queue, leaking its goroutine or racing

---
 common/timer/timingwheel/delayqueue.go   | 7 ++++++-
 common/timer/timingwheel/timing_wheel.go | 7 +++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 54a4643..0c09c71 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -114,7 +114,12 @@ func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <
 				close(out)
 				return
 			}
-			out <- entry
+			select {
+			case out <- entry:
+			case <-ctx.Done(): // 被关闭
+				close(out)
+				return
+			}
 		}
 	}()
 	return out
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 73507a5..0e64cce 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -54,9 +54,12 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 	})
 	for {
 		select {
-		case b := <-bucketChan: // 桶到期
+		case b, ok := <-bucketChan: // 桶到期
+			if !ok { // 被关闭
+				return
+			}
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
 		case <-ctx.Done(): // 被关闭
-- 
2.43.0


From f3a6a79da0f97186b34d36030708eac60686bc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 11/64] fix: timing wheel: a task added while the wheel
 advances no longer runs a whole turn early

---
 common/timer/timingwheel/timing_wheel.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 0e64cce..5ba9f46 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -144,7 +144,11 @@ func (tw *TimingWheel) add(t *Timer) bool {
 			tw.setOverflowWheel(currentTime)
 			overflowWheel = atomic.LoadPointer(&tw.overflowWheel)
 		}
-		return (*TimingWheel)(overflowWheel).add(t)
+		if (*TimingWheel)(overflowWheel).add(t) {
+			return true
+		}
+		// 读取当前时间之后时间轮前进了，重新选择时间轮，避免任务提前执行
+		return tw.add(t)
 	}
 }
 
-- 
2.43.0


From 248d36f273b82232ec06c974f44afe21131aa4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 12/64] fix: ring buffers: bulk pop from a zero-capacity ring
 and oversized power-of-two rings

---
 common/container/ringbuffer/round/roud.go          | 3 ++-
 common/container/ringbuffer/unbounded/unbounded.go | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..aee5829 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -19,10 +19,11 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
+	// 先检查再取整，避免取整溢出为0
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..79b4e5b 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,8 +90,12 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
-	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
+	// 没有可读的元素，容量可能为0
+	if len(dst) == 0 {
+		return
+	}
+	out := r.out % r.size
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
 	r.out += uint64(copied)
-- 
2.43.0


From 02d0d2150038b98f7eb1b945dff815e6ad303f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 13/64] fix: n-ary heap: sift down over all n children instead
 of four

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..dd93c44 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From 22c4755d6094d55211e16403df41f3a4e4c9c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 14/64] fix: math.Split: no division by zero for zero items and
 no overflow

---
 common/math/math.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..0530470 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,10 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	if n == 0 {
+		return 0, 0
+	}
+	per := (n-1)/m + 1
 	last := n % per
 	if last == 0 {
 		last = per
-- 
2.43.0


From d22029652078e68dd5ec9f4fb6c44efcf22d588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 15/64] fix: bloom filter: mix the seeded hash so that
 positions are independent and the false-positive rate is met

---
 common/filter/bloom/bloom.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index 6f4207d..ed99355 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -99,7 +99,7 @@ func (f *Filter) Len() uint64 {
 // 获取对应元素下标和偏移
 func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	// 按照位计算的偏移
-	bitsIndex := (h ^ seed) % f.bitCnt
+	bitsIndex := mix(h^seed) % f.bitCnt
 	// 因为一个元素64位，因此需要转换
 	index := bitsIndex / uint64Bits
 	// 在一个元素里面的偏移
@@ -107,6 +107,16 @@ func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	return index, offset
 }
 
+// 打散所有位，避免取模后只由低位决定（bitCnt常含有较大的2的幂因子）
+func mix(x uint64) uint64 {
+	x ^= x >> 33
+	x *= 0xff51afd7ed558ccd
+	x ^= x >> 33
+	x *= 0xc4ceb9fe1a85ec53
+	x ^= x >> 33
+	return x
+}
+
 // 计算哈希值
 func (f *Filter) hash(b []byte) uint64 {
 	fnvHash := fnv.New64()
-- 
2.43.0


From ff94e1f696f885267319932b65b5b9a95741fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 16/64] fix: list: the zero value is an empty list ready to
 use, as documented

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..8d189bd 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -81,6 +81,13 @@ func (l *List[T]) Back() *Element[T] {
 	return l.root.prev
 }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // insert inserts e after at, increments l.len, and returns e.
 func (l *List[T]) insert(e, at *Element[T]) *Element[T] {
 	e.prev = at
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 7a80ceab4adf7436922e4f80e7167abd77308924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 17/64] fix: fixed rings: publish slots to the other side only
 after touching them, with atomic counters

---
 common/container/ringbuffer/fix/fix.go    | 33 ++++++++++++--------
 common/container/ringbuffer/round/roud.go | 38 ++++++++++++++---------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..bde7011 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -43,8 +44,10 @@ func (r *Ring[T]) Pop() T {
 		panic("ring emtpy")
 	}
 	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	e := r.data[out]
+	// 读完数据之后才能让出位置
+	atomic.StoreUint64(&r.out, r.out+1)
+	return e
 }
 
 // 队头元素
@@ -61,16 +64,17 @@ func (r *Ring[T]) Push(e T) {
 		panic("ring full")
 	}
 	in := r.in % r.size
-	r.in++
 	r.data[in] = e
+	// 写完数据之后才能让消费者看到
+	atomic.StoreUint64(&r.in, r.in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
-	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	// 不能大于剩余长度，只读取一次，因为消费者可能同时在读
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -79,13 +83,14 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in % r.size
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, r.in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	// 只读取一次，因为生产者可能同时在写
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
@@ -94,7 +99,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, r.out+size)
 	return elems
 }
 
@@ -104,7 +109,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, r.out+uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +126,9 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	// 先读out再读in，保证不会出现out大于in
+	out := atomic.LoadUint64(&r.out)
+	return atomic.LoadUint64(&r.in) - out
 }
 
 // 可用长度
@@ -131,7 +138,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index aee5829..c433a2b 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -38,8 +42,10 @@ func (r *Ring[T]) Pop() T {
 		panic("ring emtpy")
 	}
 	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	e := r.data[out]
+	// 读完数据之后才能让出位置
+	atomic.StoreUint64(&r.out, r.out+1)
+	return e
 }
 
 // 队头元素
@@ -56,16 +62,17 @@ func (r *Ring[T]) Push(e T) {
 		panic("ring full")
 	}
 	in := r.in & r.mask
-	r.in++
 	r.data[in] = e
+	// 写完数据之后才能让消费者看到
+	atomic.StoreUint64(&r.in, r.in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
-	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	// 不能大于剩余长度，只读取一次，因为消费者可能同时在读
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -74,13 +81,14 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in & r.mask
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, r.in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	// 只读取一次，因为生产者可能同时在写
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
@@ -89,7 +97,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, r.out+size)
 	return elems
 }
 
@@ -99,7 +107,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, r.out+uint64(copied))
 }
 
 // 重置读写指针
@@ -116,7 +124,9 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	// 先读out再读in，保证不会出现out大于in
+	out := atomic.LoadUint64(&r.out)
+	return atomic.LoadUint64(&r.in) - out
 }
 
 // 可用长度
@@ -126,7 +136,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
-- 
2.43.0


From f19ae519bbb48ff5635b2484cb8994589c9734dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 18/64] fix: batch insert: store the fields of every record,
 not only those of the first

---
 gorm_tools/gorm.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..f8ce4b7 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,16 +103,22 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
-	if err != nil {
-		return err
+	// 获取所有record的字段，记录的字段可能不一样(omitempty)
+	fields := make(map[string]struct{})
+	for _, record := range records {
+		recordMap, err := dumpStructToMapForInsert(record, table)
+		if err != nil {
+			return err
+		}
+		for field := range recordMap {
+			fields[field] = struct{}{}
+		}
 	}
-	if len(recordMap) == 0 {
+	if len(fields) == 0 {
 		return nil
 	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000 / len(fields)
 
 	for len(records) != 0 {
 		insertLen := len(records)
@@ -146,10 +152,16 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		recordMap[index] = recordMapItem
 	}
 
-	//以一定的顺序收集字段名字
+	//以一定的顺序收集所有记录的字段名字，记录没有的字段写入null
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	seen := make(map[string]struct{}, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if _, ok := seen[key]; !ok {
+				seen[key] = struct{}{}
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
 
 	//按上面收集到的字段名字顺序，查找对应的value
-- 
2.43.0


From 7119873c0ee64a34615d0b2bfffabcfe76885e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 19/64] fix: batch update: refuse entries with extra fields
 instead of dropping them

---
 gorm_tools/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..271da74 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -60,7 +60,7 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		caseSQL += field + "= case "
 		for id, updateMap := range idUpdateMap {
 			value, ok := updateMap[field]
-			if !ok {
+			if !ok || len(updateMap) != len(updateField) {
 				return fmt.Errorf("update field must equal")
 			}
 			caseSQL += "when id = ? then ? "
-- 
2.43.0


From 1046d9eae00d15e11a78ae35a84f2e044730fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 20/64] fix: batch update: keep every statement within the
 placeholder limit

---
 gorm_tools/update.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 271da74..8dce297 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -12,6 +12,15 @@ import (
 // @Date 2023-03-29 12:01:28
 func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUpdateMap map[int64]map[string]interface{}) error {
 	maxUpdateLen := 500
+	// 由于数据库占位符长度限制,字段多的时候需要减少每批的数量,每个id占用2*字段数+1个占位符
+	for _, updateMap := range idUpdateMap {
+		if n := 65000 / (2*len(updateMap) + 1); n < maxUpdateLen {
+			maxUpdateLen = n
+		}
+	}
+	if maxUpdateLen < 1 {
+		maxUpdateLen = 1
+	}
 
 	index, totalNum := 0, 0
 	sliceUpdate := make([]map[int64]map[string]interface{}, 0, len(idUpdateMap)/maxUpdateLen+1)
-- 
2.43.0


From 9f5717f6a66fe50ad4d2af098d9e4bef2ee1e7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 21/64] fix: AES helpers: reject malformed ciphertext and
 padding, leave the caller's memory alone

---
 help/utils/md5.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..184bd07 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -62,6 +62,9 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("encrypt error")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
@@ -75,7 +78,10 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 不能写入data的剩余容量，那是调用者的内存
+	padded := make([]byte, 0, len(data)+padding)
+	padded = append(padded, data...)
+	return append(padded, padText...)
 }
 
 func pkcs7UnPadding(data []byte) ([]byte, error) {
@@ -84,5 +90,13 @@ func pkcs7UnPadding(data []byte) ([]byte, error) {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding == 0 || unPadding > aes.BlockSize || unPadding > length {
+		return nil, errors.New("encrypt error")
+	}
+	for _, b := range data[length-unPadding:] {
+		if int(b) != unPadding {
+			return nil, errors.New("encrypt error")
+		}
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From a4e15a9ca1b62a7fde78214ece431c960757f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 22/64] fix: chunked upload: refuse names and digests that
 leave the upload directories

---
 help/utils/breakpoint_continue.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..ba6ec04 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,11 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -13,6 +15,13 @@ const (
 	finishDir     = "./fileDir/"
 )
 
+var errInvalidName = errors.New("invalid file name")
+
+// 名字只能是目录下的一个文件名，不能跳出目录，也不能指向目录本身
+func isSafeName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.ContainsAny(name, "/\\\x00")
+}
+
 // BreakPointContinue
 //  @Description:  断点续传
 //  @param content
@@ -26,6 +35,9 @@ const (
 //  @Date2023-04-04 14:50:35
 func BreakPointContinue(content []byte, fileName string, contentNumber int, contentTotal int, fileMd5 string) (string, error) {
 	path := breakpointDir + fileMd5 + "/"
+	if !isSafeName(fileMd5) || !isSafeName(fileName) {
+		return path, errInvalidName
+	}
 	err := os.MkdirAll(path, os.ModePerm)
 	if err != nil {
 		return path, err
@@ -59,6 +71,9 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
+	if !isSafeName(FileMd5) || !isSafeName(fileName) {
+		return finishDir + fileName, errInvalidName
+	}
 	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
 	if err != nil {
 		return finishDir + fileName, err
@@ -81,6 +96,9 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 }
 
 func RemoveChunk(FileMd5 string) error {
+	if !isSafeName(FileMd5) {
+		return errInvalidName
+	}
 	err := os.RemoveAll(breakpointDir + FileMd5)
 	return err
 }
-- 
2.43.0


From 2d103787eb2009b38da1952b9b44f5cb068a2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 23/64] fix: chunked upload: assembling replaces an existing
 file instead of appending to it

---
 help/utils/breakpoint_continue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index ba6ec04..31b4368 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -79,7 +79,7 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 		return finishDir + fileName, err
 	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
+	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
 		return finishDir + fileName, err
 	}
-- 
2.43.0


From 5b231b5c7d86e542d88258d3d39b7bd809716f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 24/64] fix: chunked upload: assemble only this file's chunks
 and report a missing one

---
 help/utils/breakpoint_continue.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 31b4368..2c5b7fb 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -78,15 +78,27 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 	if err != nil {
 		return finishDir + fileName, err
 	}
+	// 同一个目录下可能有其他文件的切片，只统计这个文件的
+	total := 0
+	for _, info := range rd {
+		number := strings.TrimPrefix(info.Name(), fileName+"_")
+		k, err := strconv.Atoi(number)
+		if err == nil && k >= total && info.Name() == fileName+"_"+strconv.Itoa(k) {
+			total = k + 1
+		}
+	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
 	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
 		return finishDir + fileName, err
 	}
 	defer fd.Close()
-	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
+	for k := 0; k < total; k++ {
+		var content []byte
+		content, err = ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
+		if err == nil {
+			_, err = fd.Write(content)
+		}
 		if err != nil {
 			_ = os.Remove(finishDir + fileName)
 			return finishDir + fileName, err
-- 
2.43.0


From 037b181f948810a98afb56f0f160887aeb81bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 25/64] fix: unzip: refuse entries that would be written
 outside the destination directory

---
 help/utils/zip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..9eefd37 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"errors"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,6 +27,11 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 不能解压到目标目录之外
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return []string{}, errors.New("illegal file path in zip: " + f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
 			os.MkdirAll(fpath, os.ModePerm)
-- 
2.43.0


From e125efd21d77299eb11b4c2665d5378d169425b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 26/64] fix: unzip: close every entry before the next instead
 of running out of file descriptors

---
 help/utils/zip.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 9eefd37..1464842 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -44,15 +44,19 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 			if err != nil {
 				return []string{}, err
 			}
-			defer inFile.Close()
 
 			outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
 			if err != nil {
+				inFile.Close()
 				return []string{}, err
 			}
-			defer outFile.Close()
 
 			_, err = io.Copy(outFile, inFile)
+			// 每个文件用完就关闭，避免文件多的时候耗尽文件描述符
+			inFile.Close()
+			if closeErr := outFile.Close(); err == nil {
+				err = closeErr
+			}
 			if err != nil {
 				return []string{}, err
 			}
-- 
2.43.0


From 6d1d1f0259a7c2d86222012a66a859c877ed19bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 27/64] fix: unzip: report a directory that could not be
 created

---
 help/utils/zip.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 1464842..919a0af 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -34,7 +34,9 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
+				return []string{}, err
+			}
 		} else {
 			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
-- 
2.43.0


From 87694a98f5600b256441a76b6602b2529850b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 28/64] fix: zip: report an archive that could not be written
 completely

---
 help/utils/zip.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 919a0af..ded559c 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -76,18 +76,23 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:46:02
-func ZipFiles(filename string, files []string, oldForm, newForm string) error {
+func ZipFiles(filename string, files []string, oldForm, newForm string) (err error) {
 	newZipFile, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		_ = newZipFile.Close()
+		if closeErr := newZipFile.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	zipWriter := zip.NewWriter(newZipFile)
 	defer func() {
-		_ = zipWriter.Close()
+		// 目录和缓冲的数据在关闭的时候才写入，失败表示压缩文件不完整
+		if closeErr := zipWriter.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// 把files添加到zip中
-- 
2.43.0


From f7db63560076a1e274b98e572f72a2a2762725fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 29/64] fix: csv: write the given row instead of a fixed one

---
 help/utils/csv.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..d893ba9 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -50,8 +50,7 @@ func WriteCsv(path string, content []string) error {
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 198bb8d2494e1b761f03e54b8427258c789dca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 30/64] fix: csv: report a row that did not reach the file

---
 help/utils/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index d893ba9..aaf0252 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -57,5 +57,5 @@ func WriteCsv(path string, content []string) error {
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
 
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From 343277bde062ed5a4a201496122514286972b7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 31/64] fix: csv: start a new line when the existing file does
 not end with one

---
 help/utils/csv.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index aaf0252..f7a24ac 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -45,7 +45,22 @@ func WriteCsv(path string, content []string) error {
 	}
 	defer nfs.Close()
 
-	nfs.Seek(0, io.SeekEnd)
+	end, err := nfs.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
+	// 最后一行没有换行时先补上，避免和新的一行连在一起
+	if end > 0 {
+		last := make([]byte, 1)
+		if _, err = nfs.ReadAt(last, end-1); err != nil {
+			return err
+		}
+		if last[0] != '\n' {
+			if _, err = nfs.WriteString("\r\n"); err != nil {
+				return err
+			}
+		}
+	}
 
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
-- 
2.43.0


From 1a70c720aa6efbf792cd3b8e427e712b82858c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 32/64] fix: CopyFile: do not keep the tail of a longer
 destination

---
 help/utils/files.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..c32814c 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -208,7 +208,16 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 	}
 
 	defer dst.Close()
-	return io.Copy(dst, src)
+	written, err = io.Copy(dst, src)
+	if err != nil {
+		return
+	}
+	// 目标文件原来可能更长，去掉多余的内容(复制之后才截断，源和目标可能是同一个文件)
+	info, err := dst.Stat()
+	if err == nil && info.Mode().IsRegular() {
+		err = dst.Truncate(written)
+	}
+	return
 }
 
 // ImageFileToBase64  图片文件转 base64
-- 
2.43.0


From eb370ef30e9226675632c339ec3263e80a9c847f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 33/64] fix: IsFile: a missing path is not a file

---
 help/utils/files.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index c32814c..c56dfbe 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -248,7 +248,11 @@ func IsDir(path string) bool {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:47:47
 func IsFile(path string) bool {
-	return !IsDir(path)
+	s, err := os.Stat(path)
+	if err != nil {
+		return false
+	}
+	return !s.IsDir()
 }
 
 // MkDir
-- 
2.43.0


From 5272b2fcba09d6fb4e598f0fdd440753430ac772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 34/64] fix: FormatByte: format the given size

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index c56dfbe..deec8b6 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -157,10 +157,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for ; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From 450916b8a7cd4d73c59a89b6a6ee7f69f9adbf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 35/64] fix: IsSameSiteURLPath: refuse tabs and line breaks,
 which browsers drop

---
 help/utils/files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index deec8b6..9062cc0 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -324,7 +324,8 @@ func humanateBytes(s uint64, base float64, sizes []string) string {
 // False: //url, http://url, /\url
 // True: /url
 func IsSameSiteURLPath(url string) bool {
-	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\'
+	// 浏览器会忽略制表符和换行，例如"/\t/host"等同于"//host"
+	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\' && !strings.ContainsAny(url, "\t\r\n")
 }
 
 func IsMaliciousPath(path string) bool {
-- 
2.43.0


From c4b4641675e2d288a97853f58fc84fa580109299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 36/64] fix: HideStar: count the characters of the local part,
 not its bytes

---
 help/utils/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..ee30930 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -66,7 +66,7 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		if len([]rune(res[0])) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-- 
2.43.0


From 480f2ebde97344cc587f4cda617fa74e6df07145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 37/64] fix: MaskCustomerName: count characters, not bytes

---
 help/utils/strings.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index ee30930..fbeda9f 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -136,11 +136,11 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
-	} else if len(name) < 1 {
+	} else if len(_name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else if len(_name) <= 4 {
 		name = string(_name[:1]) + "***"
 	}
 
-- 
2.43.0


From c5c0707cad98726cb21f60c9a7b9c6de16385f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 38/64] fix: UpperFirst: return the string with its first
 character in upper case

---
 help/utils/strings.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index fbeda9f..7077322 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -49,7 +51,10 @@ func StringToInt64(s string) int64 {
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
 	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+		r, size := utf8.DecodeRuneInString(s)
+		if upper := unicode.ToUpper(r); upper != r {
+			s = string(upper) + s[size:]
+		}
 	}
 
 	return s
-- 
2.43.0


From e677bb64fe290779bfd008893800a8d34664ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 39/64] fix: Round: round negative numbers symmetrically

---
 help/utils/math.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/math.go b/help/utils/math.go
index 1f12410..87d27e6 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -5,5 +5,6 @@ import "math"
 // Round 四舍五入
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
-	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n
+	// 对绝对值四舍五入，负数与正数对称
+	return math.Copysign(math.Trunc((math.Abs(f)+0.5/pow10_n)*pow10_n)/pow10_n, f)
 }
-- 
2.43.0


From fad68eab5882245ab7ad368450b6138159c9cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 40/64] fix: BuildUrl: an empty prefix no longer turns the
 first key into a host

---
 help/utils/url.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/help/utils/url.go b/help/utils/url.go
index cadf737..dc24594 100644
--- a/help/utils/url.go
+++ b/help/utils/url.go
@@ -33,5 +33,10 @@ func BuildUrl(prefix string, params ...interface{}) string {
 			i += 2
 		}
 	}
-	return strings.TrimRight(strings.Join(linkUrl, "/"), "/")
+	link := strings.TrimRight(strings.Join(linkUrl, "/"), "/")
+	// 前缀为空时不能以"//"开头，否则会被当作主机名
+	if strings.HasPrefix(link, "//") {
+		link = "/" + strings.TrimLeft(link, "/")
+	}
+	return link
 }
-- 
2.43.0


From 6a49e4956348e6b02379646d5658c0918687b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 41/64] fix: timing wheel: a bucket keeps its due time until it
 is processed, so tasks added while the wheel catches up run on time

---
 common/timer/timingwheel/bucket.go       | 47 +++++++++++++++++-------
 common/timer/timingwheel/timing_wheel.go | 15 +++-----
 2 files changed, 40 insertions(+), 22 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 0ef049b..45add72 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -33,18 +33,31 @@ func (t *Timer) setBucket(b *bucket) {
 }
 
 type bucket struct {
+	tick       int64              // 所属时间轮每一跳的时间
 	expiration int64              // 到期时间
 	timers     *list.List[*Timer] // 定时器;列表
 	mutex      sync.Mutex         // 并发锁
 }
 
-func (b *bucket) add(t *Timer) {
+// 添加定时器，桶不在延迟队列中时用push放进去。
+// 桶的到期时间在处理之前不会改变：已经在等待更晚的到期时间时返回false，
+// 正在等待更早的到期时间时，定时器会在那时留到下一次处理
+func (b *bucket) add(t *Timer, expiration int64, push func(b *bucket)) bool {
 	b.mutex.Lock()
 
 	defer b.mutex.Unlock()
+	current := b.getExpiration()
+	if current > expiration {
+		return false
+	}
 	elem := b.timers.PushBack(t)
 	t.elem = elem
 	t.setBucket(b)
+	if current == -1 {
+		b.setExpiration(expiration)
+		push(b)
+	}
+	return true
 }
 
 func (b *bucket) remove(t *Timer) bool {
@@ -60,40 +73,48 @@ func (b *bucket) remove(t *Timer) bool {
 	return true
 }
 
-func newBucket() *bucket {
+func newBucket(tick int64) *bucket {
 	return &bucket{
+		tick:       tick,
 		expiration: -1,
 		timers:     list.New[*Timer](),
 	}
 }
 
-// 添加到上一级定时器或执行任务
-func (b *bucket) flush(addOrRun func(t *Timer)) {
+// 添加到上一级定时器或执行任务，属于后面的圈的定时器留在桶里，重新用push放进延迟队列
+func (b *bucket) flush(addOrRun func(t *Timer), push func(b *bucket)) {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
 
+	due := b.getExpiration() + b.tick
+	// -1表示没有加入到延迟队列
+	expiration := int64(-1)
 	for elem := b.timers.Front(); elem != nil; {
 		next := elem.Next()
 		t := elem.Value
-		if t.getBucket() == b {
+		if t.expiration >= due {
+			if e := truncate(t.expiration, b.tick); expiration == -1 || e < expiration {
+				expiration = e
+			}
+		} else {
+			b.timers.Remove(elem)
 			t.setBucket(nil)
 			t.elem = nil
+			addOrRun(t)
 		}
-		addOrRun(t)
 		elem = next
 	}
 
-	// 设置过期时间表示没有加入到延迟队列
-	b.setExpiration(-1)
-	b.timers.Clear()
+	b.setExpiration(expiration)
+	if expiration != -1 {
+		push(b)
+	}
 }
 
 func (b *bucket) getExpiration() int64 {
 	return atomic.LoadInt64(&b.expiration)
 }
 
-// 返回true表示设置成功
-// 否则表示没变化
-func (b *bucket) setExpiration(expiration int64) bool {
-	return atomic.SwapInt64(&b.expiration, expiration) != expiration
+func (b *bucket) setExpiration(expiration int64) {
+	atomic.StoreInt64(&b.expiration, expiration)
 }
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 5ba9f46..19025cd 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -33,7 +33,7 @@ func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *Timi
 		queue:       queue,
 	}
 	for i := 0; i < int(wheelSize); i++ {
-		tw.buckets[i] = newBucket()
+		tw.buckets[i] = newBucket(tick)
 	}
 	return tw
 }
@@ -61,7 +61,7 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 			// 前进当前时间
 			tw.advance(b.getExpiration())
 			// 处理桶
-			b.flush(tw.addOrRun)
+			b.flush(tw.addOrRun, tw.queue.push)
 		case <-ctx.Done(): // 被关闭
 			return
 		}
@@ -130,14 +130,11 @@ func (tw *TimingWheel) add(t *Timer) bool {
 		ticks := t.expiration / tw.tick
 		// 应该在时间轮的哪个桶里
 		b := tw.buckets[ticks%tw.wheelSize]
-		b.add(t)
-
-		// 如果设置桶过期时间成功
-		// 表示这个桶第一次加入定时器，因此应该把它放到延迟队列里面去等待到期
-		if b.setExpiration(ticks * tw.tick) {
-			tw.queue.push(b)
+		if b.add(t, ticks*tw.tick, tw.queue.push) {
+			return true
 		}
-		return true
+		// 桶已经属于下一圈，即时间轮前进了，重新选择
+		return tw.add(t)
 	} else { // 在其他时间轮里
 		overflowWheel := atomic.LoadPointer(&tw.overflowWheel)
 		if overflowWheel == nil {
-- 
2.43.0


From 22ed177105a5a825002da04f5fd82a2ee999f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:12 +0000
Subject: [PATCH 42/64] fix: timing wheel: keep overflow wheels in step, a
 stale one made the run loop wait for itself

---
 common/timer/timingwheel/timing_wheel.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 19025cd..978570b 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -170,13 +170,14 @@ func (tw *TimingWheel) addOrRun(t *Timer) {
 func (tw *TimingWheel) advance(expiration int64) {
 	currentTime := atomic.LoadInt64(&tw.currentTime)
 	if expiration >= currentTime+tw.tick {
-		currentTime := truncate(expiration, tw.tick)
+		currentTime = truncate(expiration, tw.tick)
 		atomic.StoreInt64(&tw.currentTime, currentTime)
+	}
 
-		overflowWheel := atomic.LoadPointer(&tw.overflowWheel)
-		if overflowWheel != nil {
-			(*TimingWheel)(overflowWheel).advance(currentTime)
-		}
+	// 其他时间轮可能是用前进之前的时间创建的，这一级没有前进时也要让它跟上
+	overflowWheel := atomic.LoadPointer(&tw.overflowWheel)
+	if overflowWheel != nil {
+		(*TimingWheel)(overflowWheel).advance(currentTime)
 	}
 }
 
-- 
2.43.0


From eb2e4273e6c41cbe3f2b6f3dc874065ba59b36c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 43/64] fix: n-ary heap: child positions no longer overflow for
 very large arities

---
 common/container/heap/heapn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index dd93c44..78505b8 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -83,12 +83,12 @@ func (h *HeapN[T]) up(j int) {
 func (h *HeapN[T]) down(i0, n int) bool {
 	i := i0
 	for {
-		k := h.n*i + 1
-		if k >= n || k < 0 { // j1 < 0 after int overflow
+		if n < 2 || i > (n-2)/h.n { // no child; checked by division so that n*i cannot overflow
 			break
 		}
+		k := h.n*i + 1
 		j := k // first child
-		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
+		for j1 := k + 1; j1-k < h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From c27cef54401f214f88d790f1220afd474312e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 44/64] fix: Round rounds exact halves away from zero for every
 number of decimals

---
 help/utils/math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/math.go b/help/utils/math.go
index 87d27e6..f5e9fb1 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -5,6 +5,6 @@ import "math"
 // Round 四舍五入
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
-	// 对绝对值四舍五入，负数与正数对称
-	return math.Copysign(math.Trunc((math.Abs(f)+0.5/pow10_n)*pow10_n)/pow10_n, f)
+	// 先放大再四舍五入，恰好一半的数(如1.125)不会因为加上0.5/pow10_n的误差而舍去
+	return math.Round(f*pow10_n) / pow10_n
 }
-- 
2.43.0


From c9f9d6f2eb46e2e0293bada5d4b7d903d7856fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 45/64] fix: a path below a file does not exist (FileExist,
 FileIsExisted)

---
 help/utils/files.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9062cc0..7874a4b 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 )
 
 // PathExists
@@ -105,7 +106,12 @@ func FileExist(path string) bool {
 	if err == nil {
 		return !fi.IsDir()
 	}
-	return !os.IsNotExist(err)
+	return !isNotExist(err)
+}
+
+// 上级是文件的路径也是不存在的路径
+func isNotExist(err error) bool {
+	return os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR)
 }
 
 // FileMd5
@@ -338,7 +344,7 @@ func IsMaliciousPath(path string) bool {
 // @Date 2023-01-11 11:46:41
 func FileIsExisted(filename string) bool {
 	existed := true
-	if _, err := os.Stat(filename); err != nil && os.IsNotExist(err) {
+	if _, err := os.Stat(filename); err != nil && isNotExist(err) {
 		existed = false
 	}
 	return existed
-- 
2.43.0


From ca2f87782ea5d4039a68d8af3ba50fd743cae393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 46/64] fix: a chunk that could not be written kept its file
 open

---
 help/utils/breakpoint_continue.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 2c5b7fb..677d7e0 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -60,13 +60,12 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 	f, err := os.Create(path)
 	if err != nil {
 		return path, err
-	} else {
-		_, err = f.Write(content)
-		if err != nil {
-			return path, err
-		}
 	}
 	defer f.Close()
+	_, err = f.Write(content)
+	if err != nil {
+		return path, err
+	}
 	return path, nil
 }
 
-- 
2.43.0


From e7766cecd1d9216235d0ac9d3bb1a50c6d63f02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:26 +0000
Subject: [PATCH 47/64] fix: MD5V wrote the digest into the spare capacity of
 the caller's slice

---
 help/utils/breakpoint_continue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 677d7e0..c41736b 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -121,5 +121,6 @@ func RemoveChunk(FileMd5 string) error {
 func MD5V(str []byte, b ...byte) string {
 	h := md5.New()
 	h.Write(str)
-	return hex.EncodeToString(h.Sum(b))
+	// 复制b，不能写入它的剩余容量，那是调用者的内存
+	return hex.EncodeToString(h.Sum(append([]byte(nil), b...)))
 }
-- 
2.43.0


From e16c06803b6e377c8483b7db9cae170c020067a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 48/64] fix: CopyFile truncated a complete copy when the
 kernel's copy failed part way

---
 help/utils/files.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 7874a4b..186268d 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -221,7 +221,10 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 	// 目标文件原来可能更长，去掉多余的内容(复制之后才截断，源和目标可能是同一个文件)
 	info, err := dst.Stat()
 	if err == nil && info.Mode().IsRegular() {
-		err = dst.Truncate(written)
+		// 内核的复制中途失败后io.Copy会改用普通读写，只统计之后的字节，所以以实际写到的位置为准
+		if written, err = dst.Seek(0, io.SeekCurrent); err == nil {
+			err = dst.Truncate(written)
+		}
 	}
 	return
 }
-- 
2.43.0


From 84724d1ad0b51dca3ad13d483cd0cc4fdb5aea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:56 +0000
Subject: [PATCH 49/64] fix: Stop returned false for a timer that was moving to
 another bucket

---
 common/timer/timingwheel/bucket.go       | 3 +--
 common/timer/timingwheel/timing_wheel.go | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 45add72..735b6ff 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -98,8 +98,7 @@ func (b *bucket) flush(addOrRun func(t *Timer), push func(b *bucket)) {
 			}
 		} else {
 			b.timers.Remove(elem)
-			t.setBucket(nil)
-			t.elem = nil
+			// 移到别的桶之前仍属于这个桶，Stop会等到移动之后再移除，不会误以为已经执行
 			addOrRun(t)
 		}
 		elem = next
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 978570b..8a534b2 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -157,6 +157,7 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
 	if !tw.add(t) {
+		t.setBucket(nil)
 		go t.task()
 	}
 }
-- 
2.43.0


From bc2e7280b112a9a4c1e1c0f3f8c2ab2a7a8cd74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 50/64] fix: WriteCsv added a carriage return to the last field
 of a table that ended in half a line break

---
 help/utils/csv.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index f7a24ac..e5a1217 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -55,8 +55,13 @@ func WriteCsv(path string, content []string) error {
 		if _, err = nfs.ReadAt(last, end-1); err != nil {
 			return err
 		}
+		newline := "\r\n"
+		if last[0] == '\r' {
+			// 换行只写了一半，补上另一半，否则'\r'会变成最后一列的内容
+			newline = "\n"
+		}
 		if last[0] != '\n' {
-			if _, err = nfs.WriteString("\r\n"); err != nil {
+			if _, err = nfs.WriteString(newline); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 74b4b65f154ff9b95dfaca6a81e7d21f00a28eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:25 +0000
Subject: [PATCH 51/64] fix: assembling ignored the chunks of an upload whose
 highest chunk number is the largest integer

---
 help/utils/breakpoint_continue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index c41736b..4955954 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -78,12 +78,12 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 		return finishDir + fileName, err
 	}
 	// 同一个目录下可能有其他文件的切片，只统计这个文件的
-	total := 0
+	last := -1
 	for _, info := range rd {
 		number := strings.TrimPrefix(info.Name(), fileName+"_")
 		k, err := strconv.Atoi(number)
-		if err == nil && k >= total && info.Name() == fileName+"_"+strconv.Itoa(k) {
-			total = k + 1
+		if err == nil && k > last && info.Name() == fileName+"_"+strconv.Itoa(k) {
+			last = k
 		}
 	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
@@ -92,7 +92,7 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 		return finishDir + fileName, err
 	}
 	defer fd.Close()
-	for k := 0; k < total; k++ {
+	for k := 0; k <= last; k++ {
 		var content []byte
 		content, err = ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
 		if err == nil {
-- 
2.43.0


From 19b2e27e4d867c7ca9a696618561fbf9b5806f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 52/64] fix: batch insert of records with more than 65000
 fields never returned

---
 gorm_tools/gorm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index f8ce4b7..01ddf8c 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -119,6 +119,9 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 	}
 	// 由于数据库占位符长度限制,需要动态限制
 	maxInsertLen := 65000 / len(fields)
+	if maxInsertLen == 0 {
+		return fmt.Errorf("SplitInsertTableRecords failed to insert to %s records, too many fields:%d", table, len(fields))
+	}
 
 	for len(records) != 0 {
 		insertLen := len(records)
-- 
2.43.0


From ab105ec63486870ffbb5a5c62c5e597f27e6cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 53/64] fix: batch update sent statements with more
 placeholders than the limit for entries of more than 32767 fields

---
 gorm_tools/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 8dce297..dca2c67 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -19,7 +19,7 @@ func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		}
 	}
 	if maxUpdateLen < 1 {
-		maxUpdateLen = 1
+		return fmt.Errorf("update fields are too many for a statement")
 	}
 
 	index, totalNum := 0, 0
-- 
2.43.0


From 2dcec9dc5c116aa34b405ec7917932f7772fdf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 54/64] fix: scanning the root directory failed

---
 help/utils/files.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 186268d..f2a1fd6 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -178,8 +178,10 @@ func FormatByte(size int) string {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:48:20
 func ScanDir(dir string) (files []string, err error) {
+	infos, err := ioutil.ReadDir(dir)
+	// 先读取再去掉，否则根目录会变成空的路径
 	dir = strings.TrimSuffix(dir, "/")
-	if infos, err := ioutil.ReadDir(dir); err == nil {
+	if err == nil {
 		for _, info := range infos {
 			file := dir + "/" + info.Name()
 			if info.IsDir() {
-- 
2.43.0


From f3f8202c31449c449aaf0a6861d197a5eeefa3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:03 +0000
Subject: [PATCH 55/64] fix: the timing wheel crashed on tasks so far ahead
 that the turn of an overflow wheel exceeds the integer range

---
 common/timer/timingwheel/timing_wheel.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 8a534b2..7543502 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -2,6 +2,7 @@ package timingwheel
 
 import (
 	"context"
+	"math"
 	"sync/atomic"
 	"time"
 	"unsafe"
@@ -24,10 +25,14 @@ type TimingWheel struct {
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
+	interval := tick * wheelSize
+	if wheelSize > 0 && tick > math.MaxInt64/wheelSize { // 一圈的时间超出范围，不会再有下一个时间轮
+		interval = math.MaxInt64
+	}
 	tw := &TimingWheel{
 		tick:        tick,
 		wheelSize:   wheelSize,
-		interval:    tick * wheelSize,
+		interval:    interval,
 		currentTime: truncate(currentTime, tick),
 		buckets:     make([]*bucket, wheelSize),
 		queue:       queue,
@@ -125,7 +130,7 @@ func (tw *TimingWheel) add(t *Timer) bool {
 	currentTime := atomic.LoadInt64(&tw.currentTime)
 	if t.expiration < currentTime+tw.tick { // 已经过期了
 		return false
-	} else if t.expiration < currentTime+tw.interval { // 在当前时间轮里
+	} else if t.expiration-currentTime < tw.interval || tw.interval == math.MaxInt64 { // 在当前时间轮里
 		// 多少跳了
 		ticks := t.expiration / tw.tick
 		// 应该在时间轮的哪个桶里
-- 
2.43.0


From 0cddef53e168a4c98c6f850976bb33ba8af5f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:03 +0000
Subject: [PATCH 56/64] fix: the timing wheel was busy all the time while its
 next task was more than 292 years ahead

---
 common/timer/timingwheel/delayqueue.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 0c09c71..3419451 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -3,10 +3,13 @@ package timingwheel
 import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
+	"math"
 	"sync"
 	"time"
 )
 
+const maxDelay = math.MaxInt64 / int64(time.Millisecond) // 一次最多等待多少毫秒
+
 type delayQueue struct {
 	h      *heap.Heap[*bucket]
 	mutex  sync.Mutex
@@ -72,7 +75,11 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
+			delay := expiration - now
+			if delay > maxDelay { // 超出time.Duration的范围，到时再继续等待
+				delay = maxDelay
+			}
+			t = time.NewTimer(time.Duration(delay) * time.Millisecond)
 		}
 		q.mutex.Unlock()
 
-- 
2.43.0


From 99d777c4e02803053a919c5720964d498699684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 57/64] fix: the integer logarithm of numbers just below a
 large power of two was one too high

---
 common/math/math.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index 0530470..b3f5bde 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -48,7 +48,12 @@ func Abs[T constraints.Float | constraints.Signed](a T) T {
 // Log2
 // 修改更加高效算法
 func Log2[T constraints.Integer | constraints.Float](a T) T {
-	return T(math.Log2(float64(a)))
+	r := T(math.Log2(float64(a)))
+	// 整数结果向下取整，浮点数的误差可能让略小于2^n的数得到n
+	if isInteger := T(1)/T(2) == 0; isInteger && r > 0 && uint64(a)>>uint64(r) == 0 {
+		r--
+	}
+	return r
 }
 
 // IsPowOf2 check if a value is a power of two
-- 
2.43.0


From 71dd69345450bad657bed6d011030b213686338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:24 +0000
Subject: [PATCH 58/64] fix: Round returned infinity or NaN when the number
 times the power of ten is out of range

---
 help/utils/math.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/help/utils/math.go b/help/utils/math.go
index f5e9fb1..08655e2 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -6,5 +6,12 @@ import "math"
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
 	// 先放大再四舍五入，恰好一半的数(如1.125)不会因为加上0.5/pow10_n的误差而舍去
-	return math.Round(f*pow10_n) / pow10_n
+	r := math.Round(f * pow10_n)
+	if pow10_n == 0 { // 单位比任何数都大
+		return r
+	}
+	if math.IsInf(r, 0) || math.IsNaN(r) { // 放大后超出范围，f的精度远小于n位小数
+		return f
+	}
+	return r / pow10_n
 }
-- 
2.43.0


From d2c9871b1a07b6483d529daf41c4a0612cfb0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:32 +0000
Subject: [PATCH 59/64] fix: moving a file of no name moved the working
 directory

---
 help/utils/files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/help/utils/files.go b/help/utils/files.go
index f2a1fd6..91dc61d 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -64,6 +64,9 @@ func FileMove(src string, dst string) (err error) {
 	if dst == "" {
 		return nil
 	}
+	if src == "" { // filepath.Abs会当作当前目录
+		return os.ErrNotExist
+	}
 	src, err = filepath.Abs(src)
 	if err != nil {
 		return err
-- 
2.43.0


From cbc9c9b8a5bf608d4c8dffabfdad521f99ecb08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 60/64] fix: elements from before a Clear still changed the
 list

---
 common/container/list/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index 8d189bd..0252a20 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -52,6 +52,12 @@ type List[T any] struct {
 
 // Clear clears list l.
 func (l *List[T]) Clear() *List[T] {
+	// the removed elements no longer belong to l, using them must not change it
+	for e := l.Front(); e != nil; {
+		next := e.Next()
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 421b894d6c0925f6ec0c93e36f84395c5169a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:26 +0000
Subject: [PATCH 61/64] fix: a token bucket with a capacity below zero admitted
 everything

---
 common/limiter/token_bucket/token_bucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index e82ee88..a591e2d 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -43,7 +43,7 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	}
 
 	// 如果没有令牌，请求失败
-	if l.currentTokens == 0 {
+	if l.currentTokens <= 0 {
 		return false
 	}
 	// 如果有令牌，当前令牌-1，请求成功
-- 
2.43.0


From 0417fe504b858973442a36594fa5c40431825f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:50 +0000
Subject: [PATCH 62/64] fix: an archive listed among its own sources grew
 without end

---
 help/utils/zip.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index ded559c..f445913 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -95,6 +95,11 @@ func ZipFiles(filename string, files []string, oldForm, newForm string) (err err
 		}
 	}()
 
+	newInfo, err := newZipFile.Stat()
+	if err != nil {
+		return err
+	}
+
 	// 把files添加到zip中
 	for _, file := range files {
 
@@ -109,6 +114,10 @@ func ZipFiles(filename string, files []string, oldForm, newForm string) (err err
 			if err != nil {
 				return err
 			}
+			// 压缩文件不能包含自己，否则会一直读到刚写入的数据
+			if os.SameFile(newInfo, info) {
+				return errors.New("zip file can not contain itself: " + file)
+			}
 
 			header, err := zip.FileInfoHeader(info)
 			if err != nil {
-- 
2.43.0


From a49439758ac60b626fd1c4ee3e3b9b4aac11d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:47 +0000
Subject: [PATCH 63/64] fix: the digest of a reader that failed was that of a
 part

---
 help/utils/md5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 184bd07..36a7262 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -28,7 +28,10 @@ func Md5Crypt(str string) string {
 // @Date 2022-12-01 11:50:26
 func ComputeFileMD5(file io.Reader) string {
 	md5h := md5.New()
-	io.Copy(md5h, file)
+	// 没有读完的内容不能当作整个文件
+	if _, err := io.Copy(md5h, file); err != nil {
+		return ""
+	}
 	return fmt.Sprintf("%x", md5h.Sum(nil))
 }
 
-- 
2.43.0


From 0642c9bff72c03b21ecbd4a5c8a8c17fb6566693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:22 +0000
Subject: [PATCH 64/64] fix: a wheel of one bucket overflowed the stack on the
 first task that was not due

---
 common/timer/timingwheel/timing_wheel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 7543502..9cd477d 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -43,7 +43,10 @@ func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *Timi
 	return tw
 }
 func New(tick, wheelSize int64) *TimingWheel {
-
+	// 一圈只有一跳时，下一个时间轮的一跳不会变长，放不下的任务会一直往下找
+	if wheelSize == 1 {
+		wheelSize = 2
+	}
 	return newTimingWheel(tick, wheelSize, time.Now().UnixMilli(), newDelayQueue())
 }
 
-- 
2.43.0

