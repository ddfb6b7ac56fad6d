// Package mapc checks the shared map (C31).
package mapc

import (
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC31(t *testing.T) {
	vt.Check(t, "sequential", "operation sequences on two maps from their zero value with keys of many types (equal numbers of different types, nil, structs, pointers, arrays) and values including nil, against plain maps, calls that panic (in a callback, or for a key no map can hold) or end their goroutine, all keys and both ranges compared after every step; non-trivial: a key overwritten, a deletion of a present key and a test-and-set on a present key",
		1200, 60000, sequential)
	vt.Check(t, "many", "up to 200000 keys (800000 in the thorough tier) set or tested and set, some overwritten, some or all deleted, then looked up one by one and ranged over; non-trivial: more than 5000 keys",
		6, 100, many)
	vt.Check(t, "linearizable", "2 to 4 goroutines with drawn scripts of 2 to 8 operations (get, set, test-and-set, delete, length, shared and exclusive ranges, ranges that rewrite every value, and compositions under the exported lock) on one or two keys, yields inside callbacks; the history must be linearizable and the race detector quiet; non-trivial: operations overlapped",
		2500, 100000, linearizable)
	vt.Check(t, "winners", "3 to 8 goroutines released together, test-and-set on the same absent keys: one winner per key, the others see its value; also counting through the lock, exclusive ranges excluding all others; non-trivial: every case",
		1200, 50000, winners)
}

type pair struct{ a, b int }

var ptr = new(int)

var keyPool = []interface{}{1, int64(1), int32(1), uint8(1), 1.0, "1", nil, true, pair{1, 2}, pair{2, 1}, ptr, [2]string{"a", "b"}, "", 'x', int32(120), struct{}{}, 0, "k"}

func sequential(rt *rapid.T, c *vt.C) {
	maps := []*utils.Map{{}, {}}
	model := []map[interface{}]interface{}{{}, {}}
	over, deleted, tested := false, false, false
	nilFirst := rapid.IntRange(1, 25).Draw(rt, "steps")
	for s := 0; s < nilFirst; s++ {
		i := rapid.IntRange(0, 1).Draw(rt, "map")
		m, w := maps[i], model[i]
		k := keyPool[rapid.IntRange(0, len(keyPool)-1).Draw(rt, "key")]
		if rapid.Bool().Draw(rt, "few") {
			k = keyPool[rapid.IntRange(0, 3).Draw(rt, "key")]
		}
		var v interface{} = s
		if rapid.IntRange(0, 6).Draw(rt, "nil value") == 0 {
			v = nil
		}
		_, had := w[k]
		op := vt.Weighted(rt, "op", 5, 4, 3, 2, 2, 2, 2, 2)
		c.Logf("%d.op%d(%T %v, %v)", i, op, k, k, v)
		eq := func(what string, got, want interface{}) {
			if got != want {
				rt.Fatalf("%s: %s is %v, want %v", c.Last(), what, got, want)
			}
		}
		switch op {
		case 0:
			over = over || had
			m.Set(k, v)
			w[k] = v
		case 1:
			tested = tested || had
			got := m.TestAndSet(k, v)
			if had {
				eq("TestAndSet", got, w[k])
			} else {
				eq("TestAndSet", got, nil)
				w[k] = v
			}
		case 2:
			deleted = deleted || had
			m.Del(k)
			delete(w, k)
		case 3:
			eq("Get", m.Get(k), w[k])
		case 4:
			eq("Len", m.Len(), len(w))
		case 5: // under the exported lock
			m.Lock()
			eq("UnsafeGet", m.UnsafeGet(k), w[k])
			eq("UnsafeLen", m.UnsafeLen(), len(w))
			m.UnsafeSet(k, v)
			w[k] = v
			eq("UnsafeGet", m.UnsafeGet(k), v)
			m.UnsafeDel(keyPool[0])
			delete(w, keyPool[0])
			m.Unlock()
		case 6: // rewrite every value
			m.LockRange(func(k, _ interface{}) {
				m.UnsafeSet(k, "new")
			})
			for k := range w {
				w[k] = "new"
			}
		case 7: // a call that does not return leaves the map unlocked and as it was
			how := rapid.IntRange(0, 6).Draw(rt, "how")
			exit := rapid.IntRange(0, 3).Draw(rt, "exit") == 0
			bad := vt.Pick[interface{}](rt, "unhashable", []int{1}, map[string]int{}, func() {}, [1]interface{}{[]int{}}, struct{ a interface{} }{[]int{}})
			after := rapid.IntRange(0, 3).Draw(rt, "after")
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() { recover() }()
				f := func(_, _ interface{}) {
					if after--; after < 0 {
						if exit {
							runtime.Goexit()
						}
						panic("callback")
					}
				}
				switch how {
				case 0:
					m.RLockRange(f)
				case 1:
					m.LockRange(f)
				case 2:
					m.Set(bad, v)
				case 3:
					m.TestAndSet(bad, v)
				case 4:
					m.Del(bad)
				case 5:
					m.Get(bad)
				case 6:
					m.UnsafeRange(f)
				}
			}()
			<-done
			c.Label("a call that panicked or exited")
			if !m.TryLock() {
				rt.Fatalf("the map stays locked after call %d panicked or ended its goroutine", how)
			}
			m.Unlock()
		}
		for j := range maps {
			for _, k := range keyPool {
				eq(fmt.Sprintf("Get(%T %v) of map %d", k, k, j), maps[j].Get(k), model[j][k])
			}
			eq("Len", maps[j].Len(), len(model[j]))
			for name, walk := range map[string]func(func(interface{}, interface{})){"RLockRange": maps[j].RLockRange, "LockRange": maps[j].LockRange, "UnsafeRange": maps[j].UnsafeRange} {
				seen := map[interface{}]interface{}{}
				walk(func(k, v interface{}) {
					if _, again := seen[k]; again {
						rt.Fatalf("%s visits %v twice", name, k)
					}
					seen[k] = v
				})
				eq(name+" visits", len(seen), len(model[j]))
				for k, v := range model[j] {
					x, has := seen[k]
					if !has || x != v {
						rt.Fatalf("%s visits %v with %v, want %v", name, k, x, v)
					}
				}
			}
		}
	}
	c.NTIf(over && deleted && tested)
}

func many(rt *rapid.T, c *vt.C) {
	top := 200000.0
	if vt.Thorough() {
		top = 800000
	}
	var m utils.Map
	w := map[interface{}]interface{}{}
	most := 0
	for wave := rapid.IntRange(1, 3).Draw(rt, "waves"); wave > 0; wave-- {
		n := int(math.Exp(rapid.Float64Range(math.Log(100), math.Log(top)).Draw(rt, "log n")))
		from := rapid.IntRange(0, n).Draw(rt, "from")
		text, test := rapid.Bool().Draw(rt, "text"), rapid.Bool().Draw(rt, "test")
		key := func(i int) interface{} {
			if text {
				return fmt.Sprint("key", i)
			}
			return i
		}
		c.Logf("%d keys from %d, text %v, test %v", n, from, text, test)
		for i := from; i < from+n; i++ {
			k, v := key(i), interface{}(wave*1000000+i)
			if test {
				old, had := w[k]
				if got := m.TestAndSet(k, v); got != old {
					rt.Fatalf("TestAndSet(%v) = %v among %d keys, want %v", k, got, len(w), old)
				}
				if had {
					continue
				}
			} else {
				m.Set(k, v)
			}
			w[k] = v
		}
		most = max(most, len(w))
		verify := func() {
			if m.Len() != len(w) {
				rt.Fatalf("%s: Len is %d, want %d", c.Last(), m.Len(), len(w))
			}
			for k, v := range w {
				if got := m.Get(k); got != v {
					rt.Fatalf("%s: Get(%v) = %v among %d keys, want %v", c.Last(), k, got, len(w), v)
				}
			}
			for name, walk := range map[string]func(func(interface{}, interface{})){"RLockRange": m.RLockRange, "LockRange": m.LockRange} {
				seen := 0
				walk(func(k, v interface{}) {
					if x, has := w[k]; !has || x != v {
						rt.Fatalf("%s: %s visits %v with %v, want %v", c.Last(), name, k, v, x)
					}
					seen++
				})
				if seen != len(w) {
					rt.Fatalf("%s: %s visits %d of %d keys", c.Last(), name, seen, len(w))
				}
			}
		}
		verify()
		gone := rapid.IntRange(0, n).Draw(rt, "deleted")
		c.Logf("%d deleted", gone)
		for i := from; i < from+gone; i++ {
			m.Del(key(i))
			delete(w, key(i))
			if m.Get(key(i)) != nil {
				rt.Fatalf("%v is there after its deletion", key(i))
			}
		}
		verify()
	}
	c.NTIf(most > 5000)
}

// the concurrent part: small integer keys and values, the state as a sorted string
type op struct {
	kind string
	k, v int
}

type state string

func (s state) parse() map[int]int {
	m := map[int]int{}
	for _, f := range strings.Fields(string(s)) {
		var k, v int
		fmt.Sscanf(f, "%d=%d", &k, &v)
		m[k] = v
	}
	return m
}

func encode(m map[int]int) state {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%d ", k, m[k])
	}
	return state(b.String())
}

func step(st, in, out interface{}) (bool, interface{}) {
	m := st.(state).parse()
	o := in.(op)
	val := func(k int) string {
		if v, has := m[k]; has {
			return fmt.Sprint(v)
		}
		return "<nil>"
	}
	want := ""
	switch o.kind {
	case "get":
		want = val(o.k)
	case "set":
		m[o.k] = o.v
	case "tas":
		want = val(o.k)
		if want == "<nil>" {
			m[o.k] = o.v
		}
	case "del":
		delete(m, o.k)
	case "len":
		want = fmt.Sprint(len(m))
	case "rrange", "lrange":
		want = string(encode(m))
	case "rewrite":
		want = string(encode(m))
		for k := range m {
			m[k] = o.v
		}
	case "both": // composition under the exported lock: read, length, set, delete the other
		want = val(o.k) + " " + fmt.Sprint(len(m))
		m[o.k] = o.v
		delete(m, o.k+1)
	case "peek": // composition under the exported read lock
		want = val(o.k) + " " + val(o.k+1) + " " + fmt.Sprint(len(m))
	}
	return out.(string) == want, encode(m)
}

var model = porcupine.Model{
	Init: func() interface{} { return state("") },
	Step: step,
	DescribeOperation: func(in, out interface{}) string {
		return fmt.Sprintf("%v -> %v", in, out)
	},
}

func do(m *utils.Map, o op, yields int) string {
	yield := func() {
		for i := 0; i < yields; i++ {
			runtime.Gosched()
		}
	}
	switch o.kind {
	case "get":
		return fmt.Sprint(m.Get(o.k))
	case "set":
		m.Set(o.k, o.v)
	case "tas":
		return fmt.Sprint(m.TestAndSet(o.k, o.v))
	case "del":
		m.Del(o.k)
	case "len":
		return fmt.Sprint(m.Len())
	case "rrange", "lrange", "rewrite":
		seen := map[int]int{}
		f := func(k, v interface{}) {
			if _, again := seen[k.(int)]; again {
				seen[-1] = k.(int) // no model state has this
			}
			seen[k.(int)] = v.(int)
			yield()
			if o.kind == "rewrite" {
				m.UnsafeSet(k, o.v)
				yield()
			}
		}
		if o.kind == "rrange" {
			m.RLockRange(f)
		} else {
			m.LockRange(f)
		}
		return string(encode(seen))
	case "both":
		m.Lock()
		r := fmt.Sprint(m.UnsafeGet(o.k)) + " " + fmt.Sprint(m.UnsafeLen())
		yield()
		m.UnsafeSet(o.k, o.v)
		yield()
		m.UnsafeDel(o.k + 1)
		m.Unlock()
		return r
	case "peek":
		m.RLock()
		r := fmt.Sprint(m.UnsafeGet(o.k))
		yield()
		r += " " + fmt.Sprint(m.UnsafeGet(o.k+1))
		yield()
		r += " " + fmt.Sprint(m.UnsafeLen())
		m.RUnlock()
		return r
	}
	return ""
}

func linearizable(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(2, 4).Draw(rt, "goroutines")
	keys := rapid.IntRange(1, 3).Draw(rt, "keys")
	kinds := []string{"get", "set", "tas", "del", "len", "rrange", "lrange", "rewrite", "both", "peek"}
	scripts := make([][]op, n)
	yields := make([][]int, n)
	v := 0
	draw := func() op {
		v++
		kind := kinds[vt.Weighted(rt, "op", 4, 4, 4, 3, 2, 2, 1, 3, 2, 2)]
		return op{kind, rapid.IntRange(0, keys-1).Draw(rt, "key"), v}
	}
	m := &utils.Map{}
	var hist []porcupine.Operation
	var clock atomic.Int64
	before := rapid.IntRange(0, 3).Draw(rt, "before")
	for i := 0; i < before; i++ {
		o := draw()
		call := clock.Add(1)
		hist = append(hist, porcupine.Operation{ClientId: n, Input: o, Call: call, Output: do(m, o, 0), Return: clock.Add(1)})
		c.Logf("before: %v", o)
	}
	for g := range scripts {
		for k := rapid.IntRange(2, 8).Draw(rt, "ops"); k > 0; k-- {
			scripts[g] = append(scripts[g], draw())
			yields[g] = append(yields[g], rapid.IntRange(0, 3).Draw(rt, "yields"))
		}
		c.Logf("goroutine %d: %v", g, scripts[g])
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var mine []porcupine.Operation
			<-start
			for i, o := range scripts[g] {
				call := clock.Add(1)
				out := do(m, o, yields[g][i])
				mine = append(mine, porcupine.Operation{ClientId: g, Input: o, Call: call, Output: out, Return: clock.Add(1)})
				for y := 0; y < yields[g][i]; y++ {
					runtime.Gosched()
				}
			}
			mu.Lock()
			hist = append(hist, mine...)
			mu.Unlock()
		}()
	}
	close(start)
	wg.Wait()
	call := clock.Add(1)
	hist = append(hist, porcupine.Operation{ClientId: n, Input: op{kind: "rrange"}, Call: call, Output: do(m, op{kind: "rrange"}, 0), Return: clock.Add(1)})
	overlap := false
	for i, a := range hist {
		for _, b := range hist[:i] {
			overlap = overlap || a.Call < b.Return && b.Call < a.Return
		}
	}
	c.NTIf(overlap)
	c.LabelIf(overlap, "overlapping operations")
	switch porcupine.CheckOperationsTimeout(model, hist, 30*time.Second) {
	case porcupine.Illegal:
		sort.Slice(hist, func(i, j int) bool { return hist[i].Call < hist[j].Call })
		var b strings.Builder
		for _, h := range hist {
			fmt.Fprintf(&b, "[%d-%d] client %d %v -> %q\n", h.Call, h.Return, h.ClientId, h.Input, h.Output)
		}
		rt.Fatalf("the history is not linearizable:\n%s", b.String())
	case porcupine.Unknown:
		vt.Harness("linearizability undecided")
	}
}

func winners(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(3, 8).Draw(rt, "goroutines")
	keys := rapid.IntRange(1, 6).Draw(rt, "keys")
	rounds := rapid.IntRange(1, 40).Draw(rt, "counting rounds")
	zero := rapid.Bool().Draw(rt, "zero value")
	c.Logf("%d goroutines, %d keys, %d rounds, from the zero value: %v", n, keys, rounds, zero)
	c.NT()
	m := &utils.Map{}
	if !zero {
		m.Set("x", 1)
		m.Del("x")
	}
	got := make([][]interface{}, n)
	inside, worst := 0, 0 // guarded by the map's own exclusion
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < keys; k++ {
				got[g] = append(got[g], m.TestAndSet(k, g*100+k))
			}
			for r := 0; r < rounds; r++ {
				m.Lock()
				x, _ := m.UnsafeGet("count").(int)
				m.UnsafeSet("count", x+1)
				m.Unlock()
				first := true
				m.LockRange(func(_, _ interface{}) {
					if first { // nothing else may be in its exclusive range
						first = false
						inside++
						worst = max(worst, inside)
						runtime.Gosched()
						inside--
					}
				})
			}
		}()
	}
	close(start)
	wg.Wait()
	for k := 0; k < keys; k++ {
		wins, val := 0, m.Get(k)
		for g := range got {
			switch got[g][k] {
			case nil:
				wins++
				if val != g*100+k {
					rt.Fatalf("goroutine %d won key %d, but it holds %v", g, k, val)
				}
			default:
				if got[g][k] != val {
					rt.Fatalf("goroutine %d saw %v under key %d, which holds %v", g, got[g][k], k, val)
				}
			}
		}
		if wins != 1 {
			rt.Fatalf("%d goroutines won key %d", wins, k)
		}
	}
	if x := m.Get("count"); x != n*rounds || worst > 1 {
		rt.Fatalf("%d increments under the lock counted as %v; %d at once in an exclusive range", n*rounds, x, worst)
	}
	if m.Len() != keys+1 {
		rt.Fatalf("length is %d, want %d", m.Len(), keys+1)
	}
}
