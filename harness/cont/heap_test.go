package cont

import (
	"math"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"pgregory.net/rapid"
	"vharness/vt"
)

// ordering is a strict weak order on keys.
type ordering struct {
	name string
	less func(a, b int) bool
}

var orderings = []ordering{
	{"ascending", func(a, b int) bool { return a < b }},
	{"descending", func(a, b int) bool { return a > b }},
	{"by last two bits", func(a, b int) bool { return a&3 < b&3 }},
	{"even first, then descending", func(a, b int) bool {
		if a&1 != b&1 {
			return a&1 < b&1
		}
		return a > b
	}},
	{"all equal", func(a, b int) bool { return false }},
}

func order(rt *rapid.T) ordering {
	return orderings[vt.Weighted(rt, "ordering", 6, 4, 3, 2, 1)]
}

// keyGen draws keys with few or many ties.
func keyGen(rt *rapid.T) func(label string) int {
	span := vt.Pick(rt, "span", 1, 3, 10, 60, 1000)
	return func(label string) int {
		if span == 1000 && rapid.IntRange(0, 15).Draw(rt, "extreme") == 0 {
			return vt.Pick(rt, label, math.MinInt, math.MaxInt, -1, 0)
		}
		return rapid.IntRange(-span/2, span).Draw(rt, label)
	}
}

func TestC16(t *testing.T) {
	rule := "an ordering, contents of up to 200 elements with few or many ties, and a sequence of pushes, pops, looks, removals by position and re-positionings after a key changed, then a full drain; non-trivial: a removal or re-positioning in the middle of a heap of at least four elements"
	vt.Check(t, "heap", rule, 30000, 700000, func(rt *rapid.T, c *vt.C) { heaps(rt, c, "heap") })
	vt.Check(t, "heapN", rule+" (arity 2 to 70, sometimes as large as integers get)", 40000, 1000000, func(rt *rapid.T, c *vt.C) { heaps(rt, c, "heapN") })
	vt.Check(t, "pqueue", "as for the heaps, with pushes, pops and looks only; non-trivial: at least four elements at once and ties or initial contents", 15000, 300000, func(rt *rapid.T, c *vt.C) { heaps(rt, c, "pqueue") })
	vt.Check(t, "many", bulkRule, 100, 4000, bulkHeap)
}

type box struct{ id, key int }

type anyHeap interface {
	Push(*box)
	Pop() *box
	Peek() *box
	Len() int
	Empty() bool
}

type posHeap interface {
	Remove(int) *box
	Fix(int)
}

// hist is a history that can be replayed on a second heap, to learn which element a position names.
type hop struct {
	kind int // 0 push key, 1 pop, 2 remove pos, 3 set key of id and fix pos
	pos  int
	key  int
	id   int
}

type world struct {
	h     anyHeap
	boxes map[int]*box // present
	next  int
	panic any
}

func newWorld(kind string, arity int, o ordering, initial []int, spare int) *world {
	w := &world{boxes: map[int]*box{}}
	less := func(a, b *box) bool { return o.less(a.key, b.key) }
	var init []*box
	if initial != nil {
		init = make([]*box, 0, len(initial)+spare)
	}
	for _, k := range initial {
		b := &box{w.next, k}
		w.next++
		w.boxes[b.id] = b
		init = append(init, b)
	}
	switch kind {
	case "heap":
		w.h = heap.New(init, less)
	case "heapN":
		w.h = heap.NewN(arity, less)
		for _, b := range init {
			w.h.Push(b)
		}
	default:
		w.h = pqueue.New(init, less)
	}
	return w
}

func (w *world) do(op hop) *box {
	switch op.kind {
	case 0:
		b := &box{w.next, op.key}
		w.next++
		w.boxes[b.id] = b
		w.h.Push(b)
		return b
	case 1:
		return w.h.Pop()
	case 2:
		return w.h.(posHeap).Remove(op.pos)
	default:
		w.boxes[op.id].key = op.key
		w.h.(posHeap).Fix(op.pos)
		return nil
	}
}

func heaps(rt *rapid.T, c *vt.C, kind string) {
	o := order(rt)
	key := keyGen(rt)
	arity := 2
	if kind == "heapN" {
		switch vt.Weighted(rt, "arity kind", 6, 3, 1) {
		case 0:
			arity = rapid.IntRange(2, 9).Draw(rt, "arity")
		case 1:
			arity = rapid.IntRange(2, 70).Draw(rt, "arity")
		default:
			arity = vt.Pick(rt, "arity", math.MaxInt, math.MaxInt-1, math.MaxInt/2, math.MaxInt/2+1, 1<<62, 1<<32, math.MaxInt/3+1)
		}
	}
	var initial []int
	n := 0
	switch vt.Weighted(rt, "contents", 1, 6, 2) {
	case 1:
		n = rapid.IntRange(0, 20).Draw(rt, "n")
	case 2:
		n = rapid.IntRange(0, 200).Draw(rt, "n")
	}
	if n > 20 {
		s := rapid.Uint64().Draw(rt, "seed")
		m := vt.Pick(rt, "mod", 5, 50, 100000)
		for i := 0; i < n; i++ {
			s = vt.Mix(s + 77)
			initial = append(initial, int(s%uint64(m)))
		}
	} else {
		for i := 0; i < n; i++ {
			initial = append(initial, key("key"))
		}
	}
	spare := rapid.IntRange(0, 3).Draw(rt, "spare")
	c.Logf("%s arity %d, %s, initial %v", kind, arity, o.name, initial)
	w := newWorld(kind, arity, o, initial, spare)
	var hist []hop
	locate := func(pos int) (id int) { // the element a position names, from a replay
		w2 := newWorld(kind, arity, o, initial, spare)
		for _, op := range hist {
			w2.do(op)
		}
		return w2.h.(posHeap).Remove(pos).id
	}
	gone := func(what string, b *box) {
		if b == nil || w.boxes[b.id] != b {
			rt.Fatalf("%s returned an element that is not in the heap: %v", what, b)
		}
		delete(w.boxes, b.id)
	}
	minimal := func(what string, b *box) {
		if b == nil || w.boxes[b.id] != b {
			rt.Fatalf("%s returned an element that is not in the heap: %v", what, b)
		}
		for _, x := range w.boxes {
			if o.less(x.key, b.key) {
				rt.Fatalf("%s returned key %d while %d is present (%s)", what, b.key, x.key, o.name)
			}
		}
	}
	check := func() {
		if w.h.Len() != len(w.boxes) || w.h.Empty() != (len(w.boxes) == 0) {
			rt.Fatalf("after %s: Len %d Empty %v, want %d elements", c.Last(), w.h.Len(), w.h.Empty(), len(w.boxes))
		}
		if len(w.boxes) > 0 {
			minimal("after "+c.Last()+": Peek", w.h.Peek())
		}
	}
	check()
	steps := rapid.IntRange(0, 25).Draw(rt, "steps")
	positional := 3
	if kind == "pqueue" {
		positional = 0
	}
	for s := 0; s < steps; s++ {
		k := vt.Weighted(rt, "op", 4, 3, positional, positional)
		if k > 0 && len(w.boxes) == 0 {
			continue
		}
		op := hop{kind: k}
		switch k {
		case 0:
			op.key = key("key")
			c.Logf("push %d", op.key)
			w.do(op)
			if kind == "pqueue" {
				c.NTIf(len(w.boxes) > 3)
			}
		case 1:
			c.Logf("pop")
			b := w.do(op)
			minimal("Pop", b)
			gone("Pop", b)
		case 2:
			op.pos = rapid.IntRange(0, len(w.boxes)-1).Draw(rt, "pos")
			c.Logf("remove at %d of %d", op.pos, len(w.boxes))
			c.NTIf(op.pos > 0 && op.pos < len(w.boxes)-1 && len(w.boxes) > 3)
			b := w.do(op)
			if op.pos == 0 {
				minimal("Remove(0)", b)
			}
			gone("Remove", b)
		case 3:
			op.pos = rapid.IntRange(0, len(w.boxes)-1).Draw(rt, "pos")
			op.id = locate(op.pos)
			op.key = key("key")
			if w.boxes[op.id] == nil {
				rt.Fatalf("a replay of the same history holds other elements")
			}
			c.Logf("at %d of %d: key %d becomes %d, fix", op.pos, len(w.boxes), w.boxes[op.id].key, op.key)
			c.NTIf(op.pos > 0 && op.pos < len(w.boxes)-1 && len(w.boxes) > 3)
			w.do(op)
		}
		hist = append(hist, op)
		check()
	}
	for len(w.boxes) > 0 {
		c.Logf("drain")
		b := w.h.Pop()
		minimal("Pop", b)
		gone("Pop", b)
		check()
	}
}

func TestC17(t *testing.T) {
	vt.Check(t, "many", bulkRule, 150, 5000, bulkMeap)
	vt.Check(t, "keyed heap", "an ordering on values, on keys or on both, keys from a small universe of strings or integers, and a sequence of pushes (also of present keys), removals (also of absent ones), look-ups, pops; non-trivial: a present key's value was replaced and a key removed in the middle of at least four entries",
		60000, 1500000, func(rt *rapid.T, c *vt.C) {
			if rapid.Bool().Draw(rt, "strings") {
				meaps(rt, c, []string{"", "a", "b", "aa", "世", "Z", "z", "\xff", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"}, func(a, b string) bool { return a < b })
			} else {
				u := make([]int, 64)
				for i := range u {
					u[i] = i - 3
				}
				meaps(rt, c, u, func(a, b int) bool { return a < b })
			}
		})
}

func meaps[K comparable](rt *rapid.T, c *vt.C, universe []K, keyLess func(a, b K) bool) {
	o := order(rt)
	by := vt.Weighted(rt, "by", 6, 1, 2)
	less := func(a, b meap.Entry[K, int]) bool {
		switch {
		case by == 1:
			return keyLess(a.Key, b.Key)
		case by == 2 && !o.less(a.Value, b.Value) && !o.less(b.Value, a.Value):
			return keyLess(b.Key, a.Key)
		}
		return o.less(a.Value, b.Value)
	}
	val := keyGen(rt)
	h := meap.New[K, int](less)
	other := meap.New[K, int](less) // a bystander
	model := map[K]int{}
	u := universe[:rapid.IntRange(1, len(universe)).Draw(rt, "universe")]
	c.Logf("%d keys, by %d, %s", len(u), by, o.name)
	minimal := func(what string, e meap.Entry[K, int]) {
		v, ok := model[e.Key]
		if !ok || v != e.Value {
			rt.Fatalf("%s returned %v, the entry of that key is %v (present: %v)", what, e, v, ok)
		}
		for k, v := range model {
			if less(meap.Entry[K, int]{Key: k, Value: v}, e) {
				rt.Fatalf("%s returned %v while (%v %v) is smaller", what, e, k, v)
			}
		}
	}
	check := func() {
		if h.Len() != len(model) || h.Empty() != (len(model) == 0) || !other.Empty() {
			rt.Fatalf("after %s: Len %d Empty %v, want %d entries", c.Last(), h.Len(), h.Empty(), len(model))
		}
		for _, k := range u {
			want, in := model[k]
			v, ok := h.Get(k)
			if ok != in || v != want || h.Contains(k) != in {
				rt.Fatalf("after %s: Get(%v) is %d %v, Contains %v; want %d %v", c.Last(), k, v, ok, h.Contains(k), want, in)
			}
		}
		if len(model) > 0 {
			minimal("after "+c.Last()+": Peek", h.Peek())
		}
	}
	replaced, removedMid := false, false
	steps := rapid.IntRange(1, 60).Draw(rt, "steps")
	shrink := rapid.IntRange(1, 4).Draw(rt, "shrink")
	for s := 0; s < steps; s++ {
		switch vt.Weighted(rt, "op", 8, shrink, shrink) {
		case 0:
			k, v := u[rapid.IntRange(0, len(u)-1).Draw(rt, "k")], val("v")
			c.Logf("push %v=%d", k, v)
			_, in := model[k]
			replaced = replaced || in
			h.Push(k, v)
			model[k] = v
		case 1:
			k := u[rapid.IntRange(0, len(u)-1).Draw(rt, "k")]
			c.Logf("remove %v", k)
			if _, in := model[k]; in && len(model) > 3 {
				removedMid = true
			}
			h.Remove(k)
			delete(model, k)
		case 2:
			if len(model) == 0 {
				continue
			}
			c.Logf("pop")
			e := h.Pop()
			minimal("Pop", e)
			delete(model, e.Key)
		}
		check()
	}
	for len(model) > 0 {
		c.Logf("drain")
		e := h.Pop()
		minimal("Pop", e)
		delete(model, e.Key)
		check()
	}
	c.NTIf(replaced && removedMid)
}

func TestC18(t *testing.T) {
	vt.Check(t, "many", bulkRule, 80, 3000, bulkReap)
	vt.Check(t, "handles", "an ordering and a sequence of pushes, pops, removals and value changes through handles, live and dead; non-trivial: a dead handle was used and a live one changed or removed among at least four entries",
		60000, 1500000, reaps)
}

type tagged struct{ key, tag int }

type rh struct {
	e    *reap.Entry[tagged]
	val  tagged
	live bool
}

func reaps(rt *rapid.T, c *vt.C) {
	o := order(rt)
	key := keyGen(rt)
	h := reap.New(func(a, b tagged) bool { return o.less(a.key, b.key) })
	c.Logf("%s", o.name)
	var hs []*rh
	tag := 0
	fresh := func() tagged { tag++; return tagged{key("key"), tag} }
	live := func() (l []*rh) {
		for _, x := range hs {
			if x.live {
				l = append(l, x)
			}
		}
		return
	}
	minimal := func(what string, v tagged) *rh {
		var it *rh
		for _, x := range hs {
			if x.live && x.val == v {
				it = x
			}
		}
		if it == nil {
			rt.Fatalf("%s returned %v, which is no present value", what, v)
		}
		for _, x := range hs {
			if x.live && o.less(x.val.key, v.key) {
				rt.Fatalf("%s returned key %d while %d is present (%s)", what, v.key, x.val.key, o.name)
			}
		}
		return it
	}
	check := func() {
		n := len(live())
		if h.Len() != n || h.Empty() != (n == 0) {
			rt.Fatalf("after %s: Len %d Empty %v, want %d entries", c.Last(), h.Len(), h.Empty(), n)
		}
		for _, x := range hs {
			if x.e.Value() != x.val {
				rt.Fatalf("after %s: a handle (in the heap: %v) shows %v, want %v", c.Last(), x.live, x.e.Value(), x.val)
			}
		}
		if n > 0 {
			minimal("after "+c.Last()+": Peek", h.Peek())
		}
	}
	dead, mid := false, false
	pick := func() *rh {
		if l := live(); len(l) > 0 && vt.Weighted(rt, "alive", 1, 3) == 1 {
			return l[rapid.IntRange(0, len(l)-1).Draw(rt, "h")]
		}
		return hs[rapid.IntRange(0, len(hs)-1).Draw(rt, "h")]
	}
	steps := rapid.IntRange(1, 50).Draw(rt, "steps")
	grow := rapid.IntRange(3, 9).Draw(rt, "grow")
	for s := 0; s < steps; s++ {
		op := vt.Weighted(rt, "op", grow, 2, 2, 3)
		if op > 0 && len(hs) == 0 || op == 1 && len(live()) == 0 {
			op = 0
		}
		switch op {
		case 0:
			v := fresh()
			c.Logf("push %v", v)
			e := h.Push(v)
			if e == nil {
				rt.Fatalf("Push returned no handle")
			}
			for _, x := range hs {
				if x.e == e {
					rt.Fatalf("Push returned a handle that is in use")
				}
			}
			hs = append(hs, &rh{e, v, true})
		case 1:
			c.Logf("pop")
			v := h.Pop()
			minimal("Pop", v).live = false
		case 2:
			x := pick()
			c.Logf("remove %v (in: %v)", x.val, x.live)
			dead = dead || !x.live
			mid = mid || x.live && h.Len() > 3
			if ok := h.Remove(x.e); ok != x.live {
				rt.Fatalf("Remove of %v returned %v", x.val, ok)
			}
			x.live = false
		case 3:
			x, v := pick(), fresh()
			c.Logf("set %v (in: %v) to %v", x.val, x.live, v)
			dead = dead || !x.live
			mid = mid || x.live && h.Len() > 3
			if ok := h.SetValue(x.e, v); ok != x.live {
				rt.Fatalf("SetValue of %v returned %v", x.val, ok)
			}
			if x.live {
				x.val = v
			}
		}
		check()
	}
	for len(live()) > 0 {
		c.Logf("drain")
		minimal("Pop", h.Pop()).live = false
		check()
	}
	c.NTIf(dead && mid)
}
