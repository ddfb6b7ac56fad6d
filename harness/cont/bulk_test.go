package cont

import (
	sheap "container/heap"
	slist "container/list"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/heap"
	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/meap"
	"github.com/ahKevinXy/go-web-tools/common/container/pqueue"
	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"pgregory.net/rapid"
	"vharness/vt"
)

// Containers in bulk: a few phases, each the same operation up to 100,000 times on values expanded
// from a drawn seed, against references that stay fast at that size.

const bulkRule = "two to eight phases of one operation each, repeated 1 to 100,000 times (log-uniform) on pseudo-random values; non-trivial: more than 2,000 elements at once"

type bulk struct {
	rt    *rapid.T
	c     *vt.C
	rnd   uint64
	span  int
	phase int
	most  int
	total int
}

func newBulk(rt *rapid.T, c *vt.C) *bulk {
	return &bulk{rt: rt, c: c, rnd: rapid.Uint64().Draw(rt, "seed"), span: 1 << rapid.IntRange(0, 40).Draw(rt, "span")}
}

func (b *bulk) n(limit int) int {
	b.rnd = vt.Mix(b.rnd + 0x9e3779b97f4a7c15)
	return int(b.rnd>>1) % limit
}

func (b *bulk) value() int { return b.n(b.span) }

// run plays the phases; an operation is told how large the container is and answers how large it is then.
func (b *bulk) run(names []string, op func(kind int) int, check func()) {
	for range rapid.IntRange(2, 8).Draw(b.rt, "phases") {
		kind := rapid.IntRange(0, len(names)-1).Draw(b.rt, "op")
		if b.phase == 0 {
			kind = 0
		}
		b.phase++
		e := rapid.IntRange(0, 16).Draw(b.rt, "magnitude")
		times := min(100_000, rapid.IntRange(1<<e, 2<<e).Draw(b.rt, "times"), 250_000-b.total)
		b.c.Logf("%s %d times", names[kind], times)
		for range times {
			b.most = max(b.most, op(kind))
		}
		b.total += times
		check()
	}
	b.c.NTIf(b.most > 2000)
	b.c.LabelIf(b.most > 65536, "more than 65536 at once")
}

func (b *bulk) size(got int, empty bool, want int) {
	if got != want || empty != (want == 0) {
		b.rt.Fatalf("Len %d, Empty %v, want %d elements", got, empty, want)
	}
}

// ---- sequences

func bulkDeque(rt *rapid.T, c *vt.C) {
	b := newBulk(rt, c)
	d, ref := deque.New[int](), slist.New()
	pop := func(front bool) {
		e, f := ref.Back(), d.PopBack
		if front {
			e, f = ref.Front(), d.PopFront
		}
		if got, want := f(), ref.Remove(e); got != want {
			rt.Fatalf("popping (front %v) gives %d, want %d", front, got, want)
		}
	}
	b.run([]string{"push back", "push front", "pop back", "pop front", "turn"}, func(kind int) int {
		v := b.value()
		switch {
		case kind == 0:
			d.PushBack(v)
			ref.PushBack(v)
		case kind == 1:
			d.PushFront(v)
			ref.PushFront(v)
		case ref.Len() == 0:
		case kind < 4:
			pop(kind == 3)
		default:
			pop(true)
			d.PushBack(v)
			ref.PushBack(v)
		}
		b.size(d.Len(), d.Empty(), ref.Len())
		return ref.Len()
	}, func() {})
	for ref.Len() > 0 {
		pop(ref.Len()%3 > 0)
	}
	b.size(d.Len(), d.Empty(), 0)
}

func bulkStack(rt *rapid.T, c *vt.C) {
	b := newBulk(rt, c)
	s := stack.New[int]()
	var ref []int
	pop := func() {
		want := ref[len(ref)-1]
		if p, got := s.Peek(), s.Pop(); p != want || got != want {
			rt.Fatalf("Peek %d and Pop %d of %d elements, want %d", p, got, len(ref), want)
		}
		ref = ref[:len(ref)-1]
	}
	b.run([]string{"push", "pop"}, func(kind int) int {
		if kind == 0 {
			v := b.value()
			s.Push(v)
			ref = append(ref, v)
		} else if len(ref) > 0 {
			pop()
		}
		b.size(s.Len(), s.Empty(), len(ref))
		return len(ref)
	}, func() {})
	for len(ref) > 0 {
		pop()
	}
	b.size(s.Len(), s.Empty(), 0)
}

func bulkSet(rt *rapid.T, c *vt.C) {
	b := newBulk(rt, c)
	s, ref := set.New[int](), map[int]bool{}
	b.run([]string{"add", "remove", "look", "remove one added"}, func(kind int) int {
		v := b.value()
		switch kind {
		case 0:
			s.Add(v)
			ref[v] = true
		case 3:
			for k := range ref {
				v = k
				break
			}
			fallthrough
		case 1:
			s.Remove(v)
			delete(ref, v)
		}
		if got := s.Contains(v); got != ref[v] {
			rt.Fatalf("a set of %d says %v of %d", len(ref), got, v)
		}
		b.size(s.Len(), s.Empty(), len(ref))
		return len(ref)
	}, func() {
		for v := range ref {
			if !s.Contains(v) {
				rt.Fatalf("a set of %d lost %d", len(ref), v)
			}
		}
	})
}

func bulkList(rt *rapid.T, c *vt.C) {
	b := newBulk(rt, c)
	l, ref := list.New[int](), slist.New()
	type pair struct {
		e *list.Element[int]
		r *slist.Element
	}
	var ps []pair
	b.run([]string{"push back", "push front", "remove", "move to front", "move to back", "insert", "move", "join"}, func(kind int) int {
		v := b.value()
		var p, q pair
		k := 0
		if len(ps) > 0 {
			k = b.n(len(ps))
			p, q = ps[k], ps[b.n(len(ps))]
		}
		switch {
		case kind == 0:
			ps = append(ps, pair{l.PushBack(v), ref.PushBack(v)})
		case kind == 1:
			ps = append(ps, pair{l.PushFront(v), ref.PushFront(v)})
		case len(ps) == 0:
		case kind == 2:
			if got, want := l.Remove(p.e), ref.Remove(p.r); got != want {
				rt.Fatalf("Remove gives %d, want %d", got, want)
			}
			ps[k] = ps[len(ps)-1]
			ps = ps[:len(ps)-1]
		case kind == 3:
			l.MoveToFront(p.e)
			ref.MoveToFront(p.r)
		case kind == 4:
			l.MoveToBack(p.e)
			ref.MoveToBack(p.r)
		case kind == 5 && v%2 == 0:
			ps = append(ps, pair{l.InsertBefore(v, p.e), ref.InsertBefore(v, p.r)})
		case kind == 5:
			ps = append(ps, pair{l.InsertAfter(v, p.e), ref.InsertAfter(v, p.r)})
		case kind == 6 && v%2 == 0:
			l.MoveBefore(p.e, q.e)
			ref.MoveBefore(p.r, q.r)
		case kind == 6:
			l.MoveAfter(p.e, q.e)
			ref.MoveAfter(p.r, q.r)
		case ref.Len() < 30000 && b.n(500) == 0: // the list itself, or another, at either end
			other, oref := l, ref
			if v%3 == 0 {
				other, oref = list.New[int](), slist.New()
				for i := range v % 5000 {
					other.PushBack(i)
					oref.PushBack(i)
				}
			}
			if v%2 == 0 {
				l.PushBackList(other)
				ref.PushBackList(oref)
			} else {
				l.PushFrontList(other)
				ref.PushFrontList(oref)
			}
		}
		b.size(l.Len(), l.Empty(), ref.Len())
		return ref.Len()
	}, func() {
		i, r := 0, ref.Front()
		for e := l.Front(); e != nil; e = e.Next() {
			if r == nil || r.Value != e.Value {
				rt.Fatalf("of %d elements, number %d is %d", ref.Len(), i, e.Value)
			}
			i, r = i+1, r.Next()
		}
		if r != nil {
			rt.Fatalf("only %d of %d elements are reached forwards", i, ref.Len())
		}
		i, r = 0, ref.Back()
		for e := l.Back(); e != nil; e = e.Prev() {
			if r == nil || r.Value != e.Value {
				rt.Fatalf("of %d elements, number %d from the back is %d", ref.Len(), i, e.Value)
			}
			i, r = i+1, r.Prev()
		}
		if r != nil {
			rt.Fatalf("only %d of %d elements are reached backwards", i, ref.Len())
		}
	})
}

// ---- heaps

// minRef knows the least value, also after removals of others.
type minRef struct {
	h     ints
	count map[int]int
	len   int
}

type ints []int

func (h ints) Len() int           { return len(h) }
func (h ints) Less(i, j int) bool { return h[i] < h[j] }
func (h ints) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x any)        { *h = append(*h, x.(int)) }
func (h *ints) Pop() any {
	x := (*h)[len(*h)-1]
	*h = (*h)[:len(*h)-1]
	return x
}

func (m *minRef) push(v int) {
	if m.count == nil {
		m.count = map[int]int{}
	}
	m.count[v]++
	m.len++
	sheap.Push(&m.h, v)
}

// remove takes one v away; false if there is none.
func (m *minRef) remove(v int) bool {
	if m.count[v] == 0 {
		return false
	}
	m.count[v]--
	m.len--
	return true
}

func (m *minRef) min() int {
	for {
		// entries of removed values are left over; as many of a value are valid as it counts
		if m.count[m.h[0]] > 0 {
			return m.h[0]
		}
		sheap.Pop(&m.h)
	}
}

func bulkHeap(rt *rapid.T, c *vt.C) {
	type intHeap interface {
		Push(int)
		Pop() int
		Peek() int
		Len() int
		Empty() bool
	}
	b := newBulk(rt, c)
	less := func(x, y int) bool { return x < y }
	var h intHeap
	ref := &minRef{}
	kinds := []string{"push", "pop", "replace the least", "remove at"}
	var initial []int
	kind := rapid.IntRange(0, 2).Draw(rt, "heap")
	if kind != 1 && rapid.Bool().Draw(rt, "initial") {
		e := rapid.IntRange(0, 15).Draw(rt, "initial magnitude")
		initial = make([]int, rapid.IntRange(1<<e, 2<<e).Draw(rt, "initial length"))
		for i := range initial {
			initial[i] = b.value()
			ref.push(initial[i])
		}
	}
	switch kind {
	case 0:
		c.Logf("heap of %d", len(initial))
		h = heap.New(initial, less)
	case 1:
		n := rapid.IntRange(2, 40).Draw(rt, "arity")
		c.Logf("%d-ary heap", n)
		h = heap.NewN(n, less)
	default:
		c.Logf("priority queue of %d", len(initial))
		h, kinds = pqueue.New(initial, less), kinds[:3]
	}
	pop := func() {
		want := ref.min()
		if p, got := h.Peek(), h.Pop(); p != want || got != want {
			rt.Fatalf("Peek %d and Pop %d of %d elements, the least is %d", p, got, ref.len, want)
		}
		ref.remove(want)
	}
	b.run(kinds, func(kind int) int {
		switch {
		case kind == 0:
			v := b.value()
			h.Push(v)
			ref.push(v)
		case ref.len == 0:
		case kind < 3:
			pop()
			if kind == 2 {
				v := b.value()
				h.Push(v)
				ref.push(v)
			}
		default:
			i := b.n(ref.len)
			if v := h.(interface{ Remove(int) int }).Remove(i); !ref.remove(v) {
				rt.Fatalf("Remove(%d) gives %d, which is not in the heap", i, v)
			}
		}
		b.size(h.Len(), h.Empty(), ref.len)
		return ref.len
	}, func() {})
	for ref.len > 0 {
		pop()
	}
	b.size(h.Len(), h.Empty(), 0)
}

func bulkMeap(rt *rapid.T, c *vt.C) {
	b := newBulk(rt, c)
	h := meap.New(func(x, y meap.Entry[int, int]) bool { return x.Value < y.Value })
	vals, ref := map[int]int{}, &minRef{}
	keys := 1 << rapid.IntRange(0, 18).Draw(rt, "keys")
	pop := func() {
		want := ref.min()
		p, e := h.Peek(), h.Pop()
		if v, in := vals[e.Key]; p != e || e.Value != want || !in || v != want {
			rt.Fatalf("Peek %v and Pop %v of %d entries (holding %d, %v), the least value is %d", p, e, ref.len, v, in, want)
		}
		ref.remove(want)
		delete(vals, e.Key)
	}
	b.run([]string{"push", "pop", "remove", "look"}, func(kind int) int {
		k := b.n(keys)
		old, in := vals[k]
		switch {
		case kind == 0:
			v := b.value()
			h.Push(k, v)
			if in {
				ref.remove(old)
			}
			ref.push(v)
			vals[k] = v
		case kind == 1 && ref.len > 0:
			pop()
		case kind == 2:
			h.Remove(k)
			if in {
				ref.remove(old)
				delete(vals, k)
			}
		}
		old, in = vals[k]
		if v, has := h.Get(k); has != in || v != old || h.Contains(k) != in {
			rt.Fatalf("Get(%d) gives %d, %v; want %d, %v", k, v, has, old, in)
		}
		b.size(h.Len(), h.Empty(), ref.len)
		return ref.len
	}, func() {})
	for ref.len > 0 {
		pop()
	}
	b.size(h.Len(), h.Empty(), 0)
}

func bulkReap(rt *rapid.T, c *vt.C) {
	type item struct{ id, v int }
	b := newBulk(rt, c)
	h := reap.New(func(x, y item) bool { return x.v < y.v })
	ref := &minRef{}
	var es []*reap.Entry[item]
	var vs []int
	var live []bool
	pop := func() {
		want := ref.min()
		p, e := h.Peek(), h.Pop()
		if p != e || e.v != want || !live[e.id] || vs[e.id] != want {
			rt.Fatalf("Peek %v and Pop %v of %d entries, the least value is %d", p, e, ref.len, want)
		}
		live[e.id] = false
		ref.remove(want)
	}
	b.run([]string{"push", "pop", "remove", "set"}, func(kind int) int {
		switch {
		case kind == 0:
			v := b.value()
			es = append(es, h.Push(item{len(es), v}))
			vs, live = append(vs, v), append(live, true)
			ref.push(v)
		case kind == 1:
			if ref.len > 0 {
				pop()
			}
		default:
			i, v := b.n(len(es)), b.value()
			old, was := vs[i], live[i]
			var did bool
			if kind == 2 {
				did, live[i] = h.Remove(es[i]), false
			} else {
				did = h.SetValue(es[i], item{i, v})
			}
			if did != was {
				rt.Fatalf("using the handle of entry %d (live %v) answers %v", i, was, did)
			}
			if was {
				ref.remove(old)
				if kind == 3 {
					ref.push(v)
					vs[i] = v
				}
			}
			if was && es[i].Value() != (item{i, vs[i]}) {
				rt.Fatalf("the handle of entry %d holds %v, want value %d", i, es[i].Value(), vs[i])
			}
		}
		b.size(h.Len(), h.Empty(), ref.len)
		return ref.len
	}, func() {})
	for ref.len > 0 {
		pop()
	}
	b.size(h.Len(), h.Empty(), 0)
}
