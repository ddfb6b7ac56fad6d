package cont

import (
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC14(t *testing.T) {
	vt.Check(t, "many", bulkRule, 80, 3000, bulkList)
	vt.Check(t, "lists", "three lists (one a zero value) and a sequence of insertions, removals, moves, clears and concatenations with handles that are current, removed, of another list or never inserted; non-trivial: at least one operation got a handle that was not the list's own, or a list was joined with itself",
		60000, 1500000, lists)
}

type elem = list.Element[int]

type handle struct {
	e     *elem
	owner int // index of the list it is in, -1 when in none
}

func lists(rt *rapid.T, c *vt.C) {
	var zero list.List[int]
	ls := []*list.List[int]{&zero, list.New[int](), new(list.List[int])}
	model := make([][]*handle, len(ls))
	var handles []*handle
	var vals = map[*handle]int{}
	next := 0
	newVal := func() int { next++; return next }

	check := func(what string) {
		for li, l := range ls {
			m := model[li]
			if l.Len() != len(m) || l.Empty() != (len(m) == 0) {
				rt.Fatalf("after %s: list %d has Len %d, Empty %v, want %d elements", what, li, l.Len(), l.Empty(), len(m))
			}
			if len(m) == 0 {
				if l.Front() != nil || l.Back() != nil {
					rt.Fatalf("after %s: empty list %d has an end", what, li)
				}
				continue
			}
			i := 0
			for e := l.Front(); e != nil; e = e.Next() {
				if i >= len(m) || e != m[i].e || e.Value != vals[m[i]] {
					rt.Fatalf("after %s: list %d, forwards, position %d: value %d, want %v", what, li, i, e.Value, render(m, vals))
				}
				i++
			}
			if i != len(m) {
				rt.Fatalf("after %s: list %d, forwards: %d elements, want %v", what, li, i, render(m, vals))
			}
			for e := l.Back(); e != nil; e = e.Prev() {
				i--
				if i < 0 || e != m[i].e {
					rt.Fatalf("after %s: list %d, backwards, position %d: value %d, want %v", what, li, i, e.Value, render(m, vals))
				}
			}
			if i != 0 {
				rt.Fatalf("after %s: list %d, backwards: stopped %d before the front, want %v", what, li, i, render(m, vals))
			}
		}
		for _, h := range handles {
			if h.owner < 0 && (h.e.Next() != nil || h.e.Prev() != nil) {
				rt.Fatalf("after %s: a removed element still has neighbours", what)
			}
			if h.e.Value != vals[h] {
				rt.Fatalf("after %s: a handle's value is %d, want %d", what, h.e.Value, vals[h])
			}
		}
	}
	at := func(li int, h *handle) int {
		for i, x := range model[li] {
			if x == h {
				return i
			}
		}
		return -1
	}
	insert := func(li, i int, e *elem, v int) {
		if e == nil {
			rt.Fatalf("an insertion returned no handle")
		}
		if e.Value != v {
			rt.Fatalf("an insertion of %d returned a handle of %d", v, e.Value)
		}
		h := &handle{e, li}
		vals[h] = v
		handles = append(handles, h)
		m := append([]*handle{}, model[li][:i]...)
		m = append(m, h)
		model[li] = append(m, model[li][i:]...)
	}
	cut := func(li, i int) *handle {
		h := model[li][i]
		model[li] = append(append([]*handle{}, model[li][:i]...), model[li][i+1:]...)
		return h
	}
	steps := rapid.IntRange(1, 40).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		li := rapid.IntRange(0, len(ls)-1).Draw(rt, "list")
		l := ls[li]
		pick := func(label string) *handle {
			if len(handles) == 0 || vt.Weighted(rt, label+"?", 12, 1) == 1 {
				h := &handle{&elem{Value: newVal()}, -1} // an element that never was in a list
				vals[h] = h.e.Value
				handles = append(handles, h)
				return h
			}
			if m := model[li]; len(m) > 0 && vt.Weighted(rt, label+" own", 1, 3) == 1 {
				return m[rapid.IntRange(0, len(m)-1).Draw(rt, label)]
			}
			return handles[rapid.IntRange(0, len(handles)-1).Draw(rt, label)]
		}
		op := vt.Weighted(rt, "op", 4, 4, 3, 3, 4, 2, 2, 2, 2, 3, 3, 2, 2, 1, 1)
		switch op {
		case 0:
			v := newVal()
			c.Logf("%d.PushFront", li)
			insert(li, 0, l.PushFront(v), v)
		case 1:
			v := newVal()
			c.Logf("%d.PushBack", li)
			insert(li, len(model[li]), l.PushBack(v), v)
		case 2, 3:
			h, v := pick("mark"), newVal()
			c.Logf("%d.Insert%d near one of list %d", li, op-2, h.owner)
			var e *elem
			if op == 2 {
				e = l.InsertBefore(v, h.e)
			} else {
				e = l.InsertAfter(v, h.e)
			}
			if h.owner != li {
				c.NT()
				if e != nil {
					rt.Fatalf("insertion next to an element of list %d into list %d returned a handle", h.owner, li)
				}
				break
			}
			insert(li, at(li, h)+op-2, e, v)
		case 4:
			h := pick("elem")
			c.Logf("%d.Remove one of list %d", li, h.owner)
			if v := l.Remove(h.e); v != vals[h] {
				rt.Fatalf("Remove returned %d, want %d", v, vals[h])
			}
			if h.owner != li {
				c.NT()
				break
			}
			cut(li, at(li, h))
			h.owner = -1
		case 5, 6:
			if len(model[li]) == 0 {
				break
			}
			c.Logf("%d.RemoveEnd%d", li, op-5)
			i := 0
			var v int
			if op == 5 {
				v = l.RemoveFront()
			} else {
				i = len(model[li]) - 1
				v = l.RemoveBack()
			}
			h := cut(li, i)
			h.owner = -1
			if v != vals[h] {
				rt.Fatalf("removal at an end returned %d, want %d", v, vals[h])
			}
		case 7, 8:
			h := pick("elem")
			c.Logf("%d.MoveToEnd%d one of list %d", li, op-7, h.owner)
			if op == 7 {
				l.MoveToFront(h.e)
			} else {
				l.MoveToBack(h.e)
			}
			if h.owner != li {
				c.NT()
				break
			}
			cut(li, at(li, h))
			if op == 7 {
				model[li] = append([]*handle{h}, model[li]...)
			} else {
				model[li] = append(model[li], h)
			}
		case 9, 10:
			h, mark := pick("elem"), pick("mark")
			c.Logf("%d.Move%d one of list %d near one of list %d", li, op-9, h.owner, mark.owner)
			if op == 9 {
				l.MoveBefore(h.e, mark.e)
			} else {
				l.MoveAfter(h.e, mark.e)
			}
			if h.owner != li || mark.owner != li {
				c.NT()
				break
			}
			if h == mark {
				break
			}
			cut(li, at(li, h))
			i := at(li, mark) + op - 9
			m := append([]*handle{}, model[li][:i]...)
			m = append(m, h)
			model[li] = append(m, model[li][i:]...)
		case 11, 12:
			oi := rapid.IntRange(0, len(ls)-1).Draw(rt, "other")
			if len(model[oi])+len(model[li]) > 60 {
				break
			}
			c.NTIf(oi == li && len(model[li]) > 0)
			c.Logf("%d.Push%dList %d", li, op-11, oi)
			src := append([]*handle{}, model[oi]...)
			if op == 11 {
				l.PushFrontList(ls[oi])
			} else {
				l.PushBackList(ls[oi])
			}
			add := make([]*handle, 0, len(src))
			for range src {
				add = append(add, &handle{nil, li})
			}
			if op == 11 {
				model[li] = append(append([]*handle{}, add...), model[li]...)
			} else {
				model[li] = append(append([]*handle{}, model[li]...), add...)
			}
			// learn the new handles by walking in from the end they were added at
			e := l.Front()
			if op == 12 {
				e = l.Back()
			}
			for k := range add {
				i := k
				if op == 12 {
					i = len(add) - 1 - k
				}
				if e == nil {
					rt.Fatalf("joining lists added fewer elements than the other list has")
				}
				for _, h := range handles {
					if h.e == e {
						rt.Fatalf("joining lists put an existing element in place of a copy")
					}
				}
				add[i].e = e
				vals[add[i]] = vals[src[i]]
				if op == 11 {
					e = e.Next()
				} else {
					e = e.Prev()
				}
			}
			handles = append(handles, add...)
		case 13:
			c.Logf("%d.Clear", li)
			if l.Clear() != l {
				rt.Fatalf("Clear did not return its list")
			}
			for _, h := range model[li] {
				h.owner = -1
			}
			model[li] = nil
		case 14:
			if m := model[li]; len(m) > 0 {
				h := m[rapid.IntRange(0, len(m)-1).Draw(rt, "set")]
				v := newVal()
				h.e.Value = v
				vals[h] = v
			}
		}
		check(c.Last())
	}
}

func render(m []*handle, vals map[*handle]int) []int {
	var r []int
	for _, h := range m {
		r = append(r, vals[h])
	}
	return r
}
