package cont

import (
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
	"github.com/ahKevinXy/go-web-tools/common/container/set"
	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC15(t *testing.T) {
	vt.Check(t, "deque", "three deques used in turn: pushes and pops at both ends, biased to small sizes; non-trivial: an element went in at one end and came out at the other, and two instances held elements at once",
		40000, 1000000, deques)
	vt.Check(t, "stack", "three stacks used in turn; non-trivial: two instances held elements at once and one was drained and used again",
		40000, 1000000, stacks)
	vt.Check(t, "set", "two sets each of integers, strings, structs and interface values: additions (also repeated), removals (also of absent values), membership of every value of the universe; non-trivial: a value was added twice and one removed and added again",
		30000, 700000, sets)
	vt.Check(t, "many in a deque", bulkRule, 60, 2500, bulkDeque)
	vt.Check(t, "many in a stack", bulkRule, 60, 2500, bulkStack)
	vt.Check(t, "many in a set", bulkRule, 60, 2500, bulkSet)
}

type item struct {
	v     int
	front bool
}

func deques(rt *rapid.T, c *vt.C) {
	ds := []*deque.Deque[int]{deque.New[int](), deque.New[int](), deque.New[int]()}
	model := make([][]item, 3)
	through, both := false, false
	next := 0
	steps := rapid.IntRange(1, 50).Draw(rt, "steps")
	grow := rapid.IntRange(1, 5).Draw(rt, "grow")
	for s := 0; s < steps; s++ {
		i := vt.Weighted(rt, "deque", 3, 2, 1)
		d, m := ds[i], model[i]
		op := vt.Weighted(rt, "op", grow, grow, 2, 2)
		switch {
		case op == 0:
			next++
			c.Logf("%d<+%d", i, next)
			d.PushFront(next)
			m = append([]item{{next, true}}, m...)
		case op == 1:
			next++
			c.Logf("%d>+%d", i, next)
			d.PushBack(next)
			m = append(append([]item{}, m...), item{next, false})
		case len(m) == 0:
			continue
		default:
			var got int
			var want item
			if op == 2 {
				c.Logf("%d<-", i)
				got, want, m = d.PopFront(), m[0], m[1:]
			} else {
				c.Logf("%d>-", i)
				got, want, m = d.PopBack(), m[len(m)-1], m[:len(m)-1]
			}
			if got != want.v {
				rt.Fatalf("%s gave %d, want %d", c.Last(), got, want.v)
			}
			through = through || want.front == (op == 3)
		}
		model[i] = m
		used := 0
		for j := range ds {
			if ds[j].Len() != len(model[j]) || ds[j].Empty() != (len(model[j]) == 0) {
				rt.Fatalf("after %s: deque %d has Len %d Empty %v, want %d elements", c.Last(), j, ds[j].Len(), ds[j].Empty(), len(model[j]))
			}
			if len(model[j]) > 0 {
				used++
			}
		}
		both = both || used > 1
	}
	for i, d := range ds {
		front := rapid.Bool().Draw(rt, "drain")
		for len(model[i]) > 0 {
			m := model[i]
			want := m[len(m)-1].v
			got := 0
			if front {
				want = m[0].v
				got = d.PopFront()
				model[i] = m[1:]
			} else {
				got = d.PopBack()
				model[i] = m[:len(m)-1]
			}
			if got != want {
				rt.Fatalf("draining deque %d gave %d, want %d", i, got, want)
			}
		}
		if !d.Empty() || d.Len() != 0 {
			rt.Fatalf("drained deque %d is not empty", i)
		}
	}
	c.NTIf(through && both)
}

func stacks(rt *rapid.T, c *vt.C) {
	ss := []*stack.Stack[string]{stack.New[string](), stack.New[string](), stack.New[string]()}
	model := make([][]string, 3)
	drained := make([]bool, 3)
	both, again := false, false
	steps := rapid.IntRange(1, 50).Draw(rt, "steps")
	grow := rapid.IntRange(1, 4).Draw(rt, "grow")
	for s := 0; s < steps; s++ {
		i := vt.Weighted(rt, "stack", 3, 2, 1)
		d, m := ss[i], model[i]
		switch op := vt.Weighted(rt, "op", grow, 2, 1); {
		case op == 0:
			v := vt.Pick(rt, "v", "", "a", "b", "世", "longer value")
			c.Logf("%d push %q", i, v)
			d.Push(v)
			model[i] = append(m, v)
			again = again || drained[i]
		case len(m) == 0:
			continue
		case op == 1:
			c.Logf("%d pop", i)
			if got := d.Pop(); got != m[len(m)-1] {
				rt.Fatalf("%s gave %q, want %q", c.Last(), got, m[len(m)-1])
			}
			model[i] = m[:len(m)-1]
			drained[i] = drained[i] || len(m) == 1
		default:
			c.Logf("%d peek", i)
		}
		used := 0
		for j, d := range ss {
			m := model[j]
			if d.Len() != len(m) || d.Empty() != (len(m) == 0) {
				rt.Fatalf("after %s: stack %d has Len %d Empty %v, want %d elements", c.Last(), j, d.Len(), d.Empty(), len(m))
			}
			if len(m) > 0 {
				used++
				if got := d.Peek(); got != m[len(m)-1] {
					rt.Fatalf("after %s: stack %d has %q on top, want %q", c.Last(), j, got, m[len(m)-1])
				}
			}
		}
		both = both || used > 1
	}
	for i, d := range ss {
		for m := model[i]; len(m) > 0; m = m[:len(m)-1] {
			if got := d.Pop(); got != m[len(m)-1] {
				rt.Fatalf("draining stack %d gave %q, want %q", i, got, m[len(m)-1])
			}
		}
	}
	c.NTIf(both && again)
}

type pair struct {
	a int
	b string
}

func sets(rt *rapid.T, c *vt.C) {
	switch rapid.IntRange(0, 3).Draw(rt, "type") {
	case 0:
		setsOf(rt, c, []int{0, 1, -1, 1 << 40, 7, 8, -9})
	case 1:
		setsOf(rt, c, []string{"", "a", "A", "\x00", "世", "a ", "\xff"})
	case 2:
		setsOf(rt, c, []pair{{}, {1, ""}, {0, "a"}, {1, "a"}, {-1, "b"}})
	default:
		setsOf(rt, c, []any{nil, 0, "", int64(0), 1.5, pair{}, true, "a", 'a'})
	}
}

func setsOf[T comparable](rt *rapid.T, c *vt.C, universe []T) {
	ss := []*set.Set[T]{set.New[T](), set.New[T]()}
	model := []map[T]int{{}, {}}
	removed := []map[T]bool{{}, {}}
	twice, again := false, false
	steps := rapid.IntRange(1, 40).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		i := vt.Weighted(rt, "set", 2, 1)
		v := universe[rapid.IntRange(0, len(universe)-1).Draw(rt, "v")]
		if vt.Weighted(rt, "op", 3, 2) == 0 {
			c.Logf("%d add %#v", i, v)
			ss[i].Add(v)
			twice = twice || model[i][v] > 0
			again = again || removed[i][v]
			model[i][v]++
		} else {
			c.Logf("%d remove %#v", i, v)
			ss[i].Remove(v)
			if model[i][v] > 0 {
				removed[i][v] = true
			}
			delete(model[i], v)
		}
		for j, d := range ss {
			if d.Len() != len(model[j]) || d.Empty() != (len(model[j]) == 0) {
				rt.Fatalf("after %s: set %d has Len %d Empty %v, want %d values", c.Last(), j, d.Len(), d.Empty(), len(model[j]))
			}
			for _, u := range universe {
				if d.Contains(u) != (model[j][u] > 0) {
					rt.Fatalf("after %s: set %d Contains(%#v) is %v", c.Last(), j, u, d.Contains(u))
				}
			}
		}
	}
	c.NTIf(twice && again)
}
