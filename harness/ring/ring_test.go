package ring

import (
	"math/bits"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// Ring is what the three ring buffers have in common.
type Ring[T any] interface {
	Push(T)
	Pop() T
	Peek() T
	MPush(...T)
	MPop(uint64) []T
	MPopCopy([]T)
	Reset()
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

const poison = -77

type kind struct {
	name  string
	make  func(uint64) Ring[int]
	grows bool
	min   uint64
}

var kinds = []kind{
	{"fix", func(n uint64) Ring[int] { return fix.New[int](n) }, false, 1},
	{"round", func(n uint64) Ring[int] { return round.New[int](n) }, false, 1},
	{"unbounded", func(n uint64) Ring[int] { return unbounded.New[int](n) }, true, 0},
}

func pow2(n uint64) uint64 {
	p := uint64(1)
	for p < n {
		p *= 2
	}
	return p
}

func TestC12(t *testing.T) {
	for _, k := range kinds {
		k := k
		vt.Check(t, k.name, "a ring of 0..40 slots and a sequence of pushes, bulk pushes (also larger than the free space), pops, bulk pops, looks, resets and growth, biased to keep it nearly full, nearly empty or wrapped; non-trivial: the write position passed the end of the storage and a bulk operation happened",
			12000, 300000, func(rt *rapid.T, c *vt.C) { sequence(rt, c, k) })
	}
	vt.Check(t, "sizes", "requested sizes up to the maximum integer, on zero-width elements so that huge rings cost nothing; non-trivial: a size of more than 2^32 or next to a limit",
		5000, 60000, sizes)
}

func sequence(rt *rapid.T, c *vt.C, k kind) {
	size := rapid.Uint64Range(k.min, 9).Draw(rt, "size")
	if vt.Weighted(rt, "larger", 4, 1) == 1 {
		size = rapid.Uint64Range(k.min, 40).Draw(rt, "size")
	}
	r := k.make(size)
	wantCap := size
	if k.name == "round" {
		wantCap = pow2(size)
	}
	c.Logf("%s(%d)", k.name, size)
	var model []int
	next, written := 0, uint64(0)
	wrapped, bulk, grown := false, false, false
	fresh := func(n int) []int {
		e := make([]int, n, n+2)
		for i := range e {
			next++
			e[i] = next
		}
		return e
	}
	check := func(what string) {
		cp := r.Cap()
		if !k.grows && cp != wantCap || k.grows && cp < wantCap {
			rt.Fatalf("after %s: capacity %d, want %d", what, cp, wantCap)
		}
		if k.grows {
			grown = grown || cp > wantCap && len(model) > 0
			wantCap = cp
		}
		n := uint64(len(model))
		if r.Len() != n || r.Avail() != cp-n || r.Empty() != (n == 0) || r.Full() != (n == cp) {
			rt.Fatalf("after %s: Len %d Avail %d Empty %v Full %v Cap %d with %d elements in it", what, r.Len(), r.Avail(), r.Empty(), r.Full(), cp, n)
		}
		if n > 0 {
			if v := r.Peek(); v != model[0] {
				rt.Fatalf("after %s: Peek %d, want %d", what, v, model[0])
			}
		}
	}
	took := func(what string, got []int) {
		for i, v := range got {
			if v != model[i] {
				rt.Fatalf("%s: element %d is %d, want %d", what, i, v, model[i])
			}
		}
		model = model[len(got):]
	}
	put := func(e []int) {
		written += uint64(len(e))
		wrapped = wrapped || written > wantCap
		model = append(model, e...)
	}
	check("New")
	type held struct{ got, want []int }
	var helds []held
	steps := rapid.IntRange(1, 60).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		room := int(wantCap) - len(model)
		switch vt.Weighted(rt, "op", 10, 6, 8, 5, 5, 2, 1, 1) {
		case 0:
			e := fresh(1)
			c.Logf("push")
			v, panicked := vt.Panics(func() { r.Push(e[0]) })
			if want := !k.grows && room == 0; panicked != want {
				rt.Fatalf("Push with %d of %d slots used: panicked %v (%v)", len(model), wantCap, panicked, v)
			}
			if !panicked {
				put(e)
			}
		case 1:
			n := rapid.IntRange(0, room+3).Draw(rt, "n")
			if vt.Weighted(rt, "exact", 2, 1) == 1 {
				n = room
			}
			e := fresh(n)
			c.Logf("mpush %d", n)
			r.MPush(e...)
			keep := append([]int(nil), e...)
			for i := range e {
				e[i] = poison // the ring must hold its own copy
			}
			if !k.grows && len(keep) > room {
				keep = keep[:room]
			}
			bulk = bulk || len(keep) > 1
			put(keep)
		case 2:
			c.Logf("pop")
			var got int
			v, panicked := vt.Panics(func() { got = r.Pop() })
			if want := len(model) == 0; panicked != want {
				rt.Fatalf("Pop with %d elements: panicked %v (%v)", len(model), panicked, v)
			}
			if !panicked {
				took("Pop", []int{got})
			}
		case 3:
			n := rapid.Uint64Range(0, uint64(len(model)+3)).Draw(rt, "n")
			if vt.Weighted(rt, "extreme", 8, 1) == 1 {
				n = vt.Pick(rt, "n", ^uint64(0), 1<<63, 1<<40)
			}
			c.Logf("mpop %d", n)
			want := int(min(n, uint64(len(model))))
			got := r.MPop(n)
			if len(got) != want {
				rt.Fatalf("MPop(%d) of %d elements returned %d", n, len(model), len(got))
			}
			bulk = bulk || want > 1
			took("MPop", got)
			if rapid.Bool().Draw(rt, "scribble") {
				for i := range got {
					got[i] = poison
				}
				for i := range got[:cap(got)] {
					got[:cap(got)][i] = poison
				}
			} else if len(got) > 0 {
				helds = append(helds, held{got, append([]int(nil), got...)})
			}
		case 4:
			n := rapid.IntRange(0, len(model)+3).Draw(rt, "n")
			buf := make([]int, n+3)
			for i := range buf {
				buf[i] = poison
			}
			c.Logf("mpopcopy %d", n)
			if n == 0 && rapid.Bool().Draw(rt, "nil") {
				r.MPopCopy(nil)
			} else {
				r.MPopCopy(buf[1 : 1+n : 2+n])
			}
			want := min(n, len(model))
			took("MPopCopy", buf[1:1+want])
			if buf[0] != poison {
				rt.Fatalf("MPopCopy wrote before its destination")
			}
			for i := 1 + want; i < len(buf); i++ {
				if buf[i] != poison {
					rt.Fatalf("MPopCopy of %d elements wrote element %d of the destination", want, i-1)
				}
			}
			bulk = bulk || want > 1
		case 5:
			c.Logf("peek")
			if _, panicked := vt.Panics(func() { r.Peek() }); panicked != (len(model) == 0) {
				rt.Fatalf("Peek with %d elements: panicked %v", len(model), panicked)
			}
		case 6:
			c.Logf("reset")
			r.Reset()
			model = nil
			written = 0
		case 7:
			if u, ok := r.(*unbounded.Ring[int]); ok {
				n := rapid.Uint64Range(uint64(len(model)), wantCap+9).Draw(rt, "n")
				c.Logf("grow %d", n)
				u.Grow(n)
				wantCap = max(wantCap, n)
			}
		}
		check("step")
		for _, h := range helds {
			for i := range h.got {
				if h.got[i] != h.want[i] {
					rt.Fatalf("a slice handed out by MPop changed later: element %d is %d, was %d", i, h.got[i], h.want[i])
				}
			}
		}
	}
	for len(model) > 0 {
		took("final Pop", []int{r.Pop()})
	}
	check("draining")
	c.LabelIf(grown, "grown with elements in it")
	c.NTIf(bulk && (wrapped || grown))
}

func sizes(rt *rapid.T, c *vt.C) {
	var n uint64
	switch vt.Weighted(rt, "kind", 2, 3, 2, 2) {
	case 0:
		n = rapid.Uint64Range(0, 100).Draw(rt, "n")
	case 1:
		n = uint64(1)<<rapid.IntRange(0, 63).Draw(rt, "bit") + uint64(rapid.IntRange(-2, 2).Draw(rt, "off"))
	case 2:
		n = rapid.Uint64().Draw(rt, "n") >> rapid.IntRange(0, 63).Draw(rt, "shift")
	case 3:
		n = vt.Pick(rt, "n", uint64(fix.MaxSize), fix.MaxSize+1, round.MaxSize, round.MaxSize+1, round.MaxSize-1, ^uint64(0), ^uint64(0)-1, 0, 1)
	}
	c.Logf("size %d", n)
	c.NTIf(bits.Len64(n) > 32)
	type z = struct{}
	build := func(name string, f func() Ring[z], refuse bool, want uint64) {
		var r Ring[z]
		v, panicked := vt.Panics(func() { r = f() })
		if panicked != refuse {
			rt.Fatalf("%s.New(%d): panicked %v (%v), want %v", name, n, panicked, v, refuse)
		}
		if refuse {
			return
		}
		if r.Cap() != want || r.Len() != 0 || !r.Empty() || r.Avail() != want || r.Full() != (want == 0) {
			rt.Fatalf("%s.New(%d): Cap %d Len %d Avail %d Empty %v Full %v, want capacity %d", name, n, r.Cap(), r.Len(), r.Avail(), r.Empty(), r.Full(), want)
		}
		if want == 0 {
			return
		}
		r.Push(z{})
		r.MPush(make([]z, 2)...)
		if l := min(want, 3); name != "unbounded" && (r.Len() != l || r.Avail() != want-l || r.Full() != (l == want)) {
			rt.Fatalf("%s.New(%d) after three insertions: Len %d Avail %d", name, n, r.Len(), r.Avail())
		}
	}
	build("fix", func() Ring[z] { return fix.New[z](n) }, n == 0 || n > fix.MaxSize, n)
	if n == 0 || n > round.MaxSize {
		build("round", func() Ring[z] { return round.New[z](n) }, true, 0)
	} else {
		build("round", func() Ring[z] { return round.New[z](n) }, false, pow2(n))
	}
	build("unbounded", func() Ring[z] { return unbounded.New[z](n) }, n > unbounded.MaxSize, n)
	if n > unbounded.MaxSize {
		r := unbounded.New[z](2)
		r.MPush(z{}, z{}, z{})
		r.Pop()
		size := r.Cap()
		if _, p := vt.Panics(func() { r.Grow(n) }); !p || r.Len() != 2 || r.Cap() != size {
			rt.Fatalf("growing to %d: refused %v, then Len %d Cap %d, want 2 and %d", n, p, r.Len(), r.Cap(), size)
		}
	}
}
