package ringc

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"testing"

	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

// item is wide enough that a torn copy shows.
type item struct {
	batch, index int
	check        int
}

func mk(batch, index int) item { return item{batch, index, ^(batch*1000003 + index)} }

func (i item) ok() bool { return i.check == ^(i.batch*1000003+i.index) && i.batch > 0 }

type Ring interface {
	Push(item)
	Pop() item
	Peek() item
	MPush(...item)
	MPop(uint64) []item
	MPopCopy([]item)
	Cap() uint64
	Len() uint64
	Avail() uint64
	Empty() bool
	Full() bool
}

type step struct{ op, n, pause int }

func drawSteps(rt *rapid.T, label string, ops, size int) []step {
	n := rapid.IntRange(5, 120).Draw(rt, label)
	mode := rapid.IntRange(0, ops).Draw(rt, label+" mode")
	seed := rapid.Uint64().Draw(rt, label+" seed")
	r := make([]step, n)
	for i := range r {
		x := vt.Mix(seed + uint64(i)*0x9e3779b97f4a7c15)
		op := mode
		if mode == ops {
			op = int(x % uint64(ops))
		}
		r[i] = step{op, int(x>>8) % (size + 3), int(x>>24) % 8}
		if r[i].n < 0 {
			r[i].n = 0
		}
	}
	return r
}

func pause(n int) {
	if n == 7 {
		runtime.Gosched()
	}
}

func TestC13(t *testing.T) {
	makers := []struct {
		name string
		make func(uint64) Ring
	}{
		{"fix", func(n uint64) Ring { return fix.New[item](n) }},
		{"round", func(n uint64) Ring { return round.New[item](n) }},
	}
	for _, mk := range makers {
		mk := mk
		vt.Check(t, mk.name, "one producer and one consumer goroutine on a ring of 1..20 slots; the producer uses single pushes, bulk pushes of what it saw free, and oversized bulk pushes; the consumer pops, looks, bulk pops and bulk copies; non-trivial: the ring went around at least three times",
			1500, 40000, func(rt *rapid.T, c *vt.C) { pair(rt, c, mk.make) })
	}
}

func pair(rt *rapid.T, c *vt.C, make_ func(uint64) Ring) {
	size := vt.Pick(rt, "size", 1, 2, 2, 3, 4, 5, 7, 8, 13, 20)
	prod := drawSteps(rt, "producer", 3, size)
	cons := drawSteps(rt, "consumer", 5, size)
	r := make_(uint64(size))
	capacity := r.Cap()
	c.Logf("size %d, producer %v, consumer %v", size, prod, cons)

	// sent[b] = (at least, at most) how many items of batch b the ring must have accepted
	type sent struct{ least, most int }
	var batches []sent
	var done, abort atomic.Bool
	var perr, cerr string
	catch := func(who string, err *string) {
		if v := recover(); v != nil {
			*err = fmt.Sprintf("%s panicked: %v", who, v)
			abort.Store(true)
		}
	}
	finished := make(chan struct{})
	go func() { // producer
		defer close(finished)
		defer done.Store(true)
		defer catch("the producer", &perr)
		view := func() {
			if l, a := r.Len(), r.Avail(); l > capacity || a > capacity {
				perr = fmt.Sprintf("the producer saw Len %d and Avail %d of a ring of %d", l, a, capacity)
			}
		}
		batch := func(items int) []item {
			e := make([]item, items)
			for i := range e {
				e[i] = mk(len(batches)+1, i)
			}
			return e
		}
		for _, s := range prod {
			view()
			switch s.op {
			case 0: // one at a time
				e := batch(1)
				for r.Full() {
					if abort.Load() {
						return
					}
					runtime.Gosched()
				}
				r.Push(e[0])
				batches = append(batches, sent{1, 1})
			case 1: // as many as it saw free
				for r.Avail() == 0 {
					if abort.Load() {
						return
					}
					runtime.Gosched()
				}
				a := int(r.Avail())
				n := min(a, s.n+1)
				r.MPush(batch(n)...)
				batches = append(batches, sent{n, n})
			case 2: // maybe too many
				a := int(r.Avail())
				n := s.n + 1
				r.MPush(batch(n)...)
				batches = append(batches, sent{min(a, n), n})
			}
			if perr != "" || abort.Load() {
				return
			}
			pause(s.pause)
		}
	}()

	var got []item
	func() { // consumer
		defer catch("the consumer", &cerr)
		for i := 0; ; i++ {
			s := step{op: 0}
			if i < len(cons)*4 {
				s = cons[i%len(cons)]
			}
			ended := done.Load() // read before looking at the ring
			if l, a := r.Len(), r.Avail(); l > capacity || a > capacity {
				cerr = fmt.Sprintf("the consumer saw Len %d and Avail %d of a ring of %d", l, a, capacity)
				return
			}
			if r.Empty() {
				if ended {
					return
				}
				runtime.Gosched()
				continue
			}
			switch s.op {
			case 0:
				got = append(got, r.Pop())
			case 1:
				p := r.Peek()
				v := r.Pop()
				if p != v {
					cerr = fmt.Sprintf("Peek returned %v, then Pop %v", p, v)
					return
				}
				got = append(got, v)
			case 2:
				l := int(r.Len())
				e := r.MPop(uint64(s.n))
				if len(e) > s.n || len(e) < min(s.n, l) {
					cerr = fmt.Sprintf("MPop(%d) returned %d elements after Len was %d", s.n, len(e), l)
					return
				}
				got = append(got, e...)
			case 3, 4:
				l := int(r.Len())
				buf := make([]item, s.n+1)
				r.MPopCopy(buf[:s.n])
				n := 0
				for n < len(buf) && buf[n].batch != 0 {
					n++
				}
				if n > s.n || n < min(s.n, l) {
					cerr = fmt.Sprintf("MPopCopy into %d elements filled %d after Len was %d", s.n, n, l)
					return
				}
				for _, x := range buf[n:] {
					if x != (item{}) {
						cerr = "MPopCopy left a hole in its destination"
						return
					}
				}
				got = append(got, buf[:n]...)
			}
			pause(s.pause)
			if abort.Load() {
				return
			}
		}
	}()
	if cerr != "" {
		abort.Store(true)
	}
	<-finished
	if perr != "" || cerr != "" {
		rt.Fatalf("%s %s", perr, cerr)
	}
	// the consumer's sequence must be, batch by batch, an accepted prefix
	i := 0
	for b, s := range batches {
		n := 0
		for i < len(got) && got[i].batch == b+1 {
			if !got[i].ok() || got[i].index != n {
				rt.Fatalf("received %v where item %d of batch %d was next", got[i], n, b+1)
			}
			n++
			i++
		}
		if n < s.least || n > s.most {
			rt.Fatalf("batch %d: %d items received, between %d and %d accepted", b+1, n, s.least, s.most)
		}
	}
	if i != len(got) {
		rt.Fatalf("received %v out of sequence (position %d)", got[i], i)
	}
	if !r.Empty() || r.Len() != 0 || r.Avail() != capacity {
		rt.Fatalf("at the end: Len %d Avail %d", r.Len(), r.Avail())
	}
	c.NTIf(len(got) >= 3*int(capacity))
}
