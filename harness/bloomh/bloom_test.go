package bloomh

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"strings"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	m "github.com/ahKevinXy/go-web-tools/common/math"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC19(t *testing.T) {
	vt.Sync(t, "membership", "two filters of drawn capacities (1 to 300) and rates (down to 1e-12, up to 0.95), additions as hash, bytes and strings (up to 200000 bytes; also beyond the capacity), clearings; after every step every element added since is looked up in every form; non-trivial: elements in at least two forms and a clearing with elements in the filter",
		4000, 100000, membership)
	vt.Sync(t, "false positives", "capacity 1 to 6000 (log-uniform), rate 0.001 to 0.6, filters of that capacity (as many as make up at least 2000 elements) filled to capacity with sequential, strided or scattered hashes, byte strings or texts (also long ones that differ at the end only), then at least 20000 probes of elements never added; non-trivial: at least 20 false positives expected",
		80, 2500, func(rt *rapid.T, c *vt.C) {
			top := 6000.0
			if vt.Thorough() {
				top = 60000
			}
			falsePositives(rt, c, 1, top)
		})
	vt.Sync(t, "large", "the same for filters of 100000 to 3000000 elements (12000000 in the thorough tier), 20000 probes; non-trivial: at least 20 false positives expected",
		3, 25, func(rt *rapid.T, c *vt.C) {
			top := 3e6
			if vt.Thorough() {
				top = 12e6
			}
			falsePositives(rt, c, 1e5, top)
		})
}

type member struct {
	kind int // 0 hash, 1 bytes/string
	h    uint64
	b    string
}

func rates(rt *rapid.T) float64 {
	switch vt.Weighted(rt, "rate kind", 4, 2, 1) {
	case 0:
		return rapid.Float64Range(0.001, 0.5).Draw(rt, "rate")
	case 1:
		return vt.Pick(rt, "rate", 0.01, 0.001, 0.0001, 0.1, 0.5)
	}
	return vt.Pick(rt, "rate", 1e-12, 1e-7, 0.75, 0.95)
}

func membership(rt *rapid.T, c *vt.C) {
	fs := make([]*bloom.Filter, 2)
	for i := range fs {
		// the filters seed themselves from the clock
		time.Sleep(time.Duration(rapid.Int64Range(0, int64(time.Hour)*1000).Draw(rt, "later")))
		capacity, rate := uint64(rapid.IntRange(1, 300).Draw(rt, "capacity")), rates(rt)
		if rapid.IntRange(0, 3).Draw(rt, "small") == 0 {
			capacity = uint64(rapid.IntRange(1, 5).Draw(rt, "capacity"))
		}
		c.Logf("New(%d, %g)", capacity, rate)
		fs[i] = bloom.New(capacity, rate)
	}
	in := make([]map[member]bool, 2)
	for i := range in {
		in[i] = map[member]bool{}
	}
	contains := func(f *bloom.Filter, x member, form int) bool {
		switch {
		case x.kind == 0:
			return f.Contains(x.h)
		case form == 0:
			return f.ContainsBytes([]byte(x.b))
		default:
			return f.ContainsString(x.b)
		}
	}
	var seen []member
	forms, cleared := map[int]bool{}, false
	steps := rapid.IntRange(1, 30).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		i := rapid.IntRange(0, 1).Draw(rt, "filter")
		switch op := vt.Weighted(rt, "op", 4, 4, 4, 2); op {
		case 0:
			h := rapid.Uint64().Draw(rt, "hash")
			if rapid.Bool().Draw(rt, "edge") {
				h = vt.Pick[uint64](rt, "hash", 0, 1, math.MaxUint64, 1<<63, 64, 63, 1<<32)
			}
			c.Logf("%d.Add(%d)", i, h)
			fs[i].Add(h)
			x := member{0, h, ""}
			in[i][x], forms[0] = true, true
			seen = append(seen, x)
		case 1, 2:
			b := vt.Big(600, 200000, 40).Draw(rt, "bytes")
			c.Logf("%d.Add form %d %.60q, %d bytes", i, op, b, len(b))
			was := bytes.Clone(b)
			if op == 1 {
				fs[i].AddBytes(b)
			} else {
				fs[i].AddString(string(b))
			}
			if !bytes.Equal(b, was) {
				rt.Fatalf("adding changed its argument")
			}
			x := member{1, 0, string(was)}
			in[i][x], forms[op] = true, true
			seen = append(seen, x)
		case 3:
			c.Logf("%d.Clear", i)
			cleared = cleared || len(in[i]) > 0
			fs[i].Clear()
			clear(in[i])
		}
		for j, f := range fs {
			for _, x := range seen {
				if len(in[j]) > 0 && !in[j][x] {
					continue // may be a false positive
				}
				for form := 0; form < 2; form++ {
					if got := contains(f, x, form); got != in[j][x] {
						rt.Fatalf("after %s: filter %d with %d elements says %v for kind %d hash %d %.60q of %d bytes (form %d), which was added: %v", c.Last(), j, len(in[j]), got, x.kind, x.h, x.b, len(x.b), form, in[j][x])
					}
				}
			}
			if len(in[j]) == 0 {
				probe := rapid.Uint64().Draw(rt, "probe")
				if f.Contains(probe) || f.ContainsString(fmt.Sprint(probe)) {
					rt.Fatalf("after %s: empty filter %d contains %d", c.Last(), j, probe)
				}
			}
		}
	}
	c.NTIf(len(forms) > 1 && cleared)
}

func falsePositives(rt *rapid.T, c *vt.C, bottom, top float64) {
	capacity := int(math.Exp(rapid.Float64Range(math.Log(bottom), math.Log(top)).Draw(rt, "log capacity")))
	p := math.Exp(rapid.Float64Range(math.Log(0.001), math.Log(0.6)).Draw(rt, "log rate"))
	kind := vt.Weighted(rt, "kind", 1, 1, 1, 1, 1, 2)
	common := ""
	if kind >= 3 && (kind == 5 || rapid.IntRange(0, 4).Draw(rt, "long?") == 0) { // long ones that differ at the end only
		n := int(math.Exp(rapid.Float64Range(0, math.Log(70000)).Draw(rt, "log common")))
		n = min(n, 200_000_000/capacity) // hashed once per element and probe
		common = strings.Repeat("x", n)
	}
	stride := uint64(1) << rapid.IntRange(1, 50).Draw(rt, "stride")
	base := rapid.Uint64().Draw(rt, "base")
	reps := max(1, (2000+capacity-1)/capacity)
	probes := 20000/reps + 1
	total := 0
	c.Logf("capacity %d rate %.4f, %d filters, kind %d base %d stride %d", capacity, p, reps, kind, base, stride)
	hit := func(f *bloom.Filter, i uint64, add bool) bool {
		h := base + i
		switch kind {
		case 1:
			h = base + i*stride
			if i >= math.MaxUint64/stride { // would wrap onto itself
				h = vt.Mix(base + i)
			}
		case 2:
			h = vt.Mix(base + i)
		case 3:
			b := append([]byte(common), byte(i), byte(i>>8), byte(i>>16), byte(i>>24), byte(base))
			if add {
				f.AddBytes(b)
				return true
			}
			return f.ContainsBytes(b)
		case 4, 5:
			s := fmt.Sprintf("%suser:%d", common, base%1000000+i)
			if add {
				f.AddString(s)
				return true
			}
			return f.ContainsString(s)
		}
		if add {
			f.Add(h)
			return true
		}
		return f.Contains(h)
	}
	for r := 0; r < reps; r++ {
		time.Sleep(time.Duration(rapid.Int64Range(1, int64(time.Hour)).Draw(rt, "later")))
		f := bloom.New(uint64(capacity), p)
		off := uint64(r) * uint64(capacity+probes)
		for i := 0; i < capacity; i++ {
			hit(f, off+uint64(i), true)
		}
		for i := 0; i < capacity; i++ {
			if !hit(f, off+uint64(i), false) {
				rt.Fatalf("an added element is denied")
			}
		}
		for i := 0; i < probes; i++ {
			if hit(f, off+uint64(capacity+i), false) {
				total++
			}
		}
	}
	want := p * float64(reps*probes)
	c.NTIf(want >= 20)
	// the theoretical rate is below 1.2 p for every sizing; 6 standard deviations and a constant for chance
	if limit := 2*want + 6*math.Sqrt(want) + 10; float64(total) > limit {
		rt.Fatalf("%d false positives in %d probes, expected about %.0f (limit %.0f)", total, reps*probes, want, limit)
	}
}

func TestC20(t *testing.T) {
	vt.Check(t, "hash", "a few hashers and a sequence of contents (0 to 5000 bytes, re-used and slightly changed ones often) hashed in byte or string form in any order; non-trivial: a content hashed again after others, and one differing in a single byte or in length only",
		6000, 150000, hashes)
	vt.Check(t, "split", "n and m up to the maximum integer, biased to multiples and neighbours; non-trivial: n > m and m does not divide n", 60000, 1500000, splits)
	vt.Check(t, "helpers", "integers of every width with any number of leading and trailing zero bits, floats, texts; non-trivial: an argument of more than 2^32 or at the edge of a type",
		40000, 1000000, helpers)
	vt.Exhaustive(t, "8 and 16 bits", "every value of the 8- and 16-bit types", small)
}

func hashes(rt *rapid.T, c *vt.C) {
	type entry struct {
		b   []byte
		sum []uint64
		ok  []bool
	}
	hs := []*hash.Hash{hash.New(), hash.New()}
	var es []*entry
	again, near := false, false
	last := -1
	steps := rapid.IntRange(2, 25).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		k := -1
		switch op := vt.Weighted(rt, "content", 3, 3, 4); {
		case op == 0 || len(es) == 0:
			es = append(es, &entry{b: vt.Bytes(5000).Draw(rt, "b")})
		case op == 1:
			b := bytes.Clone(es[rapid.IntRange(0, len(es)-1).Draw(rt, "of")].b)
			switch how := rapid.IntRange(0, 3).Draw(rt, "how"); {
			case how == 0 || len(b) == 0:
				b = append(b, vt.Pick[byte](rt, "tail", 0, 1, ' ', 255))
			case how == 1:
				b = b[:len(b)-1]
			case how == 2:
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
			default:
				b = append([]byte{0}, b...)
			}
			near = true
			es = append(es, &entry{b: b})
		default:
			k = rapid.IntRange(0, len(es)-1).Draw(rt, "again")
		}
		if k < 0 {
			k = len(es) - 1
			for j, e := range es[:k] {
				if bytes.Equal(e.b, es[k].b) {
					es, k = es[:k], j
					break
				}
			}
		}
		e := es[k]
		if e.sum == nil {
			e.sum, e.ok = make([]uint64, len(hs)), make([]bool, len(hs))
		}
		i := rapid.IntRange(0, len(hs)-1).Draw(rt, "hasher")
		str := rapid.Bool().Draw(rt, "string")
		c.Logf("%d.Sum64 (string %v) of content %d, %d bytes", i, str, k, len(e.b))
		var got uint64
		if str {
			got = hs[i].Sum64String(string(e.b))
		} else {
			arg := append(make([]byte, 0, len(e.b)+8), e.b...)
			full := arg[:cap(arg)]
			was := bytes.Clone(full)
			if len(arg) == 0 && rapid.Bool().Draw(rt, "nil") {
				arg = nil
			}
			got = hs[i].Sum64(arg)
			if !bytes.Equal(full, was) {
				rt.Fatalf("hashing changed its input")
			}
		}
		if e.ok[i] && got != e.sum[i] {
			rt.Fatalf("%s: %d, was %d before", c.Last(), got, e.sum[i])
		}
		again = again || e.ok[i] && last != k
		last = k
		e.sum[i], e.ok[i] = got, true
		for j, o := range es {
			if o != e && o.sum != nil && o.ok[i] && o.sum[i] == got {
				rt.Fatalf("contents %q and %q (entries %d and %d) have the same hash", cut(o.b), cut(e.b), j, k)
			}
		}
	}
	c.NTIf(again && near)
}

func cut(b []byte) []byte { return b[:min(len(b), 60)] }

func anyUint(rt *rapid.T, label string) uint64 {
	v := rapid.Uint64().Draw(rt, label) >> rapid.IntRange(0, 63).Draw(rt, label+" shift")
	switch vt.Weighted(rt, label+" kind", 3, 3, 1) {
	case 1:
		b := uint64(1) << rapid.IntRange(0, 63).Draw(rt, label+" bit")
		v = b + uint64(rapid.IntRange(-2, 2).Draw(rt, label+" off"))
	case 2:
		v = vt.Pick[uint64](rt, label+" edge", 0, 1, 2, math.MaxUint64, math.MaxUint64-1, math.MaxInt64, 1<<63)
	}
	return v
}

func splits(rt *rapid.T, c *vt.C) {
	n, p := uint(anyUint(rt, "n")), uint(anyUint(rt, "m"))
	if p == 0 {
		p = 1
	}
	if rapid.IntRange(0, 2).Draw(rt, "multiple") == 0 {
		n = n%1000*p + uint(rapid.IntRange(-1, 1).Draw(rt, "off"))
	}
	c.Logf("Split(%d, %d)", n, p)
	c.NTIf(n > p && n%p != 0)
	per, last := m.Split(n, p)
	if n == 0 {
		if per != 0 || last != 0 {
			rt.Fatalf("Split(0, %d) = %d, %d", p, per, last)
		}
		return
	}
	wantPer := n / p
	if n%p != 0 {
		wantPer++
	}
	if per != wantPer {
		rt.Fatalf("Split(%d, %d): part size %d, want %d", n, p, per, wantPer)
	}
	if last < 1 || last > per || (n-last)%per != 0 || (n-last)/per > p-1 {
		rt.Fatalf("Split(%d, %d) = %d, %d: parts do not add up", n, p, per, last)
	}
}

type uints interface {
	~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uint | ~uintptr
}

type fataler interface{ Fatalf(string, ...any) }

func checkUint[T uints](f fataler, v T) {
	x := uint64(v)
	if got, want := m.IsPowOf2(v), bits.OnesCount64(x) == 1; got != want {
		f.Fatalf("VT-EXHAUSTIVE-FAIL IsPowOf2(%T %d) = %v", v, v, got)
	}
	if got := m.FindLastBitSet(v); got != bits.Len64(x) {
		f.Fatalf("VT-EXHAUSTIVE-FAIL FindLastBitSet(%T %d) = %d", v, v, got)
	}
	if v == 0 {
		return
	}
	if got, want := m.RoundDownPowOf2(v), uint64(1)<<(bits.Len64(x)-1); uint64(got) != want {
		f.Fatalf("VT-EXHAUSTIVE-FAIL RoundDownPowOf2(%T %d) = %d, want %d", v, v, got, want)
	}
	if up := bits.Len64(x - 1); up < 64 && uint64(T(1)<<up) == 1<<up {
		if got := m.RoundUpPowOf2(v); uint64(got) != 1<<up {
			f.Fatalf("VT-EXHAUSTIVE-FAIL RoundUpPowOf2(%T %d) = %d, want %d", v, v, got, uint64(1)<<up)
		}
	}
	checkLog(f, v, x, m.Log2(v))
}

func checkLog[T uints | ints](f fataler, v T, x uint64, got T) {
	floor := bits.Len64(x) - 1
	if int64(got) != int64(floor) {
		f.Fatalf("VT-EXHAUSTIVE-FAIL Log2(%T %d) = %d", v, v, got)
	}
}

type ints interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int
}

func checkInt[T ints](f fataler, a, b T) {
	mx, mn := a, b
	if b > a {
		mx, mn = b, a
	}
	if m.Max(a, b) != mx || m.Min(a, b) != mn {
		f.Fatalf("VT-EXHAUSTIVE-FAIL Max/Min(%T %d, %d) = %d, %d", a, a, b, m.Max(a, b), m.Min(a, b))
	}
	if a != -a || a == 0 { // the most negative value has no absolute value in its type
		want := a
		if a < 0 {
			want = -a
		}
		if got := m.Abs(a); got != want {
			f.Fatalf("VT-EXHAUSTIVE-FAIL Abs(%T %d) = %d", a, a, got)
		}
	}
	if a > 0 {
		checkLog(f, a, uint64(a), m.Log2(a))
	}
}

func helpers(rt *rapid.T, c *vt.C) {
	x, y := anyUint(rt, "x"), anyUint(rt, "y")
	c.Logf("%d %d", x, y)
	c.NTIf(x > 1<<32 || x&(x+1) == 0)
	checkUint(rt, x)
	checkUint(rt, uint(x))
	checkUint(rt, uintptr(x))
	checkUint(rt, uint32(x))
	checkUint(rt, uint16(x))
	checkUint(rt, uint8(x))
	checkInt(rt, int64(x), int64(y))
	checkInt(rt, int(x), int(y))
	checkInt(rt, int32(x), int32(y))
	checkInt(rt, int16(x), int16(y))
	checkInt(rt, int8(x), int8(y))
	if mx, mn := m.Max(x, y), m.Min(x, y); mx != max(x, y) || mn != min(x, y) {
		rt.Fatalf("Max/Min(%d, %d) = %d, %d", x, y, mx, mn)
	}
	fx, fy := float(rt, "fx"), float(rt, "fy")
	c.Logf("%g %g", fx, fy)
	if mx, mn := m.Max(fx, fy), m.Min(fx, fy); mx != max(fx, fy) || mn != min(fx, fy) {
		rt.Fatalf("Max/Min(%g, %g) = %g, %g", fx, fy, mx, mn)
	}
	if got := m.Abs(fx); got != math.Abs(fx) {
		rt.Fatalf("Abs(%g) = %g", fx, got)
	}
	if got := m.Abs(float32(fx)); got != float32(math.Abs(fx)) {
		rt.Fatalf("Abs(float32 %g) = %g", fx, got)
	}
	if v := math.Abs(fx); v > 0 && !math.IsInf(v, 0) {
		got, want := m.Log2(v), math.Log2(v)
		if math.Abs(got-want) > 1e-12*(1+math.Abs(want)) {
			rt.Fatalf("Log2(%g) = %g, want %g", v, got, want)
		}
		if fr, e := math.Frexp(v); fr == 0.5 && got != float64(e-1) {
			rt.Fatalf("Log2(%g) = %g, want exactly %d", v, got, e-1)
		}
	}
	s, u := vt.Text(0, 6).Draw(rt, "s"), vt.Text(0, 6).Draw(rt, "u")
	if mx, mn := m.Max(s, u), m.Min(s, u); mx != max(s, u) || mn != min(s, u) {
		rt.Fatalf("Max/Min(%q, %q) = %q, %q", s, u, mx, mn)
	}
}

func float(rt *rapid.T, label string) float64 {
	switch vt.Weighted(rt, label+" kind", 3, 2, 1) {
	case 0:
		return rapid.Float64().Draw(rt, label)
	case 1:
		return math.Ldexp(vt.Pick(rt, label, 1.0, -1.0), rapid.IntRange(-1074, 1023).Draw(rt, label+" exp"))
	}
	return vt.Pick(rt, label, 0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.SmallestNonzeroFloat64, 0.1, -2.5)
}

func small(t *testing.T, count func(desc string)) {
	for i := 0; i < 1<<16; i++ {
		checkUint(t, uint16(i))
		checkInt(t, int16(i), int16(i*40503+7))
		count(fmt.Sprintf("16-bit value %d", i))
		if i < 256 {
			checkUint(t, uint8(i))
			for j := 0; j < 256; j++ {
				checkInt(t, int8(i), int8(j))
			}
			count(fmt.Sprintf("8-bit value %d", i))
		}
	}
}
