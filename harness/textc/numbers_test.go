package textc

import (
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC33(t *testing.T) {
	vt.Check(t, "rounding", "numbers up to a million with 0 to 9 decimals: exact ties, their neighbours in the last bit, decimal numbers near ties, multiples of the unit, tiny and random ones, in both signs, plus a pair of ordered inputs; compared with exact rational arithmetic; non-trivial: within a millionth of a unit of a tie, or an exact tie",
		40000, 1500000, rounding)
	vt.Check(t, "rounding far out", "any finite number with -400 to 400 decimals, among them units beyond the precision and the range of numbers, in both signs, and a larger number; compared with exact rational arithmetic; non-trivial: the number times the power of ten is out of range, or the unit is over 10^15 or under 10^-15",
		6000, 250000, farRounding)
	vt.Check(t, "sizes", "sizes at and around multiples of powers of 1024, around the values where a displayed digit or the unit changes, and random ones of every magnitude; the text must denote the size within half of its last digit; non-trivial: within one per cent of a power of 1024, or 1024 and more",
		40000, 1500000, sizes)
}

func rat(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

func ulp(f float64) *big.Rat {
	f = math.Abs(f)
	if f == math.MaxFloat64 {
		f = math.Nextafter(f, 0)
	}
	return new(big.Rat).Sub(rat(math.Nextafter(f, math.Inf(1))), rat(f))
}

func drawNumber(rt *rapid.T, n int) float64 {
	p := math.Pow10(n)
	var f float64
	switch vt.Weighted(rt, "number", 3, 3, 2, 2, 1, 2) {
	case 0: // an exact tie: an odd multiple of 2^-(n+1) is one at n decimals only if 10^n times it is k+1/2
		f = float64(2*rapid.IntRange(0, 1<<15).Draw(rt, "k")+1) / float64(uint(2)<<uint(n))
	case 1: // the double nearest to a decimal tie, and its neighbours
		f = (float64(rapid.IntRange(0, 100000).Draw(rt, "k")) + 0.5) / p
		for i := rapid.IntRange(-2, 2).Draw(rt, "steps"); i != 0; {
			if i > 0 {
				f, i = math.Nextafter(f, math.Inf(1)), i-1
			} else {
				f, i = math.Nextafter(f, math.Inf(-1)), i+1
			}
		}
	case 2:
		f = float64(rapid.IntRange(0, 1000000).Draw(rt, "k")) / p
	case 3:
		f = rapid.Float64Range(0, 1e6).Draw(rt, "f")
	case 4:
		f = vt.Pick(rt, "edge", 0, math.SmallestNonzeroFloat64, 1e-300, 0.49999999999999994, 0.5, 0.9999999999999999, 1, 4.35, 1.005, 2.675, 999999.9999999999, 1e6)
	case 5:
		f = math.Ldexp(float64(rapid.IntRange(0, 1<<20).Draw(rt, "mantissa")), -rapid.IntRange(1, 40).Draw(rt, "exp"))
	}
	if f > 1e6 {
		f = math.Mod(f, 1e6)
	}
	if rapid.Bool().Draw(rt, "negative") {
		f = -f
	}
	return f
}

func rounding(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(0, 9).Draw(rt, "decimals")
	f := drawNumber(rt, n)
	c.Logf("Round(%v, %d)", f, n)
	r := utils.Round(f, n)
	if math.IsNaN(r) || math.IsInf(r, 0) {
		rt.Fatalf("%s = %v", c.Last(), r)
	}
	unit := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
	slack := new(big.Rat).Mul(big.NewRat(4, 1), new(big.Rat).Add(ulp(f), ulp(r)))
	// a multiple of the unit
	units := new(big.Rat).Quo(rat(r), unit)
	k := nearest(units)
	off := new(big.Rat).Sub(rat(r), new(big.Rat).Mul(new(big.Rat).SetInt(k), unit))
	if off.Abs(off).Cmp(slack) > 0 {
		rt.Fatalf("%s = %v, which is no multiple of the unit", c.Last(), r)
	}
	// at most half a unit away
	half := new(big.Rat).Mul(unit, big.NewRat(1, 2))
	dist := new(big.Rat).Sub(rat(r), rat(f))
	dist.Abs(dist)
	if dist.Cmp(new(big.Rat).Add(half, slack)) > 0 {
		rt.Fatalf("%s = %v, more than half a unit away", c.Last(), r)
	}
	// exact ties go away from zero
	scaled := new(big.Rat).Quo(rat(f), unit)
	doubled := new(big.Rat).Mul(scaled, big.NewRat(2, 1))
	tie := doubled.IsInt() && doubled.Num().Bit(0) == 1
	c.LabelIf(tie, "exact tie")
	if tie && math.Abs(r) <= math.Abs(f) {
		rt.Fatalf("%s = %v, but this is a tie", c.Last(), r)
	}
	fromTie := new(big.Rat).Sub(new(big.Rat).Abs(scaled), big.NewRat(1, 2))
	fromTie.Sub(fromTie, new(big.Rat).SetInt(nearest(fromTie)))
	c.NTIf(tie || fromTie.Abs(fromTie).Cmp(big.NewRat(1, 1000000)) < 0)
	if s := utils.Round(-f, n); s != -r {
		rt.Fatalf("%s = %v, but for the negative it is %v", c.Last(), r, s)
	}
	g := drawNumber(rt, n)
	if rapid.Bool().Draw(rt, "close") {
		g = math.Nextafter(f, g)
	}
	lo, hi := math.Min(f, g), math.Max(f, g)
	if a, b := utils.Round(lo, n), utils.Round(hi, n); a > b {
		rt.Fatalf("Round(%v, %d) = %v, but Round(%v, %d) = %v", lo, n, a, hi, n, b)
	}
}

func farRounding(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(-30, 60).Draw(rt, "decimals")
	if rapid.IntRange(0, 2).Draw(rt, "extreme") == 0 {
		n = rapid.IntRange(-300, 400).Draw(rt, "more decimals")
		if n < -280 {
			n -= 50 // the powers in between are not exact
		}
	}
	draw := func() float64 {
		f := math.Ldexp(1+rapid.Float64Range(0, 1).Draw(rt, "f"), rapid.IntRange(-960, 1022).Draw(rt, "exp"))
		switch vt.Weighted(rt, "number", 2, 1, 1) {
		case 1:
			f = math.Ldexp(float64(rapid.IntRange(0, 1<<30).Draw(rt, "mantissa")), rapid.IntRange(-60, 60).Draw(rt, "exp"))
		case 2:
			f = vt.Pick(rt, "edge", 0, 1, 1<<53, 1<<53+2, 1<<52+0.5, 1e15+0.5, 1e22, 1e300, 1.5e308, math.MaxFloat64, math.MaxFloat64/2)
		}
		if rapid.Bool().Draw(rt, "negative") {
			f = -f
		}
		return f
	}
	f, g := draw(), draw()
	if f != 0 && n > 308 && math.Abs(f) < 1e-280 {
		f *= 1e200
	}
	c.Logf("Round(%v, %d)", f, n)
	c.NTIf(math.IsInf(f*math.Pow10(n), 0) || n > 15 || n < -15)
	r := utils.Round(f, n)
	if math.IsNaN(r) || math.IsInf(r, 0) {
		// the nearest multiple may exceed the range of numbers only if the unit is about as large
		if math.IsInf(r, 0) && math.Abs(f) > 1e300 && n < -290 {
			return
		}
		rt.Fatalf("%s = %v", c.Last(), r)
	}
	unit := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(n, -n))), nil))
	if n > 0 {
		unit.Inv(unit)
	}
	slack := new(big.Rat).Mul(big.NewRat(4, 1), new(big.Rat).Add(ulp(f), ulp(r)))
	k := nearest(new(big.Rat).Quo(rat(r), unit))
	off := new(big.Rat).Sub(rat(r), new(big.Rat).Mul(new(big.Rat).SetInt(k), unit))
	if off.Abs(off).Cmp(slack) > 0 {
		rt.Fatalf("%s = %v, which is no multiple of the unit", c.Last(), r)
	}
	half := new(big.Rat).Mul(unit, big.NewRat(1, 2))
	dist := new(big.Rat).Sub(rat(r), rat(f))
	if dist.Abs(dist).Cmp(new(big.Rat).Add(half, slack)) > 0 {
		rt.Fatalf("%s = %v, more than half a unit away", c.Last(), r)
	}
	if s := utils.Round(-f, n); s != -r {
		rt.Fatalf("%s = %v, but for the negative it is %v", c.Last(), r, s)
	}
	q := utils.Round(g, n)
	if math.IsNaN(q) {
		rt.Fatalf("Round(%v, %d) = %v", g, n, q)
	}
	if (f < g && r > q || f > g && r < q) && new(big.Rat).Sub(rat(r), rat(q)).Abs(new(big.Rat).Sub(rat(r), rat(q))).Cmp(slack) > 0 {
		rt.Fatalf("%s = %v, but Round(%v, %d) = %v", c.Last(), r, g, n, q)
	}
}

// nearest returns the integer nearest to r.
func nearest(r *big.Rat) *big.Int {
	two := new(big.Rat).Add(new(big.Rat).Mul(r, big.NewRat(2, 1)), big.NewRat(1, 1))
	return new(big.Int).Div(two.Num(), new(big.Int).Mul(two.Denom(), big.NewInt(2)))
}

func drawSize(rt *rapid.T) int64 {
	switch vt.Weighted(rt, "size", 3, 3, 2, 2, 1) {
	case 0: // around a power
		p := int64(1) << (10 * uint(rapid.IntRange(0, 6).Draw(rt, "power")))
		d := int64(rapid.IntRange(-12, 12).Draw(rt, "around"))
		if rapid.Bool().Draw(rt, "far") {
			d *= max(1, p/vt.Pick(rt, "per", int64(200), 2000, 20000, 1<<20, 1<<30))
		}
		return max(0, p+d)
	case 1: // around a change of the displayed digits
		p := float64(int64(1) << (10 * uint(rapid.IntRange(1, 5).Draw(rt, "power"))))
		v := float64(rapid.IntRange(0, 102400).Draw(rt, "hundredths"))/100 + vt.Pick(rt, "tie", 0.005, 0.05, 0.5, 0)
		return max(0, int64(v*p)+int64(rapid.IntRange(-2, 2).Draw(rt, "around")))
	case 2:
		return rapid.Int64Range(0, 1<<20).Draw(rt, "bytes")
	case 3:
		return rapid.Int64Range(0, math.MaxInt64).Draw(rt, "bytes") >> uint(rapid.IntRange(0, 62).Draw(rt, "shift"))
	}
	return vt.Pick(rt, "edge", int64(0), 1, 9, 10, 99, 100, 999, 1000, 1023, 1024, 1025, math.MaxInt64, math.MaxInt64-1, 10239, 10240, 10235)
}

// denotes checks that text shows size within half of its last digit.
func denotes(text string, size int64, units string) string {
	num, unit, ok := strings.Cut(text, " ")
	if !ok {
		return "no blank between number and unit"
	}
	e := -1
	all := strings.Fields(units)
	for i, u := range all {
		if u == unit {
			e = i
		}
	}
	v, parsed := new(big.Rat).SetString(num)
	if e < 0 || !parsed || strings.Trim(num, "0123456789.") != "" {
		return "not a number and a unit"
	}
	if e < len(all)-1 && v.Cmp(big.NewRat(1024, 1)) > 0 {
		return "the number is beyond 1024"
	}
	decimals := 0
	if i := strings.IndexByte(num, '.'); i >= 0 {
		decimals = len(num) - i - 1
	}
	scale := new(big.Int).Lsh(big.NewInt(1), uint(10*e))
	shown := new(big.Rat).Mul(v, new(big.Rat).SetInt(scale))
	half := new(big.Rat).SetFrac(scale, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(decimals)), nil))
	half.Mul(half, big.NewRat(1, 2))
	// floating-point error of the division
	half.Add(half, new(big.Rat).Mul(shown, big.NewRat(1, 1<<50)))
	d := shown.Sub(shown, new(big.Rat).SetInt64(size))
	if d.Abs(d).Cmp(half) > 0 {
		return "more than half of the last digit away"
	}
	// scaled: a larger unit is used only once the value reaches it (as shown)
	if e > 0 && new(big.Rat).Add(new(big.Rat).SetInt64(size), half).Cmp(new(big.Rat).SetInt(scale)) < 0 {
		return "the unit is larger than the size"
	}
	return ""
}

func sizes(rt *rapid.T, c *vt.C) {
	s := drawSize(rt)
	c.Logf("%d", s)
	nt := s >= 1024
	c.NTIf(nt)
	c.Label(fmt.Sprintf("2^%d", 10*(bits(s)/10)))
	got := utils.FormatByte(int(s))
	if why := denotes(got, s, "B KB MB GB TB PB"); why != "" {
		rt.Fatalf("FormatByte(%d) = %q: %s", s, got, why)
	}
	got = utils.FileSize(s)
	if why := denotes(got, s, "B KB MB GB TB PB EB"); why != "" {
		rt.Fatalf("FileSize(%d) = %q: %s", s, got, why)
	}
}

func bits(s int64) int {
	n := 0
	for ; s > 1; s >>= 1 {
		n++
	}
	return n
}
