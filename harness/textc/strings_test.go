// Package textc checks masking (C32), rounding and size formatting (C33), URLs
// (C34) and the small string and conversion helpers (C35).
package textc

import (
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC32(t *testing.T) {
	vt.Check(t, "hiding", "addresses (local parts of 0 to 6 characters, several scripts, empty and dotted domains), mobile numbers and near misses (10 or 12 digits, another first digit, digits of other scripts, trailing line break) and names of 0 to 8 characters of one to four bytes, rarely thousands of characters, given to both name-masking functions; non-trivial: multi-byte characters within the first or last three, a length at a boundary, or a near-miss number",
		40000, 1500000, hiding)
	vt.Check(t, "numbers", "digit and ASCII strings of lengths around prefix + mask, 11, 12, 16 and 17, with mask lengths from 0 to beyond the end; non-trivial: at least one character masked, or length within one of prefix + mask",
		40000, 1500000, numbers)
	vt.Check(t, "any text", "arbitrary byte strings (invalid UTF-8 and NUL included), several at signs, and mask lengths from the most negative to the largest integer; only panics count; non-trivial: non-ASCII text or an extreme mask length",
		30000, 1000000, anyText)
}

// characters that are easily miscounted
var runes = []rune{'a', 'b', 'Z', '0', '1', ' ', '*', '.', '张', '伟', 'é', 'ß', 'İ', 'ﬀ', '\u0301', '\u200d', '👩', '🏽', '\U0010ffff', '\ufffd', '٣', '\n'}

func someText(rt *rapid.T, label string, min, max int) string {
	if rapid.IntRange(0, 9).Draw(rt, label+" wide") == 0 {
		return strings.ReplaceAll(vt.ValidText(min, max).Draw(rt, label), "@", "a")
	}
	var b strings.Builder
	if rapid.IntRange(0, 79).Draw(rt, label+" long") == 79 {
		seed := rapid.Uint64().Draw(rt, label)
		for i := rapid.IntRange(10, 3000).Draw(rt, label+" length"); i > 0; i-- {
			seed = vt.Mix(seed + 1)
			b.WriteRune(runes[seed%uint64(len(runes))])
		}
		return b.String()
	}
	n := rapid.IntRange(min, max).Draw(rt, label+" length")
	for i := 0; i < n; i++ {
		b.WriteRune(runes[rapid.IntRange(0, len(runes)-1).Draw(rt, label)])
	}
	return b.String()
}

func digits(rt *rapid.T, n int) string {
	b := make([]byte, n)
	if n > 100 {
		seed := rapid.Uint64().Draw(rt, "digits")
		for i := range b {
			seed = vt.Mix(seed + 1)
			b[i] = byte('0' + seed%10)
		}
		return string(b)
	}
	for i := range b {
		b[i] = byte('0' + rapid.IntRange(0, 9).Draw(rt, "digit"))
	}
	return string(b)
}

// hide is the specification of HideStar for text with at most one '@'.
func hide(s string) string {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		local := []rune(s[:i])
		kept := ""
		if len(local) >= 3 {
			kept = string(local[:3])
		}
		return kept + "***@" + s[i+1:]
	}
	if len(s) == 11 && s[0] == '1' && strings.Trim(s, "0123456789") == "" {
		return s[:3] + "****" + s[7:]
	}
	r := []rune(s)
	n := len(r)
	switch {
	case n <= 1:
		return "***"
	case n == 2:
		return string(r[0]) + "*"
	case n == 3:
		return string(r[0]) + "*" + string(r[2])
	case n == 4:
		return string(r[0]) + "**" + string(r[3])
	}
	return string(r[:2]) + "***" + string(r[n-2:])
}

func maskName(s string) string {
	r := []rune(s)
	switch n := len(r); {
	case n == 0:
		return ""
	case n <= 4:
		return string(r[0]) + "***"
	default:
		return string(r[:2]) + "***" + string(r[n-2:])
	}
}

func hiding(rt *rapid.T, c *vt.C) {
	var s string
	near := false
	switch vt.Weighted(rt, "kind", 4, 4, 2) {
	case 0:
		s = someText(rt, "local", 0, 6) + "@" + someText(rt, "domain", 0, 8)
	case 1:
		s = someText(rt, "name", 0, 8)
	case 2:
		b := []rune("1" + digits(rt, vt.Pick(rt, "digits", 10, 10, 10, 9, 11)))
		near = true
		switch rapid.IntRange(0, 7).Draw(rt, "spoil") {
		case 0:
			b[rapid.IntRange(0, len(b)-1).Draw(rt, "where")] = vt.Pick(rt, "by", '٣', '１', 'a', ' ', '-', ':', '/')
		case 1:
			b[0] = '2'
		case 2:
			b = append(b, '\n')
		case 3:
			b = append([]rune{' '}, b...)
		}
		s = string(b)
	}
	c.Logf("%q", s)
	n := utf8.RuneCountInString(s)
	c.NTIf(near || len(s) != n || n <= 5)
	c.LabelIf(strings.Contains(s, "@"), "address")
	if got, want := utils.HideStar(s), hide(s); got != want {
		rt.Fatalf("HideStar(%q) = %q, want %q", s, got, want)
	}
	if got, want := utils.MaskCustomerName(s), maskName(s); got != want {
		rt.Fatalf("MaskCustomerName(%q) = %q, want %q", s, got, want)
	}
}

// masked returns s with n characters after the prefix replaced, if it is
// longer than both together; otherwise nothing is specified.
func masked(s string, prefix, n int) (string, bool) {
	if len(s) <= prefix+n {
		return "", false
	}
	return s[:prefix] + strings.Repeat("*", n) + s[prefix+n:], true
}

func numbers(rt *rapid.T, c *vt.C) {
	kind := rapid.IntRange(0, 2).Draw(rt, "kind")
	prefix := 4
	if kind == 0 {
		prefix = vt.Pick(rt, "prefix", 3, 5)
	}
	mask := rapid.IntRange(0, 14).Draw(rt, "mask")
	n := 0
	if rapid.IntRange(0, 39).Draw(rt, "long") == 39 {
		mask = rapid.IntRange(0, 4000).Draw(rt, "mask")
	}
	switch vt.Weighted(rt, "length", 4, 4, 2) {
	case 0:
		n = max(0, prefix+mask+rapid.IntRange(-1, 3).Draw(rt, "around"))
	case 1:
		n = vt.Pick(rt, "n", 10, 11, 12, 15, 16, 17, 18, 19)
	case 2:
		n = rapid.IntRange(0, 40).Draw(rt, "n")
	}
	s := digits(rt, n)
	if n > 0 && rapid.IntRange(0, 2).Draw(rt, "other characters") == 0 {
		b := []byte(s)
		for i := 0; i < 3; i++ {
			b[rapid.IntRange(0, n-1).Draw(rt, "at")] = vt.Pick(rt, "char", byte('X'), 'x', '-', ' ', '*', 0, 127)
		}
		s = string(b)
	}
	name, f, length := "MaskMobile", utils.MaskMobile, mask
	switch kind {
	case 0:
		prefix = 3
		if n > 11 {
			prefix = 5
		}
	case 1:
		name, f = "MaskIDCard", utils.MaskIDCard
	case 2:
		name, f = "MaskBackCard", utils.MaskBackCard
		if n > 16 {
			length += n - 16
		}
	}
	c.Logf("%s(%q, %d)", name, s, mask)
	got := f(s, mask)
	want, specified := masked(s, prefix, length)
	c.NTIf(specified && mask > 0 || n >= prefix+length-1 && n <= prefix+length+1)
	c.LabelIf(specified, "masked")
	if specified && got != want {
		rt.Fatalf("%s(%q, %d) = %q, want %q", name, s, mask, got, want)
	}
}

func anyText(rt *rapid.T, c *vt.C) {
	var s string
	if rapid.Bool().Draw(rt, "bytes") {
		s = string(vt.Bytes(40).Draw(rt, "bytes"))
	} else {
		for i := rapid.IntRange(0, 4).Draw(rt, "parts"); i >= 0; i-- {
			s += someText(rt, "part", 0, 4) + vt.Pick(rt, "then", "@", "", "\xff", "\x00", "@@", "\xe5\xbc")
		}
	}
	mask := vt.Pick(rt, "mask", -1<<63, -1<<63+4, -1000, -5, -4, -1, 0, 1, 4, 100, 1<<31, 1<<63-6, 1<<63-5, 1<<63-4, 1<<63-1)
	if rapid.Bool().Draw(rt, "small") {
		mask = rapid.IntRange(-8, len(s)+4).Draw(rt, "mask")
	}
	c.Logf("%q, %d", s, mask)
	c.NTIf(len(s) != utf8.RuneCountInString(s) || mask < 0 || mask > 100)
	for _, f := range []func(){
		func() { utils.HideStar(s) },
		func() { utils.MaskCustomerName(s) },
		func() { utils.MaskMobile(s, mask) },
		func() { utils.MaskIDCard(s, mask) },
		func() { utils.MaskBackCard(s, mask) },
	} {
		if v, p := vt.Panics(f); p {
			rt.Fatalf("masking %q by %d panicked: %v", s, mask, v)
		}
	}
}
