package textc

import (
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC35(t *testing.T) {
	vt.Check(t, "integers", "integers of every magnitude and edge there and back, with leading zeros and signs, and spoilt texts (blanks, letters, points, exponents, underscores, prefixes of other bases, digits of other scripts); non-trivial: negative, beyond 32 bits, padded or spoilt",
		40000, 1500000, integers)
	vt.Check(t, "substrings", "texts of characters of one to four bytes cut at drawn character positions, pieces put together again, upper-cased, and suffixes after drawn separators; non-trivial: multi-byte text",
		30000, 1000000, substrings)
	vt.Check(t, "random strings", "sizes 0 to 3000 and classes from -3 to 6; non-trivial: longer than one character",
		6000, 200000, randomStrings)
	vt.Sync(t, "random strings spread", "two long strings of a class from calls at drawn instants a nanosecond to days apart (fake clock): how often each character occurs, how often characters repeat at distances up to 64, and whether the two differ; non-trivial: every case",
		60, 2000, randomSpread)
	vt.Check(t, "switches", "histories of setting and asking a few switches in two option maps (one also nil, when only asking); non-trivial: a switch set off and asked again",
		8000, 300000, switches)
	vt.Sync(t, "date directory", "calls at drawn instants (fake clock, also right before and after midnight) in drawn local time zones with whole, half and odd offsets; non-trivial: the local date differs from the UTC date, or within a minute of midnight",
		4000, 100000, dateDir)
	vt.Check(t, "program directory", "programs started by a bare name, relative and absolute paths with dots, doubled slashes, blanks and multi-byte names, from drawn working directories; non-trivial: relative, or with a dot component",
		3000, 60000, programDir)
}

func programDir(rt *rapid.T, c *vt.C) {
	name := func(label string) string {
		return vt.Pick(rt, label, "a", "b c", "日本", "x.y", "...", ".h", "prog", "-", "%41", "C:")
	}
	old, err := os.Getwd()
	if err != nil {
		vt.Harness("getwd: %v", err)
	}
	arg := os.Args[0]
	base, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "wd")
	if err != nil {
		vt.Harness("mkdtemp: %v", err)
	}
	if base, err = filepath.EvalSymlinks(base); err != nil {
		vt.Harness("links: %v", err)
	}
	defer func() {
		os.Args[0] = arg
		os.Chdir(old)
		os.RemoveAll(base)
	}()
	wd := base
	for i := rapid.IntRange(0, 3).Draw(rt, "depth"); i > 0; i-- {
		wd += "/" + name("wd")
	}
	if err := os.MkdirAll(wd, 0o755); err != nil {
		vt.Harness("mkdir: %v", err)
	}
	if err := os.Chdir(wd); err != nil {
		vt.Harness("chdir: %v", err)
	}
	path, where := "", []string{}
	abs := rapid.Bool().Draw(rt, "absolute")
	if abs {
		path = vt.Pick(rt, "root", "/", "//")
	} else {
		where = strings.Split(wd[1:], "/")
	}
	dots := false
	for i := rapid.IntRange(0, 6).Draw(rt, "components"); i > 0; i-- {
		comp := ""
		switch vt.Weighted(rt, "component", 4, 1, 2) {
		case 0:
			comp = name("dir")
			where = append(where, comp)
		case 1:
			comp = "."
			dots = true
		case 2:
			comp = ".."
			dots = true
			if len(where) > 0 {
				where = where[:len(where)-1]
			}
		}
		path += comp + vt.Pick(rt, "slashes", "/", "/", "//")
	}
	path += name("program")
	c.Logf("in %s: %q", strings.TrimPrefix(wd, base), path)
	c.NTIf(!abs || dots)
	c.LabelIf(abs, "absolute")
	os.Args[0] = path
	got, want := utils.GetCurrentDir(), "/"+strings.Join(where, "/")
	if got != want {
		rt.Fatalf("a program started as %q in %q: directory %q, want %q", path, wd, got, want)
	}
}

var integerText, leading = regexp.MustCompile(`^[+-]?[0-9]+$`), regexp.MustCompile(`^[+-]?[0-9]*`)

func integers(rt *rapid.T, c *vt.C) {
	n := rapid.Int64().Draw(rt, "n") >> uint(rapid.IntRange(0, 63).Draw(rt, "shift"))
	if rapid.IntRange(0, 5).Draw(rt, "edge") == 0 {
		n = vt.Pick(rt, "n", int64(0), -1, 9, 10, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MaxInt32+1, math.MinInt32, math.MinInt32-1, math.MaxUint32, 1<<53+1)
	}
	s := strconv.FormatInt(n, 10)
	if got := utils.Int64ToString(n); got != s {
		rt.Fatalf("Int64ToString(%d) = %q", n, got)
	}
	if got := utils.IntToString(int(n)); got != s {
		rt.Fatalf("IntToString(%d) = %q", n, got)
	}
	text := s
	spell := vt.Weighted(rt, "spelling", 3, 2, 5)
	switch spell {
	case 1:
		sign, d := "", s
		if n < 0 {
			sign, d = "-", s[1:]
		} else if rapid.Bool().Draw(rt, "plus") {
			sign = "+"
		}
		text = sign + strings.Repeat("0", rapid.IntRange(0, 30).Draw(rt, "zeros")) + d
	case 2:
		junk := vt.Pick(rt, "junk", " ", "\n", "\x00", ".", ".0", "e3", "_", "x", "0x", "0b1", "0o7", "-", "+", ",", "٣", "１", "a", "")
		i := rapid.IntRange(0, len(s)).Draw(rt, "where")
		text = s[:i] + junk + s[i:]
		if rapid.IntRange(0, 9).Draw(rt, "only") == 0 {
			text = junk
		}
	}
	c.Logf("%q", text)
	c.NTIf(n < 0 || n > math.MaxInt32 || spell > 0)
	lead, ok := new(big.Int).SetString("0"+strings.TrimLeft(leading.FindString(text), "+-"), 10)
	if ok && strings.HasPrefix(text, "-") {
		lead.Neg(lead)
	}
	if !ok || !lead.IsInt64() {
		return // digits beyond the range: unspecified
	}
	want := int64(0)
	if integerText.MatchString(text) {
		want = lead.Int64()
	}
	if got := utils.StringToInt64(text); got != want {
		rt.Fatalf("StringToInt64(%q) = %d, want %d", text, got, want)
	}
	if got := utils.StringToInt(text); got != int(want) {
		rt.Fatalf("StringToInt(%q) = %d, want %d", text, got, want)
	}
}

func substrings(rt *rapid.T, c *vt.C) {
	s := someText(rt, "text", 0, 10)
	if rapid.IntRange(0, 3).Draw(rt, "cased") == 0 {
		s = vt.Pick(rt, "first", "ß", "ŉ", "ǆ", "ı", "ſ", "ﬁ", "é", "é", "я", "ⓐ", "𐐨", "ა", "a", "z", "µ", "ÿ") + s
	}
	n := utf8.RuneCountInString(s)
	c.NTIf(n != len(s))
	cuts := []int{0, n}
	for i := rapid.IntRange(0, 3).Draw(rt, "cuts"); i > 0; i-- {
		cuts = append(cuts, rapid.IntRange(0, n).Draw(rt, "cut"))
	}
	for i := range cuts {
		for j := i; j > 0 && cuts[j] < cuts[j-1]; j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	c.Logf("%q %v", s, cuts)
	all := ""
	for i := 1; i < len(cuts); i++ {
		p := utils.Substr2(s, cuts[i-1], cuts[i])
		if utf8.RuneCountInString(p) != cuts[i]-cuts[i-1] || !utf8.ValidString(p) {
			rt.Fatalf("Substr2(%q, %d, %d) = %q", s, cuts[i-1], cuts[i], p)
		}
		all += p
	}
	if all != s {
		rt.Fatalf("consecutive pieces of %q at %v make %q", s, cuts, all)
	}

	want := ""
	for i, r := range s {
		if i == 0 {
			r = unicode.ToUpper(r)
		}
		want += string(r)
	}
	if got := utils.UpperFirst(s); got != want {
		rt.Fatalf("UpperFirst(%q) = %q, want %q", s, got, want)
	}

	sep := vt.Pick(rt, "separator", ".", "/", "::", "页", "->", "a", "ab", "👩", "b0")
	if sep == "::" {
		// "::" overlaps itself: only unambiguous texts
		s = strings.ReplaceAll(s, ":", "-")
	}
	parts := []string{s}
	for i := rapid.IntRange(0, 3).Draw(rt, "separators"); i > 0; i-- {
		parts = append(parts, strings.ReplaceAll(someText(rt, "piece", 0, 4), ":", "-"))
	}
	j := parts[0]
	for _, p := range parts[1:] {
		if sep == "::" && strings.HasSuffix(j, ":") {
			j += "-"
		}
		j += sep + p
	}
	if sep == "::" && strings.Contains(j, ":::") {
		j = strings.ReplaceAll(j, ":::", "::-")
	}
	suffix := ""
	if i := strings.LastIndex(j, sep); i >= 0 {
		suffix = j[i+len(sep):]
	}
	c.Logf("suffix of %q after %q", j, sep)
	if got := utils.GetSuffixName(j, sep); got != suffix {
		rt.Fatalf("GetSuffixName(%q, %q) = %q, want %q", j, sep, got, suffix)
	}
}

func randomStrings(rt *rapid.T, c *vt.C) {
	n := vt.Pick(rt, "size", 0, 1, 2, 3, 7, 16, 64, 255, 256, 1000, 3000)
	if rapid.Bool().Draw(rt, "any size") {
		n = rapid.IntRange(0, 200).Draw(rt, "size")
	}
	kind := rapid.IntRange(-3, 6).Draw(rt, "class")
	c.Logf("RandStr(%d, %d)", n, kind)
	c.NTIf(n > 1)
	s := utils.RandStr(n, kind)
	if len(s) != n {
		rt.Fatalf("RandStr(%d, %d) has length %d", n, kind, len(s))
	}
	const digit, lower, upper = "0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	class := digit + lower + upper
	switch kind {
	case 0:
		class = digit
	case 1:
		class = lower
	case 2:
		class = upper
	}
	if i := strings.IndexFunc(s, func(r rune) bool { return !strings.ContainsRune(class, r) }); i >= 0 {
		rt.Fatalf("RandStr(%d, %d) contains %q", n, kind, s[i:i+1])
	}
}

func randomSpread(rt *rapid.T, c *vt.C) {
	time.Sleep(time.Duration(rapid.Int64Range(0, 1e17).Draw(rt, "start")))
	kind := rapid.IntRange(-1, 4).Draw(rt, "class")
	const n = 20000
	s := utils.RandStr(n, kind)
	gap := vt.Pick[time.Duration](rt, "gap", 1, 2, 1000, 999_999, 1_000_000, 999_999_999, time.Second, 59*time.Second, 24*time.Hour)
	time.Sleep(gap)
	other := utils.RandStr(n, kind)
	c.Logf("RandStr(%d, %d) twice, %v apart", n, kind, gap)
	c.NTIf(true)
	if s == other || s[:24] == other[:24] {
		rt.Fatalf("the strings of class %d from calls %v apart begin with the same %.24q", kind, gap, s)
	}
	seen := make(map[string]int, n)
	for i := 0; i+32 <= n; i++ {
		if j, again := seen[s[i:i+32]]; again {
			rt.Fatalf("RandStr(%d, %d) holds %q twice, at %d and at %d", n, kind, s[i:i+32], j, i)
		}
		seen[s[i:i+32]] = i
	}
	// characters of one class are drawn evenly; the mixed class may favour its small class of digits
	class, low, high := "", 0, 0
	const digit, lower, upper = "0123456789", "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	switch kind {
	case 0:
		class = digit
	case 1:
		class = lower
	case 2:
		class = upper
	default:
		class, low, high = digit+lower+upper, n/78/2, n/30*3/2
	}
	if low == 0 {
		low, high = n/len(class)/2, n/len(class)*3/2
	}
	count := map[byte]int{}
	for i := range n {
		count[s[i]]++
	}
	for i := range class {
		if k := count[class[i]]; k < low || k > high {
			rt.Fatalf("of %d characters of class %d, %d are %q, want %d to %d", n, kind, k, class[i], low, high)
		}
	}
	for d := 1; d <= 64; d++ {
		same := 0
		for i := d; i < n; i++ {
			if s[i] == s[i-d] {
				same++
			}
		}
		if same > high {
			rt.Fatalf("of %d characters of class %d, %d are the same as the one %d before", n, kind, same, d)
		}
	}
}

func switches(rt *rapid.T, c *vt.C) {
	opts := []map[string]bool{{}, {}}
	model := []map[string]bool{{}, {}}
	keys := []string{"", "a", "A", "on", "a "}
	offs := 0
	for i := rapid.IntRange(1, 12).Draw(rt, "steps"); i > 0; i-- {
		m := rapid.IntRange(0, 1).Draw(rt, "map")
		k := keys[rapid.IntRange(0, len(keys)-1).Draw(rt, "key")]
		v := rapid.Bool().Draw(rt, "value")
		c.Logf("%d %q=%v", m, k, v)
		utils.SetSwitchFromOptions(opts[m], k, v)
		model[m][k] = v
		if !v {
			offs++
		}
		for j := range opts {
			for _, k := range keys {
				v, set := model[j][k]
				if got, want := utils.GetSwitchFromOptions(opts[j], k), v || !set; got != want {
					rt.Fatalf("after %s, switch %q of map %d is %v", c.Last(), k, j, got)
				}
				if !utils.GetSwitchFromOptions(nil, k) {
					rt.Fatalf("switch %q of no map is off", k)
				}
			}
			if len(opts[j]) != len(model[j]) {
				rt.Fatalf("after %s, map %d has %d entries, want %d", c.Last(), j, len(opts[j]), len(model[j]))
			}
		}
	}
	c.NTIf(offs > 0)
}

func dateDir(rt *rapid.T, c *vt.C) {
	old := time.Local
	defer func() { time.Local = old }()
	offset := vt.Pick(rt, "zone", 0, 8*3600, -5*3600, 14*3600, -12*3600, 5*3600+1800, 5*3600+2700, -3*3600-1800, 1, -1)
	time.Local = time.FixedZone("drawn", offset)
	d := time.Duration(rapid.Int64Range(0, int64(80*365*24*time.Hour)).Draw(rt, "after"))
	if rapid.Bool().Draw(rt, "midnight") {
		day := time.Duration(rapid.IntRange(1, 30000).Draw(rt, "day")) * 24 * time.Hour
		d = day - time.Duration(offset)*time.Second + time.Duration(vt.Pick(rt, "off", -1, 0, 1, -1000000000, 1000000000, 59000000000))
		if d < 0 {
			d = 0
		}
	}
	time.Sleep(d)
	now := time.Now()
	y, mo, day := now.Date()
	uy, um, ud := now.UTC().Date()
	sinceMidnight := time.Duration((now.Unix()+int64(offset))%86400) * time.Second
	c.Logf("%s", now.Format(time.RFC3339Nano))
	c.NTIf(y != uy || mo != um || day != ud || sinceMidnight < time.Minute || sinceMidnight > 24*time.Hour-time.Minute)
	pad := func(n, width int) string {
		s := strconv.Itoa(n)
		return strings.Repeat("0", max(0, width-len(s))) + s
	}
	want := pad(y, 4) + "/" + pad(int(mo), 2) + "/" + pad(day, 2)
	if got := utils.GetTimeDir(); got != want {
		rt.Fatalf("GetTimeDir() at %s = %q, want %q", now, got, want)
	}
}
