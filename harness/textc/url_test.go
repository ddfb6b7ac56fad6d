package textc

import (
	"fmt"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC34(t *testing.T) {
	vt.Check(t, "links", "prefixes with drawn slashes on both ends and inside, and up to 7 parameters of several types (zeros of every type and as text, near-zeros, empty, slashed and multi-byte texts, nil); non-trivial: a skipped pair, an unpaired parameter, an empty prefix or slashes at an end",
		40000, 1500000, links)
	vt.Check(t, "same site", "paths assembled from slashes, backslashes, tabs, line breaks, other controls, blanks, schemes, hosts, dots and percent escapes; compared with what a browser makes of them; non-trivial: contains a backslash, a dropped character or two slashes",
		40000, 1500000, sameSite)
}

type named struct{ s string }

func (n named) String() string { return n.s }

func links(rt *rapid.T, c *vt.C) {
	piece := func(label string) string {
		return vt.Pick(rt, label, "", "/", "a", "b/c", "d//e", "/f", "g/", "页", "0", "00", "k", ".", "//h", " ", "%2F")
	}
	prefix := piece("prefix") + piece("prefix") + vt.Pick(rt, "tail", "", "", "/", "//")
	if rapid.IntRange(0, 2).Draw(rt, "no prefix") == 0 {
		prefix = strings.Repeat("/", rapid.IntRange(0, 3).Draw(rt, "slashes"))
	}
	var params []interface{}
	var texts []string
	n := rapid.IntRange(0, 7).Draw(rt, "parameters")
	if rapid.IntRange(0, 19).Draw(rt, "many") == 0 {
		n = rapid.IntRange(8, 400).Draw(rt, "parameters")
	}
	for i := 0; i < n; i++ {
		p := vt.Pick[interface{}](rt, "parameter", "a", "bc", 0, "0", "", 1, -1, int64(0), uint8(0), 0.5, 0.0, true, false, nil,
			named{"0"}, named{"n"}, "00", "0.0", "x/y", "/z", "w/", "键", []int{1}, 10, "/", &struct{ A int }{0}, 'r', "0/", "/0",
			" ", "\t", "\u00a0", " 0", "0 ", "-0", "false", "nil", "<nil>", "a=b&c", "%", "%d", "\xff", "a\nb", 1e21, float32(0.1), []byte("0"), [1]int{0}, error(nil), 1<<53+1, int8(-128), complex(0, 0), strings.Repeat("x", 5000))
		params = append(params, p)
		texts = append(texts, fmt.Sprint(p))
	}
	c.Logf("%q %q", prefix, texts)
	got := utils.BuildUrl(prefix, params...)
	if strings.HasPrefix(got, "//") {
		rt.Fatalf("BuildUrl(%q, %q) = %q starts with two slashes", prefix, texts, got)
	}
	core := strings.Trim(prefix, "/")
	var segments []string
	skipped := n%2 == 1
	for i := 0; i+1 < n; i += 2 {
		if texts[i] == "" || texts[i+1] == "0" {
			skipped = true
			continue
		}
		segments = append(segments, texts[i]+"/"+texts[i+1])
	}
	c.NTIf(skipped || core == "" || core != prefix)
	want := ""
	switch {
	case core == "" && len(segments) == 0:
		return // the empty link is unspecified
	case core == "" && strings.HasPrefix(segments[0], "/"):
		c.Label("slash key first")
		if got != "" && got[0] != '/' {
			rt.Fatalf("BuildUrl(%q, %q) = %q is not rooted", prefix, texts, got)
		}
		return
	case core == "":
		want = "/" + strings.Join(segments, "/")
	default:
		want = "/" + strings.Join(append([]string{core}, segments...), "/")
	}
	want = strings.TrimRight(want, "/")
	if got != want {
		rt.Fatalf("BuildUrl(%q, %q) = %q, want %q", prefix, texts, got, want)
	}
}

// leavesSite models what browsers do with a link: control characters and
// blanks are cut off the ends, tabs and line breaks dropped everywhere,
// backslashes read as slashes; two slashes name a host and letters before a
// colon a scheme.
func leavesSite(link string) bool {
	s := strings.TrimFunc(link, func(r rune) bool { return r <= ' ' })
	s = strings.NewReplacer("\t", "", "\r", "", "\n", "", "\\", "/").Replace(s)
	if strings.HasPrefix(s, "//") {
		return true
	}
	if i := strings.IndexAny(s, ":/?#"); i > 0 && s[i] == ':' {
		return true
	}
	return false
}

func sameSite(rt *rapid.T, c *vt.C) {
	var b strings.Builder
	if rapid.IntRange(0, 3).Draw(rt, "rooted") > 0 {
		b.WriteByte('/')
	}
	for i := rapid.IntRange(0, 5).Draw(rt, "parts"); i > 0; i-- {
		b.WriteString(vt.Pick(rt, "part", "/", "\\", "\t", "\n", "\r", "\v", "\f", "\x00", " ", "a", "evil.com", "http:", "javascript:", ".", "..", "%2f", "%5c", "%09", "?", "#", "@", "页", "\u2028", "\u00a0", "\xff"))
	}
	s := b.String()
	c.Logf("%q", s)
	c.NTIf(strings.ContainsAny(s, "\\\t\r\n") || strings.Contains(s, "//"))
	got := utils.IsSameSiteURLPath(s)
	c.LabelIf(got, "accepted")
	if got && leavesSite(s) {
		rt.Fatalf("IsSameSiteURLPath(%q) accepts a link to another host", s)
	}
	if got && !strings.HasPrefix(s, "/") {
		rt.Fatalf("IsSameSiteURLPath(%q) accepts what is no rooted path", s)
	}
	clean := len(s) >= 2 && s[0] == '/' && s[1] != '/' && !strings.ContainsAny(s, "\\\t\r\n")
	if clean && !got {
		rt.Fatalf("IsSameSiteURLPath(%q) rejects a plain rooted path", s)
	}
}
