package codec

import (
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC25(t *testing.T) {
	vt.Check(t, "md5", "bytes of 0 to 70000 (rarely 3 MiB), given as string, slice with and without prefix bytes, file, named pipe and reader splitting them at drawn points (empty reads, data together with EOF), and chunk verification with the digest, near digests and other spellings; non-trivial: more than one block and a reader with at least two pieces",
		2500, 100000, digests)
	vt.Check(t, "base64", "bytes of 0 to 5000 (rarely 1 MiB) in both encoders against bit-by-bit encoding and all three decoders; image files of those bytes; non-trivial: length not divisible by three",
		2500, 100000, base64s)
	vt.Check(t, "json", "nested maps of texts (escapes, multi-byte, HTML characters), numbers, booleans, nulls and lists, and maps of int32 written by the helper or by hand with white space and escapes; non-trivial: at least two entries",
		2500, 100000, jsons)
	vt.Check(t, "huge", "bytes of 3 to 128 MiB (thorough: 2 GiB) digested as file, reader, slice and string and in base64 up to 32 MiB; non-trivial: all",
		4, 40, hugeDigests)
}

// hugeDigests digests more than any buffer holds, some of it holes in the file.
func hugeDigests(rt *rapid.T, c *vt.C) {
	most := 26
	if vt.Thorough() {
		most = 30
	}
	n := int64(3)<<20 + int64(rapid.IntRange(-1, 1).Draw(rt, "off")) + int64(1)<<rapid.IntRange(10, most).Draw(rt, "log size")
	if rapid.Bool().Draw(rt, "odd") {
		n += int64(vt.Mix(rapid.Uint64().Draw(rt, "more")) % uint64(n))
	}
	dir := must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "md5-"))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f")
	f := must(os.Create(path))
	for i := 0; i < 8; i++ {
		b := make([]byte, min(n, 1<<20))
		rand.New(rand.NewSource(rapid.Int64().Draw(rt, "content"))).Read(b)
		at := int64(vt.Mix(rapid.Uint64().Draw(rt, "where")) % uint64(n-int64(len(b))+1))
		if i == 0 {
			at = n - int64(len(b))
		}
		must(f.WriteAt(b, at))
	}
	ok(f.Close())
	f = must(os.Open(path))
	defer f.Close()
	h := md5.New()
	must(io.Copy(h, f))
	want := hexOf(h.Sum(nil))
	c.Logf("MD5 of a file of %d bytes", n)
	c.NT()
	if got, err := utils.FileMd5(path); err != nil || got != want {
		rt.Fatalf("FileMd5 of %d bytes is %q, %v, want %q", n, got, err, want)
	}
	must(f.Seek(0, io.SeekStart))
	if got := utils.ComputeFileMD5(f); got != want {
		rt.Fatalf("ComputeFileMD5 of %d bytes is %q, want %q", n, got, want)
	}
	if n > 40<<20 {
		return
	}
	data := must(os.ReadFile(path))
	if got := utils.MD5V(data); got != want {
		rt.Fatalf("MD5V of %d bytes is %q, want %q", n, got, want)
	}
	if got := utils.Md5(string(data)); got != want {
		rt.Fatalf("Md5 of %d bytes is %q, want %q", n, got, want)
	}
	if got := utils.Md5Crypt(string(data)); got != want {
		rt.Fatalf("Md5Crypt of %d bytes is %q, want %q", n, got, want)
	}
	if !utils.CheckMd5(data, want) || utils.CheckMd5(data[:n-1], want) {
		rt.Fatalf("CheckMd5 errs on %d bytes", n)
	}
	want = base64.StdEncoding.EncodeToString(data)
	if got := utils.Base64EncodeToByte(data); got != want {
		rt.Fatalf("Base64EncodeToByte of %d bytes is %d characters, want %d", n, len(got), len(want))
	}
	if got := utils.Base64Encode(string(data)); got != want {
		rt.Fatalf("Base64Encode of %d bytes is %d characters, want %d", n, len(got), len(want))
	}
	if got := utils.Base64DecodeToByte(want); !bytes.Equal(got, data) {
		rt.Fatalf("Base64DecodeToByte of %d characters is %d bytes, want %d", len(want), len(got), n)
	}
	if got := utils.Base64Decode(want); !bytes.Equal(got, data) {
		rt.Fatalf("Base64Decode of %d characters is %d bytes, want %d", len(want), len(got), n)
	}
	if got := utils.Base64DecodeToString(want); got != string(data) {
		rt.Fatalf("Base64DecodeToString of %d characters is %d bytes, want %d", len(want), len(got), n)
	}
	if got := utils.ImageFileToBase64(path); got[min(len(got), len(dataURL.FindString(got))):] != want {
		rt.Fatalf("ImageFileToBase64 of %d bytes is %d characters, want %d", n, len(got), len(want))
	}
}

const hexDigits = "0123456789abcdef"

func hexOf(b []byte) string {
	var s strings.Builder
	for _, x := range b {
		s.WriteByte(hexDigits[x>>4])
		s.WriteByte(hexDigits[x&15])
	}
	return s.String()
}

// pieces delivers data in drawn pieces.
type pieces struct {
	data    []byte
	sizes   []int
	eofWith bool
	reads   int
	fail    error // met instead of the end
}

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	end := io.EOF
	if p.fail != nil {
		end = p.fail
	}
	if len(p.data) == 0 {
		return 0, end
	}
	n := len(p.data)
	if len(p.sizes) > 0 {
		n = min(n, p.sizes[0])
		p.sizes = p.sizes[1:]
	}
	n = copy(b, p.data[:n])
	p.data = p.data[n:]
	if len(p.data) == 0 && p.eofWith {
		return n, end
	}
	return n, nil
}

// fromPipe makes a named pipe that delivers data to the first reader and calls f with its path.
func fromPipe(path string, data []byte, f func(path string)) {
	ok(syscall.Mkfifo(path, 0o600))
	written := make(chan struct{})
	go func() {
		defer close(written)
		if w, err := os.OpenFile(path, os.O_WRONLY, 0); err == nil { // waits for the reader
			w.Write(data)
			w.Close()
		}
	}()
	defer func() { <-written }()
	defer func() { // a reader for the writer that never met one
		if r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			defer r.Close()
			for {
				select {
				case <-written:
					return
				default:
					io.Copy(io.Discard, io.LimitReader(r, 1<<16))
				}
			}
		}
	}()
	f(path)
}

func digests(rt *rapid.T, c *vt.C) {
	data := vt.Big(70000, 3<<20, 150).Draw(rt, "data")
	sum := md5.Sum(data)
	want := hexOf(sum[:])
	c.Logf("MD5 of %d bytes %.32x…", len(data), data)
	was := bytes.Clone(data)
	is := func(what, got, want string) {
		if got != want {
			rt.Fatalf("%s of %.99x is %q, want %q", what, data, got, want)
		}
	}
	is("Md5Crypt", utils.Md5Crypt(string(data)), want)
	is("Md5", utils.Md5(string(data)), want)
	is("MD5V", utils.MD5V(data), want)
	extra := make([]byte, rapid.IntRange(0, 20).Draw(rt, "extra"), 64)
	for i := range extra {
		extra[i] = rapid.Byte().Draw(rt, "x")
	}
	c.Logf("prefix %x", extra)
	keep := bytes.Clone(extra)
	is("MD5V with prefix", utils.MD5V(data, extra...), hexOf(extra)+want)
	if !bytes.Equal(extra, keep) {
		rt.Fatalf("MD5V changed its arguments to %x, were %x", extra, keep)
	}

	p := &pieces{data: bytes.Clone(data), eofWith: rapid.Bool().Draw(rt, "eof with data")}
	for left := len(data); left > 0 && len(p.sizes) < 30; {
		n := rapid.IntRange(0, left).Draw(rt, "piece")
		if rapid.Bool().Draw(rt, "short") {
			n = min(left, rapid.IntRange(0, 130).Draw(rt, "piece"))
		}
		p.sizes = append(p.sizes, n)
		left -= n
	}
	c.Logf("pieces %v", p.sizes)
	broken := &pieces{data: bytes.Clone(data), sizes: slices.Clone(p.sizes), eofWith: p.eofWith, fail: vt.Pick(rt, "failure", io.ErrUnexpectedEOF, error(syscall.EIO), fmt.Errorf("cut off: %w", io.EOF))}
	is("ComputeFileMD5 of a splitting reader", utils.ComputeFileMD5(p), want)
	is("ComputeFileMD5 of a reader that fails ("+broken.fail.Error()+")", utils.ComputeFileMD5(broken), "")
	is("ComputeFileMD5 of a buffer", utils.ComputeFileMD5(bytes.NewReader(data)), want)
	c.NTIf(len(data) > 64 && p.reads >= 3)

	dir := must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "md5-"))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f")
	ok(os.WriteFile(path, data, 0o600))
	got, err := utils.FileMd5(path)
	if err != nil {
		rt.Fatalf("FileMd5: %v", err)
	}
	is("FileMd5", got, want)
	if got, err := utils.FileMd5(path + "x"); err == nil {
		rt.Fatalf("FileMd5 of a missing file is %q without an error", got)
	}
	if got, err := utils.FileMd5(dir); err == nil {
		rt.Fatalf("FileMd5 of a directory is %q without an error", got)
	}
	if rapid.IntRange(0, 7).Draw(rt, "fifo") == 0 { // a file whose size says nothing
		c.Label("named pipe")
		fromPipe(dir+"/p", data, func(path string) {
			got, err := utils.FileMd5(path)
			if err != nil {
				rt.Fatalf("FileMd5 of a named pipe: %v", err)
			}
			is("FileMd5 of a named pipe", got, want)
		})
	}
	f := must(os.Open(path))
	is("ComputeFileMD5 of a file", utils.ComputeFileMD5(f), want)
	f.Close()

	try := func(d string, match bool) {
		c.Logf("CheckMd5 %q", d)
		if utils.CheckMd5(data, d) != match {
			rt.Fatalf("CheckMd5(%.99x, %q) is not %v", data, d, match)
		}
	}
	try(want, true)
	switch vt.Weighted(rt, "near", 3, 1, 1, 1, 1, 1) {
	case 0:
		i := rapid.IntRange(0, 31).Draw(rt, "at")
		b := []byte(want)
		b[i] = hexDigits[(strings.IndexByte(hexDigits, b[i])+rapid.IntRange(1, 15).Draw(rt, "by"))%16]
		try(string(b), false)
	case 1:
		try(want[:rapid.IntRange(0, 31).Draw(rt, "to")], false)
	case 2:
		try(want+vt.Pick(rt, "tail", "0", " ", "\n", want), false)
	case 3:
		if up := strings.ToUpper(want); up != want {
			try(up, false)
		}
	case 4:
		other := vt.Bytes(100).Draw(rt, "other")
		s := md5.Sum(other)
		try(hexOf(s[:]), bytes.Equal(other, data))
	case 5:
		try(string(sum[:]), false)
	}
	if !bytes.Equal(data, was) {
		rt.Fatalf("a digest helper changed its argument")
	}
}

func must[T any](v T, err error) T {
	if err != nil {
		vt.Harness("%v", err)
	}
	return v
}

func ok(err error) {
	if err != nil {
		vt.Harness("%v", err)
	}
}

const b64Alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func refBase64(b []byte) string {
	var s strings.Builder
	for i := 0; i < len(b); i += 3 {
		var v uint32
		n := min(3, len(b)-i)
		for j := 0; j < 3; j++ {
			v <<= 8
			if j < n {
				v |= uint32(b[i+j])
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				s.WriteByte(b64Alphabet[v>>(18-6*j)&63])
			} else {
				s.WriteByte('=')
			}
		}
	}
	return s.String()
}

var dataURL = regexp.MustCompile(`^data:image/[a-z0-9.+-]+;base64,`)

func base64s(rt *rapid.T, c *vt.C) {
	data := vt.Big(5000, 1<<20, 200).Draw(rt, "data")
	c.Logf("base64 of %d bytes %.64x…", len(data), data)
	c.NTIf(len(data)%3 != 0)
	want := refBase64(data)
	was := bytes.Clone(data)
	if got := utils.Base64Encode(string(data)); got != want {
		rt.Fatalf("Base64Encode(%.99x) is %.99q, want %.99q", data, got, want)
	}
	if got := utils.Base64EncodeToByte(data); got != want {
		rt.Fatalf("Base64EncodeToByte(%.99x) is %.99q, want %.99q", data, got, want)
	}
	if got := utils.Base64DecodeToString(want); got != string(data) {
		rt.Fatalf("Base64DecodeToString(%.99q) is %.99x, want %.99x", want, got, data)
	}
	a, b := utils.Base64Decode(want), utils.Base64DecodeToByte(want)
	if !bytes.Equal(a, data) || !bytes.Equal(b, data) {
		rt.Fatalf("decoding %.99q gives %.99x and %.99x, want %.99x", want, a, b, data)
	}
	if len(a) > 0 { // each result is the caller's own
		a[0] ^= 0xff
		if !bytes.Equal(b, data) || !bytes.Equal(utils.Base64Decode(want), data) {
			rt.Fatalf("decoded bytes are shared")
		}
	}
	if !bytes.Equal(data, was) {
		rt.Fatalf("encoding changed its argument")
	}
	dir := must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "b64-"))
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, vt.Pick(rt, "name", "a.png", "b.jpg", "c", "ü .gif"))
	ok(os.WriteFile(path, data, 0o600))
	got := utils.ImageFileToBase64(path)
	head := dataURL.FindString(got)
	if head == "" || got[len(head):] != want {
		rt.Fatalf("ImageFileToBase64 of %.99x is %.99q", data, got)
	}
	if got := utils.ImageFileToBase64(path + "x"); got != "" {
		rt.Fatalf("ImageFileToBase64 of a missing file is %q", got)
	}
}

// value draws a JSON value; the second result is what decoding with UseNumber must give.
func value(rt *rapid.T, depth int) (any, any) {
	switch vt.Weighted(rt, "kind", 4, 3, 3, 1, 1, depth, depth) {
	case 0:
		s := jsonText(rt)
		return s, s
	case 1:
		n := rapid.Int64().Draw(rt, "int")
		if rapid.Bool().Draw(rt, "edge") {
			n = vt.Pick[int64](rt, "int", 0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53+1, -(1<<53 + 1), math.MaxInt32)
		}
		if rapid.Bool().Draw(rt, "narrow") {
			return int32(n), json.Number(fmt.Sprint(int32(n)))
		}
		return n, json.Number(fmt.Sprint(n))
	case 2:
		f := rapid.Float64().Draw(rt, "float")
		if math.IsInf(f, 0) || math.IsNaN(f) {
			f = 0.5
		}
		return f, f
	case 3:
		b := rapid.Bool().Draw(rt, "bool")
		return b, b
	case 4:
		return nil, nil
	case 5:
		n := rapid.IntRange(0, 3).Draw(rt, "n")
		a, b := make([]any, n), make([]any, n)
		for i := range a {
			a[i], b[i] = value(rt, depth-1)
		}
		return a, b
	}
	return object(rt, depth-1)
}

func jsonText(rt *rapid.T) string {
	if rapid.Bool().Draw(rt, "awkward") {
		return vt.Pick(rt, "text", "", `"`, `\`, `\u0041`, "</script>", "<&>", "\u2028\u2029", "\x00", "\x7f", "a\nb\tc\r", "null", "{}", "0", "'", "😀", "\ufeff")
	}
	return vt.ValidText(0, 12).Draw(rt, "text")
}

func object(rt *rapid.T, depth int) (map[string]any, map[string]any) {
	n := rapid.IntRange(0, 5).Draw(rt, "entries")
	a, b := map[string]any{}, map[string]any{}
	for i := 0; i < n; i++ {
		k := jsonText(rt)
		a[k], b[k] = value(rt, depth)
	}
	return a, b
}

func sameJSON(got, want any) bool {
	switch w := want.(type) {
	case float64:
		n, isN := got.(json.Number)
		if !isN {
			return false
		}
		f, err := n.Float64()
		return err == nil && f == w
	case json.Number:
		n, isN := got.(json.Number)
		return isN && n == w
	case []any:
		g, isL := got.([]any)
		if !isL || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameJSON(g[i], w[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, isM := got.(map[string]any)
		if !isM || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, has := g[k]
			if !has || !sameJSON(x, v) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(got, want)
}

func decode(rt *rapid.T, s string) any {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		rt.Fatalf("%q is not JSON: %v", s, err)
	}
	if _, err := d.Token(); err != io.EOF {
		rt.Fatalf("%q has more than one JSON value", s)
	}
	return v
}

func jsons(rt *rapid.T, c *vt.C) {
	m, want := object(rt, 3)
	c.Logf("map %#v", m)
	c.NTIf(len(m) >= 2)
	s := utils.MapToJsonString(m)
	if !sameJSON(decode(rt, s), want) {
		rt.Fatalf("MapToJsonString(%#v) is %q", m, s)
	}
	v, wantV := value(rt, 3)
	c.Logf("value %#v", v)
	if s := utils.Map2JsonString(v); !sameJSON(decode(rt, s), wantV) {
		rt.Fatalf("Map2JsonString(%#v) is %q", v, s)
	}
	if s := utils.Map2JsonString(m); !sameJSON(decode(rt, s), want) {
		rt.Fatalf("Map2JsonString(%#v) is %q", m, s)
	}
	ints, wantI := map[string]int32{}, map[string]any{}
	for n := rapid.IntRange(0, 6).Draw(rt, "ints"); n > 0; n-- {
		x := rapid.Int32().Draw(rt, "int")
		if rapid.Bool().Draw(rt, "edge") {
			x = vt.Pick[int32](rt, "int", 0, 1, -1, math.MaxInt32, math.MinInt32)
		}
		k := jsonText(rt)
		ints[k], wantI[k] = x, json.Number(fmt.Sprint(x))
	}
	c.Logf("ints %#v", ints)
	s = utils.MapIntToJsonString(ints)
	if !sameJSON(decode(rt, s), wantI) {
		rt.Fatalf("MapIntToJsonString(%#v) is %q", ints, s)
	}
	if got := utils.JsonStringToMap(s); len(got) != len(ints) || len(ints) > 0 && !reflect.DeepEqual(got, ints) {
		rt.Fatalf("JsonStringToMap(%q) is %#v, want %#v", s, got, ints)
	}
	// the same map written by hand
	ws := func() string { return vt.Pick(rt, "space", "", "", " ", "\n", "\t\r\n ") }
	var h strings.Builder
	h.WriteString(ws() + "{" + ws())
	first := true
	for _, k := range sorted(ints) {
		if !first {
			h.WriteString("," + ws())
		}
		first = false
		h.WriteByte('"')
		for _, r := range k {
			if r < 0x20 || r == '"' || r == '\\' || r < 0x10000 && rapid.IntRange(0, 3).Draw(rt, "escape") == 0 {
				fmt.Fprintf(&h, vt.Pick(rt, "hex", `\u%04x`, `\u%04X`), r)
			} else {
				h.WriteRune(r)
			}
		}
		fmt.Fprintf(&h, `"%s:%s%d%s`, ws(), ws(), ints[k], ws())
	}
	h.WriteString("}" + ws())
	c.Logf("by hand %q", h.String())
	if got := utils.JsonStringToMap(h.String()); len(got) != len(ints) || len(ints) > 0 && !reflect.DeepEqual(got, ints) {
		rt.Fatalf("JsonStringToMap(%q) is %#v, want %#v", h.String(), got, ints)
	}
}

func sorted(m map[string]int32) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
