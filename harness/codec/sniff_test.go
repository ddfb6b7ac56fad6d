package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC37(t *testing.T) {
	vt.Check(t, "content", "leading bytes of every known signature (also cut short, with one byte changed, behind white space or with changed masked bytes), followed by text or binary bytes at drawn places, up to and beyond the 512 bytes that matter, and random bytes; non-trivial: starts like a signature and is decided by the independent rule table",
		40000, 1500000, sniffing)
	vt.Check(t, "image names", "file names with drawn extensions (all listed ones, near misses, other case, blanks, several dots, none, directories with dots); non-trivial: an extension of the list in some spelling",
		15000, 400000, imageNames)
	vt.Exhaustive(t, "short contents", "every content of up to two bytes", func(t *testing.T, count func(string)) {
		var all [][]byte
		all = append(all, nil, []byte{})
		for a := 0; a < 256; a++ {
			all = append(all, []byte{byte(a)})
			for b := 0; b < 256; b++ {
				all = append(all, []byte{byte(a), byte(b)})
			}
		}
		for _, d := range all {
			if msg := classify(d); msg != "" {
				fmt.Println("VT-EXHAUSTIVE-FAIL")
				t.Fatal(msg)
			}
			count(fmt.Sprintf("%x", d))
		}
	})
}

// The rules, independently of net/http: text, image, pdf, video or other.
func rule(d []byte) string {
	if len(d) == 0 {
		return "text"
	}
	if len(d) > 512 {
		d = d[:512]
	}
	ws := d
	for len(ws) > 0 && (ws[0] == ' ' || ws[0] == '\t' || ws[0] == '\n' || ws[0] == '\f' || ws[0] == '\r') {
		ws = ws[1:]
	}
	for _, tag := range htmlTags {
		if len(ws) > len(tag) && bytes.EqualFold(ws[:len(tag)], []byte(tag)) && (ws[len(tag)] == ' ' || ws[len(tag)] == '>') {
			return "text"
		}
	}
	has := func(s string) bool { return bytes.HasPrefix(d, []byte(s)) }
	at := func(i int, s string) bool { return len(d) >= i+len(s) && string(d[i:i+len(s)]) == s }
	switch {
	case bytes.HasPrefix(ws, []byte("<?xml")):
		return "text"
	case has("%PDF-"):
		return "pdf"
	case has("%!PS-Adobe-"):
		return "other"
	case len(d) >= 4 && (has("\xfe\xff") || has("\xff\xfe") || has("\xef\xbb\xbf")):
		return "text"
	case has("\x00\x00\x01\x00"), has("\x00\x00\x02\x00"), has("BM"), has("GIF87a"), has("GIF89a"),
		has("\x89PNG\r\n\x1a\n"), has("\xff\xd8\xff"), has("RIFF") && at(8, "WEBPVP"):
		return "image"
	case has("FORM") && at(8, "AIFF"), has("ID3"), has("OggS\x00"), has("MThd\x00\x00\x00\x06"), has("RIFF") && at(8, "WAVE"):
		return "other"
	case has("RIFF") && at(8, "AVI "), has("\x1a\x45\xdf\xa3"):
		return "video"
	}
	if len(d) >= 12 && at(4, "ftyp") {
		size := int64(binary.BigEndian.Uint32(d))
		if size%4 == 0 && size <= int64(len(d)) {
			for i := int64(8); i < size; i += 4 {
				if i != 12 && at(int(i), "mp4") {
					return "video"
				}
			}
		}
	}
	switch {
	case at(34, "LP"), has("\x00\x01\x00\x00"), has("OTTO"), has("ttcf"), has("wOFF"), has("wOF2"),
		has("\x1f\x8b\x08"), has("PK\x03\x04"), has("Rar!\x1a\x07\x00"), has("Rar!\x1a\x07\x01\x00"), has("\x00asm"):
		return "other"
	}
	for _, b := range ws {
		if b < 0x20 && b != '\t' && b != '\n' && b != '\f' && b != '\r' && b != 0x1b {
			return "other"
		}
	}
	return "text"
}

var htmlTags = []string{"<!DOCTYPE HTML", "<HTML", "<HEAD", "<SCRIPT", "<IFRAME", "<H1", "<DIV", "<FONT", "<TABLE", "<A",
	"<STYLE", "<TITLE", "<B", "<BODY", "<BR", "<P", "<!--"}

func classify(d []byte) string {
	was := bytes.Clone(d)
	want := rule(d)
	got := map[string]bool{"text": utils.IsTextFile(d), "image": utils.IsImageFile(d), "pdf": utils.IsPDFFile(d), "video": utils.IsVideoFile(d)}
	for _, k := range []string{"text", "image", "pdf", "video"} {
		if got[k] != (k == want) {
			return fmt.Sprintf("%q is classified %s: %v, the rules say it is %s", d, k, got[k], want)
		}
	}
	if !bytes.Equal(d, was) {
		return "classification changed its argument"
	}
	return ""
}

var signatures = []string{"<?xml", "%PDF-", "%!PS-Adobe-", "\xfe\xff", "\xff\xfe", "\xef\xbb\xbf", "\x00\x00\x01\x00", "\x00\x00\x02\x00",
	"BM", "GIF87a", "GIF89a", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff", "RIFF????WEBPVP", "RIFF????WAVE", "RIFF????AVI ", "FORM????AIFF", "ID3", "OggS\x00",
	"MThd\x00\x00\x00\x06", "\x1a\x45\xdf\xa3", "\x00\x01\x00\x00", "OTTO", "ttcf", "wOFF", "wOF2", "\x1f\x8b\x08", "PK\x03\x04", "Rar!\x1a\x07\x00",
	"Rar!\x1a\x07\x01\x00", "\x00asm", "mp4", "html", "EOT"}

func sniffing(rt *rapid.T, c *vt.C) {
	var d []byte
	s := "random"
	if kind := rapid.IntRange(0, 9).Draw(rt, "kind"); kind > 0 {
		s = vt.Pick(rt, "signature", signatures...)
		d = []byte(s)
		for i := range d {
			if d[i] == '?' && s[0] != '<' {
				d[i] = rapid.Byte().Draw(rt, "any")
			}
		}
		switch s {
		case "mp4":
			n := rapid.IntRange(0, 8).Draw(rt, "words")
			d = []byte("\x00\x00\x00\x00ftyp")
			for i := 0; i < n; i++ {
				d = append(d, vt.Pick(rt, "brand", "mp41", "isom", "\x00\x00\x02\x00", "mp4\x00", "avc1", "M4V ", "xmp4")...)
			}
			size := len(d) + vt.Pick(rt, "off", 0, 0, 0, -4, 4, 1, 2, 400, 600)
			if rapid.IntRange(0, 9).Draw(rt, "huge") == 0 {
				size = vt.Pick(rt, "size", 0, 0xfffffffc, 0x80000000, 8, 12, 16)
			}
			binary.BigEndian.PutUint32(d, uint32(size))
		case "html":
			d = []byte(vt.Pick(rt, "tag", htmlTags...))
			for i := range d {
				if rapid.IntRange(0, 3).Draw(rt, "lower") == 0 {
					d[i] = bytes.ToLower(d[i : i+1])[0]
				}
			}
			d = append(d, vt.Pick(rt, "end", " ", ">", "x", "\t", "/", "")...)
		case "EOT":
			d = append(vt.Fill(rt, 34), "LP"...)
			if rapid.Bool().Draw(rt, "text") {
				d = append(bytes.Repeat([]byte{'a'}, vt.Pick(rt, "n", 33, 34, 34, 35)), "LP"...)
			}
		}
		switch rapid.IntRange(0, 6).Draw(rt, "edit") {
		case 0:
			d = d[:rapid.IntRange(0, len(d)).Draw(rt, "cut")]
		case 1:
			if len(d) > 0 {
				d[rapid.IntRange(0, len(d)-1).Draw(rt, "at")] ^= vt.Pick[byte](rt, "flip", 0x20, 1, 0x80, 0xff)
			}
		}
		if rapid.IntRange(0, 3).Draw(rt, "white") == 0 {
			d = append([]byte(vt.Pick(rt, "space", " ", "\t\r\n\f ", "\n\n", "\v", "\x00", "\ufeff")), d...)
		}
		if rapid.IntRange(0, 12).Draw(rt, "far") == 0 { // white space up to the end of what matters
			d = append(bytes.Repeat([]byte{' '}, rapid.IntRange(495, 515).Draw(rt, "n")), d...)
		}
	}
	c.Label(s)
	var tail []byte
	switch vt.Weighted(rt, "tail", 3, 3, 3, 1) {
	case 0:
	case 1:
		tail = []byte(vt.Text(0, 30).Draw(rt, "text"))
	case 2: // text with at most one control byte, often around byte 512
		n := rapid.IntRange(0, 700).Draw(rt, "n")
		tail = bytes.Repeat([]byte(vt.Pick(rt, "of", "a", " ", "é")), n)
		if n > 0 && rapid.Bool().Draw(rt, "control") {
			i := rapid.IntRange(0, len(tail)-1).Draw(rt, "at")
			if rapid.Bool().Draw(rt, "edge") {
				i = max(0, min(len(tail)-1, rapid.IntRange(509, 514).Draw(rt, "at")-len(d)))
			}
			tail[i] = byte(rapid.IntRange(0, 0x1f).Draw(rt, "byte"))
		}
	case 3:
		tail = vt.Bytes(1000).Draw(rt, "bytes")
	}
	d = append(d, tail...)
	want := rule(d)
	c.Label("is " + want)
	c.Logf("%s: %q (%d bytes) is %s", s, d[:min(60, len(d))], len(d), want)
	c.NTIf(s != "random" && len(d) > 2)
	if msg := classify(d); msg != "" {
		rt.Fatalf("%s", msg)
	}
	// only the leading bytes matter
	if len(d) >= 512 {
		e := append(bytes.Clone(d[:512]), vt.Fill(rt, rapid.IntRange(0, 600).Draw(rt, "other tail"))...)
		if rule(e) != want {
			vt.Harness("the rule table looks beyond the leading bytes")
		}
		if msg := classify(e); msg != "" {
			rt.Fatalf("with another tail: %s", msg)
		}
	}
}

func imageNames(rt *rapid.T, c *vt.C) {
	exts := []string{"jpeg", "jpg", "gif", "png", "bmp", "tif", "tiff"}
	listed := rapid.IntRange(0, 3).Draw(rt, "listed") > 0
	var ext string
	if listed {
		ext = vt.Pick(rt, "ext", exts...)
		b := []byte(ext)
		for i := range b {
			if rapid.IntRange(0, 2).Draw(rt, "upper") == 0 {
				b[i] -= 'a' - 'A'
			}
		}
		ext = string(b)
		ext = vt.Pick(rt, "before", "", "", "", " ", "\t", "\u3000") + ext + vt.Pick(rt, "after", "", "", "", " ", "\r\n", "\u00a0", "  ")
		switch rapid.IntRange(0, 5).Draw(rt, "spoil") {
		case 0:
			ext += vt.Pick(rt, "more", "x", "g", "f", "/", "~", "\x00", "é")
			listed = false
		case 1:
			ext = vt.Pick(rt, "more", "x", "j", "\x00", "/", "ı") + ext
			listed = false
		case 2:
			ext = ext[:len(ext)/2] + " " + ext[len(ext)/2:]
			listed = false
		}
	} else {
		ext = vt.Pick(rt, "ext", "", "webp", "svg", "ico", "jpe", "jp", "gi", "ti", "tifff", "pngg", "heic", "txt", "tıff", "gıf", "ＪＰＧ", "jpg/", "image", "mp4")
	}
	stem := vt.Pick(rt, "stem", "", "a", "a.png", "dir.jpg/file", "C:\\x", "日本", ".", "..", "a b", "x.tar", "./")
	var name string
	switch rapid.IntRange(0, 3).Draw(rt, "form") {
	case 0:
		name = ext // no dot at all: the whole name is its last part
	case 1:
		name = stem + vt.Text(0, 6).Draw(rt, "text") + "." + ext
	default:
		name = stem + "." + ext
	}
	// independently: the part after the last dot, blanks trimmed, ASCII case folded
	last := name
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '.' {
			last = name[i+1:]
			break
		}
	}
	last = trimBlank(last)
	want := false
	for _, e := range exts {
		want = want || len(last) == len(e) && lower(last) == e
	}
	c.Logf("IsImage(%q)", name)
	c.NTIf(want || listed)
	c.LabelIf(want, "image")
	if got := utils.IsImage(name); got != want {
		rt.Fatalf("IsImage(%q) is %v", name, got)
	}
}

func lower(s string) string {
	b := []byte(s)
	for i, x := range b {
		if 'A' <= x && x <= 'Z' {
			b[i] = x + 'a' - 'A'
		}
	}
	return string(b)
}

func trimBlank(s string) string {
	blanks := []string{" ", "\t", "\n", "\v", "\f", "\r", "\u0085", "\u00a0", "\u1680", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}
	for r := '\u2000'; r <= '\u200a'; r++ {
		blanks = append(blanks, string(r))
	}
	for again := true; again; {
		again = false
		for _, b := range blanks {
			if n := len(b); len(s) >= n && s[:n] == b {
				s, again = s[n:], true
			}
			if n := len(b); len(s) >= n && s[len(s)-n:] == b {
				s, again = s[:len(s)-n], true
			}
		}
	}
	return s
}
