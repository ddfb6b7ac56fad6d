package fsh

import (
	"encoding/csv"
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC29(t *testing.T) {
	vt.Check(t, "histories", "a file that is missing, empty, or holds rows in a hand-written CSV spelling (line feeds or CRLF, needless quotes, blank lines, last line open), then 1 to 12 rows of 1 to 6 fields (commas, quotes, line feeds, blanks, empty, up to 20000 bytes) written and read back after each; non-trivial: at least two rows with a field that needs quoting",
		3500, 150000, csvHistories)
	vt.Check(t, "malformed", "CSV files spoiled by a stray or unclosed quote or a row of another length at a drawn place, and missing files and directories: reading gives nothing; non-trivial: at least one good row before the bad one",
		3000, 100000, csvMalformed)
	vt.Check(t, "write faults", "a row written to a full device, to a file with room for only part of it, to a directory, below a missing directory and to a read-only file must give an error, and what was there before must still be read; non-trivial: part of the row fits",
		2000, 80000, csvFaults)
	vt.Check(t, "huge tables", "tables of 2 to 16 MiB with fields of up to 3 MiB, read, then one or two rows of up to 6 MiB written and all read again; non-trivial: all",
		2, 60, hugeTables)
}

func csvField(rt *rapid.T) string {
	var s string
	switch vt.Weighted(rt, "field", 5, 4, 3, 1) {
	case 0:
		s = vt.Pick(rt, "text", "", " ", ",", `"`, `""`, "\n", "\n\n", ",,", `","`, " lead", "trail ", "\tx", `\.`, `\"`, "'", "#", ";", "=1+1", "a\nb", `a"b`, "é,世", "\ufeff", "\u00a0", "\x00", "\xff", "x\x1ay", "\u2028", "\u0085")
	case 1:
		s = vt.Text(0, 8).Draw(rt, "text")
	case 2:
		for n := rapid.IntRange(0, 6).Draw(rt, "n"); n > 0; n-- {
			s += vt.Pick(rt, "c", ",", `"`, "\n", " ", "a", "é")
		}
	case 3:
		s = strings.Repeat(vt.Pick(rt, "unit", "a", `"`, "\n", "ab,", "日本"), rapid.IntRange(1000, 7000).Draw(rt, "times"))
	}
	return strings.ReplaceAll(s, "\r", "")
}

func csvRow(rt *rapid.T, n int) []string {
	for {
		row := make([]string, n)
		for i := range row {
			row[i] = csvField(rt)
		}
		if n > 1 || row[0] != "" {
			return row
		}
	}
}

func needsQuotes(rows [][]string) int {
	n := 0
	for _, r := range rows {
		if strings.ContainsAny(strings.Join(r, ""), ",\"\n") {
			n++
		}
	}
	return n
}

// csvText spells rows by hand.
func csvText(rt *rapid.T, rows [][]string, open bool) string {
	var b strings.Builder
	if rapid.IntRange(0, 5).Draw(rt, "leading blank") == 0 {
		b.WriteString(vt.Pick(rt, "end", "\n", "\r\n"))
	}
	for i, r := range rows {
		for j, f := range r {
			if j > 0 {
				b.WriteByte(',')
			}
			if strings.ContainsAny(f, ",\"\n") || rapid.Bool().Draw(rt, "quote") {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		if i == len(rows)-1 && open {
			if rapid.IntRange(0, 3).Draw(rt, "half") == 0 {
				b.WriteByte('\r') // half a line break, which readers drop at the end
			}
			break
		}
		b.WriteString(vt.Pick(rt, "end", "\n", "\r\n"))
		if rapid.IntRange(0, 9).Draw(rt, "blank") == 0 {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func sameRows(got *[][]string, want [][]string) string {
	if got == nil {
		if len(want) == 0 {
			return ""
		}
		return fmt.Sprintf("nothing is read, want %d rows", len(want))
	}
	if len(*got) != len(want) {
		return fmt.Sprintf("%d rows are read: %.300q, want %d: %.300q", len(*got), *got, len(want), want)
	}
	for i := range want {
		g, w := (*got)[i], want[i]
		if len(g) != len(w) {
			return fmt.Sprintf("row %d is %.200q, want %.200q", i, g, w)
		}
		for j := range w {
			if g[j] != w[j] {
				return fmt.Sprintf("row %d field %d is %.200q, want %.200q", i, j, g[j], w[j])
			}
		}
	}
	return ""
}

func csvStart(rt *rapid.T, c *vt.C, path string, n int) (rows [][]string) {
	switch vt.Weighted(rt, "start", 3, 1, 4) {
	case 0:
		c.Logf("no file")
	case 1:
		c.Logf("empty file")
		ok(os.WriteFile(path, nil, 0o644))
	case 2:
		for k := rapid.IntRange(1, 4).Draw(rt, "rows"); k > 0; k-- {
			rows = append(rows, csvRow(rt, n))
		}
		text := csvText(rt, rows, rapid.IntRange(0, 2).Draw(rt, "open") == 0)
		c.Logf("file %.300q", text)
		ok(os.WriteFile(path, []byte(text), 0o644))
	}
	return
}

func csvHistories(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	path := vt.Pick(rt, "path", "f.csv", "./ö x", root+"/abs.csv")
	n := rapid.IntRange(1, 6).Draw(rt, "fields")
	rows := csvStart(rt, c, path, n)
	if d := sameRows(utils.ReadCsv(path), rows); d != "" {
		rt.Fatalf("before any write %s", d)
	}
	for k := rapid.IntRange(1, 12).Draw(rt, "writes"); k > 0; k-- {
		row := csvRow(rt, n)
		c.Logf("WriteCsv(%.200q)", row)
		was := append([]string{}, row...)
		if err := utils.WriteCsv(path, row); err != nil {
			rt.Fatalf("writing %.200q: %v", row, err)
		}
		rows = append(rows, was)
		if d := sameRows(utils.ReadCsv(path), rows); d != "" {
			rt.Fatalf("after %s %s", c.Last(), d)
		}
		for i := range row {
			if row[i] != was[i] {
				rt.Fatalf("writing changed its argument")
			}
		}
	}
	c.NTIf(needsQuotes(rows) >= 2)
	// another reader agrees
	f := left(rt, path, os.Open)
	defer f.Close()
	other, err := csv.NewReader(f).ReadAll()
	if d := sameRows(&other, rows); err != nil || d != "" {
		rt.Fatalf("the standard reader: %v, %s", err, d)
	}
}

func csvMalformed(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	n := rapid.IntRange(1, 4).Draw(rt, "fields")
	var rows [][]string
	for k := rapid.IntRange(0, 4).Draw(rt, "rows"); k > 0; k-- {
		rows = append(rows, csvRow(rt, n))
	}
	path := "f.csv"
	head := csvText(rt, rows, false)
	kind := vt.Weighted(rt, "kind", 2, 2, 2, 2, 1, 1)
	var bad, tail string
	switch kind {
	case 0: // a quote inside an unquoted field
		bad = strings.Repeat("x,", n-1) + vt.Pick(rt, "bare", `a"b`, `a"`, `x "q" y`) + "\n"
	case 1: // text after a closing quote
		bad = strings.Repeat("x,", n-1) + vt.Pick(rt, "after", `"a"b`, `"a" "b"`, `"" x`) + "\n"
	case 2: // never closed
		bad = strings.Repeat("x,", n-1) + `"` + vt.Pick(rt, "open", "", "a", "a\nb", `a""`, ",", "x\n\n")
	case 3: // another length
		if len(rows) == 0 {
			rows = append(rows, csvRow(rt, n))
			head = csvText(rt, rows, false)
		}
		m := rapid.IntRange(1, 5).Filter(func(m int) bool { return m != n }).Draw(rt, "length")
		bad = csvText(rt, [][]string{csvRow(rt, m)}, rapid.Bool().Draw(rt, "open"))
	case 4:
		path = vt.Pick(rt, "missing", "nope.csv", "no/f.csv", "")
	case 5:
		path = "."
	}
	if kind < 2 || kind == 3 {
		if !strings.HasSuffix(bad, "\n") {
			tail = ""
		} else {
			for k := rapid.IntRange(0, 2).Draw(rt, "after"); k > 0; k-- {
				tail += csvText(rt, [][]string{csvRow(rt, n)}, false)
			}
		}
	}
	if kind < 4 {
		ok(os.WriteFile(path, []byte(head+bad+tail), 0o644))
	}
	c.Logf("kind %d: %.300q", kind, head+bad+tail)
	c.NTIf(kind < 4 && len(rows) > 0)
	if got := utils.ReadCsv(path); got != nil && len(*got) > 0 || got != nil && kind < 4 {
		rt.Fatalf("reading %q (%.300q) gives %.300q", path, head+bad+tail, *got)
	}
}

func csvFaults(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	n := rapid.IntRange(1, 4).Draw(rt, "fields")
	row := csvRow(rt, n)
	switch vt.Weighted(rt, "fault", 1, 6, 1, 1, 1) {
	case 0:
		c.Logf("row %.200q to a full device", row)
		c.NT()
		if err := utils.WriteCsv("/dev/full", row); err == nil {
			rt.Fatalf("writing %.200q to a full device succeeds", row)
		}
	case 1:
		rows := csvStart(rt, c, "f.csv", n)
		// what is needed: write the row elsewhere
		old, _ := os.ReadFile("f.csv")
		ok(os.WriteFile("g.csv", old, 0o644))
		if err := utils.WriteCsv("g.csv", row); err != nil {
			rt.Fatalf("writing %.200q: %v", row, err)
		}
		full := int(left(rt, "g.csv", os.Stat).Size())
		limit := rapid.IntRange(len(old), full+1).Draw(rt, "limit")
		c.Logf("row %.200q with room for %d of %d bytes", row, limit-len(old), full-len(old))
		c.NTIf(limit > len(old) && limit < full)
		var err error
		limited(fileSize, uint64(limit), func() { err = utils.WriteCsv("f.csv", row) })
		if limit < full && err == nil {
			rt.Fatalf("writing %d bytes with room for %d succeeds", full-len(old), limit-len(old))
		}
		if limit >= full && err != nil {
			rt.Fatalf("writing %d bytes with room for %d: %v", full-len(old), limit-len(old), err)
		}
		now := left(rt, "f.csv", os.ReadFile)
		if len(now) < len(old) || string(now[:len(old)]) != string(old) {
			rt.Fatalf("a failed write changed the earlier rows: %.200q, were %.200q", now, old)
		}
		if limit >= full {
			if d := sameRows(utils.ReadCsv("f.csv"), append(rows, row)); d != "" {
				rt.Fatalf("%s", d)
			}
		}
	case 2:
		c.Logf("row %.200q to a directory", row)
		if err := utils.WriteCsv(".", row); err == nil {
			rt.Fatalf("writing to a directory succeeds")
		}
	case 3:
		c.Logf("row %.200q below a missing directory", row)
		if err := utils.WriteCsv("missing/f.csv", row); err == nil {
			rt.Fatalf("writing below a missing directory succeeds")
		}
	case 4:
		if os.Geteuid() == 0 {
			return
		}
		c.Logf("row %.200q to a read-only file", row)
		ok(os.WriteFile("f.csv", []byte("x\n"), 0o444))
		if err := utils.WriteCsv("f.csv", row); err == nil {
			rt.Fatalf("writing to a read-only file succeeds")
		}
		if b := left(rt, "f.csv", os.ReadFile); string(b) != "x\n" {
			rt.Fatalf("a read-only file now holds %q", b)
		}
	}
}
