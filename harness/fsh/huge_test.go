package fsh

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

// huge draws content of 2 to 64 MiB (up to 512 MiB in the thorough tier), often by a little more or
// less than a power of two.
func huge(rt *rapid.T, most int) []byte {
	if vt.Thorough() {
		most += 3
	}
	n := 1 << rapid.IntRange(21, most).Draw(rt, "log size")
	if rapid.Bool().Draw(rt, "odd") {
		n += int(vt.Mix(rapid.Uint64().Draw(rt, "more")) % uint64(n))
	} else {
		n += rapid.IntRange(-1, 1).Draw(rt, "off")
	}
	b := make([]byte, n)
	r := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "seed")))
	r.Read(b)
	if rapid.Bool().Draw(rt, "repetitive") {
		for i := n / 4; i < n-n/4; i += 1 << 10 {
			copy(b[i:i+1<<10], b[:1<<10])
		}
	}
	return b
}

func same(rt *rapid.T, what, path string, want []byte) {
	got, err := os.ReadFile(path)
	if err != nil {
		rt.Fatalf("%s: %v", what, err)
	}
	if !bytes.Equal(got, want) {
		at := 0
		for at < min(len(got), len(want)) && got[at] == want[at] {
			at++
		}
		rt.Fatalf("%s: %d bytes instead of %d, different from byte %d on", what, len(got), len(want), at)
	}
}

func hugeFiles(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	data := huge(rt, 25)
	c.Logf("a file of %d bytes", len(data))
	c.NT()
	ok(os.WriteFile("a", data, 0o644))
	if rapid.Bool().Draw(rt, "older") {
		ok(os.WriteFile("b", []byte("older"), 0o644))
		ok(os.Truncate("b", int64(len(data))+rapid.Int64Range(-9, 9).Draw(rt, "by")))
	}
	if n, err := utils.CopyFile("b", "a"); err != nil || n != int64(len(data)) {
		rt.Fatalf("copying %d bytes: %d, %v", len(data), n, err)
	}
	same(rt, "the copy", "b", data)
	same(rt, "the source", "a", data)
	if err := utils.FileMove("b", "new/c"); err != nil {
		rt.Fatalf("moving: %v", err)
	}
	same(rt, "the moved file", "new/c", data)
	if utils.FileExist("b") {
		rt.Fatalf("the moved file is still there")
	}
}

// wideTrees scans directories of thousands of entries and hundreds of levels.
func wideTrees(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	var want []string
	file := func(p string) {
		ok(os.WriteFile(p, nil, 0o644))
		want = append(want, p)
	}
	p := "t"
	ok(os.Mkdir(p, 0o755))
	levels, wide := rapid.IntRange(0, 900).Draw(rt, "levels"), rapid.IntRange(1000, 9000).Draw(rt, "entries")
	for i := 0; i < levels; i++ {
		if i%50 == 7 {
			file(p + "/on the way")
		}
		p += "/" + vt.Pick(rt, "dir", "d", "e", "日")
		if len(p) > 3000 {
			break
		}
		ok(os.Mkdir(p, 0o755))
	}
	if info, err := os.Stat(p); err != nil || !info.IsDir() {
		p = filepath.Dir(p)
	}
	for i := 0; i < wide; i++ {
		file(fmt.Sprintf("%s/f%d", p, i))
	}
	c.Logf("%d files, most of them %d levels down", len(want), strings.Count(p, "/"))
	c.NT()
	got, err := utils.ScanDir("t")
	if err != nil {
		rt.Fatalf("scanning: %v", err)
	}
	sort.Strings(got)
	sort.Strings(want)
	if len(got) != len(want) {
		rt.Fatalf("%d files found of %d", len(got), len(want))
	}
	for i := range want {
		if filepath.Clean(got[i]) != want[i] {
			rt.Fatalf("found %q, want %q", got[i], want[i])
		}
	}
	if err := utils.DeLFile("t"); err != nil {
		rt.Fatalf("deleting: %v", err)
	}
	if utils.IsDir("t") {
		rt.Fatalf("deleting %d files succeeds and leaves some", len(want))
	}
}

func hugeChunks(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	var all []byte
	data := huge(rt, 24)
	n := rapid.IntRange(1, 4).Draw(rt, "chunks")
	c.Logf("%d bytes in %d chunks", len(data), n)
	c.NT()
	for i := 0; i < n; i++ {
		part := data[len(all):]
		if i < n-1 {
			part = part[:int(vt.Mix(rapid.Uint64().Draw(rt, "cut"))%uint64(len(part)+1))]
		}
		if !utils.CheckMd5(part, utils.MD5V(part)) {
			rt.Fatalf("chunk %d of %d bytes does not match its digest", i, len(part))
		}
		p, err := utils.BreakPointContinue(part, "f", i, n, "digest")
		if err != nil {
			rt.Fatalf("storing chunk %d: %v", i, err)
		}
		same(rt, fmt.Sprint("chunk ", i), p, part)
		all = append(all, part...)
	}
	p, err := utils.MakeFile("f", "digest")
	if err != nil {
		rt.Fatalf("assembling: %v", err)
	}
	same(rt, "the assembled file", p, data)
}

func hugeArchives(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	var files []zfile
	for i := rapid.IntRange(1, 2).Draw(rt, "files"); i > 0; i-- {
		f := zfile{path: fmt.Sprint("f", i), name: fmt.Sprint("f", i), data: huge(rt, 25)}
		c.Logf("a file of %d bytes", len(f.data))
		ok(os.WriteFile(f.path, f.data, 0o644))
		files = append(files, f)
	}
	c.NT()
	if err := utils.ZipFiles("a.zip", paths(files), "", ""); err != nil {
		rt.Fatalf("archiving: %v", err)
	}
	got, err := utils.Unzip("a.zip", "out")
	if err != nil || len(got) != len(files) {
		rt.Fatalf("extracting: %q, %v", got, err)
	}
	for i, f := range files {
		same(rt, "extracted file", got[i], f.data)
		same(rt, "archived file", f.path, f.data)
	}
}

// manyEntries archives thousands of files.
func manyEntries(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	most := 5000
	if vt.Thorough() {
		most = 70000 // more than the old archive format could count
	}
	n := rapid.IntRange(most/2, most).Draw(rt, "files")
	c.Logf("%d files", n)
	c.NT()
	ok(os.Mkdir("src", 0o755))
	var files []zfile
	for i := 0; i < n; i++ {
		f := zfile{path: fmt.Sprintf("src/%d", i), name: fmt.Sprintf("n/%d", i), data: []byte(fmt.Sprint(i))}
		ok(os.WriteFile(f.path, f.data, 0o644))
		files = append(files, f)
	}
	if err := utils.ZipFiles("a.zip", paths(files), "src", "n"); err != nil {
		rt.Fatalf("archiving: %v", err)
	}
	got, err := utils.Unzip("a.zip", "out")
	if err != nil {
		rt.Fatalf("extracting: %v", err)
	}
	checkExtracted(rt, files, "out", got)
}

// hugeTables reads and extends tables of millions of bytes.
func hugeTables(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	most := 24
	if vt.Thorough() {
		most = 27
	}
	var b bytes.Buffer
	var want [][]string
	n, wide := 1<<rapid.IntRange(21, most).Draw(rt, "log size"), vt.Pick(rt, "width", 10, 200, 70000, 3<<20)
	x := rapid.Uint64().Draw(rt, "seed")
	for b.Len() < n {
		x = vt.Mix(x + 1)
		row := []string{fmt.Sprint(len(want)), strings.Repeat(string(rune('a'+x%26)), int(x>>8%uint64(wide))), "q\"," + fmt.Sprint(x)}
		want = append(want, row)
		fmt.Fprintf(&b, "%s,%s,\"q\"\",%d\"\r\n", row[0], row[1], x)
	}
	ok(os.WriteFile("t.csv", b.Bytes(), 0o644))
	c.Logf("%d rows in %d bytes, fields of up to %d", len(want), b.Len(), wide)
	c.NT()
	compare := func() {
		got := utils.ReadCsv("t.csv")
		if got == nil || len(*got) != len(want) {
			rt.Fatalf("read %v rows of %d", got != nil && len(*got) > 0, len(want))
		}
		for i, row := range *got {
			if strings.Join(row, "\x00") != strings.Join(want[i], "\x00") {
				rt.Fatalf("row %d of %d is read as %.99q, want %.99q", i, len(want), row, want[i])
			}
		}
	}
	compare()
	for k := rapid.IntRange(1, 2).Draw(rt, "new rows"); k > 0; k-- {
		row := []string{"new", strings.Repeat("ab,", rapid.IntRange(0, 2<<20).Draw(rt, "times")), "z"}
		if err := utils.WriteCsv("t.csv", row); err != nil {
			rt.Fatalf("writing a row: %v", err)
		}
		want = append(want, row)
	}
	compare()
}
