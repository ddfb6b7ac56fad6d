package fsh

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func hostileArchives(rt *rapid.T, c *vt.C) {
	root, done := planted()
	defer done()
	cwd := filepath.Join(root, nest)
	dest := vt.Pick(rt, "dest", "out", "out", "./out/", cwd+"/out", ".", "", "deep/out", "../w/out", "../side", "out/../out", cwd+"/../side//")
	abs := dest
	if !filepath.IsAbs(dest) {
		abs = filepath.Join(cwd, dest)
	}
	abs = filepath.Clean(abs)
	if dest != "." && dest != "" && rapid.Bool().Draw(rt, "exists") {
		ok(os.MkdirAll(abs, 0o755))
	}
	if rapid.Bool().Draw(rt, "sibling") && abs != cwd {
		ok(os.MkdirAll(abs+"x", 0o755))
		ok(os.WriteFile(abs+"x/a", []byte("precious"), 0o644))
	}
	archive := filepath.Join(root, "evil.zip")
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	var names []string
	must := false
	n := rapid.IntRange(1, 5).Draw(rt, "entries")
	for i := 0; i < n; i++ {
		var name string
		switch vt.Weighted(rt, "name", 3, 6, 2, 1) {
		case 0:
			name = fmt.Sprintf("fine%d/a", i)
		case 1:
			name = hostile(rt, 4, filepath.Join(root, "1"))
		case 2: // out of the destination into a neighbour whose name starts like it
			name = strings.Repeat("../", rapid.IntRange(1, 2).Draw(rt, "up")) + filepath.Base(abs) + vt.Pick(rt, "rest", "x/a", "x", "-evil/a", "x/new", "/a", "")
		case 3: // behind an earlier entry, which may be a link
			if len(names) > 0 {
				name = names[len(names)-1] + "/victim"
			}
		}
		if name == "" {
			name = "e"
		}
		names = append(names, name)
		must = must || !(inside(abs, abs+"/"+name) || filepath.Clean(abs+"/"+name) == abs)
		h := &zip.FileHeader{Name: name, Method: zip.Store}
		content := "extracted"
		switch rapid.IntRange(0, 4).Draw(rt, "mode") {
		case 0:
			h.SetMode(fs.ModeSymlink | 0o777)
			content = vt.Pick(rt, "target", "..", "../..", root, "../victim", ".")
		case 1:
			h.SetMode(fs.ModeDir | 0o755)
			if !strings.HasSuffix(name, "/") {
				content = "" // a directory whose entry has no trailing slash
			}
		default:
			h.SetMode(0o644)
		}
		if strings.HasSuffix(name, "/") {
			content = ""
		}
		f, err := w.CreateHeader(h)
		ok(err)
		if content != "" {
			_, err = f.Write([]byte(content))
			ok(err)
		}
	}
	ok(w.Close())
	ok(os.WriteFile(archive, buf.Bytes(), 0o644))
	c.Logf("Unzip to %q (%s) of %q", dest, strings.TrimPrefix(abs, root), names)
	c.NTIf(must)
	rel := strings.TrimPrefix(abs, root+"/")
	skip := func(p string) bool { return strings.HasPrefix(p+"/", rel+"/") }
	before := snapshot(root, skip)
	for p := filepath.Dir(rel); p != "."; p = filepath.Dir(p) { // the destination's own parents may be made
		if _, has := before[p]; !has {
			before[p] = "dir"
		}
	}
	_, err := utils.Unzip(archive, dest)
	after := snapshot(root, skip)
	for p, k := range before { // they need not be
		if _, has := after[p]; !has && k == "dir" && strings.HasPrefix(rel, p+"/") {
			delete(before, p)
		}
	}
	if d := diff(after, before); d != "" {
		rt.Fatalf("extracting %q to %q reaches outside: %s", names, dest, d)
	}
	if must && err == nil {
		rt.Fatalf("extracting %q to %q is not refused", names, dest)
	}
	// an archive inside may be refused for other reasons (an entry behind a file), but not this one
	if !must {
		c.Label("nothing hostile")
	}
}

func TestC28(t *testing.T) {
	vt.Check(t, "round trip", "0 to 12 files (contents of 0 to 70000 bytes, random and repetitive) in drawn directories, relative or absolute, with drawn name replacements, archived over nothing, an older or a longer file, extracted into a missing, empty or older tree with longer files, twice; also compared with the standard zip reader; non-trivial: at least two files with content and a replacement that changes names",
		900, 40000, zipRoundTrip)
	vt.Check(t, "few descriptors", "20 to 150 files archived and extracted with room for 8 to 16 more file descriptors; non-trivial: every case",
		25, 800, fewDescriptors)
	vt.Check(t, "damage", "archives with one damaged region (in the data, the directory or anywhere), cut short, extended or prefixed; extraction must fail or give the archived bytes; non-trivial: extraction fails or the archive lost bytes",
		2500, 120000, zipDamage)
	vt.Check(t, "obstacles", "archives of files and directories extracted where files stand in for directories, directories for files, links lead nowhere and directories are read-only: it must fail, or every returned entry must be there as archived; non-trivial: something is in the way",
		1200, 50000, zipObstacles)
	vt.Check(t, "no room", "archiving with a file size limit, to a full device, to a missing directory and with a missing, unreadable or failing source, to a file that is itself among the sources, and extracting with a file size limit; non-trivial: the limit is below what is needed",
		900, 40000, zipNoRoom)
	vt.Check(t, "huge", "one or two files of 2 to 64 MiB archived and extracted; non-trivial: all",
		3, 40, hugeArchives)
	vt.Check(t, "many entries", "2500 to 5000 (thorough: 70000) files archived and extracted; non-trivial: all",
		1, 6, manyEntries)
}

type zfile struct {
	path, name string
	data       []byte
}

func zipContent(rt *rapid.T) []byte {
	switch vt.Weighted(rt, "content", 6, 1, 1) {
	case 0:
		return vt.Bytes(300).Draw(rt, "content")
	case 1:
		return bytes.Repeat(vt.Bytes(20).Draw(rt, "unit"), rapid.IntRange(1, 3000).Draw(rt, "times"))
	}
	return vt.Bytes(70000).Draw(rt, "content")
}

// zipFiles makes files below src (given relative or absolute) and the replaced names, all distinct and plain.
func zipFiles(rt *rapid.T, c *vt.C, cwd string, least, most int) (files []zfile, from, to string) {
	prefix := vt.Pick(rt, "prefix", "src", "src", "./src", cwd+"/src", "src//x/..")
	switch vt.Weighted(rt, "replace", 3, 2, 2, 1, 1, 1) {
	case 0:
		from, to = prefix+"/", ""
	case 1:
		from, to = prefix, "data"
	case 2:
		from, to = prefix+"/", "data/deep/"
	case 3:
		from, to = "nothing", "data" // nothing to replace
	case 4:
		from, to = "a", "bb" // everywhere in the name
	case 5:
		from, to = "", ""
	}
	ok(os.MkdirAll("src/x", 0o755))
	n := rapid.IntRange(least, most).Draw(rt, "files")
	taken := map[string]bool{}
	for i := 0; i < n; i++ {
		p := prefix
		for d := rapid.IntRange(0, 2).Draw(rt, "depth"); d > 0; d-- {
			p += "/" + vt.Pick(rt, "dir", "d", "a", "日本", "d e")
		}
		ext := vt.Pick(rt, "ext", "", ".txt", ".aa", " b", "é", "_a")
		p += fmt.Sprintf("/f%d%s", i, ext)
		f := zfile{path: p, name: strings.ReplaceAll(p, from, to), data: zipContent(rt)}
		key := filepath.Clean("/" + f.name)
		if taken[key] || strings.HasPrefix(filepath.Clean(f.name), "..") {
			continue
		}
		taken[key] = true
		ok(os.MkdirAll(filepath.Dir(p), 0o755))
		ok(os.WriteFile(p, f.data, vt.Pick[fs.FileMode](rt, "mode", 0o644, 0o600, 0o755, 0o640)))
		files = append(files, f)
		c.Logf("file %q as %q: %d bytes", f.path, f.name, len(f.data))
	}
	return
}

func paths(files []zfile) []string {
	ps := []string{}
	for _, f := range files {
		ps = append(ps, f.path)
	}
	return ps
}

// checkExtracted compares what is below dest.
func checkExtracted(rt *rapid.T, files []zfile, dest string, got []string) {
	if len(got) != len(files) {
		rt.Fatalf("extraction returns %d paths %q, want %d", len(got), got, len(files))
	}
	for i, f := range files {
		want := filepath.Join(dest, f.name)
		if filepath.Clean(got[i]) != want {
			rt.Fatalf("extracted path %d is %q, want %q", i, got[i], want)
		}
		b, err := os.ReadFile(got[i])
		if err != nil || !bytes.Equal(b, f.data) {
			rt.Fatalf("%q was extracted as %d bytes %.80q, %v; archived were %d bytes %.80q", f.name, len(b), b, err, len(f.data), f.data)
		}
	}
}

func zipRoundTrip(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	cwd := filepath.Join(root, "w")
	files, from, to := zipFiles(rt, c, cwd, 0, 12)
	archive := vt.Pick(rt, "archive", "a.zip", cwd+"/b.zip", "./c")
	if rapid.Bool().Draw(rt, "older archive") {
		ok(os.WriteFile(archive, vt.Bytes(100000).Draw(rt, "older"), 0o644))
	}
	full, changed := 0, false
	for _, f := range files {
		if len(f.data) > 0 {
			full++
		}
		changed = changed || f.name != f.path
	}
	c.NTIf(full >= 2 && changed)
	c.Logf("replace %q by %q", from, to)
	if err := utils.ZipFiles(archive, paths(files), from, to); err != nil {
		rt.Fatalf("archiving: %v", err)
	}
	for _, f := range files {
		if b, err := os.ReadFile(f.path); err != nil || !bytes.Equal(b, f.data) {
			rt.Fatalf("archiving changed %q: %v", f.path, err)
		}
	}
	r, err := zip.OpenReader(archive)
	if err != nil {
		rt.Fatalf("the archive is not readable: %v", err)
	}
	if len(r.File) != len(files) {
		rt.Fatalf("the archive has %d entries, want %d", len(r.File), len(files))
	}
	for i, f := range r.File {
		if f.Name != files[i].name || f.UncompressedSize64 != uint64(len(files[i].data)) {
			rt.Fatalf("entry %d is %q of %d bytes, want %q of %d", i, f.Name, f.UncompressedSize64, files[i].name, len(files[i].data))
		}
	}
	r.Close()
	dest := vt.Pick(rt, "dest", "out", "out/deep/", cwd+"/out", "./out/x/..")
	older := rapid.IntRange(0, 2).Draw(rt, "older tree")
	if older == 1 {
		ok(os.MkdirAll(dest, 0o755))
	}
	if older == 2 {
		for i, f := range files {
			p := filepath.Join(dest, f.name)
			ok(os.MkdirAll(filepath.Dir(p), 0o755))
			if i%3 != 2 {
				ok(os.WriteFile(p, append(bytes.Clone(f.data), vt.Bytes(5000).Draw(rt, "longer")...), 0o644))
			}
		}
		c.Logf("over older files")
	}
	for rounds := rapid.IntRange(1, 2).Draw(rt, "rounds"); rounds > 0; rounds-- {
		got, err := utils.Unzip(archive, dest)
		if err != nil {
			rt.Fatalf("extracting: %v", err)
		}
		checkExtracted(rt, files, dest, got)
	}
	count := 0
	filepath.WalkDir(filepath.Clean(dest), func(p string, d fs.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			count++
		}
		return nil
	})
	if count != len(files) {
		rt.Fatalf("%d files below the destination, want %d", count, len(files))
	}
}

func fewDescriptors(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	n := rapid.IntRange(20, 150).Draw(rt, "files")
	ok(os.MkdirAll("src", 0o755))
	var files []zfile
	for i := 0; i < n; i++ {
		f := zfile{path: fmt.Sprintf("src/%d", i), name: fmt.Sprintf("n/%d", i), data: []byte(fmt.Sprint("content ", i))}
		ok(os.WriteFile(f.path, f.data, 0o644))
		files = append(files, f)
	}
	used := len(must(os.ReadDir("/proc/self/fd")))
	room := rapid.IntRange(8, 16).Draw(rt, "room")
	c.Logf("%d files, room for %d descriptors", n, room)
	c.NT()
	var got []string
	var errZip, errUnzip error
	limited(syscall.RLIMIT_NOFILE, uint64(used+room), func() {
		if errZip = utils.ZipFiles("a.zip", paths(files), "src", "n"); errZip == nil {
			got, errUnzip = utils.Unzip("a.zip", "out")
		}
	})
	if errZip != nil || errUnzip != nil {
		rt.Fatalf("%d files with room for %d descriptors: archiving %v, extracting %v", n, room, errZip, errUnzip)
	}
	checkExtracted(rt, files, "out", got)
	if now := len(must(os.ReadDir("/proc/self/fd"))); now > used+2 {
		rt.Fatalf("%d descriptors open afterwards, %d before", now, used)
	}
	_ = root
}

func zipDamage(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	var files []zfile
	for i := rapid.IntRange(1, 4).Draw(rt, "files"); i > 0; i-- {
		p := fmt.Sprintf("f%d", i)
		f := zfile{path: p, name: p, data: vt.Bytes(400).Draw(rt, "content")}
		if rapid.IntRange(0, 5).Draw(rt, "long") == 0 {
			f.data = vt.Bytes(40000).Draw(rt, "content")
		}
		if rapid.Bool().Draw(rt, "text") {
			f.data = bytes.Repeat([]byte("line of text\n"), rapid.IntRange(0, 40).Draw(rt, "lines"))
		}
		ok(os.WriteFile(p, f.data, 0o644))
		files = append(files, f)
	}
	var whole []byte
	if rapid.Bool().Draw(rt, "stored") {
		var buf bytes.Buffer
		w := zip.NewWriter(&buf)
		for _, f := range files {
			e, err := w.CreateHeader(&zip.FileHeader{Name: f.name, Method: zip.Store})
			ok(err)
			_, err = e.Write(f.data)
			ok(err)
		}
		ok(w.Close())
		whole = buf.Bytes()
	} else {
		if err := utils.ZipFiles("a.zip", paths(files), "", ""); err != nil {
			rt.Fatalf("archiving: %v", err)
		}
		whole = must(os.ReadFile("a.zip"))
	}
	b := bytes.Clone(whole)
	at := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
	dir := bytes.Index(b, []byte("PK\x01\x02"))
	if rapid.Bool().Draw(rt, "directory") && dir >= 0 {
		at = rapid.IntRange(dir, len(b)-1).Draw(rt, "at")
	}
	kind := vt.Weighted(rt, "damage", 6, 2, 2, 1, 1)
	switch kind {
	case 0:
		for i, n := at, rapid.IntRange(1, 4).Draw(rt, "bytes"); i < len(b) && n > 0; i, n = i+1, n-1 {
			b[i] ^= vt.Pick[byte](rt, "flip", 1, 0x80, 0xff, 0x10, b[i])
		}
	case 1:
		b = b[:at]
	case 2: // bytes lost inside
		b = append(b[:at], b[min(len(b), at+rapid.IntRange(1, 60).Draw(rt, "lost")):]...)
	case 3:
		b = append(b, vt.Bytes(200).Draw(rt, "tail")...)
	case 4:
		b = append(vt.Bytes(200).Draw(rt, "head"), b...)
	}
	ok(os.WriteFile("b.zip", b, 0o644))
	c.Logf("%d files, archive of %d bytes, damage %d at %d", len(files), len(whole), kind, at)
	var got []string
	var err error
	if v, p := vt.Panics(func() { got, err = utils.Unzip("b.zip", "out") }); p {
		rt.Fatalf("extracting a damaged archive panics: %v", v)
	}
	c.NTIf(err != nil || len(b) < len(whole))
	c.LabelIf(err != nil, "refused")
	if err != nil {
		return
	}
	times := map[string]int{} // damaged names may collide
	for _, p := range got {
		times[p]++
	}
	for i, p := range got {
		if times[p] > 1 {
			continue
		}
		st, err := os.Lstat(p)
		if err != nil {
			rt.Fatalf("path %q was returned but is not there: %v", p, err)
		}
		if i >= len(files) || !st.Mode().IsRegular() || p != filepath.Join("out", files[i].name) {
			continue // the damage hit the name or type, which nothing protects
		}
		c.Label("accepted with intact names")
		os.Chmod(p, 0o600)
		if x := must(os.ReadFile(p)); !bytes.Equal(x, files[i].data) {
			rt.Fatalf("extraction succeeds with %q holding %d bytes %.80q instead of the archived %d bytes %.80q", p, len(x), x, len(files[i].data), files[i].data)
		}
	}
	if len(got) < len(files) && kind != 2 {
		rt.Fatalf("extraction succeeds with %d of %d files", len(got), len(files))
	}
}

func zipNoRoom(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	files, from, to := zipFiles(rt, c, filepath.Join(root, "w"), 1, 6)
	if err := utils.ZipFiles("whole.zip", paths(files), from, to); err != nil {
		rt.Fatalf("archiving: %v", err)
	}
	size := must(os.Stat("whole.zip")).Size()
	switch vt.Weighted(rt, "fault", 4, 1, 1, 1, 4, 2) {
	case 0:
		limit := rapid.Int64Range(0, size+5).Draw(rt, "limit")
		if rapid.Bool().Draw(rt, "end") {
			limit = max(0, size-rapid.Int64Range(0, 60).Draw(rt, "short"))
		}
		c.Logf("archive of %d bytes with room for %d", size, limit)
		var err error
		limited(fileSize, uint64(limit), func() { err = utils.ZipFiles("a.zip", paths(files), from, to) })
		c.NTIf(limit < size)
		if limit < size && err == nil {
			rt.Fatalf("archiving %d bytes where only %d fit succeeds", size, limit)
		}
		if limit >= size && err != nil {
			rt.Fatalf("archiving %d bytes with room for %d: %v", size, limit, err)
		}
	case 1:
		c.Logf("archive to a full device")
		c.NT()
		if err := utils.ZipFiles("/dev/full", paths(files), from, to); err == nil {
			rt.Fatalf("archiving to a full device succeeds")
		}
	case 2:
		c.Logf("archive to a missing directory")
		if err := utils.ZipFiles("missing/a.zip", paths(files), from, to); err == nil {
			rt.Fatalf("archiving to a missing directory succeeds")
		}
	case 3:
		ps := paths(files)
		i := rapid.IntRange(0, len(ps)).Draw(rt, "at")
		bad := vt.Pick(rt, "bad", "src/missing", "/proc/self/mem", "src/secret") // reading /proc/self/mem from its start fails
		if bad == "src/secret" {
			ok(os.WriteFile(bad, []byte("x"), 0))
			if os.Geteuid() == 0 {
				bad = "src/missing"
			}
		}
		ps = append(ps[:i:i], append([]string{bad}, ps[i:]...)...)
		c.Logf("source %d is %s", i, bad)
		c.NT()
		if err := utils.ZipFiles("a.zip", ps, from, to); err == nil {
			rt.Fatalf("archiving with source %d, %s, succeeds", i, bad)
		}
	case 4:
		most := 0
		for _, f := range files {
			most = max(most, len(f.data))
		}
		limit := rapid.IntRange(0, most+2).Draw(rt, "limit")
		c.Logf("extract with room for %d of %d bytes", limit, most)
		c.NTIf(limit < most)
		var got []string
		var err error
		limited(fileSize, uint64(limit), func() { got, err = utils.Unzip("whole.zip", "out") })
		if limit < most && err == nil {
			rt.Fatalf("extracting %d bytes where only %d fit succeeds", most, limit)
		}
		if limit >= most {
			if err != nil {
				rt.Fatalf("extracting %d bytes with room for %d: %v", most, limit, err)
			}
			checkExtracted(rt, files, "out", got)
		}
	case 5:
		self := vt.Pick(rt, "self", "a.zip", "./a.zip", root+"/w/a.zip", "hard", "soft", "soft")
		if old := rapid.IntRange(0, 3).Draw(rt, "old"); old > 0 || self == "hard" {
			ok(os.WriteFile("a.zip", must(os.ReadFile("whole.zip")), 0o600))
		}
		switch self {
		case "hard":
			ok(os.Link("a.zip", self))
		case "soft":
			ok(os.Symlink("a.zip", self))
		}
		ps := paths(files)
		i := rapid.IntRange(0, len(ps)).Draw(rt, "at")
		ps = append(ps[:i:i], append([]string{self}, ps[i:]...)...)
		c.Logf("the archive a.zip as %s at %d of its own sources", self, i)
		c.NT()
		var err error
		limited(fileSize, 8<<20, func() { err = utils.ZipFiles("a.zip", ps, from, to) })
		if err == nil {
			rt.Fatalf("an archive that is to contain itself, as %s, is made", self)
		}
		if size := must(os.Stat("a.zip")).Size(); size >= 8<<20 {
			rt.Fatalf("an archive that is to contain itself, as %s, grows to %d bytes and on", self, size)
		}
		for _, f := range files {
			if x := must(os.ReadFile(f.path)); !bytes.Equal(x, f.data) {
				rt.Fatalf("archiving changes its source %q", f.path)
			}
		}
	}
}

func zipObstacles(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	type ent struct {
		name, data string
		dir        bool
	}
	var ents []ent
	names := []string{"a", "b", "a/c", "b/c", "a/c/d", "e"}
	for n := rapid.IntRange(1, 6).Draw(rt, "entries"); n > 0; n-- {
		e := ent{name: vt.Pick(rt, "name", names...), dir: rapid.IntRange(0, 2).Draw(rt, "dir") == 0}
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		if e.dir {
			h.Name += "/"
			h.SetMode(fs.ModeDir | 0o755)
		} else {
			h.SetMode(0o644)
			e.data = fmt.Sprint("content ", len(ents))
		}
		f := must(w.CreateHeader(h))
		if !e.dir {
			must(f.Write([]byte(e.data)))
		}
		ents = append(ents, e)
	}
	ok(w.Close())
	ok(os.WriteFile("a.zip", buf.Bytes(), 0o644))
	c.Logf("entries %v", ents)
	ok(os.Mkdir("out", 0o755))
	for n := rapid.IntRange(0, 2).Draw(rt, "obstacles"); n > 0; n-- {
		p := filepath.Join("out", vt.Pick(rt, "at", names...))
		kind := rapid.IntRange(0, 3).Draw(rt, "kind")
		os.MkdirAll(filepath.Dir(p), 0o755)
		switch kind {
		case 0:
			os.WriteFile(p, []byte("older and longer content"), 0o644)
		case 1:
			os.Mkdir(p, 0o755)
		case 2:
			os.Symlink("nowhere/at/all", p)
		case 3:
			os.MkdirAll(p, 0o755)
			os.Chmod(p, 0o555)
		}
		c.Logf("obstacle %d at %s", kind, p)
		c.NT()
	}
	got, err := utils.Unzip("a.zip", "out")
	c.LabelIf(err != nil, "refused")
	if err != nil {
		return
	}
	if len(got) != len(ents) {
		rt.Fatalf("extraction succeeds with %q for entries %v", got, ents)
	}
	last := map[string]int{}
	for i, e := range ents {
		last[e.name] = i
	}
	for i, e := range ents {
		if last[e.name] != i {
			continue // a later entry of this name replaced it
		}
		st, err := os.Stat(got[i])
		if err != nil || st.IsDir() != e.dir {
			rt.Fatalf("extraction succeeds, but %q, archived as directory: %v, is %v, %v", got[i], e.dir, st, err)
		}
		if !e.dir {
			if b := must(os.ReadFile(got[i])); string(b) != e.data {
				rt.Fatalf("extraction succeeds, but %q holds %q instead of %q", got[i], b, e.data)
			}
		}
	}
}
