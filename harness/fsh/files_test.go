package fsh

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC30(t *testing.T) {
	vt.Check(t, "histories", "random trees of files, directories, symbolic and hard links (also dangling and looping), then 1 to 25 copies, moves, scans, creations, deletions and predicates on relative, absolute and dotted paths; after each the whole tree is compared with what the model of that call says; non-trivial: a copy or move onto something existing or over a link, or a failed one",
		4000, 200000, fileHistories)
	vt.Check(t, "large trees", "directories with up to 300 entries of awkward names and up to 30 levels scanned, and one unreadable directory among them, which must be reported; non-trivial: at least 20 files",
		300, 8000, largeTrees)
	vt.Check(t, "copies", "files of 0 to 300000 bytes (rarely 3 MiB) copied over nothing, shorter, longer, the same file by other names, with and without a file size limit; non-trivial: the destination existed or the limit is below the size",
		2500, 100000, copies)
	vt.Check(t, "across", "a file, link or directory moved to another file system, onto nothing, a file or a link, with missing parents: it is there and gone here, or the call fails and it is still here, whole; bystanders stay; non-trivial: the file systems differ",
		150, 5000, movesAcross)
	vt.Check(t, "no name", "each helper given an empty path, which names nothing, beside a small tree, which must stay; non-trivial: all",
		300, 5000, noName)
	vt.Check(t, "root", "a tree scanned as the root directory of a process of its own; non-trivial: at least two files",
		10, 300, scansRoot)
	vt.Check(t, "huge files", "files of 2 to 64 MiB copied over nothing or a file of nearly that size, and moved; non-trivial: all",
		3, 60, hugeFiles)
	vt.Check(t, "wide trees", "1000 to 9000 files up to 900 levels down, scanned and deleted; non-trivial: all",
		3, 100, wideTrees)
}

// node is one path of the tree; hard links share ino.
type node struct {
	kind string // file, dir, link
	ino  uint64
	data string // content or link target
}

type tree map[string]node // by path relative to the root; the root itself is "."

func look(root string) tree {
	t := tree{}
	ok(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel := must(filepath.Rel(root, p))
		if err != nil {
			t[rel] = node{kind: "unreadable", data: err.Error()}
			return nil
		}
		info := must(d.Info())
		n := node{ino: info.Sys().(*syscall.Stat_t).Ino}
		switch {
		case d.IsDir():
			n = node{kind: "dir"}
		case d.Type()&fs.ModeSymlink != 0:
			n = node{kind: "link", data: must(os.Readlink(p))}
		default:
			n.kind, n.data = "file", text(os.ReadFile(p))
		}
		t[rel] = n
		return nil
	}))
	return t
}

func (t tree) clone() tree {
	u := tree{}
	for p, n := range t {
		u[p] = n
	}
	return u
}

// compare reports the difference; paths for which loose holds are not compared.
func (t tree) compare(want tree, loose func(string) bool) string {
	var ds []string
	for p, w := range want {
		if loose != nil && loose(p) {
			continue
		}
		g, has := t[p]
		if !has {
			ds = append(ds, fmt.Sprintf("%q is gone", p))
		} else if g.kind != w.kind || g.data != w.data {
			ds = append(ds, fmt.Sprintf("%q is a %s %.60q, want a %s %.60q", p, g.kind, g.data, w.kind, w.data))
		}
	}
	for p, g := range t {
		if loose != nil && loose(p) {
			continue
		}
		if _, has := want[p]; !has {
			ds = append(ds, fmt.Sprintf("a %s %q appeared", g.kind, p))
		}
	}
	sort.Strings(ds)
	return strings.Join(ds, "; ")
}

// resolve follows links: the real path relative to the root. state is "file", "dir", "missing"
// (its parent is a directory), or "bad" (below something that is missing, a file or a loop).
// With last unset the last component is not followed, and state may be "link".
func (t tree) resolve(p string, last bool) (string, string) {
	return t.walk(".", p, last, 0)
}

var top string // the root of the current case

func (t tree) walk(at, p string, last bool, hops int) (string, string) {
	if hops > 60 {
		return "", "bad"
	}
	if filepath.IsAbs(p) { // only links point absolutely, into the tree
		at, p = ".", p[len(top)+1:]
	}
	parts := strings.Split(filepath.Clean(p), "/")
	for i, x := range parts {
		if x == "." {
			continue
		}
		if x == ".." {
			at = filepath.Dir(at)
			continue
		}
		at = filepath.Join(at, x)
		n, has := t[at]
		end := i == len(parts)-1
		switch {
		case !has && end:
			return at, "missing"
		case !has:
			return at, "bad"
		case n.kind == "link" && (!end || last):
			real, st := t.walk(filepath.Dir(at), n.data, true, hops+1)
			if end {
				return real, st
			}
			if st != "dir" {
				return real, "bad"
			}
			at = real
		case n.kind == "link":
			return at, "link"
		case n.kind == "file" && !end:
			return at, "bad"
		case n.kind == "file":
			return at, "file"
		}
	}
	return at, "dir"
}

// mkdirs adds the directory p and its parents; false if something is in the way.
func (t tree) mkdirs(p string) bool {
	at := "."
	for _, x := range strings.Split(filepath.Clean(p), "/") {
		if x == "." {
			continue
		}
		next := filepath.Join(at, x)
		if _, has := t[next]; !has {
			t[next] = node{kind: "dir"}
		}
		real, st := t.walk(at, x, true, 0)
		if st != "dir" {
			return false
		}
		at = real
	}
	return true
}

type world struct {
	root string
	rt   *rapid.T
	c    *vt.C
	leaf []string
}

// names that path, glob or shell handling could take for something else
var awkward = []string{"a", "A", " a", "a ", "..a", "...", "a..", ".a", "-a", "~", "$HOME", "*", "a\n", "名", "\xff", "e\u0301", "\u00e9", "a.b", "%61", "a?b#c", "\"a\"", "a\\b", "C:", strings.Repeat("n", 200)}

var leaf = []string{"a", "b", "c", "d", "e"}

func (w *world) path() string { // relative to the root, clean
	p := vt.Pick(w.rt, "p", w.leaf...)
	for n := vt.Weighted(w.rt, "more", 5, 4, 2); n > 0; n-- {
		p += "/" + vt.Pick(w.rt, "p", w.leaf...)
	}
	return p
}

// spell writes a clean path in a way that means the same.
func (w *world) spell(p string) string {
	switch vt.Weighted(w.rt, "spelling", 6, 2, 2, 1) {
	case 1:
		return "./" + p
	case 2:
		return w.root + "/" + p
	case 3:
		return strings.ReplaceAll(p, "/", "//")
	}
	return p
}

func below(p, dir string) bool { return p == dir || strings.HasPrefix(p, dir+"/") }

func fileHistories(rt *rapid.T, c *vt.C) {
	root, done := scratch(".")
	defer done()
	w := &world{root, rt, c, leaf}
	if rapid.IntRange(0, 2).Draw(rt, "awkward") == 0 {
		w.leaf = rapid.Permutation(awkward).Draw(rt, "names")[:5]
	}
	top = root
	// the initial tree
	for n := rapid.IntRange(2, 9).Draw(rt, "nodes"); n > 0; n-- {
		p := w.path()
		t := look(root)
		if !t.mkdirs(filepath.Dir(p)) {
			continue
		}
		if _, st := t.resolve(p, false); st != "missing" {
			continue
		}
		ok(os.MkdirAll(filepath.Dir(p), 0o755))
		switch vt.Weighted(rt, "node", 4, 2, 2, 1) {
		case 0:
			data := vt.Bytes(50).Draw(rt, "data")
			c.Logf("file %s of %d bytes", p, len(data))
			ok(os.WriteFile(p, data, 0o644))
		case 1:
			c.Logf("directory %s", p)
			ok(os.MkdirAll(p, 0o755))
		case 2:
			to := w.path() // relative to wherever the link is, or absolute; never out of the tree
			if rapid.Bool().Draw(rt, "absolute") {
				to = root + "/" + to
			}
			c.Logf("link %s to %s", p, strings.TrimPrefix(to, root))
			ok(os.Symlink(to, p))
		case 3:
			from := w.path()
			if _, st := t.resolve(from, false); st == "file" {
				c.Logf("%s is also %s", from, p)
				if err := os.Link(from, p); err != nil {
					vt.Harness("link: %v", err)
				}
			}
		}
	}
	steps := rapid.IntRange(1, 25).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		t := look(root)
		switch vt.Weighted(rt, "op", 6, 6, 4, 3, 3, 3, 6, 2) {
		case 0:
			w.copy(t)
		case 1:
			w.move(t)
		case 2:
			w.scan(t)
		case 3:
			w.createDir(t)
		case 4:
			p := w.path()
			arg := w.spell(p)
			want := t.clone()
			possible := want.mkdirs(p)
			c.Logf("MkDir(%q)", p)
			err := utils.MkDir(arg)
			if possible != (err == nil) {
				rt.Fatalf("MkDir(%q) gives %v; something in the way: %v", arg, err, !possible)
			}
			if !possible {
				want = t
			}
			w.same(want, func(q string) bool { return !possible && below(p, q) })
		case 5:
			p := w.path()
			arg := w.spell(p)
			c.Logf("DeLFile(%q)", p)
			real, st := t.resolve(p, false)
			want := t.clone()
			if st != "bad" && st != "missing" {
				for q := range t {
					if below(q, real) {
						delete(want, q)
					}
				}
			}
			if err := utils.DeLFile(arg); err != nil && st != "bad" {
				rt.Fatalf("DeLFile(%q): %v", arg, err)
			}
			w.same(want, nil)
		case 6:
			w.predicates(t)
			w.same(t, nil)
		case 7:
			p := w.path()
			if _, st := t.resolve(p, true); st == "file" || st == "missing" {
				data := vt.Bytes(50).Draw(rt, "data")
				c.Logf("write %d bytes to %s", len(data), p)
				ok(os.WriteFile(p, data, 0o644))
			}
		}
	}
}

func (w *world) same(want tree, loose func(string) bool) {
	if d := look(w.root).compare(want, loose); d != "" {
		w.rt.Fatalf("after %s: %s", w.c.Last(), d)
	}
}

func (w *world) copy(t tree) {
	src, dst := w.path(), w.path()
	if rapid.IntRange(0, 9).Draw(w.rt, "onto itself") == 0 {
		dst = src
	}
	w.c.Logf("CopyFile(%q, %q)", dst, src)
	rs, ss := t.resolve(src, true)
	rd, sd := t.resolve(dst, true)
	n, err := utils.CopyFile(w.spell(dst), w.spell(src))
	possible := ss == "file" && (sd == "file" || sd == "missing")
	w.c.NTIf(possible && sd == "file" || !possible && ss == "file")
	if !possible {
		if err == nil {
			w.rt.Fatalf("%s succeeds; source %s, destination %s", w.c.Last(), ss, sd)
		}
		// a failed copy leaves everything but the destination alone
		real := t[rd]
		w.same(t, func(q string) bool {
			return sd != "dir" && ss != "file" && (q == rd || real.ino != 0 && t[q].ino == real.ino)
		})
		return
	}
	if err != nil {
		w.rt.Fatalf("%s: %v", w.c.Last(), err)
	}
	data := t[rs].data
	if n != int64(len(data)) {
		w.rt.Fatalf("%s reports %d bytes of %d", w.c.Last(), n, len(data))
	}
	want := t.clone()
	if sd == "missing" {
		want[rd] = node{kind: "file", data: data}
	} else {
		ino := t[rd].ino
		for q, x := range want {
			if x.kind == "file" && x.ino == ino {
				x.data = data
				want[q] = x
			}
		}
	}
	w.same(want, nil)
}

func (w *world) move(t tree) {
	src, dst := w.path(), w.path()
	if rapid.IntRange(0, 5).Draw(w.rt, "deep") == 0 {
		dst += "/" + w.path()
	}
	rs, ss := t.resolve(src, false)
	rd, sd := t.resolve(dst, false)
	want := t.clone()
	if sd == "bad" { // the parents may have to be made
		if want.mkdirs(filepath.Dir(dst)) {
			rd, sd = want.resolve(dst, false)
		}
	}
	if ss == "file" && sd == "file" && rs != rd && t[rs].ino == t[rd].ino {
		return // two names of one file: unspecified
	}
	w.c.Logf("FileMove(%q, %q)", src, dst)
	err := utils.FileMove(w.spell(src), w.spell(dst))
	there := ss == "file" || ss == "dir" || ss == "link"
	w.c.NTIf(there && sd != "missing" || ss == "link")
	parents := func(q string) bool { // parents of the destination may have been made
		_, had := t[q]
		_, may := want[q]
		return !had && may
	}
	switch {
	case there && rs == rd && sd != "bad":
		if err != nil && ss != "dir" {
			w.rt.Fatalf("%s: %v", w.c.Last(), err)
		}
		w.same(t, nil)
		return
	case there && sd == "dir" && err == nil:
		if ss != "dir" {
			w.rt.Fatalf("%s replaces a directory", w.c.Last())
		}
		for q := range t {
			if q != rd && below(q, rd) && !below(q, rs) {
				w.rt.Fatalf("%s replaces a directory that is not empty", w.c.Last())
			}
		}
	case !there || sd == "bad" || sd == "dir" || ss == "dir" && (sd != "missing" || below(rd, rs)):
		if err == nil {
			w.rt.Fatalf("%s succeeds; source %s, destination %s", w.c.Last(), ss, sd)
		}
		w.same(t, func(q string) bool {
			return parents(q) || sd == "bad" && strings.HasPrefix(dst, q+"/") && t[q].kind == ""
		})
		return
	case err != nil:
		w.rt.Fatalf("%s: %v", w.c.Last(), err)
	}
	for q, x := range t {
		if below(q, rs) {
			delete(want, q)
			want[rd+q[len(rs):]] = x
		}
	}
	w.same(want, nil)
}

func (w *world) scan(t tree) {
	p := w.path()
	if rapid.IntRange(0, 3).Draw(w.rt, "root") == 0 {
		p = "."
	}
	arg := w.spell(p)
	if rapid.Bool().Draw(w.rt, "slash") {
		arg += "/"
	}
	w.c.Logf("ScanDir(%q)", arg)
	real, st := t.resolve(p, true)
	got, err := utils.ScanDir(arg)
	if (err == nil) != (st == "dir") {
		w.rt.Fatalf("ScanDir(%q) gives %q, %v; it is a %s", arg, got, err, st)
	}
	if st != "dir" {
		return
	}
	var want []string
	for q, x := range t {
		if x.kind != "dir" && (real == "." || below(q, real)) {
			rel := must(filepath.Rel(real, q))
			want = append(want, filepath.Join(arg, rel))
		}
	}
	w.c.LabelIf(len(want) > 1, "scan of several")
	compareLists(w.rt, arg, got, want)
	w.same(t, nil)
}

func compareLists(rt *rapid.T, arg string, got, want []string) {
	var g []string
	for _, p := range got {
		g = append(g, filepath.Clean(p))
	}
	sort.Strings(g)
	sort.Strings(want)
	if strings.Join(g, "\x00") != strings.Join(want, "\x00") {
		rt.Fatalf("ScanDir(%q) lists %.300q, want %.300q", arg, g, want)
	}
}

func (w *world) createDir(t tree) {
	var ps, args []string
	for n := rapid.IntRange(0, 3).Draw(w.rt, "dirs"); n > 0; n-- {
		p := w.path()
		ps, args = append(ps, p), append(args, w.spell(p))
	}
	w.c.Logf("CreateDir(%q)", ps)
	want := t.clone()
	possible := true
	var loose []string
	for _, p := range ps {
		if possible {
			try := want.clone()
			if possible = try.mkdirs(p); possible {
				want = try
				continue
			}
		}
		loose = append(loose, p) // this one failed, later ones are unspecified
	}
	err := utils.CreateDir(args...)
	if possible != (err == nil) {
		w.rt.Fatalf("CreateDir(%q) gives %v; something in the way: %v", ps, err, !possible)
	}
	w.same(want, func(q string) bool {
		for _, p := range loose {
			if _, had := want[q]; !had && below(p, q) {
				return true
			}
		}
		return false
	})
}

func (w *world) predicates(t tree) {
	p := w.path()
	if rapid.IntRange(0, 15).Draw(w.rt, "root") == 0 {
		p = "."
	}
	arg := w.spell(p)
	_, st := t.resolve(p, true)
	_, lst := t.resolve(p, false)
	w.c.Logf("predicates of %q: %s, %s", arg, st, lst)
	w.c.Label("path is " + lst + "/" + st)
	loop := false
	if _, err := os.Stat(p); err != nil && strings.Contains(err.Error(), "too many levels") {
		loop = true // neither there nor missing: only the types are checked
	}
	there := st == "file" || st == "dir"
	is := func(what string, got, want bool) {
		if got != want {
			w.rt.Fatalf("%s(%q) is %v; it is %s (not followed: %s)", what, arg, got, st, lst)
		}
	}
	is("IsDir", utils.IsDir(arg), st == "dir")
	is("IsFile", utils.IsFile(arg), st == "file")
	if !loop {
		is("FileExist", utils.FileExist(arg), lst == "file" || lst == "link")
		is("FileIsExisted", utils.FileIsExisted(arg), there)
	}
	got, err := utils.PathExists(arg)
	is("PathExists", got, st == "dir")
	if st == "dir" && err != nil || st == "file" && err == nil || st == "missing" && err != nil {
		w.rt.Fatalf("PathExists(%q) gives %v, %v; it is %s", arg, got, err, st)
	}
}

func largeTrees(rt *rapid.T, c *vt.C) {
	root, done := scratch("top")
	defer done()
	ok(os.Chdir(root))
	dir := "top"
	var want, dirs []string
	if rapid.Bool().Draw(rt, "deep") {
		for n := rapid.IntRange(5, 30).Draw(rt, "levels"); n > 0; n-- {
			dir += "/" + vt.Pick(rt, "dir", "d", "x y", ".hidden", "..d", "...", "世界", "-r")
			ok(os.MkdirAll(dir, 0o755))
			dirs = append(dirs, dir)
			for k := rapid.IntRange(0, 2).Draw(rt, "files"); k > 0; k-- {
				p := fmt.Sprintf("%s/f%d", dir, k)
				ok(os.WriteFile(p, nil, 0o644))
				want = append(want, p)
			}
		}
	} else {
		n := rapid.IntRange(0, 300).Draw(rt, "entries")
		for i := 0; i < n; i++ {
			p := fmt.Sprintf("top/%s%d%s", vt.Pick(rt, "head", "", "-", ".", "..", "a\n", "*", "名", "\xff", " "), i, vt.Pick(rt, "tail", "", ".txt", "~", " ", "\\"))
			switch vt.Weighted(rt, "kind", 6, 1, 1) {
			case 0:
				ok(os.WriteFile(p, nil, 0o644))
				want = append(want, p)
			case 1:
				ok(os.Mkdir(p, 0o755))
				dirs = append(dirs, p)
			case 2:
				ok(os.Symlink(vt.Pick(rt, "to", ".", "..", "nowhere"), p))
				want = append(want, p)
			}
		}
	}
	c.Logf("%d files in %d directories", len(want), len(dirs))
	c.NTIf(len(want) >= 20)
	got, err := utils.ScanDir("top")
	if err != nil {
		rt.Fatalf("scanning: %v", err)
	}
	compareLists(rt, "top", got, want)
	if len(dirs) > 0 && os.Geteuid() != 0 {
		d := dirs[rapid.IntRange(0, len(dirs)-1).Draw(rt, "unreadable")]
		ok(os.Chmod(d, 0))
		c.Logf("%q is unreadable", d)
		if got, err := utils.ScanDir("top"); err == nil {
			rt.Fatalf("scanning with the unreadable directory %q gives %.200q and no error", d, got)
		}
		ok(os.Chmod(d, 0o755))
	}
}

func noName(rt *rapid.T, c *vt.C) {
	root, done := scratch("w")
	defer done()
	ok(os.MkdirAll("d/e", 0o755))
	ok(os.WriteFile("d/f", vt.Bytes(50).Draw(rt, "f"), 0o644))
	ok(os.WriteFile("g", vt.Bytes(50).Draw(rt, "g"), 0o644))
	if rapid.Bool().Draw(rt, "below") {
		ok(os.Chdir("d"))
	}
	other := vt.Pick(rt, "other", "new", "g", "f", "e", "../new", "../../new", root+"/new", "n/m/new")
	before := look(root)
	c.NT()
	op := vt.Pick(rt, "op", "move", "move", "copy from", "copy to", "scan", "delete", "mkdir", "md5", "image", "unzip", "zip", "zip of", "csv", "write csv", "predicates")
	var err error
	fails := true
	switch op {
	case "move":
		err = utils.FileMove("", other)
	case "copy from":
		_, err = utils.CopyFile(other, "")
	case "copy to":
		_, err = utils.CopyFile("", other)
	case "scan":
		_, err = utils.ScanDir("")
	case "delete":
		err = utils.DeLFile("")
		fails = false
	case "mkdir":
		err = utils.MkDir("")
	case "md5":
		_, err = utils.FileMd5("")
	case "image":
		fails = false
		if s := utils.ImageFileToBase64(""); s != "" {
			rt.Fatalf("the image of no name is %.100q", s)
		}
	case "unzip":
		_, err = utils.Unzip("", other)
	case "zip":
		err = utils.ZipFiles("", []string{other}, "a", "b")
	case "zip of":
		err = utils.ZipFiles(root+"/archive", []string{""}, "a", "b")
		os.Remove(root + "/archive")
	case "csv":
		fails = false
		if rows := utils.ReadCsv(""); rows != nil && len(*rows) > 0 {
			rt.Fatalf("the table of no name holds %v", *rows)
		}
	case "write csv":
		err = utils.WriteCsv("", []string{"a"})
	case "predicates":
		fails = false
		exists, perr := utils.PathExists("")
		if exists || perr != nil || utils.FileExist("") || utils.FileIsExisted("") || utils.IsDir("") || utils.IsFile("") {
			rt.Fatalf("the empty path is said to exist")
		}
	}
	c.Logf("%s, other %q: %v", op, other, err)
	if fails && err == nil {
		rt.Fatalf("%s an empty path succeeds", op)
	}
	after := look(root)
	if s := after.compare(before, func(p string) bool { _, was := before[p]; return !was }); s != "" {
		rt.Fatalf("%s an empty path: %s", op, s)
	}
	if op != "move" && op != "copy from" { // missing parents may have been made
		if s := after.compare(before, nil); s != "" {
			rt.Fatalf("%s an empty path: %s", op, s)
		}
	}
}

func movesAcross(rt *rapid.T, c *vt.C) {
	here, done := scratch("w")
	defer done()
	there := must(os.MkdirTemp("", "fs-"))
	there = must(filepath.EvalSymlinks(there))
	defer os.RemoveAll(there)
	data := vt.Big(100000, 1<<20, 100).Draw(rt, "content")
	kind := vt.Pick(rt, "kind", "file", "file", "link", "dir")
	switch kind {
	case "file":
		ok(os.WriteFile("x", data, 0o644))
	case "link":
		ok(os.WriteFile("y", data, 0o644))
		ok(os.Symlink(vt.Pick(rt, "to", "y", "nowhere", here+"/w/y"), "x"))
	case "dir":
		ok(os.MkdirAll("x/sub", 0o755))
		ok(os.WriteFile("x/sub/f", data, 0o644))
		ok(os.WriteFile("x/g", nil, 0o644))
	}
	ok(os.WriteFile(there+"/bystander", []byte("b"), 0o644))
	dst := there + "/" + vt.Pick(rt, "name", "x", "new/parents/x", "z")
	held := vt.Weighted(rt, "held", 2, 2, 1)
	if filepath.Dir(dst) == there {
		switch held {
		case 1:
			ok(os.WriteFile(dst, vt.Big(200000, 1<<20, 100).Draw(rt, "older"), 0o644))
		case 2:
			ok(os.Symlink("bystander", dst))
		}
	}
	a, b := must(os.Lstat(here)), must(os.Lstat(there))
	across := a.Sys().(*syscall.Stat_t).Dev != b.Sys().(*syscall.Stat_t).Dev
	c.NTIf(across)
	c.LabelIf(across, kind+" to another file system")
	before := look(here)
	err := utils.FileMove("x", dst)
	c.Logf("move a %s to another file system: %v: %v", kind, across, err)
	after := look(here)
	if err != nil {
		if s := after.compare(before, nil); s != "" {
			rt.Fatalf("a move to %q fails (%v), but at the source %s", dst, err, s)
		}
	} else {
		if got := look(dst); before["w/x"].kind == "link" {
			if got["."] != before["w/x"] {
				rt.Fatalf("moving a link: %q holds %v", dst, got)
			}
		} else {
			for p, n := range before {
				rel, err := filepath.Rel("w/x", p)
				if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
					continue
				}
				if g := got[rel]; g.kind != n.kind || g.data != n.data {
					rt.Fatalf("after moving, %q at the destination is a %s %.60q, want a %s %.60q", rel, g.kind, g.data, n.kind, n.data)
				}
				delete(got, rel)
			}
			if len(got) > 0 {
				rt.Fatalf("after moving the destination also holds %v", got)
			}
		}
		for p := range before {
			if p == "w/x" || strings.HasPrefix(p, "w/x/") {
				delete(before, p)
			}
		}
		if s := after.compare(before, nil); s != "" {
			rt.Fatalf("after moving to %q: %s", dst, s)
		}
	}
	if got := text(os.ReadFile(there + "/bystander")); got != "b" {
		rt.Fatalf("the file beside the destination holds %q", got)
	}
}

func copies(rt *rapid.T, c *vt.C) {
	_, done := scratch("w")
	defer done()
	data := vt.Big(300000, 3<<20, 100).Draw(rt, "source")
	ok(os.WriteFile("src", data, 0o644))
	dst := "dst"
	self := false
	kind := vt.Weighted(rt, "destination", 2, 4, 1, 1, 1)
	switch kind {
	case 1:
		old := vt.Big(300000, 3<<20, 100).Draw(rt, "older")
		ok(os.WriteFile(dst, old, vt.Pick[fs.FileMode](rt, "mode", 0o644, 0o600)))
	case 2:
		dst, self = vt.Pick(rt, "name", "src", "./src", "../w/src"), true
	case 3:
		ok(os.Link("src", dst))
		self = true
	case 4:
		ok(os.Symlink("src", dst))
		self = true
	}
	limit := -1
	if rapid.IntRange(0, 2).Draw(rt, "limited") == 0 {
		limit = rapid.IntRange(0, len(data)+1).Draw(rt, "limit")
		if limit == len(data) { // copy_file_range fails at the limit even with nothing left to copy
			limit++
		}
	}
	if rapid.IntRange(0, 19).Draw(rt, "failing") == 0 { // reading /proc/self/mem from its start fails
		c.Logf("copy a source that cannot be read")
		if n, err := utils.CopyFile(dst, "/proc/self/mem"); err == nil {
			rt.Fatalf("copying a source that cannot be read reports %d bytes", n)
		}
		return
	}
	c.Logf("copy %d bytes onto kind %d, limit %d", len(data), kind, limit)
	c.NTIf(kind > 0 || limit >= 0 && limit < len(data))
	c.LabelIf(self, "onto itself")
	var n int64
	var err error
	if limit >= 0 {
		limited(fileSize, uint64(limit), func() { n, err = utils.CopyFile(dst, "src") })
	} else {
		n, err = utils.CopyFile(dst, "src")
	}
	if got := left(rt, "src", os.ReadFile); !bytes.Equal(got, data) {
		rt.Fatalf("copying %d bytes (error %v) leaves the source with %d bytes", len(data), err, len(got))
	}
	if limit >= 0 && limit < len(data) {
		if err == nil && !self {
			rt.Fatalf("copying %d bytes with room for %d succeeds", len(data), limit)
		}
		return
	}
	if err != nil {
		rt.Fatalf("copying %d bytes: %v", len(data), err)
	}
	if n != int64(len(data)) {
		rt.Fatalf("copying %d bytes reports %d", len(data), n)
	}
	if got := left(rt, dst, os.ReadFile); !bytes.Equal(got, data) {
		rt.Fatalf("the copy of %d bytes has %d, equal: false", len(data), len(got))
	}
}
