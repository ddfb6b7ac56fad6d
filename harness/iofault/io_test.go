package iofault

import (
	"archive/zip"
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/csv"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	"vharness/vt"
)

func TestC44(t *testing.T) {
	vt.Check(t, "uploads", "a process storing the chunks of an upload in drawn order (some again with other content), assembling and removing it dies at a drawn system call, possibly after half a write; another process takes up the work with the call that was cut off, and the result is the whole file; then the upload is removed and the name used for a shorter one; another upload stays whole throughout; non-trivial: it died after at least one chunk was stored",
		24, 1000, killedUploads)
	vt.Check(t, "files", "a process that copies, moves, deletes, archives, extracts, makes directories or appends rows dies at a drawn system call; sources are unchanged, a moved file is whole under one of its names, rows written before are the first of the table, and doing it again completes it; non-trivial: it died after the first call that changes something",
		40, 2000, killedFiles)
}

func TestC45(t *testing.T) {
	vt.Check(t, "failing calls", "one helper call during which one system call, or all from one on, fail (EIO, ENOSPC, EACCES, EMFILE, ENOMEM, EROFS, EXDEV, ...); if it reports success, its effect and result are complete; in any case its sources are unchanged, and after a single failure doing it again completes it; non-trivial: a system call failed",
		50, 2500, failingCalls)
	vt.Check(t, "partial calls", "one helper call during which a read, write or copy transfers only part of what was asked for, which is no failure; it must succeed with the full effect and result; non-trivial: a transfer was cut",
		36, 1800, partialCalls)
}

// ---- a directory with known contents

type world struct {
	top, dir string
	files    map[string][]byte
}

func newWorld() *world {
	top := must(os.MkdirTemp(os.Getenv("VT_SCRATCH"), "io"))
	w := &world{top: top, dir: filepath.Join(top, "w"), files: map[string][]byte{}}
	ok(os.Mkdir(w.dir, 0o755))
	return w
}

func (w *world) remove() { os.RemoveAll(w.top) }

func (w *world) path(p string) string {
	if filepath.IsAbs(p) {
		return p
	}
	return filepath.Join(w.dir, p)
}

func (w *world) put(name string, b []byte) {
	ok(os.MkdirAll(filepath.Dir(w.path(name)), 0o755))
	ok(os.WriteFile(w.path(name), b, 0o644))
	w.files[name] = b
}

// changed names the first of the known files that does not hold what it held.
func (w *world) changed() string {
	var names []string
	for n := range w.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b, err := os.ReadFile(w.path(n))
		if err != nil {
			return fmt.Sprintf("%s is gone: %v", n, err)
		}
		if !bytes.Equal(b, w.files[n]) {
			return fmt.Sprintf("%s has %d bytes, other ones than before", n, len(b))
		}
	}
	return ""
}

func (w *world) save() { ok(os.CopyFS(w.dir+".saved", os.DirFS(w.dir))) }

func (w *world) restore() {
	ok(os.RemoveAll(w.dir))
	ok(os.CopyFS(w.dir, os.DirFS(w.dir+".saved")))
}

// here performs ops in this process and directory.
func (w *world) here(o op) result {
	cwd := must(os.Getwd())
	ok(os.Chdir(w.dir))
	defer func() { ok(os.Chdir(cwd)) }()
	return o.do()
}

func content(rt *rapid.T, label string) []byte {
	n := 0
	switch vt.Weighted(rt, label+" size", 1, 5, 2, 1) {
	case 1:
		n = rapid.IntRange(1, 3000).Draw(rt, label)
	case 2:
		n = rapid.IntRange(3000, 40000).Draw(rt, label)
	case 3:
		n = rapid.IntRange(60000, 200000).Draw(rt, label)
	}
	b := vt.Fill(rt, n)
	if rapid.Bool().Draw(rt, label+" repetitive") {
		for i := range b {
			b[i] = byte(i / 100)
		}
	}
	return b
}

func noCrash(rt *rapid.T, o outcome, ops []op) {
	if o.crash != "" {
		if len(o.crash) > 2000 {
			o.crash = o.crash[:2000]
		}
		rt.Fatalf("%v: the helper panicked after %s: %s", ops, o.hit, o.crash)
	}
}

// ---- death

// places draws up to most of the calls of an undisturbed run, all when there are no more.
func places(rt *rapid.T, calls []string, most int, fit func(string) bool) []int {
	var all []int
	for i, c := range calls {
		if fit(c) {
			all = append(all, i)
		}
	}
	if len(all) <= most {
		return all
	}
	at := rapid.Permutation(all).Draw(rt, "places")[:most]
	slices.Sort(at)
	return at
}

func anyCall(string) bool { return true }

func sized(name string) bool {
	for _, s := range table {
		if s.name == name {
			return s.size > 0
		}
	}
	return false
}

func deathPlan(rt *rapid.T, at int, call string) plan {
	p := plan{kind: kill, at: at}
	if sized(call) && rapid.Bool().Draw(rt, "in the middle") {
		p.kind = cutKill
		p.part = uint64(rapid.IntRange(0, 70000).Draw(rt, "after"))
	}
	return p
}

func killedUploads(rt *rapid.T, c *vt.C) {
	w := newWorld()
	defer w.remove()
	name, digest := vt.Pick(rt, "name", "f", "f_1", "a b.bin", "文件"), vt.Pick(rt, "digest", "d41d8c", "x", "0_0")
	other, otherDigest := vt.Pick(rt, "other name", "f", "f_1", "g"), vt.Pick(rt, "other digest", "d41d8cd9", "d41d8c", "y")
	shared := digest == otherDigest
	if shared && other == name {
		other = "zz"
	}
	// the other upload is complete but not assembled
	var otherWhole []byte
	for i := range 2 {
		b := content(rt, "other chunk")
		otherWhole = append(otherWhole, b...)
		if r := w.here(op{Kind: "store", A: other, B: otherDigest, N: i, Data: b}); r.Err != "" {
			rt.Fatalf("storing: %s", r.Err)
		}
	}
	n := rapid.IntRange(1, 12).Draw(rt, "chunks")
	order := rapid.Permutation(seq(n)).Draw(rt, "order")
	var ops []op
	final := make([][]byte, n)
	for _, k := range order {
		if rapid.IntRange(0, 5).Draw(rt, "twice") == 0 {
			ops = append(ops, op{Kind: "store", A: name, B: digest, N: k, Data: content(rt, "chunk")})
		}
		final[k] = content(rt, "chunk")
		ops = append(ops, op{Kind: "store", A: name, B: digest, N: k, Data: final[k]})
	}
	whole := bytes.Join(final, nil)
	ops = append(ops, op{Kind: "make", A: name, B: digest})
	if rapid.IntRange(0, 3).Draw(rt, "older") == 0 {
		w.put("fileDir/"+name, vt.Fill(rt, rapid.IntRange(0, 100000).Draw(rt, "older size")))
		w.files = map[string][]byte{}
	}
	removes := !shared && rapid.Bool().Draw(rt, "removes")
	if removes {
		ops = append(ops, op{Kind: "remove", A: digest})
	}
	// at most a few of the steps run in the process that dies, so that a drawn point is often a late one
	start := 0
	if rapid.Bool().Draw(rt, "late") {
		start = rapid.IntRange(max(0, len(ops)-4), len(ops)-1).Draw(rt, "start")
		for _, o := range ops[:start] {
			if r := w.here(o); r.Err != "" {
				rt.Fatalf("%v: %s", o, r.Err)
			}
		}
	}
	w.save()
	dry := run(w.dir, ops[start:], plan{})
	noCrash(rt, dry, ops)
	for _, at := range places(rt, dry.calls, 8, anyCall) {
		w.restore()
		killedUpload(rt, c, w, upload{ops, start, name, digest, whole, other, otherDigest, otherWhole, removes, shared}, deathPlan(rt, at, dry.calls[at]))
	}
}

type upload struct {
	ops                []op
	start              int
	name, digest       string
	whole              []byte
	other, otherDigest string
	otherWhole         []byte
	removes, shared    bool
}

func killedUpload(rt *rapid.T, c *vt.C, w *world, u upload, p plan) {
	ops, start, name, digest, other := u.ops, u.start, u.name, u.digest, u.other
	out := run(w.dir, ops[start:], p)
	noCrash(rt, out, ops)
	c.Logf("%v; dies at %s, call %d, during step %d (%d bytes)", ops[start:], out.hit, len(out.calls), start+out.begun, len(u.whole))
	next := start
	if out.killed {
		c.LabelIf(true, "died in "+ops[start+max(out.begun, 1)-1].Kind)
		c.NTIf(start+out.begun > 1)
		next = start + max(out.begun, 1) - 1
	} else {
		for i, r := range out.results {
			if r.Err != "" {
				rt.Fatalf("%v failed although no call did: %s", ops[start+i], r.Err)
			}
		}
		next = len(ops)
	}
	check := func(name string, want []byte, what string) {
		b, err := os.ReadFile(w.path("fileDir/" + name))
		if err != nil || !bytes.Equal(b, want) {
			rt.Fatalf("%s: the assembled file has %d bytes of %d, equal: %v, %v", what, len(b), len(want), bytes.Equal(b, want), err)
		}
	}
	made := next > 0 && ops[next-1].Kind == "make" || next == len(ops) || ops[next].Kind == "remove"
	if made {
		check(name, u.whole, "after the assembly")
	}
	for _, o := range ops[next:] {
		if r := w.here(o); r.Err != "" {
			rt.Fatalf("taking up the work, %v: %s", o, r.Err)
		}
		if o.Kind == "make" {
			check(name, u.whole, "taken up after a death")
		}
	}
	if !u.removes {
		// assembling again must still be possible
		if r := w.here(op{Kind: "make", A: name, B: digest}); r.Err != "" {
			rt.Fatalf("assembling again: %s", r.Err)
		}
		check(name, u.whole, "assembled again")
	}
	if r := w.here(op{Kind: "make", A: other, B: u.otherDigest}); r.Err != "" {
		rt.Fatalf("assembling the other upload: %s", r.Err)
	}
	check(other, u.otherWhole, "the other upload")
	if !u.shared {
		if !u.removes {
			if r := w.here(op{Kind: "remove", A: digest}); r.Err != "" {
				rt.Fatalf("removing the chunks: %s", r.Err)
			}
		}
		// nothing of the old upload may be left
		b := content(rt, "short")
		for _, o := range []op{{Kind: "store", A: name, B: digest, N: 0, Data: b}, {Kind: "make", A: name, B: digest}} {
			if r := w.here(o); r.Err != "" {
				rt.Fatalf("a new upload, %v: %s", o, r.Err)
			}
		}
		check(name, b, "a new upload after the old one was removed")
		if r := w.here(op{Kind: "remove", A: digest}); r.Err != "" {
			rt.Fatalf("removing the chunks of the new upload: %s", r.Err)
		}
	}
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// task is one operation with its oracle.
type task struct {
	op     op
	good   func(r result) string // what is missing from its effect and result
	table  [][]string            // the rows a table held before
	repeat bool                  // doing it again completes it
}

func row(rt *rapid.T) []string {
	r := rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b c", "x,y", "\"q\"", "l1\nl2", " s ", "长"}), 1, 5).Draw(rt, "row")
	if rapid.IntRange(0, 2).Draw(rt, "long") == 0 {
		r = append(r, strings.Repeat("ab", rapid.IntRange(1000, 9000).Draw(rt, "length")), "end")
	}
	if len(r) == 1 && r[0] == "" {
		r[0] = "x" // a line of one empty field is a blank line
	}
	return r
}

// rowsOf reads as many rows as can be read.
func rowsOf(b []byte) (rows [][]string) {
	cr := csv.NewReader(bytes.NewReader(b))
	cr.FieldsPerRecord = -1
	for {
		r, err := cr.Read()
		if err != nil {
			return rows
		}
		rows = append(rows, r)
	}
}

func sameRows(a, b [][]string) bool { return slices.EqualFunc(a, b, slices.Equal) }

func (w *world) holds(path string, want []byte) string {
	b, err := os.ReadFile(w.path(path))
	if err != nil {
		return err.Error()
	}
	if !bytes.Equal(b, want) {
		return fmt.Sprintf("%s holds %d bytes, want %d", path, len(b), len(want))
	}
	return ""
}

func (w *world) gone(path string) string {
	if _, err := os.Lstat(w.path(path)); err == nil {
		return path + " is still there"
	}
	return ""
}

var (
	changing = []string{"copy", "copy", "zip", "zip", "unzip", "unzip", "csv", "csv", "move", "delete", "createdir", "mkdir"}
	anyKind  = append(slices.Clip(changing), "store", "make", "make", "remove", "readcsv", "md5", "image", "scan", "exists")
	moving   = []string{"copy", "zip", "unzip", "csv", "store", "make", "readcsv", "md5", "image"} // that move data
)

func drawTask(rt *rapid.T, w *world, kinds []string) task {
	kind := rapid.SampledFrom(kinds).Draw(rt, "kind")
	w.put("bystander/one", []byte("one"))
	w.put("bystander/two", []byte("two"))
	tk := task{op: op{Kind: kind}, repeat: true}
	ready := func(o op) {
		if r := w.here(o); r.Err != "" {
			rt.Fatalf("preparing, %v: %s", o, r.Err)
		}
	}
	switch kind {
	case "copy":
		b := content(rt, "content")
		w.put("from", b)
		to := vt.Pick(rt, "to", "to", "bystander/copy")
		if rapid.Bool().Draw(rt, "over") {
			ok(os.WriteFile(w.path(to), vt.Fill(rt, rapid.IntRange(0, 250000).Draw(rt, "older size")), 0o644))
		}
		tk.op.A, tk.op.B = "from", to
		tk.good = func(r result) string {
			if r.Text != fmt.Sprint(len(b)) {
				return "it reports " + r.Text + " bytes"
			}
			return w.holds(to, b)
		}
	case "zip":
		tk.op.A = "out.zip"
		for i := range rapid.IntRange(0, 4).Draw(rt, "files") {
			n := fmt.Sprintf("in/%d.dat", i)
			w.put(n, content(rt, "content"))
			tk.op.List = append(tk.op.List, n)
		}
		if rapid.Bool().Draw(rt, "over") {
			ok(os.WriteFile(w.path("out.zip"), vt.Fill(rt, rapid.IntRange(0, 50000).Draw(rt, "older size")), 0o644))
		}
		list := tk.op.List
		tk.good = func(r result) string {
			z, err := zip.OpenReader(w.path("out.zip"))
			if err != nil {
				return "the archive: " + err.Error()
			}
			defer z.Close()
			if len(z.File) != len(list) {
				return fmt.Sprintf("the archive has %d entries, want %d", len(z.File), len(list))
			}
			for i, f := range z.File {
				rc, err := f.Open()
				if err != nil {
					return err.Error()
				}
				b, err := io.ReadAll(rc)
				rc.Close()
				if err != nil || f.Name != list[i] || !bytes.Equal(b, w.files[list[i]]) {
					return fmt.Sprintf("entry %q has %d bytes, %v", f.Name, len(b), err)
				}
			}
			return ""
		}
	case "unzip":
		var buf bytes.Buffer
		z := zip.NewWriter(&buf)
		var want []string
		contents := map[string][]byte{}
		for i := range rapid.IntRange(0, 4).Draw(rt, "entries") {
			n := fmt.Sprintf("%s%d.dat", vt.Pick(rt, "in", "", "sub/", "a/b/"), i)
			if rapid.IntRange(0, 4).Draw(rt, "directory") == 0 {
				n = fmt.Sprintf("dir%d/", i)
				must(z.Create(n))
				want = append(want, filepath.Join("to", n))
				continue
			}
			e := must(z.CreateHeader(&zip.FileHeader{Name: n, Method: uint16(vt.Pick(rt, "method", 0, 8))}))
			contents[n] = content(rt, "content")
			must(e.Write(contents[n]))
			want = append(want, filepath.Join("to", n))
			if rapid.IntRange(0, 3).Draw(rt, "older") == 0 {
				ok(os.MkdirAll(filepath.Dir(w.path("to/"+n)), 0o755))
				ok(os.WriteFile(w.path("to/"+n), vt.Fill(rt, 5000), 0o644))
			}
		}
		ok(z.Close())
		w.put("in.zip", buf.Bytes())
		tk.op.A, tk.op.B = "in.zip", "to"
		tk.good = func(r result) string {
			if !slices.Equal(r.List, want) {
				return fmt.Sprintf("it returns %q, want %q", r.List, want)
			}
			for n, b := range contents {
				if s := w.holds("to/"+n, b); s != "" {
					return s
				}
			}
			for _, p := range want {
				if _, err := os.Stat(w.path(p)); err != nil {
					return err.Error()
				}
			}
			return ""
		}
	case "csv":
		tk.op.A, tk.op.List = "t.csv", row(rt)
		for range rapid.IntRange(0, 3).Draw(rt, "rows before") {
			r := row(rt)
			ready(op{Kind: "csv", A: "t.csv", List: r})
			tk.table = append(tk.table, r)
		}
		if len(tk.table) > 0 && rapid.Bool().Draw(rt, "open end") {
			b := must(os.ReadFile(w.path("t.csv")))
			ok(os.WriteFile(w.path("t.csv"), bytes.TrimRight(b, "\r\n"), 0o644))
		}
		tk.repeat = false // a part of a row may be left
		before, add := tk.table, tk.op.List
		tk.good = func(r result) string {
			b, err := os.ReadFile(w.path("t.csv"))
			if err != nil {
				return err.Error()
			}
			if got := rowsOf(b); !sameRows(got, append(slices.Clone(before), add)) {
				return fmt.Sprintf("the table has %d rows, want the %d from before and the new one", len(got), len(before))
			}
			return ""
		}
	case "readcsv":
		tk.op.A = "t.csv"
		var rows [][]string
		for range rapid.IntRange(0, 4).Draw(rt, "rows") {
			r := []string{"k", strings.Repeat("v", rapid.IntRange(0, 5000).Draw(rt, "length"))}
			ready(op{Kind: "csv", A: "t.csv", List: r})
			rows = append(rows, r)
		}
		if len(rows) == 0 {
			w.put("t.csv", nil)
		} else {
			w.put("t.csv", must(os.ReadFile(w.path("t.csv"))))
		}
		tk.good = func(r result) string {
			if r.Nil || !sameRows(r.Rows, rows) {
				return fmt.Sprintf("it returns %d rows of %d, nothing: %v", len(r.Rows), len(rows), r.Nil)
			}
			return ""
		}
	case "move":
		b := content(rt, "content")
		ok(os.WriteFile(w.path("from"), b, 0o644))
		to := vt.Pick(rt, "to", "to", "new/dir/to", "bystander/to")
		if rapid.Bool().Draw(rt, "over") && to != "new/dir/to" {
			ok(os.WriteFile(w.path(to), []byte("older"), 0o644))
		}
		tk.op.A, tk.op.B = "from", to
		tk.good = func(r result) string {
			if s := w.gone("from"); s != "" {
				return s
			}
			return w.holds(to, b)
		}
	case "delete":
		tk.op.A = "tree"
		ok(os.MkdirAll(w.path("tree/a/b"), 0o755))
		for i := range rapid.IntRange(0, 5).Draw(rt, "files") {
			ok(os.WriteFile(w.path(fmt.Sprintf("tree/%s%d", vt.Pick(rt, "in", "", "a/", "a/b/"), i)), nil, 0o644))
		}
		tk.good = func(result) string { return w.gone("tree") }
	case "createdir":
		for i := range rapid.IntRange(1, 4).Draw(rt, "dirs") {
			tk.op.List = append(tk.op.List, fmt.Sprintf("%s%d", vt.Pick(rt, "in", "d", "p/q/d", "bystander/d"), i))
		}
		list := tk.op.List
		tk.good = func(result) string {
			for _, d := range list {
				if s, err := os.Stat(w.path(d)); err != nil || !s.IsDir() {
					return d + " is not there"
				}
			}
			return ""
		}
	case "mkdir":
		d := vt.Pick(rt, "dir", "d", "p/q/d", "bystander/d")
		tk.op.A = d
		tk.good = func(result) string {
			if s, err := os.Stat(w.path(d)); err != nil || !s.IsDir() {
				return d + " is not there"
			}
			return ""
		}
	case "store", "make", "remove":
		n := rapid.IntRange(1, 5).Draw(rt, "chunks")
		var whole []byte
		k := rapid.IntRange(0, n-1).Draw(rt, "which")
		for i := range n {
			b := content(rt, "chunk")
			whole = append(whole, b...)
			o := op{Kind: "store", A: "up", B: "d1", N: i, Data: b}
			if i == k && kind == "store" {
				tk.op = o
				if rapid.Bool().Draw(rt, "again") {
					o.Data = content(rt, "older chunk")
					ready(o)
				}
				continue
			}
			ready(o)
		}
		ready(op{Kind: "store", A: "up", B: "d2", N: 0, Data: []byte("other")})
		assembled := func(digest string, want []byte) string {
			if r := w.here(op{Kind: "make", A: "up", B: digest}); r.Err != "" {
				return "assembling: " + r.Err
			}
			return w.holds("fileDir/up", want)
		}
		otherWhole := func() string {
			if s := assembled("d2", []byte("other")); s != "" {
				return "the other upload: " + s
			}
			return ""
		}
		switch kind {
		case "store":
			tk.good = func(result) string {
				if s := assembled("d1", whole); s != "" {
					return s
				}
				return otherWhole()
			}
		case "make":
			tk.op.A, tk.op.B = "up", "d1"
			if rapid.Bool().Draw(rt, "older") {
				ok(os.MkdirAll(w.path("fileDir"), 0o755))
				ok(os.WriteFile(w.path("fileDir/up"), vt.Fill(rt, 5000), 0o644))
			}
			tk.good = func(result) string { return w.holds("fileDir/up", whole) }
		case "remove":
			tk.op.A = "d1"
			tk.good = func(result) string {
				b := []byte("anew")
				if r := w.here(op{Kind: "store", A: "up", B: "d1", N: 0, Data: b}); r.Err != "" {
					return r.Err
				}
				if s := assembled("d1", b); s != "" {
					return "a new upload: " + s
				}
				return otherWhole()
			}
		}
	case "md5", "image":
		b := content(rt, "content")
		w.put("from", b)
		tk.op.A = "from"
		want := fmt.Sprintf("%x", md5.Sum(b))
		if kind == "image" {
			want = "data:image/png;base64," + base64.StdEncoding.EncodeToString(b)
		}
		tk.good = func(r result) string {
			if r.Text != want {
				return fmt.Sprintf("it returns %.80q, want %.80q", r.Text, want)
			}
			return ""
		}
	case "scan":
		tk.op.A = "tree"
		var want []string
		ok(os.MkdirAll(w.path("tree/empty"), 0o755))
		for i := range rapid.IntRange(0, 8).Draw(rt, "files") {
			n := fmt.Sprintf("tree/%s%d", vt.Pick(rt, "in", "", "a/", "a/b/"), i)
			w.put(n, nil)
			want = append(want, n)
		}
		sort.Strings(want)
		tk.good = func(r result) string {
			got := slices.Sorted(slices.Values(r.List))
			if !slices.Equal(got, want) {
				return fmt.Sprintf("it returns %q, want %q", got, want)
			}
			return ""
		}
	case "exists":
		tk.op.A = vt.Pick(rt, "path", "bystander", "missing", "missing/inner")
		want := fmt.Sprint(tk.op.A == "bystander")
		tk.good = func(r result) string {
			if r.Text != want {
				return "it returns " + r.Text
			}
			return ""
		}
	}
	return tk
}

// intact requires what holds however a task ended.
func (tk task) intact(rt *rapid.T, w *world, what string) {
	if s := w.changed(); s != "" {
		rt.Fatalf("%v, %s: %s", tk.op, what, s)
	}
	if tk.op.Kind == "csv" && len(tk.table) > 0 {
		b := must(os.ReadFile(w.path("t.csv")))
		if got := rowsOf(b); len(got) < len(tk.table) || !sameRows(got[:len(tk.table)], tk.table) {
			rt.Fatalf("%v, %s: of the %d rows from before, %d can be read", tk.op, what, len(tk.table), len(got))
		}
	}
}

func (tk task) again(rt *rapid.T, w *world, what string) {
	if !tk.repeat {
		return
	}
	r := w.here(tk.op)
	if r.Err != "" {
		rt.Fatalf("%v, done again %s, fails: %s", tk.op, what, r.Err)
	}
	if s := tk.good(r); s != "" {
		rt.Fatalf("%v, done again %s: %s", tk.op, what, s)
	}
	tk.intact(rt, w, "done again "+what)
}

func killedFiles(rt *rapid.T, c *vt.C) {
	w := newWorld()
	defer w.remove()
	tk := drawTask(rt, w, changing)
	var moved []byte
	if tk.op.Kind == "move" {
		moved = must(os.ReadFile(w.path("from")))
	}
	dry := undisturbed(rt, w, tk)
	for _, at := range places(rt, dry.calls, 10, anyCall) {
		w.restore()
		out := run(w.dir, []op{tk.op}, deathPlan(rt, at, dry.calls[at]))
		noCrash(rt, out, []op{tk.op})
		c.Logf("%v dies at %s after%s", tk.op, out.hit, tally(out.calls))
		c.LabelIf(out.killed, "died in "+tk.op.Kind)
		what := fmt.Sprintf("dying at call %d (%s)", len(out.calls), out.hit)
		tk.intact(rt, w, what)
		if !out.killed {
			continue
		}
		c.NTIf(len(out.calls) > 1)
		if moved != nil {
			if w.gone("from") == "" { // it is not there any more
				if s := w.holds(tk.op.B, moved); s != "" {
					rt.Fatalf("%v, %s: the old name is gone, the new one: %s", tk.op, what, s)
				}
				continue
			}
			if s := w.holds("from", moved); s != "" {
				rt.Fatalf("%v, %s: %s", tk.op, what, s)
			}
		}
		tk.again(rt, w, "after "+what)
	}
}

// undisturbed saves the world and performs the task once.
func undisturbed(rt *rapid.T, w *world, tk task) outcome {
	w.save()
	out := run(w.dir, []op{tk.op}, plan{})
	noCrash(rt, out, []op{tk.op})
	if r := out.results[0]; r.Err != "" {
		rt.Fatalf("%v failed although no call did: %s", tk.op, r.Err)
	} else if s := tk.good(r); s != "" {
		rt.Fatalf("%v: %s", tk.op, s)
	}
	return out
}

// ---- failures

func failingCalls(rt *rapid.T, c *vt.C) {
	w := newWorld()
	defer w.remove()
	tk := drawTask(rt, w, anyKind)
	dry := undisturbed(rt, w, tk)
	for _, at := range places(rt, dry.calls, 10, anyCall) {
		p := plan{kind: fail, at: at,
			errno: vt.Pick(rt, "error", syscall.EIO, syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EMFILE, syscall.ENOMEM, syscall.EROFS, syscall.EDQUOT, syscall.ESTALE, syscall.EXDEV, syscall.EPERM, syscall.EBUSY, syscall.ENXIO)}
		if rapid.IntRange(0, 2).Draw(rt, "many") == 0 {
			p.kind = failMany
		}
		w.restore()
		out := run(w.dir, []op{tk.op}, p)
		noCrash(rt, out, []op{tk.op})
		r := out.results[0]
		c.Logf("%v, %v at call %d (%s), many: %v: %q", tk.op, p.errno, p.at, out.hit, p.kind == failMany, r.Err)
		c.NTIf(out.hit != "")
		c.LabelIf(out.hit != "", out.hit+" fails")
		c.LabelIf(r.Err != "", tk.op.Kind+" reports it")
		what := fmt.Sprintf("with %v at call %d (%s), many: %v", p.errno, p.at, out.hit, p.kind == failMany)
		refused := r.Err != "" || tk.op.Kind == "readcsv" && r.Nil || tk.op.Kind == "image" && r.Text == ""
		if !refused {
			if s := tk.good(r); s != "" {
				rt.Fatalf("%v, %s, reports success, but %s", tk.op, what, s)
			}
			tk.intact(rt, w, what)
			continue
		}
		if out.hit == "" {
			rt.Fatalf("%v fails although no call did: %s", tk.op, r.Err)
		}
		tk.intact(rt, w, what)
		if p.kind == fail {
			tk.again(rt, w, "after a failure "+what)
		}
	}
}

func partialCalls(rt *rapid.T, c *vt.C) {
	w := newWorld()
	defer w.remove()
	tk := drawTask(rt, w, moving)
	dry := undisturbed(rt, w, tk)
	for _, at := range places(rt, dry.calls, 8, sized) {
		p := plan{kind: shorten, at: at,
			part: uint64(vt.Pick(rt, "part", 0, 1, 7, 511, 4095, rapid.IntRange(0, 70000).Draw(rt, "bytes")))}
		w.restore()
		out := run(w.dir, []op{tk.op}, p)
		noCrash(rt, out, []op{tk.op})
		r := out.results[0]
		c.Logf("%v, %s from call %d on cut to %d", tk.op, out.hit, p.at, p.part)
		c.NTIf(out.hit != "")
		c.LabelIf(out.hit != "", out.hit+" is cut")
		what := fmt.Sprintf("with a %s that transfers only a part", out.hit)
		if r.Err != "" {
			rt.Fatalf("%v fails, %s: %s", tk.op, what, r.Err)
		}
		if s := tk.good(r); s != "" {
			rt.Fatalf("%v, %s: %s", tk.op, what, s)
		}
		tk.intact(rt, w, what)
	}
}
