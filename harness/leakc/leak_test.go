// Package leakc checks that the helpers release whatever they acquire (C41).
package leakc

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

var home string

func TestMain(m *testing.M) {
	signal.Ignore(syscall.SIGXFSZ) // a write beyond RLIMIT_FSIZE must fail, not end the process
	// a forgotten *os.File is closed by the collector at some time; here it stays visible
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	var err error
	if home, err = os.Getwd(); err != nil {
		vt.Harness("getwd: %v", err)
	}
	vt.Main(m)
}

func ok(err error) {
	if err != nil {
		vt.Harness("%v", err)
	}
}

func must[T any](v T, err error) T { ok(err); return v }

func TestC41(t *testing.T) {
	vt.Check(t, "files", "one to eight calls of the file, archive, table-file and upload helpers on files that are whole, damaged, missing, unreadable, directories or devices, with full devices, too small file limits and as many spare descriptors as zero to three; after each call the process holds exactly the descriptors, children, goroutines and temporary files it held before; non-trivial: at least one call that got as far as opening something, and one that failed",
		4500, 150000, files)
	vt.Check(t, "shell", "one to three scripts ending in success or failure, with outputs of up to 200 kB and scripts of up to 200 kB that end early, without a shell to be found or with too few descriptors for the pipes; after each the same must be held as before; non-trivial: a failure",
		240, 6000, shell)
	vt.Check(t, "database", "one to eight inserts, updates and deletes with failures injected at the statement, the begin or the commit, or a record the helper refuses; after each the connection pool has every connection back and no transaction is open; non-trivial: a failing call",
		1500, 60000, database)
}

// ---- what the process holds

type held struct {
	fds   map[string]int // by target
	where map[string]string
	gos   int
	temp  []string
	cwd   string
}

// descriptors lists the open ones with what they are, except the one used for listing.
func descriptors() map[string]string {
	d, err := os.Open("/proc/self/fd")
	ok(err)
	names, err := d.Readdirnames(-1)
	ok(err)
	self := strconv.Itoa(int(d.Fd()))
	d.Close()
	out := map[string]string{}
	for _, n := range names {
		if n == self {
			continue
		}
		if to, err := os.Readlink("/proc/self/fd/" + n); err == nil {
			out[n] = to
		}
	}
	return out
}

func hold() held {
	h := held{fds: map[string]int{}, gos: runtime.NumGoroutine()}
	for _, to := range descriptors() {
		h.fds[to]++
	}
	h.temp = names(os.TempDir())
	h.cwd, _ = os.Getwd()
	return h
}

func names(dir string) []string {
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out
}

// child reports whether the process has a child, running or not yet waited for.
func child() bool {
	var info [128]byte
	const pAll, wNoWait = 0, 0x1000000
	_, _, e := syscall.Syscall6(syscall.SYS_WAITID, pAll, 0, uintptr(unsafe.Pointer(&info)), syscall.WEXITED|syscall.WNOHANG|wNoWait, 0, 0)
	return e != syscall.ECHILD
}

// extra says what is held now that was not held before, "" if nothing.
func extra(before held) string {
	now := hold()
	var out []string
	for to, n := range now.fds {
		if strings.HasPrefix(to, "anon_inode:") && n <= before.fds[to]+1 {
			continue // the runtime's own poller
		}
		if n > before.fds[to] {
			out = append(out, fmt.Sprintf("%d more descriptors of %q", n-before.fds[to], to))
		}
	}
	if child() {
		out = append(out, "a child process not waited for")
	}
	if now.gos > before.gos {
		out = append(out, fmt.Sprintf("%d more goroutines", now.gos-before.gos))
	}
	if fmt.Sprint(now.temp) != fmt.Sprint(before.temp) {
		out = append(out, fmt.Sprintf("files in the temporary directory: %q, before %q", now.temp, before.temp))
	}
	if now.cwd != before.cwd {
		out = append(out, fmt.Sprintf("the working directory is %q, before %q", now.cwd, before.cwd))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

var calls int

// released runs the call and requires that what it acquired is released; releasing may take a moment.
func released(rt *rapid.T, what string, call func()) {
	before := hold()
	call()
	diff := extra(before)
	for wait := time.Millisecond; diff != "" && wait < 2*time.Second; wait *= 2 {
		time.Sleep(wait)
		diff = extra(before)
	}
	if diff != "" {
		rt.Fatalf("after %s the process still holds: %s", what, diff)
	}
	if calls++; calls%500 == 0 {
		runtime.GC()
	}
}

// ---- faults

func scratch() func() {
	root, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "leak-")
	ok(err)
	root = must(filepath.EvalSymlinks(root))
	ok(os.Chdir(root))
	return func() {
		ok(os.Chdir(home))
		filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if i != nil && i.IsDir() {
				os.Chmod(p, 0o700)
			}
			return nil
		})
		os.RemoveAll(root)
	}
}

func limited(resource int, soft uint64, f func()) {
	var old syscall.Rlimit
	ok(syscall.Getrlimit(resource, &old))
	low := old
	low.Cur = min(soft, old.Max)
	ok(syscall.Setrlimit(resource, &low))
	defer func() { ok(syscall.Setrlimit(resource, &old)) }()
	f()
}

// spare runs f with room for n more descriptors.
func spare(n int, f func()) {
	top := 0
	used := map[int]bool{}
	for s := range descriptors() {
		k, _ := strconv.Atoi(s)
		used[k] = true
		top = max(top, k)
	}
	// fill the holes below, so that exactly n are left above
	var holes []int
	for k := 0; k < top; k++ {
		if !used[k] {
			fd, err := syscall.Dup(0)
			ok(err)
			syscall.CloseOnExec(fd)
			holes = append(holes, fd)
			top = max(top, fd)
		}
	}
	limited(syscall.RLIMIT_NOFILE, uint64(top+1+n), f)
	for _, fd := range holes {
		syscall.Close(fd)
	}
}

type fault struct {
	name string
	run  func(f func())
}

func drawFault(rt *rapid.T) fault {
	switch vt.Weighted(rt, "fault", 10, 2, 3) {
	case 1:
		n := vt.Pick(rt, "limit", 0, 1, 10, 300, 5000)
		return fault{fmt.Sprintf("files limited to %d bytes", n), func(f func()) { limited(syscall.RLIMIT_FSIZE, uint64(n), f) }}
	case 2:
		n := rapid.IntRange(0, 3).Draw(rt, "spare")
		return fault{fmt.Sprintf("%d spare descriptors", n), func(f func()) { spare(n, f) }}
	}
	return fault{"no fault", func(f func()) { f() }}
}

// ---- files

// sources makes one of each kind of thing to read from.
func sources(rt *rapid.T) []string {
	ok(os.WriteFile("plain", vt.Bytes(300).Draw(rt, "plain"), 0o644))
	ok(os.WriteFile("big", bytes.Repeat([]byte("0123456789abcdef"), 2000), 0o644))
	ok(os.WriteFile("empty", nil, 0o644))
	ok(os.WriteFile("closed", []byte("secret"), 0o644))
	ok(os.Chmod("closed", 0))
	ok(os.WriteFile("readonly", []byte("old"), 0o444))
	ok(os.WriteFile("rows.csv", []byte("a,b\nc,\"d\ne\"\n"), 0o644))
	ok(os.WriteFile("open.csv", []byte("a,b"), 0o644))
	ok(os.WriteFile("ragged.csv", []byte("a,b\nc\n"), 0o644))
	ok(os.WriteFile("quote.csv", []byte("a,b\nc,\"d\n"), 0o644))
	ok(os.MkdirAll("dir/sub/deep", 0o755))
	ok(os.WriteFile("dir/f", []byte("x"), 0o644))
	ok(os.WriteFile("dir/sub/g", []byte("y"), 0o644))
	ok(os.MkdirAll("locked/in", 0o755))
	ok(os.WriteFile("locked/in/f", []byte("x"), 0o644))
	ok(os.Chmod("locked/in", 0))
	ok(os.Symlink("nowhere", "dangling"))
	ok(os.Symlink("loop", "loop"))
	ok(os.Symlink("big", "link"))
	return []string{"plain", "big", "empty", "closed", "readonly", "rows.csv", "open.csv", "ragged.csv", "quote.csv", "dir", "dir/sub",
		"locked", "locked/in/f", "dangling", "loop", "link", "missing", "missing/below", "plain/below", "", "a\x00b", "/proc/self/mem",
		"/dev/null", "good.zip", "cut.zip", "crc.zip", "method.zip", "up.zip", "clash.zip", "many.zip"}
}

// endless sources and the process's own memory are not read as a whole
func targets(rt *rapid.T) string {
	return vt.Pick(rt, "to", "new", "new2", "big2", "missing/new", "plain", "big", "readonly", "dir", "plain/below", "dangling", "loop", "", "/dev/full", "/dev/null", "a\x00b", "locked/in/f", "dir/f")
}

func archive(name string, spoil func(w *zip.Writer), sizes ...int) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	for i, n := range sizes {
		e := must(w.CreateHeader(&zip.FileHeader{Name: fmt.Sprintf("e%d/f", i), Method: uint16(8 * (i % 2))}))
		must(e.Write(bytes.Repeat([]byte{byte('a' + i)}, n)))
	}
	if spoil != nil {
		spoil(w)
	}
	ok(w.Close())
	ok(os.WriteFile(name, buf.Bytes(), 0o644))
	return buf.Bytes()
}

func archives() {
	b := archive("good.zip", nil, 10, 400, 70000)
	ok(os.WriteFile("cut.zip", b[:len(b)-30], 0o644))
	ok(os.WriteFile("crc.zip", bytes.Replace(b, []byte("aaaaaaaaaa"), []byte("aaaaabaaaa"), 1), 0o644))
	// an entry with a compression nobody knows, after good ones
	m := archive("method.zip", func(w *zip.Writer) {
		must(must(w.CreateHeader(&zip.FileHeader{Name: "odd", Method: 8})).Write([]byte("xyz")))
	}, 10, 10)
	for i := 0; i+30 < len(m); i++ {
		if bytes.HasPrefix(m[i:], []byte("PK\x01\x02")) && bytes.HasPrefix(m[i+46:], []byte("odd")) {
			binary.LittleEndian.PutUint16(m[i+10:], 99)
		}
	}
	ok(os.WriteFile("method.zip", m, 0o644))
	archive("up.zip", func(w *zip.Writer) { must(must(w.Create("../../up")).Write([]byte("x"))) }, 10)
	// a file where an earlier entry made a directory, and the other way round
	archive("clash.zip", func(w *zip.Writer) { must(must(w.Create("e0")).Write([]byte("x"))) }, 10, 10)
	var sizes []int
	for i := 0; i < 60; i++ {
		sizes = append(sizes, 20)
	}
	archive("many.zip", nil, sizes...)
}

func files(rt *rapid.T, c *vt.C) {
	defer scratch()()
	srcs := sources(rt)
	archives()
	src := func() string {
		if rapid.Bool().Draw(rt, "fine?") {
			return vt.Pick(rt, "from", "plain", "big", "link", "rows.csv", "dir/f")
		}
		return rapid.SampledFrom(srcs).Draw(rt, "from")
	}
	opened, failed := false, false
	for n := rapid.IntRange(1, 8).Draw(rt, "calls"); n > 0; n-- {
		fl := drawFault(rt)
		var what string
		var call func() error
		bad := func(b bool) error {
			if b {
				return errors.New("refused")
			}
			return nil
		}
		switch rapid.IntRange(0, 12).Draw(rt, "op") {
		case 0:
			s := src()
			what, call = fmt.Sprintf("FileMd5(%q)", s), func() error { _, err := utils.FileMd5(s); return err }
		case 1:
			s, d := src(), targets(rt)
			what, call = fmt.Sprintf("CopyFile(%q, %q)", d, s), func() error { _, err := utils.CopyFile(d, s); return err }
		case 2:
			s := src()
			what, call = fmt.Sprintf("ImageFileToBase64(%q)", s), func() error { return bad(utils.ImageFileToBase64(s) == "") }
		case 3:
			s := src()
			what, call = fmt.Sprintf("ReadCsv(%q)", s), func() error { return bad(utils.ReadCsv(s) == nil) }
		case 4:
			s := vt.Pick(rt, "to", "rows.csv", "open.csv", targets(rt))
			row := []string{strings.Repeat("x", vt.Pick(rt, "width", 1, 100, 9000)), "b\"c"}
			what, call = fmt.Sprintf("WriteCsv(%q, %d bytes)", s, len(row[0])), func() error { return utils.WriteCsv(s, row) }
		case 5:
			d := vt.Pick(rt, "archive", "a.zip", "/dev/full", "dir", "missing/a.zip", "readonly", "", "a.zip")
			var list []string
			for k := rapid.IntRange(0, 5).Draw(rt, "files"); k > 0; k-- {
				if s := src(); !strings.HasPrefix(s, "/") {
					list = append(list, s)
				}
			}
			from, to := vt.Pick(rt, "old", "", "dir", "i"), vt.Pick(rt, "new", "", "x/", strings.Repeat("n", 70000))
			if from == "" {
				to = ""
			}
			what, call = fmt.Sprintf("ZipFiles(%q, %q, %q, %d bytes)", d, list, from, len(to)), func() error { return utils.ZipFiles(d, list, from, to) }
		case 6, 7:
			s, d := vt.Pick(rt, "archive", "good.zip", "cut.zip", "crc.zip", "method.zip", "up.zip", "clash.zip", "many.zip", "plain", "missing", "dir", "a.zip"), vt.Pick(rt, "dest", "out", "out2", ".", "plain", "locked/in", "plain/x", "dir")
			what, call = fmt.Sprintf("Unzip(%q, %q)", s, d), func() error { _, err := utils.Unzip(s, d); return err }
		case 8:
			s := vt.Pick(rt, "dir", "dir", "dir/", ".", "locked", "missing", "plain", "loop")
			what, call = fmt.Sprintf("ScanDir(%q)", s), func() error { _, err := utils.ScanDir(s); return err }
		case 9, 10:
			name, sum, k := vt.Pick(rt, "name", "n", "n", "m", "dir", "..", ""), vt.Pick(rt, "digest", "d1", "d1", "d2", "x/y"), rapid.IntRange(0, 4).Draw(rt, "chunk")
			b := bytes.Repeat([]byte("c"), vt.Pick(rt, "size", 0, 5, 400, 6000))
			if rapid.IntRange(0, 9).Draw(rt, "in the way?") == 0 && !strings.Contains(sum, "/") && name != "" && name != ".." {
				os.MkdirAll("breakpointDir/"+sum+"/"+name+"_"+strconv.Itoa(k), 0o755)
			}
			what, call = fmt.Sprintf("BreakPointContinue(%d bytes, %q, %d, 5, %q)", len(b), name, k, sum), func() error { _, err := utils.BreakPointContinue(b, name, k, 5, sum); return err }
		case 11:
			name, sum := vt.Pick(rt, "name", "n", "n", "m", "taken", "a/b"), vt.Pick(rt, "digest", "d1", "d1", "d2", "none", "")
			os.MkdirAll("fileDir/taken", 0o755)
			what, call = fmt.Sprintf("MakeFile(%q, %q)", name, sum), func() error { _, err := utils.MakeFile(name, sum); return err }
			if rapid.IntRange(0, 3).Draw(rt, "drop?") == 0 {
				make := call
				what += " and RemoveChunk"
				call = func() error { return errors.Join(make(), utils.RemoveChunk(sum)) }
			}
		case 12:
			s, d := src(), targets(rt)
			what = fmt.Sprintf("looking at %q and making %q", s, d)
			call = func() error {
				utils.IsDir(s)
				utils.IsFile(s)
				utils.FileExist(s)
				utils.FileIsExisted(s)
				_, err := utils.PathExists(s)
				return errors.Join(err, utils.CreateDir(d), utils.MkDir(d), bad(utils.GetCurrentDir() == ""))
			}
			if strings.HasPrefix(s, "dir") && !strings.HasPrefix(d, "/") && d != "dir" {
				what += " and moving it"
				look := call
				call = func() error { return errors.Join(look(), utils.FileMove(s, d)) }
			}
		}
		c.Logf("%s, %s", what, fl.name)
		var err error
		released(rt, what+" with "+fl.name, func() { fl.run(func() { err = call() }) })
		if err != nil {
			failed = true
			c.Label("failed")
		} else {
			opened = true
		}
		c.Label(what[:strings.IndexAny(what+" ", "( ")])
		if fl.name != "no fault" {
			c.Label(strings.TrimLeft(fl.name, "0123456789 "))
		}
	}
	c.NTIf(opened && failed)
}

// ---- shell

func shell(rt *rapid.T, c *vt.C) {
	defer scratch()()
	path := os.Getenv("PATH")
	for n := rapid.IntRange(1, 3).Draw(rt, "scripts"); n > 0; n-- {
		var b strings.Builder
		for k := rapid.IntRange(0, 2).Draw(rt, "lines"); k > 0; k-- {
			b.WriteString(vt.Pick(rt, "line", "echo out\n", "echo err >&2\n", "head -c 200000 /dev/zero\n", "head -c 200000 /dev/zero >&2\n",
				"(sleep 0.01; echo late) &\n", "cd /\n", "echo x > f\n", "exec 3</dev/null\n", "nosuchprogram\n", "kill -9 $$\n", "exec sh -c 'exit 4'\n"))
		}
		b.WriteString(vt.Pick(rt, "end", "", "", "", "exit 0\n", "exit 3\n", "false\n", "if\n"))
		if rapid.IntRange(0, 5).Draw(rt, "long?") == 0 {
			b.WriteString("exit 5\n" + strings.Repeat("# never read\n", 16000))
		}
		script := b.String()
		fl := fault{"no fault", func(f func()) { f() }}
		switch vt.Weighted(rt, "fault", 10, 2, 3) {
		case 1:
			fl = fault{"no shell", func(f func()) {
				ok(os.Setenv("PATH", vt.Pick(rt, "path", "", "/nonexistent", "/proc")))
				defer os.Setenv("PATH", path)
				f()
			}}
		case 2:
			k := rapid.IntRange(0, 11).Draw(rt, "spare")
			fl = fault{fmt.Sprintf("%d spare descriptors", k), func(f func()) { spare(k, f) }}
		}
		c.Logf("%.200q (%d bytes), %s", script, len(script), fl.name)
		var err error
		released(rt, fmt.Sprintf("a script (%.200q) with %s", script, fl.name), func() { fl.run(func() { _, err = utils.ShellExec(script) }) })
		c.NTIf(err != nil)
		c.LabelIf(err != nil, "failed")
		c.LabelIf(fl.name == "no shell", fl.name)
		c.LabelIf(strings.HasSuffix(fl.name, "descriptors"), "few descriptors")
	}
}

// ---- database

type row struct {
	Id   int64   `json:"id"`
	Name string  `json:"name"`
	F    float64 `json:"f"`
}

func database(rt *rapid.T, c *vt.C) {
	db, err := vsqlite.Open()
	ok(err)
	defer db.Close()
	ok(db.G.Exec("create table t(id integer primary key, name text not null, f real, updated_at integer, deleted_at integer)").Error)
	id := int64(0)
	open := func() string {
		if n := db.SQL.Stats().InUse; n != 0 {
			return fmt.Sprintf("%d connections are not given back", n)
		}
		if _, err := db.SQL.Exec("begin"); err != nil { // refused inside a transaction
			return fmt.Sprintf("the connection is unusable: %v", err)
		}
		_, err := db.SQL.Exec("rollback")
		ok(err)
		return ""
	}
	for n := rapid.IntRange(1, 8).Draw(rt, "calls"); n > 0; n-- {
		fl := vt.Pick(rt, "fault", vsqlite.None, vsqlite.None, vsqlite.Fail, vsqlite.Duplicate, vsqlite.Nothing, vsqlite.FailBegin, vsqlite.FailCommit, vsqlite.Late)
		recs := func() []interface{} {
			var out []interface{}
			for k := rapid.IntRange(0, 6).Draw(rt, "records"); k > 0; k-- {
				id++
				r := row{Id: id, Name: "n", F: 0.5}
				switch rapid.IntRange(0, 11).Draw(rt, "spoilt") {
				case 0:
					r.F = math.NaN() // no json
				case 1:
					r.Id = 1 // taken
				}
				out = append(out, r)
			}
			return out
		}
		var what string
		var call func() error
		tab := vt.Pick(rt, "table", "t", "t", "t", "nosuch")
		switch rapid.IntRange(0, 8).Draw(rt, "op") {
		case 0:
			rs := recs()
			what, call = fmt.Sprintf("a split insert of %d", len(rs)), func() error { return gorm_tools.SplitInsertTableRecords(db.G, tab, rs...) }
		case 1:
			rs := recs()
			what, call = fmt.Sprintf("a batch insert of %d", len(rs)), func() error { return gorm_tools.BatchInsertTableRecords(db.G, tab, rs...) }
		case 2:
			id++
			r := row{Id: id, Name: "one"}
			what, call = "an insert", func() error { return gorm_tools.InsertToTable(tab, &r, db.G) }
		case 3:
			ids := []int64{rapid.Int64Range(0, id+1).Draw(rt, "id"), 2}
			what, call = "a delete", func() error { return gorm_tools.DelByTableNameAndId(tab, ids, db.G) }
		case 4, 5:
			ups := map[int64]map[string]interface{}{}
			for k := rapid.IntRange(0, 4).Draw(rt, "updates"); k > 0; k-- {
				ups[rapid.Int64Range(0, id+1).Draw(rt, "id")] = map[string]interface{}{"name": vt.Pick[any](rt, "name", "u", nil, 3)}
			}
			f := vt.Pick(rt, "which", gorm_tools.SplitUpdateTableFieldWithoutVersionByID, gorm_tools.BatchUpdateTableFieldWithoutVersionByID)
			what, call = fmt.Sprintf("an update of %d", len(ups)), func() error { return f(db.G, tab, ups) }
		case 6:
			what, call = "an update by id", func() error {
				return gorm_tools.UpdateByTableNameAndId(tab, 1, map[string]interface{}{vt.Pick(rt, "column", "name", "nosuch"): "v"}, db.G)
			}
		case 7:
			what, call = "an update by condition", func() error {
				return gorm_tools.UpdateByTableNameAndWhere(tab, map[string]interface{}{"name": "n"}, map[string]interface{}{"f": 1.5}, db.G)
			}
		case 8:
			what, call = "a soft delete", func() error { return gorm_tools.SoftDelByTableNameAndId(tab, 1, db.G) }
		}
		db.Arm(rapid.IntRange(0, 1).Draw(rt, "at"), fl)
		c.Logf("%s in %s, fault %d", what, tab, fl)
		var err error
		released(rt, what, func() { err = call() })
		db.Arm(0, vsqlite.None)
		if diff := open(); diff != "" {
			rt.Fatalf("after %s in %s with fault %d (error %v): %s", what, tab, fl, err, diff)
		}
		c.NTIf(err != nil)
		c.LabelIf(err != nil, "failed")
	}
}
