// Package argc checks that callers keep what they pass in and own what they get back (C43).
package argc

import (
	"archive/zip"
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/fix"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/round"
	"github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
	"github.com/ahKevinXy/go-web-tools/common/filter/bloom"
	"github.com/ahKevinXy/go-web-tools/common/hash"
	"github.com/ahKevinXy/go-web-tools/common/limiter/sliding_log"
	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func ok(err error) {
	if err != nil {
		vt.Harness("%v", err)
	}
}

func TestC43(t *testing.T) {
	vt.Check(t, "bytes", "calls with byte slices (encryption, digests, base64, content checks, chunks, filters, hashes) that lie inside larger buffers; nothing of the buffers may change, the same call gives the same result after the first result was overwritten, and other content in the same places gives what it gives elsewhere; non-trivial: a slice that is not empty and has spare capacity",
		12000, 400000, byteCalls)
	vt.Check(t, "values", "calls with maps, lists of strings and parameters (JSON, switches, addresses, directories, archives, tables, scripts); the arguments hold the same afterwards, and results may be overwritten without effect on later ones; non-trivial: arguments that are not empty",
		2500, 80000, valueCalls)
	vt.Check(t, "rows", "inserts, updates and deletes with ids, field maps, conditions and records that succeed or fail; all of them hold the same afterwards; non-trivial: several ids or records",
		1500, 60000, rowCalls)
	vt.Check(t, "rings", "bulk operations on the three rings with slices that lie inside larger ones and are overwritten after the call, and results that are overwritten up to their capacity; the rings hold what was pushed; non-trivial: a bulk pop after a bulk push",
		8000, 250000, rings)
	vt.Sync(t, "strategies", "two sliding-log limiters and a third made from the same strategies, kept in one slice in any order; the slice keeps its order and all limiters admit the same; non-trivial: at least two strategies",
		1500, 40000, strategies)
}

// arena places v inside a larger slice of other elements; check reports what changed around or in it.
func arena[T any](rt *rapid.T, v []T, junk func(i int) T) (got []T, check func() string) {
	before := rapid.IntRange(0, 3).Draw(rt, "before")
	spare := vt.Pick(rt, "spare", 0, 1, 3, 15, 16, 17, 64)
	buf := make([]T, before+len(v)+spare)
	for i := range buf {
		buf[i] = junk(i)
	}
	copy(buf[before:], v)
	was := slices.Clone(buf)
	got = buf[before : before+len(v)]
	return got, func() string {
		for i := range buf {
			if !reflect.DeepEqual(buf[i], was[i]) {
				where := fmt.Sprintf("element %d of %d", i-before, len(v))
				if i < before {
					where = fmt.Sprintf("%d before the slice", before-i)
				} else if i >= before+len(v) {
					where = fmt.Sprintf("%d after the slice, in its spare capacity", i-before-len(v))
				}
				return fmt.Sprintf("%s was %#v and is %#v", where, was[i], buf[i])
			}
		}
		return ""
	}
}

func junkByte(i int) byte     { return byte(0xA5 ^ i*7) }
func junkString(i int) string { return fmt.Sprintf("junk%d", i) }

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func byteCalls(rt *rapid.T, c *vt.C) {
	dir, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "arg")
	ok(err)
	defer os.RemoveAll(dir)
	content := rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "content")
	if rapid.IntRange(0, 5).Draw(rt, "magic") == 0 {
		content = append([]byte(vt.Pick(rt, "head", "%PDF-1.4", "\x89PNG\r\n\x1a\n", "<html>", "text ", "\x1aE\xdf\xa3", "RIFF0000AVI LIST")), content...)
	}
	data, checkData := arena(rt, content, junkByte)
	key, checkKey := arena(rt, []byte(nil), junkByte)
	type call struct {
		name string
		f    func(data, key []byte) ([]byte, string) // an owned result and anything else it gave
	}
	bool4 := func(b bool) string { return strconv.FormatBool(b) }
	errs := func(err error) string { return fmt.Sprint(err) }
	var calls []call
	switch rapid.IntRange(0, 6).Draw(rt, "group") {
	case 0:
		key, checkKey = arena(rt, rapid.SliceOfN(rapid.Byte(), 15, 33).Draw(rt, "key"), junkByte)
		if n := len(key); n != 16 && n != 24 && rapid.IntRange(0, 4).Draw(rt, "size") > 0 {
			key, checkKey = arena(rt, rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key"), junkByte)
		}
		calls = []call{{"AesEncrypt", func(data, key []byte) ([]byte, string) {
			b, err := utils.AesEncrypt(data, key)
			return b, errs(err)
		}}}
		if ct, err := utils.AesEncrypt(slices.Clone(content), slices.Clone(key)); err == nil && rapid.Bool().Draw(rt, "decrypt") {
			if rapid.IntRange(0, 3).Draw(rt, "damaged") == 0 {
				ct[rapid.IntRange(0, len(ct)-1).Draw(rt, "at")] ^= 1
			}
			data, checkData = arena(rt, ct, junkByte)
			calls = []call{{"AesDecrypt", func(data, key []byte) ([]byte, string) {
				b, err := utils.AesDecrypt(data, key)
				return b, errs(err)
			}}}
		}
	case 1:
		key, checkKey = arena(rt, rapid.SliceOfN(rapid.Byte(), 0, 20).Draw(rt, "prefix"), junkByte)
		calls = []call{{"MD5V", func(data, key []byte) ([]byte, string) { return nil, utils.MD5V(data, key...) }},
			{"CheckMd5", func(data, _ []byte) ([]byte, string) {
				return nil, bool4(utils.CheckMd5(data, utils.MD5V(content)))
			}}}
	case 2:
		enc := utils.Base64EncodeToByte(slices.Clone(content))
		if rapid.IntRange(0, 3).Draw(rt, "damaged") == 0 {
			enc += "!"
		}
		calls = []call{{"Base64EncodeToByte", func(data, _ []byte) ([]byte, string) { return nil, utils.Base64EncodeToByte(data) }},
			{"Base64Decode", func(_, _ []byte) ([]byte, string) { return utils.Base64Decode(enc), "" }},
			{"Base64DecodeToByte", func(_, _ []byte) ([]byte, string) { return utils.Base64DecodeToByte(enc), "" }}}
	case 3:
		calls = []call{{"IsTextFile", func(data, _ []byte) ([]byte, string) { return nil, bool4(utils.IsTextFile(data)) }},
			{"IsImageFile", func(data, _ []byte) ([]byte, string) { return nil, bool4(utils.IsImageFile(data)) }},
			{"IsPDFFile", func(data, _ []byte) ([]byte, string) { return nil, bool4(utils.IsPDFFile(data)) }},
			{"IsVideoFile", func(data, _ []byte) ([]byte, string) { return nil, bool4(utils.IsVideoFile(data)) }}}
	case 4:
		cwd, err := os.Getwd()
		ok(err)
		ok(os.Chdir(dir))
		defer os.Chdir(cwd)
		sum := utils.MD5V([]byte("whole"))
		calls = []call{{"BreakPointContinue", func(data, _ []byte) ([]byte, string) {
			p, err := utils.BreakPointContinue(data, "f.bin", 0, 1, sum)
			if err != nil {
				return nil, "failed"
			}
			p, err = utils.MakeFile("f.bin", sum)
			if err != nil {
				return nil, "failed"
			}
			b, err := os.ReadFile(p)
			return nil, fmt.Sprintf("%x", b)
		}}}
	case 5:
		f := bloom.New(64, 0.01)
		calls = []call{{"bloom.AddBytes", func(data, _ []byte) ([]byte, string) {
			f.AddBytes(data)
			return nil, bool4(f.ContainsBytes(slices.Clone(data)))
		}}, {"bloom.ContainsBytes", func(data, _ []byte) ([]byte, string) { return nil, bool4(f.ContainsBytes(data)) }}}
	case 6:
		h := hash.New()
		calls = []call{{"hash.Sum64", func(data, _ []byte) ([]byte, string) { return nil, fmt.Sprint(h.Sum64(data)) }}}
	}
	c.NTIf(len(data) > 0 && cap(data) > len(data) || len(key) > 0 && cap(key) > len(key))
	// other content for the same places
	data2, key2 := slices.Clone(data), slices.Clone(key)
	for _, b := range [][]byte{data2, key2} {
		for range rapid.IntRange(0, 3).Draw(rt, "changes") {
			if len(b) > 0 {
				b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
			}
		}
	}
	data1, key1 := slices.Clone(data), slices.Clone(key)
	for _, call := range calls {
		c.Logf("%s with %d bytes, capacity %d, key %d/%d", call.name, len(data), cap(data), len(key), cap(key))
		res, want2 := call.f(slices.Clone(data2), slices.Clone(key2))
		res2 := slices.Clone(res)
		res, other := call.f(data, key)
		for _, x := range []struct {
			what  string
			check func() string
		}{{"data", checkData}, {"key or prefix", checkKey}} {
			if s := x.check(); s != "" {
				rt.Fatalf("%s changed the %s it was given: %s", call.name, x.what, s)
			}
		}
		first := slices.Clone(res)
		scribble(res)
		if s := checkData() + checkKey(); s != "" {
			rt.Fatalf("%s: its result shares memory with its arguments: %s", call.name, s)
		}
		res, again := call.f(data, key)
		if !bytes.Equal(res, first) || again != other {
			rt.Fatalf("%s gave %x, %s and, after that result was overwritten, %x, %s", call.name, first, other, res, again)
		}
		kept := slices.Clone(res)
		copy(data, data2)
		copy(key, key2)
		third, again := call.f(data, key)
		if !bytes.Equal(third, res2) || again != want2 {
			rt.Fatalf("%s of other content in the same places gave %x, %s; of that content elsewhere %x, %s", call.name, third, again, res2, want2)
		}
		scribble(third)
		copy(data, data1)
		copy(key, key1)
		if !bytes.Equal(res, kept) {
			rt.Fatalf("%s: overwriting an argument or another result changed a result", call.name)
		}
	}
}

func anyValue(rt *rapid.T, depth int) any {
	switch rapid.IntRange(0, 9).Draw(rt, "kind") {
	case 0:
		return nil
	case 1:
		return rapid.Int().Draw(rt, "int")
	case 2:
		return rapid.Float64Range(-1e9, 1e9).Draw(rt, "float")
	case 3:
		return rapid.Bool().Draw(rt, "bool")
	case 4:
		return rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "bytes")
	case 5:
		if depth > 0 {
			l := make([]any, rapid.IntRange(0, 3).Draw(rt, "len"), 5)
			for i := range l {
				l[i] = anyValue(rt, depth-1)
			}
			return l
		}
	case 6:
		if depth > 0 {
			return anyMap(rt, depth-1)
		}
	case 7:
		return vt.Pick[any](rt, "odd", int8(0), uint64(math.MaxUint64), "0", "", []string{"b", "a"}, map[string]int{"b": 1, "a": 2})
	}
	return vt.ValidText(0, 8).Draw(rt, "text")
}

func anyMap(rt *rapid.T, depth int) map[string]any {
	m := map[string]any{}
	for range rapid.IntRange(0, 5).Draw(rt, "entries") {
		m[vt.ValidText(0, 4).Draw(rt, "key")] = anyValue(rt, depth)
	}
	return m
}

// picture shows everything a value holds; maps are printed in the order of their keys.
func picture(v any) string { return fmt.Sprintf("%#v", v) }

func valueCalls(rt *rapid.T, c *vt.C) {
	dir, err := os.MkdirTemp(os.Getenv("VT_SCRATCH"), "arg")
	ok(err)
	defer os.RemoveAll(dir)
	same := func(call, what, was, is string) {
		if was != is {
			rt.Fatalf("%s changed the %s it was given from %s to %s", call, what, was, is)
		}
	}
	strs := func(v []string) ([]string, func() string) { return arena(rt, v, junkString) }
	unchanged := func(call string, check func() string) {
		if s := check(); s != "" {
			rt.Fatalf("%s changed the list it was given: %s", call, s)
		}
	}
	// independent requires a list to be the caller's: overwriting it changes no later result
	independent := func(call string, f func() []string) {
		a := f()
		was := slices.Clone(a)
		a = a[:cap(a)]
		for i := range a {
			a[i] = "overwritten"
		}
		if b := f(); !slices.Equal(b, was) {
			rt.Fatalf("%s gave %q and, after that was overwritten, %q", call, was, b)
		}
	}
	switch rapid.IntRange(0, 7).Draw(rt, "call") {
	case 0:
		m := anyMap(rt, 2)
		was := picture(m)
		c.Logf("MapToJsonString %s", was)
		c.NTIf(len(m) > 0)
		first := utils.MapToJsonString(m)
		same("MapToJsonString", "map", was, picture(m))
		if again := utils.Map2JsonString(m); again != first {
			rt.Fatalf("Map2JsonString gives %s, MapToJsonString %s", again, first)
		}
		same("Map2JsonString", "map", was, picture(m))
	case 1:
		m := rapid.MapOfN(vt.ValidText(0, 4), rapid.Int32(), 0, 5).Draw(rt, "map")
		was := picture(m)
		c.Logf("JsonStringToMap of %s", was)
		c.NTIf(len(m) > 0)
		text := utils.MapIntToJsonString(m)
		same("MapIntToJsonString", "map", was, picture(m))
		a := utils.JsonStringToMap(text)
		shown := picture(a)
		for k := range a {
			a[k]++
		}
		if a != nil {
			a["overwritten"] = 1
		}
		if b := utils.JsonStringToMap(text); picture(b) != shown {
			rt.Fatalf("JsonStringToMap gave %s and, after that was changed, %s", shown, picture(b))
		}
	case 2:
		m := rapid.MapOfN(vt.ValidText(0, 2), rapid.Bool(), 0, 5).Draw(rt, "switches")
		key := vt.ValidText(0, 2).Draw(rt, "key")
		was := picture(m)
		c.Logf("switches %s, %q", was, key)
		c.NTIf(len(m) > 0)
		utils.GetSwitchFromOptions(m, key)
		same("GetSwitchFromOptions", "map", was, picture(m))
		want := map[string]bool{}
		for k, v := range m {
			want[k] = v
		}
		want[key] = rapid.Bool().Draw(rt, "value")
		utils.SetSwitchFromOptions(m, key, want[key])
		same("SetSwitchFromOptions of "+strconv.Quote(key), "map beyond that", picture(want), picture(m))
	case 3:
		n := rapid.IntRange(0, 7).Draw(rt, "n")
		vals := make([]any, n)
		for i := range vals {
			vals[i] = anyValue(rt, 1)
		}
		params, check := arena(rt, vals, func(i int) any { return i })
		was := picture(vals)
		c.Logf("BuildUrl %s", was)
		c.NTIf(n > 1)
		first := utils.BuildUrl("/p/", params...)
		unchanged("BuildUrl", check)
		same("BuildUrl", "parameters", was, picture(vals))
		if again := utils.BuildUrl("/p/", params...); again != first {
			rt.Fatalf("BuildUrl gave %q and then %q", first, again)
		}
	case 4:
		var names []string
		for i := range rapid.IntRange(0, 5).Draw(rt, "n") {
			names = append(names, filepath.Join(dir, fmt.Sprintf("d%d", 9-i), vt.Pick(rt, "sub", "", "x", "y/z", "..", ".")))
			if rapid.Bool().Draw(rt, "unclean") {
				names[i] = strings.ReplaceAll(names[i], "/d", "//d") + "/"
			}
		}
		dirs, check := strs(names)
		c.Logf("CreateDir and ScanDir of %d", len(dirs))
		c.NTIf(len(dirs) > 1)
		if err := utils.CreateDir(dirs...); err != nil {
			rt.Fatalf("CreateDir(%q): %v", dirs, err)
		}
		unchanged("CreateDir", check)
		for i, d := range names {
			ok(os.WriteFile(filepath.Join(d, fmt.Sprint("f", i)), nil, 0o644))
		}
		independent("ScanDir", func() []string {
			l, err := utils.ScanDir(dir)
			if err != nil {
				rt.Fatalf("ScanDir: %v", err)
			}
			return l
		})
	case 5:
		var names []string
		for i := range rapid.IntRange(0, 4).Draw(rt, "n") {
			p := filepath.Join(dir, fmt.Sprintf("in%d", 9-i))
			ok(os.WriteFile(p, []byte{byte(i)}, 0o644))
			names = append(names, p)
		}
		if len(names) > 0 && rapid.IntRange(0, 4).Draw(rt, "missing") == 0 {
			names[rapid.IntRange(0, len(names)-1).Draw(rt, "which")] = filepath.Join(dir, "missing")
		}
		files, check := strs(names)
		c.Logf("ZipFiles and Unzip of %d", len(files))
		c.NTIf(len(files) > 1)
		err := utils.ZipFiles(filepath.Join(dir, "out.zip"), files, dir+"/", "")
		unchanged("ZipFiles", check)
		if err != nil {
			return
		}
		if _, err := zip.OpenReader(filepath.Join(dir, "out.zip")); err != nil {
			rt.Fatalf("ZipFiles made an archive that does not open: %v", err)
		}
		independent("Unzip", func() []string {
			l, err := utils.Unzip(filepath.Join(dir, "out.zip"), filepath.Join(dir, "to"))
			if err != nil {
				rt.Fatalf("Unzip: %v", err)
			}
			return l
		})
	case 6:
		row, check := strs(rapid.SliceOfN(rapid.SampledFrom([]string{"", "a", "b c", "x,y", "\"q\"", "l1\nl2", " s ", "长", "'"}), 1, 5).Draw(rt, "row"))
		path := filepath.Join(dir, "t.csv")
		c.Logf("WriteCsv and ReadCsv of %q", row)
		c.NT()
		for range 2 {
			if err := utils.WriteCsv(path, row); err != nil {
				rt.Fatalf("WriteCsv: %v", err)
			}
			unchanged("WriteCsv", check)
		}
		a := utils.ReadCsv(path)
		if a == nil {
			return
		}
		was := picture(*a)
		for _, r := range *a {
			for i := range r {
				r[i] = "overwritten"
			}
		}
		*a = append((*a)[:0], []string{"gone"})
		if b := utils.ReadCsv(path); b == nil || picture(*b) != was {
			rt.Fatalf("ReadCsv gave %s and, after that was overwritten, something else", was)
		}
	case 7:
		if rapid.IntRange(0, 3).Draw(rt, "less often") > 0 {
			// another list: pushing one list onto another leaves the other one alone
			a, b := list.New[int](), list.New[int]()
			na, nb := rapid.IntRange(0, 5).Draw(rt, "a"), rapid.IntRange(0, 5).Draw(rt, "b")
			for i := range na {
				a.PushBack(i)
			}
			for i := range nb {
				b.PushBack(100 + i)
			}
			read := func(l *list.List[int]) (out []int) {
				for e := l.Front(); e != nil; e = e.Next() {
					out = append(out, e.Value)
				}
				return out
			}
			was := read(b)
			c.Logf("list of %d pushed onto a list of %d", nb, na)
			c.NTIf(na > 0 && nb > 0)
			if rapid.Bool().Draw(rt, "back") {
				a.PushBackList(b)
			} else {
				a.PushFrontList(b)
			}
			if !slices.Equal(read(b), was) {
				rt.Fatalf("pushing a list onto another changed it from %v to %v", was, read(b))
			}
			whole := read(a)
			for e := b.Front(); e != nil; e = e.Next() {
				e.Value = -1
			}
			b.PushBack(7)
			if !slices.Equal(read(a), whole) {
				rt.Fatalf("changing a list that was pushed onto another changed the other from %v to %v", whole, read(a))
			}
			return
		}
		out := vt.ValidText(0, 8).Draw(rt, "out")
		script := "printf '%s' '" + strings.NewReplacer("'", "", "\x00", "").Replace(out) + "'"
		c.Logf("ShellExec %q", script)
		c.NTIf(len(out) > 0)
		a, err := utils.ShellExec(script)
		if err != nil {
			rt.Fatalf("ShellExec(%q): %v", script, err)
		}
		was := a.String()
		scribble(a.Bytes())
		a.WriteString("more")
		b, err := utils.ShellExec(script)
		if err != nil || b.String() != was {
			rt.Fatalf("ShellExec(%q) gave %q and, after that was overwritten, %q, %v", script, was, b, err)
		}
	}
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type rec struct {
	Id   int64   `json:"id"`
	Name string  `json:"name,omitempty"`
	Note *string `json:"note"`
}

// kinds of cells that may occur; a helper may treat records of one kind in a way of its own
var onlyText bool

func cell(rt *rapid.T) any {
	if onlyText {
		return vt.ValidText(0, 8).Draw(rt, "text")
	}
	switch rapid.IntRange(0, 5).Draw(rt, "cell") {
	case 0:
		return nil
	case 1:
		return rapid.Int64().Draw(rt, "int")
	case 2:
		return rapid.Float64Range(-1e6, 1e6).Draw(rt, "float")
	}
	return vt.ValidText(0, 8).Draw(rt, "text")
}

func rowCalls(rt *rapid.T, c *vt.C) {
	db, err := vsqlite.Open()
	ok(err)
	defer db.Close()
	for _, q := range []string{"create table t(id integer primary key, name text, note text, updated_at text, deleted_at text)"} {
		_, err := db.SQL.Exec(q)
		ok(err)
	}
	for i := range rapid.IntRange(0, 6).Draw(rt, "rows") {
		_, err := db.SQL.Exec("insert into t(id,name) values(?,?)", i, fmt.Sprint("n", i))
		ok(err)
	}
	if rapid.IntRange(0, 3).Draw(rt, "fails") == 0 {
		db.Arm(0, vt.Pick(rt, "fault", vsqlite.Fail, vsqlite.Duplicate, vsqlite.Nothing, vsqlite.Late))
	}
	onlyText = rapid.IntRange(0, 2).Draw(rt, "only text") == 0
	fields := func() map[string]any {
		m := map[string]any{}
		for _, f := range []string{"name", "note", "updated_at"} {
			if rapid.Bool().Draw(rt, f) {
				m[f] = cell(rt)
			}
		}
		return m
	}
	idList, checkIDs := arena(rt, rapid.SliceOfN(rapid.Int64Range(-1, 8), 0, 6).Draw(rt, "ids"), func(i int) int64 { return int64(100 + i) })
	updates, where := fields(), fields()
	was, wasWhere := picture(updates), picture(where)
	what := ""
	switch rapid.IntRange(0, 7).Draw(rt, "call") {
	case 0:
		what = "DelByTableNameAndId"
		c.NTIf(len(idList) > 1)
		gorm_tools.DelByTableNameAndId("t", idList, db.G)
	case 1:
		what = "UpdateByTableNameAndId"
		c.NTIf(len(updates) > 1)
		gorm_tools.UpdateByTableNameAndId("t", rapid.Int64Range(0, 6).Draw(rt, "id"), updates, db.G)
	case 2:
		what = "UpdateByTableNameAndIds"
		c.NTIf(len(idList) > 1 && len(updates) > 0)
		gorm_tools.UpdateByTableNameAndIds("t", idList, updates, db.G)
	case 3:
		what = "UpdateByTableNameAndWhere"
		c.NTIf(len(updates) > 0 && len(where) > 0)
		gorm_tools.UpdateByTableNameAndWhere("t", where, updates, db.G)
	case 4, 5:
		m := map[int64]map[string]any{}
		shape := keys(updates)
		uneven := rapid.IntRange(0, 3).Draw(rt, "uneven") == 0
		for range rapid.IntRange(0, 6).Draw(rt, "entries") {
			e := map[string]any{}
			for _, f := range shape {
				e[f] = cell(rt)
			}
			if uneven {
				e = fields()
			}
			m[rapid.Int64Range(0, 8).Draw(rt, "id")] = e
		}
		wasM := picture(m)
		c.NTIf(len(m) > 1)
		if what = "BatchUpdateTableFieldWithoutVersionByID"; rapid.Bool().Draw(rt, "split") {
			what = "SplitUpdateTableFieldWithoutVersionByID"
			gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.G, "t", m)
		} else {
			gorm_tools.BatchUpdateTableFieldWithoutVersionByID(db.G, "t", m)
		}
		c.Logf("%s %s", what, wasM)
		if is := picture(m); is != wasM {
			rt.Fatalf("%s changed the updates it was given from %s to %s", what, wasM, is)
		}
	case 6, 7:
		n := rapid.IntRange(0, 6).Draw(rt, "records")
		as := rapid.IntRange(0, 4).Draw(rt, "all as")
		recs := make([]any, n)
		show := func() string {
			var parts []string
			for _, r := range recs {
				switch r := r.(type) {
				case rec:
					parts = append(parts, fmt.Sprintf("%d %q", r.Id, r.Name))
					if r.Note != nil {
						parts = append(parts, *r.Note)
					}
				case *rec:
					if r.Note != nil {
						parts = append(parts, *r.Note)
					}
					parts = append(parts, fmt.Sprintf("%d %q %v", r.Id, r.Name, r.Note != nil))
				case *map[string]any:
					parts = append(parts, picture(*r))
				default:
					parts = append(parts, picture(r))
				}
			}
			return strings.Join(parts, "; ")
		}
		for i := range recs {
			note := vt.ValidText(0, 5).Draw(rt, "note")
			r := rec{Id: int64(100 + n - i), Name: vt.ValidText(0, 5).Draw(rt, "name")}
			if rapid.Bool().Draw(rt, "has note") {
				r.Note = &note
			}
			kind := as
			if as == 4 {
				kind = rapid.IntRange(0, 3).Draw(rt, "as")
			}
			switch kind {
			case 0:
				recs[i] = r
			case 1:
				recs[i] = &r
			case 2:
				m := fields()
				if m["id"] = r.Id; onlyText {
					m["id"] = strconv.FormatInt(r.Id, 10)
				}
				recs[i] = m
			case 3:
				m := fields()
				if m["id"] = r.Id; onlyText {
					m["id"] = strconv.FormatInt(r.Id, 10)
				}
				recs[i] = &m
			}
		}
		given, check := arena(rt, recs, func(i int) any { return i })
		wasR := show()
		c.NTIf(n > 1)
		if what = "BatchInsertTableRecords"; rapid.Bool().Draw(rt, "split") {
			what = "SplitInsertTableRecords"
			gorm_tools.SplitInsertTableRecords(db.G, "t", given...)
		} else {
			gorm_tools.BatchInsertTableRecords(db.G, "t", given...)
		}
		c.Logf("%s %s", what, wasR)
		if s := check(); s != "" {
			rt.Fatalf("%s changed the list of records it was given: %s", what, s)
		}
		if is := show(); is != wasR {
			rt.Fatalf("%s changed the records it was given from %s to %s", what, wasR, is)
		}
	}
	c.Logf("%s: ids %v, updates %s, where %s", what, idList, was, wasWhere)
	if s := checkIDs(); s != "" {
		rt.Fatalf("%s changed the ids it was given: %s", what, s)
	}
	if is := picture(updates); is != was {
		rt.Fatalf("%s changed the updates it was given from %s to %s", what, was, is)
	}
	if is := picture(where); is != wasWhere {
		rt.Fatalf("%s changed the condition it was given from %s to %s", what, wasWhere, is)
	}
}

type ring interface {
	MPush(...int)
	MPop(uint64) []int
	MPopCopy([]int)
	Push(int)
	Pop() int
	Len() uint64
	Avail() uint64
	Reset()
}

func rings(rt *rapid.T, c *vt.C) {
	kind := vt.Pick(rt, "ring", "fix", "round", "unbounded")
	var r ring
	size := uint64(vt.Pick(rt, "size", 1, 2, 4, 8, 16))
	switch kind {
	case "fix":
		r = fix.New[int](size)
	case "round":
		r = round.New[int](size)
	default:
		r = unbounded.New[int](uint64(rapid.IntRange(0, 8).Draw(rt, "initial")))
	}
	var model []int
	next := 1
	type owned struct {
		slice []int
		was   []int
	}
	var results []owned
	pushed := false
	for range rapid.IntRange(1, 14).Draw(rt, "steps") {
		op := vt.Weighted(rt, "op", 5, 4, 2, 2, 1, 2)
		c.Logf("%s op %d", kind, op)
		switch op {
		case 0:
			n := rapid.IntRange(0, 9).Draw(rt, "n")
			c.Logf("%d", n)
			if kind != "unbounded" && uint64(n) > r.Avail() {
				n = int(r.Avail())
			}
			vals := make([]int, n)
			for i := range vals {
				vals[i] = next
				next++
			}
			given, check := arena(rt, vals, func(i int) int { return -i - 1 })
			r.MPush(given...)
			if s := check(); s != "" {
				rt.Fatalf("%s ring: MPush changed the slice it was given: %s", kind, s)
			}
			for i := range given[:cap(given)] {
				given[:cap(given)][i] = -77
			}
			// whatever is pushed or popped later, the caller's slice stays as the caller left it
			results = append(results, owned{given[:cap(given)], slices.Clone(given[:cap(given)])})
			model = append(model, vals...)
			pushed = pushed || n > 0
		case 1:
			n := rapid.IntRange(0, 9).Draw(rt, "n")
			c.Logf("%d", n)
			got := r.MPop(uint64(n))
			want := model[:min(n, len(model))]
			if !slices.Equal(got, want) {
				rt.Fatalf("%s ring: MPop(%d) gave %v, want %v", kind, n, got, want)
			}
			c.NTIf(pushed && len(got) > 0)
			model = slices.Clone(model[len(want):])
			got = got[:cap(got)]
			for i := range got {
				got[i] = -99
			}
			results = append(results, owned{got, slices.Clone(got)})
		case 2:
			n := rapid.IntRange(0, 9).Draw(rt, "n")
			dst, _ := arena(rt, make([]int, n), func(i int) int { return -i - 1 })
			whole := dst[:cap(dst)]
			was := slices.Clone(whole)
			r.MPopCopy(dst)
			k := min(n, len(model))
			copy(was, model[:k])
			if !slices.Equal(whole, was) {
				rt.Fatalf("%s ring: MPopCopy into %d places left %v, want %v", kind, n, whole, was)
			}
			model = slices.Clone(model[k:])
			results = append(results, owned{whole, slices.Clone(whole)})
		case 3:
			if kind == "unbounded" || r.Avail() > 0 {
				r.Push(next)
				model = append(model, next)
				next++
			}
		case 4:
			r.Reset()
			model = nil
		case 5:
			if len(model) > 0 {
				if got := r.Pop(); got != model[0] {
					rt.Fatalf("%s ring: Pop gave %d, want %d", kind, got, model[0])
				}
				model = slices.Clone(model[1:])
			}
		}
		if r.Len() != uint64(len(model)) {
			rt.Fatalf("%s ring holds %d, want %d", kind, r.Len(), len(model))
		}
		for _, o := range results {
			if !slices.Equal(o.slice, o.was) {
				rt.Fatalf("%s ring: an operation changed a slice of the caller's from %v to %v", kind, o.was, o.slice)
			}
		}
	}
	if got := r.MPop(uint64(len(model)) + 1); !slices.Equal(got, model) {
		rt.Fatalf("%s ring: the rest is %v, want %v", kind, got, model)
	}
}

func strategies(rt *rapid.T, c *vt.C) {
	n := rapid.IntRange(1, 4).Draw(rt, "strategies")
	var all []*sliding_log.SlidingLogLimiterStrategy
	unit := time.Hour
	limit, window := 0, time.Duration(0)
	for range n {
		limit += rapid.IntRange(1, 5).Draw(rt, "limit")
		window += unit * time.Duration(rapid.IntRange(1, 3).Draw(rt, "window"))
		c.Logf("%d in %v", limit, window)
		all = append(all, sliding_log.NewSlidingLogLimiterStrategy(limit, window))
	}
	for i := range all {
		j := rapid.IntRange(i, n-1).Draw(rt, "swap")
		all[i], all[j] = all[j], all[i]
	}
	given, check := arena(rt, all, func(int) *sliding_log.SlidingLogLimiterStrategy { return nil })
	ptrs := slices.Clone(given)
	c.NTIf(n > 1)
	count := func(l *sliding_log.SlidingLogLimiter) int {
		for i := 0; ; i++ {
			if l.TryAcquire() != nil || i > 100 {
				return i
			}
		}
	}
	first := -1
	// the second one uses a coarser small window: it may not change what the strategies are
	for k, small := range []time.Duration{unit / 2, unit, unit / 2} {
		l, err := sliding_log.NewSlidingLogLimiter(small, given...)
		if err != nil {
			rt.Fatalf("NewSlidingLogLimiter: %v", err)
		}
		if s := check(); s != "" || !slices.Equal(given, ptrs) {
			rt.Fatalf("NewSlidingLogLimiter changed the strategies it was given: %s", s)
		}
		if got := count(l); first == -1 {
			first = got
		} else if got != first {
			rt.Fatalf("limiter %d made from the same strategies admits %d, the first %d", k, got, first)
		}
		// the limiter keeps working after the caller reuses the slice
		l2, _ := sliding_log.NewSlidingLogLimiter(small, given...)
		for i := range given {
			given[i] = nil
		}
		if got := count(l2); got != first {
			rt.Fatalf("a limiter whose strategies' slice was reused admits %d, not %d", got, first)
		}
		copy(given, ptrs)
	}
}
