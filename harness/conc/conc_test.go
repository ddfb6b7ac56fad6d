// Package conc checks that helpers and separate instances may be used from many goroutines (C40).
package conc

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/iotest"
	"time"

	mmath "github.com/ahKevinXy/go-web-tools/common/math"
	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"github.com/ahKevinXy/go-web-tools/help/utils"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

func TestC40(t *testing.T) {
	vt.Check(t, "first use", "one to eight calls of drawn helpers, or drawn scripts on instances, made for the first time in a fresh process by two to eight goroutines at once, and alone afterwards; non-trivial: the process ran to its end",
		60, 3000, cold)
	vt.Check(t, "helpers", "six to twenty calls of drawn helpers with drawn arguments (text, numbers, digests, ciphers, JSON, URLs, classification, reading and writing files of their own), first one after another and then from two to eight goroutines at once, each in an order of its own; every call must return what it returned alone; non-trivial: two goroutines were inside at the same moment",
		1200, 40000, helpers)
	vt.Sync(t, "instances", "goroutines that each play a drawn script on containers, limiters, filters and queues of their own, against the same script played alone, at a frozen instant; non-trivial: scripts of more than twenty operations",
		1500, 50000, instances)
	vt.Check(t, "tables", "goroutines that each insert, update and delete through the table helpers in a database of their own, against the same calls made alone; non-trivial: more than one kind of helper",
		150, 6000, tables)
}

// a call can be made any number of times, from any goroutine, and always gives the same answer.
type call struct {
	name string
	f    func() string
}

var seq atomic.Int64

// own is a fresh path in the scratch directory
func own(ext string) string {
	return filepath.Join(scratch, fmt.Sprintf("f%d%s", seq.Add(1), ext))
}

var scratch string

func fail(err error) string {
	if err == nil {
		return "ok"
	}
	return "error"
}

var classes = []*regexp.Regexp{regexp.MustCompile(`^[0-9]*$`), regexp.MustCompile(`^[a-z]*$`), regexp.MustCompile(`^[A-Z]*$`), regexp.MustCompile(`^[0-9a-zA-Z]*$`)}

func draw(rt *rapid.T) call {
	text := vt.ValidText(0, 24).Draw(rt, "text")
	blob := rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(rt, "bytes")
	n := rapid.IntRange(0, 1<<40).Draw(rt, "n")
	small := rapid.IntRange(0, 12).Draw(rt, "small")
	digits := rapid.StringMatching(`1[3-9][0-9]{9}|[0-9]{15,19}`).Draw(rt, "digits")
	key := []byte("0123456789abcdef0123456789abcdef")[:vt.Pick(rt, "key", 16, 24, 32)]
	table := []call{
		{"Md5", func() string { return utils.Md5(text) }},
		{"Md5Crypt", func() string { return utils.Md5Crypt(text) }},
		{"MD5V", func() string { return utils.MD5V(blob, 'x', byte(small)) }},
		{"CheckMd5", func() string { return fmt.Sprint(utils.CheckMd5(blob, utils.MD5V(blob))) }},
		{"ComputeFileMD5", func() string {
			var r io.Reader = bytes.NewReader(bytes.Repeat(blob, 50))
			if small%2 == 0 {
				r = iotest.OneByteReader(r)
			}
			return utils.ComputeFileMD5(r)
		}},
		{"AesEncrypt", func() string {
			b, err := utils.AesEncrypt(blob, key)
			return hex.EncodeToString(b) + fail(err)
		}},
		{"AesDecrypt", func() string {
			b, err := utils.AesEncrypt(blob, key)
			if err != nil {
				return "refused"
			}
			b, err = utils.AesDecrypt(b, key)
			return hex.EncodeToString(b) + fail(err)
		}},
		{"AesDecrypt junk", func() string {
			b, err := utils.AesDecrypt(append([]byte(nil), blob...), key)
			return hex.EncodeToString(b) + fail(err)
		}},
		{"Base64", func() string {
			s := utils.Base64EncodeToByte(blob)
			return s + utils.Base64Encode(text) + utils.Base64DecodeToString(s) + string(utils.Base64Decode(s)) + string(utils.Base64DecodeToByte(s))
		}},
		{"JSON", func() string {
			s := utils.MapIntToJsonString(map[string]int32{text: int32(small)})
			return s + fmt.Sprint(utils.JsonStringToMap(s)) + utils.MapToJsonString(map[string]interface{}{text: n}) + utils.Map2JsonString([]string{text})
		}},
		{"switches", func() string {
			o := map[string]bool{}
			utils.SetSwitchFromOptions(o, text, small%2 == 0)
			return fmt.Sprint(utils.GetSwitchFromOptions(o, text), utils.GetSwitchFromOptions(o, "other"), utils.GetSwitchFromOptions(nil, text))
		}},
		{"integers", func() string {
			return utils.IntToString(n) + utils.Int64ToString(int64(-n)) + fmt.Sprint(utils.StringToInt(digits), utils.StringToInt64(text))
		}},
		{"texts", func() string {
			return utils.UpperFirst(text) + "|" + utils.Substr2(text, 0, len([]rune(text))/2) + "|" + utils.GetSuffixName(text+".x."+text, ".")
		}},
		{"masks", func() string {
			return utils.HideStar(text) + utils.HideStar(digits) + utils.HideStar(text+"@x.y") + utils.MaskMobile(digits, 4) + utils.MaskCustomerName(text) + utils.MaskIDCard(digits, 8) + utils.MaskBackCard(digits, 6)
		}},
		{"RandStr", func() string {
			s := utils.RandStr(small*20, small%5-1)
			k := small%5 - 1
			if k < 0 || k > 2 {
				k = 3
			}
			return fmt.Sprint(len(s), classes[k].MatchString(s))
		}},
		{"BuildUrl", func() string { return utils.BuildUrl("/"+digits+"/", "a", n, "b", text, "c", 0) }},
		{"paths", func() string {
			return fmt.Sprint(utils.IsSameSiteURLPath("/"+text), utils.IsMaliciousPath(text), utils.IsMaliciousPath("../"+text), utils.IsImage(text+".png"))
		}},
		{"sniffing", func() string {
			p := append([]byte("\x89PNG\r\n\x1a\n"), blob...)
			return fmt.Sprint(utils.IsTextFile(blob), utils.IsImageFile(p), utils.IsPDFFile([]byte("%PDF-"+text)), utils.IsVideoFile(blob))
		}},
		{"numbers", func() string {
			a, b := mmath.Split(uint(n), uint(small+1))
			return utils.FileSize(int64(n)) + utils.FormatByte(n) + fmt.Sprint(utils.Round(float64(n)/1000, 2), a, b, mmath.Log2(uint64(n)+1), mmath.RoundUpPowOf2(uint32(small)), mmath.FindLastBitSet(uint64(n)))
		}},
		{"directories", func() string {
			_, err := time.Parse("2006/01/02", utils.GetTimeDir())
			return utils.GetCurrentDir() + fail(err)
		}},
		{"reading", func() string {
			p := filepath.Join(scratch, "shared", "f.csv")
			m, err := utils.FileMd5(p)
			l, e := utils.ScanDir(filepath.Join(scratch, "shared"))
			sort.Strings(l)
			ok, _ := utils.PathExists(p)
			return fmt.Sprint(*utils.ReadCsv(p), m, err, l, e, ok, utils.IsDir(p), utils.IsFile(p), utils.FileExist(p), utils.FileIsExisted(p+"x"), utils.ImageFileToBase64(p))
		}},
		{"csv", func() string {
			p := own(".csv")
			defer os.Remove(p)
			a := utils.WriteCsv(p, []string{text, digits})
			b := utils.WriteCsv(p, []string{digits, text + "\""})
			r := utils.ReadCsv(p)
			if r == nil {
				return "nothing"
			}
			return fmt.Sprintf("%v %v %q", a, b, *r)
		}},
		{"files", func() string {
			d := own("")
			defer os.RemoveAll(d)
			err := errors.Join(utils.CreateDir(d, d+"/x"), utils.MkDir(d+"/y"), os.WriteFile(d+"/a", blob, 0o644))
			n, e := utils.CopyFile(d+"/b", d+"/a")
			err = errors.Join(err, e, utils.FileMove(d+"/b", d+"/z/c"), utils.DeLFile(d+"/a"))
			got, e := os.ReadFile(d + "/z/c")
			l, e2 := utils.ScanDir(d)
			return fmt.Sprintf("%v %d %x %d files", errors.Join(err, e, e2), n, got, len(l))
		}},
		{"zip", func() string {
			d := own("")
			defer os.RemoveAll(d)
			if err := errors.Join(os.Mkdir(d, 0o755), os.WriteFile(d+"/a", blob, 0o644), os.WriteFile(d+"/b", []byte(text), 0o644)); err != nil {
				return "harness " + err.Error()
			}
			err := utils.ZipFiles(d+"/z.zip", []string{d + "/a", d + "/b"}, d+"/", "in/")
			l, e := utils.Unzip(d+"/z.zip", d+"/out")
			a, _ := os.ReadFile(d + "/out/in/a")
			b, _ := os.ReadFile(d + "/out/in/b")
			return fmt.Sprintf("%v %d %x %s", errors.Join(err, e), len(l), a, b)
		}},
		{"upload", func() string {
			id := fmt.Sprintf("d%d", seq.Add(1))
			name := id + ".bin"
			defer os.Remove("fileDir/" + name)
			var err error
			for k := 0; k < 3; k++ {
				_, e := utils.BreakPointContinue(append([]byte{byte(k)}, blob...), name, k, 3, id)
				err = errors.Join(err, e)
			}
			p, e := utils.MakeFile(name, id)
			got, _ := os.ReadFile(p)
			return fmt.Sprintf("%v %x", errors.Join(err, e, utils.RemoveChunk(id)), got)
		}},
	}
	k := rapid.IntRange(0, len(table)).Draw(rt, "helper")
	if k == len(table) || k < 0 {
		return call{"ShellExec", func() string {
			o, err := utils.ShellExec("printf '%s' " + digits + "; echo noise >&2; exit " + fmt.Sprint(small%2))
			if err != nil {
				return "error"
			}
			return o.String()
		}}
	}
	c := table[k]
	c.name = fmt.Sprintf("%s(%q %x %d %d %s)", c.name, text, blob, n, small, digits)
	return c
}

// together runs the functions at the same moment and reports whether two ever overlapped; a panic
// is handed on.
func together(fs []func()) (overlapped bool) {
	var wg sync.WaitGroup
	var inside, most atomic.Int64
	start := make(chan struct{})
	panics := make([]any, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if k := inside.Add(1); k > most.Load() {
				most.Store(k)
			}
			defer inside.Add(-1)
			defer func() { panics[i] = recover() }()
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != nil {
			panic(p)
		}
	}
	return most.Load() > 1
}

func helpers(rt *rapid.T, c *vt.C) {
	setup()
	n := rapid.IntRange(6, 20).Draw(rt, "calls")
	calls := make([]call, n)
	want := make([]string, n)
	for i := range calls {
		calls[i] = draw(rt)
		want[i] = calls[i].f()
		c.Logf("%s", calls[i].name)
		c.Label(strings.SplitN(calls[i].name, "(", 2)[0])
	}
	g := rapid.IntRange(2, 8).Draw(rt, "goroutines")
	var mu sync.Mutex
	bad := ""
	fs := make([]func(), g)
	for i := range fs {
		order := rapid.SliceOfN(rapid.IntRange(0, n-1), 3, 20).Draw(rt, "order")
		c.Logf("%v", order)
		fs[i] = func() {
			for _, k := range order {
				if got := calls[k].f(); got != want[k] {
					mu.Lock()
					bad = fmt.Sprintf("%s returned %q alone and %q together with others", calls[k].name, want[k], got)
					mu.Unlock()
				}
			}
		}
	}
	c.NTIf(together(fs))
	if bad != "" {
		rt.Fatal(bad)
	}
}

// ---- tables

type row struct {
	ID   int64  `json:"id"`
	Name string `json:"name"`
	N    int64  `json:"n"`
}

func tables(rt *rapid.T, c *vt.C) {
	type op struct {
		kind int
		ids  []int64
		s    string
	}
	g := rapid.IntRange(2, 4).Draw(rt, "goroutines")
	fs, got, want := make([]func(), g), make([]string, g), make([]string, g)
	play := func(db *vsqlite.DB, ops []op) string {
		var b strings.Builder
		for _, o := range ops {
			var err error
			set := map[string]interface{}{"name": o.s, "n": len(o.s)}
			switch o.kind {
			case 0:
				err = gorm_tools.InsertToTable("t", map[string]interface{}{"id": o.ids[0], "name": o.s}, db.G)
			case 1:
				var l []interface{}
				for _, i := range o.ids {
					l = append(l, row{i, o.s, i * 2})
				}
				err = gorm_tools.SplitInsertTableRecords(db.G, "t", l...)
			case 2:
				m := map[int64]map[string]interface{}{}
				for _, i := range o.ids {
					m[i] = map[string]interface{}{"name": o.s + fmt.Sprint(i), "n": i}
				}
				err = gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.G, "t", m)
			case 3:
				err = gorm_tools.UpdateByTableNameAndIds("t", o.ids, set, db.G)
			case 4:
				err = gorm_tools.UpdateByTableNameAndWhere("t", map[string]interface{}{"id": o.ids[0]}, set, db.G)
			case 5:
				err = gorm_tools.DelByTableNameAndId("t", o.ids, db.G)
			case 6:
				err = gorm_tools.UpdateByTableNameAndId("t", o.ids[0], set, db.G)
			}
			b.WriteString(fail(err) + " ")
		}
		l, err := db.Dump("select id, name, n from t order by id")
		return b.String() + fmt.Sprint(l, err)
	}
	open := func() *vsqlite.DB {
		db, err := vsqlite.Open()
		if err == nil {
			_, err = db.SQL.Exec("create table t(id integer primary key, name text, n integer)")
		}
		if err != nil {
			vt.Harness("%v", err)
		}
		return db
	}
	for i := range fs {
		ops := make([]op, rapid.IntRange(1, 6).Draw(rt, "ops"))
		kinds := map[int]bool{}
		for k := range ops {
			ops[k] = op{rapid.IntRange(0, 6).Draw(rt, "op"), rapid.SliceOfNDistinct(rapid.Int64Range(1, 40), 1, 12, rapid.ID[int64]).Draw(rt, "ids"), rapid.StringMatching("[a-z']{0,6}").Draw(rt, "s")}
			kinds[ops[k].kind] = true
		}
		c.Logf("%v", ops)
		c.NTIf(len(kinds) > 1)
		a, b := open(), open()
		defer a.Close()
		defer b.Close()
		want[i] = play(a, ops)
		fs[i] = func() { got[i] = play(b, ops) }
	}
	together(fs)
	for i := range got {
		if got[i] != want[i] {
			rt.Fatalf("goroutine %d: %s together with others, %s alone", i, got[i], want[i])
		}
	}
}
