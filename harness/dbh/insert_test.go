package dbh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }

const maxPlaceholders = 65535

func TestC21(t *testing.T) {
	vt.Check(t, "small", "0 to 12 records of 1 to 8 fields (maps, structs, pointers to structs; omitted, null and missing fields; hostile texts and extreme numbers), inserted in one call or one batch, sometimes with a failing statement (before or after it was executed), a duplicate key, a missing column or a record that is no object; non-trivial: records with different fields, or a failure",
		3000, 80000, smallInserts)
	vt.Check(t, "large", "enough records for 1 to 4 statements: 1 to 1200 fields and sizes around multiples of 65000 placeholders, all alike, with records that have more fields than the others, or of two to four kinds that share only the first field, sometimes with a fault at the nth statement; non-trivial: at least two statements",
		10, 400, largeInserts)
	vt.Check(t, "too wide", "one to four records (of the same or of different fields) that list more fields than any statement has placeholders, into a table of a few columns: refused, nothing stored; non-trivial: all",
		3, 60, tooWideInserts)
}

type fkind int

const (
	kInt fkind = iota
	kUint
	kFloat
	kText
	kBool
	kPtr
	kQuoted // json:",string"
	nKinds
)

type field struct {
	name      string
	kind      fkind
	omitempty bool
}

var names = []string{"id", "name", "order", "select", "group", "Mixed", "with space", "naïve", "x1", "x2", "deleted_at", "key", "values", "字段", "a-b", "100", "'q'", "%s", "(x)"}

func hostile(rt *rapid.T) string {
	if rapid.IntRange(0, 1).Draw(rt, "plain") == 0 {
		return vt.ValidText(0, 12).Draw(rt, "text")
	}
	return vt.Pick(rt, "text", "", "?", "@name", "a'b", "`x`", "\"q\"", "'); drop table t; --", "<b>&amp;</b>", "null", "NULL", "0", "1e3", "\u2028", "\x00", "a\x00b", "C:\\d", "(?)", " ", "\n", "%s%d", strings.Repeat("长", 300))
}

// value draws a field's value.
func value(rt *rapid.T, k fkind) any {
	edge := rapid.Bool().Draw(rt, "edge")
	switch k {
	case kInt, kQuoted:
		if edge {
			return vt.Pick[int64](rt, "int", 0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53+1, -(1<<53 + 1), 1000000)
		}
		return rapid.Int64().Draw(rt, "int")
	case kUint:
		if edge {
			return vt.Pick[uint64](rt, "uint", 0, math.MaxUint64, 1<<63, 1<<53+1)
		}
		return rapid.Uint64().Draw(rt, "uint")
	case kFloat:
		if edge {
			return vt.Pick(rt, "float", 0, 0.1, -2.5, 1e21, 1e-7, 1e300, 123456789.125, 1)
		}
		return rapid.Float64().Draw(rt, "float")
	case kBool:
		return edge
	case kPtr:
		if rapid.IntRange(0, 2).Draw(rt, "nil") == 0 {
			return (*string)(nil)
		}
		s := hostile(rt)
		return &s
	}
	return hostile(rt)
}

// canonFloat gives equal texts to equal numbers, however they are written.
func canonFloat(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "not a number: " + s
	}
	if f == 0 {
		f = 0
	}
	return strconv.FormatFloat(f+0, 'g', -1, 64)
}

func goType(k fkind) reflect.Type {
	switch k {
	case kInt, kQuoted:
		return reflect.TypeOf(int64(0))
	case kUint:
		return reflect.TypeOf(uint64(0))
	case kFloat:
		return reflect.TypeOf(float64(0))
	case kBool:
		return reflect.TypeOf(false)
	case kPtr:
		return reflect.TypeOf((*string)(nil))
	}
	return reflect.TypeOf("")
}

func open(rt *rapid.T) *vsqlite.DB {
	db, err := vsqlite.Open()
	if err != nil {
		vt.Harness("open: %v", err)
	}
	return db
}

func must(db *vsqlite.DB, q string, args ...any) {
	if _, err := db.SQL.Exec(q, args...); err != nil {
		vt.Harness("%s: %v", q, err)
	}
}

func createSQL(table string, fs []field, extra string) string {
	var cols []string
	for _, f := range fs {
		cols = append(cols, "`"+f.name+"` text")
	}
	return "create table " + table + "(" + strings.Join(cols, ",") + extra + ")"
}

func dump(rt *rapid.T, db *vsqlite.DB, table string, fs []field) []string {
	rows, err := db.SQL.Query("select * from " + table)
	if err != nil {
		rt.Fatalf("the table cannot be read afterwards: %v", err)
	}
	defer rows.Close()
	var out []string
	vals := make([]any, len(fs))
	ptrs := make([]any, len(fs))
	for i := range vals {
		ptrs[i] = &vals[i]
	}
	for rows.Next() {
		if err := rows.Scan(ptrs...); err != nil {
			rt.Fatalf("the table cannot be read afterwards: %v", err)
		}
		cells := make([]string, len(fs))
		for i, v := range vals {
			if s, ok := v.(string); ok && fs[i].kind == kFloat {
				cells[i] = canonFloat(s)
			} else {
				cells[i] = vsqlite.Cell(v)
			}
		}
		out = append(out, strings.Join(cells, "|"))
	}
	slices.Sort(out)
	return out
}

func smallInserts(rt *rapid.T, c *vt.C) {
	pool := slices.Clone(names)
	nf := rapid.IntRange(1, 8).Draw(rt, "fields")
	fs := make([]field, nf)
	for i := range fs {
		j := rapid.IntRange(i, len(pool)-1).Draw(rt, "name")
		pool[i], pool[j] = pool[j], pool[i]
		fs[i] = field{pool[i], fkind(rapid.IntRange(0, int(nKinds)-1).Draw(rt, "kind")), rapid.IntRange(0, 2).Draw(rt, "omit") == 0}
	}
	db := open(rt)
	defer db.Close()
	table := vt.Pick(rt, "table", "t", "`my table`", "main.t2")
	// 1 failing statement, 2 duplicate reported, 3 nothing affected, 4 unique column, 5 missing table, 6 missing column, 7 a record that is no object, 8 an error reported after the statement was executed
	trouble := vt.Weighted(rt, "trouble", 10, 2, 2, 2, 3, 1, 1, 1, 1)
	if trouble == 6 && nf == 1 {
		trouble = 5
	}
	if trouble == 4 && fs[0].kind == kFloat {
		fs[0].kind = kText // numbers have several texts
	}
	n := rapid.IntRange(0, 12).Draw(rt, "records")
	var records []any
	var want []string
	columns := fs
	if trouble == 6 {
		columns = fs[:nf-1]
	}
	unlike, clash, lastField, fieldless := false, false, false, true
	firsts, firstShape := map[string]bool{}, ""
	for i := 0; i < n; i++ {
		rec := record(rt, fs)
		// what the record holds is what its JSON holds
		b, err := json.Marshal(rec)
		if err != nil {
			vt.Harness("marshal: %v", err)
		}
		held := map[string]any{}
		dec := json.NewDecoder(bytes.NewReader(b))
		dec.UseNumber()
		if err := dec.Decode(&held); err != nil {
			vt.Harness("unmarshal: %v", err)
		}
		fieldless = fieldless && len(held) == 0
		_, has := held[fs[nf-1].name]
		lastField = lastField || has
		var cells []string
		shape := ""
		for _, f := range columns {
			v, has := held[f.name]
			shape += strconv.FormatBool(has)
			cells = append(cells, cellOf(v, f.kind))
		}
		if cells[0] != "∅" {
			clash = clash || firsts[cells[0]]
			firsts[cells[0]] = true
		}
		if len(records) == 0 {
			firstShape = shape
		}
		unlike = unlike || shape != firstShape
		records = append(records, rec)
		want = append(want, strings.Join(cells, "|"))
	}
	if trouble == 7 {
		bad := rapid.IntRange(0, len(records)).Draw(rt, "bad")
		rec := vt.Pick[any](rt, "not an object", 7, "text", []int{1}, math.NaN(), func() {}, make(chan int), map[string]any{"id": math.Inf(1)})
		records = slices.Insert(slices.Clone(records), bad, rec)
	}
	if fieldless && trouble != 7 {
		trouble = 0
	}
	extra := ""
	if trouble == 4 {
		extra = ", unique(`" + fs[0].name + "`)"
	}
	if trouble != 5 {
		must(db, createSQL(table, columns, extra))
	}
	call, f := "BatchInsertTableRecords", gorm_tools.BatchInsertTableRecords
	if rapid.Bool().Draw(rt, "split") {
		call, f = "SplitInsertTableRecords", gorm_tools.SplitInsertTableRecords
	}
	switch trouble {
	case 1:
		db.Arm(0, vsqlite.Fail)
	case 2:
		db.Arm(0, vsqlite.Duplicate)
	case 3:
		db.Arm(0, vsqlite.Nothing)
	case 8:
		db.Arm(0, vsqlite.Late)
	}
	c.Logf("%s into %s: %d records of fields %v, trouble %d, rows %s", call, table, len(records), fs, trouble, strings.Join(want, " / "))
	db.Take()
	err := f(db.G, table, records...)
	stmts := db.Take()
	for _, s := range stmts {
		if s.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", s.Args)
		}
	}
	mustFail := false
	switch trouble {
	case 1, 2, 3, 5, 7, 8:
		mustFail = true
	case 4:
		mustFail = clash
	case 6:
		mustFail = lastField
	}
	c.NTIf(unlike || mustFail)
	var got []string
	if trouble != 5 {
		got = dump(rt, db, table, columns)
	}
	if fieldless && !mustFail {
		// there is nothing to store: whether that is an error is not specified, but no other row may appear
		if len(got) != 0 && len(got) != len(records) {
			rt.Fatalf("%s of %d records without any field left %d rows", call, len(records), len(got))
		}
		return
	}
	if mustFail {
		if err == nil {
			rt.Fatalf("%s succeeded although it could not insert every record (trouble %d)", call, trouble)
		}
		if isDup := strings.Contains(strings.ToLower(err.Error()), "duplicate record"); isDup != (trouble == 2 || trouble == 4) {
			rt.Fatalf("%s: the error %q reports a duplicate: %v (trouble %d)", call, err, isDup, trouble)
		}
		if len(got) != 0 && trouble != 8 {
			rt.Fatalf("%s failed on its only statement, but the table has %d rows", call, len(got))
		}
		if len(stmts) > 1 {
			rt.Fatalf("%s sent %d statements although the first failed", call, len(stmts))
		}
		return
	}
	if err != nil {
		rt.Fatalf("%s: %v", call, err)
	}
	slices.Sort(want)
	if !slices.Equal(got, want) {
		rt.Fatalf("%s: the table holds\n%s\nwant\n%s", call, strings.Join(got, "\n"), strings.Join(want, "\n"))
	}
}

// record draws a record with some of the fields, as a map, a struct or a pointer to a struct.
func record(rt *rapid.T, fs []field) any {
	m := map[string]any{}
	var sf []reflect.StructField
	var vals []any
	for j, f := range fs {
		if rapid.IntRange(0, 5).Draw(rt, "lacks") == 0 {
			continue
		}
		v := value(rt, f.kind)
		m[f.name] = v
		if f.kind == kQuoted {
			m[f.name] = strconv.FormatInt(v.(int64), 10)
		}
		if tag := f.name; validTag(tag) {
			if f.omitempty {
				tag += ",omitempty"
			}
			if f.kind == kQuoted {
				tag += ",string"
			}
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("F%d", j), Type: goType(f.kind), Tag: reflect.StructTag(fmt.Sprintf("json:%q", tag))})
			vals = append(vals, v)
		}
	}
	how := rapid.IntRange(0, 3).Draw(rt, "how")
	if how < 2 {
		return m
	}
	sv := reflect.New(reflect.StructOf(sf))
	for k, v := range vals {
		sv.Elem().Field(k).Set(reflect.ValueOf(v))
	}
	if how == 2 {
		return sv.Elem().Interface()
	}
	return sv.Interface()
}

func cellOf(v any, k fkind) string {
	switch x := v.(type) {
	case nil:
		return "∅"
	case json.Number:
		if k == kFloat {
			return canonFloat(x.String())
		}
		return strconv.Quote(x.String())
	case string:
		return strconv.Quote(x)
	case bool:
		if x {
			return `"1"`
		}
		return `"0"`
	}
	vt.Harness("unexpected %T", v)
	return ""
}

// validTag is encoding/json's rule for names given in tags.
func validTag(s string) bool {
	for _, r := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", r) {
			continue
		}
		if r == '\'' || r == ',' || r == '"' || r == '`' || r == '\\' {
			return false
		}
	}
	return true
}

func tooWideInserts(rt *rapid.T, c *vt.C) {
	db := open(rt)
	defer db.Close()
	must(db, "create table t(c0, c1, c2)")
	must(db, "insert into t values (1, 2, 3)")
	n := rapid.IntRange(1, 4).Draw(rt, "records")
	nf := rapid.IntRange(maxPlaceholders+1, 140000).Draw(rt, "fields")
	same := rapid.Bool().Draw(rt, "the same fields")
	c.Logf("%d records of %d fields in all, the same in each: %v", n, nf, same)
	c.NT()
	records := make([]any, n)
	for i := range records {
		m := map[string]any{}
		for j := 0; j < nf; j++ {
			if same || j%n == i {
				m[fmt.Sprintf("c%d", j)] = j
			}
		}
		records[i] = m
	}
	db.Take()
	err := gorm_tools.SplitInsertTableRecords(db.G, "t", records...)
	for _, st := range db.Take() {
		if st.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", st.Args)
		}
	}
	rows := 0
	if e := db.SQL.QueryRow("select count(*) from t").Scan(&rows); err == nil || e != nil || rows != 1 {
		rt.Fatalf("after inserting records of %d fields into a table of three columns: %v; the table has %d rows (%v), want 1", nf, err, rows, e)
	}
}

func largeInserts(rt *rapid.T, c *vt.C) {
	nf := 0
	switch vt.Weighted(rt, "width", 4, 4, 2, 1) {
	case 0:
		nf = rapid.IntRange(5, 60).Draw(rt, "fields")
	case 1:
		nf = rapid.IntRange(60, 1200).Draw(rt, "fields")
	case 2:
		nf = rapid.IntRange(3, 5).Draw(rt, "fields")
	default:
		nf = rapid.IntRange(2, 3).Draw(rt, "fields")
	}
	per := 65000 / nf
	n := per*rapid.IntRange(1, 3).Draw(rt, "statements") + vt.Pick(rt, "off", 0, 1, -1, 0, 1, per/2)
	// the records before `narrow` and from `again` on have only the first `have` fields
	narrow, again, have := 0, n, nf
	// families: besides the first field, each record has only the fields of its own kind
	families := 1
	switch mixed := rapid.IntRange(0, 3).Draw(rt, "mixed"); {
	case mixed == 3 && nf > 2:
		families = rapid.IntRange(2, min(4, nf-1)).Draw(rt, "families")
	case mixed > 0:
		narrow = rapid.IntRange(0, n-1).Draw(rt, "narrow")
		have = rapid.IntRange(1, nf).Draw(rt, "have")
		if rapid.Bool().Draw(rt, "again narrow") {
			again = min(n, narrow+rapid.IntRange(1, 3).Draw(rt, "wide ones"))
		}
	}
	fs := make([]field, nf)
	for i := range fs {
		fs[i] = field{name: fmt.Sprintf("c%d", i), kind: kInt}
	}
	c.Logf("%d records of %d fields in %d families, those before %d and from %d on with %d", n, nf, families, narrow, again, have)
	db := open(rt)
	defer db.Close()
	must(db, createSQL("t", fs, ""))
	records := make([]any, n)
	s := rapid.Uint64().Draw(rt, "seed")
	want := make([][]int64, n)
	for i := range records {
		m := make(map[string]any, nf)
		k := nf
		if i < narrow || i >= again {
			k = have
		}
		row := make([]int64, k)
		for j := 0; j < k; j++ {
			if j > 0 && families > 1 && j%families != i%families {
				continue
			}
			s = vt.Mix(s + 0x9e3779b97f4a7c15)
			row[j] = int64(s)
			if j == 0 {
				row[j] = int64(i)
			}
			m[fs[j].name] = row[j]
		}
		want[i] = row
		records[i] = m
	}
	fault, at := vsqlite.None, 0
	if rapid.IntRange(0, 2).Draw(rt, "fault?") == 0 {
		fault = vt.Pick(rt, "fault", vsqlite.Fail, vsqlite.Duplicate, vsqlite.Nothing, vsqlite.Late, vsqlite.FailBegin, vsqlite.FailCommit)
		at = rapid.IntRange(0, 3).Draw(rt, "at")
		if fault == vsqlite.FailBegin || fault == vsqlite.FailCommit { // strikes only if transactions are used
			at = rapid.IntRange(0, 1).Draw(rt, "transaction")
		}
		c.Logf("fault %d at statement %d", fault, at)
		db.Arm(at, fault)
	}
	db.Take()
	err := gorm_tools.SplitInsertTableRecords(db.G, "t", records...)
	stmts := db.Take()
	c.NTIf(len(stmts) > 1)
	for _, st := range stmts {
		if st.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", st.Args)
		}
	}
	struck := db.Hits() > 0
	if struck {
		if err == nil {
			rt.Fatalf("success although statement %d failed (fault %d)", at, fault)
		}
		if isDup := strings.Contains(strings.ToLower(err.Error()), "duplicate record"); isDup != (fault == vsqlite.Duplicate) {
			rt.Fatalf("the error %q reports a duplicate: %v", err, isDup)
		}
		if len(stmts) != at+1 && fault != vsqlite.FailBegin && fault != vsqlite.FailCommit {
			rt.Fatalf("%d statements were sent although statement %d failed", len(stmts), at)
		}
	} else if err != nil {
		rt.Fatalf("SplitInsertTableRecords: %v", err)
	}
	rows, e := db.SQL.Query("select * from t order by cast(c0 as integer)")
	if e != nil {
		rt.Fatalf("the table cannot be read afterwards: %v", e)
	}
	defer rows.Close()
	vals := make([]any, nf)
	ptrs := make([]any, nf)
	for i := range vals {
		ptrs[i] = &vals[i]
	}
	got, last := 0, int64(-1)
	for rows.Next() {
		if e := rows.Scan(ptrs...); e != nil {
			rt.Fatalf("the table cannot be read afterwards: %v", e)
		}
		got++
		var id int64 = -1
		if t, ok := vals[0].(string); ok {
			id, _ = strconv.ParseInt(t, 10, 64)
		}
		if id < 0 || id >= int64(n) || id <= last {
			rt.Fatalf("unexpected or repeated row %v after %d", vals[0], last)
		}
		if !struck && id != last+1 {
			rt.Fatalf("row %d is missing", last+1)
		}
		last = id
		for j := range vals {
			cell := "∅"
			if j < len(want[id]) && (j == 0 || families == 1 || j%families == int(id)%families) {
				cell = strconv.Quote(strconv.FormatInt(want[id][j], 10))
			}
			if vsqlite.Cell(vals[j]) != cell {
				rt.Fatalf("row %d, field %d: %s, want %s", id, j, vsqlite.Cell(vals[j]), cell)
			}
		}
	}
	if !struck && got != n {
		rt.Fatalf("%d rows in the table, want %d", got, n)
	}
}
