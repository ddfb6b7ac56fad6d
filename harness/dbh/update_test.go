package dbh

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"testing"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestC22(t *testing.T) {
	vt.Check(t, "small", "tables of 0 to 12 rows and 1 to 6 columns, batches of 0 to 10 ids (some unknown, negative or extreme) with 1 to 5 fields each (null, numbers, hostile texts), sometimes with an entry that lists other fields (fewer, more, renamed), a failing statement or an unknown column; non-trivial: an unlisted row and an unlisted column are there and two ids are updated, or the batch must be refused",
		4000, 100000, smallUpdates)
	vt.Check(t, "chunks", "300 to 2500 ids with 1 to 8 fields around the chunk size, some of them unknown, sometimes with a fault at the nth statement; non-trivial: at least two statements",
		24, 800, func(rt *rapid.T, c *vt.C) { largeUpdates(rt, c, false) })
	vt.Check(t, "wide", "up to 500 ids with 65 to 900 fields, around the placeholder limit; non-trivial: more than 65,535 placeholders in all",
		3, 120, func(rt *rapid.T, c *vt.C) { largeUpdates(rt, c, true) })
	vt.Check(t, "too wide", "one to four ids with more fields than any statement has placeholders for: refused, nothing changed; non-trivial: all",
		3, 60, tooWideUpdates)
}

// tab is a table t(id, c0, c1 ...) and what it should hold.
type tab struct {
	db   *vsqlite.DB
	cols []string
	rows map[int64][]string // cells
}

func newTab(rt *rapid.T, table string, cols []string) *tab {
	db := open(rt)
	q := "create table " + table + "(id integer primary key"
	for _, c := range cols {
		q += ", " + c + " text"
	}
	must(db, q+")")
	return &tab{db, cols, map[int64][]string{}}
}

func (t *tab) insert(table string, id int64, vals []any) {
	q, args := "insert into "+table+" values(?", []any{id}
	cells := make([]string, len(vals))
	for i, v := range vals {
		q += ",?"
		args = append(args, v)
		cells[i] = textCell(v)
	}
	must(t.db, q+")", args...)
	t.rows[id] = cells
}

// textCell is how a value reads back from a text column.
func textCell(v any) string {
	switch x := v.(type) {
	case nil:
		return "∅"
	case bool:
		if x {
			return `"1"`
		}
		return `"0"`
	case []byte:
		return fmt.Sprintf("%q", x)
	case string:
		return strconv.Quote(x)
	case float64:
		return strconv.Quote(strconv.FormatFloat(x, 'f', -1, 64))
	default:
		return strconv.Quote(fmt.Sprint(x))
	}
}

func (t *tab) read(rt *rapid.T, table string) map[int64][]string {
	rows, err := t.db.SQL.Query("select * from " + table)
	if err != nil {
		rt.Fatalf("the table cannot be read afterwards: %v", err)
	}
	defer rows.Close()
	out := map[int64][]string{}
	vals := make([]any, len(t.cols)+1)
	ptrs := make([]any, len(vals))
	for i := range vals {
		ptrs[i] = &vals[i]
	}
	for rows.Next() {
		if err := rows.Scan(ptrs...); err != nil {
			rt.Fatalf("the table cannot be read afterwards: %v", err)
		}
		cells := make([]string, len(t.cols))
		for i := range cells {
			cells[i] = vsqlite.Cell(vals[i+1])
		}
		out[vals[0].(int64)] = cells
	}
	return out
}

func equalCells(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func updValue(rt *rapid.T) any {
	switch vt.Weighted(rt, "value", 5, 2, 1, 1, 1, 1) {
	case 1:
		return vt.Pick[int64](rt, "int", 0, 1, -1, math.MaxInt64, math.MinInt64, 42)
	case 2:
		return nil
	case 3:
		return vt.Pick(rt, "float", 0.5, -2.25, 1024.125)
	case 4:
		return rapid.Bool().Draw(rt, "bool")
	case 5:
		return int(rapid.IntRange(-5, 500).Draw(rt, "n"))
	}
	return hostile(rt)
}

func smallUpdates(rt *rapid.T, c *vt.C) {
	nc := rapid.IntRange(1, 6).Draw(rt, "columns")
	cols := []string{"name", "status", "version", "updated_at", "c5", "Title"}[:nc]
	t := newTab(rt, "t", cols)
	defer t.db.Close()
	idPool := []int64{1, 2, 3, 4, 5, 10, 11, 0, -1, math.MaxInt64, math.MinInt64, 123456789012}
	for i := range idPool {
		if rapid.IntRange(0, 2).Draw(rt, "row") > 0 {
			vals := make([]any, nc)
			for j := range vals {
				vals[j] = fmt.Sprintf("old %d %d", i, j)
			}
			t.insert("t", idPool[i], vals)
		}
	}
	nf := rapid.IntRange(1, min(5, nc)).Draw(rt, "fields")
	perm := rapid.Permutation(cols).Draw(rt, "order")
	fields, rest := perm[:nf], perm[nf:]
	ids := rapid.Permutation(idPool).Draw(rt, "ids")[:rapid.IntRange(0, 10).Draw(rt, "n")]
	upd := map[int64]map[string]interface{}{}
	listed := 0
	for _, id := range ids {
		m := map[string]interface{}{}
		for _, f := range fields {
			m[f] = updValue(rt)
		}
		upd[id] = m
		if t.rows[id] != nil {
			listed++
		}
	}
	trouble := vt.Weighted(rt, "trouble", 8, 4, 1, 1, 1) // 1 uneven entry, 2 failing statement, 3 unknown column, 4 error after the statement was executed
	if len(ids) == 0 || len(ids) == 1 && trouble == 1 {
		trouble = 0
	}
	desc := ""
	switch trouble {
	case 1:
		m := upd[ids[0]]
		switch how := rapid.IntRange(0, 2).Draw(rt, "how"); {
		case how == 0 && nf > 1:
			delete(m, fields[0])
			desc = "lacks a field"
		case how == 1 && len(rest) > 0:
			m[rest[0]] = "extra"
			desc = "has an extra field"
		case len(rest) > 0:
			delete(m, fields[0])
			m[rest[0]] = "other"
			desc = "has another field"
		default:
			m["nosuch"] = 1
			desc = "has an unknown extra field"
		}
	case 2:
		t.db.Arm(0, vsqlite.Fail)
		desc = "statement fails"
	case 3:
		for _, m := range upd {
			m["nosuch"] = 1
		}
		desc = "unknown column"
	case 4:
		t.db.Arm(0, vsqlite.Late)
		desc = "error after the statement"
	}
	call, f := "Batch", gorm_tools.BatchUpdateTableFieldWithoutVersionByID
	if rapid.Bool().Draw(rt, "split") {
		call, f = "Split", gorm_tools.SplitUpdateTableFieldWithoutVersionByID
	}
	c.Logf("%s: %d rows, update %v (%s)", call, len(t.rows), render(upd), desc)
	c.NTIf(trouble > 0 || listed > 1 && listed < len(t.rows) && len(rest) > 0)
	t.db.Take()
	err := f(t.db.G, "t", upd)
	stmts := t.db.Take()
	for _, s := range stmts {
		if s.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", s.Args)
		}
	}
	if (err != nil) != (trouble > 0) {
		rt.Fatalf("%s returned %v (%s)", call, err, desc)
	}
	if trouble == 0 || trouble == 4 {
		t.apply(upd)
	}
	t.compare(rt, "t", call)
}

func render(upd map[int64]map[string]interface{}) string {
	var ids []int64
	for id := range upd {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	s := ""
	for _, id := range ids {
		s += fmt.Sprintf("%d:%q ", id, fmt.Sprint(upd[id]))
	}
	return s
}

func (t *tab) col(name string) int {
	for i, c := range t.cols {
		if c == name {
			return i
		}
	}
	return -1
}

func (t *tab) apply(upd map[int64]map[string]interface{}) {
	for id, m := range upd {
		row := t.rows[id]
		if row == nil {
			continue
		}
		row = append([]string(nil), row...)
		for f, v := range m {
			row[t.col(f)] = textCell(v)
		}
		t.rows[id] = row
	}
}

func (t *tab) compare(rt *rapid.T, table, what string) {
	got := t.read(rt, table)
	if len(got) != len(t.rows) {
		rt.Fatalf("after %s: %d rows in %s, want %d", what, len(got), table, len(t.rows))
	}
	for id, want := range t.rows {
		if row, ok := got[id]; !ok || !equalCells(row, want) {
			rt.Fatalf("after %s: row %d of %s is %v, want %v", what, id, table, row, want)
		}
	}
}

func tooWideUpdates(rt *rapid.T, c *vt.C) {
	db := open(rt)
	defer db.Close()
	must(db, "create table t(id integer primary key, c0, c1)")
	must(db, "insert into t values (1, 2, 3), (2, 2, 3), (3, 2, 3)")
	n := rapid.IntRange(1, 4).Draw(rt, "ids")
	nf := rapid.IntRange(maxPlaceholders/2+1, 70000).Draw(rt, "fields")
	c.Logf("%d ids with %d fields", n, nf)
	c.NT()
	upd := map[int64]map[string]interface{}{}
	for i := 1; i <= n; i++ {
		m := make(map[string]interface{}, nf)
		for j := 0; j < nf; j++ {
			m[fmt.Sprintf("c%d", j)] = j
		}
		upd[int64(i)] = m
	}
	db.Take()
	err := gorm_tools.SplitUpdateTableFieldWithoutVersionByID(db.G, "t", upd)
	for _, st := range db.Take() {
		if st.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", st.Args)
		}
	}
	rows := 0
	if e := db.SQL.QueryRow("select count(*) from t where c0 = 2 and c1 = 3").Scan(&rows); err == nil || e != nil || rows != 3 {
		rt.Fatalf("after an update of %d fields of a table of three columns: %v; %d rows are as they were (%v), want 3", nf, err, rows, e)
	}
}

func largeUpdates(rt *rapid.T, c *vt.C, wide bool) {
	var n, nf int
	if !wide {
		nf = rapid.IntRange(1, 3).Draw(rt, "fields")
		if rapid.IntRange(0, 3).Draw(rt, "more") == 0 {
			nf = rapid.IntRange(4, 8).Draw(rt, "fields")
		}
		n = vt.Pick(rt, "n", 499, 500, 501, 999, 1000, 1001, 1500, 2500, 750, 300)
	} else {
		nf = rapid.IntRange(65, 140).Draw(rt, "fields")
		if rapid.Bool().Draw(rt, "wider") {
			nf = rapid.IntRange(140, 900).Draw(rt, "fields")
		}
		per := 65535 / (2*nf + 1) // as many ids as fit in one statement
		n = min(500, max(1, per+vt.Pick(rt, "off", 1, 1, 2, 0, 20, per)))
	}
	cols := make([]string, nf+1)
	for i := range cols {
		cols[i] = fmt.Sprintf("c%d", i)
	}
	t := newTab(rt, "t", cols)
	defer t.db.Close()
	s := rapid.Uint64().Draw(rt, "seed")
	absent := rapid.IntRange(0, 3).Draw(rt, "absent")
	upd := map[int64]map[string]interface{}{}
	must(t.db, "begin")
	for i := 0; i < n+5; i++ {
		id := int64(i*3 + 1)
		if i < n {
			m := make(map[string]interface{}, nf)
			for _, f := range cols[:nf] {
				s = vt.Mix(s + 0x9e3779b97f4a7c15)
				m[f] = int64(s)
			}
			upd[id] = m
		}
		if absent > 0 && i%(absent*7) == 3 {
			continue
		}
		vals := make([]any, len(cols))
		for j := range vals {
			vals[j] = "old"
		}
		t.insert("t", id, vals)
	}
	must(t.db, "commit")
	fault := rapid.IntRange(0, 2).Draw(rt, "fault?") == 0
	at, what := 0, vsqlite.None
	if fault {
		at = rapid.IntRange(0, 3).Draw(rt, "at")
		what = vt.Pick(rt, "fault", vsqlite.Fail, vsqlite.Late, vsqlite.Fail, vsqlite.Late, vsqlite.FailBegin, vsqlite.FailCommit)
		if what == vsqlite.FailBegin || what == vsqlite.FailCommit { // strikes only if transactions are used
			at = rapid.IntRange(0, 1).Draw(rt, "transaction")
		}
		t.db.Arm(at, what)
	}
	c.Logf("%d ids of %d fields, fault %v at %d", n, nf, what, at)
	t.db.Take()
	err := gorm_tools.SplitUpdateTableFieldWithoutVersionByID(t.db.G, "t", upd)
	stmts := t.db.Take()
	c.NTIf(!wide && len(stmts) > 1 || wide && n*(2*nf+1) > maxPlaceholders)
	for _, st := range stmts {
		if st.Args > maxPlaceholders {
			rt.Fatalf("a statement uses %d placeholders", st.Args)
		}
	}
	if t.db.Hits() == 0 {
		if err != nil {
			rt.Fatalf("SplitUpdate returned %v", err)
		}
		t.apply(upd)
		t.compare(rt, "t", "SplitUpdate")
		return
	}
	if err == nil {
		rt.Fatalf("success although statement, begin or commit %d failed (fault %d)", at, what)
	}
	if len(stmts) != at+1 && (what == vsqlite.Fail || what == vsqlite.Late) {
		rt.Fatalf("%d statements were sent although statement %d failed", len(stmts), at)
	}
	// each row is as it was or has all its new values, and unlisted ones are as they were
	got := t.read(rt, "t")
	old := t.rows
	t.rows = map[int64][]string{}
	for id, r := range old {
		t.rows[id] = r
	}
	t.apply(upd)
	if len(got) != len(old) {
		rt.Fatalf("%d rows after a failure, want %d", len(got), len(old))
	}
	for id, row := range got {
		if !equalCells(row, old[id]) && !equalCells(row, t.rows[id]) {
			rt.Fatalf("after a failure row %d is half updated", id)
		}
	}
}
