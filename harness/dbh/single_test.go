package dbh

import (
	"fmt"
	"slices"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestC23(t *testing.T) {
	vt.Sync(t, "helpers", "two tables of the same columns, and a sequence of inserts (struct, slice, map), deletes, updates by id, ids and condition and soft deletes, with known, unknown, repeated and no ids, matching, null and empty conditions and failures injected at the statement, the begin or the commit; both tables are compared with the model after every call; non-trivial: a call changed some rows and left others, and a failure or an empty condition was met",
		3000, 80000, singles)
	vt.Sync(t, "many", "tables of up to 4000 rows and calls by lists of up to 5000, rarely 32000, ids (known and unknown, in any order, some twice, or the known ones at one end), or an insert of up to 2000 rows at once; non-trivial: over 500 rows are changed and others are not",
		40, 1500, manyRows)
}

// manyRows is the model again for calls that name many rows.
func manyRows(rt *rapid.T, c *vt.C) {
	db := open(rt)
	defer db.Close()
	must(db, "create table t(id integer primary key, name text not null, n integer, note text, updated_at integer, deleted_at integer)")
	n := rapid.IntRange(0, 4000).Draw(rt, "rows")
	type cells struct{ name, n string }
	model := map[int64]cells{}
	must(db, "begin")
	for i := 1; i <= n; i++ {
		must(db, "insert into t(id, name, n) values(?, 'old', 0)", int64(i))
		model[int64(i)] = cells{"old", "0"}
	}
	must(db, "commit")
	for s := rapid.IntRange(1, 4).Draw(rt, "steps"); s > 0; s-- {
		k := rapid.IntRange(0, 5000).Draw(rt, "ids")
		if rapid.IntRange(0, 7).Draw(rt, "nearly too many") == 7 {
			k = 32000 - rapid.IntRange(0, 12000).Draw(rt, "fewer ids")
		}
		mix := rapid.Uint64().Draw(rt, "mix")
		span := uint64(max(1, n+vt.Pick(rt, "unknown", 0, 100, 5000)))
		ids := make([]int64, k)
		seen := map[int64]bool{}
		known := min(n, k/rapid.IntRange(1, 10).Draw(rt, "known part"))
		lay := vt.Pick(rt, "order", "mixed", "known last", "known first")
		for i := range ids {
			mix = vt.Mix(mix + 0x9e3779b97f4a7c15)
			switch {
			case lay == "mixed":
				ids[i] = int64(mix%span) + 1
			case lay == "known first" && i < known:
				ids[i] = int64(i) + 1
			case lay == "known last" && i >= k-known:
				ids[i] = int64(k - i)
			default:
				ids[i] = 1000000 + int64(i)
			}
			seen[ids[i]] = true
		}
		fault := vsqlite.None
		if rapid.IntRange(0, 4).Draw(rt, "fault?") == 0 {
			fault = vt.Pick(rt, "fault", vsqlite.Fail, vsqlite.FailBegin, vsqlite.FailCommit, vsqlite.Late)
		}
		next := map[int64]cells{}
		for i, r := range model {
			next[i] = r
		}
		hit := 0
		var call func() error
		switch vt.Weighted(rt, "op", 3, 3, 2) {
		case 0:
			for i := range seen {
				if _, in := next[i]; in {
					delete(next, i)
					hit++
				}
			}
			c.Logf("delete %d ids (%s) of %d rows", k, lay, len(model))
			call = func() error { return gorm_tools.DelByTableNameAndId("t", ids, db.G) }
		case 1:
			v := rapid.Int64().Draw(rt, "v")
			for i := range seen {
				if r, in := next[i]; in {
					r.n = fmt.Sprint(v)
					next[i] = r
					hit++
				}
			}
			c.Logf("update %d ids (%s) of %d rows", k, lay, len(model))
			call = func() error {
				return gorm_tools.UpdateByTableNameAndIds("t", ids, map[string]interface{}{"n": v}, db.G)
			}
		default:
			m := rapid.IntRange(1, 2000).Draw(rt, "new")
			rs := make([]row, m)
			for i := range rs {
				rs[i] = row{ID: int64(100000*s + i), Name: "new", N: int64(i)}
				next[rs[i].ID] = cells{"new", fmt.Sprint(i)}
			}
			hit = m
			c.Logf("insert %d rows", m)
			call = func() error { return gorm_tools.InsertToTable("t", &rs, db.G) }
		}
		keep := append([]int64(nil), ids...)
		if fault != vsqlite.None {
			db.Arm(0, fault)
			c.Logf("fault %d", fault)
		}
		err := call()
		struck := fault != vsqlite.None && db.Hits() > 0
		db.Arm(0, vsqlite.None)
		if struck != (err != nil) {
			rt.Fatalf("%s: returned %v (fault struck: %v)", c.String(), err, struck)
		}
		if !slices.Equal(keep, ids) {
			rt.Fatalf("%s: changed the caller's ids", c.String())
		}
		if err == nil {
			model = next
			c.NTIf(hit > 500 && len(next) > hit)
		}
		rows, e := db.SQL.Query("select id, name, n from t")
		if e != nil {
			rt.Fatalf("the table cannot be read afterwards: %v", e)
		}
		got := 0
		for rows.Next() {
			var id int64
			var g cells
			if e := rows.Scan(&id, &g.name, &g.n); e != nil {
				rt.Fatalf("the table cannot be read afterwards: %v", e)
			}
			if w, in := model[id]; !in || w != g {
				rt.Fatalf("%s: row %d is %v, want %v (present: %v)", c.String(), id, g, w, in)
			}
			got++
		}
		rows.Close()
		if got != len(model) {
			rt.Fatalf("%s: %d rows, want %d", c.String(), got, len(model))
		}
	}
}

type row struct {
	ID        int64 `gorm:"primaryKey"`
	Name      string
	N         int64
	Note      *string
	UpdatedAt int64
	DeletedAt int64
}

func singles(rt *rapid.T, c *vt.C) {
	cols := []string{"name", "n", "note", "updated_at", "deleted_at"}
	db := open(rt)
	defer db.Close()
	tables := []string{"t", "u_2"}
	model := map[string]map[int64][]string{}
	for _, name := range tables {
		must(db, "create table "+name+"(id integer primary key, name text not null, n integer, note text, updated_at integer, deleted_at integer)")
		model[name] = map[int64][]string{}
	}
	t := &tab{db: db, cols: cols}
	name := func() string { return vt.Pick(rt, "name", "a", "b", "", "A", "a ", "it's", "?", "@n") }
	num := func() int64 { return vt.Pick[int64](rt, "n", 0, 1, 2, -1, 1<<60) }
	note := func() any {
		if rapid.Bool().Draw(rt, "null") {
			return nil
		}
		return name()
	}
	cell := func(v any) string {
		switch x := v.(type) {
		case nil:
			return "∅"
		case string:
			return strconv.Quote(x)
		}
		return fmt.Sprint(v)
	}
	draw := func() map[string]any { return map[string]any{"name": name(), "n": num(), "note": note()} }
	fields := func() map[string]interface{} {
		m := map[string]interface{}{}
		for _, f := range cols {
			if rapid.Bool().Draw(rt, f) {
				switch f {
				case "name":
					m[f] = name()
				case "note":
					m[f] = note()
				default:
					m[f] = num()
				}
			}
		}
		return m
	}
	id := func() int64 { return int64(rapid.IntRange(0, 9).Draw(rt, "id")) }
	ids := func() []int64 {
		switch vt.Weighted(rt, "ids", 6, 1, 1) {
		case 1:
			return nil
		case 2:
			return []int64{}
		}
		return rapid.SliceOfN(rapid.Int64Range(-1, 10), 1, 5).Draw(rt, "ids")
	}
	partial, trouble := false, false
	steps := rapid.IntRange(3, 20).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		table := tables[vt.Weighted(rt, "table", 3, 1)]
		m := model[table]
		next := map[int64][]string{} // after success
		for k, v := range m {
			next[k] = v
		}
		time.Sleep(time.Duration(rapid.Int64Range(0, int64(100*time.Hour)).Draw(rt, "later")))
		fault := vsqlite.None
		if rapid.IntRange(0, 5).Draw(rt, "fault?") == 0 {
			fault = vt.Pick(rt, "fault", vsqlite.Fail, vsqlite.FailBegin, vsqlite.FailCommit, vsqlite.Late)
		}
		set := func(id int64, upd map[string]interface{}) {
			r, ok := next[id]
			if !ok {
				return
			}
			r = append([]string(nil), r...)
			for f, v := range upd {
				r[t.col(f)] = cell(v)
			}
			next[id] = r
		}
		changed := map[int64]bool{}
		mustFail := false // whatever the database does
		var call func() error
		var after func() // checks the call's own outputs
		switch op := vt.Weighted(rt, "op", 6, 3, 3, 3, 4, 3); op {
		case 0:
			var made []*row
			fresh := func(taken map[int64]bool) *row {
				d := draw()
				i := int64(rapid.IntRange(1, 9).Draw(rt, "new id"))
				if rapid.IntRange(0, 7).Draw(rt, "clash") > 0 {
					for _, in := next[i]; in || taken[i]; _, in = next[i] {
						i++
					}
				}
				taken[i] = true
				r := &row{ID: i, Name: d["name"].(string), N: d["n"].(int64), UpdatedAt: 5 + num()&3, DeletedAt: num()}
				if d["note"] != nil {
					n := d["note"].(string)
					r.Note = &n
				}
				made = append(made, r)
				return r
			}
			taken := map[int64]bool{}
			switch vt.Weighted(rt, "data", 3, 2, 2) {
			case 0:
				r := fresh(taken)
				call = func() error { return gorm_tools.InsertToTable(table, r, db.G) }
			case 1:
				var rs []*row
				for k := rapid.IntRange(1, 4).Draw(rt, "k"); k > 0; k-- {
					rs = append(rs, fresh(taken))
				}
				call = func() error { return gorm_tools.InsertToTable(table, &rs, db.G) }
			default:
				r := fresh(taken)
				d := map[string]interface{}{"id": r.ID, "name": r.Name, "n": r.N, "note": nil, "updated_at": r.UpdatedAt, "deleted_at": r.DeletedAt}
				if r.Note != nil {
					d["note"] = *r.Note
				}
				call = func() error { return gorm_tools.InsertToTable(table, d, db.G) }
			}
			for _, r := range made {
				if _, in := next[r.ID]; in {
					mustFail = true
				}
				var n any
				if r.Note != nil {
					n = *r.Note
				}
				next[r.ID] = []string{cell(r.Name), cell(r.N), cell(n), cell(r.UpdatedAt), cell(r.DeletedAt)}
				changed[r.ID] = true
			}
			c.Logf("insert %d into %s", len(made), table)
		case 1:
			l := ids()
			for _, i := range l {
				delete(next, i)
				changed[i] = true
			}
			c.Logf("delete %v from %s", l, table)
			call = func() error { return gorm_tools.DelByTableNameAndId(table, l, db.G) }
		case 2:
			i, f := id(), fields()
			set(i, f)
			changed[i] = true
			c.Logf("update %s %d: %v", table, i, f)
			call = func() error { return gorm_tools.UpdateByTableNameAndId(table, i, f, db.G) }
		case 3:
			l, f := ids(), fields()
			for _, i := range l {
				set(i, f)
				changed[i] = true
			}
			c.Logf("update %s %v: %v", table, l, f)
			call = func() error { return gorm_tools.UpdateByTableNameAndIds(table, l, f, db.G) }
		case 4:
			where, f := map[string]interface{}{}, fields()
			for _, k := range []string{"id", "name", "n", "note", "deleted_at"} {
				if rapid.IntRange(0, 3).Draw(rt, "where "+k) > 0 {
					continue
				}
				switch k {
				case "id":
					where[k] = id()
				case "name":
					where[k] = name()
				case "note":
					where[k] = note()
				default:
					where[k] = num()
				}
			}
			if rapid.IntRange(0, 9).Draw(rt, "nil where") == 0 {
				where = nil
			}
			if len(where) == 0 {
				trouble = true
				// refused, unless there is nothing to set
				mustFail = len(f) > 0
			}
			for i, r := range m {
				hit := len(where) > 0
				for k, v := range where {
					if k == "id" {
						hit = hit && i == v.(int64)
					} else {
						hit = hit && r[t.col(k)] == cell(v)
					}
				}
				if hit {
					set(i, f)
					changed[i] = true
				}
			}
			c.Logf("update %s where %v: %v", table, where, f)
			was := fmt.Sprint(where, f)
			call = func() error { return gorm_tools.UpdateByTableNameAndWhere(table, where, f, db.G) }
			after = func() {
				if now := fmt.Sprint(where, f); now != was {
					rt.Fatalf("%s changed its arguments to %s", c.Last(), now)
				}
			}
		case 5:
			i := id()
			now := time.Now().Unix()
			set(i, map[string]interface{}{"updated_at": now, "deleted_at": now})
			changed[i] = true
			c.Logf("soft delete %d in %s", i, table)
			call = func() error { return gorm_tools.SoftDelByTableNameAndId(table, i, db.G) }
		}
		if fault != vsqlite.None {
			db.Arm(0, fault)
			c.Logf("fault %d", fault)
		}
		err := call()
		struck := fault != vsqlite.None && db.Hits() > 0
		db.Arm(0, vsqlite.None)
		trouble = trouble || struck
		if (struck || mustFail) && err == nil {
			rt.Fatalf("%s: no error (fault struck: %v)", c.String(), struck)
		}
		if err != nil && !struck && !mustFail {
			rt.Fatalf("%s: %v", c.String(), err)
		}
		if err == nil {
			left := 0
			for i := range m {
				if !changed[i] {
					left++
				}
			}
			partial = partial || left > 0 && len(changed) > 0
			model[table] = next
		}
		if after != nil {
			after()
		}
		for _, name := range tables {
			t.rows = model[name]
			got := t.read(rt, name)
			if diff := diffRows(got, t.rows); diff != "" {
				rt.Fatalf("%s: %s: %s", c.String(), name, diff)
			}
		}
	}
	c.NTIf(partial && trouble)
}

func diffRows(got, want map[int64][]string) string {
	var out []string
	for id, w := range want {
		if g, ok := got[id]; !ok || !equalCells(g, w) {
			out = append(out, fmt.Sprintf("row %d is %v, want %v", id, g, w))
		}
	}
	for id, g := range got {
		if _, ok := want[id]; !ok {
			out = append(out, fmt.Sprintf("row %d is %v, want none", id, g))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
