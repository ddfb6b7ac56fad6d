package dbh

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/gorm_tools"
	"gorm.io/gorm"
	"gorm.io/gorm/schema"
	"pgregory.net/rapid"
	"vharness/vsqlite"
	"vharness/vt"
)

func TestC38(t *testing.T) {
	vt.Check(t, "json", "base models with any id and times, alone and embedded, through JSON and back; non-trivial: the id needs more than 53 bits or is negative",
		4000, 200000, modelJSON)
	vt.Sync(t, "rows", "histories of creating (through the model, the insert helper and the batch insert), renaming and soft-deleting (through the model and the helper) rows whose name is unique together with the base model's index, in one table over hours; the table and every kind of query through the model are compared after each step; non-trivial: a row was soft-deleted, a later query ran over live and deleted rows, and a name was reused or refused",
		1500, 40000, modelRows)
}

// item is a model as an application defines it.
type item struct {
	gorm_tools.BaseModel
	Name string `json:"name" gorm:"uniqueIndex:udx_name"`
	Size int64  `json:"size"`
}

func anyID(rt *rapid.T) int64 {
	if rapid.Bool().Draw(rt, "edge") {
		return vt.Pick[int64](rt, "id", 1, 2, -1, 1<<53, 1<<53+1, -(1<<53 + 1), math.MaxInt64, math.MinInt64, 1_500_000_000_000_000_001)
	}
	return rapid.Int64().Draw(rt, "id")
}

func modelJSON(rt *rapid.T, c *vt.C) {
	m := gorm_tools.BaseModel{Id: anyID(rt), CreatedAt: rapid.Int64().Draw(rt, "created"), UpdatedAt: rapid.Int64().Draw(rt, "updated")}
	m.DeletedAt = 0
	if rapid.Bool().Draw(rt, "deleted") {
		m.DeletedAt = m.DeletedAt + 1 + 1700000000
	}
	it := item{BaseModel: m, Name: vt.ValidText(0, 8).Draw(rt, "name"), Size: rapid.Int64().Draw(rt, "size")}
	c.Logf("%+v", it)
	c.NTIf(m.Id < 0 || m.Id > 1<<53)
	for _, v := range []any{m, &m, it, &it, []item{it}} {
		b, err := json.Marshal(v)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		// what a JavaScript client sees: every number as a double
		var loose any
		if err := json.Unmarshal(b, &loose); err != nil {
			rt.Fatalf("%s: %v", b, err)
		}
		if l, ok := loose.([]any); ok {
			loose = l[0]
		}
		o := loose.(map[string]any)
		if o["id"] != strconv.FormatInt(m.Id, 10) {
			rt.Fatalf("%s: the id is %#v, want the text %d", b, o["id"], m.Id)
		}
		for _, k := range []string{"created_at", "updated_at", "deleted_at"} {
			if _, ok := o[k].(float64); !ok {
				rt.Fatalf("%s: %s is %#v", b, k, o[k])
			}
		}
	}
	b, _ := json.Marshal(it)
	var back item
	if err := json.Unmarshal(b, &back); err != nil || back != it {
		rt.Fatalf("%s reads back as %+v (%v)", b, back, err)
	}
}

type itemRow struct {
	created, updated, deleted, size int64
	name                            string
}

// itemTable makes the table that gorm derives from the model.
func itemTable(db *vsqlite.DB) {
	s, err := schema.Parse(&item{}, &sync.Map{}, schema.NamingStrategy{})
	if err != nil {
		panic(fmt.Sprintf("gorm cannot use the model: %v", err))
	}
	var cols []string
	for _, f := range s.Fields {
		t := "integer"
		if f.DBName == "name" {
			t = "text"
		}
		if f.PrimaryKey {
			t += " primary key"
		}
		cols = append(cols, f.DBName+" "+t)
	}
	must(db, "create table "+s.Table+"("+strings.Join(cols, ", ")+")")
	for _, x := range s.ParseIndexes() {
		var names []string
		for _, f := range x.Fields {
			names = append(names, f.DBName)
		}
		must(db, "create "+x.Class+" index "+x.Name+" on "+s.Table+"("+strings.Join(names, ", ")+")")
	}
}

func modelRows(rt *rapid.T, c *vt.C) {
	db := open(rt)
	defer db.Close()
	itemTable(db)
	model := map[int64]itemRow{}
	ids := []int64{1, 2, 3, 4, 5, 1<<53 + 1, -7, math.MaxInt64}
	id := func() int64 { return ids[rapid.IntRange(0, len(ids)-1).Draw(rt, "id")] }
	name := func() string { return vt.Pick(rt, "name", "a", "b", "c", "", "it's") }
	taken := func(except int64, name string, deleted int64) bool {
		for i, r := range model {
			if i != except && r.name == name && r.deleted == deleted {
				return true
			}
		}
		return false
	}
	deletions, reuse := false, false
	steps := rapid.IntRange(3, 16).Draw(rt, "steps")
	for s := 0; s < steps; s++ {
		if rapid.IntRange(0, 3).Draw(rt, "same second") > 0 {
			time.Sleep(time.Duration(rapid.Int64Range(0, int64(10*time.Hour)).Draw(rt, "later")))
		}
		now := time.Now().Unix()
		i, n := id(), name()
		var err error
		fail := false // what the table's keys refuse
		next := map[int64]itemRow{}
		for k, r := range model {
			next[k] = r
		}
		old, in := model[i]
		live := in && old.deleted == 0
		switch op := vt.Weighted(rt, "op", 3, 2, 2, 4, 2, 3); op {
		case 0, 1, 2:
			if rapid.IntRange(0, 5).Draw(rt, "clash") > 0 {
				for _, k := range ids {
					if _, in = model[k]; !in {
						i = k
						break
					}
				}
			}
			it := item{BaseModel: gorm_tools.BaseModel{Id: i}, Name: n, Size: rapid.Int64().Draw(rt, "size")}
			r := itemRow{name: n, size: it.Size}
			fail = in || taken(i, n, 0)
			for _, r := range model {
				reuse = reuse || r.name == n
			}
			switch op {
			case 0:
				c.Logf("create %d %q", i, n)
				err = db.G.Create(&it).Error
				r.created, r.updated = now, now
			case 1:
				c.Logf("insert %d %q", i, n)
				err = gorm_tools.InsertToTable("items", &it, db.G)
				r.created, r.updated = now, now
			default:
				c.Logf("batch insert %d %q", i, n)
				it.CreatedAt, it.UpdatedAt = now-5, now-3
				r.created, r.updated = now-5, now-3
				err = gorm_tools.SplitInsertTableRecords(db.G, "items", it)
			}
			next[i] = r
		case 3:
			c.Logf("soft delete %d", i)
			if in {
				old.updated, old.deleted = now, now
				next[i] = old
				fail = taken(i, old.name, now)
				deletions = true
			}
			err = gorm_tools.SoftDelByTableNameAndId("items", i, db.G)
		case 4:
			c.Logf("delete %d through the model", i)
			if live {
				old.deleted = now
				next[i] = old
				fail = taken(i, old.name, now)
				deletions = true
			}
			err = db.G.Delete(&item{}, i).Error
		case 5:
			c.Logf("rename %d to %q through the model", i, n)
			if live {
				old.name, old.updated = n, now
				next[i] = old
				fail = taken(i, n, 0)
			}
			err = db.G.Model(&item{}).Where("id = ?", i).Update("name", n).Error
		}
		c.Logf("now %d", now)
		if fail != (err != nil) {
			rt.Fatalf("%s: returned %v, refusal expected: %v", c.String(), err, fail)
		}
		if err == nil {
			model = next
		}
		compareItems(rt, c, db, model, id(), name())
	}
	gone, here := 0, 0
	for _, r := range model {
		if r.deleted != 0 {
			gone++
		} else {
			here++
		}
	}
	c.NTIf(deletions && gone > 0 && here > 0 && reuse)
}

func compareItems(rt *rapid.T, c *vt.C, db *vsqlite.DB, model map[int64]itemRow, id int64, name string) {
	var all, live, named []string
	for i, r := range model {
		t := fmt.Sprintf("%d %q %d created %d updated %d deleted %d", i, r.name, r.size, r.created, r.updated, r.deleted)
		all = append(all, t)
		if r.deleted == 0 {
			live = append(live, t)
			if r.name == name {
				named = append(named, t)
			}
		}
	}
	texts := func(l []item) []string {
		var out []string
		for _, x := range l {
			out = append(out, fmt.Sprintf("%d %q %d created %d updated %d deleted %d", x.Id, x.Name, x.Size, x.CreatedAt, x.UpdatedAt, int64(x.DeletedAt)))
		}
		return out
	}
	same := func(what string, got, want []string) {
		slices.Sort(got)
		slices.Sort(want)
		if !slices.Equal(got, want) {
			rt.Fatalf("%s: %s yields %v, want %v", c.String(), what, got, want)
		}
	}
	check := func(err error) {
		if err != nil {
			rt.Fatalf("%s: query: %v", c.String(), err)
		}
	}
	var l []item
	check(db.G.Unscoped().Find(&l).Error)
	same("the table", texts(l), all)
	l = nil
	check(db.G.Find(&l).Error)
	same("find", texts(l), live)
	l = nil
	check(db.G.Where("name = ?", name).Or("name = ?", name).Find(&l).Error)
	same("find by name", texts(l), named)
	var n int64
	check(db.G.Model(&item{}).Count(&n).Error)
	if n != int64(len(live)) {
		rt.Fatalf("%s: count is %d, want %d", c.String(), n, len(live))
	}
	var one item
	err := db.G.First(&one, id).Error
	r, in := model[id]
	if in = in && r.deleted == 0; in != (err == nil) || !in && !errors.Is(err, gorm.ErrRecordNotFound) {
		rt.Fatalf("%s: first %d: %v, live: %v", c.String(), id, err, in)
	}
}
