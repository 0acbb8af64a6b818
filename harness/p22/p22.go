// Package p22 interrupts database writes. database/sql is a stand-in that interprets the statements and fails, or ends
// the process, at any operation.
package p22

import (
	"errors"
	"fmt"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/log"
	"github.com/davidkleiven/gopf/zverif/rand"
	"github.com/davidkleiven/gopf/zverif/sql"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const file = "sim.db"

// stopped is the panic of a process that is cut short.
type stopped struct{}

// fault makes the operation number at fail (mode 0) or ends the process there (mode 1). It counts the operations.
type fault struct {
	at, mode, n int
	hit         string
}

func (f *fault) arm() {
	sql.Hook = func(op string) error {
		if op == "done" && f.mode == 0 {
			return nil
		}
		f.n++
		if f.n-1 != f.at {
			return nil
		}
		f.hit = op
		if f.mode == 1 {
			panic(stopped{})
		}
		return errors.New("disk I/O error")
	}
}

// run runs a piece of a process. It reports whether the process ended.
func run(f func()) (ended bool) {
	defer func() {
		if r := recover(); r != nil {
			ended = true
		}
	}()
	f()
	return false
}

func open(dims []int) *pf.FieldDB {
	h, err := sql.Open("sqlite3", file)
	if err != nil {
		panic(err)
	}
	return &pf.FieldDB{DB: h, DomainSize: dims}
}

func start() {
	sql.Reset()
	rand.Reset()
	n := 0
	sql.Now = func() string { n++; return fmt.Sprintf("2021-03-01 10:00:%02d", n) }
	_ = log.Ended
}

func values(name string, n int) []complex128 {
	d := make([]complex128, n)
	for k := range d {
		d[k] = complex(sym.Float(name, -1000, 1000), 0)
	}
	return d
}

func solver(names []string, data [][]complex128) *pf.Solver {
	m := &pf.Model{}
	for k, n := range names {
		m.Fields = append(m.Fields, pf.Field{Name: n, Data: data[k]})
	}
	return &pf.Solver{Model: m}
}

type unit struct {
	label string
	query string
	size  int
	rows  func(r [][]sql.Value) bool
}

// world is a database with an earlier simulation in it.
type world struct {
	dims   []int
	n      int
	old    [][]complex128
	oldID  int
	before map[string]int
}

var tables = []string{"fields", "simAttributes", "simTextAttributes", "timeseries", "comments"}

func count(t string) int { return len(sql.Look(file, "SELECT * FROM "+t)) }

func (w *world) earlier() {
	d := open(w.dims)
	w.old = [][]complex128{values("old", w.n), values("old", w.n)}
	d.SaveFields(solver([]string{"a", "b"}, w.old), 4)
	d.SetAttr(map[string]float64{"x": 1, "y": 2})
	d.SetTextAttr(map[string]string{"u": "1", "v": "2"})
	d.TimeSeries(map[string]float64{"p": 1, "q": 2}, 4)
	d.Comment("earlier")
	w.oldID = sql.I(sql.Look(file, "SELECT simID FROM simIDs")[0][0])
}

func (w *world) positions() {
	rows := sql.Look(file, "SELECT X, Y, Z FROM positions ORDER BY id")
	sym.Assert("positions are all there or none is", len(rows) == 0 || len(rows) == w.n)
	if len(rows) == w.n {
		for k, r := range rows {
			sym.EqInt("position", sql.I(r[0])*w.dims[1]+sql.I(r[1]), k)
		}
	}
}

func (w *world) earlierKept() {
	d := open(w.dims)
	got := d.Load(w.oldID, 4)
	sym.EqInt("earlier fields kept", len(got), 2)
	for k, f := range got {
		for j := range f.Data {
			sym.CloseC("earlier values kept", f.Data[j], w.old[k][j], 0)
		}
	}
	for _, t := range []string{"simAttributes", "simTextAttributes", "timeseries"} {
		sym.EqInt("earlier "+t+" kept", len(sql.Look(file, "SELECT key FROM "+t+" WHERE simID=?", w.oldID)), 2)
	}
	sym.EqInt("earlier comment kept", len(sql.Look(file, "SELECT value FROM comments WHERE simID=?", w.oldID)), 1)
}

// laterWorks: a later process stores and reads everything.
func (w *world) laterWorks(same *pf.FieldDB) {
	sql.Hook = nil
	type job struct {
		name string
		d    *pf.FieldDB
	}
	jobs := []job{{"later", open(w.dims)}}
	if same != nil {
		jobs = append([]job{{"same", same}}, jobs...)
	}
	for _, j := range jobs {
		data := [][]complex128{values("new", w.n), values("new", w.n)}
		ids := map[int]bool{}
		for _, r := range sql.Look(file, "SELECT simID FROM simIDs") {
			ids[sql.I(r[0])] = true
		}
		nf := map[string]int{}
		for _, t := range tables {
			nf[t] = count(t)
		}
		died := run(func() {
			j.d.SaveFields(solver([]string{"a", "b"}, data), 77)
			j.d.SetAttr(map[string]float64{"x": 1, "z": 2})
			j.d.SetTextAttr(map[string]string{"u": "1", "w": "2"})
			j.d.TimeSeries(map[string]float64{"p": 1, "r": 2}, 77)
			j.d.Comment("later")
		})
		sym.Assert(j.name+" run works", !died)
		if died {
			sql.Crash()
			continue
		}
		for k, t := range tables {
			sym.EqInt(j.name+" run stores "+t, count(t)-nf[t], []int{2 * w.n, 2, 2, 2, 1}[k])
		}
		sym.EqInt("positions once", count("positions"), w.n)
		id := -1
		for _, r := range sql.Look(file, "SELECT DISTINCT simID FROM fields WHERE timestep=77 ORDER BY id") {
			id = sql.I(r[0]) // the newest
		}
		got := open(w.dims).Load(id, 77)
		sym.EqInt(j.name+" run fields", len(got), 2)
		for k, f := range got {
			for i := range f.Data {
				sym.CloseC(j.name+" run values", f.Data[i], data[k][i], 0)
			}
		}
	}
}

// try interrupts the write and checks what is left.
func try(kind int, fresh bool, max int) {
	start()
	w := &world{dims: []int{2, 2}, n: 4}
	if kind == 4 {
		w.dims, w.n = []int{3, 2}, 6
	}
	if !fresh {
		w.earlier()
	}
	d := open(w.dims)
	mode := sym.Choose("mode", 2)
	warm := sym.Bool("wrote before")
	if warm { // the process has written a comment before
		d.Comment("first")
	}
	nf := map[string]int{}
	for _, t := range tables {
		nf[t] = count(t)
	}
	data := [][]complex128{values("field", w.n), values("field", w.n)}
	at, bt := sym.Float("attr", -10, 10), sym.Float("attr", -10, 10)
	f := &fault{at: sym.Choose("operation", max), mode: mode}
	f.arm()
	died := run(func() {
		switch kind {
		case 0, 4:
			d.SaveFields(solver([]string{"a", "b"}, data), 9)
		case 1:
			d.SetAttr(map[string]float64{"s": at, "t": bt})
		case 2:
			d.SetTextAttr(map[string]string{"s": "one", "t": "two"})
		case 3:
			d.TimeSeries(map[string]float64{"s": at, "t": bt}, 9)
		}
	})
	sql.Hook = nil
	if died {
		sql.Crash()
	}
	w.positions()
	switch kind {
	case 0, 4:
		for k, n := range []string{"a", "b"} {
			rows := sql.Look(file, "SELECT value, positionId FROM fields WHERE timestep=9 AND name=? ORDER BY positionId", n)
			sym.Assert("the field is stored whole or not at all", len(rows) == 0 || len(rows) == w.n)
			if len(rows) == w.n {
				for j, r := range rows {
					sym.EqInt("node", sql.I(r[1]), j)
					sym.Close("value", sql.F(r[0]), real(data[k][j]), 0)
				}
			}
			if f.hit == "" {
				sym.EqInt("stored when nothing fails", len(rows), w.n)
			}
		}
	case 1, 2, 3:
		t := []string{"", "simAttributes", "simTextAttributes", "timeseries"}[kind]
		rows := sql.Look(file, "SELECT key FROM "+t+" WHERE key='s' OR key='t'")
		sym.Assert("the set is stored whole or not at all", len(rows) == 0 || len(rows) == 2)
		if f.hit == "" {
			sym.EqInt("stored when nothing fails", len(rows), 2)
		}
	}
	if f.hit == "" {
		sym.Assert("alive when nothing fails", !died)
	}
	for k, t := range tables { // nothing else was written
		if !(k == kind || (kind == 4 && k == 0)) {
			sym.EqInt("other records unchanged", count(t), nf[t])
		}
	}
	if !fresh {
		w.earlierKept()
	}
	if died || !warm { // a process whose tables could not be made need not recover
		d = nil
	}
	w.laterWorks(d)
}

// HFields interrupts a save of two fields of four nodes.
func HFields() {
	sym.Bound("save of two fields of four nodes, with an earlier simulation in the file, failure or stop at any of the first 60 operations")
	try(0, false, 60)
}

// HFirst interrupts the first save in a new file: tables, positions and fields.
func HFirst() {
	sym.Bound("first save of two fields of six nodes in a new file, failure or stop at any of the first 130 operations")
	try(4, true, 130)
}

// HAttrs interrupts the write of two attributes.
func HAttrs() {
	sym.Bound("two attributes, failure or stop at any of the first 40 operations")
	try(1, sym.Bool("fresh"), 40)
}

// HTexts interrupts the write of two text attributes.
func HTexts() {
	sym.Bound("two text attributes, failure or stop at any of the first 40 operations")
	try(2, sym.Bool("fresh"), 40)
}

// HSeries interrupts the write of two time-series values.
func HSeries() {
	sym.Bound("a time-series record of two values, failure or stop at any of the first 40 operations")
	try(3, sym.Bool("fresh"), 40)
}

// HLarge interrupts large writes, which might be split up.
func HLarge() {
	dims, keys := []int{36, 31}, 70
	sym.Bound("first save of a field of 36x31 nodes, and records of 70 values, failure or stop at four places of the write")
	kind := sym.Choose("kind", 4)
	n := dims[0] * dims[1]
	data := make([]complex128, n)
	for k := range data {
		data[k] = complex(float64(k)/7, 0)
	}
	num, txt := map[string]float64{}, map[string]string{}
	for k := 0; k < keys; k++ {
		num[fmt.Sprintf("k%d", k)] = float64(k) / 3
		txt[fmt.Sprintf("k%d", k)] = fmt.Sprintf("t%d", k)
	}
	write := func(d *pf.FieldDB) {
		switch kind {
		case 0:
			d.SaveFields(solver([]string{"a"}, [][]complex128{data}), 9)
		case 1:
			d.SetAttr(num)
		case 2:
			d.SetTextAttr(txt)
		case 3:
			d.TimeSeries(num, 9)
		}
	}
	start()
	dry := &fault{at: -1}
	dry.arm()
	write(open(dims))
	sql.Hook = nil
	total := dry.n
	start()
	d := open(dims)
	d.Comment("first")
	at := sym.Choose("place", 4)
	f := &fault{at: total * []int{20, 48, 80, 98}[at] / 100, mode: sym.Choose("mode", 2)}
	f.arm()
	died := run(func() { write(d) })
	sql.Hook = nil
	if died {
		sql.Crash()
	}
	t := []string{"fields", "simAttributes", "simTextAttributes", "timeseries"}[kind]
	want := keys
	if kind == 0 {
		want = n
		p := count("positions")
		sym.Assert("positions are all there or none is", p == 0 || p == n)
	}
	c := count(t)
	sym.Assert("the unit is stored whole or not at all", c == 0 || c == want)
	d = open(dims)
	sym.Assert("later run works", !run(func() { write(d) }))
	sym.EqInt("later run stores everything", count(t)-c, want)
	if kind == 0 {
		sym.EqInt("positions once", count("positions"), n)
	}
}
