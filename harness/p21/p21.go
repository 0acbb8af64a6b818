// Package p21 checks that the database returns what was stored. database/sql is a stand-in that interprets the
// statements; the numbers stored are symbolic.
package p21

import (
	"fmt"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/zverif/rand"
	"github.com/davidkleiven/gopf/zverif/ref"
	"github.com/davidkleiven/gopf/zverif/sql"
	"github.com/davidkleiven/gopf/zverif/sym"
)

const file = "sim.db"

func start() {
	sql.Reset()
	rand.Reset()
	rand.ID = func(k int) int { return 1000*k + sym.Int("simid", 1, 999) }
	n := 0
	sql.Now = func() string { n++; return fmt.Sprintf("2021-03-01 10:00:%02d", n) }
	sym.Assumption("simulation identifiers drawn at random from the clock differ")
}

// sim is a simulation writing to the database.
type sim struct {
	db *pf.FieldDB
	id int
}

// open starts a simulation; its identifier is the one that was not there before.
func open(dims []int) *sim {
	h, err := sql.Open("sqlite3", file)
	if err != nil {
		panic(err)
	}
	return &sim{db: &pf.FieldDB{DB: h, DomainSize: dims}, id: -1}
}

// step runs an operation of the simulation and learns the identifier.
func (s *sim) step(f func()) {
	n := len(sql.Look(file, "SELECT simID FROM simIDs"))
	f()
	rows := sql.Look(file, "SELECT simID FROM simIDs")
	if s.id < 0 {
		sym.EqInt("a new simulation gets one identifier", len(rows), n+1)
		if len(rows) > n {
			s.id = sql.I(rows[n][0])
		}
		return
	}
	sym.EqInt("identifiers stay", len(rows), n)
}

func solver(names []string, data [][]complex128) *pf.Solver {
	m := &pf.Model{}
	for k, n := range names {
		m.Fields = append(m.Fields, pf.Field{Name: n, Data: append([]complex128(nil), data[k]...)})
	}
	return &pf.Solver{Model: m}
}

func values(name string, n int) []complex128 {
	d := make([]complex128, n)
	for k := range d {
		d[k] = complex(sym.Float(name, -1000, 1000), sym.Float(name+" imag", -1, 1))
	}
	return d
}

func same(label string, f pf.Field, name string, want []complex128) {
	sym.EqStr(label+" name", f.Name, name)
	sym.EqInt(label+" nodes", len(f.Data), len(want))
	if len(f.Data) != len(want) {
		return
	}
	for k := range want {
		sym.Close(label+" value", real(f.Data[k]), real(want[k]), 0)
		sym.Close(label+" imaginary part", imag(f.Data[k]), 0, 0)
	}
}

// record is what a save stored.
type record struct {
	sim, epoch int
	names      []string
	data       [][]complex128
}

func (r record) check(label string, got []pf.Field) {
	sym.EqInt(label+" count", len(got), len(r.names))
	for k, n := range r.names {
		found := 0
		for _, f := range got {
			if f.Name == n {
				found++
				same(label, f, n, r.data[k])
			}
		}
		sym.EqInt(label+" field once", found, 1)
	}
}

var sizes = [][]int{{1, 1}, {3, 1}, {1, 2}, {2, 2}, {2, 1, 2}, {3, 2}, {1, 1, 1}, {3, 1, 2}}

// HFields: saves of two interleaved simulations come back per simulation and step.
func HFields() {
	sym.Bound("domains of 1 to 6 nodes in 2 and 3 dimensions, two simulations on one file, three saves at any epochs in [-2e9,2e9] in any order, one or two fields, values in [-1000,1000]")
	start()
	dims := sizes[sym.Choose("domain", 6)]
	n := 1
	for _, d := range dims {
		n *= d
	}
	names := []string{"eta"}
	if sym.Bool("two fields") {
		names = []string{"it's", "Conc"}
	}
	sims := []*sim{open(dims), open(dims)}
	order := [][]int{{0, 0, 1}, {0, 1, 0}, {1, 0, 0}}[sym.Choose("order", 3)]
	var all []record
	for _, who := range order {
		r := record{sim: who, epoch: sym.Int("epoch", -2000000000, 2000000000), names: names}
		for range names {
			r.data = append(r.data, values("value", n))
		}
		for _, o := range all {
			if o.sim == who {
				sym.Assume(o.epoch != r.epoch)
			}
		}
		s := solver(names, r.data)
		sims[who].step(func() { sims[who].db.SaveFields(s, r.epoch) })
		for k := range names {
			for j := range r.data[k] {
				sym.CloseC("the field is not changed", s.Model.Fields[k].Data[j], r.data[k][j], 0)
			}
		}
		all = append(all, r)
	}
	sym.Assert("identifiers differ", sims[0].id != sims[1].id)
	for _, r := range all {
		reader := sims[sym.Concrete(r.sim)]
		if len(dims) == 3 { // a later process reads
			reader = &sim{db: open(dims).db}
		}
		r.check("load", reader.db.Load(sims[r.sim].id, r.epoch))
	}
	for who := range sims {
		last := -1
		for k, r := range all {
			if r.sim == who && (last < 0 || r.epoch > all[last].epoch) {
				last = k
			}
		}
		all[last].check("load last", sims[1-who].db.LoadLast(sims[who].id))
	}
	sym.EqInt("rows", len(sql.Look(file, "SELECT id FROM fields")), 3*n*len(names))
}

// HAbsent: what was not stored is not returned.
func HAbsent() {
	sym.Bound("one save at any epoch in [-2e9,2e9]; any other step or simulation is asked for")
	start()
	s := open([]int{2, 1})
	e := sym.Int("epoch", -2000000000, 2000000000)
	s.step(func() { s.db.SaveFields(solver([]string{"a"}, [][]complex128{values("value", 2)}), e) })
	ask := sym.Int("asked", -2000000000, 2000000000)
	sym.Assume(ask != e)
	sym.EqInt("other step", len(s.db.Load(s.id, ask)), 0)
	other := sym.Int("other", 1, 5000)
	sym.Assume(other != s.id)
	sym.EqInt("other simulation", len(s.db.Load(other, e)), 0)
	sym.EqInt("last of another simulation", len(s.db.LoadLast(other)), 0)
}

// HDifferent: each step returns the fields saved there, not those of other steps.
func HDifferent() {
	sym.Bound("two saves with different field names, two simulations")
	start()
	a, b := open([]int{2, 1}), open([]int{2, 1})
	ra := record{epoch: sym.Int("epoch", -2000000000, 2000000000), names: []string{"x", "y"}, data: [][]complex128{values("v", 2), values("v", 2)}}
	rb := record{epoch: sym.Int("epoch", -2000000000, 2000000000), names: []string{"z", "x"}, data: [][]complex128{values("v", 2), values("v", 2)}}
	rc := record{epoch: sym.Int("epoch", -2000000000, 2000000000), names: []string{"y"}, data: [][]complex128{values("v", 2)}}
	sym.Assume(ra.epoch != rb.epoch)
	a.step(func() { a.db.SaveFields(solver(ra.names, ra.data), ra.epoch) })
	b.step(func() { b.db.SaveFields(solver(rc.names, rc.data), rc.epoch) })
	a.step(func() { a.db.SaveFields(solver(rb.names, rb.data), rb.epoch) })
	ra.check("first", b.db.Load(a.id, ra.epoch))
	rb.check("second", b.db.Load(a.id, rb.epoch))
	rc.check("third", b.db.Load(b.id, rc.epoch))
}

// HPositions: each node is listed once with its coordinates, under its number, whoever saves and how often.
func HPositions() {
	sym.Bound("eight domains of 1 to 6 nodes; two simulations save three times")
	start()
	dims := sizes[sym.Choose("domain", len(sizes))]
	n := 1
	for _, d := range dims {
		n *= d
	}
	a, b := open(dims), open(dims)
	s := solver([]string{"f"}, [][]complex128{values("v", n)})
	look := func() {
		rows := sql.Look(file, "SELECT id, X, Y, Z FROM positions ORDER BY id")
		sym.EqInt("one row per node", len(rows), n)
		if len(rows) != n {
			return
		}
		for k, r := range rows {
			sym.EqInt("node number", sql.I(r[0]), k)
			for d, c := range ref.Crd(dims, k) {
				sym.EqInt("coordinates", sql.I(r[1+d]), c)
			}
			if len(dims) == 2 {
				sym.EqInt("third coordinate", sql.I(r[3]), 0)
			}
		}
		joined := sql.Look(file, "SELECT fields.id FROM fields JOIN positions ON fields.positionId = positions.id")
		sym.EqInt("every value has its position", len(joined), len(sql.Look(file, "SELECT id FROM fields")))
	}
	a.step(func() { a.db.SaveFields(s, 0) })
	look()
	a.step(func() { a.db.SaveFields(s, 1) })
	look()
	b.step(func() { b.db.SaveFields(s, 0) })
	look()
}

// HRefused: a domain size that differs from the stored one is refused and nothing is stored.
func HRefused() {
	sym.Bound("ordered pairs of different domains out of ten of 1 to 8 nodes, 2D and 3D")
	start()
	all := [][]int{{1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {6, 1}, {2, 2, 2}, {2, 3, 2}, {1, 2, 2}, {4, 1}}
	i := sym.Choose("stored", len(all))
	j := sym.Choose("used", len(all))
	sym.Assume(i != j)
	size := func(d []int) int {
		n := 1
		for _, x := range d {
			n *= x
		}
		return n
	}
	a := open(all[i])
	a.step(func() { a.db.SaveFields(solver([]string{"f"}, [][]complex128{values("v", size(all[i]))}), 0) })
	b := open(all[j])
	sym.Assert("refused", sym.Panics(func() {
		b.db.SaveFields(solver([]string{"f"}, [][]complex128{values("v", size(all[j]))}), 0)
	}))
	sym.EqInt("nothing stored", len(sql.Look(file, "SELECT id FROM fields")), size(all[i]))
	sym.EqInt("positions unchanged", len(sql.Look(file, "SELECT id FROM positions")), size(all[i]))
	// the right size still works
	c := open(all[i])
	v := values("v", size(all[i]))
	c.step(func() { c.db.SaveFields(solver([]string{"f"}, [][]complex128{v}), 3) })
	record{names: []string{"f"}, data: [][]complex128{v}}.check("later", c.db.Load(c.id, 3))
}

// HWrongLength: an array that does not fill the domain is refused.
func HWrongLength() {
	sym.Bound("domain of four nodes, arrays of 1 to 8 values")
	start()
	n := 1 + sym.Choose("length", 8)
	sym.Assume(n != 4)
	a := open([]int{2, 2})
	sym.Assert("refused", sym.Panics(func() { a.db.SaveFields(solver([]string{"f"}, [][]complex128{values("v", n)}), 0) }))
	sym.EqInt("nothing stored", len(sql.Look(file, "SELECT id FROM fields")), 0)
}

type entry struct {
	key  string
	val  float64
	text string
	sim  int
	step int
}

// HRecords: attributes, texts, comments and time series are stored under the simulation that wrote them.
func HRecords() {
	sym.Bound("two simulations, four operations out of attributes, text attributes, time series and comments in any order, values in [-1e6,1e6], steps in [-50,2e9]")
	start()
	sym.MapOrder()
	sims := []*sim{open([]int{2, 1}), open([]int{2, 1})}
	var attrs, texts, series, comments []entry
	for k := 0; k < 4; k++ {
		who := k % 2
		s := sims[who]
		switch sym.Choose("operation", 4) {
		case 0:
			m := map[string]float64{"temp": sym.Float("attr", -1e6, 1e6), fmt.Sprintf("k%d", k): sym.Float("attr", -1e6, 1e6)}
			s.step(func() { s.db.SetAttr(m) })
			for key, v := range m {
				attrs = append(attrs, entry{key: key, val: v, sim: who})
			}
		case 1:
			m := map[string]string{"note": fmt.Sprintf(" it's \"%d\"\n", k), fmt.Sprintf("k%d", k): "", "number": "3.0",
				"Note": "upper", "a key": "50% of \u00e5ngstr\u00f6m; -- '"}
			s.step(func() { s.db.SetTextAttr(m) })
			for key, v := range m {
				texts = append(texts, entry{key: key, text: v, sim: who})
			}
		case 2:
			m := map[string]float64{"peak": sym.Float("series", -1e6, 1e6), "mean": sym.Float("series", -1e6, 1e6)}
			step := sym.Int("step", -50, 2000000000)
			s.step(func() { s.db.TimeSeries(m, step) })
			for key, v := range m {
				series = append(series, entry{key: key, val: v, sim: who, step: step})
			}
		default:
			c := []string{"comment 'a' of the run\nsecond line\n\n fourth line\n", "\n", "", "\tan 80% \"long\" comment " + strings.Repeat("word ", 60)}[k]
			s.step(func() { s.db.Comment(c) })
			comments = append(comments, entry{text: strings.Join(strings.Split(c, "\n"), " "), sim: who})
		}
	}
	table := func(label, query string, want []entry, cols func(e entry, r []sql.Value) bool) {
		rows := sql.Look(file, query)
		sym.EqInt(label+" rows", len(rows), len(want))
		used := make([]bool, len(rows))
		for _, e := range want {
			hit := -1
			for k, r := range rows {
				if hit < 0 && !used[k] && sql.I(r[len(r)-1]) == sims[e.sim].id && cols(e, r) {
					hit = k
				}
			}
			sym.Assert(label+" stored", hit >= 0)
			if hit >= 0 {
				used[hit] = true
			}
		}
	}
	table("attribute", "SELECT key, value, simID FROM simAttributes", attrs, func(e entry, r []sql.Value) bool {
		return sql.S(r[0]) == e.key && sql.F(r[1]) == e.val
	})
	table("text attribute", "SELECT key, value, simID FROM simTextAttributes", texts, func(e entry, r []sql.Value) bool {
		return sql.S(r[0]) == e.key && sql.S(r[1]) == e.text
	})
	table("time series", "SELECT key, value, timestep, simID FROM timeseries", series, func(e entry, r []sql.Value) bool {
		return sql.S(r[0]) == e.key && sql.F(r[1]) == e.val && sql.I(r[2]) == e.step
	})
	table("comment", "SELECT value, simID FROM comments", comments, func(e entry, r []sql.Value) bool {
		return sql.S(r[0]) == e.text
	})
}

// HIdentity: every process gets an identifier of its own, registered once with its time.
func HIdentity() {
	sym.Bound("three processes one after the other, each writing any kind of record first")
	start()
	var ids []int
	for k := 0; k < 3; k++ {
		rand.Restart()
		s := open([]int{1, 2})
		s.step(func() {
			switch sym.Choose("first", 3) {
			case 0:
				s.db.Comment("c")
			case 1:
				s.db.SetAttr(map[string]float64{"a": 1})
			default:
				s.db.SaveFields(solver([]string{"f"}, [][]complex128{values("v", 2)}), 0)
			}
		})
		for _, o := range ids {
			sym.Assert("a new identifier", o != s.id)
		}
		ids = append(ids, s.id)
	}
	rows := sql.Look(file, "SELECT simID, creationTime FROM simIDs ORDER BY creationTime")
	sym.EqInt("registered", len(rows), 3)
	for k, r := range rows {
		sym.EqInt("in order", sql.I(r[0]), ids[k])
	}
}
