// Package p31 checks the commands that show the contents of a database. database/sql and the flag library are
// stand-ins; the commands are the real ones.
package p31

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/cmd"
	"github.com/davidkleiven/gopf/zverif/log"
	"github.com/davidkleiven/gopf/zverif/sql"
	"github.com/davidkleiven/gopf/zverif/sym"
)

type flags map[string]interface{}

const mark = "\n#call#\n"

// call runs a command and returns what it prints.
func call(path string, file string, f flags) (out string) {
	defer func() {
		if r := recover(); r != nil {
			if log.Ended(r) {
				sym.Fail(path + " gave up")
			} else {
				sym.Fail(path + " crashed")
			}
		}
	}()
	fmt.Print(mark)
	c := cmd.ZzRoot().Find(strings.Split(path, " ")...)
	if c == nil {
		sym.Fail("no command " + path)
		return
	}
	if err := c.Call(f, file); err != nil {
		sym.Fail("flags of " + path)
		return
	}
	l := strings.Split(sym.Printed(), mark)
	return l[len(l)-1]
}

const file = "sim.db"

// start makes an empty database with the documented tables.
func start() {
	sql.Reset()
	for _, s := range []string{
		"simIDs (simID INTEGER UNIQUE, creationTime TEXT)",
		"positions (id INTEGER PRIMARY KEY, X INTEGER, Y INTEGER, Z INTEGER)",
		"fields (id INTEGER PRIMARY KEY, name TEXT, value REAL, positionId INTEGER, timestep INTEGER, simID INTEGER)",
		"simAttributes (key TEXT, value REAL, simID INTEGER)",
		"comments (simID INTEGER, value TEXT)",
		"simTextAttributes (key TEXT, value TEXT, simID INTEGER)",
		"timeseries (key TEXT, value REAL, timestep INTEGER, simID INTEGER)",
	} {
		sql.Put(file, "CREATE TABLE "+s)
	}
}

var times = []string{"2021-05-04 10:00:00", "2021-05-06 09:00:00", "2021-05-05 23:59:59", "2020-12-31 00:00:00"}

// byAge lists the simulations of times from new to old.
var byAge = [][]int{{0}, {1, 0}, {1, 2, 0}, {1, 2, 0, 3}}

// simulations registers n simulations of any identifiers.
func simulations(n int) []int {
	var ids []int
	for k := 0; k < n; k++ {
		id := sym.Int("simid", 1, 2147483647)
		for _, o := range ids {
			sym.Assume(o != id)
		}
		ids = append(ids, id)
		sql.Put(file, "INSERT INTO simIDs VALUES (?,?)", id, times[k])
	}
	return ids
}

// which is the position of the identifier in text among the simulations, -1 if it is none.
func which(ids []int, text string) int {
	n, err := strconv.Atoi(strings.TrimSpace(text))
	if err != nil {
		return -1
	}
	for k := range ids {
		if ids[k] == n {
			return k
		}
	}
	return -1
}

// cells splits a line of a table.
func cells(line string) []string {
	p := strings.Split(line, "|")
	if len(p) < 3 {
		return nil
	}
	var out []string
	for _, c := range p[1 : len(p)-1] {
		out = append(out, strings.TrimSpace(c))
	}
	return out
}

func isRule(line string) bool { return strings.HasPrefix(line, "---") }

type attr struct {
	sim  int
	key  string
	text string // as printed
	num  bool
}

// attributes stores numbers and texts for the simulations.
func attributes(ids []int, n int) []attr {
	var all []attr
	for k := 0; k < n; k++ {
		key := fmt.Sprintf("key%d", k)
		for s, id := range ids {
			if (k+s)%3 == 2 { // not every simulation has every attribute
				continue
			}
			if (k+s/2)%2 == 0 {
				v := sym.Float("number", -1e6, 1e6)
				sql.Put(file, "INSERT INTO simAttributes VALUES (?,?,?)", key, v, id)
				all = append(all, attr{s, key, fmt.Sprintf("%f", v), true})
			} else {
				t := fmt.Sprintf("text %d of %d", k, s)
				if k%4 == 1 {
					t = fmt.Sprintf("quite a long text %d that belongs to %d and goes on", k, s)
				}
				sql.Put(file, "INSERT INTO simTextAttributes VALUES (?,?,?)", key, t, id)
				all = append(all, attr{s, key, t, false})
			}
		}
	}
	return all
}

// HAttrTable: the table shows every attribute once, under its simulation and name.
func HAttrTable() {
	sym.Bound("one or two simulations of any identifiers, 1, 3, 10, 11 or 21 attribute names, numbers in [-1e6,1e6], all simulations or any selected one")
	start()
	sym.MapOrder()
	ids := simulations(1 + sym.Choose("simulations", 2))
	all := attributes(ids, []int{1, 3, 10, 11, 21}[sym.Choose("names", 5)])
	f := flags{}
	sel := sym.Choose("selection", len(ids)+2) - 1
	if sel == len(ids) { // another one
		id := sym.Int("unknown", 1, 2147483647)
		for _, o := range ids {
			sym.Assume(o != id)
		}
		f["simid"] = id
	} else if sel >= 0 {
		f["simid"] = ids[sel]
	}
	out := call("db attr", file, f)
	seen := map[string]int{}
	var header []string
	for _, line := range strings.Split(out, "\n") {
		if isRule(line) {
			continue
		}
		c := cells(line)
		if c == nil {
			continue
		}
		if strings.HasPrefix(c[0], "Sim") {
			header = c
			continue
		}
		s := which(ids, c[0])
		sym.Assert("row of a simulation", s >= 0)
		sym.EqInt("columns", len(c), len(header))
		if s < 0 || len(c) != len(header) {
			return
		}
		for k := 1; k < len(c); k++ {
			want, there := "", false
			for _, a := range all {
				if a.sim == s && a.key == header[k] && (sel < 0 || sel == s) {
					want, there = a.text, true
				}
			}
			sym.EqStr("value", c[k], want)
			if there {
				seen[fmt.Sprintf("%d/%s", s, header[k])]++
			}
		}
	}
	for _, a := range all {
		n := 1
		if sel >= 0 && a.sim != sel {
			n = 0
		}
		sym.EqInt("attribute shown once", seen[fmt.Sprintf("%d/%s", a.sim, a.key)], n)
	}
}

// HAttrName: one attribute is listed for the selected simulations, whether number or text.
func HAttrName() {
	sym.Bound("two simulations, five attribute names, all simulations or a selected one")
	start()
	ids := simulations(2)
	all := attributes(ids, 5)
	key := fmt.Sprintf("key%d", sym.Choose("name", 6))
	f := flags{"name": key}
	sel := sym.Choose("selection", 3) - 1
	if sel >= 0 {
		f["simid"] = ids[sel]
	}
	out := call("db attr", file, f)
	n := make([]int, len(ids))
	for _, line := range strings.Split(out, "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		p := strings.Split(line, "=")
		sym.EqInt("name and value", len(p), 2)
		if len(p) != 2 {
			return
		}
		w := strings.Fields(p[0])
		sym.EqInt("words", len(w), 4)
		if len(w) != 4 {
			return
		}
		s := which(ids, w[2])
		sym.Assert("simulation", s >= 0)
		sym.EqStr("name", w[3], key)
		if s < 0 {
			return
		}
		n[s]++
		for _, a := range all {
			if a.sim == s && a.key == key {
				sym.EqStr("value", strings.TrimSpace(p[1]), a.text)
			}
		}
	}
	for s := range ids {
		want := 0
		for _, a := range all {
			if a.sim == s && a.key == key && (sel < 0 || sel == s) {
				want = 1
			}
		}
		sym.EqInt("listed once", n[s], want)
	}
}

// HAttrUnique: every name is listed once.
func HAttrUnique() {
	sym.Bound("up to three simulations, up to six names")
	start()
	ids := simulations(1 + sym.Choose("simulations", 3))
	n := sym.Choose("names", 7)
	all := attributes(ids, n)
	out := call("db attr", file, flags{"unique": true})
	count := map[string]int{}
	for k, line := range strings.Split(out, "\n") {
		if k > 0 && line != "" {
			count[line]++
		}
	}
	names := map[string]bool{}
	for _, a := range all {
		names[a.key] = true
		sym.EqInt("name once", count[a.key], 1)
	}
	sym.EqInt("nothing else", len(count), len(names))
}

// text is a comment made of words of the lengths.
func text(lens []int, tag byte) string {
	s := ""
	for k, n := range lens {
		if k > 0 {
			s += " "
		}
		for j := 0; j < n; j++ {
			s += string([]byte{tag + byte((k*7+j)%13)})
		}
	}
	return s
}

func letters(s string) string { return strings.Replace(s, " ", "", -1) }

// HComments: the table shows every comment in full under its simulation, however long its words are.
func HComments() {
	sym.Bound("two simulations and three comments, the first two of two to three words of 0 to 200 letters")
	start()
	ids := simulations(2)
	word := []int{0, 1, 47, 48, 95, 96, 97, 200}
	n := len(word)
	if !sym.Thorough() {
		n = 8
	}
	a := []int{word[sym.Choose("word", n)], word[sym.Choose("word", n)]}
	if sym.Bool("three words") {
		a = append(a, word[sym.Choose("word", n)])
	}
	b := []int{5, 40, 60, 3}
	stored := [][]string{{text(a, 'a'), text([]int{4}, 'A')}, {text(b, 'n')}}
	sql.Put(file, "INSERT INTO comments VALUES (?,?)", ids[0], stored[0][0])
	sql.Put(file, "INSERT INTO comments VALUES (?,?)", ids[1], stored[1][0])
	sql.Put(file, "INSERT INTO comments VALUES (?,?)", ids[0], stored[0][1])
	out := call("db comment", file, flags{})
	got := [][]string{nil, nil}
	at := -1
	width := -1
	for k, line := range strings.Split(out, "\n") {
		if isRule(line) || line == "" || k == 1 {
			continue
		}
		c := cells(line)
		sym.EqInt("two columns", len(c), 2)
		if len(c) != 2 {
			return
		}
		if !sym.Symbolic() { // the width of a number is not modelled
			if width < 0 {
				width = len(line)
			}
			sym.EqInt("lines of one width", len(line), width)
		}
		if c[0] != "" {
			at = which(ids, c[0])
			sym.Assert("simulation", at >= 0)
			if at < 0 {
				return
			}
			got[at] = append(got[at], "")
		}
		if at < 0 {
			sym.Fail("comment without a simulation")
			return
		}
		got[at][len(got[at])-1] += " " + c[1]
	}
	for s := range stored {
		sym.EqInt("comments", len(got[s]), len(stored[s]))
		for k := 0; k < len(got[s]) && k < len(stored[s]); k++ {
			sym.EqStr("comment", letters(got[s][k]), letters(stored[s][k]))
			short := true
			for _, w := range strings.Fields(stored[s][k]) {
				short = short && len(w) <= cmd.CommentWidth
			}
			if short {
				sym.EqStr("words kept whole", strings.Join(strings.Fields(got[s][k]), " "), strings.Join(strings.Fields(stored[s][k]), " "))
			}
		}
	}
}

// HComment: one simulation's comments are shown, and only they are changed by an update.
func HComment() {
	sym.Bound("two simulations with up to two comments each; show or replace")
	start()
	ids := simulations(2)
	n := []int{sym.Choose("comments", 3), 1}
	for s := range ids {
		for k := 0; k < n[s]; k++ {
			sql.Put(file, "INSERT INTO comments VALUES (?,?)", ids[s], fmt.Sprintf("note <%d.%d> end", s, k))
		}
	}
	out := call("db comment", file, flags{"simid": ids[0]})
	for s := range ids {
		for k := 0; k < 2; k++ {
			sym.Assert("comment shown", strings.Contains(out, fmt.Sprintf("note <%d.%d> end", s, k)) == (s == 0 && k < n[0]))
		}
	}
	call("db comment", file, flags{"simid": ids[0], "new": "it's new"})
	rows := sql.Look(file, "SELECT simID, value FROM comments")
	sym.EqInt("rows", len(rows), n[0]+1)
	for _, r := range rows {
		if sql.I(r[0]) == ids[0] {
			sym.EqStr("updated", sql.S(r[1]), "it's new")
		} else {
			sym.EqInt("other", sql.I(r[0]), ids[1])
			sym.EqStr("not updated", sql.S(r[1]), "note <1.0> end")
		}
	}
}

// HList: the newest simulations come first.
func HList() {
	sym.Bound("one to four simulations of any identifiers, limits 0 to 5")
	start()
	n := 1 + sym.Choose("simulations", 4)
	ids := simulations(n)
	max := sym.Choose("max", 6)
	out := call("db list", file, flags{"max": max})
	var got []int
	for _, line := range strings.Split(out, "\n") {
		c := cells(line)
		if len(c) != 2 || strings.HasPrefix(c[0], "Sim") {
			continue
		}
		s := which(ids, c[0])
		sym.Assert("simulation", s >= 0)
		if s < 0 {
			return
		}
		sym.EqStr("time", c[1], times[s])
		got = append(got, s)
	}
	newest(got, n, max)
}

func newest(got []int, n, max int) {
	want := byAge[n-1]
	if max < n {
		want = want[:max]
	}
	sym.EqInt("listed", len(got), len(want))
	for k := range got {
		if k < len(want) {
			sym.EqInt("newest first", got[k], want[k])
		}
	}
}

// HListComments: every listed simulation is shown with its own comments.
func HListComments() {
	sym.Bound("one to four simulations with none to two comments each, limits 1 to 5")
	start()
	n := 1 + sym.Choose("simulations", 4)
	ids := simulations(n)
	var has []int
	for s := 0; s < n; s++ {
		has = append(has, sym.Choose("comments", 3))
		for k := 0; k < has[s]; k++ {
			sql.Put(file, "INSERT INTO comments VALUES (?,?)", ids[s], fmt.Sprintf("note <%d.%d>", s, k))
		}
	}
	max := []int{1, 3, 5}[sym.Choose("max", 3)]
	out := call("db list", file, flags{"content": "comment", "max": max})
	blocks := strings.Split(out, "Sim Id ")
	var got []int
	for _, b := range blocks[1:] {
		p := strings.SplitN(b, ":", 2)
		s := which(ids, p[0])
		sym.Assert("simulation", s >= 0 && len(p) == 2)
		if s < 0 || len(p) != 2 {
			return
		}
		got = append(got, s)
		for o := 0; o < n; o++ {
			for k := 0; k < 2; k++ {
				sym.Assert("own comments", strings.Contains(p[1], fmt.Sprintf("note <%d.%d>", o, k)) == (o == s && k < has[s]))
			}
		}
	}
	newest(got, n, max)
}

// HTime: the creation time of the simulation asked for, or of the newest.
func HTime() {
	sym.Bound("one to four simulations of any identifiers, any of them or the newest asked for")
	start()
	n := 1 + sym.Choose("simulations", 4)
	ids := simulations(n)
	s := sym.Choose("asked", n+1)
	f := flags{}
	if s < n {
		f["simid"] = ids[s]
	} else {
		s = byAge[n-1][0]
	}
	out := call("db time", file, f)
	w := strings.Fields(out)
	sym.EqInt("simulation", which(ids, w[1]), s)
	for k := 0; k < n; k++ {
		sym.Assert("time", strings.Contains(out, times[k]) == (k == s))
	}
}

// table reads a comma separated file.
func table(name string) ([]string, [][]string) {
	b, err := os.ReadFile(name)
	if err != nil {
		sym.Fail("file not written")
		return nil, nil
	}
	var rows [][]string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			rows = append(rows, strings.Split(l, ","))
		}
	}
	if len(rows) == 0 {
		sym.Fail("no header")
		return nil, nil
	}
	return rows[0], rows[1:]
}

// HExportSeries: one column per name of the selected simulation, in the order of the time steps.
func HExportSeries() {
	sym.Bound("two simulations, one or two names, one to three time steps, any values in [-1e6,1e6], the selected or the newest simulation")
	start()
	ids := simulations(2)
	keys := []string{"peak", "mean"}[:1+sym.Choose("names", 2)]
	steps := 1 + sym.Choose("steps", 3)
	val := map[string]float64{}
	for i := steps - 1; i >= 0; i-- { // any order of arrival
		for s := range ids {
			for _, k := range keys {
				v := sym.Float("value", -1e6, 1e6)
				val[fmt.Sprintf("%d/%s/%d", s, k, i)] = v
				sql.Put(file, "INSERT INTO timeseries VALUES (?,?,?,?)", k, v, i, ids[s])
			}
			sql.Put(file, "INSERT INTO timeseries VALUES (?,?,?,?)", fmt.Sprintf("own%d", s), 0.25, i, ids[s])
		}
	}
	dir := sym.TempDir()
	s := sym.Choose("asked", 3)
	f := flags{"type": []string{"timeseries", "ts"}[sym.Choose("word", 2)], "out": dir + "/series.csv"}
	if s < 2 {
		f["simid"] = ids[s]
	} else {
		s = 1
	}
	call("db export", file, f)
	head, rows := table(dir + "/series.csv")
	sym.EqInt("rows", len(rows), steps)
	at := map[string]int{}
	for k, h := range head {
		at[h] = k
	}
	if _, ok := at[fmt.Sprintf("own%d", 1-s)]; ok {
		sym.Fail("names of another simulation")
	}
	for i, r := range rows {
		sym.EqInt("columns", len(r), len(head))
		for _, k := range append(keys[:len(keys):len(keys)], fmt.Sprintf("own%d", s)) {
			c, ok := at[k]
			sym.Assert("column", ok)
			if !ok || c >= len(r) {
				return
			}
			want := 0.25
			if v, ok := val[fmt.Sprintf("%d/%s/%d", s, k, i)]; ok {
				want = v
			}
			sym.EqStr("value", r[c], fmt.Sprintf("%f", want))
		}
	}
}

// fieldsOf stores fields of simulations.
func fieldsOf(ids []int, steps []int, names []string, n int) map[string]float64 {
	val := map[string]float64{}
	for s, id := range ids {
		for _, t := range steps {
			for _, nm := range names {
				for p := n - 1; p >= 0; p-- {
					v := sym.Float("field", -1e6, 1e6)
					val[fmt.Sprintf("%d/%d/%s/%d", s, t, nm, p)] = v
					sql.Put(file, "INSERT INTO fields (name,value,positionId,timestep,simID) VALUES (?,?,?,?,?)", nm, v, p, t, id)
				}
			}
		}
	}
	return val
}

func positions() [][]int {
	pos := [][]int{{0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {1, 1, 0}}
	for k := len(pos) - 1; k >= 0; k-- {
		sql.Put(file, "INSERT INTO positions (id,X,Y,Z) VALUES (?,?,?,?)", k, pos[k][0], pos[k][1], pos[k][2])
	}
	return pos
}

func checkField(name string, pos [][]int, val map[string]float64, s, t int, names []string) {
	head, rows := table(name)
	sym.EqInt("columns", len(head), 3+len(names))
	sym.EqInt("rows", len(rows), len(pos))
	if len(head) != 3+len(names) || len(rows) != len(pos) {
		return
	}
	for k, h := range []string{"X", "Y", "Z"} {
		sym.EqStr("header", head[k], h)
	}
	used := make([]bool, len(pos))
	for _, r := range rows {
		at := -1
		for k, p := range pos {
			if r[0] == strconv.Itoa(p[0]) && r[1] == strconv.Itoa(p[1]) && r[2] == strconv.Itoa(p[2]) {
				at = k
			}
		}
		sym.Assert("node", at >= 0 && !used[at])
		if at < 0 {
			return
		}
		used[at] = true
		for _, nm := range names {
			col := -1
			for k := 3; k < len(head); k++ {
				if head[k] == nm {
					col = k
				}
			}
			sym.Assert("column", col >= 0)
			if col >= 0 {
				sym.EqStr("value", r[col], fmt.Sprintf("%f", val[fmt.Sprintf("%d/%d/%s/%d", s, t, nm, at)]))
			}
		}
	}
}

// HExportField: the nodes with their positions and the stored values of the simulation and step asked for.
func HExportField() {
	sym.Bound("two simulations, two steps, one or two fields of four nodes, any values in [-1e6,1e6]; a step, the largest, or all; the selected or the newest simulation")
	start()
	ids := simulations(2)
	names := []string{"eta", "conc"}[:1+sym.Choose("names", 2)]
	steps := []int{7, 20}
	if sym.Bool("descending") {
		steps = []int{20, 7}
	}
	pos := positions()
	val := fieldsOf(ids, steps, names, len(pos))
	dir := sym.TempDir()
	s := sym.Choose("asked", 3)
	f := flags{"type": []string{"field", "fielddata", "fieldData", "fd"}[sym.Choose("word", 4)]}
	if s < 2 {
		f["simid"] = ids[s]
	} else {
		s = 1
	}
	switch sym.Choose("step", 4) {
	case 0, 1:
		t := steps[sym.Choose("which", 2)]
		f["timestep"], f["out"] = t, dir+"/a.csv"
		call("db export", file, f)
		checkField(dir+"/a.csv", pos, val, s, t, names)
	case 2:
		f["timestep"], f["out"] = -1, dir+"/b.csv"
		call("db export", file, f)
		checkField(dir+"/b.csv", pos, val, s, 20, names)
	default:
		for _, t := range []int{3, 9} { // steps of the other simulation only
			sql.Put(file, "INSERT INTO fields (name,value,positionId,timestep,simID) VALUES (?,?,?,?,?)", names[0], 0.5, 0, t, ids[1-s])
		}
		f["all"], f["out"] = true, dir+"/set"
		call("db export", file, f)
		for _, t := range []int{3, 9} {
			if _, err := os.ReadFile(fmt.Sprintf("%s/set%d.csv", dir, t)); err == nil {
				sym.Fail("step of another simulation")
			}
		}
		for _, t := range steps {
			checkField(fmt.Sprintf("%s/set%d.csv", dir, t), pos, val, s, t, names)
		}
	}
}

// HInfo: the summary counts and names what is stored.
func HInfo() {
	sym.Bound("one to four simulations, up to three fields, attributes and series")
	start()
	n := 1 + sym.Choose("simulations", 4)
	ids := simulations(n)
	names := []string{"alpha", "beta", "gamma"}[:1+sym.Choose("fields", 3)]
	pos := positions()
	fieldsOf(ids[:1], []int{0, 1}, names, len(pos))
	na := sym.Choose("attributes", 3)
	attributes(ids, na)
	for k := 0; k < na; k++ {
		sql.Put(file, "INSERT INTO timeseries VALUES (?,?,?,?)", fmt.Sprintf("ser%d", k), 1.5, 0, ids[0])
	}
	out := call("db info", file, flags{})
	label := ""
	val := map[string]string{}
	for _, line := range strings.Split(out, "\n") {
		c := cells(line)
		if len(c) != 2 {
			continue
		}
		if c[0] != "" {
			label = c[0]
		}
		val[label] += c[1]
	}
	sym.EqStr("calculations", val["Num calc."], strconv.Itoa(n))
	sym.EqStr("dimensions", val["Dims"], "(2, 2, 1)")
	sym.EqStr("fields", val["Fields"], strings.Join(names, ", "))
	for k := 0; k < 3; k++ {
		sym.Assert("series", strings.Contains(val["Timeseries"], fmt.Sprintf("ser%d", k)) == (k < na))
		sym.Assert("attributes", strings.Contains(val["Attributes"], fmt.Sprintf("key%d", k)) == (k < na))
	}
}

// HInfoLong: the summary loses no name, however many there are.
func HInfoLong() {
	sym.Bound("summary: 1 to 60 names of 3 to 70 letters in each list")
	start()
	ids := simulations(1)
	n := []int{1, 3, 9, 20, 60}[sym.Choose("names", 5)]
	w := []int{3, 19, 20, 58, 59, 60, 61, 70}[sym.Choose("letters", 8)]
	pos := positions()
	var all [3][]string
	for k := 0; k < n; k++ {
		for kind := 0; kind < 3; kind++ {
			nm := string([]byte{"fas"[kind], byte('a' + k/26), byte('a' + k%26)})
			for len(nm) < w {
				nm += "x"
			}
			all[kind] = append(all[kind], nm)
		}
		sql.Put(file, "INSERT INTO fields (name,value,positionId,timestep,simID) VALUES (?,?,?,?,?)", all[0][k], 0.5, 0, 0, ids[0])
		if k%2 == 0 {
			sql.Put(file, "INSERT INTO simAttributes VALUES (?,?,?)", all[1][k], 0.5, ids[0])
		} else {
			sql.Put(file, "INSERT INTO simTextAttributes VALUES (?,?,?)", all[1][k], "t", ids[0])
		}
		sql.Put(file, "INSERT INTO timeseries VALUES (?,?,?,?)", all[2][k], 1.5, 0, ids[0])
	}
	_ = pos
	label := ""
	val := map[string]string{}
	width := -1
	for _, line := range strings.Split(call("db info", file, flags{}), "\n") {
		c := cells(line)
		if len(c) != 2 {
			continue
		}
		if width < 0 {
			width = len(line)
		}
		sym.EqInt("lines of one width", len(line), width)
		if c[0] != "" {
			label = c[0]
		}
		val[label] += c[1]
	}
	for kind, l := range []string{"Fields", "Attributes", "Timeseries"} {
		got := strings.Split(letters(val[l]), ",")
		sym.EqInt("names", len(got), n)
		seen := map[string]int{}
		for _, g := range got {
			seen[g]++
		}
		for _, nm := range all[kind] {
			sym.EqInt("named once", seen[nm], 1)
		}
	}
}
