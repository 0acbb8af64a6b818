// Package p23 checks the files fields are written to.
package p23

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/davidkleiven/gopf/pf"
	"github.com/davidkleiven/gopf/pfutil"
	"github.com/davidkleiven/gopf/zverif/sym"
	"github.com/davidkleiven/gopf/zverif/xml"
)

var names = []string{"conc", "eta", "temperature"}

// shape is a domain.
func shape() []int {
	s := [][]int{{2, 2}, {2, 3}, {3, 1}, {2, 2, 2}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}}
	if sym.Thorough() {
		s = append(s, []int{4, 4}, []int{5, 2}, []int{2, 3, 4}, []int{4, 3, 2})
	}
	return s[sym.Choose("shape", len(s))]
}

// coord is the position of a node: rows of a plane first, planes last.
func coord(d []int, i int) []int {
	p := []int{i / d[1] % d[0], i % d[1]}
	if len(d) == 3 {
		p = append(p, i/(d[0]*d[1]))
	}
	return p
}

// solver has some fields with any values.
func solver(d []int, n int, bound float64) *pf.Solver {
	nodes := pfutil.ProdInt(d)
	m := pf.NewModel()
	for f := 0; f < n; f++ {
		data := make([]complex128, nodes)
		for k := range data {
			data[k] = complex(sym.Float("re", -bound, bound), sym.Float("im", -1, 1))
		}
		m.AddField(pf.NewField(names[f], nodes, data))
	}
	return &pf.Solver{Model: &m}
}

// doubles decodes big-endian doubles.
func doubles(b []byte) []float64 {
	out := make([]float64, len(b)/8)
	if err := binary.Read(bytes.NewReader(b), binary.BigEndian, out); err != nil {
		sym.Fail("not readable")
	}
	return out
}

var epochs = []int{0, 1, 9, 10, 1234567}

// HBinary: every field goes to its own file, big-endian doubles in the order of the nodes, and loads back.
func HBinary() {
	sym.Bound("seven 2D and 3D shapes of two to eight nodes, one to three fields of any values, epochs 0, 1, 9, 10 and 1234567")
	d := shape()
	n := 1 + sym.Choose("fields", 3)
	s := solver(d, n, 1e6)
	prefix := sym.TempDir() + "/" + []string{"run", "a_b", "50%d run"}[sym.Choose("prefix", 3)]
	e := epochs[sym.Choose("epoch", 5)]
	io := pf.NewFloat64IO(prefix)
	io.SaveFields(s, e)
	for f := 0; f < n; f++ {
		name := fmt.Sprintf("%s_%s_%d.bin", prefix, names[f], e)
		b, err := os.ReadFile(name)
		sym.Assert("file named after field and epoch", err == nil)
		if err != nil {
			return
		}
		sym.EqInt("size", len(b), 8*pfutil.ProdInt(d))
		raw := doubles(b)
		back := pf.LoadFloat64(name)
		sym.EqInt("loaded", len(back), len(raw))
		for k, v := range raw {
			sym.Close("stored value", v, real(s.Model.Fields[f].Data[k]), 0)
			if k < len(back) {
				sym.Close("loaded value", back[k], real(s.Model.Fields[f].Data[k]), 0)
			}
		}
	}
}

// HOverwrite: a file written again holds the new values only.
func HOverwrite() {
	sym.Bound("two writes of one to four doubles to the same file")
	name := sym.TempDir() + "/data.bin"
	var last []float64
	for w := 0; w < 2; w++ {
		last = make([]float64, 1+sym.Choose("length", 4))
		for k := range last {
			last[k] = sym.Float("v", -1e300, 1e300)
		}
		pf.SaveFloat64(name, last)
	}
	back := pf.LoadFloat64(name)
	sym.EqInt("length", len(back), len(last))
	for k := range back {
		sym.Close("value", back[k], last[k], 0)
	}
}

// rows splits a text file.
func rows(name string) [][]string {
	b, err := os.ReadFile(name)
	sym.Assert("text file", err == nil)
	var out [][]string
	for _, l := range strings.Split(string(b), "\n") {
		if l != "" {
			out = append(out, strings.Split(l, ","))
		}
	}
	return out
}

// HCsv: one row per node with its position and values, in the order of the nodes.
func HCsv() {
	sym.Bound("seven 2D and 3D shapes of two to eight nodes, one to three fields of any values in [-1e6,1e6], epochs 0, 1, 9, 10 and 1234567")
	d := shape()
	n := 1 + sym.Choose("fields", 3)
	s := solver(d, n, 1e6)
	prefix := sym.TempDir() + "/run"
	e := epochs[sym.Choose("epoch", 5)]
	io := pf.CsvIO{Prefix: prefix, DomainSize: d}
	io.SaveFields(s, e)
	name := fmt.Sprintf("%s_%d.csv", prefix, e)
	checkCsv(name, d, func(f, k int) float64 { return real(s.Model.Fields[f].Data[k]) }, n)
	back := pf.LoadCSV(name)
	sym.EqInt("fields loaded", len(back), n)
	for f := range back {
		sym.EqStr("name loaded", back[f].Name, names[f])
		sym.EqInt("nodes loaded", len(back[f].Data), len(s.Model.Fields[f].Data))
		for k, v := range back[f].Data {
			sym.Close("value loaded", real(v), real(s.Model.Fields[f].Data[k]), 6e-7)
			sym.Close("no imaginary part", imag(v), 0, 0)
		}
	}
}

func checkCsv(name string, d []int, val func(f, k int) float64, n int) {
	r := rows(name)
	nodes := pfutil.ProdInt(d)
	sym.EqInt("rows", len(r), nodes+1)
	if len(r) != nodes+1 {
		return
	}
	sym.EqStr("header", strings.Join(r[0], ","), "X,Y,Z,"+strings.Join(names[:n], ","))
	for k := 0; k < nodes; k++ {
		row := r[k+1]
		sym.EqInt("columns", len(row), 3+n)
		p := append(coord(d, k), 0)
		for a := 0; a < 3; a++ {
			sym.EqStr("position", row[a], strconv.Itoa(p[a]))
		}
		for f := 0; f < n; f++ {
			v, err := strconv.ParseFloat(row[3+f], 64)
			sym.Assert("number", err == nil)
			sym.Close("value", v, val(f, k), 6e-7)
		}
	}
}

// HSaveCsv: the function behind it, with any kind of slice; a wrong domain is refused.
func HSaveCsv() {
	sym.Bound("seven shapes, complex and real slices of any values in [-1e6,1e6]; domains of another size")
	d := shape()
	nodes := pfutil.ProdInt(d)
	a, b := make([]complex128, nodes), make([]float64, nodes)
	for k := range a {
		a[k] = complex(sym.Float("a", -1e6, 1e6), sym.Float("i", -1, 1))
		b[k] = sym.Float("b", -1e6, 1e6)
	}
	name := sym.TempDir() + "/out.csv"
	data := []pf.CsvData{{Name: names[0], Data: &pfutil.RealPartSlice{Data: a}}, {Name: names[1], Data: &pfutil.RealSlice{Data: b}}}
	if sym.Bool("wrong") {
		w := append([]int{}, d...)
		w[sym.Choose("axis", len(d))]++
		sym.Assert("another domain is refused", sym.Panics(func() { pf.SaveCsv(name, data, w) }))
		sym.Assert("no domain is refused", sym.Panics(func() { pf.SaveCsv(name, data, nil) }))
		return
	}
	pf.SaveCsv(name, data, d)
	checkCsv(name, d, func(f, k int) float64 {
		if f == 0 {
			return real(a[k])
		}
		return b[k]
	}, 2)
}

// HBytes: the smallest value becomes 0, the largest 255, and the others keep their order in between.
func HBytes() {
	sym.Bound("one or two fields of two or three nodes of any values in [-100,100] at least 1e-3 apart, or constant")
	nodes := 2 + sym.Choose("nodes", 2)
	n := 1 + sym.Choose("fields", 2)
	s := solver([]int{nodes, 1}, n, 100)
	flat := sym.Bool("constant")
	for _, f := range s.Model.Fields {
		if flat {
			for k := range f.Data {
				sym.Assume(real(f.Data[k]) == real(f.Data[0]))
			}
		} else {
			for k := range f.Data {
				for j := range f.Data[:k] {
					sym.Assume(math.Abs(real(f.Data[j])-real(f.Data[k])) > 1e-3)
				}
			}
		}
	}
	prefix := sym.TempDir() + "/run"
	io := pf.NewUint8IO(prefix)
	io.SaveFields(s, 3)
	for f := range s.Model.Fields {
		b, err := os.ReadFile(fmt.Sprintf("%s_%s_3.bin", prefix, names[f]))
		sym.Assert("file named after field and epoch", err == nil)
		sym.EqInt("size", len(b), nodes)
		if err != nil || len(b) != nodes {
			return
		}
		v := make([]float64, nodes)
		lo, hi := real(s.Model.Fields[f].Data[0]), real(s.Model.Fields[f].Data[0])
		for k := range v {
			v[k] = real(s.Model.Fields[f].Data[k])
			lo, hi = math.Min(lo, v[k]), math.Max(hi, v[k])
		}
		for k := range v {
			if flat {
				sym.EqInt("constant", int(b[k]), 0)
				continue
			}
			if v[k] == lo {
				sym.EqInt("smallest", int(b[k]), 0)
			}
			if v[k] == hi {
				sym.EqInt("largest", int(b[k]), 255)
			}
			for j := range v[:k] {
				sym.Assert("order", v[j] < v[k] && b[j] <= b[k] || v[j] > v[k] && b[j] >= b[k])
			}
			sym.Assert("scale", math.Abs(float64(b[k])-255*(v[k]-lo)/(hi-lo)) <= 1.0001)
		}
	}
}

// ints parses the dimensions of an item.
func ints(s string) []int {
	var out []int
	for _, w := range strings.Fields(s) {
		n, err := strconv.Atoi(w)
		sym.Assert("dimension", err == nil)
		out = append(out, n)
	}
	return out
}

// rowMajor tells whether there is an order of the axes in which the nodes are numbered as the dimensions say, the
// last one fastest.
func rowMajor(dims, d []int) bool {
	perms := [][]int{{0, 1}, {1, 0}}
	if len(d) == 3 {
		perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	}
	if len(dims) != len(d) {
		return false
	}
	for _, p := range perms {
		ok := true
		for k := range p {
			ok = ok && dims[k] == d[p[k]]
		}
		for i := 0; ok && i < pfutil.ProdInt(d); i++ {
			at, n := coord(d, i), 0
			for k := range p {
				n = n*dims[k] + at[p[k]]
			}
			ok = n == i
		}
		if ok {
			return true
		}
	}
	return false
}

// HXdmf: the description refers to the files the binary writer made, in their layout.
func HXdmf() {
	sym.Bound("seven 2D and 3D shapes, one to three fields, one, two, three and twelve epochs")
	d := shape()
	n := 1 + sym.Choose("fields", 3)
	num := []int{1, 2, 3, 12}[sym.Choose("epochs", 4)]
	s := solver(d, n, 1e6)
	dir := sym.TempDir()
	prefix := dir + "/run"
	io := pf.NewFloat64IO(prefix)
	vals := map[string]float64{}
	for e := 0; e < num; e++ {
		for f := range s.Model.Fields {
			for k := range s.Model.Fields[f].Data {
				v := sym.Float("later", -10, 10)
				s.Model.Fields[f].Data[k] = complex(v, 0)
				vals[fmt.Sprintf("%d/%s/%d", e, names[f], k)] = v
			}
		}
		io.SaveFields(s, e)
	}
	xml.Encoded = nil
	pf.WriteXDMF(dir+"/run.xdmf", names[:n], prefix, num, d)
	_, err := os.Stat(dir + "/run.xdmf")
	sym.Assert("description written", err == nil)
	sym.EqInt("descriptions", len(xml.Encoded), 1)
	if len(xml.Encoded) != 1 {
		return
	}
	x, ok := xml.Encoded[0].(pf.XDMF)
	if p, isPtr := xml.Encoded[0].(*pf.XDMF); isPtr {
		x, ok = *p, true
	}
	sym.Assert("description", ok)
	if !ok {
		return
	}
	topo := x.Domain.Topology
	sym.EqStr("type of the mesh", topo.Type, fmt.Sprintf("%dDCoRectMesh", len(d)))
	sym.Assert("layout of the mesh", rowMajor(ints(topo.Dimensions), d))
	sym.EqStr("type of the geometry", x.Domain.Geometry.Type, []string{"ORIGIN_DXDY", "ORIGIN_DXDYDZ"}[len(d)-2])
	g := x.Domain.Grid
	sym.Assert("collection in time", g.Type == "Collection" && g.CollectionType == "Temporal")
	sym.EqInt("grids", len(g.Grids), num)
	sym.Assert("instants", g.Time != nil && g.Time.Type == "HyperSlab")
	if g.Time != nil { // start, stride and count
		sym.EqStr("numbers of the hyper slab", g.Time.DataItem.Dimensions, "3")
		w := strings.Fields(g.Time.DataItem.Value)
		sym.EqInt("start, stride, count", len(w), 3)
		if len(w) == 3 {
			c, _ := strconv.ParseFloat(w[2], 64)
			st, _ := strconv.ParseFloat(w[1], 64)
			sym.Close("count", c, float64(num), 0)
			sym.Assert("stride", st > 0)
		}
	}
	for e := 0; e < num && e < len(g.Grids); e++ {
		gr := g.Grids[e]
		sym.EqStr("grid", gr.Type, "Uniform")
		sym.EqStr("topology", gr.Topology.Reference, "/Xdmf/Domain/Topology[1]")
		sym.EqStr("geometry", gr.Geometry.Reference, "/Xdmf/Domain/Geometry[1]")
		sym.EqInt("attributes", len(gr.Attributes), n)
		for f, a := range gr.Attributes {
			sym.EqStr("name", a.Name, names[f])
			sym.EqStr("center", a.Center, "Node")
			it := a.DataItem
			sym.Assert("format", it.Format == "Binary" && it.Endian == "Big" && it.Precision == 8 && (it.DataType == "Float" || it.NumberType == "Float"))
			sym.EqStr("dimensions", it.Dimensions, topo.Dimensions)
			b, err := os.ReadFile(it.Value)
			sym.Assert("file referred to exists", err == nil)
			sym.EqInt("size of the file referred to", len(b), 8*pfutil.ProdInt(d))
			for k, v := range doubles(b) {
				sym.Close("value in the file referred to", v, vals[fmt.Sprintf("%d/%s/%d", e, names[f], k)], 0)
			}
		}
	}
}

// HXdmfMany: long series.
func HXdmfMany() {
	sym.Bound("a description of 1005 epochs; files of epochs 99, 100, 999, 1000 and 1004")
	d := []int{1, 2}
	s := solver(d, 2, 1e6)
	prefix := sym.TempDir() + "/run"
	io := pf.NewFloat64IO(prefix)
	x := pf.CreateXDMF(names[:2], prefix, 1005, d)
	sym.EqInt("grids", len(x.Domain.Grid.Grids), 1005)
	for _, e := range []int{99, 100, 999, 1000, 1004} {
		io.SaveFields(s, e)
		for f, a := range x.Domain.Grid.Grids[e].Attributes {
			b, err := os.ReadFile(a.DataItem.Value)
			sym.Assert("file referred to exists", err == nil)
			for k, v := range doubles(b) {
				sym.Close("value in the file referred to", v, real(s.Model.Fields[f].Data[k]), 0)
			}
			os.Remove(a.DataItem.Value)
		}
	}
}

// HGrid: the text file of a grid.
func HGrid() {
	sym.Bound("seven shapes, any values in [-1e6,1e6]")
	d := shape()
	g := pfutil.NewGrid(d)
	for k := range g.Data {
		g.Data[k] = sym.Float("v", -1e6, 1e6)
	}
	name := sym.TempDir() + "/grid.csv"
	g.SaveCsv(name)
	r := rows(name)
	sym.EqInt("rows", len(r), len(g.Data)+1)
	if len(r) != len(g.Data)+1 {
		return
	}
	sym.EqStr("header", strings.Join(r[0], ","), strings.Join([]string{"x", "y", "z"}[:len(d)], ",")+",value")
	for k := range g.Data {
		row := r[k+1]
		sym.EqInt("columns", len(row), len(d)+1)
		for a, p := range coord(d, k) {
			sym.EqStr("position", row[a], strconv.Itoa(p))
		}
		v, err := strconv.ParseFloat(row[len(d)], 64)
		sym.Assert("number", err == nil)
		sym.Close("value", v, g.Data[k], 6e-7)
	}
}

// HOverwriteText: text and image files written again hold the new values only.
func HOverwriteText() {
	sym.Bound("a file of a 3x3 domain replaced by one of a 1x2 domain: fields as text, grid as text, byte image, doubles")
	dir := sym.TempDir()
	kind := sym.Choose("kind", 4)
	for _, d := range [][]int{{3, 3}, {1, 2}} {
		s := solver(d, 1, 1e6)
		switch kind {
		case 0:
			io := pf.CsvIO{Prefix: dir + "/run", DomainSize: d}
			io.SaveFields(s, 3)
		case 1:
			g := pfutil.NewGrid(d)
			g.SaveCsv(dir + "/run_3.csv")
		case 2:
			for k := range s.Model.Fields[0].Data {
				s.Model.Fields[0].Data[k] = complex(float64(k), 0)
			}
			io := pf.NewUint8IO(dir + "/run")
			io.SaveFields(s, 3)
		default:
			io := pf.NewFloat64IO(dir + "/run")
			io.SaveFields(s, 3)
		}
	}
	if kind < 2 {
		r := rows(dir + "/run_3.csv")
		sym.EqInt("rows", len(r), 3)
	} else {
		b, err := os.ReadFile(fmt.Sprintf("%s/run_%s_3.bin", dir, names[0]))
		sym.Assert("file", err == nil)
		sym.EqInt("bytes", len(b), []int{2, 16}[kind-2])
	}
}
