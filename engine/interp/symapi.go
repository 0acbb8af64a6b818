package interp

import (
	"fmt"
	"math"

	"verif/engine/term"
)

// symAPI implements the harness package "sym" symbolically.
var symAPI map[string]extFn

func init() {
	symAPI = map[string]extFn{
		"Int": func(fr *frame, a []value) value {
			return fr.i.ival(fr.i.p.inInt(a[0].(string), asInt64(a[1]), asInt64(a[2])), typInt)
		},
		"Float": func(fr *frame, a []value) value {
			return fr.i.p.inFloat(a[0].(string), a[1].(float64), a[2].(float64))
		},
		"Bool": func(fr *frame, a []value) value { return fr.i.p.inBool(a[0].(string)) },
		"Choose": func(fr *frame, a []value) value {
			return fr.i.p.inChoose(a[0].(string), int(asInt64(a[1])))
		},
		"Name": func(fr *frame, a []value) value {
			t := fr.i.p.inInt(a[0].(string), 1, 1000)
			return tokStr(&stok{kind: "name", v: t})
		},
		"MapOrder": func(fr *frame, a []value) value {
			fr.i.p.MapOrder = fr.i.p.inChoose("maporder", 4)
			return nil
		},
		"Assume": func(fr *frame, a []value) value {
			fr.i.p.Assume(fr.i.toB(a[0]))
			return nil
		},
		"Assert": func(fr *frame, a []value) value {
			fr.i.p.AssertB(a[0].(string), fr.i.toB(a[1]))
			return nil
		},
		"EqInt": func(fr *frame, a []value) value {
			fr.i.p.AssertB(a[0].(string), fr.i.p.C.IEqT(fr.i.toI(a[1]), fr.i.toI(a[2])))
			return nil
		},
		"EqStr": func(fr *frame, a []value) value {
			var b *term.B
			if isSym(a[1]) || isSym(a[2]) {
				b = fr.i.strEq(a[1], a[2])
			} else {
				b = term.Bool(a[1].(string) == a[2].(string))
			}
			fr.i.p.AssertB(a[0].(string), b)
			return nil
		},
		"Close": func(fr *frame, a []value) value {
			fr.i.assertClose(a[0].(string), a[1], a[2], a[3].(float64))
			return nil
		},
		"CloseC": func(fr *frame, a []value) value {
			i := fr.i
			x, ok1 := i.toC(a[1])
			y, ok2 := i.toC(a[2])
			if !ok1 || !ok2 {
				i.p.AssertB(a[0].(string), term.Bool(ok1 == ok2))
				return nil
			}
			i.p.AssertClose(a[0].(string)+".re", x.re, y.re, a[3].(float64))
			i.p.AssertClose(a[0].(string)+".im", x.im, y.im, a[3].(float64))
			return nil
		},
		"Observe": func(fr *frame, a []value) value {
			fr.i.p.Obs = append(fr.i.p.Obs, obs{a[0].(string), a[1]})
			return nil
		},
		"Bound": func(fr *frame, a []value) value {
			fr.i.p.Bounds = append(fr.i.p.Bounds, a[0].(string))
			return nil
		},
		"Assumption": func(fr *frame, a []value) value {
			fr.i.p.Assumed[a[0].(string)] = true
			return nil
		},
		"Thorough": func(fr *frame, a []value) value { return fr.i.p.Tier == "thorough" },
		"Symbolic": func(fr *frame, a []value) value { return true },
		"TempDir":  func(fr *frame, a []value) value { return "/vfs" },
		"Cleanup":  func(fr *frame, a []value) value { return nil },
		"Printed":  func(fr *frame, a []value) value { return fr.i.world.printed() },
		"Panics": func(fr *frame, a []value) (res value) {
			// runs f and reports whether it panicked or exited
			i := fr.i
			d := i.depth
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case targetPanic, exitPanic:
						i.depth = d
						i.p.panicTrace = nil
						res = true
						return
					}
					panic(r)
				}
			}()
			call(i, fr, 0, a[0], nil)
			return false
		},
		"Fresh": func(fr *frame, a []value) value { // same as Float; kept for readability
			return fr.i.p.inFloat(a[0].(string), a[1].(float64), a[2].(float64))
		},
		"Concrete": func(fr *frame, a []value) value { return int(fr.i.concInt(a[0])) },
		"Fail": func(fr *frame, a []value) value {
			fr.i.p.AssertB(a[0].(string), term.False)
			return nil
		},
		"Reached": func(fr *frame, a []value) value {
			fr.i.p.Reached["@"+a[0].(string)] = true
			return nil
		},
	}
}

func (i *interpreter) assertClose(label string, x, y value, tol float64) {
	a, ok1 := i.toR(x)
	b, ok2 := i.toR(y)
	if !ok1 || !ok2 {
		fx, fok := x.(float64)
		fy, gok := y.(float64)
		same := fok && gok && (fx == fy || math.IsNaN(fx) && math.IsNaN(fy))
		if same {
			i.p.AssertB(label, term.True)
		} else {
			i.p.Asserts++
			i.p.Reached[label] = true
			i.p.violation(label, "assert", fmt.Sprintf("non-finite value %s vs %s", toString(x), toString(y)), nil)
		}
		return
	}
	i.p.AssertClose(label, a, b, tol)
}
