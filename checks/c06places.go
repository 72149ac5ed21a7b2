package checks

import (
	"fmt"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C06, places: every way of arriving at a location, followed by every
// sequence of steps into it, and every way of obtaining the value stored.

// A placeBase yields a location of type BASE, written BASE in its
// declarations; expr denotes it.
type placeBase struct {
	name, decl, params, stmts, expr string
	local                           bool // a variable of the function itself
	closure                         bool // the store is in a closure
}

var placeBases = []placeBase{
	{name: "global", decl: "var g BASE", expr: "g"},
	{name: "parameter", params: "p *BASE", expr: "(*p)"},
	{name: "twice pointed to", params: "p **BASE", expr: "(**p)"},
	{name: "loaded pointer", decl: "var g *BASE", expr: "(*g)"},
	{name: "result", decl: "func get() *BASE { return nil }", expr: "(*get())"},
	{name: "one of two results", decl: "func get() (int, *BASE) { return 0, nil }", stmts: "_, p := get()", expr: "(*p)"},
	{name: "either of two", params: "b bool, p, q *BASE", stmts: "if b { p = q }", expr: "(*p)"},
	{name: "loop pointer", params: "l []*BASE", stmts: "var p *BASE; for _, p = range l { }", expr: "(*p)"},
	{name: "pointer in map", params: "m map[int]*BASE", expr: "(*m[1])"},
	{name: "pointer in map, checked", params: "m map[int]*BASE", stmts: "p, _ := m[1]", expr: "(*p)"},
	{name: "asserted", params: "x any", expr: "(*x.(*BASE))"},
	{name: "asserted, checked", params: "x any", stmts: "p, _ := x.(*BASE)", expr: "(*p)"},
	{name: "defined pointer", decl: "type pt *BASE", params: "p pt", expr: "(*p)"},
	{name: "changed pointer", decl: "type pt *BASE", params: "p pt", expr: "(*(*BASE)(p))"},
	{name: "to a defined pointer", decl: "type pt *BASE", params: "p *BASE", expr: "(*pt(p))"},
	{name: "converted pointer", params: "p unsafe.Pointer", expr: "(*(*BASE)(p))"},
	{name: "received", params: "c chan *BASE", expr: "(*<-c)"},
	{name: "received, checked", params: "c chan *BASE", stmts: "p, _ := <-c", expr: "(*p)"},
	{name: "new", stmts: "p := new(BASE); kept = p", decl: "var kept *BASE", expr: "(*p)"},
	{name: "address of literal field", stmts: "p := &struct{ n int; b BASE }{}; kept = &p.b", decl: "var kept *BASE", expr: "p.b"},
	{name: "slice as array", params: "s []BASE", expr: "(*(*[2]BASE)(s))[1]"},
	{name: "whole slice as array", params: "s []BASE", expr: "(*[2]BASE)(s)[1]"},
	{name: "made slice", stmts: "s := make([]BASE, 3)", expr: "s[2]"},
	{name: "resliced", params: "s []BASE", expr: "s[1:][0]"},
	{name: "sliced array", decl: "var a [4]BASE", expr: "a[:2][1]"},
	{name: "variadic", params: "s ...BASE", expr: "s[0]"},
	{name: "pointer field of a result", decl: "func get() (r struct{ n int; p *BASE }) { return }", expr: "(*get().p)"},
	{name: "pointer element of a result", decl: "func get() (r [2]*BASE) { return }", expr: "(*get()[1])"},
	{name: "type parameter's pointer", decl: "func get[T any]() *T { return nil }", expr: "(*get[BASE]())"},
	{name: "captured", stmts: "var l BASE; _ = l; func() {", expr: "l", closure: true},
	{name: "captured pointer", params: "p *BASE", stmts: "func() {", expr: "(*p)", closure: true},
	{name: "closure's parameter", params: "p *BASE", stmts: "f := func(q *BASE) {", expr: "(*q)", closure: true},
	{name: "variable", stmts: "var l BASE; _ = l", expr: "l", local: true},
	{name: "variable in block", stmts: "var l BASE; _ = l; for range 2 { println() }", expr: "l", local: true},
	{name: "field of variable", stmts: "var l struct{ n int; b BASE }; _ = l", expr: "l.b", local: true},
	{name: "element of variable", params: "k int", stmts: "var l [3]BASE; _ = l", expr: "l[k%3]", local: true},
	{name: "by-value parameter", params: "l BASE", expr: "l", local: true},
}

// A placeStep reaches a part of type PART of a value of type typ.
type placeStep struct {
	name, typ, before, after string
	leaves                   bool // through a pointer
}

var placeSteps = []placeStep{
	{"field", "struct{ n int; f PART }", "", ".f", false},
	{"element", "[2]PART", "", "[1]", false},
	{"computed element", "[3]PART", "", "[n3()]", false},
	{"only field", "struct{ f PART }", "", ".f", false},
	{"ninth field", "struct{ a, b, c, d string; e, f, g, h int; i PART; j error }", "", ".i", false},
	{"element of a long array", "[1500]PART", "", "[1499]", false},
	{"pointer", "*PART", "(*", ")", true},
	{"pointed-to field", "struct{ n int; p *struct{ n int; f PART } }", "", ".p.f", true},
	{"element of array pointer", "*[2]PART", "", "[0]", true},
	{"slice element", "[]PART", "", "[1]", true},
}

// A placeValue yields a value of type TYPE.
type placeValue struct{ name, decl, params, stmts, expr string }

var placeValues = []placeValue{
	{name: "call", expr: "mk()"},
	{name: "parameter", params: "v TYPE", expr: "v"},
	{name: "load", params: "v *TYPE", expr: "*v"},
	{name: "global", decl: "var gv TYPE", expr: "gv"},
	{name: "choice", params: "vb bool, v, w TYPE", stmts: "if vb { v = w }", expr: "v"},
	{name: "one of two results", decl: "func mk2() (int, TYPE) { return 1, mk() }", stmts: "_, v := mk2()", expr: "v"},
	{name: "map element", params: "v map[int]TYPE", expr: "v[1]"},
	{name: "zero", stmts: "var v TYPE", expr: "v"},
	{name: "asserted", params: "v any", expr: "v.(TYPE)"},
	{name: "received", params: "v chan TYPE", expr: "<-v"},
	{name: "field of result", decl: "func mkf() (r struct{ n int; f TYPE }) { return }", expr: "mkf().f"},
	{name: "element of result", decl: "func mka() (r [2]TYPE) { return }", expr: "mka()[1]"},
	{name: "converted", decl: "type dt TYPE", params: "v dt", expr: "(TYPE)(v)"},
	{name: "closure result", expr: "func() TYPE { return mk() }()"},
	{name: "method result", decl: "type mt struct{}\nfunc (mt) mk() TYPE { return mk() }", expr: "mt{}.mk()"},
	{name: "interface method result", decl: "type it interface{ mk() TYPE }", params: "v it", expr: "v.mk()"},
	{name: "slice element", params: "v []TYPE", expr: "v[0]"},
}

// A placeLeaf is a type stored.
type placeLeaf struct {
	name, typ string
	holds     bool
}

var placeLeaves = []placeLeaf{
	{"value", "reflect.Value", true},
	{"struct", "sv", true},
	{"array", "[2]reflect.Value", true},
	{"single", "[1]reflect.Value", true},
	{"long array", "[2000]reflect.Value", true},
	{"wide struct", "wv", true},
	{"blank field", "bv", true},
	{"pointer", "*reflect.Value", false},
	{"struct of pointer", "sp", false},
	{"interface", "any", false},
}

const placeTypes = `
type sv struct { n int; v reflect.Value }

type wv struct { a, b, c, d, e, f, g, h, i, j, k, l int; v reflect.Value }

type bv struct { n int; _ reflect.Value }

type sp struct { n int; v *reflect.Value; s []reflect.Value }
`

func c06Place(t *mc.T, b placeBase, steps []placeStep, v placeValue, l placeLeaf) {
	const pkg = "example.com/u"
	typ, expr, shared := l.typ, b.expr, !b.local
	for i := len(steps) - 1; i >= 0; i-- {
		typ = strings.ReplaceAll(steps[i].typ, "PART", typ)
	}
	for _, s := range steps {
		expr = s.before + expr + s.after
		shared = shared || s.leaves
	}
	params := b.params
	if v.params != "" && params != "" {
		// A variadic parameter is last.
		params = v.params + ", " + params
	} else if v.params != "" {
		params = v.params
	}
	body := ""
	for _, s := range []string{v.stmts, b.stmts} {
		if s != "" {
			body += "\t" + s + "\n"
		}
	}
	body += "\t" + expr + " = " + v.expr + "\n"
	own := "P.F"
	if b.closure {
		own = "P.F$1"
		if strings.Contains(b.stmts, "f := ") {
			body += "\t}\n\tf(p)\n"
		} else {
			body += "\t}()\n"
		}
	}
	src := "package u\n\nimport (\n\t\"reflect\"\n\t\"unsafe\"\n)\n\nvar _ unsafe.Pointer\n" + placeTypes +
		"\nfunc n3() int { return 1 }\n\nfunc mk() (r TYPE) { return }\n\n" + v.decl + "\n\n" + b.decl + "\n\nfunc F(" + params + ") {\n" + body + "}\n"
	src = strings.ReplaceAll(strings.ReplaceAll(src, "BASE", typ), "TYPE", l.typ)
	var want []string
	if shared && l.holds {
		want = append(want, pkg+".F")
		if own != "P.F" {
			want = append(want, strings.ReplaceAll(own, "P.", pkg+"."))
		}
	}
	c := &srcCase{pkgs: []syn.Pkg{syn.One("reflect", c06Reflect), syn.One(pkg, src)}, query: []string{pkg}}
	got := c.analyse(t)
	expectCap(t, got, cpb.Capability_CAPABILITY_REFLECT, want, func(n string) bool { return strings.Contains(n, "[") })
	t.State(int64(len(got)+1), 1)
	t.Outcome(fmt.Sprint(showCaps(got)))
	if t.Failed() {
		c.describe(t)
	}
}

// c06Places enumerates, for sequences of at most depth steps, every base,
// leaf and value; sequences longer than one step use the first value only,
// and in the quick tier the first leaf and the first that is harmless.
func c06Places() mc.Engine {
	return mc.Engine{Name: "places", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		depth := 2
		if tier == "thorough" {
			depth = 3
		}
		var seq []placeStep
		var rec func()
		rec = func() {
			steps := append([]placeStep(nil), seq...)
			for _, b := range placeBases {
				for vi, v := range placeValues {
					for li, l := range placeLeaves {
						if len(steps) > 1 && (vi > 0 || tier != "thorough" && li != 0 && l.name != "pointer") {
							continue
						}
						if len(steps) == 1 && vi > 0 && li > 1 && l.name != "pointer" && tier != "thorough" {
							continue
						}
						yield(func() string {
							var n []string
							for _, s := range steps {
								n = append(n, s.name)
							}
							return fmt.Sprintf("%s from %s to %s, %s", l.name, v.name, b.name, strings.Join(n, ", "))
						}, func(t *mc.T) { c06Place(t, b, steps, v, l) })
					}
				}
			}
			if len(seq) == depth {
				return
			}
			for _, s := range placeSteps {
				seq = append(seq, s)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	}}
}
