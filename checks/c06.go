package checks

import (
	"fmt"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C06: copies of reflection values to shared memory are reported.

type shape struct {
	name, decl, typ string
	holds           bool // contains a reflection value
}

var shapes = []shape{
	{"value", "", "reflect.Value", true},
	{"alias", "type A = reflect.Value", "A", true},
	{"defined", "type V reflect.Value", "V", true},
	{"struct", "type S struct { n int; v reflect.Value }", "S", true},
	{"anonymous struct", "", "struct { n int; v reflect.Value }", true},
	{"embedded", "type S struct { n int; reflect.Value }", "S", true},
	{"array", "", "[2]reflect.Value", true},
	{"named array", "type R [2]reflect.Value", "R", true},
	{"array of structs", "type S struct { v reflect.Value }", "[2]S", true},
	{"struct of arrays", "type S struct { p *S; a [2]reflect.Value }", "S", true},
	{"nested", "type S struct { t T }\ntype T struct { n int; u struct { v reflect.Value } }", "S", true},
	{"nested arrays", "", "[1][2]reflect.Value", true},
	{"alias of struct", "type S = struct { v reflect.Value }", "S", true},
	{"struct of alias", "type A = reflect.Value\ntype S struct { a A }", "S", true},
	{"imported struct", "", "other.S", true},
	{"imported nested", "type S struct { o other.S }", "S", true},
	{"generic struct", "type P[E any] struct { a, b E }", "P[reflect.Value]", true},
	{"generic array", "type P[E any] [2]E", "P[reflect.Value]", true},
	{"generic nested", "type P[E any] struct { e Q[E] }\ntype Q[E any] struct { n int; e E }", "P[reflect.Value]", true},
	{"last field", "type S struct { p *reflect.Value; m map[string]reflect.Value; v reflect.Value }", "S", true},
	{"recursive", "type S struct { next *S; l []S; v reflect.Value }", "S", true},
	{"twin fields", "type J struct { n int }\ntype S struct { a, b J; v reflect.Value }", "S", true},
	{"defined twice", "type V reflect.Value\ntype W V", "W", true},
	{"struct of defined", "type V reflect.Value\ntype S struct { v V }", "S", true},

	{"pointer", "", "*reflect.Value", false},
	{"slice", "", "[]reflect.Value", false},
	{"map", "", "map[string]reflect.Value", false},
	{"channel", "", "chan reflect.Value", false},
	{"function", "", "func() reflect.Value", false},
	{"interface", "", "any", false},
	{"type interface", "", "reflect.Type", false},
	{"integer", "", "int", false},
	{"own type named Value", "type Value struct { n int }", "Value", false},
	{"other Value", "", "other.Value", false},
	{"struct of pointers", "type S struct { v *reflect.Value; s []reflect.Value; m map[int]reflect.Value; t reflect.Type; i any; f func(reflect.Value) }", "S", false},
	{"array of pointers", "", "[2]*reflect.Value", false},
	{"recursive without", "type S struct { next *S; l []S }", "S", false},
	{"generic of pointer", "type P[E any] struct { a, b E }", "P[*reflect.Value]", false},
	{"unrelated reflect struct", "", "reflect.Other", false},
	{"defined pointer", "type V *reflect.Value", "V", false},
}

type store struct {
	name, decl, src string
	shared          bool
	own, callers    []string
}

// In src and decl, TYPE is the stored type; MK() yields a value of it.
var stores = []store{
	{name: "global", decl: "var G TYPE", src: "func F() { G = MK() }", shared: true},
	{name: "global of other package", src: "func F() { other.G = MK() }", shared: true},
	{name: "pointer parameter", src: "func F(p *TYPE) { *p = MK() }", shared: true},
	{name: "defined pointer", decl: "type PT *TYPE", src: "func F(p PT) { *p = MK() }", shared: true},
	{name: "alias pointer", decl: "type PT = *TYPE", src: "func F(p PT) { *p = MK() }", shared: true},
	{name: "pointer variable", decl: "var G *TYPE", src: "func F() { *G = MK() }", shared: true},
	{name: "pointer to pointer", src: "func F(p **TYPE) { **p = MK() }", shared: true},
	{name: "new", src: "func F() *TYPE { p := new(TYPE); *p = MK(); return p }", shared: true},
	{name: "returned address", src: "func F() *TYPE { x := MK(); return &x }", shared: true},
	{name: "field of pointer", decl: "type B struct { n int; f TYPE }", src: "func F(p *B) { p.f = MK() }", shared: true},
	{name: "nested field of pointer", decl: "type B struct { n int; i struct { f TYPE } }", src: "func F(p *B) { p.i.f = MK() }", shared: true},
	{name: "promoted field", decl: "type B struct { n int; f TYPE }\ntype E struct { *B }", src: "func F(e E) { e.f = MK() }", shared: true},
	{name: "field of global", decl: "type B struct { n int; f TYPE }\nvar G B", src: "func F() { G.f = MK() }", shared: true},
	{name: "pointer in local", decl: "type B struct { n int; f TYPE }", src: "func F(b *B) { l := struct { p *B }{b}; l.p.f = MK() }", shared: true},
	{name: "slice element", src: "func F(s []TYPE, i int) { s[i] = MK() }", shared: true},
	{name: "slice element of struct", src: "func F(s []struct{ f TYPE }, i int) { s[i].f = MK() }", shared: true},
	{name: "slice in local", src: "func F(s []TYPE) { l := [2][]TYPE{s, s}; l[1][0] = MK() }", shared: true},
	{name: "made slice", src: "func F() []TYPE { s := make([]TYPE, 2); s[0] = MK(); return s }", shared: true},
	{name: "global array", decl: "var G [2]TYPE", src: "func F(i int) { G[i] = MK() }", shared: true},
	{name: "array pointer", src: "func F(a *[2]TYPE, i int) { a[i] = MK() }", shared: true},
	{name: "append", src: "func F(s []TYPE) []TYPE { return append(s, MK()) }", shared: true},
	{name: "slice literal", src: "func F() []TYPE { return []TYPE{MK()} }", shared: true},
	{name: "variadic", src: "func v(...TYPE) {}\nfunc F() { v(MK(), MK()) }", shared: true},
	{name: "literal address", decl: "type B struct { n int; f TYPE }", src: "func F() *B { return &B{1, MK()} }", shared: true},
	{name: "method", decl: "type B struct { f TYPE }", src: "func (b *B) M() { b.f = MK() }\nfunc F(b *B) { b.M() }", shared: true, own: []string{"(*P.B).M"}, callers: []string{"P.F"}},
	{name: "helper", decl: "var G TYPE", src: "func set(x TYPE) { G = x }\nfunc F() { set(MK()) }", shared: true, own: []string{"P.set"}, callers: []string{"P.F"}},
	{name: "captured variable", src: "func F() func() { x := MK(); _ = x; return func() { x = MK() } }", shared: true, own: []string{"P.F$1", "P.F"}},
	{name: "captured parameter", src: "func F(p *TYPE) { func() { *p = MK() }() }", shared: true, own: []string{"P.F$1"}, callers: []string{"P.F"}},
	{name: "global in closure", decl: "var G TYPE", src: "func F() { defer func() { G = MK() }() }", shared: true, own: []string{"P.F$1"}, callers: []string{"P.F"}},
	{name: "nested closure", decl: "var G TYPE", src: "func F() { func() { func() { G = MK() }() }() }", shared: true, own: []string{"P.F$1$1"}, callers: []string{"P.F$1", "P.F"}},
	{name: "init", decl: "var G TYPE", src: "func init() { G = MK() }", shared: true, own: []string{"P.init#1"}, callers: []string{"P.init"}},
	{name: "initialiser", decl: "var G TYPE = MK()", shared: true, own: []string{"P.init"}},
	{name: "tuple", decl: "var G TYPE\nfunc two() (int, TYPE) { return 1, MK() }", src: "func F() { _, G = two() }", shared: true},
	{name: "parallel", decl: "var G TYPE", src: "func F() { var n int; n, G = 1, MK(); _ = n }", shared: true},
	{name: "swap", decl: "var G, H TYPE", src: "func F() { G, H = H, G }", shared: true},
	{name: "range", decl: "var G TYPE", src: "func F(s []TYPE) { for _, G = range s { } }", shared: true},
	{name: "range map", decl: "var G TYPE", src: "func F(s map[int]TYPE) { for _, G = range s { } }", shared: true},
	{name: "receive", decl: "var G TYPE", src: "func F(c chan TYPE) { G = <-c }", shared: true},
	{name: "receive ok", decl: "var G TYPE", src: "func F(c chan TYPE) bool { var ok bool; G, ok = <-c; return ok }", shared: true},
	{name: "select", decl: "var G TYPE", src: "func F(c chan TYPE) { select { case G = <-c: default: } }", shared: true},
	{name: "map read", decl: "var G TYPE", src: "func F(m map[int]TYPE) { G = m[1] }", shared: true},
	{name: "map read ok", decl: "var G TYPE", src: "func F(m map[int]TYPE) { G, _ = m[1] }", shared: true},
	{name: "asserted", decl: "var G TYPE", src: "func F(x any) { G = x.(TYPE) }", shared: true},
	{name: "asserted ok", decl: "var G TYPE", src: "func F(x any) { G, _ = x.(TYPE) }", shared: true},
	{name: "type switch", decl: "var G TYPE", src: "func F(x any) { switch y := x.(type) { case TYPE: G = y } }", shared: true},
	{name: "parameter", decl: "var G TYPE", src: "func F(x TYPE) { G = x }", shared: true},
	{name: "local copy", decl: "var G TYPE", src: "func F() { x := MK(); y := x; G = y }", shared: true},
	{name: "loaded", src: "func F(p, q *TYPE) { *p = *q }", shared: true},
	{name: "branch", decl: "var G TYPE", src: "func F(b bool) { if b { G = MK() } }", shared: true},
	{name: "loop", decl: "var G [3]TYPE", src: "func F() { for i := range G { G[i] = MK() } }", shared: true},
	{name: "switch", decl: "var G TYPE", src: "func F(n int) { switch n { case 1: G = MK() } }", shared: true},
	{name: "goto", decl: "var G TYPE", src: "func F(n int) { L: if n > 0 { G = MK(); n--; goto L } }", shared: true},
	{name: "after local", decl: "var G TYPE", src: "func F() { l := MK(); a := [2]TYPE{l, l}; a[0] = l; G = a[1] }", shared: true},
	{name: "generic", src: "func zs[X any](p *X, x X) { *p = x }\nfunc F(p *TYPE) { zs(p, MK()) }", shared: true, own: []string{}, callers: []string{"P.F"}},
	{name: "generic field", src: "type B[X any] struct { f X }\nfunc (b *B[X]) Set(x X) { b.f = x }\nfunc F(b *B[TYPE]) { b.Set(MK()) }", shared: true, own: []string{}, callers: []string{"P.F"}},
	{name: "generic slice", src: "func zs[X any](p []X, x X) { p[0] = x }\nfunc F(p []TYPE) { zs(p, MK()) }", shared: true, own: []string{}, callers: []string{"P.F"}},
	{name: "interface method", decl: "var G TYPE\ntype I interface { M() }\ntype B struct{}\nfunc (B) M() { G = MK() }", src: "func F(i I) { i.M() }\nfunc H() { F(B{}) }", shared: true, own: []string{"(P.B).M"}, callers: []string{"P.F", "P.H"}},
	{name: "function value", decl: "var G TYPE\nfunc set() { G = MK() }", src: "func F() { f := set; f() }", shared: true, own: []string{"P.set"}, callers: []string{"P.F"}},
	{name: "deferred", decl: "var G TYPE\nfunc set() { G = MK() }", src: "func F() { defer set() }", shared: true, own: []string{"P.set"}, callers: []string{"P.F"}},
	{name: "other package", src: "func F() { other.Set(MK()) }", shared: true, own: []string{}, callers: []string{"P.F"}},
	{name: "zero variable", decl: "var G TYPE", src: "func F() { var z TYPE; G = z }", shared: true},
	{name: "zero to pointer", src: "func F(p *TYPE) { var z TYPE; *p = z }", shared: true},
	{name: "zero to slice", src: "func F(p []TYPE) { var z TYPE; p[1] = z }", shared: true},
	{name: "zero of pointer", decl: "var G TYPE", src: "func F() { G = *new(TYPE) }", shared: true},
	{name: "for post", decl: "var G TYPE", src: "func F() { for i := 0; i < 3; G = MK() { i++ } }", shared: true},
	{name: "for init", decl: "var G TYPE", src: "func F() { for G = MK(); ; { break } }", shared: true},
	{name: "if init", decl: "var G TYPE", src: "func F(b bool) { if G = MK(); b { return } }", shared: true},
	{name: "else", decl: "var G TYPE", src: "func F(b bool) { if b { return } else { G = MK() } }", shared: true},
	{name: "else if", decl: "var G TYPE", src: "func F(b, c bool) { if b { return } else if c { G = MK() } }", shared: true},
	{name: "after if", decl: "var G TYPE", src: "func F(b bool) { if b { println() }; G = MK() }", shared: true},
	{name: "after loop", decl: "var G TYPE", src: "func F(n int) { for i := 0; i < n; i++ { println(i) }; G = MK() }", shared: true},
	{name: "after range", decl: "var G TYPE", src: "func F(l []int) { for range l { println() }; G = MK() }", shared: true},
	{name: "after range map", decl: "var G TYPE", src: "func F(l map[int]int) { for range l { println() }; G = MK() }", shared: true},
	{name: "after range integer", decl: "var G TYPE", src: "func F(n int) { for range n { println() }; G = MK() }", shared: true},
	{name: "after range channel", decl: "var G TYPE", src: "func F(c chan int) { for range c { println() }; G = MK() }", shared: true},
	{name: "range channel body", decl: "var G TYPE", src: "func F(c chan int) { for range c { G = MK() } }", shared: true},
	{name: "range integer body", decl: "var G TYPE", src: "func F(n int) { for range n { G = MK() } }", shared: true},
	{name: "range string body", decl: "var G TYPE", src: "func F(n string) { for range n { G = MK() } }", shared: true},
	{name: "range map body", decl: "var G TYPE", src: "func F(m map[int]int) { for range m { G = MK() } }", shared: true},
	{name: "after select", decl: "var G TYPE", src: "func F(c chan int) { select { case <-c: default: }; G = MK() }", shared: true},
	{name: "select body", decl: "var G TYPE", src: "func F(c chan int) { select { case <-c: G = MK(); default: } }", shared: true},
	{name: "select default", decl: "var G TYPE", src: "func F(c chan int) { select { case <-c: default: G = MK() } }", shared: true},
	{name: "blocking select", decl: "var G TYPE", src: "func F(c, d chan int) { select { case <-c: case d <- 1: G = MK() } }", shared: true},
	{name: "after switch", decl: "var G TYPE", src: "func F(n int) { switch n { case 1: println(); case 2: println(2) }; G = MK() }", shared: true},
	{name: "switch default", decl: "var G TYPE", src: "func F(n int) { switch n { case 1: println(); default: G = MK() } }", shared: true},
	{name: "switch fallthrough", decl: "var G TYPE", src: "func F(n int) { switch n { case 1: println(); fallthrough; case 2: G = MK() } }", shared: true},
	{name: "type switch default", decl: "var G TYPE", src: "func F(n any) { switch n.(type) { case int: println(); default: G = MK() } }", shared: true},
	{name: "after type switch", decl: "var G TYPE", src: "func F(n any) { switch n.(type) { case int: println() }; G = MK() }", shared: true},
	{name: "after loop with break", decl: "var G TYPE", src: "func F(n int) { L: for { for { if n > 3 { break L }; n++ } }; G = MK() }", shared: true},
	{name: "after continue", decl: "var G TYPE", src: "func F(n int) { for i := 0; i < n; i++ { if i == 2 { continue }; G = MK() } }", shared: true},
	{name: "after goto", decl: "var G TYPE", src: "func F(n int) { if n > 1 { goto L }; println(); L: G = MK() }", shared: true},
	{name: "before panic", decl: "var G TYPE", src: "func F() { G = MK(); panic(1) }", shared: true},
	{name: "with recover", decl: "var G TYPE", src: "func F() { defer func() { recover() }(); G = MK() }", shared: true},
	{name: "before condition", decl: "var G TYPE", src: "func F(a, b bool) { G = MK(); if a && b || !a { println() } }", shared: true},
	{name: "after condition", decl: "var G TYPE", src: "func F(a, b bool) { x := a && b; println(x); G = MK() }", shared: true},
	{name: "in block", decl: "var G TYPE", src: "func F() { { { G = MK() } } }", shared: true},
	{name: "last of many", decl: "var G TYPE; var H [8]int", src: "func F(n int) { H[0] = 1; H[n] = 2; for i := range H { H[i] = i }; l := [2]TYPE{}; _ = l; G = MK() }", shared: true},
	{name: "goroutine", decl: "var G TYPE\nfunc set() { G = MK() }", src: "func F() { go set() }", shared: true, own: []string{"P.set"}, callers: []string{"P.F"}},

	{name: "local", src: "func F() { x := MK(); _ = x }"},
	{name: "local zero", src: "func F() (r TYPE) { var z TYPE; x := z; r = x; return r }"},
	{name: "local everywhere", src: "func F(n int, c chan int) TYPE { var l [2]TYPE; for l[0] = MK(); n > 3; l[1] = MK() { n-- }; select { case <-c: l[0] = MK(); default: l[1] = MK() }; switch n { case 1: l[0] = MK() }; l[1] = l[0]; return l[0] }"},
	{name: "local assigned", src: "func F() (r TYPE) { var x TYPE; x = MK(); return x }"},
	{name: "local branches", src: "func F(b bool) TYPE { x := MK(); if b { x = MK() }; for range 3 { x = MK() }; return x }"},
	{name: "local struct", src: "func F() TYPE { var l struct { n int; f TYPE }; l.f = MK(); return l.f }"},
	{name: "local nested struct", src: "func F() TYPE { var l struct { n int; i struct { f TYPE } }; l.i.f = MK(); return l.i.f }"},
	{name: "local array", src: "func F(i int) TYPE { var l [3]TYPE; l[i] = MK(); l[1] = MK(); return l[0] }"},
	{name: "local array of structs", src: "func F(i int) TYPE { var l [3]struct { f [2]TYPE }; l[i].f[i] = MK(); return l[0].f[1] }"},
	{name: "local loop", src: "func F() TYPE { var l [3]TYPE; for i := range 3 { l[i] = MK() }; return l[2] }"},
	{name: "local with branches", src: "func F(a, b bool) bool { var l [2]struct { b bool; f TYPE }; i := 0; if a { i = 1 }; l[i].f = pick(a && b, MK()); return l[0].b }\nfunc pick(b bool, x TYPE) TYPE { return x }"},
	{name: "local literal", src: "func F() TYPE { l := struct { n int; f TYPE }{1, MK()}; return l.f }"},
	{name: "parameter variable", src: "func F(x TYPE) TYPE { x = MK(); return x }"},
	{name: "named result", src: "func F() (n int, r TYPE) { r = MK(); return 1, r }"},
	{name: "argument", src: "func u(TYPE) {}\nfunc F() { u(MK()) }"},
	{name: "returned", src: "func F() TYPE { return MK() }"},
	{name: "blank", src: "func F() { _ = MK() }"},
	{name: "local in closure", src: "func F() { f := func() TYPE { var x [2]TYPE; x[0] = MK(); return x[0] }; f() }"},
	{name: "local in method", src: "type B struct{}\nfunc (B) M() { var x [2]TYPE; x[0] = MK(); _ = x }\nfunc F() { B{}.M() }"},
	{name: "value receiver", src: "type B struct{ f TYPE }\nfunc (b B) M() TYPE { b.f = MK(); return b.f }\nfunc F() { B{}.M() }"},
	{name: "local range", src: "func F(s []TYPE) { for _, x := range s { y := x; _ = y } }"},
	{name: "local receive", src: "func F(c chan TYPE) { x, ok := <-c; _, _ = x, ok }"},
	{name: "pointer to shared", decl: "var G *TYPE", src: "func F(p *TYPE) { G = p }"},
	{name: "local generic", src: "func zs[X any](x X) X { var l [2]X; l[0] = x; return l[0] }\nfunc F() { zs(MK()) }"},
	{name: "read only", decl: "var G TYPE", src: "func F() TYPE { return G }"},
	{name: "unrelated store", decl: "var G int\nvar H struct { n int; f TYPE }", src: "func F() { G = 1; H.n = 2 }"},
}

const c06Reflect = "package reflect\n\ntype flag uintptr\n\ntype Type interface { String() string }\n\ntype Value struct { typ_ *int; ptr *int; flag }\n\ntype Other struct { typ_ *int; ptr *int }\n\nfunc (v Value) Int() int { return 0 }\n"

// nests wrap the type before them; decl declares a name for the wrapper.
var nests = []struct {
	name, decl, typ string
	holds           bool
}{
	{"field", "", "struct { n int; f TYPE }", true},
	{"array", "", "[2]TYPE", true},
	{"defined", "type NX TYPE", "NX", true},
	{"alias", "type AX = TYPE", "AX", true},
	{"struct", "type SX struct { f TYPE; n int }", "SX", true},
	{"generic", "type GX[E any] struct { e E }", "GX[TYPE]", true},
	{"pointer", "", "*TYPE", false},
	{"slice", "", "[]TYPE", false},
	{"map", "", "map[int]TYPE", false},
	{"function", "", "func() TYPE", false},
	{"channel", "", "chan TYPE", false},
}

func nestName(l []int) string {
	var b strings.Builder
	for _, k := range l {
		b.WriteString(nests[k].name + " of ")
	}
	return b.String() + "value"
}

func nestShape(l []int) shape {
	s := shape{name: nestName(l), typ: "reflect.Value", holds: true}
	for i := len(l) - 1; i >= 0; i-- {
		n := nests[l[i]]
		if n.decl != "" {
			s.decl += subst(strings.ReplaceAll(n.decl, "TYPE", s.typ), i, "P", "") + "\n"
		}
		s.typ = subst(strings.ReplaceAll(n.typ, "TYPE", s.typ), i, "P", "")
		s.holds = s.holds && n.holds
	}
	return s
}

func c06Case(t *mc.T, sh []int, st []int) { c06Run(t, shapes[sh[0]], st[0]) }

func c06Run(t *mc.T, s shape, st int) {
	pkg := "example.com/u"
	var want []string
	src := "package u\n\nimport (\n\t\"other\"\n\t\"reflect\"\n)\n\nvar _ reflect.Type\nvar _ other.S\n"
	d := stores[st]
	r := strings.NewReplacer("TYPE", s.typ, "MK()", "mk()")
	needsOther := strings.Contains(d.src, "other.")
	src += s.decl + "\n\nfunc mk() " + s.typ + " { var z " + s.typ + "; return z }\n\n" + r.Replace(d.decl) + "\n\n" + r.Replace(d.src) + "\n"
	other := "package other\n\nimport \"reflect\"\n\ntype S struct { n int; v reflect.Value }\n\ntype Value struct { n int }\n"
	if needsOther {
		if strings.Contains(s.decl, "type") || strings.Contains(s.typ, "other.") || strings.Contains(s.typ, "struct") {
			return // the other package cannot name the type
		}
		other += "\nvar G " + s.typ + "\n\nfunc Set(x " + s.typ + ") { G = x }\n"
	}
	if s.holds && d.shared {
		want = append(want, d.callers...)
		if d.own == nil {
			want = append(want, "P.F")
		}
		want = append(want, d.own...)
		for i := range want {
			want[i] = strings.ReplaceAll(want[i], "P.", pkg+".")
		}
	}
	c := &srcCase{pkgs: []syn.Pkg{syn.One("reflect", c06Reflect), syn.One("other", other), syn.One(pkg, src)}, query: []string{pkg}}
	got := c.analyse(t)
	expectCap(t, got, cpb.Capability_CAPABILITY_REFLECT, want, func(n string) bool { return strings.Contains(n, "[") })
	t.State(int64(len(got)+1), 1)
	t.Outcome(fmt.Sprint(showCaps(got), st))
	if t.Failed() {
		c.describe(t)
	}
}

func init() {
	product := mc.Engine{Name: "shapes and destinations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for i := range shapes {
			for j := range stores {
				yield(func() string { return fmt.Sprintf("%s to %s", shapes[i].name, stores[j].name) }, func(t *mc.T) {
					c06Case(t, []int{i}, []int{j})
				})
			}
		}
	}}
	nested := mc.Engine{Name: "nested types", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		depth := 3
		if tier == "thorough" {
			depth = 4
		}
		dests := []string{"global", "defined pointer", "local struct", "local array", "slice element"}
		var seq []int
		var rec func()
		rec = func() {
			if len(seq) > 0 {
				l := append([]int(nil), seq...)
				for j, d := range stores {
					if !oneOfString(d.name, dests) {
						continue
					}
					yield(func() string { return fmt.Sprintf("%v to %s", nestName(l), d.name) }, func(t *mc.T) { c06Run(t, nestShape(l), j) })
				}
			}
			if len(seq) == depth {
				return
			}
			for k := range nests {
				seq = append(seq, k)
				rec()
				seq = seq[:len(seq)-1]
			}
		}
		rec()
	}}
	mc.Register(&mc.Check{Prop: "C06", Level: "model_checking",
		Bounds:  fmt.Sprintf("%d type shapes x %d destinations; every composition of %d type constructors to depth 3 (thorough 4) x 5 destinations; %d ways to a location x sequences of <=2 (thorough 3) of %d steps x %d stored types x %d origins of the value; every style of declaration, package path and file", len(shapes), len(stores), len(nests), len(placeBases), len(placeSteps), len(placeLeaves), len(placeValues)),
		Assume:  graphAssume[:1],
		Engines: append([]mc.Engine{product, nested, c06Places()}, graphEngines([]family{famDecls}, oracleExtra(capRefl))...)})
}

func oneOfString(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
