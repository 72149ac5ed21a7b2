package checks

import (
	"fmt"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C04: sorting and once-only calls never hide or invent capabilities.

const c04Sort = `package sort

type Interface interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

func Sort(data Interface)          { n := data.Len(); if data.Less(0, n) { data.Swap(0, n) } }
func Stable(data Interface)        { n := data.Len(); if data.Less(0, n) { data.Swap(0, n) } }
func IsSorted(data Interface) bool { n := data.Len(); return data.Less(0, n) }

type reverse struct{ Interface }

func (r reverse) Less(i, j int) bool { return r.Interface.Less(j, i) }

func Reverse(data Interface) Interface                    { return &reverse{data} }
func Slice(x any, less func(i, j int) bool)               { less(0, 1) }
func SliceStable(x any, less func(i, j int) bool)         { less(0, 1) }
func SliceIsSorted(x any, less func(i, j int) bool) bool  { return less(0, 1) }
func Search(n int, f func(int) bool) int                  { f(0); return 0 }
func Find(n int, cmp func(int) int) (i int, found bool)   { return cmp(0), true }

type IntSlice []int

func (x IntSlice) Len() int           { return len(x) }
func (x IntSlice) Less(i, j int) bool { return x[i] < x[j] }
func (x IntSlice) Swap(i, j int)      { x[i], x[j] = x[j], x[i] }
`

const c04Sync = `package sync

type Once struct{ done int }

func (o *Once) Do(f func()) { if o.done == 0 { o.doSlow(f) } }
func (o *Once) doSlow(f func()) { defer func() { o.done = 1 }(); f() }
`

const c04Leaf = `package lf

func Less()  {}
func Swap()  {}
func Len()   {}
func CB()    {}
func Eval()  {}
func Decoy() {}
func LessFn(i, j int) bool { CB(); return false }
func OnceFn()              { CB() }

func Reverse[T any](x T) T { Eval(); return x }
func Sort[T any](x T) T    { Eval(); return x }
`

const c04Map = `func example.com/lf.Less CAPABILITY_FILES
func example.com/lf.Swap CAPABILITY_NETWORK
func example.com/lf.Len CAPABILITY_EXEC
func example.com/lf.CB CAPABILITY_READ_SYSTEM_STATE
func example.com/lf.Eval CAPABILITY_OPERATING_SYSTEM
func example.com/lf.Decoy CAPABILITY_MODIFY_SYSTEM_STATE
`

var (
	c04Less  = cpb.Capability_CAPABILITY_FILES
	c04Swap  = cpb.Capability_CAPABILITY_NETWORK
	c04Len   = cpb.Capability_CAPABILITY_EXEC
	c04CB    = cpb.Capability_CAPABILITY_READ_SYSTEM_STATE
	c04Eval  = cpb.Capability_CAPABILITY_OPERATING_SYSTEM
	c04Decoy = cpb.Capability_CAPABILITY_MODIFY_SYSTEM_STATE
)

const c04Decls = `
type D struct{ n int }

func (D) Len() int           { lf.Len(); return 2 }
func (D) Less(i, j int) bool { lf.Less(); return true }
func (D) Swap(i, j int)      { lf.Swap() }

type PD struct{ n int }

func (*PD) Len() int           { lf.Len(); return 2 }
func (*PD) Less(i, j int) bool { lf.Less(); return true }
func (*PD) Swap(i, j int)      { lf.Swap() }

type SD []int

func (SD) Len() int           { lf.Len(); return 2 }
func (SD) Less(i, j int) bool { lf.Less(); return true }
func (SD) Swap(i, j int)      { lf.Swap() }

type GD[E any] struct{ e E }

func (GD[E]) Len() int           { lf.Len(); return 2 }
func (GD[E]) Less(i, j int) bool { lf.Less(); return true }
func (GD[E]) Swap(i, j int)      { lf.Swap() }

type ED struct{ D }

type EPD struct{ *PD }

type EI struct{ xsort.Interface }

type OD struct{ xsort.Interface }

func (OD) Less(i, j int) bool { lf.Less(); return true }

type AD = D

type W struct {
	d  D
	o  xsync.Once
	po *xsync.Once
	l  func(i, j int) bool
	f  func()
}

func (*W) get() D                 { lf.Eval(); return D{} }
func (*W) Reverse(d D) D          { lf.Eval(); return d }
func (*W) once() *xsync.Once      { lf.Eval(); return &xsync.Once{} }
func (W) less(i, j int) bool      { lf.CB(); return true }
func (*W) run()                   { lf.CB() }

type EO struct{ xsync.Once }
type EPO struct{ *xsync.Once }
type AO = xsync.Once

var (
	gd  D
	gw  W
	pw  = &gw
	gp  = &PD{}
	gds = []D{{}}
	gsd SD
	gm  = map[string]D{}
	gc  = make(chan D, 1)
	gi  xsort.Interface
	ga  any = D{}
	gs  []int
	go1 xsync.Once
	gos [3]xsync.Once
	gom map[string]*xsync.Once
	up  unsafe.Pointer
	fm  = map[string]func(){"a": lf.OnceFn}
	lm  = map[string]func(i, j int) bool{"a": lf.LessFn}
)

type LT func(i, j int) bool
type FT func()
type Lesser interface{ less(i, j int) bool }

func mkD() D                      { lf.Eval(); return D{} }
func mkI() xsort.Interface        { lf.Eval(); return D{} }
func mkS() []int                  { lf.Eval(); return nil }
func mkSS() [][]int               { lf.Eval(); return nil }
func mkW() *W                     { lf.Eval(); return pw }
func mkP() *[]int                 { lf.Eval(); return &gs }
func mkC() chan []int             { lf.Eval(); return nil }
func mkA() any                    { lf.Eval(); return gs }
func mkN() int                    { lf.Eval(); return 0 }
func mkO() *xsync.Once            { lf.Eval(); return &go1 }
func mkL() func(i, j int) bool    { lf.Eval(); return lf.LessFn }
func mkF() func()                 { lf.Eval(); return lf.OnceFn }
func less(i, j int) bool          { lf.CB(); return true }
func once()                       { lf.CB() }
func gless[E any](i, j int) bool  { lf.CB(); return true }
func gonce[E any]()               { lf.CB() }

// Unrelated code with other callbacks.
type Z struct{}

func (Z) Len() int           { lf.Decoy(); return 2 }
func (Z) Less(i, j int) bool { lf.Decoy(); return true }
func (Z) Swap(i, j int)      { lf.Decoy() }

func Unrelated(b bool) {
	xsort.Sort(Z{})
	xsort.Slice(gs, func(i, j int) bool { lf.Decoy(); return true })
	go1.Do(func() { lf.Decoy() })
	if b {
		defer xsort.Stable(Z{})
		defer xsort.SliceStable(gs, func(i, j int) bool { lf.Decoy(); return true })
		defer go1.Do(func() { lf.Decoy() })
	}
}
`

// operand of a call.
type operand struct {
	name, pre, expr string
	eval            []Class // capabilities of evaluating it
	plain           bool    // free of side effects, statically typed
	skip            string  // what the callback does is not required
}

var ev = []Class{c04Eval}

var c04Data = []operand{
	{name: "local", pre: "d := D{}; ", expr: "d", plain: true},
	{name: "pointer", pre: "d := D{}; ", expr: "&d", plain: true},
	{name: "pointer receiver", pre: "d := PD{}; ", expr: "&d", plain: true},
	{name: "global", expr: "gd", plain: true},
	{name: "global pointer", expr: "gp", plain: true},
	{name: "literal", expr: "D{}", plain: true},
	{name: "literal with fields", expr: "D{n: 1 + len(gs)}"},
	{name: "literal with call", expr: "D{n: mkN()}", eval: ev},
	{name: "address of literal", expr: "&PD{}", plain: true},
	{name: "converted", expr: "SD(gs)"},
	{name: "converted call", expr: "SD(mkS())", eval: ev},
	{name: "alias", pre: "var d AD; ", expr: "d", plain: true},
	{name: "parenthesised", expr: "(gd)", plain: true},
	{name: "field", expr: "gw.d", plain: true},
	{name: "field of pointer", expr: "pw.d", plain: true},
	{name: "field of call", expr: "mkW().d", eval: ev},
	{name: "element", expr: "gds[0]", plain: true},
	{name: "element at call", expr: "gds[mkN()]", eval: ev},
	{name: "map element", expr: "gm[\"a\"]", plain: true},
	{name: "dereferenced", pre: "p := &gd; ", expr: "*p", plain: true},
	{name: "slice", expr: "gsd[1:]", plain: true},
	{name: "slice at call", expr: "gsd[mkN():]", eval: ev},
	{name: "received", expr: "<-gc"},
	{name: "call", expr: "mkD()", eval: ev},
	{name: "interface call", expr: "mkI()", eval: ev},
	{name: "method call", expr: "pw.get()", eval: ev},
	{name: "closure call", expr: "func() D { lf.Eval(); return D{} }()", eval: ev},
	{name: "interface", pre: "var i xsort.Interface = D{}; ", expr: "i"},
	{name: "interface global", pre: "gi = D{}; ", expr: "gi"},
	{name: "asserted", expr: "ga.(xsort.Interface)"},
	{name: "asserted concrete", expr: "ga.(D)"},
	{name: "reversed", expr: "xsort.Reverse(gd)"},
	{name: "reversed earlier", pre: "r := xsort.Reverse(gd); ", expr: "r"},
	{name: "reversed by a method", expr: "pw.Reverse(gd)", eval: ev},
	{name: "reversed elsewhere", expr: "lf.Reverse(gd)", eval: ev},
	{name: "reversed call", expr: "xsort.Reverse(mkD())", eval: ev},
	{name: "reversed twice", expr: "xsort.Reverse(xsort.Reverse(gd))"},
	{name: "sorted elsewhere", expr: "lf.Sort(gd)", eval: ev},
	{name: "embedded", expr: "ED{}", plain: true},
	{name: "embedded pointer", pre: "e := EPD{gp}; ", expr: "e", plain: true},
	{name: "embedded interface", pre: "e := EI{D{}}; ", expr: "e"},
	{name: "override", pre: "e := OD{D{}}; ", expr: "e"},
	{name: "generic", pre: "g := GD[int]{}; ", expr: "g", plain: true},
	{name: "generic literal", expr: "GD[string]{}", plain: true},
	{name: "appended", expr: "append(gsd, mkN())", eval: ev},
	{name: "local type", pre: "type L struct{ D }; l := L{}; ", expr: "l"},
}

var c04X = []operand{
	{name: "variable", expr: "gs", plain: true},
	{name: "local", pre: "s := []int{2, 1}; ", expr: "s", plain: true},
	{name: "literal", expr: "[]int{2, 1}", plain: true},
	{name: "slice", expr: "gs[1:2:3]", plain: true},
	{name: "parenthesised", expr: "(gs)", plain: true},
	{name: "nil", expr: "nil"},
	{name: "call", expr: "mkS()", eval: ev},
	{name: "parenthesised call", expr: "(mkS())", eval: ev},
	{name: "slice of call", expr: "mkS()[1:]", eval: ev},
	{name: "slice at call", expr: "gs[mkN():]", eval: ev},
	{name: "slice to call", expr: "gs[:mkN()]", eval: ev},
	{name: "slice capped by call", expr: "gs[0:1:mkN()]", eval: ev},
	{name: "element of call", expr: "mkSS()[0]", eval: ev},
	{name: "element at call", expr: "[][]int{gs}[mkN()]", eval: ev},
	{name: "literal with call", expr: "[]int{1, mkN()}", eval: ev},
	{name: "keyed literal with call", expr: "[]int{0: mkN()}", eval: ev},
	{name: "nested literal with call", expr: "[][]int{{1}, {mkN()}}", eval: ev},
	{name: "map key call", expr: "[]map[int]int{{mkN(): 1}}", eval: ev},
	{name: "dereferenced call", expr: "*mkP()", eval: ev},
	{name: "received from call", expr: "<-mkC()", eval: ev},
	{name: "asserted call", expr: "mkA().([]int)", eval: ev},
	{name: "converted call", expr: "SD(mkS())", eval: ev},
	{name: "sum with call", expr: "gs[1+mkN():]", eval: ev},
	{name: "negated call", expr: "gs[-mkN():]", eval: ev},
	{name: "method call", expr: "[]D{pw.get()}", eval: ev},
	{name: "closure call", expr: "func() []int { lf.Eval(); return nil }()", eval: ev},
	{name: "address of literal with call", expr: "*&[]int{mkN()}", eval: ev},
	{name: "appended call", expr: "append(gs, mkN())", eval: ev},
	{name: "unsafe", expr: "(*[3]int)(up)[:]", eval: []Class{cpb.Capability_CAPABILITY_UNSAFE_POINTER}},
}

var c04LessCB = []operand{
	{name: "literal", expr: "func(i, j int) bool { lf.CB(); return true }", plain: true},
	{name: "function", expr: "less", plain: true},
	{name: "imported", expr: "lf.LessFn", plain: true},
	{name: "variable", pre: "l := less; ", expr: "l", plain: true},
	{name: "captured", pre: "l := less; ", expr: "func(i, j int) bool { return l(j, i) }", plain: true},
	{name: "method value", expr: "gw.less", plain: true},
	{name: "interface method value", pre: "var i Lesser = gw; ", expr: "i.less"},
	{name: "field", pre: "w := W{l: less}; ", expr: "w.l"},
	{name: "map element", expr: "lm[\"a\"]"},
	{name: "call", expr: "mkL()", eval: ev},
	{name: "parenthesised", expr: "(less)", plain: true},
	{name: "defined type", pre: "var l LT = less; ", expr: "l"},
	{name: "converted", expr: "LT(less)"},
	{name: "generic", expr: "gless[int]", plain: true},
	{name: "returned literal", expr: "func() func(i, j int) bool { lf.Eval(); return less }()", eval: ev},
}

var c04OnceCB = []operand{
	{name: "literal", expr: "func() { lf.CB() }", plain: true},
	{name: "function", expr: "once", plain: true},
	{name: "imported", expr: "lf.OnceFn", plain: true},
	{name: "variable", pre: "l := once; ", expr: "l", plain: true},
	{name: "captured", pre: "l := once; ", expr: "func() { l() }", plain: true},
	{name: "method value", expr: "pw.run", plain: true},
	{name: "field", pre: "w := W{f: once}; ", expr: "w.f"},
	{name: "map element", expr: "fm[\"a\"]"},
	{name: "call", expr: "mkF()", eval: ev},
	{name: "parenthesised", expr: "(once)", plain: true},
	{name: "defined type", pre: "var l FT = once; ", expr: "l"},
	{name: "converted", expr: "FT(once)"},
	{name: "generic", expr: "gonce[int]", plain: true},
	{name: "nested once", expr: "func() { gos[1].Do(once) }", plain: true},
	{name: "nested sort", expr: "func() { xsort.Slice(gs, less) }", plain: true},
}

// receivers; expr is the whole call up to the callback, which follows as CB).
var c04Recv = []operand{
	{name: "global", expr: "go1.Do(CB)", plain: true},
	{name: "local", pre: "var o xsync.Once; ", expr: "o.Do(CB)", plain: true},
	{name: "pointer", pre: "p := &go1; ", expr: "p.Do(CB)", plain: true},
	{name: "field", expr: "gw.o.Do(CB)", plain: true},
	{name: "field of pointer", expr: "pw.o.Do(CB)", plain: true},
	{name: "pointer field", expr: "pw.po.Do(CB)", plain: true},
	{name: "element", expr: "gos[0].Do(CB)", plain: true},
	{name: "map element", expr: "gom[\"a\"].Do(CB)", plain: true},
	{name: "parenthesised", expr: "(go1).Do(CB)", plain: true},
	{name: "address", expr: "(&go1).Do(CB)", plain: true},
	{name: "dereferenced", pre: "p := &go1; ", expr: "(*p).Do(CB)", plain: true},
	{name: "literal", expr: "(&xsync.Once{}).Do(CB)", plain: true},
	{name: "alias", pre: "var o AO; ", expr: "o.Do(CB)", plain: true},
	{name: "parenthesised method", expr: "(go1.Do)(CB)"},
	{name: "embedded", pre: "var o EO; ", expr: "o.Do(CB)"},
	{name: "embedded field", pre: "var o EO; ", expr: "o.Once.Do(CB)", plain: true},
	{name: "embedded pointer", pre: "o := EPO{&go1}; ", expr: "o.Do(CB)"},
	{name: "call", expr: "mkO().Do(CB)", eval: ev},
	{name: "parenthesised call", expr: "(mkO()).Do(CB)", eval: ev},
	{name: "method call", expr: "pw.once().Do(CB)", eval: ev},
	{name: "field of call", expr: "mkW().o.Do(CB)", eval: ev},
	{name: "pointer field of call", expr: "mkW().po.Do(CB)", eval: ev},
	{name: "element at call", expr: "gos[mkN()].Do(CB)", eval: ev},
	{name: "address of element at call", expr: "(&gos[mkN()]).Do(CB)", eval: ev},
	{name: "map element at call", expr: "gom[string(rune(mkN()))].Do(CB)", eval: ev},
	{name: "dereferenced call", expr: "(*mkO()).Do(CB)", eval: ev},
	{name: "closure call", expr: "func() *xsync.Once { lf.Eval(); return &go1 }().Do(CB)", eval: ev},
	{name: "literal with call", expr: "[]*xsync.Once{mkO()}[0].Do(CB)", eval: ev},
	{name: "struct literal with call", expr: "(&W{d: mkD()}).o.Do(CB)", eval: ev},
	{name: "slice at call", expr: "gos[mkN():][0].Do(CB)", eval: ev},
	{name: "asserted call", expr: "any(mkO()).(*xsync.Once).Do(CB)", eval: ev},
	{name: "received from call", expr: "(<-func() chan *xsync.Once { lf.Eval(); c := make(chan *xsync.Once, 1); c <- &go1; return c }()).Do(CB)", eval: ev},
	{name: "binary with call", expr: "gos[1+mkN()*2].Do(CB)", eval: ev},
	{name: "method expression", expr: "(*xsync.Once).Do(&go1, CB)"},
	{name: "method value", pre: "f := go1.Do; ", expr: "f(CB)"},
	{name: "interface", pre: "var d interface{ Do(func()) } = &go1; ", expr: "d.Do(CB)"},
}

// statement positions; STMT is the statement, CALL the call.
var c04Pos = []struct {
	name, src string
	plain     bool
	value     bool // uses the result
}{
	{"plain", "func F() { PRE STMT }", true, false},
	{"if body", "func F() { PRE if gs != nil { STMT } }", true, false},
	{"else body", "func F() { PRE if gs != nil { } else { STMT } }", true, false},
	{"for body", "func F() { PRE for range 3 { STMT } }", true, false},
	{"for init", "func F() { PRE for STMT; ; { break } }", false, false},
	{"for post", "func F() { PRE for k := 0; k < 1; STMT { k++ } }", false, false},
	{"if init", "func F() { PRE if STMT; gs != nil { } }", false, false},
	{"switch init", "func F() { PRE switch STMT; len(gs) { case 1: } }", false, false},
	{"type switch init", "func F() { PRE switch STMT; ga.(type) { case int: } }", false, false},
	{"case body", "func F() { PRE switch len(gs) { case 1: STMT } }", true, false},
	{"default body", "func F() { PRE switch { default: _ = 1; STMT } }", true, false},
	{"type switch body", "func F() { PRE switch ga.(type) { case int: STMT } }", true, false},
	{"select body", "func F() { PRE select { case <-gc: STMT } }", true, false},
	{"select default", "func F() { PRE select { case <-gc: default: STMT } }", true, false},
	{"labelled", "func F() { PRE\nL:\n\tSTMT\n\tif gs != nil { goto L } }", true, false},
	{"block", "func F() { PRE { { STMT } } }", true, false},
	{"last of several", "func F() { PRE gs = nil; gs = gs[:0]; STMT; gs = nil }", true, false},
	{"after return", "func F() { PRE if gs != nil { return }; STMT }", true, false},
	{"twice", "func F() { PRE STMT; STMT }", true, false},
	{"closure", "func F() { PRE func() { STMT }() }", true, false},
	{"deferred closure", "func F() { PRE defer func() { STMT }() }", true, false},
	{"go closure", "func F() { PRE go func() { STMT }() }", true, false},
	{"closure value", "func F() { PRE fv := func() { STMT }; fv() }", true, false},
	{"closure argument", "func call(f func()) { f() }\nfunc F() { PRE call(func() { STMT }) }", true, false},
	{"callee", "func g() { PRE STMT }\nfunc F() { g() }", true, false},
	{"method", "type T struct{}\nfunc (*T) m() { PRE STMT }\nfunc F() { new(T).m() }", true, false},
	{"generic function", "func g[T any](t T) { PRE STMT }\nfunc F() { g(1) }", true, false},
	{"generic method", "type T[E any] struct{}\nfunc (T[E]) m() { PRE STMT }\nfunc F() { T[int]{}.m() }", true, false},
	{"variable initialiser", "var V = func() int { PRE STMT; return 1 }", true, false},
	{"range over function body", "func seq(y func(int) bool) { y(1) }\nfunc F() { PRE for range seq { STMT } }", true, false},
	{"parenthesised", "func F() { PRE (CALL) }", false, false},
	{"defer", "func F() { PRE defer CALL }", false, false},
	{"go", "func F() { PRE go CALL }", false, false},
	{"assigned", "func F() { PRE _ = CALL }", false, true},
	{"declared", "func F() { PRE x := CALL; _ = x }", false, true},
	{"condition", "func F() { PRE if CALL { gs = nil } }", false, true},
	{"returned", "func F() bool { PRE return CALL }", false, true},
	{"for condition", "func F() { PRE for !CALL { } }", false, true},
	{"operand", "func F() { PRE if gs != nil && CALL { gs = nil } }", false, true},
	{"sent", "func F() { PRE c := make(chan bool, 1); c <- CALL }", false, true},
}

var c04Imports = []struct {
	name, sort, sync, decl string
	plain                  bool
}{
	{"plain", "sort", "sync", "import (\n\t\"sort\"\n\t\"sync\"\n)", true},
	{"renamed", "so", "sy", "import (\n\tso \"sort\"\n\tsy \"sync\"\n)", true},
	{"dot", "", "", "import (\n\t. \"sort\"\n\t. \"sync\"\n)", false},
	{"misleading", "sync", "sort", "import (\n\tsort \"sync\"\n\tsync \"sort\"\n)", true},
}

// c04Call analyses a call at a position.
func c04Call(t *mc.T, imp int, pos int, pre, call string, need, allow []Class, plain bool) {
	ps := c04Pos[pos]
	src := strings.NewReplacer("PRE", pre, "STMT", call, "CALL", call).Replace(ps.src)
	c04Source(t, imp, src, need, allow, plain && ps.plain)
}

// c04Source analyses declarations and checks the capabilities of F.
func c04Source(t *mc.T, imp int, src string, need, allow []Class, plain bool) {
	im := c04Imports[imp]
	body := c04Decls + "\n" + src + "\n"
	if strings.Contains(src, "var V = func()") {
		body += "func F() { V() }\n"
	}
	qual := func(s, w, q string) string {
		if q == "" {
			return strings.ReplaceAll(s, w+".", "")
		}
		return strings.ReplaceAll(s, w+".", q+".")
	}
	body = qual(qual(body, "xsort", im.sort), "xsync", im.sync)
	c := &srcCase{pkgs: []syn.Pkg{syn.One("sort", c04Sort), syn.One("sync", c04Sync), syn.One("example.com/lf", c04Leaf),
		syn.One("example.com/p", "package p\n\n"+im.decl+"\n\nimport (\n\t\"unsafe\"\n\n\t\"example.com/lf\"\n)\n"+body)},
		query: []string{"example.com/p"}, cm: c04Map, builtin: true}
	got := c.analyse(t)
	cs := got["example.com/p.F"]
	un := oneOf(capUnan, cs)
	for _, n := range need {
		if !oneOf(n, cs) && !un {
			t.Fail("F is not reported with %v and not as unanalyzable: %v", n, cs)
		}
	}
	for _, g := range cs {
		if !oneOf(g, need) && !oneOf(g, allow) && g != capUnan {
			t.Fail("F is wrongly reported with %v", g)
		}
	}
	if un && plain && im.plain {
		t.Fail("F is reported as unanalyzable")
	}
	if t.Failed() {
		t.Detail(showCaps(got))
		c.describe(t)
	}
	t.State(int64(len(got)), 1)
	t.Outcome(fmt.Sprint(cs, plain))
}

var c04Lookalikes = []struct {
	name, src string
	want      []Class
}{
	{"other package named sort", "import \"example.com/sort\"\nfunc F() { sort.Sort(D{}) }\ntype D struct{}\nfunc (D) Len() int { lf.Len(); return 0 }\nfunc (D) Less(i, j int) bool { lf.Less(); return true }\nfunc (D) Swap(i, j int) { lf.Swap() }", []Class{c04Eval}},
	{"other Slice", "import \"example.com/sort\"\nfunc F() { sort.Slice(nil, func(i, j int) bool { lf.Less(); return true }) }", []Class{c04Eval}},
	{"shadowed package", "import \"sort\"\nvar _ = sort.Sort\ntype s struct{}\nfunc (s) Sort(any) { lf.Eval() }\nfunc F() { sort := s{}; sort.Sort(1) }", []Class{c04Eval}},
	{"shadowed Slice", "import \"sort\"\nvar _ = sort.Sort\ntype s struct{ Slice func(any, func(i, j int) bool) }\nfunc F() { sort := s{func(any, func(i, j int) bool) { lf.Eval() }}; sort.Slice(1, func(i, j int) bool { lf.Less(); return true }) }", []Class{c04Eval}},
	{"own Once", "type Once struct{}\nfunc (*Once) Do(f func()) { lf.Eval() }\nfunc F() { var o Once; o.Do(func() { lf.CB() }) }", []Class{c04Eval}},
	{"own Once that calls", "type Once struct{}\nfunc (*Once) Do(f func()) { f() }\nfunc F() { var o Once; o.Do(func() { lf.CB() }) }", []Class{c04CB}},
	{"other method of embedding type", "import \"sync\"\ntype T struct{ sync.Once }\nfunc (*T) Do(f func()) { lf.Eval() }\nfunc F() { var o T; o.Do(func() { lf.CB() }) }", []Class{c04Eval}},
	{"field named Do", "type T struct{ Do func(func()) }\nfunc F() { o := T{func(func()) { lf.Eval() }}; o.Do(func() { lf.CB() }) }", []Class{c04Eval}},
	{"other package named sync", "import \"example.com/sync\"\nfunc F() { var o sync.Once; o.Do(func() { lf.CB() }) }", []Class{c04Eval}},
	{"function named Sort", "func Sort(x any) { lf.Eval() }\nfunc F() { Sort(1) }", []Class{c04Eval}},
	{"defined Once", "import \"sync\"\ntype Once sync.Once\nfunc (*Once) Do(func()) { lf.Eval() }\nfunc F() { var o Once; o.Do(func() { lf.CB() }) }", []Class{c04Eval}},
	{"methods only", "type D struct{}\nfunc (D) Len() int { lf.Len(); return 0 }\nfunc (D) Less(i, j int) bool { lf.Less(); return true }\nfunc (D) Swap(i, j int) { lf.Swap() }\nfunc F() { D{}.Less(0, 1) }", []Class{c04Less}},
	{"generic interface operand", "import \"sort\"\nfunc S[T sort.Interface](x T) { x.Less(0, 1) }\nfunc F() { S(D{}) }\ntype D struct{}\nfunc (D) Len() int { lf.Len(); return 0 }\nfunc (D) Less(i, j int) bool { lf.Less(); return true }\nfunc (D) Swap(i, j int) { lf.Swap() }", []Class{c04Less}},
}

// near reports whether at most two choices differ from the first; the
// thorough tier has no such bound.
func near(tier string, choices ...int) bool {
	n := 0
	for _, c := range choices {
		if c != 0 {
			n++
		}
	}
	return tier == "thorough" || n <= 2
}

func init() {
	join := func(a ...[]Class) []Class {
		var o []Class
		for _, x := range a {
			o = append(o, x...)
		}
		return o
	}
	sorts := mc.Engine{Name: "sort.Interface", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, fn := range []string{"Sort", "Stable", "IsSorted"} {
			for k, d := range c04Data {
				for p := range c04Pos {
					for i := range c04Imports {
						for v := 0; v < 3; v++ {
							if !near(tier, k, p, i, v) {
								continue
							}
							yield(func() string {
								return fmt.Sprintf("%s(%s) at %s import %s form %d", fn, d.name, c04Pos[p].name, c04Imports[i].name, v)
							}, func(t *mc.T) {
								need, allow := []Class{c04Less, c04Len, c04Swap}, []Class(nil)
								if fn == "IsSorted" {
									need, allow = need[:2], need[2:]
								}
								call, pre := "xsort."+fn+"("+d.expr+")", d.pre
								switch v {
								case 1:
									call = "(xsort." + fn + ")(" + d.expr + ")"
								case 2:
									pre += "ff := xsort." + fn + "; "
									call = "ff(" + d.expr + ")"
								}
								if c04Pos[p].value && (fn != "IsSorted" || v > 0) {
									return
								}
								c04Call(t, i, p, pre, call, join(need, d.eval), allow, d.plain && v == 0)
							})
						}
					}
				}
			}
		}
	}}
	generic := mc.Engine{Name: "type parameter operands", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, fn := range []string{"Sort", "Stable", "IsSorted"} {
			for k, decl := range []string{
				"func S[T xsort.Interface](x T) { xsort.FN(x) }\nfunc F() { S(D{}) }",
				"func S[T xsort.Interface](x T) { xsort.FN(x) }\nfunc F() { S(&PD{}) }",
				"func S[T xsort.Interface](x T) { xsort.FN(x) }\nfunc F() { S[xsort.Interface](D{}) }",
				"type B[T xsort.Interface] struct { x T }\nfunc (b B[T]) S() { xsort.FN(b.x) }\nfunc F() { B[D]{}.S() }",
				"func S[T interface { *E; xsort.Interface }, E any]() { var e E; xsort.FN(T(&e)) }\nfunc F() { S[*PD]() }",
				"func S[E any](g GD[E]) { xsort.FN(g) }\nfunc F() { S(GD[int]{}) }",
				"func S[T ~[]int](x T) { xsort.FN(SD(x)) }\nfunc F() { S([]int{1}) }",
				"func S[T any](x T) { xsort.FN(any(x).(xsort.Interface)) }\nfunc F() { S(D{}) }",
			} {
				for i := range c04Imports {
					yield(func() string { return fmt.Sprintf("%s form %d import %s", fn, k, c04Imports[i].name) }, func(t *mc.T) {
						need, allow := []Class{c04Less, c04Len, c04Swap}, []Class(nil)
						if fn == "IsSorted" {
							need, allow = need[:2], need[2:]
						}
						c04Source(t, i, strings.ReplaceAll(decl, "FN", fn), need, allow, false)
					})
				}
			}
		}
	}}
	slices := mc.Engine{Name: "sort.Slice", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, fn := range []string{"Slice", "SliceStable", "SliceIsSorted"} {
			for k, x := range c04X {
				for l, cb := range c04LessCB {
					for p := range c04Pos {
						for i := range c04Imports {
							if !near(tier, k, l, p, i) {
								continue
							}
							if strings.Contains(x.pre, "s :=") && strings.Contains(cb.pre, "s :=") {
								continue
							}
							yield(func() string {
								return fmt.Sprintf("%s(%s, %s) at %s import %s", fn, x.name, cb.name, c04Pos[p].name, c04Imports[i].name)
							}, func(t *mc.T) {
								if c04Pos[p].value && fn != "SliceIsSorted" {
									return
								}
								c04Call(t, i, p, x.pre+cb.pre, "xsort."+fn+"("+x.expr+", "+cb.expr+")", join([]Class{c04CB}, x.eval, cb.eval), nil,
									x.plain && cb.plain && fn != "SliceIsSorted")
							})
						}
					}
				}
			}
		}
	}}
	onces := mc.Engine{Name: "sync.Once", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for k, r := range c04Recv {
			for l, cb := range c04OnceCB {
				for p := range c04Pos {
					if c04Pos[p].value {
						continue
					}
					for i := range c04Imports {
						if !near(tier, k, l, p, i) {
							continue
						}
						yield(func() string {
							return fmt.Sprintf("%s do %s at %s import %s", r.name, cb.name, c04Pos[p].name, c04Imports[i].name)
						}, func(t *mc.T) {
							c04Call(t, i, p, r.pre+cb.pre, strings.ReplaceAll(r.expr, "CB", cb.expr), join([]Class{c04CB}, r.eval, cb.eval), nil, r.plain && cb.plain)
						})
					}
				}
			}
		}
	}}
	looks := mc.Engine{Name: "lookalikes", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, l := range c04Lookalikes {
			yield(func() string { return l.name }, func(t *mc.T) {
				imp, rest := "", l.src
				if strings.HasPrefix(rest, "import") {
					k := strings.Index(rest, "\n")
					imp, rest = rest[:k+1], rest[k+1:]
				}
				c := &srcCase{pkgs: []syn.Pkg{syn.One("sort", c04Sort), syn.One("sync", c04Sync), syn.One("example.com/lf", c04Leaf),
					syn.One("example.com/sort", "package sort\n\nimport \"example.com/lf\"\n\nfunc Sort(any) { lf.Eval() }\nfunc Slice(any, func(i, j int) bool) { lf.Eval() }\n"),
					syn.One("example.com/sync", "package sync\n\nimport \"example.com/lf\"\n\ntype Once struct{}\n\nfunc (*Once) Do(func()) { lf.Eval() }\n"),
					syn.One("example.com/p", "package p\n\nimport \"example.com/lf\"\n"+imp+"\n"+rest+"\n")},
					query: []string{"example.com/p"}, cm: c04Map, builtin: true}
				got := c.analyse(t)
				if fmt.Sprint(got["example.com/p.F"]) != fmt.Sprint(l.want) {
					t.Fail("F is reported with %v, want %v", got["example.com/p.F"], l.want)
					c.describe(t)
				}
				t.State(int64(len(got)), 1)
				t.Outcome(fmt.Sprint(got["example.com/p.F"], l.name))
			})
		}
	}}
	mc.Register(&mc.Check{Prop: "C04", Level: "model_checking",
		Bounds:  fmt.Sprintf("(quick: combinations with at most two choices off the plainest; thorough: all) 3 sort functions x %d operands x %d positions x %d import styles x 3 spellings; 3 slice functions x %d operands x %d callbacks x positions x imports; %d once receivers x %d callbacks x positions x imports; %d lookalikes", len(c04Data), len(c04Pos), len(c04Imports), len(c04X), len(c04LessCB), len(c04Recv), len(c04OnceCB), len(c04Lookalikes)),
		Assume:  append([]string{"the sort and sync packages are small stand-ins with the standard signatures"}, graphAssume[:1]...),
		Engines: []mc.Engine{looks, generic, sorts, slices, onces}})
}
