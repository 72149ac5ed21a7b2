package checks

import (
	"fmt"
	"strings"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C05: every conversion out of an unsafe pointer is reported.

// position of an expression in a package.
type position struct {
	name string
	// src has one EXPR placeholder; X is replaced by a unique number.
	src string
	// own lists the functions that contain the expression; callers the ones
	// that call them.
	own, callers []string
	// always lists functions reported whatever the expression is.
	always []string
	// generic positions have a type parameter T in scope.
	generic bool
	// inInit positions are evaluated in the package initialiser.
	inInit bool
}

// P stands for the package path.
var positions = []position{
	{name: "body", src: "func FX() { sink(EXPR) }", own: []string{"P.FX"}},
	{name: "called", src: "func FX() { hX() }\nfunc hX() { sink(EXPR) }", own: []string{"P.hX"}, callers: []string{"P.FX"}},
	{name: "deep", src: "func FX() { gX() }\nfunc gX() { hX() }\nfunc hX() { sink(EXPR) }", own: []string{"P.hX"}, callers: []string{"P.FX", "P.gX"}},
	{name: "method", src: "type TX struct{}\nfunc (TX) M() { sink(EXPR) }\nfunc FX() { TX{}.M() }", own: []string{"(P.TX).M"}, callers: []string{"P.FX"}},
	{name: "pointer method", src: "type TX struct{}\nfunc (*TX) M() { sink(EXPR) }\nfunc FX() { new(TX).M() }", own: []string{"(*P.TX).M"}, callers: []string{"P.FX"}},
	{name: "unexported type", src: "type tX struct{}\nfunc (tX) m() { sink(EXPR) }\nfunc FX() { tX{}.m() }", own: []string{"(P.tX).m"}, callers: []string{"P.FX"}},
	{name: "closure", src: "func FX() { f := func() { sink(EXPR) }; f() }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "second closure", src: "func FX() { g := func() {}; f := func() { sink(EXPR) }; f(); g() }", own: []string{"P.FX$2"}, callers: []string{"P.FX"}},
	{name: "uncalled closure", src: "var VX func()\nfunc FX() { VX = func() { sink(EXPR) } }", own: []string{"P.FX$1"}},
	{name: "nested closure", src: "func FX() { func() { func() { sink(EXPR) }() }() }", own: []string{"P.FX$1$1"}, callers: []string{"P.FX$1", "P.FX"}},
	{name: "closure result", src: "func FX() any { return func() any { return EXPR }() }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "outside closure", src: "func FX() { f := func() {}; sink(EXPR); f() }", own: []string{"P.FX"}},
	{name: "around closure", src: "func FX() { sink(func() any { return 0 }, EXPR) }", own: []string{"P.FX"}},
	{name: "method closure", src: "type TX struct{}\nfunc (TX) M() { defer func() { sink(EXPR) }() }", own: []string{"(P.TX).M$1"}, callers: []string{"(P.TX).M"}},
	{name: "generic", src: "func GX[T any]() { sink(EXPR) }\nfunc FX() { GX[int]() }", own: []string{"P.GX"}, callers: []string{"P.FX"}, generic: true},
	{name: "generic twice", src: "func GX[T any]() { sink(EXPR) }\nfunc FX() { GX[int](); GX[string]() }\nfunc EX() { GX[byte]() }", own: []string{"P.GX"}, callers: []string{"P.FX", "P.EX"}, generic: true},
	{name: "generic nested", src: "func GX[T any]() { HX[T]() }\nfunc HX[T any]() { sink(EXPR) }\nfunc FX() { GX[int]() }", own: []string{"P.HX"}, callers: []string{"P.FX", "P.GX"}, generic: true},
	{name: "generic method", src: "type TX[T any] struct{}\nfunc (TX[T]) M() { sink(EXPR) }\nfunc FX() { TX[int]{}.M() }", callers: []string{"P.FX"}, generic: true},
	{name: "generic closure", src: "func GX[T any]() { func() { sink(EXPR) }() }\nfunc FX() { GX[int]() }", own: []string{"P.GX$1"}, callers: []string{"P.GX", "P.FX"}, generic: true},
	{name: "init func", src: "func init() { sink(EXPR) }", own: []string{"P.init#1"}, callers: []string{"P.init"}},
	{name: "package variable", src: "var VX any = EXPR", own: []string{"P.init"}, inInit: true},
	{name: "blank variable", src: "var _ any = EXPR", own: []string{"P.init"}, inInit: true},
	{name: "grouped variables", src: "var (\n\taX = 1\n\tbX, cX any = aX, EXPR\n)", own: []string{"P.init"}, inInit: true},
	{name: "variable closure", src: "var VX = func() any { return EXPR }\nfunc FX() { VX() }", own: []string{"P.init$1"}, callers: []string{"P.FX"}, inInit: true},
	{name: "variable closure called", src: "var VX = func() any { return EXPR }()", own: []string{"P.init$1"}, callers: []string{"P.init"}, inInit: true},
	{name: "dead branch", src: "func FX() { if false { sink(EXPR) } }", own: []string{"P.FX"}},
	{name: "after return", src: "func FX() { return; sink(EXPR) }", own: []string{"P.FX"}},
	{name: "after panic", src: "func FX() { panic(0); sink(EXPR) }", own: []string{"P.FX"}},
	{name: "condition", src: "func FX() { if id(EXPR) == nil { return } }", own: []string{"P.FX"}},
	{name: "if init", src: "func FX() { if y := id(EXPR); y == nil { return } }", own: []string{"P.FX"}},
	{name: "else", src: "func FX() { if p == nil { } else { sink(EXPR) } }", own: []string{"P.FX"}},
	{name: "for init", src: "func FX() { for y := id(EXPR); y == nil; { } }", own: []string{"P.FX"}},
	{name: "for post", src: "func FX() { for i := 0; i < 1; sink(EXPR) { i++ } }", own: []string{"P.FX"}},
	{name: "range", src: "func FX() { for range []any{EXPR} { } }", own: []string{"P.FX"}},
	{name: "range body", src: "func FX() { for range 3 { sink(EXPR) } }", own: []string{"P.FX"}},
	{name: "switch tag", src: "func FX() { switch id(EXPR) { case nil: } }", own: []string{"P.FX"}},
	{name: "case", src: "func FX() { switch id(p) { case id(EXPR): } }", own: []string{"P.FX"}},
	{name: "case body", src: "func FX() { switch { default: sink(EXPR) } }", own: []string{"P.FX"}},
	{name: "type switch", src: "func FX() { switch id(EXPR).(type) { case int: } }", own: []string{"P.FX"}},
	{name: "select", src: "var cX chan any\nfunc FX() { select { case cX <- EXPR: default: } }", own: []string{"P.FX"}},
	{name: "send", src: "var cX = make(chan any, 1)\nfunc FX() { cX <- EXPR }", own: []string{"P.FX"}},
	{name: "defer", src: "func FX() { defer sink(EXPR) }", own: []string{"P.FX"}},
	{name: "go", src: "func FX() { go sink(EXPR) }", own: []string{"P.FX"}},
	{name: "return", src: "func FX() any { return EXPR }", own: []string{"P.FX"}},
	{name: "labelled", src: "func FX() { L: for { sink(EXPR); break L } }", own: []string{"P.FX"}},
	{name: "block", src: "func FX() { { { sink(EXPR) } } }", own: []string{"P.FX"}},
	{name: "assign", src: "func FX() { var y any; y = EXPR; _ = y }", own: []string{"P.FX"}},
	{name: "blank assign", src: "func FX() { _ = EXPR }", own: []string{"P.FX"}},
	{name: "declaration", src: "func FX() { var y = EXPR; _ = y }", own: []string{"P.FX"}},
	{name: "index", src: "func FX() { m := map[any]int{}; m[EXPR] = 1 }", own: []string{"P.FX"}},
	{name: "closure inside conversion", src: "func FX() { sink(uintptr(func() unsafe.Pointer { sink(EXPR); return p }())) }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "argument of conversion", src: "func FX() { sink(any(id(EXPR))) }", own: []string{"P.FX"}},
	{name: "later file scope function", src: "func hX() {}\nfunc FX() { hX(); sink(EXPR); hX() }", own: []string{"P.FX"}},
	{name: "closure then body", src: "func FX() { func() { sink(1) }(); func() { sink(2) }(); sink(EXPR) }", own: []string{"P.FX"}},
	{name: "local type method set", src: "type iX interface{ M() }\ntype TX struct{}\nfunc (TX) M() { sink(EXPR) }\nfunc FX() { var i iX = TX{}; i.M() }", own: []string{"(P.TX).M"}, callers: []string{"P.FX"}},
	{name: "goroutine closure", src: "func FX() { go func() { sink(EXPR) }() }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "struct of functions", src: "type sX struct{ f func() any }\nvar VX = sX{func() any { return EXPR }}\nfunc FX() { VX.f() }", own: []string{"P.init$1"}, callers: []string{"P.FX"}, inInit: true},
	{name: "closure inside reported conversion", src: "func FX() { sink((*int)(func() unsafe.Pointer { sink(EXPR); return p }())) }", own: []string{"P.FX$1"}, always: []string{"P.FX"}},
	{name: "closure inside nested conversions", src: "func FX() { sink((*byte)(unsafe.Pointer((*int)(func() unsafe.Pointer { sink(EXPR); return p }())))) }", own: []string{"P.FX$1"}, always: []string{"P.FX"}},
	{name: "closure beside conversion", src: "func FX() { sink((*int)(p), func() { sink(EXPR) }) }", own: []string{"P.FX$1"}, always: []string{"P.FX"}},
	{name: "closure around closure", src: "func FX() { func() { sink((*int)(p)); func() { sink(EXPR) }() }() }", own: []string{"P.FX$1$1"}, always: []string{"P.FX", "P.FX$1"}},
	{name: "conversion after closures", src: "func FX() { func() { sink((*int)(p)) }(); func() { sink(EXPR) }() }", own: []string{"P.FX$2"}, always: []string{"P.FX", "P.FX$1"}},
	{name: "closure inside initialiser's conversion", src: "var VX = (*int)(func() unsafe.Pointer { sink(EXPR); return p }())", own: []string{"P.init$1"}, always: []string{"P.init"}, inInit: true},
	{name: "closure with parameters", src: "func FX() { f := func(a int, b ...string) { sink(EXPR) }; f(1) }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "closure with result", src: "func FX() { f := func() (r any) { r = EXPR; return }; f() }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "closure that captures", src: "func FX() { a, b, c := 1, 2, 3; f := func() { a, b, c = b, c, a; sink(EXPR) }; f() }", own: []string{"P.FX$1"}, callers: []string{"P.FX"}},
	{name: "deeply nested closure", src: "func FX() { func() { func() { func() { func() { sink(EXPR) }() }() }() }() }", own: []string{"P.FX$1$1$1$1"}, callers: []string{"P.FX", "P.FX$1", "P.FX$1$1", "P.FX$1$1$1"}},
	{name: "fourth closure", src: "func FX() { sink(func() {}, func() {}, func() {}); func() { sink(EXPR) }() }", own: []string{"P.FX$4"}, callers: []string{"P.FX"}},
	{name: "parameters and results", src: "func FX(a int, b ...string) (c any, d error) { c = EXPR; return }", own: []string{"P.FX"}},
	{name: "second init func", src: "func init() {}\nfunc init() { sink(EXPR) }", own: []string{"P.init#2"}, callers: []string{"P.init"}},
	{name: "blank function's neighbour", src: "func _() {}\nfunc FX() { sink(EXPR) }", own: []string{"P.FX"}},
	{name: "unnamed receiver", src: "type TX int\nfunc (*TX) M(int) { sink(EXPR) }", own: []string{"(*P.TX).M"}},
	{name: "two type parameters", src: "func GX[T, U any](t T, u U) { sink(EXPR) }\nfunc FX() { GX(1, \"\") }", own: []string{"P.GX"}, callers: []string{"P.FX"}, generic: true},
	{name: "deferred closure argument", src: "func FX() { defer func(y any) { }(EXPR) }", own: []string{"P.FX"}},
}

type convExpr struct {
	name, expr string
	unsafe     bool
	generic    bool // needs T in scope
}

const c05Decls = `
var p unsafe.Pointer

type NP unsafe.Pointer

type AP = unsafe.Pointer

type ANP = NP

type NNP NP

type UP uintptr

type AU = uintptr

type IP *int

type S struct{ q unsafe.Pointer; n NP }

var s S
var np NP
var ap AP
var anp ANP
var nnp NNP
var x int
var ps []unsafe.Pointer

type BE[E any] struct{ e E }

type AI = *int

type ES struct{ S }

var es ES
var sp = &s
var cp chan unsafe.Pointer
var pp = &p
var mp map[string]unsafe.Pointer
var qs [3]NP
var ip any
var fp = get

func (S) get() unsafe.Pointer { return p }
func same[E any](e E) E { return e }
func pass(i *int) unsafe.Pointer { return p }
func sink(...any) {}
func id(a any) any { return a }
func use(unsafe.Pointer) int { return 0 }
func get() unsafe.Pointer { return p }
`

var convExprs = []convExpr{
	{"pointer", "(*int)(p)", true, false},
	{"struct pointer", "(*S)(p)", true, false},
	{"named pointer", "IP(p)", true, false},
	{"pointer to pointer", "(**int)(p)", true, false},
	{"array pointer", "(*[4]byte)(p)", true, false},
	{"func pointer", "(*func())(p)", true, false},
	{"dereferenced", "*(*int)(p)", true, false},
	{"field of", "(*S)(p).q", true, false},
	{"from nil", "(*int)(unsafe.Pointer(nil))", true, false},
	{"round trip", "(*int)(unsafe.Pointer(&x))", true, false},
	{"via integer", "(*int)(unsafe.Pointer(uintptr(p) + 8))", true, false},
	{"named source", "(*int)(np)", true, false},
	{"alias source", "(*int)(ap)", true, false},
	{"alias of named", "(*int)(anp)", true, false},
	{"named twice", "(*int)(nnp)", true, false},
	{"imported type", "(*int)(other.V)", true, false},
	{"field source", "(*int)(s.q)", true, false},
	{"named field source", "(*int)(s.n)", true, false},
	{"element source", "(*int)(ps[0])", true, false},
	{"call source", "(*int)(get())", true, false},
	{"to named", "NP(p)", true, false},
	{"from named to unsafe", "unsafe.Pointer(np)", true, false},
	{"to interface", "any(p)", true, false},
	{"parenthesised", "((*int))((p))", true, false},
	{"unsafe.Add", "(*int)(unsafe.Add(p, 4))", true, false},
	{"slice of", "unsafe.Slice((*byte)(p), 3)", true, false},
	{"double", "(*byte)(unsafe.Pointer((*int)(p)))", true, false},
	{"type parameter", "(*T)(p)", true, true},
	{"type parameter slice", "(*[]T)(unsafe.Pointer(&x))", true, true},
	{"composite", "[]any{1, (*int)(p)}", true, false},
	{"map value", "map[string]*int{\"a\": (*int)(p)}", true, false},
	{"struct value", "struct{ a *int }{(*int)(p)}", true, false},
	{"comparison", "(*int)(p) == nil", true, false},
	{"logical", "p != nil && *(*bool)(p)", true, false},
	{"argument", "use(unsafe.Pointer((*int)(p)))", true, false},
	{"asserted", "any((*int)(p)).(any)", true, false},
	{"slicing", "(*[4]byte)(p)[:2]", true, false},
	{"address of", "&(*S)(p).q", true, false},
	{"received source", "(*int)(<-cp)", true, false},
	{"dereferenced source", "(*int)(*pp)", true, false},
	{"map source", "(*int)(mp[\"a\"])", true, false},
	{"array source", "(*int)(qs[1])", true, false},
	{"asserted source", "(*int)(ip.(unsafe.Pointer))", true, false},
	{"parenthesised source", "(*int)(((p)))", true, false},
	{"method source", "(*int)(s.get())", true, false},
	{"method value source", "(*int)((s.get)())", true, false},
	{"function variable source", "(*int)(fp())", true, false},
	{"generic source", "(*int)(same(p))", true, false},
	{"converted in place", "(*int)(unsafe.Pointer(ps[0]))", true, false},
	{"embedded source", "(*int)(es.q)", true, false},
	{"pointer field source", "(*int)(sp.n)", true, false},
	{"inside integer", "uintptr(unsafe.Pointer((*int)(p)))", true, false},
	{"inside create", "unsafe.Pointer((*int)(p))", true, false},
	{"inside call", "uintptr(pass((*int)(p)))", true, false},
	{"inside ordinary conversion", "int64(*(*int)(p))", true, false},
	{"inside index", "ps[*(*int)(p)]", true, false},
	{"inside builtin", "len((*[4]byte)(p))", true, false},
	{"inside unsafe builtin", "unsafe.Sizeof(*(*int)(p))", true, false},
	{"chan pointer", "(*chan int)(p)", true, false},
	{"interface pointer", "(*any)(p)", true, false},
	{"generic target", "(*BE[int])(p)", true, false},
	{"alias target", "AI(p)", true, false},
	{"pointer to unsafe", "(*unsafe.Pointer)(p)", true, false},
	{"pointer to integer", "(*uintptr)(p)", true, false},
	{"map pointer", "(*map[string][]int)(p)", true, false},
	{"slice pointer", "(*[]int)(p)", true, false},
	{"string pointer", "(*string)(p)", true, false},
	{"bool pointer", "(*bool)(p)", true, false},
	{"complex pointer", "(*complex128)(p)", true, false},
	{"empty struct pointer", "(*struct{})(p)", true, false},
	{"literal struct pointer", "(*struct{ a int; b string })(p)", true, false},
	{"empty array pointer", "(*[0]byte)(p)", true, false},
	{"large array pointer", "(*[1 << 30]byte)(p)[:1:1]", true, false},
	{"method interface pointer", "(*interface{ M() })(p)", true, false},
	{"error pointer", "(*error)(p)", true, false},
	{"named unsafe pointer", "(*NP)(p)", true, false},
	{"triple pointer", "(***int)(p)", true, false},
	{"function with results", "(*func(int) (string, error))(p)", true, false},
	{"receive-only channel", "(*<-chan int)(p)", true, false},
	{"imported target", "(*other.S)(p)", true, false},
	{"same type", "unsafe.Pointer(p)", true, false},
	{"to interface with type", "interface{}(np)", true, false},
	{"anonymous pointer chain", "*(**S)(unsafe.Pointer(&sp))", true, false},
	// harmless
	{"create", "unsafe.Pointer(&x)", false, false},
	{"to integer", "uintptr(p)", false, false},
	{"to named integer", "UP(p)", false, false},
	{"to alias integer", "AU(p)", false, false},
	{"named to integer", "uintptr(np)", false, false},
	{"compare", "p == nil", false, false},
	{"call", "use(p)", false, false},
	{"add", "unsafe.Add(p, 1)", false, false},
	{"read", "s.q", false, false},
	{"size", "unsafe.Sizeof(p) + unsafe.Offsetof(s.n)", false, false},
	{"integer back", "unsafe.Pointer(uintptr(p))", false, false},
	{"ordinary conversion", "int64(x)", false, false},
	{"ordinary pointer", "(*int)(nil)", false, false},
	{"named from pointer", "NP(&x)", false, false},
	{"string data", "unsafe.StringData(\"a\")", false, false},
	{"address", "&p", false, false},
	{"literal", "S{q: p}", false, false},
	{"func", "func(q unsafe.Pointer) {}", false, false},
	{"integer arithmetic", "uintptr(unsafe.Pointer(uintptr(p) + 1))", false, false},
	{"integer of integer", "uintptr(uintptr(p))", false, false},
	{"pass", "uintptr(pass(&x))", false, false},
	{"same", "same(p)", false, false},
	{"switch to", "ip.(unsafe.Pointer)", false, false},
	{"create alias", "AP(&x)", false, false},
	{"new", "new(unsafe.Pointer)", false, false},
	{"create from integer", "NP(uintptr(3))", false, false},
}

// c05Elsewhere are expressions of packages that do not import unsafe.
var c05Elsewhere = []convExpr{
	{"pointer", "(*int)(other.P)", true, false},
	{"named", "(*int)(other.V)", true, false},
	{"field", "(*int)(other.W.Q)", true, false},
	{"call", "(*int)(other.Get())", true, false},
	{"local", "(*[4]byte)(p)", true, false},
	{"round trip", "(*int)(other.A(&x))", true, false},
	{"to integer", "uintptr(other.P)", false, false},
	{"create", "other.A(&x)", false, false},
}

const c05Other = "package other\n\nimport \"unsafe\"\n\ntype T unsafe.Pointer\n\nvar V T\n\nvar P unsafe.Pointer\n\ntype A = unsafe.Pointer\n\ntype S struct{ Q unsafe.Pointer }\n\nvar W S\n\nfunc Get() unsafe.Pointer { return P }\n"

func subst(s string, x int, pkg, expr string) string {
	s = strings.ReplaceAll(s, "EXPR", expr)
	s = strings.ReplaceAll(s, "P.", pkg+".")
	var b strings.Builder
	// X after a letter, at the end of an identifier, is the number.
	for i := 0; i < len(s); i++ {
		if s[i] == 'X' && i > 0 && isLetter(s[i-1]) && (i+1 == len(s) || !isLetter(s[i+1])) {
			fmt.Fprintf(&b, "%d", x)
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func isLetter(c byte) bool { return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || c == '_' }

// c05Case places expressions at positions of one package: in its only file
// (variant 0), the second of two (1), a dependency (2), the first of two (3),
// one in each (4), the only file of a package with a path like those of the
// standard library (5).
func c05Case(t *mc.T, exprs []convExpr, at []int, ex []int, variant int, cm string, classified string) {
	pkg := "example.com/u"
	if variant == 5 {
		pkg = "std/u"
	}
	head := "package u\n\nimport (\n\t\"other\"\n\t\"unsafe\"\n)\n\nvar _ = other.V\nvar _ unsafe.Pointer\n"
	files := []string{head + c05Decls, head}
	if len(exprs) == len(c05Elsewhere) {
		head = "package u\n\nimport \"other\"\n\nvar _ = other.V\n"
		files = []string{head + "var p = other.P\nvar x int\n\nfunc sink(...any) {}\nfunc id(a any) any { return a }\n", head}
	}
	want := map[string]bool{}
	nInit, nClosure := 0, 0
	for i, k := range at {
		pos, e := positions[k], exprs[ex[i]]
		f := 0
		switch variant {
		case 1:
			f = 1
		case 4:
			f = i
		}
		src := subst(pos.src, i+1, "P", e.expr)
		files[f] += "\n" + src + "\n"
		nInit += strings.Count(pos.src, "func init()")
		if len(pos.own) == 1 && pos.own[0] == "P.init$1" {
			nClosure++
		}
		names := pos.always
		if e.unsafe {
			names = append(append(names[:len(names):len(names)], pos.own...), pos.callers...)
		}
		for _, n := range names {
			n = subst(n, i+1, pkg, "")
			if strings.Contains(n, ".init#") {
				n = fmt.Sprintf("%s.init#%d", pkg, nInit)
			}
			if strings.HasSuffix(n, ".init$1") {
				n = fmt.Sprintf("%s.init$%d", pkg, nClosure)
			}
			want[n] = true
		}
	}
	p := syn.Pkg{Path: pkg, Files: []syn.File{{Name: "a.go", Src: files[0]}}}
	if variant == 1 || variant == 3 || variant == 4 {
		p.Files = append(p.Files, syn.File{Name: "b.go", Src: files[1]})
	}
	c := &srcCase{pkgs: []syn.Pkg{syn.One("other", c05Other), p}, query: []string{pkg}, cm: cm}
	if variant == 2 {
		// The package is a dependency: its initialiser runs in the queried
		// package's, and its functions are not reported themselves.
		top := "package top\n\nimport \"example.com/u\"\n\nfunc H() {"
		body := ""
		for i, k := range at {
			if strings.Contains(positions[k].src, "func FX()") {
				body += fmt.Sprintf(" u.F%d();", i+1)
			}
		}
		if body == "" {
			top = strings.Replace(top, "import \"", "import _ \"", 1)
		}
		c.pkgs = append(c.pkgs, syn.One("example.com/top", top+body+" }\n"))
		c.query = []string{"example.com/top"}
		w := map[string]bool{}
		for i, k := range at {
			if body != "" && want[fmt.Sprintf("%s.F%d", pkg, i+1)] && strings.Contains(positions[k].src, "func FX()") {
				w["example.com/top.H"] = true
			}
		}
		if want[pkg+".init"] {
			w["example.com/top.init"] = true
		}
		want = w
	}
	if classified != "" && want[classified] {
		// Reported under its own classification instead; so are its callers.
		for n := range want {
			if n == classified {
				delete(want, n)
			}
		}
	}
	got := c.analyse(t)
	var names []string
	for n := range want {
		names = append(names, n)
	}
	ignore := func(n string) bool {
		// Methods of generic types have no entry of their own.
		return strings.Contains(n, "[")
	}
	expectCap(t, got, capUnsafe, names, ignore)
	for n, cs := range got {
		for _, x := range cs {
			if x != capUnsafe && x != capFiles {
				t.Fail("%s is wrongly reported with %v", n, x)
			}
		}
	}
	t.State(int64(len(got)+1), int64(len(at)))
	t.Outcome(fmt.Sprint(showCaps(got), at, len(ex)))
	if t.Failed() {
		c.describe(t)
	}
}

func init() {
	fits := func(k, e int) bool { return !convExprs[e].generic || positions[k].generic }
	single := mc.Engine{Name: "single", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for k := range positions {
			for e := range convExprs {
				if !fits(k, e) {
					continue
				}
				for _, v := range []int{0, 1, 2, 3, 5} {
					yield(func() string { return fmt.Sprintf("%s at %s variant %d", convExprs[e].name, positions[k].name, v) }, func(t *mc.T) {
						c05Case(t, convExprs, []int{k}, []int{e}, v, "", "")
					})
				}
			}
		}
	}}
	elsewhere := mc.Engine{Name: "unsafe not imported", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for k := range positions {
			if strings.Contains(positions[k].src, "unsafe.") {
				continue
			}
			for e := range c05Elsewhere {
				for _, v := range []int{0, 1, 2, 3, 5} {
					yield(func() string {
						return fmt.Sprintf("%s at %s variant %d", c05Elsewhere[e].name, positions[k].name, v)
					}, func(t *mc.T) { c05Case(t, c05Elsewhere, []int{k}, []int{e}, v, "", "") })
				}
			}
		}
	}}
	pairs := mc.Engine{Name: "pairs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		harmless := 0
		for i, e := range convExprs {
			if e.name == "to integer" {
				harmless = i
			}
		}
		for k := range positions {
			for j := range positions {
				for _, es := range [][2]int{{0, 0}, {0, harmless}, {harmless, 0}} {
					for _, two := range []int{0, 1, 3, 4} {
						yield(func() string {
							return fmt.Sprintf("%s at %s, %s at %s, files %v", convExprs[es[0]].name, positions[k].name, convExprs[es[1]].name, positions[j].name, two)
						}, func(t *mc.T) { c05Case(t, convExprs, []int{k, j}, es[:], two, "", "") })
					}
				}
			}
		}
	}}
	params := mc.Engine{Name: "type parameter operands", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		constraints := []string{"~unsafe.Pointer", "unsafe.Pointer", "NP", "interface{ ~unsafe.Pointer }", "CP", "interface{ CP }", "~unsafe.Pointer | *int",
			"interface{ comparable; ~unsafe.Pointer }", "interface{ ~unsafe.Pointer; comparable }", "interface{ CP; CP2 }", "interface{ any; CP }"}
		targets := []struct {
			expr   string
			unsafe bool
		}{{"(*int)(u)", true}, {"IP(u)", true}, {"(*S)((*int)(u) == nil, u)", false}, {"uintptr(u)", false}}
		for _, c := range constraints {
			for _, tg := range targets {
				if strings.Contains(tg.expr, "==") || c == "~unsafe.Pointer | *int" && (tg.expr == "uintptr(u)") {
					continue
				}
				for _, form := range []string{
					"func G[U CON](u U) { _ = EXPR }\nfunc F() { G(ARG) }",
					"type B[U CON] struct{ u U }\nfunc (b B[U]) M() { u := b.u; _ = EXPR }\nfunc F() { B[TYP]{ARG}.M() }",
					"func G[U CON](u U) { func() { _ = EXPR }() }\nfunc F() { G(ARG) }",
					"func G[U CON](us ...U) { for _, u := range us { _ = EXPR } }\nfunc F() { G(ARG) }",
				} {
					yield(func() string { return fmt.Sprintf("[U %s] %s in %q", c, tg.expr, form) }, func(t *mc.T) {
						arg, typ := "p", "unsafe.Pointer"
						if c == "NP" {
							arg, typ = "np", "NP"
						}
						if strings.HasPrefix(c, "~unsafe.Pointer | ") {
							if tg.expr == "IP(u)" {
								return
							}
						}
						src := "package u\n\nimport \"unsafe\"\n" + c05Decls + "\ntype CP interface{ ~unsafe.Pointer }\n\ntype CP2 interface{ comparable }\n\n" +
							strings.NewReplacer("CON", c, "EXPR", tg.expr, "ARG", arg, "TYP", typ).Replace(form) + "\n"
						sc := &srcCase{pkgs: []syn.Pkg{syn.One("example.com/u", src)}, query: []string{"example.com/u"}}
						got := sc.analyse(t)
						if has := oneOf(capUnsafe, got["example.com/u.F"]); has != tg.unsafe {
							t.Fail("F reported: %v, want %v\n%s", has, tg.unsafe, showCaps(got))
							sc.describe(t)
						}
						t.State(1, 1)
						t.Outcome(showCaps(got))
					})
				}
			}
		}
	}}
	harmless := mc.Engine{Name: "harmless type parameters", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, cons := range []string{"any", "comparable", "~int", "~int | ~string", "interface{ M() }", "fmt", "interface{ comparable; M() }", "~*int"} {
			for _, expr := range []string{"any(u)", "interface{}(u)", "U(u)", "func(v U) any { return any(v) }(u)", "[]U{U(u)}"} {
				yield(func() string { return fmt.Sprintf("[U %s] %s", cons, expr) }, func(t *mc.T) {
					src := "package u\n\ntype fmt interface{ M(); any }\n\ntype Im int\n\nfunc (Im) M() {}\n\nvar n int\n\nfunc G[U " + cons + "](u U) { _ = " + expr + " }\n\n"
					arg := map[bool]string{true: "Im(1)", false: "1"}[strings.Contains(cons, "M()") || cons == "fmt"]
					if cons == "~*int" {
						arg = "&n"
					}
					src += "func F() { G(" + arg + ") }\n"
					sc := &srcCase{pkgs: []syn.Pkg{syn.One("example.com/u", src)}, query: []string{"example.com/u"}}
					if got := sc.analyse(t); len(got) > 0 {
						t.Fail("capabilities reported for code without any\n%s", showCaps(got))
						sc.describe(t)
					}
					t.State(1, 1)
					t.Outcome(cons)
				})
			}
		}
	}}
	classified := mc.Engine{Name: "classified", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		// A classified function that converts: only its class counts.
		for k, pos := range positions {
			if len(pos.own) != 1 || len(pos.callers)+len(pos.always) > 0 || strings.Contains(pos.own[0], "#") || pos.inInit {
				continue
			}
			for _, cl := range []string{"CAPABILITY_SAFE", "CAPABILITY_FILES"} {
				yield(func() string { return fmt.Sprintf("%s %s", pos.name, cl) }, func(t *mc.T) {
					n := subst(pos.own[0], 1, "example.com/u", "")
					c05Case(t, convExprs, []int{k}, []int{0}, 0, "func "+n+" "+cl, n)
				})
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C05", Level: "model_checking",
		Bounds:  fmt.Sprintf("%d positions x %d expressions x {only file, second or first of two files, dependency, standard-library-like path}; the same positions with pointers of a package that alone imports unsafe; every ordered pair of positions x three expression pairs x file splits; type-parameter operands; classified functions; every style of declaration, package path and file", len(positions), len(convExprs)),
		Assume:  graphAssume[:1],
		Engines: append([]mc.Engine{single, elsewhere, pairs, params, harmless, classified}, graphEngines([]family{famDecls}, oracleExtra(capUnsafe))...)})
}
