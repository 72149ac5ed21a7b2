package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C26: every program that builds is analysed.

// c26Features are declarations using unusual parts of the language.  X stands
// for a number that makes names unique.  FX calls lf.F, and so must be
// reported; LEAF stands for that call.
var c26Features = []string{
	"func FX() { LEAF }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nfunc FX() string { var err error = EX{}; f := err.Error; return f() }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nfunc FX() string { f := error.Error; return f(EX{}) }",
	"type EX struct{}\nfunc (*EX) Error() string { LEAF; return \"\" }\nfunc gX(f func() string) string { return f() }\nfunc FX() string { var err error = &EX{}; return gX(err.Error) }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nfunc FX() string { s := struct{ error }{EX{}}; return s.Error() }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nfunc FX() string { s := struct{ error }{EX{}}; f := s.Error; return f() }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nfunc FX() string { var i interface{ Error() string } = struct{ error }{EX{}}; return i.Error() }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\ntype AX = struct{ error }\nfunc FX() string { var i error = struct{ *AX }{&AX{EX{}}}; defer i.Error(); f := i.Error; go f(); return f() }",
	"type EX struct{}\nfunc (EX) Error() string { LEAF; return \"\" }\nvar eX error = EX{}\nvar vX = eX.Error\nfunc FX() string { return vX() }",
	"type EX struct{}\nfunc (EX) M() { LEAF }\nfunc FX() { f := interface{ M() }.M; f(EX{}) }",
	"type EX struct{}\nfunc (EX) M() { LEAF }\nfunc FX() { f := struct{ EX }.M; f(struct{ EX }{}); g := (*struct{ EX }).M; g(&struct{ EX }{}) }",
	"type EX struct{}\nfunc (EX) M() { LEAF }\ntype IX = interface{ M() }\nfunc FX() { f := (struct{ IX }{EX{}}).M; f() }",
	"type EX[T any] struct{}\nfunc (EX[T]) Error() string { LEAF; return \"\" }\nfunc gX[T error](t T) func() string { return t.Error }\nfunc FX() string { return gX(EX[int]{})() }",
	"type EX[T any] struct{}\nfunc (EX[T]) M() { LEAF }\nfunc FX() { f := EX[error].M; f(EX[error]{}); g := EX[struct{ error }]{}.M; g() }",
	"func FX() { goto L; L: LEAF }",
	"func FX() { i := 0; L: i++; if i < 3 { goto L }; LEAF }",
	"func FX() { L: for { LEAF; for { continue L } } }",
	"func FX() { for { break }; LEAF }",
	"func FX() { L: switch { case true: break L; default: }; LEAF }",
	"func FX() { L: select { default: break L }; LEAF }",
	"func FX() { LEAF; select {} }",
	"var cX chan int\nfunc FX() { select { case v, ok := <-cX: _, _ = v, ok; case cX <- 1: case <-cX: default: }; LEAF }",
	"var cX chan func()\nfunc FX() { select { case arrX[0] = <-cX: LEAF } }\nvar arrX [2]func()",
	"func FX(x int) { switch x { case 1: fallthrough; case 2: LEAF; fallthrough; default: } }",
	"func FX(x any) { switch y := x.(type) { case int, string: _ = y; case nil: LEAF; case func(): y(); case error: _ = y.Error() } }",
	"func FX(x any) { switch x.(type) { }; switch { }; switch x := x; x { }; LEAF }",
	"func FX() { defer func() { recover(); LEAF }(); panic(nil) }",
	"func FX() { defer recover(); defer panic(1); LEAF }",
	"func FX() { defer func() { defer func() { defer func() { LEAF }() }() }() }",
	"func FX() { for i := range 3 { defer func() { _ = i; LEAF }() } }",
	"func FX() { for range 3 { go func() { LEAF }() } }",
	"func FX() { for i, c := range \"aé\\xff\" { _, _ = i, c; LEAF } }",
	"func FX(a *[3]int) { for i := range a { _ = i }; for range a { }; for i, v := range a { _, _ = i, v }; LEAF }",
	"func FX(m map[string]int) { for m[\"a\"] = range 3 { LEAF } }",
	"func FX(m map[string]int) { for k, v := range m { delete(m, k); _ = v }; clear(m); LEAF }",
	"func seqX(yield func(int) bool) { _ = yield(1) && yield(2) }\nfunc FX() { for x := range seqX { _ = x; LEAF } }",
	"func seqX(yield func() bool) { for yield() { } }\nfunc FX() { L: for range seqX { for range seqX { if p == nil { continue L }; if p != nil { break L }; defer lf.F(); return } } }",
	"func seqX[K, V any](k K, v V) func(func(K, V) bool) { return func(y func(K, V) bool) { y(k, v) } }\nfunc FX() (r int) { for k, v := range seqX(1, \"a\") { _, _ = k, v; LEAF; return k }; return }",
	"func seqX(yield func(int) bool) { yield(1) }\nfunc FX() { for x := range seqX { func() { for y := range seqX { _ = x + y; LEAF } }() } }",
	"func FX() { len := func(int) int { LEAF; return 1 }; _ = len(3) }",
	"func FX() { append := 1; true := false; nil := 0; _, _, _ = append, true, nil; LEAF }",
	"func FX() { type int string; var x int = \"a\"; _ = x; LEAF }",
	"func FX() { type error struct{}; type any int; var _ any = 1; LEAF }",
	"func FX() { { sort := 1; sync := 2; _, _ = sort, sync }; LEAF }",
	"func FX(_, _ int, _ ...string) (_ error, _ int) { LEAF; return }",
	"func FX(int, string) { LEAF }",
	"func _() { lf.F() }\nfunc FX() { LEAF }",
	"var _, _ = func() (int, int) { lf.F(); return 1, 2 }()\nfunc FX() { LEAF }",
	"type TX struct{ _ int; _ string }\nfunc (TX) _() { lf.F() }\nfunc FX() { var t TX; _ = t == t; LEAF }",
	"type TX struct{}\nfunc (TX) init() { LEAF }\nfunc (TX) main() { TX{}.init() }\nfunc FX() { TX{}.main() }",
	"func init() { lf.F() }\nfunc init() { lf.F() }\nfunc FX() { LEAF }",
	"func main() {}\nfunc FX() { LEAF }",
	"var aX = bX + 1\nvar bX = cX()\nfunc cX() int { LEAF; return dX }\nvar dX = 3\nfunc FX() { cX() }",
	"var aX = func() int { return len(bX) }()\nvar bX = map[string]func(){\"a\": func() { lf.F() }}\nfunc FX() { bX[\"a\"](); LEAF }",
	"type TX func(TX) TX\nfunc (f TX) call() TX { LEAF; return f(f) }\nfunc FX() { TX(nil).call() }",
	"type TX chan TX\nfunc (c TX) send() { c <- c; LEAF }\nfunc FX() { TX(nil).send() }",
	"type TX []TX\nfunc (c TX) walk() { for _, d := range c { d.walk() }; LEAF }\nfunc FX() { TX{{}, {{}}}.walk() }",
	"type TX map[string]TX\nfunc (c TX) walk() { for _, d := range c { d.walk() }; LEAF }\nfunc FX() { TX{\"a\": {}}.walk() }",
	"type TX *TX\nfunc FX() { var t TX; t = &t; _ = *t; LEAF }",
	"type TX struct{ *TX }\nfunc FX() { var t TX; _ = t.TX.TX.TX; LEAF }",
	"type TX struct{ next [0]*TX; f func(TX) }\nfunc FX() { var t TX; t.f(t); LEAF }",
	"type TX interface{ M() TX }\nfunc FX(t TX) { t.M().M(); LEAF }",
	"type iX interface{ M() interface{ iX } }\nfunc FX(t iX) { t.M().M(); LEAF }",
	"type AX = struct{ B *BX }\ntype BX = struct{ A []func() }\nfunc FX() { var a AX; a.B.A[0](); LEAF }",
	"type eX struct{}\nfunc (*eX) M() { LEAF }\ntype fX struct{ *eX }\ntype gX struct{ fX }\nfunc FX() { gX{}.M(); f := gX.M; f(gX{}); g := (*gX).M; g(nil); h := new(gX).M; h() }",
	"type eX struct{}\nfunc (eX) M() { LEAF }\nfunc FX() { struct{ eX }{}.M(); (&struct{ *eX }{}).M(); var i interface{ M() } = struct{ eX }{}; i.M() }",
	"type iX interface{ M() }\ntype eX struct{ iX }\nfunc FX() { eX{}.M(); LEAF }",
	"type iX interface{ M() }\ntype jX interface{ M(); N() }\ntype kX interface{ iX; jX }\ntype tX struct{}\nfunc (tX) M() { LEAF }\nfunc (tX) N() {}\nfunc FX() { var k kX = tX{}; iX(k).M(); k.(iX).M(); iX.M(k) }",
	"type tX int\nfunc (t tX) M() tX { LEAF; return t }\nfunc FX() { tX(1).M().M().M() }",
	"type fX func()\nfunc (f fX) Do() { f() }\nfunc FX() { fX(lf.F).Do(); fX.Do(lf.F); fX(func() { LEAF }).Do() }",
	"type sX []int\nfunc (s *sX) add() { *s = append(*s, 1); LEAF }\nfunc FX() { var s sX; s.add(); (&s).add(); (*sX).add(&s) }",
	"type cX chan int\nfunc (c cX) do() { LEAF }\nfunc FX() { var m = map[string]cX{}; m[\"a\"].do() }",
	"func GX[T any](t T) T { LEAF; return t }\nfunc FX() { GX(GX[func(int)])(nil)(1) }",
	"func GX[T any](n int, t T) { if n > 0 { GX(n-1, t) }; LEAF }\nfunc FX() { GX(1, \"a\") }",
	"func GX[A, B any](n int, a A, b B) { if n > 0 { GX(n-1, b, a) }; LEAF }\nfunc FX() { GX(1, \"a\", 2) }",
	"type LX[T any] struct{ next *LX[T]; v T }\nfunc (l *LX[T]) Each(f func(T)) { if l != nil { f(l.v); l.next.Each(f) } }\nfunc FX() { new(LX[int]).Each(func(int) { LEAF }) }",
	"type PX[A, B any] struct{ a A; b B }\nfunc (p PX[A, B]) Swap() PX[B, A] { LEAF; return PX[B, A]{p.b, p.a} }\nfunc FX() { PX[int, string]{}.Swap().Swap() }",
	"type NX interface{ ~int | ~float64; M() }\ntype iX int\nfunc (iX) M() { LEAF }\nfunc SX[T NX](t ...T) (s T) { for _, x := range t { s += x; x.M() }; return }\nfunc FX() { SX(iX(1), iX(2)) }",
	"func GX[F ~func(A) B, A, B any](f F, a A) B { return f(a) }\nfunc FX() { GX(func(int) string { LEAF; return \"\" }, 1) }",
	"func GX[T interface{ *S; M() }, S any]() { var s S; T(&s).M() }\ntype tX struct{}\nfunc (*tX) M() { LEAF }\nfunc FX() { GX[*tX]() }",
	"func GX[S ~[]E, E comparable](s S, e E) bool { for _, x := range s { if x == e { LEAF; return true } }; return false }\nfunc FX() { GX([]string{}, \"a\") }",
	"func GX[T ~string | ~[]byte](t T) { for range string(t) { LEAF }; _ = t[1:2]; _ = len(t) }\nfunc FX() { GX(\"a\"); GX([]byte{}) }",
	"func GX[T any](t any) { switch t.(type) { case T: LEAF; case []T: case map[string]T: case func(T) T: } }\nfunc FX() { GX[int](1) }",
	"func GX[T any]() { type L struct{ t T }; var l L; _ = any(l); LEAF }\nfunc FX() { GX[int](); GX[struct{}]() }",
	"type GX[T any] func(T)\nfunc (g GX[T]) Call(t T) { g(t) }\nfunc FX() { GX[int](func(int) { LEAF }).Call(1) }",
	"type GX[T any] interface{ M(T) GX[T] }\ntype tX struct{}\nfunc (tX) M(int) GX[int] { LEAF; return tX{} }\nfunc FX() { var g GX[int] = tX{}; g.M(1).M(2) }",
	"type EX[T any] struct{ T2 T }\ntype DX struct{ EX[func()] }\nfunc FX() { DX{EX[func()]{lf.F}}.T2(); LEAF }",
	"func GX[T any](t T) func() { return func() { func() { _ = t; LEAF }() } }\nfunc FX() { GX(1)(); defer GX(\"a\")() }",
	"func FX() { type tX struct{ f func() }; tX{lf.F}.f(); LEAF }",
	"func FX() { var f func(int) int; f = func(n int) int { if n == 0 { LEAF; return 0 }; return f(n-1) }; f(3) }",
	"func FX() { var f func(); f(); (func())(nil)(); LEAF }",
	"func FX() { func(f func(func())) { f(func() { LEAF }) }(func(g func()) { g() }) }",
	"func gX() (f func() func() func()) { return func() func() func() { LEAF; return func() func() { return func() { } } } }\nfunc FX() { gX()()()() }",
	"func twoX() (int, func()) { return 1, lf.F }\nfunc takeX(n int, f ...func()) { for _, g := range f { g() } }\nfunc FX() { takeX(twoX()); LEAF }",
	"func FX() { var a [1 << 20]int; var b [0]struct{}; _, _ = a, b; LEAF }",
	"func FX() { x := [...]int{5: 1, 2, 0: 3}; y := map[[2]int]struct{}{{1, 2}: {}}; z := []*[]int{{1}, nil}; _, _, _ = x, y, z; LEAF }",
	"func FX() { const big = 1 << 100; const c = big >> 98; var z = complex(c, 1.5); _ = real(z) + imag(z); LEAF }",
	"const (\n\taX = iota * 2\n\t_\n\tbX, cX = iota, 1 << iota\n)\nfunc FX() { _ = aX + bX + cX; LEAF }",
	"func FX() { s := []int{1}; _ = s[0:1:1]; _ = [1]int(s); _ = (*[1]int)(s); _ = min(1, 2) + max(3, 4); copy(s, s); LEAF }",
	"func FX() { x, y := 1, 2; x, y = y, x; x, z := 3, x; _, _, _ = x, y, z; x++; x <<= 1; x &^= y; LEAF }",
	"func FX() { var i interface{ M() }; _, ok := i.(interface{ N() }); _ = ok; _ = i == nil; LEAF }",
	"func FX() { _ = func() (x struct{ a, b int }) { x.a = 1; return }().a; LEAF }",
	"func FX() { *new(int) = 1; (&struct{ f func() }{lf.F}).f(); LEAF }",
	"func FX() { ((((lf.F))))(); (func() { LEAF })() }",
	"func FX() { print(1, \"a\"); println(); LEAF }",
	"func FX() { if x := 1; x > 2 { } else if y := x; y < 3 { LEAF } else { } }",
	"func FX() { if p == nil { return; lf.F() }; LEAF }\nfunc EX() { FX(); panic(0); FX() }\nfunc init() { EX() }",
	"func FX() int { for { LEAF } }",
	"func FX() { _ = sort.Slice; _ = (*sync.Once).Do; var _ sort.Interface; LEAF }",
	"func FX() { sort.Sort(nil); var o *sync.Once; o.Do(nil); LEAF }",
	"func FX() { (sort.Slice)(nil, nil); ((sort.Sort))((nil)); LEAF }",
	"func argsX() (any, func(int, int) bool) { return nil, nil }\nfunc FX() { sort.Slice(argsX()); defer sort.Slice(argsX()); go sort.Slice(argsX()); LEAF }",
	"func FX() { if sort.SliceIsSorted([]int{}, func(i, j int) bool { LEAF; return true }) { } }",
	"var vX = sort.Search(3, func(int) bool { lf.F(); return true })\nfunc FX() { LEAF }",
	"func FX() { _ = sync.Once{}; (&sync.Once{}).Do(func() { (&sync.Once{}).Do(func() { LEAF }) }) }",
	"type oX struct{ sync.Once }\ntype qX struct{ *oX }\nfunc FX() { qX{new(oX)}.Do(func() { LEAF }) }",
	"var onceX [2]sync.Once\nfunc FX(i int) { onceX[i].Do(func() { LEAF }) }",
	"func FX(o map[string]*sync.Once) { o[\"a\"].Do(func() { sort.Slice(nil, func(i, j int) bool { LEAF; return true }) }) }",
	"func FX() { f := new(sync.Once).Do; f(func() { LEAF }) }",
	"func FX() { sort.Sort(sort.Reverse(sort.Reverse(sort.IntSlice{}))); LEAF }",
	"func GX[T sort.Interface](t T) { sort.Sort(t); LEAF }\nfunc FX() { GX(sort.IntSlice{}) }",
	"func FX() { _ = unsafe.Sizeof(0) + unsafe.Offsetof(struct{ a int }{}.a) + unsafe.Alignof(\"\"); _ = unsafe.StringData(\"\"); LEAF }",
	"func FX() { type T struct{ p unsafe.Pointer }; _ = (*int)(T{}.p); _ = unsafe.Slice((*int)(nil), 0); LEAF }",
	"var _ = (*int)(unsafe.Pointer(nil))\nvar _ = func() *int { return (*int)(unsafe.Pointer(nil)) }()\nfunc FX() { LEAF }",
	"const _ = uintptr(unsafe.Sizeof(struct{ x [3]int }{}))\nfunc FX() { LEAF }",
	"func FX() { var v reflect.Value; var a [2]reflect.Value; a[1] = v; p := &v; *p = v; m := map[reflect.Value]reflect.Value{v: v}; c := make(chan reflect.Value, 1); c <- v; _ = m; LEAF }",
	"type rX struct{ *rX; v reflect.Value; f [2]struct{ reflect.Value } }\nvar RX rX\nfunc FX(r rX) { RX = r; RX.f[1].Value = r.v; LEAF }",
	"type rX[T any] struct{ v T; n *rX[T] }\nvar RX rX[rX[reflect.Value]]\nfunc FX(r rX[rX[reflect.Value]]) { RX = r; LEAF }",
	"func asmX(a int) (b int)\nfunc FX() { asmX(1); LEAF }",
	"func asmX(func())\ntype tX struct{}\nfunc (tX) m()\nfunc FX() { asmX(func() { LEAF }); tX{}.m(); LEAF }",
	"type héX struct{}\nfunc (héX) été() { LEAF }\nfunc FX() { héX{}.été() }",
	"func " + "G" + strings.Repeat("g", 3000) + "X() { LEAF }\nfunc FX() { G" + strings.Repeat("g", 3000) + "X() }",
	"func FX() { _ = " + strings.Repeat("(", 300) + "1" + strings.Repeat(")", 300) + "; LEAF }",
	"func FX() { " + strings.Repeat("func() { ", 40) + "LEAF" + strings.Repeat(" }()", 40) + " }",
	"func FX() { " + strings.Repeat("if p == nil { ", 60) + "LEAF" + strings.Repeat(" }", 60) + " }",
	"func FX(x int) { switch x {" + func() (s string) {
		for i := 0; i < 300; i++ {
			s += fmt.Sprintf("\ncase %d: lf.F()", i)
		}
		return
	}() + "\n}; LEAF }",
	"func FX() { " + strings.Repeat("lf.F(); ", 500) + "LEAF }",
	"var vX = []func(){" + strings.Repeat("lf.F, ", 300) + "}\nfunc FX() { for _, f := range vX { f() }; LEAF }",
	"//line weird file.go:10\nfunc FX() { LEAF }\n//line :99999999\nfunc EX() { FX() }",
	"/*line /abs/x.go:1:1*/ func FX() { /*line y.go:7*/ LEAF }",
	"//go:noinline\nfunc FX() { LEAF }\n//go:linkname fX runtime.x\nfunc fX()\n//export FX",
	"type TX[P any] struct{ f func(P) }\nfunc (t *TX[P]) Set(f func(P)) *TX[P] { t.f = f; return t }\nfunc (t *TX[_]) Call() { LEAF }\nfunc FX() { new(TX[[]string]).Set(nil).Call(); f := (*TX[int]).Call; f(nil); g := new(TX[bool]).Call; g() }",
	"type KX interface{ comparable; ~struct{ a int } | ~[2]int }\nfunc GX[K KX](k K) { _ = map[K]int{k: 1}; LEAF }\nfunc FX() { GX([2]int{}) }",
	"func GX[T any, PT interface{ *T }](p PT) { _ = *p; LEAF }\nfunc FX() { GX(new(int)) }",
	"func GX[C chan int | <-chan int](c C) { <-c; for range c { }; LEAF }\nfunc FX() { GX(make(chan int)) }",
	"func GX[T *int | *string](t T) { LEAF }\nfunc FX() { GX[*int](nil) }",
	"func GX[T ~unsafe.Pointer](t T) uintptr { LEAF; return uintptr(t) }\nfunc FX() { GX[unsafe.Pointer](nil) }",
}

const c26Head = `package a

import (
	"example.com/lf"
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

var p unsafe.Pointer
var _ reflect.Value
var _ = sort.Sort
var _ sync.Once
var _ = lf.F
`

func c26Src(fs []int) string {
	s := c26Head
	for i, k := range fs {
		s += "\n" + strings.ReplaceAll(strings.ReplaceAll(c26Features[k], "X", fmt.Sprint(i+1)), "LEAF", "lf.F()") + "\n"
	}
	return s
}

// c26Run analyses a program in every mode and granularity.
func c26Run(t *mc.T, pkgs []syn.Pkg, query []string, want []string, modes bool) {
	sc := &srcCase{pkgs: pkgs, query: query, cm: "func example.com/lf.F CAPABILITY_FILES\n"}
	prog, err := syn.Load(pkgs)
	if err != nil {
		t.Broken("%v\n%s", err, sc.text())
	}
	cls, err := interesting.LoadClassifier("case.cm", strings.NewReader(sc.cm), true)
	if err != nil {
		t.Broken("%v", err)
	}
	q := prog.Query(query...)
	defer func() {
		if e := recover(); e != nil {
			sc.describe(t)
			t.Fail("the analysis crashed: %v", e)
		} else if t.Failed() {
			sc.describe(t)
		}
	}()
	grans := []analyzer.Granularity{analyzer.GranularityFunction}
	outs := []string{"json"}
	if modes {
		grans = append(grans, analyzer.GranularityPackage, analyzer.GranularityIntermediate)
		outs = append(outs, "", "v", "m", "graph")
	}
	for _, g := range grans {
		for _, o := range outs {
			if o == "graph" && g != analyzer.GranularityFunction {
				continue
			}
			var err error
			out := t.Capture(func() {
				err = analyzer.RunCapslock(nil, o, q, analyzer.GetQueriedPackages(q), &analyzer.Config{Classifier: cls, Granularity: g})
			})
			t.Trace()
			t.State(1, 1)
			if err != nil {
				t.Fail("output %q, granularity %d: %v", o, g, err)
				continue
			}
			switch o {
			case "json":
				cil := new(cpb.CapabilityInfoList)
				if !json.Valid([]byte(out)) {
					t.Fail("granularity %d: malformed report %s", g, clip(out))
				} else if err := protojson.Unmarshal([]byte(out), cil); err != nil {
					t.Fail("granularity %d: %v", g, err)
				}
				if g == analyzer.GranularityFunction {
					got := map[string]bool{}
					for _, c := range cil.GetCapabilityInfo() {
						if c.GetCapability() == capFiles {
							got[subject(c)] = true
						}
					}
					for _, w := range want {
						if !got[w] {
							t.Fail("%s is not reported", w)
						}
					}
				}
				t.Outcome(out)
			case "graph":
				if _, _, err := parseDot(out); err != nil {
					t.Fail("graph: %v", err)
				}
			default:
				if out == "" && o != "m" {
					t.Fail("output %q, granularity %d: empty", o, g)
				}
			}
		}
	}
}

func c26Pkgs(srcs ...syn.Pkg) []syn.Pkg {
	return append([]syn.Pkg{syn.One("sort", c04Sort), syn.One("sync", c04Sync), syn.One("reflect", c06Reflect), syn.One("example.com/lf", c15Leaf)}, srcs...)
}

// c26Shapes are packages of unusual shapes: file contents and the functions
// reported.
var c26Shapes = []struct {
	name string
	srcs []string
	want []string
}{
	{"only a package clause", []string{"package a"}, nil},
	{"only comments", []string{"// Copyright\n\n/* a */ package /* b */ a // c\n\n// end"}, nil},
	{"byte order mark", []string{"\ufeffpackage a\n\nimport \"example.com/lf\"\n\nfunc F() { lf.F() }\n"}, []string{"F"}},
	{"carriage returns", []string{"package a\r\n\r\nimport \"example.com/lf\"\r\n\r\nfunc F() { lf.F() }\r\n"}, []string{"F"}},
	{"one line", []string{"package a; import \"example.com/lf\"; func F() { lf.F() }; var V = 1"}, []string{"F"}},
	{"no newline at end", []string{"package a\nimport \"example.com/lf\"\nfunc F() { lf.F() }"}, []string{"F"}},
	{"blank import", []string{"package a\nimport _ \"example.com/lf\""}, nil},
	{"dot import", []string{"package a\nimport . \"example.com/lf\"\nfunc G() { F() }"}, []string{"G"}},
	{"renamed import", []string{"package a\nimport sort \"example.com/lf\"\nfunc F() { sort.F() }"}, []string{"F"}},
	{"imports swapped", []string{"package a\nimport sort \"sync\"\nimport sync \"sort\"\nimport \"example.com/lf\"\nvar o sort.Once\nfunc F() { o.Do(lf.F); sync.Slice(nil, func(i, j int) bool { lf.F(); return true }) }"}, []string{"F"}},
	{"imported twice", []string{"package a\nimport \"example.com/lf\"\nimport l2 \"example.com/lf\"\nimport _ \"example.com/lf\"\nfunc F() { lf.F(); l2.F() }"}, []string{"F"}},
	{"many files", []string{"package a\nimport \"example.com/lf\"\nfunc F() { lf.F(); G() }", "package a", "package a\nfunc G() { H() }", "package a\nimport l \"example.com/lf\"\nfunc H() { l.F() }"}, []string{"F", "G", "H"}},
	{"main", []string{"package main\nimport \"example.com/lf\"\nfunc main() { lf.F() }"}, []string{"main"}},
	{"only types", []string{"package a\ntype T struct{ n *T }\ntype I interface{ M() }\nconst C = 1\nvar V I"}, nil},
	{"only initialisers", []string{"package a\nimport \"example.com/lf\"\nvar _ = func() int { lf.F(); return 1 }()"}, []string{"init"}},
	{"empty functions", []string{"package a\nfunc F() {}\nfunc G() {}\nfunc init() {}"}, nil},
	{"only body-less functions", []string{"package a\nfunc F()\nfunc g()"}, nil},
	{"keywords of other languages", []string{"package a\nimport \"example.com/lf\"\nfunc class() { lf.F() }\nfunc Func_() { class() }"}, []string{"class", "Func_"}},
	{"exclude everything", []string{"//go:build ignore\n\npackage a\nimport \"example.com/lf\"\nfunc F() { lf.F() }"}, []string{"F"}},
	{"3000 declarations", []string{"package a\nimport \"example.com/lf\"\n" + func() string {
		var b strings.Builder
		for i := 0; i < 3000; i++ {
			fmt.Fprintf(&b, "func f%d() { lf.F() }\n", i)
		}
		return b.String()
	}()}, []string{"f0", "f1500", "f2999"}},
}

func init() {
	singles := mc.Engine{Name: "features", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for k := range c26Features {
			yield(func() string { return fmt.Sprintf("feature %d: %.200s", k, c26Features[k]) }, func(t *mc.T) {
				c26Run(t, c26Pkgs(syn.One("example.com/a", c26Src([]int{k}))), []string{"example.com/a"}, []string{"example.com/a.F1"}, true)
				// In a dependency.
				c26Run(t, c26Pkgs(syn.One("example.com/a", c26Src([]int{k})), syn.One("example.com/b", "package b\n\nimport _ \"example.com/a\"\n")), []string{"example.com/b"}, nil, true)
				// In a package that looks like the standard library's.
				c26Run(t, c26Pkgs(syn.One("a", c26Src([]int{k}))), []string{"a"}, []string{"a.F1"}, true)
			})
		}
	}}
	// The ways of reaching a function, in every mode and granularity.
	reached := mc.Engine{Name: "invocations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		emit := func(f form) {
			if !f.runnable() {
				return
			}
			yield(f.String, func(t *mc.T) {
				const pkg = "example.com/p"
				imports := "import \"example.com/lf\"\n"
				src, helpers, subj := f.render(pkg, "lf.F")
				pkgs := c26Pkgs()
				if f.remote {
					pkgs = append(pkgs, syn.One("example.com/hp", "package hp\n\n"+helpers))
					if strings.Contains(src, "hp.") {
						imports += "import \"example.com/hp\"\n"
					}
					helpers = ""
				}
				pkgs = append(pkgs, syn.One(pkg, "package p\n\n"+imports+"\n"+src+"\n\n"+helpers))
				c26Run(t, pkgs, []string{pkg}, subj, true)
			})
		}
		for i := range invocations {
			for _, remote := range []bool{false, true} {
				emit(form{inv: i, remote: remote})
				for c := range conduits {
					if i == 0 || tier == "thorough" {
						emit(form{inv: i, cs: []int{c}, remote: remote})
					}
				}
			}
		}
	}}
	combos := mc.Engine{Name: "combinations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for i := range c26Features {
			for j := range c26Features {
				if strings.Contains(c26Features[i], "func main()") && i == j {
					continue
				}
				yield(func() string {
					return fmt.Sprintf("features %d and %d: %.200s\n%.200s", i, j, c26Features[i], c26Features[j])
				}, func(t *mc.T) {
					c26Run(t, c26Pkgs(syn.One("example.com/a", c26Src([]int{i, j}))), []string{"example.com/a"}, []string{"example.com/a.F1", "example.com/a.F2"}, tier == "thorough")
				})
			}
		}
	}}
	shapes := mc.Engine{Name: "shapes", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		n := len(c26Shapes)
		for i := 0; i < n; i++ {
			for j := -1; j < n; j++ {
				yield(func() string {
					if j < 0 {
						return c26Shapes[i].name
					}
					return c26Shapes[i].name + " and " + c26Shapes[j].name
				}, func(t *mc.T) {
					var pkgs []syn.Pkg
					var query, want []string
					for k, s := range []int{i, j} {
						if s < 0 {
							break
						}
						pk := syn.Pkg{Path: fmt.Sprintf("example.com/a%d", k)}
						for m, src := range c26Shapes[s].srcs {
							pk.Files = append(pk.Files, syn.File{Name: fmt.Sprintf("f%d.go", m), Src: src})
						}
						pkgs = append(pkgs, pk)
						query = append(query, pk.Path)
						for _, w := range c26Shapes[s].want {
							want = append(want, pk.Path+"."+w)
						}
					}
					c26Run(t, c26Pkgs(pkgs...), query, want, true)
				})
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C26", Level: "model_checking", Setup: buildCommands,
		Bounds:  fmt.Sprintf("%d declarations using unusual language features, alone in three kinds of package and every ordered pair in one package; %d shapes of packages alone and in every ordered pair; every way of reaching a function of C03 (one conduit with a plain call, every invocation; thorough: both); every output mode and granularity; about 45 modules of unusual shapes through the built command", len(c26Features), len(c26Shapes)),
		Assume:  graphAssume[:1],
		Engines: []mc.Engine{c26LayoutEngine, singles, reached, combos, shapes}})
}
