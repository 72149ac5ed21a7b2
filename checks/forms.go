package checks

import (
	"fmt"
	"strings"
)

// Ways for a function value to travel, and ways to run it.
//
// In the templates H. qualifies names of helper declarations, which may live
// in the same or in another package; @ is a number unique to the use; IN is
// the incoming expression of type func().

// A conduit turns an expression of type func() into another one that, called,
// calls the first.
type conduit struct {
	name   string
	helper string // declarations
	stmts  string // statements before
	out    string // resulting expression
}

const (
	hA  = "type A@ struct{ F func() }\nfunc (a A@) Run() { a.F() }\n"
	hPA = "type PA@ struct{ F func() }\nfunc (a *PA@) Run() { a.F() }\n"
	hI  = "type I@ interface{ Run() }\n"
	hS  = "type S@ struct{ N int; F func() }\n"
)

var conduits = []conduit{
	{"local", "", "v@ := IN", "v@"},
	{"error method value", "type EE@ struct{ F func() }\nfunc (e EE@) Error() string { e.F(); return \"\" }\n", "var e@ error = H.EE@{IN}; m@ := e@.Error", "func() { _ = m@() }"},
	{"error method expression", "type EE@ struct{ F func() }\nfunc (e EE@) Error() string { e.F(); return \"\" }\n", "e@ := H.EE@{IN}; m@ := error.Error", "func() { _ = m@(e@) }"},
	{"embedded error", "type EE@ struct{ F func() }\nfunc (e EE@) Error() string { e.F(); return \"\" }\n", "s@ := struct{ error }{H.EE@{IN}}", "func() { _ = s@.Error() }"},
	{"embedded error method value", "type EE@ struct{ F func() }\nfunc (e EE@) Error() string { e.F(); return \"\" }\n", "s@ := struct{ error }{H.EE@{IN}}; m@ := s@.Error", "func() { _ = m@() }"},
	{"embedded error in interface", "type EE@ struct{ F func() }\nfunc (e EE@) Error() string { e.F(); return \"\" }\n", "var i@ interface{ Error() string } = &struct{ error }{H.EE@{IN}}", "func() { _ = i@.Error() }"},
	{"reassigned", "", "v@ := func() {}; v@ = IN", "v@"},
	{"parenthesised", "", "", "(IN)"},
	{"global", "var G@ func()\n", "H.G@ = IN", "H.G@"},
	{"struct field", hS, "s@ := H.S@{1, IN}", "s@.F"},
	{"pointer field", hS, "s@ := &H.S@{F: IN}", "s@.F"},
	{"assigned field", hS, "var s@ H.S@; s@.F = IN", "s@.F"},
	{"field of global", hS + "var G@ S@\n", "H.G@.F = IN", "H.G@.F"},
	{"copied struct", hS, "s@ := H.S@{F: IN}; t@ := s@", "t@.F"},
	{"nested struct", "type N@ struct{ In struct{ F func() } }\n", "var n@ H.N@; n@.In.F = IN; k@ := n@.In", "k@.F"},
	{"linked list", "type L@ struct{ Next *L@; F func() }\n", "l@ := &H.L@{Next: &H.L@{F: IN}}", "l@.Next.F"},
	{"embedded field", hS + "type E@ struct{ S@ }\n", "e@ := H.E@{}; e@.F = IN", "e@.F"},
	{"map value", "", "m@ := map[string]func(){\"a\": IN}", "m@[\"a\"]"},
	{"map assigned", "", "m@ := map[int]func(){}; m@[3] = IN", "m@[3]"},
	{"map ok", "", "m@ := map[int]func(){1: IN}; r@, _ := m@[1]", "r@"},
	{"map of structs", hS, "m@ := map[int]H.S@{1: {F: IN}}", "m@[1].F"},
	{"map range", "", "var r@ func(); for _, x := range map[int]func(){1: IN} { r@ = x }", "r@"},
	{"slice", "", "s@ := []func(){nil, IN}", "s@[1]"},
	{"slice of slices", "", "s@ := [][]func(){{IN}}", "s@[0][0]"},
	{"slice range", "", "var r@ func(); for _, x := range []func(){IN} { r@ = x }", "r@"},
	{"append", "", "s@ := append([]func(){}, IN)", "s@[0]"},
	{"append slice", "", "s@ := append([]func(){nil}, []func(){IN}...)", "s@[1]"},
	{"copy", "", "d@ := make([]func(), 1); copy(d@, []func(){IN})", "d@[0]"},
	{"subslice", "", "s@ := []func(){nil, IN}[1:]", "s@[0]"},
	{"array", "", "var a@ [2]func(); a@[1] = IN", "a@[1]"},
	{"array range", "", "var r@ func(); for _, x := range [1]func(){IN} { r@ = x }", "r@"},
	{"array pointer", "", "a@ := &[1]func(){IN}", "a@[0]"},
	{"array slice", "", "a@ := [1]func(){IN}; s@ := a@[:]", "s@[0]"},
	{"slice to array", "", "s@ := []func(){IN}", "([1]func())(s@)[0]"},
	{"channel", "", "c@ := make(chan func(), 1); c@ <- IN", "(<-c@)"},
	{"select receive", "", "c@ := make(chan func(), 1); c@ <- IN; var r@ func(); select { case r@ = <-c@: }", "r@"},
	{"select send", "", "c@ := make(chan func(), 1); select { case c@ <- IN: default: }", "(<-c@)"},
	{"goroutine", "", "c@ := make(chan func()); x@ := IN; go func() { c@ <- x@ }()", "(<-c@)"},
	{"channel of channels", "", "c@ := make(chan chan func(), 1); d@ := make(chan func(), 1); c@ <- d@; d@ <- IN", "(<-<-c@)"},
	{"empty interface", "", "var i@ any = IN", "i@.(func())"},
	{"asserted ok", "", "var i@ any = IN; r@, _ := i@.(func())", "r@"},
	{"type switch", "", "var t@ func(); switch x := any(IN).(type) { case int: case func(): t@ = x }", "t@"},
	{"interface slice", "", "s@ := []any{1, IN}", "s@[1].(func())"},
	{"parameter and result", "func Id@(f func()) func() { return f }\n", "", "H.Id@(IN)"},
	{"two results", "func Two@(f func()) (int, func()) { return 0, f }\n", "_, t@ := H.Two@(IN)", "t@"},
	{"forwarded results", "func Two@(f func()) (func(), int) { return f, 0 }\nfunc One@(f func(), n int) func() { return f }\n", "", "H.One@(H.Two@(IN))"},
	{"named result", "func Nm@(f func()) (r func()) { r = f; return }\n", "", "H.Nm@(IN)"},
	{"deferred result", "func Dn@(f func()) (r func()) { defer func() { r = f }(); return nil }\n", "", "H.Dn@(IN)"},
	{"variadic", "func Var@(fs ...func()) func() { return fs[len(fs)-1] }\n", "", "H.Var@(nil, IN)"},
	{"variadic spread", "func Var@(fs ...func()) func() { return fs[0] }\n", "", "H.Var@([]func(){IN}...)"},
	{"recursive helper", "func Rec@(n int, f func()) func() { if n == 0 { return f }; return Rec@(n-1, f) }\n", "", "H.Rec@(3, IN)"},
	{"out parameter", "func Out@(p *func(), f func()) { *p = f }\n", "var o@ func(); H.Out@(&o@, IN)", "o@"},
	{"generic identity", "func Gid@[T any](x T) T { return x }\n", "", "H.Gid@(IN)"},
	{"explicit generic", "func Gid@[T any](x T) T { return x }\n", "", "H.Gid@[func()](IN)"},
	{"generic value", "func Gid@[T any](x T) T { return x }\n", "g@ := H.Gid@[func()]", "g@(IN)"},
	{"generic struct", "type GS@[T any] struct{ V T }\nfunc (g GS@[T]) Get() T { return g.V }\n", "", "H.GS@[func()]{IN}.Get()"},
	{"generic pointer", "type GP@[T any] struct{ v T }\nfunc (g *GP@[T]) Set(v T) { g.v = v }\nfunc (g *GP@[T]) Get() T { return g.v }\n", "var g@ H.GP@[func()]; g@.Set(IN)", "g@.Get()"},
	{"generic function type", "func GF@[F ~func()](f F) func() { return f }\n", "", "H.GF@(IN)"},
	{"generic two parameters", "func GM@[A, B any](a A, f func(A) B) B { return f(a) }\n", "", "H.GM@(IN, func(f func()) func() { return f })"},
	{"generic nested", "func GN@[T any](x T) T { return GO@[T](x) }\nfunc GO@[U any](x U) U { return x }\n", "", "H.GN@(IN)"},
	{"generic slice", "func GL@[T any](xs []T) T { return xs[0] }\n", "", "H.GL@([]func(){IN})"},
	{"generic constraint method", hA + hI + "func GC@[T I@](t T) func() { return t.Run }\n", "", "H.GC@(H.A@{IN})"},
	{"generic constraint call", hPA + hI + "func GC@[T I@](t T) func() { return func() { t.Run() } }\n", "", "H.GC@(&H.PA@{IN})"},
	{"generic interface", hA + "type GI@[T any] interface{ Run(); X(T) }\ntype GA@ struct{ A@ }\nfunc (GA@) X(int) {}\n", "var g@ H.GI@[int] = H.GA@{H.A@{IN}}", "g@.Run"},
	{"method of instantiated type", hI + "type GV@[T any] struct{ F func(); X T }\nfunc (g GV@[T]) Run() { g.F() }\n", "var g@ H.I@ = H.GV@[int]{F: IN}", "g@.Run"},
	{"pointer method of instantiated type", hI + "type GV@[T any] struct{ F func(); X T }\nfunc (g *GV@[T]) Run() { g.F() }\n", "var g@ H.I@ = &H.GV@[int]{F: IN}", "g@.Run"},
	{"pointer to instantiated type", hI + "type GV@[T any] struct{ F func(); X T }\nfunc (g GV@[T]) Run() { g.F() }\n", "var g@ H.I@ = &H.GV@[int]{F: IN}", "g@.Run"},
	{"instantiated type in type", hI + "type GV@[T any] struct{ X T }\nfunc (g GV@[T]) Run() { any(g.X).(func())() }\n", "var g@ H.I@ = H.GV@[func()]{IN}", "g@.Run"},
	{"instantiated type of interface", hA + hI + "type GV@[T I@] struct{ X T }\nfunc (g GV@[T]) Run() { g.X.Run() }\n", "var g@ H.I@ = H.GV@[H.A@]{H.A@{IN}}", "func() { g@.Run() }"},
	{"instantiated type passed on", hI + "type GV@[T any] struct{ F func(); X T }\nfunc (g GV@[T]) Run() { g.F() }\nfunc Mk@[T any](f func()) I@ { return GV@[T]{F: f} }\n", "", "H.Mk@[string](IN).Run"},
	{"instantiated error", "type GR@[T any] struct{ F func() }\nfunc (g *GR@[T]) Error() string { g.F(); return \"\" }\n", "var g@ error = &H.GR@[[]int]{IN}", "func() { _ = g@.Error() }"},
	{"instantiated type embedded", hI + "type GV@[T any] struct{ F func() }\nfunc (g GV@[T]) Run() { g.F() }\ntype GW@ struct{ GV@[int] }\n", "var g@ H.I@ = H.GW@{H.GV@[int]{IN}}", "g@.Run"},
	{"instantiated function type", hI + "type GU@[T any] func(...T)\nfunc (g GU@[T]) Run() { g() }\n", "f@ := IN; var g@ H.I@ = H.GU@[int](func(...int) { f@() })", "g@.Run"},
	{"generic embedded", "type GB@[T any] struct{ V T }\nfunc (g GB@[T]) Get() T { return g.V }\ntype GE@ struct{ GB@[func()] }\n", "", "H.GE@{H.GB@[func()]{IN}}.Get()"},
	{"closure result", "", "x@ := IN; w@ := func() func() { return x@ }", "w@()"},
	{"wrapping closure", "", "x@ := IN", "func() { x@() }"},
	{"nested closure", "", "x@ := IN", "func() func() { return func() { x@() } }()"},
	{"assigned in closure", "", "var v@ func(); x@ := IN; func() { v@ = x@ }()", "v@"},
	{"deferred assignment", "", "var v@ func(); x@ := IN; func() { defer func() { v@ = x@ }() }()", "v@"},
	{"shared closures", "func Box@() (func(func()), func() func()) { var f func(); return func(g func()) { f = g }, func() func() { return f } }\n", "set@, get@ := H.Box@(); set@(IN)", "get@()"},
	{"loop variable", "", "var fs@ []func(); for _, x := range []func(){IN} { fs@ = append(fs@, func() { x() }) }", "fs@[0]"},
	{"curried", "func Cur@(f func()) func() func() { return func() func() { return f } }\n", "", "H.Cur@(IN)()"},
	{"callback", "func Cb@(k func(func()), f func()) { k(f) }\n", "var v@ func(); H.Cb@(func(f func()) { v@ = f }, IN)", "v@"},
	{"pointer to function", "", "x@ := IN; p@ := &x@", "(*p@)"},
	{"pointer to pointer", "", "x@ := IN; p@ := &x@; q@ := &p@", "(**q@)"},
	{"new", "", "p@ := new(func()); *p@ = IN", "(*p@)"},
	{"element pointer", "", "s@ := []func(){IN}; p@ := &s@[0]", "(*p@)"},
	{"field pointer", hS, "s@ := H.S@{F: IN}; p@ := &s@.F", "(*p@)"},
	{"defined function type", "type NF@ func()\n", "", "(func())(H.NF@(IN))"},
	{"method of function type", "type NF@ func()\nfunc (f NF@) Run() { f() }\n", "", "H.NF@(IN).Run"},
	{"alias", "type AF@ = func()\n", "var v@ H.AF@ = IN", "v@"},
	{"method value", hA, "", "H.A@{IN}.Run"},
	{"pointer method value", hPA, "", "(&H.PA@{IN}).Run"},
	{"addressed method value", hPA, "a@ := H.PA@{IN}", "a@.Run"},
	{"value method on pointer", hA, "a@ := &H.A@{IN}", "a@.Run"},
	{"method expression", hA, "x@ := H.A@{IN}; e@ := H.A@.Run", "func() { e@(x@) }"},
	{"pointer method expression", hPA, "x@ := H.PA@{IN}; e@ := (*H.PA@).Run", "func() { e@(&x@) }"},
	{"pointer expression of value", hA, "x@ := H.A@{IN}; e@ := (*H.A@).Run", "func() { e@(&x@) }"},
	{"interface method expression", hA + hI, "x@ := H.A@{IN}; e@ := H.I@.Run", "func() { e@(x@) }"},
	{"interface method value", hA + hI, "var i@ H.I@ = H.A@{IN}", "i@.Run"},
	{"interface method", hPA + hI, "var i@ H.I@ = &H.PA@{IN}", "func() { i@.Run() }"},
	{"interface parameter", hA + hI + "func Do@(i I@) func() { return i.Run }\n", "", "H.Do@(H.A@{IN})"},
	{"interface field", hA + hI + "type IF@ struct{ I I@ }\n", "", "H.IF@{H.A@{IN}}.I.Run"},
	{"interface map", hA + hI, "m@ := map[string]H.I@{\"a\": H.A@{IN}}", "m@[\"a\"].Run"},
	{"interface key", hPA + hI, "m@ := map[H.I@]int{&H.PA@{IN}: 1}; var r@ func(); for k := range m@ { r@ = k.Run }", "r@"},
	{"interface slice of", hPA + hI, "s@ := []H.I@{&H.PA@{IN}}", "s@[0].Run"},
	{"interface to interface", hA + hI + "type J@ interface{ I@ }\n", "var j@ H.J@ = H.A@{IN}; var i@ H.I@ = j@", "i@.Run"},
	{"asserted interface", hA + hI, "var x@ any = H.A@{IN}", "x@.(H.I@).Run"},
	{"asserted concrete", hA, "var x@ any = H.A@{IN}", "x@.(H.A@).Run"},
	{"switched interface", hA + hI, "var r@ func(); switch x := any(H.A@{IN}).(type) { case H.I@: r@ = x.Run }", "r@"},
	{"anonymous interface", hA, "var i@ interface{ Run() } = H.A@{IN}", "i@.Run"},
	{"embedded struct", hA + "type E@ struct{ A@ }\n", "", "H.E@{H.A@{IN}}.Run"},
	{"embedded pointer", hPA + "type E@ struct{ *PA@ }\n", "", "H.E@{&H.PA@{IN}}.Run"},
	{"embedded twice", hA + "type E@ struct{ A@ }\ntype E2@ struct{ N int; *E@ }\n", "", "H.E2@{1, &H.E@{H.A@{IN}}}.Run"},
	{"embedded interface", hA + hI + "type E@ struct{ I@ }\n", "", "H.E@{H.A@{IN}}.Run"},
	{"promoted through interface", hA + hI + "type E@ struct{ N int; A@ }\n", "var i@ H.I@ = H.E@{1, H.A@{IN}}", "i@.Run"},
	{"promoted pointer through interface", hPA + hI + "type E@ struct{ N int; PA@ }\n", "var i@ H.I@ = &H.E@{1, H.PA@{IN}}", "i@.Run"},
	{"embedded interface through interface", hA + hI + "type E@ struct{ I@; N int }\n", "var i@ H.I@ = &H.E@{H.A@{IN}, 1}", "i@.Run"},
	{"overridden method", hA + hI + "type E@ struct{ A@ }\nfunc (e E@) Run() { e.A@.Run() }\n", "var i@ H.I@ = H.E@{H.A@{IN}}", "i@.Run"},
	{"local type", "", "type lt@ struct{ f func() }; l@ := lt@{IN}", "l@.f"},
	{"either branch", "func T@() bool { return true }\n", "var c@ func(); if H.T@() { c@ = IN } else { c@ = func() {} }", "c@"},
	{"switch branch", "func N@() int { return 2 }\n", "var c@ func(); switch H.N@() { case 1: c@ = nil; case 2: c@ = IN }", "c@"},
	{"fallthrough", "func N@() int { return 2 }\n", "var c@ func(); x@ := IN; switch H.N@() { case 2: fallthrough; case 1: c@ = x@ }", "c@"},
	{"loop carried", "", "var p@, c@ func(); x@ := IN; for i := 0; i < 3; i++ { c@ = p@; p@ = x@ }", "c@"},
	{"goto", "", "var c@ func(); x@ := IN; i@ := 0\nL@:\n\tif i@ < 2 { i@++; c@ = x@; goto L@ }", "c@"},
	{"parallel assignment", "", "a@, b@ := func() {}, IN; a@, b@ = b@, a@", "a@"},
	{"panic and recover", "", "var r@ func(); x@ := IN; func() { defer func() { r@ = recover().(func()) }(); panic(x@) }()", "r@"},
	{"range over function", "func Seq@(f func()) func(func(func()) bool) { return func(y func(func()) bool) { y(f) } }\n", "var r@ func(); for x := range H.Seq@(IN) { r@ = x }", "r@"},
	{"range over method", "type Sq@ struct{ F func() }\nfunc (s Sq@) All(y func(int, func()) bool) { y(0, s.F) }\n", "var r@ func(); for _, x := range (H.Sq@{IN}).All { r@ = x }", "r@"},
	{"range over generic", "func GSeq@[T any](xs []T) func(func(T) bool) { return func(y func(T) bool) { for _, x := range xs { if !y(x) { return } } } }\n", "var r@ func(); for x := range H.GSeq@([]func(){IN}) { r@ = x }", "r@"},
	{"unexported implementation", hI + "type u@ struct{ f func() }\nfunc (u u@) Run() { u.f() }\nfunc New@(f func()) I@ { return u@{f} }\n", "", "H.New@(IN).Run"},
	{"init assigned", "var Hook@ func(func()) func()\nfunc init() { Hook@ = func(f func()) func() { return f } }\n", "", "H.Hook@(IN)"},
	{"initialiser assigned", "var Hook@ = func(f func()) func() { return f }\n", "", "H.Hook@(IN)"},
	{"registry", "var reg@ = map[string]func(){}\nfunc Reg@(n string, f func()) { reg@[n] = f }\nfunc Get@(n string) func() { return reg@[n] }\n", "H.Reg@(\"a\", IN)", "H.Get@(\"a\")"},
	{"method of map type", "type MT@ map[string]func()\nfunc (m MT@) Get(k string) func() { return m[k] }\n", "", "H.MT@{\"a\": IN}.Get(\"a\")"},
	{"builder chain", "type Bd@ struct{ f func() }\nfunc (b *Bd@) With(f func()) *Bd@ { b.f = f; return b }\nfunc (b *Bd@) Build() func() { return b.f }\n", "", "new(H.Bd@).With(IN).Build()"},
	{"options", "type Op@ func(*Cf@)\ntype Cf@ struct{ F func() }\nfunc W@(f func()) Op@ { return func(c *Cf@) { c.F = f } }\nfunc Mk@(os ...Op@) *Cf@ { c := &Cf@{}; for _, o := range os { o(c) }; return c }\n", "", "H.Mk@(H.W@(IN)).F"},
}

// limits are conduits that the call-graph construction is known not to follow;
// each is decided on its own, as a known finding.
var limits = []conduit{
	{"channel ok", "", "c@ := make(chan func(), 1); c@ <- IN; r@, _ := <-c@", "r@"},
	{"channel range", "", "c@ := make(chan func(), 1); c@ <- IN; close(c@); var r@ func(); for x := range c@ { r@ = x }", "r@"},
	{"converted struct", "type C@ struct{ F func() }\ntype D@ struct{ F func() }\n", "", "H.D@(H.C@{IN}).F"},
}

// An invocation runs an expression E of type func() in a function F, method
// or initialiser.
type invocation struct {
	name   string
	helper string
	src    string // declaration(s); BODY is the statements, E the expression
	subj   []string
}

var invocations = []invocation{
	{"call", "", "func F() { BODY; E() }", []string{"P.F"}},
	{"defer", "", "func F() { BODY; defer E() }", []string{"P.F"}},
	{"go", "", "func F() { BODY; go E() }", []string{"P.F"}},
	{"called closure", "", "func F() { BODY; func() { E() }() }", []string{"P.F"}},
	{"deferred closure", "", "func F() { defer func() { BODY; E() }() }", []string{"P.F"}},
	{"goroutine closure", "", "func F() { BODY; f := E; go func() { f() }() }", []string{"P.F"}},
	{"recovering", "", "func F() { BODY; f := E; defer func() { if recover() != nil { f() } }(); panic(1) }", []string{"P.F"}},
	{"helper", "func Call(f func()) { f() }\n", "func F() { BODY; H.Call(E) }", []string{"P.F"}},
	{"generic helper", "func GCall[F ~func()](f F) { f() }\n", "func F() { BODY; H.GCall(E) }", []string{"P.F"}},
	{"applied", "func App[T any](t T, k func(T)) { k(t) }\n", "func F() { BODY; H.App(E, func(f func()) { f() }) }", []string{"P.F"}},
	{"interface", "type Run interface{ Run() }\ntype RunF func()\nfunc (f RunF) Run() { f() }\n", "func F() { BODY; var i H.Run = H.RunF(E); i.Run() }", []string{"P.F"}},
	{"iterated", "func It(f func()) func(func() bool) { return func(y func() bool) { f(); y() } }\n", "func F() { BODY; for range H.It(E) { } }", []string{"P.F"}},
	{"loop body", "func Rep(y func(int) bool) { y(1) }\n", "func F() { BODY; for range H.Rep { E() } }", []string{"P.F"}},
	{"nested loop body", "func Rep(y func(int) bool) { y(1) }\n", "func F() { BODY; for range H.Rep { for range H.Rep { E(); return } } }", []string{"P.F"}},
	{"deferred in loop body", "func Rep(y func(int) bool) { y(1) }\n", "func F() { BODY; for range H.Rep { defer E() } }", []string{"P.F"}},
	{"expression", "", "func F() { BODY; if func() bool { E(); return true }() { return } }", []string{"P.F"}},
	{"argument", "func Use(...any) {}\n", "func F() { BODY; H.Use(func() int { E(); return 1 }()) }", []string{"P.F"}},
	{"branches", "func B(n int) bool { return n == 0 }\n", "func F() { BODY; for i := 0; i < 2; i++ { switch { case H.B(i): E(); default: } } }", []string{"P.F"}},
	{"method", "", "type T struct{}\nfunc (T) M() { BODY; E() }\nfunc F() { T{}.M() }", []string{"P.F", "(P.T).M"}},
	{"pointer method", "", "type T struct{ n int }\nfunc (t *T) M() { BODY; E() }\nfunc F() { t := T{}; t.M() }", []string{"P.F", "(*P.T).M"}},
	{"embedded method", "", "type t struct{}\nfunc (t) M() { BODY; E() }\ntype U struct{ t }\nfunc F() { U{}.M() }", []string{"P.F"}},
	{"generic function", "", "func GG[T any](T) { BODY; E() }\nfunc F() { GG(1) }", []string{"P.F", "P.GG"}},
	{"generic method", "", "type GT[T any] struct{}\nfunc (GT[T]) M() { BODY; E() }\nfunc F() { GT[int]{}.M() }", []string{"P.F"}},
	{"recursion", "", "func F() { rec(3) }\nfunc rec(n int) { if n > 0 { rec2(n); return }; BODY; E() }\nfunc rec2(n int) { rec(n - 1) }", []string{"P.F", "P.rec", "P.rec2"}},
	{"init", "", "func init() { BODY; E() }", []string{"P.init"}},
	{"variable", "", "var V = func() int { BODY; E(); return 1 }()", []string{"P.init"}},
	{"variable through function", "", "var V = early()\nfunc early() int { BODY; E(); return 1 }", []string{"P.init", "P.early"}},
	{"select", "", "func F() { BODY; c := make(chan int, 1); c <- 1; select { case <-c: E(); default: } }", []string{"P.F"}},
	{"labelled", "", "func F() { BODY; f := E\nOuter:\n\tfor { for { f(); break Outer } } }", []string{"P.F"}},
	{"exported hook", "var Hk func()\n", "func F() { BODY; H.Hk = E; fire() }\nfunc fire() { H.Hk() }", []string{"P.F", "P.fire"}},
}

// formProgram renders the composition of an invocation and conduits (outermost
// first) around the function leaf.  remote puts the helpers into another
// package.  It returns the body of the package, the helper declarations and
// the functions expected to reach the leaf.
func formProgram(inv invocation, cs []conduit, leaf string, remote bool, pkg string, base int) (src, helpers string, subj []string) {
	expr, stmts := leaf, ""
	q := ""
	if remote {
		q = "hp."
	}
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		n := fmt.Sprint(base + i)
		r := strings.NewReplacer("H.", q, "@", n, "IN", expr)
		if c.stmts != "" {
			stmts += r.Replace(c.stmts) + "; "
		}
		expr = r.Replace(c.out)
		helpers += strings.ReplaceAll(c.helper, "@", n)
	}
	helpers += inv.helper
	src = strings.ReplaceAll(inv.src, "BODY; ", stmts)
	// E is a word of its own.
	var b strings.Builder
	for i := 0; i < len(src); i++ {
		if src[i] == 'E' && (i == 0 || !isIdent(src[i-1])) && (i+1 == len(src) || !isIdent(src[i+1])) {
			b.WriteString(expr)
			continue
		}
		b.WriteByte(src[i])
	}
	src = strings.ReplaceAll(b.String(), "H.", q)
	for _, s := range inv.subj {
		subj = append(subj, strings.ReplaceAll(s, "P.", pkg+"."))
	}
	return src, helpers, subj
}

func isIdent(c byte) bool { return isLetter(c) || '0' <= c && c <= '9' }
