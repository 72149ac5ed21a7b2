package checks

import (
	"fmt"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// Methods of declared and instantiated types, called in every way.

// c03Types declare a type R with a method Run (of the value mk, made in package
// p where H is the package of the declarations) which calls the function K of
// its package.  A stands for the type argument.
var c03Types = []struct{ name, decl, typ, mk string }{
	{"struct", "type R struct{}\nfunc (R) Run() { K() }\n", "H.R", "H.R{}"},
	{"pointer", "type R struct{}\nfunc (*R) Run() { K() }\n", "*H.R", "&H.R{}"},
	{"pointer to struct", "type R struct{}\nfunc (R) Run() { K() }\n", "*H.R", "&H.R{}"},
	{"integer", "type R int\nfunc (R) Run() { K() }\n", "H.R", "H.R(1)"},
	{"function", "type R func()\nfunc (R) Run() { K() }\n", "H.R", "H.R(nil)"},
	{"generic struct", "type R[T any] struct{ X T }\nfunc (R[T]) Run() { K() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic pointer", "type R[T any] struct{ X *T }\nfunc (*R[T]) Run() { K() }\n", "*H.R[A]", "&H.R[A]{}"},
	{"pointer to generic", "type R[T any] struct{ X T }\nfunc (R[T]) Run() { K() }\n", "*H.R[A]", "&H.R[A]{}"},
	{"generic new", "type R[T any] struct{ X T }\nfunc (*R[T]) Run() { K() }\nfunc NewR[T any]() *R[T] { return &R[T]{} }\n", "*H.R[A]", "H.NewR[A]()"},
	{"generic slice", "type R[T any] []T\nfunc (R[T]) Run() { K() }\n", "H.R[A]", "H.R[A](nil)"},
	{"generic map", "type R[T any] map[string]T\nfunc (R[T]) Run() { K() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic function", "type R[T any] func(T)\nfunc (R[T]) Run() { K() }\n", "H.R[A]", "H.R[A](nil)"},
	{"generic channel", "type R[T any] chan T\nfunc (R[T]) Run() { K() }\n", "H.R[A]", "H.R[A](nil)"},
	{"two parameters", "type R[T, U any] struct{ X T; Y U }\nfunc (R[T, U]) Run() { K() }\n", "H.R[A, string]", "H.R[A, string]{}"},
	{"blank parameter", "type R[T any] struct{}\nfunc (R[_]) Run() { K() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic helper method", "type R[T any] struct{}\nfunc (r R[T]) Run() { r.run() }\nfunc (R[T]) run() { K() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic calling function", "type R[T any] struct{}\nfunc (r R[T]) Run() { run[T]() }\nfunc run[T any]() { K() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic with closure", "type R[T any] struct{}\nfunc (r R[T]) Run() { f := func() { K() }; f() }\n", "H.R[A]", "H.R[A]{}"},
	{"generic with defer", "type R[T any] struct{}\nfunc (r R[T]) Run() { defer func() { go K() }() }\n", "H.R[A]", "H.R[A]{}"},
	{"embedded generic", "type B[T any] struct{ X T }\nfunc (B[T]) Run() { K() }\ntype R struct{ B[int] }\n", "H.R", "H.R{}"},
	{"embedded generic pointer", "type B[T any] struct{ X T }\nfunc (*B[T]) Run() { K() }\ntype R struct{ *B[int] }\n", "H.R", "H.R{&H.B[int]{}}"},
	{"generic embedding generic", "type B[T any] struct{ X T }\nfunc (B[T]) Run() { K() }\ntype R[T any] struct{ B[T] }\n", "H.R[A]", "H.R[A]{}"},
	{"generic embedding generic pointer", "type B[T any] struct{ X T }\nfunc (*B[T]) Run() { K() }\ntype R[T any] struct{ B[[]T] }\n", "*H.R[A]", "&H.R[A]{}"},
	{"generic embedding type", "type B struct{}\nfunc (B) Run() { K() }\ntype R[T any] struct{ B; X T }\n", "H.R[A]", "H.R[A]{}"},
	{"generic embedding interface", "type B struct{}\nfunc (B) Run() { K() }\ntype R[T any] struct{ I; X T }\n", "H.R[A]", "H.R[A]{I: H.B{}}"},
	{"nested instances", "type B[T any] struct{ X T }\nfunc (B[T]) Run() { K() }\ntype W[T any] struct{ In B[T] }\nfunc (w W[T]) Run() { w.In.Run() }\ntype R[T any] struct{ In W[B[T]] }\nfunc (r R[T]) Run() { r.In.Run() }\n", "H.R[A]", "H.R[A]{}"},
	{"recursive", "type R[T any] struct{ Next *R[T]; X *T }\nfunc (r *R[T]) Run() { if r.Next != nil { r.Next.Run() }; K() }\n", "*H.R[A]", "&H.R[A]{}"},
	{"constrained", "type B struct{}\nfunc (B) Run() { K() }\ntype R[T I] struct{ X T }\nfunc (r R[T]) Run() { r.X.Run() }\n", "H.R[H.B]", "H.R[H.B]{}"},
	{"constrained by interface", "type B struct{}\nfunc (B) Run() { K() }\ntype R[T I] struct{ X T }\nfunc (r R[T]) Run() { r.X.Run() }\n", "H.R[H.I]", "H.R[H.I]{H.B{}}"},
	{"constrained by generic", "type B[T any] struct{}\nfunc (B[T]) Run() { K() }\ntype R[T I] struct{ X T }\nfunc (r R[T]) Run() { r.X.Run() }\n", "H.R[H.B[A]]", "H.R[H.B[A]]{}"},
	{"constrained by pointer method", "type B struct{}\nfunc (*B) Run() { K() }\ntype R[T any, P interface{ *T; Run() }] struct{ X T }\nfunc (r *R[T, P]) Run() { P(&r.X).Run() }\n", "*H.R[H.B, *H.B]", "&H.R[H.B, *H.B]{}"},
	{"alias", "type B[T any] struct{}\nfunc (B[T]) Run() { K() }\ntype R = B[int]\n", "H.R", "H.R{}"},
	{"defined from generic", "type B[T any] struct{}\nfunc (B[T]) Run() {}\ntype R B[int]\nfunc (R) Run() { K() }\n", "H.R", "H.R{}"},
	{"interface in generic", "type B struct{}\nfunc (B) Run() { K() }\ntype R[T any] interface{ Run() }\n", "H.R[A]", "H.R[A](H.B{})"},
	{"interface in generic of generic", "type B[T any] struct{}\nfunc (B[T]) Run() { K() }\ntype R[T any] interface{ Run() }\n", "H.R[A]", "H.R[A](H.B[A]{})"},
}

// c03Args are type arguments.
var c03Args = []string{"int", "string", "struct{}", "[]int", "func()", "any", "error", "H.I", "H.Q", "*H.Q", "H.Z[int]", "map[string]H.Z[H.Q]", "loc", "interface{ Run() }"}

// c03Calls call the method Run of the value V of type R.
var c03Calls = []struct{ name, body string }{
	{"call", "@V.Run()"},
	{"variable", "v := @V; v.Run()"},
	{"method value", "v := @V; f := v.Run; f()"},
	{"method expression", "f := (@R).Run; f(@V)"},
	{"interface", "var i H.I = @V; i.Run()"},
	{"deferred interface", "var i H.I = @V; defer i.Run()"},
	{"go interface", "var i H.I = @V; go i.Run()"},
	{"literal interface", "var i interface{ Run() } = @V; i.Run()"},
	{"larger interface", "var i H.I2 = H.Add{@V}; i.Run()"},
	{"interface method value", "var i H.I = @V; f := i.Run; f()"},
	{"interface method expression", "f := H.I.Run; f(@V)"},
	{"interface parameter", "H.Call(@V)"},
	{"interface result", "func() H.I { return @V }().Run()"},
	{"assertion", "var x any = @V; x.(H.I).Run()"},
	{"assertion to type", "var x any = @V; x.(@R).Run()"},
	{"switch", "var x any = @V; switch y := x.(type) { case int: _ = y; case H.I: y.Run() }"},
	{"struct field", "s := struct{ i H.I }{@V}; s.i.Run()"},
	{"slice", "s := []H.I{@V}; for _, i := range s { i.Run() }"},
	{"map", "m := map[string]H.I{}; m[\"a\"] = @V; m[\"a\"].Run()"},
	{"channel", "c := make(chan H.I, 1); c <- @V; (<-c).Run()"},
	{"global", "H.G = @V; H.G.Run()"},
	{"closure", "var i H.I = @V; func() { i.Run() }()"},
	{"generic parameter", "H.GCall(@V)"},
	{"generic method value", "H.GVal(@V)()"},
	{"generic container", "H.Box[H.I]{@V}.Get().Run()"},
	{"generic container of type", "H.Box[@R]{@V}.Get().Run()"},
	{"generic pointer container", "b := &H.Box[H.I]{}; b.Set(@V); b.Get().Run()"},
	{"generic conversion", "H.Conv(@V).Run()"},
	{"embedded in struct", "s := struct{ H.I }{@V}; s.Run()"},
	{"embedded in interface value", "var i H.I = struct{ H.I }{@V}; i.Run()"},
	{"embedded in generic", "var i H.I = H.Emb[int]{I: @V}; i.Run()"},
	{"sequence", "for i := range H.Seq[H.I](@V) { i.Run() }"},
	{"sequence of type", "for i := range H.Seq(@V) { i.Run() }"},
	{"variadic", "H.All(@V, @V)"},
	{"generic variadic", "H.GAll(@V)"},
	{"function table", "t := []func(){@V.Run}; t[0]()"},
	{"comparison to nil", "var i H.I; if i == nil { i = @V }; i.Run()"},
	{"pointer to interface", "var i H.I = @V; p := &i; (*p).Run()"},
}

const c03Helpers = `type I interface{ Run() }
type I2 interface { I; Other() }
type Add struct{ I }
func (Add) Other() {}
type Q struct{ n int }
type Z[T any] struct{ x T }
var G I
func Call(i I) { i.Run() }
func GCall[T I](t T) { t.Run() }
func GVal[T I](t T) func() { return t.Run }
func Conv[T I](t T) I { return t }
type Box[T any] struct{ V T }
func (b Box[T]) Get() T { return b.V }
func (b *Box[T]) Set(v T) { b.V = v }
type Emb[T any] struct{ I; X T }
func Seq[T any](t T) func(func(T) bool) { return func(y func(T) bool) { y(t) } }
func All(is ...I) { for _, i := range is { i.Run() } }
func GAll[T I](ts ...T) { for _, t := range ts { t.Run() } }
`

var c03Instances = mc.Engine{Name: "methods of types", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	for i, ty := range c03Types {
		for j, arg := range c03Args {
			if j > 0 && !strings.Contains(ty.typ, "A") {
				continue
			}
			for k, call := range c03Calls {
				if tier != "thorough" && j > 0 && (i+j+k)%3 != 0 {
					continue
				}
				for _, remote := range []bool{false, true} {
					if remote && strings.Contains(arg, "loc") && strings.Contains(ty.decl, "type B struct") {
						continue
					}
					yield(func() string {
						return fmt.Sprintf("%s of %s, %s, other package=%v", ty.name, arg, call.name, remote)
					}, func(t *mc.T) {
						body := strings.NewReplacer("@V", "("+ty.mk+")", "@R", ty.typ).Replace(call.body)
						body = strings.ReplaceAll(body, "[A", "["+arg)
						decl := ty.decl + c03Helpers
						head := "package p\n\n"
						var pkgs []syn.Pkg
						leaf := "type loc struct{}\n"
						if remote {
							body = strings.ReplaceAll(body, "H.", "hp.")
							pkgs = append(pkgs, syn.One("example.com/hp", "package hp\n\nfunc K() { leaf() }\nfunc leaf() {}\n\n"+decl))
							head += "import \"example.com/hp\"\n\n"
						} else {
							body = strings.ReplaceAll(body, "H.", "")
							leaf += "func K() { leaf() }\nfunc leaf() {}\n\n" + decl
						}
						pkgs = append(pkgs, syn.One("example.com/p", head+leaf+"\nfunc F() { "+body+" }\n"))
						c := &srcCase{pkgs: pkgs, query: []string{"example.com/p"}, cm: "func example.com/p.leaf CAPABILITY_FILES\nfunc example.com/hp.leaf CAPABILITY_FILES\n"}
						got := c.analyse(t)
						if !oneOf(cpb.Capability_CAPABILITY_FILES, got["example.com/p.F"]) {
							t.Fail("F runs the operation but is not reported with its capability")
							t.Detail(showCaps(got))
							c.describe(t)
						}
						t.State(int64(len(got)), 1)
						t.Outcome(showCaps(got))
					})
				}
			}
		}
	}
}}
