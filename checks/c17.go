package checks

import (
	"errors"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/prototext"

	"verif/internal/mapctl"
	"verif/internal/mc"
	"verif/internal/syn"
)

// C17: output is deterministic.

// c17Prog is a program built to contain ties.
type c17Prog struct {
	name    string
	pkgs    []syn.Pkg
	query   []string
	cm      string
	builtin bool
}

func c17Mod(p syn.Pkg, path, version string, ignored ...string) syn.Pkg {
	p.Module = &packages.Module{Path: path, Version: version}
	p.Ignored = ignored
	return p
}

const c17Leaf = `package lf

func A() {}
func B() {}
func C() {}
func D() {}
func E() {}
`

const c17LeafMap = `func example.com/lf.A CAPABILITY_FILES
func example.com/lf.B CAPABILITY_FILES
func example.com/lf.C CAPABILITY_NETWORK
func example.com/lf.D CAPABILITY_NETWORK
func example.com/lf.E CAPABILITY_EXEC
`

func c17Programs() []c17Prog {
	lf := syn.One("example.com/lf", c17Leaf)
	calls := "import \"example.com/lf\"\n\n"
	var ps []c17Prog
	add := func(name string, query []string, cm string, pkgs ...syn.Pkg) {
		ps = append(ps, c17Prog{name: name, pkgs: append([]syn.Pkg{lf}, pkgs...), query: query, cm: c17LeafMap + cm})
	}
	add("two ways to the same capability", []string{"example.com/a"}, "", syn.One("example.com/a", "package a\n\n"+calls+`
func F() { x(); y() }
func G() { y(); x() }
func H() { lf.B(); lf.A(); lf.D(); lf.C() }
func x() { lf.A(); lf.C() }
func y() { lf.B(); lf.D() }
`))
	add("same names in other packages", []string{"other.org/a", "example.com/a", "third.net/a", "example.com/b"}, "",
		syn.One("example.com/a", "package a\n\n"+calls+"func F() { lf.A(); lf.C() }\nfunc G() { lf.B() }\n"),
		syn.One("other.org/a", "package a\n\n"+calls+"func F() { lf.B(); lf.D() }\nfunc G() { lf.A() }\n"),
		syn.One("third.net/a", "package a\n\n"+calls+"func F() { lf.A(); lf.D(); lf.E() }\nfunc G() { lf.B() }\n"),
		syn.One("example.com/b", "package b\n\nimport (\n\t\"example.com/a\"\n\to \"other.org/a\"\n\tt \"third.net/a\"\n)\n\nfunc F() { a.F(); o.F(); t.F() }\nfunc G() { t.G(); o.G(); a.G() }\n"))
	add("implementations", []string{"example.com/a", "example.com/b"}, "",
		syn.One("example.com/i", "package i\n\ntype I interface{ M(); N() }\n\nfunc Use(x I) { x.M(); x.N() }\n"),
		syn.One("other.org/p", "package p\n\n"+calls+"type T struct{}\n\nfunc (T) M() { lf.A() }\nfunc (T) N() { lf.C() }\n"),
		syn.One("example.com/p", "package p\n\n"+calls+"type T struct{}\n\nfunc (*T) M() { lf.B() }\nfunc (*T) N() { lf.D() }\n"),
		syn.One("example.com/a", "package a\n\nimport (\n\t\"example.com/i\"\n\t\"example.com/p\"\n\to \"other.org/p\"\n)\n\nfunc F() { i.Use(&p.T{}); i.Use(o.T{}) }\nfunc G(x i.I) { x.N(); x.M() }\nvar fs = []func(){o.T{}.M, (&p.T{}).M, F}\nfunc H() { for _, f := range fs { f() } }\n"),
		syn.One("example.com/b", "package b\n\nimport \"example.com/a\"\n\ntype E struct{ X interface{ M() } }\n\nfunc (e E) M() { e.X.M() }\nfunc F() { a.H(); a.F() }\n"))
	// More than a bucket of everything.
	many, main := "package a\n\n"+calls, ""
	for i := 0; i < 12; i++ {
		many += fmt.Sprintf("func F%d() { g%d(); lf.%c() }\nfunc g%d() { lf.%c(); g%d() }\n", i, i, 'A'+i%5, i, 'A'+(i+1)%5, (i+1)%12)
		main += fmt.Sprintf("\tF%d()\n", i)
	}
	add("many functions", []string{"example.com/a"}, "", syn.One("example.com/a", many+"func All() {\n"+main+"}\n"))
	var mp []syn.Pkg
	var mq []string
	im, body := "package z\n\nimport (\n", ""
	for i := 0; i < 11; i++ {
		p := fmt.Sprintf("m%d.org/x", i%4) + fmt.Sprintf("/p%d", i)
		mp = append(mp, c17Mod(syn.One(p, "package p\n\n"+calls+fmt.Sprintf("func F() { lf.%c(); lf.%c() }\n", 'A'+i%5, 'A'+i%2)), fmt.Sprintf("m%d.org/x", i%4), "v1.0.0", fmt.Sprintf("f%d.go", i), "e.go", "f.s"))
		mq = append(mq, p)
		im += fmt.Sprintf("\tp%d %q\n", i, p)
		body += fmt.Sprintf("\tp%d.F()\n", i)
	}
	mp = append(mp, c17Mod(syn.One("z.org/z", im+")\n\nfunc F() {\n"+body+"}\n"), "z.org/z", ""))
	add("many packages", append([]string{"z.org/z"}, mq...), "", mp...)
	add("local types", []string{"example.com/a"}, "", syn.One("example.com/a", "package a\n\n"+calls+`
type M interface{ Do() }
type x struct{}
type y struct{}

func (x) Do()  { lf.A(); lf.D() }
func (*y) Do() { lf.B(); lf.C() }
func run(m M)  { m.Do() }
func F() { type T struct{ x }; run(T{}); run(&T{}) }
func G() { type T struct{ *y }; run(T{}); run(&T{}) }
func H() { type T struct{ M }; run(T{x{}}); run(T{&y{}}); f := T{x{}}.Do; f() }
func K() { f := M.Do; f(x{}); g := (*y).Do; g(nil); h := x.Do; h(x{}) }
`))
	px := syn.One("example.com/p", "package p\n\n"+calls+`
type X struct{}
type Y struct{}
type Z struct{}

func (X) Do() { lf.A(); lf.D() }
func (Y) Do() { lf.B(); lf.C() }
func (*Z) Do() { lf.A(); lf.C() }
`)
	add("local types around another package's", []string{"example.com/a"}, "", px, syn.One("example.com/a", `package a

import "example.com/p"

type M interface{ Do() }

func run(m M)  { m.Do() }
func F() { type T struct{ p.X }; run(T{}) }
func G() { type T struct{ p.Y }; run(T{}) }
func H() { type T struct{ *p.Z }; run(T{}); run(&T{}) }
`))
	add("generics over local types", []string{"example.com/a"}, "", px, syn.One("example.com/a", `package a

import "example.com/p"

type M interface{ Do() }

func run[X M](m X) { func() { m.Do() }() }
func Run(fs ...func()) { for _, f := range fs { f() } }
func F() { type T struct{ p.X }; run(T{}); Run(T{}.Do) }
func G() { type T struct{ p.Y }; run(T{}); Run(T{}.Do, p.X{}.Do) }
func H() { type T struct{ *p.Z }; run(T{}); run(&T{}); Run(T{}.Do, p.Y{}.Do) }
func K() { Run(func() { run(p.Y{}) }, func() { run(p.X{}) }) }
func _() { run(p.X{}) }
func _() { run(p.Y{}) }
`))
	add("literals and initialisers", []string{"example.com/a"}, "", syn.One("example.com/a", "package a\n\n"+calls+`
var v = func() int { lf.A(); return 1 }()
var w = func() int { lf.B(); return func() int { lf.D(); return 2 }() }()
var fs = map[string]func(){"a": func() { lf.A() }, "b": func() { lf.B() }, "c": lf.C, "d": lf.D}

func init() { lf.C() }
func init() { lf.D(); lf.E() }
func F() { for _, f := range fs { f() } }
func G() { f := func() { lf.A() }; g := func() { lf.B() }; f(); g(); defer func() { lf.E() }() }
`))
	add("generics", []string{"example.com/a"}, "",
		syn.One("example.com/t", "package t\n\n"+calls+"type T struct{}\n\nfunc (T) M() { lf.A() }\n"),
		syn.One("other.org/t", "package t\n\n"+calls+"type T struct{}\n\nfunc (T) M() { lf.B() }\n"),
		syn.One("example.com/a", `package a

import (
	"example.com/t"
	o "other.org/t"
)

type M interface{ M() }
type L[X M] struct{ x X }

func (l L[X]) Run()    { l.x.M() }
func Do[X M](x X)      { x.M(); L[X]{x}.Run() }
func Do2[X, Y M](x X, y Y) { Do(x); Do(y) }
func F()               { Do(t.T{}); Do(o.T{}) }
func G()               { Do2(o.T{}, t.T{}); Do2(t.T{}, o.T{}) }
`))
	add("extra capabilities", []string{"example.com/a", "example.com/b"}, "", syn.One("reflect", "package reflect\n\ntype Value struct{ p *int }\n"),
		syn.One("example.com/a", `package a

import (
	"example.com/lf"
	"reflect"
	"unsafe"
)

type S struct{ v reflect.Value }

var G1, G2 S

func U1() *int { return (*int)(unsafe.Pointer(nil)) }
func U2() *int { lf.A(); return (*int)(unsafe.Pointer(nil)) }
func R1(v reflect.Value) { G1.v = v }
func R2(v reflect.Value) { G2.v = v; lf.B() }
func A1()
func A2()
func F() { U1(); U2(); R1(G1.v); R2(G2.v); A1(); A2() }
func G() { A2(); A1(); R2(G1.v); R1(G2.v); U2(); U1() }
`),
		syn.One("example.com/b", "package b\n\nimport \"example.com/a\"\n\nfunc F() { a.F() }\nfunc G() { a.G(); a.F() }\n"))
	add("instances named in several ways", []string{"example.com/a", "example.com/b", "example.com/c"}, "",
		syn.One("example.com/t", "package t\n\n"+calls+"type T struct{}\n\nfunc (T) M() { lf.A() }\n\ntype P[X any] struct{ X X }\n\nfunc (p P[X]) M() { lf.B() }\n"),
		syn.One("example.com/u", "package u\n\nimport \"example.com/t\"\n\ntype T = t.T\ntype P = t.P[T]\n"),
		syn.One("example.com/g", `package g

type M interface{ M() }
type L[X M] struct{ X X }

func (l L[X]) Run()       { l.X.M() }
func (l *L[X]) RunP()     { func() { l.X.M() }() }
func Do[X M](x X)         { func() { x.M() }() }
func Each[X M](xs []X)    { for _, x := range xs { Do(x) } }
`),
		syn.One("example.com/a", `package a

import (
	"example.com/g"
	"example.com/t"
)

func F() { g.Do(t.T{}); g.Each([]t.T{}) }
func G() { g.L[t.T]{}.Run(); new(g.L[t.T]).RunP(); g.Do(t.P[t.T]{}) }
`),
		syn.One("example.com/b", `package b

import (
	"example.com/g"
	"example.com/u"
)

func F() { g.Do(u.T{}); g.Each([]u.T{}) }
func G() { g.L[u.T]{}.Run(); new(g.L[u.T]).RunP(); g.Do(u.P{}) }
`),
		syn.One("example.com/c", `package c

import (
	"example.com/g"
	"example.com/t"
	"example.com/u"
)

type T = u.T
type Q = t.P[u.T]

func F() { g.Do[T](u.T{}); g.Each([]T{}); g.Do[Q](u.P{}) }
func G() { g.Each[t.T](nil); g.L[T]{}.Run(); new(g.L[T]).RunP(); g.Do(Q{}) }
`))
	add("instances called through interfaces", []string{"example.com/a", "example.com/b"}, "",
		syn.One("example.com/t", "package t\n\n"+calls+"type T struct{}\n\nfunc (T) M() { lf.A() }\n\ntype U struct{}\n\nfunc (*U) M() { lf.B() }\n"),
		syn.One("example.com/g", `package g

type M interface{ M() }
type N interface{ M; N() }
type L[X M] struct{ X X }

func (l L[X]) M()  { l.X.M() }
func (l *L[X]) N() { l.X.M() }
func Run(m M)      { m.M() }
func RunN(n N)     { n.N() }
`),
		syn.One("example.com/a", `package a

import (
	"example.com/g"
	"example.com/t"
)

func F() { g.Run(g.L[t.T]{}); g.RunN(&g.L[*t.U]{}) }
func G() { g.Run(g.L[*t.U]{}); g.RunN(&g.L[t.T]{}) }
`),
		syn.One("example.com/b", `package b

import (
	"example.com/g"
	"example.com/t"
)

type V struct{ t.T }

func F() { var m g.M = &g.L[V]{}; m.M() }
func G() { var n g.N = &g.L[g.M]{t.T{}}; n.M(); n.N() }
`))
	ps = append(ps, c17Spelled())
	ps = append(ps, c17Prog{name: "rewritten calls", query: []string{"example.com/a", "example.com/b"}, cm: c04Map, builtin: true,
		pkgs: []syn.Pkg{syn.One("sort", c04Sort), syn.One("sync", c04Sync), syn.One("reflect", c06Reflect), syn.One("example.com/lf", c04Leaf), syn.One("example.com/a", c18A), syn.One("example.com/b", c18B)}})
	add("categories", []string{"example.com/a", "example.com/b", "example.com/c"}, "func example.com/b.S CAPABILITY_SAFE\npackage example.com/c CAPABILITY_RUNTIME\nfunc example.com/c.N CAPABILITY_UNSPECIFIED\nignore_edge example.com/a.I example.com/lf.A\nunanalyzed example.com/b.U\nunanalyzed example.com/b.V\n",
		syn.One("example.com/c", "package c\n\n"+calls+"func R() {}\nfunc R2() { lf.A() }\nfunc N() { lf.A(); R(); R2() }\n"),
		syn.One("example.com/b", "package b\n\n"+calls+"import \"example.com/c\"\n\nfunc S() { lf.A() }\nfunc U() { lf.A() }\nfunc V() { lf.B() }\nfunc F() { V(); U(); S(); c.R(); c.R2(); c.N() }\n"),
		syn.One("example.com/a", "package a\n\n"+calls+"import \"example.com/b\"\n\nfunc I() { lf.A(); lf.B(); b.F() }\nfunc J() { b.V(); b.U(); I() }\n"))
	for i := range ps {
		for j := range ps[i].pkgs {
			ps[i].pkgs[j].Files[0].Src = strings.Replace(ps[i].pkgs[j].Files[0].Src, "import \"example.com/lf\"\n\nimport", "import \"example.com/lf\"\nimport", 1)
		}
	}
	return ps
}

// c17Spelled is a program in which two identical types, whose methods are only
// called through interfaces, are written differently.
func c17Spelled() c17Prog {
	return c17Prog{name: "methods of a type written in two ways", query: []string{"example.com/a", "example.com/b"}, cm: c17LeafMap, pkgs: []syn.Pkg{
		syn.One("example.com/lf", c17Leaf),
		syn.One("example.com/t", "package t\n\nimport \"example.com/lf\"\n\ntype T struct{}\n\nfunc (T) M() { lf.A() }\n"),
		syn.One("example.com/g", "package g\n\ntype M interface{ M() }\ntype L[X M] struct{ X X }\n\nfunc (l L[X]) M() { l.X.M() }\nfunc Run(m M)     { m.M() }\n"),
		syn.One("example.com/a", "package a\n\nimport \"example.com/g\"\nimport \"example.com/t\"\n\nfunc F() { g.Run(g.L[t.T]{}) }\n"),
		syn.One("example.com/b", "package b\n\nimport \"example.com/g\"\nimport \"example.com/t\"\n\ntype V = t.T\n\nfunc F() { g.Run(g.L[V]{}) }\n"),
	}}
}

// c17Out is an output.
type c17Out struct{ what, text string }

// c17Kinds are the outputs compared.
var c17Kinds = [][2]string{
	{"json", "function"}, {"json", "package"}, {"json", "intermediate"}, {"", ""}, {"verbose", ""}, {"machine", "package"}, {"graph", "function"},
	{"compare", "function"}, {"compare", "package"}, {"compare", "intermediate"}, {"stats", "function"}, {"counts", ""}, {"omit", "function"}, {"omit", "package"},
}

// c17Exec loads and analyses a program in the given order of packages, and
// returns an output.
func c17Exec(t *mc.T, src []syn.Pkg, query []string, cm string, builtin bool, kind [2]string, base string) c17Out {
	prog, err := syn.Load(src)
	if err != nil {
		t.Broken("%v", err)
	}
	cls, err := interesting.LoadClassifier("c.cm", strings.NewReader(cm), !builtin)
	if err != nil {
		t.Broken("%v", err)
	}
	p := prog.Query(query...)
	return c17Run(t, p, analyzer.GetQueriedPackages(p), cls, kind, base)
}

func c17Run(t *mc.T, p []*packages.Package, q map[*types.Package]struct{}, cls analyzer.Classifier, kind [2]string, base string) c17Out {
	g, err := analyzer.GranularityFromString(kind[1])
	if err != nil {
		t.Broken("%v", err)
	}
	cfg := &analyzer.Config{Classifier: cls, Granularity: g}
	r := c17Out{what: kind[0] + " output at granularity " + kind[1]}
	var args []string
	out := kind[0]
	switch out {
	case "stats":
		r.text = prototext.Format(analyzer.GetCapabilityStats(p, q, cfg))
		return r
	case "counts":
		r.text = prototext.Format(analyzer.GetCapabilityCounts(p, q, cfg))
		return r
	case "omit":
		cfg.OmitPaths = true
		out = "json"
	case "compare":
		args = []string{base}
	}
	r.text = t.Capture(func() { err = analyzer.RunCapslock(args, out, p, q, cfg) })
	var d analyzer.DifferenceFoundError
	if err != nil && !errors.As(err, &d) {
		t.Broken("%v", err)
	}
	r.text += fmt.Sprint(err)
	if out == "graph" {
		l := strings.Split(r.text, "\n")
		sort.Strings(l)
		r.text = strings.Join(l, "\n")
	}
	return r
}

// c17Base is a baseline from which everything differs.
func c17Base(t *mc.T) string {
	f := filepath.Join(t.Scratch(), "c17.json")
	if _, err := os.Stat(f); err != nil {
		s := `{"capabilityInfo":[`
		for i, p := range []string{"example.com/a", "example.com/b", "other.org/a", "example.com/gone"} {
			for j, c := range []string{"CGO", "RUNTIME", "FILES"} {
				if i+j > 0 {
					s += ","
				}
				s += fmt.Sprintf(`{"packageName":"x","capability":"CAPABILITY_%s","depPath":"%s.Gone","path":[{"name":"%s.Gone","package":"%s"}],"packageDir":"%s","capabilityType":"CAPABILITY_TYPE_DIRECT"}`, c, p, p, p, p)
			}
		}
		if err := os.WriteFile(f, []byte(s+"]}"), 0o600); err != nil {
			t.Broken("%v", err)
		}
	}
	return f
}

var c17Warm = false

func c17Control(t *mc.T) *mapctl.State {
	s := mapctl.Control()
	if s == nil {
		t.Broken("the runtime is not under control")
	}
	if !c17Warm {
		// Fill caches.
		p := c17Programs()[0]
		for _, k := range c17Kinds {
			c17Exec(t, p.pkgs, p.query, p.cm, p.builtin, k, c17Base(t))
		}
		c17Warm = true
	}
	s.Seed, s.All, s.Nth, s.NthR, s.N = 0, 0, 0, 0, 0
	s.Pc, s.R = [4]uintptr{}, [4]uintptr{}
	return s
}

// c17Under executes f with iteration orders as set up.
func c17Under(s *mapctl.State, f func() c17Out) c17Out {
	s.Count = 0
	s.On = 1
	defer func() { s.On = 0 }()
	return f()
}

// c17Site describes a place iterating over a map.
func c17Site(pc uintptr) string {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return fmt.Sprintf("%s (%s:%d)", f.Function, filepath.Base(f.File), f.Line)
}

// c17Ours says whether a place is in the code under test.
func c17Ours(pc uintptr) bool {
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	return strings.HasPrefix(f.Function, "github.com/google/capslock/") || strings.HasPrefix(f.Function, "maps.")
}

// c17Explore explores the iteration orders of one output of a program.
func c17Explore(t *mc.T, tier string, p c17Prog, kind [2]string) {
	base := c17Base(t)
	s := c17Control(t)
	exec := func() c17Out {
		return c17Under(s, func() c17Out { return c17Exec(t, p.pkgs, p.query, p.cm, p.builtin, kind, base) })
	}
	ref := exec()
	iterations := s.Count
	t.Outcome(ref.text)
	execs := int64(1)
	cmp := func(format string, args ...any) {
		got := exec()
		execs++
		if got.text != ref.text && !t.Failed() {
			t.Fail("%s depends on the order of iteration: %s\n--- usual order\n%s\n--- other order\n%s", ref.what, fmt.Sprintf(format, args...), firstDiff(ref.text, got.text), firstDiff(got.text, ref.text))
		}
	}
	// Every place starts at r.
	for r := uintptr(1); r < 16; r++ {
		s.All = r
		cmp("every iteration starts at %d", r)
	}
	s.All = 0
	for seed := uint32(1); seed < 16; seed++ {
		s.Seed = seed
		for r := uintptr(0); r < 8; r += 3 {
			s.All = r
			cmp("every iteration starts at %d with seed %d", r, seed)
		}
	}
	s.All, s.Seed = 0, 0
	// One place starts at r; places found on the way are included.
	for i := uint32(0); i < s.N; i++ {
		for r := uintptr(1); r < 8; r++ {
			s.Pc[0], s.R[0] = s.Sites[i], r
			cmp("iteration in %s starts at %d", c17Site(s.Sites[i]), r)
		}
	}
	// Two places of the code under test.
	var ours []uintptr
	for i := uint32(0); i < s.N; i++ {
		if c17Ours(s.Sites[i]) {
			ours = append(ours, s.Sites[i])
		}
	}
	last := uintptr(3)
	if tier == "thorough" {
		last = 7
	}
	for i, a := range ours {
		for _, b := range ours[:i] {
			for ra := uintptr(1); ra <= last; ra++ {
				for rb := uintptr(1); rb <= last; rb++ {
					s.Pc[0], s.R[0], s.Pc[1], s.R[1] = a, ra, b, rb
					cmp("iteration in %s starts at %d and in %s at %d", c17Site(a), ra, c17Site(b), rb)
				}
			}
		}
	}
	s.Pc, s.R = [4]uintptr{}, [4]uintptr{}
	// One iteration starts at r.
	if tier == "thorough" || iterations < 400 {
		for n := int64(1); n <= iterations; n++ {
			for r := uintptr(1); r <= last; r++ {
				s.Nth, s.NthR = n, r
				cmp("the iteration number %d starts at %d", n, r)
			}
		}
		s.Nth = 0
	}
	t.State(execs, iterations)
	t.Add("traces", execs)
	t.Add("places", int64(s.N))
	t.Add("own places", int64(len(ours)))
}

// c17Setup builds the worker with the altered runtime.
func c17Setup(bindir string) error {
	if err := buildCommands(bindir); err != nil {
		return err
	}
	ov := filepath.Join(bindir, "overlay")
	if err := os.Mkdir(ov, 0o755); err != nil {
		return err
	}
	var dirs []string
	for _, c := range []string{"capslock", "capslock-git-diff"} {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}", "github.com/google/capslock/cmd/"+c)
		cmd.Dir = mc.Root()
		b, err := cmd.Output()
		if err != nil {
			return fmt.Errorf("finding %s: %v", c, err)
		}
		dirs = append(dirs, strings.TrimSpace(string(b)))
	}
	p, err := mapctl.Overlay(ov, dirs...)
	if err != nil {
		return err
	}
	for _, d := range dirs {
		c := filepath.Base(d)
		cmd := exec.Command("go", "build", "-overlay", p, "-o", filepath.Join(bindir, c+"-mapctl"), "github.com/google/capslock/cmd/"+c)
		cmd.Dir = mc.Root()
		if b, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("building %s with the altered runtime: %v\n%s", c, err, b)
		}
	}
	cmd := exec.Command("go", "build", "-overlay", p, "-tags", "mapctl", "-o", filepath.Join(bindir, "mc-mapctl"), "./cmd/mc")
	cmd.Dir = mc.Root()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building with the altered runtime: %v\n%s", err, b)
	}
	return nil
}

// permute calls f with every permutation of 0..n-1 reached by at most two
// swaps from the identity, and the reversal.
func permute(n int, all bool, f func([]int)) {
	id := func() []int {
		p := make([]int, n)
		for i := range p {
			p[i] = i
		}
		return p
	}
	if all && n <= 5 {
		for _, p := range perms[n] {
			f(p)
		}
		return
	}
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			p := id()
			p[i], p[j] = p[j], p[i]
			f(p)
		}
	}
	p := id()
	for i := range p {
		p[i] = n - 1 - i
	}
	f(p)
}

// c17Orders checks that the order in which packages are named does not matter.
func c17Orders(t *mc.T, p c17Prog, kind [2]string) {
	base := c17Base(t)
	s := c17Control(t)
	run := func(q []string) c17Out {
		return c17Under(s, func() c17Out { return c17Exec(t, p.pkgs, q, p.cm, p.builtin, kind, base) })
	}
	ref := run(p.query)
	permute(len(p.query), true, func(o []int) {
		q := make([]string, len(o))
		for i, k := range o {
			q[i] = p.query[k]
		}
		for r := uintptr(0); r < 4; r++ {
			s.All = r
			got := run(q)
			t.Trace()
			t.State(1, 1)
			if got.text != ref.text && !t.Failed() {
				t.Fail("%s depends on the order of packages %v\n--- usual order\n%s\n--- other order\n%s", ref.what, q, firstDiff(ref.text, got.text), firstDiff(got.text, ref.text))
			}
		}
	})
}

// c17Graph explores uniform orders for an enumerated call graph.
func c17Graph(t *mc.T, g *GCase) {
	base := c17Base(t)
	s := c17Control(t)
	src, m, err := g.render()
	if err != nil {
		t.Broken("%v", err)
	}
	var query []string
	for i, p := range g.Pkgs {
		if g.Query>>i&1 == 1 {
			query = append(query, p)
		}
	}
	for _, kind := range [][2]string{{"json", "function"}, {"graph", "function"}} {
		var ref c17Out
		for r := uintptr(0); r < 5; r++ {
			s.All = r
			got := c17Under(s, func() c17Out { return c17Exec(t, src, query, m.mapFile(), false, kind, base) })
			t.Trace()
			t.State(1, 1)
			if r == 0 {
				ref = got
				t.Outcome(got.text)
			} else if got.text != ref.text && !t.Failed() {
				t.Fail("%s depends on the order of iteration: every iteration starts at %d\n--- usual order\n%s\n--- other order\n%s", ref.what, r, firstDiff(ref.text, got.text), firstDiff(got.text, ref.text))
			}
		}
	}
}

// c17Command runs the built command with packages named in every order.
func c17Command(t *mc.T, kind [2]string) {
	b := newBox(t)
	defer b.close()
	b.write("m/go.mod", c20Mod, "m/c.cm", "func example.com/m/lf.A CAPABILITY_FILES\nfunc example.com/m/lf.B CAPABILITY_FILES\nfunc example.com/m/lf.C CAPABILITY_NETWORK\n",
		"m/lf/lf.go", "package lf\n\nfunc A() {}\nfunc B() {}\nfunc C() {}\n", "m/base.json", "{}",
		"m/a/x/x.go", "package x\n\nimport \"example.com/m/lf\"\n\nfunc F() { lf.A(); lf.C() }\n",
		"m/b/x/x.go", "package x\n\nimport \"example.com/m/lf\"\n\nfunc F() { lf.B(); lf.C() }\n",
		"m/c/c.go", "package c\n\nimport (\n\t\"example.com/m/a/x\"\n\ty \"example.com/m/b/x\"\n)\n\nfunc F() { x.F(); y.F() }\nfunc G() { y.F(); x.F() }\n")
	pk := []string{"./a/x", "./b/x", "./c", "./lf"}
	ref := ""
	for i, o := range perms[4] {
		var l []string
		for _, k := range o {
			l = append(l, pk[k])
		}
		flags := map[string]string{"packages": strings.Join(l, ","), "capability_map": "c.cm", "output": kind[0], "granularity": kind[1]}
		var args []string
		if kind[0] == "compare" {
			args = append(args, "base.json")
		}
		// The order of iteration changes with the order of the packages.
		r := b.run("m", []string{fmt.Sprintf("MC_MAP=%d,%d", i%8, i/8)}, t.Bin("capslock-mapctl"), append(c20Flags(flags), args...)...)
		t.Trace()
		t.State(1, 1)
		if r.code == 2 {
			t.Broken("%v", r)
		}
		got := r.out
		if kind[0] == "graph" {
			l := strings.Split(got, "\n")
			sort.Strings(l)
			got = strings.Join(l, "\n")
		}
		if i == 0 {
			ref = got
		} else if got != ref {
			t.Fail("output differs with -packages=%s\n--- usual order\n%s\n--- other order\n%s", strings.Join(l, ","), firstDiff(ref, got), firstDiff(got, ref))
			return
		}
	}
	t.Outcome(ref)
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C17", Level: "model_checking", Setup: c17Setup, Exe: "mc-mapctl",
		Bounds: "17 programs with ties x 14 outputs: all iterations started at each of 15 offsets and under 15 further hash seeds; each place that iterates over a map started at each of 7 offsets; each pair of places of the code under test; each single iteration; all orders of up to 5 named packages (swaps and reversal beyond); all 3-function call graphs and layouts with every iteration started at 5 offsets; the built command with 4 packages in all 24 orders and as many orders of iteration; 8 pairs of reports compared as revisions at 3 granularities under 24 (thorough 96) orders of iteration",
		Assume: []string{"the order of iteration over a map is the order the Go 1.23 runtime produces for a chosen start and seed"},
		Engines: []mc.Engine{
			{Name: "ties", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, p := range c17Programs() {
					for _, k := range c17Kinds {
						yield(func() string { return fmt.Sprintf("%s, %s output at granularity %q", p.name, k[0], k[1]) }, func(t *mc.T) { c17Explore(t, tier, p, k) })
					}
				}
			}},
			{Name: "package order", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, p := range c17Programs() {
					for _, k := range c17Kinds {
						yield(func() string { return fmt.Sprintf("%s, %s output at granularity %q", p.name, k[0], k[1]) }, func(t *mc.T) { c17Orders(t, p, k) })
					}
				}
			}},
			{Name: "command", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, k := range [][2]string{{"json", "function"}, {"json", "package"}, {"json", "intermediate"}, {"", ""}, {"verbose", ""}, {"graph", ""}, {"compare", "package"}, {"compare", "function"}} {
					yield(func() string { return fmt.Sprintf("%s output at granularity %q", k[0], k[1]) }, func(t *mc.T) { c17Command(t, k) })
				}
			}},
			{Name: "revisions", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for k := 0; k < c17Revisions; k++ {
					for _, gran := range []string{"function", "package", "intermediate"} {
						yield(func() string { return fmt.Sprintf("reports %d at granularity %q", k, gran) }, func(t *mc.T) { c17Revision(t, tier, k, gran) })
					}
				}
			}},
			{Name: "graphs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, f := range []family{famG3s, famLayouts} {
					f.enum(tier, func(g *GCase) { yield(g.ID, func(t *mc.T) { c17Graph(t, g) }) })
				}
			}},
		},
	})
}
