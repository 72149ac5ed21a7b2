package checks

import (
	"cmp"
	"fmt"
	"go/token"
	"sort"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
)

// fnStyle is a way to declare a function; it makes no difference to the
// capabilities.
type fnStyle struct {
	name          string // pattern of the name, "" for the usual one
	params, args  string
	results       string
	use           string // prefix of a call as a statement
	doc           string // above the declaration
	before, after string // first and last statements
	tparams       string // type parameters, "" for "P any"
	targs         string // type arguments, "" for "int"
	outer         string // before the definition, for closures
	alone         bool   // at most one function of a program
}

func (st fnStyle) tparam() string { return cmp.Or(st.tparams, "P any") }
func (st fnStyle) targ() string   { return cmp.Or(st.targs, "int") }

// tinst is the list of type arguments as it appears in names of functions.
func (st fnStyle) tinst(sep string) string {
	return strings.ReplaceAll(st.targ(), ", ", sep)
}

// tnames is the list of names of the type parameters.
func (st fnStyle) tnames() string {
	var out []string
	for _, p := range strings.Split(st.tparam(), ", ") {
		out = append(out, strings.Fields(p)[0])
	}
	return strings.Join(out, ", ")
}

var fnStyles = []fnStyle{
	{},
	{params: "_ ...int"},
	{params: "xs ...string", args: `"a", "b"`},
	{params: "a, b, c, d, e, f int, s string", args: `1, 2, 3, 4, 5, 6, "s"`},
	{params: "_ int, _ string", args: `1, ""`},
	{params: "int, []string", args: "1, nil"},
	{params: "f func()", args: "nil"},
	{params: "m map[string][]chan int, a [2]struct{ X int }", args: "nil, [2]struct{ X int }{}"},
	{params: "i interface{ M() }", args: "nil"},
	{params: "e error", args: "nil"},
	{results: " int", use: "_ = ", after: "return 0"},
	{results: " int", after: "return 0"},
	{results: " (int, error)", use: "_, _ = ", after: "return 0, nil"},
	{results: " (n int, err error)", use: "_, _ = ", after: "return"},
	{results: " (_ int)", after: "return"},
	{results: " func()", after: "return nil"},
	{results: " (a, b, c, d int)", after: "return"},
	{name: "f%03d"}, {name: "_%03d"}, {name: "F_%03d_x"}, {name: "Ünï%03d"}, {name: "世界%03d"}, {name: "ſ%03d"},
	{name: strings.Repeat("L", 5000) + "%03d"},
	{name: "Test%03d"}, {name: "Benchmark%03d"}, {name: "Example%03d"}, {name: "Fuzz%03d"}, {name: "init%03d"}, {name: "New%03d"},
	{name: "String", alone: true}, {name: "Error", alone: true}, {name: "Close", alone: true}, {name: "F", alone: true},
	{name: "main", alone: true}, {name: "len", alone: true}, {name: "append", alone: true}, {name: "X_cgo%03d"}, {name: "_C%03d"}, {name: "_Cfunc_%03d"}, {name: "F%03dC"},
	{name: "ServeHTTP", alone: true}, {name: "Less", alone: true}, {name: "Do", alone: true}, {name: "Sort", alone: true},
	{doc: "//go:noinline\n"}, {doc: "// Deprecated: use something else.\n"}, {doc: "//nolint:all\n"}, {doc: "/* a\nb */ "},
	{doc: "//go:nosplit\n//go:norace\n"},
	{before: "defer func() { recover() }()"},
	{before: "_, _, _, _, _ = func() {}, func() {}, func() {}, func() {}, func() {}"},
	{before: "x := 0\n" + strings.Repeat("\tif x == 1 { x++ }\n", 80) + "\t_ = x"},
	{before: strings.Repeat("// a comment\n", 2000)},
	{before: "goto L\nL:"},
	{before: "if x := 1; x > 2 { return }"},
	{before: "for i := 0; i < 3; i++ { continue }"},
	{before: "var s struct{ a, b [4]int }; p := &s.b[2]; *p = 1"},
	{before: "type local struct{ f func() }; _ = local{}"},
	{before: "const c = iota; _ = c"},
	{after: "panic(1)"}, {after: "for {\n}"}, {after: "select {}"}, {after: "return"},
	{after: "switch x := any(1).(type) { case int: _ = x; case func(): x() }"},
	{before: "{", after: "}"},
	{before: "if true {", after: "}"},
	{before: "if false {} else {", after: "}"},
	{before: "for {", after: "}"},
	{before: "for range 2 {", after: "}"},
	{before: "switch { case true:", after: "}"},
	{before: "switch any(nil).(type) { default:", after: "}"},
	{before: "select { default:", after: "}"},
	{before: "L: for { for { if any(1) == nil { continue L }", after: "break L } }"},
	{tparams: "P, Q any", targs: "int, string"},
	{tparams: "P, Q, R any", targs: "int, string, bool"},
	{tparams: "P any, Q any, R any, S any, T any", targs: "int, int, int, int, int"},
	{tparams: "P ~int|~string", targs: "int"},
	{tparams: "P comparable", targs: "[2]int"},
	{tparams: "P any", targs: "[]int"},
	{tparams: "P any", targs: "map[string]func(int) error"},
	{tparams: "P any", targs: "struct{}"},
	{tparams: "P any", targs: "error"},
	{tparams: "P interface{ ~[]Q }, Q any", targs: "[]int, int"},
	{outer: "c0 := 0", before: "c0++"},
	{outer: "c0, c1 := 0, []func(){}", before: "c0++; c1 = nil; _ = c1"},
	{outer: "c0, c1, c2, c3, c4 := 0, 1, 2, 3, 4", before: "c0, c1, c2, c3, c4 = c1, c2, c3, c4, c0"},
}

// callStyles are ways to write a call as a statement.
var callStyles = []string{"", "defer ", "go "}

// pkgStyles are unusual package paths; the name is the last element.
var pkgStyles = []string{"example.com/internal/a", "example.com/a/v2", "example.com/cmd/main", "example.com/vendor/x.org/a", "example.com/testdata/a",
	"example.com/a_test", "golang.org/x/tools", "google.golang.org/protobuf", "github.com/google/capslock/analyzer",
	"example.com/sort", "example.com/sync", "example.com/os", "example.com/reflect", "example.com/unsafe", "example.com/runtime", "example.com/C",
	"example.com/a.b", "example.com/a-b", "example.com/A", "EXAMPLE.com/a", "example.com/~a/b", "localhost/a", "a", "main", "cmd/a", "internal/a", "example.com/ünï",
	"example.com/" + strings.Repeat("long/", 60) + "a", "example.com/_a", "command-line-arguments", "example.com/a/internal", "gopkg.in/a.v1/b", "x.y"}

// fileStyles are unusual file names, with the first lines of the file.
var fileStyles = [][2]string{{"zz_generated.go", "// Code generated by tool. DO NOT EDIT.\n\n"}, {"a.pb.go", "// Code generated by protoc-gen-go. DO NOT EDIT.\n"},
	{"doc.go", "// Package a is documented.\n"}, {"main.go", ""}, {"a_linux.go", ""}, {"a_linux_amd64.go", ""}, {"b.go", "//go:build linux || !linux\n\n"},
	{"a.x.go", ""}, {"A.go", ""}, {"ünï.go", ""}, {"a b.go", ""}, {"a_tests.go", ""}, {"test.go", ""}, {"_cgo_gotypes.go", ""}, {"mock_a.go", ""}, {"vendor.go", ""},
	{"a.go", "/*\nCopyright\n*/\n\n"}, {"a.go", strings.Repeat("\n", 70000)}, {"a.go", "// " + strings.Repeat("x", 70000) + "\n"}}

// famStyles: declarations, packages and files that look unusual.
var famStyles = family{"styles", func(tier string, yield func(*GCase)) {
	chain := func() *GCase {
		g := newCase(3)
		g.E[0][1], g.E[1][2] = eCall, eCall
		g.Fns[2].Class = capFiles
		return g
	}
	for s, st := range fnStyles {
		for i := 0; i < 3; i++ {
			for _, k := range []int{kFunc, kMethod, kPtr, kGeneric, kGMethod, kClosure} {
				if (k == kClosure || k == kGMethod) && i == 0 {
					continue
				}
				for c := range callStyles {
					g := chain()
					g.Fns[i].Kind, g.Fns[i].Style, g.Call = k, s, c
					if k == kClosure {
						g.Fns[i].In = i - 1
					}
					if g.styled() {
						yield(g)
					}
				}
			}
		}
		for s2, st2 := range fnStyles {
			if st.alone && st2.alone && st.name == st2.name || s == 0 || s2 == 0 {
				continue
			}
			for i := 0; i < 2; i++ {
				g := chain()
				g.Fns[i].Style, g.Fns[i+1].Style = s, s2
				if g.styled() {
					yield(g)
				}
			}
		}
	}
	for _, p := range pkgStyles {
		for part := 1; part < 8; part++ {
			g := chain()
			g.Pkgs = []string{"example.com/plain", p}
			for i := range g.Fns {
				g.Fns[i].Pkg = part >> i & 1
			}
			if !acyclicPkgs(g, []int{g.Fns[0].Pkg, g.Fns[1].Pkg, g.Fns[2].Pkg}, 2) {
				continue
			}
			for q := uint(1); q < 4; q++ {
				h := g.clone()
				h.Query = q
				yield(h)
				if tier == "thorough" {
					for s := range fnStyles {
						for i := range h.Fns {
							h2 := h.clone()
							h2.Fns[i].Style = s
							if h2.styled() {
								yield(h2)
							}
						}
					}
				}
			}
		}
	}
	// Every capability, through every kind of function.
	for c := range cpb.Capability_name {
		if cl := Class(c); cl == classNone || cl == classSafe {
			continue
		}
		for i := 0; i < 3; i++ {
			for _, k := range []int{kFunc, kMethod, kPtr, kGeneric, kGMethod, kClosure} {
				for _, k2 := range []int{kFunc, kClosure} {
					if (k == kClosure || k == kGMethod) && i == 0 {
						continue
					}
					g := chain()
					g.Fns[2].Class = Class(c)
					for j := 0; j < i; j++ {
						if j > 0 && k2 == kClosure {
							g.Fns[j].Kind, g.Fns[j].In = kClosure, j-1
						}
					}
					g.Fns[i].Kind = k
					if k == kClosure {
						g.Fns[i].In = i - 1
					}
					yield(g)
				}
			}
		}
	}
	// Functions within functions within functions.
	for n := 3; n <= 12; n++ {
		for top := 0; top < n-1; top++ {
			g := newCase(n)
			for i := 0; i+1 < n; i++ {
				g.E[i][i+1] = eCall
				if i >= top && i+1 < n-1 {
					g.Fns[i+1].Kind, g.Fns[i+1].In = kClosure, i
				}
			}
			g.Fns[n-1].Class = capFiles
			yield(g)
		}
	}
	// Several init functions.
	for n := 1; n <= 12; n++ {
		for k := 0; k < n; k++ {
			g := newCase(n)
			g.Fns[k].Class = capFiles
			g.PIni, g.Inits = []uint{1<<n - 1}, n
			yield(g)
			h := g.clone()
			h.Inits = (n + 1) / 2
			yield(h)
		}
	}
	for f := range fileStyles {
		for i := 0; i < 4; i++ {
			g := chain()
			g.File = f + 1
			if i == 3 {
				g.Files = 2
			} else {
				g.Fns[i].Kind = kPtr
			}
			yield(g)
		}
	}
}}

// styled tells whether the styles of g can be used together.
func (g *GCase) styled() bool {
	names := map[string]bool{}
	for i, f := range g.Fns {
		st := fnStyles[f.Style]
		if st.tparams != "" && f.Kind != kGeneric && f.Kind != kGMethod || st.outer != "" && f.Kind != kClosure {
			return false
		}
		if f.Kind == kGMethod && f.Class != classNone && strings.Contains(st.tparams, ",") {
			return false // a capability map has no way to name it
		}
		if f.Kind == kClosure && (st.name != "" || st.doc != "") {
			return false
		}
		n := g.base(i)
		if names[n] {
			return false
		}
		names[n] = true
		if (n == "len" || n == "append") && f.Kind != kFunc {
			return false
		}
		if n == "main" && (f.Kind == kGeneric || f.Kind == kFunc && st.params+st.results != "") {
			return false
		}
		if st.params != "" && f.Kind == kGeneric && strings.Contains(st.params, "int, []") {
			return true
		}
		// A function that does not end can make no further calls, and its
		// deferred calls are made anyway.
		for j, e := range g.E[i] {
			if e != eNone && g.Call == 1 && (strings.HasPrefix(st.after, "for {") || st.after == "select {}") {
				_ = j
				return false
			}
		}
	}
	return true
}

func (f GFn) style() fnStyle { return fnStyles[f.Style] }

func (g *GCase) styleID() string {
	var b strings.Builder
	for i, f := range g.Fns {
		if f.Style != 0 {
			fmt.Fprintf(&b, " style%d=%d", i, f.Style)
		}
	}
	if g.Call != 0 {
		fmt.Fprintf(&b, " call=%s", callStyles[g.Call])
	}
	if g.File != 0 {
		fmt.Fprintf(&b, " file=%d:%s", g.File, fileStyles[g.File-1][0])
	}
	return b.String()
}

// famDecls: capabilities found in the source of functions that are declared
// and used in unusual ways.
var famDecls = family{"declarations", func(tier string, yield func(*GCase)) {
	kinds := []int{kFunc, kMethod, kPtr, kGeneric, kGMethod, kClosure}
	each := func(s int, f func(*GCase)) {
		for _, x := range []int{xUnsafe, xReflect, xBodyless, xUnsafe | xReflect} {
			for _, k := range kinds {
				// The function is called, called twice or by many, or not at all.
				for n := 0; n < 6; n++ {
					if k == kGMethod && n == 0 || x == xBodyless && (k >= kGeneric || fnStyles[s].before+fnStyles[s].after != "" && fnStyles[s].results == "") {
						continue
					}
					g := newCase(5)
					g.Fns[1].Style, g.Fns[1].Kind, g.Fns[1].Extra = s, k, x
					switch n {
					case 1:
						g.E[0][1] = eCall
					case 2:
						g.E[0][1] = eTwice
					case 3:
						g.E[0][1], g.E[2][1], g.E[3][1], g.E[4][0] = eCall, eCall, eCall, eCall
					case 4:
						g.PIni = []uint{2}
					case 5:
						if x != xBodyless {
							g.E[1][1] = eCall
						}
						g.E[0][1] = eCall
					}
					if g.styled() {
						f(g)
					}
				}
			}
		}
	}
	for s := range fnStyles {
		each(s, yield)
	}
	for _, p := range pkgStyles {
		each(0, func(g *GCase) {
			if b := pkgName(p); (b == "reflect" || b == "unsafe") && g.Fns[1].Extra != xBodyless {
				return
			}
			g.Pkgs[0] = p
			yield(g)
			h := g.clone()
			h.Pkgs = []string{p, "example.com/plain"}
			h.Fns[4].Pkg, h.Query = 1, 3
			yield(h)
			if len(g.PIni) == 0 && g.Fns[1].Kind != kClosure {
				h = h.clone()
				h.Fns[0].Pkg, h.Fns[2].Pkg, h.Fns[3].Pkg, h.Query = 1, 1, 1, 2
				yield(h)
			}
		})
	}
	for f := range fileStyles {
		if strings.Contains(fileStyles[f][1], "xxx") || strings.Contains(fileStyles[f][1], "\n\n\n") {
			continue // large
		}
		each(0, func(g *GCase) {
			g.File = f + 1
			yield(g)
			if g.Fns[1].Kind != kClosure {
				h := g.clone()
				h.Files = 2
				yield(h)
			}
		})
	}
}}

// oracleExtra checks that capability c is reported for exactly the functions
// that have it.
func oracleExtra(c Class) func(*mc.T, *Loaded) {
	return func(t *mc.T, l *Loaded) {
		got := map[string]bool{}
		cil := l.info(l.config())
		for _, e := range cil.GetCapabilityInfo() {
			if e.GetCapability() == c {
				got[subject(e)] = true
			}
		}
		var out []string
		for p := range l.m.pairs() {
			if p.cap != c {
				continue
			}
			out = append(out, p.name)
			if !got[p.name] {
				t.Fail("%s is not reported\n%s", p.name, cilString(cil))
			}
			delete(got, p.name)
		}
		for n := range got {
			t.Fail("%s is reported\n%s", n, cilString(cil))
		}
		sort.Strings(out)
		t.Outcome(strings.Join(out, "\n"))
	}
}

// famIgnStyles: each call of programs with unusual functions is ignored in
// turn.
var famIgnStyles = family{"ignored styles", func(tier string, yield func(*GCase)) {
	each := func(g *GCase) {
		_, m, err := g.render()
		if err != nil {
			panic(err)
		}
		for i, e := range m.edges {
			if strings.ContainsAny(m.nodes[e.from].name+m.nodes[e.to].name, " #") {
				continue // a capability map has no way to name it
			}
			h := g.clone()
			h.Ign = i + 1
			yield(h)
		}
	}
	kinds := []int{kFunc, kMethod, kPtr, kGeneric, kGMethod, kClosure}
	for s := range fnStyles {
		for i := 0; i < 3; i++ {
			for _, k := range kinds {
				for c := range callStyles {
					if (k == kClosure || k == kGMethod) && i == 0 || s > 0 && c > 0 && tier != "thorough" {
						continue
					}
					g := newCase(3)
					g.E[0][1], g.E[1][2] = eCall, eCall
					g.Fns[2].Class = capFiles
					g.Fns[i].Kind, g.Fns[i].Style, g.Call = k, s, c
					if k == kClosure {
						g.Fns[i].In = i - 1
					}
					if g.styled() {
						each(g)
					}
				}
			}
		}
	}
	// Pairs of kinds, with a second way round; capabilities found in source;
	// initialisers; other packages.
	for _, k1 := range kinds {
		for _, k2 := range kinds {
			for v := 0; v < 16; v++ {
				g := newCase(4)
				g.E[0][1], g.E[1][2], g.E[2][3] = eCall, eCall, eCall
				g.Fns[1].Kind, g.Fns[2].Kind, g.Fns[1].In, g.Fns[2].In = k1, k2, 0, 1
				if k1 == kGeneric || k1 == kGMethod {
					g.Fns[2].In = 0
				}
				g.Fns[3].Class = capNet
				if v&1 != 0 {
					g.E[0][2] = eTwice
				}
				if v&2 != 0 {
					g.Fns[3].Class, g.Fns[3].Extra = classNone, xUnsafe
				}
				if v&4 != 0 {
					g.PIni = []uint{15}
				}
				if v&8 != 0 {
					if k1 == kClosure || k2 == kClosure {
						continue
					}
					g.Pkgs = []string{"example.com/a", "example.com/b"}
					g.Fns[2].Pkg, g.Fns[3].Pkg = 1, 1
					if v&4 != 0 {
						g.PIni = []uint{1, 12}
					}
				}
				each(g)
			}
		}
	}
}}

// famPkgStyles: package entries for packages with unusual functions or paths.
// f0 calls f1, which calls f2 (often a closure in it), which calls f3.
var famPkgStyles = family{"package entry styles", func(tier string, yield func(*GCase)) {
	base := func(k1, k2 int) *GCase {
		g := newCase(4)
		g.Pkgs = []string{"example.com/pkga", "example.com/pkgb", "example.com/pkgc"}
		g.E[0][1], g.E[1][2], g.E[2][3] = eCall, eCall, eCall
		g.Fns[1].Kind, g.Fns[2].Kind, g.Fns[2].In = k1, k2, 1
		g.Fns[1].Pkg, g.Fns[2].Pkg, g.Fns[3].Pkg = 1, 1, 2
		g.Fns[3].Class = capNet
		return g
	}
	ok := func(g *GCase) bool {
		return g.styled() && token.IsExported(g.base(1)) && (g.E[0][2] == eNone || token.IsExported(g.base(2)))
	}
	each := func(g *GCase) {
		for _, c := range []Class{classSafe, capFiles, capNet, capUnan} {
			for q := uint(1); q < 4; q++ {
				for f := 0; f < 4; f++ {
					h := g.clone()
					h.PCls, h.Query = []Class{classNone, c, classNone}, q
					switch f {
					case 1: // an entry for one function of the package
						h.Fns[2].Class = capFiles
						if h.Fns[2].Kind == kClosure {
							h.Fns[2].Class = classSafe
						}
					case 2: // another way into the package
						if h.Fns[2].Kind == kClosure {
							continue
						}
						h.E[0][2] = eCall
					case 3: // a call from the package's initialisation
						h.PIni = []uint{0, 2, 0}
					}
					if !ok(h) {
						continue
					}
					yield(h)
				}
			}
		}
	}
	for _, k1 := range []int{kFunc, kMethod, kPtr, kGeneric, kGMethod} {
		for _, k2 := range []int{kFunc, kMethod, kPtr, kGeneric, kGMethod, kClosure} {
			if k2 == kClosure && (k1 == kGeneric || k1 == kGMethod) {
				continue
			}
			each(base(k1, k2))
			if tier != "thorough" && k1 != k2 && k2 != kClosure {
				continue
			}
			for s, st := range fnStyles {
				if strings.Contains(st.before, "func() {") {
					continue // more closures, which have the package's capability too
				}
				for i := 1; i < 3; i++ {
					g := base(k1, k2)
					g.Fns[i].Style = s
					if tier != "thorough" {
						g.Query = 3
						g.PCls = []Class{classNone, capFiles, classNone}
						if ok(g) {
							yield(g)
						}
						continue
					}
					each(g)
				}
			}
		}
	}
	for _, p := range pkgStyles {
		for _, k2 := range []int{kFunc, kPtr, kClosure} {
			g := base(kFunc, k2)
			g.Pkgs[1] = p
			each(g)
			// The entry is for another package.
			for _, other := range []string{"a", p + "x", p + "/x", strings.TrimSuffix(p, "_test"), strings.ToLower(p), p[strings.LastIndexByte(p, '/')+1:], strings.TrimSuffix(p, "/v2")} {
				if other == p || !strings.Contains(other, ".") && other != "a" {
					continue // the same, or like a package of the standard library
				}
				h := g.clone()
				h.Pkgs[2], h.PCls, h.Query = other, []Class{classNone, classNone, capFiles}, 3
				yield(h)
			}
		}
	}
}}
