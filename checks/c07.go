package checks

import (
	"fmt"
	"strings"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C07: code that cannot be read is never treated as harmless.

// the ways a body-less function can be classified.
var c07Classes = []struct {
	name, line string // NAME is the function, PKG its package
	want       []Class
}{
	{"none", "", []Class{capArb}},
	{"safe", "func NAME CAPABILITY_SAFE", nil},
	{"files", "func NAME CAPABILITY_FILES", []Class{capFiles}},
	{"arbitrary", "func NAME CAPABILITY_ARBITRARY_EXECUTION", []Class{capArb}},
	{"unanalyzed", "unanalyzed NAME", []Class{capUnan}},
	{"package safe", "package PKG CAPABILITY_SAFE", nil},
	{"package files", "package PKG CAPABILITY_FILES", []Class{capFiles}},
	{"another function", "func NAMEx CAPABILITY_SAFE", []Class{capArb}},
	{"another package", "package PKG/x CAPABILITY_SAFE", []Class{capArb}},
}

// noSource runs the form around a function without source.
func noSource(t *mc.T, f form, class int, noExtra, builtin bool) {
	if !f.runnable() {
		return
	}
	const pkg = "example.com/p"
	cl := c07Classes[class]
	leafPkg, leaf, imports, tail := pkg, "leaf", "", "func leaf()\n"
	var pkgs []syn.Pkg
	if f.away {
		leafPkg, leaf, imports, tail = "example.com/lf", "lf.Leaf", "import \"example.com/lf\"\n", ""
		pkgs = append(pkgs, syn.One("example.com/lf", "package lf\n\nfunc Leaf()\n"))
	} else if strings.HasPrefix(cl.name, "package") {
		return // would classify the callers too
	}
	name := leafPkg + "." + leaf[strings.LastIndex(leaf, ".")+1:]
	src, helpers, subj := f.render(pkg, leaf)
	if f.remote {
		pkgs = append(pkgs, syn.One("example.com/hp", "package hp\n\n"+helpers))
		if strings.Contains(src, "hp.") {
			imports += "import \"example.com/hp\"\n"
		}
		helpers = ""
	}
	pkgs = append(pkgs, syn.One(pkg, "package p\n\n"+imports+"\n"+src+"\n\n"+helpers+tail))
	cm := strings.NewReplacer("NAME", name, "PKG", leafPkg).Replace(cl.line)
	c := &srcCase{pkgs: pkgs, query: []string{pkg}, cm: cm, noExtra: noExtra, builtin: builtin}
	got := c.analyse(t)
	want := cl.want
	if noExtra && cl.line == "" || noExtra && strings.HasPrefix(cl.name, "another") {
		want = nil
	}
	for _, s := range subj {
		if fmt.Sprint(got[s]) != fmt.Sprint(want) {
			t.Fail("%s is reported with %v, want %v", s, got[s], want)
		}
	}
	if t.Failed() {
		t.Detail(showCaps(got))
		c.describe(t)
	}
	t.State(int64(len(got)+1), 1)
	t.Outcome(fmt.Sprint(showCaps(got), class, noExtra))
}

var c07Methods = []struct{ name, src string }{
	{"value method", "type T struct{}\nfunc (T) M()\nfunc F() { T{}.M() }"},
	{"pointer method", "type T struct{}\nfunc (*T) M()\nfunc F() { new(T).M() }"},
	{"method value", "type T struct{}\nfunc (T) M()\nfunc F() { f := T{}.M; f() }"},
	{"method expression", "type T struct{}\nfunc (T) M()\nfunc F() { f := T.M; f(T{}) }"},
	{"interface", "type T struct{}\nfunc (T) M()\nfunc F() { var i interface{ M() } = T{}; i.M() }"},
	{"promoted", "type T struct{}\nfunc (T) M()\ntype E struct{ T }\nfunc F() { E{}.M() }"},
	{"promoted through interface", "type T struct{}\nfunc (*T) M()\ntype E struct{ *T }\nfunc F() { var i interface{ M() } = E{}; i.M() }"},
	{"arguments and results", "func g(a, b int) (int, error)\nfunc F() { x, _ := g(1, 2); _ = x }"},
	{"in expression", "func g(int) int\nfunc F() int { return 1 + g(g(2))*3 }"},
	{"unexported type", "type t struct{}\nfunc (t) m()\nfunc F() { t{}.m() }"},
	{"variadic", "func g(...int)\nfunc F() { g(1, 2); g() }"},
	{"defined twice over packages", "func g()\nfunc F() { g(); hp.G() }"},
	{"comparison callback", "func g(func())\nfunc F() { g(func() {}) }"},
	{"linkname", "//go:linkname g runtime.g\nfunc g() int64\nfunc F() { g() }"},
	{"noescape", "//go:noescape\nfunc g(p *byte, n int)\nfunc F() { g(nil, 0) }"},
	{"one of two", "func g()\nfunc h() {}\nfunc F() { h(); g() }"},
	{"package variable", "func g() int\nvar V = g()\nfunc F() { _ = V; g() }"},
}

var cgoNames = []string{"_Cfunc_CBytes", "_Cfunc_CString", "_Cfunc_GoBytes", "_Cfunc_GoStringN", "_Cgo_no_callback", "_Cgo_use", "_cgoCheckPointer",
	"_cgoCheckResult", "_cgo_runtime_cgocall", "_cgo_runtime_gobytes", "_cgo_runtime_gostring", "_cgo_runtime_gostringn", "_Cfunc_GoString"}

func init() {
	forms := mc.Engine{Name: "call forms", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for i := range invocations {
			for c := -1; c < len(conduits); c++ {
				var cs []int
				if c >= 0 {
					cs = []int{c}
				}
				for v := 0; v < 4; v++ {
					f := form{inv: i, cs: cs, remote: v&1 != 0, away: v&2 != 0}
					for k := range c07Classes {
						if k > 2 && c >= 0 && tier != "thorough" {
							continue
						}
						for _, no := range []bool{false, true} {
							if no && c >= 0 && tier != "thorough" {
								continue
							}
							yield(func() string { return fmt.Sprintf("%s class=%s disabled=%v", f, c07Classes[k].name, no) },
								func(t *mc.T) { noSource(t, f, k, no, false) })
						}
					}
				}
			}
		}
	}}
	methods := mc.Engine{Name: "declarations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, m := range c07Methods {
			for v := 0; v < 8; v++ {
				yield(func() string { return fmt.Sprintf("%s variant %d", m.name, v) }, func(t *mc.T) {
					pkg := "example.com/p"
					src := "package p\n\nimport \"example.com/hp\"\nimport _ \"unsafe\"\n\nvar _ = hp.X\n\n" + m.src + "\n"
					c := &srcCase{pkgs: []syn.Pkg{syn.One("example.com/hp", "package hp\n\nvar X int\n\nfunc G()\n"), syn.One(pkg, src)}, query: []string{pkg},
						noExtra: v&1 != 0, builtin: v&2 != 0}
					subj := pkg + ".F"
					if v&4 != 0 {
						// called from another package
						c.pkgs = append(c.pkgs, syn.One("example.com/top", "package top\n\nimport \"example.com/p\"\n\nfunc H() { p.F() }\n"))
						c.query = []string{"example.com/top"}
						subj = "example.com/top.H"
					}
					got := c.analyse(t)
					want := []Class{capArb}
					if c.noExtra {
						want = nil
					}
					if fmt.Sprint(got[subj]) != fmt.Sprint(want) {
						t.Fail("%s is reported with %v, want %v", subj, got[subj], want)
						c.describe(t)
					}
					t.State(int64(len(got)+1), 1)
					t.Outcome(showCaps(got))
				})
			}
		}
	}}
	cgo := mc.Engine{Name: "cgo", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		// What cgo generates, called through every form.
		for n, name := range cgoNames {
			for i := range invocations {
				for c := -1; c < len(conduits); c++ {
					var cs []int
					if c >= 0 {
						cs = []int{c}
					}
					if tier != "thorough" && c >= 0 && (n+i+c)%len(cgoNames) != 0 {
						continue
					}
					for v := 0; v < 8; v++ {
						if c >= 0 && v > 1 {
							break
						}
						f := form{inv: i, cs: cs}
						yield(func() string { return fmt.Sprintf("%s %s variant %d", name, f, v) }, func(t *mc.T) {
							if !f.runnable() {
								return
							}
							pkg := "example.com/p"
							src, helpers, subj := f.render(pkg, "cfunc")
							body := "\n\nfunc cfunc() { " + name + "() }\nfunc " + name + "()"
							if v&1 != 0 {
								body += " {}"
							}
							sc := &srcCase{pkgs: []syn.Pkg{syn.One(pkg, "package p\n\n"+src+"\n"+helpers+body+"\n")}, query: []string{pkg}, builtin: true, noExtra: v&2 != 0}
							if v&4 != 0 {
								// A user map cannot make it harmless.
								sc.cm = "func " + pkg + "." + name + " CAPABILITY_SAFE"
							}
							got := sc.analyse(t)
							for _, s := range append(subj, pkg+".cfunc") {
								if fmt.Sprint(got[s]) != fmt.Sprint([]Class{capCgo}) {
									t.Fail("%s is reported with %v, want cgo", s, got[s])
								}
							}
							if t.Failed() {
								sc.describe(t)
							}
							t.State(int64(len(got)), 1)
							t.Outcome(showCaps(got))
						})
					}
				}
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C07", Level: "model_checking",
		Bounds:  fmt.Sprintf("functions without source through %d invocations x %d conduits x placement x %d classifications x toggles; %d declaration forms; %d cgo-generated names through the same forms; the built command on modules with real C, assembly and linknamed code under 10 settings; every style of declaration, package path and file", len(invocations), len(conduits), len(c07Classes), len(c07Methods), len(cgoNames)),
		Assume:  graphAssume[:1],
		Setup:   buildCommands,
		Engines: append([]mc.Engine{forms, methods, cgo, realEngine}, graphEngines([]family{famDecls}, oracleExtra(capArb))...)})
}
