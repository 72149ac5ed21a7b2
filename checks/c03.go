package checks

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C03: every way Go code can invoke a function is followed.

type form struct {
	inv          int
	cs           []int
	remote, away bool // helpers, leaf in another package
	lim          []conduit
}

func (f form) String() string {
	var l []string
	for _, c := range f.cs {
		l = append(l, conduits[c].name)
	}
	return fmt.Sprintf("%s [%s] helpers=%v leaf=%v", invocations[f.inv].name, strings.Join(l, " < "), f.remote, f.away)
}

// runnable reports whether the composition really runs its leaf: a hook set in
// init is not there yet when package variables are initialised.
func (f form) runnable() bool {
	if f.remote || !strings.HasPrefix(invocations[f.inv].name, "variable") {
		return true
	}
	for _, c := range f.cs {
		if conduits[c].name == "init assigned" {
			return false
		}
	}
	return true
}

func (f form) render(pkg, leaf string) (src, helpers string, subj []string) {
	cs := append([]conduit(nil), f.lim...)
	for _, c := range f.cs {
		cs = append(cs, conduits[c])
	}
	return formProgram(invocations[f.inv], cs, leaf, f.remote, pkg, 1)
}

const decoys = `
type dcy struct{}

func (dcy) Run() { bad() }
func dcyFn()     { bad() }
func DcyHolder() { f := dcyFn; _ = f }
func bad()       {}
`

func (f form) run(t *mc.T) {
	if !f.runnable() {
		return
	}
	const pkg = "example.com/p"
	leaf := "leaf"
	imports := ""
	pkgs := []syn.Pkg{}
	tail := "func leaf() {}\n"
	cm := "func example.com/p.leaf CAPABILITY_FILES\n"
	if f.away {
		pkgs = append(pkgs, syn.One("example.com/lf", "package lf\n\nfunc Leaf() {}\n"))
		imports, leaf, tail = "import \"example.com/lf\"\n", "lf.Leaf", ""
		cm = "func example.com/lf.Leaf CAPABILITY_FILES\n"
	}
	cm += "func example.com/p.bad CAPABILITY_NETWORK\n"
	src, helpers, subj := f.render(pkg, leaf)
	if f.remote {
		pkgs = append(pkgs, syn.One("example.com/hp", "package hp\n\n"+helpers))
		if strings.Contains(src, "hp.") {
			imports += "import \"example.com/hp\"\n"
		}
		helpers = ""
	}
	pkgs = append(pkgs, syn.One(pkg, "package p\n\n"+imports+"\n"+src+"\n\n"+helpers+tail+decoys))
	c := &srcCase{pkgs: pkgs, query: []string{pkg}, cm: cm}
	got := c.analyse(t)
	for _, s := range subj {
		cs := got[s]
		if !oneOf(cpb.Capability_CAPABILITY_FILES, cs) {
			t.Fail("%s runs the operation but is not reported with its capability", s)
		}
		if len(cs) > 1 {
			t.Fail("%s is reported with %v", s, cs)
		}
	}
	if t.Failed() {
		t.Detail(showCaps(got))
		c.describe(t)
	}
	t.State(int64(len(got)), int64(len(f.cs)+1))
	t.Outcome(fmt.Sprint(showCaps(got)))
}

// chain is a form whose leaf is another form, in the same or another package.
func chain(t *mc.T, a, b form, split bool) {
	const pkg = "example.com/p"
	cm := "func example.com/lf.Leaf CAPABILITY_FILES\n"
	pkgs := []syn.Pkg{syn.One("example.com/lf", "package lf\n\nfunc Leaf() {}\n")}
	src2, help2, subj2 := b.render("example.com/q", "lf.Leaf")
	pkgs = append(pkgs, syn.One("example.com/q", "package q\n\nimport \"example.com/lf\"\n\n"+src2+"\n"+help2))
	src1, help1, subj1 := a.render(pkg, "q.F")
	pkgs = append(pkgs, syn.One(pkg, "package p\n\nimport \"example.com/q\"\n\n"+src1+"\n"+help1))
	query := []string{pkg}
	want := subj1
	if split {
		query = append(query, "example.com/q")
		want = append(want, subj2...)
	}
	c := &srcCase{pkgs: pkgs, query: query, cm: cm}
	got := c.analyse(t)
	for _, s := range want {
		if !oneOf(cpb.Capability_CAPABILITY_FILES, got[s]) {
			t.Fail("%s runs the operation but is not reported with its capability", s)
		}
	}
	if t.Failed() {
		t.Detail(showCaps(got))
		c.describe(t)
	}
	t.State(int64(len(got)), 2)
	t.Outcome(showCaps(got))
}

// execute compiles the forms, runs them and checks that each runs its leaf.
func execute(t *mc.T, fs []form) {
	dir, err := os.MkdirTemp(t.Scratch(), "exec")
	if err != nil {
		t.Broken("%v", err)
	}
	defer os.RemoveAll(dir)
	write := func(name, s string) {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
			t.Broken("%v", err)
		}
		if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
			t.Broken("%v", err)
		}
	}
	write("go.mod", "module example.com/x\n\ngo 1.23\n")
	write("rt/rt.go", "package rt\n\nimport \"sync/atomic\"\n\nvar n ["+fmt.Sprint(len(fs))+"]atomic.Int32\n\nfunc Hit(i int) { n[i].Add(1) }\nfunc Got(i int) bool { return n[i].Load() > 0 }\n")
	var imp, body strings.Builder
	for i, f := range fs {
		src, helpers, _ := f.render("p", "leaf")
		name := fmt.Sprintf("c%d", i)
		imports := "import \"example.com/x/rt\"\n"
		if f.remote && helpers != "" {
			write(name+"/hp/hp.go", "package hp\n\n"+helpers)
			if strings.Contains(src, "hp.") {
				imports += "import \"example.com/x/" + name + "/hp\"\n"
			}
			helpers = ""
		}
		run := ""
		if strings.Contains(src, "func F()") {
			// Some invocations end in a panic that they recover from.
			run = "func XRun() { defer func() { recover() }(); F() }\n"
		} else {
			run = "func XRun() {}\n"
		}
		write(name+"/c.go", fmt.Sprintf("package %s\n\n%s\n%s\n\n%s\nfunc leaf() { rt.Hit(%d) }\n%s", name, imports, src, helpers, i, run))
		fmt.Fprintf(&imp, "import \"example.com/x/%s\"\n", name)
		fmt.Fprintf(&body, "\t%s.XRun()\n", name)
	}
	write("main.go", "package main\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\t\"example.com/x/rt\"\n)\n"+imp.String()+"\nfunc main() {\n"+body.String()+
		fmt.Sprintf("\tfor i := 0; i < %d; i++ {\n\t\tfor k := 0; k < 3000 && !rt.Got(i); k++ {\n\t\t\ttime.Sleep(10*time.Millisecond)\n\t\t}\n\t\tif rt.Got(i) {\n\t\t\tfmt.Println(i)\n\t\t}\n\t}\n}\n", len(fs)))
	cmd := exec.Command("go", "build", "-p", "2", "-gcflags=-N -l", "-o", "x.bin", ".")
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOMAXPROCS=2")
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Broken("go build: %v\n%s", err, out)
	}
	cmd = exec.Command(filepath.Join(dir, "x.bin"))
	out, err := cmd.Output()
	if err != nil {
		t.Broken("generated program: %v\n%s", err, out)
	}
	ran := map[string]bool{}
	for _, l := range strings.Fields(string(out)) {
		ran[l] = true
	}
	for i, f := range fs {
		if !ran[fmt.Sprint(i)] {
			t.Broken("generated program does not run its operation: %s", f)
		}
	}
	t.Add("executed", int64(len(fs)))
	t.State(int64(len(fs)), int64(len(fs)))
}

// entry points that the call-graph construction leaves out.
var c03Entries = []struct{ name, src, subj string }{
	{"exported constructor of unexported type", "type c struct{ n int }\nfunc New() *c { return &c{} }\nfunc (x *c) M() { leaf() }", "(*P.c).M"},
	{"exported variable of unexported type", "type c struct{ n int }\nvar X c\nfunc (x c) M() { leaf() }", "(P.c).M"},
	{"method of exported type", "type C struct{}\nfunc (C) M() { leaf() }", "(P.C).M"},
	{"pointer method of exported type", "type C struct{}\nfunc (*C) M() { leaf() }", "(*P.C).M"},
	{"unexported method of exported type", "type C struct{}\nfunc (*C) m() { leaf() }", "(*P.C).m"},
	{"converted unexported type", "type c struct{}\nvar X interface{ M() } = c{}\nfunc (x c) M() { leaf() }", "(P.c).M"},
	{"unexported function", "func f() { leaf() }", "P.f"},
	{"generic function", "func G[T any]() { leaf() }", "P.G"},
	{"method of function type", "type C func()\nfunc (C) M() { leaf() }", "(P.C).M"},
	{"method of slice type", "type C []int\nfunc (C) M() { leaf() }", "(P.C).M"},
	{"method of alias", "type C struct{}\ntype D = C\nfunc (D) M() { leaf() }", "(P.C).M|(P.D).M"},
	{"second init", "func init() {}\nfunc init() { leaf() }", "P.init#2"},
	{"blank variable", "var _ = f()\nfunc f() int { leaf(); return 0 }", "P.init"},
	{"embedding type", "type b struct{}\nfunc (b) M() { leaf() }\ntype C struct{ b }", "(P.b).M"},
	{"method used as value", "type c struct{}\nfunc (c) M() { leaf() }\nvar V = c.M", "(P.c).M"},
	{"returned closure", "func F() func() { return func() { leaf() } }", "P.F$1"},
	{"stored closure", "var V func()\nfunc F() { V = func() { leaf() } }", "P.F$1"},
	{"method of generic type", "type C[T any] struct{}\nfunc (C[T]) M() { leaf() }", "(P.C[T]).M"},
}

func init() {
	depth1 := mc.Engine{Name: "one conduit", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		emit := func(f form) { yield(f.String, f.run) }
		for i := range invocations {
			for v := 0; v < 4; v++ {
				emit(form{inv: i, cs: nil, remote: v&1 != 0, away: v&2 != 0})
				for c := range conduits {
					emit(form{inv: i, cs: []int{c}, remote: v&1 != 0, away: v&2 != 0})
				}
			}
		}
	}}
	depth2 := mc.Engine{Name: "two conduits", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		inv := []string{"call", "interface"}
		for i := range invocations {
			if tier != "thorough" && !oneOfString(invocations[i].name, inv) {
				continue
			}
			for a := range conduits {
				for b := range conduits {
					f := form{inv: i, cs: []int{a, b}, remote: i%2 == 0, away: (a+b)%2 == 0}
					yield(f.String, f.run)
				}
			}
		}
	}}
	depth3 := mc.Engine{Name: "three conduits", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		if tier != "thorough" {
			return
		}
		for a := range conduits {
			for b := range conduits {
				for c := range conduits {
					f := form{inv: 0, cs: []int{a, b, c}, remote: true, away: false}
					yield(f.String, f.run)
				}
			}
		}
	}}
	chains := mc.Engine{Name: "chains", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for i := range invocations {
			for j, b := range invocations {
				if !oneOfString("P.F", b.subj) {
					continue
				}
				for _, split := range []bool{false, true} {
					x, y := form{inv: i}, form{inv: j}
					yield(func() string { return fmt.Sprintf("%s of %s queried=%v", x, y, split) }, func(t *mc.T) { chain(t, x, y, split) })
				}
			}
		}
		for a := range conduits {
			for b := range conduits {
				x, y := form{cs: []int{a}}, form{cs: []int{b}}
				yield(func() string { return fmt.Sprintf("%s of %s", x, y) }, func(t *mc.T) { chain(t, x, y, true) })
			}
		}
	}}
	entries := mc.Engine{Name: "entry points", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, e := range c03Entries {
			yield(func() string { return e.name }, func(t *mc.T) {
				c := &srcCase{pkgs: []syn.Pkg{syn.One("example.com/p", "package p\n\n"+e.src+"\n\nfunc leaf() {}\n")}, query: []string{"example.com/p"},
					cm: "func example.com/p.leaf CAPABILITY_FILES\n"}
				got := c.analyse(t)
				// A method of an alias may be named after either type.
				s := strings.ReplaceAll(e.subj, "P.", "example.com/p.")
				ok := false
				for _, n := range strings.Split(s, "|") {
					ok = ok || oneOf(cpb.Capability_CAPABILITY_FILES, got[n])
				}
				if !ok {
					t.Fail("%s is not reported\n%s", s, showCaps(got))
					c.describe(t)
				}
				t.State(int64(len(got)), 1)
				t.Outcome(showCaps(got))
			})
		}
	}}
	limited := mc.Engine{Name: "limits", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, l := range limits {
			yield(func() string { return l.name }, form{lim: []conduit{l}}.run)
		}
	}}
	executed := mc.Engine{Name: "executed", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		var fs []form
		for i := range invocations {
			for _, r := range []bool{false, true} {
				fs = append(fs, form{inv: i, cs: nil, remote: r, away: false})
			}
		}
		for c := range conduits {
			fs = append(fs, form{inv: 0, cs: []int{c}, remote: c%2 == 0, away: false})
		}
		for _, l := range limits {
			fs = append(fs, form{lim: []conduit{l}})
		}
		if tier == "thorough" {
			for i := range invocations {
				for c := range conduits {
					fs = append(fs, form{inv: i, cs: []int{c}, remote: c%2 == 1, away: false})
				}
			}
		}
		var keep []form
		for _, f := range fs {
			if f.runnable() {
				keep = append(keep, f)
			}
		}
		const batch = 50
		for k := 0; k < len(keep); k += batch {
			b := keep[k:min(k+batch, len(keep))]
			yield(func() string { return fmt.Sprintf("batch %d", k/batch) }, func(t *mc.T) { execute(t, b) })
		}
	}}
	mc.Register(&mc.Check{Prop: "C03", Level: "model_checking",
		Bounds:  fmt.Sprintf("%d invocations x %d conduits x helper and leaf placement; all pairs of conduits under 2 invocations (thorough: all), all triples (thorough); chains of two forms across packages; methods of every kind of type, instantiated in every way, called in every way; entry points; forms compiled and run", len(invocations), len(conduits)),
		Assume:  append([]string{"methods of unexported or generic types that are neither called nor converted anywhere are only covered by the entry-point cases"}, graphAssume[:1]...),
		Engines: []mc.Engine{executed, entries, limited, c03Instances, depth1, chains, depth2, depth3}})
}
