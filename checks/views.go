package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
	"verif/internal/syn"
)

// The views of programs that reach a capability through unusual functions
// (wrappers, method values, instances, closures, functions without a package)
// must agree with each other.  No model of these programs is needed: the graph
// says what the paths are, and the other views are projections of it.

// viewCase is a program in which every function of example.com/p named in subj
// reaches example.com/lf.F.
type viewCase struct {
	pkgs []syn.Pkg
	subj []string
	cls  *interesting.Classifier
	q    []*packages.Package
}

// viewHelpers declares types whose methods lead back to another package, so
// that a wrapper may be the only function of its package on a path.
const viewHelpers = `type I interface{ Run() }
type J = I
type W struct{ I }
type V struct{ *W }
type G[T I] struct{ X T }
func (g G[T]) Run() { g.X.Run() }
func Gen[T I](t T) func() { return t.Run }
type E struct{ G[I] }
type Sl []I
type Fn func()
func (f Fn) Run() { f() }
`

var viewSplit = []string{
	"var i hp.I = T{}; i.Run()",
	"var i hp.I = T{}; f := i.Run; f()",
	"f := hp.I.Run; f(T{})",
	"f := hp.J.Run; f(T{})",
	"f := hp.W.Run; f(hp.W{T{}})",
	"f := (*hp.W).Run; f(&hp.W{T{}})",
	"w := hp.W{T{}}; w.Run()",
	"w := hp.W{T{}}; f := w.Run; f()",
	"var i hp.I = hp.W{T{}}; i.Run()",
	"var i hp.I = &hp.W{T{}}; i.Run()",
	"var i hp.I = &hp.W{T{}}; f := i.Run; f()",
	"var i interface{ Run() } = hp.W{T{}}; i.Run()",
	"v := hp.V{&hp.W{T{}}}; f := v.Run; f()",
	"f := hp.V.Run; f(hp.V{&hp.W{T{}}})",
	"var i hp.I = hp.V{&hp.W{T{}}}; defer i.Run()",
	"var i interface{ Run() } = &hp.V{&hp.W{T{}}}; go i.Run()",
	"g := hp.G[T]{}; g.Run()",
	"g := hp.G[hp.I]{T{}}; f := g.Run; f()",
	"f := hp.G[T].Run; f(hp.G[T]{})",
	"f := (*hp.G[T]).Run; f(&hp.G[T]{})",
	"var i hp.I = hp.G[T]{}; i.Run()",
	"f := hp.Gen(T{}); f()",
	"f := hp.Gen(hp.W{T{}}); f()",
	"e := hp.E{hp.G[hp.I]{T{}}}; f := e.Run; f()",
	"var i hp.I = hp.E{hp.G[hp.I]{T{}}}; i.Run()",
	"f := hp.Fn(T{}.Run).Run; f()",
	"s := hp.Sl{T{}}; f := s[0].Run; f()",
	"type local struct{ hp.W }; l := local{hp.W{T{}}}; f := l.Run; f()",
	"type local struct{ hp.I }; var i hp.I = local{T{}}; f := i.Run; f()",
	"s := struct{ hp.W }{hp.W{T{}}}; f := s.Run; f()",
	"f := struct{ hp.I }.Run; f(struct{ hp.I }{T{}})",
}

// viewEngine runs an oracle on the ways of reaching a function of C03 and on
// the language features of C26.
func viewEngine(oracle func(*mc.T, *viewCase)) mc.Engine {
	return mc.Engine{Name: "views", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		run := func(name func() string, pkgs []syn.Pkg, subj []string) {
			yield(name, func(t *mc.T) {
				prog, err := syn.Load(pkgs)
				sc := &srcCase{pkgs: pkgs, cm: "func example.com/lf.F CAPABILITY_FILES\n"}
				if err != nil {
					t.Broken("%v\n%s", err, sc.text())
				}
				cls, err := interesting.LoadClassifier("case.cm", strings.NewReader(sc.cm), true)
				if err != nil {
					t.Broken("%v", err)
				}
				oracle(t, &viewCase{pkgs: pkgs, subj: subj, cls: cls, q: prog.Query("example.com/p")})
				t.Trace()
				t.State(1, 1)
				if t.Failed() {
					sc.describe(t)
				}
			})
		}
		forms := func(f form) {
			if !f.runnable() {
				return
			}
			imports := "import \"example.com/lf\"\n"
			src, helpers, subj := f.render("example.com/p", "lf.F")
			pkgs := c26Pkgs()
			if f.remote {
				pkgs = append(pkgs, syn.One("example.com/hp", "package hp\n\n"+helpers))
				if strings.Contains(src, "hp.") {
					imports += "import \"example.com/hp\"\n"
				}
				helpers = ""
			}
			run(f.String, append(pkgs, syn.One("example.com/p", "package p\n\n"+imports+"\n"+src+"\n\n"+helpers)), subj)
		}
		for i := range invocations {
			for _, remote := range []bool{false, true} {
				forms(form{inv: i, remote: remote})
				for c := range conduits {
					if i == 0 || tier == "thorough" {
						forms(form{inv: i, cs: []int{c}, remote: remote})
					}
				}
			}
		}
		for a := range conduits {
			for b := range conduits {
				if tier == "thorough" || (a+b)%8 == 0 || a < 8 {
					forms(form{cs: []int{a, b}, remote: b%2 == 0})
				}
			}
		}
		for k, x := range viewSplit {
			pkgs := c26Pkgs(syn.One("example.com/hp", "package hp\n\n"+viewHelpers),
				syn.One("example.com/p", "package p\n\nimport (\n\t\"example.com/hp\"\n\t\"example.com/lf\"\n)\n\ntype T struct{}\n\nfunc (T) Run() { lf.F() }\n\nfunc F() { "+x+" }\n"))
			run(func() string { return fmt.Sprintf("split %d: %s", k, x) }, pkgs, []string{"example.com/p.F"})
		}
		for k := range c26Features {
			src := strings.Replace(c26Src([]int{k}), "package a\n", "package p\n", 1)
			run(func() string { return fmt.Sprintf("feature %d: %.200s", k, c26Features[k]) }, c26Pkgs(syn.One("example.com/p", src)), []string{"example.com/p.F1"})
		}
	}}
}

func (v *viewCase) config(g analyzer.Granularity) *analyzer.Config {
	return &analyzer.Config{Classifier: v.cls, Granularity: g, DisableBuiltin: true}
}

func (v *viewCase) info(g analyzer.Granularity) *cpb.CapabilityInfoList {
	return analyzer.GetCapabilityInfo(v.q, analyzer.GetQueriedPackages(v.q), v.config(g))
}

func (v *viewCase) run(t *mc.T, mode string, cfg *analyzer.Config, args ...string) (string, error) {
	var err error
	out := t.Capture(func() { err = analyzer.RunCapslock(args, mode, v.q, analyzer.GetQueriedPackages(v.q), cfg) })
	return out, err
}

// graph returns the edges of the graph output: callees by caller.
func (v *viewCase) graph(t *mc.T) (edges map[string]bool, succ map[string][]string) {
	out, err := v.run(t, "graph", v.config(analyzer.GranularityFunction))
	if err != nil {
		t.Fail("graph: %v", err)
	}
	edges, _, err = parseDot(out)
	if err != nil {
		t.Fail("%v", err)
	}
	succ = map[string][]string{}
	for e := range edges {
		a, b, ok := strings.Cut(strings.TrimSuffix(strings.TrimPrefix(e, "\t\""), "\""), "\" -> \"")
		if !ok {
			t.Fail("edge %q", e)
		}
		succ[a] = append(succ[a], b)
	}
	return edges, succ
}

// pathIn says what is wrong with a path, given the graph.
func pathIn(edges map[string]bool, c *cpb.CapabilityInfo) string {
	fs := c.GetPath()
	if len(fs) == 0 {
		return "empty path"
	}
	for i := range fs[:len(fs)-1] {
		if !edges[dotEdge(fs[i].GetName(), fs[i+1].GetName())] {
			return fmt.Sprintf("step from %s to %s is not in the graph", fs[i].GetName(), fs[i+1].GetName())
		}
	}
	if !edges[dotEdge(fs[len(fs)-1].GetName(), c.GetCapability().String())] {
		return fmt.Sprintf("the graph does not have %s with %s", fs[len(fs)-1].GetName(), c.GetCapability())
	}
	return ""
}

// viewPackage is the package of a function of the given name, "" if its name
// does not tell.
func viewPackage(name string) string {
	name = strings.TrimPrefix(strings.TrimPrefix(name, "("), "*")
	for _, p := range []string{"example.com/p", "example.com/hp", "example.com/lf", "sort", "sync", "reflect"} {
		if strings.HasPrefix(name, p+".") {
			return p
		}
	}
	return ""
}

// viewGranularity: C12.
func viewGranularity(t *mc.T, v *viewCase) {
	edges, succ := v.graph(t)
	fn, pk, in := v.info(analyzer.GranularityFunction), v.info(analyzer.GranularityPackage), v.info(analyzer.GranularityIntermediate)
	want := map[pair]bool{}
	least := map[pair]bool{}
	for _, c := range fn.GetCapabilityInfo() {
		want[pair{c.GetPackageDir(), c.GetCapability()}] = true
		for _, f := range c.GetPath() {
			if f.GetPackage() != "" {
				least[pair{f.GetPackage(), c.GetCapability()}] = true
			}
		}
	}
	got := map[pair]bool{}
	for _, c := range pk.GetCapabilityInfo() {
		p := pair{c.GetPackageDir(), c.GetCapability()}
		if got[p] {
			t.Fail("package view: duplicate %v", p)
		}
		got[p] = true
		if why := pathIn(edges, c); why != "" {
			t.Fail("package view: %v: %s", p, why)
		} else if c.GetPath()[0].GetPackage() != p.name {
			t.Fail("package view: path of %v starts in %q", p, c.GetPath()[0].GetPackage())
		}
	}
	setDiff(t, "package view", got, want)
	want = map[pair]bool{}
	for a := range succ {
		if p := viewPackage(a); p != "" {
			want[pair{p, capFiles}] = true
		}
	}
	got = map[pair]bool{}
	for _, c := range in.GetCapabilityInfo() {
		p := pair{c.GetPackageDir(), c.GetCapability()}
		if got[p] {
			t.Fail("intermediate view: duplicate %v", p)
		}
		got[p] = true
		if why := pathIn(edges, c); why != "" {
			t.Fail("intermediate view: %v: %s", p, why)
			continue
		}
		if c.GetPath()[0].GetPackage() != "example.com/p" {
			t.Fail("intermediate view: path of %v starts in %q", p, c.GetPath()[0].GetPackage())
		}
		has := false
		for _, f := range c.GetPath() {
			has = has || f.GetPackage() == p.name
		}
		if !has {
			t.Fail("intermediate view: path of %v does not contain the package: %s", p, pathNames(c.GetPath()))
		}
	}
	setDiff(t, "intermediate view", got, want)
	for p := range least {
		if !got[p] {
			t.Fail("intermediate view: %v is missing, although on a path of the function view", p)
		}
	}
	t.Outcome(cilString(in))
}

// viewGraph: C15.
func viewGraph(t *mc.T, v *viewCase) {
	edges, succ := v.graph(t)
	fn := v.info(analyzer.GranularityFunction)
	for _, c := range fn.GetCapabilityInfo() {
		if why := pathIn(edges, c); why != "" {
			t.Fail("%s: %s", subject(c), why)
		}
	}
	// Every function is reached from a function queried, and reaches the
	// capability.
	reach := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if !reach[n] {
			reach[n] = true
			for _, x := range succ[n] {
				visit(x)
			}
		}
	}
	for n := range succ {
		if viewPackage(n) == "example.com/p" {
			visit(n)
		}
	}
	for n, ss := range succ {
		if !reach[n] {
			t.Fail("the graph contains %s, which no function queried reaches", n)
		}
		for _, s := range ss {
			if s != "CAPABILITY_FILES" && len(succ[s]) == 0 {
				t.Fail("the graph contains %s, which reaches nothing", s)
			}
			if s == "CAPABILITY_FILES" && n != "example.com/lf.F" {
				t.Fail("the graph has %s with a capability", n)
			}
		}
	}
	for _, s := range v.subj {
		if len(succ[s]) == 0 {
			t.Fail("%s is not in the graph", s)
		}
	}
	t.Outcome(sortedKeys(edges))
}

// viewModes: C13.
func viewModes(t *mc.T, v *viewCase) {
	edges, _ := v.graph(t)
	fn := v.info(analyzer.GranularityFunction)
	var n capCount
	for _, c := range fn.GetCapabilityInfo() {
		n.n++
		if c.GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT {
			n.direct++
		} else {
			n.trans++
		}
	}
	out, err := v.run(t, "v", v.config(analyzer.GranularityUnset))
	if err != nil {
		t.Fail("verbose: %v", err)
	}
	counts, example, _, none, err := parseVerbose(out)
	if err != nil || none || len(counts) != 1 || counts[capFiles] != n {
		t.Fail("verbose output says %v (%v), want %v\n%s", counts, err, n, out)
	}
	if why := pathIn(edges, &cpb.CapabilityInfo{Capability: capFiles.Enum(), Path: example[capFiles]}); why != "" {
		t.Fail("verbose example: %s\n%s", why, out)
	}
	out, err = v.run(t, "", v.config(analyzer.GranularityUnset))
	if err != nil {
		t.Fail("default: %v", err)
	}
	if c, none, err := parseDefault(out); err != nil || none || len(c) != 1 || c[capFiles] != n.n {
		t.Fail("default output says %v (%v), want %v\n%s", c, err, n, out)
	}
	out, err = v.run(t, "m", v.config(analyzer.GranularityUnset))
	if err != nil || strings.TrimSpace(out) != "CAPABILITY_FILES" {
		t.Fail("machine output %q, %v", out, err)
	}
	t.Outcome(out + fmt.Sprint(n))
}

// viewOmit: C22.
func viewOmit(t *mc.T, v *viewCase) {
	for _, g := range []analyzer.Granularity{analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate} {
		with := v.info(g)
		cfg := v.config(g)
		cfg.OmitPaths = true
		without := analyzer.GetCapabilityInfo(v.q, analyzer.GetQueriedPackages(v.q), cfg)
		if len(with.GetCapabilityInfo()) != len(without.GetCapabilityInfo()) {
			t.Fail("granularity %d: %d entries with paths, %d without", g, len(with.GetCapabilityInfo()), len(without.GetCapabilityInfo()))
			continue
		}
		for i, a := range with.GetCapabilityInfo() {
			b := without.GetCapabilityInfo()[i]
			if a.GetPackageDir() != b.GetPackageDir() || a.GetPackageName() != b.GetPackageName() || a.GetCapability() != b.GetCapability() || a.GetCapabilityType() != b.GetCapabilityType() {
				t.Fail("granularity %d: entry %d is %v with paths and %v without", g, i, a, b)
			}
			if len(b.GetPath()) > 1 || g == analyzer.GranularityFunction && (len(b.GetPath()) != 1 || b.GetPath()[0].GetName() != a.GetPath()[0].GetName()) {
				t.Fail("granularity %d: entry %d has path %s", g, i, pathNames(b.GetPath()))
			}
		}
		t.Outcome(cilString(without))
	}
}

// viewLabels: C23.
func viewLabels(t *mc.T, v *viewCase) {
	for _, g := range []analyzer.Granularity{analyzer.GranularityFunction, analyzer.GranularityPackage} {
		for _, c := range v.info(g).GetCapabilityInfo() {
			want := cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
			for _, f := range c.GetPath() {
				if p := f.GetPackage(); p != c.GetPath()[0].GetPackage() && strings.Contains(p, ".") {
					want = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}
				// (Methods a type gets from a field may count as either package's.)
				if p := viewPackage(f.GetName()); p != "" && p != f.GetPackage() && !strings.Contains(f.GetName(), ".local)") {
					t.Fail("%s is said to be in package %q", f.GetName(), f.GetPackage())
				}
			}
			if c.GetCapabilityType() != want {
				t.Fail("entry with path %s is labelled %s", pathNames(c.GetPath()), c.GetCapabilityType())
			}
			t.Outcome(pathNames(c.GetPath()))
		}
	}
}

// viewCompare: C16.
func viewCompare(t *mc.T, v *viewCase) {
	empty, err := interesting.LoadClassifier("case.cm", strings.NewReader(""), true)
	if err != nil {
		t.Broken("%v", err)
	}
	file := filepath.Join(t.Scratch(), "baseline.json")
	for _, g := range []analyzer.Granularity{analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate} {
		now := v.info(g)
		pairs := map[pair]bool{}
		for _, c := range now.GetCapabilityInfo() {
			if g == analyzer.GranularityFunction {
				pairs[pair{subject(c), c.GetCapability()}] = true
			} else {
				pairs[pair{c.GetPackageDir(), c.GetCapability()}] = true
			}
		}
		b, err := protojson.Marshal(now)
		if err != nil {
			t.Broken("%v", err)
		}
		if err := os.WriteFile(file, b, 0o644); err != nil {
			t.Broken("%v", err)
		}
		out, err := v.run(t, "compare", v.config(g), file)
		if err != nil || strings.TrimSpace(out) != "" {
			t.Fail("granularity %d: compared with its own report: %v %q", g, err, out)
		}
		cfg := v.config(g)
		cfg.Classifier = empty
		for _, gone := range []bool{true, false} {
			if !gone {
				if err := os.WriteFile(file, []byte("{}"), 0o644); err != nil {
					t.Broken("%v", err)
				}
				cfg = v.config(g)
			}
			out, err := v.run(t, "compare", cfg, file)
			var diff analyzer.DifferenceFoundError
			if !errors.As(err, &diff) {
				t.Fail("granularity %d: no difference found: %v", g, err)
			}
			added, removed := parseCompare(out)
			if gone {
				added, removed = removed, added
			}
			if len(removed) > 0 {
				t.Fail("granularity %d: wrong direction\n%s", g, out)
			}
			got := map[pair]bool{}
			for p, n := range added {
				got[p] = true
				if n != 1 {
					t.Fail("granularity %d: %v announced %d times", g, p, n)
				}
			}
			setDiff(t, fmt.Sprintf("granularity %d, messages", g), got, pairs)
			t.Outcome(out)
		}
	}
}
