package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/prototext"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C18: results do not depend on earlier or concurrent analyses.

const c18A = `package a

import (
	"example.com/lf"
	"reflect"
	"sort"
	"sync"
	"unsafe"
)

type RV struct{ v reflect.Value }
type RW struct{ f int }

var rv RV
var rw RW
var _ reflect.Value

func StoreRV(x RV) { rv = x }
func StoreRW(x RW) { rw = x; lf.Swap() }

var once sync.Once
var gs []int

type D struct{}

func (D) Len() int           { lf.Len(); return 2 }
func (D) Less(i, j int) bool { lf.Less(); return true }
func (D) Swap(i, j int)      { lf.Swap() }

func mk() []int { lf.Eval(); return gs }

func Sorts() { sort.Sort(D{}) }
func Slices() {
	sort.Slice(mk(), func(i, j int) bool {
		once.Do(func() { lf.CB(); sort.Stable(D{}) })
		return true
	})
}
func Opaque(x sort.Interface) { sort.Sort(x) }
func Once()                   { once.Do(lf.OnceFn) }
func Unsafe() *int            { p := unsafe.Pointer(&gs); lf.Swap(); return (*int)(p) }
func Gen[T any](f func(T), x T) { f(x); lf.Less() }
func UseGen()                 { Gen(func(int) { lf.CB() }, 1) }
func Asm()
func Rec(n int)               { if n > 0 { Rec(n - 1) } else { Unsafe(); Asm() } }

var V = func() int { lf.Eval(); return 1 }()
`

const c18B = `package b

import (
	"example.com/a"
	"example.com/lf"
	"sync"
)

type S struct{ sync.Once }

func (s *S) M()   { s.Do(func() { lf.Decoy() }) }
func Two()        { a.Slices(); a.Asm() }
func Three()      { a.Rec(1) }
func Four()       { a.Opaque(a.D{}) }
func Five()       { new(S).M(); a.UseGen() }
`

// c18Other has the same packages and functions as the first program, with
// other bodies.
var c18Other = strings.NewReplacer("lf.Swap()", "lf.CB()", "lf.CB()", "lf.Swap()", "lf.Less()", "lf.Decoy()", "once.Do(lf.OnceFn)", "lf.Len()", "(*int)(p)", "(*int)(nil)", "p := unsafe", "var _ = unsafe",
	"v reflect.Value", "v int", "f int", "f reflect.Value", "func Asm()", "func Asm() { lf.Len() }")

const c18Map2 = `func example.com/lf.Less CAPABILITY_NETWORK
func example.com/lf.CB CAPABILITY_SAFE
unanalyzed example.com/lf.Eval
func example.com/a.Asm CAPABILITY_UNANALYZED
package example.com/b CAPABILITY_UNANALYZED
ignore_edge example.com/b.Two example.com/a.Slices
`

var c18Queries = [][]string{{"example.com/a"}, {"example.com/b"}, {"example.com/b", "example.com/a"}, {}}

// c18Env holds the objects a sequence of operations shares.
type c18Env struct {
	prog [3]*syn.Program // the same program loaded twice, and one with the same names
	cls  []analyzer.Classifier
	cfg  []*analyzer.Config
	q    map[string]map[*types.Package]struct{}
	dir  string
}

const c18Configs = 5

func c18New(t *mc.T) *c18Env {
	e := &c18Env{dir: t.Scratch(), q: map[string]map[*types.Package]struct{}{}}
	for i := range e.prog {
		a, b := c18A, c18B
		if i == 2 {
			a, b = c18Other.Replace(a), strings.Replace(b, "a.Slices()", "a.Sorts()", 1)
		}
		src := []syn.Pkg{syn.One("sort", c04Sort), syn.One("sync", c04Sync), syn.One("reflect", c06Reflect), syn.One("example.com/lf", c04Leaf), syn.One("example.com/a", a), syn.One("example.com/b", b)}
		src[3].Module = &packages.Module{Path: "example.com/lf", Version: "v1.0.0"}
		src[4].Module = &packages.Module{Path: "example.com/a", Version: "v1.2.0"}
		src[4].Ignored = []string{"a_plan9.go"}
		src[5].Ignored = []string{"b_plan9.go", "c.go"}
		if i == 2 {
			src[3].Module.Version = "v1.0.1"
			src[4].Module = nil
			src[4].Ignored = []string{"x.go"}
			src[5].Ignored = nil
			src[5].Module = &packages.Module{Path: "example.com/b", Version: "v0.0.2"}
		}
		p, err := syn.Load(src)
		if err != nil {
			t.Broken("%v", err)
		}
		e.prog[i] = p
	}
	load := func(m string, noBuiltin bool) *interesting.Classifier {
		c, err := interesting.LoadClassifier("c.cm", strings.NewReader(m), noBuiltin)
		if err != nil {
			panic(err)
		}
		return c
	}
	k := load(c04Map, false)
	k2 := load(c18Map2, true)
	e.cls = []analyzer.Classifier{k, k2, interesting.DefaultClassifier()}
	set := func(s string) *analyzer.CapabilitySet {
		c, err := analyzer.NewCapabilitySet(s)
		if err != nil {
			panic(err)
		}
		return c
	}
	e.cfg = []*analyzer.Config{
		{Classifier: k},
		{Classifier: k2, DisableBuiltin: true},
		{Classifier: interesting.ClassifierExcludingUnanalyzed(k2), OmitPaths: true, CapabilitySet: set("NETWORK,FILES")},
		{Classifier: k, Granularity: analyzer.GranularityPackage, CapabilitySet: set("-NETWORK,-EXEC")},
		{Classifier: interesting.DefaultClassifier(), Granularity: analyzer.GranularityIntermediate, OmitPaths: true},
	}
	return e
}

func (e *c18Env) packages(which, query int) ([]*packages.Package, map[*types.Package]struct{}) {
	p := e.prog[which].Query(c18Queries[query]...)
	key := fmt.Sprint(which, query)
	if e.q[key] == nil {
		e.q[key] = analyzer.GetQueriedPackages(p)
	}
	return p, e.q[key]
}

// c18Op is an operation.
type c18Op struct {
	name string
	run  func(t *mc.T, e *c18Env) string
}

var c18Kinds = []string{"json", "verbose", "machine", "", "graph", "compare", "info", "stats", "counts"}

// c18Analyse runs one kind of analysis and renders its result.
func c18Analyse(t *mc.T, e *c18Env, kind string, which, query int, cfg *analyzer.Config) string {
	p, q := e.packages(which, query)
	switch kind {
	case "info":
		return prototext.Format(analyzer.GetCapabilityInfo(p, q, cfg))
	case "stats":
		return prototext.Format(analyzer.GetCapabilityStats(p, q, cfg))
	case "counts":
		return prototext.Format(analyzer.GetCapabilityCounts(p, q, cfg))
	}
	var args []string
	if kind == "compare" {
		f := filepath.Join(e.dir, "base.json")
		if _, err := os.Stat(f); err != nil {
			if err := os.WriteFile(f, []byte(`{"capabilityInfo":[{"packageName":"b","capability":"CAPABILITY_EXEC","depPath":"example.com/b.S example.com/lf.X","path":[{"name":"example.com/b.S"}],"packageDir":"example.com/b"}]}`), 0o600); err != nil {
				panic(err)
			}
		}
		args = []string{f}
	}
	var err error
	out := t.Capture(func() { err = analyzer.RunCapslock(args, kind, p, q, cfg) })
	if kind == "graph" || kind == "compare" {
		l := strings.Split(out, "\n")
		sort.Strings(l)
		out = strings.Join(l, "\n")
	}
	var d analyzer.DifferenceFoundError
	if err != nil && !errors.As(err, &d) {
		t.Fail("%s: %v", kind, err)
	}
	return fmt.Sprint(err, "\n", out)
}

var c18Probes = [][2]string{{"example.com/lf", "example.com/lf.Less"}, {"example.com/lf", "example.com/lf.CB"}, {"example.com/lf", "example.com/lf.Eval"},
	{"example.com/a", "example.com/a.Asm"}, {"example.com/b", "example.com/b.Two"}, {"os", "os.Open"}, {"sort", "sort.Sort"}, {"sync", "(*sync.Once).Do"}, {"fmt", "fmt.Fprint"}, {"reflect", "(reflect.Value).Call"}}

func c18Probe(c analyzer.Classifier) string {
	s := ""
	for _, p := range c18Probes {
		s += fmt.Sprint(c.FunctionCategory(p[0], p[1]), " ")
	}
	return s
}

// state renders everything that was passed in.
func (e *c18Env) state() string {
	var b strings.Builder
	for i, c := range e.cfg {
		fmt.Fprintf(&b, "config %d: builtin=%v granularity=%q omit=%v %s filter", i, !c.DisableBuiltin, c.Granularity, c.OmitPaths, c18Probe(c.Classifier))
		if c.CapabilitySet != nil {
			for k := 0; k < 64; k++ {
				fmt.Fprint(&b, c.CapabilitySet.Has(cpb.Capability(k)), " ")
			}
		} else {
			b.WriteString(" nil")
		}
		b.WriteString("\n")
	}
	for i, c := range e.cls {
		fmt.Fprintf(&b, "classifier %d: %s\n", i, c18Probe(c))
	}
	var qs []string
	for k, q := range e.q {
		var l []string
		for p := range q {
			l = append(l, p.Path())
		}
		sort.Strings(l)
		qs = append(qs, fmt.Sprintf("queried %s: %v", k, l))
	}
	for w := range e.prog {
		for _, p := range e.prog[w].Order {
			qs = append(qs, fmt.Sprintf("package %d %s %s %d files %d imports %v ignored, module %v", w, p.PkgPath, p.Name, len(p.Syntax), len(p.Imports), p.IgnoredFiles, p.Module))
		}
	}
	sort.Strings(qs)
	return b.String() + strings.Join(qs, "\n")
}

// c18Ops lists the operations: all of them, or a reduced set.
func c18Ops(reduced bool) []c18Op {
	var ops []c18Op
	for _, kind := range c18Kinds {
		for query := range c18Queries {
			for cfg := 0; cfg < c18Configs; cfg++ {
				for which := 0; which < 3; which++ {
					if which > 0 && (query != 2 || cfg != which-1) {
						continue
					}
					if query == 3 && (cfg != 0 || kind != "json" && kind != "info") {
						continue
					}
					if reduced {
						keep := query == 3
						switch kind {
						case "json", "compare":
							keep = query == 2 && which != 1
						case "info":
							keep = query == 1 && cfg < 2 && which == 0
						case "graph":
							keep = query == 2 && (cfg == 0 || cfg == 3) && which != 1
						case "verbose":
							keep = query == 0 && (cfg == 0 || cfg == 2)
						case "machine", "":
							keep = query == 1 && cfg == 1
						}
						if !keep {
							continue
						}
					}
					ops = append(ops, c18Op{fmt.Sprintf("%s(query %d, config %d, load %d)", kind, query, cfg, which),
						func(t *mc.T, e *c18Env) string { return c18Analyse(t, e, kind, which, query, e.cfg[cfg]) }})
				}
			}
		}
	}
	ops = append(ops,
		c18Op{"load map", func(t *mc.T, e *c18Env) string {
			c, err := interesting.LoadClassifier("x", strings.NewReader("func os.Open CAPABILITY_SAFE\nfunc example.com/lf.Less CAPABILITY_SAFE\nunanalyzed (*sync.Once).Do\nunanalyzed example.com/lf.CB\nignore_edge example.com/b.Two example.com/a.Slices\ncgo_suffix Decoy\n"), false)
			if err != nil {
				return err.Error()
			}
			return c18Probe(c)
		}},
		c18Op{"load bad map", func(t *mc.T, e *c18Env) string {
			_, err := interesting.LoadClassifier("x", strings.NewReader("func os.Open CAPABILITY_SAFE\nfunc example.com/lf.Less CAPABILITY_SAFE\nnonsense\n"), false)
			return fmt.Sprint(err)
		}},
		c18Op{"load without builtin", func(t *mc.T, e *c18Env) string {
			c, err := interesting.LoadClassifier("x", strings.NewReader("package os CAPABILITY_SAFE\n"), true)
			if err != nil {
				return err.Error()
			}
			return c18Probe(c)
		}},
		c18Op{"exclude unanalyzed from map", func(t *mc.T, e *c18Env) string {
			return c18Probe(interesting.ClassifierExcludingUnanalyzed(e.cls[1].(*interesting.Classifier)))
		}},
		c18Op{"exclude unanalyzed from default", func(t *mc.T, e *c18Env) string {
			return c18Probe(interesting.ClassifierExcludingUnanalyzed(interesting.DefaultClassifier())) + c18Probe(analyzer.GetClassifier(true))
		}},
		c18Op{"default classifiers", func(t *mc.T, e *c18Env) string {
			return c18Probe(interesting.DefaultClassifier()) + c18Probe(analyzer.GetClassifier(false))
		}},
		c18Op{"parse lists", func(t *mc.T, e *c18Env) string {
			a, err := analyzer.NewCapabilitySet("FILES")
			_, err2 := analyzer.NewCapabilitySet("FILES,-EXEC")
			return fmt.Sprint(a.Has(capFiles), a.Has(capNet), err, err2)
		}},
	)
	return ops
}

var c18Fresh map[string]string

// fresh is the result of an operation run alone in a process.
func (o c18Op) fresh(t *mc.T) string {
	if c18Fresh == nil {
		b, err := os.ReadFile(t.Bin("fresh.json"))
		if err == nil {
			err = json.Unmarshal(b, &c18Fresh)
		}
		if err != nil {
			t.Broken("%v", err)
		}
	}
	s, ok := c18Fresh[o.name]
	if !ok {
		t.Broken("no reference result for %s", o.name)
	}
	return s
}

// c18Setup makes the reference results, and builds the program with the
// detector of unordered accesses.
func c18Setup(bindir string) error {
	cmd := exec.Command("go", "build", "-race", "-o", filepath.Join(bindir, "mc-race"), "./cmd/mc")
	cmd.Dir = mc.Root()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building with the race detector: %v\n%s", err, b)
	}
	return c18References(bindir)
}

// c18Space undoes the white space that differs from build to build.
var c18Space = strings.NewReplacer(":  ", ": ")

// c18Race runs two analyses and some map operations with nothing to order
// them, in a process that fails when two of them access the same variable,
// one of them writing.  Whether they do so at the same time does not matter:
// it is the order enforced by synchronisation that is looked at.
func c18Race(t *mc.T, p, q int) {
	out, err := mc.RunAuxExe(t.Bin("mc-race"), "c18race", fmt.Sprintf("%d,%d", p, q), "GORACE=halt_on_error=1 exitcode=66")
	t.Trace()
	t.State(1, 2)
	if err != nil {
		var ee *exec.ExitError
		if s := err.Error(); errors.As(err, &ee) && (ee.ExitCode() == 66 || strings.Contains(s, "concurrent map")) {
			t.Fail("the analyses %v and %v are not independent: %s", c18Pars[p], c18Pars[q], clip(s))
			return
		}
		t.Fail("the analyses %v and %v: %s", c18Pars[p], c18Pars[q], clip(err.Error()))
		return
	}
	a, b, _ := strings.Cut(out, "\n=====\n")
	for i, k := range []int{p, q} {
		got := c18Space.Replace([]string{a, b}[i])
		want, _ := c18Alone(t, c18Pars[k], 2*i)
		if want = c18Space.Replace(want); got != want {
			t.Fail("analysis %v differs from the same analysis on its own\n--- alone\n%s\n--- beside another\n%s", c18Pars[k], firstDiff(want, got), firstDiff(got, want))
		}
	}
}

// c18References runs every operation in a process of its own.
func c18References(bindir string) error {
	res := map[string]string{}
	var mu sync.Mutex
	var first error
	jobs := make(chan string)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range jobs {
				s, err := mc.RunAux("c18", n)
				mu.Lock()
				res[n] = s
				if first == nil {
					first = err
				}
				mu.Unlock()
			}
		}()
	}
	for _, o := range c18Ops(false) {
		jobs <- o.name
	}
	close(jobs)
	wg.Wait()
	if first != nil {
		return first
	}
	b, err := json.Marshal(res)
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(bindir, "fresh.json"), b, 0o600)
}

// c18Seq runs a sequence in one environment.
func c18Seq(t *mc.T, ops []c18Op) {
	e := c18New(t)
	for w := range e.prog {
		for q := range c18Queries {
			e.packages(w, q)
		}
	}
	before := e.state()
	for i, o := range ops {
		want := o.fresh(t)
		got := o.run(t, e)
		t.Trace()
		t.State(1, 1)
		if got != want {
			t.Fail("step %d: %s differs from the same operation run first\n--- first\n%s\n--- here\n%s", i+1, o.name, firstDiff(want, got), firstDiff(got, want))
			return
		}
		t.Outcome(got)
		if after := e.state(); after != before {
			t.Fail("step %d: %s altered what was passed in:\n--- before\n%s\n--- after\n%s", i+1, o.name, firstDiff(before, after), firstDiff(after, before))
			return
		}
	}
}

// firstDiff returns the part of a around the first line where it differs from b.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return strings.Join(x[max(0, i-4):min(len(x), i+12)], "\n")
		}
	}
	return fmt.Sprintf("(ends after %d lines)", len(x))
}

// baton passes control between two analyses.
type baton struct {
	mu    sync.Mutex
	turn  int
	cond  *sync.Cond
	done  [2]bool
	steps [2]int
	// switchAt[i] is the list of step numbers of analysis i at which control
	// passes to the other one.
	switchAt [2][]int
	switches int
	free     bool // an analysis waits for the other: stop controlling
}

func (b *baton) wait(i int) {
	for b.turn != i && !b.done[1-i] && !b.free {
		b.cond.Wait()
	}
}

func (b *baton) yield(i int) {
	b.mu.Lock()
	b.steps[i]++
	for _, s := range b.switchAt[i] {
		if s == b.steps[i] && !b.done[1-i] && !b.free {
			b.turn = 1 - i
			b.switches++
			b.cond.Broadcast()
			b.wait(i)
		}
	}
	b.mu.Unlock()
}

// yielding is a classifier whose calls are the preemption points.
type yielding struct {
	analyzer.Classifier
	b *baton
	i int
}

func (y yielding) FunctionCategory(p, n string) cpb.Capability {
	y.b.yield(y.i)
	return y.Classifier.FunctionCategory(p, n)
}

func (y yielding) IncludeCall(e *callgraph.Edge) bool {
	y.b.yield(y.i)
	return y.Classifier.IncludeCall(e)
}

// c18Par is one of the analyses interleaved: a kind and a configuration.
type c18Par struct {
	kind  string
	query int
	cfg   int
}

var c18Pars = []c18Par{{"info", 2, 0}, {"info", 1, 1}, {"info", 2, 3}, {"stats", 2, 1}, {"counts", 2, 2}, {"info", 2, 4}, {"cg", 2, 0}}

func c18RunPar(e *c18Env, p c18Par, which int, wrap func(analyzer.Classifier) analyzer.Classifier) string {
	c := *e.cfg[p.cfg]
	c.Classifier = wrap(c.Classifier)
	pk, q := e.packages(which, p.query)
	switch p.kind {
	case "stats":
		return prototext.Format(analyzer.GetCapabilityStats(pk, q, &c))
	case "counts":
		return prototext.Format(analyzer.GetCapabilityCounts(pk, q, &c))
	case "cg":
		var l []string
		analyzer.CapabilityGraph(pk, q, &c,
			nil,
			func(e *callgraph.Edge) { l = append(l, fmt.Sprint(e.Caller.Func, " -> ", e.Callee.Func)) },
			func(n *callgraph.Node, c cpb.Capability) { l = append(l, fmt.Sprint(n.Func, " has ", c)) },
			nil)
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	return prototext.Format(analyzer.GetCapabilityInfo(pk, q, &c))
}

// c18Interleave runs two analyses of separately loaded packages, sharing
// classifiers, with the given switches.
func c18Interleave(t *mc.T, e *c18Env, ps [2]c18Par, at [2][]int, want [2]string) (steps [2]int) {
	b := &baton{switchAt: at}
	b.cond = sync.NewCond(&b.mu)
	var got [2]string
	var crash [2]any
	var wg sync.WaitGroup
	for i := range ps {
		// The configurations' objects are shared; queried sets are made now.
		e.packages(2*i, ps[i].query)
	}
	for i := range ps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b.mu.Lock()
			b.wait(i)
			b.mu.Unlock()
			defer func() {
				crash[i] = recover()
				b.mu.Lock()
				b.done[i] = true
				b.turn = 1 - i
				b.cond.Broadcast()
				b.mu.Unlock()
			}()
			got[i] = c18RunPar(e, ps[i], 2*i, func(c analyzer.Classifier) analyzer.Classifier { return yielding{c, b, i} })
		}()
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	last, stuck := [2]int{-1, -1}, 0
wait:
	for {
		select {
		case <-fin:
			break wait
		case <-time.After(time.Second):
			b.mu.Lock()
			if b.steps == last {
				stuck++
			} else {
				stuck = 0
			}
			last = b.steps
			if stuck >= 5 {
				b.free = true
				b.cond.Broadcast()
			}
			b.mu.Unlock()
		}
	}
	t.Trace()
	t.State(1, int64(b.switches)+1)
	for i := range ps {
		if crash[i] != nil {
			t.Fail("analysis %d (%v): panic %v", i, ps[i], crash[i])
		} else if want[i] != "" && got[i] != want[i] {
			t.Fail("analysis %d (%v) differs from the same analysis on its own\n--- alone\n%s\n--- interleaved\n%s", i, ps[i], firstDiff(want[i], got[i]), firstDiff(got[i], want[i]))
		}
	}
	return b.steps
}

// c18Alone runs one of the analyses on its own and counts its steps.
func c18Alone(t *mc.T, p c18Par, which int) (string, int) {
	b := &baton{}
	b.done[1] = true
	b.cond = sync.NewCond(&b.mu)
	s := c18RunPar(c18New(t), p, which, func(c analyzer.Classifier) analyzer.Classifier { return yielding{c, b, 0} })
	return s, b.steps[0]
}

func init() {
	mc.Aux["c18"] = func(t *mc.T, arg string) string {
		for _, o := range c18Ops(false) {
			if o.name == arg {
				return o.run(t, c18New(t))
			}
		}
		panic("no operation " + arg)
	}
	mc.Aux["c18race"] = func(t *mc.T, arg string) string {
		var k [2]int
		if _, err := fmt.Sscanf(arg, "%d,%d", &k[0], &k[1]); err != nil {
			panic(err)
		}
		e := c18New(t)
		for i := range k {
			e.packages(2*i, c18Pars[k[i]].query)
		}
		var got [2]string
		var wg sync.WaitGroup
		for i := range k {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got[i] = c18RunPar(e, c18Pars[k[i]], 2*i, func(c analyzer.Classifier) analyzer.Classifier { return c })
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, o := range c18Ops(true) {
				if !strings.Contains(o.name, "(") {
					o.run(t, e)
				}
			}
		}()
		wg.Wait()
		return got[0] + "\n=====\n" + got[1]
	}
	mc.Register(&mc.Check{
		Prop: "C18", Level: "model_checking", Setup: c18Setup,
		Bounds: "operations: 9 kinds of analysis x 3 queried sets x 5 settings on two loads of a program and one load of a different program with the same names, the programs with rewritten calls, body-less and generic functions and unsafe conversions, and 7 map/list operations; all sequences of length 2, sequences of length 3 over a reduced set (quick), of length 4 over the reduced set (thorough); interleavings of two analyses of separate loads with shared classifiers, control passing at classifier callbacks: every single switch point, two switches on a grid (quick) or everywhere (thorough); every pair of them with map operations beside them, free-running, under the detector of unordered accesses",
		Assume: []string{"the result of an operation run alone in a process is the reference", "concurrent analyses of the same loaded packages are not judged"},
		Engines: []mc.Engine{
			{Name: "pairs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				ops := c18Ops(false)
				for _, a := range ops {
					// One case per first operation and block of second ones.
					for i := 0; i < len(ops); i += 16 {
						blk := ops[i:min(len(ops), i+16)]
						yield(func() string { return fmt.Sprintf("%s; each of %s ..", a.name, blk[0].name) },
							func(t *mc.T) {
								for _, b := range blk {
									c18Seq(t, []c18Op{a, b})
									if t.Failed() {
										return
									}
								}
							})
					}
				}
			}},
			{Name: "sequences", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				ops := c18Ops(true)
				for _, a := range ops {
					for _, b := range ops {
						yield(func() string { return a.name + "; " + b.name + "; each" },
							func(t *mc.T) {
								for _, c := range ops {
									if tier == "thorough" {
										for _, d := range ops {
											c18Seq(t, []c18Op{a, b, c, d})
											if t.Failed() {
												return
											}
										}
										continue
									}
									c18Seq(t, []c18Op{a, b, c})
									if t.Failed() {
										return
									}
								}
							})
					}
				}
			}},
			{Name: "unordered accesses", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for p := range c18Pars {
					for q := range c18Pars {
						yield(func() string { return fmt.Sprint("beside each other ", c18Pars[p], " ", c18Pars[q]) }, func(t *mc.T) { c18Race(t, p, q) })
					}
				}
			}},
			{Name: "interleavings", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, p := range c18Pars {
					for _, q := range c18Pars {
						yield(func() string { return fmt.Sprint("one switch ", p, " ", q) }, func(t *mc.T) {
							w0, n0 := c18Alone(t, p, 0)
							w1, n1 := c18Alone(t, q, 2)
							e := c18New(t)
							e.packages(0, p.query)
							e.packages(2, q.query)
							before := e.state()
							// Control goes to the second analysis at step s and
							// comes back when that is done.
							for s := 1; s <= n0; s++ {
								if c18Interleave(t, e, [2]c18Par{p, q}, [2][]int{{s}, nil}, [2]string{w0, w1}); t.Failed() {
									return
								}
							}
							// Two and three switches: to the second, back, and
							// to the second again when the first is done.
							st0, st1 := max(1, n0/8), max(1, n1/8)
							if tier == "thorough" {
								st0, st1 = max(1, n0/48), max(1, n1/48)
							}
							for s := 1; s <= n0; s += st0 {
								for r := 1; r <= n1; r += st1 {
									if c18Interleave(t, e, [2]c18Par{p, q}, [2][]int{{s}, {r}}, [2]string{w0, w1}); t.Failed() {
										return
									}
								}
							}
							if after := e.state(); after != before {
								t.Fail("what was passed in was altered:\n--- before\n%s\n--- after\n%s", firstDiff(before, after), firstDiff(after, before))
							}
						})
					}
				}
			}},
		},
	})
}
