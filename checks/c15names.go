package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C15: functions whose names need quoting.  Instances of generic functions
// are named after their type arguments, and those can contain struct tags,
// that is, quoted strings.

const c15Leaf = "package lf\n\nfunc F() {}\n"

const c15Src = `package a

import "example.com/lf"

func F[T any](t T) { lf.F() }
func G()           { F(struct{ A int %[1]s }{}) }

type L[T any] struct{ t T }

func (l *L[T]) M() { lf.F() }
func H()           { new(L[struct{ A int %[1]s }]).M() }

func K[T any](t T) { F(t) }
func J()           { K(struct{ A int %[1]s }{}) }
`

// c15Edges are the edges that involve an instance.
func c15Edges(tag string) map[string]bool {
	s := "struct{A int " + strconv.Quote(tag) + "}"
	f, k := "example.com/a.F["+s+"]", "example.com/a.K["+s+"]"
	m := "(*example.com/a.L[" + s + "]).M[" + s + "]"
	return map[string]bool{
		dotEdge("example.com/a.G", f):                  true,
		dotEdge(f, "example.com/lf.F"):                 true,
		dotEdge("example.com/a.H", m):                  true,
		dotEdge(m, "example.com/lf.F"):                 true,
		dotEdge("example.com/a.J", k):                  true,
		dotEdge(k, f):                                  true,
		dotEdge("example.com/lf.F", capFiles.String()): true,
	}
}

func c15Tag(t *mc.T, tag string) {
	s := srcCase{pkgs: []syn.Pkg{
		{Path: "example.com/lf", Files: []syn.File{{Name: "lf.go", Src: c15Leaf}}},
		{Path: "example.com/a", Files: []syn.File{{Name: "a.go", Src: fmt.Sprintf(c15Src, strconv.Quote(tag))}}}},
		query: []string{"example.com/a"}, cm: "func example.com/lf.F CAPABILITY_FILES\n"}
	s.describe(t)
	prog, err := syn.Load(s.pkgs)
	if err != nil {
		t.Broken("%v\n%s", err, s.text())
	}
	cls, err := interesting.LoadClassifier("case.cm", strings.NewReader(s.cm), true)
	if err != nil {
		t.Broken("%v", err)
	}
	q := prog.Query(s.query...)
	out := t.Capture(func() {
		err = analyzer.RunCapslock(nil, "graph", q, analyzer.GetQueriedPackages(q), &analyzer.Config{Classifier: cls})
	})
	t.Trace()
	if err != nil {
		t.Fail("graph: %v", err)
		return
	}
	want := c15Edges(tag)
	t.State(int64(len(want))+1, int64(len(want)))
	// A backslash of the name may be doubled or not: readers of the format
	// take either, as long as quotes and ends of strings are unambiguous.
	edges, _, err := parseDot(out)
	if err != nil {
		t.Fail("graph: %v\n%s", err, out)
		return
	}
	for _, un := range []func(string) string{func(s string) string { return s }, func(s string) string { return strings.ReplaceAll(s, `\\`, `\`) }} {
		got := map[string]bool{}
		for e := range edges {
			if strings.Contains(e, "struct{") || strings.Contains(e, "CAPABILITY") {
				got[un(e)] = true
			}
		}
		if sortedKeys(got) == sortedKeys(want) {
			t.Outcome(out)
			return
		}
	}
	t.Fail("graph of functions with tag %q in their names:\n%s\nwant\n%s", tag, out, sortedKeys(want))
}

var namesEngine = mc.Engine{Name: "names", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	n := 4
	if tier == "thorough" {
		n = 6
	}
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if s != "" {
			yield(func() string { return fmt.Sprintf("tag %q", s) }, func(t *mc.T) { c15Tag(t, s) })
		}
		if k < n {
			for _, c := range []string{"a", `"`, `\`, "\n", " -> ", "é", "}"} {
				rec(s+c, k+1)
			}
		}
	}
	rec("", 0)
}}
