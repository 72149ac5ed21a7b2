package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/internal/syn"
)

// refMap is the reference meaning of a capability map.
type refMap struct {
	fn, pkg  map[string]Class
	unan     map[string]bool
	edges    map[[2]string]bool
	suffixes []string
}

func newRefMap() *refMap {
	return &refMap{fn: map[string]Class{}, pkg: map[string]Class{}, unan: map[string]bool{}, edges: map[[2]string]bool{}}
}

// refParse is a deliberately plain parser of the documented format.  It
// returns the meaning, or the number of the first line which is in error.
func refParse(data string) (*refMap, int) {
	m := newRefMap()
	for i, line := range strings.Split(data, "\n") {
		n := i + 1
		if k := strings.IndexByte(line, '#'); k >= 0 {
			line = line[:k]
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		need := map[string]int{"func": 3, "package": 3, "ignore_edge": 3, "unanalyzed": 2, "cgo_suffix": 2}[f[0]]
		if need == 0 || len(f) < need {
			return nil, n
		}
		switch f[0] {
		case "cgo_suffix":
			m.suffixes = append(m.suffixes, f[1])
		case "unanalyzed":
			if m.unan[f[1]] {
				return nil, n
			}
			m.unan[f[1]] = true
		case "ignore_edge":
			k := [2]string{f[1], f[2]}
			if m.edges[k] {
				return nil, n
			}
			m.edges[k] = true
		default:
			dst := m.fn
			if f[0] == "package" {
				dst = m.pkg
			}
			c, ok := cpb.Capability_value[f[2]]
			if _, dup := dst[f[1]]; dup || !ok {
				return nil, n
			}
			dst[f[1]] = Class(c)
		}
	}
	return m, 0
}

// meaning of a name under the map alone: whether an entry about the function
// exists and the categories it may have.  A function with both a func and an
// unanalyzed entry may have either.
func (m *refMap) own(name string) []Class {
	for _, s := range m.suffixes {
		if strings.HasSuffix(name, s) {
			return []Class{capCgo}
		}
	}
	var out []Class
	if c, ok := m.fn[name]; ok {
		out = append(out, c)
	}
	if m.unan[name] {
		out = append(out, capUnan)
	}
	return out
}

func (m *refMap) category(pkg, name string) []Class {
	if o := m.own(name); o != nil {
		return o
	}
	return []Class{m.pkg[pkg]}
}

func oneOf(c Class, l []Class) bool {
	for _, x := range l {
		if x == c {
			return true
		}
	}
	return false
}

// edgeProbe builds call graph edges between functions of a small program, to
// ask a classifier whether it would follow a call.
type edgeProbe struct {
	fns map[string]*ssa.Function
}

func newEdgeProbe(srcs []syn.Pkg) *edgeProbe {
	prog, err := syn.Load(srcs)
	if err != nil {
		panic(err)
	}
	sp, _ := ssautil.AllPackages(prog.Order, ssa.InstantiateGenerics)
	sp.Build()
	p := &edgeProbe{fns: map[string]*ssa.Function{}}
	for f := range ssautil.AllFunctions(sp) {
		p.fns[f.String()] = f
	}
	return p
}

func (p *edgeProbe) include(c *interesting.Classifier, from, to string) bool {
	a, b := p.fns[from], p.fns[to]
	if a == nil || b == nil {
		panic(fmt.Sprintf("no function %s or %s", from, to))
	}
	return c.IncludeCall(&callgraph.Edge{Caller: &callgraph.Node{Func: a}, Callee: &callgraph.Node{Func: b}})
}

func sortClasses(c []Class) {
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
}

func capByName(s string) Class {
	if c, ok := cpb.Capability_value[s]; ok {
		return Class(c)
	}
	return -1
}
