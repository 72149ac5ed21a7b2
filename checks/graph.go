package checks

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"

	"verif/internal/mc"
	"verif/internal/syn"
)

// Class is the classification of a function: classNone, classSafe, or a
// capability.
type Class = cpb.Capability

const (
	classNone = cpb.Capability_CAPABILITY_UNSPECIFIED
	classSafe = cpb.Capability_CAPABILITY_SAFE
	capFiles  = cpb.Capability_CAPABILITY_FILES
	capNet    = cpb.Capability_CAPABILITY_NETWORK
	capUnan   = cpb.Capability_CAPABILITY_UNANALYZED
	capUnsafe = cpb.Capability_CAPABILITY_UNSAFE_POINTER
	capRefl   = cpb.Capability_CAPABILITY_REFLECT
	capArb    = cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION
	capCgo    = cpb.Capability_CAPABILITY_CGO
)

// Extras of a function body.
const (
	xUnsafe = 1 << iota
	xReflect
	xBodyless
)

// Kinds of function.
const (
	kFunc    = iota // func F()
	kMethod         // func (T) F()
	kPtr            // func (*T) F()
	kGeneric        // func F[P any]()
	kClosure        // V = func() within another function
	kGMethod        // func (T[P]) F()
)

// Edge states.
const (
	eNone = iota
	eCall
	eIgnored
	eTwice        // two calls at different sites
	eIgnoredTwice // two ignored calls
)

func ignoredEdge(e uint8) bool { return e == eIgnored || e == eIgnoredTwice }
func twiceEdge(e uint8) bool   { return e == eTwice || e == eIgnoredTwice }

// GFn is a function of an enumerated program.
type GFn struct {
	Pkg   int
	Class Class
	Extra int
	Kind  int
	In    int // for kClosure: the enclosing function
	Style int // index in fnStyles
}

// GCase is an enumerated program: a call graph spread over packages.
type GCase struct {
	Fns   []GFn
	E     [][]uint8
	Pkgs  []string // package paths; imports must be acyclic
	PCls  []Class  // package entries (classNone: no entry)
	Query uint     // mask of queried packages
	Rev   bool     // reverse the name order
	Files int      // number of files per package (0: 1)
	Call  int      // index in callStyles
	File  int      // 1 + index in fileStyles
	PIni  []uint   // mask of functions called from a package variable initialiser, per package
	Inits int      // number of init functions that share these calls (0: 1)
	Ign   int      // 1 + index of a call of the model that is ignored
}

func newCase(n int) *GCase {
	g := &GCase{Fns: make([]GFn, n), E: make([][]uint8, n), Pkgs: []string{"example.com/a"}, Query: 1}
	for i := range g.E {
		g.E[i] = make([]uint8, n)
	}
	return g
}

func (g *GCase) clone() *GCase {
	h := *g
	h.Fns = append([]GFn(nil), g.Fns...)
	h.E = make([][]uint8, len(g.E))
	for i := range g.E {
		h.E[i] = append([]uint8(nil), g.E[i]...)
	}
	h.Pkgs = append([]string(nil), g.Pkgs...)
	h.PCls = append([]Class(nil), g.PCls...)
	h.PIni = append([]uint(nil), g.PIni...)
	return &h
}

// ID is a complete description.
func (g *GCase) ID() string {
	var b strings.Builder
	for i, f := range g.Fns {
		fmt.Fprintf(&b, "F%d{p%d c%d x%d k%d", i, f.Pkg, f.Class, f.Extra, f.Kind)
		if f.Kind == kClosure {
			fmt.Fprintf(&b, " in%d", f.In)
		}
		b.WriteString("}")
	}
	b.WriteString(" E=")
	for i := range g.E {
		for j := range g.E[i] {
			if g.E[i][j] != 0 {
				fmt.Fprintf(&b, "%d>%d:%d,", i, j, g.E[i][j])
			}
		}
	}
	fmt.Fprintf(&b, " P=%s", strings.Join(g.Pkgs, ","))
	if len(g.PCls) > 0 {
		fmt.Fprintf(&b, " PC=%v", g.PCls)
	}
	if len(g.PIni) > 0 {
		fmt.Fprintf(&b, " PI=%v", g.PIni)
	}
	if g.Inits > 1 {
		fmt.Fprintf(&b, " inits=%d", g.Inits)
	}
	fmt.Fprintf(&b, " Q=%b", g.Query)
	if g.Rev {
		b.WriteString(" rev")
	}
	if g.Files > 1 {
		fmt.Fprintf(&b, " files=%d", g.Files)
	}
	if g.Ign > 0 {
		fmt.Fprintf(&b, " ign=%d", g.Ign)
	}
	b.WriteString(g.styleID())
	s := b.String()
	if len(s) > 3000 {
		s = fmt.Sprintf("%s...[%d]", s[:3000], len(s))
	}
	return s
}

func (g *GCase) base(i int) string {
	if n := g.Fns[i].style().name; strings.Contains(n, "%") {
		return fmt.Sprintf(n, i)
	} else if n != "" {
		return n
	}
	if g.Rev {
		return fmt.Sprintf("F%03d", len(g.Fns)-i)
	}
	return fmt.Sprintf("F%03d", i)
}

func (g *GCase) name(i int) string {
	p := g.Pkgs[g.Fns[i].Pkg]
	switch g.Fns[i].Kind {
	case kMethod:
		return fmt.Sprintf("(%s.T%03d).%s", p, i, g.base(i))
	case kPtr:
		return fmt.Sprintf("(*%s.T%03d).%s", p, i, g.base(i))
	case kGMethod:
		return fmt.Sprintf("(%s.T%03d[%s]).%s", p, i, strings.ReplaceAll(g.Fns[i].style().tnames(), " ", ""), g.base(i))
	case kClosure:
		k := 1
		for j := 0; j < i; j++ {
			if g.Fns[j].Kind == kClosure && g.Fns[j].In == g.Fns[i].In {
				k++
			}
		}
		return fmt.Sprintf("%s$%d", g.name(g.Fns[i].In), k)
	}
	return p + "." + g.base(i)
}

type site struct {
	file     string
	line     int
	col, end int // columns of the call expression, inclusive
}

// node of the model: a function or an instance of a generic function or a
// package initialiser.
type node struct {
	name     string
	pkg      int
	class    Class
	extra    int
	reported bool // can be the subject of an entry
}

type edge struct {
	from, to int
	ignored  bool
	sites    []site
}

// Model is the reference model of a GCase.
type Model struct {
	g     *GCase
	nodes []node
	edges []edge
	out   [][]int // edge indices
	in    [][]int
	idx   map[string]int
	// reach[c] is the set of nodes which have capability c.
	reach               map[Class][]bool
	states, transitions int64
}

func (m *Model) caps(i int) []Class {
	n := m.nodes[i]
	if n.class == classSafe {
		return nil
	}
	if n.class != classNone {
		return []Class{n.class}
	}
	var out []Class
	if n.extra&xUnsafe != 0 {
		out = append(out, capUnsafe)
	}
	if n.extra&xReflect != 0 {
		out = append(out, capRefl)
	}
	if n.extra&xBodyless != 0 {
		out = append(out, capArb)
	}
	return out
}

func (m *Model) addNode(n node) int {
	m.nodes = append(m.nodes, n)
	m.idx[n.name] = len(m.nodes) - 1
	return len(m.nodes) - 1
}

// render returns the source packages, dependencies first, and the model.
func (g *GCase) render() ([]syn.Pkg, *Model, error) {
	np := len(g.Pkgs)
	imports := make([]map[int]bool, np)
	for i := range imports {
		imports[i] = map[int]bool{}
	}
	needReflect := false
	for i, f := range g.Fns {
		if f.Extra&xReflect != 0 {
			needReflect = true
		}
		for j, e := range g.E[i] {
			if e != eNone && g.Fns[j].Pkg != f.Pkg && f.Extra&xBodyless == 0 {
				imports[f.Pkg][g.Fns[j].Pkg] = true
			}
		}
	}
	for p, m := range g.PIni {
		for j := range g.Fns {
			if m>>j&1 == 1 && g.Fns[j].Pkg != p {
				imports[p][g.Fns[j].Pkg] = true
			}
		}
	}
	// Topological order.
	var order []int
	state := make([]int, np)
	var visit func(p int) bool
	visit = func(p int) bool {
		if state[p] == 1 {
			return false
		}
		if state[p] == 2 {
			return true
		}
		state[p] = 1
		for q := 0; q < np; q++ {
			if imports[p][q] && !visit(q) {
				return false
			}
		}
		state[p] = 2
		order = append(order, p)
		return true
	}
	for p := 0; p < np; p++ {
		if !visit(p) {
			return nil, nil, fmt.Errorf("import cycle")
		}
	}
	m := &Model{g: g, idx: map[string]int{}, reach: map[Class][]bool{}}
	fnode := make([]int, len(g.Fns))
	inst := make([]int, len(g.Fns))
	pclass := func(p int, c Class, explicit bool) Class {
		if c != classNone || explicit {
			return c
		}
		if p < len(g.PCls) {
			return g.PCls[p]
		}
		return classNone
	}
	for i, f := range g.Fns {
		c := pclass(f.Pkg, f.Class, false)
		if f.Kind == kGMethod {
			// Only the instance is part of the program.
			in := fmt.Sprintf("(%s.T%03d[%s]).%s[%s]", g.Pkgs[f.Pkg], i, f.style().targ(), g.base(i), f.style().tinst(" "))
			fnode[i] = m.addNode(node{name: in, pkg: f.Pkg, class: c, extra: f.Extra})
			inst[i] = fnode[i]
			continue
		}
		fnode[i] = m.addNode(node{name: g.name(i), pkg: f.Pkg, class: c, extra: f.Extra, reported: true})
		inst[i] = fnode[i]
		if f.Kind == kGeneric {
			used := false
			for j := range g.Fns {
				if g.E[j][i] != eNone && g.Fns[j].Extra&xBodyless == 0 {
					used = true
				}
			}
			for _, ini := range g.PIni {
				if ini>>i&1 == 1 {
					used = true
				}
			}
			if used {
				in := g.name(i) + "[" + f.style().tinst(" ") + "]"
				inst[i] = m.addNode(node{name: in, pkg: f.Pkg, class: c, extra: f.Extra})
			}
		}
	}
	inits := make([]int, np)
	for p := range g.Pkgs {
		inits[p] = m.addNode(node{name: g.Pkgs[p] + ".init", pkg: p, class: pclass(p, classNone, false), reported: true})
	}
	files := max(g.Files, 1)
	var out []syn.Pkg
	if needReflect {
		out = append(out, syn.One("reflect", "package reflect\n\ntype Value struct {\n\tt, p int\n}\n"))
	}
	for _, p := range order {
		pk := syn.Pkg{Path: g.Pkgs[p]}
		pname := pkgName(g.Pkgs[p])
		for fi := 0; fi < files; fi++ {
			var b strings.Builder
			line := 1
			fname := pname + ".go"
			if fi > 0 {
				fname = fmt.Sprintf("%s%d.go", pname, fi)
			} else if g.File > 0 {
				fname = fileStyles[g.File-1][0]
			}
			w := func(format string, a ...any) {
				s := fmt.Sprintf(format, a...)
				b.WriteString(s)
				line += strings.Count(s, "\n")
			}
			if fi == 0 && g.File > 0 {
				w("%s", fileStyles[g.File-1][1])
			}
			w("package %s\n\n", pname)
			imp := map[string]bool{}
			for i, f := range g.Fns {
				if f.Pkg != p || i%files != fi || f.Extra&xBodyless != 0 {
					continue
				}
				for j, e := range g.E[i] {
					if e != eNone && g.Fns[j].Pkg != p {
						imp[g.Pkgs[g.Fns[j].Pkg]] = true
					}
				}
				if f.Extra&xUnsafe != 0 {
					imp["unsafe"] = true
				}
				if f.Extra&xReflect != 0 {
					imp["reflect"] = true
				}
			}
			if fi == 0 && p < len(g.PIni) {
				for j := range g.Fns {
					if g.PIni[p]>>j&1 == 1 && g.Fns[j].Pkg != p {
						imp[g.Pkgs[g.Fns[j].Pkg]] = true
					}
				}
			}
			var imps []string
			for s := range imp {
				imps = append(imps, s)
			}
			sort.Strings(imps)
			for _, s := range imps {
				if a := g.alias(s); a != path.Base(s) {
					w("import %s %q\n", a, s)
				} else {
					w("import %q\n", s)
				}
				for q, qp := range g.Pkgs {
					if qp == s {
						m.edges = append(m.edges, edge{from: inits[p], to: inits[q]})
					}
				}
			}
			// call writes a call of j; returns its site.
			call := func(j int, indent, suffix string) site {
				var q string
				if g.Fns[j].Pkg != p {
					q = g.alias(g.Pkgs[g.Fns[j].Pkg]) + "."
				}
				var ex string
				switch g.Fns[j].Kind {
				case kMethod:
					ex = fmt.Sprintf("%sT%03d{}.%s", q, j, g.base(j))
				case kPtr:
					ex = fmt.Sprintf("(&%sT%03d{}).%s", q, j, g.base(j))
				case kGeneric:
					ex = fmt.Sprintf("%s%s[%s]", q, g.base(j), g.Fns[j].style().targ())
				case kGMethod:
					ex = fmt.Sprintf("%sT%03d[%s]{}.%s", q, j, g.Fns[j].style().targ(), g.base(j))
				case kClosure:
					ex = fmt.Sprintf("%sV%03d", q, j)
				default:
					ex = q + g.base(j)
				}
				st := g.Fns[j].style()
				pre, args := callStyles[g.Call], st.args
				if pre == "" {
					indent += st.use
				}
				col := strings.LastIndexByte("\n"+b.String(), '\n')
				col = b.Len() - col + 1
				s := site{file: fname, line: line, col: col + len(indent), end: col + len(indent) + len(pre) + len(ex) + 1 + len(args)}
				w("%s%s%s(%s)%s", indent, pre, ex, args, suffix)
				return s
			}
			if fi == 0 && p < len(g.PIni) && g.PIni[p] != 0 {
				for x := 0; x < max(g.Inits, 1); x++ {
					k := m.addNode(node{name: fmt.Sprintf("%s.init#%d", g.Pkgs[p], x+1), pkg: p, class: pclass(p, classNone, false), reported: true})
					m.edges = append(m.edges, edge{from: inits[p], to: k})
					w("\nfunc init() {\n")
					for j := range g.Fns {
						if g.PIni[p]>>j&1 == 1 && j%max(g.Inits, 1) == x {
							m.edges = append(m.edges, edge{from: k, to: inst[j], sites: []site{call(j, "\t", "\n")}})
						}
					}
					w("}\n")
				}
			}
			for i, f := range g.Fns {
				if f.Pkg != p || i%files != fi || f.Kind == kClosure {
					continue
				}
				w("\n")
				if f.Kind == kMethod || f.Kind == kPtr {
					w("type T%03d struct{}\n\n", i)
				}
				st := f.style()
				if f.Kind == kGMethod {
					w("type T%03d[%s] struct{}\n\n", i, st.tparam())
				}
				w("%s", st.doc)
				switch f.Kind {
				case kMethod:
					w("func (T%03d) %s(%s)%s", i, g.base(i), st.params, st.results)
				case kPtr:
					w("func (*T%03d) %s(%s)%s", i, g.base(i), st.params, st.results)
				case kGeneric:
					w("func %s[%s](%s)%s", g.base(i), st.tparam(), st.params, st.results)
				case kGMethod:
					w("func (T%03d[%s]) %s(%s)%s", i, st.tnames(), g.base(i), st.params, st.results)
				default:
					w("func %s(%s)%s", g.base(i), st.params, st.results)
				}
				if f.Extra&xBodyless != 0 {
					w("\n")
					continue
				}
				w(" {\n")
				if st.before != "" {
					w("\t%s\n", st.before)
				}
				var body func(i int, in string)
				body = func(i int, in string) {
					f := g.Fns[i]
					if f.Extra&xUnsafe != 0 {
						w("%s_ = (*int)(unsafe.Pointer(nil))\n", in)
					}
					if f.Extra&xReflect != 0 {
						w("%sR%03d = reflect.Value{}\n", in, i)
					}
					for k, c := range g.Fns {
						if c.Kind == kClosure && c.In == i {
							cs := c.style()
							if cs.outer != "" {
								w("%s%s\n", in, cs.outer)
							}
							w("%sV%03d = func(%s)%s {\n", in, k, cs.params, cs.results)
							if cs.before != "" {
								w("%s%s\n", in, cs.before)
							}
							body(k, in+"\t")
							if cs.after != "" {
								w("%s%s\n", in, cs.after)
							}
							w("%s}\n", in)
						}
					}
					for j, e := range g.E[i] {
						if e == eNone {
							continue
						}
						ed := edge{from: fnode[i], to: inst[j], ignored: ignoredEdge(e)}
						ed.sites = append(ed.sites, call(j, in, "\n"))
						if twiceEdge(e) {
							ed.sites = append(ed.sites, call(j, in, "\n"))
						}
						m.edges = append(m.edges, ed)
						if inst[i] != fnode[i] {
							ed.from = inst[i]
							m.edges = append(m.edges, ed)
						}
					}
				}
				body(i, "\t")
				if st.after != "" {
					w("\t%s\n", st.after)
				}
				w("}\n")
				for k, c := range g.Fns {
					root := k
					for g.Fns[root].Kind == kClosure {
						root = g.Fns[root].In
					}
					if root != i {
						continue
					}
					if c.Kind == kClosure {
						w("\nvar V%03d func(%s)%s\n", k, c.style().params, c.style().results)
					}
					if c.Extra&xReflect != 0 {
						w("\nvar R%03d reflect.Value\n", k)
					}
				}
			}
			pk.Files = append(pk.Files, syn.File{Name: fname, Src: b.String()})
		}
		out = append(out, pk)
	}
	if g.Ign > 0 {
		for i, e := range m.edges {
			if e.from == m.edges[g.Ign-1].from && e.to == m.edges[g.Ign-1].to {
				m.edges[i].ignored = true
			}
		}
	}
	m.solve()
	return out, m, nil
}

// alias is the name under which a package is imported: its own name, unless
// another package has the same.
func (g *GCase) alias(p string) string {
	k := -1
	dup := false
	for i, q := range g.Pkgs {
		if q == p {
			k = i
		} else if pkgName(q) == pkgName(p) {
			dup = true
		}
	}
	if dup {
		return fmt.Sprintf("alias%d", k)
	}
	return pkgName(p)
}

// pkgName derives a package name from a path.
func pkgName(p string) string {
	s := path.Base(p)
	s = strings.NewReplacer(".", "_", "-", "_").Replace(s)
	return s
}

func (m *Model) solve() {
	n := len(m.nodes)
	m.out = make([][]int, n)
	m.in = make([][]int, n)
	for k, e := range m.edges {
		m.out[e.from] = append(m.out[e.from], k)
		m.in[e.to] = append(m.in[e.to], k)
	}
	for v := range m.nodes {
		for _, c := range m.caps(v) {
			r := m.reach[c]
			if r == nil {
				r = make([]bool, n)
				m.reach[c] = r
			}
			r[v] = true
		}
	}
	for _, r := range m.reach {
		for changed := true; changed; {
			changed = false
			for _, e := range m.edges {
				m.transitions++
				if !e.ignored && r[e.to] && !r[e.from] && m.nodes[e.from].class == classNone {
					r[e.from] = true
					changed = true
				}
			}
		}
		for _, x := range r {
			if x {
				m.states++
			}
		}
	}
	m.states++ // the state in which nothing has been found
}

func (m *Model) queried(v int) bool {
	return m.nodes[v].reported && m.g.Query>>m.nodes[v].pkg&1 == 1
}

type pair struct {
	name string
	cap  Class
}

// pairs is the expected function view.
func (m *Model) pairs() map[pair]bool {
	out := map[pair]bool{}
	for c, r := range m.reach {
		for v, x := range r {
			if x && m.queried(v) {
				out[pair{m.nodes[v].name, c}] = true
			}
		}
	}
	return out
}

// forward returns the nodes on some admissible path from a queried function to
// capability c.
func (m *Model) forward(c Class) []bool {
	r := m.reach[c]
	f := make([]bool, len(m.nodes))
	if r == nil {
		return f
	}
	var q []int
	for v := range m.nodes {
		if r[v] && m.queried(v) {
			f[v] = true
			q = append(q, v)
		}
	}
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		if m.nodes[v].class != classNone {
			continue
		}
		for _, k := range m.out[v] {
			e := m.edges[k]
			if !e.ignored && r[e.to] && !f[e.to] {
				f[e.to] = true
				q = append(q, e.to)
			}
		}
	}
	return f
}

// interPairs is the expected intermediate view: (package path, capability).
func (m *Model) interPairs(sel func(Class) bool) map[pair]bool {
	out := map[pair]bool{}
	for c := range m.reach {
		if !sel(c) {
			continue
		}
		for v, x := range m.forward(c) {
			if x {
				out[pair{m.g.Pkgs[m.nodes[v].pkg], c}] = true
			}
		}
	}
	return out
}

// graphEdges is the expected set of graph lines.
func (m *Model) graphEdges(sel func(Class) bool) map[string]bool {
	out := map[string]bool{}
	for c, r := range m.reach {
		if !sel(c) {
			continue
		}
		for v, x := range m.forward(c) {
			if !x {
				continue
			}
			for _, d := range m.caps(v) {
				if d == c {
					out[dotEdge(m.nodes[v].name, c.String())] = true
				}
			}
			if m.nodes[v].class != classNone {
				continue
			}
			for _, k := range m.out[v] {
				e := m.edges[k]
				if !e.ignored && r[e.to] {
					out[dotEdge(m.nodes[v].name, m.nodes[e.to].name)] = true
				}
			}
		}
	}
	return out
}

func dotEdge(a, b string) string { return fmt.Sprintf("\t\"%s\" -> \"%s\"", a, b) }

// mapFile renders the capability map.
func (m *Model) mapFile() string {
	g := m.g
	var b strings.Builder
	for i, f := range g.Fns {
		if f.Class != classNone {
			fmt.Fprintf(&b, "func %s %s\n", g.name(i), f.Class)
		}
	}
	for p, c := range g.PCls {
		if c != classNone {
			fmt.Fprintf(&b, "package %s %s\n", g.Pkgs[p], c)
		}
	}
	seen := map[string]bool{}
	for _, e := range m.edges {
		if e.ignored {
			s := fmt.Sprintf("ignore_edge %s %s\n", m.nodes[e.from].name, m.nodes[e.to].name)
			if !seen[s] {
				b.WriteString(s)
			}
			seen[s] = true
		}
	}
	return b.String()
}

// Loaded is a rendered, loaded program with its model and classifier.
type Loaded struct {
	g    *GCase
	m    *Model
	src  []syn.Pkg
	prog *syn.Program
	pkgs []*packages.Package
	cls  *interesting.Classifier
}

func (g *GCase) load() (*Loaded, error) {
	src, m, err := g.render()
	if err != nil {
		return nil, err
	}
	prog, err := syn.Load(src)
	if err != nil {
		return nil, err
	}
	cls, err := interesting.LoadClassifier("case.cm", strings.NewReader(m.mapFile()), true)
	if err != nil {
		return nil, err
	}
	l := &Loaded{g: g, m: m, src: src, prog: prog, cls: cls}
	for p, pp := range g.Pkgs {
		if g.Query>>p&1 == 1 {
			l.pkgs = append(l.pkgs, prog.Query(pp)...)
		}
	}
	return l, nil
}

func (l *Loaded) queried() map[*types.Package]struct{} { return analyzer.GetQueriedPackages(l.pkgs) }

func (l *Loaded) config() *analyzer.Config { return &analyzer.Config{Classifier: l.cls} }

func (l *Loaded) info(cfg *analyzer.Config) *cpb.CapabilityInfoList {
	return analyzer.GetCapabilityInfo(l.pkgs, l.queried(), cfg)
}

func (l *Loaded) describe(t *mc.T) {
	t.Detail("map:\n" + l.m.mapFile())
	for _, p := range l.src {
		for _, f := range p.Files {
			t.Detail("-- " + p.Path + "/" + f.Name + " --\n" + f.Src)
		}
	}
}

func cilString(cil *cpb.CapabilityInfoList) string {
	var b strings.Builder
	for _, c := range cil.GetCapabilityInfo() {
		fmt.Fprintf(&b, "%s %s %s [%s]\n", c.GetCapability(), c.GetPackageDir(), c.GetCapabilityType(), pathNames(c.GetPath()))
	}
	return b.String()
}

func pathNames(fs []*cpb.Function) string {
	var s []string
	for _, f := range fs {
		s = append(s, f.GetName())
	}
	return strings.Join(s, " ")
}

func all(Class) bool { return true }
