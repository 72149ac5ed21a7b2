package checks

import (
	"fmt"
	"path"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C23: a chain of functions through a sequence of packages.

var labelPkgs = []string{"example.com/own", "example.com/own/sub", "other.org/own", "example.com/ownx", "strutil", "net/thing"}

// Forms in which a function of a chain calls the next one.
var labelForms = []string{"call", "variable", "method", "bound", "expr", "generic", "iface", "promoted", "closure", "defer"}

type chainCase struct {
	pkgs  []int // package of each function; the first is 0
	forms []int // form of each call
}

func (c *chainCase) id() string {
	var b strings.Builder
	for i, p := range c.pkgs {
		if i > 0 {
			fmt.Fprintf(&b, " -%s-> ", labelForms[c.forms[i-1]])
		}
		b.WriteString(labelPkgs[p])
	}
	return b.String()
}

// render returns the packages, or nil if imports would be cyclic.
func (c *chainCase) render() []syn.Pkg {
	n := len(c.pkgs)
	np := len(labelPkgs)
	imp := make([][]bool, np)
	for i := range imp {
		imp[i] = make([]bool, np)
	}
	body := make([]strings.Builder, np)
	needsHub := make([]bool, np)
	hub := "package hub\n\n"
	alias := func(p int) string { return fmt.Sprintf("p%d", p) }
	for i := 0; i < n; i++ {
		p := c.pkgs[i]
		b := &body[p]
		fmt.Fprintf(b, "\nfunc F%d() {\n", i)
		if i+1 < n {
			q := c.pkgs[i+1]
			pre := ""
			if q != p {
				pre = alias(q) + "."
			}
			form := labelForms[c.forms[i]]
			if form != "variable" && q != p {
				imp[p][q] = true
			}
			k := i + 1
			switch form {
			case "call":
				fmt.Fprintf(b, "\t%sF%d()\n", pre, k)
			case "variable":
				needsHub[p], needsHub[q] = true, true
				hub += fmt.Sprintf("var V%d func()\n", k)
				fmt.Fprintf(b, "\thub.V%d()\n", k)
			case "method":
				fmt.Fprintf(b, "\t%sT%d{}.M%d()\n", pre, k, k)
			case "bound":
				fmt.Fprintf(b, "\tf := %sT%d{}.M%d\n\tf()\n", pre, k, k)
			case "expr":
				fmt.Fprintf(b, "\tf := %sT%d.M%d\n\tf(%sT%d{})\n", pre, k, k, pre, k)
			case "generic":
				fmt.Fprintf(b, "\t%sG%d[int]()\n", pre, k)
			case "iface":
				fmt.Fprintf(b, "\tvar x interface{ M%d() } = %sT%d{}\n\tx.M%d()\n", k, pre, k, k)
			case "promoted":
				fmt.Fprintf(b, "\tvar x interface{ M%d() } = O%d{}\n\tx.M%d()\n", k, k, k)
			case "closure":
				fmt.Fprintf(b, "\tfunc() { %sF%d() }()\n", pre, k)
			case "defer":
				fmt.Fprintf(b, "\tdefer %sF%d()\n", pre, k)
			}
			fmt.Fprintf(b, "}\n")
			d := &body[q]
			switch form {
			case "variable":
				fmt.Fprintf(d, "\nfunc init() { hub.V%d = F%d }\n", k, k)
			case "method", "bound", "expr", "iface", "promoted":
				fmt.Fprintf(d, "\ntype T%d struct{}\n\nfunc (T%d) M%d() { F%d() }\n", k, k, k, k)
			case "generic":
				fmt.Fprintf(d, "\nfunc G%d[P any]() { F%d() }\n", k, k)
			}
			if form == "promoted" {
				fmt.Fprintf(b, "\ntype O%d struct{ %sT%d }\n", k, pre, k)
			}
		} else {
			fmt.Fprintf(b, "}\n")
		}
	}
	// Topological order.
	var order []int
	state := make([]int, np)
	var visit func(int) bool
	visit = func(p int) bool {
		if state[p] != 0 {
			return state[p] == 2
		}
		state[p] = 1
		for q := range imp[p] {
			if imp[p][q] && !visit(q) {
				return false
			}
		}
		state[p] = 2
		order = append(order, p)
		return true
	}
	// The first package must import the others for their initialisers to be
	// part of the program.
	used := map[int]bool{}
	for _, p := range c.pkgs {
		used[p] = true
	}
	out := []syn.Pkg{syn.One("hub", hub)}
	for p := 0; p < np; p++ {
		if used[p] && !visit(p) {
			return nil
		}
	}
	for _, p := range order {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", path.Base(labelPkgs[p]))
		if needsHub[p] {
			b.WriteString("import \"hub\"\n")
		}
		for q := range imp[p] {
			if imp[p][q] {
				fmt.Fprintf(&b, "import %s %q\n", alias(q), labelPkgs[q])
			}
		}
		b.WriteString(body[p].String())
		out = append(out, syn.One(labelPkgs[p], b.String()))
	}
	return out
}

func runChain(t *mc.T, c *chainCase) {
	srcs := c.render()
	if srcs == nil {
		return
	}
	prog, err := syn.Load(srcs)
	if err != nil {
		panic(fmt.Sprintf("harness: %s: %v", c.id(), err))
	}
	n := len(c.pkgs)
	name := func(i int) string { return fmt.Sprintf("%s.F%d", labelPkgs[c.pkgs[i]], i) }
	cls, err := interesting.LoadClassifier("x", strings.NewReader(fmt.Sprintf("func %s CAPABILITY_FILES", name(n-1))), true)
	if err != nil {
		panic(err)
	}
	// All packages are given, so that initialisers of packages which are only
	// reached through variables are part of the program; only the first one
	// is queried.
	pkgs := prog.Order
	q := analyzer.GetQueriedPackages(prog.Query(labelPkgs[0]))
	want := map[string]cpb.CapabilityType{}
	for i := 0; i < n; i++ {
		if c.pkgs[i] != 0 {
			continue
		}
		want[name(i)] = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
		for j := i; j < n; j++ {
			if p := labelPkgs[c.pkgs[j]]; c.pkgs[j] != 0 && strings.Contains(p, ".") {
				want[name(i)] = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
			}
		}
	}
	for _, omit := range []bool{false, true} {
		cil := analyzer.GetCapabilityInfo(pkgs, q, &analyzer.Config{Classifier: cls, OmitPaths: omit})
		var direct, trans int64
		seen := 0
		for _, ci := range cil.GetCapabilityInfo() {
			if ci.GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT {
				direct++
			} else {
				trans++
			}
			w, ok := want[subject(ci)]
			if !ok {
				continue // a helper of the form, such as a method or closure
			}
			seen++
			if ci.GetCapabilityType() != w {
				t.Fail("omit=%v: %s is labelled %v, want %v\n%s", omit, subject(ci), ci.GetCapabilityType(), w, cilString(cil))
			}
		}
		if seen != len(want) {
			t.Fail("omit=%v: %d of %d functions reported\n%s", omit, seen, len(want), cilString(cil))
		}
		st := analyzer.GetCapabilityStats(pkgs, q, &analyzer.Config{Classifier: cls, OmitPaths: omit})
		for _, s := range st.GetCapabilityStats() {
			if s.GetDirectCount() != direct || s.GetTransitiveCount() != trans {
				t.Fail("omit=%v: statistics say %d direct and %d transitive, the report has %d and %d", omit, s.GetDirectCount(), s.GetTransitiveCount(), direct, trans)
			}
		}
		t.Trace()
		t.Outcome(fmt.Sprint(direct, trans, len(cil.GetCapabilityInfo())))
	}
	t.State(int64(n), int64(n-1))
	if t.Failed() {
		for _, s := range srcs {
			t.Detail("-- " + s.Path + " --\n" + s.Files[0].Src)
		}
	}
}

func chainEngine() mc.Engine {
	return mc.Engine{Name: "chains", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		nk, nf := len(labelPkgs), len(labelForms)
		seqs := func(k, base int, f func([]int)) {
			s := make([]int, k)
			var rec func(i int)
			rec = func(i int) {
				if i == k {
					f(s)
					return
				}
				for x := 0; x < base; x++ {
					s[i] = x
					rec(i + 1)
				}
			}
			rec(0)
		}
		emit := func(p, f []int) {
			c := &chainCase{pkgs: append([]int{0}, p...), forms: append([]int(nil), f...)}
			yield(c.id, func(t *mc.T) { runChain(t, c) })
		}
		// Every mix of forms for up to two calls (thorough: three).
		full := 2
		if tier == "thorough" {
			full = 3
		}
		for k := 1; k <= full; k++ {
			seqs(k, nk, func(p []int) { seqs(k, nf, func(f []int) { emit(p, f) }) })
		}
		// Longer chains: one special call among variable calls, at every
		// position.
		for k := full + 1; k <= 4; k++ {
			seqs(k, nk, func(p []int) {
				f := make([]int, k)
				for i := range f {
					f[i] = 1
				}
				emit(p, f)
				if k == 3 {
					for i := 0; i < k; i++ {
						for x := 0; x < nf; x++ {
							if x != 1 {
								f[i] = x
								emit(p, f)
							}
						}
						f[i] = 1
					}
				}
			})
		}
	}}
}
