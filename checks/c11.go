package checks

import (
	"fmt"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
)

// C11: suppressing not-analysable results removes exactly those results.

// withoutUnan is the program in which nothing is marked as not analysable.
func withoutUnan(g *GCase) *GCase {
	h := g.clone()
	for i := range h.Fns {
		if h.Fns[i].Class == capUnan {
			h.Fns[i].Class = classNone
		}
	}
	for i := range h.PCls {
		if h.PCls[i] == capUnan {
			h.PCls[i] = classNone
		}
	}
	return h
}

func reportPairs(cil *cpb.CapabilityInfoList) map[pair]bool {
	out := map[pair]bool{}
	for _, c := range cil.GetCapabilityInfo() {
		out[pair{subject(c), c.GetCapability()}] = true
	}
	return out
}

// c11Case checks one program; byKeyword is a mask of functions marked with
// the dedicated keyword rather than with a capability.
func c11Case(t *mc.T, g *GCase, byKeyword uint) {
	l, err := g.load()
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	plain, err := withoutUnan(g).load()
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	src := l.m.mapFile()
	for i, f := range g.Fns {
		if f.Class == capUnan && byKeyword>>i&1 == 1 {
			src = strings.Replace(src, fmt.Sprintf("func %s %s\n", g.name(i), capUnan), "unanalyzed "+g.name(i)+"\n", 1)
		}
	}
	for _, exclude := range []bool{true, false} {
		orig, err := interesting.LoadClassifier("case.cm", strings.NewReader(src), exclude)
		if err != nil {
			t.Fail("map rejected: %v\n%s", err, src)
			return
		}
		quiet := interesting.ClassifierExcludingUnanalyzed(orig)
		twice := interesting.ClassifierExcludingUnanalyzed(quiet)
		for _, c := range []struct {
			what string
			cls  *interesting.Classifier
			want map[pair]bool
		}{
			{"suppressed", quiet, plain.m.pairs()},
			{"not suppressed", orig, l.m.pairs()},
			{"suppressed twice", twice, plain.m.pairs()},
		} {
			cil := l.info(&analyzer.Config{Classifier: c.cls})
			t.Trace()
			setDiff(t, fmt.Sprintf("%s (built-ins excluded: %v) entry", c.what, exclude), reportPairs(cil), c.want)
			t.Outcome(c.what + cilString(cil))
			var caps []string
			for p := range c.want {
				caps = append(caps, p.cap.String())
			}
			counts := analyzer.GetCapabilityCounts(l.pkgs, l.queried(), &analyzer.Config{Classifier: c.cls}).GetCapabilityCounts()
			got := map[string]bool{}
			for k := range counts {
				got[k] = true
			}
			want := map[string]bool{}
			for _, k := range caps {
				want[k] = true
			}
			setDiff(t, c.what+" count", got, want)
		}
	}
	t.State(l.m.states+plain.m.states, l.m.transitions+plain.m.transitions)
	if t.Failed() {
		t.Detail("map used:\n" + src)
		l.describe(t)
	}
}

var c11Lines = []string{
	"func x.y/a.F CAPABILITY_FILES", "func x.y/b.F CAPABILITY_UNANALYZED", "func x.y/b.G CAPABILITY_UNSPECIFIED", "package x.y/a CAPABILITY_NETWORK", "package x.y/b CAPABILITY_UNANALYZED",
	"unanalyzed x.y/a.G", "ignore_edge x.y/a.F x.y/b.F", "ignore_edge x.y/b.G x.y/a.G", "cgo_suffix _sfx", "cgo_suffix b.G",
}

func init() {
	graphs := mc.Engine{Name: "graphs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		cls := []Class{classNone, classSafe, capFiles, capUnan, capUnan}
		for n := 1; n <= 3; n++ {
			labelled(n, len(cls), 2, 2, func(lab []int, e [][]uint8) {
				g := newCase(n)
				kw := uint(0)
				any := false
				for i, k := range lab {
					g.Fns[i].Class = cls[k]
					if k == 4 {
						kw |= 1 << i
					}
					any = any || k >= 3
				}
				if !any {
					return
				}
				copyEdges(g, e)
				yield(func() string { return fmt.Sprintf("%s kw=%b", g.ID(), kw) }, func(t *mc.T) { c11Case(t, g, kw) })
			})
		}
	}}
	ignored := mc.Engine{Name: "ignored calls", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		cls := []Class{classNone, capFiles, capUnan, capUnan}
		labelled(3, len(cls), 3, 1, func(lab []int, e [][]uint8) {
			g := newCase(3)
			kw := uint(0)
			any := false
			for i, k := range lab {
				g.Fns[i].Class = cls[k]
				if k == 3 {
					kw |= 1 << i
				}
				any = any || k >= 2
			}
			copyEdges(g, e)
			ign := false
			for i := range g.E {
				for j := range g.E[i] {
					if g.E[i][j] == 2 {
						g.E[i][j], ign = eIgnored, true
					}
				}
			}
			if any && ign {
				yield(func() string { return fmt.Sprintf("%s kw=%b", g.ID(), kw) }, func(t *mc.T) { c11Case(t, g, kw) })
			}
		})
	}}
	// Entries of other kinds keep their meaning.
	others := mc.Engine{Name: "other entries", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for mask := 0; mask < 1<<len(c11Lines); mask++ {
			for _, exclude := range []bool{true, false} {
				yield(func() string { return fmt.Sprintf("%b built-ins excluded %v", mask, exclude) }, func(t *mc.T) {
					var with, without strings.Builder
					for i, l := range c11Lines {
						if mask>>i&1 == 1 {
							with.WriteString(l + "\n")
							if !strings.Contains(strings.ToLower(l), "unanalyzed") {
								without.WriteString(l + "\n")
							}
						}
					}
					load := func(src string) *interesting.Classifier {
						c, err := interesting.LoadClassifier("user.cm", strings.NewReader(src), exclude)
						if err != nil {
							panic(fmt.Sprintf("harness: %v", err))
						}
						return c
					}
					c := load(with.String())
					before := c09Observe(c)
					got := c09Observe(interesting.ClassifierExcludingUnanalyzed(c))
					if want := c09Observe(load(without.String())); got != want {
						t.Fail("suppressed meaning of\n%sis\n%s\nwant\n%s", with.String(), got, want)
					}
					if after := c09Observe(c); after != before {
						t.Fail("suppression altered the map itself\n%s", with.String())
					}
					t.Trace()
					t.State(1, 1)
					t.Outcome(got)
				})
			}
		}
	}}
	extras := mc.Engine{Name: "source capabilities", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		// A marked function with each mix of source-level capabilities,
		// called by and calling others.
		for x := 0; x < 8; x++ {
			for kw := uint(0); kw < 2; kw++ {
				for mask := 0; mask < 16; mask++ {
					g := newCase(3)
					g.Fns[1].Class = capUnan
					g.Fns[1].Extra = x
					g.Fns[2].Class = capFiles
					g.E[0][1] = uint8(mask & 1)
					g.E[1][2] = uint8(mask >> 1 & 1)
					g.E[0][2] = uint8(mask >> 2 & 1)
					if mask>>3 == 1 {
						g.Fns[2].Class = capUnan
					}
					if x&xBodyless != 0 {
						if x != xBodyless || g.E[1][2] != 0 {
							continue
						}
					}
					yield(func() string { return fmt.Sprintf("%s kw=%b", g.ID(), kw<<1) }, func(t *mc.T) { c11Case(t, g, kw<<1) })
				}
			}
		}
	}}
	pkgs := mc.Engine{Name: "package entries", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		ents := []Class{classNone, capUnan, capNet, classSafe}
		fcls := []Class{classNone, capUnan, capFiles}
		labelled(3, len(fcls), 2, 1, func(lab []int, e [][]uint8) {
			for split := 0; split < 8; split++ {
				for _, p0 := range ents {
					for _, p1 := range ents {
						g := newCase(3)
						g.Pkgs = []string{"example.com/a", "example.com/b"}
						g.PCls = []Class{p0, p1}
						g.Query = 3
						any := p0 == capUnan || p1 == capUnan
						for i, k := range lab {
							g.Fns[i].Class = fcls[k]
							g.Fns[i].Pkg = split >> i & 1
							any = any || k == 1
						}
						copyEdges(g, e)
						if !any {
							continue
						}
						// Only imports from a to b.
						ok := true
						for i := range g.Fns {
							for j := range g.Fns {
								if g.E[i][j] != 0 && g.Fns[i].Pkg == 1 && g.Fns[j].Pkg == 0 {
									ok = false
								}
							}
						}
						if !ok {
							continue
						}
						for _, kw := range []uint{0, 7} {
							yield(func() string { return fmt.Sprintf("%s kw=%b", g.ID(), kw) }, func(t *mc.T) { c11Case(t, g, kw) })
						}
					}
				}
			}
		})
	}}
	builtin := mc.Engine{Name: "built-in map", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		yield(func() string { return "built-in" }, func(t *mc.T) {
			d, q := analyzer.GetClassifier(false), analyzer.GetClassifier(true)
			marked := 0
			for _, k := range builtinNames() {
				a, b := d.FunctionCategory(k.pkg, k.name), q.FunctionCategory(k.pkg, k.name)
				if b == capUnan {
					t.Fail("%s is still not analysable when suppressed", k.name)
				}
				if a == capUnan {
					marked++
				} else if a != b {
					t.Fail("%s is %v, but %v when not-analysable results are suppressed", k.name, a, b)
				}
				t.State(1, 1)
			}
			for _, e := range c08Edges {
				if c08Probe().include(d, e[0], e[1]) != c08Probe().include(q, e[0], e[1]) {
					t.Fail("suppression changes whether %v is followed", e)
				}
			}
			if marked < 10 {
				t.Fail("harness: only %d marked functions found", marked)
			}
			t.Trace()
			t.Outcome(fmt.Sprint(marked))
		})
		for _, form := range []string{"func %s CAPABILITY_UNANALYZED", "unanalyzed %s", "package %s CAPABILITY_UNANALYZED"} {
			for _, k := range builtinNames() {
				arg := k.name
				if strings.HasPrefix(form, "package") {
					arg = k.pkg
				}
				src := fmt.Sprintf(form, arg)
				if strings.Contains(arg, "#") {
					continue
				}
				yield(func() string { return src }, func(t *mc.T) {
					c, err := interesting.LoadClassifier("user.cm", strings.NewReader(src), false)
					if err != nil {
						t.Fail("rejected: %v", err)
						return
					}
					q := interesting.ClassifierExcludingUnanalyzed(c)
					for _, n := range builtinNames() {
						a, b := c.FunctionCategory(n.pkg, n.name), q.FunctionCategory(n.pkg, n.name)
						if b == capUnan || a != capUnan && a != b {
							t.Fail("with %q: %s is %v, and %v when suppressed", src, n.name, a, b)
						}
					}
					t.Trace()
					t.State(1, 1)
				})
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C11", Level: "model_checking", Setup: buildCommands,
		Bounds:  "all call graphs of <=3 functions x {none, safe, files, not analysable by capability, not analysable by keyword}; two-package layouts x package entries; ignored calls; source-level capabilities; every subset of ten map entries of all kinds; every built-in name and every user marking of one; maps with and without built-ins; the built command against the library for every combination of the flags concerned",
		Assume:  graphAssume,
		Engines: []mc.Engine{graphs, ignored, extras, pkgs, builtin, others, commandEngine([]string{"", "json", "graph"}, dimNoisy, dimMap, dimGran)}})
}
