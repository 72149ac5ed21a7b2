package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"

	"verif/internal/mc"
)

// C16: a comparison reports a difference exactly when there is one.

var granNames = map[analyzer.Granularity]string{
	analyzer.GranularityUnset: "default", analyzer.GranularityFunction: "function",
	analyzer.GranularityPackage: "package", analyzer.GranularityIntermediate: "intermediate",
}

var reDiff = regexp.MustCompile(`(?m)^.*?(\S+) (has new|no longer has) capability (CAPABILITY_\w+)\b.*$`)

// parseCompare returns the added and removed pairs announced, with counts.
func parseCompare(out string) (added, removed map[pair]int) {
	added, removed = map[pair]int{}, map[pair]int{}
	for _, m := range reDiff.FindAllStringSubmatch(out, -1) {
		p := pair{m[1], capByName(m[3])}
		if m[2] == "has new" {
			added[p]++
		} else {
			removed[p]++
		}
	}
	return
}

// viewPairs is the set of pairs at a granularity.
func (m *Model) viewPairs(g analyzer.Granularity) map[pair]bool {
	switch g {
	case analyzer.GranularityFunction:
		return m.pairs()
	case analyzer.GranularityIntermediate:
		return m.interPairs(all)
	}
	out := map[pair]bool{}
	for p := range m.pairs() {
		out[pair{m.g.Pkgs[m.nodes[m.idx[p.name]].pkg], p.cap}] = true
	}
	return out
}

// c16Compare runs a comparison and checks verdict and messages.
func c16Compare(t *mc.T, what, file string, cur *Loaded, cfg *analyzer.Config, base, now map[pair]bool) {
	out, err := cur.run(t, "compare", cfg, file)
	t.Trace()
	var diff analyzer.DifferenceFoundError
	isDiff := errors.As(err, &diff)
	if err != nil && !isDiff {
		t.Fail("%s: error %v", what, err)
		return
	}
	added, removed := parseCompare(out)
	n := 0
	chk := func(kind string, got map[pair]int, a, b map[pair]bool) {
		for p := range b {
			if a[p] {
				continue
			}
			n++
			if got[p] != 1 {
				t.Fail("%s: %s %v announced %d times\n%s", what, kind, p, got[p], out)
			}
		}
		for p, k := range got {
			if a[p] || !b[p] {
				t.Fail("%s: %v wrongly announced as %s %d times\n%s", what, p, kind, k, out)
			}
		}
	}
	chk("added", added, base, now)
	chk("removed", removed, now, base)
	if isDiff != (n > 0) {
		t.Fail("%s: difference reported: %v, but %d pairs differ\n%s", what, isDiff, n, out)
	}
	if n == 0 && strings.TrimSpace(out) != "" {
		t.Fail("%s: no difference but output %q", what, out)
	}
	t.Outcome(out)
}

// c16Pool is a set of programs over the same functions: subsets of calls and
// classes of a two-package program.
func c16Pool(tier string) []*GCase {
	var out []*GCase
	for mask := 0; mask < 32; mask++ {
		for _, cl := range [][2]Class{{capFiles, capNet}, {capFiles, capFiles}, {capNet, capFiles}, {capFiles, classNone}} {
			g := newCase(4)
			g.Pkgs = []string{"example.com/a", "example.com/a/b", "other.org/c"}
			g.Query = 3
			for i, p := range []int{0, 0, 1, 2} {
				g.Fns[i].Pkg = p
			}
			g.Fns[1].Kind = kPtr
			g.Fns[2].Class = classNone
			g.Fns[3].Class = cl[0]
			g.Fns[1].Class = classNone
			if mask&1 != 0 {
				g.E[0][1] = 1
			}
			if mask&2 != 0 {
				g.E[1][2] = 1
			}
			if mask&4 != 0 {
				g.E[2][3] = 1
			}
			if mask&8 != 0 {
				g.E[0][3] = 1
			}
			if mask&16 != 0 {
				g.Fns[1].Class = cl[1]
			} else if cl[1] != capNet {
				continue // same program as another
			}
			if tier != "thorough" && mask&1 != 0 && mask&8 != 0 {
				continue
			}
			out = append(out, g)
		}
	}
	// Nothing at all; only source-level capabilities; two capabilities.
	out = append(out, newCase(1))
	g := newCase(2)
	g.Fns[1].Extra = xUnsafe | xReflect
	g.E[0][1] = 1
	out = append(out, g)
	g = newCase(3)
	g.Fns[1].Class = capFiles
	g.Fns[2].Class = capNet
	g.E[0][1], g.E[0][2] = 1, 1
	out = append(out, g)
	return out
}

var c16Grans = []analyzer.Granularity{analyzer.GranularityUnset, analyzer.GranularityPackage, analyzer.GranularityFunction, analyzer.GranularityIntermediate}

func (l *Loaded) cfg(g analyzer.Granularity, omit bool) *analyzer.Config {
	c := l.config()
	c.Granularity = g
	c.OmitPaths = omit
	return c
}

// report is the JSON report.
func (l *Loaded) report(t *mc.T, c *analyzer.Config) string {
	out, err := l.run(t, "json", c)
	if err != nil {
		t.Fail("json: %v", err)
	}
	return out
}

func init() {
	pairsEngine := mc.Engine{Name: "pairs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		pool := c16Pool(tier)
		for i := range pool {
			yield(func() string { return fmt.Sprintf("baseline %s vs %d programs", pool[i].ID(), len(pool)) }, func(t *mc.T) {
				base, err := pool[i].load()
				if err != nil {
					panic(err)
				}
				var files []string
				var grans []analyzer.Granularity
				for _, g := range c16Grans {
					for _, omit := range []bool{false, true} {
						f := filepath.Join(t.Scratch(), fmt.Sprintf("base%d.json", len(files)))
						if err := os.WriteFile(f, []byte(base.report(t, base.cfg(g, omit))), 0o600); err != nil {
							panic(err)
						}
						files = append(files, f)
						grans = append(grans, g)
					}
				}
				for j := range pool {
					cur, err := pool[j].load()
					if err != nil {
						panic(err)
					}
					t.State(cur.m.states, cur.m.transitions)
					for fi, f := range files {
						for _, omit := range []bool{false, true} {
							if tier != "thorough" && omit && j != i && fi%2 == 0 {
								continue
							}
							g := grans[fi]
							what := fmt.Sprintf("baseline %d (%s, omit=%v) vs program %d (omit=%v)", i, granNames[g], fi%2 == 1, j, omit)
							c16Compare(t, what, f, cur, cur.cfg(g, omit), base.m.viewPairs(g), cur.m.viewPairs(g))
							// A default report is a function report, and the
							// default comparison is per package.
							if g == analyzer.GranularityUnset {
								fg := analyzer.GranularityFunction
								c16Compare(t, what+" per function", f, cur, cur.cfg(fg, omit), base.m.viewPairs(fg), cur.m.viewPairs(fg))
							}
						}
					}
					if t.Failed() {
						cur.describe(t)
						base.describe(t)
						return
					}
				}
				// A report saved at another granularity may name fewer functions
				// than there are, or none, but none that the program lacks.
				for fi, f := range files {
					if g := grans[fi]; g == analyzer.GranularityPackage || g == analyzer.GranularityIntermediate && fi%2 == 1 {
						what := fmt.Sprintf("baseline %d (%s, omit=%v) vs itself per function", i, granNames[g], fi%2 == 1)
						out, err := base.run(t, "compare", base.cfg(analyzer.GranularityFunction, false), f)
						t.Trace()
						var diff analyzer.DifferenceFoundError
						if err != nil && !errors.As(err, &diff) {
							continue // refused
						}
						now := base.m.viewPairs(analyzer.GranularityFunction)
						added, removed := parseCompare(out)
						for p, n := range added {
							if !now[p] || n != 1 {
								t.Fail("%s: %v wrongly announced as added %d times\n%s", what, p, n, out)
							}
						}
						if len(removed) > 0 || fi%2 == 1 && len(added) != len(now) {
							t.Fail("%s: %d of %d pairs added, %d removed\n%s", what, len(added), len(now), len(removed), out)
						}
					}
				}
			})
		}
	}}
	// A program compared with its own report shows no difference.
	self := graphEngines([]family{famExtras, famKinds, famInits, famPkgEntries, famStyles}, func(t *mc.T, l *Loaded) {
		f := filepath.Join(t.Scratch(), "self.json")
		for gi, g := range c16Grans[1:] {
			for k := 0; k < 2; k++ {
				a, b := k == 1, (k+gi)%2 == 1
				if err := os.WriteFile(f, []byte(l.report(t, l.cfg(g, a))), 0o600); err != nil {
					panic(err)
				}
				v := l.m.viewPairs(g)
				c16Compare(t, fmt.Sprintf("self %s omit %v/%v", granNames[g], a, b), f, l, l.cfg(g, b), v, v)
			}
		}
	})
	for i := range self {
		self[i].Name = "self " + self[i].Name
	}
	malformed := mc.Engine{Name: "malformed", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		load := func() *Loaded {
			g := newCase(3)
			g.Fns[2].Class = capFiles
			g.E[0][1], g.E[1][2] = 1, 1
			l, err := g.load()
			if err != nil {
				panic(err)
			}
			return l
		}
		bad := func(t *mc.T, l *Loaded, what, file string, args ...string) {
			for _, g := range c16Grans {
				out, err := l.run(t, "compare", l.cfg(g, false), append([]string{file}, args...)...)
				t.Trace()
				t.State(1, 1)
				var diff analyzer.DifferenceFoundError
				if err == nil || errors.As(err, &diff) {
					t.Fail("%s: granularity %s: got verdict %v", what, granNames[g], err)
				}
				if out != "" {
					t.Fail("%s: output %q", what, out)
				}
			}
			t.Outcome(what)
		}
		write := func(t *mc.T, s string) string {
			f := filepath.Join(t.Scratch(), "bad.json")
			if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
				panic(err)
			}
			return f
		}
		for part := 0; part < 16; part++ {
			yield(func() string { return fmt.Sprintf("truncated part %d", part) }, func(t *mc.T) {
				l := load()
				r := strings.TrimSpace(l.report(t, l.cfg(analyzer.GranularityFunction, false)))
				for i := part; i < len(r); i += 16 {
					bad(t, l, fmt.Sprintf("first %d bytes of %d", i, len(r)), write(t, r[:i]))
				}
			})
		}
		for _, s := range []string{"", " ", "\n", "null", "[]", "0", "\"x\"", "true", "{", "}", "{}{}", "{} x", "x", "digraph {\n}\n",
			`{"capabilityInfo": {}}`, `{"capabilityInfo": [1]}`, `{"capabilityInfo": [{"capability": "CAPABILITY_NO_SUCH"}]}`,
			`{"capabilityInfo": [{"capability": "FILES"}]}`, `{"capabilityInfo": [{"path": "a b"}]}`, `{"capabilityInfo": [{"packageDir": 3}]}`,
			`{"noSuchField": 1}`, `{"capabilityInfo": [], "capabilityInfo": []}`, `{"capabilityInfo": [{"bogus": 1}]}`,
			`{"capabilityInfo": [],}`, "\xff\xfe{}", `{"capabilityCounts": {"CAPABILITY_FILES": "1"}}`,
			"CAPABILITY_FILES\n", "CAPABILITY_FILES: 1 calls\n"} {
			yield(func() string { return fmt.Sprintf("content %q", s) }, func(t *mc.T) {
				bad(t, load(), fmt.Sprintf("content %q", s), write(t, s))
			})
		}
		yield(func() string { return "missing" }, func(t *mc.T) {
			l := load()
			bad(t, l, "missing file", filepath.Join(t.Scratch(), "nosuch.json"))
			bad(t, l, "directory", t.Scratch())
			bad(t, l, "empty name", "")
			f := write(t, l.report(t, l.cfg(analyzer.GranularityUnset, false)))
			bad(t, l, "two baselines", f, f)
			if out, err := l.run(t, "compare", l.config()); err == nil || out != "" {
				t.Fail("no baseline: %v %q", err, out)
			}
		})
		// An empty but well-formed baseline is a baseline without entries.
		for _, s := range []string{"{}", ` { "capabilityInfo" : [ ] } `, `{"moduleInfo":[{"path":"x.y","version":"v1.0.0"}]}`} {
			yield(func() string { return fmt.Sprintf("empty baseline %q", s) }, func(t *mc.T) {
				l := load()
				f := write(t, s)
				for _, g := range c16Grans {
					c16Compare(t, "empty baseline "+granNames[g], f, l, l.cfg(g, false), nil, l.m.viewPairs(g))
					// and a program without capabilities
					none, err := interesting.LoadClassifier("none", strings.NewReader("func x.F CAPABILITY_FILES"), true)
					if err != nil {
						panic(err)
					}
					k := *l
					k.cls = none
					c16Compare(t, "empty baseline, empty program "+granNames[g], f, &k, k.cfg(g, false), nil, nil)
				}
			})
		}
	}}
	mc.Register(&mc.Check{Prop: "C16", Level: "model_checking", Setup: buildCommands,
		Bounds:  "every ordered pair of programs from a pool of about 75 (thorough 100) x 4 granularities x path settings of both sides; self comparison over three families of programs; every truncation of a report and 27 malformed baselines; the built command against the library for every combination of the flags concerned; 3400 programs reaching a function in unusual ways against their own report and an empty one",
		Assume:  graphAssume,
		Engines: append([]mc.Engine{pairsEngine, malformed, viewEngine(viewCompare), commandEngine([]string{"compare same", "compare different"}, dimGran, dimOmit, dimCaps, dimMap)}, self...)})
}
