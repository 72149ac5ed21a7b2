package checks

import (
	_ "embed"
	"fmt"
	"strings"
	"sync"

	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C08: user capability maps override the built-in map entry for entry.

//go:embed data/names.txt
var namesTxt string

type pkgAndName struct{ pkg, name string }

// builtinNames lists functions the built-in map is about, and some it is not.
var builtinNames = sync.OnceValue(func() []pkgAndName {
	var out []pkgAndName
	for _, l := range strings.Split(strings.TrimSpace(namesTxt), "\n") {
		p, n, _ := strings.Cut(l, " ")
		out = append(out, pkgAndName{p, n})
	}
	return append(out, c08Targets...)
})

// builtin meaning, asked from the default classifier before anything else.
type builtinFact struct {
	cat Class // category in its package
	own bool  // decided by an entry about the function, not its package
}

func builtinFacts() map[string]builtinFact {
	d := interesting.DefaultClassifier()
	out := map[string]builtinFact{}
	for _, k := range builtinNames() {
		f := builtinFact{cat: d.FunctionCategory(k.pkg, k.name)}
		// Packages with two different built-in categories: the answer is the
		// same only if the function has an entry of its own.
		x, y := d.FunctionCategory("os", k.name), d.FunctionCategory("os/exec", k.name)
		f.own = x == y
		out[k.name] = f
	}
	if d.FunctionCategory("os", "nothing") == d.FunctionCategory("os/exec", "nothing") {
		panic("harness: packages os and os/exec have the same built-in category")
	}
	return out
}

var builtinOnce = sync.OnceValue(builtinFacts)

// expect is the reference for a user map combined with the built-in one.
func c08Expect(u *refMap, facts map[string]builtinFact, exclude bool, k pkgAndName) []Class {
	if exclude {
		return u.category(k.pkg, k.name)
	}
	b := facts[k.name]
	if b.own && b.cat == capCgo {
		return []Class{capCgo}
	}
	if o := u.own(k.name); o != nil {
		return o
	}
	if b.own {
		return []Class{b.cat}
	}
	if c, ok := u.pkg[k.pkg]; ok {
		return []Class{c}
	}
	return []Class{b.cat}
}

var c08Targets = []pkgAndName{
	{"os", "os.Open"},                         // FILES in a package with an entry
	{"os", "os.NotMentionedAnywhere"},         // decided by the package
	{"reflect", "reflect.TypeOf"},             // SAFE
	{"io", "io.Copy"},                         // unanalyzed, package without entry
	{"sort", "sort.Ints"},                     // SAFE, package without entry
	{"fmt", "fmt.Sprintf"},                    // safe package
	{"example.com/x", "example.com/x.F"},      // unknown
	{"example.com/x", "(*example.com/x.T).M"}, // unknown method
	{"example.com/x", "example.com/x._cgo_runtime_cgocall"},
	{"crypto/internal/fips", "crypto/internal/fips.CAST"}, // UNSPECIFIED
}

func c08Load(t *mc.T, src string, exclude bool) *interesting.Classifier {
	c, err := interesting.LoadClassifier("user.cm", strings.NewReader(src), exclude)
	if err != nil {
		t.Fail("valid map rejected: %v\n%s", err, src)
		return nil
	}
	return c
}

func permutations(n int, f func([]int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(p)
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
}

const c08LogSrc = `package log

import "sync"

var p sync.Pool

func getBuffer() { p.Get() }

func other() { p.Get() }
`

const c08SyncSrc = `package sync

type Pool struct{}

func (p *Pool) Get() {}
`

const c08XSrc = `package x

import "sync"

var p sync.Pool

func F() { G(); p.Get() }

func G() {}
`

var c08Probe = sync.OnceValue(func() *edgeProbe {
	return newEdgeProbe([]syn.Pkg{syn.One("sync", c08SyncSrc), syn.One("log", c08LogSrc), syn.One("example.com/x", c08XSrc)})
})

var c08Edges = [][2]string{
	{"log.getBuffer", "(*sync.Pool).Get"}, // ignored by the built-in map
	{"log.other", "(*sync.Pool).Get"},
	{"example.com/x.F", "example.com/x.G"},
	{"example.com/x.G", "example.com/x.F"},
	{"example.com/x.F", "(*sync.Pool).Get"},
	{"example.com/x.F", "example.com/x.F"},
}

func c08BuiltinIgnores(e [2]string) bool { return e == c08Edges[0] }

// c08Meaning is everything observable about a classifier over the targets.
func c08Meaning(c *interesting.Classifier) string {
	var b strings.Builder
	for _, k := range c08Targets {
		fmt.Fprintf(&b, "%s=%d ", k.name, c.FunctionCategory(k.pkg, k.name))
	}
	for _, e := range c08Edges {
		fmt.Fprintf(&b, "%s>%s=%v ", e[0], e[1], c08Probe().include(c, e[0], e[1]))
	}
	return b.String()
}

func init() {
	entries := mc.Engine{Name: "entries", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		builtinOnce()
		var caps []Class
		for c := range cpb.Capability_name {
			caps = append(caps, Class(c))
		}
		sortClasses(caps)
		const none = Class(-1)
		fns := append([]Class{none}, caps...)
		pkgs := []Class{none, classNone, classSafe, capNet, capUnan}
		for _, k := range c08Targets {
			for _, fc := range fns {
				for _, un := range []bool{false, true} {
					for _, pc := range pkgs {
						for _, sfx := range []bool{false, true} {
							for _, exclude := range []bool{false, true} {
								yield(func() string {
									return fmt.Sprintf("%s func=%v unanalyzed=%v package=%v suffix=%v exclude=%v", k.name, fc, un, pc, sfx, exclude)
								}, func(t *mc.T) {
									ls := []string{"func example.com/unrelated.F CAPABILITY_FILES"}
									if fc != none {
										ls = append(ls, fmt.Sprintf("func %s %s", k.name, fc))
									}
									if un {
										ls = append(ls, "unanalyzed "+k.name)
									}
									if pc != none {
										ls = append(ls, fmt.Sprintf("package %s %s", k.pkg, pc))
									}
									if sfx {
										ls = append(ls, "cgo_suffix "+k.name[len(k.name)-3:])
									}
									facts := builtinOnce()
									u, _ := refParse(strings.Join(ls, "\n"))
									first := ""
									permutations(len(ls), func(p []int) {
										var o []string
										for _, i := range p {
											o = append(o, ls[i])
										}
										src := strings.Join(o, "\n")
										c := c08Load(t, src, exclude)
										t.Trace()
										t.State(1, int64(len(ls)))
										if c == nil {
											return
										}
										for _, q := range c08Targets {
											got := c.FunctionCategory(q.pkg, q.name)
											if want := c08Expect(u, facts, exclude, q); !oneOf(got, want) {
												t.Fail("%s is %v, want %v with builtin excluded=%v and map\n%s", q.name, got, want, exclude, src)
											}
										}
										m := c08Meaning(c)
										if first == "" {
											first = m
										} else if first != m {
											t.Fail("the order of entries matters:\n%s\n%s\n%s", src, first, m)
										}
										t.Outcome(m)
									})
								})
							}
						}
					}
				}
			}
		}
	}}
	every := mc.Engine{Name: "every built-in entry", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, k := range builtinNames() {
			for _, form := range []string{"func %[2]s CAPABILITY_FILES", "func %[2]s CAPABILITY_UNSPECIFIED", "func %[2]s CAPABILITY_SAFE", "unanalyzed %[2]s", "package %[1]s CAPABILITY_EXEC", "package %[1]s CAPABILITY_UNSPECIFIED"} {
				src := fmt.Sprintf(strings.ReplaceAll(strings.ReplaceAll(form, "%[1]s", k.pkg), "%[2]s", k.name))
				if strings.Contains(k.name, "#") {
					continue
				}
				yield(func() string { return src }, func(t *mc.T) {
					facts := builtinOnce()
					u, bad := refParse(src)
					if bad > 0 {
						t.Fail("harness: %q", src)
						return
					}
					c := c08Load(t, src, false)
					if c == nil {
						return
					}
					t.Trace()
					for _, q := range builtinNames() {
						got := c.FunctionCategory(q.pkg, q.name)
						if want := c08Expect(u, facts, false, q); !oneOf(got, want) {
							t.Fail("with the user map %q, %s is %v, want %v", src, q.name, got, want)
						}
					}
					t.State(1, int64(len(builtinNames())))
					t.Outcome(fmt.Sprint(form, c.FunctionCategory(k.pkg, k.name)))
				})
			}
		}
	}}
	edges := mc.Engine{Name: "ignored calls", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for mask := 0; mask < 1<<len(c08Edges); mask++ {
			for _, exclude := range []bool{false, true} {
				for _, rev := range []bool{false, true} {
					yield(func() string { return fmt.Sprintf("edges %b exclude=%v reversed=%v", mask, exclude, rev) }, func(t *mc.T) {
						var ls []string
						for i, e := range c08Edges {
							if mask>>i&1 == 1 {
								ls = append(ls, "ignore_edge "+e[0]+" "+e[1])
							}
						}
						if rev {
							for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
								ls[i], ls[j] = ls[j], ls[i]
							}
						}
						c := c08Load(t, strings.Join(ls, "\n"), exclude)
						if c == nil {
							return
						}
						t.Trace()
						t.State(1, int64(len(ls)))
						for i, e := range c08Edges {
							want := mask>>i&1 == 0 && (exclude || !c08BuiltinIgnores(e))
							if got := c08Probe().include(c, e[0], e[1]); got != want {
								t.Fail("call %s -> %s followed: %v, want %v", e[0], e[1], got, want)
							}
						}
						t.Outcome(c08Meaning(c))
					})
				}
			}
		}
	}}
	// Loading maps in sequence never changes earlier ones.
	histories := mc.Engine{Name: "histories", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		maps := []string{
			"",
			"func os.Open CAPABILITY_NETWORK\nfunc example.com/x.F CAPABILITY_EXEC",
			"unanalyzed example.com/x.F\npackage os CAPABILITY_SAFE\nunanalyzed os.Open",
			"ignore_edge example.com/x.F example.com/x.G\ncgo_suffix x.F",
			"ignore_edge log.other (*sync.Pool).Get\nfunc io.Copy CAPABILITY_SAFE",
			"package example.com/x CAPABILITY_FILES\nfunc example.com/x.F CAPABILITY_UNSPECIFIED",
			"bogus",
		}
		// op: map index, exclude; or -1: exclude unanalyzed from the latest.
		type op struct {
			m       int
			exclude bool
		}
		ops := []op{{-1, false}}
		for m := range maps {
			ops = append(ops, op{m, false}, op{m, true})
		}
		n := 3
		if tier == "thorough" {
			n = 4
		}
		var rec func(pre []op)
		rec = func(pre []op) {
			if len(pre) == n {
				h := append([]op(nil), pre...)
				yield(func() string { return fmt.Sprint(h) }, func(t *mc.T) {
					type held struct {
						c    *interesting.Classifier
						want string
					}
					d := interesting.DefaultClassifier()
					hs := []held{{d, c08Meaning(d)}}
					for _, o := range h {
						var c *interesting.Classifier
						if o.m < 0 {
							c = interesting.ClassifierExcludingUnanalyzed(hs[len(hs)-1].c)
						} else {
							var err error
							c, err = interesting.LoadClassifier("user.cm", strings.NewReader(maps[o.m]), o.exclude)
							if err != nil {
								c = nil
							}
						}
						if c != nil {
							hs = append(hs, held{c, c08Meaning(c)})
						}
						for i, x := range hs {
							if m := c08Meaning(x.c); m != x.want {
								t.Fail("classifier %d changed meaning\nfrom %s\nto   %s", i, x.want, m)
							}
						}
						t.State(1, 1)
					}
					// The same load gives the same meaning whatever came before.
					for i, o := range h {
						if o.m < 0 {
							continue
						}
						c, err := interesting.LoadClassifier("user.cm", strings.NewReader(maps[o.m]), o.exclude)
						if err != nil {
							continue
						}
						u, _ := refParse(maps[o.m])
						for _, q := range c08Targets {
							if got, want := c.FunctionCategory(q.pkg, q.name), c08Expect(u, builtinOnce(), o.exclude, q); !oneOf(got, want) {
								t.Fail("after the history, load %d gives %s=%v, want %v", i, q.name, got, want)
							}
						}
					}
					t.Trace()
				})
				return
			}
			for _, o := range ops {
				rec(append(pre[:len(pre):len(pre)], o))
			}
		}
		rec(nil)
	}}
	// Whole programs with the user map on top of the built-in one.
	programs := graphEngines([]family{famIgn, famIgnStyles, famPkgEntries, famPkgStyles}, func(t *mc.T, l *Loaded) {
		c, err := interesting.LoadClassifier("case.cm", strings.NewReader(l.m.mapFile()), false)
		if err != nil {
			t.Fail("map rejected: %v", err)
			return
		}
		l.cls = c
		oracleSound(t, l)
		oracleComplete(t, l)
	})
	mc.Register(&mc.Check{Prop: "C08", Level: "model_checking", Setup: buildCommands,
		Bounds:  "10 functions x every func entry x unanalyzed x package x suffix entry x built-ins on/off x all entry orders; 6 entries for each of 913 functions, all 913 re-examined; all subsets of 6 ignored calls; each call of programs with unusual functions ignored in turn; all histories of 3 (thorough 4) loads; call graphs with user maps over the built-in map; the built command against the library for every combination of the flags concerned",
		Assume:  []string{"the built-in meaning is what the default classifier answers when it is first asked", "a name marked as generated for C code keeps that meaning", "a user map with both a capability and a not-analysable entry for one function may mean either"},
		Engines: append([]mc.Engine{entries, every, edges, histories, commandEngine([]string{"", "json"}, dimMap, dimPkgs, dimNoisy)}, programs...)})
}
