package checks

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"

	"verif/internal/mc"
)

// C27: a revision comparison's summary, examples and commits agree with the
// differences.

// c27Entry is an entry of a report: the capability, the package or function
// it is about, and the functions of its path with their packages.
type c27Entry struct {
	capability, pkg string
	path            []c27Fn
}

type c27Fn struct {
	name, pkg, file string
	line, col       int
}

func (e c27Entry) json() any {
	var path []any
	for _, f := range e.path {
		m := map[string]any{"name": f.name, "package": f.pkg}
		if f.file != "" {
			m["site"] = map[string]any{"filename": f.file, "line": fmt.Sprint(f.line), "column": fmt.Sprint(f.col)}
		}
		path = append(path, m)
	}
	return map[string]any{"packageName": "x", "packageDir": e.pkg, "capability": e.capability, "path": path, "capabilityType": "CAPABILITY_TYPE_DIRECT"}
}

func (e c27Entry) key(gran string) string {
	if gran == "function" || gran == "" {
		return e.path[0].name
	}
	return e.pkg
}

// covers reports whether the path contains what the key names.
func (e c27Entry) covers(key, gran string) bool {
	for _, f := range e.path {
		if gran == "function" || gran == "" {
			if f.name == key {
				return true
			}
		} else if f.pkg == key {
			return true
		}
	}
	return false
}

// c27Path makes a path through the packages, ending in the capability.
func c27Path(leaf string, pkgs ...string) []c27Fn {
	var p []c27Fn
	seen := map[string]int{}
	for i, x := range pkgs {
		f := c27Fn{name: x + ".F" + strings.Repeat("'", seen[x]), pkg: x}
		seen[x]++
		if i > 0 {
			f.file, f.line, f.col = "f.go", 10*i, i+1
		}
		p = append(p, f)
	}
	return append(p, c27Fn{name: leaf, pkg: "os", file: "a file.go", line: 1234567, col: 89})
}

func c27Report(es []c27Entry) string {
	l := []any{}
	for _, e := range es {
		l = append(l, e.json())
	}
	return c21Report(l...)
}

var c27Caps = []string{"FILES", "NETWORK", "RUNTIME", "READ_SYSTEM_STATE", "MODIFY_SYSTEM_STATE", "OPERATING_SYSTEM", "SYSTEM_CALLS", "ARBITRARY_EXECUTION", "CGO", "UNANALYZED", "UNSAFE_POINTER", "REFLECT", "EXEC"}

// c27Words must occur in the descriptions.
var c27Words = map[string]string{"FILES": "file", "NETWORK": "network", "RUNTIME": "runtime", "READ_SYSTEM_STATE": "read", "MODIFY_SYSTEM_STATE": "modify", "OPERATING_SYSTEM": "os", "SYSTEM_CALLS": "system call", "ARBITRARY_EXECUTION": "arbitrary", "CGO": "cgo", "UNANALYZED": "analy", "UNSAFE_POINTER": "unsafe", "REFLECT": "reflect", "EXEC": "execut"}

// c27Box is a repository kept by the worker, with the older reports as
// branches made when first needed.
var c27Box struct {
	b    *box
	have map[string]string
}

func c27Repo(t *mc.T, old string) (*box, string) {
	if c27Box.b == nil {
		b := c21Box(t)
		b.write("r/go.mod", "module example.com/m\n")
		b.git("r", "add", ".")
		b.git("r", "commit", "-qm", "start")
		c27Box.b, c27Box.have = b, map[string]string{}
	}
	b := c27Box.b
	b.t = t
	name, ok := c27Box.have[old]
	if !ok {
		name = fmt.Sprintf("old%d", len(c27Box.have))
		b.git("r", "checkout", "-q", "-b", name, "main")
		b.write("r/caps.json", old)
		b.git("r", "add", ".")
		b.git("r", "commit", "-qm", "old")
		b.git("r", "checkout", "-q", "main")
		c27Box.have[old] = name
	}
	return b, name
}

var (
	re27New   = regexp.MustCompile(`(?i)^Added (\d+) new capabilit(?:y|ies):$`)
	re27Uses  = regexp.MustCompile(`(?i)^Added (\d+) new uses? of existing capabilit(?:y|ies):$`)
	re27None  = regexp.MustCompile(`(?mi)^Between .*\bno(?:ne)?\b.*\bnew\b`)
	re27Cap   = regexp.MustCompile(`^\s+CAPABILITY_(\w+):\s*(.*)$`)
	re27Head  = regexp.MustCompile(`^(?:Package|Function)s? (.+) ha(?:s|ve) capability (CAPABILITY_\w+):$`)
	re27Group = regexp.MustCompile(`^New (?:packages|functions) .*capability (CAPABILITY_\w+):$`)
)

// c27Compare compares a stored report with one in the working directory.
func c27Compare(t *mc.T, old, cur []c27Entry, gran string, verbose bool) {
	b, name := c27Repo(t, c27Report(old))
	b.write("r/caps.json", c27Report(cur))
	r := b.gitdiff("r", nil, "-granularity="+gran, name, ".")
	t.State(1, 1)
	t.Trace()
	c27Judge(t, fmt.Sprintf("granularity %q", gran), r, old, cur, gran)
	if verbose {
		v := b.gitdiff("r", nil, "-v", "-granularity="+gran, name, ".")
		if v.code != r.code || v.out != r.out {
			t.Fail("-v changes the result\n%v\nwithout -v\n%v", v, r)
		}
	}
}

func c27Judge(t *mc.T, what string, r ran, old, cur []c27Entry, gran string) {
	type pair struct{ c, k string }
	before, after := map[pair]bool{}, map[pair]bool{}
	had := map[string]bool{}
	for _, e := range old {
		before[pair{e.capability, e.key(gran)}] = true
		had[e.capability] = true
	}
	added := map[pair]bool{}
	uses := map[string]int{}
	for _, e := range cur {
		p := pair{e.capability, e.key(gran)}
		if !before[p] && !after[p] {
			added[p] = true
			uses[e.capability]++
		}
		after[p] = true
	}
	code := 0
	if len(added) > 0 {
		code = 1
	}
	if r.code != code {
		t.Fail("%s: expected exit status %d\n%v", what, code, r)
		return
	}
	// What the summary should say.
	wantNew, wantOld := map[string]bool{}, map[string]bool{}
	newUses := 0
	for c, n := range uses {
		if had[c] {
			wantOld[c] = true
			newUses += n
		} else {
			wantNew[c] = true
		}
	}
	gotNew, gotOld := map[string]bool{}, map[string]bool{}
	saidNew, saidOld := "", ""
	told := map[pair]int{}
	lines := strings.Split(r.out, "\n")
	descriptions := map[string]string{}
	var summary, groups []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		section := func() (out []string) {
			for i+1 < len(lines) && strings.TrimSpace(lines[i+1]) != "" {
				i++
				out = append(out, lines[i])
			}
			return out
		}
		list := func(into map[string]bool) {
			for _, s := range section() {
				m := re27Cap.FindStringSubmatch(s)
				if m == nil {
					t.Fail("%s: summary line %q\n%v", what, s, r)
					continue
				}
				if into["CAPABILITY_"+m[1]] {
					t.Fail("%s: %s is twice in the summary\n%v", what, m[1], r)
				}
				into["CAPABILITY_"+m[1]] = true
				descriptions[m[1]] = m[2]
				summary = append(summary, "CAPABILITY_"+m[1])
			}
		}
		if m := re27New.FindStringSubmatch(l); m != nil {
			if saidNew != "" {
				t.Fail("%s: two summaries\n%v", what, r)
			}
			saidNew = m[1]
			list(gotNew)
		} else if m := re27Uses.FindStringSubmatch(l); m != nil {
			if saidOld != "" {
				t.Fail("%s: two summaries\n%v", what, r)
			}
			saidOld = m[1]
			list(gotOld)
		} else if m := re27Head.FindStringSubmatch(l); m != nil {
			keys := []string{m[1]}
			if !added[pair{m[2], m[1]}] {
				keys = strings.Split(m[1], ", ")
			}
			var path []string
			for _, s := range section() {
				path = append(path, strings.Join(strings.Fields(s), " "))
			}
			for _, k := range keys {
				told[pair{m[2], k}]++
			}
			if n := len(groups); n == 0 || groups[n-1] != m[2] {
				groups = append(groups, m[2])
			}
			// The path is one of the newer report's, for the capability,
			// and contains everything it is an example for.
			ok := false
			for _, e := range cur {
				if e.capability != m[2] {
					continue
				}
				var w []string
				for _, f := range e.path {
					s := f.name
					if f.file != "" {
						s = fmt.Sprintf("%s:%d:%d %s", f.file, f.line, f.col, s)
					}
					w = append(w, strings.Join(strings.Fields(s), " "))
				}
				if !slices.Equal(w, path) {
					continue
				}
				all := true
				for _, k := range keys {
					all = all && e.covers(k, gran)
				}
				ok = ok || all
				// It is shown for everything in it that has not been shown yet.
				for p := range added {
					if p.c == m[2] && told[p] == 0 && e.covers(p.k, gran) {
						t.Fail("%s: the path printed for %v is not shown for %s\n%v", what, keys, p.k, r)
					}
				}
			}
			if !ok {
				t.Fail("%s: the path printed for %v is no path of the newer revision that contains it\n%v", what, keys, r)
			}
		} else if m := re27Group.FindStringSubmatch(l); m != nil {
			if !wantNew[m[1]] && !wantOld[m[1]] {
				t.Fail("%s: %s is announced without anything new\n%v", what, m[1], r)
			}
		}
	}
	for p := range added {
		if told[p] != 1 {
			t.Fail("%s: %s %s announced %d times\n%v", what, p.k, p.c, told[p], r)
		}
	}
	for p := range told {
		if !added[p] {
			t.Fail("%s: %s %s wrongly announced\n%v", what, p.k, p.c, r)
		}
	}
	if !slices.Equal(summary, groups) {
		t.Fail("%s: the summary lists %v, the examples are for %v\n%v", what, summary, groups, r)
	}
	if nothing := re27None.MatchString(r.out); nothing != (len(added) == 0) {
		t.Fail("%s: the output says that nothing is new: %v, with %d new uses\n%v", what, nothing, len(added), r)
	}
	count := func(n int) string {
		if n == 0 {
			return ""
		}
		return fmt.Sprint(n)
	}
	if saidNew != count(len(wantNew)) || fmt.Sprint(gotNew) != fmt.Sprint(wantNew) {
		t.Fail("%s: summary of new capabilities: %q %v, expected %d %v\n%v", what, saidNew, gotNew, len(wantNew), wantNew, r)
	}
	if saidOld != count(newUses) || fmt.Sprint(gotOld) != fmt.Sprint(wantOld) {
		t.Fail("%s: summary of new uses: %q %v, expected %d %v\n%v", what, saidOld, gotOld, newUses, wantOld, r)
	}
	for c, d := range descriptions {
		if w := c27Words[c]; !strings.Contains(strings.ToLower(d), w) {
			t.Fail("%s: %s is described as %q", what, c, d)
		}
	}
	t.Outcome(r.out)
}

// c27Shapes are the ways a package's entry leads to the capability.
var c27Shapes = []string{"X", "XY", "XZ", "XYZ", "XYX", "YX"}

func c27Paths(t *mc.T, old, code int, gran string) {
	pkgs := []string{"example.com/p", "example.com/q", "example.com/r"}
	var o, c []c27Entry
	for i, x := range pkgs {
		if old>>i&1 == 1 {
			o = append(o, c27Entry{capability: "CAPABILITY_FILES", pkg: x, path: c27Path("os.Leaf", x)})
		}
		n := len(c27Shapes) + 1
		s := code % n
		code /= n
		if s == 0 {
			continue
		}
		var p []string
		for _, ch := range c27Shapes[s-1] {
			p = append(p, pkgs[(i+int(ch-'X'))%3])
		}
		c = append(c, c27Entry{capability: "CAPABILITY_FILES", pkg: x, path: c27Path("os.Leaf", p...)})
	}
	if gran == "function" {
		// An entry's path starts with the function it is about.
		for _, e := range c {
			if e.path[0].pkg != e.pkg {
				t.Add("inapplicable", 1)
				return
			}
		}
	}
	c27Compare(t, o, c, gran, false)
}

// c27Uses makes reports in which capability i has a kept uses, r removed and
// n new ones.
type c27Use struct {
	cap        string
	kept, gone int
	added      int
}

func c27Summary(t *mc.T, gran string, us ...c27Use) {
	var o, c []c27Entry
	for _, u := range us {
		e := func(kind string, i int) c27Entry {
			x := fmt.Sprintf("example.com/%s%d", kind, i)
			return c27Entry{capability: "CAPABILITY_" + u.cap, pkg: x, path: c27Path("leaf.For"+u.cap, x)}
		}
		for i := 0; i < u.kept; i++ {
			o, c = append(o, e("kept", i)), append(c, e("kept", i))
		}
		for i := 0; i < u.gone; i++ {
			o = append(o, e("gone", i))
		}
		for i := 0; i < u.added; i++ {
			c = append(c, e("new", i))
		}
	}
	c27Compare(t, o, c, gran, len(us) == 1)
}

var c27Names = []string{
	"example.com/p", "p", "example.com/p.v2", "example.com/p/v2", "example.com/p q", "example.com/100%", "example.com/%s%d%!v", "example.com/a,b", "example.com/pé", `example.com/a"b`, `example.com/a\tb`,
	"example.com/has capability CAPABILITY_NETWORK", "command-line-arguments", "example.com/" + strings.Repeat("long/", 60) + "p", "example.com/p_test", "example.com/p [example.com/p.test]", "main", "C", "_/tmp/x", "example.com/p;q", "example.com/p\\q", "example.com/~p", "-p", "example.com/p'",
}

var c27Funcs = []string{"F", "init", "init#1", "F$1", "F$1$2", "F[int]", "F[int string]", "F[map[string]int, T]", "(T).M", "Fé", "init$1", "F[struct{A int \"json:\\\"a\\\"\"}]", "F[func(a, b int) (c, d string)]", "M$bound", "M$thunk"}

func c27Odd(t *mc.T, pkg, fn, gran string) {
	name := pkg + "." + fn
	e := c27Entry{capability: "CAPABILITY_NETWORK", pkg: pkg, path: append([]c27Fn{{name: name, pkg: pkg}}, c27Path("net.Leaf", "example.com/other")...)}
	o := c27Entry{capability: "CAPABILITY_NETWORK", pkg: "example.com/other", path: c27Path("net.Leaf", "example.com/other")}
	c27Compare(t, nil, []c27Entry{e}, gran, false)
	c27Compare(t, []c27Entry{o}, []c27Entry{o, e}, gran, false)
	c27Compare(t, []c27Entry{e}, []c27Entry{e}, gran, false)
	if !strings.Contains(pkg+fn, ",") {
		c27Compare(t, nil, []c27Entry{o, e}, gran, false)
	}
}

// c27Long compares reports with paths of n functions, with sites of many
// kinds.  Every k-th function of the path has an entry of its own.
func c27Long(t *mc.T, n, k int, gran string) {
	var path []c27Fn
	for i := 0; i < n; i++ {
		x := fmt.Sprintf("example.com/p%02d", i)
		f := c27Fn{name: x + ".F", pkg: x}
		switch {
		case i == 0:
		case i%5 == 1:
			f.file, f.line, f.col = "f.go", 1, 1
		case i%5 == 2:
			f.file, f.line, f.col = strings.Repeat("long", 1+i)+".go", 1, 1000+i
		case i%5 == 3:
			f.file, f.line, f.col = "f.go", 100000*i, 1
		case i%5 == 4:
			f.file, f.line, f.col = "../dir with space/é%d.go", i, 2
		}
		path = append(path, f)
	}
	var es []c27Entry
	for i := 0; i < n; i += k {
		es = append(es, c27Entry{capability: "CAPABILITY_EXEC", pkg: path[i].pkg, path: append([]c27Fn{{name: path[i].name, pkg: path[i].pkg}}, path[i+1:]...)})
	}
	c27Compare(t, nil, es, gran, false)
	slices.Reverse(es)
	c27Compare(t, nil, es, gran, false)
	c27Compare(t, es[:len(es)/2], es, gran, false)
}

// c27History makes a repository whose branches have n commits of their own.
type c27History struct {
	name string
	make func(b *box)
}

func c27Commit(b *box, n int, tag string) {
	// One process for all commits.
	var s strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&s, "git commit -q --allow-empty -m '%s %d' || exit 1\n", tag, i)
	}
	b.must("r", "sh", "-c", s.String()+"true")
}

func c27Commits(t *mc.T, h c27History) {
	b := c21Box(t)
	defer b.close()
	b.write("r/caps.json", c27Report(nil))
	b.git("r", "add", ".")
	b.git("r", "commit", "-qm", "start")
	h.make(b)
	for _, revs := range [][2]string{{"a", "b"}, {"b", "a"}, {"a", "a"}} {
		t.State(1, 1)
		t.Trace()
		r := b.gitdiff("r", nil, revs[0], revs[1])
		if r.code != 0 {
			t.Fail("%s: exit status\n%v", h.name, r)
			continue
		}
		var all []string
		if s := b.git("r", "log", "--format=%H %s", revs[1], "--not", revs[0]); s != "" {
			all = strings.Split(s, "\n")
		}
		shown, omitted := []int{}, 0
		re := regexp.MustCompile(`^([0-9a-f]{4,40}) (.*)$`)
		for _, l := range strings.Split(r.out, "\n") {
			if m := regexp.MustCompile(`(\d+) commits? omitted`).FindStringSubmatch(l); m != nil {
				n := 0
				fmt.Sscan(m[1], &n)
				omitted += n
				continue
			}
			m := re.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			at := slices.IndexFunc(all, func(s string) bool {
				return strings.HasPrefix(s, m[1]) && strings.HasSuffix(s, " "+m[2])
			})
			if at < 0 {
				t.Fail("%s: %s..%s: %q is no commit between the revisions\n%v", h.name, revs[0], revs[1], l, r)
			}
			shown = append(shown, at)
		}
		if !sort.IntsAreSorted(shown) || len(slices.Compact(slices.Clone(shown))) != len(shown) {
			t.Fail("%s: %s..%s: commits out of order or repeated: %v", h.name, revs[0], revs[1], shown)
		}
		if len(shown)+omitted != len(all) {
			t.Fail("%s: %s..%s: %d commits shown, %d said to be omitted, %d expected", h.name, revs[0], revs[1], len(shown), omitted, len(all))
		}
		if len(all) <= 50 && omitted > 0 {
			t.Fail("%s: %s..%s: %d of only %d commits omitted", h.name, revs[0], revs[1], omitted, len(all))
		}
		t.Outcome(fmt.Sprint(len(shown), omitted))
	}
}

func c27Histories(tier string) []c27History {
	var out []c27History
	sizes := []int{0, 1, 2, 49, 50, 51, 99, 100, 101, 118, 119, 120, 121, 122, 150, 199, 200, 201}
	if tier == "thorough" {
		sizes = nil
		for i := 0; i <= 260; i++ {
			sizes = append(sizes, i)
		}
	}
	for _, n := range sizes {
		out = append(out, c27History{fmt.Sprintf("%d commits", n), func(b *box) {
			b.git("r", "tag", "a")
			c27Commit(b, n, "later")
			b.git("r", "tag", "b")
		}})
	}
	for _, n := range []int{1, 3, 60, 119, 130} {
		out = append(out, c27History{fmt.Sprintf("%d commits on each side", n), func(b *box) {
			b.git("r", "checkout", "-q", "-b", "x")
			c27Commit(b, n, "x")
			b.git("r", "tag", "a")
			b.git("r", "checkout", "-q", "main")
			c27Commit(b, n, "y")
			b.git("r", "tag", "b")
		}}, c27History{fmt.Sprintf("merge of two branches of %d commits", n), func(b *box) {
			b.git("r", "tag", "a")
			b.git("r", "checkout", "-q", "-b", "x")
			c27Commit(b, n, "x")
			b.git("r", "checkout", "-q", "main")
			c27Commit(b, n, "y")
			b.git("r", "merge", "-q", "--no-edit", "x")
			b.git("r", "tag", "b")
		}})
	}
	for _, m := range []string{"%d %s", "has capability CAPABILITY_FILES:", "- dash", "5 commits", "a  b", "(...nothing omitted...)", "é"} {
		out = append(out, c27History{"message " + m, func(b *box) {
			b.git("r", "tag", "a")
			b.git("r", "commit", "-q", "--allow-empty", "-m", m)
			b.git("r", "commit", "-q", "--allow-empty", "-m", m+" again")
			b.git("r", "tag", "b")
		}})
	}
	out = append(out, c27History{"unrelated histories", func(b *box) {
		b.git("r", "tag", "a")
		b.git("r", "checkout", "-q", "--orphan", "other")
		b.git("r", "commit", "-qm", "other start")
		c27Commit(b, 2, "other")
		b.git("r", "tag", "b")
	}}, c27History{"decorated", func(b *box) {
		b.git("r", "config", "log.decorate", "full")
		b.git("r", "config", "log.showSignature", "false")
		b.git("r", "tag", "a")
		c27Commit(b, 2, "later")
		b.git("r", "tag", "b")
		b.git("r", "branch", "c")
	}})
	return out
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C27", Level: "model_checking", Setup: buildCommands,
		Bounds: "for one capability, every older set of 3 packages and every newer report giving each package no entry or one of 6 shapes of call path through the others, x granularity (quick: sets of at most 2 packages); every capability alone with 0-2 kept, 0-1 removed and 0-3 new uses, and pairs of capabilities with 0-1 kept and 0-2 new uses (neighbouring pairs in quick, all in thorough), and all at once; 24 package names x function names needing care; paths of up to 40 functions of which each, every second, every third or the first has an entry; histories with numbers of commits around every limit (every number to 260 in thorough), branches, merges and messages",
		Assume: []string{"a stand-in for the analysis prints a report stored in the tree", "white space between the columns of a call path is not judged"},
		Engines: []mc.Engine{
			{Name: "examples", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				n := len(c27Shapes) + 1
				for _, g := range []string{"intermediate", "package", "function"} {
					for old := 0; old < 8; old++ {
						if tier != "thorough" && (old > 3 || g != "intermediate" && old > 1) {
							continue
						}
						for code := 0; code < n*n*n; code++ {
							yield(func() string { return fmt.Sprintf("older %d, newer %d, granularity %s", old, code, g) }, func(t *mc.T) { c27Paths(t, old, code, g) })
						}
					}
				}
			}},
			{Name: "summary", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, g := range []string{"intermediate", "package", "function", ""} {
					for _, c := range c27Caps {
						for kept := 0; kept < 3; kept++ {
							for gone := 0; gone < 2; gone++ {
								for added := 0; added < 4; added++ {
									if tier != "thorough" && g != "intermediate" && (gone > 0 || added > 2) {
										continue
									}
									u := c27Use{c, kept, gone, added}
									yield(func() string { return fmt.Sprintf("granularity %q, %v", g, u) }, func(t *mc.T) { c27Summary(t, g, u) })
								}
							}
						}
					}
				}
				for i, c1 := range c27Caps {
					for j, c2 := range c27Caps[i+1:] {
						if tier != "thorough" && j > 0 {
							continue
						}
						for k := 0; k < 36; k++ {
							u, v := c27Use{c1, k % 2, 0, k / 2 % 3}, c27Use{c2, k / 6 % 2, 0, k / 12 % 3}
							yield(func() string { return fmt.Sprintf("%v %v", u, v) }, func(t *mc.T) { c27Summary(t, "intermediate", u, v) })
						}
					}
				}
				for k := 0; k < 36; k++ {
					var us []c27Use
					for i, c := range c27Caps {
						if (k+i)%3 != 2 || k < 18 {
							us = append(us, c27Use{c, (k + i) % 2 * (k / 6 % 2), i % 2, (i + k) % 4})
						}
					}
					yield(func() string { return fmt.Sprintf("all capabilities, %d", k) }, func(t *mc.T) { c27Summary(t, "package", us...) })
				}
			}},
			{Name: "names", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, g := range []string{"intermediate", "function"} {
					for i, p := range c27Names {
						for j, f := range c27Funcs {
							if tier != "thorough" && i > 0 && j > 0 || g == "intermediate" && j > 0 {
								continue
							}
							yield(func() string { return fmt.Sprintf("%s.%s, granularity %s", p, f, g) }, func(t *mc.T) { c27Odd(t, p, f, g) })
						}
					}
				}
			}},
			{Name: "lengths", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for n := 1; n <= 40; n++ {
					if n > 12 && n%9 != 0 && tier != "thorough" {
						continue
					}
					for _, k := range []int{1, 2, 3, n} {
						for _, g := range []string{"intermediate", "package", "function"} {
							yield(func() string { return fmt.Sprintf("paths of %d functions, each %d reported, granularity %s", n, k, g) }, func(t *mc.T) { c27Long(t, n, k, g) })
						}
					}
				}
			}},
			{Name: "commits", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, h := range c27Histories(tier) {
					yield(func() string { return h.name }, func(t *mc.T) { c27Commits(t, h) })
				}
			}},
		},
	})
}
