package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// checkPath checks that fs is a genuine admissible path of the model ending in
// capability c.  It returns an explanation, or "".
func (m *Model) checkPath(fs []*cpb.Function, c Class) string {
	if len(fs) == 0 {
		return "empty path"
	}
	prev := -1
	for k, f := range fs {
		v, ok := m.idx[f.GetName()]
		if !ok {
			return fmt.Sprintf("unknown function %q", f.GetName())
		}
		if want := m.g.Pkgs[m.nodes[v].pkg]; f.GetPackage() != want {
			return fmt.Sprintf("function %q reported in package %q, want %q", f.GetName(), f.GetPackage(), want)
		}
		if k == 0 {
			if f.Site != nil {
				return "first function has a call site"
			}
		} else {
			if m.nodes[prev].class != classNone {
				return fmt.Sprintf("path continues past classified function %q", m.nodes[prev].name)
			}
			var found *edge
			for _, e := range m.out[prev] {
				if m.edges[e].to == v {
					found = &m.edges[e]
					if !found.ignored {
						break
					}
				}
			}
			if found == nil {
				return fmt.Sprintf("no call from %q to %q", m.nodes[prev].name, m.nodes[v].name)
			}
			if found.ignored {
				return fmt.Sprintf("call from %q to %q is an ignored call", m.nodes[prev].name, m.nodes[v].name)
			}
			if s := siteIn(f.Site, found.sites); s != "" {
				return fmt.Sprintf("call from %q to %q: %s", m.nodes[prev].name, m.nodes[v].name, s)
			}
		}
		prev = v
	}
	for _, d := range m.caps(prev) {
		if d == c {
			return ""
		}
	}
	return fmt.Sprintf("path ends in %q which does not have %s", m.nodes[prev].name, c)
}

func siteIn(s *cpb.Function_Site, sites []site) string {
	if len(sites) == 0 {
		return "" // synthetic call (package initialisation)
	}
	if s == nil {
		return "no call site"
	}
	for _, x := range sites {
		if x.file == s.GetFilename() && int64(x.line) == s.GetLine() && int64(x.col) <= s.GetColumn() && s.GetColumn() <= int64(x.end) {
			return ""
		}
	}
	return fmt.Sprintf("site %v is not one of %v", s, sites)
}

// funcLess is the documented order: package, functions before methods, name.
func funcKey(m *Model, name string) string {
	v := m.idx[name]
	k := "0"
	if strings.HasPrefix(name, "(") && !strings.Contains(name, "$") { // a method
		k = "1"
	}
	return m.g.Pkgs[m.nodes[v].pkg] + "\x00" + k + "\x00" + name
}

func oracleSound(t *mc.T, l *Loaded) {
	m := l.m
	cil := l.info(l.config())
	want := m.pairs()
	seen := map[pair]bool{}
	var prev *cpb.CapabilityInfo
	for _, c := range cil.GetCapabilityInfo() {
		p := pair{subject(c), c.GetCapability()}
		if seen[p] {
			t.Fail("duplicate entry for %v", p)
		}
		seen[p] = true
		v, ok := m.idx[p.name]
		if !ok {
			t.Fail("entry about unknown function %q", p.name)
			continue
		}
		if !m.queried(v) {
			t.Fail("entry about %q which is not in a queried package", p.name)
		}
		if !want[p] {
			t.Fail("spurious: %s reported to have %s", p.name, p.cap)
		}
		if why := m.checkPath(c.GetPath(), c.GetCapability()); why != "" {
			t.Fail("path of %v: %s", p, why)
		}
		if d := pathNames(c.GetPath()); d != c.GetDepPath() {
			t.Fail("depPath %q differs from path %q", c.GetDepPath(), d)
		}
		if pp := m.g.Pkgs[m.nodes[v].pkg]; c.GetPackageDir() != pp || c.GetPackageName() != pkgName(pp) {
			t.Fail("entry %v has package %q %q", p, c.GetPackageDir(), c.GetPackageName())
		}
		if prev != nil {
			if prev.GetCapability() > c.GetCapability() ||
				prev.GetCapability() == c.GetCapability() && funcKey(m, subject(prev)) > funcKey(m, subject(c)) {
				t.Fail("entries out of order: %s %s after %s %s", c.GetCapability(), subject(c), prev.GetCapability(), subject(prev))
			}
		}
		prev = c
	}
	if t.Failed() {
		t.Detail(cilString(cil))
	}
	t.Outcome(cilString(cil))
}

func setDiff[K comparable](t *mc.T, what string, got, want map[K]bool) {
	for k := range want {
		if !got[k] {
			t.Fail("%s: missing %v", what, k)
		}
	}
	for k := range got {
		if !want[k] {
			t.Fail("%s: spurious %v", what, k)
		}
	}
}

// interList checks an intermediate-granularity list against the model.
func interList(t *mc.T, l *Loaded, what string, cil *cpb.CapabilityInfoList, sel func(Class) bool, paths bool) {
	m := l.m
	got := map[pair]bool{}
	for _, c := range cil.GetCapabilityInfo() {
		p := pair{c.GetPackageDir(), c.GetCapability()}
		if got[p] {
			t.Fail("%s: duplicate %v", what, p)
		}
		got[p] = true
		if !paths {
			continue
		}
		if why := m.checkPath(c.GetPath(), c.GetCapability()); why != "" {
			t.Fail("%s: path of %v: %s", what, p, why)
			continue
		}
		if v := m.idx[subject(c)]; !m.queried(v) {
			t.Fail("%s: path of %v starts in %q, not queried", what, p, subject(c))
		}
		in := false
		for _, f := range c.GetPath() {
			in = in || f.GetPackage() == p.name
		}
		if !in {
			t.Fail("%s: path of %v does not go through the package", what, p)
		}
	}
	setDiff(t, what, got, m.interPairs(sel))
}

func oracleGranularity(t *mc.T, l *Loaded) {
	m := l.m
	list := func(g analyzer.Granularity) *cpb.CapabilityInfoList {
		c := l.config()
		c.Granularity = g
		return l.info(c)
	}
	def := list(analyzer.GranularityUnset)
	fn := list(analyzer.GranularityFunction)
	if a, b := cilString(def), cilString(fn); a != b {
		t.Fail("default view differs from function view:\n%s\nvs\n%s", a, b)
	}
	got := map[pair]bool{}
	for _, c := range fn.GetCapabilityInfo() {
		got[pair{subject(c), c.GetCapability()}] = true
	}
	setDiff(t, "function view", got, m.pairs())
	pk := list(analyzer.GranularityPackage)
	got = map[pair]bool{}
	want := map[pair]bool{}
	for _, c := range fn.GetCapabilityInfo() {
		want[pair{c.GetPackageDir(), c.GetCapability()}] = true
	}
	for _, c := range pk.GetCapabilityInfo() {
		p := pair{c.GetPackageDir(), c.GetCapability()}
		if got[p] {
			t.Fail("package view: duplicate %v", p)
		}
		got[p] = true
		if why := m.checkPath(c.GetPath(), c.GetCapability()); why != "" {
			t.Fail("package view: path of %v: %s", p, why)
			continue
		}
		if c.GetPath()[0].GetPackage() != p.name {
			t.Fail("package view: path of %v starts in %q", p, c.GetPath()[0].GetPackage())
		}
	}
	setDiff(t, "package view", got, want)
	inter := list(analyzer.GranularityIntermediate)
	interList(t, l, "intermediate view", inter, all, true)
	for _, s := range []string{"FILES", "-FILES", "NETWORK,UNSAFE_POINTER"} {
		c := l.config()
		c.Granularity = analyzer.GranularityIntermediate
		cs, err := analyzer.NewCapabilitySet(s)
		if err != nil {
			t.Fail("NewCapabilitySet(%q): %v", s, err)
			continue
		}
		c.CapabilitySet = cs
		interList(t, l, "intermediate view with filter "+s, l.info(c), selOf(s), true)
	}
	if t.Failed() {
		t.Detail("function:\n" + cilString(fn) + "package:\n" + cilString(pk) + "intermediate:\n" + cilString(inter))
	}
	t.Outcome(cilString(pk) + cilString(inter))
}

// selOf is the reference meaning of a well-formed capability list.
func selOf(s string) func(Class) bool {
	if s == "" {
		return all
	}
	neg := strings.HasPrefix(s, "-")
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimPrefix(x, "-")
		m[strings.TrimPrefix(x, "CAPABILITY_")] = true
	}
	return func(c Class) bool {
		return m[strings.TrimPrefix(c.String(), "CAPABILITY_")] != neg
	}
}

// run runs an output mode and returns its standard output.
func (l *Loaded) run(t *mc.T, mode string, cfg *analyzer.Config, args ...string) (string, error) {
	var err error
	out := t.Capture(func() { err = analyzer.RunCapslock(args, mode, l.pkgs, l.queried(), cfg) })
	return out, err
}

type capCount struct{ n, direct, trans int64 }

var (
	reDefault = regexp.MustCompile(`^(CAPABILITY_[A-Z_]+): (\d+) references$`)
	reVerbose = regexp.MustCompile(`^(CAPABILITY_[A-Z_]+): (\d+) references \((\d+) direct, (\d+) transitive\)$`)
	reSite    = regexp.MustCompile(`^  (?:([^:]+):(\d+):(\d+):)?(.+)$`)
)

const noCaps = "Capslock found no capabilities in this package."

// parseVerbose parses the verbose output.
func parseVerbose(out string) (counts map[Class]capCount, example map[Class][]*cpb.Function, order []Class, none bool, err error) {
	counts = map[Class]capCount{}
	example = map[Class][]*cpb.Function{}
	cur := Class(-1)
	inEx := false
	for _, line := range strings.Split(out, "\n") {
		if strings.Contains(line, noCaps) {
			none = true
		}
		if mm := reVerbose.FindStringSubmatch(line); mm != nil {
			c, ok := cpb.Capability_value[mm[1]]
			if !ok {
				return nil, nil, nil, false, fmt.Errorf("unknown capability %q", mm[1])
			}
			cur = Class(c)
			if _, dup := counts[cur]; dup {
				return nil, nil, nil, false, fmt.Errorf("capability %s twice", cur)
			}
			a, _ := strconv.ParseInt(mm[2], 10, 64)
			b, _ := strconv.ParseInt(mm[3], 10, 64)
			d, _ := strconv.ParseInt(mm[4], 10, 64)
			counts[cur] = capCount{a, b, d}
			order = append(order, cur)
			inEx = false
			continue
		}
		if strings.HasPrefix(line, "Example ") {
			inEx = true
			continue
		}
		if inEx && strings.HasPrefix(line, "  ") {
			mm := reSite.FindStringSubmatch(line)
			if mm == nil {
				return nil, nil, nil, false, fmt.Errorf("cannot parse %q", line)
			}
			f := &cpb.Function{Name: &mm[4]}
			if mm[1] != "" {
				ln, _ := strconv.ParseInt(mm[2], 10, 64)
				cl, _ := strconv.ParseInt(mm[3], 10, 64)
				f.Site = &cpb.Function_Site{Filename: &mm[1], Line: &ln, Column: &cl}
			}
			example[cur] = append(example[cur], f)
		} else if line == "" {
			inEx = false
		}
	}
	return
}

// parseDefault parses the default output.
func parseDefault(out string) (counts map[Class]int64, none bool, err error) {
	counts = map[Class]int64{}
	for _, line := range strings.Split(out, "\n") {
		if strings.Contains(line, noCaps) {
			none = true
		}
		if mm := reDefault.FindStringSubmatch(line); mm != nil {
			c, ok := cpb.Capability_value[mm[1]]
			if !ok {
				return nil, false, fmt.Errorf("unknown capability %q", mm[1])
			}
			if _, dup := counts[Class(c)]; dup {
				return nil, false, fmt.Errorf("capability %s twice", mm[1])
			}
			n, _ := strconv.ParseInt(mm[2], 10, 64)
			counts[Class(c)] = n
		}
	}
	return
}

// fillPackages adds package names to functions known to the model, so that
// paths parsed from text can be checked.
func (m *Model) fillPackages(fs []*cpb.Function) {
	for _, f := range fs {
		if v, ok := m.idx[f.GetName()]; ok {
			f.Package = &m.g.Pkgs[m.nodes[v].pkg]
		}
	}
}

func oracleModes(t *mc.T, l *Loaded) {
	m := l.m
	// The JSON output and the library call.
	jout, err := l.run(t, "json", l.config())
	if err != nil {
		t.Fail("json: %v", err)
		return
	}
	cil := new(cpb.CapabilityInfoList)
	if err := protojson.Unmarshal([]byte(jout), cil); err != nil {
		t.Fail("json output does not parse: %v", err)
		return
	}
	// As a script reads it.
	var raw struct {
		CapabilityInfo []struct {
			PackageName, PackageDir, Capability, CapabilityType string
			Path                                                []struct{ Name, Package string }
		}
	}
	if err := json.Unmarshal([]byte(jout), &raw); err != nil {
		t.Fail("json: %v", err)
	} else if a, b := len(raw.CapabilityInfo), len(cil.GetCapabilityInfo()); a != b {
		t.Fail("%d of %d entries have the documented names", a, b)
	} else {
		for i, c := range cil.GetCapabilityInfo() {
			r := raw.CapabilityInfo[i]
			if r.Capability != c.GetCapability().String() || r.CapabilityType != c.GetCapabilityType().String() || r.PackageName != c.GetPackageName() || r.PackageDir != c.GetPackageDir() || len(r.Path) != len(c.GetPath()) {
				t.Fail("json entry %d reads %+v", i, r)
			}
		}
	}
	lib := l.info(l.config())
	if a, b := cilString(cil), cilString(lib); a != b {
		t.Fail("json output differs from library result:\n%s\nvs\n%s", a, b)
	}
	counts := map[Class]capCount{}
	for _, c := range cil.GetCapabilityInfo() {
		x := counts[c.GetCapability()]
		x.n++
		switch c.GetCapabilityType() {
		case cpb.CapabilityType_CAPABILITY_TYPE_DIRECT:
			x.direct++
		case cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE:
			x.trans++
		}
		counts[c.GetCapability()] = x
	}
	// The model's own counts.
	wantN := map[Class]int64{}
	for p := range m.pairs() {
		wantN[p.cap]++
	}
	for c := Class(0); c <= 14; c++ {
		if wantN[c] != counts[c].n {
			t.Fail("json has %d entries for %s, model %d", counts[c].n, c, wantN[c])
		}
	}
	same := func(a, b string) (string, bool) {
		x, err := l.run(t, a, l.config())
		if err != nil {
			t.Fail("%s: %v", a, err)
			return "", false
		}
		y, err := l.run(t, b, l.config())
		if err != nil {
			t.Fail("%s: %v", b, err)
			return "", false
		}
		if a == "json" || a == "j" {
			// protojson varies white space deliberately.
			ca, cb := new(cpb.CapabilityInfoList), new(cpb.CapabilityInfoList)
			if protojson.Unmarshal([]byte(x), ca) != nil || protojson.Unmarshal([]byte(y), cb) != nil || cilString(ca) != cilString(cb) {
				t.Fail("modes %s and %s differ", a, b)
			}
			return x, true
		}
		if x != y {
			t.Fail("modes %q and %q differ:\n%s\nvs\n%s", a, b, x, y)
		}
		return x, true
	}
	same("j", "json")
	if out, ok := same("m", "machine"); ok {
		got := map[string]bool{}
		for _, s := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			if s == "" && out == "" {
				continue
			}
			if got[s] {
				t.Fail("machine output repeats %q", s)
			}
			got[s] = true
		}
		want := map[string]bool{}
		for c := range counts {
			want[c.String()] = true
		}
		setDiff(t, "machine output", got, want)
	}
	if out, ok := same("v", "verbose"); ok {
		vc, ex, _, none, err := parseVerbose(out)
		if err != nil {
			t.Fail("verbose: %v\n%s", err, out)
		}
		if none != (len(counts) == 0) {
			t.Fail("verbose output says no capabilities: %v, but there are %d", none, len(counts))
		}
		for c := Class(0); c <= 14; c++ {
			if vc[c] != counts[c] {
				t.Fail("verbose output for %s: %+v, json has %+v", c, vc[c], counts[c])
			}
			if vc[c].direct+vc[c].trans != vc[c].n {
				t.Fail("verbose counts do not add up: %+v", vc[c])
			}
			if counts[c].n > 0 {
				m.fillPackages(ex[c])
				if why := m.checkPath(ex[c], c); why != "" {
					t.Fail("verbose example for %s: %s", c, why)
				} else if !m.queried(m.idx[ex[c][0].GetName()]) {
					t.Fail("verbose example for %s starts outside the queried packages", c)
				}
			}
		}
	}
	st := analyzer.GetCapabilityStats(l.pkgs, l.queried(), l.config())
	got := map[Class]capCount{}
	for _, s := range st.GetCapabilityStats() {
		if _, dup := got[s.GetCapability()]; dup {
			t.Fail("statistics repeat %s", s.GetCapability())
		}
		got[s.GetCapability()] = capCount{s.GetCount(), s.GetDirectCount(), s.GetTransitiveCount()}
		if why := m.checkPath(s.GetExampleCallpath(), s.GetCapability()); why != "" {
			t.Fail("statistics example for %s: %s", s.GetCapability(), why)
		}
	}
	for c := Class(0); c <= 14; c++ {
		if got[c] != counts[c] {
			t.Fail("statistics for %s: %+v, json has %+v", c, got[c], counts[c])
		}
	}
	cc := analyzer.GetCapabilityCounts(l.pkgs, l.queried(), l.config()).GetCapabilityCounts()
	if len(cc) != len(counts) {
		t.Fail("count list has %d capabilities, json %d", len(cc), len(counts))
	}
	for c, n := range counts {
		if cc[c.String()] != n.n {
			t.Fail("count list has %d for %s, json %d", cc[c.String()], c, n.n)
		}
	}
	out, err := l.run(t, "", l.config())
	if err != nil {
		t.Fail("default: %v", err)
	}
	dc, none, err := parseDefault(out)
	if err != nil {
		t.Fail("default: %v", err)
	}
	if none != (len(counts) == 0) {
		t.Fail("default output says no capabilities: %v, but there are %d", none, len(counts))
	}
	for c := Class(0); c <= 14; c++ {
		if dc[c] != counts[c].n {
			t.Fail("default output for %s: %d, json has %d", c, dc[c], counts[c].n)
		}
	}
	// At another granularity the counts are those of functions or of the
	// entries at that granularity, and are consistent.
	for _, g := range []analyzer.Granularity{analyzer.GranularityPackage, analyzer.GranularityIntermediate} {
		cfg := l.config()
		cfg.Granularity = g
		entries := map[Class]int64{}
		for _, c := range l.info(cfg).GetCapabilityInfo() {
			entries[c.GetCapability()]++
		}
		cc := analyzer.GetCapabilityCounts(l.pkgs, l.queried(), cfg).GetCapabilityCounts()
		if len(cc) != len(counts) {
			t.Fail("granularity %d: count list has %d capabilities, json %d", g, len(cc), len(counts))
		}
		seen := map[Class]bool{}
		for _, s := range analyzer.GetCapabilityStats(l.pkgs, l.queried(), cfg).GetCapabilityStats() {
			c := s.GetCapability()
			seen[c] = true
			for _, n := range []int64{s.GetCount(), cc[c.String()]} {
				if n != counts[c].n && n != entries[c] {
					t.Fail("granularity %d: %d counted for %s, there are %d functions and %d entries", g, n, c, counts[c].n, entries[c])
				}
			}
			if s.GetDirectCount()+s.GetTransitiveCount() != s.GetCount() {
				t.Fail("granularity %d: counts of %s do not add up: %v", g, c, s)
			}
		}
		if len(seen) != len(counts) {
			t.Fail("granularity %d: statistics have %d capabilities, json %d", g, len(seen), len(counts))
		}
	}
	t.Outcome(cilString(cil))
}

// parseDot parses graph output strictly.
var reDot = regexp.MustCompile(`^\t"((?:[^"\\]|\\.)*)" -> "((?:[^"\\]|\\.)*)"$`)

func parseDot(out string) (edges map[string]bool, n int, err error) {
	lines := strings.Split(out, "\n")
	if len(lines) < 3 || lines[0] != "digraph {" || lines[len(lines)-1] != "" || lines[len(lines)-2] != "}" {
		return nil, 0, fmt.Errorf("not a digraph: %q", out)
	}
	edges = map[string]bool{}
	for _, s := range lines[1 : len(lines)-2] {
		mm := reDot.FindStringSubmatch(s)
		if mm == nil {
			return nil, 0, fmt.Errorf("bad line %q", s)
		}
		un := func(s string) string { return strings.ReplaceAll(s, `\"`, `"`) }
		edges[dotEdge(un(mm[1]), un(mm[2]))] = true
		n++
	}
	return edges, n, nil
}

func graphWith(t *mc.T, l *Loaded, filter string) map[string]bool {
	cs, err := analyzer.NewCapabilitySet(filter)
	if err != nil {
		t.Fail("NewCapabilitySet(%q): %v", filter, err)
		return nil
	}
	c := l.config()
	c.CapabilitySet = cs
	out, err := l.run(t, "graph", c)
	if err != nil {
		t.Fail("graph: %v", err)
		return nil
	}
	got, _, err := parseDot(out)
	if err != nil {
		t.Fail("graph: %v", err)
		return nil
	}
	setDiff(t, "graph with filter "+strconv.Quote(filter), got, l.m.graphEdges(selOf(filter)))
	return got
}

func sortedKeys(m map[string]bool) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

func sortLines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func oracleGraph(t *mc.T, l *Loaded) {
	got := graphWith(t, l, "")
	t.Outcome(sortedKeys(got))
	for _, f := range []string{"FILES", "-FILES", "CAPABILITY_NETWORK,CAPABILITY_UNSAFE_POINTER,REFLECT", "-UNANALYZED"} {
		graphWith(t, l, f)
	}
	graphCallbacks(t, l)
	// The short mode name.
	a, _ := l.run(t, "g", l.config())
	b, _ := l.run(t, "graph", l.config())
	if sortLines(a) != sortLines(b) {
		t.Fail("modes g and graph differ:\n%s\nvs\n%s", a, b)
	}
	if strings.Count(a, "\n")-2 != len(got) {
		t.Fail("unfiltered graph repeats an edge:\n%s", a)
	}
}

// graphCallbacks checks the library's form of the graph, with every subset of
// its callbacks for small programs.
func graphCallbacks(t *mc.T, l *Loaded) {
	for _, f := range []string{"", "-FILES"} {
		sel := selOf(f)
		want := l.m.graphEdges(sel)
		nodes := map[string]bool{}
		for e := range want {
			nodes[strings.Split(e, `"`)[1]] = true
		}
		for mask := 0; mask < 8; mask++ {
			if mask != 7 && (f != "" || len(l.g.Fns) > 2) {
				continue
			}
			gotEdges, gotNodes := map[string]int{}, map[string]int{}
			var call analyzer.GraphOutputCallFn
			var capability analyzer.GraphOutputCapabilityFn
			fn := reflect.ValueOf(analyzer.CapabilityGraph)
			node := reflect.Zero(fn.Type().In(3))
			if mask&1 != 0 {
				call = func(e *callgraph.Edge) { gotEdges[dotEdge(e.Caller.Func.String(), e.Callee.Func.String())]++ }
			}
			if mask&2 != 0 {
				capability = func(n *callgraph.Node, c cpb.Capability) { gotEdges[dotEdge(n.Func.String(), c.String())]++ }
			}
			if mask&4 != 0 {
				node = reflect.MakeFunc(fn.Type().In(3), func(args []reflect.Value) []reflect.Value {
					for _, a := range args {
						if n, ok := a.Interface().(*callgraph.Node); ok {
							gotNodes[n.Func.String()]++
						}
					}
					return nil
				})
			}
			var filter func(cpb.Capability) bool
			asked := map[cpb.Capability]int{}
			if f != "" {
				filter = func(c cpb.Capability) bool { asked[c]++; return sel(c) }
			}
			fn.Call([]reflect.Value{reflect.ValueOf(l.pkgs), reflect.ValueOf(l.queried()), reflect.ValueOf(l.config()), node, reflect.ValueOf(call), reflect.ValueOf(capability), reflect.ValueOf(filter)})
			t.Trace()
			what := fmt.Sprintf("graph callbacks %d with filter %q", mask, f)
			ge, gn, we := map[string]bool{}, map[string]bool{}, map[string]bool{}
			for e, n := range gotEdges {
				ge[e] = true
				if n > 1 && f == "" {
					t.Fail("%s: %s output %d times", what, e, n)
				}
			}
			for e, n := range gotNodes {
				gn[e] = true
				if n > 1 && f == "" {
					t.Fail("%s: node %s output %d times", what, e, n)
				}
			}
			for c, n := range asked {
				if n > 1 {
					t.Fail("%s: asked %d times about %v", what, n, c)
				}
			}
			for e := range want {
				isCap := strings.Contains(e, `-> "CAPABILITY_`)
				if isCap && mask&2 != 0 || !isCap && mask&1 != 0 {
					we[e] = true
				}
			}
			setDiff(t, what, ge, we)
			if mask&4 != 0 {
				setDiff(t, what+": nodes", gn, nodes)
			}
		}
	}
}

func oracleOmit(t *mc.T, l *Loaded) {
	for _, g := range []analyzer.Granularity{analyzer.GranularityUnset, analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate} {
		var lists [2]*cpb.CapabilityInfoList
		for i := range lists {
			c := l.config()
			c.Granularity = g
			c.OmitPaths = i == 1
			lists[i] = l.info(c)
		}
		full, omit := lists[0].GetCapabilityInfo(), lists[1].GetCapabilityInfo()
		if len(full) != len(omit) {
			t.Fail("granularity %d: %d entries with paths, %d without", g, len(full), len(omit))
			continue
		}
		perFn := g == analyzer.GranularityUnset || g == analyzer.GranularityFunction
		for i := range full {
			a, b := full[i], omit[i]
			if a.GetCapability() != b.GetCapability() || a.GetPackageDir() != b.GetPackageDir() || a.GetPackageName() != b.GetPackageName() || a.GetCapabilityType() != b.GetCapabilityType() {
				t.Fail("granularity %d: entry %d differs: %v vs %v", g, i, a, b)
			}
			if b.GetDepPath() != "" {
				t.Fail("granularity %d: omitted paths but depPath %q", g, b.GetDepPath())
			}
			if perFn {
				if len(b.GetPath()) != 1 || subject(a) != subject(b) {
					t.Fail("granularity %d: subject %q became [%s]", g, subject(a), pathNames(b.GetPath()))
				}
			} else if len(b.GetPath()) != 0 {
				t.Fail("granularity %d: omitted paths but path [%s]", g, pathNames(b.GetPath()))
			}
		}
		if a, b := len(lists[0].GetModuleInfo()), len(lists[1].GetModuleInfo()); a != b {
			t.Fail("module info differs")
		}
		if a, b := len(lists[0].GetPackageInfo()), len(lists[1].GetPackageInfo()); a != b {
			t.Fail("package info differs")
		}
		t.Outcome(cilString(lists[1]))
	}
	for _, mode := range []string{"v", "m", "", "graph"} {
		a, err := l.run(t, mode, l.config())
		if err != nil {
			t.Fail("%s: %v", mode, err)
		}
		c := l.config()
		c.OmitPaths = true
		b, err := l.run(t, mode, c)
		if err != nil {
			t.Fail("%s: %v", mode, err)
		}
		if mode != "v" {
			if a != b && (mode != "graph" || sortLines(a) != sortLines(b)) {
				t.Fail("mode %q changes with paths omitted:\n%s\nvs\n%s", mode, a, b)
			}
			continue
		}
		ca, ea, oa, na, err1 := parseVerbose(a)
		cb, eb, ob, nb, err2 := parseVerbose(b)
		if err1 != nil || err2 != nil {
			t.Fail("verbose: %v %v", err1, err2)
			continue
		}
		if fmt.Sprint(ca, oa, na) != fmt.Sprint(cb, ob, nb) {
			t.Fail("verbose counts change with paths omitted: %v vs %v", ca, cb)
		}
		for c := range ca {
			if len(eb[c]) > 1 {
				t.Fail("verbose shows a path although paths are omitted: %s", pathNames(eb[c]))
			}
			if len(eb[c]) != 1 || len(ea[c]) == 0 || ea[c][0].GetName() != eb[c][0].GetName() {
				t.Fail("verbose example function: %q vs %q", pathNames(ea[c]), pathNames(eb[c]))
			}
		}
	}
}

// label is the documented direct/transitive rule, applied to a path.
func label(m *Model, fs []*cpb.Function) cpb.CapabilityType {
	own := m.g.Pkgs[m.nodes[m.idx[fs[0].GetName()]].pkg]
	for _, f := range fs {
		p := m.g.Pkgs[m.nodes[m.idx[f.GetName()]].pkg]
		if p != own && strings.Contains(p, ".") {
			return cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
		}
	}
	return cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
}

func oracleLabels(t *mc.T, l *Loaded) {
	m := l.m
	for _, g := range []analyzer.Granularity{analyzer.GranularityFunction, analyzer.GranularityPackage} {
		c := l.config()
		c.Granularity = g
		cil := l.info(c)
		direct, trans := map[Class]int64{}, map[Class]int64{}
		for _, e := range cil.GetCapabilityInfo() {
			if why := m.checkPath(e.GetPath(), e.GetCapability()); why != "" {
				t.Fail("path: %s", why)
				return
			}
			want := label(m, e.GetPath())
			if e.GetCapabilityType() != want {
				t.Fail("entry with path [%s] is labelled %s, want %s", pathNames(e.GetPath()), e.GetCapabilityType(), want)
			}
			if want == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT {
				direct[e.GetCapability()]++
			} else {
				trans[e.GetCapability()]++
			}
		}
		t.Outcome(cilString(cil))
		if g != analyzer.GranularityFunction {
			continue
		}
		st := analyzer.GetCapabilityStats(l.pkgs, l.queried(), l.config())
		for _, s := range st.GetCapabilityStats() {
			if s.GetDirectCount() != direct[s.GetCapability()] || s.GetTransitiveCount() != trans[s.GetCapability()] {
				t.Fail("statistics for %s: %d direct %d transitive, want %d, %d", s.GetCapability(), s.GetDirectCount(), s.GetTransitiveCount(), direct[s.GetCapability()], trans[s.GetCapability()])
			}
		}
	}
}
