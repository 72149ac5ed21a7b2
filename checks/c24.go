package checks

import (
	"fmt"
	"go/token"
	"os/exec"
	"path"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C24: the report lists exactly the modules and packages analysed.

type modPkg struct {
	path   string
	module *packages.Module
	std    bool
}

type modCase struct {
	pkgs    []modPkg
	imports [][]bool // imports[i][j], j < i
	query   uint
	ignored []int // number of excluded files
	order   bool  // query in reverse order
}

func (c *modCase) id() string {
	var b strings.Builder
	for i, p := range c.pkgs {
		m := "-"
		if p.module != nil {
			m = p.module.Path + "@" + p.module.Version
		}
		fmt.Fprintf(&b, "%s(%s ign=%d)->", p.path, m, c.ignored[i])
		for j := 0; j < i; j++ {
			if c.imports[i][j] {
				fmt.Fprintf(&b, "%d", j)
			}
		}
		b.WriteByte(' ')
	}
	fmt.Fprintf(&b, "query=%b rev=%v", c.query, c.order)
	return b.String()
}

func runModCase(t *mc.T, c *modCase) {
	var srcs []syn.Pkg
	for i, p := range c.pkgs {
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", path.Base(p.path))
		for j := 0; j < i; j++ {
			if c.imports[i][j] {
				fmt.Fprintf(&b, "import _ %q\n", c.pkgs[j].path)
			}
		}
		fmt.Fprintf(&b, "\nfunc F() {}\n")
		s := syn.One(p.path, b.String())
		s.Module = p.module
		for k := 0; k < c.ignored[i]; k++ {
			s.Ignored = append(s.Ignored, fmt.Sprintf("zz_%d_%d_windows.go", i, c.ignored[i]-k))
		}
		srcs = append(srcs, s)
	}
	prog, err := syn.Load(srcs)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	var q []*packages.Package
	seen := make([]bool, len(c.pkgs))
	var visit func(i int)
	visit = func(i int) {
		if seen[i] {
			return
		}
		seen[i] = true
		for j := 0; j < i; j++ {
			if c.imports[i][j] {
				visit(j)
			}
		}
	}
	for i := range c.pkgs {
		k := i
		if c.order {
			k = len(c.pkgs) - 1 - i
		}
		if c.query>>k&1 == 1 {
			q = append(q, prog.ByPath[c.pkgs[k].path])
			visit(k)
		}
	}
	mods := map[string]string{}
	var pkgs []string
	for i, p := range c.pkgs {
		if !seen[i] {
			continue
		}
		if p.module != nil && p.module.Version != "" && p.module.Path != "" {
			mods[p.module.Path] = p.module.Version
		}
		if !p.std {
			s := p.path
			var ig []string
			for k := 0; k < c.ignored[i]; k++ {
				ig = append(ig, fmt.Sprintf("zz_%d_%d_windows.go", i, c.ignored[i]-k))
			}
			sort.Strings(ig)
			pkgs = append(pkgs, s+" "+strings.Join(ig, ","))
		}
	}
	var wantMods []string
	var paths []string
	for m := range mods {
		paths = append(paths, m)
	}
	sort.Strings(paths)
	for _, m := range paths {
		wantMods = append(wantMods, m+"@"+mods[m])
	}
	sort.Slice(pkgs, func(i, j int) bool {
		a, _, _ := strings.Cut(pkgs[i], " ")
		b, _, _ := strings.Cut(pkgs[j], " ")
		return a < b
	})
	modList := func(l []*cpb.ModuleInfo) string {
		var s []string
		for _, m := range l {
			s = append(s, m.GetPath()+"@"+m.GetVersion())
		}
		return strings.Join(s, "\n")
	}
	pkgList := func(l []*cpb.PackageInfo) string {
		var s []string
		for _, p := range l {
			ig := append([]string(nil), p.GetIgnoredFiles()...)
			sort.Strings(ig)
			s = append(s, p.GetPath()+" "+strings.Join(ig, ","))
		}
		return strings.Join(s, "\n")
	}
	cls, err := interesting.LoadClassifier("x", strings.NewReader("func x.F CAPABILITY_FILES"), true)
	if err != nil {
		panic(err)
	}
	cfg := func(g analyzer.Granularity) *analyzer.Config {
		return &analyzer.Config{Classifier: cls, Granularity: g}
	}
	qp := analyzer.GetQueriedPackages(q)
	lists := map[string][]*cpb.ModuleInfo{}
	for _, g := range c16Grans[:3] {
		cil := analyzer.GetCapabilityInfo(q, qp, cfg(g))
		lists["report "+granNames[g]] = cil.GetModuleInfo()
		if got := pkgList(cil.GetPackageInfo()); got != strings.Join(pkgs, "\n") {
			t.Fail("%s report: packages\n%s\nwant\n%s", granNames[g], got, strings.Join(pkgs, "\n"))
		}
		t.Trace()
	}
	lists["statistics"] = analyzer.GetCapabilityStats(q, qp, cfg(0)).GetModuleInfo()
	lists["counts"] = analyzer.GetCapabilityCounts(q, qp, cfg(0)).GetModuleInfo()
	out := t.Capture(func() { err = analyzer.RunCapslock(nil, "json", q, qp, cfg(0)) })
	var cil cpb.CapabilityInfoList
	if err == nil {
		err = protojson.Unmarshal([]byte(out), &cil)
	}
	if err != nil {
		t.Fail("json: %v", err)
	} else {
		lists["json"] = cil.GetModuleInfo()
		if got := pkgList(cil.GetPackageInfo()); got != strings.Join(pkgs, "\n") {
			t.Fail("json: packages\n%s\nwant\n%s", got, strings.Join(pkgs, "\n"))
		}
	}
	for k, l := range lists {
		if got := modList(l); got != strings.Join(wantMods, "\n") {
			t.Fail("%s: modules\n%s\nwant\n%s", k, got, strings.Join(wantMods, "\n"))
		}
	}
	// The modules shown to people, with and without capabilities to show.
	some, err := interesting.LoadClassifier("x", strings.NewReader("package "+c.pkgs[0].path+" CAPABILITY_FILES"), true)
	if err != nil {
		panic(err)
	}
	for k, cls := range []*interesting.Classifier{cls, some} {
		for _, mode := range []string{"", "v"} {
			out := t.Capture(func() {
				err = analyzer.RunCapslock(nil, mode, q, qp, &analyzer.Config{Classifier: cls})
			})
			if err != nil {
				t.Fail("output %q: %v", mode, err)
				continue
			}
			shown := map[string]string{}
			for _, line := range strings.Split(out, "\n") {
				if f := strings.Fields(line); len(f) == 2 {
					shown[f[0]] = f[1]
				}
			}
			for _, p := range c.pkgs {
				if p.module == nil {
					continue
				}
				m := p.module.Path
				if mods[m] != shown[m] {
					t.Fail("output %q (%d): module %s is shown with version %q, want %q\n%s", mode, k, m, shown[m], mods[m], out)
				}
			}
			t.Trace()
		}
	}
	n := 0
	for _, s := range seen {
		if s {
			n++
		}
	}
	e := 0
	for i := range c.imports {
		for _, x := range c.imports[i] {
			if x {
				e++
			}
		}
	}
	t.State(int64(n), int64(e))
	t.Outcome(strings.Join(wantMods, "\n") + strings.Join(pkgs, "\n"))
	if t.Failed() {
		for _, s := range srcs {
			t.Detail("-- " + s.Path + " --\n" + s.Files[0].Src)
		}
	}
}

// nameable reports whether a package can be called s.
func nameable(s string) bool {
	return token.IsIdentifier(s) && s != "_" && s != "main"
}

func init() {
	m1 := &packages.Module{Path: "example.com/m", Version: "v1.2.3"}
	m1b := &packages.Module{Path: "example.com/m", Version: "v1.2.3", Indirect: true}
	m2 := &packages.Module{Path: "example.com/m/v2", Version: "v2.0.0-20240101000000-abcdefabcdef"}
	main := &packages.Module{Path: "example.com/main", Main: true}
	nodot := &packages.Module{Path: "mymod", Version: "v0.1.0"}
	other := &packages.Module{Path: "a.org/z", Version: "v0.0.1"}
	kinds := []modPkg{
		{"example.com/m/x%d", m1, false},
		{"example.com/m/x%d", m1b, false},
		{"example.com/m/v2/x%d", m2, false},
		{"example.com/main/x%d", main, false},
		{"mymod/x%d", nodot, false},
		{"nomodule.org/x%d", nil, false},
		{"plain%d", nil, false},
		{"a.org/z", other, false},
		{"fmt", nil, true},
		{"vendor/golang.org/x/net/idna", nil, true},
		{"internal/abi", nil, true},
	}
	enum := func(n int, kinds []modPkg, ign []int, yield func(func() string, func(*mc.T))) {
		idx := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i < n {
				for k := range kinds {
					// Each fixed path at most once.
					dup := false
					for j := 0; j < i; j++ {
						dup = dup || idx[j] == k && !strings.Contains(kinds[k].path, "%d")
					}
					if dup {
						continue
					}
					idx[i] = k
					rec(i + 1)
				}
				return
			}
			ne := n * (n - 1) / 2
			for em := 0; em < 1<<ne; em++ {
				for q := uint(1); q < 1<<n; q++ {
					for _, rev := range []bool{false, true} {
						c := &modCase{query: q, order: rev, imports: make([][]bool, n), ignored: make([]int, n)}
						b := 0
						for i := 0; i < n; i++ {
							p := kinds[idx[i]]
							if strings.Contains(p.path, "%d") {
								p.path = fmt.Sprintf(p.path, n-i)
							}
							c.pkgs = append(c.pkgs, p)
							c.ignored[i] = ign[(i+int(q)+em)%len(ign)]
							c.imports[i] = make([]bool, i)
							for j := 0; j < i; j++ {
								c.imports[i][j] = em>>b&1 == 1
								b++
							}
						}
						yield(c.id, func(t *mc.T) { runModCase(t, c) })
					}
				}
			}
		}
		rec(0)
	}
	graphs := mc.Engine{Name: "modules", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		ign := []int{0, 1, 2}
		for n := 1; n <= 3; n++ {
			k := kinds
			if n == 3 && tier != "thorough" {
				k = []modPkg{kinds[0], kinds[1], kinds[2], kinds[3], kinds[5], kinds[7], kinds[8]}
			}
			enum(n, k, ign, yield)
		}
		if tier == "thorough" {
			enum(4, []modPkg{kinds[0], kinds[2], kinds[3], kinds[8]}, ign, yield)
		}
	}}
	deep := mc.Engine{Name: "chains", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, n := range []int{5, 20, 60} {
			for mod := 1; mod <= 3; mod++ {
				c := &modCase{query: 1 << (n - 1), imports: make([][]bool, n), ignored: make([]int, n)}
				for i := 0; i < n; i++ {
					m := &packages.Module{Path: fmt.Sprintf("example.com/mod%d", i/mod), Version: fmt.Sprintf("v1.%d.0", i/mod)}
					c.pkgs = append(c.pkgs, modPkg{path: fmt.Sprintf("example.com/mod%d/p%d", i/mod, i), module: m})
					c.imports[i] = make([]bool, i)
					if i > 0 {
						c.imports[i][i-1] = true
					}
					if i > 2 {
						c.imports[i][i/2] = true
					}
					c.ignored[i] = i % 3
				}
				yield(c.id, func(t *mc.T) { runModCase(t, c) })
			}
		}
	}}
	// One package of every path, imported and asked for, in modules of every
	// kind.
	names := mc.Engine{Name: "names", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		paths := append([]string(nil), pkgStyles...)
		paths = append(paths, "fmt2", "os/exec2", "internal", "vendor/golang.org/x/net/idna2", "std", "cmd", "net/http.x", "runtime/x", "golang.org/x/net/idna", "builtin2")
		out, err := exec.Command("go", "list", "std").Output()
		if err != nil {
			panic(fmt.Sprintf("harness: go list: %v", err))
		}
		std := map[string]bool{}
		for _, p := range strings.Fields(string(out)) {
			std[p] = true
			if p != "unsafe" {
				paths = append(paths, p)
			}
		}
		versions := []string{"v0.0.0", "v1.2.3", "v0.0.0-20240101000000-abcdefabcdef", "v1.0.0-rc.1", "v2.0.0+incompatible", "v10.20.30", "(devel)", ""}
		for _, p := range paths {
			if !nameable(path.Base(p)) {
				continue
			}
			mods := []*packages.Module{nil}
			if !std[p] {
				for _, v := range versions {
					mods = append(mods, &packages.Module{Path: p, Version: v}, &packages.Module{Path: p, Version: v, Indirect: true, GoVersion: "1.20"})
				}
				mods = append(mods, &packages.Module{Path: "", Version: "v1.0.0"}, &packages.Module{Path: p, Main: true}, &packages.Module{Path: p, Version: "v1.0.0", Dir: "/x"})
			}
			for _, m := range mods {
				for q := uint(1); q < 4; q++ {
					c := &modCase{query: q, imports: [][]bool{{}, {true}}, ignored: []int{2, 1}}
					c.pkgs = []modPkg{{p, m, std[p]}, {"example.com/user", main, false}}
					yield(c.id, func(t *mc.T) { runModCase(t, c) })
				}
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C24", Level: "model_checking",
		Bounds:  "every import graph of <=3 packages (thorough: 4, fewer kinds) x module kinds (shared, major version, main, undotted, none, standard library, vendored) x queried subsets and orders x 0-2 excluded files; chains of up to 60 packages; every standard package and every odd package path x module kinds and versions; the built command on real modules (replaced, vendored, workspaces, fetched from a proxy, files excluded), on two platforms (thorough 6)",
		Assume:  []string{"programs are loaded in memory by internal/syn, which mirrors what go/packages returns", "the go command says what a real module contains"},
		Setup:   buildCommands,
		Engines: []mc.Engine{graphs, deep, names, c24RealEngine}})
}
