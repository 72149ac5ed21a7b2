SEEDS = {}
def seed(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)
AN="analyzer/analyzer.go"

seed("s01-search-depth-limit", "C01",
  "a chain of more than 64 calls between a function and the capability",
  "the backward search gives up after 64 calls, so functions further away are not reported",
  [(AN, """		// Perform a BFS backwards through the call graph from the interesting
		// nodes.
		for len(q) > 0 {
			v := q[0]
			q = q[1:]
			var incomingEdges []*callgraph.Edge
			for _, edge := range v.In {
				if config""", """		// Perform a BFS backwards through the call graph from the interesting
		// nodes.
		depth := make(map[*callgraph.Node]int)
		for len(q) > 0 {
			v := q[0]
			q = q[1:]
			if depth[v] >= 64 {
				continue
			}
			var incomingEdges []*callgraph.Edge
			for _, edge := range v.In {
				if config"""),
   (AN, """				visited[w] = bfsState{edge: edge}
				q = append(q, w)
				if w.Func""", """				visited[w] = bfsState{edge: edge}
				depth[w] = depth[v] + 1
				q = append(q, w)
				if w.Func""")],
  """
{ echo package m; for i in $(seq 0 98); do echo "func F$i() { F$((i+1))() }"; done; echo "func F99() {}"; } > a.go
printf 'func example.com/m.F99 CAPABILITY_NETWORK\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
pairs < o.json > p
has "NETWORK example.com/m.F0" < p
""")

seed("s02-graph-stops-at-extra", "C15",
  "a function that converts an unsafe pointer and also calls a function with another capability",
  "graph output stops at functions whose capability was found in their source, so calls they make to other capabilities are missing",
  [(AN, """		if outputCapability != nil {
			for c, nodes := range nodesByCapability {
				if _, ok := nodes[v]; ok {
					outputCapability(v, c)
				}
			}
		}
		if _, ok := allNodesWithExplicitCapability[v]; ok {
			continue
		}
""", """		leaf := false
		for c, nodes := range nodesByCapability {
			if _, ok := nodes[v]; ok {
				leaf = true
				if outputCapability != nil {
					outputCapability(v, c)
				}
			}
		}
		if leaf {
			continue
		}
""")],
  """
cat > a.go <<'X'
package m

import "unsafe"

func A() { B() }
func B() { _ = (*int)(unsafe.Pointer(nil)); D() }
func D() {}
X
printf 'func example.com/m.D CAPABILITY_FILES\\n' > c.cm
cap -packages=. -capability_map=c.cm -output=graph > o || exit 3
for e in A:B B:D; do
  grep -qF "\\"example.com/m.${e%:*}\\" -> \\"example.com/m.${e#*:}\\"" o || { echo "missing edge $e"; exit 1; }
done
""")

seed("s03-package-dedup-by-name", "C12",
  "two queried packages with the same package name and the same capability",
  "the package view drops the second of two packages that have the same name",
  [(AN, """		type cp struct {
			cpb.Capability
			*ssa.Package
		}""", """		type cp struct {
			cpb.Capability
			pkg string
		}"""),
   (AN, """			var pkg *ssa.Package
			if o.Function != nil {
				pkg = o.Function.Package()
			}
			cp := cp{o.CapabilityInfo.GetCapability(), pkg}""", """			cp := cp{o.CapabilityInfo.GetCapability(), o.CapabilityInfo.GetPackageName()}""")],
  """
mkdir -p x/p y/p
printf 'package p\\n\\nfunc A() {}\\n' | tee x/p/a.go > y/p/a.go
printf 'func example.com/m/x/p.A CAPABILITY_FILES\\nfunc example.com/m/y/p.A CAPABILITY_FILES\\n' > c.cm
cap -packages=./... -capability_map=c.cm -disable_builtin -granularity=package -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m/x/p.A" < p && has "FILES example.com/m/y/p.A" < p
""")

UT="analyzer/util.go"; RW="analyzer/rewrite.go"; GR="analyzer/graph.go"; CO="analyzer/compare.go"; LO="analyzer/load.go"; SC="analyzer/scan.go"
IN="interesting/interesting.go"; CM="interesting/interesting.cm"; CL="cmd/capslock/capslock.go"; GD="cmd/capslock-git-diff/main.go"

seed("s04-ignored-call-repeated", "C02",
  "two calls of the same function from one function, and that call marked as ignored",
  "only the first of several calls between the same two functions is checked against the ignored calls, so a path uses an ignored call",
  [(AN, """			for _, edge := range v.In {
				if config.Classifier.IncludeCall(edge) {
					incomingEdges = append(incomingEdges, edge)
				}
			}""", """			for i, edge := range v.In {
				if i > 0 && edge.Caller == v.In[i-1].Caller || config.Classifier.IncludeCall(edge) {
					incomingEdges = append(incomingEdges, edge)
				}
			}""")],
  """
cat > a.go <<'X'
package m

func A() { B(); B() }
func B() { D() }
func D() {}
X
printf 'func example.com/m.D CAPABILITY_FILES\\nignore_edge example.com/m.A example.com/m.B\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m.B" < p || exit 3
! has "FILES example.com/m.A" < p 2>/dev/null
""")

seed("s05-search-stops-at-method-value", "C03",
  "a method value that is called",
  "the search does not continue past the functions made for method values, so what a method called through one does is lost",
  [(AN, """				w := edge.Caller
				if w.Func == nil {
					// Synthetic nodes may not have this information.
					continue
				}
				if _, ok := safe[w]; ok {
					continue
				}
				if _, ok := visited[w]; ok {
					// We have""", """				w := edge.Caller
				if w.Func == nil || strings.HasPrefix(w.Func.Synthetic, "bound method wrapper") {
					// Synthetic nodes may not have this information.
					continue
				}
				if _, ok := safe[w]; ok {
					continue
				}
				if _, ok := visited[w]; ok {
					// We have""")],
  """
cat > a.go <<'X'
package m

import "os"

type T struct{ name string }

func (t T) M() { os.Remove(t.name) }

func A() {
	f := T{"x"}.M
	f()
}
X
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m.A" < p
""")

seed("s06-receiver-call-taken-for-conversion", "C04",
  "a call of Do on the result of a function with one argument",
  "a call with one argument is taken for a type conversion, so the call producing the receiver of Do is dropped",
  [(UT, """	case *ast.CallExpr:
		return true
	case *ast.CompositeLit:""", """	case *ast.CallExpr:
		if len(e.Args) == 1 {
			// A type conversion.
			return mayHaveSideEffects(e.Args[0])
		}
		return true
	case *ast.CompositeLit:""")],
  """
cat > a.go <<'X'
package m

import (
	"os"
	"sync"
)

var once sync.Once

func get(name string) *sync.Once {
	os.Remove(name)
	return &once
}

func A() { get("x").Do(func() {}) }
X
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m.A" < p
""")

seed("s07-still-unsafe", "C05",
  "a conversion from an unsafe pointer to a type defined as one",
  "a conversion from an unsafe pointer to a type that is itself defined as an unsafe pointer is taken for harmless",
  [(UT, "		if b, ok := funType.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {", "		if b, ok := funType.Type.Underlying().(*types.Basic); ok && (b.Kind() == types.Uintptr || b.Kind() == types.UnsafePointer) {")],
  """
cat > a.go <<'X'
package m

import "unsafe"

type Handle unsafe.Pointer

func A(p unsafe.Pointer) Handle { return Handle(p) }
X
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "UNSAFE_POINTER example.com/m.A" < p
""")

seed("s08-embedded-values", "C06",
  "a store of a struct that embeds a reflect.Value",
  "structs that embed a reflect.Value are not recognised, only ones with a named field",
  [(UT, """			for i := 0; i < s.NumFields(); i++ {
				if rec(s.Field(i).Type()) {
					return true
				}
			}""", """			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); !f.Embedded() && rec(f.Type()) {
					return true
				}
			}""")],
  """
cat > a.go <<'X'
package m

import "reflect"

type T struct{ reflect.Value }

func A(p *T, t T) { *p = t }
X
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "REFLECT example.com/m.A" < p
""")

seed("s09-bodyless-methods", "C07",
  "a method implemented in assembly",
  "methods without a body are not reported as arbitrary execution, only functions are",
  [(AN, """			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)""", """			if f.Pkg == nil || f.Signature.Recv() != nil {
				continue
			}
			extraNodesByCapability.add(cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION, node)""")],
  """
printf 'package m\\n\\ntype T int\\n\\nfunc (T) M()\\n\\nfunc A() { T(1).M() }\\n' > a.go
printf '// implemented elsewhere\\n' > a.s
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "ARBITRARY_EXECUTION example.com/m.A" < p
""")

seed("s10-builtin-map-comes-back", "C08",
  "a map without function or package entries that replaces the built-in map",
  "the built-in map is used although it was disabled, when the user's map lists no function or package capability",
  [(IN, """	if excludeBuiltin {
		return userClassifier, nil
	}""", """	if excludeBuiltin && len(userClassifier.functionCategory)+len(userClassifier.packageCategory) > 0 {
		return userClassifier, nil
	}""")],
  """
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > a.go
printf 'unanalyzed example.com/other.X\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
! grep -q READ_SYSTEM_STATE o.json
""")

seed("s11-large-map-truncated", "C09",
  "a capability map of more than one megabyte",
  "only the first megabyte of a capability map is read, so later entries are lost or cut off",
  [(IN, """	scanner := bufio.NewScanner(r)
""", """	scanner := bufio.NewScanner(bufio.NewReaderSize(io.LimitReader(r, 1<<20), 1<<16))
""")],
  """
printf 'package m\\n\\nfunc A() {}\\n' > a.go
{ for i in $(seq 1 30000); do echo "func example.com/somewhere/else.Function$i CAPABILITY_NETWORK"; done; echo "func example.com/m.A CAPABILITY_FILES"; } > c.cm
cap -packages=. -capability_map=c.cm -output=json > o.json || exit 1
pairs < o.json > p
has "FILES example.com/m.A" < p
""")

seed("s12-tls-safe", "C10",
  "a program opening a TLS connection",
  "the package crypto/tls is listed as safe, so opening TLS connections shows no network capability",
  [(CM, """
package testing CAPABILITY_SAFE
""", """
package testing CAPABILITY_SAFE
package crypto/tls CAPABILITY_SAFE
""")],
  """
printf 'package m\\n\\nimport "crypto/tls"\\n\\nfunc A() { tls.Dial("tcp", "example.com:443", nil) }\\n' > a.go
cap -packages=. -output=json > o.json || exit 3
pairs < o.json > p
has "NETWORK example.com/m.A" < p
""")

seed("s13-suppression-needs-builtin", "C11",
  "suppression of unanalyzed entries together with a map that replaces the built-in one",
  "the option to drop unanalyzed entries has no effect when the built-in map is disabled",
  [(CL, """		if *noiseFlag {
			classifier""", """		if *noiseFlag && !*disableBuiltin {
			classifier""")],
  """
printf 'package m\\n\\nfunc A() { B() }\\nfunc B() {}\\n' > a.go
printf 'unanalyzed example.com/m.B\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -noisy -output=json > o.json || exit 3
! grep -q UNANALYZED o.json
""")

seed("s14-closure-start", "C12",
  "a function literal held in a package variable",
  "the intermediate view starts only from declared functions, so packages reached only from function literals are missing",
  [(AN, """			if _, ok := queriedPackages[v.Func.Package().Pkg]; ok {
				canBeReached""", """			if _, ok := queriedPackages[v.Func.Package().Pkg]; ok && v.Func.Parent() == nil {
				canBeReached""")],
  """
mkdir dep
printf 'package m\\n\\nimport "example.com/m/dep"\\n\\nvar F = func() { dep.B() }\\n' > a.go
printf 'package dep\\n\\nfunc B() { D() }\\nfunc D() {}\\n' > dep/a.go
printf 'func example.com/m/dep.D CAPABILITY_FILES\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -granularity=intermediate -output=json > o.json || exit 3
grep -q '"packageDir": *"example.com/m/dep"' o.json
""")

seed("s15-direct-count", "C13",
  "a capability in a function of another package",
  "the verbose totals do not look at the last function of a path, so they disagree with the labels in the JSON report",
  [(AN, """				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					isDirect = false
				}""", """				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) && nodes[v].edge != nil {
					isDirect = false
				}""")],
  """
mkdir dep
printf 'package m\\n\\nimport "example.com/m/dep"\\n\\nfunc A() { dep.D() }\\n' > a.go
printf 'package dep\\n\\nfunc D() {}\\n' > dep/a.go
printf 'func example.com/m/dep.D CAPABILITY_FILES\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
grep -q CAPABILITY_TYPE_TRANSITIVE o.json || exit 3
cap -packages=. -capability_map=c.cm -disable_builtin -output=v > o || exit 3
grep -q '0 direct, 1 transitive' o
""")

seed("s16-mixed-list", "C14",
  "a capability list with a negated item third or later",
  "only the second item of a capability list is checked for mixing plain and negated items",
  [(GR, """		if i > 0 && neg != negated {""", """		if i == 1 && neg != negated {""")],
  """
printf 'package m\\n\\nfunc A() {}\\n' > a.go
cap -packages=. -capabilities=FILES,NETWORK -output=json > o.json || exit 3
cap -packages=. -capabilities=FILES,NETWORK,-EXEC -output=json > o.json 2> e
[ $? = 2 ]
""")

seed("s17-one-capability-per-node", "C15",
  "a function with two capabilities of its own",
  "the graph shows only one capability for each function",
  [(AN, """				if _, ok := nodes[v]; ok {
					outputCapability(v, c)
				}""", """				if _, ok := nodes[v]; ok {
					outputCapability(v, c)
					break
				}""")],
  """
cat > a.go <<'X'
package m

import (
	"reflect"
	"unsafe"
)

func A(p *reflect.Value) {
	*p = reflect.Value{}
	_ = (*int)(unsafe.Pointer(p))
}
X
cap -packages=. -output=graph > o || exit 3
for c in UNSAFE_POINTER REFLECT; do
  grep -q "example.com/m.A\\".*$c" o || { echo "no $c"; exit 1; }
done
""")

seed("s18-nothing-left", "C16",
  "a baseline with capabilities and a current version without any",
  "a comparison says nothing changed when the current version has no capabilities at all",
  [(CO, """	return different
}

func printCallPath""", """	return different && len(currentMap) > 0
}

func printCallPath""")],
  """
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > a.go
cap -packages=. -output=json > base.json || exit 3
printf 'package m\\n\\nfunc A() {}\\n' > a.go
cap -packages=. -output=compare base.json > o
[ $? = 1 ]
""")

seed("s19-forward-start-unsorted", "C17",
  "several functions of the queried package that call functions of another one, at intermediate granularity",
  "the search from the queried functions starts in arbitrary order, so the paths at intermediate granularity differ from run to run",
  [(AN, """		q = append(q, v)
		bfsFromQueries[v] = bfsState{}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
""", """		q = append(q, v)
		bfsFromQueries[v] = bfsState{}
	}
""")],
  """
mkdir sub
printf 'package sub\\n\\nfunc B() {}\\n' > sub/b.go
{ echo package m; echo 'import "example.com/m/sub"'; for i in $(seq 1 20); do echo "func A$i() { sub.B() }"; done; } > a.go
echo "func example.com/m/sub.B CAPABILITY_FILES" > c.cm
for i in $(seq 1 15); do
  cap -packages=. -capability_map=c.cm -disable_builtin -granularity=intermediate -output=json > x || exit 3
  tr -d ' \\t\\n' < x > o$i.json
  cmp o1.json o$i.json || exit 1
done
""")

seed("s20-modules-remembered", "C18",
  "two analyses of different programs in one process",
  "the modules of an earlier analysis are listed again in the report of a later one",
  [(LO, """func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
	pathToModule := make(map[string]*cpb.ModuleInfo)
""", """var pathToModule = make(map[string]*cpb.ModuleInfo)

func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
""")],
  """
cat > "$d/main.go" <<'X'
package main

import (
	"os"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
)

func modules(name string) int {
	pkgs, err := analyzer.LoadPackages([]string{name}, analyzer.LoadConfig{})
	if err != nil {
		panic(err)
	}
	config := &analyzer.Config{Classifier: interesting.DefaultClassifier()}
	return len(analyzer.GetCapabilityInfo(pkgs, analyzer.GetQueriedPackages(pkgs), config).GetModuleInfo())
}

func main() {
	if modules("golang.org/x/tools/go/ast/astutil") == 0 {
		os.Exit(3)
	}
	if modules("errors") != 0 {
		os.Exit(1)
	}
}
X
cd "$repo" || exit 3
printf '{"Replace":{"%s/cmd/demo/main.go":"%s/main.go"}}' "$repo" "$d" > "$d/overlay.json"
go build -overlay "$d/overlay.json" -o "$d/demo" ./cmd/demo || exit 3
"$d/demo"
""")

seed("s21-architecture-alone", "C19",
  "a target architecture given without a target system",
  "the target architecture is ignored unless the target system is given too",
  [(LO, """	if lcfg.GOOS != "" || lcfg.GOARCH != "" {""", """	if lcfg.GOOS != "" {""")],
  """
printf 'package m\\n' > a.go
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > a_arm64.go
printf 'package m\\n\\nimport "os"\\n\\nfunc B() { os.Getenv("A") }\\n' > b_amd64.go
CGO_ENABLED=0 cap -packages=. -goarch=arm64 -output=json > o.json || exit 3
pairs < o.json > p
has "READ_SYSTEM_STATE example.com/m.A" < p
""")

seed("s22-errors-in-dependencies", "C20",
  "a type error in a package the requested package imports",
  "errors in dependencies are not noticed and the analysis goes on with incomplete packages",
  [(CL, """	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, err := range p.Errors {
			add(err)
		}
	})""", """	for _, p := range pkgs {
		for _, err := range p.Errors {
			add(err)
		}
	}""")],
  """
mkdir dep
printf 'package m\\n\\nimport "example.com/m/dep"\\n\\nfunc A() { dep.B() }\\n' > a.go
printf 'package dep\\n\\nfunc B() { var x int = "a" }\\n' > dep/a.go
cap -packages=. -output=json > o.json 2> e
[ $? = 2 ]
""")

seed("s23-nested-subdirectory", "C21",
  "capslock-git-diff run two directories below the top of the repository",
  "the package is analysed in the wrong directory of the clone when run from a nested directory",
  [(GD, """	path := filepath.Join(tmpdir, prefix)""", """	path := filepath.Join(tmpdir, filepath.Base("/"+prefix))""")],
  """
export HOME=$d GIT_CONFIG_NOSYSTEM=1 PATH=$d/bin:$PATH TMPDIR=$d
git init -q . && git config user.name a && git config user.email a@example.com || exit 3
mkdir -p x/y y
printf 'package y\\n\\nfunc A() {}\\n' | tee x/y/a.go > y/a.go
git add . && git commit -qm one || exit 3
printf 'package y\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > x/y/a.go
git add . && git commit -qm two || exit 3
cd x/y && capslock-git-diff HEAD~1 HEAD . > ../../o 2>&1
[ $? = 1 ]
""")

seed("s24-label-without-path", "C22",
  "paths omitted and a dependency three calls or more away",
  "with paths omitted only the first three functions are considered for the direct or transitive label",
  [(AN, """				incomingEdge, v = nodes[v].edge, nodes[v].next()
			}
			c.CapabilityType = &ctype""", """				if config.OmitPaths && i > 1 {
					break
				}
				incomingEdge, v = nodes[v].edge, nodes[v].next()
			}
			c.CapabilityType = &ctype""")],
  """
mkdir dep
printf 'package m\\n\\nimport "example.com/m/dep"\\n\\nfunc A() { B() }\\nfunc B() { C() }\\nfunc C() { dep.D() }\\n' > a.go
printf 'package dep\\n\\nfunc D() {}\\n' > dep/a.go
printf 'func example.com/m/dep.D CAPABILITY_FILES\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o1.json || exit 3
cap -packages=. -capability_map=c.cm -disable_builtin -omit_paths -output=json > o2.json || exit 3
a=$(grep -c TYPE_TRANSITIVE o1.json); b=$(grep -c TYPE_TRANSITIVE o2.json)
[ "$a" = 3 ] || exit 3
[ "$a" = "$b" ]
""")

seed("s25-label-reset", "C23",
  "a path that leaves the package and comes back to it",
  "a path that returns to the queried package is labelled direct although it passed through another package",
  [(AN, """				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				}""", """				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
				} else if n == pName {
					ctype = cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
				}""")],
  """
mkdir dep
printf 'package m\\n\\nimport "example.com/m/dep"\\n\\nfunc A() { dep.Call(D) }\\nfunc D() {}\\n' > a.go
printf 'package dep\\n\\nfunc Call(f func()) { f() }\\n' > dep/a.go
printf 'func example.com/m.D CAPABILITY_FILES\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m.A" < p || exit 3
grep -q TYPE_TRANSITIVE o.json
""")

seed("s26-dotless-packages", "C24",
  "a module whose name has no dot",
  "packages with an import path without a dot are taken for the standard library and left out of the package list",
  [(LO, """		if _, ok := std[pkg.PkgPath]; ok {""", """		if _, ok := std[pkg.PkgPath]; ok || isStdLib(pkg.PkgPath) {""")],
  """
printf 'module m\\n\\ngo 1.23\\n' > go.mod
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > a.go
cap -packages=. -output=json > o.json || exit 3
python3 -c '
import json,sys
sys.exit("m" not in [p["path"] for p in json.load(open("o.json")).get("packageInfo",[])])'
""")

seed("s27-temporary-module-left", "C25",
  "packages outside the current module that cannot be fetched",
  "the temporary module is left behind when fetching a package fails",
  [(CL, """		if err := run("go", "get", p); err != nil {
			return remove, """, """		if err := run("go", "get", p); err != nil {
			return nil, """)],
  """
printf 'package m\\n\\nfunc A() {}\\n' > a.go
mkdir "$d/tmp"
TMPDIR=$d/tmp cap -packages=example.org/nowhere/to/be/found -output=json > o.json 2> e
[ $? = 2 ] || exit 3
[ -z "$(find "$d/tmp" -name go.mod)" ]
""")

seed("s28-method-value-of-error", "C26",
  "a method value of the predeclared type error on the way to a capability, at intermediate granularity",
  "the analysis crashes on functions that belong to no package, such as the one made for the method value of an error",
  [(AN, """		if pkg == nil {
			// This node represents some kind of wrapper function that we don't need
			// to consider.
			return
		}
		pc :=""", """		pc :=""")],
  """
cat > a.go <<'X'
package m

import "os"

type E struct{}

func (E) Error() string { return os.Getenv("X") }

func A() string {
	var err error = E{}
	f := err.Error
	return f()
}
X
cap -packages=. -granularity=intermediate -output=json > o.json
""")

seed("s29-removed-use-forgotten", "C27",
  "a revision that removes the only use of a capability in one package and adds one in another",
  "a capability whose earlier uses are all gone is announced as new to the program",
  [(GD, """		if inBaseline {
			hasAnyOldUse""", """		if inBaseline && inCurrent {
			hasAnyOldUse""")],
  """
export HOME=$d GIT_CONFIG_NOSYSTEM=1 PATH=$d/bin:$PATH TMPDIR=$d
git init -q . && git config user.name a && git config user.email a@example.com || exit 3
mkdir x y
printf 'package x\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > x/a.go
printf 'package y\\n\\nfunc A() {}\\n' > y/a.go
git add . && git commit -qm one || exit 3
printf 'package y\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > y/a.go
printf 'package x\\n\\nfunc A() {}\\n' > x/a.go
git add . && git commit -qm two || exit 3
capslock-git-diff -granularity=package HEAD~1 HEAD > "$d/o" 2> "$d/e"
[ $? = 1 ] || exit 3
grep -q "1 new use of existing capability" "$d/o"
""")

seed("s30-ignored-in-literals", "C08",
  "a user capability map that ignores a call made by a function literal",
  "calls the user says to ignore are followed when a function literal makes them",
  [(IN, """	return !ok
}""", """	return !ok || edge.Caller.Func.Parent() != nil
}""")],
  """
printf 'package m\\n\\nfunc A() { func() { B() }() }\\nfunc B() {}\\n' > a.go
printf 'func example.com/m.B CAPABILITY_FILES\\nignore_edge example.com/m.A$1 example.com/m.B\\n' > c.cm
cap -packages=. -capability_map=c.cm -disable_builtin -output=json > o.json || exit 3
pairs < o.json > p
has "FILES example.com/m.B" < p || exit 3
! has "FILES example.com/m.A" < p 2> e
""")

seed("s31-revisions-listed-anyhow", "C17",
  "a revision that gives several functions or packages the same capability",
  "the functions a revision comparison lists, and the example paths shown for them, come in a different order each time",
  [(GD, """		if a, b := keys[i].capability, keys[j].capability; a != b {
			return a < b
		}
		return keys[i].key < keys[j].key""", """		return keys[i].capability < keys[j].capability""")],
  """
export HOME=$d GIT_CONFIG_NOSYSTEM=1 PATH=$d/bin:$PATH TMPDIR=$d
git init -q . && git config user.name a && git config user.email a@example.com || exit 3
printf 'package m\\n' > a.go
git add . && git commit -qm one || exit 3
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\nfunc B() { os.Getenv("A") }\\nfunc C() { os.Getenv("A") }\\nfunc D() { os.Getenv("A") }\\nfunc E() { os.Getenv("A") }\\nfunc F() { os.Getenv("A") }\\n' > a.go
git add . && git commit -qm two || exit 3
for i in 1 2 3 4 5 6 7 8; do
	capslock-git-diff -granularity=function HEAD~1 HEAD > "$d/o.$i" 2> "$d/e"
	[ $? = 1 ] || exit 3
	cmp "$d/o.1" "$d/o.$i" || exit 1
done
""")

seed("s32-baseline-without-functions", "C16",
  "a baseline whose entries name no function, such as one saved per package with paths omitted, compared per function",
  "the comparison crashes on entries of the baseline that have no call path",
  [(CO, """			if len(ci.Path) == 0 {
				break
			}
			mk.key""", """			mk.key""")],
  """
printf 'package m\\n\\nimport "os"\\n\\nfunc A() { os.Getenv("A") }\\n' > a.go
cap -packages=. -granularity=package -omit_paths -output=json > o.json || exit 3
cap -packages=. -granularity=function -output=compare o.json > o 2> e
[ $? = 1 ] || exit 1
grep -q "example.com/m.A has new capability" o
""")
