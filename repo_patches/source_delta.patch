From c48707f16f4d4e7a7394fa13688ebccaf7d5da9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:22 +0000
Subject: [PATCH 01/17] fix: honour ignore_edge entries of user capability maps

IncludeCall always consulted the builtin list of ignored edges.  An
ignore_edge line in a user capability map had no effect, and builtin
ignored edges stayed active when the builtin map was disabled.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..b7eb1c8 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,6 +183,9 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
+	// Use the edges of this classifier, not always the builtin ones.  The
+	// builtin edges have already been merged into it if they are wanted.
+	internalMap := c
 	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
-- 
2.43.0


From 990794fd76226dd5dc6aadf7dae9e99dead25d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:50 +0000
Subject: [PATCH 02/17] fix: report errors from reading a capability map

A read error, or a line longer than the scanner's buffer, ended the scan
silently and the rest of the file was dropped.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index b7eb1c8..016b890 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From 5ea0d1819bfa7290b93951b1f04b491bd24dea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:01 +0000
Subject: [PATCH 03/17] fix: let unanalyzed entries of a user map override
 builtin categories

An unanalyzed entry had no effect when the builtin map has a category for
the same function.
---
 interesting/interesting.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 016b890..bc5ed10 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -173,6 +173,10 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
 	}
 	cc(ret, internalMap)
+	// A function the user marks as unanalyzed loses its builtin category.
+	for name := range userClassifier.unanalyzedCategory {
+		delete(ret.functionCategory, name)
+	}
 	cc(ret, userClassifier)
 	sort.Strings(ret.cgoSuffixes)
 	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
-- 
2.43.0


From 9a04f15f98ed8a29a7496182fa8c0bfe2dc57e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:10 +0000
Subject: [PATCH 04/17] fix: exclude all unanalyzed classifications when asked
 to

ClassifierExcludingUnanalyzed only dropped the unanalyzed entries.  Function
and package entries can have the same capability and were kept.
---
 interesting/interesting.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index bc5ed10..e5ce969 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,12 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	// Function and package entries can also specify CAPABILITY_UNANALYZED.
+	isUnanalyzed := func(_ string, c cpb.Capability) bool { return c == cpb.Capability_CAPABILITY_UNANALYZED }
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From 8365f67a3670e645479ea102358bec68fdecc8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:14 +0000
Subject: [PATCH 05/17] fix: compare intermediate packages when paths are
 omitted

The packages to compare were only taken from the call paths, so with
-omit_paths no difference was ever found.
---
 analyzer/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..bfd9aa7 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,10 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The path may have been omitted.
+			if mk.key = ci.GetPackageDir(); mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From 02e9d943a0b2f91e725a7cc2dacc7e5ab9bf40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:28 +0000
Subject: [PATCH 06/17] fix: detect unsafe.Pointer conversions of type
 parameter values

---
 analyzer/util.go | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..6bd1bea 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -446,6 +446,38 @@ func containsReflectValue(t types.Type) bool {
 	return rec(t)
 }
 
+// permitsUnsafePointer returns true if t is a type parameter whose constraint
+// lists a type that is equivalent to unsafe.Pointer.
+func permitsUnsafePointer(t types.Type) bool {
+	seen := map[types.Type]struct{}{}
+	var rec func(t types.Type) bool
+	rec = func(t types.Type) bool {
+		if _, ok := seen[t]; ok {
+			return false
+		}
+		seen[t] = struct{}{}
+		switch u := t.Underlying().(type) {
+		case *types.Basic:
+			return u.Kind() == types.UnsafePointer
+		case *types.Interface:
+			for i := 0; i < u.NumEmbeddeds(); i++ {
+				if rec(u.EmbeddedType(i)) {
+					return true
+				}
+			}
+		case *types.Union:
+			for i := 0; i < u.Len(); i++ {
+				if rec(u.Term(i).Type()) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	tp, ok := types.Unalias(t).(*types.TypeParam)
+	return ok && rec(tp.Constraint())
+}
+
 func (v *visitor) Visit(node ast.Node) ast.Visitor {
 	if node == nil {
 		return v // the return value is ignored if node == nil.
@@ -485,6 +517,11 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The argument has no type information.
 			break
 		}
+		if permitsUnsafePointer(argType) {
+			// The argument's type is a type parameter which can be instantiated with
+			// unsafe.Pointer.
+			argType = types.Typ[types.UnsafePointer]
+		}
 		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
 			// The argument's type is not equivalent to unsafe.Pointer.
 			break
-- 
2.43.0


From 8c9da68eb408cce29e990cd0b48f1521ae5c1961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:28 +0000
Subject: [PATCH 07/17] fix: detect copies of types defined as reflect.Value

---
 analyzer/util.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 6bd1bea..9f48196 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -431,6 +431,10 @@ func containsReflectValue(t types.Type) bool {
 		}
 		// Check fields of structs.
 		if s, ok := t.(*types.Struct); ok {
+			if isReflectValueStruct(s) {
+				// The type was defined as reflect.Value, e.g. "type V reflect.Value".
+				return true
+			}
 			for i := 0; i < s.NumFields(); i++ {
 				if rec(s.Field(i).Type()) {
 					return true
@@ -446,6 +450,20 @@ func containsReflectValue(t types.Type) bool {
 	return rec(t)
 }
 
+// isReflectValueStruct returns true if s is the underlying type of
+// reflect.Value.
+func isReflectValueStruct(s *types.Struct) bool {
+	if s.NumFields() == 0 {
+		return false
+	}
+	pkg := s.Field(0).Pkg()
+	if pkg == nil || pkg.Path() != "reflect" {
+		return false
+	}
+	v := pkg.Scope().Lookup("Value")
+	return v != nil && types.Identical(v.Type().Underlying(), s)
+}
+
 // permitsUnsafePointer returns true if t is a type parameter whose constraint
 // lists a type that is equivalent to unsafe.Pointer.
 func permitsUnsafePointer(t types.Type) bool {
-- 
2.43.0


From c7695a92bf0dd9a39e842190eee077c632828c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:38 +0000
Subject: [PATCH 08/17] fix: detect copies of reflect.Value through defined
 pointer types

---
 analyzer/analyzer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..235621c 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -541,6 +541,10 @@ func getExtraNodesByCapability(graph *callgraph.Graph, allFunctions map[*ssa.Fun
 					// dest.Type should be a types.Pointer pointing to the type of the
 					// value that is copied by this instruction.
 					typ, ok := types.Unalias(dest.Type()).(*types.Pointer)
+					if !ok {
+						// It can also be a type defined as a pointer.
+						typ, ok = dest.Type().Underlying().(*types.Pointer)
+					}
 					if !ok {
 						continue
 					}
-- 
2.43.0


From f0615926b1dd5b0886f03176ee3004e171a2db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:53 +0000
Subject: [PATCH 09/17] fix: analyse arguments with side effects in calls to
 sort.Slice

---
 analyzer/util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 9f48196..5311b91 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -283,6 +283,14 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && mayHaveSideEffects(arg) {
+			// The call may be something like sort.Slice(foo(), less), which we can't
+			// rewrite to a call to less because then the analysis would not see the
+			// call to foo.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
-- 
2.43.0


From 62ce1bdfd61e2144f5c8ab65c7023772d1d38303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:37 +0000
Subject: [PATCH 10/17] fix: do not set the default granularity in the caller's
 Config

---
 analyzer/analyzer.go | 4 ++++
 analyzer/compare.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 235621c..bc29170 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -83,6 +83,10 @@ func GetClassifier(excludeUnanalyzed bool) *interesting.Classifier {
 //     combination of capability and package that is in a path from a function
 //     in pkgs to a function with a capability.
 func GetCapabilityInfo(pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) *cpb.CapabilityInfoList {
+	// Set the default granularity in a copy, so that the caller's Config is not
+	// modified.
+	c := *config
+	config = &c
 	if config.Granularity == GranularityUnset {
 		config.Granularity = GranularityFunction
 	}
diff --git a/analyzer/compare.go b/analyzer/compare.go
index bfd9aa7..3ae0d58 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -44,6 +44,10 @@ func GranularityFromString(g string) (Granularity, error) {
 }
 
 func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) (different bool, err error) {
+	// Set the default granularity in a copy, so that the caller's Config is not
+	// modified.
+	c := *config
+	config = &c
 	if config.Granularity == GranularityUnset {
 		config.Granularity = GranularityPackage
 	}
-- 
2.43.0


From 1d7a12e583e1f659acdbfa6a661926a73e01fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:15 +0000
Subject: [PATCH 11/17] fix: remove the temporary clones made by
 capslock-git-diff

---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From 78b475687c3dbf40495317ef62845ea9c806580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:16 +0000
Subject: [PATCH 12/17] fix: resolve revisions in the repository being
 compared, not in its clone

---
 cmd/capslock-git-diff/main.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..8cd6f4c 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -108,6 +108,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	prefix := strings.TrimSuffix(b.String(), "\n")
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
+	// Resolve the revision before cloning, because names such as "main~1" or
+	// "origin/main" would mean something else in the clone.
+	if err = run(&b, "git", "rev-parse", "--verify", rev); err != nil {
+		return nil, err
+	}
+	rev = strings.TrimSuffix(b.String(), "\n")
+	vlog("commit: %q", rev)
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
-- 
2.43.0


From 70be66d65149f51733cdab600d2bdad44e581408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:48 +0000
Subject: [PATCH 13/17] fix: ignore the caller's git environment in temporary
 clones

---
 cmd/capslock-git-diff/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 8cd6f4c..e781c29 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -116,6 +116,19 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	rev = strings.TrimSuffix(b.String(), "\n")
 	vlog("commit: %q", rev)
 	b.Reset()
+	// Variables such as GIT_DIR, which are set in hooks, refer to the user's
+	// repository.  Unset them while using the clone, so that the commands below
+	// do not change that repository instead.
+	if err = run(&b, "git", "rev-parse", "--local-env-vars"); err != nil {
+		return nil, err
+	}
+	for _, name := range strings.Fields(b.String()) {
+		if value, ok := os.LookupEnv(name); ok {
+			os.Unsetenv(name)
+			defer os.Setenv(name, value)
+		}
+	}
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
-- 
2.43.0


From dddb26c0b7687d7732251f5eefcae138e1b53619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:30 +0000
Subject: [PATCH 14/17] fix: escape backslashes in graph output

Function names contain quoted struct tags when a generic function is
instantiated with a struct type. A quotation mark in such a tag was
written after an unescaped backslash, and the graph could not be parsed.
---
 analyzer/graph.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..294c10c 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -109,6 +109,12 @@ type graphBuilder struct {
 }
 
 func newGraphBuilder(w io.Writer, nodeNamer func(any) string) graphBuilder {
+	// Double the backslashes in names, so that one before a quotation mark
+	// isn't read as the escape for it.
+	name := nodeNamer
+	nodeNamer = func(v any) string {
+		return strings.ReplaceAll(name(v), `\`, `\\`)
+	}
 	gb := graphBuilder{
 		Writer:    w,
 		nodeNamer: nodeNamer,
-- 
2.43.0


From d937f23130286f9d4034f038b91d65b8e2efdae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:04:45 +0000
Subject: [PATCH 15/17] fix: leave out standard library packages of other
 platforms from package lists

With -goos=windows, for example, internal/syscall/windows was listed as if it
were not part of the standard library, because the list of standard library
packages is loaded for the host platform only.  Recognise such packages by the
directory they are loaded from.
---
 analyzer/load.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..a5294f1 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -10,7 +10,9 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"path/filepath"
 	"sort"
+	"strings"
 	"sync"
 
 	cpb "github.com/google/capslock/proto"
@@ -21,6 +23,7 @@ import (
 var (
 	standardLibraryPackagesOnce sync.Once
 	standardLibraryPackagesMap  map[string]struct{}
+	standardLibraryDir          string // the directory containing the standard library
 )
 
 // LoadConfig specifies the build tags, GOOS value, and GOARCH value to use
@@ -85,6 +88,9 @@ func standardLibraryPackages() map[string]struct{} {
 		standardLibraryPackagesMap = make(map[string]struct{})
 		for _, p := range pkgs {
 			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
+			if p.PkgPath == "runtime" && len(p.GoFiles) > 0 {
+				standardLibraryDir = filepath.Dir(filepath.Dir(p.GoFiles[0]))
+			}
 		}
 	})
 	return standardLibraryPackagesMap
@@ -129,6 +135,9 @@ func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
+		if inStandardLibraryDir(pkg) {
+			return
+		}
 		pi := new(cpb.PackageInfo)
 		pi.Path = proto.String(pkg.PkgPath)
 		for _, i := range pkg.IgnoredFiles {
@@ -141,3 +150,13 @@ func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 	})
 	return out
 }
+
+// inStandardLibraryDir returns true if pkg was loaded from the standard
+// library.  Unlike standardLibraryPackages, this includes packages which only
+// exist for a platform other than the one Capslock is running on.
+func inStandardLibraryDir(pkg *packages.Package) bool {
+	if standardLibraryDir == "" || pkg.Module != nil || len(pkg.GoFiles) == 0 || strings.HasPrefix(pkg.PkgPath, "cmd/") {
+		return false
+	}
+	return filepath.Dir(pkg.GoFiles[0]) == filepath.Join(standardLibraryDir, filepath.FromSlash(pkg.PkgPath))
+}
-- 
2.43.0


From f5de73e245b49fa8ae048dc7d11be7c84a2bccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:37 +0000
Subject: [PATCH 16/17] fix: follow interface calls to methods of instantiated
 types

The call graph left out calls made through an interface value to methods of
instantiated generic types, so capabilities reached only that way were not
reported.  Add those calls after building the graph.
---
 analyzer/util.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 5311b91..e06b295 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -206,9 +206,73 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	graph := vta.CallGraph(allFunctions, nil)
+	addCallsToInstantiatedMethods(graph, ssaProg, allFunctions)
 	return graph, ssaProg, allFunctions
 }
 
+// addCallsToInstantiatedMethods adds to a call graph the calls made through
+// interface values to methods of instantiated types.  vta.CallGraph does not
+// find these, because the name of an instantiated method includes its type
+// arguments, and so differs from the name of the method called.
+func addCallsToInstantiatedMethods(graph *callgraph.Graph, ssaProg *ssa.Program, allFunctions map[*ssa.Function]bool) {
+	type method struct {
+		recv types.Type
+		fn   *ssa.Function
+	}
+	// Find the methods of types which are converted to an interface type.
+	methods := make(map[string][]method)
+	seen := make(map[*ssa.Function]bool)
+	for f := range allFunctions {
+		for _, b := range f.Blocks {
+			for _, instr := range b.Instrs {
+				m, ok := instr.(*ssa.MakeInterface)
+				if !ok {
+					continue
+				}
+				typ := types.Unalias(m.X.Type())
+				if p, ok := typ.(*types.Pointer); ok {
+					typ = types.Unalias(p.Elem())
+				}
+				if n, ok := typ.(*types.Named); !ok || n.TypeArgs().Len() == 0 {
+					continue
+				}
+				mset := ssaProg.MethodSets.MethodSet(m.X.Type())
+				for i := 0; i < mset.Len(); i++ {
+					fn := ssaProg.MethodValue(mset.At(i))
+					if fn == nil || fn.Origin() == nil || !allFunctions[fn] || seen[fn] {
+						continue
+					}
+					seen[fn] = true
+					name := mset.At(i).Obj().Name()
+					methods[name] = append(methods[name], method{m.X.Type(), fn})
+				}
+			}
+		}
+	}
+	if len(methods) == 0 {
+		return
+	}
+	for f := range allFunctions {
+		for _, b := range f.Blocks {
+			for _, instr := range b.Instrs {
+				call, ok := instr.(ssa.CallInstruction)
+				if !ok || !call.Common().IsInvoke() {
+					continue
+				}
+				iface, ok := call.Common().Value.Type().Underlying().(*types.Interface)
+				if !ok {
+					continue
+				}
+				for _, m := range methods[call.Common().Method.Name()] {
+					if types.Implements(m.recv, iface) {
+						callgraph.AddEdge(graph.CreateNode(f), call, graph.CreateNode(m.fn))
+					}
+				}
+			}
+		}
+	}
+}
+
 // functionsToRewrite lists the functions and methods like (*sync.Once).Do that
 // rewriteCallsToOnceDoEtc will rewrite to calls to their arguments.
 var functionsToRewrite = []matcher{
-- 
2.43.0


From b28f823cd08ea76f48318beaa981bd84a664a106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:16 +0000
Subject: [PATCH 17/17] fix: name instances of generic functions the same way
 in every run

When identical type arguments are written differently in several packages, for
example through an alias, the name of an instance depended on which package
was built first.  Build packages and create methods in a fixed order.
---
 analyzer/util.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index e06b295..059747b 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -10,8 +10,10 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"maps"
 	"os"
 	"path"
+	"slices"
 	"strings"
 
 	cpb "github.com/google/capslock/proto"
@@ -203,13 +205,67 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 		ssaBuilderMode |= ssa.GlobalDebug
 	}
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
+	// The name of an instance of a generic function can depend on which package
+	// is built first, so build the packages one by one in a fixed order.
+	ssaPkgs := ssaProg.AllPackages()
+	slices.SortFunc(ssaPkgs, func(a, b *ssa.Package) int {
+		return strings.Compare(a.Pkg.Path(), b.Pkg.Path())
+	})
+	for _, p := range ssaPkgs {
+		p.Build()
+	}
 	ssaProg.Build()
+	createMethods(ssaProg, ssaPkgs)
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	graph := vta.CallGraph(allFunctions, nil)
 	addCallsToInstantiatedMethods(graph, ssaProg, allFunctions)
 	return graph, ssaProg, allFunctions
 }
 
+// createMethods creates the methods of types which are converted to an
+// interface type.  ssautil.AllFunctions would otherwise create them in an
+// arbitrary order, on which the names of instances depend.
+func createMethods(ssaProg *ssa.Program, ssaPkgs []*ssa.Package) {
+	seen := make(map[*ssa.Function]bool)
+	var visit func(f *ssa.Function)
+	methods := func(typ types.Type) {
+		mset := ssaProg.MethodSets.MethodSet(typ)
+		for i := 0; i < mset.Len(); i++ {
+			visit(ssaProg.MethodValue(mset.At(i)))
+		}
+	}
+	visit = func(f *ssa.Function) {
+		if f == nil || seen[f] {
+			return
+		}
+		seen[f] = true
+		for _, b := range f.Blocks {
+			for _, instr := range b.Instrs {
+				if m, ok := instr.(*ssa.MakeInterface); ok {
+					methods(m.X.Type())
+				}
+				for _, op := range instr.Operands(nil) {
+					if fn, ok := (*op).(*ssa.Function); ok {
+						visit(fn)
+					}
+				}
+			}
+		}
+	}
+	for _, p := range ssaPkgs {
+		for _, name := range slices.Sorted(maps.Keys(p.Members)) {
+			switch m := p.Members[name].(type) {
+			case *ssa.Function:
+				visit(m)
+			case *ssa.Type:
+				if n, ok := m.Type().(*types.Named); ok && m.Object().Exported() && n.TypeParams() == nil {
+					methods(types.NewPointer(n))
+				}
+			}
+		}
+	}
+}
+
 // addCallsToInstantiatedMethods adds to a call graph the calls made through
 // interface values to methods of instantiated types.  vta.CallGraph does not
 // find these, because the name of an instantiated method includes its type
-- 
2.43.0

