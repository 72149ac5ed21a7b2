#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AN="analyzer/analyzer.go"; UT="analyzer/util.go"; RW="analyzer/rewrite.go"; GR="analyzer/graph.go"; SC="analyzer/scan.go"
LD="analyzer/load.go"; CP="analyzer/compare.go"; IN="interesting/interesting.go"; CM="interesting/interesting.cm"
CLI="cmd/capslock/capslock.go"; GD="cmd/capslock-git-diff/main.go"

p("C01","Every capability a queried function can reach is reported",
  "For every function of a queried package and every capability, the report has an entry for that pair whenever some chain of calls leads from the function to a function that has the capability. Only a link through a function classified as safe, through a function that already has a classification of its own, or through a call the classification says to ignore cuts a chain. Nothing else about the program (its size, recursion, declaration order, number of packages or how many other paths or capabilities exist) may make an entry disappear.",
  ["programs","configurations"],
  "every call graph up to 4 functions with every assignment of none/safe/capability classes and every subset of ignored calls, spread over every small package layout and queried subset, plus parametric families of long chains and wide fan-in/out",
  "The analysis tests check a dozen fixed packages, each with one or two acyclic paths; no test has a cycle, a diamond, two capabilities competing for the same function, a safe node between two paths, or a partially queried multi-package program.",
  [AN], [("per-capability backward search","analyzer/analyzer.go:forEachPath"),("explicit category stops the search","analyzer/analyzer.go:mergeCapabilities"),("classification of nodes","analyzer/analyzer.go:getNodeCapabilities")],
  ["JSON report (capability, first function of path)","library call returning the capability list"],
  [("visited","functions already given a path for this capability","analyzer/analyzer.go:forEachPath")])

p("C02","Every reported pair is backed by a genuine call path",
  "Each reported entry names a function of a queried package and carries a call path in which every step is a call that really occurs in the caller's source at the reported file, line and column, and which ends in a function having exactly the reported capability. No function before the end of the path is classified safe or has a classification of its own, and no ignored call is used. There is exactly one entry per function and capability, the space-separated path string lists the same functions, and the entries are ordered by capability and then by function.",
  ["programs","configurations"],
  "the same exhaustively enumerated call graphs and package layouts as C01, all call sites laid out so that each has a distinct position",
  "Existing tests compare a few paths by regular expression on function names only; call positions, duplicates and order are not checked over varying graphs.",
  [AN,UT], [("path reconstruction from search state","analyzer/analyzer.go:GetCapabilityInfo"),("call site rendering","analyzer/util.go:addFunction"),("ordering","analyzer/util.go:funcCompare")],
  ["JSON report path, depPath, site"])

p("C03","Every way Go code can invoke a function is followed",
  "If running a function of a queried package executes an operation that has a capability, the function is reported with that capability, whatever mix of language features transferred control: direct, deferred or concurrent calls, interface methods, embedded and promoted methods, method values and expressions, closures, function values held in variables, fields, maps, slices or channels or passed through parameters and results, generics, range-over-func, package initialisation. Unused lookalikes, other than methods of instantiated generic types, that are never invoked and whose values never flow to the call do not add a capability to it.",
  ["programs"],
  "all compositions of up to two (quick) or three (thorough) call mechanisms from a grammar of Go call forms, including cross-package variants",
  "testpkgs exercise about a dozen indirect-call forms one at a time; composition of forms is unbounded and untested.",
  [AN,UT], [("SSA with instantiated generics + type-flow call graph","analyzer/util.go:buildGraph"),("attribution of functions to packages","analyzer/analyzer.go:forEachPath")],
  ["JSON report","execution of the generated program with instrumented leaf operations"])

p("C04","Sorting and once-only calls never hide or invent capabilities",
  "A function which sorts through the standard sort package or runs code once through the standard once type is reported with every capability of the comparison, swap, length or once callback it passes, and of every expression evaluated to make the call, or is reported as not analysable; no spelling or position of the call makes the capability vanish. When the call is a plain statement on side-effect-free operands, the capabilities attributed to the function are exactly those of its own callback, not those of callbacks passed by unrelated code. Looking-alike calls (other packages, shadowed names, user types with the same method names) are analysed as ordinary calls.",
  ["programs"],
  "every combination of sort/once entry point x statement position x argument expression form x receiver form x import style x callback form",
  "The rewrites test package covers about ten hand-picked call shapes; the space of syntactic positions x argument shapes is a product the tests do not enumerate.",
  [RW,UT], [("statement rewriting","analyzer/rewrite.go:rewriteCallsToSort, rewriteCallsToOnceDoEtc"),("side-effect test","analyzer/util.go:mayHaveSideEffects"),("call matching","analyzer/util.go:packageFunctionMatcher, methodMatcher")],
  ["JSON report"])

p("C05","Every conversion out of an unsafe pointer is reported",
  "Every function whose source contains a conversion from an unsafe pointer (or a type whose underlying type is one) to anything other than an unsigned pointer-sized integer is reported with the unsafe-pointer capability, as are its callers; this includes conversions in closures, methods, generic code, package variable initialisers, dead branches and nested expressions, which are attributed to the innermost enclosing function or the package's initialisation. A function that only creates unsafe pointers, converts them to integers, or calls ordinary functions with them is not reported for it. A function with its own classification is reported under that classification instead.",
  ["programs","configurations"],
  "all combinations of source type form x target type form x expression context x enclosing function kind",
  "One test package has a handful of conversions; alias/defined/parameterised types and nested contexts are not covered.",
  [UT,AN], [("syntax visitor","analyzer/util.go:visitor.Visit"),("attribution to functions and initialisers","analyzer/analyzer.go:findUnsafePointerConversions"),("extra capabilities","analyzer/analyzer.go:getExtraNodesByCapability")],
  ["JSON report"])

p("C06","Copies of reflection values to shared memory are reported",
  "Every function that stores a reflection value, or a struct or array containing one at any depth, to a variable, pointed-to location, struct field or array or slice element that is not part of a variable local to that function is reported with the reflection capability, as are its callers. Stores to local variables whose address is not taken, including elements and fields of local arrays and structs, and stores of pointers, slices, maps or interfaces to reflection values, are not reported.",
  ["programs"],
  "all combinations of stored type shape (nesting depth up to 3 of structs, arrays, aliases, defined types, type parameters) x destination form x store form",
  "One test package covers a few stores; nested containers, aliases and escaping locals are a product that is not enumerated.",
  [AN,UT], [("store scan with local tracking","analyzer/analyzer.go:getExtraNodesByCapability"),("containment test","analyzer/util.go:containsReflectValue")],
  ["JSON report"])

p("C07","Code that cannot be read is never treated as harmless",
  "A call to a function without Go source (assembly or linkname) gives its callers the arbitrary-execution capability unless the function is classified, and a call into C code gives the cgo capability, in every package layout and through every call form. The former disappears only when the function without source is explicitly classified otherwise or when built-in analysis is disabled; the latter never does while the built-in map is in use.",
  ["programs","configurations"],
  "every layout of body-less functions, methods, linkname declarations and cgo calls x classification of the function x call form x builtin toggles",
  "useasm, uselinkname and usecgo each have one call; interaction with classification, multiple packages and toggles is not tested.",
  [AN,IN], [("body-less function scan","analyzer/analyzer.go:getExtraNodesByCapability"),("cgo suffix list","interesting/interesting.go:FunctionCategory")],
  ["JSON report"])

p("C08","User capability maps override the built-in map entry for entry",
  "With a user capability map, an entry for a function decides that function's capability whatever the built-in map and package entries say; an entry for a package decides every function of it that has no function entry; ignored calls listed by the user are ignored; everything the user does not mention keeps its built-in meaning, and names generated for calls into C always keep the cgo capability. With built-ins disabled, only the user's entries have any effect. The outcome does not depend on the order of entries and loading a map never changes the meaning of a previously loaded one.",
  ["inputs","configurations"],
  "every choice of user entry kind and value x every built-in situation of the name x package entry x built-ins on/off, all orders of entries",
  "Two tests check a single user map each; the precedence table over all entry kinds is not enumerated and ignored calls from user maps are never exercised.",
  [IN], [("merge","interesting/interesting.go:LoadClassifier"),("lookup precedence","interesting/interesting.go:FunctionCategory"),("ignored calls","interesting/interesting.go:IncludeCall")],
  ["classification of a function name","JSON report of a program using the map"])

p("C09","Capability map files are understood completely or rejected",
  "Reading a capability map either yields exactly the meaning of all its lines or fails with an error naming the offending line; it never silently drops, truncates or misreads part of the file. Comments ('#' to the end of the line), blank lines, any white space between fields and any text after the last field an entry needs are insignificant. The result is independent of how the bytes arrive, and an error while reading the file is an error of the load.",
  ["inputs","fault_sequences"],
  "every file of up to 3 lines over a token alphabet covering each keyword, arity, value, comment and white-space form; every split of the byte stream into reads and a read error at every byte; very long lines",
  "Tests parse one well-formed file; malformed lines, duplicate keys, chunked readers and read errors are never exercised.",
  [IN], [("line parser","interesting/interesting.go:parseCapabilityMap")],
  ["LoadClassifier result and error","CLI exit status with -capability_map"])

p("C10","Privileged standard-library operations carry their documented capability",
  "Every exported standard-library operation listed in the capability documentation's terms (file access, network, process execution, environment and system state, runtime settings, system calls, reflection, unsafe, plugins) is attributed the documented capability when called from user code. No exported standard-library function whose own code statically reaches a system call is reported as having no capability, beyond a fixed list of reviewed exceptions. Operations of packages that only compute (strings, mathematics, hashing, text encoding, containers, time) and reach no system call are reported with no capability other than not analysable.",
  ["inputs"],
  "every exported function and method of the standard library packages shipped with the toolchain",
  "Tests check roughly ten functions of the map; the standard library has thousands of exported functions and the map hundreds of entries.",
  [CM,IN], [("built-in map","interesting/interesting.cm")],
  ["classification of each standard-library function","JSON report of a program calling it"])

p("C11","Suppressing not-analysable results removes exactly those results",
  "When results about code that cannot be analysed are suppressed, no entry has that capability, and every other (function, capability) pair is reported that would be reported if the functions so marked had no marking: they are searched through as ordinary functions. The classifier passed in is left unchanged. When not suppressed, every function that reaches a so-marked function is reported with it.",
  ["programs","configurations"],
  "every call graph of up to 3 functions with every assignment of {none, safe, capability, marked by any kind of entry}, with and without suppression",
  "No test runs with the suppression flag.",
  [IN,AN,CLI], [("suppression","interesting/interesting.go:ClassifierExcludingUnanalyzed"),("flag handling","cmd/capslock/capslock.go:run")],
  ["JSON report with and without the flag"])

p("C12","Granularities are consistent views of the same analysis",
  "The package view has exactly one entry for each package and capability for which the function view has an entry, the intermediate view has exactly one entry for each capability and package that lies on some call path from a queried function to that capability, and every entry's path is a genuine call path that contains the package it is reported for. Every package in the package view is in the intermediate view for that capability, and the default view is the function view.",
  ["programs","configurations"],
  "every assignment of up to 4 functions to up to 4 packages in every import-acyclic call graph, every queried subset, all granularities and capability filters",
  "One test per granularity on fixed packages; the relation between granularities is never checked.",
  [AN], [("package de-duplication","analyzer/analyzer.go:GetCapabilityInfo"),("intermediate packages","analyzer/analyzer.go:intermediatePackages")],
  ["JSON report at each granularity"])

p("C13","All output modes tell the same story",
  "For any program, the machine output lists exactly the capabilities of the JSON report, the counts in the default, counting and verbose outputs equal the number of JSON entries per capability, the verbose direct and transitive counts equal the number of entries so labelled and sum to the total, and each verbose example path is a genuine path for that capability. A program without capabilities is said to have none, in every mode, and each mode's short and long names mean the same.",
  ["programs","configurations"],
  "all enumerated small programs x all output modes and their abbreviations",
  "Expected-output tests compare a few regular expressions per mode on fixed packages; agreement between modes is not checked.",
  [SC,AN,"analyzer/static/verbose.tmpl","analyzer/static/default.tmpl"], [("mode dispatch","analyzer/scan.go:RunCapslock"),("statistics","analyzer/analyzer.go:GetCapabilityStats, GetCapabilityCounts"),("templates","analyzer/static/")],
  ["standard output of each mode"])

p("C14","Capability filters select exactly the named capabilities",
  "A capability list given as names (with or without the common prefix) selects exactly those capabilities, the same list with every name negated selects exactly the complement, an empty list selects all; anything else (unknown or empty name, mixture of negated and plain names) is rejected with an error rather than guessed at. Wherever a filter applies, the output equals the unfiltered output restricted to the selected capabilities.",
  ["inputs","programs"],
  "every list of up to 3 items over all capability names and malformed tokens, every subset of capabilities as a filter, over enumerated programs",
  "One table test has about fifteen strings and checks no filtered output.",
  [GR,AN], [("parsing","analyzer/graph.go:NewCapabilitySet"),("membership","analyzer/graph.go:Has"),("filter in graph and intermediate views","analyzer/graph.go:graphOutput, analyzer/analyzer.go:intermediatePackages")],
  ["parsed set membership","graph and intermediate output"])

p("C15","Graph output is exactly the union of all paths to capabilities",
  "The graph output is well-formed and contains an edge between two functions exactly when that call lies on some admissible path from a queried function to a capability, and an edge from a function to a capability exactly when that reachable function has it. With a capability filter it is the union of the graphs for the selected capabilities. Each function named has its usual full name, quoted so the output can be parsed back.",
  ["programs","configurations"],
  "every enumerated call graph with classes, ignored calls, layouts and queried subsets, with and without filters",
  "Two tests look for listed lines in the graph of fixed packages; absence of extra or missing edges is not decided.",
  [AN,GR], [("forward search restricted to nodes reaching a capability","analyzer/analyzer.go:searchForwardsFromQueriedFunctions"),("backward search","analyzer/analyzer.go:searchBackwardsFromCapabilities"),("DOT writer","analyzer/graph.go:graphBuilder")],
  ["standard output of graph mode","graph callbacks"])

p("C16","A comparison reports a difference exactly when there is one",
  "Comparing a program with a saved JSON report reports a difference if and only if the set of (package or function, capability) pairs at the chosen granularity differs, and prints one message for each pair that was added and each that was removed, naming it correctly. A program compared with its own report, saved with any path setting at the same granularity, shows no difference; a missing or malformed baseline is an error, never a verdict.",
  ["programs","histories","configurations"],
  "all ordered pairs of programs from an enumerated family (baseline, current) x granularities x path omission, plus every malformed baseline variant",
  "One test compares a fixed package with one baseline at two granularities.",
  [CP,SC], [("keying by granularity","analyzer/compare.go:populateMap"),("difference","analyzer/compare.go:diffCapabilityInfoLists")],
  ["standard output and verdict of compare mode"])

p("C17","Output is deterministic",
  "Analysing the same program, or comparing the same two revisions, with the same settings produces the same output every time, in every output mode and granularity, whatever order the runtime iterates over hash tables and whatever order the packages are named or loaded in. Only the order of lines in graph output may vary.",
  ["programs","configurations","schedules"],
  "every choice of iteration starting point at each map iteration the analysis performs, up to a bounded number of deviations from the default, over a set of small programs built to contain ties; all permutations of package order",
  "A test run sees one random iteration order; none compares two runs.",
  [AN,UT,LD], [("sorting before each traversal","analyzer/analyzer.go:forEachPath, searchBackwardsFromCapabilities"),("orderings","analyzer/util.go:byCaller, byCallee, byFunction")],
  ["output of all modes"])

p("C18","Results do not depend on earlier or concurrent analyses",
  "The result of an analysis depends only on its packages and settings: running any sequence of analyses, map loads and output modes before it in the same process, on the same or other packages and with the same settings objects, or interleaving an analysis of separately loaded packages with it, does not change it. Settings, classifiers and queried sets passed in are not altered.",
  ["histories","schedules"],
  "all sequences of up to 3 (quick) or 4 (thorough) operations over shared and separate packages, classifiers and settings; all interleavings of two analyses at classifier-callback granularity with at most two preemptions",
  "Each test performs one analysis on freshly loaded packages.",
  [AN,RW,CP,IN], [("settings defaults","analyzer/analyzer.go:GetCapabilityInfo, analyzer/compare.go:compare"),("syntax-tree rewriting in place","analyzer/rewrite.go"),("shared built-in map","interesting/interesting.go:internalMap")],
  ["JSON report of the last operation"])

p("C19","The files analysed are those the go command would build",
  "For every combination of build tags, operating system and architecture requested, the report contains exactly the capabilities of the source files that the go command would compile for that combination, and names the excluded files. Settings not requested come from the environment, and a request never leaks into a later one.",
  ["configurations","programs"],
  "every combination of tags x operating system x architecture over a package containing files constrained by each way Go offers (comments, names, both, negations)",
  "One test package is analysed with one build tag.",
  [LD,CLI], [("load configuration","analyzer/load.go:LoadPackages"),("ignored files","analyzer/load.go:collectPackageInfo"),("flags","cmd/capslock/capslock.go:run")],
  ["JSON report of the CLI"])

p("C20","The command's exit status and output can be trusted by scripts",
  "The command exits 0 only when the analysis or comparison completed with nothing to report as a difference, 1 only when a comparison found a difference, and 2 for every error: bad flag values, unreadable or invalid maps or baselines, packages that do not exist, do not parse or do not type-check, anywhere in the dependencies, or superfluous arguments. On an error found before or during the analysis it prints no analysis result on standard output. Every combination of valid flags is accepted.",
  ["configurations","fault_sequences","inputs"],
  "every single fault and every pair of faults from a catalogue, in each output mode, and every combination of valid flags over small modules",
  "Tests run the command on well-formed input only and look at its output.",
  [CLI,SC], [("error to exit status mapping","cmd/capslock/capslock.go:main"),("package error detection","cmd/capslock/capslock.go:printErrors")],
  ["exit status, standard output, standard error"])

p("C21","Revision comparison reports exactly what the newer revision adds",
  "Comparing two revisions lists exactly the (package or function, capability) pairs present in the second and absent in the first, exits 1 if there are any, 0 if there are none and 2 on any error. The code analysed for a revision is exactly the tree the user's repository has for that name (branch, tag, remote branch, commit, relative name, or '.' for the working directory), in the same subdirectory. The user's repository, working tree, index and current branch are not changed, and temporary files are removed.",
  ["histories","configurations","fault_sequences"],
  "all pairs of capability sets over a small universe at each granularity; every kind of revision name x repository state (linear, branched, remote-tracking, dirty tree, subdirectory, linked worktree); a failure injected at each external command",
  "The command has no tests.",
  [GD], [("temporary clone and checkout","cmd/capslock-git-diff/main.go:AnalyzeAtRevision"),("difference","cmd/capslock-git-diff/main.go:diffCapabilityInfoLists")],
  ["exit status and output of the command; state of the repository and temporary directory"])

p("C22","Omitting paths changes nothing but the paths",
  "With call paths omitted, every output mode reports the same (function or package, capability, direct or transitive) entries in the same order and the same counts as with paths included. No call path beyond the function the entry is about is printed, and that function is still named wherever the granularity is per function.",
  ["programs","configurations"],
  "all enumerated small programs x granularities x output modes x path omission on/off",
  "One test compares two fixed outputs at one granularity.",
  [AN,SC], [("omission","analyzer/analyzer.go:GetCapabilityInfo, GetCapabilityStats, intermediatePackages")],
  ["JSON and verbose output"])

p("C23","Direct and transitive labels reflect whose code the path runs through",
  "An entry is labelled transitive exactly when its call path passes through a package that is neither the function's own package nor part of the standard library (recognised by an import path without a dot), and direct otherwise. The label in the JSON report and the totals in the verbose output follow the same rule for every path, including paths that leave and re-enter the queried package or pass through generic, promoted or wrapped methods of other packages.",
  ["programs"],
  "every sequence of up to 4 packages from {own, sibling in the same module, other module, standard library with and without a slash} along a path, by each call form",
  "A single test checks one direct and one transitive entry.",
  [AN,UT], [("label","analyzer/analyzer.go:GetCapabilityInfo, GetCapabilityStats"),("package attribution","analyzer/util.go:packagePath, isStdLib")],
  ["capabilityType in the JSON report; verbose counts"])

p("C24","The report lists exactly the modules and packages analysed",
  "In a per-function or per-package report, the module list has one entry, with the right version, for each versioned module contributing a package to the queried packages or their transitive dependencies, and the package list has one entry for each such package outside the standard library with the files excluded from it by build constraints; both are sorted and free of duplicates.",
  ["programs","configurations"],
  "every import graph of up to 4 packages over up to 3 modules (versioned or not), with every queried subset and subset of ignored files",
  "One test checks the ignored files of one package.",
  [LD], [("module list","analyzer/load.go:collectModuleInfo"),("package list","analyzer/load.go:collectPackageInfo"),("visit each package once","analyzer/util.go:forEachPackageIncludingDependencies")],
  ["moduleInfo and packageInfo in the JSON report"])

p("C25","Packages outside the current module are analysed without side effects",
  "When the requested packages cannot be found from the current directory, they are fetched into and analysed in a throw-away module and give the same report as an ordinary analysis of that version; relative paths given for maps, baselines and profiles still refer to the original directory. Whatever step fails, the temporary module is removed, the user's module files are unchanged and the exit status is 2. With the fallback disabled, an error is returned and nothing is fetched.",
  ["configurations","fault_sequences"],
  "every kind of request (in module, dependency, outside, wildcard, missing) x fallback on/off x failure at each step, with a local module proxy",
  "No test exercises the fallback; it needs a module outside the workspace.",
  [CLI], [("fallback","cmd/capslock/capslock.go:run"),("temporary module","cmd/capslock/capslock.go:makeTemporaryModule")],
  ["exit status, JSON report, temporary directory, user's module files"])

p("C26","Every program that builds is analysed to completion",
  "Any program the go command can build, whatever language features, package shapes or module layout it uses, is analysed to completion in every output mode and at every granularity: no crash, hang or malformed output. Each of its functions that calls a capability is reported, so no unusual construct makes a function, file or package disappear from the report.",
  ["programs","configurations"],
  "134 language features alone and in ordered pairs, 20 package shapes alone and in pairs, about 44 module layouts on disk, x output modes and granularities",
  "The tests analyse a handful of conventional packages; a crash needs one particular construct, often in combination with another.",
  [AN,LD,RW], [("package loading","analyzer/load.go:LoadPackages"),("syntax rewriting","analyzer/rewrite.go"),("call graph","analyzer/analyzer.go:buildGraph"),("extra nodes","analyzer/analyzer.go:getExtraNodesByCapability")],
  ["return of the library entry points; JSON report and exit status of the command"])

p("C27","A revision comparison's summary and examples agree with its list",
  "The summary of a revision comparison gives the number of capabilities the program did not have before and the number of new uses of those it had, and names exactly these capabilities with their descriptions. Every package or function it lists is shown with a call path of the newer revision that contains it and leads to the capability, and one path shared by several is shown for all of them. The commits listed are exactly those that lead to the second revision and not to the first, any left out being counted; logging changes none of this.",
  ["inputs","histories"],
  "every pair of reports over 3 packages with every shape of shared path, every capability alone and in pairs with counts of kept, removed and new uses, names needing care, histories around every size limit",
  "No test runs the command; a wrong count or path needs a particular combination of old and new entries.",
  [GD], [("summary","cmd/capslock-git-diff/main.go:summarizeNewCapabilities"),("examples","cmd/capslock-git-diff/main.go:cover"),("commits","cmd/capslock-git-diff/main.go:listCommits")],
  ["standard output and exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
