package checks

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// C20: the command's exit status and output can be trusted by scripts.

const c20Mod = "module example.com/m\n\ngo 1.23\n"

// c20Files is the module analysed; the second package imports the first.
var c20Files = []string{
	"m/go.mod", c20Mod,
	"m/a.go", `package m

import (
	"unsafe"

	"example.com/m/sub"
)

func A()        { B(); sub.S() }
func B()        { C() }
func C()        {}
func D() *int   { return (*int)(unsafe.Pointer(nil)) }
func E()        { X(); D() }
func X()        {}
func Safe()     { C() }
func UseSafe()  { Safe() }
`,
	"m/tagged.go", "//go:build special\n\npackage m\n\nfunc Tagged() { C() }\n",
	"m/os_windows.go", "package m\n\nfunc Windows() { C() }\n",
	"m/arch_arm64.go", "package m\n\nfunc Arm() { C() }\n",
	"m/sub/s.go", "package sub\n\nimport \"example.com/m/dep\"\n\nfunc S() { N(); dep.Dep() }\nfunc N() {}\n",
	"m/dep/d.go", "package dep\n\nfunc Dep() {}\n",
	"m/lone/l.go", "package lone\n\nfunc L() {}\n",
	"m/c.cm", "func example.com/m.C CAPABILITY_FILES\nfunc example.com/m/sub.N CAPABILITY_NETWORK\nunanalyzed example.com/m.X\nfunc example.com/m.Safe CAPABILITY_SAFE\npackage example.com/m/dep CAPABILITY_EXEC\n",
}

var c20Modes = []string{"", "v", "m", "json", "graph", "compare"}

// c20Fault is one thing wrong with an invocation.
type c20Fault struct {
	name  string
	slots string            // what it sets; faults with common slots do not combine
	flags map[string]string // flags
	args  []string          // trailing arguments
	files []string          // files to write
	fix   func(b *box)      // other preparation
	modes string            // "" or a list of modes it applies to
	late  bool              // found after the result was printed
}

func c20Faults() []c20Fault {
	f := func(n, s, flag, val string) c20Fault {
		return c20Fault{name: n, slots: s, flags: map[string]string{flag: val}}
	}
	pk := func(n, pkgs string, files ...string) c20Fault {
		return c20Fault{name: n, slots: "pkgs", flags: map[string]string{"packages": pkgs}, files: files}
	}
	cm := func(n, content string) c20Fault {
		return c20Fault{name: "map: " + n, slots: "map", flags: map[string]string{"capability_map": "x.cm"}, files: []string{"m/x.cm", content}}
	}
	base := func(n, content string) c20Fault {
		return c20Fault{name: "baseline: " + n, slots: "base", modes: "compare", args: []string{"x.json"}, files: []string{"m/x.json", content}}
	}
	ok := "func example.com/m.C CAPABILITY_FILES\n"
	faults := []c20Fault{
		f("bad granularity", "gran", "granularity", "module"),
		f("granularity in capitals", "gran", "granularity", "Package"),
		f("unknown capability", "caps", "capabilities", "BOGUS"),
		f("unknown capability after a known one", "caps", "capabilities", "FILES,BOGUS"),
		f("mixed capability list", "caps", "capabilities", "FILES,-NETWORK"),
		f("mixed capability list, negative first", "caps", "capabilities", "-FILES,NETWORK"),
		f("unknown flag", "flag", "nonsense", "1"),
		f("bad number", "v", "v", "many"),
		f("bad boolean", "omit", "omit_paths", "maybe"),
		{name: "disable_builtin without map", slots: "map,disable", flags: map[string]string{"disable_builtin": "true", "capability_map": ""}},
		f("cpu profile in missing directory", "cpu", "cpuprofile", "nowhere/p"),
		f("cpu profile is a directory", "cpu", "cpuprofile", "sub"),
		{name: "memory profile in missing directory", slots: "mem", flags: map[string]string{"memprofile": "nowhere/p"}, late: true},
		f("map: missing", "map", "capability_map", "nowhere.cm"),
		f("map: directory", "map", "capability_map", "sub"),
		cm("unknown keyword", ok+"function example.com/m.B CAPABILITY_EXEC\n"),
		cm("unknown capability", ok+"func example.com/m.B CAPABILITY_BOGUS\n"),
		cm("unspecified capability", ok+"func example.com/m.B\n"),
		cm("bad first line", "nonsense\n"+ok),
		cm("bad last line without newline", ok+"nonsense"),
		cm("bad package line", ok+"package example.com/m BOGUS\n"),
		cm("overlong line", ok+"func example.com/m.B CAPABILITY_EXEC "+strings.Repeat("x", 70000)+"\n"),
		{name: "map: unreadable", slots: "map", flags: map[string]string{"capability_map": "x.cm"}, files: []string{"m/x.cm", ok}, fix: func(b *box) { os.Chmod(b.path("m/x.cm"), 0) }},
		{name: "superfluous argument", slots: "args", args: []string{"extra"}, modes: " v m json graph"},
		{name: "package as argument", slots: "args", args: []string{"./..."}, modes: " v m json graph"},
		{name: "two superfluous arguments", slots: "args", args: []string{"example.com/m", "example.com/m/sub"}, modes: " v m json graph"},
		{name: "three superfluous arguments", slots: "args", args: []string{"a", "b", "c"}, modes: " v m json graph"},
		{name: "empty argument", slots: "args", args: []string{""}, modes: " v m json graph"},
		{name: "baseline: three", slots: "base", args: []string{"same.json", "same.json", "same.json"}, modes: "compare"},
		{name: "baseline: none", slots: "base", args: []string{}, modes: "compare"},
		{name: "baseline: two", slots: "base", args: []string{"same.json", "same.json"}, modes: "compare"},
		{name: "baseline: missing", slots: "base", args: []string{"nowhere.json"}, modes: "compare"},
		{name: "baseline: directory", slots: "base", args: []string{"sub"}, modes: "compare"},
		{name: "baseline: unreadable", slots: "base", args: []string{"x.json"}, modes: "compare", files: []string{"m/x.json", "{}"}, fix: func(b *box) { os.Chmod(b.path("m/x.json"), 0) }},
		base("empty", ""),
		base("not JSON", "hello"),
		base("truncated", `{"capabilityInfo":[{"packageName":"m",`),
		base("wrong type", `{"capabilityInfo":"x"}`),
		base("unknown capability", `{"capabilityInfo":[{"packageName":"m","capability":"CAPABILITY_BOGUS","packageDir":"example.com/m"}]}`),
		base("trailing garbage", `{} x`),
		pk("missing directory", "./nowhere"),
		pk("missing directory beside a good one", ".,./nowhere"),
		pk("missing import path", "example.org/nowhere"),
		pk("wildcard matching nothing", "./nowhere/..."),
		pk("wildcard matching no dependency", "example.org/nowhere/..."),
		pk("bad pattern", "example.com/m@"),
		pk("syntax error", "./bad", "m/bad/b.go", "package bad\n\nfunc F( {\n"),
		pk("syntax error after valid code", "./bad", "m/bad/b.go", "package bad\n\nfunc F() {}\n\nfunc G() { 1 + }\n"),
		pk("type error", "./bad", "m/bad/b.go", "package bad\n\nfunc F() { var x int = \"s\"; _ = x }\n"),
		pk("undefined name", "./bad", "m/bad/b.go", "package bad\n\nfunc F() { G() }\n"),
		pk("unused import", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/sub\"\n\nfunc F() {}\n"),
		pk("missing import", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.org/nowhere\"\n\nfunc F() { nowhere.F() }\n"),
		pk("missing local import", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/nowhere\"\n\nfunc F() { nowhere.F() }\n"),
		pk("syntax error in a dependency", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nfunc F() {\n"),
		pk("type error in a dependency", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nfunc F() { var s string = 1; _ = s }\n"),
		pk("type error two imports away", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nimport \"example.com/m/worst\"\n\nfunc F() { worst.F() }\n", "m/worst/w.go", "package worst\n\nfunc F() { return 1 }\n"),
		pk("type error three imports away", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nimport \"example.com/m/worst\"\n\nfunc F() { worst.F() }\n", "m/worst/w.go", "package worst\n\nimport \"example.com/m/end\"\n\nfunc F() { end.F() }\n", "m/end/e.go", "package end\n\nfunc F() { x := 1 }\n"),
		pk("missing import in a dependency", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nimport \"example.org/nowhere\"\n\nfunc F() { nowhere.F() }\n"),
		pk("type error beside good packages", "./...", "m/bad/b.go", "package bad\n\nfunc F() { var x int = \"s\"; _ = x }\n"),
		pk("type error in the last of a list", ".,./sub,./bad", "m/bad/b.go", "package bad\n\nfunc F() { var x int = \"s\"; _ = x }\n"),
		pk("import cycle", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/worse\"\n\nfunc F() { worse.F() }\n", "m/worse/w.go", "package worse\n\nimport \"example.com/m/bad\"\n\nfunc F() { bad.F() }\n"),
		pk("two package names", "./bad", "m/bad/b.go", "package bad\n\nfunc F() {}\n", "m/bad/c.go", "package other\n\nfunc G() {}\n"),
		pk("no Go files", "./bad", "m/bad/readme", "hello\n"),
		pk("all files excluded", "./bad", "m/bad/b.go", "//go:build special2\n\npackage bad\n\nfunc F() {}\n"),
		pk("internal package of another tree", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/sub/internal/i\"\n\nfunc F() { i.F() }\n", "m/sub/internal/i/i.go", "package i\n\nfunc F() {}\n"),
		pk("import of a command", "./bad", "m/bad/b.go", "package bad\n\nimport \"example.com/m/prog\"\n\nfunc F() { prog.F() }\n", "m/prog/p.go", "package main\n\nfunc F() {}\nfunc main() {}\n"),
		{name: "invalid go.mod", slots: "mod", files: []string{"m/go.mod", "modul example.com/m\n"}},
		{name: "requirement without source", slots: "mod", files: []string{"m/go.mod", c20Mod + "\nrequire example.org/r v1.0.0\n\nreplace example.org/r => ../nowhere\n", "m/sub/r.go", "package sub\n\nimport _ \"example.org/r\"\n"}},
		f("unknown operating system", "goos", "goos", "nowhere"),
		f("unknown architecture", "goarch", "goarch", "nowhere"),
		{name: "impossible pair", slots: "goos,goarch", flags: map[string]string{"goos": "windows", "goarch": "ppc64le"}},
	}
	// Errors in another module: replaced by a directory, or vendored.
	for _, e := range [][]string{
		{"syntax error", "r.go", "package r\n\nfunc F() {\n"},
		{"type error", "r.go", "package r\n\nfunc F() { var s string = 1; _ = s }\n"},
		{"undefined name", "r.go", "package r\n\nfunc F() { G() }\n"},
		{"missing import", "r.go", "package r\n\nimport \"example.org/nowhere\"\n\nfunc F() { nowhere.F() }\n"},
		{"type error one import further", "r.go", "package r\n\nimport \"example.org/r/s\"\n\nfunc F() { s.F() }\n", "s/s.go", "package s\n\nfunc F() { return 1 }\n"},
		{"type error in an unused function", "r.go", "package r\n\nfunc F() {}\n\nfunc unused() { return 1 }\n"},
	} {
		fl := c20Fault{name: e[0] + " in a replaced module", slots: "mod", files: []string{"m/go.mod", c20Mod + "\nrequire example.org/r v1.0.0\n\nreplace example.org/r => ../r\n", "m/sub/r.go", "package sub\n\nimport \"example.org/r\"\n\nfunc R() { r.F() }\n", "r/go.mod", "module example.org/r\n\ngo 1.23\n"}}
		vendored := c20Fault{name: e[0] + " in a vendored module", slots: "mod", files: []string{"m/go.mod", c20Mod + "\nrequire example.org/r v1.0.0\n", fl.files[2], fl.files[3]}}
		list := "# example.org/r v1.0.0\n## explicit; go 1.23\nexample.org/r\n"
		for i := 1; i < len(e); i += 2 {
			fl.files = append(fl.files, "r/"+e[i], e[i+1])
			vendored.files = append(vendored.files, "m/vendor/example.org/r/"+e[i], e[i+1])
			if i > 1 {
				list += "example.org/r/s\n"
			}
		}
		vendored.files = append(vendored.files, "m/vendor/modules.txt", list)
		faults = append(faults, fl, vendored)
	}
	return faults
}

// c20Same makes the baselines: one equal to the analysis, one different.
func c20Setup(b *box) {
	b.write(c20Files...)
	b.write("m/different.json", `{"capabilityInfo":[{"packageName":"m","capability":"CAPABILITY_EXEC","packageDir":"example.com/m","path":[{"name":"example.com/m.A"}],"depPath":"example.com/m.A"}]}`)
}

var c20Results = []string{"CAPABILITY_", "capabilityInfo", "packageInfo", "digraph", "found no capabilities", "->"}

// c20RunFaults runs an invocation with the given faults.
func c20RunFaults(t *mc.T, mode string, fs ...c20Fault) {
	b := newBox(t)
	defer b.close()
	c20Setup(b)
	b.write("m/same.json", "{}")
	flags := map[string]string{"packages": ".", "capability_map": "c.cm", "output": mode}
	args := []string(nil)
	if mode == "compare" {
		args = []string{"same.json"}
	}
	late := true
	for _, f := range fs {
		b.write(f.files...)
		for k, v := range f.flags {
			flags[k] = v
		}
		if f.args != nil {
			args = f.args
		}
		late = late && f.late
	}
	for _, f := range fs {
		if f.fix != nil {
			f.fix(b)
		}
	}
	r := b.capslock("m", nil, append(c20Flags(flags), args...)...)
	t.Trace()
	t.State(1, 1)
	if r.code != 2 {
		t.Fail("expected exit status 2\n%v", r)
	}
	if !late {
		for _, s := range c20Results {
			if strings.Contains(r.out, s) {
				t.Fail("a result is printed although there is an error\n%v", r)
				break
			}
		}
	}
	if r.err == "" {
		t.Fail("nothing on standard error\n%v", r)
	}
	t.Outcome(fmt.Sprint(r.code, r.out))
	if l := b.listing("tmp", nil); strings.Contains(l, "\n") {
		t.Fail("temporary files left behind: %s", l)
	}
}

func c20Flags(m map[string]string) []string {
	var out []string
	for k, v := range m {
		if v == "" {
			continue
		}
		out = append(out, "-"+k+"="+v)
	}
	sort.Strings(out)
	return out
}

// c20Opt is one dimension of valid flags.
type c20Valid struct {
	output, gran, caps, pkgs, tags, goos, goarch string
	omit, noisy, force                           bool
	cm                                           int // none, map, map without built-in
	v                                            string
	prof                                         bool
	base                                         string
}

func (o c20Valid) flags() map[string]string {
	f := map[string]string{"output": o.output, "granularity": o.gran, "capabilities": o.caps, "packages": o.pkgs, "buildtags": o.tags, "goos": o.goos, "goarch": o.goarch, "v": o.v}
	if o.omit {
		f["omit_paths"] = "true"
	}
	if o.noisy {
		f["noisy"] = "true"
	}
	if o.force {
		f["force_local_module"] = "true"
	}
	if o.cm > 0 {
		f["capability_map"] = "c.cm"
	}
	if o.cm == 2 {
		f["disable_builtin"] = "true"
	}
	if o.prof {
		f["cpuprofile"], f["memprofile"] = "cpu.out", "mem.out"
	}
	return f
}

// library runs the same analysis through the library.
func (o c20Valid) library(t *mc.T, b *box) (string, error) {
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(b.path("m")); err != nil {
		panic(err)
	}
	pkgs, err := analyzer.LoadPackages(strings.Split(o.pkgs, ","), analyzer.LoadConfig{BuildTags: o.tags, GOOS: o.goos, GOARCH: o.goarch})
	if err != nil {
		t.Broken("%v", err)
	}
	cls := interesting.DefaultClassifier()
	if o.cm > 0 {
		f, err := os.Open("c.cm")
		if err != nil {
			t.Broken("%v", err)
		}
		cls, err = interesting.LoadClassifier("c.cm", f, o.cm == 2)
		f.Close()
		if err != nil {
			t.Fail("map rejected: %v", err)
			return "", err
		}
	}
	if o.noisy {
		cls = interesting.ClassifierExcludingUnanalyzed(cls)
	}
	cfg := &analyzer.Config{Classifier: cls, DisableBuiltin: o.cm == 2, OmitPaths: o.omit}
	cfg.Granularity = map[string]analyzer.Granularity{"": analyzer.GranularityUnset, "package": analyzer.GranularityPackage, "function": analyzer.GranularityFunction, "intermediate": analyzer.GranularityIntermediate}[o.gran]
	if cfg.CapabilitySet, err = analyzer.NewCapabilitySet(o.caps); err != nil {
		t.Broken("%v", err)
	}
	var args []string
	if o.output == "compare" {
		args = []string{o.base}
		if o.base == "same.json" {
			c := *cfg
			if c.Granularity == analyzer.GranularityUnset {
				c.Granularity = analyzer.GranularityPackage
			}
			cil := analyzer.GetCapabilityInfo(pkgs, analyzer.GetQueriedPackages(pkgs), &c)
			j, err := protojson.Marshal(cil)
			if err != nil {
				panic(err)
			}
			b.write("m/same.json", string(j))
		}
	}
	out := t.Capture(func() { err = analyzer.RunCapslock(args, o.output, pkgs, analyzer.GetQueriedPackages(pkgs), cfg) })
	return out, err
}

// canonOutput makes outputs comparable: JSON as a value, other modes as lines.
func canonOutput(mode, s string) (any, error) {
	switch mode {
	case "json", "j":
		var v any
		err := json.Unmarshal([]byte(s), &v)
		if err == nil {
			err = protojson.Unmarshal([]byte(s), new(cpb.CapabilityInfoList))
		}
		return v, err
	case "graph", "g", "compare":
		l := strings.Split(s, "\n")
		sort.Strings(l)
		return l, nil
	}
	return s, nil
}

func c20RunValid(t *mc.T, o c20Valid) {
	b := newBox(t)
	defer b.close()
	c20Setup(b)
	before := b.listing("m", nil)
	want, werr := o.library(t, b)
	if t.Failed() {
		return
	}
	var diff analyzer.DifferenceFoundError
	wantCode := 0
	if errors.As(werr, &diff) {
		wantCode = 1
	} else if werr != nil {
		t.Fail("the library rejects a valid combination: %v", werr)
		return
	}
	if o.base == "same.json" && wantCode != 0 {
		t.Fail("the library finds a difference with its own result: %s", want)
	}
	var args []string
	if o.output == "compare" {
		args = []string{o.base}
	}
	r := b.capslock("m", nil, append(c20Flags(o.flags()), args...)...)
	t.Trace()
	t.State(1, 1)
	if r.code != wantCode {
		t.Fail("expected exit status %d\n%v", wantCode, r)
		return
	}
	w, err := canonOutput(o.output, want)
	if err != nil {
		t.Fail("the library's output does not parse: %v", err)
	}
	g, err := canonOutput(o.output, r.out)
	if err != nil {
		t.Fail("the output does not parse: %v\n%v", err, r)
	} else if !reflect.DeepEqual(w, g) {
		t.Fail("the output differs from that of the library with these settings\n--- library\n%s\n--- command\n%s", firstDiff(want, r.out), firstDiff(r.out, want))
	}
	t.Outcome(r.out)
	if o.prof {
		for _, f := range []string{"m/cpu.out", "m/mem.out"} {
			if fi, err := os.Stat(b.path(f)); err != nil || fi.Size() == 0 {
				t.Fail("no profile in %s: %v", f, err)
			}
		}
		return
	}
	os.Remove(b.path("m/same.json"))
	if after := b.listing("m", nil); after != before {
		t.Fail("files of the module were altered\n%s\n%s", firstDiff(before, after), firstDiff(after, before))
	}
	if l := b.listing("tmp", nil); strings.Contains(l, "\n") {
		t.Fail("temporary files left behind: %s", l)
	}
}

var c20Outs = []string{"", "json", "v", "m", "graph", "j", "verbose", "machine", "g", "compare same", "compare different"}

// The dimensions of valid invocations and their sizes; 0 is the default.
const (
	dimOut = iota
	dimGran
	dimOmit
	dimNoisy
	dimCaps
	dimMap
	dimPkgs
	dimBuild
	dimV
	dimProf
	dimForce
)

var c20Dims = []int{len(c20Outs), 4, 2, 2, 5, 3, 5, 4, 3, 2, 2}

func c20Make(c []int) c20Valid {
	o := c20Valid{
		output: c20Outs[c[0]],
		gran:   []string{"", "package", "function", "intermediate"}[c[1]],
		omit:   c[2] == 1, noisy: c[3] == 1,
		caps: []string{"", "FILES", "-FILES", "NETWORK,UNSAFE_POINTER", "-UNANALYZED,-CAPABILITY_EXEC"}[c[4]],
		cm:   (c[5] + 1) % 3,
		pkgs: []string{".", "./...", "./sub,.", "example.com/m/sub", "./dep,./lone"}[c[6]],
		v:    []string{"", "1", "2"}[c[8]],
		prof: c[9] == 1, force: c[10] == 1,
	}
	switch c[7] {
	case 1:
		o.tags = "special,other"
	case 2:
		o.goos = "windows"
	case 3:
		o.goarch = "arm64"
	}
	if b, ok := strings.CutPrefix(o.output, "compare "); ok {
		o.output, o.base = "compare", b+".json"
	}
	return o
}

// commandEngine compares the command with the library for every combination of
// the given dimensions, in the given output modes.
func commandEngine(outs []string, dims ...int) mc.Engine {
	return mc.Engine{Name: "command", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		c := make([]int, len(c20Dims))
		var rec func(i int)
		rec = func(i int) {
			if i == len(dims) {
				o := c20Make(c)
				yield(func() string { return fmt.Sprintf("%+v", o) }, func(t *mc.T) { c20RunValid(t, o) })
				return
			}
			for v := 0; v < c20Dims[dims[i]]; v++ {
				c[dims[i]] = v
				rec(i + 1)
			}
			c[dims[i]] = 0
		}
		for k, o := range c20Outs {
			if oneOfString(o, outs) {
				c[dimOut] = k
				rec(0)
			}
		}
	}}
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C20", Level: "model_checking", Setup: buildCommands,
		Bounds: "every fault of a catalogue of about 80 in each of 6 output modes, every pair of compatible faults in the default and compare modes (all modes in thorough); every combination of valid output mode (10), granularity (4), omission, noise, filter (5), map (3), package list (5), tags and platform (4), verbosity, profile and local-module flags differing from the default in at most two (quick) or three (thorough) of them",
		Assume: []string{"a failing memory profile is noticed after the result was printed and is only required to give status 2", "the library with the same settings is the reference for the content (it is judged by the other checks)"},
		Engines: []mc.Engine{
			{Name: "single faults", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, f := range c20Faults() {
					for _, m := range c20Modes {
						if f.modes != "" && !oneOfString(m, strings.Split(f.modes, " ")) {
							continue
						}
						yield(func() string { return f.name + " in mode " + m }, func(t *mc.T) { c20RunFaults(t, m, f) })
					}
				}
			}},
			{Name: "fault pairs", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				fs := c20Faults()
				for i, f := range fs {
				next:
					for _, g := range fs[:i] {
						for _, s := range strings.Split(f.slots, ",") {
							if oneOfString(s, strings.Split(g.slots, ",")) {
								continue next
							}
						}
						for _, m := range c20Modes {
							if tier != "thorough" && m != "" && m != "compare" {
								continue
							}
							ok := true
							for _, h := range []c20Fault{f, g} {
								if h.modes != "" && !oneOfString(m, strings.Split(h.modes, " ")) {
									ok = false
								}
							}
							if !ok || (tier != "thorough" && m == "compare" && f.modes != "compare" && g.modes != "compare") {
								continue
							}
							yield(func() string { return f.name + " and " + g.name + " in mode " + m }, func(t *mc.T) { c20RunFaults(t, m, f, g) })
						}
					}
				}
			}},
			{Name: "valid combinations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				limit := 2
				if tier == "thorough" {
					limit = 3
				}
				var rec func(i, used int, c []int)
				rec = func(i, used int, c []int) {
					if i == len(c20Dims) {
						o := c20Make(c)
						yield(func() string { return fmt.Sprintf("%+v", o) }, func(t *mc.T) { c20RunValid(t, o) })
						return
					}
					for v := 0; v < c20Dims[i]; v++ {
						u := used
						// The output mode does not count.
						if v != 0 && i > 0 {
							u++
						}
						if i > 0 && c[0] >= 5 && c[0] <= 8 && u > limit-1 || u > limit {
							break
						}
						rec(i+1, u, append(c, v))
					}
				}
				rec(0, 0, nil)
			}},
		},
	})
}
