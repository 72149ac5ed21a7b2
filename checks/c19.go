package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// C19: the files analysed are those the go command would build.

// c19Constraints are the ways to constrain a file: a name and a constraint
// line.  Every file declares a function named after it.
var c19Constraints = [][2]string{
	{"plain", ""}, {"x", "x"}, {"notx", "!x"}, {"xandy", "x && y"}, {"xory", "x || y"}, {"xnoty", "x && !y"},
	{"linux0", "linux"}, {"notwindows", "!windows"}, {"winarm", "windows && arm64"}, {"amdarm", "amd64 || arm64"}, {"unix0", "unix"}, {"notunix", "!unix"},
	{"xlinux", "x && linux"}, {"xorwin", "x || windows"}, {"cgo0", "cgo"}, {"gc0", "gc"}, {"gccgo0", "gccgo"}, {"ver", "go1.20"}, {"future", "go1.99"}, {"ignored", "ignore"},
	{"a_linux", ""}, {"a_windows", ""}, {"a_darwin", ""}, {"a_amd64", ""}, {"a_arm64", ""}, {"a_linux_amd64", ""}, {"a_linux_arm64", ""}, {"a_windows_arm64", ""}, {"a_js_wasm", ""}, {"a_unix", ""},
	{"b_linux", "x"}, {"b_windows", "!x"}, {"b_arm64", "x || y"}, {"b_linux_arm64", "!y"}, {"c_windows", "linux"},
	{"_underscore", ""}, {".dot", ""}, {"linux", ""}, {"windows", ""}, {"test_linux", ""},
}

func c19Func(file string) string {
	r := strings.NewReplacer("_", "U", ".", "D")
	return "F" + r.Replace(file)
}

// c19Dir makes the module in a directory.
func c19Write(dir string) error {
	files := map[string]string{
		"go.mod": c20Mod, "c.cm": "package example.com/m CAPABILITY_FILES\npackage example.com/m/dep CAPABILITY_NETWORK\n",
		"x_arm64.s": "", "y_windows.s": "", "z.s": "", "doc_test.go": "package m\n\nfunc InTest() {}\n", "note_linux.txt": "",
	}
	for _, p := range []string{"", "dep/"} {
		for _, c := range c19Constraints {
			src := ""
			if c[1] != "" {
				src = "//go:build " + c[1] + "\n\n"
			}
			if p == "" {
				src += "package m\n\n"
				if c[0] == "plain" {
					src += "import _ \"example.com/m/dep\"\n\n"
				}
			} else {
				src += "package dep\n\n"
			}
			files[p+c[0]+".go"] = src + "func " + c19Func(c[0]) + "() {}\n"
		}
	}
	if err := os.MkdirAll(filepath.Join(dir, "dep"), 0o755); err != nil {
		return err
	}
	for n, s := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// c19Req is a request.
type c19Req struct{ tags, goos, goarch string }

// c19Want is the answer of the go command: function names of the queried
// package, and the ignored files of each package.  ok is false if the go
// command refuses.
type c19Want struct {
	funcs   map[string]bool
	ignored map[string]string
	ok      bool
	unknown bool // the toolchain does not know the platform
}

var c19Known [][2]string

func c19List(t *mc.T, dir string, env []string, r c19Req) c19Want {
	args := []string{"list", "-json=ImportPath,GoFiles,CgoFiles,IgnoredGoFiles,IgnoredOtherFiles,Standard", "-deps"}
	if r.tags != "" {
		args = append(args, "-tags="+r.tags)
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = dir
	cmd.Env = env
	if r.goos != "" {
		cmd.Env = append(cmd.Env, "GOOS="+r.goos)
	}
	if r.goarch != "" {
		cmd.Env = append(cmd.Env, "GOARCH="+r.goarch)
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	w := c19Want{funcs: map[string]bool{}, ignored: map[string]string{}, ok: err == nil}
	platform := [2]string{runtime.GOOS, runtime.GOARCH}
	for _, e := range cmd.Env {
		if v, ok := strings.CutPrefix(e, "GOOS="); ok && v != "" {
			platform[0] = v
		}
		if v, ok := strings.CutPrefix(e, "GOARCH="); ok && v != "" {
			platform[1] = v
		}
	}
	if c19Known == nil {
		c19Known = c19Platforms()
	}
	w.unknown = !slices.Contains(c19Known, platform)
	if err != nil {
		return w
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p struct {
			ImportPath                                           string
			GoFiles, CgoFiles, IgnoredGoFiles, IgnoredOtherFiles []string
			Standard                                             bool
		}
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			t.Broken("%v", err)
		}
		if p.Standard {
			continue
		}
		ig := append(p.IgnoredGoFiles, p.IgnoredOtherFiles...)
		sort.Strings(ig)
		w.ignored[p.ImportPath] = strings.Join(ig, " ")
		if p.ImportPath != "example.com/m" {
			continue
		}
		for _, f := range append(p.GoFiles, p.CgoFiles...) {
			w.funcs["example.com/m."+c19Func(strings.TrimSuffix(f, ".go"))] = true
		}
	}
	return w
}

func (w c19Want) check(t *mc.T, what string, cil *cpb.CapabilityInfoList) {
	got := map[string]bool{}
	for _, c := range cil.GetCapabilityInfo() {
		if c.GetCapability() == capFiles {
			got[subject(c)] = true
		}
	}
	for f := range w.funcs {
		if !got[f] {
			t.Fail("%s: %s is not reported; its file would be built", what, f)
		}
	}
	for f := range got {
		if !w.funcs[f] && !strings.HasSuffix(f, ".init") {
			t.Fail("%s: %s is reported; its file would not be built", what, f)
		}
	}
	seen := map[string]bool{}
	for _, p := range cil.GetPackageInfo() {
		ig := append([]string{}, p.GetIgnoredFiles()...)
		sort.Strings(ig)
		if s := strings.Join(ig, " "); s != w.ignored[p.GetPath()] {
			t.Fail("%s: %s: ignored files %s, expected %s", what, p.GetPath(), s, w.ignored[p.GetPath()])
		}
		seen[p.GetPath()] = true
	}
	for p := range w.ignored {
		if !seen[p] {
			t.Fail("%s: package %s is not listed", what, p)
		}
	}
	var l []string
	for f := range got {
		l = append(l, f)
	}
	sort.Strings(l)
	t.Outcome(strings.Join(l, " "))
}

// c19Load loads and analyses with the library.
func c19Load(t *mc.T, what string, env []string, dir string, r c19Req) {
	want := c19List(t, dir, append(os.Environ(), env...), r)
	pkgs, err := analyzer.LoadPackages([]string{"."}, analyzer.LoadConfig{BuildTags: r.tags, GOOS: r.goos, GOARCH: r.goarch})
	t.Trace()
	t.State(1, 1)
	bad := err != nil
	for _, p := range pkgs {
		bad = bad || len(p.Errors) > 0
	}
	if bad && want.unknown {
		return
	}
	if bad != !want.ok {
		t.Fail("%s: loading fails: %v (%v), the go command accepts: %v", what, bad, err, want.ok)
		return
	}
	if bad {
		return
	}
	m := "package example.com/m CAPABILITY_FILES\npackage example.com/m/dep CAPABILITY_NETWORK\n"
	cls, err := interesting.LoadClassifier("c.cm", strings.NewReader(m), true)
	if err != nil {
		t.Broken("%v", err)
	}
	want.check(t, what, analyzer.GetCapabilityInfo(pkgs, analyzer.GetQueriedPackages(pkgs), &analyzer.Config{Classifier: cls, DisableBuiltin: true}))
}

// c19In runs f in a fresh module directory with the environment set.
func c19In(t *mc.T, env []string, f func(dir string)) {
	dir := filepath.Join(t.Scratch(), "c19")
	if err := c19Write(dir); err != nil {
		t.Broken("%v", err)
	}
	wd, err := os.Getwd()
	if err != nil {
		t.Broken("%v", err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(dir); err != nil {
		t.Broken("%v", err)
	}
	for _, e := range env {
		k, v, _ := strings.Cut(e, "=")
		old, had := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if had {
				os.Setenv(k, old)
			} else {
				os.Unsetenv(k)
			}
		}()
	}
	before := strings.Join(os.Environ(), "\n")
	f(dir)
	if after := strings.Join(os.Environ(), "\n"); after != before {
		t.Fail("the environment was altered:\n%s\n%s", firstDiff(before, after), firstDiff(after, before))
	}
	if now, _ := os.Getwd(); now != dir {
		t.Fail("the working directory was changed to %s", now)
	}
}

var (
	c19Tags  = []string{"", "x", "y", "x,y", "y,x,z", "ignore", "windows", "x y"}
	c19OS    = []string{"", "linux", "windows", "darwin", "js"}
	c19Arch  = []string{"", "amd64", "arm64", "wasm", "386"}
	c19Envs  = [][]string{nil, {"GOOS=windows"}, {"GOARCH=arm64"}, {"GOOS=darwin", "GOARCH=arm64"}, {"GOFLAGS=-tags=x"}, {"CGO_ENABLED=0"}}
	c19Pairs = []c19Req{{}, {tags: "x"}, {tags: "x,y"}, {goos: "windows"}, {goarch: "arm64"}, {goos: "darwin", goarch: "arm64"}, {tags: "y", goos: "windows", goarch: "386"}, {goos: "js", goarch: "wasm"}}
)

func c19Platforms() [][2]string {
	out, err := exec.Command("go", "tool", "dist", "list").Output()
	if err != nil {
		return nil
	}
	var l [][2]string
	for _, s := range strings.Fields(string(out)) {
		a, b, _ := strings.Cut(s, "/")
		l = append(l, [2]string{a, b})
	}
	return l
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C19", Level: "model_checking", Setup: buildCommands,
		Bounds: "40 files constrained by comments, names and both, in a package and a dependency; 8 tag lists x 5 operating systems x 5 architectures x 6 environments; every platform the toolchain knows; all ordered pairs of 8 requests in one process; the same requests through the built command",
		Assume: []string{"go list is the reference for what the go command would build", "platforms the toolchain does not know are only required to be refused or answered as go list does"},
		Engines: []mc.Engine{
			{Name: "requests", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, env := range c19Envs {
					for _, tags := range c19Tags {
						for _, goos := range c19OS {
							for _, arch := range c19Arch {
								r := c19Req{tags, goos, arch}
								yield(func() string { return fmt.Sprintf("environment %v, request %+v", env, r) },
									func(t *mc.T) {
										c19In(t, env, func(dir string) { c19Load(t, "request", nil, dir, r) })
									})
							}
						}
					}
				}
			}},
			{Name: "platforms", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, p := range c19Platforms() {
					for _, tags := range []string{"", "x", "x,y"} {
						r := c19Req{tags, p[0], p[1]}
						yield(func() string { return fmt.Sprintf("request %+v", r) },
							func(t *mc.T) { c19In(t, nil, func(dir string) { c19Load(t, "request", nil, dir, r) }) })
					}
				}
			}},
			{Name: "successive requests", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, a := range c19Pairs {
					for _, b := range c19Pairs {
						yield(func() string { return fmt.Sprintf("%+v then %+v", a, b) },
							func(t *mc.T) {
								c19In(t, nil, func(dir string) {
									c19Load(t, "first request", nil, dir, a)
									c19Load(t, "second request", nil, dir, b)
								})
							})
					}
				}
			}},
			{Name: "command", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, env := range [][]string{nil, {"GOOS=windows"}} {
					for _, tags := range []string{"", "x", "y", "x,y"} {
						for _, goos := range c19OS {
							for _, arch := range []string{"", "arm64", "wasm"} {
								r := c19Req{tags, goos, arch}
								yield(func() string { return fmt.Sprintf("environment %v, request %+v", env, r) },
									func(t *mc.T) {
										b := newBox(t)
										defer b.close()
										b.mkdir("m")
										if err := c19Write(b.path("m")); err != nil {
											t.Broken("%v", err)
										}
										want := c19List(t, b.path("m"), append(append([]string{}, b.env...), env...), r)
										flags := map[string]string{"packages": ".", "capability_map": "c.cm", "disable_builtin": "true", "output": "json", "buildtags": r.tags, "goos": r.goos, "goarch": r.goarch}
										res := b.capslock("m", env, c20Flags(flags)...)
										t.Trace()
										t.State(1, 1)
										if want.unknown && res.code == 2 {
											return
										}
										if !want.ok {
											if res.code != 2 {
												t.Fail("expected exit status 2\n%v", res)
											}
											return
										}
										if res.code != 0 {
											t.Fail("expected exit status 0\n%v", res)
											return
										}
										cil := new(cpb.CapabilityInfoList)
										if err := protojson.Unmarshal([]byte(res.out), cil); err != nil {
											t.Fail("%v\n%v", err, res)
											return
										}
										want.check(t, "command", cil)
									})
							}
						}
					}
				}
			}},
		},
	})
}
