package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// Modules of unusual shapes, through the built command.

const (
	c26Mod = "module example.com/m\n\ngo 1.23\n"
	c26F   = "package m\n\nimport \"os\"\n\nfunc F() { os.Remove(\"x\") }\n"
)

type c26Layout struct {
	name  string
	dir   string // where the command runs, default "m"
	pkgs  string // packages asked for, default "."
	env   []string
	files []string
	fix   func(b *box)
	want  []string // functions reported for files
}

func c26Layouts() []c26Layout {
	l := []c26Layout{
		{name: "plain", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "module name without a dot", files: []string{"m/go.mod", "module m\n\ngo 1.23\n", "m/a.go", c26F}, want: []string{"m.F"}},
		{name: "module name with a version", files: []string{"m/go.mod", "module example.com/m/v3\n\ngo 1.23\n", "m/a.go", c26F}, want: []string{"example.com/m/v3.F"}},
		{name: "module name in capitals and punctuation", files: []string{"m/go.mod", "module example.com/M~x_y-z.q\n\ngo 1.23\n", "m/a.go", c26F}, want: []string{"example.com/M~x_y-z.q.F"}},
		{name: "package not named after its directory", files: []string{"m/go.mod", c26Mod, "m/a.go", strings.Replace(c26F, "package m", "package other", 1)}, want: []string{"example.com/m.F"}},
		{name: "command", files: []string{"m/go.mod", c26Mod, "m/a.go", strings.Replace(c26F, "package m", "package main", 1) + "func main() { F() }\n"}, want: []string{"example.com/m.F", "example.com/m.main"}},
		{name: "directory with spaces", dir: "a b/c'd", files: []string{"a b/c'd/go.mod", c26Mod, "a b/c'd/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "directory with other letters", dir: "é%20ü", files: []string{"é%20ü/go.mod", c26Mod, "é%20ü/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "symbolic link to the module", dir: "link", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, fix: func(b *box) { os.Symlink("m", b.path("link")) }, want: []string{"example.com/m.F"}},
		{name: "symbolic link to a file", files: []string{"m/go.mod", c26Mod, "a.go", c26F}, fix: func(b *box) { os.Symlink("../a.go", b.path("m/a.go")) }, want: []string{"example.com/m.F"}},
		{name: "tests", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/a_test.go", "package m\n\nimport \"os\"\n\nfunc G() { os.Remove(\"\") }\n", "m/b_test.go", "package m_test\n\nfunc H() {}\n"}, want: []string{"example.com/m.F"}},
		{name: "broken tests", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/a_test.go", "package m\n\nfunc G() { undefined() }\n"}, want: []string{"example.com/m.F"}},
		{name: "ignored files and directories", pkgs: "./...", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/_b.go", "broken", "m/.c.go", "broken", "m/testdata/d.go", "broken", "m/_e/e.go", "broken", "m/.f/f.go", "broken"}, want: []string{"example.com/m.F"}},
		{name: "nested module", pkgs: "./...", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/n/go.mod", "module example.com/n\n\ngo 1.23\n", "m/n/n.go", "broken"}, want: []string{"example.com/m.F"}},
		{name: "subdirectory of a module", dir: "m/s/t", files: []string{"m/go.mod", c26Mod, "m/s/t/a.go", c26F}, want: []string{"example.com/m/s/t.F"}},
		{name: "internal package", pkgs: "./...", files: []string{"m/go.mod", c26Mod, "m/internal/i/a.go", c26F, "m/b.go", "package m\n\nimport i \"example.com/m/internal/i\"\n\nfunc G() { i.F() }\n"}, want: []string{"example.com/m.G", "example.com/m/internal/i.F"}},
		{name: "replaced module", files: []string{"m/go.mod", c26Mod + "\nrequire example.org/r v1.0.0\n\nreplace example.org/r => ../r\n", "m/b.go", "package m\n\nimport \"example.org/r\"\n\nfunc G() { r.F() }\n", "r/go.mod", "module example.org/r\n", "r/r.go", strings.Replace(c26F, "package m", "package r", 1)}, want: []string{"example.com/m.G"}},
		{name: "vendored module", files: []string{"m/go.mod", c26Mod + "\nrequire example.org/r v1.0.0\n", "m/b.go", "package m\n\nimport \"example.org/r\"\n\nfunc G() { r.F() }\n", "m/vendor/modules.txt", "# example.org/r v1.0.0\n## explicit\nexample.org/r\n", "m/vendor/example.org/r/r.go", strings.Replace(c26F, "package m", "package r", 1)}, want: []string{"example.com/m.G"}},
		{name: "workspace", dir: "w", pkgs: "./m/...,./r", files: []string{"w/go.work", "go 1.23\n\nuse (\n\t./m\n\t./r\n)\n", "w/m/go.mod", c26Mod, "w/m/b.go", "package m\n\nimport \"example.org/r\"\n\nfunc G() { r.F() }\n", "w/r/go.mod", "module example.org/r\n\ngo 1.23\n", "w/r/r.go", strings.Replace(c26F, "package m", "package r", 1)}, want: []string{"example.com/m.G", "example.org/r.F"}},
		{name: "module in a workspace", dir: "w/m", files: []string{"w/go.work", "go 1.23\n\nuse (\n\t./m\n\t./r\n)\n", "w/m/go.mod", c26Mod, "w/m/b.go", "package m\n\nimport \"example.org/r\"\n\nfunc G() { r.F() }\n", "w/r/go.mod", "module example.org/r\n\ngo 1.23\n", "w/r/r.go", strings.Replace(c26F, "package m", "package r", 1)}, want: []string{"example.com/m.G"}},
		{name: "no modules", dir: "gp/src/m", env: []string{"GO111MODULE=off", "GOPATH=BOX/gp"}, files: []string{"gp/src/m/a.go", c26F}, want: []string{"m.F"}},
		{name: "no modules, vendored", dir: "gp/src/m", env: []string{"GO111MODULE=off", "GOPATH=BOX/gp"}, files: []string{"gp/src/m/a.go", "package m\n\nimport \"example.org/r\"\n\nfunc G() { r.F() }\n", "gp/src/m/vendor/example.org/r/r.go", strings.Replace(c26F, "package m", "package r", 1)}, want: []string{"m.G"}},
		{name: "embedded files", files: []string{"m/go.mod", c26Mod, "m/a.go", "package m\n\nimport (\n\t\"embed\"\n\t\"os\"\n)\n\n//go:embed x.txt d\nvar fs embed.FS\n\nfunc F() { os.Remove(\"x\"); fs.ReadFile(\"x.txt\") }\n", "m/x.txt", "x", "m/d/y", "y"}, want: []string{"example.com/m.F"}},
		{name: "cgo", files: []string{"m/go.mod", c26Mod, "m/a.go", "package m\n\n// static int f(void) { return 1; }\nimport \"C\"\nimport \"os\"\n\nfunc F() { C.f(); os.Remove(\"x\") }\n", "m/b.c", "int g(void) { return 2; }\n", "m/h.h", "int g(void);\n"}, want: []string{"example.com/m.F"}},
		{name: "assembly", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F + "\nfunc g()\n", "m/g_amd64.s", "TEXT ·g(SB),4,$0\n\tRET\n", "m/g_arm64.s", "TEXT ·g(SB),4,$0\n\tRET\n"}, want: []string{"example.com/m.F"}},
		{name: "line directives", files: []string{"m/go.mod", c26Mod, "m/a.go", "package m\n\nimport \"os\"\n\n//line x.y:10\nfunc F() { os.Remove(\"x\") }\n//line /abs/z.go:1:3\nfunc G() { /*line q.go:5:6*/ os.Remove(\"x\") }\n//line :7\nfunc H() { F() }\n"}, want: []string{"example.com/m.F", "example.com/m.G", "example.com/m.H"}},
		{name: "byte order mark and carriage returns", files: []string{"m/go.mod", strings.ReplaceAll(c26Mod, "\n", "\r\n"), "m/a.go", "\ufeff" + strings.ReplaceAll(c26F, "\n", "\r\n")}, want: []string{"example.com/m.F"}},
		{name: "only a package clause", files: []string{"m/go.mod", c26Mod, "m/a.go", "package m"}},
		{name: "only documentation", files: []string{"m/go.mod", c26Mod, "m/a.go", "// Package m is empty.\npackage m\n"}},
		{name: "old language version", files: []string{"m/go.mod", "module example.com/m\n\ngo 1.12\n", "m/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "no language version", files: []string{"m/go.mod", "module example.com/m\n", "m/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "file with a newer language version", files: []string{"m/go.mod", "module example.com/m\n\ngo 1.20\n", "m/a.go", "//go:build go1.22\n\npackage m\n\nimport \"os\"\n\nfunc F() { for range 3 { os.Remove(\"x\") } }\n"}, want: []string{"example.com/m.F"}},
		{name: "loop variables before 1.22", files: []string{"m/go.mod", "module example.com/m\n\ngo 1.21\n", "m/a.go", "package m\n\nimport \"os\"\n\nfunc F() { var f []func(); for i := 0; i < 3; i++ { f = append(f, func() { _ = i; os.Remove(\"x\") }) }; f[0]() }\n"}, want: []string{"example.com/m.F", "example.com/m.F$1"}},
		{name: "list of files", pkgs: "a.go", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/b.go", "broken"}, want: []string{"command-line-arguments.F"}},
		{name: "pattern over import paths", pkgs: "example.com/m/...", files: []string{"m/go.mod", c26Mod, "m/x/a.go", c26F, "m/y/a.go", c26F}, want: []string{"example.com/m/x.F", "example.com/m/y.F"}},
		{name: "package named twice", pkgs: ".,example.com/m,./", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "absolute directory", pkgs: "BOX/m", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, want: []string{"example.com/m.F"}},
		{name: "standard package", pkgs: "os/exec", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, want: []string{}},
		{name: "standard package outside a module", dir: "e", pkgs: "path/filepath", files: []string{"e/readme", ""}, want: []string{"path/filepath.Glob"}},
		{name: "two packages with the same name", pkgs: "./...", files: []string{"m/go.mod", c26Mod, "m/x/m/a.go", c26F, "m/y/m/a.go", c26F, "m/b.go", "package m\n\nimport (\n\tx \"example.com/m/x/m\"\n\ty \"example.com/m/y/m\"\n)\n\nfunc G() { x.F(); y.F() }\n"}, want: []string{"example.com/m.G", "example.com/m/x/m.F", "example.com/m/y/m.F"}},
		{name: "read-only directory", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F}, fix: func(b *box) { os.Chmod(b.path("m"), 0o555) }, want: []string{"example.com/m.F"}},
	}
	// Many packages: a chain of imports and a fan.
	for _, fan := range []bool{false, true} {
		const n = 60
		x := c26Layout{name: "chain of packages", pkgs: "./p0", files: []string{"m/go.mod", c26Mod}, want: []string{"example.com/m/p0.F"}}
		if fan {
			x.name, x.pkgs = "many packages", "./..."
			x.want = nil
		}
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("package p%d\n\nimport q \"example.com/m/p%d\"\n\nfunc F() { q.F() }\n", i, i+1)
			if fan || i == n-1 {
				s = strings.Replace(c26F, "package m", fmt.Sprintf("package p%d", i), 1)
			}
			if fan {
				x.want = append(x.want, fmt.Sprintf("example.com/m/p%d.F", i))
			}
			x.files = append(x.files, fmt.Sprintf("m/p%d/p.go", i), s)
		}
		l = append(l, x)
	}
	return l
}

// place finishes the layout, whose files have been written: the directory to
// run in, the packages to ask for and additions to the environment.
func (l c26Layout) place(b *box) (dir, pkgs string, env []string) {
	if l.fix != nil {
		l.fix(b)
	}
	dir, pkgs = l.dir, l.pkgs
	if dir == "" {
		dir = "m"
	}
	if pkgs == "" {
		pkgs = "."
	}
	box := strings.NewReplacer("BOX", b.root)
	for _, e := range l.env {
		env = append(env, box.Replace(e))
	}
	return dir, box.Replace(pkgs), env
}

func c26Real(t *mc.T, l c26Layout, all bool) {
	b := newBox(t)
	defer b.close()
	b.write(l.files...)
	if all {
		out, err := exec.Command("go", "list", "std").Output()
		if err != nil {
			t.Broken("go list: %v", err)
		}
		s := "package m\n\nimport (\n\t\"os\"\n"
		for _, p := range strings.Fields(string(out)) {
			if !strings.Contains(p, "internal") && !strings.HasPrefix(p, "vendor/") && p != "os" && p != "runtime/race" {
				s += "\t_ \"" + p + "\"\n"
			}
		}
		b.write("m/a.go", s+")\n\nfunc F() { os.Remove(\"x\") }\n")
	}
	dir, pkgs, env := l.place(b)
	for _, gran := range []string{"function", "package", "intermediate"} {
		for _, out := range []string{"json", "", "v", "m", "graph"} {
			if k := gran[:1] + out; k != "fjson" && k != "fgraph" && k != "p" && k != "iv" {
				continue
			}
			r := b.capslock(dir, env, "-packages="+pkgs, "-granularity="+gran, "-output="+out, "-force_local_module")
			t.Trace()
			t.State(1, 1)
			if r.code != 0 {
				t.Fail("%s, output %q, granularity %s: %v", l.name, out, gran, r)
				return
			}
			switch out {
			case "json":
				cil := new(cpb.CapabilityInfoList)
				if err := protojson.Unmarshal([]byte(r.out), cil); err != nil || !json.Valid([]byte(r.out)) {
					t.Fail("%s: malformed report: %v", l.name, err)
				}
				if gran != "function" {
					continue
				}
				got := map[string]bool{}
				for _, c := range cil.GetCapabilityInfo() {
					if c.GetCapability() == capFiles {
						got[subject(c)] = true
					}
				}
				for _, w := range l.want {
					if !got[w] {
						t.Fail("%s: %s is not reported: %s", l.name, w, clip(r.out))
					}
				}
				if !all && !strings.HasPrefix(l.name, "standard") && len(got) != len(l.want) {
					t.Fail("%s: reported for files: %s", l.name, sortedKeys(got))
				}
				t.Outcome(sortedKeys(got))
			case "graph":
				if _, _, err := parseDot(r.out); err != nil {
					t.Fail("%s: graph: %v", l.name, err)
				}
			case "":
				if r.out == "" {
					t.Fail("%s: no output", l.name)
				}
			}
		}
	}
}

var c26LayoutEngine = mc.Engine{Name: "modules", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	for _, l := range c26Layouts() {
		yield(func() string { return l.name }, func(t *mc.T) { c26Real(t, l, false) })
	}
	yield(func() string { return "every standard package" }, func(t *mc.T) {
		c26Real(t, c26Layout{name: "every standard package", files: []string{"m/go.mod", c26Mod}, want: []string{"example.com/m.F"}}, true)
	})
}}
