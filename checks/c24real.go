package checks

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// Module and package lists of real modules, through the built command; the
// go command says what they contain.

func c24Layouts() []c26Layout {
	l := c26Layouts()
	const (
		rest   = "package m\n\nfunc G() {}\n"
		useDep = "package m\n\nimport \"example.org/dep\"\n\nfunc F() { dep.Dep() }\n"
		useOut = "package m\n\nimport _ \"example.org/out/sub\"\n\nfunc G() {}\n"
	)
	l = append(l,
		c26Layout{name: "excluded files", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/b_windows.go", rest, "m/c_arm64.go", rest, "m/d.go", "//go:build tag\n\n" + rest, "m/e_plan9.s", "", "m/f.go", "//go:build ignore\n\npackage main\n", "m/g_test.go", rest, "m/h_windows_test.go", rest, "m/_i.go", "", "m/.j.go", "", "m/k.txt", ""}},
		c26Layout{name: "excluded files of a dependency", pkgs: "./x", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/b_windows.go", rest, "m/c_solaris.go", rest, "m/x/x.go", "package x\n\nimport _ \"example.com/m\"\n", "m/y/y.go", "package y\n"}},
		c26Layout{name: "excluded files that import", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/b_windows.go", "package m\n\nimport _ \"example.com/m/w\"\n", "m/w/w.go", "package w\n"}},
		c26Layout{name: "many excluded files", files: append([]string{"m/go.mod", c26Mod, "m/a.go", c26F}, manyFiles(120)...)},
		c26Layout{name: "test dependencies", files: []string{"m/go.mod", c26Mod, "m/a.go", c26F, "m/a_test.go", "package m\n\nimport _ \"example.com/m/w\"\n", "m/w/w.go", "package w\n"}},
		c26Layout{name: "packages beside the one asked for", pkgs: "./a,./c", files: []string{"m/go.mod", c26Mod, "m/a/a.go", "package a\n\nimport _ \"example.com/m/d\"\n", "m/b/b.go", "package b\n", "m/c/c.go", "package c\n\nimport _ \"example.com/m/a\"\n", "m/d/d.go", "package d\n"}},
		c26Layout{name: "names like standard packages", pkgs: "./...", files: []string{"m/go.mod", "module m\n\ngo 1.23\n", "m/fmt/a.go", "package fmt\n", "m/os/exec/a.go", "package exec\n\nimport _ \"m/fmt\"\n", "m/internal/a.go", "package internal\n", "m/vendored/a.go", "package vendored\n"}},
		c26Layout{name: "commands", pkgs: "./...", files: []string{"m/go.mod", c26Mod, "m/cmd/a/a.go", "package main\n\nfunc main() {}\n", "m/cmd/b/a.go", "package main\n\nimport \"example.com/m\"\n\nfunc main() { m.F() }\n", "m/a.go", c26F}},
		c26Layout{name: "versions of every kind", files: []string{"m/go.mod", c26Mod + "\nrequire (\n" +
			"\texample.org/a v1.0.0\n\texample.org/b v0.0.0-20240102030405-0123456789ab\n\texample.org/c/v2 v2.3.4-rc.1\n\texample.org/d v3.0.0+incompatible\n\tgopkg.in/e.v1 v1.9.9\n\texample.org/R v1.0.0\n\texample.org/f v0.1.0\n)\n\nreplace (\n\texample.org/a => ../a\n\texample.org/b => ../b\n\texample.org/c/v2 => ../c\n\texample.org/d => ../d\n\tgopkg.in/e.v1 => ../e\n\texample.org/R v1.0.0 => ../r\n\texample.org/f => ../f\n)\n",
			"m/m.go", "package m\n\nimport (\n\t_ \"example.org/R\"\n\t_ \"example.org/a\"\n\t_ \"example.org/a/x/y\"\n\t_ \"example.org/b\"\n\t_ \"example.org/c/v2\"\n\t_ \"example.org/d\"\n\t_ \"gopkg.in/e.v1\"\n)\n",
			"a/go.mod", "module example.org/a\n", "a/a.go", "package a\n", "a/x/y/y.go", "package y\n", "b/go.mod", "module example.org/b\n", "b/b.go", "package b\n", "c/go.mod", "module example.org/c/v2\n", "c/c.go", "package c\n", "d/go.mod", "module example.org/d\n", "d/d.go", "package d\n", "e/go.mod", "module gopkg.in/e.v1\n", "e/e.go", "package e\n", "r/go.mod", "module example.org/R\n", "r/r.go", "package r\n", "f/go.mod", "module example.org/f\n", "f/f.go", "package f\n"}},
	)
	// Modules fetched from a proxy.
	for _, p := range []struct{ name, mod, src, pkgs string }{
		{"fetched module", "require example.org/dep v1.0.0\n", useDep, "."},
		{"module with a dependency", "require example.org/out v1.1.0\n", useOut, "."},
		{"older version", "require example.org/out v1.0.0\n", "package m\n\nimport _ \"example.org/out\"\n", "."},
		{"unused module", "require (\n\texample.org/dep v1.0.0\n\texample.org/out v1.1.0\n)\n", useDep, "."},
		{"package of the module unused", "require example.org/dep v1.0.0\n", useDep, "./..."},
		{"replaced by a version", "require example.org/out v1.0.0\n\nreplace example.org/out => example.org/out v1.1.0\n", useOut, "."},
		{"replaced by another module", "require example.org/other v0.1.0\n\nreplace example.org/other => example.org/dep v1.0.0\n", "package m\n\nimport _ \"example.org/other\"\n", "."},
		{"dependencies asked for", "require (\n\texample.org/dep v1.0.0\n\texample.org/out v1.1.0\n)\n", useDep + "\nimport _ \"example.org/out\"\n", "example.org/dep/...,example.org/out"},
	} {
		src := p.src
		if i := strings.LastIndex(src, "\nimport"); strings.Count(src, "import") > 1 {
			src = "package m\n" + src[i:] + strings.TrimPrefix(src[:i], "package m\n")
		}
		l = append(l, c26Layout{name: p.name, pkgs: p.pkgs, env: []string{"GOFLAGS=-mod=mod"}, files: []string{"m/go.mod", c26Mod + "\n" + p.mod, "m/m.go", src}, fix: c25Proxy})
	}
	return l
}

func manyFiles(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("m/z%d_windows.go", i), "package m\n")
	}
	return l
}

// c24Listed is what the go command says about a package.
type c24Listed struct {
	ImportPath                        string
	Standard                          bool
	Module                            *struct{ Path, Version string }
	IgnoredGoFiles, IgnoredOtherFiles []string
}

func c24Real(t *mc.T, l c26Layout, platform string, grans []string) {
	b := newBox(t)
	defer b.close()
	b.write(l.files...)
	dir, pkgs, env := l.place(b)
	args := []string{"-packages=" + pkgs, "-output=json", "-force_local_module"}
	listEnv := append([]string(nil), env...)
	if goos, goarch, ok := strings.Cut(platform, "/"); ok {
		args = append(args, "-goos="+goos, "-goarch="+goarch)
		listEnv = append(listEnv, "GOOS="+goos, "GOARCH="+goarch)
	}
	lr := b.run(dir, listEnv, "go", append([]string{"list", "-deps", "-json=ImportPath,Standard,Module,IgnoredGoFiles,IgnoredOtherFiles", "--"}, strings.Split(pkgs, ",")...)...)
	if lr.code != 0 {
		t.Broken("%s: go list: %v", l.name, lr)
	}
	mods := map[string]bool{}
	var wantPkgs []string
	for d := json.NewDecoder(strings.NewReader(lr.out)); d.More(); {
		var p c24Listed
		if err := d.Decode(&p); err != nil {
			t.Broken("go list: %v", err)
		}
		if p.Standard {
			continue
		}
		if p.Module != nil && p.Module.Version != "" {
			mods[p.Module.Path+" "+p.Module.Version] = true
		}
		wantPkgs = append(wantPkgs, c24Pkg(p.ImportPath, append(p.IgnoredGoFiles, p.IgnoredOtherFiles...)))
	}
	sort.Strings(wantPkgs)
	wantMods := sortedKeys(mods)
	for _, gran := range grans {
		a := args
		if gran != "" {
			a = append(append([]string(nil), args...), "-granularity="+gran)
		}
		r := b.capslock(dir, env, a...)
		t.Trace()
		t.State(int64(len(wantPkgs)), int64(len(mods)))
		cil := new(cpb.CapabilityInfoList)
		if r.code != 0 {
			t.Fail("%s: %v", l.name, r)
			return
		}
		if err := protojson.Unmarshal([]byte(r.out), cil); err != nil {
			t.Fail("%s: malformed report: %v", l.name, err)
			return
		}
		var gotMods, gotPkgs []string
		for _, m := range cil.GetModuleInfo() {
			gotMods = append(gotMods, m.GetPath()+" "+m.GetVersion())
		}
		for _, p := range cil.GetPackageInfo() {
			gotPkgs = append(gotPkgs, c24Pkg(p.GetPath(), p.GetIgnoredFiles()))
		}
		if !sort.SliceIsSorted(cil.GetPackageInfo(), func(i, j int) bool {
			return cil.GetPackageInfo()[i].GetPath() < cil.GetPackageInfo()[j].GetPath()
		}) {
			t.Fail("%s: packages are not sorted: %q", l.name, gotPkgs)
		}
		sort.Strings(gotPkgs)
		if g := strings.Join(gotMods, "\n"); g != wantMods {
			t.Fail("%s, granularity %q: modules\n%s\nwant\n%s", l.name, gran, g, wantMods)
		}
		if g, w := strings.Join(gotPkgs, "\n"), strings.Join(wantPkgs, "\n"); g != w {
			t.Fail("%s, granularity %q: packages\n%s\nwant\n%s", l.name, gran, g, w)
		}
		t.Outcome(strings.Join(gotMods, "\n") + strings.Join(gotPkgs, "\n"))
	}
}

func c24Pkg(path string, ignored []string) string {
	var l []string
	for _, f := range ignored {
		l = append(l, filepath.Base(f))
	}
	sort.Strings(l)
	return path + ": " + strings.Join(l, " ")
}

var c24RealEngine = mc.Engine{Name: "real modules", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	shared := len(c26Layouts())
	for i, l := range c24Layouts() {
		platforms := []string{""}
		grans := []string{"function"}
		if tier == "thorough" || i >= shared {
			platforms = append(platforms, "windows/amd64")
			grans = []string{"function", "package", ""}
		}
		if tier == "thorough" {
			platforms = append(platforms, "linux/arm64", "darwin/arm64", "js/wasm", "plan9/386")
		}
		for _, p := range platforms {
			if p != "" && (l.name == "cgo" || strings.HasPrefix(l.name, "standard") || l.name == "assembly") {
				continue
			}
			yield(func() string { return l.name + " " + p }, func(t *mc.T) { c24Real(t, l, p, grans) })
		}
	}
}}
