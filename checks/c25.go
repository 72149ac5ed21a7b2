package checks

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"reflect"
	"strings"

	"verif/internal/mc"
)

// C25: packages outside the current module are analysed without side effects.

// c25Modules are the modules of the local proxy: path@version, files.
var c25Modules = []struct {
	path, version string
	files         []string
}{
	{"example.org/base", "v1.0.0", []string{"go.mod", "module example.org/base\n\ngo 1.23\n", "b.go", "package base\n\nfunc Base() {}\n"}},
	{"example.org/dep", "v1.0.0", []string{"go.mod", "module example.org/dep\n\ngo 1.23\n", "d.go", "package dep\n\nfunc Dep() { leaf() }\nfunc leaf() {}\n", "inner/i.go", "package inner\n\nfunc I() {}\n"}},
	{"example.org/out", "v1.0.0", []string{"go.mod", "module example.org/out\n\ngo 1.23\n", "o.go", "package out\n\nfunc Old() {}\n"}},
	{"example.org/out", "v1.1.0", []string{"go.mod", "module example.org/out\n\ngo 1.23\n\nrequire example.org/base v1.0.0\n",
		"o.go", "package out\n\nimport (\n\t\"unsafe\"\n\n\t\"example.org/base\"\n)\n\nfunc Out() { base.Base() }\nfunc Unsafe() *int { return (*int)(unsafe.Pointer(nil)) }\n",
		"o_windows.go", "package out\n\nimport \"example.org/base\"\n\nfunc OnWindows() { base.Base() }\n",
		"sub/s.go", "package sub\n\nimport \"example.org/out\"\n\nfunc Sub() { out.Out() }\n"}},
	{"example.org/other", "v0.2.0", []string{"go.mod", "module example.org/other\n\ngo 1.23\n", "o.go", "package other\n\nfunc Other()\n", "o.s", ""}},
	{"example.org/broken", "v1.0.0", []string{"go.mod", "module example.org/broken\n\ngo 1.23\n", "b.go", "package broken\n\nfunc F() { var x int = \"s\"; _ = x }\n"}},
	{"example.org/nodep", "v1.0.0", []string{"go.mod", "module example.org/nodep\n\ngo 1.23\n\nrequire example.org/gone v1.0.0\n", "b.go", "package nodep\n\nimport \"example.org/gone\"\n\nfunc F() { gone.F() }\n"}},
}

const c25Map = "func example.org/base.Base CAPABILITY_FILES\nfunc example.org/dep.leaf CAPABILITY_NETWORK\nfunc example.com/m.local CAPABILITY_EXEC\n"

// c25Proxy writes the proxy.
func c25Proxy(b *box) {
	lists := map[string]string{}
	for _, m := range c25Modules {
		var z bytes.Buffer
		w := zip.NewWriter(&z)
		mod := ""
		for i := 0; i < len(m.files); i += 2 {
			f, err := w.Create(m.path + "@" + m.version + "/" + m.files[i])
			if err != nil {
				panic(err)
			}
			f.Write([]byte(m.files[i+1]))
			if m.files[i] == "go.mod" {
				mod = m.files[i+1]
			}
		}
		w.Close()
		v := "proxy/" + m.path + "/@v/"
		b.write(v+m.version+".mod", mod, v+m.version+".zip", z.String(), v+m.version+".info", fmt.Sprintf(`{"Version":%q,"Time":"2024-01-01T00:00:00Z"}`, m.version))
		lists[v+"list"] += m.version + "\n"
	}
	for k, v := range lists {
		b.write(k, v)
	}
	b.env = append(b.env, "GOPROXY=file://"+b.path("proxy"), "GOMODCACHE="+b.path("modcache"), "GOFLAGS=")
	b.mkdir("modcache")
}

// c25Places are the directories the command is run from.
var c25Places = []string{"module", "subdirectory", "no module", "workspace"}

// c25Box makes the user's directory.
func c25Box(t *mc.T, place string) (*box, string) {
	b := newBox(t)
	c25Proxy(b)
	b.write("u/m.cm", c25Map, "u/sub/m.cm", c25Map)
	dir := "u"
	if place != "no module" {
		b.write("u/go.mod", "module example.com/m\n\ngo 1.23\n\nrequire example.org/dep v1.0.0\n",
			"u/a.go", "package m\n\nimport \"example.org/dep\"\n\nfunc A() { dep.Dep(); local() }\nfunc local() {}\n",
			"u/sub/s.go", "package sub\n\nimport m \"example.com/m\"\n\nfunc S() { m.A() }\n")
		b.must("u", "go", "mod", "tidy")
		b.must("u", "go", "mod", "download")
	}
	switch place {
	case "subdirectory":
		dir = "u/sub"
	case "workspace":
		b.write("u/go.work", "go 1.23\n\nuse .\nuse ./other\n", "u/other/go.mod", "module example.com/other\n\ngo 1.23\n", "u/other/o.go", "package other\n\nfunc O() {}\n")
	}
	return b, dir
}

// c25Cached lists what has been fetched.
func c25Cached(b *box) string {
	l := b.listing("modcache/cache/download", func(p string) bool { return strings.HasSuffix(p, ".lock") || strings.HasSuffix(p, "list") })
	var out []string
	for _, s := range strings.Split(l, "\n") {
		out = append(out, strings.SplitN(s, " ", 2)[0])
	}
	return strings.Join(out, "\n")
}

// c25Request is a kind of request.
type c25Request struct {
	name, pkgs string
	kind       string // local, outside, fails, mixed
}

var c25Requests = []c25Request{
	{"in module", ".", "local"}, {"in module by path", "example.com/m/...", "local"},
	{"dependency", "example.org/dep", "local"}, {"dependency wildcard", "example.org/dep/...", "local"},
	{"outside", "example.org/out", "outside"}, {"outside subpackage", "example.org/out/sub", "outside"}, {"outside wildcard", "example.org/out/...", "outside"},
	{"two outside", "example.org/out,example.org/other", "outside"}, {"three outside", "example.org/other,example.org/out/sub,example.org/base", "outside"}, {"dependency and outside", "example.org/dep,example.org/out", "outside"},
	{"dependency of outside", "example.org/base", "outside"},
	{"missing", "example.org/none", "fails"}, {"missing beside outside", "example.org/out,example.org/none", "fails"}, {"missing before outside", "example.org/none,example.org/out", "fails"}, {"missing subpackage", "example.org/out/nowhere", "fails"},
	{"missing wildcard", "example.org/none/...", "fails"}, {"missing relative", "./nowhere", "fails"}, {"broken outside", "example.org/broken", "fails"}, {"outside with missing dependency", "example.org/nodep", "fails"},
}

type c25Case struct {
	place  string
	req    c25Request
	mode   string
	force  bool
	failAt int    // invocation of go that fails
	kind   string // how
	tmp    string // "", or what is wrong with the temporary directory
	goos   string
}

func (c c25Case) String() string {
	return fmt.Sprintf("%s from %s, mode %q, local only %v, failure %d%s, temporary directory %q, platform %q", c.req.name, c.place, c.mode, c.force, c.failAt, c.kind, c.tmp, c.goos)
}

const c25Go = `#!/bin/sh
n=$(cat "$C25_COUNT")
n=$((n+1))
echo $n > "$C25_COUNT"
echo "$n $*" >> "$C25_LOG"
if [ "$n" = "$C25_FAILAT" ]; then
	case $C25_FAILKIND in
	silent) exit 1 ;;
	killed) kill -9 $$ ;;
	esac
fi
exec %s "$@"
`

var c25Reference = map[string]string{}

// reference is the report of an ordinary analysis, in a module that requires
// the modules concerned.
func (c c25Case) reference(t *mc.T) string {
	key := c.req.pkgs + c.goos
	if s, ok := c25Reference[key]; ok {
		return s
	}
	b := newBox(t)
	defer b.close()
	c25Proxy(b)
	b.write("ref/go.mod", "module example.com/ref\n\ngo 1.23\n", "ref/m.cm", c25Map)
	for _, p := range strings.Split(c.req.pkgs, ",") {
		b.must("ref", "go", "get", p)
	}
	flags := map[string]string{"packages": c.req.pkgs, "capability_map": "m.cm", "output": "json", "force_local_module": "true", "goos": c.goos}
	r := b.capslock("ref", nil, c20Flags(flags)...)
	if r.code != 0 {
		t.Broken("reference: %v", r)
	}
	c25Reference[key] = r.out
	return r.out
}

func c25Run(t *mc.T, c c25Case) {
	ref := ""
	if c.req.kind == "outside" && !c.force {
		ref = c.reference(t)
	}
	b, dir := c25Box(t, c.place)
	defer b.close()
	local := c.req.kind == "local" && c.place != "no module"
	flags := map[string]string{"packages": c.req.pkgs, "capability_map": "m.cm", "output": c.mode, "goos": c.goos}
	var args []string
	var extra []string
	switch c.mode {
	case "compare":
		base := ref
		if base == "" {
			base = "{}"
		}
		b.write(dir+"/base.json", base)
		flags["granularity"] = "function"
		args = []string{"base.json"}
	case "json":
		flags["cpuprofile"], flags["memprofile"] = "cpu.out", "mem.out"
		extra = []string{"cpu.out", "mem.out"}
	}
	if c.force {
		flags["force_local_module"] = "true"
	}
	env := []string{}
	switch c.tmp {
	case "missing":
		env = append(env, "TMPDIR="+b.path("nowhere"))
	case "not writable":
		if err := os.Chmod(b.tmp, 0o555); err != nil {
			t.Broken("%v", err)
		}
	}
	if c.failAt > 0 {
		gobin := b.must("u", "sh", "-c", "command -v go")
		b.write("stub/go", fmt.Sprintf(c25Go, gobin), "count", "0\n", "log", "")
		os.Chmod(b.path("stub/go"), 0o755)
		for i, e := range b.env {
			if p, ok := strings.CutPrefix(e, "PATH="); ok {
				b.env[i] = "PATH=" + b.path("stub") + ":" + p
			}
		}
		env = append(env, "C25_COUNT="+b.path("count"), "C25_LOG="+b.path("log"), fmt.Sprintf("C25_FAILAT=%d", c.failAt), "C25_FAILKIND="+c.kind)
	}
	users := func() string {
		return b.listing("u", func(p string) bool { return strings.HasSuffix(p, ".out") })
	}
	before, cached := users(), c25Cached(b)
	r := b.capslock(dir, env, append(c20Flags(flags), args...)...)
	t.Trace()
	t.State(1, 1)
	if after := users(); after != before {
		t.Fail("files of the user were altered\n--- before\n%s\n--- after\n%s\n%v", clip(firstDiff(before, after)), clip(firstDiff(after, before)), r)
	}
	if c.tmp == "" {
		if l, err := os.ReadDir(b.tmp); err != nil || len(l) > 0 {
			t.Fail("temporary files left behind: %v %v\n%v", l, err, r)
		}
	}
	if c.force && c25Cached(b) != cached {
		t.Fail("modules were fetched\n%s\n%v", firstDiff(c25Cached(b), cached), r)
	}
	fails := c.req.kind == "fails" || (!local && (c.force || c.tmp != "" || (c.req.kind == "local" && c.place == "no module" && !strings.HasPrefix(c.req.pkgs, "example.org"))))
	if c.failAt > 0 {
		n, _ := os.ReadFile(b.path("count"))
		var total int
		fmt.Sscan(string(n), &total)
		if total < c.failAt {
			return // there are fewer invocations
		}
		if r.code == 0 && c.mode == "json" {
			// Not needed for the answer?
			w, _ := canonOutput("json", ref)
			g, err := canonOutput("json", r.out)
			if err != nil || !reflect.DeepEqual(w, g) {
				l, _ := os.ReadFile(b.path("log"))
				t.Fail("a failure was ignored\n%s\n%v", l, r)
			}
			return
		}
		if r.code == 0 && c.mode == "compare" {
			return // nothing differs from the reference
		}
		fails = true
	}
	if fails {
		if r.code != 2 {
			t.Fail("expected exit status 2\n%v", r)
		}
		for _, s := range c20Results {
			if strings.Contains(r.out, s) {
				t.Fail("a result is printed although there is an error\n%v", r)
				break
			}
		}
		t.Outcome(fmt.Sprint(r.code))
		return
	}
	if r.code != 0 && !(c.mode == "compare" && ref == "" && r.code == 1) {
		t.Fail("expected exit status 0\n%v", r)
		return
	}
	if c.mode == "json" {
		g, err := canonOutput("json", r.out)
		if err != nil {
			t.Fail("%v\n%v", err, r)
			return
		}
		if ref != "" {
			w, err := canonOutput("json", ref)
			if err != nil {
				t.Broken("%v", err)
			}
			if !reflect.DeepEqual(w, g) {
				t.Fail("the report differs from that of an ordinary analysis\n--- ordinary\n%s\n--- here\n%s", firstDiff(ref, r.out), firstDiff(r.out, ref))
			}
		}
	}
	for _, f := range extra {
		if fi, err := os.Stat(b.path(dir, f)); err != nil || fi.Size() == 0 {
			t.Fail("no profile in %s: %v", f, err)
		}
	}
	t.Outcome(r.out)
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C25", Level: "model_checking", Setup: buildCommands,
		Bounds: "19 kinds of request x 4 places x 4 output modes x fallback on/off; platform requested; temporary directory missing or not writable; a failure of each invocation of the go command in turn, 2 kinds, for 4 requests in 2 modes; local module proxy",
		Assume: []string{"the report of a module requiring the same versions is the reference", "fetching is observed through the module cache"},
		Engines: []mc.Engine{
			{Name: "requests", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, p := range c25Places {
					for _, q := range c25Requests {
						for _, m := range []string{"json", "", "graph", "compare"} {
							for _, f := range []bool{false, true} {
								if tier != "thorough" && p != "module" && m != "json" {
									continue
								}
								c := c25Case{place: p, req: q, mode: m, force: f}
								yield(c.String, func(t *mc.T) { c25Run(t, c) })
							}
						}
						if q.kind == "outside" {
							c := c25Case{place: p, req: q, mode: "json", goos: "windows"}
							yield(c.String, func(t *mc.T) { c25Run(t, c) })
						}
					}
				}
			}},
			{Name: "failures", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, q := range c25Requests {
					if q.name != "outside" && q.name != "two outside" && q.name != "three outside" && q.name != "outside wildcard" {
						continue
					}
					for _, m := range []string{"json", "compare"} {
						for _, tmp := range []string{"missing", "not writable"} {
							c := c25Case{place: "module", req: q, mode: m, tmp: tmp}
							yield(c.String, func(t *mc.T) { c25Run(t, c) })
						}
						for at := 1; at <= 12; at++ {
							for _, k := range []string{"silent", "killed"} {
								c := c25Case{place: "module", req: q, mode: m, failAt: at, kind: k}
								yield(c.String, func(t *mc.T) { c25Run(t, c) })
							}
						}
					}
				}
			}},
		},
	})
}
