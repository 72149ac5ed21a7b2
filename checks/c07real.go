package checks

import (
	"fmt"
	"os/exec"
	"sort"
	"strings"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"

	"verif/internal/mc"
)

// Real C, assembly and linknamed code, through the built command.

// c07C are functions of a package using cgo and whether they call into C.
// Each is on a line of its own; X is replaced by its name.
var c07C = []struct {
	name, src string
	calls     bool
}{
	{"Call", "func X() { C.g() }", true},
	{"Value", "func X() int { return int(C.f(1)) }", true},
	{"Nested", "func X() int { return int(C.f(C.f(1))) }", true},
	{"Err", "func X() error { _, err := C.f(1); return err }", true},
	{"ErrVoid", "func X() error { _, err := C.g(); return err }", true},
	{"CStr", `func X() { _ = C.CString("x") }`, true},
	{"GoStr", "func X() { _ = C.GoString(nil) }", true},
	{"GoStrN", "func X() { _ = C.GoStringN(nil, 0) }", true},
	{"GoByt", "func X() { _ = C.GoBytes(nil, 0) }", true},
	{"CByt", "func X() { _ = C.CBytes(nil) }", true},
	{"Malloc", "func X() { _ = C.malloc(4) }", true},
	{"Free", "func X(p unsafe.Pointer) { C.free(p) }", true},
	{"Pointer", "func X() int { return int(C.callf(C.getf())) }", true},
	{"Back", "func X() { C.back() }", true},
	{"Bool", "func X() bool { return C.f(1) == 1 && C.f(2) == 2 }", true},
	{"Condition", "func X() { if C.f(1) == 1 { println() } }", true},
	{"Loop", "func X() { for i := C.f(0); i < 3; i++ { } }", true},
	{"Switch", "func X() { switch C.f(1) { case 1: } }", true},
	{"Defer", "func X() { defer C.g() }", true},
	{"Go", "func X() { go C.g() }", true},
	{"Dead", "func X() { if false { C.g() } }", true},
	{"Struct", "func X() *C.struct_s { return C.news() }", true},
	{"Struct2", "func X(s *C.struct_s) { C.uses(s) }", true},
	{"Variadic", "func X(s []C.int) { C.f(s[0]) }", true},
	{"Math", "func X() float64 { return float64(C.sq(2)) }", true},
	{"MethodValue", "func X() { f := T{}.M; f() }", true},
	{"Interface", "func X() { var i interface{ M() } = T{}; i.M() }", true},
	{"Generic", "func X() { gen(1) }", true},
	{"Func", "func X() { closure()() }", true},
	{"Const", "func X() int { return C.K }", false},
	{"Enum", "func X() C.enum_e { return C.E1 }", false},
	{"Field", "func X(s C.struct_s) C.int { return s.a }", false},
	{"Size", "func X() C.size_t { return C.sizeof_int }", false},
	{"Type", "func X(i int) C.int { return C.int(i) }", false},
	{"Nothing", "func X() {}", false},
}

const c07Preamble = `package c

/*
#include <stdlib.h>
struct s { int a; };
enum e { E1, E2 };
#define K 7
static int f(int x) { return x; }
static void g(void) {}
static double sq(double x) { return x * x; }
static struct s *news(void) { return 0; }
static void uses(struct s *p) {}
typedef int (*fp)(int);
static fp getf(void) { return f; }
static int callf(fp p) { return p(1); }
extern void goCallback(int);
static void back(void) { goCallback(1); }
*/
import "C"

import "unsafe"

var _ unsafe.Pointer

//export goCallback
func goCallback(C.int) {}

type T struct{}

func (T) M() { C.g() }

func gen[X any](X) { C.g() }

func closure() func() { return func() { C.g() } }

`

// c07Asm are functions and whether they run code without Go source when built
// for amd64.
const c07Asm = `package asm

import "example.com/m/ln"

type T struct{ n int }

func (T) M() { Add(1, 2) }

func Direct() int { return Add(1, 2) }
func Value() int { f := Add; return f(1, 2) }
func Interface() { var i interface{ M() } = T{}; i.M() }
func Generic() int { return apply(Add, 1) }
func Linked() { ln.Linked() }
func Pure() int { return Fallback(1) }
func Twice() { defer Direct(); go Linked() }

func apply[X any](f func(X, X) X, x X) X { return f(x, x) }

func Fallback(a int) int { return a }
`

func c07RealFiles() []string {
	var c, a strings.Builder
	c.WriteString(c07Preamble)
	a.WriteString("package a\n\nimport \"example.com/m/c\"\n\n")
	for _, f := range c07C {
		c.WriteString(strings.Replace(f.src, "X", f.name, 1) + "\n")
		fmt.Fprintf(&a, "var V%s = c.%s\n", f.name, f.name)
		i, j := strings.Index(f.src, "("), strings.Index(f.src, ")")
		args := "()"
		switch f.src[i : j+1] {
		case "(p unsafe.Pointer)", "(s *C.struct_s)", "(s []C.int)":
			args = "(nil)"
		case "(s C.struct_s)":
			args = ""
		case "(i int)":
			args = "(1)"
		}
		if args != "" {
			fmt.Fprintf(&a, "func %s() { c.%s%s }\n", f.name, f.name, args)
		}
	}
	return []string{
		"m/go.mod", "module example.com/m\n\ngo 1.23\n",
		"m/c/c.go", c.String(), "m/a/a.go", a.String(),
		"m/asm/asm.go", c07Asm,
		"m/asm/add_amd64.go", "package asm\n\nfunc Add(a, b int) int\n",
		"m/asm/add_amd64.s", "#include \"textflag.h\"\n\nTEXT ·Add(SB), NOSPLIT, $0-24\n\tMOVQ a+0(FP), AX\n\tADDQ b+8(FP), AX\n\tMOVQ AX, ret+16(FP)\n\tRET\n",
		"m/asm/add_other.go", "//go:build !amd64\n\npackage asm\n\nfunc Add(a, b int) int { return a + b }\n",
		"m/ln/ln.go", "package ln\n\nimport _ \"unsafe\"\n\n//go:linkname clock runtime.nanotime\nfunc clock() int64\n\nfunc Linked() { clock() }\nfunc Free() {}\n",
		"m/ln/empty.s", "",
		"user.cm", "func example.com/other.F CAPABILITY_FILES\nfunc example.com/m/c._cgo_runtime_cgocall CAPABILITY_SAFE\nfunc example.com/m/c._Cgo_use CAPABILITY_SAFE\nfunc example.com/m/c._Cfunc_CString CAPABILITY_SAFE\npackage example.com/other CAPABILITY_SAFE\n",
		"add.cm", "func example.com/m/asm.Add CAPABILITY_SAFE\nfunc example.com/m/ln.clock CAPABILITY_READ_SYSTEM_STATE\n",
	}
}

// c07Arb are the functions of package asm which run code without source: by
// which of the two functions.
var c07Arb = map[string]string{
	"(example.com/m/asm.T).M": "add", "example.com/m/asm.Direct": "add", "example.com/m/asm.Value": "add", "example.com/m/asm.Interface": "add", "example.com/m/asm.Generic": "add",
	"example.com/m/asm.Linked": "clock", "example.com/m/asm.Pure": "", "example.com/m/asm.Fallback": "", "example.com/m/asm.Twice": "add clock", "example.com/m/ln.Linked": "clock", "example.com/m/ln.Free": "",
}

var c07Settings = []struct {
	name string
	args []string
	asm  string // the asm packages are queried: the functions that have no source
	add  string // capability of the user's map
}{
	{"cgo", []string{"-packages=./c,./a"}, "", ""},
	{"cgo, dependent only", []string{"-packages=./a"}, "", ""},
	{"cgo, noisy", []string{"-packages=./c,./a", "-noisy"}, "", ""},
	{"cgo, user map", []string{"-packages=./c,./a", "-capability_map=../user.cm"}, "", ""},
	{"cgo, user map, noisy", []string{"-packages=./c,./a", "-capability_map=../user.cm", "-noisy"}, "", ""},
	{"asm", []string{"-packages=./asm,./ln"}, "add clock", ""},
	{"asm, noisy", []string{"-packages=./asm,./ln", "-noisy"}, "add clock", ""},
	{"asm for another architecture", []string{"-packages=./asm,./ln", "-goarch=arm64"}, "clock", ""},
	{"asm for another system", []string{"-packages=./asm,./ln", "-goos=windows"}, "add clock", ""},
	{"asm with a user map", []string{"-packages=./asm,./ln", "-capability_map=../add.cm"}, "", "clock"},
}

// c07Real checks a setting; sites: only where calls are reported.
func c07Real(t *mc.T, k int, sites bool) {
	if _, err := exec.LookPath("gcc"); err != nil {
		t.Sample("no C compiler")
		return
	}
	s := c07Settings[k]
	b := newBox(t)
	defer b.close()
	b.write(c07RealFiles()...)
	r := b.capslock("m", []string{"CGO_ENABLED=1"}, append([]string{"-output=json"}, s.args...)...)
	if r.code != 0 {
		t.Fail("analysis of a valid module fails: %v", r)
		return
	}
	var cil cpb.CapabilityInfoList
	if err := protojson.Unmarshal([]byte(r.out), &cil); err != nil {
		t.Fail("output does not parse: %v", err)
		return
	}
	got := map[string]map[string]bool{}
	lines := map[string]int{}
	for i, l := range strings.Split(c07RealFiles()[3], "\n") {
		for _, f := range c07C {
			if strings.HasPrefix(l, "func "+f.name+"(") {
				lines["example.com/m/c."+f.name] = i + 1
			}
		}
	}
	for _, ci := range cil.GetCapabilityInfo() {
		n := ci.GetPath()[0].GetName()
		if got[n] == nil {
			got[n] = map[string]bool{}
		}
		got[n][strings.TrimPrefix(ci.GetCapability().String(), "CAPABILITY_")] = true
		// A call in a cgo source file is reported where the user wrote it.
		for i := 1; i < len(ci.GetPath()); i++ {
			if line, ok := lines[ci.GetPath()[i-1].GetName()]; ok {
				if site := ci.GetPath()[i].GetSite(); site.GetFilename() != "c.go" || site.GetLine() != int64(line) {
					t.Fail("the call from %s to %s is on line %d of c.go, reported %v", ci.GetPath()[i-1].GetName(), ci.GetPath()[i].GetName(), line, site)
				}
			}
		}
	}
	want := func(fn, c string, present bool) {
		t.Trace()
		if got[fn][c] != present {
			t.Fail("%s: capability %s reported: %v, want %v", fn, c, got[fn][c], present)
		}
	}
	if sites {
		t.Trace()
	} else if strings.HasPrefix(s.name, "cgo") {
		for _, f := range c07C {
			if s.name != "cgo, dependent only" {
				want("example.com/m/c."+f.name, "CGO", f.calls)
			}
			if f.name != "Field" {
				want("example.com/m/a."+f.name, "CGO", f.calls)
			}
		}
	} else {
		for fn, why := range c07Arb {
			arb, sys := false, false
			for _, w := range strings.Fields(why) {
				arb = arb || strings.Contains(s.asm, w)
				sys = sys || s.add == w
			}
			want(fn, "ARBITRARY_EXECUTION", arb)
			if s.add != "" {
				want(fn, "READ_SYSTEM_STATE", sys)
			}
		}
	}
	if t.Failed() {
		var l []string
		for n, c := range got {
			l = append(l, fmt.Sprint(n, " ", c))
		}
		sort.Strings(l)
		t.Detail(strings.Join(l, "\n"))
	}
	t.State(int64(len(got)), 1)
	t.Outcome(fmt.Sprint(len(got), s.name))
}

var realEngine = mc.Engine{Name: "real code", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	for k := range c07Settings {
		yield(func() string { return c07Settings[k].name }, func(t *mc.T) { c07Real(t, k, false) })
	}
}}

var sitesEngine = mc.Engine{Name: "cgo call sites", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
	for k := range c07Settings[:3] {
		yield(func() string { return c07Settings[k].name }, func(t *mc.T) { c07Real(t, k, true) })
	}
}}
