package checks

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/internal/mc"
)

// C10: privileged standard-library operations carry their documented
// capability.

// c10Op is an exported operation of the standard library that user code can
// call.
type c10Op struct {
	Name    string   // such as os.Open or (*os.File).Read
	Pkg     string   // import path
	Imports []string // import paths the wrapper needs
	Wrapper string   // a function W calling it; the imports are aliased
	Chain   []string // static calls leading to a system call, if any
	Dynamic bool     // a method of an interface
	Pure    bool     // only computes: must have no capability
}

// c10Alias names an import.
func c10Alias(p string) string {
	return "p_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p)
}

type c10Writer struct {
	imports map[string]bool
	bad     bool
}

func (w *c10Writer) qualify(p *types.Package) string {
	if c10Internal(p.Path()) {
		w.bad = true
	}
	w.imports[p.Path()] = true
	return c10Alias(p.Path())
}

func c10Internal(p string) bool {
	return p == "internal" || strings.HasPrefix(p, "internal/") || strings.Contains(p, "/internal/") || strings.HasSuffix(p, "/internal") || strings.HasPrefix(p, "vendor/")
}

// typ writes a type as user code can.
func (w *c10Writer) typ(t types.Type) string {
	w.visit(t, map[types.Type]bool{})
	return types.TypeString(t, w.qualify)
}

// visit notices types user code cannot name.
func (w *c10Writer) visit(t types.Type, seen map[types.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Named:
		if o := t.Obj(); o.Pkg() != nil && !o.Exported() {
			w.bad = true
		}
		for i := 0; i < t.TypeArgs().Len(); i++ {
			w.visit(t.TypeArgs().At(i), seen)
		}
	case *types.Alias:
		if o := t.Obj(); o.Pkg() != nil && !o.Exported() {
			w.bad = true
		}
	case *types.TypeParam:
		w.bad = true
	case *types.Pointer:
		w.visit(t.Elem(), seen)
	case *types.Slice:
		w.visit(t.Elem(), seen)
	case *types.Array:
		w.visit(t.Elem(), seen)
	case *types.Chan:
		w.visit(t.Elem(), seen)
	case *types.Map:
		w.visit(t.Key(), seen)
		w.visit(t.Elem(), seen)
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			w.visit(t.Params().At(i).Type(), seen)
		}
		for i := 0; i < t.Results().Len(); i++ {
			w.visit(t.Results().At(i).Type(), seen)
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !t.Field(i).Exported() {
				w.bad = true
			}
			w.visit(t.Field(i).Type(), seen)
		}
	}
}

// call writes the parameters and arguments for a signature.
func (w *c10Writer) call(sig *types.Signature) (params []string, args string) {
	var as []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		params = append(params, fmt.Sprintf("a%d %s", i, w.typ(t)))
		a := fmt.Sprintf("a%d", i)
		if sig.Variadic() && i == sig.Params().Len()-1 {
			a += "..."
		}
		as = append(as, a)
	}
	return params, strings.Join(as, ", ")
}

// c10Args finds type arguments satisfying the constraints.
func c10Args(t types.Type, n int) ([]types.Type, types.Type) {
	i, s := types.Typ[types.Int], types.Typ[types.String]
	cand := []types.Type{i, s, types.NewSlice(i), types.NewMap(i, i), types.NewPointer(i), types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "", i)), types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.Bool])), false), types.NewChan(types.SendRecv, i)}
	args := make([]types.Type, n)
	var rec func(k int) types.Type
	rec = func(k int) types.Type {
		if k == n {
			r, err := types.Instantiate(nil, t, args, true)
			if err != nil {
				return nil
			}
			return r
		}
		for _, c := range cand {
			args[k] = c
			if r := rec(k + 1); r != nil {
				return r
			}
		}
		return nil
	}
	r := rec(0)
	return args, r
}

// c10Ops lists the operations of a package; skipped ones cannot be written
// down by user code.
func c10Ops(p *types.Package) (ops []c10Op, skipped []string) {
	add := func(name string, dynamic bool, w *c10Writer, params []string, call string) {
		if w.bad {
			skipped = append(skipped, name)
			return
		}
		var im []string
		for i := range w.imports {
			im = append(im, i)
		}
		sort.Strings(im)
		ops = append(ops, c10Op{Name: name, Pkg: p.Path(), Imports: im, Dynamic: dynamic, Wrapper: fmt.Sprintf("func W(%s) { %s }", strings.Join(params, ", "), call)})
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			w := &c10Writer{imports: map[string]bool{p.Path(): true}}
			sig := o.Type().(*types.Signature)
			inst := ""
			if tp := sig.TypeParams(); tp.Len() > 0 {
				args, r := c10Args(sig, tp.Len())
				if r == nil {
					skipped = append(skipped, o.FullName())
					continue
				}
				sig = r.(*types.Signature)
				var as []string
				for _, a := range args {
					as = append(as, w.typ(a))
				}
				inst = "[" + strings.Join(as, ", ") + "]"
			}
			params, args := w.call(sig)
			add(o.FullName(), false, w, params, c10Alias(p.Path())+"."+n+inst+"("+args+")")
		case *types.TypeName:
			if o.IsAlias() {
				continue
			}
			t := o.Type()
			if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
				_, r := c10Args(named, named.TypeParams().Len())
				if r == nil {
					skipped = append(skipped, o.Name())
					continue
				}
				t = r
			}
			iface := types.IsInterface(t)
			recv := t
			if !iface {
				recv = types.NewPointer(t)
			}
			ms := types.NewMethodSet(recv)
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj().(*types.Func)
				if !m.Exported() {
					continue
				}
				w := &c10Writer{imports: map[string]bool{}}
				params, args := w.call(ms.At(i).Type().(*types.Signature))
				params = append([]string{"r " + w.typ(recv)}, params...)
				name := "(*" + p.Path() + "." + n + ")." + m.Name()
				if iface {
					name = "(" + p.Path() + "." + n + ")." + m.Name()
				}
				add(name, iface, w, params, "r."+m.Name()+"("+args+")")
			}
		}
	}
	return ops, skipped
}

// c10IsSyscall says whether a function makes a system call.
func c10IsSyscall(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	n := strings.ToLower(f.Name())
	switch f.Pkg.Pkg.Path() {
	case "syscall", "internal/syscall/unix", "internal/runtime/syscall", "runtime/internal/syscall", "internal/syscall/windows":
		return strings.HasPrefix(n, "syscall") || strings.HasPrefix(n, "rawsyscall") || strings.HasPrefix(n, "rawvfork") || n == "cgocaller" ||
			(f.Signature.Recv() != nil && n == "call" && strings.HasSuffix(f.Signature.Recv().Type().String(), "Proc"))
	}
	return false
}

// c10Exempt says whether a function belongs to a package whose system calls do
// not count: the runtime makes them for its own purposes (memory, scheduling);
// package time reads time zones; package testing is for tests.
func c10Exempt(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	if f.String() == "crypto/x509.loadSystemRoots" {
		return true // reads the certificates of the system, declared safe
	}
	return p == "runtime" || p == "time" || p == "testing" || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "runtime/internal/")
}

// c10Chains finds, for each function of the program, the next function on a
// shortest chain of calls and literals to a system call.
func c10Chains(prog *ssa.Program) map[*ssa.Function]*ssa.Function {
	callers := map[*ssa.Function][]*ssa.Function{}
	var queue []*ssa.Function
	next := map[*ssa.Function]*ssa.Function{}
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if c10IsSyscall(f) {
			next[f] = nil
			queue = append(queue, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// A function which is called, or whose value is used, such as a
				// literal passed to a helper.
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !strings.HasSuffix(g.Name(), "$bound") {
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		for _, c := range callers[f] {
			if _, ok := next[c]; !ok && !c10Exempt(c) {
				next[c] = f
				queue = append(queue, c)
			}
		}
	}
	return next
}

// c10Survey lists the operations of the standard library for a platform.
func c10Survey(goos, goarch string) ([]c10Op, []string, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Env:  append(os.Environ(), "GOOS="+goos, "GOARCH="+goarch, "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "std")
	if err != nil {
		return nil, nil, err
	}
	prog, _ := ssautil.AllPackages(pkgs, 0)
	prog.Build()
	next := c10Chains(prog)
	var ops []c10Op
	var skipped []string
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		if c10Internal(p.PkgPath) || p.PkgPath == "unsafe" || len(p.Errors) > 0 {
			continue
		}
		o, s := c10Ops(p.Types)
		skipped = append(skipped, s...)
		for i := range o {
			if o[i].Dynamic {
				continue
			}
			var f *ssa.Function
			if strings.HasPrefix(o[i].Name, "(") {
				tn := strings.TrimPrefix(o[i].Name, "(*"+p.PkgPath+".")
				tn, m, _ := strings.Cut(tn, ").")
				t := p.Types.Scope().Lookup(tn).Type()
				if named, ok := t.(*types.Named); ok && named.TypeParams().Len() > 0 {
					continue
				}
				sel := types.NewMethodSet(types.NewPointer(t)).Lookup(p.Types, m)
				f = prog.MethodValue(sel)
				// A wrapper has no calls of its own before it is built.
				if f != nil && f.Synthetic != "" {
					f = prog.FuncValue(sel.Obj().(*types.Func))
				}
			} else {
				f = prog.FuncValue(p.Types.Scope().Lookup(strings.TrimPrefix(o[i].Name, p.PkgPath+".")).(*types.Func))
			}
			if f == nil {
				continue
			}
			if _, ok := next[f]; !ok {
				continue
			}
			for g := f; g != nil; g = next[g] {
				o[i].Chain = append(o[i].Chain, g.String())
			}
		}
		ops = append(ops, o...)
	}
	return ops, skipped, nil
}

// c10Exceptions are operations which reach a system call and are reviewed as
// having no capability of their own: they print to standard error or describe
// an error number.
var c10Exceptions = map[string]bool{"runtime/debug.PrintStack": true, "(*syscall.Errno).Error": true}

// c10Pure are the packages which only compute.  Those of their operations from
// which no system call can be reached must be reported without capability,
// except that they may be reported as not analysable when they call functions
// they are given.
var c10Pure = strings.Fields(`
	bytes cmp compress/bzip2 compress/flate container/heap container/list container/ring context
	crypto/aes crypto/cipher crypto/des crypto/hmac crypto/md5 crypto/rc4 crypto/sha1 crypto/sha256 crypto/sha512 crypto/subtle
	encoding/ascii85 encoding/base32 encoding/base64 encoding/hex encoding/pem errors fmt
	go/constant go/token go/version hash/adler32 hash/crc32 hash/crc64 hash/fnv hash/maphash html
	image image/color image/color/palette image/draw iter maps math math/big math/bits math/cmplx math/rand math/rand/v2
	net/netip net/url path regexp slices strconv strings sync text/scanner text/tabwriter time unicode unicode/utf16 unicode/utf8 unique
`)

//go:embed data/std.txt
var c10Text string

// c10Table parses the table: operation to acceptable capabilities.
func c10Table() map[string][]cpb.Capability {
	table := map[string][]cpb.Capability{}
	var cur []cpb.Capability
	for _, l := range strings.Split(c10Text, "\n") {
		switch {
		case l == "" || l[0] == '#':
		case l[0] == '\t':
			for _, o := range strings.Fields(l) {
				table[o] = cur
			}
		default:
			cur = nil
			for _, c := range strings.Split(l, "|") {
				cur = append(cur, cpb.Capability(cpb.Capability_value[c]))
			}
		}
	}
	return table
}

var c10Platforms = [][2]string{{"linux", "amd64"}, {"windows", "amd64"}, {"darwin", "arm64"}, {"freebsd", "amd64"}, {"js", "wasm"}, {"plan9", "386"}}

func c10File(bindir string, pl [2]string) string {
	return filepath.Join(bindir, "c10-"+pl[0]+"-"+pl[1]+".json")
}

// c10Setup surveys the platforms, keeping the operations to be judged.
func c10Setup(bindir string) error {
	table := c10Table()
	for i, pl := range c10Platforms {
		if i > 1 && os.Getenv("VERIF_TIER") != "thorough" {
			break
		}
		ops, _, err := c10Survey(pl[0], pl[1])
		if err != nil {
			return err
		}
		by := map[string][]c10Op{}
		seen := map[string]bool{}
		pure := map[string]bool{}
		for _, p := range c10Pure {
			pure[p] = true
		}
		for _, o := range ops {
			o.Pure = pure[o.Pkg] && table[o.Name] == nil && o.Chain == nil && !o.Dynamic
			if o.Pure || table[o.Name] != nil || o.Chain != nil && !c10Exceptions[o.Name] {
				by[o.Pkg] = append(by[o.Pkg], o)
			}
			seen[o.Name] = true
		}
		for n := range table {
			if !seen[n] && i == 0 {
				return fmt.Errorf("no operation %s in the standard library", n)
			}
		}
		b, err := json.Marshal(by)
		if err != nil {
			return err
		}
		if err := os.WriteFile(c10File(bindir, pl), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

var c10Loaded = map[[2]string]map[string][]c10Op{}

// c10Run analyses a package which calls every operation to be judged of a
// standard library package.
func c10Run(t *mc.T, pl [2]string, path string) {
	by := c10Loaded[pl]
	if by == nil {
		b, err := os.ReadFile(t.Bin(filepath.Base(c10File("", pl))))
		if err != nil {
			t.Broken("%v", err)
		}
		if err := json.Unmarshal(b, &by); err != nil {
			t.Broken("%v", err)
		}
		c10Loaded[pl] = by
	}
	ops := by[path]
	if len(ops) == 0 {
		return
	}
	im := map[string]bool{}
	body := ""
	for i, o := range ops {
		for _, x := range o.Imports {
			im[x] = true
		}
		body += strings.Replace(o.Wrapper, "func W(", fmt.Sprintf("func W%d(", i), 1) + "\n"
	}
	src := "package w\n\n"
	var paths []string
	for x := range im {
		paths = append(paths, x)
	}
	sort.Strings(paths)
	for _, x := range paths {
		src += fmt.Sprintf("import %s %q\n", c10Alias(x), x)
	}
	dir := filepath.Join(t.Scratch(), "c10")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Broken("%v", err)
	}
	for n, s := range map[string]string{"go.mod": "module example.com/w\n\ngo 1.23\n", "w.go": src + body} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Broken("%v", err)
		}
	}
	wd, err := os.Getwd()
	if err != nil {
		t.Broken("%v", err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(dir); err != nil {
		t.Broken("%v", err)
	}
	os.Setenv("CGO_ENABLED", "0")
	pkgs, err := analyzer.LoadPackages([]string{"."}, analyzer.LoadConfig{GOOS: pl[0], GOARCH: pl[1]})
	if err != nil || len(pkgs) != 1 || len(pkgs[0].Errors) > 0 {
		t.Broken("loading: %v %v", err, pkgs)
	}
	cil := analyzer.GetCapabilityInfo(pkgs, analyzer.GetQueriedPackages(pkgs), &analyzer.Config{Classifier: interesting.DefaultClassifier(), Granularity: analyzer.GranularityFunction})
	t.Trace()
	t.State(int64(len(ops)), int64(len(cil.GetCapabilityInfo())))
	caps := map[string]map[cpb.Capability]bool{}
	for _, c := range cil.GetCapabilityInfo() {
		n := subject(c)
		if caps[n] == nil {
			caps[n] = map[cpb.Capability]bool{}
		}
		caps[n][c.GetCapability()] = true
	}
	table := c10Table()
	for i, o := range ops {
		got := caps[fmt.Sprintf("example.com/w.W%d", i)]
		t.Outcome(o.Name + fmt.Sprint(got))
		if want := table[o.Name]; want != nil {
			ok := false
			for _, w := range want {
				ok = ok || got[w]
			}
			if !ok {
				t.Fail("a call of %s is reported with %v, expected %v", o.Name, capSet(got), want)
			}
		}
		if o.Pure {
			for c := range got {
				if c != cpb.Capability_CAPABILITY_UNANALYZED {
					t.Fail("a call of %s, which only computes, is reported with %v", o.Name, capSet(got))
				}
			}
		}
		if o.Chain == nil || c10Exceptions[o.Name] {
			continue
		}
		if len(got) == 0 {
			t.Fail("a call of %s is reported without any capability, although it makes a system call: %s", o.Name, strings.Join(o.Chain, " > "))
		}
		if o.Pkg == "syscall" && !got[cpb.Capability_CAPABILITY_SYSTEM_CALLS] && !got[cpb.Capability_CAPABILITY_READ_SYSTEM_STATE] {
			t.Fail("a call of %s is reported with %v, although it is a direct system call: %s", o.Name, capSet(got), strings.Join(o.Chain, " > "))
		}
	}
}

func capSet(m map[cpb.Capability]bool) []string {
	var l []string
	for c := range m {
		l = append(l, c.String())
	}
	sort.Strings(l)
	return l
}

var c10Std []string

// c10Packages lists the packages of the standard library.
func c10Packages() []string {
	if c10Std == nil {
		out, err := exec.Command("go", "list", "std").Output()
		if err != nil {
			panic(err)
		}
		for _, p := range strings.Fields(string(out)) {
			if !c10Internal(p) {
				c10Std = append(c10Std, p)
			}
		}
	}
	return c10Std
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C10", Level: "model_checking", Setup: c10Setup,
		Bounds: "every exported function and method of the standard library that is in the reviewed table (about 480), from whose code a chain of calls and function literals leads to a system call (about 500), or that belongs to one of 60 packages that only compute; linux and windows (thorough: also darwin, freebsd, js and plan9)",
		Assume: []string{"system calls of the runtime, of package time (time zones), of package testing and for the system's certificates do not count", "cgo is disabled"},
		Engines: []mc.Engine{
			{Name: "operations", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for i, pl := range c10Platforms {
					if i > 1 && tier != "thorough" {
						break
					}
					for _, p := range c10Packages() {
						yield(func() string { return fmt.Sprintf("%s on %s/%s", p, pl[0], pl[1]) }, func(t *mc.T) { c10Run(t, pl, p) })
					}
				}
			}},
		},
	})
}
