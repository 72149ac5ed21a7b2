package checks

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strings"

	"github.com/google/capslock/interesting"

	"verif/internal/mc"
	"verif/internal/syn"
)

// C09: capability map files are understood completely or rejected.

var c09Probe *edgeProbe

const c09Src = `package a

func F() {}

func G() {}

func H_sfx() {}
`

func c09Setup() {
	if c09Probe == nil {
		c09Probe = newEdgeProbe([]syn.Pkg{syn.One("x.y/a", c09Src), syn.One("x.y/b", strings.Replace(c09Src, "package a", "package b", 1))})
	}
}

var (
	c09Pkgs  = []string{"x.y/a", "x.y/b"}
	c09Names = []string{"x.y/a.F", "x.y/a.G", "x.y/b.F", "x.y/b.G", "x.y/a.H_sfx"}
)

// observe returns the meaning of a classifier over the probe names.
func c09Observe(c *interesting.Classifier) string {
	c09Setup()
	var b strings.Builder
	for _, n := range c09Names {
		for _, p := range c09Pkgs {
			fmt.Fprintf(&b, "%s/%s=%d ", n, p, c.FunctionCategory(p, n))
		}
		for _, m := range c09Names {
			if !c09Probe.include(c, n, m) {
				fmt.Fprintf(&b, "%s!%s ", n, m)
			}
		}
	}
	return b.String()
}

// agree compares a classifier with the reference meaning.
func c09Agree(c *interesting.Classifier, m *refMap) string {
	c09Setup()
	for _, n := range c09Names {
		for _, p := range c09Pkgs {
			if got, want := c.FunctionCategory(p, n), m.category(p, n); !oneOf(got, want) {
				return fmt.Sprintf("category of %s in %s is %v, want %v", n, p, got, want)
			}
		}
		for _, o := range c09Names {
			if got, want := c09Probe.include(c, n, o), !m.edges[[2]string{n, o}]; got != want {
				return fmt.Sprintf("call %s -> %s followed: %v, want %v", n, o, got, want)
			}
		}
	}
	return ""
}

func quoteLong(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q...[%d bytes]...%q", s[:150], len(s), s[len(s)-150:])
	}
	return fmt.Sprintf("%q", s)
}

// c09File checks one file content through a reader.
func c09File(t *mc.T, data string, r io.Reader, fault bool) {
	c, err := interesting.LoadClassifier("the-map-file", r, true)
	t.Trace()
	t.Add("files", 1)
	want, bad := refParse(data)
	switch {
	case fault:
		if err == nil {
			t.Fail("reading failed but the load succeeded: %s", quoteLong(data))
		}
	case bad > 0:
		if err == nil {
			t.Fail("line %d is invalid but the load succeeded: %s", bad, quoteLong(data))
		} else if !regexp.MustCompile(fmt.Sprintf(`\b%d\b`, bad)).MatchString(err.Error()) || !strings.Contains(err.Error(), "the-map-file") {
			t.Fail("error %q does not name the file and line %d: %s", err, bad, quoteLong(data))
		}
		t.Outcome(fmt.Sprintf("error %d", bad))
	default:
		if err != nil {
			t.Fail("valid file rejected: %v: %s", err, quoteLong(data))
			return
		}
		if d := c09Agree(c, want); d != "" {
			t.Fail("%s: %s", d, quoteLong(data))
		}
		t.Outcome(c09Observe(c))
	}
}

// chunks delivers data in the given pieces, then err.
type chunkReader struct {
	pieces []string
	err    error
	joined bool // deliver err together with the last piece
}

func (r *chunkReader) Read(p []byte) (int, error) {
	for len(r.pieces) > 0 {
		n := copy(p, r.pieces[0])
		empty := r.pieces[0] == ""
		r.pieces[0] = r.pieces[0][n:]
		if r.pieces[0] == "" {
			r.pieces = r.pieces[1:]
			if len(r.pieces) == 0 && r.joined {
				return n, r.err
			}
			if empty {
				return 0, nil
			}
		}
		return n, nil
	}
	return 0, r.err
}

var errRead = errors.New("simulated read error")

// lines used in multi-line files.
var c09Lines = []string{
	"func x.y/a.F CAPABILITY_FILES",
	"func x.y/a.F CAPABILITY_UNSPECIFIED",
	"func x.y/a.G CAPABILITY_SAFE",
	"func x.y/b.F CAPABILITY_UNANALYZED",
	"package x.y/a CAPABILITY_NETWORK",
	"package x.y/a CAPABILITY_SAFE",
	"package x.y/b CAPABILITY_CGO",
	"unanalyzed x.y/a.F",
	"unanalyzed x.y/b.G",
	"ignore_edge x.y/a.F x.y/b.F",
	"ignore_edge x.y/b.F x.y/a.F",
	"cgo_suffix _sfx",
	"cgo_suffix .G",
	"",
	"# func x.y/a.F CAPABILITY_SAFE",
	"  \t ",
	"func x.y/b.G CAPABILITY_FILES # note # more",
	"#",
	"func x.y/a.F",
	"func x.y/a.F FILES",
	"func x.y/a.F capability_files",
	"package x.y/a",
	"package x.y/a CAPABILITY_",
	"ignore_edge x.y/a.F",
	"unanalyzed",
	"cgo_suffix",
	"function x.y/a.F CAPABILITY_SAFE",
	"FUNC x.y/a.F CAPABILITY_SAFE",
	"func # x.y/a.F CAPABILITY_SAFE",
	"func x.y/a.F # CAPABILITY_SAFE",
	"x.y/a.F CAPABILITY_SAFE",
	"0",
}

// c09Odd are names that differ little from each other.
var c09Odd = []string{
	"a", "A", "a/", "/a", "a.", ".a", "a.b", "a.B", "a/b", "a/b.C", "a/B.C", "a/b.c", "a/b/C", "b.C", "a//b.C", "./a", "a.b.C", "a/b.C.", "a/b.C/",
	"(a/b.C)", "(a/b.C).M", "(*a/b.C).M", "*a/b.C", "(*a/b.C).m", "(*a/b.C)M", "(*a/b.C).M$1", "a/b.C$1", "a/b.C[int]", "a/b.C[T]", "(*a/b.C[T]).M", "(a/b.C[T]).M", "a/b.init", "a/b.init#1"[:8], "a/b.init$1",
	"a-b", "a_b", "a+b", "a~b", "a@v1", "a,b", "a;b", "a:b", "a=b", "\"a\"", "'a'", "\\a", "a\\", "%a", "a%20b", "a*", "*", "é", "e\u0301", "ａ", "a\u200b", "a\x00", "\xff", "func", "package", "CAPABILITY_FILES", "-", "//", "/*a*/",
}

const c09Base = "# a map\nfunc x.y/a.F CAPABILITY_FILES\n\npackage x.y/b CAPABILITY_NETWORK # c\nunanalyzed x.y/a.G\nignore_edge x.y/a.F x.y/b.G\ncgo_suffix _sfx\nfunc x.y/b.F CAPABILITY_SAFE"

func init() {
	lines := mc.Engine{Name: "lines", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		// Every single line of up to n tokens.
		toks := []string{"func", "package", "unanalyzed", "ignore_edge", "cgo_suffix", "bogus", "x.y/a.F", "x.y/b.F", "x.y/a",
			"CAPABILITY_FILES", "CAPABILITY_UNSPECIFIED", "CAPABILITY_SAFE", "FILES", "#", "#x"}
		n := 4
		if tier == "thorough" {
			n = 5
		}
		var rec func(pre []string)
		rec = func(pre []string) {
			if len(pre) > 0 {
				s := strings.Join(pre, " ")
				yield(func() string { return s }, func(t *mc.T) {
					c09File(t, s, strings.NewReader(s), false)
					t.State(1, 1)
				})
			}
			if len(pre) < n {
				for _, k := range toks {
					rec(append(pre[:len(pre):len(pre)], k))
				}
			}
		}
		rec(nil)
	}}
	files := mc.Engine{Name: "files", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		const n = 4
		var rec func(pre []int)
		rec = func(pre []int) {
			if len(pre) == n-1 {
				p := append([]int(nil), pre...)
				yield(func() string { return fmt.Sprint(p) }, func(t *mc.T) {
					var ls []string
					for _, k := range p {
						ls = append(ls, c09Lines[k])
					}
					head := strings.Join(ls, "\n")
					c09File(t, head, strings.NewReader(head), false)
					for k := range c09Lines {
						s := head + "\n" + c09Lines[k]
						c09File(t, s, strings.NewReader(s), false)
						c09File(t, s+"\n", strings.NewReader(s+"\n"), false)
						t.State(1, 1)
					}
				})
				return
			}
			for k := range c09Lines {
				rec(append(pre[:len(pre):len(pre)], k))
			}
		}
		rec(nil)
	}}
	space := mc.Engine{Name: "white space", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		seps := []string{" ", "\t", "  ", " \t ", "\t\t", "\v", "\f", " ", " "}
		pads := []string{"", " ", "\t", "   "}
		ends := []string{"", "\n", "\r\n", "\r\n\r\n", "\n\n\n", " # c\n", "\t#c\r\n", "#c", "  "}
		for _, entry := range [][]string{{"func", "x.y/a.F", "CAPABILITY_FILES"}, {"package", "x.y/a", "CAPABILITY_FILES"}, {"ignore_edge", "x.y/a.F", "x.y/b.F"}, {"unanalyzed", "x.y/a.F"}, {"cgo_suffix", "_sfx"}} {
			for _, s1 := range seps {
				for _, s2 := range seps {
					for _, p := range pads {
						for _, e := range ends {
							s := p + entry[0] + s1 + strings.Join(entry[1:], s2) + e
							yield(func() string { return s }, func(t *mc.T) {
								c09File(t, s, strings.NewReader(s), false)
								if strings.HasSuffix(e, "\n") {
									u := s + "func x.y/b.G CAPABILITY_SAFE"
									c09File(t, u, strings.NewReader(u), false)
								}
								t.State(2, 2)
							})
						}
					}
				}
			}
		}
	}}
	arrival := mc.Engine{Name: "arrival", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		datas := []string{c09Base, c09Base + "\n", strings.ReplaceAll(c09Base, "\n", "\r\n") + "\r\n", "func x.y/a.F CAPABILITY_FILES\nbogus\n", ""}
		for di, data := range datas {
			for i := 0; i <= len(data); i++ {
				yield(func() string { return fmt.Sprintf("data%d at %d", di, i) }, func(t *mc.T) {
					// Two pieces, with and without empty reads, error early or late.
					for _, joined := range []bool{false, true} {
						for _, e := range []error{io.EOF, errRead} {
							fault := e != io.EOF
							c09File(t, data, &chunkReader{pieces: []string{data[:i], data[i:]}, err: e, joined: joined}, fault)
							c09File(t, data, &chunkReader{pieces: []string{"", data[:i], "", "", data[i:]}, err: e, joined: joined}, fault)
						}
						// The fault strikes after byte i: must be an error,
						// unless what precedes is already one.
						c09File(t, data[:i], &chunkReader{pieces: []string{data[:i]}, err: errRead, joined: joined}, true)
						c09File(t, data[:i], &chunkReader{pieces: []string{data[:i]}, err: io.ErrUnexpectedEOF, joined: joined}, true)
						t.State(6, 6)
					}
					// Three pieces.
					for j := i; j <= len(data); j++ {
						c09File(t, data, &chunkReader{pieces: []string{data[:i], data[i:j], data[j:]}, err: io.EOF}, false)
						t.State(1, 1)
					}
				})
			}
			yield(func() string { return fmt.Sprintf("data%d bytewise", di) }, func(t *mc.T) {
				c09File(t, data, &chunkReader{pieces: strings.Split(data, ""), err: io.EOF}, false)
				c09File(t, data, &chunkReader{pieces: strings.Split(data, ""), err: errRead}, true)
				t.State(2, 2)
			})
		}
	}}
	size := mc.Engine{Name: "size", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		var lens []int
		for _, p := range []int{1 << 12, 1 << 13, 1 << 15, 1 << 16, 1 << 17, 1 << 20} {
			for d := -3; d <= 3; d++ {
				lens = append(lens, p+d)
			}
		}
		forms := map[string]func(n int) string{
			"comment":   func(n int) string { return "#" + strings.Repeat("x", n-1) },
			"spaces":    func(n int) string { return strings.Repeat(" ", n) },
			"separator": func(n int) string { return "func x.y/a.G" + strings.Repeat(" ", max(n-28, 1)) + "CAPABILITY_SAFE" },
			"name":      func(n int) string { return "func " + strings.Repeat("n", n-21) + " CAPABILITY_SAFE" },
			"trailing":  func(n int) string { return "func x.y/a.G CAPABILITY_SAFE#" + strings.Repeat("c", n-29) },
			"cr":        func(n int) string { return strings.Repeat(" ", n-1) + "\r" },
		}
		for _, k := range []string{"comment", "spaces", "separator", "name", "trailing", "cr"} {
			for _, n := range lens {
				for pos := 0; pos < 3; pos++ {
					yield(func() string { return fmt.Sprintf("%s %d at %d", k, n, pos) }, func(t *mc.T) {
						ls := []string{"func x.y/a.F CAPABILITY_FILES", "func x.y/b.G CAPABILITY_NETWORK"}
						long := forms[k](n)
						var all []string
						all = append(all, ls[:pos]...)
						all = append(all, long)
						all = append(all, ls[pos:]...)
						for _, end := range []string{"", "\n"} {
							data := strings.Join(all, "\n") + end
							c, err := interesting.LoadClassifier("the-map-file", strings.NewReader(data), true)
							t.Trace()
							t.State(1, 1)
							// A line that is too long may be rejected, not dropped.
							if err != nil {
								if n < 4096 {
									t.Fail("rejected: %v", err)
								}
								t.Outcome("rejected")
								continue
							}
							want, bad := refParse(data)
							if bad > 0 {
								t.Fail("harness: bad file")
								continue
							}
							if d := c09Agree(c, want); d != "" {
								t.Fail("%s: %s", d, quoteLong(data))
							}
							t.Outcome("accepted")
						}
					})
				}
			}
		}
		// Many lines.
		for _, n := range []int{10, 1000, 5000, 20000, 70000, 300000} {
			for _, bad := range []bool{false, true} {
				yield(func() string { return fmt.Sprintf("%d lines bad=%v", n, bad) }, func(t *mc.T) {
					var b strings.Builder
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "func q%d.F CAPABILITY_FILES\n", i)
					}
					if bad {
						b.WriteString("bogus\n")
					}
					b.WriteString("func x.y/a.F CAPABILITY_NETWORK")
					c09File(t, b.String(), strings.NewReader(b.String()), false)
					t.State(1, 1)
				})
			}
		}
	}}
	// Names are used as they are written.
	names := mc.Engine{Name: "names", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, n := range c09Odd {
			for _, kw := range []string{"func", "package", "unanalyzed"} {
				yield(func() string { return kw + " " + n }, func(t *mc.T) {
					data := kw + " " + n
					if kw != "unanalyzed" {
						data += " CAPABILITY_FILES"
					}
					c, err := interesting.LoadClassifier("the-map-file", strings.NewReader(data+"\n"), true)
					t.Trace()
					t.State(1, 1)
					if err != nil {
						t.Fail("rejected: %v: %s", err, data)
						return
					}
					want, _ := refParse(data)
					for _, fn := range c09Odd {
						for _, pkg := range c09Odd {
							if got := c.FunctionCategory(pkg, fn); !oneOf(got, want.category(pkg, fn)) {
								t.Fail("with %q the function %q of package %q is %v, want %v", data, fn, pkg, got, want.category(pkg, fn))
							}
						}
					}
					t.Outcome(fmt.Sprint(kw))
				})
			}
		}
	}}
	mc.Register(&mc.Check{Prop: "C09", Level: "model_checking",
		Bounds:  "every line of <=4 (thorough 5) tokens, every file of <=4 lines from a 32-line catalogue, every separator/line-end combination, every split of five files into <=3 reads, a read fault at every byte, line lengths around every power of two up to 1 MiB, files of up to 300000 lines, 62 odd names in every role",
		Assume:  []string{"the meaning of a map is observed through its answers for five functions in two packages and all calls between them"},
		Engines: []mc.Engine{lines, files, space, arrival, size, names}})
}
