package checks

import (
	"fmt"
	"strings"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/proto"

	"verif/internal/mc"
)

// C14: capability filters select exactly the named capabilities.

var allCaps = func() []Class {
	var caps []Class
	for c := range cpb.Capability_name {
		caps = append(caps, Class(c))
	}
	sortClasses(caps)
	return caps
}()

// refSet is the reference meaning of a capability list: nil if malformed.
func refSet(s string) func(Class) bool {
	if s == "" {
		return all
	}
	names := map[string]Class{}
	for _, c := range allCaps {
		names[c.String()] = c
		names[strings.TrimPrefix(c.String(), "CAPABILITY_")] = c
	}
	sel := map[Class]bool{}
	neg, plain := 0, 0
	for _, x := range strings.Split(s, ",") {
		if strings.HasPrefix(x, "-") {
			neg++
			x = x[1:]
		} else {
			plain++
		}
		c, ok := names[x]
		if !ok {
			return nil
		}
		sel[c] = true
	}
	if neg > 0 && plain > 0 {
		return nil
	}
	return func(c Class) bool { return sel[c] != (neg > 0) }
}

func c14List(t *mc.T, s string) {
	want := refSet(s)
	cs, err := analyzer.NewCapabilitySet(s)
	t.Trace()
	t.State(1, 1)
	if want == nil {
		if err == nil {
			t.Fail("malformed list %q accepted", s)
		}
		return
	}
	if err != nil {
		t.Fail("list %q rejected: %v", s, err)
		return
	}
	for _, c := range allCaps {
		if got := cs.Has(c); got != want(c) {
			t.Fail("list %q: %v selected: %v, want %v", s, c, got, want(c))
		}
	}
}

// entryStrings renders the entries of a list.
func entryStrings(cil *cpb.CapabilityInfoList, sel func(Class) bool) string {
	var b strings.Builder
	for _, c := range cil.GetCapabilityInfo() {
		if sel(c.GetCapability()) {
			d, err := proto.MarshalOptions{Deterministic: true}.Marshal(c)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(&b, "%s %s %s %x\n", c.GetCapability(), c.GetPackageDir(), pathNames(c.GetPath()), d)
		}
	}
	return b.String()
}

func oracleFilters(t *mc.T, l *Loaded) {
	if len(l.m.reach) == 0 {
		return
	}
	var caps []Class
	for c := range l.m.reach {
		caps = append(caps, c)
	}
	sortClasses(caps)
	caps = append(caps, capCgo)
	cfg := l.config()
	cfg.Granularity = analyzer.GranularityIntermediate
	full := l.info(cfg)
	for mask := 1; mask < 1<<len(caps); mask++ {
		for _, neg := range []string{"", "-"} {
			var names []string
			for i, c := range caps {
				if mask>>i&1 == 1 {
					n := c.String()
					if i%2 == 0 {
						n = strings.TrimPrefix(n, "CAPABILITY_")
					}
					names = append(names, neg+n)
				}
			}
			s := strings.Join(names, ",")
			cs, err := analyzer.NewCapabilitySet(s)
			if err != nil {
				t.Fail("%q rejected: %v", s, err)
				return
			}
			sel := refSet(s)
			cfg := l.config()
			cfg.Granularity = analyzer.GranularityIntermediate
			cfg.CapabilitySet = cs
			got := l.info(cfg)
			if a, b := entryStrings(got, all), entryStrings(full, sel); a != b {
				t.Fail("intermediate view with filter %q:\n%s\nwant\n%s", s, a, b)
			}
			// The callback form of the graph.
			graphWith(t, l, s)
			t.Trace()
			t.Outcome(s + cilString(got))
		}
	}
}

func init() {
	lists := mc.Engine{Name: "lists", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		var toks []string
		for _, c := range allCaps {
			n := c.String()
			s := strings.TrimPrefix(n, "CAPABILITY_")
			toks = append(toks, n, s, "-"+n, "-"+s)
		}
		bad := []string{"", "-", "--FILES", "files", " FILES", "FILES ", "CAPABILITY_", "CAPABILITY_CAPABILITY_FILES", "-CAPABILITY_", "BOGUS", "-BOGUS", "FILE", "FILESS", "3", "+FILES", "FILES;NETWORK", "*", "capability_files", "Capability_FILES", "FILES-", "!FILES", "CAPABILITY_-FILES", "-capability_files"}
		toks = append(toks, bad...)
		yield(func() string { return "(empty)" }, func(t *mc.T) { c14List(t, "") })
		for _, a := range toks {
			yield(func() string { return a }, func(t *mc.T) {
				c14List(t, a)
				for _, b := range toks {
					c14List(t, a+","+b)
					t.Outcome(fmt.Sprint(refSet(a+","+b) == nil, a, b))
					if tier == "thorough" {
						for _, c := range toks {
							c14List(t, a+","+b+","+c)
						}
					}
				}
				// Three elements, the third from a reduced set.
				for _, b := range toks {
					for _, c := range []string{"FILES", "-FILES", "CAPABILITY_NETWORK", "-CAPABILITY_NETWORK", "", "BOGUS", "-"} {
						c14List(t, a+","+b+","+c)
					}
				}
			})
		}
	}}
	// Every spelling one edit away from a name.
	spellings := mc.Engine{Name: "spellings", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		for _, c := range allCaps {
			for _, n := range []string{c.String(), strings.TrimPrefix(c.String(), "CAPABILITY_")} {
				for _, sign := range []string{"", "-"} {
					yield(func() string { return sign + n }, func(t *mc.T) {
						try := func(s string) {
							for _, l := range []string{s, s + "," + sign + "FILES", sign + "FILES," + s} {
								c14List(t, l)
							}
							t.Outcome(fmt.Sprint(refSet(s) == nil))
						}
						for i := 0; i <= len(n); i++ {
							for _, x := range []string{"_", "-", " ", "\t", "\n", "\x00", "+", ".", "*", "a", "A", "S", "0", "\u00a0"} {
								try(sign + n[:i] + x + n[i:])
								if i < len(n) {
									try(sign + n[:i] + x + n[i+1:])
								}
							}
							if i < len(n) {
								try(sign + n[:i] + n[i+1:])
								try(sign + n[:i] + strings.ToLower(n[i:i+1]) + n[i+1:])
								try(sign + strings.ToLower(n[:i]) + n[i:])
								try(sign + n[:i])
								try(sign + n[i:])
							}
							if i+1 < len(n) {
								try(sign + n[:i] + n[i+1:i+2] + n[i:i+1] + n[i+2:])
							}
						}
					})
				}
			}
		}
	}}
	subsets := mc.Engine{Name: "subsets", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
		n := len(allCaps)
		if n > 20 {
			n = 20
		}
		low := n / 2
		for hi := 0; hi < 1<<(n-low); hi++ {
			yield(func() string { return fmt.Sprintf("high bits %b", hi) }, func(t *mc.T) {
				for lo := 0; lo < 1<<low; lo++ {
					mask := hi<<low | lo
					if mask == 0 {
						continue
					}
					var a, b []string
					for i := 0; i < n; i++ {
						if mask>>i&1 == 1 {
							a = append(a, allCaps[i].String())
							b = append(b, "-"+strings.TrimPrefix(allCaps[i].String(), "CAPABILITY_"))
						}
					}
					for k, s := range []string{strings.Join(a, ","), strings.Join(b, ",")} {
						cs, err := analyzer.NewCapabilitySet(s)
						if err != nil {
							t.Fail("%q rejected: %v", s, err)
							return
						}
						for i := 0; i < n; i++ {
							if got, want := cs.Has(allCaps[i]), (mask>>i&1 == 1) == (k == 0); got != want {
								t.Fail("%q: %v selected %v", s, allCaps[i], got)
							}
						}
						t.Add("subsets", 1)
						t.State(1, int64(len(a)))
					}
				}
				t.Trace()
			})
		}
	}}
	mc.Register(&mc.Check{Prop: "C14", Level: "model_checking", Setup: buildCommands,
		Bounds:  "every list of <=2 tokens (and <=3 with a reduced third; thorough: any third) over all capability spellings and 23 malformed ones; every spelling one edit away from a capability's name, alone and next to a name; every subset of the capabilities in both polarities; call graphs x every subset of the capabilities present plus one absent x both polarities, graph output and intermediate view; the built command against the library for every combination of the flags concerned",
		Assume:  graphAssume,
		Engines: append([]mc.Engine{lists, spellings, subsets, commandEngine(c20Outs[:5], dimCaps, dimGran)}, graphEngines([]family{famG3s, famExtras, famLayouts, famStyles}, oracleFilters)...)})
}
