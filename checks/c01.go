package checks

import (
	"sort"
	"strings"

	"verif/internal/mc"

	cpb "github.com/google/capslock/proto"
)

const graphBounds = "all labelled call graphs of <=3 functions (3 call states, loops, 4 classes), all of 4 functions, all layouts of <=3 functions over packages x queried subsets, source-level capabilities, package entries, initialisers, function kinds, repeated and ignored call sites, closures nested in functions; parametric chains, rings, fans, ladders, trees up to 300 functions, some of 4000 functions or 260 packages; every pair of capabilities; 70 styles of declaration in every function of a chain and in pairs, 34 package paths, 19 kinds of file.  Up to renaming of functions."

var graphAssume = []string{
	"programs are loaded in memory by internal/syn, which mirrors what go/packages returns",
	"one representative per renaming class of functions",
}

func subject(c *cpb.CapabilityInfo) string {
	if len(c.GetPath()) == 0 {
		return ""
	}
	return c.GetPath()[0].GetName()
}

func oracleComplete(t *mc.T, l *Loaded) {
	cil := l.info(l.config())
	got := map[pair]bool{}
	for _, c := range cil.GetCapabilityInfo() {
		got[pair{subject(c), c.GetCapability()}] = true
	}
	var keys []string
	for p := range l.m.pairs() {
		keys = append(keys, p.name+p.cap.String())
		if !got[p] {
			t.Fail("missing: %s has %s in the model but is not reported\nreport:\n%s", p.name, p.cap, cilString(cil))
		}
	}
	sort.Strings(keys)
	t.Outcome(strings.Join(keys, "\n"))
}

func init() {
	mc.Register(&mc.Check{Prop: "C01", Level: "model_checking", Bounds: graphBounds, Assume: graphAssume,
		Engines: graphEngines(graphFamilies, oracleComplete)})
}
