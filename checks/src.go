package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"

	"verif/internal/mc"
	"verif/internal/syn"
)

// srcCase is a program given as source text with the pairs expected of it.
type srcCase struct {
	pkgs    []syn.Pkg
	query   []string
	cm      string // capability map
	builtin bool   // also use the built-in map
	noExtra bool   // disable source-level analyses
}

// analyse returns the reported capabilities of each function.
func (s *srcCase) analyse(t *mc.T) map[string][]Class {
	prog, err := syn.Load(s.pkgs)
	if err != nil {
		t.Broken("%v\n%s", err, s.text())
	}
	cls, err := interesting.LoadClassifier("case.cm", strings.NewReader(s.cm), !s.builtin)
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	q := prog.Query(s.query...)
	cil := analyzer.GetCapabilityInfo(q, analyzer.GetQueriedPackages(q), &analyzer.Config{Classifier: cls, DisableBuiltin: s.noExtra})
	t.Trace()
	out := map[string][]Class{}
	for _, c := range cil.GetCapabilityInfo() {
		out[subject(c)] = append(out[subject(c)], c.GetCapability())
	}
	return out
}

func (s *srcCase) text() string {
	var b strings.Builder
	if s.cm != "" {
		b.WriteString("-- map --\n" + s.cm + "\n")
	}
	for _, p := range s.pkgs {
		for _, f := range p.Files {
			b.WriteString("-- " + p.Path + "/" + f.Name + " --\n" + f.Src + "\n")
		}
	}
	return b.String()
}

func (s *srcCase) describe(t *mc.T) { t.Detail(s.text()) }

func showCaps(m map[string][]Class) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s: %v", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// expectCap checks that exactly the named functions have the capability.
func expectCap(t *mc.T, got map[string][]Class, c Class, want []string, ignore func(string) bool) {
	w := map[string]bool{}
	for _, n := range want {
		w[n] = true
		if !oneOf(c, got[n]) {
			t.Fail("%s is not reported with %v\nreport:\n%s", n, c, showCaps(got))
		}
	}
	for n, cs := range got {
		if oneOf(c, cs) && !w[n] && (ignore == nil || !ignore(n)) {
			t.Fail("%s is wrongly reported with %v\nreport:\n%s", n, c, showCaps(got))
		}
	}
}
