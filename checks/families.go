package checks

import (
	"fmt"

	"verif/internal/mc"
)

// A family enumerates programs.
type family struct {
	name string
	enum func(tier string, yield func(g *GCase))
}

var perms = map[int][][]int{}

func init() {
	for n := 1; n <= 5; n++ {
		var rec func(p []int, used int)
		rec = func(p []int, used int) {
			if len(p) == n {
				perms[n] = append(perms[n], append([]int(nil), p...))
				return
			}
			for i := 0; i < n; i++ {
				if used>>i&1 == 0 {
					rec(append(p, i), used|1<<i)
				}
			}
		}
		rec(nil, 0)
	}
}

// canonical tells whether the (labels, edges) structure is the smallest among
// its renamings.  Renaming functions only changes tie-breaking, so one
// representative of each class is explored (and in the thorough tier a second
// one with reversed names).
func canonical(lab []int, e [][]uint8) bool {
	n := len(lab)
	for _, p := range perms[n][1:] {
		c := 0
		for i := 0; i < n && c == 0; i++ {
			c = lab[p[i]] - lab[i]
		}
		for i := 0; i < n && c == 0; i++ {
			for j := 0; j < n && c == 0; j++ {
				c = int(e[p[i]][p[j]]) - int(e[i][j])
			}
		}
		if c < 0 {
			return false
		}
	}
	return true
}

// labelled enumerates, up to renaming, all graphs over n functions whose
// labels range over [0,nlab), non-loop edges over [0,ne) and loops over [0,nl).
func labelled(n, nlab, ne, nl int, f func(lab []int, e [][]uint8)) {
	lab := make([]int, n)
	e := make([][]uint8, n)
	for i := range e {
		e[i] = make([]uint8, n)
	}
	var edges func(k int)
	edges = func(k int) {
		if k == n*n {
			if canonical(lab, e) {
				f(lab, e)
			}
			return
		}
		i, j := k/n, k%n
		lim := ne
		if i == j {
			lim = nl
		}
		for x := 0; x < lim; x++ {
			e[i][j] = uint8(x)
			edges(k + 1)
		}
		e[i][j] = 0
	}
	var labs func(i, lo int)
	labs = func(i, lo int) {
		if i == n {
			edges(0)
			return
		}
		for x := lo; x < nlab; x++ { // sorted labels suffice up to renaming
			lab[i] = x
			labs(i+1, x)
		}
	}
	labs(0, 0)
}

func copyEdges(g *GCase, e [][]uint8) {
	for i := range e {
		copy(g.E[i], e[i])
	}
}

var classes4 = []Class{classNone, classSafe, capFiles, capNet}
var classes3 = []Class{classNone, classSafe, capFiles}

// famG3: 3 functions, ignored calls, 4 classes.
var famG3 = family{"g3", func(tier string, yield func(*GCase)) {
	for n := 1; n <= 3; n++ {
		labelled(n, 4, 3, 2, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = classes4[lab[i]]
			}
			copyEdges(g, e)
			yield(g)
			if tier == "thorough" {
				h := g.clone()
				h.Rev = true
				yield(h)
			}
		})
	}
}}

// famG3s: like famG3 without ignored calls in the quick tier.
var famG3s = family{"g3", func(tier string, yield func(*GCase)) {
	if tier == "thorough" {
		famG3.enum(tier, yield)
		return
	}
	for n := 1; n <= 3; n++ {
		labelled(n, 4, 2, 2, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = classes4[lab[i]]
			}
			copyEdges(g, e)
			yield(g)
		})
	}
}}

// famIgn: 2 functions with ignored calls, and 3 functions with few classes.
var famIgn = family{"ignored", func(tier string, yield func(*GCase)) {
	for n := 2; n <= 3; n++ {
		labelled(n, 3, 3, 1, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = []Class{classNone, capFiles, capNet}[lab[i]]
			}
			copyEdges(g, e)
			yield(g)
		})
	}
}}

// famG4: 4 functions, no loops in the quick tier.
var famG4 = family{"g4", func(tier string, yield func(*GCase)) {
	nl := 1
	if tier == "thorough" {
		nl = 2
	}
	labelled(4, 4, 2, nl, func(lab []int, e [][]uint8) {
		g := newCase(4)
		for i := range lab {
			g.Fns[i].Class = classes4[lab[i]]
		}
		copyEdges(g, e)
		yield(g)
	})
}}

// famG4i: 4 functions with ignored calls, 3 classes; thorough only.
var famG4i = family{"g4ignored", func(tier string, yield func(*GCase)) {
	if tier != "thorough" {
		return
	}
	labelled(4, 3, 3, 1, func(lab []int, e [][]uint8) {
		g := newCase(4)
		for i := range lab {
			g.Fns[i].Class = classes3[lab[i]]
		}
		copyEdges(g, e)
		yield(g)
	})
}}

// famExtras: capabilities found in the source, with and without a class.
var famExtras = family{"extras", func(tier string, yield func(*GCase)) {
	type lx struct {
		c Class
		x int
	}
	labs := []lx{{classNone, 0}, {classSafe, 0}, {capFiles, 0},
		{classNone, xUnsafe}, {classNone, xReflect}, {classNone, xBodyless}, {classNone, xUnsafe | xReflect},
		{classSafe, xUnsafe}, {classSafe, xBodyless}, {classSafe, xReflect},
		{capFiles, xUnsafe}, {capFiles, xReflect}, {capFiles, xBodyless}, {capUnsafe, 0}}
	for n := 1; n <= 3; n++ {
		nl := 2
		if n == 3 {
			nl = 1
		}
		labelled(n, len(labs), 2, nl, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = labs[lab[i]].c
				g.Fns[i].Extra = labs[lab[i]].x
				if g.Fns[i].Extra&xBodyless != 0 {
					for _, x := range e[i] {
						if x != 0 {
							return
						}
					}
				}
			}
			copyEdges(g, e)
			yield(g)
		})
	}
}}

// famKinds: functions, methods, pointer methods and generic functions.
var famKinds = family{"kinds", func(tier string, yield func(*GCase)) {
	cl := []Class{classNone, classSafe, capFiles}
	for n := 1; n <= 3; n++ {
		nl := 2
		if n == 3 && tier != "thorough" {
			nl = 1
		}
		labelled(n, 4*3, 2, nl, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = cl[lab[i]%3]
				g.Fns[i].Kind = lab[i] / 3
			}
			copyEdges(g, e)
			yield(g)
		})
	}
}}

// famMulti: several calls of the same function, some ignored.
var famMulti = family{"call sites", func(tier string, yield func(*GCase)) {
	for n := 2; n <= 3; n++ {
		cl := []Class{classNone, capFiles}
		if n == 2 || tier == "thorough" {
			cl = []Class{classNone, capFiles, capNet}
		}
		labelled(n, len(cl), 5, 1, func(lab []int, e [][]uint8) {
			g := newCase(n)
			for i := range lab {
				g.Fns[i].Class = cl[lab[i]]
			}
			copyEdges(g, e)
			yield(g)
		})
	}
}}

// famMultiS is a smaller famMulti.
var famMultiS = family{"call sites", func(tier string, yield func(*GCase)) {
	famMulti.enum("quick", func(g *GCase) {
		if tier != "thorough" && len(g.Fns) > 2 {
			for i := range g.E {
				for _, e := range g.E[i] {
					if e == eIgnored {
						return
					}
				}
			}
		}
		yield(g)
	})
}}

// closures enumerates programs whose functions are nested in each other.
func closures(n, loops int, cls []Class, kinds []int, yield func(*GCase)) {
	g := newCase(n)
	var edges func(k int)
	edges = func(k int) {
		if k == n*n {
			yield(g.clone())
			return
		}
		i, j := k/n, k%n
		for x := 0; x < 2; x++ {
			if i == j && x >= loops {
				continue
			}
			g.E[i][j] = uint8(x)
			edges(k + 1)
		}
		g.E[i][j] = 0
	}
	var labs func(i int)
	labs = func(i int) {
		if i == n {
			edges(0)
			return
		}
		for _, c := range cls {
			g.Fns[i].Class = c
			labs(i + 1)
		}
	}
	// Function 0 is the outermost; each further one is nested in an earlier
	// one or not at all.
	var nest func(i, nested int)
	nest = func(i, nested int) {
		if i == n {
			if nested > 0 {
				labs(0)
			}
			return
		}
		for p := 0; p < i; p++ {
			g.Fns[i].Kind, g.Fns[i].In = kClosure, p
			nest(i+1, nested+1)
		}
		for _, k := range kinds {
			g.Fns[i].Kind, g.Fns[i].In = k, 0
			nest(i+1, nested)
		}
	}
	nest(0, 0)
}

// famClosures: functions within functions.
var famClosures = family{"closures", func(tier string, yield func(*GCase)) {
	kinds := []int{kFunc, kPtr}
	closures(2, 2, classes4, kinds, yield)
	if tier == "thorough" {
		closures(3, 2, classes4, []int{kFunc, kMethod, kPtr}, yield)
		closures(4, 1, []Class{classNone, capFiles}, []int{kFunc}, yield)
	} else {
		closures(3, 1, classes3, kinds, yield)
	}
}}

// famClosuresS is a smaller famClosures.
var famClosuresS = family{"closures", func(tier string, yield func(*GCase)) {
	if tier == "thorough" {
		famClosures.enum("quick", yield)
		return
	}
	closures(2, 2, classes3, []int{kFunc, kPtr}, yield)
	closures(3, 1, []Class{classNone, capFiles}, []int{kPtr}, yield)
}}

func partitions(n int, f func(part []int, k int)) {
	part := make([]int, n)
	var rec func(i, k int)
	rec = func(i, k int) {
		if i == n {
			f(part, k)
			return
		}
		for x := 0; x <= k; x++ {
			part[i] = x
			rec(i+1, max(k, x+1))
		}
	}
	rec(0, 0)
}

var layoutPaths = []string{"example.com/a", "example.com/b", "other.org/a", "example.com/a/v2.x"}

// layouts enumerates programs over several packages.
func layouts(n int, cls []Class, loops int, allQueries bool, yield func(*GCase)) {
	partitions(n, func(part []int, k int) {
		lab := make([]int, n)
		var rec func(i int)
		g := newCase(n)
		g.Pkgs = append([]string(nil), layoutPaths[:k]...)
		var edges func(pos int)
		edges = func(pos int) {
			if pos == n*n {
				if !acyclicPkgs(g, part, k) {
					return
				}
				// Canonical up to renaming of functions within the partition
				// structure.
				l2 := make([]int, n)
				for i := range l2 {
					l2[i] = lab[i]
				}
				if !canonicalPart(part, lab, g.E) {
					return
				}
				for q := uint(1); q < 1<<k; q++ {
					if !allQueries && q != 1 && q != 1<<k-1 {
						continue
					}
					h := g.clone()
					h.Query = q
					yield(h)
				}
				return
			}
			i, j := pos/n, pos%n
			lim := 2
			if i == j {
				lim = loops
			}
			for x := 0; x < lim; x++ {
				g.E[i][j] = uint8(x)
				edges(pos + 1)
			}
			g.E[i][j] = 0
		}
		rec = func(i int) {
			if i == n {
				edges(0)
				return
			}
			for x := range cls {
				lab[i] = x
				g.Fns[i].Class = cls[x]
				g.Fns[i].Pkg = part[i]
				rec(i + 1)
			}
		}
		rec(0)
	})
}

// canonicalPart keeps the smallest among renamings that keep the partition.
func canonicalPart(part, lab []int, e [][]uint8) bool {
	n := len(lab)
	for _, p := range perms[n][1:] {
		same := true
		for i := 0; i < n && same; i++ {
			same = part[p[i]] == part[i]
		}
		if !same {
			continue
		}
		c := 0
		for i := 0; i < n && c == 0; i++ {
			c = lab[p[i]] - lab[i]
		}
		for i := 0; i < n && c == 0; i++ {
			for j := 0; j < n && c == 0; j++ {
				c = int(e[p[i]][p[j]]) - int(e[i][j])
			}
		}
		if c < 0 {
			return false
		}
	}
	return true
}

func acyclicPkgs(g *GCase, part []int, k int) bool {
	var adj [8]uint
	for i := range g.E {
		for j, x := range g.E[i] {
			if x != 0 && part[i] != part[j] {
				adj[part[i]] |= 1 << part[j]
			}
		}
	}
	// Remove sinks repeatedly.
	left := uint(1<<k - 1)
	for changed := true; changed; {
		changed = false
		for p := 0; p < k; p++ {
			if left>>p&1 == 1 && adj[p]&left == 0 {
				left &^= 1 << p
				changed = true
			}
		}
	}
	return left == 0
}

var famLayouts = family{"layouts", func(tier string, yield func(*GCase)) {
	layouts(2, classes4, 2, true, yield)
	if tier == "thorough" {
		layouts(3, classes4, 2, true, yield)
		layouts(4, []Class{classNone, capFiles}, 1, false, yield)
	} else {
		layouts(3, classes4, 1, true, yield)
	}
}}

// famPkgEntries: package-level entries, package initialisers.
var famPkgEntries = family{"pkgentries", func(tier string, yield func(*GCase)) {
	entries := []Class{classNone, classSafe, capFiles, capNet}
	fcls := []Class{classNone, capNet}
	if tier == "thorough" {
		fcls = classes4
	}
	layouts(2, fcls, 2, true, func(g *GCase) { pkgEntries(g, entries, yield) })
	layouts(3, fcls, 1, tier == "thorough", func(g *GCase) {
		if len(g.Pkgs) > 2 && tier != "thorough" {
			return
		}
		pkgEntries(g, entries, yield)
	})
}}

func pkgEntries(g *GCase, entries []Class, yield func(*GCase)) {
	k := len(g.Pkgs)
	pc := make([]Class, k)
	var rec func(p int)
	rec = func(p int) {
		if p == k {
			h := g.clone()
			h.PCls = append([]Class(nil), pc...)
			yield(h)
			return
		}
		for _, c := range entries {
			pc[p] = c
			rec(p + 1)
		}
	}
	rec(0)
}

// famInits: functions called from package initialisation.
var famInits = family{"inits", func(tier string, yield func(*GCase)) {
	gen := func(g *GCase) {
		k := len(g.Pkgs)
		total := uint(len(g.Fns))
		var rec func(p int, pi []uint)
		rec = func(p int, pi []uint) {
			if p == k {
				h := g.clone()
				h.PIni = append([]uint(nil), pi...)
				if _, _, err := h.render(); err != nil {
					return // import cycle
				}
				yield(h)
				return
			}
			for m := uint(0); m < 1<<total; m++ {
				rec(p+1, append(pi, m))
			}
		}
		rec(0, nil)
	}
	layouts(2, classes3, 1, true, gen)
	if tier == "thorough" {
		layouts(3, classes3, 1, false, gen)
	}
}}

// famBig: parametric families beyond the exhaustive size.
var famBig = family{"parametric", func(tier string, yield func(*GCase)) {
	sizes := []int{5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66, 70, 71, 80, 90, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	if tier == "thorough" {
		sizes = append(sizes, 400, 511, 512, 513, 600)
		for i := 5; i < 140; i++ {
			sizes = append(sizes, i)
		}
	}
	for _, n := range sizes {
		for _, rev := range []bool{false, true} {
			// Chain.
			g := newCase(n)
			for i := 0; i+1 < n; i++ {
				g.E[i][i+1] = eCall
			}
			g.Fns[n-1].Class = capFiles
			g.Rev = rev
			yield(g)
			// Ring with a capability hanging off it.
			h := g.clone()
			h.E[n-2][0] = eCall
			yield(h)
			// Chain with two capabilities, one in the middle is classified.
			h = g.clone()
			h.Fns[n/2].Class = capNet
			yield(h)
			h = g.clone()
			h.Fns[n/2].Class = classSafe
			yield(h)
			// Fan in: everyone calls the last; fan out: first calls everyone.
			h = newCase(n)
			h.Rev = rev
			for i := 0; i+1 < n; i++ {
				h.E[i][n-1] = eTwice
			}
			h.Fns[n-1].Class = capFiles
			yield(h)
			h = newCase(n)
			h.Rev = rev
			for i := 1; i < n; i++ {
				h.E[0][i] = eCall
				if i%2 == 1 {
					h.Fns[i].Class = []Class{capFiles, capNet, classSafe, capUnan, capCgo, capRefl}[i/2%6]
				}
			}
			yield(h)
			// Ladder of diamonds: exponentially many paths.
			h = newCase(n)
			h.Rev = rev
			for i := 0; i+1 < n; i++ {
				h.E[i][i+1] = eCall
				if i+2 < n {
					h.E[i][i+2] = eCall
				}
			}
			h.Fns[n-1].Class = capFiles
			h.Fns[n-2].Class = capNet
			yield(h)
			// Tree.
			h = newCase(n)
			h.Rev = rev
			for i := 1; i < n; i++ {
				h.E[(i-1)/2][i] = eCall
			}
			h.Fns[n-1].Class = capFiles
			h.Fns[n/2].Class = capNet
			yield(h)
			// Files and kinds.
			h = g.clone()
			h.Files = 3
			for i := range h.Fns {
				h.Fns[i].Kind = i % 4
			}
			yield(h)
			// Chain of packages.
			if n <= 100 {
				h = g.clone()
				h.Pkgs = nil
				for i := range h.Fns {
					h.Fns[i].Pkg = i
					h.Pkgs = append(h.Pkgs, fmt.Sprintf("example.com/p%03d", i))
				}
				yield(h)
				if n <= 60 {
					h = h.clone()
					h.Query = 1<<n - 1
					yield(h)
				}
			}
		}
	}
	// Every capability alone, in pairs, with safe and none in front.
	for c := Class(2); c <= 14; c++ {
		for d := Class(0); d <= 14; d++ {
			g := newCase(4)
			g.E[0][1], g.E[1][2], g.E[1][3] = 1, 1, 1
			g.Fns[2].Class, g.Fns[3].Class = c, d
			yield(g)
			g = g.clone()
			g.Rev = true
			yield(g)
		}
	}
	// All capabilities at once.
	g := newCase(16)
	for i := 2; i <= 14; i++ {
		g.E[0][i] = 1
		g.E[1][i] = 1
		g.Fns[i].Class = Class(i)
	}
	g.E[15][0] = 1
	yield(g)
}}

// famCounts: two functions calling any of three functions, with every three
// capabilities, of a package that is not queried.
var famCounts = family{"counts", func(tier string, yield func(*GCase)) {
	for a := Class(2); a <= 14; a++ {
		for b := a + 1; b <= 14; b++ {
			for c := b + 1; c <= 14; c++ {
				for mask := 1; mask < 64; mask++ {
					if mask&7 < mask>>3 {
						continue // the same with the callers exchanged
					}
					g := newCase(5)
					g.Pkgs = []string{"example.com/a", "example.com/b"}
					for k, cl := range []Class{a, b, c} {
						g.Fns[2+k].Pkg, g.Fns[2+k].Class = 1, cl
						g.E[0][2+k], g.E[1][2+k] = uint8(mask>>k&1), uint8(mask>>(3+k)&1)
					}
					yield(g)
				}
			}
		}
	}
}}

// famLarge: few shapes, large sizes.
var famLarge = family{"large", func(tier string, yield func(*GCase)) {
	chains, fans, pkgs := []int{513, 1025}, []int{1025, 2049, 4099}, []int{150, 260}
	if tier == "thorough" {
		chains, fans, pkgs = append(chains, 2049), append(fans, 8195), append(pkgs, 600)
	}
	for _, n := range chains {
		g := newCase(n)
		for i := 0; i+1 < n; i++ {
			g.E[i][i+1] = eCall
		}
		g.Fns[n-1].Class = capFiles
		yield(g)
		g = g.clone()
		g.E[n-2][0], g.Fns[n/2].Class, g.Rev = eCall, capNet, true
		yield(g)
	}
	for _, n := range fans {
		in, out, tree, two := newCase(n), newCase(n), newCase(n), newCase(n)
		for i := 1; i < n; i++ {
			in.E[i][0] = eCall
			out.E[0][i] = eCall
			tree.E[(i-1)/2][i] = eCall
			// Half of the functions call one with a capability through the first.
			if i+1 < n {
				two.E[i][(i%2)*(n-1)] = eCall
			}
		}
		in.Fns[0].Class = capFiles
		out.Fns[n-1].Class, out.Fns[n/2].Class, out.Fns[1].Class = capFiles, capNet, classSafe
		tree.Fns[n-1].Class, tree.Fns[n/2].Class = capFiles, capNet
		two.E[0][n-1], two.Fns[n-1].Class = eCall, capFiles
		for _, g := range []*GCase{in, out, tree, two} {
			yield(g)
		}
	}
	for _, n := range pkgs {
		// A chain of packages, and one package importing all others.
		g, h := newCase(n), newCase(n)
		g.Pkgs, h.Pkgs = nil, nil
		for i := range g.Fns {
			if i+1 < n {
				g.E[i][i+1] = eCall
			}
			if i > 0 {
				h.E[0][i] = eCall
			}
			g.Fns[i].Pkg, h.Fns[i].Pkg = i, i
			g.Pkgs = append(g.Pkgs, fmt.Sprintf("example.com/p%03d", i))
		}
		h.Pkgs = append(h.Pkgs, g.Pkgs...)
		g.Fns[n-1].Class = capFiles
		h.Fns[n-1].Class, h.Fns[n/3].Class = capFiles, capNet
		yield(g)
		yield(h)
	}
}}

var graphFamilies = []family{famG3, famG4, famG4i, famExtras, famKinds, famMulti, famClosures, famLayouts, famPkgEntries, famInits, famBig, famCounts, famLarge, famStyles, famIgnStyles, famPkgStyles, famDecls}

// modeFamilies are used by checks that run many output modes per program.
var modeFamilies = []family{famG3s, famIgn, famExtras, famKinds, famMultiS, famClosuresS, famLayouts, famPkgEntries, famInits, famBig, famStyles, famIgnStyles}

// graphEngines turns families and an oracle into engines.
func graphEngines(fams []family, oracle func(t *mc.T, l *Loaded)) []mc.Engine {
	var out []mc.Engine
	for _, f := range fams {
		out = append(out, mc.Engine{Name: f.name, Enum: func(tier string, yield func(func() string, func(*mc.T))) {
			f.enum(tier, func(g *GCase) {
				yield(g.ID, func(t *mc.T) { runGraphCase(t, g, oracle) })
			})
		}})
	}
	return out
}

func runGraphCase(t *mc.T, g *GCase, oracle func(*mc.T, *Loaded)) {
	l, err := g.load()
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
	t.State(l.m.states, l.m.transitions)
	oracle(t, l)
	t.Trace()
	if t.Failed() {
		l.describe(t)
	}
}
