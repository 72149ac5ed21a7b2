package checks

import (
	"fmt"

	"verif/internal/mc"
)

// c17Revisions is the number of pairs of reports compared as revisions.
const c17Revisions = 8

// c17Reports makes the older and the newer report: capabilities that are new,
// that have new uses and that do not change, in several packages with paths
// through one another.
func c17Reports(k int) (old, cur []c27Entry) {
	pkgs := []string{"example.com/p", "example.com/q", "example.com/r", "other.org/p", "other.org/s"}
	caps := c27Caps[:3+k]
	for ci, c := range caps {
		for pi, p := range pkgs {
			e := c27Entry{capability: "CAPABILITY_" + c, pkg: p, path: c27Path("os.Leaf", p)}
			if k%2 == 1 {
				e.path = c27Path("os.Leaf", p, pkgs[(pi+1)%len(pkgs)], pkgs[(pi+ci)%len(pkgs)])
			}
			cur = append(cur, e)
			if ci%3 == 1 && pi == 0 || ci%3 == 2 && pi < 3 && k > 3 {
				old = append(old, e)
			}
		}
	}
	if k%4 >= 2 {
		old = append(old, c27Entry{capability: "CAPABILITY_EXEC", pkg: "gone.org/x", path: c27Path("os.Leaf", "gone.org/x")})
	}
	return old, cur
}

// c17Revision compares two revisions under orders of iteration.
func c17Revision(t *mc.T, tier string, k int, gran string) {
	old, cur := c17Reports(k)
	b, name := c27Repo(t, c27Report(old))
	b.write("r/caps.json", c27Report(cur))
	seeds := 3
	if tier == "thorough" {
		seeds = 12
	}
	var ref ran
	for seed := 0; seed < seeds; seed++ {
		for all := 0; all < 8; all++ {
			r := b.run("r", []string{fmt.Sprintf("MC_MAP=%d,%d", all, seed)}, t.Bin("capslock-git-diff-mapctl"), "-granularity="+gran, name, ".")
			t.Trace()
			t.State(1, 1)
			if r.code == 2 {
				t.Broken("%v", r)
			}
			if seed == 0 && all == 0 {
				ref = r
			} else if r.out != ref.out || r.code != ref.code {
				t.Fail("the comparison depends on the order of iteration: every iteration starts at %d with seed %d\n--- usual order\n%s\n--- other order\n%s", all, seed, firstDiff(ref.out, r.out), firstDiff(r.out, ref.out))
				return
			}
		}
	}
	t.Outcome(ref.out)
}
