package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"verif/internal/mc"
)

// C21: revision comparison reports exactly what the newer revision adds.

// c21Stub stands for capslock: it prints the file caps.json of the directory
// it is run in, and logs that directory and the files in it.
const c21Stub = `#!/bin/sh
{
	echo "run $(pwd -P)"
	echo "args $*"
	find . -type f -not -path './.git/*' -not -path './.git' -not -path '*/tmp/*' | LC_ALL=C sort | while read -r f; do
		echo "file $f $(git hash-object --no-filters -- "$f")"
	done
} >> "$C21_LOG"
if [ -f caps.json ]; then cat caps.json; else echo '{}'; fi
`

// c21Git stands for git: it fails at the given invocation.
const c21Git = `#!/bin/sh
n=$(cat "$C21_COUNT")
n=$((n+1))
echo $n > "$C21_COUNT"
echo "$n $*" >> "$C21_LOG.git"
if [ "$n" = "$C21_FAILAT" ]; then
	case $C21_FAILKIND in
	silent) exit 1 ;;
	late) %[1]s "$@"; exit 1 ;;
	killed) kill -9 $$ ;;
	esac
fi
exec %[1]s "$@"
`

var reGitDiff = regexp.MustCompile(`(?m)^(?:Package|Function)s? (.+) ha(?:s|ve) capability (CAPABILITY_\w+):$`)

func parseGitDiff(out string) map[string]int {
	got := map[string]int{}
	for _, m := range reGitDiff.FindAllStringSubmatch(out, -1) {
		for _, k := range strings.Split(m[1], ", ") {
			got[k+" "+m[2]]++
		}
	}
	return got
}

// c21Check compares the outcome with the expected pairs.
func c21Check(t *mc.T, what string, r ran, want map[string]bool) {
	t.Trace()
	code := 0
	if len(want) > 0 {
		code = 1
	}
	if r.code != code {
		t.Fail("%s: expected exit status %d\n%v", what, code, r)
		return
	}
	got := parseGitDiff(r.out)
	for k := range want {
		if got[k] != 1 {
			t.Fail("%s: %s announced %d times\n%v", what, k, got[k], r)
		}
	}
	for k := range got {
		if !want[k] {
			t.Fail("%s: %s wrongly announced\n%v", what, k, r)
		}
	}
	t.Outcome(fmt.Sprint(got))
}

// c21Entry is an entry of a report.
func c21Entry(pkg, capability string, through ...string) map[string]any {
	var path []any
	for _, p := range append([]string{pkg}, through...) {
		path = append(path, map[string]any{"name": p + ".F", "package": p, "site": map[string]any{"filename": "f.go", "line": "3", "column": "4"}})
	}
	path = append(path, map[string]any{"name": "os.Leaf", "package": "os"})
	return map[string]any{"packageName": filepath.Base(pkg), "capability": capability, "packageDir": pkg, "path": path, "depPath": pkg + ".F os.Leaf", "capabilityType": "CAPABILITY_TYPE_DIRECT"}
}

func c21Report(entries ...any) string {
	b, err := json.MarshalIndent(map[string]any{"capabilityInfo": append([]any{}, entries...)}, "", " ")
	if err != nil {
		panic(err)
	}
	return string(b)
}

var c21Caps = []string{"CAPABILITY_FILES", "CAPABILITY_NETWORK"}
var c21Pkgs = []string{"example.com/p", "example.com/q"}

// c21Set renders a set of pairs given as a mask; through makes the first
// package reach the capability through the second.
func c21Set(mask int, through bool) (string, []string) {
	var es []any
	var names []string
	for p := range c21Pkgs {
		for c := range c21Caps {
			if mask>>(2*p+c)&1 == 1 {
				if p == 0 && through {
					es = append(es, c21Entry(c21Pkgs[0], c21Caps[c], c21Pkgs[1]))
				} else {
					es = append(es, c21Entry(c21Pkgs[p], c21Caps[c]))
				}
				names = append(names, c21Pkgs[p])
			}
		}
	}
	return c21Report(es...), names
}

// c21Box makes a box with the stand-ins and an empty repository.
func c21Box(t *mc.T) *box {
	b := newBox(t)
	b.write("stub/capslock", c21Stub, "home.git", "", "log", "", "count", "0\n")
	os.Chmod(b.path("stub/capslock"), 0o755)
	for i, e := range b.env {
		if p, ok := strings.CutPrefix(e, "PATH="); ok {
			b.env[i] = "PATH=" + b.path("stub") + ":" + p
		}
	}
	b.env = append(b.env, "C21_LOG="+b.path("log"), "C21_COUNT="+b.path("count"), "GIT_CONFIG_GLOBAL="+b.path("home.git"), "GIT_TERMINAL_PROMPT=0")
	b.mkdir("r")
	b.must("r", "git", "init", "-q", "-b", "main", ".")
	return b
}

func (b *box) git(dir string, args ...string) string { return b.must(dir, "git", args...) }

func (b *box) gitdiff(dir string, env []string, args ...string) ran {
	return b.run(dir, env, b.t.Bin("capslock-git-diff"), args...)
}

// c21Sets is a repository with a branch for each set, kept by the worker.
var c21Sets struct {
	b *box
}

func c21SetsBox(t *mc.T) *box {
	if c21Sets.b != nil {
		c21Sets.b.t = t
		return c21Sets.b
	}
	b := c21Box(t)
	b.write("r/go.mod", "module example.com/m\n")
	b.git("r", "add", ".")
	b.git("r", "commit", "-qm", "start")
	for thr := 0; thr < 2; thr++ {
		for m := 0; m < 16; m++ {
			b.git("r", "checkout", "-q", "-b", fmt.Sprintf("s%d-%d", thr, m), "main")
			s, _ := c21Set(m, thr == 1)
			b.write("r/caps.json", s)
			b.git("r", "add", ".")
			b.git("r", "commit", "-qm", fmt.Sprintf("set %d", m))
		}
	}
	b.git("r", "checkout", "-q", "main")
	c21Sets.b = b
	return b
}

func c21Difference(t *mc.T, thr, m1, m2 int, gran string) {
	b := c21SetsBox(t)
	want := map[string]bool{}
	for p := range c21Pkgs {
		for c := range c21Caps {
			if bit := 2*p + c; m2>>bit&1 == 1 && m1>>bit&1 == 0 {
				k := c21Pkgs[p]
				if gran == "function" || gran == "" {
					k += ".F"
				}
				want[k+" "+c21Caps[c]] = true
			}
		}
	}
	args := []string{fmt.Sprintf("s%d-%d", thr, m1), fmt.Sprintf("s%d-%d", thr, m2)}
	if gran != "intermediate" {
		args = append([]string{"-granularity=" + gran}, args...)
	}
	r := b.gitdiff("r", nil, args...)
	c21Check(t, strings.Join(args, " "), r, want)
	t.State(1, 1)
	// The summary names exactly the capabilities concerned.
	names := map[string]bool{}
	for _, m := range regexp.MustCompile(`(?m)^ +(CAPABILITY_\w+): `).FindAllStringSubmatch(r.out, -1) {
		names[m[1]] = true
	}
	for _, c := range c21Caps {
		has := false
		for k := range want {
			has = has || strings.HasSuffix(k, " "+c)
		}
		if has != names[c] {
			t.Fail("summary: %s listed: %v, expected %v\n%v", c, names[c], has, r)
		}
	}
}

// c21States are the states of the user's repository.
var c21States = []string{"on main", "on another branch", "detached", "dirty", "subdirectory", "worktree", "hook variables", "hook variables in worktree", "bare HEAD behind", "odd path"}

var c21Names = []string{".", "main", "feature/x", "light", "annotated", "origin/main", "origin/only", "HEAD", "HEAD~1", "main~1", "feature/x~1", "main^", "@", "FULL", "SHORT", "DANGLING", "refs/heads/main", "refs/tags/light", "refs/remotes/origin/main", "annotated^{}", "main@{1}", "@{upstream}", "main@{upstream}", "stash@{0}", ":/second", "heads/main", "tags/annotated", "remotes/origin/only", "v1.0-1-gDESC", "main^{/second}"}

// c21Repo is a repository with every kind of name; each commit has a report
// naming the commit.
type c21Repo struct {
	b        *box
	dir      string // where the command is run
	env      []string
	names    map[string]string // placeholders
	worktree bool
}

var c21Repos = map[string]*c21Repo{}

func c21GetRepo(t *mc.T, state string) *c21Repo {
	if r := c21Repos[state]; r != nil {
		r.b.t = t
		return r
	}
	b := c21Box(t)
	if state == "odd path" {
		if err := os.Rename(b.path("r"), b.path("a b's")); err != nil {
			t.Broken("%v", err)
		}
		b.mkdir("r")
	}
	repo := "r"
	if state == "odd path" {
		repo = "a b's"
	}
	r := &c21Repo{b: b, dir: repo, names: map[string]string{}}
	n := 0
	put := func(dir, tag string, msg string) {
		n++
		b.write(dir+"/caps.json", c21Report(c21Entry("example.com/common", "CAPABILITY_FILES"), c21Entry("example.com/"+tag, "CAPABILITY_NETWORK")))
		b.write(dir+"/sub/deep/caps.json", c21Report(c21Entry("example.com/deep", "CAPABILITY_FILES"), c21Entry("example.com/deep-"+tag, "CAPABILITY_NETWORK")))
		b.write(dir+"/only-"+tag+".go", "package m\n")
		b.git(dir, "add", "-A")
		b.git(dir, "commit", "-qm", msg)
	}
	// A remote repository, which the user's main branch has departed from.
	b.mkdir("up")
	b.git("up", "init", "-q", "-b", "main", ".")
	put("up", "first", "first")
	put("up", "upmain", "upstream main")
	b.git("up", "checkout", "-q", "-b", "only")
	put("up", "uponly", "upstream only")
	b.git(repo, "remote", "add", "origin", b.path("up"))
	b.git(repo, "fetch", "-q", "origin")
	b.git(repo, "checkout", "-q", "-b", "main", "origin/main~1")
	b.git(repo, "branch", "-q", "--set-upstream-to=origin/main", "main")
	put(repo, "second", "second")
	b.git(repo, "tag", "light")
	put(repo, "third", "third")
	b.git(repo, "tag", "-a", "-m", "annotated", "annotated")
	put(repo, "fourth", "fourth")
	b.git(repo, "checkout", "-q", "-b", "feature/x")
	b.git(repo, "branch", "-q", "--set-upstream-to=main", "feature/x")
	put(repo, "feat1", "feature one")
	put(repo, "feat2", "feature two")
	b.git(repo, "checkout", "-q", "--detach")
	put(repo, "dangling", "dangling")
	r.names["DANGLING"] = b.git(repo, "rev-parse", "HEAD")
	b.git(repo, "checkout", "-q", "main")
	r.names["FULL"] = b.git(repo, "rev-parse", "main~2")
	r.names["SHORT"] = b.git(repo, "rev-parse", "--short", "feature/x~1")
	r.names["v1.0-1-gDESC"] = "v1.0-1-g" + b.git(repo, "rev-parse", "--short", "main~1")
	// A stash.
	b.write(repo+"/caps.json", c21Report(c21Entry("example.com/stashed", "CAPABILITY_NETWORK")))
	b.git(repo, "stash", "-q")
	dirty := func(dir string) {
		b.write(dir+"/caps.json", c21Report(c21Entry("example.com/common", "CAPABILITY_FILES"), c21Entry("example.com/dirty", "CAPABILITY_NETWORK")))
		b.write(dir+"/staged.go", "package m\n")
		b.git(dir, "add", "staged.go")
		b.write(dir+"/untracked.go", "package m\n")
		b.git(dir, "rm", "-q", "--cached", "only-first.go")
	}
	switch state {
	case "on another branch":
		b.git(repo, "checkout", "-q", "feature/x")
	case "detached":
		b.git(repo, "checkout", "-q", "--detach", "light")
	case "dirty", "odd path":
		dirty(repo)
	case "subdirectory":
		dirty(repo)
		r.dir = repo + "/sub/deep"
	case "worktree":
		b.git(repo, "worktree", "add", "-q", "-b", "tree", "../w", "feature/x")
		put("w", "tree", "in worktree")
		dirty("w")
		r.dir = "w"
	case "hook variables":
		dirty(repo)
		r.env = []string{"GIT_DIR=" + b.path(repo, ".git"), "GIT_WORK_TREE=" + b.path(repo), "GIT_INDEX_FILE=" + b.path(repo, ".git/index"), "GIT_PREFIX="}
	case "hook variables in worktree":
		b.git(repo, "worktree", "add", "-q", "-b", "tree", "../w", "feature/x")
		put("w", "tree", "in worktree")
		r.dir = "w"
		r.env = []string{"GIT_DIR=" + b.path(repo, ".git/worktrees/w"), "GIT_INDEX_FILE=" + b.path(repo, ".git/worktrees/w/index")}
	case "bare HEAD behind":
		b.git(repo, "checkout", "-q", "-b", "old", "main~2")
		b.git(repo, "branch", "-q", "--set-upstream-to=origin/only", "old")
	}
	c21Repos[state] = r
	return r
}

// resolve returns what the name stands for in the user's repository: the
// directory's files and the pairs of its report; ok is false if it has none.
func (r *c21Repo) resolve(name string) (files []string, pairs map[string]bool, ok bool) {
	pairs = map[string]bool{}
	var caps string
	if name == "." {
		c, err := os.ReadFile(filepath.Join(r.b.path(r.dir), "caps.json"))
		if err != nil {
			r.b.t.Broken("%v", err)
		}
		caps = string(c)
	} else {
		res := r.b.run(r.dir, nil, "git", "rev-parse", "-q", "--verify", name+"^{commit}")
		if strings.HasPrefix(name, ":/") {
			res = r.b.run(r.dir, nil, "git", "rev-parse", "-q", "--verify", name)
		}
		if res.code != 0 {
			return nil, nil, false
		}
		commit := strings.TrimSpace(res.out)
		for _, l := range strings.Split(r.b.git(r.dir, "ls-tree", "-r", commit, "."), "\n") {
			meta, f, _ := strings.Cut(l, "\t")
			files = append(files, "file ./"+f+" "+strings.Fields(meta)[2])
		}
		sort.Strings(files)
		caps = r.b.git(r.dir, "show", commit+":./caps.json")
	}
	var v struct {
		CapabilityInfo []struct {
			PackageDir, Capability string
		}
	}
	if err := json.Unmarshal([]byte(caps), &v); err != nil {
		r.b.t.Broken("%v", err)
	}
	for _, c := range v.CapabilityInfo {
		pairs[c.PackageDir+" "+c.Capability] = true
	}
	return files, pairs, true
}

// users is everything of the user's that must not change.
func (r *c21Repo) users() string {
	return r.b.listing(".", func(p string) bool { return p == "log" || p == "log.git" || p == "count" || p == "tmp" || p == "alt" })
}

func (r *c21Repo) leftovers(t *mc.T, what string) {
	for _, d := range []string{"tmp", "alt"} {
		if l, err := os.ReadDir(r.b.path(d)); err == nil && len(l) > 0 {
			t.Fail("%s: temporary files left behind: %v", what, l)
			for _, e := range l {
				os.RemoveAll(r.b.path(d, e.Name()))
			}
		}
	}
}

func c21Names2(t *mc.T, state, n1, n2 string, alt bool) {
	r := c21GetRepo(t, state)
	b := r.b
	sub := func(n string) string {
		if s, ok := r.names[n]; ok {
			return s
		}
		return n
	}
	a1, a2 := sub(n1), sub(n2)
	b.write("log", "")
	before := r.users()
	env := r.env
	if alt {
		b.mkdir("alt")
		env = append(append([]string{}, env...), "CAPSLOCKTOOLSTMPDIR="+b.path("alt"))
	}
	res := b.gitdiff(r.dir, env, a1, a2)
	logged, _ := os.ReadFile(b.path("log"))
	what := fmt.Sprintf("%s: %s %s", state, a1, a2)
	t.State(1, 1)
	if after := r.users(); after != before {
		t.Fail("%s: files of the user were altered\n--- before\n%s\n--- after\n%s\n%v", what, clip(firstDiff(before, after)), clip(firstDiff(after, before)), res)
		b.close()
		delete(c21Repos, state)
		return
	}
	r.leftovers(t, what)
	f1, p1, ok1 := r.resolve(a1)
	f2, p2, ok2 := r.resolve(a2)
	if !ok1 || !ok2 {
		t.Trace()
		if res.code != 2 {
			t.Fail("%s: no such revision, expected exit status 2\n%v", what, res)
		}
		if len(parseGitDiff(res.out)) > 0 {
			t.Fail("%s: differences are printed although there is an error\n%v", what, res)
		}
		return
	}
	want := map[string]bool{}
	for p := range p2 {
		if !p1[p] {
			want[p] = true
		}
	}
	c21Check(t, what, res, want)
	// The trees given to the analysis.
	runs := strings.Split("\n"+string(logged), "\nrun ")[1:]
	if len(runs) != 2 {
		t.Fail("%s: %d analyses\n%s", what, len(runs), logged)
		return
	}
	for i, name := range []string{a1, a2} {
		lines := strings.Split(strings.TrimSuffix(runs[i], "\n"), "\n")
		dir := lines[0]
		here, _ := filepath.EvalSymlinks(b.path(r.dir))
		if name == "." {
			if dir != here {
				t.Fail("%s: '.' analysed in %s rather than %s", what, dir, here)
			}
			continue
		}
		if dir == here {
			t.Fail("%s: %s analysed in the user's directory", what, name)
		}
		var files []string
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "file ") {
				files = append(files, l)
			}
		}
		w := f1
		if i == 1 {
			w = f2
		}
		sort.Strings(files)
		if strings.Join(files, "\n") != strings.Join(w, "\n") {
			t.Fail("%s: files analysed for %s:\n%s\nexpected:\n%s", what, name, strings.Join(files, "\n"), strings.Join(w, "\n"))
		}
	}
}

// c21Fault runs a comparison in which something fails.
type c21Fault struct {
	name   string
	at     int    // invocation of git that fails
	kind   string // how
	caps   string // replacement of the stand-in for the analysis
	n      int    // number of the analysis which misbehaves
	args   []string
	env    []string
	dir    string
	prep   func(b *box)
	either bool // the right answer is also acceptable
}

func c21RunFault(t *mc.T, f c21Fault) {
	b := c21Box(t)
	defer b.close()
	r := &c21Repo{b: b, dir: "r"}
	b.write("r/caps.json", c21Report(c21Entry("example.com/p", "CAPABILITY_FILES")), "r/sub/caps.json", "{}")
	b.git("r", "add", ".")
	b.git("r", "commit", "-qm", "one")
	b.git("r", "tag", "one")
	b.write("r/caps.json", c21Report(c21Entry("example.com/p", "CAPABILITY_FILES"), c21Entry("example.com/q", "CAPABILITY_NETWORK")), "r/late/caps.json", "{}")
	b.git("r", "add", ".")
	b.git("r", "commit", "-qm", "two")
	b.git("r", "tag", "two")
	b.write("r/staged", "x")
	b.git("r", "add", ".")
	real := b.must("r", "sh", "-c", "command -v git")
	if f.at > 0 {
		b.write("stub/git", fmt.Sprintf(c21Git, real))
		os.Chmod(b.path("stub/git"), 0o755)
	}
	if f.caps != "" {
		b.write("stub/real", c21Stub, "stub/capslock", fmt.Sprintf("#!/bin/sh\nn=$(cat \"$C21_COUNT\")\nn=$((n+1))\necho $n > \"$C21_COUNT\"\nif [ $n = %d ]; then\n%s\nfi\n. %s\n", f.n, f.caps, b.path("stub/real")))
	}
	if f.prep != nil {
		f.prep(b)
	}
	args := f.args
	if args == nil {
		args = []string{"one", "two"}
	}
	dir := f.dir
	if dir == "" {
		dir = "r"
	}
	before := r.users()
	env := append([]string{fmt.Sprintf("C21_FAILAT=%d", f.at), "C21_FAILKIND=" + f.kind}, f.env...)
	res := b.gitdiff(dir, env, args...)
	t.Trace()
	t.State(1, 1)
	t.Outcome(fmt.Sprint(res.code, res.out))
	if after := r.users(); after != before {
		t.Fail("%s: files of the user were altered\n--- before\n%s\n--- after\n%s", f.name, clip(firstDiff(before, after)), clip(firstDiff(after, before)))
	}
	r.leftovers(t, f.name)
	got := parseGitDiff(res.out)
	right := res.code == 1 && len(got) == 1 && got["example.com/q CAPABILITY_NETWORK"] == 1
	if f.at > 0 {
		// Which invocation was hit?
		l, _ := os.ReadFile(b.path("log.git"))
		hit := ""
		for _, s := range strings.Split(string(l), "\n") {
			if strings.HasPrefix(s, fmt.Sprint(f.at, " ")) {
				hit = s
			}
		}
		if hit == "" {
			// There are fewer invocations.
			if !right {
				t.Fail("%s: wrong result without any failure\n%v", f.name, res)
			}
			return
		}
		if right {
			// The failing command was not needed for the answer.
			if !strings.Contains(hit, " log ") && f.kind != "late" {
				t.Add("failures without consequence", 1)
			}
			return
		}
	}
	if f.either && right {
		return
	}
	if res.code != 2 {
		t.Fail("%s: expected exit status 2\n%v", f.name, res)
	}
	if len(got) > 0 {
		t.Fail("%s: differences are printed although there is an error\n%v", f.name, res)
	}
}

func c21Faults() []c21Fault {
	var out []c21Fault
	for at := 1; at <= 24; at++ {
		for _, k := range []string{"silent", "late", "killed"} {
			out = append(out, c21Fault{name: fmt.Sprintf("git invocation %d fails (%s)", at, k), at: at, kind: k})
		}
	}
	for n := 1; n <= 2; n++ {
		for _, c := range [][2]string{
			{"exits 2", "exit 2"}, {"exits 1", "exit 1"}, {"is killed", "kill -9 $$"}, {"prints nothing", "exit 0"},
			{"prints part of a report", "head -c 40 caps.json; exit 0"}, {"prints garbage", "echo hello; exit 0"},
			{"prints a report and fails", "cat caps.json; exit 2"}, {"prints a report and exits 1", "cat caps.json; exit 1"}, {"prints an unknown capability", `echo '{"capabilityInfo":[{"capability":"CAPABILITY_BOGUS"}]}'; exit 0`},
			{"prints a report twice", "cat caps.json caps.json; exit 0"},
		} {
			out = append(out, c21Fault{name: fmt.Sprintf("analysis %d %s", n, c[0]), caps: c[1], n: n})
		}
	}
	arg := func(name string, a ...string) c21Fault { return c21Fault{name: name, args: append([]string{}, a...)} }
	out = append(out,
		arg("no arguments"), arg("one argument", "one"), arg("four arguments", "one", "two", "./...", "x"),
		arg("unknown first revision", "nowhere", "two"), arg("unknown second revision", "one", "nowhere"), arg("empty revision", "", "two"),
		arg("range as revision", "one..two", "two"), arg("tree as revision", "one^{tree}", "two"), arg("file as revision", "one:caps.json", "two"), arg("file name as revision", "caps.json", "two"),
		arg("unknown flag", "-nonsense", "one", "two"), arg("bad granularity", "-granularity=module", "one", "two"),
		c21Fault{name: "not a repository", dir: "tmpx", prep: func(b *box) { b.mkdir("tmpx") }},
		c21Fault{name: "not a repository, with .", dir: "tmpx", args: []string{"one", "."}, prep: func(b *box) { b.mkdir("tmpx") }},
		c21Fault{name: "directory missing in the first revision", dir: "r/late"},
		c21Fault{name: "temporary directory missing", env: []string{"CAPSLOCKTOOLSTMPDIR=/nonexistent/dir"}},
		c21Fault{name: "analysis not installed", prep: func(b *box) { os.Remove(b.path("stub/capslock")) }},
		c21Fault{name: "analysis not executable", prep: func(b *box) { os.Chmod(b.path("stub/capslock"), 0o644) }},
	)
	return out
}

// c21Real compares revisions of a module with the real analysis.
func c21Real(t *mc.T, m1, m2 int, gran string) {
	b := c21Box(t)
	defer b.close()
	os.Remove(b.path("stub/capslock"))
	if err := os.Symlink(b.t.Bin("capslock"), b.path("stub/capslock")); err != nil {
		t.Broken("%v", err)
	}
	state := func(m int) map[string]bool {
		src := "package m\n\nimport \"unsafe\"\n\nvar _ unsafe.Pointer\n\n"
		a, bb, c := "", "", ""
		if m&1 != 0 {
			a = "_ = (*int)(unsafe.Pointer(nil))"
		}
		if m&2 != 0 {
			bb = "A()"
		}
		if m&4 != 0 {
			c = "m.A()"
		}
		src += fmt.Sprintf("func A() { %s }\nfunc B() { %s }\n", a, bb)
		if m&8 != 0 {
			src += "func Asm()\n"
			b.write("r/x.s", "")
		} else {
			os.Remove(b.path("r/x.s"))
		}
		b.write("r/go.mod", c20Mod, "r/a.go", src, "r/sub/s.go", "package sub\n\nimport m \"example.com/m\"\n\nvar _ = m.A\n\nfunc C() { "+c+" }\n")
		b.git("r", "add", "-A")
		b.git("r", "commit", "-q", "--allow-empty", "-m", fmt.Sprint(m))
		p := map[string]bool{}
		f := gran == "function"
		add := func(cond bool, fn, pkg, c string) {
			if !cond {
				return
			}
			if !f {
				fn = pkg
			}
			p[fn+" CAPABILITY_"+c] = true
		}
		add(m&1 != 0, "example.com/m.A", "example.com/m", "UNSAFE_POINTER")
		add(m&3 == 3, "example.com/m.B", "example.com/m", "UNSAFE_POINTER")
		add(m&5 == 5, "example.com/m/sub.C", "example.com/m/sub", "UNSAFE_POINTER")
		add(m&8 != 0, "example.com/m.Asm", "example.com/m", "ARBITRARY_EXECUTION")
		return p
	}
	p1 := state(m1)
	p2 := state(m2)
	want := map[string]bool{}
	for p := range p2 {
		if !p1[p] {
			want[p] = true
		}
	}
	r := b.gitdiff("r", nil, "-granularity="+gran, "HEAD~1", "HEAD")
	t.State(1, 1)
	c21Check(t, fmt.Sprintf("%d %d %s", m1, m2, gran), r, want)
}

// c21Option is a combination of the options that decide what is compared.
type c21Option struct {
	pkg, caps, gran string // "default" where not given
	dir             string
}

// c21Options compares a module of two packages, in which each revision has
// functions with capabilities the other lacks, with the real analysis.
func c21Options(t *mc.T, o c21Option) {
	b := c21Box(t)
	defer b.close()
	os.Remove(b.path("stub/capslock"))
	if err := os.Symlink(b.t.Bin("capslock"), b.path("stub/capslock")); err != nil {
		t.Broken("%v", err)
	}
	has := "_ = (*int)(unsafe.Pointer(nil))"
	for i, body := range [][3]string{{has, "", ""}, {"", has, has}} {
		src := fmt.Sprintf("import \"unsafe\"\n\nvar _ unsafe.Pointer\n\nfunc Old() { %s }\nfunc New() { %s }\nfunc Asm%d()\nfunc Both() { %s }\n", body[0], body[1], i, has)
		b.write("r/go.mod", c20Mod, "r/a.go", "package m\n\n"+src, "r/a.s", "", "r/sub/a.go", "package sub\n\n"+src, "r/sub/a.s", "", "r/sub/deep/a.go", "package deep\n\n"+src, "r/sub/deep/a.s", "")
		if i == 1 {
			b.write("r/added/a.go", "package added\n\nimport \"unsafe\"\n\nfunc Added() { "+has+" }\n")
		}
		b.git("r", "add", "-A")
		b.git("r", "commit", "-qm", fmt.Sprint(i))
	}
	var args []string
	gran := "intermediate"
	if o.gran != "default" {
		gran = o.gran
		args = append(args, "-granularity="+gran)
	}
	// The analysis filters intermediate packages only.
	sel := func(Class) bool { return true }
	if o.caps != "default" {
		args = append(args, "-capabilities="+o.caps)
		sel = selOf(o.caps)
	}
	args = append(args, "HEAD~1", "HEAD")
	pattern := "./..."
	if o.pkg != "default" {
		pattern = o.pkg
		args = append(args, pattern)
	}
	// What the pattern stands for.
	var pkgs []string
	for _, p := range strings.Split(pattern, ",") {
		pkgs = append(pkgs, strings.Fields(b.must(filepath.Join("r", o.dir), "go", "list", p))...)
	}
	want := map[string]bool{}
	for _, p := range pkgs {
		add := func(fn, c string) {
			if !sel(capByName("CAPABILITY_" + c)) {
				return
			}
			if gran == "function" {
				want[p+"."+fn+" CAPABILITY_"+c] = true
			} else if p == "example.com/m/added" {
				want[p+" CAPABILITY_"+c] = true
			}
		}
		if p == "example.com/m/added" {
			add("Added", "UNSAFE_POINTER")
			continue
		}
		add("New", "UNSAFE_POINTER")
		add("Asm1", "ARBITRARY_EXECUTION")
	}
	r := b.gitdiff(filepath.Join("r", o.dir), nil, args...)
	t.State(1, 1)
	c21Check(t, fmt.Sprintf("%+v", o), r, want)
}

func init() {
	mc.Register(&mc.Check{
		Prop: "C21", Level: "model_checking", Setup: buildCommands,
		Bounds: "all 256 ordered pairs of sets over 2 packages x 2 capabilities, with and without shared call paths, x 4 granularities; 30 kinds of revision name, as first and as second revision against a tag (against each other in thorough), x 10 repository states; a failure of each external command in turn (3 kinds for git, 10 for the analysis) and wrong invocations; package patterns x granularities x directory, and at the default granularity x capability lists, with the real analysis; ordered pairs of real modules analysed by the built command x 3 granularities",
		Assume: []string{"except for the real modules and options, a stand-in for the analysis prints a report stored in the tree and records the tree it was given", "names that git itself treats as ambiguous are not judged", "after a failure, the right answer is as good as an error"},
		Engines: []mc.Engine{
			{Name: "differences", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for thr := 0; thr < 2; thr++ {
					for _, g := range []string{"intermediate", "package", "function", ""} {
						if tier != "thorough" && thr == 0 && g != "intermediate" {
							continue
						}
						for m1 := 0; m1 < 16; m1++ {
							for m2 := 0; m2 < 16; m2++ {
								yield(func() string { return fmt.Sprintf("sets %d %d, shared paths %d, granularity %q", m1, m2, thr, g) },
									func(t *mc.T) { c21Difference(t, thr, m1, m2, g) })
							}
						}
					}
				}
			}},
			{Name: "revisions", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, s := range c21States {
					for _, n := range c21Names {
						for _, m := range c21Names {
							if tier != "thorough" && m != "light" && n != "light" {
								continue
							}
							for _, alt := range []bool{false, true} {
								if alt && s != "on main" {
									continue
								}
								yield(func() string { return fmt.Sprintf("%s: %s to %s, temporary directory chosen: %v", s, n, m, alt) }, func(t *mc.T) { c21Names2(t, s, n, m, alt) })
							}
						}
					}
				}
			}},
			{Name: "faults", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, f := range c21Faults() {
					yield(func() string { return f.name }, func(t *mc.T) { c21RunFault(t, f) })
				}
			}},
			{Name: "options", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				pkgs := []string{"default", ".", "./...", "./sub", "./sub/...", "example.com/m/sub", "example.com/m/...", ".,./sub", "example.com/m,./sub/deep"}
				caps := []string{"default", "", "UNSAFE_POINTER", "CAPABILITY_UNSAFE_POINTER", "-UNSAFE_POINTER", "ARBITRARY_EXECUTION,UNSAFE_POINTER", "-ARBITRARY_EXECUTION,-NETWORK", "NETWORK"}
				for _, g := range []string{"default", "function", "package"} {
					for i, p := range pkgs {
						for j, c := range caps {
							for _, d := range []string{"", "sub"} {
								if d != "" && (strings.Contains(p, "./sub")) || g != "default" && j > 0 || tier != "thorough" && i > 1 && j > 2 {
									continue
								}
								o := c21Option{p, c, g, d}
								yield(func() string { return fmt.Sprintf("%+v", o) }, func(t *mc.T) { c21Options(t, o) })
							}
						}
					}
				}
			}},
			{Name: "real modules", Enum: func(tier string, yield func(func() string, func(*mc.T))) {
				for _, g := range []string{"intermediate", "package", "function"} {
					for m1 := 0; m1 < 16; m1++ {
						for m2 := 0; m2 < 16; m2++ {
							if small := []int{0, 1, 3, 5, 8, 15}; tier != "thorough" && !(slices.Contains(small, m1) && slices.Contains(small, m2)) {
								continue
							}
							yield(func() string { return fmt.Sprintf("%d to %d, granularity %s", m1, m2, g) }, func(t *mc.T) { c21Real(t, m1, m2, g) })
						}
					}
				}
			}},
		},
	})
}
