// Package mc is the explorer framework: it shards the enumerated cases of a
// check over worker processes, attributes crashes and hangs to cases, confirms
// violations, and writes evidence.
package mc

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// T is passed to each case.
type T struct {
	Prop, Tier string
	w          *worker
	fails      []string
	details    []string
}

// Fail records a violation of the property on the current case.
func (t *T) Fail(format string, a ...any) {
	if len(t.fails) < 20 {
		t.fails = append(t.fails, fmt.Sprintf(format, a...))
	}
}

// Failed tells whether the case already failed.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Detail attaches text (such as source code) to the replay file.
func (t *T) Detail(s string) { t.details = append(t.details, s) }

// Add accumulates a named count.
func (t *T) Add(name string, n int64) { t.w.counts[name] += n }

// State counts model states and transitions.
func (t *T) State(states, transitions int64) {
	t.w.counts["states"] += states
	t.w.counts["transitions"] += transitions
}

// Trace counts an execution of the real code compared with the model.
func (t *T) Trace() { t.w.counts["traces"]++ }

// Outcome records the canonical outcome of an execution; distinct non-empty
// outcomes are counted.
func (t *T) Outcome(s string) {
	if s == "" {
		return
	}
	h := sha256.Sum256([]byte(s))
	t.w.outcomes[binary.LittleEndian.Uint64(h[:8])] = struct{}{}
}

// Sample offers a human readable sample for the evidence.
func (t *T) Sample(s string) {
	t.w.nsample++
	if len(t.w.samples) < 3 || (t.w.nsample&(t.w.nsample-1) == 0 && len(t.w.samples) < 12) {
		t.w.samples = append(t.w.samples, s)
	}
}

// Capture runs f and returns what it wrote to standard output.
func (t *T) Capture(f func()) string { return t.w.capture(f) }

// Scratch returns a scratch directory private to the worker, removed at exit.
func (t *T) Scratch() string { return t.w.scratch }

// Bin returns the path of a command built from /repo, "" if not built.
func (t *T) Bin(name string) string { return filepath.Join(os.Getenv("MC_BINDIR"), name) }

// Deadline tells whether the time budget is used up.
func (t *T) Deadline() bool { return t.w.expired() }

// Engine enumerates cases.  Enum calls yield for each; id describes the case
// completely and is only evaluated when needed.
type Engine struct {
	Name string
	Enum func(tier string, yield func(id func() string, run func(t *T)))
}

// Check decides one property.
type Check struct {
	Prop    string
	Level   string // evidence level
	Rule    string // for exploration: what counts as distinct and nontrivial
	Bounds  string
	Assume  []string
	Engines []Engine
	// Setup runs once in the parent, before workers; it may build commands.
	Setup   func(bindir string) error
	Workers int // 0: default
	// Exe is the worker to run, built by Setup in bindir, instead of this
	// binary.
	Exe string
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.Prop] = c }

// Aux holds functions that checks run in processes of their own; see RunAux.
var Aux = map[string]func(t *T, arg string) string{}

// RunAux runs an auxiliary function in a new process.
func RunAux(name, arg string) (string, error) {
	exe, err := os.Executable()
	if err != nil {
		return "", err
	}
	return RunAuxExe(exe, name, arg)
}

// RunAuxExe is like RunAux with another build of the program.
func RunAuxExe(exe, name, arg string, env ...string) (string, error) {
	dir, err := os.MkdirTemp("", "mc-aux-")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(exe, "-aux", name+"="+arg, "-out", filepath.Join(dir, "out"))
	cmd.Env = append(append(os.Environ(), "NO_COLOR=1", "MC_SCRATCH="+dir), env...)
	if b, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("%w: %s", err, b)
	}
	b, err := os.ReadFile(filepath.Join(dir, "out"))
	return string(b), err
}

func auxMain(spec, out string) {
	name, arg, _ := strings.Cut(spec, "=")
	scratch, err := os.MkdirTemp(os.Getenv("MC_SCRATCH"), "w")
	if err != nil {
		panic(err)
	}
	w := &worker{counts: map[string]int64{}, outcomes: map[uint64]struct{}{}, scratch: scratch, memfd: memFile(scratch)}
	if err := syscall.Dup2(int(w.memfd.Fd()), 1); err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, []byte(Aux[name](&T{w: w}, arg)), 0o600); err != nil {
		panic(err)
	}
}

type worker struct {
	check    *Check
	tier     string
	shard, n int
	deadline time.Time
	counts   map[string]int64
	outcomes map[uint64]struct{}
	samples  []string
	nsample  int64
	scratch  string
	memfd    *os.File
	progress *os.File
	expiredF bool
	known    map[string]bool
	knownHit map[string]bool
	perEng   map[string]int64
}

type violation struct {
	Engine  string   `json:"engine"`
	Index   int64    `json:"index"`
	Case    string   `json:"case"`
	Fails   []string `json:"fails"`
	Details []string `json:"details"`
}

type result struct {
	Counts     map[string]int64 `json:"counts"`
	Outcomes   []uint64         `json:"outcomes"`
	Samples    []string         `json:"samples"`
	Violations []violation      `json:"violations"`
	Expired    bool             `json:"expired"`
	Known      []string         `json:"known"`
	PerEngine  map[string]int64 `json:"per_engine"`
}

func (w *worker) expired() bool {
	if !w.expiredF && !w.deadline.IsZero() && time.Now().After(w.deadline) {
		w.expiredF = true
	}
	return w.expiredF
}

// capture redirects file descriptor 1 to a memory file while f runs.
func (w *worker) capture(f func()) string {
	if err := w.memfd.Truncate(0); err != nil {
		panic(err)
	}
	if _, err := w.memfd.Seek(0, 0); err != nil {
		panic(err)
	}
	f()
	n, err := w.memfd.Seek(0, io.SeekEnd)
	if err != nil {
		panic(err)
	}
	b := make([]byte, n)
	if _, err := w.memfd.ReadAt(b, 0); err != nil && err != io.EOF {
		panic(err)
	}
	return string(b)
}

// KnownFinding is an entry of known_findings.json.
type KnownFinding struct {
	Status   string `json:"status"` // "known" or "fixed"
	Property string `json:"property"`
	Engine   string `json:"engine,omitempty"`
	Case     string `json:"case,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

// Root is the directory of the framework.
func Root() string {
	if r := os.Getenv("MC_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func loadKnown() ([]KnownFinding, error) {
	b, err := os.ReadFile(filepath.Join(Root(), "known_findings.json"))
	if errors.Is(err, os.ErrNotExist) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var k []KnownFinding
	if err := json.Unmarshal(b, &k); err != nil {
		return nil, fmt.Errorf("known_findings.json: %v", err)
	}
	return k, nil
}

// Broken reports that the harness itself is at fault: the run is an error, not
// a violation.
func (t *T) Broken(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(3)
}

// maxViolationsPerWorker bounds the violations gathered; MC_ALL raises it and
// lists all of them.
var maxViolationsPerWorker = func() int {
	if os.Getenv("MC_ALL") != "" {
		return 1 << 20
	}
	return 3
}()

func (w *worker) runCase(e Engine, idx int64, id func() string, run func(*T), res *result) {
	var buf [16]byte
	binary.LittleEndian.PutUint64(buf[:8], uint64(idx))
	if w.progress != nil {
		w.progress.WriteAt(buf[:8], 0)
	}
	t := &T{Prop: w.check.Prop, Tier: w.tier, w: w}
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Fail("panic: %v\n%s", r, debug.Stack())
			}
		}()
		run(t)
	}()
	w.counts["cases"]++
	w.perEng[e.Name]++
	if len(t.fails) > 0 {
		cid := id()
		if w.known[e.Name+"\x00"+cid] {
			w.knownHit[e.Name+"\x00"+cid] = true
			return
		}
		res.Violations = append(res.Violations, violation{Engine: e.Name, Index: idx, Case: cid, Fails: t.fails, Details: t.details})
	} else if w.nsample < 3 || w.counts["cases"]&(w.counts["cases"]-1) == 0 {
		t.Sample(e.Name + ": " + trunc(id(), 300))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var errStop = errors.New("stop")

func (w *worker) run(only string, onlyIdx int64, onlyID string, res *result) {
	for ei, e := range w.check.Engines {
		if only != "" && e.Name != only {
			continue
		}
		if w.progress != nil {
			var buf [8]byte
			binary.LittleEndian.PutUint64(buf[:], uint64(ei))
			w.progress.WriteAt(buf[:], 8)
		}
		idx := int64(0)
		func() {
			defer func() {
				if r := recover(); r != nil && r != errStop {
					panic(r)
				}
			}()
			e.Enum(w.tier, func(id func() string, run func(*T)) {
				i := idx
				idx++
				if onlyID != "" {
					if id() != onlyID {
						return
					}
				} else if onlyIdx >= 0 {
					if i != onlyIdx {
						return
					}
				} else if i%int64(w.n) != int64(w.shard) {
					return
				}
				if w.expired() {
					panic(errStop)
				}
				w.runCase(e, i, id, run, res)
				if len(res.Violations) >= maxViolationsPerWorker || onlyIdx >= 0 || onlyID != "" {
					panic(errStop)
				}
			})
		}()
		if w.expired() || len(res.Violations) >= maxViolationsPerWorker {
			break
		}
	}
}

func workerMain(check *Check, tier, spec, only string, onlyIdx int64, onlyID string, outFile, progFile string, deadline time.Time) {
	var shard, n int
	if _, err := fmt.Sscanf(spec, "%d/%d", &shard, &n); err != nil {
		panic(err)
	}
	w := &worker{check: check, tier: tier, shard: shard, n: n, deadline: deadline,
		counts: map[string]int64{}, outcomes: map[uint64]struct{}{}, known: map[string]bool{}, knownHit: map[string]bool{}, perEng: map[string]int64{}}
	kf, err := loadKnown()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	for _, k := range kf {
		if k.Status == "known" && k.Property == check.Prop {
			w.known[k.Engine+"\x00"+k.Case] = true
		}
	}
	w.scratch, err = os.MkdirTemp(os.Getenv("MC_SCRATCH"), "w")
	if err != nil {
		panic(err)
	}
	memfd := memFile(w.scratch)
	w.memfd = memfd
	if err := syscall.Dup2(int(memfd.Fd()), 1); err != nil {
		panic(err)
	}
	if progFile != "" {
		w.progress, err = os.OpenFile(progFile, os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
	}
	var res result
	w.run(only, onlyIdx, onlyID, &res)
	res.Counts = w.counts
	for o := range w.outcomes {
		res.Outcomes = append(res.Outcomes, o)
	}
	res.Samples = w.samples
	res.Expired = w.expiredF
	res.PerEngine = w.perEng
	for k := range w.knownHit {
		res.Known = append(res.Known, k)
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	os.RemoveAll(w.scratch)
	if err := os.WriteFile(outFile, b, 0o600); err != nil {
		panic(err)
	}
}

// memFile returns a memory-backed file, or a scratch file if there are none.
func memFile(dir string) *os.File {
	name := []byte("stdout\x00")
	if fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0); e == 0 { // memfd_create
		return os.NewFile(fd, "stdout")
	}
	f, err := os.OpenFile(filepath.Join(dir, "stdout"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		panic(err)
	}
	return f
}

// hangLimit is how long one case may run before it is considered a hang.
const hangLimit = 180 * time.Second

type runner struct {
	check   *Check
	tier    string
	dir     string
	bindir  string
	nworker int
	stopAt  time.Time
}

// runWorker runs one worker and returns its result.  A crash or hang becomes a
// violation of the case in progress.
func (r *runner) runWorker(shard, n int, only string, onlyIdx int64, onlyID string) (*result, error) {
	out := filepath.Join(r.dir, fmt.Sprintf("out-%d-%d", shard, time.Now().UnixNano()))
	prog := out + ".p"
	var init [16]byte
	if err := os.WriteFile(prog, init[:], 0o600); err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if r.check.Exe != "" {
		exe = filepath.Join(r.bindir, r.check.Exe)
	}
	args := []string{"-worker", fmt.Sprintf("%d/%d", shard, n), "-prop", r.check.Prop, "-tier", r.tier, "-out", out, "-progress", prog,
		"-deadline", strconv.FormatInt(r.stopAt.Unix(), 10)}
	if only != "" {
		args = append(args, "-engine", only, "-index", strconv.FormatInt(onlyIdx, 10))
		if onlyID != "" {
			args = append(args, "-case", onlyID)
		}
	}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "NO_COLOR=1", "MC_SCRATCH="+r.dir, "MC_BINDIR="+r.bindir, "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var stderr tail
	cmd.Stderr = &stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, lastT := "", time.Now()
	hung := false
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(500 * time.Millisecond):
			b, _ := os.ReadFile(prog)
			if string(b) != last {
				last, lastT = string(b), time.Now()
			} else if time.Since(lastT) > hangLimit {
				hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				werr = <-done
				break loop
			}
		}
	}
	if b, err := os.ReadFile(out); err == nil && werr == nil {
		var res result
		if err := json.Unmarshal(b, &res); err != nil {
			return nil, err
		}
		return &res, nil
	}
	if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 3 {
		return nil, fmt.Errorf("worker: %s", stderr.String())
	}
	b, _ := os.ReadFile(prog)
	idx := int64(binary.LittleEndian.Uint64(b[:8]))
	ei := int(binary.LittleEndian.Uint64(b[8:16]))
	e := r.check.Engines[ei]
	id := ""
	i := int64(0)
	func() {
		defer func() { recover() }()
		e.Enum(r.tier, func(f func() string, _ func(*T)) {
			if i == idx {
				id = f()
				panic(errStop)
			}
			i++
		})
	}()
	what := fmt.Sprintf("process died: %v", werr)
	if hung {
		what = fmt.Sprintf("no progress on this case for %v", hangLimit)
	}
	return &result{Counts: map[string]int64{}, Violations: []violation{{Engine: e.Name, Index: idx, Case: id, Fails: []string{what}, Details: []string{stderr.String()}}}}, nil
}

// tail keeps the first 32 KB written.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 32<<10 - len(t.b); room > 0 {
		t.b = append(t.b, p[:min(room, len(p))]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func die(err error) {
	fmt.Fprintln(os.Stderr, "mc: "+err.Error())
	os.Exit(2)
}

// Main is the entry point of the mc command.
func Main() {
	var (
		prop     = flag.String("prop", "", "property to decide")
		tier     = flag.String("tier", "quick", "quick or thorough")
		workerS  = flag.String("worker", "", "internal")
		engine   = flag.String("engine", "", "only this engine (with -case: replay)")
		index    = flag.Int64("index", -1, "internal")
		caseID   = flag.String("case", "", "only this case")
		out      = flag.String("out", "", "internal")
		progress = flag.String("progress", "", "internal")
		deadline = flag.Int64("deadline", 0, "internal")
		list     = flag.Bool("list", false, "list properties")
		replay   = flag.String("replay", "", "replay file")
		aux      = flag.String("aux", "", "internal: auxiliary function and argument")
		count    = flag.Bool("count", false, "only count the cases")
	)
	flag.Parse()
	if *list {
		var ps []string
		for p := range registry {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		fmt.Println(strings.Join(ps, "\n"))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die(err)
		}
		var rp struct {
			Property, Tier string
			Violation      violation
		}
		if err := json.Unmarshal(b, &rp); err != nil {
			die(err)
		}
		*prop, *tier, *engine, *caseID = rp.Property, rp.Tier, rp.Violation.Engine, rp.Violation.Case
	}
	if *aux != "" {
		auxMain(*aux, *out)
		return
	}
	check := registry[*prop]
	if check == nil {
		die(fmt.Errorf("unknown property %q", *prop))
	}
	if *workerS != "" {
		var dl time.Time
		if *deadline != 0 {
			dl = time.Unix(*deadline, 0)
		}
		workerMain(check, *tier, *workerS, *engine, *index, *caseID, *out, *progress, dl)
		return
	}
	if *count {
		for _, e := range check.Engines {
			n := 0
			t0 := time.Now()
			e.Enum(*tier, func(func() string, func(*T)) { n++ })
			fmt.Println(e.Name, n, time.Since(t0))
		}
		return
	}
	parent(check, *tier, *engine, *caseID)
}

func parent(check *Check, tier, engine, caseID string) {
	start := time.Now()
	budget := 500 * time.Second
	if tier == "thorough" {
		budget = 2 * time.Hour
	}
	if b := os.Getenv("MC_BUDGET_S"); b != "" {
		if n, err := strconv.Atoi(b); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	dir, err := os.MkdirTemp("", "mc-"+check.Prop+"-")
	if err != nil {
		die(err)
	}
	code := 2
	defer func() { os.RemoveAll(dir); os.Exit(code) }()
	fail := func(err error) { fmt.Fprintln(os.Stderr, "mc: "+err.Error()) }
	r := &runner{check: check, tier: tier, dir: dir, bindir: filepath.Join(dir, "bin"), nworker: 8, stopAt: start.Add(budget)}
	if check.Workers > 0 {
		r.nworker = check.Workers
	}
	if check.Setup != nil {
		if err := os.Mkdir(r.bindir, 0o755); err != nil {
			fail(err)
			return
		}
		if err := check.Setup(r.bindir); err != nil {
			fail(err)
			return
		}
	}
	if caseID != "" {
		res, err := r.runWorker(0, 1, engine, 0, caseID)
		if err != nil {
			fail(err)
			return
		}
		code = 0
		for _, v := range res.Violations {
			code = 1
			fmt.Printf("case %s\n%s\n%s\n", v.Case, strings.Join(v.Fails, "\n"), strings.Join(v.Details, "\n"))
		}
		for _, k := range res.Known {
			fmt.Printf("known finding: %q\n", k)
		}
		fmt.Printf("replayed %d case(s), %d violation(s)\n", res.Counts["cases"], len(res.Violations))
		return
	}
	results := make([]*result, r.nworker)
	errs := make([]error, r.nworker)
	var wg sync.WaitGroup
	for i := 0; i < r.nworker; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i], errs[i] = r.runWorker(i, r.nworker, engine, -1, "")
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			fail(err)
			return
		}
	}
	counts := map[string]int64{}
	perEng := map[string]int64{}
	outcomes := map[uint64]struct{}{}
	var samples []string
	var viol []violation
	expired := false
	known := map[string]bool{}
	for _, res := range results {
		for k, v := range res.Counts {
			counts[k] += v
		}
		for k, v := range res.PerEngine {
			perEng[k] += v
		}
		for _, o := range res.Outcomes {
			outcomes[o] = struct{}{}
		}
		samples = append(samples, res.Samples...)
		viol = append(viol, res.Violations...)
		expired = expired || res.Expired
		for _, k := range res.Known {
			known[k] = true
		}
	}
	if len(samples) > 16 {
		samples = samples[:16]
	}
	sort.SliceStable(viol, func(i, j int) bool {
		if viol[i].Engine != viol[j].Engine {
			return viol[i].Engine < viol[j].Engine
		}
		return viol[i].Index < viol[j].Index
	})
	if os.Getenv("MC_ALL") != "" {
		for _, v := range viol {
			fmt.Printf("ALL %s: %s\n", v.Engine, v.Case)
		}
	}
	// Confirm violations by running them again.
	var confirmed *violation
	unconfirmed := 0
	for i := range viol {
		v := &viol[i]
		for try := 0; try < 10 && confirmed == nil; try++ {
			res, err := r.runWorker(0, 1, v.Engine, v.Index, "")
			if err != nil {
				fail(err)
				return
			}
			if len(res.Violations) > 0 {
				v2 := res.Violations[0]
				confirmed = &v2
			}
		}
		if confirmed != nil {
			break
		}
		unconfirmed++
		if unconfirmed >= 4 {
			break
		}
	}
	replayPath := ""
	if confirmed != nil {
		rd := filepath.Join(Root(), "replays")
		os.MkdirAll(rd, 0o755)
		h := sha256.Sum256([]byte(confirmed.Engine + confirmed.Case))
		replayPath = filepath.Join(rd, check.Prop+"-"+hex.EncodeToString(h[:6])+".json")
		b, _ := json.MarshalIndent(map[string]any{"Property": check.Prop, "Tier": tier, "Violation": confirmed,
			"how": "bash /verif/run.sh " + check.Prop + " -replay " + replayPath}, "", " ")
		if err := os.WriteFile(replayPath, b, 0o644); err != nil {
			fail(err)
			return
		}
	}
	if err := writeEvidence(check, tier, counts, perEng, outcomes, samples, viol, confirmed, unconfirmed, expired, time.Since(start)); err != nil {
		fail(err)
		return
	}
	kf, err := loadKnown()
	if err != nil {
		fail(err)
		return
	}
	for _, k := range kf {
		if k.Status == "known" && k.Property == check.Prop && known[k.Engine+"\x00"+k.Case] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.Prop, k.What)
		}
	}
	var engs []string
	for k, v := range perEng {
		engs = append(engs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(engs)
	fmt.Printf("%s %s: %d cases (%s), %d states, %d transitions, %d traces, %d distinct outcomes, %.1fs, expired=%v\n",
		check.Prop, tier, counts["cases"], strings.Join(engs, " "), counts["states"], counts["transitions"], counts["traces"], len(outcomes), time.Since(start).Seconds(), expired)
	if confirmed != nil {
		fmt.Printf("engine %s case %s\n%s\n", confirmed.Engine, trunc(confirmed.Case, 2000), trunc(strings.Join(confirmed.Fails, "\n"), 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", check.Prop, replayPath)
		code = 1
		return
	}
	if unconfirmed > 0 {
		fmt.Printf("note: %d case(s) failed once and did not fail again in 10 repetitions: %s: %s\n", unconfirmed, viol[0].Case, strings.Join(viol[0].Fails, "; "))
	}
	if counts["cases"] == 0 || counts["traces"] == 0 {
		fail(errors.New("nothing was explored"))
		return
	}
	code = 0
}

func writeEvidence(check *Check, tier string, counts, perEng map[string]int64, outcomes map[uint64]struct{}, samples []string, viol []violation, confirmed *violation, unconfirmed int, expired bool, wall time.Duration) error {
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			seed = n
		}
	}
	cov := map[string]any{
		"samples":           samples,
		"cases":             counts["cases"],
		"cases_per_engine":  perEng,
		"distinct_outcomes": len(outcomes),
		"bounds":            check.Bounds,
	}
	switch check.Level {
	case "model_checking":
		cov["states"] = counts["states"]
		cov["transitions"] = counts["transitions"]
		cov["traces_validated_against_impl"] = counts["traces"]
		cov["how_traces_are_validated"] = "each enumerated case is executed on the code built from /repo and its whole observable result is compared with the reference model"
	default:
		cov["evaluations"] = counts["traces"]
		cov["distinct_nontrivial"] = len(outcomes)
		cov["rule"] = check.Rule
	}
	for k, v := range counts {
		switch k {
		case "states", "transitions", "traces", "cases":
		default:
			cov["n_"+k] = v
		}
	}
	nviol := 0
	if confirmed != nil {
		nviol = len(viol) - unconfirmed
	}
	ev := map[string]any{
		"property": check.Prop, "tier": tier, "seed": seed, "level": check.Level,
		"coverage": cov, "wall_s": wall.Seconds(),
		"exhaustive":  !expired && confirmed == nil,
		"assumptions": check.Assume,
		"violations":  nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(Root(), "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, check.Prop+".json"), append(b, '\n'), 0o644)
}
