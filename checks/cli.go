package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/internal/mc"
)

// Support for checks which run the commands built from /repo.

// buildCommands builds the commands from /repo's working tree.
func buildCommands(bindir string) error {
	cmd := exec.Command("go", "build", "-o", bindir+"/", "github.com/google/capslock/cmd/capslock", "github.com/google/capslock/cmd/capslock-git-diff")
	cmd.Dir = mc.Root()
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building commands: %v\n%s", err, b)
	}
	// Let an unprivileged user run them.
	return os.Chmod(filepath.Dir(bindir), 0o711)
}

// nobody is the user the commands run as when the harness runs as root, so
// that they can only alter what a check made for them.
const nobody = 65534

// box is a scratch directory owned by the user the commands run as.
type box struct {
	t    *mc.T
	root string
	home string // home directory, kept from case to case for its caches
	tmp  string
	env  []string
}

var boxN int

// newBox makes an empty box; close removes it.
func newBox(t *mc.T) *box {
	boxN++
	if err := os.Chmod(t.Scratch(), 0o711); err != nil {
		t.Broken("%v", err)
	}
	b := &box{t: t, root: filepath.Join(t.Scratch(), fmt.Sprintf("box%d", boxN)), home: filepath.Join(t.Scratch(), "home")}
	b.tmp = filepath.Join(b.root, "tmp")
	for _, d := range []string{b.home, b.root, b.tmp} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			t.Broken("%v", err)
		}
		b.own(d)
	}
	gobin, err := exec.LookPath("go")
	if err != nil {
		t.Broken("%v", err)
	}
	b.env = []string{
		"HOME=" + b.home, "TMPDIR=" + b.tmp, "NO_COLOR=1", "LC_ALL=C", "GOMAXPROCS=2",
		"PATH=" + filepath.Dir(gobin) + ":/usr/local/bin:/usr/bin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=", "GOSUMDB=off", "GOTELEMETRY=off",
		"GOPATH=" + filepath.Join(b.home, "go"), "GOCACHE=" + filepath.Join(b.home, "cache"), "GOENV=off",
		"GIT_CONFIG_NOSYSTEM=1", "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@example.com", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@example.com",
		"GIT_AUTHOR_DATE=2024-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2024-01-01T00:00:00Z",
	}
	return b
}

func (b *box) close() {
	filepath.WalkDir(b.root, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			os.Chmod(p, 0o755)
		}
		return nil
	})
	os.RemoveAll(b.root)
}

func (b *box) own(p string) {
	if os.Geteuid() == 0 {
		if err := os.Lchown(p, nobody, nobody); err != nil {
			b.t.Broken("%v", err)
		}
	}
}

// path returns the path of a file of the box.
func (b *box) path(name ...string) string {
	return filepath.Join(append([]string{b.root}, name...)...)
}

// write writes files given as name, content pairs.
func (b *box) write(files ...string) {
	for i := 0; i < len(files); i += 2 {
		p := b.path(files[i])
		b.mkdir(filepath.Dir(files[i]))
		if err := os.WriteFile(p, []byte(files[i+1]), 0o644); err != nil {
			b.t.Broken("%v", err)
		}
		b.own(p)
	}
}

func (b *box) mkdir(name string) {
	p := b.root
	for _, e := range strings.Split(filepath.Clean(name), string(filepath.Separator)) {
		p = filepath.Join(p, e)
		if err := os.Mkdir(p, 0o755); err == nil {
			b.own(p)
		}
	}
}

// ran is the outcome of a command.
type ran struct {
	out, err string
	code     int
}

func (r ran) String() string {
	return fmt.Sprintf("exit status %d\n--- stdout\n%s\n--- stderr\n%s", r.code, clip(r.out), clip(r.err))
}

func clip(s string) string {
	if len(s) > 2500 {
		return s[:2500] + "..."
	}
	return s
}

// run runs a command in a directory of the box.
func (b *box) run(dir string, env []string, name string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = b.path(dir)
	cmd.Env = append(append([]string{}, b.env...), "PWD="+cmd.Dir)
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Geteuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	r := ran{out: out.String(), err: errb.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		r.code = ee.ExitCode()
	} else if err != nil {
		b.t.Broken("running %s: %v", name, err)
	}
	return r
}

// must runs a command that has to succeed for the case to make sense.
func (b *box) must(dir string, name string, args ...string) string {
	r := b.run(dir, nil, name, args...)
	if r.code != 0 {
		b.t.Broken("%s %q: %v", name, args, r)
	}
	return strings.TrimSuffix(r.out, "\n")
}

// capslock runs the built command.
func (b *box) capslock(dir string, env []string, args ...string) ran {
	return b.run(dir, env, b.t.Bin("capslock"), args...)
}

// listing describes every file under a directory: name, mode and content.
func (b *box) listing(dir string, skip func(string) bool) string {
	var l []string
	root := b.path(dir)
	filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		if skip != nil && skip(rel) {
			if d != nil && d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if err != nil {
			l = append(l, rel+": "+err.Error())
			return nil
		}
		if fi, err := d.Info(); err == nil && fi.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s %v %q", rel, fi.Mode(), c))
		} else if err == nil {
			l = append(l, fmt.Sprintf("%s %v", rel, fi.Mode()))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n")
}
