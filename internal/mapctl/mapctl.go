// Package mapctl controls the order in which the runtime iterates over maps, in
// binaries built with an altered runtime (build tag mapctl and the overlay
// written by Overlay).
package mapctl

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// MaxSites is the number of places iterating over maps that can be recorded.
const MaxSites = 2048

// State is shared with the runtime, which declares the same type.
type State struct {
	On    uint32     // control and record
	Seed  uint32     // seed of the hash functions of new maps
	All   uintptr    // start of an iteration, unless given otherwise
	Pc    [4]uintptr // places which start elsewhere
	R     [4]uintptr // where they start
	Nth   int64      // the Nth iteration (from 1) starts at NthR
	NthR  uintptr    //
	Count int64      // number of iterations so far
	N     uint32     // number of places recorded
	Sites [MaxSites]uintptr
}

const runtimeSrc = `package runtime

import _ "unsafe"

type mcStateT struct {
	On    uint32
	Seed  uint32
	All   uintptr
	Pc    [4]uintptr
	R     [4]uintptr
	Nth   int64
	NthR  uintptr
	Count int64
	N     uint32
	Sites [2048]uintptr
}

//go:linkname mcState
var mcState mcStateT

func mcIter(pc uintptr, count int) uintptr {
	s := &mcState
	if s.On == 0 {
		return uintptr(rand())
	}
	if count < 2 {
		return 0
	}
	s.Count++
	found := false
	for i := uint32(0); i < s.N; i++ {
		if s.Sites[i] == pc {
			found = true
			break
		}
	}
	if !found && s.N < 2048 {
		s.Sites[s.N] = pc
		s.N++
	}
	if s.Nth == s.Count {
		return s.NthR
	}
	for i := range s.Pc {
		if s.Pc[i] == pc {
			return s.R[i]
		}
	}
	return s.All
}

func mcSeed() uint64 {
	if mcState.On == 0 {
		return rand()
	}
	return uint64(mcState.Seed)
}
`

// mainSrc is added to a command, for the environment to choose the order.
const mainSrc = `package main

import (
	"os"
	"strconv"
	"strings"
	_ "unsafe"
)

type mcStateT struct {
	On    uint32
	Seed  uint32
	All   uintptr
	Pc    [4]uintptr
	R     [4]uintptr
	Nth   int64
	NthR  uintptr
	Count int64
	N     uint32
	Sites [2048]uintptr
}

//go:linkname mcState runtime.mcState
var mcState mcStateT

func init() {
	all, seed, _ := strings.Cut(os.Getenv("MC_MAP"), ",")
	n, err := strconv.Atoi(all)
	if err != nil {
		panic(err)
	}
	m, err := strconv.Atoi(seed)
	if err != nil {
		panic(err)
	}
	mcState.On, mcState.All, mcState.Seed = 1, uintptr(n), uint32(m)
}
`

// Overlay writes the overlay for the installed toolchain in dir and returns its
// path.  The commands in the directories given take the order from MC_MAP.
func Overlay(dir string, commands ...string) (string, error) {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	src := filepath.Join(strings.TrimSpace(string(out)), "src", "runtime")
	repl := map[string]string{}
	edit := func(name string, edits ...string) error {
		b, err := os.ReadFile(filepath.Join(src, name))
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(edits); i += 2 {
			if !strings.Contains(s, edits[i]) {
				return fmt.Errorf("%s of the runtime does not contain %q", name, edits[i])
			}
			s = strings.ReplaceAll(s, edits[i], edits[i+1])
		}
		dst := filepath.Join(dir, name)
		repl[filepath.Join(src, name)] = dst
		return os.WriteFile(dst, []byte(s), 0o644)
	}
	seed := []string{"h.hash0 = uint32(rand())", "h.hash0 = uint32(mcSeed())"}
	for _, e := range []struct {
		name  string
		edits []string
	}{
		{"map.go", append([]string{"r := uintptr(rand())", "r := mcIter(getcallerpc(), h.count)"}, seed...)},
		{"map_fast32.go", seed}, {"map_fast64.go", seed}, {"map_faststr.go", seed},
		{"rand.go", []string{"func rand32() uint32 {\n\treturn uint32(rand())", "func rand32() uint32 {\n\treturn uint32(mcSeed())"}},
		{"alg.go", []string{"uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15)", "= bootstrapRand()", "= 0x9e3779b97f4a7c15"}},
	} {
		if err := edit(e.name, e.edits...); err != nil {
			return "", err
		}
	}
	extra := filepath.Join(dir, "zmc.go")
	if err := os.WriteFile(extra, []byte(runtimeSrc), 0o644); err != nil {
		return "", err
	}
	repl[filepath.Join(src, "zmc.go")] = extra
	for _, c := range commands {
		main := filepath.Join(dir, "zmain.go")
		if err := os.WriteFile(main, []byte(mainSrc), 0o644); err != nil {
			return "", err
		}
		repl[filepath.Join(c, "zmc_order.go")] = main
	}
	b, err := json.Marshal(map[string]any{"Replace": repl})
	if err != nil {
		return "", err
	}
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}
