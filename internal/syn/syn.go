// Package syn builds type-checked go/packages package graphs in memory, so
// that the analyzer's exported entry points can be driven on a very large
// number of small programs without invoking the go command for each.
package syn

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// File is one source file.
type File struct {
	Name string // base name
	Src  string
}

// Pkg is one source package.  Packages are listed dependencies-first.
type Pkg struct {
	Path    string
	Files   []File
	Ignored []string         // IgnoredFiles
	Module  *packages.Module // optional
}

// One returns a single-file package.
func One(p, src string) Pkg {
	return Pkg{Path: p, Files: []File{{Name: path.Base(p) + ".go", Src: src}}}
}

// Program is a loaded program.
type Program struct {
	Fset   *token.FileSet
	ByPath map[string]*packages.Package
	Order  []*packages.Package
}

type imp map[string]*packages.Package

func (m imp) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q, ok := m[p]; ok {
		return q.Types, nil
	}
	return nil, fmt.Errorf("package %q not found", p)
}

// Load parses and type-checks the packages.
func Load(srcs []Pkg) (*Program, error) {
	prog := &Program{Fset: token.NewFileSet(), ByPath: make(map[string]*packages.Package)}
	sizes := types.SizesFor("gc", "amd64")
	unsafePkg := &packages.Package{ID: "unsafe", Name: "unsafe", PkgPath: "unsafe",
		Types: types.Unsafe, Fset: prog.Fset, TypesSizes: sizes,
		TypesInfo: newInfo(), Imports: map[string]*packages.Package{}}
	for _, s := range srcs {
		p := &packages.Package{
			ID: s.Path, PkgPath: s.Path, Fset: prog.Fset, TypesSizes: sizes,
			TypesInfo: newInfo(), Imports: map[string]*packages.Package{},
			Module: s.Module,
		}
		for _, f := range s.Files {
			full := "/src/" + s.Path + "/" + f.Name
			a, err := parser.ParseFile(prog.Fset, full, f.Src, parser.ParseComments)
			if err != nil {
				return nil, fmt.Errorf("parse %s: %v", s.Path, err)
			}
			p.GoFiles = append(p.GoFiles, full)
			p.CompiledGoFiles = append(p.CompiledGoFiles, full)
			p.Syntax = append(p.Syntax, a)
			for _, im := range a.Imports {
				ip := strings.Trim(im.Path.Value, "\"`")
				if ip == "unsafe" {
					p.Imports[ip] = unsafePkg
				} else if q, ok := prog.ByPath[ip]; ok {
					p.Imports[ip] = q
				} else {
					return nil, fmt.Errorf("%s: unknown import %q", s.Path, ip)
				}
			}
		}
		for _, i := range s.Ignored {
			p.IgnoredFiles = append(p.IgnoredFiles, "/src/"+s.Path+"/"+i)
		}
		conf := types.Config{Importer: imp(prog.ByPath), Sizes: sizes, GoVersion: "go1.23"}
		tp, err := conf.Check(s.Path, prog.Fset, p.Syntax, p.TypesInfo)
		if err != nil {
			return nil, fmt.Errorf("typecheck %s: %v", s.Path, err)
		}
		p.Types = tp
		p.Name = tp.Name()
		prog.ByPath[s.Path] = p
		prog.Order = append(prog.Order, p)
	}
	return prog, nil
}

func newInfo() *types.Info {
	return &types.Info{
		Types:        make(map[ast.Expr]types.TypeAndValue),
		Instances:    make(map[*ast.Ident]types.Instance),
		Defs:         make(map[*ast.Ident]types.Object),
		Uses:         make(map[*ast.Ident]types.Object),
		Implicits:    make(map[ast.Node]types.Object),
		Selections:   make(map[*ast.SelectorExpr]*types.Selection),
		Scopes:       make(map[ast.Node]*types.Scope),
		FileVersions: make(map[*ast.File]string),
	}
}

// Query returns the packages with the given paths.
func (p *Program) Query(paths ...string) []*packages.Package {
	var out []*packages.Package
	for _, s := range paths {
		q := p.ByPath[s]
		if q == nil {
			panic("no package " + s)
		}
		out = append(out, q)
	}
	return out
}

// All returns every loaded path, sorted.
func (p *Program) All() []string {
	var out []string
	for k := range p.ByPath {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
