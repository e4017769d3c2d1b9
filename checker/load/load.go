// Package load type-checks the repository under analysis and builds its SSA form.
package load

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const Module = "github.com/PlatONnetwork/tecdsa"

// Prog is the program under analysis.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*packages.Package // every package by import path
	Lib   []*packages.Package          // the library packages, testutils excluded
	SPkg  map[string]*ssa.Package
	Funcs []*ssa.Function   // all source functions of the library, closures included
	Specs []*ssa.Function   // functions of the specification files laid over the packages
	Docs  map[string]string // specification function name -> its //vg: directive
	Drop  []string          // specification files that no longer type-check
}

// SpecPrefix starts the name of every specification file in the overlay.
const SpecPrefix = "zz_verif_"

// LoadSpecs loads the repository with the specification files of dir laid over
// its packages (dir/<pkg>/<file>.go). A specification file that no longer
// type-checks against the packages is left out.
func LoadSpecs(repo, dir string) (*Prog, error) {
	over := map[string][]byte{}
	ms, _ := filepath.Glob(filepath.Join(dir, "*", "*.go"))
	for _, m := range ms {
		b, err := os.ReadFile(m)
		if err != nil {
			return nil, err
		}
		over[filepath.Join(repo, filepath.Base(filepath.Dir(m)), SpecPrefix+filepath.Base(m))] = b
	}
	var drop []string
	for {
		p, err := Load(repo, over)
		if err == nil {
			p.Drop = drop
			return p, nil
		}
		te, ok := err.(*TypeErr)
		if !ok {
			return nil, err
		}
		n := 0
		for f := range te.Files {
			if _, ok := over[f]; ok {
				delete(over, f)
				drop = append(drop, fmt.Sprintf("%s: %s", filepath.Base(f), te.Files[f]))
				n++
			}
		}
		if n == 0 {
			return nil, err
		}
		sort.Strings(drop)
	}
}

// TypeErr lists the files that do not type-check.
type TypeErr struct {
	Files map[string]string
	Msg   string
}

func (e *TypeErr) Error() string { return "the repository does not type-check: " + e.Msg }

// IsLib reports whether an import path is a library package.
func IsLib(path string) bool {
	return strings.HasPrefix(path, Module+"/") && !strings.HasPrefix(path, Module+"/testutils") && !strings.Contains(path, "zz_verif")
}

// Load loads ./... of repo, with an optional overlay.
func Load(repo string, overlay map[string][]byte, extra ...string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     env,
		Overlay: overlay,
	}
	pats := append([]string{"./..."}, extra...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	te := &TypeErr{Files: map[string]string{}}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, Module) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				te.Files[strings.SplitN(e.Pos, ":", 2)[0]] = e.Msg
			}
		}
	})
	if len(errs) > 0 {
		te.Msg = strings.Join(errs, "; ")
		return nil, te
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Repo: repo, SSA: prog, Fset: prog.Fset, Pkgs: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) { p.Pkgs[q.PkgPath] = q })
	for path, q := range p.Pkgs {
		if q.Types != nil {
			if sp := prog.Package(q.Types); sp != nil {
				p.SPkg[path] = sp
			}
		}
		if IsLib(path) {
			p.Lib = append(p.Lib, q)
		}
	}
	sort.Slice(p.Lib, func(i, j int) bool { return p.Lib[i].PkgPath < p.Lib[j].PkgPath })
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f.Synthetic != "" && f.Name() != "init" {
			return
		}
		seen[f] = true
		if strings.HasPrefix(filepath.Base(p.Fset.Position(f.Pos()).Filename), SpecPrefix) {
			if f.Parent() == nil {
				p.Specs = append(p.Specs, f)
			}
			return
		}
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, q := range p.Lib {
		sp := p.SPkg[q.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	p.Docs = map[string]string{}
	for _, q := range p.Lib {
		for _, sf := range q.Syntax {
			if !strings.HasPrefix(filepath.Base(p.Fset.Position(sf.Pos()).Filename), SpecPrefix) {
				continue
			}
			for _, d := range sf.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//vg:") {
						p.Docs[q.PkgPath+"."+fd.Name.Name] = strings.TrimPrefix(c.Text, "//vg:")
					}
				}
			}
		}
	}
	sort.Slice(p.Specs, func(i, j int) bool { return p.Specs[i].String() < p.Specs[j].String() })
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	return p, nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// FuncName is a readable name for a function.
func FuncName(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), Module+"/", "")
}

// Type finds a named type of a library package; nil when absent.
func (p *Prog) Type(pkg, name string) types.Type {
	q := p.Pkgs[Module+"/"+pkg]
	if q == nil || q.Types == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// Func finds a package function ("pkg.Name") or method ("pkg.Type.Name").
func (p *Prog) Func(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	sp := p.SPkg[Module+"/"+parts[0]]
	if sp == nil {
		return nil
	}
	if len(parts) == 2 {
		return sp.Func(parts[1])
	}
	t := p.Type(parts[0], parts[1])
	if t == nil {
		return nil
	}
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == parts[2] {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}
