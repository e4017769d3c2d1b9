// mutate measures the specifications: it edits scratch copies of the library
// one small change at a time and lists the changes that neither the
// specifications nor the existing tests notice.  For development.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/checker/load"
	"verif/checker/vg"
)

type mut struct {
	File     string
	Off, End int
	New      string
	Fn, What string
	Line     int
}

var (
	repo = flag.String("repo", "/repo", "")
	spec = flag.String("spec", "/verif/spec", "")
	vgc  = flag.String("vgcase", "/tmp/vgcase", "")
	out  = flag.String("out", "/tmp/mutants.jsonl", "")
	nw   = flag.Int("j", 4, "")
	list = flag.Bool("list", false, "")
	pkgs = flag.String("pkgs", "", "")
	from = flag.Int("from", 0, "")
)

func main() {
	flag.Parse()
	p, err := load.LoadSpecs(*repo, *spec)
	if err != nil {
		panic(err)
	}
	muts := generate(p)
	if *list {
		for _, m := range muts {
			fmt.Println(m.File, m.Line, m.Fn, m.What)
		}
		fmt.Println(len(muts))
		return
	}
	users := map[string][]string{}
	if b, err := os.ReadFile("/tmp/casefns.json"); err == nil {
		json.Unmarshal(b, &users)
	} else {
		cs, _ := vg.Cases(p)
		for _, c := range cs {
			v := vg.CheckCase(p, c)
			for f := range v.Fns {
				users[f] = append(users[f], c.Name)
			}
		}
		b, _ := json.Marshal(users)
		os.WriteFile("/tmp/casefns.json", b, 0o644)
	}
	of, _ := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	ch := make(chan mut)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < *nw; i++ {
		dir := fmt.Sprintf("/tmp/mw%d", i)
		exec.Command("rm", "-rf", dir).Run()
		exec.Command("cp", "-a", *repo, dir).Run()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for m := range ch {
				r := try(dir, m, users)
				mu.Lock()
				b, _ := json.Marshal(struct {
					mut
					Res string
				}{m, r})
				of.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	for i, m := range muts {
		if i >= *from {
			ch <- m
		}
	}
	close(ch)
	wg.Wait()
}

func try(dir string, m mut, users map[string][]string) string {
	path := filepath.Join(dir, m.File)
	src, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	defer os.WriteFile(path, src, 0o644)
	os.WriteFile(path, []byte(string(src[:m.Off])+m.New+string(src[m.End:])), 0o644)
	env := append(os.Environ(), "GOFLAGS=")
	run := func(name string, args ...string) (string, error) {
		c := exec.Command("timeout", append([]string{"400", name}, args...)...)
		c.Dir, c.Env = dir, env
		b, err := c.CombinedOutput()
		return string(b), err
	}
	if o, err := run("go", "build", "./..."); err != nil {
		_ = o
		return "no-build"
	}
	names := users[m.Fn]
	und := ""
	if len(names) > 0 {
		o, _ := run(*vgc, append([]string{"-x", "-repo", dir}, names...)...)
		if strings.Contains(o, "\ndiffers") {
			return "differs"
		}
		if strings.Contains(o, "undecided") {
			for _, l := range strings.Split(o, "\n") {
				if strings.HasPrefix(l, "undecided") {
					und = " undecided " + strings.Join(strings.Fields(l)[1:3], " ")
					break
				}
			}
		}
	}
	if _, err := run("go", "test", "-vet=off", "-failfast", "./..."); err != nil {
		return "tests" + und
	}
	return fmt.Sprintf("SURVIVES%s (%d cases)", und, len(names))
}

func generate(p *load.Prog) []mut {
	var out []mut
	names := []string{}
	for path := range p.Pkgs {
		names = append(names, path)
	}
	sort.Strings(names)
	for _, path := range names {
		pk := p.Pkgs[path]
		if !load.IsLib(path) {
			continue
		}
		if *pkgs != "" && !strings.Contains(","+*pkgs+",", ","+pk.Name+",") {
			continue
		}
		for i, f := range pk.Syntax {
			name := pk.CompiledGoFiles[i]
			if strings.Contains(name, "zz_verif") {
				continue
			}
			rel, _ := filepath.Rel(*repo, name)
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn := ""
				if o, ok := pk.TypesInfo.Defs[fd.Name].(*types.Func); ok {
					if sf := p.SSA.FuncValue(o); sf != nil {
						fn = load.FuncName(sf)
					}
				}
				add := func(a, b token.Pos, nw, what string) {
					po := p.Fset.Position(a)
					out = append(out, mut{rel, po.Offset, p.Fset.Position(b).Offset, nw, fn, what, po.Line})
				}
				text := func(n ast.Node) string {
					return string(src[p.Fset.Position(n.Pos()).Offset:p.Fset.Position(n.End()).Offset])
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.BinaryExpr:
						for _, o := range swaps[n.Op] {
							add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, n.Op.String()+" -> "+o)
						}
					case *ast.IfStmt:
						if n.Init == nil {
							add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false: "+text(n.Cond))
							add(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "if true: "+text(n.Cond))
						} else {
							add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "if false: "+text(n.Init)+"; "+text(n.Cond))
						}
					case *ast.BasicLit:
						if n.Kind == token.INT {
							v, err := strconv.ParseInt(n.Value, 0, 64)
							if err == nil {
								add(n.Pos(), n.End(), fmt.Sprint(v+1), "int "+n.Value+"+1")
								if v > 0 {
									add(n.Pos(), n.End(), fmt.Sprint(v-1), "int "+n.Value+"-1")
								}
							}
						}
					case *ast.ExprStmt:
						add(n.Pos(), n.End(), "", "delete "+text(n))
					case *ast.AssignStmt:
						if n.Tok == token.ASSIGN && len(n.Lhs) == 1 {
							add(n.Pos(), n.End(), "_ = "+text(n.Lhs[0]), "delete "+text(n))
						}
					case *ast.IncDecStmt:
						return false
					case *ast.CallExpr:
						if s, ok := n.Fun.(*ast.SelectorExpr); ok {
							if s.Sel.Name == "Clone" {
								add(s.X.End(), n.End(), "", "no Clone: "+text(n))
							}
							for _, al := range calls[s.Sel.Name] {
								add(s.Sel.Pos(), s.Sel.End(), al, s.Sel.Name+" -> "+al)
							}
						}
						for i := 0; i+1 < len(n.Args); i++ {
							a, b := pk.TypesInfo.TypeOf(n.Args[i]), pk.TypesInfo.TypeOf(n.Args[i+1])
							if a != nil && b != nil && types.Identical(a, b) && text(n.Args[i]) != text(n.Args[i+1]) {
								add(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap args of "+text(n))
							}
						}
					case *ast.CaseClause:
						for _, e := range n.List {
							if len(n.List) > 1 {
								_ = e
							}
						}
					case *ast.RangeStmt:
						if t := pk.TypesInfo.TypeOf(n.X); t != nil {
							if _, ok := t.Underlying().(*types.Slice); ok {
								add(n.X.Pos(), n.X.End(), text(n.X)+"[:max(0, len("+text(n.X)+")-1)]", "range without last: "+text(n.X))
								add(n.X.Pos(), n.X.End(), text(n.X)+"[min(1, len("+text(n.X)+")):]", "range without first: "+text(n.X))
							}
						}
					case *ast.ReturnStmt:
						if len(n.Results) > 0 {
							l := n.Results[len(n.Results)-1]
							if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
								add(l.Pos(), l.End(), "nil", "return nil error")
							}
						}
					}
					return true
				})
			}
		}
	}
	return out
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHR: {"<<"}, token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.QUO: {"*"}, token.REM: {"/"},
}

var calls = map[string][]string{
	"Add": {"Sub"}, "Sub": {"Add"}, "AddPoints": {"SubPoints"}, "SubPoints": {"AddPoints"}, "Zero": {"One"}, "One": {"Zero"},
	"Serialize": {"SerializeTagged"}, "GeneratorG": {"GeneratorH"}, "GeneratorH": {"GeneratorG"}, "SerializeTagged": {"Serialize"},
}
