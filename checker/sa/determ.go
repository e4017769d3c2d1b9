package sa

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// Determinism: the library reads nothing but its arguments, keeps nothing
// between calls and lets no unspecified order reach a result.
func Determinism(p *load.Prog) *Report {
	d := &determ{p: p, r: NewReport(), shared: map[ssa.Value]bool{}, mutable: map[*ssa.Global]bool{}}
	d.findShared()
	d.findMutable()
	for _, f := range p.Funcs {
		d.r.Counts["functions"]++
		d.function(f)
	}
	d.r.Floor("functions", 200)
	d.r.Sort()
	return d.r
}

type determ struct {
	p       *load.Prog
	r       *Report
	shared  map[ssa.Value]bool   // addresses of, and references loaded from, package variables
	mutable map[*ssa.Global]bool // package variables assigned outside initialisation
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") || f.Synthetic == "package initializer"
}

// library: the variable belongs to a package that is analysed.
func library(g *ssa.Global) bool { return g.Pkg != nil && load.IsLib(g.Pkg.Pkg.Path()) }

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice:
		return true
	}
	return false
}

// findShared marks what points into package variables, through static calls.
func (d *determ) findShared() {
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !d.shared[v] {
				d.shared[v] = true
				changed = true
			}
		}
		is := func(v ssa.Value) bool {
			if g, ok := v.(*ssa.Global); ok {
				return library(g)
			}
			return d.shared[v]
		}
		for _, f := range d.p.Funcs {
			if isInit(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.FieldAddr:
						if is(in.X) {
							mark(in)
						}
					case *ssa.IndexAddr:
						if is(in.X) {
							mark(in)
						}
					case *ssa.UnOp:
						if in.Op == token.MUL && is(in.X) && refType(in.Type()) {
							mark(in)
						}
					case *ssa.Slice:
						if is(in.X) {
							mark(in)
						}
					case *ssa.Lookup:
						if is(in.X) && refType(in.Type()) {
							mark(in)
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if is(e) && refType(in.Type()) {
								mark(in)
							}
						}
					case ssa.CallInstruction:
						c := in.Common()
						if g := c.StaticCallee(); g != nil && g.Blocks != nil && len(g.Params) == len(c.Args) {
							for i, a := range c.Args {
								if is(a) && refType(a.Type()) {
									mark(g.Params[i])
								}
							}
						}
					}
				}
			}
		}
	}
}

func globalOf(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return nil
		}
	}
}

func (d *determ) isShared(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return library(g)
	}
	return d.shared[v]
}

func (d *determ) findMutable() {
	for _, f := range d.p.Funcs {
		if isInit(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && d.isShared(s.Addr) {
					if g := globalOf(s.Addr); g != nil {
						d.mutable[g] = true
					}
				}
			}
		}
	}
}

// varies: the value depends on an argument or on state kept between calls.
func (d *determ) varies(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return false
	case *ssa.Global:
		return d.mutable[v]
	case *ssa.Alloc:
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Addr == v && d.varies(s.Val, seen) {
				return true
			}
			if a, ok := u.(ssa.Value); ok {
				switch a.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr:
					for _, w := range *a.Referrers() {
						if s, ok := w.(*ssa.Store); ok && s.Addr == a && d.varies(s.Val, seen) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if *o != nil && d.varies(*o, seen) {
				return true
			}
		}
	}
	return false
}

// globalRand are the functions of math/rand that use the shared generator.
var pureRand = map[string]bool{"New": true, "NewSource": true, "NewZipf": true, "NewPCG": true, "NewChaCha8": true}

var clock = map[string]bool{"Now": true, "Since": true, "Until": true, "After": true, "Tick": true, "NewTimer": true, "NewTicker": true, "AfterFunc": true}

// ambient names what a call reads besides its arguments, or "".
func ambient(c *ssa.CallCommon) string {
	pkg, recv, name := calleeID(c)
	switch pkg {
	case "time":
		if recv == "" && clock[name] {
			return "the clock (time." + name + ")"
		}
	case "math/rand", "math/rand/v2":
		if recv == "" && !pureRand[name] {
			return "the global generator (" + pkg + "." + name + ")"
		}
	case "crypto/rand":
		return "system randomness (crypto/rand." + name + ")"
	case "os":
		if recv == "" && name != "Exit" && name != "NewFile" {
			return "the process environment (os." + name + ")"
		}
	case "syscall", "net", "os/user", "os/exec", "os/signal":
		return "the system (" + pkg + "." + name + ")"
	case "runtime":
		switch name {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "Caller", "Callers", "ReadMemStats", "NumCgoCall":
			return "the runtime (runtime." + name + ")"
		}
	case "hash/maphash":
		return "a per-process hash seed (hash/maphash." + name + ")"
	case "go.dedis.ch/kyber/v3/util/random":
		if name == "New" && (len(c.Args) == 0 || isNilConst(c.Args[0])) {
			return "system randomness (random.New)"
		}
	case "fmt":
		for _, a := range c.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				return "an address (fmt." + name + " with %p)"
			}
		}
	case "reflect":
		switch name {
		case "Pointer", "UnsafeAddr", "UnsafePointer", "MapKeys", "MapRange":
			return "addresses or map order (reflect." + name + ")"
		}
	}
	return ""
}

func (d *determ) function(f *ssa.Function) {
	init := isInit(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			pos := d.p.Pos(in.Pos())
			switch in := in.(type) {
			case *ssa.Go:
				d.r.Add("goroutine", pos, "%s starts a goroutine", load.FuncName(f))
			case *ssa.Select:
				if len(in.States) > 1 || !in.Blocking {
					d.r.Add("schedule", pos, "%s selects between communications", load.FuncName(f))
				}
			case *ssa.Convert:
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
					if x, ok := in.X.Type().Underlying().(*types.Basic); ok && x.Kind() == types.UnsafePointer {
						d.r.Add("ambient-input", pos, "%s turns an address into a number", load.FuncName(f))
					}
				}
			case *ssa.Store:
				d.r.Counts["stores"]++
				if !init && d.isShared(in.Addr) {
					d.stored(f, pos, in.Addr, in.Val)
				}
			case *ssa.MapUpdate:
				if !init && d.isShared(in.Map) && (d.varies(in.Value, map[ssa.Value]bool{}) || d.varies(in.Key, map[ssa.Value]bool{})) {
					d.r.Add("kept-between-calls", pos, "%s keeps a value that depends on its arguments in a package-level map", load.FuncName(f))
				}
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					d.r.Counts["map iterations"]++
					d.mapRange(f, in)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				d.r.Counts["calls"]++
				if w := ambient(c.Common()); w != "" {
					d.r.Add("ambient-input", pos, "%s reads %s", load.FuncName(f), w)
				}
				if !init {
					d.kept(f, pos, c.Common())
				}
			}
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil {
					d.r.Counts["uses of package variables"]++
					switch g.Pkg.Pkg.Path() + "." + g.Name() {
					case "crypto/rand.Reader":
						d.r.Add("ambient-input", pos, "%s reads system randomness (crypto/rand.Reader)", load.FuncName(f))
					case "os.Args", "os.Stdin":
						d.r.Add("ambient-input", pos, "%s reads %s", load.FuncName(f), "os."+g.Name())
					}
				}
			}
		}
	}
}

func (d *determ) stored(f *ssa.Function, pos string, addr, val ssa.Value) {
	seen := map[ssa.Value]bool{}
	idx := false
	for a := addr; ; {
		switch x := a.(type) {
		case *ssa.IndexAddr:
			idx = idx || d.varies(x.Index, map[ssa.Value]bool{})
			a = x.X
			continue
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.UnOp:
			a = x.X
			continue
		}
		break
	}
	if idx || d.varies(val, seen) {
		n := "package-level state"
		if g := globalOf(addr); g != nil {
			n = "package variable " + g.Name()
		}
		d.r.Add("kept-between-calls", pos, "%s stores a value that depends on its arguments or on earlier calls in %s", load.FuncName(f), n)
	}
}

// kept: library calls that update package-level state in place.
func (d *determ) kept(f *ssa.Function, pos string, c *ssa.CallCommon) {
	pkg, recv, name := calleeID(c)
	var args []ssa.Value
	switch {
	case pkg == "builtin" && name == "copy":
	case pkg == "sync/atomic" && recv == "" && (strings.HasPrefix(name, "Add") || strings.HasPrefix(name, "Store") || strings.HasPrefix(name, "Swap") || strings.HasPrefix(name, "CompareAndSwap")):
	case pkg == "sync/atomic" && (name == "Add" || name == "Store" || name == "Swap" || name == "CompareAndSwap"):
	case pkg == "sync" && strings.HasSuffix(recv, "sync.Map") && (name == "Store" || name == "LoadOrStore" || name == "Swap" || name == "CompareAndSwap"):
	default:
		return
	}
	if len(c.Args) == 0 || !d.isShared(c.Args[0]) {
		return
	}
	args = c.Args[1:]
	for _, a := range args {
		if strings.HasPrefix(name, "Add") || d.varies(a, map[ssa.Value]bool{}) {
			d.r.Add("kept-between-calls", pos, "%s updates package-level state (%s.%s)", load.FuncName(f), pkg, name)
			return
		}
	}
}

// mapRange: the order of a map iteration must not reach anything but sets,
// sums and values that are sorted afterwards.
func (d *determ) mapRange(f *ssa.Function, r *ssa.Range) {
	taint := map[ssa.Value]bool{}
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
			for _, e := range *n.Referrers() {
				if x, ok := e.(*ssa.Extract); ok && x.Index > 0 {
					taint[x] = true
				}
			}
		}
	}
	if next == nil {
		return
	}
	// blocks of the loop
	inLoop := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		if b != next.Block() && next.Block().Dominates(b) && reaches(b, next.Block()) {
			inLoop[b] = true
		}
	}
	// what depends on the key or value
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if s, isS := in.(*ssa.Store); isS && taint[s.Val] && !taint[s.Addr] {
					if _, isA := s.Addr.(*ssa.Alloc); isA {
						taint[s.Addr] = true
						changed = true
					}
				}
				if !ok || taint[v] {
					continue
				}
				if c, isC := in.(*ssa.Call); isC {
					if bi, isB := c.Call.Value.(*ssa.Builtin); isB && (bi.Name() == "len" || bi.Name() == "cap") {
						continue
					}
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && taint[*o] {
						taint[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	sortedLater := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				pkg, _, name := calleeID(c.Common())
				if pkg == "sort" || pkg == "slices" && strings.HasPrefix(name, "Sort") {
					sortedLater = true
				}
			}
		}
	}
	for b := range inLoop {
		for _, in := range b.Instrs {
			pos := d.p.Pos(in.Pos())
			switch in := in.(type) {
			case *ssa.Call:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" && !sortedLater {
						for _, a := range c.Args[1:] {
							if taint[a] || d.fedByTaint(a, taint) {
								d.r.Add("map-order", pos, "%s appends in map order", load.FuncName(f))
							}
						}
					}
					continue
				}
				_, _, name := calleeID(c)
				derived := false
				gen := false
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, args...)
				}
				for _, a := range args {
					derived = derived || taint[a]
					gen = gen || isGenerator(a.Type())
				}
				if gen {
					d.r.Add("map-order", pos, "%s draws from a generator in map order", load.FuncName(f))
				} else if derived && (name == "Write" || name == "WriteString" || name == "WriteByte") {
					d.r.Add("map-order", pos, "%s writes in map order", load.FuncName(f))
				}
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && taint[in.Val] && !taint[ia.Index] && !sortedLater {
					if _, isC := ia.Index.(*ssa.Const); !isC {
						d.r.Add("map-order", pos, "%s fills a slice in map order", load.FuncName(f))
					}
				}
			case *ssa.BinOp:
				if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && in.Op == token.ADD && (taint[in.X] || taint[in.Y]) {
					if _, ok := in.X.(*ssa.Phi); ok && !sortedLater {
						d.r.Add("map-order", pos, "%s joins text in map order", load.FuncName(f))
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		if !next.Block().Dominates(b) || inLoop[b] || b == next.Block() {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		// reached from inside the loop without going through its head
		early := false
		for _, q := range b.Preds {
			early = early || inLoop[q]
		}
		if !early {
			continue
		}
		for _, v := range ret.Results {
			if taint[v] && !isErr(v.Type()) {
				d.r.Add("map-order", d.p.Pos(ret.Pos()), "%s returns the first element in map order that fits", load.FuncName(f))
			}
		}
	}
}

// fedByTaint: the variadic argument slice holds a tainted value.
func (d *determ) fedByTaint(a ssa.Value, taint map[ssa.Value]bool) bool {
	s, ok := a.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, w := range *ia.Referrers() {
				if st, ok := w.(*ssa.Store); ok && taint[st.Val] {
					return true
				}
			}
		}
	}
	return false
}

func isGenerator(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	return n.Obj().Name() == "Rand" || n.Obj().Name() == "ChaCha20"
}
