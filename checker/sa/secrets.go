package sa

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// Secrets: nothing derived from a secret reaches text that people read: logs,
// standard output, error messages, panics, and the results of the methods that
// turn a value into text.  Forward taint analysis with one summary per
// function: bit 0 is a secret, bit i+1 what the i-th parameter holds.
func Secrets(p *load.Prog) *Report {
	s := &secrets{p: p, r: NewReport(), sum: map[*ssa.Function]*flowSum{}, impls: map[string][]*ssa.Function{}}
	s.collect()
	for round := 0; round < 40; round++ {
		s.changed = false
		for _, f := range s.fns {
			s.function(f)
		}
		if !s.changed {
			break
		}
	}
	for _, f := range s.fns {
		s.report(f)
	}
	s.r.Counts["functions"] = len(s.fns)
	s.r.Counts["calls"] = s.calls
	s.r.Counts["text outputs examined"] = len(s.sinksSeen)
	s.r.Counts["values that are secret by type"] = s.typed
	s.r.Floor("functions", 200)
	s.r.Floor("values that are secret by type", 50)
	s.r.Sort()
	return s.r
}

// secretTypes hold what must not be shown.
var secretTypes = map[string]bool{
	"mega.MEGaPrivateKey": true, "seed.Seed": true, "rand.ChaCha20": true, "poly.Polynomial": true,
	"poly.SimpleCommitmentOpening": true, "poly.PedersenCommitmentOpening": true, "poly.CommitmentOpening": true,
	"poly.SimpleCommitmentOpeningBytes": true, "poly.PedersenCommitmentOpeningBytes": true, "poly.CommitmentOpeningBytes": true,
	"dealings.ReshareOfUnmaskedSecret": true, "dealings.ReshareOfMaskedSecret": true, "dealings.UnmaskedTimesMaskedSecret": true,
	"dealings.SecretShares": true, "mega.mEGaPrivateKeyCbor": true,
}

type flowMask uint64

type sinkUse struct {
	where string // what the text is
	pos   string
	fn    string
}

type flowSum struct {
	ret   []flowMask
	out   []flowMask // into the memory of parameters and captured variables
	sinks map[sinkUse]flowMask
}

type secrets struct {
	p         *load.Prog
	r         *Report
	fns       []*ssa.Function
	sum       map[*ssa.Function]*flowSum
	impls     map[string][]*ssa.Function
	changed   bool
	calls     int
	typed     int
	sinksSeen map[string]bool
}

func (s *secrets) collect() {
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || len(f.Params)+len(f.FreeVars) > 60 {
			return
		}
		if f.Pkg == nil && f.Synthetic == "" {
			return
		}
		seen[f] = true
		s.fns = append(s.fns, f)
	}
	for _, f := range s.p.Funcs {
		add(f)
	}
	sort.Slice(s.fns, func(i, j int) bool { return s.fns[i].String() < s.fns[j].String() })
	for _, f := range s.fns {
		n := f.Signature.Results().Len()
		s.sum[f] = &flowSum{ret: make([]flowMask, n), out: make([]flowMask, len(f.Params)+len(f.FreeVars)), sinks: map[sinkUse]flowMask{}}
		if f.Signature.Recv() != nil {
			s.impls[f.Name()] = append(s.impls[f.Name()], f)
		}
	}
	s.sinksSeen = map[string]bool{}
}

// named gives the package-qualified name of a type, through pointers.
func named(t types.Type) string {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return ""
}

// secretType: values of the type are secrets.
func secretType(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return secretType(u.Elem())
	case *types.Slice:
		return secretType(u.Elem())
	case *types.Array:
		return secretType(u.Elem())
	}
	return secretTypes[named(t)]
}

func scalarType(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return scalarType(u.Elem())
	case *types.Slice:
		return scalarType(u.Elem())
	case *types.Array:
		return scalarType(u.Elem())
	}
	switch named(t) {
	case "curve.EccScalar", "curve.Secp256k1Scalar", "curve.EccScalarBytes", "curve.Secp256K1ScalarBytes":
		return true
	}
	return false
}

func pointType(t types.Type) bool {
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		return pointType(u.Elem())
	case *types.Slice:
		return pointType(u.Elem())
	}
	switch named(t) {
	case "curve.EccPoint", "curve.Secp256k1Point":
		return true
	}
	return false
}

// public: values of the type reveal no secret by convention: verdicts, kinds,
// counts, indices, errors.
func public(t types.Type) bool {
	if isErr(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return true
		}
		if u.Info()&types.IsInteger != 0 {
			if _, ok := types.Unalias(t).(*types.Named); ok {
				return true
			}
			return u.Kind() == types.Int
		}
	case *types.Signature, *types.Chan:
		return true
	}
	switch named(t) {
	case "mega.MEGaPublicKey", "zk.ProofOfDLogEquivalence", "zk.ProofOfProduct", "zk.ProofOfEqualOpenings", "poly.SimpleCommitment", "poly.PedersenCommitment", "poly.PolynomialCommitment",
		"mega.MEGaCiphertextSingle", "mega.MEGaCiphertextPair", "mega.MEGaCiphertext", "dealings.IDkgDealingInternal", "dealings.IDkgTranscriptInternal", "complaints.IDkgComplaintInternal", "sign.ThresholdEcdsaCombinedSigInternal", "sign.ThresholdEcdsaSigShareInternal":
		return true
	}
	return false
}

type cell struct {
	root ssa.Value
	path string
}

type flow struct {
	s       *secrets
	f       *ssa.Function
	sum     *flowSum
	val     map[ssa.Value]flowMask
	mem     map[ssa.Value]map[string]flowMask
	idx     map[ssa.Value]int
	parts   map[ssa.Value]map[int]flowMask
	changed bool
	public  bool // points are public here
}

func (s *secrets) function(f *ssa.Function) *flow {
	w := &flow{s: s, f: f, sum: s.sum[f], val: map[ssa.Value]flowMask{}, mem: map[ssa.Value]map[string]flowMask{}, idx: map[ssa.Value]int{}, parts: map[ssa.Value]map[int]flowMask{}}
	pk := pkgPath(f)
	w.public = !strings.HasSuffix(pk, "/mega") && !strings.HasSuffix(pk, "/complaints")
	n := 0
	for _, p := range f.Params {
		w.idx[p] = n
		w.val[p] = 1 << (n + 1)
		n++
	}
	for _, p := range f.FreeVars {
		w.idx[p] = n
		w.val[p] = 1 << (n + 1)
		n++
	}
	for i := 0; i < 30; i++ {
		w.changed = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				w.instr(in)
			}
		}
		if !w.changed {
			break
		}
	}
	return w
}

// loc is where an address or reference points: a root and a path.
func (w *flow) loc(v ssa.Value, depth int) (ssa.Value, string) {
	if depth > 8 {
		return v, ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		r, p := w.loc(x.X, depth+1)
		return r, p + fmt.Sprintf(".%d", x.Field)
	case *ssa.IndexAddr:
		r, p := w.loc(x.X, depth+1)
		return r, p + "[]"
	case *ssa.Slice:
		return w.loc(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			r, p := w.loc(x.X, depth+1)
			return r, p + "*"
		}
	case *ssa.ChangeType:
		return w.loc(x.X, depth+1)
	case *ssa.MakeInterface:
		return w.loc(x.X, depth+1)
	case *ssa.ChangeInterface:
		return w.loc(x.X, depth+1)
	case *ssa.TypeAssert:
		return w.loc(x.X, depth+1)
	}
	return v, ""
}

// get is the taint of a value, including what it refers to.
func (w *flow) get(v ssa.Value) flowMask {
	if v == nil || public(v.Type()) {
		return 0
	}
	if w.public && pointType(v.Type()) {
		return 0
	}
	m := w.val[v]
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return 0
	}
	if secretType(v.Type()) {
		m |= 1
	}
	r, p := w.loc(v, 0)
	for q, x := range w.mem[r] {
		if strings.HasPrefix(q, p) || strings.HasPrefix(p, q) {
			m |= x
		}
	}
	return m
}

func (w *flow) set(v ssa.Value, m flowMask) {
	if public(v.Type()) || w.public && pointType(v.Type()) {
		return
	}
	if m&^w.val[v] != 0 {
		w.val[v] |= m
		w.changed = true
	}
}

// setPart taints one of several results of a call.
func (w *flow) setPart(v ssa.Value, i int, m flowMask) {
	if w.parts[v] == nil {
		w.parts[v] = map[int]flowMask{}
	}
	if m&^w.parts[v][i] != 0 {
		w.parts[v][i] |= m
		w.changed = true
	}
}

// put taints the memory an address or reference points to.
func (w *flow) put(addr ssa.Value, m flowMask) {
	if m == 0 {
		return
	}
	r, p := w.loc(addr, 0)
	if w.mem[r] == nil {
		w.mem[r] = map[string]flowMask{}
	}
	if m&^w.mem[r][p] != 0 {
		w.mem[r][p] |= m
		w.changed = true
	}
	if i, ok := w.idx[r]; ok {
		m &^= 1 << (i + 1)
		if m&^w.sum.out[i] != 0 {
			w.sum.out[i] |= m
			w.s.changed = true
		}
	}
}

func (w *flow) sink(m flowMask, u sinkUse) {
	w.s.sinksSeen[u.pos+u.where] = true
	if m != 0 && m&^w.sum.sinks[u] != 0 {
		w.sum.sinks[u] |= m
		w.s.changed = true
	}
}

func (w *flow) instr(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		w.put(in.Addr, w.get(in.Val))
	case *ssa.MapUpdate:
		w.put(in.Map, w.get(in.Value)|w.get(in.Key))
	case *ssa.Send:
		w.put(in.Chan, w.get(in.X))
	case *ssa.Return:
		for i, v := range in.Results {
			m := w.get(v)
			if m&^w.sum.ret[i] != 0 {
				w.sum.ret[i] |= m
				w.s.changed = true
			}
		}
	case *ssa.Panic:
		if m := w.shown(in.X, 0, true); true {
			w.sink(m, w.at("a panic", in.Pos()))
		}
	case ssa.CallInstruction:
		w.call(in)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			r, p := w.loc(in.X, 0)
			m := flowMask(0)
			if _, isAlloc := r.(*ssa.Alloc); !isAlloc {
				m = w.val[r]
				if secretType(r.Type()) {
					m |= 1
				}
			}
			for q, x := range w.mem[r] {
				if strings.HasPrefix(q, p) || strings.HasPrefix(p, q) {
					m |= x
				}
			}
			w.set(in, m)
			return
		}
		w.set(in, w.get(in.X))
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
		// through memory
		if v, ok := in.(*ssa.FieldAddr); ok {
			if r, _ := w.loc(v, 0); r != v {
				if _, isAlloc := r.(*ssa.Alloc); !isAlloc {
					w.set(v, w.val[r])
				}
			}
		}
		if v, ok := in.(*ssa.IndexAddr); ok {
			if r, _ := w.loc(v, 0); r != v {
				if _, isAlloc := r.(*ssa.Alloc); !isAlloc {
					w.set(v, w.val[r])
				}
			}
		}
	case *ssa.BinOp:
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return
		}
		w.set(in, w.get(in.X)|w.get(in.Y))
	case *ssa.MakeClosure:
		w.closure(in)
	case *ssa.MakeInterface:
		w.set(in, w.get(in.X))
		if m := w.get(in.X); m != 0 && isErr(in.Type()) {
			for _, f := range w.textMethods(in.X.Type()) {
				if w.revealsReceiver(f) {
					w.sink(m, w.at("an error with method "+load.FuncName(f), in.Pos()))
				}
			}
		}
	case *ssa.Extract:
		w.set(in, w.get(in.Tuple)|w.parts[in.Tuple][in.Index])
	default:
		v, ok := in.(ssa.Value)
		if !ok {
			return
		}
		var m flowMask
		for _, o := range in.Operands(nil) {
			if *o != nil {
				m |= w.get(*o)
			}
		}
		w.set(v, m)
	}
}

func (w *flow) at(what string, pos token.Pos) sinkUse {
	ps := w.s.p.Pos(pos)
	if !pos.IsValid() {
		ps = w.s.p.Pos(w.f.Pos())
	}
	return sinkUse{what, ps, load.FuncName(w.f)}
}

// closure: what a function literal does with what it captures.
func (w *flow) closure(c *ssa.MakeClosure) {
	f, ok := c.Fn.(*ssa.Function)
	if !ok {
		return
	}
	sum := w.s.sum[f]
	if sum == nil {
		return
	}
	n := len(f.Params)
	arg := func(m flowMask) flowMask {
		out := m & 1
		for i, b := range c.Bindings {
			if m&(1<<(n+i+1)) != 0 {
				out |= w.get(b)
			}
		}
		for i, p := range f.Params {
			if m&(1<<(i+1)) != 0 && secretType(p.Type()) {
				out |= 1
			}
		}
		return out
	}
	for i, b := range c.Bindings {
		w.put(b, arg(sum.out[n+i]))
	}
	for u, m := range sum.sinks {
		w.sink(arg(m), u)
	}
	for _, m := range sum.ret {
		w.set(c, arg(m))
	}
}

func (w *flow) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		var out []*ssa.Function
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		for _, f := range w.s.impls[c.Method.Name()] {
			if ok && types.Implements(f.Signature.Recv().Type(), it) || ok && types.Implements(types.NewPointer(f.Signature.Recv().Type()), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if f := c.StaticCallee(); f != nil {
		if w.s.sum[f] != nil {
			return []*ssa.Function{f}
		}
	}
	return nil
}

func (w *flow) call(in ssa.CallInstruction) {
	c := in.Common()
	w.s.calls++
	res, _ := in.(ssa.Value)
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	w.output(c, in)
	ts := w.targets(c)
	for _, f := range ts {
		sum := w.s.sum[f]
		sub := func(m flowMask) flowMask {
			out := m & 1
			for i, a := range args {
				if m&(1<<(i+1)) != 0 {
					out |= w.get(a)
				}
			}
			return out
		}
		for u, m := range sum.sinks {
			w.sink(sub(m&^1), u)
		}
		for i := range args {
			w.put(args[i], sub(sum.out[i]))
		}
		if res != nil {
			if len(sum.ret) == 1 {
				w.set(res, sub(sum.ret[0]))
			}
			for i, r := range sum.ret {
				if len(sum.ret) > 1 {
					w.setPart(res, i, sub(r))
				}
			}
		}
	}
	if res != nil && !w.public && c.IsInvoke() && pointType(c.Value.Type()) {
		// Diffie-Hellman values
		var m flowMask
		for _, a := range args {
			m |= w.get(a)
		}
		w.set(res, m)
	}
	if len(ts) > 0 {
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap", "print", "println", "close", "delete":
			return
		case "copy":
			w.put(args[0], w.get(args[1]))
			return
		}
	}
	pkg, _, name := calleeID(c)
	if pkg == "fmt" && name == "Sprintf" || pkg == "fmt" && name == "Sprint" || pkg == "fmt" && name == "Sprintln" {
		if res != nil {
			w.set(res, w.formatted(c))
		}
		return
	}
	if pkg == "fmt" && strings.HasPrefix(name, "Fprint") {
		w.put(args[0], w.formatted(c))
		return
	}
	// anything else combines its arguments
	var m flowMask
	for _, a := range args {
		m |= w.get(a)
	}
	if !c.IsInvoke() && c.StaticCallee() == nil {
		m |= w.get(c.Value)
	}
	if res != nil {
		w.set(res, m)
	}
	for i, a := range args {
		if i > 0 && !isBytes(a.Type()) {
			break
		}
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface:
			if i == 0 || strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "XOR") || strings.HasPrefix(name, "Encode") {
				w.put(a, m)
			}
		}
	}
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// output: the call writes text that people read.
func (w *flow) output(c *ssa.CallCommon, in ssa.CallInstruction) {
	pkg, recv, name := calleeID(c)
	pos := in.Pos()
	all := func(from int, what string) {
		var m flowMask
		for _, a := range c.Args[min(from, len(c.Args)):] {
			m |= w.shown(a, 0, true)
		}
		w.sink(m, w.at(what, pos))
	}
	switch {
	case pkg == "builtin" && (name == "print" || name == "println"):
		all(0, "standard error ("+name+")")
	case pkg == "fmt" && (name == "Print" || name == "Println" || name == "Printf"):
		w.sink(w.formatted(c), w.at("standard output (fmt."+name+")", pos))
	case pkg == "fmt" && strings.HasPrefix(name, "Fprint") && len(c.Args) > 0 && w.readable(c.Args[0]):
		w.sink(w.formatted(c), w.at("output (fmt."+name+")", pos))
	case pkg == "fmt" && name == "Errorf":
		w.sink(w.formatted(c), w.at("an error message (fmt.Errorf)", pos))
	case pkg == "github.com/pkg/errors" && (strings.HasSuffix(name, "f") || name == "WithMessage" || name == "New" || name == "Wrap"),
		pkg == "errors" && name == "New",
		strings.HasSuffix(pkg, "/xerrors") && (name == "New" || name == "Errorf"):
		w.sink(w.formatted(c), w.at("an error message ("+pkg[strings.LastIndex(pkg, "/")+1:]+"."+name+")", pos))
	case pkg == "log" || pkg == "log/slog" || pkg == "testing" && (name == "Log" || name == "Logf"):
		w.sink(w.formatted(c), w.at("the log ("+pkg+"."+name+")", pos))
	case (strings.HasSuffix(recv, "os.File") || recv == "*os.File") && (name == "Write" || name == "WriteString"):
		all(1, "a file (os.File."+name+")")
	case pkg == "io" && name == "WriteString" && len(c.Args) == 2 && w.readable(c.Args[0]):
		all(1, "output (io.WriteString)")
	case c.IsInvoke() && (name == "Write" || name == "WriteString") && w.readable(c.Value):
		all(0, "output ("+name+")")
	case pkg == "os" && name == "WriteFile", pkg == "io/ioutil" && name == "WriteFile":
		all(1, "a file ("+pkg+"."+name+")")
	case pkg == "syscall" && name == "Write":
		all(1, "a file (syscall.Write)")
	}
}

// readable: a writer people read: a file, standard output, a formatter state.
func (w *flow) readable(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return strings.HasSuffix(x.X.Type().String(), "os.File")
	case *ssa.ChangeInterface:
		return w.readable(x.X)
	}
	return strings.HasSuffix(v.Type().String(), "os.File") || v.Type().String() == "fmt.State"
}

// formatted is the taint of the text of a formatting call.
func (w *flow) formatted(c *ssa.CallCommon) flowMask {
	var m flowMask
	args := c.Args
	format := -1
	for i, a := range args {
		if b, ok := a.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			m |= w.get(a)
			format = i
		}
	}
	if len(args) == 0 {
		return m
	}
	sig, _ := c.Value.Type().Underlying().(*types.Signature)
	if c.IsInvoke() {
		sig, _ = c.Method.Type().(*types.Signature)
	}
	if sig == nil || !sig.Variadic() {
		return m
	}
	list := variadic(args[len(args)-1])
	if list == nil {
		return m | w.get(args[len(args)-1])
	}
	var verbs []string
	if format >= 0 {
		if k, ok := args[format].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
			verbs = verbsOf(constant.StringVal(k.Value))
		}
	}
	for i, vs := range list {
		for _, v := range vs {
			if verbs != nil && i < len(verbs) {
				switch verbs[i] {
				case "T", "p":
					continue
				}
			}
			m |= w.shown(v, 0, true)
		}
	}
	return m
}

// variadic lists what is stored in the slice of a variadic call.
func variadic(a ssa.Value) [][]ssa.Value {
	if k, ok := a.(*ssa.Const); ok && k.IsNil() {
		return [][]ssa.Value{}
	}
	s, ok := a.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	arr, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	out := make([][]ssa.Value, arr.Len())
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			k, isC := ia.Index.(*ssa.Const)
			if !isC {
				return nil
			}
			for _, x := range *ia.Referrers() {
				if st, ok := x.(*ssa.Store); ok {
					i := k.Int64()
					out[i] = append(out[i], st.Val)
				}
			}
		}
	}
	return out
}

func verbsOf(f string) []string {
	out := []string{}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		switch f[i] {
		case '%':
		case '[', '*':
			return nil
		default:
			out = append(out, string(f[i]))
		}
	}
	return out
}

// shown is the taint of what formatting prints of a value.
func (w *flow) shown(v ssa.Value, depth int, methods bool) flowMask {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	m := w.get(v)
	if m == 0 {
		return 0
	}
	if !w.prints(v.Type(), 0, map[types.Type]bool{}) {
		return 0
	}
	return m
}

// textMethods are the methods formatting calls on a value of the type.
func (w *flow) textMethods(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range []string{"Format", "Error", "String", "GoString"} {
		ms := w.s.p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if sel := ms.At(i); sel.Obj().Name() == n {
				if f := w.s.p.SSA.MethodValue(sel); f != nil {
					if w.s.sum[f] == nil {
						// wrapper: the declared method
						if g := w.s.p.SSA.FuncValue(sel.Obj().(*types.Func)); g != nil {
							f = g
						}
					}
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (w *flow) revealsReceiver(f *ssa.Function) bool {
	sum := w.s.sum[f]
	if sum == nil {
		return true
	}
	for _, r := range sum.ret {
		if r&3 != 0 {
			return true
		}
	}
	for _, m := range sum.sinks {
		if m&3 != 0 {
			return true
		}
	}
	return false
}

// prints: formatting a value of the type shows more than addresses.
func (w *flow) prints(t types.Type, depth int, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	defer delete(seen, t)
	if depth == 0 {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if ms := w.textMethods(t); len(ms) > 0 {
				return w.revealsReceiver(ms[0])
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Pointer:
		if depth > 0 {
			return false
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array, *types.Slice, *types.Map:
			return w.prints(u.Elem(), depth+1, seen)
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if w.prints(u.Field(i).Type(), depth+1, seen) && !public(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Slice:
		return w.prints(u.Elem(), depth+1, seen)
	case *types.Array:
		return w.prints(u.Elem(), depth+1, seen)
	case *types.Map:
		return w.prints(u.Elem(), depth+1, seen) || w.prints(u.Key(), depth+1, seen)
	case *types.Interface:
		if u.NumMethods() == 0 {
			return true
		}
		any, yes := false, false
		for _, f := range w.s.fns {
			if f.Signature.Recv() == nil {
				continue
			}
			rt := f.Signature.Recv().Type()
			if types.Implements(rt, u) {
				any = true
				yes = yes || w.prints(rt, depth, seen)
			}
		}
		return yes || !any
	}
	return false
}

// report: what a function shows of secrets of its own, of scalars it is given,
// and of encodings it turns into secrets.
func (s *secrets) report(f *ssa.Function) {
	sum := s.sum[f]
	if sum == nil || f.Synthetic != "" {
		return
	}
	var own flowMask = 1
	for i, p := range f.Params {
		if secretType(p.Type()) {
			own |= 1 << (i + 1)
			s.typed++
		}
		if ex := f.Object() != nil && f.Object().Exported(); ex && !strings.HasSuffix(pkgPath(f), "/sign") {
			if scalarType(p.Type()) {
				own |= 1 << (i + 1)
				s.typed++
			}
			if isBytes(p.Type()) && s.decodesSecret(f) {
				own |= 1 << (i + 1)
				s.typed++
			}
		}
	}
	for u, m := range sum.sinks {
		if m&own != 0 && u.fn != "" {
			s.r.Add("secret-in-text", u.pos, "%s writes a secret to %s", u.fn, u.where)
		}
	}
	switch f.Name() {
	case "String", "GoString", "Error", "ToString", "MarshalText", "Format":
		if f.Signature.Recv() == nil {
			return
		}
		s.sinksSeen[s.p.Pos(f.Pos())+f.Name()] = true
		for _, m := range sum.ret {
			if m&own != 0 {
				s.r.Add("secret-in-text", s.p.Pos(f.Pos()), "%s returns a secret as text", load.FuncName(f))
				return
			}
		}
	}
}

// decodesSecret: the function decodes bytes to a secret or a scalar.
func (s *secrets) decodesSecret(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if t := rs.At(i).Type(); secretType(t) || scalarType(t) {
			n := strings.ToLower(f.Name())
			if strings.Contains(n, "hash") || named(t) == "seed.Seed" && !strings.Contains(n, "from") {
				continue
			}
			return true
		}
	}
	return false
}
