package vg

// Reasoning about "for all" literals on a path: a counterexample to a negated
// one is an index at which every positive one over the same range holds.

var quantDepth int

// quantConflict reports that a literal "not all i<n: B(i)" contradicts the
// literals "all i<n: A(i)": no index satisfies every A but not B.
func quantConflict(p []lit) bool {
	if quantDepth >= 2 {
		return false
	}
	for _, l := range p {
		if l.val || l.at.op != BAll {
			continue
		}
		v, bs := openB(l.at)
		f := Not(bs[0])
		any := false
		for _, q := range p {
			if q.val && q.at.op == BAll && q.at.a[0] == l.at.a[0] {
				f = And(f, openWith(q.at, linAtom(v))[0])
				any = true
			}
		}
		if f == False {
			return true
		}
		if !any || HasUnknown(f) != "" {
			continue
		}
		quantDepth++
		budget := 4000
		sat := satisfiable(f, nil, &budget)
		quantDepth--
		if !sat {
			return true
		}
	}
	return false
}

// satisfiable: some assignment of the conditions of f passes the consistency
// tests (or the budget ran out).
func satisfiable(f *T, path []lit, budget *int) bool {
	*budget--
	if *budget <= 0 {
		return true
	}
	if f == False {
		return false
	}
	if f == True {
		p := append([]lit{}, path...)
		return consistent(p, map[*T]*T{})
	}
	if f.op != OITE {
		return true
	}
	for _, b := range []bool{false, true} {
		l := lit{f.a[0], b}
		if conflict(path, l) {
			continue
		}
		x := f.a[1]
		if !b {
			x = f.a[2]
		}
		if satisfiable(x, append(path[:len(path):len(path)], l), budget) {
			return true
		}
	}
	return false
}

// oneType drops the cases in which a value has two dynamic types.
func oneType(t *T) *T {
	roots := map[*T]int{}
	for _, at := range support(t) {
		if at.op == BType {
			roots[at.a[0]]++
		}
	}
	many := false
	for _, n := range roots {
		many = many || n > 1
	}
	if !many {
		return t
	}
	var rec func(t *T, known map[*T]*T) *T
	rec = func(t *T, known map[*T]*T) *T {
		if t.op != OITE {
			return t
		}
		at := t.a[0]
		if at.op != BType || roots[at.a[0]] < 2 {
			return iteOf(t, rec(t.a[1], known), rec(t.a[2], known))
		}
		if k := known[at.a[0]]; k != nil {
			if k == at {
				return rec(t.a[1], known)
			}
			return rec(t.a[2], known)
		}
		k2 := map[*T]*T{at.a[0]: at}
		for a, b := range known {
			k2[a] = b
		}
		return iteOf(t, rec(t.a[1], k2), rec(t.a[2], known))
	}
	return rec(t, nil)
}

func iteOf(t, a, b *T) *T {
	if a == t.a[1] && b == t.a[2] {
		return t
	}
	return ite(boolAtom(t.a[0]), a, b)
}
