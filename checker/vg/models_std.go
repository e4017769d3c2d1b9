package vg

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of growing byte buffers and of map iterators.

func stdModels(m map[string]modelFn) {
	bytesT := types.NewSlice(TyByte)

	// A buffer is its struct with what was written in the field that holds the bytes.
	buffer := func(prefix string, field int) {
		upd := func(g func(e *Eng, st *state, old *T, a []*T) *T, ret func(e *Eng, st *state, a []*T) *T) modelFn {
			return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
				e.fork(st, e.simp(a[0], st), func(st *state, r *T) *T {
					if r.op != ORef {
						e.giveUp("buffer " + opName(r))
					}
					c := e.load(st, r)
					n := lift1Dyn(c, func(c *T) *T {
						if c.op != OStruct {
							e.giveUp("buffer content " + opName(c))
						}
						b := append([]*T(nil), c.a...)
						b[field] = g(e, st, e.seqOf(st, c.a[field]), a)
						return mk(OStruct, c.ty, b...)
					})
					e.store(st, r, n, e.top(), token.NoPos)
					return C(0)
				})
				return ret(e, st, a)
			}
		}
		get := func(g func(e *Eng, st *state, q *T) *T) modelFn {
			return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
				return e.fork(st, e.simp(a[0], st), func(st *state, r *T) *T {
					if r.op != ORef {
						e.giveUp("buffer " + opName(r))
					}
					return e.fork(st, e.load(st, r), func(st *state, c *T) *T {
						if c.op != OStruct {
							e.giveUp("buffer content " + opName(c))
						}
						return g(e, st, e.seqOf(st, c.a[field]))
					})
				})
			}
		}
		written := func(e *Eng, st *state, a []*T) *T { return tup(SLen(e.seqOf(st, a[1])), Nil) }
		add := func(e *Eng, st *state, old *T, a []*T) *T { return SCat(old, e.seqOf(st, a[1])) }
		m[prefix+"Write"] = upd(add, written)
		m[prefix+"WriteString"] = upd(add, written)
		m[prefix+"WriteByte"] = upd(func(e *Eng, st *state, old *T, a []*T) *T { return SCat(old, mkArr([]*T{a[1]})) },
			func(e *Eng, st *state, a []*T) *T { return Nil })
		m[prefix+"Reset"] = upd(func(e *Eng, st *state, old *T, a []*T) *T { return QEmpty() },
			func(e *Eng, st *state, a []*T) *T { return tup() })
		m[prefix+"Grow"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			e.panicIf(st, Lt(a[1], C(0)), "negative count", e.top(), token.NoPos)
			return tup()
		}
		m[prefix+"Bytes"] = get(func(e *Eng, st *state, q *T) *T { return e.bytesVal(st, q, bytesT) })
		m[prefix+"String"] = get(func(e *Eng, st *state, q *T) *T { return q })
		m[prefix+"Len"] = get(func(e *Eng, st *state, q *T) *T { return SLen(q) })
	}
	buffer("bytes.Buffer.", 0)
	buffer("strings.Builder.", 1)
	newBuf := func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		t := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		z := zeroOf(t)
		if z.op != OStruct {
			e.giveUp("buffer type")
		}
		b := append([]*T(nil), z.a...)
		b[0] = e.seqOf(st, a[0])
		return e.newObj(st, t, mk(OStruct, z.ty, b...))
	}
	m["bytes.NewBuffer"] = newBuf
	m["bytes.NewBufferString"] = newBuf
	clone := func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		return e.fork(st, e.simp(a[0], st), func(st *state, s *T) *T {
			if s == Nil {
				return Nil
			}
			return e.bytesVal(st, e.seqOf(st, s), bytesT)
		})
	}
	m["bytes.Clone"] = clone
	m["bytes.Join"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		l, sep := e.seqOf(st, a[0]), e.seqOf(st, a[1])
		return e.fork(st, l, func(st *state, l *T) *T {
			if l.op == QBytes && l.s == "" {
				return e.bytesVal(st, QEmpty(), bytesT)
			}
			if l.op != QArr {
				return e.bytesVal(st, Unk("bytes.Join"), bytesT)
			}
			q := QEmpty()
			for i, x := range l.a {
				if i > 0 {
					q = SCat(q, sep)
				}
				q = SCat(q, e.seqOf(st, x))
			}
			return e.bytesVal(st, q, bytesT)
		})
	}

	// Iterators: the map in field 0, the position in the place of the current item.
	bt := "github.com/tidwall/btree.Map."
	const slot = 5
	m[bt+"Iter"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		z := zeroOf(f.Signature.Results().At(0).Type())
		if z.op != OStruct || len(z.a) <= slot {
			e.giveUp("iterator type")
		}
		b := append([]*T(nil), z.a...)
		b[0], b[slot] = a[0], C(-1)
		return mk(OStruct, z.ty, b...)
	}
	it := "github.com/tidwall/btree.MapIter."
	onIter := func(e *Eng, st *state, p *T, fn func(st *state, r, c *T) *T) *T {
		return e.fork(st, e.simp(p, st), func(st *state, r *T) *T {
			if r.op != ORef {
				e.giveUp("iterator " + opName(r))
			}
			return e.fork(st, e.load(st, r), func(st *state, c *T) *T {
				if c.op != OStruct || len(c.a) <= slot || c.a[slot].op != OLin && c.a[slot].op != OITE {
					e.giveUp("iterator state " + opName(c))
				}
				return fn(st, r, c)
			})
		})
	}
	move := func(first bool) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			return onIter(e, st, a[0], func(st *state, r, c *T) *T {
				i := C(0)
				if !first {
					i = IAdd(c.a[slot], C(1))
				}
				b := append([]*T(nil), c.a...)
				b[slot] = i
				e.store(st, r, mk(OStruct, c.ty, b...), e.top(), token.NoPos)
				return e.onMap(st, c.a[0], func(st *state, _, mc *T) *T { return Lt(i, e.mapCount(st, mc)) })
			})
		}
	}
	m[it+"First"] = move(true)
	m[it+"Next"] = move(false)
	item := func(val bool) modelFn {
		return func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
			t := f.Signature.Results().At(0).Type()
			return onIter(e, st, a[0], func(st *state, r, c *T) *T {
				return e.onMap(st, c.a[0], func(st *state, _, mc *T) *T {
					k, v := e.mapSeqs(st, mc, f)
					q := k
					if val {
						q = v
					}
					return e.unboxInto(st, SAt(q, c.a[slot]), t)
				})
			})
		}
	}
	m[it+"Key"] = item(false)
	m[it+"Value"] = item(true)
	m[bt+"GetAt"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		kt, vt := f.Signature.Results().At(0).Type(), f.Signature.Results().At(1).Type()
		return e.onMap(st, a[0], func(st *state, _, mc *T) *T {
			k, v := e.mapSeqs(st, mc, f)
			in := And(Not(Lt(a[1], C(0))), Lt(a[1], e.mapCount(st, mc)))
			return tup(ite(in, e.unboxInto(st, SAt(k, a[1]), kt), zeroOf(kt)), ite(in, e.unboxInto(st, SAt(v, a[1]), vt), zeroOf(vt)), in)
		})
	}
	m[bt+"Copy"] = func(e *Eng, st *state, f *ssa.Function, a []*T) *T {
		t := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		return e.onMap(st, a[0], func(st *state, _, mc *T) *T { return e.newObj(st, t, mc) })
	}
}
