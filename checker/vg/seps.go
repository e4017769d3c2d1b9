package vg

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// sepSeen notes the separators handed to a hash; parts that depend on the
// input stand for themselves, and labels of derived seeds are kept from the rest.
func (e *Eng) sepSeen(kind string, d *T) {
	leaves(d, func(g, l *T) {
		if g == False {
			return
		}
		s := ""
		switch l.op {
		case QBytes:
			s = l.s
		case QCat:
			for _, p := range l.a {
				if p.op == QBytes {
					s += p.s
				} else {
					s += "*"
				}
			}
			if strings.Trim(s, "*") == "" {
				return
			}
		default:
			return
		}
		if e.Seps == nil {
			e.Seps = map[string]bool{}
		}
		e.Seps[kind+s] = true
	})
}

// SepCase is what one operation and its specification separate.
type SepCase struct {
	Case       *Case
	Impl, Spec []string
	Full       bool // both were analysed completely
}

// Separators runs the specification and the library function of c and collects
// the separators either hands to a hash.
func Separators(p *load.Prog, c *Case) (r *SepCase) {
	f := implOf(p, c.Impl)
	if c.Kind != "spec" || f == nil || len(f.Params) != len(c.Fn.Params) {
		return nil
	}
	return separators(p, c, f, nil)
}

// SeparatorsOf is Separators for an operation whose documented separators are given.
func SeparatorsOf(p *load.Prog, impl string, documented []string) *SepCase {
	f := implOf(p, impl)
	if f == nil {
		return nil
	}
	return separators(p, &Case{Kind: "spec", Impl: impl, Name: impl, Fn: f, Sizes: []int64{1, 2}, Opts: map[string]string{}}, f, documented)
}

func separators(p *load.Prog, c *Case, f *ssa.Function, documented []string) (r *SepCase) {
	defer func() { setShape(nil); Deadline = time.Time{} }()
	for _, n := range append([]int64{-1}, c.Sizes...) {
		var s *shape
		if n >= 0 {
			s = &shape{n: n}
		} else if c.Opts["general"] == "no" {
			continue
		}
		setShape(s)
		Deadline = time.Now().Add(20 * time.Second)
		e := New(p, c.Low)
		for _, n := range c.No {
			e.noContract[n] = true
		}
		g, spec := &Outcome{}, map[string]bool{}
		if documented != nil {
			for _, d := range documented {
				spec[d] = true
			}
		} else {
			g = sepRun(e, func() *Outcome { return e.Run(c.Fn, nil) })
			spec = e.Seps
		}
		if len(spec) == 0 {
			continue
		}
		e.Seps = nil
		o := sepRun(e, func() *Outcome { return e.Run(f, nil) })
		r = &SepCase{Case: c, Impl: keys(e.Seps), Spec: keys(spec), Full: g.Why == "" && o.Why == ""}
		if r.Full {
			return r
		}
	}
	return r
}

func sepRun(e *Eng, f func() *Outcome) (o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = &Outcome{Why: fmt.Sprint(r)}
		}
	}()
	return f()
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
