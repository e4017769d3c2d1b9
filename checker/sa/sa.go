// Package sa holds the structural analyses over SSA.
package sa

import (
	"fmt"
	"hash/fnv"
	"regexp"
	"sort"

	"golang.org/x/tools/go/ssa"
	"verif/checker/load"
)

// Finding is one violation of a rule.
type Finding struct {
	Prop, Rule, Pos, Msg string
	// Site and Fn: the call (file:line:column) and the function, where the
	// finding is about the outcome of one call.
	Site, Fn string
}

func (f Finding) String() string { return fmt.Sprintf("[%s] %s: %s", f.Rule, f.Pos, f.Msg) }

// Report is the outcome of one analysis.
type Report struct {
	Findings []Finding
	Counts   map[string]int
	Notes    []string
	Samples  []string
	// Floors: counts that must not fall below a minimum, or the rule has lost its subject.
	Broken []string
}

func NewReport() *Report { return &Report{Counts: map[string]int{}} }

func (r *Report) Add(rule, pos, format string, a ...any) {
	r.Findings = append(r.Findings, Finding{Rule: rule, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

func (r *Report) Floor(name string, min int) {
	if r.Counts[name] < min {
		r.Broken = append(r.Broken, fmt.Sprintf("%s = %d, expected at least %d", name, r.Counts[name], min))
	}
}

func (r *Report) Merge(o *Report) {
	r.Findings = append(r.Findings, o.Findings...)
	for k, v := range o.Counts {
		r.Counts[k] += v
	}
	r.Notes = append(r.Notes, o.Notes...)
	r.Samples = append(r.Samples, o.Samples...)
	r.Broken = append(r.Broken, o.Broken...)
}

func (r *Report) Sort() {
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].String() < r.Findings[j].String() })
	var out []Finding
	for i, f := range r.Findings {
		if i == 0 || f != r.Findings[i-1] {
			out = append(out, f)
		}
	}
	r.Findings = out
}

// StaticCallee resolves a call to a function with a body, through closures.
func StaticCallee(c *ssa.CallCommon) *ssa.Function {
	return c.StaticCallee()
}

func pkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// calleeID names what a call invokes: package path, receiver and method.
func calleeID(c *ssa.CallCommon) (pkg, recv, name string) {
	if c.IsInvoke() {
		m := c.Method
		pk := ""
		if m.Pkg() != nil {
			pk = m.Pkg().Path()
		}
		return pk, c.Value.Type().String(), m.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if f.Origin() != nil {
			f = f.Origin()
		}
		r := ""
		if f.Signature.Recv() != nil {
			r = f.Signature.Recv().Type().String()
		}
		return pkgPath(f), r, f.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin", "", b.Name()
	}
	return "", "", ""
}

var _ = load.Module

// Key identifies a finding independently of line numbers.
func (f Finding) Key() string {
	h := fnv.New64a()
	h.Write([]byte(f.Rule + "|" + stripLines(f.Msg)))
	return fmt.Sprintf("%s-%x", f.Rule, h.Sum64())
}

var lineRE = regexp.MustCompile(`\.go:\d+`)

func stripLines(s string) string { return lineRE.ReplaceAllString(s, ".go") }
