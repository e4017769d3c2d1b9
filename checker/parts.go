package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/checker/load"
	"verif/checker/sa"
	"verif/checker/vg"
)

func (c *ctx) specs() (*load.Prog, []*vg.Case) {
	p, err := load.LoadSpecs(c.repo, filepath.Join(c.verif, "spec"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cs, err := vg.Cases(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p, cs
}

// argsPart decides that library operations leave their arguments as they are.
func argsPart(c *ctx) *sa.Report {
	rep := sa.NewReport()
	c.live = rep
	p, cs := c.specs()
	for _, d := range p.Drop {
		rep.Notes = append(rep.Notes, "specification file set aside, it does not type-check against this tree: "+d)
	}
	for _, k := range vg.ArgCases(p, cs) {
		c.mu.Lock()
		rep.Counts["operations"]++
		c.current = load.FuncName(k.Fn)
		c.mu.Unlock()
		v := vg.CheckArgs(p, k)
		c.mu.Lock()
		rep.Counts["calls interpreted"] += v.Calls
		rep.Counts["loops summarised"] += v.Loops
		rep.Counts["shapes analysed"] += v.Shapes
		switch v.Status {
		case "held":
			rep.Counts["operations that leave their arguments alone"]++
			rep.Samples = append(rep.Samples, fmt.Sprintf("%s: held %s (%s)", v.Case.Name, v.How, v.Dur.Round(time.Millisecond)))
		case "differs":
			rep.Add("argument-modified", v.Pos, "%s (%s) %s", v.Case.Name, v.How, short(v.Msg, 700))
		default:
			rep.Counts["operations undecided"]++
			rep.Notes = append(rep.Notes, fmt.Sprintf("undecided: %s: %s", v.Case.Name, short(v.Msg, 300)))
		}
		c.mu.Unlock()
	}
	c.live = nil
	return rep
}

// statePart decides that library operations leave package-level state as it is.
func statePart(c *ctx) *sa.Report {
	rep := sa.NewReport()
	c.live = rep
	p, cs := c.specs()
	ks := vg.ArgCases(p, cs)
	// the laws call operations with particular arguments
	for _, x := range cs {
		if x.Kind == "law" {
			ks = append(ks, &vg.ArgCase{Fn: x.Fn, Spec: x})
		}
	}
	for _, k := range ks {
		c.mu.Lock()
		rep.Counts["operations"]++
		c.current = load.FuncName(k.Fn)
		c.mu.Unlock()
		v := vg.CheckGlobals(p, k)
		c.mu.Lock()
		rep.Counts["calls interpreted"] += v.Calls
		rep.Counts["loops summarised"] += v.Loops
		switch v.Status {
		case "held":
			rep.Counts["operations that leave package-level state alone"]++
		case "differs":
			rep.Add("package-state-changed", v.Pos, "%s %s", v.Case.Name, short(v.Msg, 700))
		default:
			rep.Counts["operations undecided"]++
			rep.Notes = append(rep.Notes, fmt.Sprintf("undecided: %s: %s", v.Case.Name, short(v.Msg, 300)))
		}
		c.mu.Unlock()
	}
	c.live = nil
	return rep
}

// errPart decides that no failure is swallowed.
func errPart(c *ctx) *sa.Report {
	rep := sa.Errors(c.load())
	sites, fns := map[string]bool{}, map[string]bool{}
	for _, f := range rep.Findings {
		if f.Site != "" {
			sites[f.Site], fns[f.Fn] = true, true
		}
	}
	if len(sites) == 0 {
		return rep
	}
	// can the errors arise at all?
	p, cs := c.specs()
	never, keep := map[string]bool{}, map[string]string{}
	rep.Counts["calls whose error is dropped"] = len(sites)
	for _, k := range vg.ArgCases(p, cs) {
		if !sa.Reaches(p, k.Fn, fns) {
			continue
		}
		res, why := vg.CheckSites(p, k, sites, sorted2(fns))
		rep.Counts["operations interpreted for them"]++
		for s := range sites {
			switch r := res[s]; {
			case why != "":
				keep[s] = load.FuncName(k.Fn) + ": " + why
			case r == "held":
				never[s] = true
			case r != "":
				keep[s] = load.FuncName(k.Fn) + ": " + r
			}
		}
	}
	var out []sa.Finding
	for _, f := range rep.Findings {
		if f.Site != "" && never[f.Site] && keep[f.Site] == "" {
			rep.Notes = append(rep.Notes, "the dropped error cannot arise: "+f.String())
			continue
		}
		if k := keep[f.Site]; k != "" {
			f.Msg += " (" + short(k, 300) + ")"
		}
		out = append(out, f)
	}
	rep.Findings = out
	return rep
}

// sepPart decides that purposes keep separators of their own.
func sepPart(c *ctx) *sa.Report {
	rep := sa.NewReport()
	c.live = rep
	p, cs := c.specs()
	for _, d := range p.Drop {
		rep.Notes = append(rep.Notes, "specification file set aside, it does not type-check against this tree: "+d)
	}
	type use struct {
		op         string
		pos        string
		impl, spec map[string]bool
	}
	var uses []use
	type op struct {
		impl string
		run  func() *vg.SepCase
	}
	var ops []op
	for _, k := range sorted2(documentedSeps) {
		ops = append(ops, op{k, func() *vg.SepCase { return vg.SeparatorsOf(p, k, documentedSeps[k]) }})
	}
	for _, k := range cs {
		ops = append(ops, op{k.Impl, func() *vg.SepCase { return vg.Separators(p, k) }})
	}
	for _, k := range ops {
		c.mu.Lock()
		c.current = k.impl
		c.mu.Unlock()
		s := k.run()
		if s == nil {
			continue
		}
		c.mu.Lock()
		rep.Counts["operations"]++
		u := use{op: k.impl, impl: sepSet(s.Impl), spec: sepSet(s.Spec)}
		if f := p.Func(k.impl); f != nil {
			u.pos = p.Pos(f.Pos())
		}
		rep.Samples = append(rep.Samples, fmt.Sprintf("%s: %s", k.impl, strings.Join(sorted(u.impl), ", ")))
		if !s.Full {
			rep.Counts["operations undecided"]++
			rep.Notes = append(rep.Notes, "undecided: "+k.impl)
		} else {
			if len(u.impl) < len(u.spec) {
				rep.Add("separators-merged", u.pos, "%s tells %d purposes apart with %d separators: purposes %s, separators %s", k.impl, len(u.spec), len(u.impl), strings.Join(sorted(u.spec), ", "), strings.Join(sorted(u.impl), ", "))
			} else if stars(u.impl) < stars(u.spec) {
				rep.Add("separator-constant", u.pos, "%s no longer puts an input into a separator: %s, expected %s", k.impl, strings.Join(sorted(u.impl), ", "), strings.Join(sorted(u.spec), ", "))
			}
			uses = append(uses, u)
		}
		c.mu.Unlock()
	}
	// a separator stands for one purpose: the operations that use it share a documented one
	by := map[string][]use{}
	for _, u := range uses {
		for x := range u.impl {
			by[x] = append(by[x], u)
		}
	}
	for _, x := range sorted2(by) {
		rep.Counts["separators"]++
		common := map[string]bool{}
		for s := range by[x][0].spec {
			common[s] = true
		}
		var ops []string
		for _, u := range by[x] {
			ops = append(ops, u.op)
			for s := range common {
				if !u.spec[s] {
					delete(common, s)
				}
			}
		}
		if len(common) == 0 {
			rep.Add("separator-shared", by[x][0].pos, "separator %q serves operations with no purpose in common: %s", x, strings.Join(ops, ", "))
		}
	}
	rep.Floor("separators", 12)
	c.live = nil
	return rep
}

// documentedSeps are the separators of operations whose specification does not
// name all of them.
var documentedSeps = map[string][]string{
	"mega.ComputeEphKeyAndPop": {
		sd + mg + "single-ephemeral-key", mg + "single-pop-base", sd + mg + "single-pop-proof",
		sd + mg + "pair-ephemeral-key", mg + "pair-pop-base", sd + mg + "pair-pop-proof", zkp + "dlog-eq"},
	"mega.EncryptCiphertextSingle": {mg + "single-encrypt", sd + mg + "single-ephemeral-key", mg + "single-pop-base", sd + mg + "single-pop-proof", zkp + "dlog-eq"},
	"mega.EncryptCiphertextPair":   {mg + "pair-encrypt", sd + mg + "pair-ephemeral-key", mg + "pair-pop-base", sd + mg + "pair-pop-proof", zkp + "dlog-eq"},
	"dealings.NewIDkgDealingInternal": {
		sd + "ic-crypto-tecdsa-create-dealing-polynomials", sd + "ic-crypto-tecdsa-create-dealing-mega-encrypt",
		mg + "single-encrypt", sd + mg + "single-ephemeral-key", mg + "single-pop-base", sd + mg + "single-pop-proof",
		mg + "pair-encrypt", sd + mg + "pair-ephemeral-key", mg + "pair-pop-base", sd + mg + "pair-pop-proof",
		zkp + "dlog-eq", zkp + "equal-openings", zkp + "product", sd + zkp + "equal-openings", sd + zkp + "product"},
	"zk.proofOfDLogEquivalenceInstance.Create": {zkp + "dlog-eq"},
	"zk.proofOfEqualOpeningsInstance.Create":   {zkp + "equal-openings"},
	"zk.proofOfProductInstance.Create":         {zkp + "product"},
	"seed.FromBytes":                           {sd + "ic-crypto-seed-from-bytes"},
	"seed.FromRandomness":                      {sd + "ic-crypto-seed-from-randomness"},
	"seed.FromRng":                             {sd + "ic-crypto-seed-from-rng"},
	"complaints.GenerateComplaints": {sd + "ic-crypto-tecdsa-complaint-against-*", "ic-crypto-tecdsa-complaint-proof-assoc-data",
		mg + "pair-encrypt", mg + "pair-pop-base", mg + "single-encrypt", mg + "single-pop-base", zkp + "dlog-eq"},
}

const (
	sd  = "seed label "
	mg  = "ic-crypto-tecdsa-mega-encryption-"
	zkp = "ic-crypto-tecdsa-zk-proof-of-"
)

func sepSet(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		s = strings.TrimSuffix(strings.TrimSuffix(s, "secp256k1"), "-")
		if s != "" {
			m[s] = true
		}
	}
	return m
}

func stars(m map[string]bool) (n int) {
	for s := range m {
		if strings.Contains(s, "*") {
			n++
		}
	}
	return
}

func sorted(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sorted2[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
