package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/checker/load"
	"verif/checker/sa"
	"verif/checker/vg"
)

// specPart compares the library with the specification functions and laws that
// state a property.
func specPart(prop string) func(c *ctx) *sa.Report {
	return func(c *ctx) *sa.Report {
		rep := sa.NewReport()
		c.live = rep
		p, err := load.LoadSpecs(c.repo, filepath.Join(c.verif, "spec"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, d := range p.Drop {
			rep.Notes = append(rep.Notes, "specification file set aside, it does not type-check against this tree: "+d)
		}
		cs, err := vg.Cases(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fns := map[string]bool{}
		for _, k := range cs {
			vg.Deep = c.tier == "thorough"
			if !hasProp(k, prop) || k.Tier == "thorough" && c.tier != "thorough" {
				continue
			}
			c.mu.Lock()
			rep.Counts["obligations"]++
			c.current = k.Name
			c.mu.Unlock()
			v := vg.CheckCase(p, k)
			c.mu.Lock()
			rep.Counts["calls interpreted"] += v.Calls
			rep.Counts["loops summarised"] += v.Loops
			rep.Counts["shapes analysed"] += v.Shapes
			for f := range v.Fns {
				fns[f] = true
			}
			subject := k.Impl
			if subject == "" {
				subject = k.Name
			}
			switch v.Status {
			case "held":
				rep.Counts["obligations held"]++
				if v.How == "for all sizes" {
					rep.Counts["held for all sizes"]++
				} else {
					rep.Counts["held for fixed sizes"]++
				}
				rep.Samples = append(rep.Samples, fmt.Sprintf("%s %s %s: held %s (%s)", k.Kind, k.Name, k.Impl, v.How, v.Dur.Round(time.Millisecond)))
			case "differs":
				rep.Add(k.Kind, v.Pos, "%s does not agree with %s (%s): %s", subject, k.Name, v.How, short(v.Msg, 700))
			default:
				rep.Counts["obligations undecided"]++
				rep.Notes = append(rep.Notes, fmt.Sprintf("undecided: %s %s %s: %s", k.Kind, k.Name, k.Impl, short(v.Msg, 300)))
			}
			c.mu.Unlock()
		}
		rep.Counts["functions analysed"] = len(fns)
		var ns []string
		for f := range fns {
			ns = append(ns, f)
		}
		sort.Strings(ns)
		rep.Samples = append(rep.Samples, "functions: "+strings.Join(ns, " "))
		c.live = nil
		return rep
	}
}

func hasProp(k *vg.Case, p string) bool {
	for _, x := range k.Props {
		if x == p {
			return true
		}
	}
	return false
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
