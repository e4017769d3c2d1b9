// vgcase runs single obligations, for development.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/checker/load"
	"verif/checker/vg"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	v := flag.Bool("v", false, "")
	prof := flag.String("prof", "", "")
	seps := flag.Bool("seps", false, "")
	stop := flag.Bool("x", false, "")
	args := flag.Bool("args", false, "")
	flag.BoolVar(&vg.Deep, "deep", false, "")
	flag.Parse()
	vg.Verbose = *v
	if *v {
		vg.LitClip = 6000
	}
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil {
			pprof.StartCPUProfile(f)
			defer pprof.StopCPUProfile()
		}
	}
	t0 := time.Now()
	p, err := load.LoadSpecs(*repo, *spec)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, d := range p.Drop {
		fmt.Println("DROPPED", d)
	}
	fmt.Println("load", time.Since(t0).Round(time.Millisecond))
	cs, err := vg.Cases(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *seps {
		for _, c := range cs {
			if r := vg.Separators(p, c); r != nil {
				fmt.Printf("%s full=%v\n  impl %q\n", c.Impl, r.Full, r.Impl)
				if strings.Join(r.Impl, " ") != strings.Join(r.Spec, " ") {
					fmt.Printf("  spec %q\n", r.Spec)
				}
			}
		}
		return
	}
	if *args {
		for _, c := range vg.ArgCases(p, cs) {
			ok := flag.NArg() == 0
			for _, a := range flag.Args() {
				if strings.Contains(load.FuncName(c.Fn), a) {
					ok = true
				}
			}
			if !ok {
				continue
			}
			r := vg.CheckArgs(p, c)
			fmt.Printf("%-10s %s %s spec=%v %s\n", r.Status, r.Case.Name, r.How, c.Spec != nil, r.Dur.Round(time.Millisecond))
			if r.Status != "held" {
				fmt.Println("      ", r.Pos, r.Msg)
			}
		}
		return
	}
	if *stop {
		// the slowest last; names are exact
		slow := func(c *vg.Case) int {
			switch {
			case strings.Contains(c.Name, "Xmd81"):
				return 3
			case strings.Contains(c.Name, "FromOpenings"), strings.Contains(c.Name, "zzTranscript"):
				return 2
			case strings.Contains(c.Name, "dealings.") || strings.Contains(c.Name, "sign.") || strings.Contains(c.Name, "complaints."):
				return 1
			}
			return 0
		}
		sort.SliceStable(cs, func(i, j int) bool { return slow(cs[i]) < slow(cs[j]) })
		want := map[string]bool{}
		for _, a := range flag.Args() {
			want[a] = true
		}
		for _, c := range cs {
			if !want[c.Name] {
				continue
			}
			r := vg.CheckCase(p, c)
			fmt.Printf("%-10s %s %s\n", r.Status, c.Kind, c.Name)
			if r.Status == "differs" {
				return
			}
		}
		return
	}
	for _, c := range cs {
		ok := flag.NArg() == 0
		for _, a := range flag.Args() {
			if strings.Contains(c.Name, a) || strings.Contains(c.Impl, a) || c.Props[0] == a {
				ok = true
			}
		}
		if !ok {
			continue
		}
		r := vg.CheckCase(p, c)
		fmt.Printf("%-10s %s %s %s [%s] %s calls=%d loops=%d\n", r.Status, c.Kind, c.Name, c.Impl, strings.Join(c.Props, ","), r.Dur.Round(time.Millisecond), r.Calls, r.Loops)
		if r.Status != "held" {
			fmt.Println("      ", r.How, r.Msg)
		} else if r.How != "for all sizes" {
			fmt.Println("      ", r.How)
		}
	}
}
