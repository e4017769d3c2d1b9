// verif-check decides one property of the repository by static analysis.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/checker/load"
	"verif/checker/sa"
)

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int            `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

type ctx struct {
	repo, verif, tier string
	prog              *load.Prog
	// the part that is running, for the watchdog
	live    *sa.Report
	mu      sync.Mutex
	current string
}

func (c *ctx) load() *load.Prog {
	if c.prog == nil {
		p, err := load.Load(c.repo, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.prog = p
	}
	return c.prog
}

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	flag.Parse()
	start := time.Now()
	def, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	c := &ctx{repo: *repo, verif: *verif, tier: *tier}
	rep := sa.NewReport()
	var once sync.Once
	go watchdog(c, start, func(why string) {
		once.Do(func() {
			c.mu.Lock()
			if c.live != nil {
				rep.Merge(c.live)
			}
			rep.Notes = append(rep.Notes, "stopped early: "+why+" during "+c.current)
			finish(c, def, *prop, rep, start)
		})
		os.Exit(0)
	})
	for _, part := range def.parts {
		rep.Merge(part(c))
	}
	once.Do(func() { finish(c, def, *prop, rep, start) })
}

// watchdog ends an analysis that runs out of time or memory: what was decided
// until then counts.
func watchdog(c *ctx, start time.Time, stop func(string)) {
	limit := 700 * time.Second
	for {
		time.Sleep(time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		switch {
		case m.HeapAlloc > 12<<30:
			stop("out of memory")
		case time.Since(start) > limit:
			stop("out of time")
		}
	}
}

func finish(c *ctx, def *propDef, prop string, rep *sa.Report, start time.Time) {
	rep.Sort()
	known := loadKnown(filepath.Join(c.verif, "known_findings.txt"), prop)
	var viol []sa.Finding
	for _, f := range rep.Findings {
		if k, ok := known[f.Key()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		viol = append(viol, f)
	}
	for _, b := range rep.Broken {
		// the rule has lost part of its subject: nothing is said about that part
		rep.Notes = append(rep.Notes, "coverage below its floor: "+b)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{"explanation": def.explain, "rule": def.rule}
	for k, v := range rep.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(rep.Samples) > 0 {
		cov["samples"] = rep.Samples
	}
	if len(rep.Notes) > 0 {
		cov["notes"] = rep.Notes
	}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	ev := evidence{prop, c.tier, seed, "other", cov, def.assume, time.Since(start).Seconds(), len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	replay := filepath.Join(dir, prop+".violations.txt")
	os.Remove(replay)
	var keys []string
	for k := range rep.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s: %d\n", k, rep.Counts[k])
	}
	for _, n := range rep.Notes {
		fmt.Println("  note:", n)
	}
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Println(f)
			sb.WriteString(f.String() + "\n")
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		os.Exit(1)
	}
	fmt.Printf("property %s holds on what was analysed (%.1fs)\n", prop, time.Since(start).Seconds())
}

// loadKnown reads the known findings of a property: "known: property=ID key=KEY what".
func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		var rest string
		if r, ok := strings.CutPrefix(l, "known: property="+prop+" key="); ok {
			rest = r
		} else {
			continue
		}
		k, what, _ := strings.Cut(rest, " ")
		out[k] = what
	}
	return out
}
