// solint decides the properties of /verif/properties.jsonl from the source of
// the solaris tree. It never runs that source.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"solint/lib"
	"solint/rules"
)

type finding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

type known struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func main() {
	prop := flag.String("property", "", "property id (or 'all')")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	verbose := flag.Bool("v", false, "print every obligation")
	nowrite := flag.Bool("n", false, "do not write evidence")
	flag.Parse()
	t0 := time.Now()
	var ids []string
	if *prop == "all" {
		for id := range rules.Table {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = strings.Split(*prop, ",")
	}
	p, lerr := lib.Load(*repo)
	code := 0
	for _, id := range ids {
		t1 := time.Now()
		if len(ids) == 1 {
			t1 = t0
		}
		if c := run(id, p, lerr, *verif, *verbose, *nowrite, t1); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func run(id string, p *lib.Prog, lerr error, verif string, verbose, nowrite bool, t0 time.Time) int {
	rule, ok := rules.Table[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	if lerr != nil {
		p = &lib.Prog{}
	}
	r := lib.NewReport(p)
	if lerr != nil {
		r.Bad("load", "module", 0, nil, "%v", lerr)
	} else {
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Bad("analyser", "panic", 0, nil, "the analysis failed: %v\n%s", e, debug.Stack())
				}
			}()
			rule.Run(p, r)
		}()
		r.Finish()
	}
	var kn known
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &kn); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}
	obls := r.All()
	nbad, ndis := 0, 0
	var bad []*lib.Obl
	var samples []any
	for _, o := range obls {
		if o.OK {
			ndis++
			if len(samples) < 40 {
				samples = append(samples, fmt.Sprintf("%s @ %s (%s): holds on %d path(s)", o.Rule, o.Construct, o.Pos, o.Paths))
			}
			if verbose {
				fmt.Printf("  ok  %s @ %s (%s) x%d\n", o.Rule, o.Construct, o.Pos, o.Paths)
			}
			continue
		}
		isKnown := false
		for _, k := range kn.Findings {
			if k.Property == id && k.Rule == o.Rule && k.Construct == o.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s @ %s, %s]\n", id, k.What, o.Rule, o.Construct, o.Pos)
				isKnown = true
			}
		}
		if !isKnown {
			nbad++
			bad = append(bad, o)
		}
	}
	replay := filepath.Join(verif, "evidence", id+".violation.txt")
	if nbad > 0 {
		var sb strings.Builder
		for _, o := range bad {
			fmt.Fprintf(&sb, "property %s: rule %q violated at %s\n  %s: %s\n", id, o.Rule, o.Construct, o.Pos, o.Detail)
			for _, l := range o.Trace {
				fmt.Fprintf(&sb, "    %s\n", l)
			}
			sb.WriteString("\n")
		}
		fmt.Print(sb.String())
		if !nowrite {
			os.MkdirAll(filepath.Dir(replay), 0o755)
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
	} else if !nowrite {
		os.Remove(replay)
	}
	funcs, steps, paths, per, notes := r.Stats()
	fmt.Printf("%s: %d obligations, %d discharged, %d violated (%d not listed as known), %d functions, %d steps, %.1fs\n", id, len(obls), ndis, len(obls)-ndis, nbad, len(funcs), steps, time.Since(t0).Seconds())
	if !nowrite {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		cov := map[string]any{
			"explanation":              explain(verif, id),
			"obligations":              len(obls),
			"discharged":               ndis,
			"instances_per_rule":       per,
			"functions_analysed":       len(funcs),
			"functions":                funcs,
			"instructions_interpreted": steps,
			"paths_to_exit":            paths,
			"packages_loaded":          len(p.Pkgs),
			"samples":                  samples,
			"rule_notes":               notes,
			"checker_cmd":              "/verif/check.sh " + id,
		}
		ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": rule.Assume, "wall_s": time.Since(t0).Seconds(), "violations": nbad}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	if nbad > 0 {
		return 1
	}
	return 0
}

// explain reads the description of the rules, which DESIGN.md shares.
func explain(verif, id string) string {
	m := map[string]string{}
	if b, err := os.ReadFile(filepath.Join(verif, "doc", "explain.json")); err == nil {
		_ = json.Unmarshal(b, &m)
	}
	return m[id]
}
