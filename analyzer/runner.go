package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

type checkDef struct {
	id   string
	rule string
	run  func(*Check)
}

var checks = map[string]checkDef{}

func register(id, rule string, run func(*Check)) {
	checks[id] = checkDef{id, rule, run}
}

type finding struct {
	prop, key, what string
}

// knownFindings reads lines of the form
//
//	finding: property=C01 key=<obligation key> | what fails
//
// Lines starting with "fixed:" are a record only.
func knownFindings(path string) ([]finding, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(l, " ")
		key, what, _ := strings.Cut(strings.TrimPrefix(rest, "key="), " | ")
		out = append(out, finding{id, strings.TrimSpace(key), strings.TrimSpace(what)})
	}
	return out, sc.Err()
}

func verifDir() string {
	if d := os.Getenv("RQ_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// runCheck runs one check and reports; the result is the exit code.
func runCheck(p *Program, loadErr error, id, tier string) int {
	start := time.Now()
	def, ok := checks[id]
	if !ok {
		fmt.Println("no such check", id)
		return 1
	}
	c := &Check{P: p, ID: id, Tier: tier, Counts: map[string]int{}, Min: map[string]int{}}
	if loadErr != nil {
		c.Obls = append(c.Obls, Obl{Key: "load", Rule: "the program type checks and can be analysed", Detail: loadErr.Error()})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					d := fmt.Sprint(r)
					if _, ok := r.(analysisError); !ok {
						d += "\n" + string(debug.Stack())
					}
					c.Obls = append(c.Obls, Obl{Key: "analysis", Rule: "every anchor of the property resolves and can be analysed", Detail: d})
				}
			}()
			def.run(c)
			var ks []string
			for k := range c.Min {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if c.Counts[k] < c.Min[k] {
					c.Obls = append(c.Obls, Obl{Key: "count/" + k, Rule: "the rule applies to at least the instances confirmed by hand",
						Detail: fmt.Sprintf("%s: %d, expected at least %d", k, c.Counts[k], c.Min[k])})
				}
			}
		}()
	}
	dir := verifDir()
	known, err := knownFindings(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		fmt.Println("known findings:", err)
	}
	seen := map[string]bool{}
	var bad, discharged, suppressed int
	var samples, report []string
	steps, terms, fns := 0, 0, 0
	for _, e := range c.engs {
		steps += e.steps
		terms += len(e.all)
		fns += e.fns
	}
	for _, o := range c.Obls {
		if o.OK {
			discharged++
			if len(samples) < 12 && !seen["s"+o.Rule] {
				seen["s"+o.Rule] = true
				samples = append(samples, o.Key+": "+o.Rule)
			}
			continue
		}
		k := false
		for _, f := range known {
			if f.prop == id && f.key == o.Key {
				k = true
				suppressed++
				if !seen["k"+o.Key] {
					seen["k"+o.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
				}
			}
		}
		if k {
			continue
		}
		bad++
		report = append(report, fmt.Sprintf("%s\n  at:   %s\n  rule: %s\n  %s\n", o.Key, o.Pos, o.Rule, o.Detail))
	}
	ev := filepath.Join(dir, "evidence")
	os.MkdirAll(ev, 0o755)
	rp := filepath.Join(ev, id+".report.txt")
	os.WriteFile(rp, []byte(strings.Join(report, "\n")), 0o644)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"explanation":            "static analysis of the type-checked SSA form of the whole repository: " + def.rule,
		"rule":                   def.rule,
		"obligations":            len(c.Obls),
		"discharged":             discharged,
		"known_findings_matched": suppressed,
		"counts":                 c.Counts,
		"minimum_counts":         c.Min,
		"checker_cmd":            fmt.Sprintf("./check.sh %s %s", id, tier),
		"trusted_base": []string{
			"go/types and golang.org/x/tools/go/ssa",
			"the dataflow engine in /verif/analyzer and its models of library calls (models.go)",
			"the obligation tables of the check, derived from the property",
		},
		"samples": samples,
	}
	if p != nil {
		cov["packages_loaded"] = len(p.Pkgs)
		cov["repository_functions"] = len(p.All)
	}
	if len(c.engs) > 0 {
		cov["functions_analysed_in_context"] = fns
		cov["instructions_transferred"] = steps
		cov["value_terms"] = terms
	}
	if len(samples) == 0 {
		cov["samples"] = []string{"none discharged"}
	}
	out := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": bad,
	}
	if len(c.Assume) > 0 {
		out["assumptions"] = c.Assume
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644)
	if bad > 0 {
		for i, r := range report {
			if i == 8 {
				fmt.Printf("… %d more in %s\n", len(report)-i, rp)
				break
			}
			fmt.Println(trunc(r, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	fmt.Printf("OK property=%s obligations=%d known=%d (%.1fs)\n", id, discharged, suppressed, time.Since(start).Seconds())
	return 0
}
