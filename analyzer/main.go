package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // stable identity: rule-specific construct, no line numbers
	Pos  string `json:"pos"`
	Msg  string `json:"msg"`

	alts []string // further identities: the functions a helper was split from
}

// Result is what one property's analysis covered and found.
type Result struct {
	Obligations int
	Discharged  int
	Undecided   []string
	Findings    []Finding
	Units       map[string]int
	Samples     []string
	Explain     string
	Assume      []string
	Minimum     map[string]int // unit -> minimum instance count confirmed by hand
}

func newResult() *Result { return &Result{Units: map[string]int{}, Minimum: map[string]int{}} }

func (r *Result) ok(sample string, args ...interface{}) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(sample, args...))
	}
}

func (r *Result) fail(rule, key, pos, msg string, args ...interface{}) {
	r.Obligations++
	for _, f := range r.Findings {
		if f.Rule == rule && f.Key == key {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{rule, key, pos, fmt.Sprintf(msg, args...), nil})
}

// failAlt reports alts[0]; a known finding listed under any of alts covers it.
func (r *Result) failAlt(rule string, alts []string, pos, msg string, args ...interface{}) {
	n := len(r.Findings)
	r.fail(rule, alts[0], pos, msg, args...)
	if len(r.Findings) > n {
		r.Findings[n].alts = alts[1:]
	}
}

func (f *Finding) is(key string) bool {
	if f.Key == key {
		return true
	}
	for _, a := range f.alts {
		if a == key {
			return true
		}
	}
	return false
}

func (r *Result) undecided(s string, args ...interface{}) {
	r.Obligations++
	r.Undecided = append(r.Undecided, fmt.Sprintf(s, args...))
}

// need fails the check when a unit count is below what was confirmed by hand:
// a rule that matches nothing must not pass.
func (r *Result) need(unit string, min int) { r.Minimum[unit] = min }

type check struct {
	id  string
	run func(p *Prog, r *Result)
}

var checks []check

func register(id string, run func(p *Prog, r *Result)) { checks = append(checks, check{id, run}) }

type known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func readKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []known
	for _, line := range strings.Split(string(b), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "fixed:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			return nil, fmt.Errorf("%s: %v in %q", path, err, line)
		}
		out = append(out, k)
	}
	return out, nil
}

func main() {
	repo := flag.String("repo", "/repo", "module to analyse")
	prop := flag.String("property", "", "property id, or 'all'")
	out := flag.String("evidence", "", "evidence directory")
	kf := flag.String("known", "", "known findings file")
	verbose := flag.Bool("v", false, "print everything")
	dump := flag.String("dump", "", "dump SSA of functions whose name contains this")
	list := flag.Bool("functions", false, "list the functions of the module that are not exported")
	flag.Parse()
	start := time.Now()
	p, err := load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "analysis error:", err)
		os.Exit(3)
	}
	if *list {
		for _, f := range p.Funcs {
			if f.Object() != nil && !f.Object().Exported() {
				fmt.Println(f.String() + "\t" + f.Signature.String())
			}
		}
		return
	}
	if *dump != "" {
		for _, f := range p.Funcs {
			if strings.Contains(p.FName(f), *dump) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	kn, err := readKnown(*kf)
	if err != nil {
		fmt.Fprintln(os.Stderr, "analysis error:", err)
		os.Exit(3)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	ran := false
	rc := 0
	for _, c := range checks {
		if *prop != "all" && c.id != *prop {
			continue
		}
		ran = true
		t0 := time.Now()
		r := newResult()
		c.run(p, r)
		base := map[string]int{"packages": len(p.Pkgs), "functions": len(p.Funcs)}
		for k, v := range base {
			if _, ok := r.Units[k]; !ok {
				r.Units[k] = v
			}
		}
		var short []string
		for u, m := range r.Minimum {
			if r.Units[u] < m {
				short = append(short, fmt.Sprintf("%s: %d < %d", u, r.Units[u], m))
			}
		}
		sort.Strings(short)
		var viol []Finding
		nk := 0
		for _, f := range r.Findings {
			hit := false
			for _, k := range kn {
				if k.Property == c.id && k.Rule == f.Rule && f.is(k.Key) {
					hit = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s at %s]\n", c.id, k.What, f.Rule, f.Key, f.Pos)
				}
			}
			if hit {
				nk++
			} else {
				viol = append(viol, f)
			}
		}
		wall := time.Since(t0).Seconds()
		if *prop != "all" {
			wall = time.Since(start).Seconds()
		}
		if *out != "" {
			writeEvidence(*out, c.id, tier, seed, r, viol, nk, short, wall)
		}
		if len(viol) > 0 {
			path := filepath.Join(*out, c.id+".report.txt")
			var sb strings.Builder
			for _, f := range viol {
				fmt.Fprintf(&sb, "%s: %s: rule %s: %s\n    instance: %s\n", c.id, f.Pos, f.Rule, f.Msg, f.Key)
			}
			fmt.Print(sb.String())
			if *out != "" {
				os.WriteFile(path, []byte(sb.String()), 0o644)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, path)
			if rc == 0 {
				rc = 1
			}
		}
		if len(short) > 0 {
			fmt.Fprintf(os.Stderr, "%s: too few rule instances, the check would pass vacuously: %s\n", c.id, strings.Join(short, ", "))
			if rc == 0 {
				rc = 3
			}
		}
		fmt.Printf("%s: obligations=%d discharged=%d undecided=%d known=%d violations=%d units=%v wall=%.1fs\n", c.id, r.Obligations, r.Discharged, len(r.Undecided), nk, len(viol), r.Units, wall)
		if *verbose {
			for _, s := range r.Samples {
				fmt.Println("   sample:", s)
			}
			for _, s := range r.Undecided {
				fmt.Println("   undecided:", s)
			}
		}
	}
	if !ran {
		fmt.Fprintln(os.Stderr, "no such property:", *prop)
		os.Exit(3)
	}
	os.Exit(rc)
}

func writeEvidence(dir, id, tier string, seed int, r *Result, viol []Finding, nk int, short []string, wall float64) {
	os.MkdirAll(dir, 0o755)
	samples := make([]interface{}, 0)
	for _, s := range r.Samples {
		samples = append(samples, s)
	}
	und := r.Undecided
	if und == nil {
		und = []string{}
	}
	cov := map[string]interface{}{
		"explanation":    r.Explain,
		"obligations":    r.Obligations,
		"discharged":     r.Discharged,
		"undecided":      und,
		"known_findings": nk,
		"analysed":       r.Units,
		"samples":        samples,
	}
	if len(viol) > 0 {
		cov["violating_constructs"] = viol
	}
	if len(short) > 0 {
		cov["instance_shortfall"] = short
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(viol),
	}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}
