package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Property is one decided property.
type Property struct {
	ID      string
	Rule    string // one-line description of the rule
	Run     func(r *Report)
	Assume  []string
	MinObs  int
	Explain string
	BothOS  bool // decided for every supported operating system on every run
}

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

func main() {
	repo := flag.String("repo", "/repo", "tree to analyse")
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	dump := flag.Bool("v", false, "print every obligation")
	all := flag.Bool("all", false, "run every property (development)")
	debug := flag.String("debug", "", "interpret one function and print its outcomes")
	prof := flag.String("cpuprofile", "", "write a profile (development)")
	flag.Parse()
	rdebug.SetGCPercent(400)
	rdebug.SetMemoryLimit(12 << 30)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *debug != "" {
		debugRun(*repo, *debug)
		return
	}
	if *all {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		p, err := Load(*repo, "linux")
		bad := 0
		for _, k := range ids {
			if !runOne(k, *repo, *tier, *verif, *dump, p, err, true) {
				bad++
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	if props[*id] == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *id)
		os.Exit(2)
	}
	p, err := Load(*repo, "linux")
	if !runOne(*id, *repo, *tier, *verif, *dump, p, err, false) {
		os.Exit(1)
	}
}

func runOne(id, repo, tier, verif string, dump bool, p *Program, err error, quiet bool) (ok bool) {
	t0 := time.Now()
	pr := props[id]
	r := newReport(id, p)
	if err != nil {
		r.Check(false, "load", "-", "the repository type-checks", "%v", err)
	} else {
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Check(false, "internal", "-", "the rule completes", "the analysis stopped: %v", x)
					if dump {
						panic(x)
					}
				}
			}()
			r.configs = append(r.configs, "linux/amd64")
			pr.Run(r)
			if tier == "thorough" || pr.BothOS {
				q, err := Load(repo, "darwin")
				if r.Check(err == nil, "load", "darwin", "the repository type-checks for darwin", "%v", err) {
					r.P = q
					r.configs = append(r.configs, "darwin/amd64")
					pr.Run(r)
					r.P = p
				}
			}
		}()
		r.Min("obligations", pr.MinObs, len(r.obs))
	}
	known := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	var bad []*Ob
	for _, o := range r.Violations() {
		if k, ok := known[o.Rule+" @ "+o.What]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		bad = append(bad, o)
	}
	writeEvidence(verif, tier, pr, r, bad, time.Since(t0))
	if dump {
		var ks []string
		for k := range r.obs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			o := r.obs[k]
			fmt.Printf("%v %s | %s | %s\n", o.OK, o.Rule, o.Site, o.What)
		}
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d functions=%d sites=%d runs=%d steps=%d %.1fs\n", id, len(r.obs), len(r.funcs), len(r.sites), r.runs, r.steps, time.Since(t0).Seconds())
		return true
	}
	dir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".txt")
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "rule: %s\nsite: %s\nobligation: %s\nviolated: %s\n\n", o.Rule, o.Site, o.What, o.Detail)
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	n := len(bad)
	if quiet && n > 6 {
		n = 6
	}
	for _, o := range bad[:n] {
		fmt.Printf("  [%s] %s: %s: %s\n", o.Rule, o.Site, o.What, o.Detail)
	}
	return false
}

// readKnown reads the findings that are recorded rather than repaired.
func readKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		// finding: property=ID key=<rule @ obligation> -- text
		l = strings.TrimPrefix(l, "finding: property="+id+" key=")
		if i := strings.Index(l, " -- "); i > 0 {
			m[l[:i]] = l[i+4:]
		}
	}
	return m
}

func writeEvidence(verif, tier string, pr *Property, r *Report, bad []*Ob, d time.Duration) {
	type m = map[string]any
	rules := map[string]int{}
	done := 0
	var samples []any
	var ks []string
	for k := range r.obs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		o := r.obs[k]
		rules[o.Rule]++
		if o.OK {
			done++
		}
	}
	step := len(ks)/12 + 1
	for i := 0; i < len(ks); i += step {
		o := r.obs[ks[i]]
		samples = append(samples, fmt.Sprintf("[%s] %s: %s -> %v", o.Rule, o.Site, o.What, o.OK))
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, short(f))
	}
	sort.Strings(fs)
	var vs []any
	for _, o := range bad {
		vs = append(vs, fmt.Sprintf("[%s] %s: %s: %s", o.Rule, o.Site, o.What, o.Detail))
	}
	ev := m{
		"property": pr.ID, "tier": tier, "seed": seed(), "level": "other",
		"wall_s": float64(int(d.Seconds()*1000)) / 1000,
		"coverage": m{
			"explanation":         "Static analysis of /repo's type-checked SSA form by abstract interpretation; nothing is executed and no solver is used. Rule: " + pr.Rule + " " + pr.Explain,
			"rule":                pr.Rule,
			"functions_analysed":  fs,
			"program_points":      len(r.sites),
			"entry_point_runs":    r.runs,
			"abstract_steps":      r.steps,
			"obligations":         len(r.obs),
			"discharged":          done,
			"obligations_by_rule": rules,
			"build_configs":       r.configs,
			"samples":             samples,
			"trusted_base":        []string{"go/types, golang.org/x/tools/go/ssa", "the models of library functions in checker/models.go", "the abstract interpreter in checker/"},
		},
		"assumptions": pr.Assume,
		"violations":  len(bad),
	}
	if len(vs) > 0 {
		ev["coverage"].(m)["violated_obligations"] = vs
	}
	if pr.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", pr.ID+".json"), append(b, '\n'), 0o644)
}

func seed() int {
	n := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &n)
	return n
}

func debugRun(repo, name string) {
	p, err := Load(repo, "linux")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, f := range p.funcs {
		if short(f.String()) != name {
			continue
		}
		f.WriteTo(os.Stdout)
		ex := NewExec(p, &Client{Panics: true})
		outs := ex.Run(f, nil, nil, newState())
		fmt.Println(f, len(outs), "steps", ex.steps, ex.err)
		for _, o := range outs {
			fmt.Println("  out", o.Panic, o.PV, o.Ret, len(o.St.locks))
			for f, v := range o.St.facts {
				fmt.Println("     fact", f, v)
			}
			for f, v := range o.St.mem {
				fmt.Println("     mem", f, v)
			}
		}
	}
}
