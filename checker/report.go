package main

// Obligations, evidence and verdicts.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ob is one decided obligation.
type Ob struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where,omitempty"`
	OK        bool   `json:"ok"`
	Detail    string `json:"detail,omitempty"`
}

func (o *Ob) key() string { return o.Rule + "|" + o.Construct }

// Report collects what one check analysed.
type Report struct {
	ID                  string
	Tier                string
	Repo                string
	L                   *Loaded
	eng                 *Engine
	ctors               map[*ssa.Function]bool
	Obs                 []*Ob
	Notes               []string
	Assume              []string
	Funcs               map[string]bool
	Effects             int
	Loops               int
	seen                map[string]int
	start               time.Time
	incomplete          string // limit that was reached
	shapeHit, shapeMiss string
	shapeA              *shape
}

func newReport(id, tier, repo string) *Report {
	return &Report{ID: id, Tier: tier, Repo: repo, Funcs: map[string]bool{}, seen: map[string]int{}, start: time.Now()}
}

// ob records an obligation. where is a source position, detail explains the
// verdict.
func (r *Report) ob(rule, construct string, ok bool, where, format string, args ...interface{}) bool {
	d := fmt.Sprintf(format, args...)
	if len(d) > 1500 {
		d = d[:1500] + "…"
	}
	r.Obs = append(r.Obs, &Ob{Rule: rule, Construct: construct, OK: ok, Where: where, Detail: d})
	return ok
}

func (r *Report) note(format string, args ...interface{}) {
	r.Notes = append(r.Notes, fmt.Sprintf(format, args...))
}

func (r *Report) assume(format string, args ...interface{}) {
	r.Assume = append(r.Assume, fmt.Sprintf(format, args...))
}

// used records an evaluated entry point.
func (r *Report) used(res *EvalResult) {
	for f := range res.E.entered {
		r.Funcs[f.String()] = true
	}
	r.Effects += len(res.Effects)
	r.Loops += len(res.Loops)
	for _, w := range res.E.Warn {
		r.note("warning: %s", w)
	}
}

// count demands a minimum number of instances of a rule.
func (r *Report) count(rule string, min int) {
	n := 0
	for _, o := range r.Obs {
		if o.Rule == rule {
			n++
		}
	}
	r.ob("instances", rule, n >= min, "", "%d instances of rule %q analysed, at least %d expected", n, rule, min)
}

type knownFinding struct{ prop, key, text string }

func readKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ks []knownFinding
	for _, ln := range strings.Split(string(b), "\n") {
		// finding: property=C01 key=rule|construct :: text
		if !strings.HasPrefix(ln, "finding: property=") {
			continue
		}
		rest := strings.TrimPrefix(ln, "finding: property=")
		p := strings.SplitN(rest, " ", 2)
		if len(p) != 2 || !strings.HasPrefix(p[1], "key=") {
			continue
		}
		q := strings.SplitN(strings.TrimPrefix(p[1], "key="), " :: ", 2)
		if len(q) == 2 {
			ks = append(ks, knownFinding{p[0], q[0], q[1]})
		}
	}
	return ks
}

// finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Report) finish(dir string, level string) int {
	known := readKnown(dir)
	var bad, listed []*Ob
	ok := 0
	for _, o := range r.Obs {
		if o.OK {
			ok++
			continue
		}
		k := false
		for _, f := range known {
			if f.prop == r.ID && f.key == o.key() {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, f.text, o.Where)
				k = true
			}
		}
		if k {
			listed = append(listed, o)
		} else {
			bad = append(bad, o)
		}
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	rules := map[string]int{}
	for _, o := range r.Obs {
		rules[o.Rule]++
	}
	meta := propMeta[r.ID]
	var samples []interface{}
	for i, o := range r.Obs {
		if i%maxInt(1, len(r.Obs)/12) == 0 || !o.OK {
			samples = append(samples, o)
		}
		if len(samples) > 40 {
			break
		}
	}
	var rn []string
	for k, v := range rules {
		rn = append(rn, fmt.Sprintf("%s: %d", k, v))
	}
	sort.Strings(rn)
	expl := fmt.Sprintf("%s Decided from the type-checked SSA form of the current source tree %s without running it: %d functions of the repository evaluated in the value flow of the analysed entry points (%d effects, %d loops summarised), %d obligations of which %d are discharged. Rules (instances): %s.",
		meta.how, r.Repo, len(fns), r.Effects, r.Loops, len(r.Obs), ok, strings.Join(rn, "; "))
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": level,
		"coverage": map[string]interface{}{
			"explanation": expl, "obligations": len(r.Obs), "discharged": ok,
			"functions": fns, "effects": r.Effects, "loops": r.Loops, "rules": rules, "samples": samples, "notes": r.Notes,
			"all_obligations": r.Obs,
		},
		"assumptions": append(append([]string{}, commonAssumptions...), r.Assume...),
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	if len(listed) > 0 {
		ev["known_findings"] = len(listed)
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "evidence", r.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s %s: %d functions, %d effects, %d loops, %d obligations, %d discharged, %.1f s\n",
		r.ID, r.Tier, len(fns), r.Effects, r.Loops, len(r.Obs), ok, time.Since(r.start).Seconds())
	for _, s := range rn {
		fmt.Println("  rule", s)
	}
	for _, n := range r.Notes {
		fmt.Println("  note:", n)
	}
	if len(bad) == 0 {
		return 0
	}
	rp := filepath.Join(dir, "evidence", r.ID+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, %d violated obligations (of %d)\n", r.ID, len(bad), len(r.Obs))
	for _, o := range bad {
		fmt.Fprintf(&sb, "\nrule      %s\nconstruct %s\nwhere     %s\nwhy       %s\n", o.Rule, o.Construct, o.Where, o.Detail)
		fmt.Printf("  FAILED %s: %s at %s: %s\n", o.Rule, o.Construct, o.Where, o.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
