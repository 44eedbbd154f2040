package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Rule, Construct, Pos, Msg, Root, Path string
}

func (f Finding) key() string { return f.Rule + " @ " + f.Construct }

// Report collects what a check analysed and what it found.
type Report struct {
	prop     string
	pr       *Program
	mu       *sync.Mutex
	findings map[string]Finding
	oblig    map[string]map[string]bool // rule -> sites decided
	roots    map[string]bool
	instrs   int
	calls    int
	notes    []string
	minimum  map[string]int
	samples  []string
	parent   *Report
	start    time.Time
}

func newReport(prop string, pr *Program) *Report {
	return &Report{prop: prop, pr: pr, mu: &sync.Mutex{}, findings: map[string]Finding{}, oblig: map[string]map[string]bool{}, roots: map[string]bool{}, minimum: map[string]int{}, start: time.Now()}
}

func (r *Report) child() *Report {
	c := newReport(r.prop, r.pr)
	c.parent = r
	return c
}

func (r *Report) merge(c *Report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, f := range c.findings {
		if o, ok := r.findings[k]; !ok || f.Root < o.Root {
			r.findings[k] = f
		}
	}
	for k, m := range c.oblig {
		for s := range m {
			r.ob1(k, s)
		}
	}
	for k := range c.roots {
		r.roots[k] = true
	}
	r.instrs += c.instrs
	r.calls += c.calls
	r.notes = append(r.notes, c.notes...)
}

func (r *Report) ob1(rule, site string) {
	m := r.oblig[rule]
	if m == nil {
		m = map[string]bool{}
		r.oblig[rule] = m
	}
	m[site] = true
}

// Ob records that rule was decided at a site.
func (r *Report) Ob(rule, site string) { r.ob1(rule, site) }

// ObI records a decided instruction-level obligation.
func (r *Report) ObI(rule string, in ssa.Instruction) {
	m := r.oblig[rule]
	if m == nil {
		m = map[string]bool{}
		r.oblig[rule] = m
	}
	m[fmt.Sprintf("%p", in)] = true
}

func (r *Report) Viol(rule, construct, pos, msg, root, path string) {
	f := Finding{rule, construct, pos, msg, root, path}
	if _, ok := r.findings[f.key()]; ok {
		return
	}
	r.findings[f.key()] = f
}

// ViolX reports a violation at an instruction reached by the interpreter.
func (r *Report) ViolX(x *Exec, rule string, in ssa.Instruction, msg string) {
	fn := "?"
	pos := "?"
	if in != nil {
		fn = r.pr.short(in.Parent())
		pos = r.pr.instrPos(in)
	}
	desc := ""
	if in != nil {
		desc = descInstr(r.pr, in)
	}
	var path []string
	for _, f := range x.stack {
		path = append(path, r.pr.short(f.fn))
	}
	r.Viol(rule, fn+": "+desc, pos, msg, x.root, strings.Join(path, " > "))
}

func (r *Report) Undecided(x *Exec, why string, in ssa.Instruction) {
	r.ViolX(x, "undecided", in, "the analysis could not decide this code: "+why)
}

func descInstr(pr *Program, in ssa.Instruction) string {
	switch i := in.(type) {
	case ssa.CallInstruction:
		c := i.Common()
		if c.IsInvoke() {
			return "call " + c.Method.Name()
		}
		if f := c.StaticCallee(); f != nil {
			return "call " + pr.short(f)
		}
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return "call " + b.Name()
		}
		return "call of a function value"
	case *ssa.Return:
		return "return"
	}
	s := fmt.Sprintf("%T", in)
	return strings.TrimPrefix(s, "*ssa.")
}

type knownFinding struct {
	Property  string `json:"property"`
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	What      string `json:"what"`
}

// finish writes the evidence and gives the exit code.
func (r *Report) finish(tier string, seed int, verifDir string, meta propMeta) int {
	for rule, n := range r.minimum {
		if len(r.oblig[rule]) < n {
			r.Viol("coverage", rule, "-", fmt.Sprintf("only %d instances of rule %q were found, at least %d are expected: the constructs the rule is about are gone or no longer recognised", len(r.oblig[rule]), rule, n), "-", "")
		}
	}
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		var all struct {
			Findings []knownFinding `json:"findings"`
		}
		if err := json.Unmarshal(b, &all); err == nil {
			known = all.Findings
		}
	}
	var ks []string
	for k := range r.findings {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []Finding
	for _, k := range ks {
		f := r.findings[k]
		isKnown := false
		for _, kf := range known {
			if kf.Property == r.prop && kf.Rule == f.Rule && kf.Construct == f.Construct {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, kf.What)
				isKnown = true
				break
			}
		}
		if !isKnown {
			out = append(out, f)
		}
	}
	replay := filepath.Join(verifDir, "evidence", r.prop+".violations.txt")
	os.MkdirAll(filepath.Dir(replay), 0o755)
	var sb strings.Builder
	for _, f := range out {
		fmt.Fprintf(&sb, "%s: [%s] %s\n    construct: %s\n    root: %s\n    path: %s\n", f.Pos, f.Rule, f.Msg, f.Construct, f.Root, f.Path)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	counts := map[string]int{}
	total := 0
	var rules []string
	for k, m := range r.oblig {
		counts[k] = len(m)
		total += len(m)
		rules = append(rules, k)
	}
	sort.Strings(rules)
	var roots []string
	for k := range r.roots {
		roots = append(roots, k)
	}
	sort.Strings(roots)
	sample := roots
	if len(sample) > 12 {
		sample = sample[:12]
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         meta.Explain,
			"rule":                meta.Rule,
			"roots_analysed":      len(roots),
			"instructions":        r.instrs,
			"calls_resolved":      r.calls,
			"obligations_by_rule": counts,
			"obligations_decided": total,
			"functions_in_repo":   len(r.pr.all),
			"sample_roots":        sample,
			"notes":               r.notes,
		},
		"assumptions": meta.Assume,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(out),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", r.prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d roots, %d instructions interpreted, %d obligations (%s), %d violations, %.1fs\n", r.prop, len(roots), r.instrs, total, strings.Join(rules, ", "), len(out), time.Since(r.start).Seconds())
	if len(out) > 0 {
		for _, f := range out {
			fmt.Printf("  %s: [%s] %s (in %s; root %s)\n", f.Pos, f.Rule, f.Msg, f.Construct, f.Root)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
		return 1
	}
	return 0
}

type propMeta struct {
	Explain string
	Rule    string
	Assume  []string
}
