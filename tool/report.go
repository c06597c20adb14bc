package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one construct that breaks a rule.
type Finding struct {
	rule, construct, pos, msg string
	path                      []string
}

func (f *Finding) key() string { return f.rule + "|" + f.construct }

// Report collects the obligations of one property: every (rule, construct) examined and
// whether it was discharged on every path.
type Report struct {
	prop  string
	p     *Prog
	rules map[string]string // rule -> what it demands
	order []string
	obl   map[string]map[string]string // rule -> construct -> position
	bads  map[string]*Finding
	stats struct{ roots, steps, paths, blocks, fns int }
	fns   map[string]bool
	notes []string
	known map[string]string
	t0    time.Time
}

func newReport(prop string, p *Prog) *Report {
	return &Report{prop: prop, p: p, rules: map[string]string{}, obl: map[string]map[string]string{}, bads: map[string]*Finding{}, fns: map[string]bool{}, t0: time.Now()}
}

// rule declares a rule and what it demands.
func (r *Report) rule(name, text string) {
	if _, ok := r.rules[name]; !ok {
		r.order = append(r.order, name)
	}
	r.rules[name] = text
	if r.obl[name] == nil {
		r.obl[name] = map[string]string{}
	}
}

// ok records that a construct was examined under a rule.
func (r *Report) ok(rule, construct string, pos token.Pos) {
	if r.obl[rule] == nil {
		r.obl[rule] = map[string]string{}
	}
	r.obl[rule][construct] = r.p.pos(pos)
}

// bad records a violated obligation.
func (r *Report) bad(rule, construct string, pos token.Pos, path []string, f string, a ...interface{}) {
	r.ok(rule, construct, pos)
	k := rule + "|" + construct
	if r.bads[k] != nil {
		return
	}
	r.bads[k] = &Finding{rule: rule, construct: construct, pos: r.p.pos(pos), msg: fmt.Sprintf(f, a...), path: path}
}

// check records an obligation and its outcome.
func (r *Report) check(cond bool, rule, construct string, pos token.Pos, path []string, f string, a ...interface{}) {
	if cond {
		r.ok(rule, construct, pos)
	} else {
		r.bad(rule, construct, pos, path, f, a...)
	}
}

func (r *Report) count(rule string) int { return len(r.obl[rule]) }

// need: fewer instances than confirmed by reading means the rule no longer sees the code.
func (r *Report) need(rule string, n int) {
	if c := r.count(rule); c < n {
		r.bad(rule, "instances", token.NoPos, nil, "only %d instances of the rule were found, at least %d are expected: the analysis does not see the code it is about", c, n)
	}
}

// ran adds the coverage of one engine run; an engine error leaves the property undecided.
func (r *Report) ran(x *Exec, root string, err error) {
	r.stats.roots++
	r.stats.steps += x.steps
	r.stats.paths += x.paths
	r.stats.blocks += len(x.blocks)
	for f := range x.fns {
		r.fns[fname(f)] = true
	}
	if err != nil {
		r.bad("analysis", root, token.NoPos, nil, "the analysis could not decide this function: %v", err)
	}
}

func (r *Report) anchorLost(what string) {
	r.bad("anchor", what, token.NoPos, nil, "the construct the rules are about was not found: %s", what)
}

func cleanName(s string) string { return strings.Join(strings.Fields(s), " ") }

// finish writes evidence, prints the outcome and returns the exit code.
func (r *Report) finish(verif string, known map[string]string) int {
	var viol, kn []*Finding
	for _, k := range sortedKeys(r.bads) {
		f := r.bads[k]
		if _, ok := known[r.prop+"|"+f.key()]; ok {
			kn = append(kn, f)
		} else {
			viol = append(viol, f)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	type ruleEv struct {
		Rule        string   `json:"rule"`
		Demands     string   `json:"demands"`
		Obligations int      `json:"obligations"`
		Violated    int      `json:"violated"`
		Constructs  []string `json:"constructs"`
	}
	var res []ruleEv
	total, bad := 0, 0
	names := append([]string{}, r.order...)
	for _, n := range sortedKeys(r.obl) {
		if _, ok := r.rules[n]; !ok {
			names = append(names, n)
		}
	}
	for _, n := range names {
		e := ruleEv{Rule: n, Demands: r.rules[n], Constructs: []string{}}
		for _, c := range sortedKeys(r.obl[n]) {
			e.Obligations++
			s := c + " @ " + r.obl[n][c]
			if r.bads[n+"|"+c] != nil {
				e.Violated++
				s += " VIOLATED"
			}
			e.Constructs = append(e.Constructs, s)
		}
		total += e.Obligations
		bad += e.Violated
		res = append(res, e)
	}
	fl := sortedKeys(r.fns)
	cov := map[string]interface{}{
		"explanation": fmt.Sprintf("Static analysis of the type-checked SSA form of the current tree: %d obligations examined under %d rules, %d violated (%d of them known findings). %d entry points, %d functions, %d symbolic steps; every feasible path of the functions listed is covered up to the abstraction described in DESIGN.md.",
			total, len(res), bad, len(kn), r.stats.roots, len(fl), r.stats.steps),
		"obligations": total, "discharged": total - bad,
		"rules": res, "functions_analysed": fl, "entry_points": r.stats.roots, "symbolic_steps": r.stats.steps, "completed_paths": r.stats.paths, "notes": r.notes,
		"packages": len(r.p.Pkgs),
	}
	var out []string
	for _, f := range kn {
		out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s %s: %s", r.prop, f.rule, f.construct, f.msg))
	}
	rep := filepath.Join("evidence", "replay", r.prop+".txt")
	os.MkdirAll(filepath.Join(verif, "evidence", "replay"), 0o755)
	if len(viol) > 0 {
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "property %s\nrule %s: %s\nconstruct %s\nat %s\n%s\n", r.prop, f.rule, r.rules[f.rule], f.construct, f.pos, f.msg)
			for _, l := range f.path {
				fmt.Fprintf(&sb, "    %s\n", l)
			}
			sb.WriteString("\n")
		}
		os.WriteFile(filepath.Join(verif, rep), []byte(sb.String()), 0o644)
		for _, f := range viol {
			out = append(out, fmt.Sprintf("%s: [%s] %s: %s", f.pos, f.rule, f.construct, f.msg))
			for _, l := range f.path {
				out = append(out, "    "+l)
			}
			out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", r.prop, rep))
		}
	} else {
		os.Remove(filepath.Join(verif, rep))
	}
	ev := map[string]interface{}{"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": time.Since(r.t0).Seconds()}
	if len(viol) > 0 {
		var vs []string
		for _, f := range viol {
			vs = append(vs, f.pos+" ["+f.rule+"] "+f.construct+": "+f.msg)
		}
		cov["violations"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), b, 0o644)
	for _, l := range out {
		fmt.Println(l)
	}
	if len(viol) > 0 {
		return 1
	}
	fmt.Printf("OK property=%s: %d obligations under %d rules hold (%d entry points, %d functions, %d steps)\n", r.prop, total-bad, len(res), r.stats.roots, len(fl), r.stats.steps)
	return 0
}

// loadKnown reads known-findings.txt: lines "known: property=<id> rule=<rule> construct=<construct> -- <what>".
func loadKnown(file string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " rule=")
		j := strings.Index(l, " construct=")
		k := strings.Index(l, " -- ")
		if i < 0 || j < i || k < j {
			continue
		}
		m[l[:i]+"|"+l[i+6:j]+"|"+l[j+11:k]] = l[k+4:]
	}
	return m
}

func uniq(s []string) []string {
	sort.Strings(s)
	var r []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			r = append(r, x)
		}
	}
	return r
}
