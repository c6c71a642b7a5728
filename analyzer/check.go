package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// A finding is a construct that breaks a property.
type finding struct {
	Rule string `json:"rule"`
	Pos  string `json:"pos"`
	Func string `json:"function,omitempty"`
	Text string `json:"text"`
	// key identifies the finding in known-findings.txt
	Key string `json:"key,omitempty"`
}

// obligations counts what a rule examined.
type ruleRun struct {
	Rule        string   `json:"rule"`
	What        string   `json:"what"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Samples     []string `json:"samples,omitempty"`
	Open        []string `json:"open,omitempty"`
	findings    []finding
}

func (r *ruleRun) ok(format string, args ...interface{}) {
	r.Obligations++
	r.Discharged++
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, args...))
	}
}

func (r *ruleRun) open(format string, args ...interface{}) {
	r.Obligations++
	r.Open = append(r.Open, clip(fmt.Sprintf(format, args...), 1000))
}

func (r *ruleRun) bad(pos, fn, format string, args ...interface{}) *finding {
	r.Obligations++
	r.findings = append(r.findings, finding{Rule: r.Rule, Pos: pos, Func: fn, Text: fmt.Sprintf(format, args...)})
	return &r.findings[len(r.findings)-1]
}

type propSpec struct {
	id    string
	files []string // functions of these files and everything they call
	roots []string // functions (name prefixes) and everything they call
	only  []string // functions (name prefixes) without what they call
	strs  bool     // String methods matter
	rules []func(*program) *ruleRun
}

func (p *program) scope(ps *propSpec) []string {
	set := map[string]bool{}
	for _, n := range p.closure(ps.files, ps.roots) {
		set[n] = true
	}
	for _, s := range []*side{p.n, p.r} {
		for _, n := range s.order {
			if isStringer(s.fns[n]) && !ps.strs {
				continue
			}
			for _, o := range ps.only {
				if hasPrefix(n, o) && !skipUnit(n) {
					set[n] = true
				}
			}
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func hasPrefix(n, pat string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(n, pat[:len(pat)-1])
	}
	return n == pat
}

func runCheck(verifDir, repo, id, tier string) int {
	t0 := time.Now()
	var ps *propSpec
	for i := range props {
		if props[i].id == id {
			ps = &props[i]
		}
	}
	if ps == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	n, r := loadBoth(repo, filepath.Join(verifDir, "ref"))
	p := newProgram(n, r)
	if tier == "thorough" {
		p.limit *= 4
	}
	var runs []*ruleRun
	names := p.scope(ps)
	runs = append(runs, p.unitRule(names))
	runs = append(runs, p.effectRule(names))
	for _, f := range ps.rules {
		runs = append(runs, f(p))
	}
	known := loadKnown(verifDir, id)
	var viol []finding
	for _, r := range runs {
		for _, f := range r.findings {
			hit := false
			for _, k := range known {
				if f.Key != "" && f.Key == k.key {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
					hit = true
					break
				}
			}
			if !hit {
				viol = append(viol, f)
			}
		}
	}
	p.writeEvidence(verifDir, id, tier, runs, names, viol, time.Since(t0))
	for _, r := range runs {
		fmt.Printf("%s: %d obligations, %d discharged, %d findings (%s)\n", r.Rule, r.Obligations, r.Discharged, len(r.findings), r.What)
		for _, s := range r.Open {
			fmt.Println("    open:", clip(s, 300))
		}
	}
	if len(viol) == 0 {
		return 0
	}
	path := filepath.Join(verifDir, "evidence", id+".violation.txt")
	var b strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&b, "%s: %s: [%s] %s\n", f.Pos, f.Func, f.Rule, f.Text)
	}
	os.WriteFile(path, []byte(b.String()), 0o644)
	for i, f := range viol {
		if i == 20 {
			break
		}
		fmt.Printf("%s: %s: [%s] %s\n", f.Pos, f.Func, f.Rule, clip(f.Text, 600))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	return 1
}

func clip(s string, n int) string {
	r := []rune(s)
	if len(r) > n {
		return string(r[:n]) + "..."
	}
	return s
}

type knownFinding struct{ key, text string }

// Lines of the form "known: property=C07 key=<key> <text>".
func loadKnown(dir, id string) []knownFinding {
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		pre := "known: property=" + id + " key="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		f := strings.SplitN(l[len(pre):], " ", 2)
		if len(f) == 2 {
			out = append(out, knownFinding{f[0], f[1]})
		}
	}
	return out
}

func (p *program) writeEvidence(dir, id, tier string, runs []*ruleRun, names []string, viol []finding, d time.Duration) {
	ob, dis := 0, 0
	var rules []interface{}
	for _, r := range runs {
		ob += r.Obligations
		dis += r.Discharged
		rules = append(rules, r)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": "Static analysis of the type-checked source and SSA form of /repo. Rule 'same-meaning': every function in the property's scope is reduced to a canonical value graph and compared with the value graph of the hand-reviewed function in /verif/ref. " +
				"The other rules are stated per entry. Obligations that are neither discharged nor findings are open: the rule could not decide them; they are listed under 'open'.",
			"functions_in_scope": len(names),
			"functions":          names,
			"obligations":        ob,
			"discharged":         dis,
			"rules":              rules,
		},
		"assumptions": []string{
			"/verif/ref is the reviewed implementation; its review against the property text is recorded in DESIGN.md",
			"summaries of standard library functions (math/big, sort, strconv, fmt, strings, bytes, text/template) in analyzer/models.go",
		},
		"wall_s":     d.Seconds(),
		"violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(dir, "evidence", id+".json"), b, 0o644)
}

// unitRule compares the functions with the reviewed ones.
func (p *program) unitRule(names []string) *ruleRun {
	r := &ruleRun{Rule: "same-meaning", What: "value graph of each function equals that of the reviewed function"}
	p.refine(names)
	for _, n := range names {
		if !p.comparable(n) {
			f, g := p.n.fns[n], p.r.fns[n]
			switch {
			case f == nil:
				r.open("%s is gone; judged through its callers", n)
			case g == nil:
				r.open("%s is new; judged through its callers", n)
			default:
				r.open("%s has another signature; judged through its callers", n)
			}
			continue
		}
		v := p.unit(n)
		switch v.status {
		case "equal":
			r.ok("%s (%s)", n, v.pos)
		case "differs":
			if !v.hard && p.explained(n) {
				r.ok("%s differs, compensated in every caller", n)
				continue
			}
			r.bad(v.pos, n, "%s", v.why)
		default:
			r.open("%s (%s): %s", n, v.pos, v.why)
		}
	}
	return r
}

func (p *program) effectRule(names []string) *ruleRun {
	r := &ruleRun{Rule: "effects", What: "the function writes no parameter or package variable that the reviewed one leaves alone"}
	for _, n := range names {
		if !p.comparable(n) {
			continue
		}
		f, g := p.n.fns[n], p.r.fns[n]
		extra := newEffects(p.n, f, p.r, g)
		if sh := newSharing(p.n, f, p.r, g); len(sh) > 0 {
			r.bad(p.n.pos(f.Pos()), n, "%s", strings.Join(sh, ", "))
			continue
		}
		if len(extra) == 0 {
			r.ok("%s", n)
			continue
		}
		if p.unit(n).status == "equal" {
			// proven to leave the same state behind
			r.ok("%s: %s, but with the reviewed result", n, strings.Join(extra, ", "))
			continue
		}
		r.bad(p.n.pos(f.Pos()), n, "%s", strings.Join(extra, ", "))
	}
	return r
}
