package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A unit is a function that exists, with the same signature, in the code
// under analysis and in the reviewed reference.

type verdict struct {
	name   string
	status string // equal, differs, undecided
	level  int
	pairs  []pair
	why    string
	pos    string
	nterm  int
	dur    time.Duration
	hard   bool // not excused by what callers do
	region bool // decided on a part of the function
}

type program struct {
	n, r     *side
	nilTests map[string]bool
	memo     map[string]*verdict
	limit    int
	debug    bool
	callers  map[string][]string
	refined  map[string]bool

	parserDecls int
}

func newProgram(n, r *side) *program {
	return &program{n: n, r: r, memo: map[string]*verdict{}, limit: 500000}
}

func skipUnit(name string) bool {
	return strings.HasPrefix(name, "alg/algtest") || strings.Contains(name, "internal/test.") || strings.Contains(name, "internal/assert.") ||
		strings.HasPrefix(name, "rand.") || strings.Contains(name, "internal/polynomial")
}

// policies for expanding calls.
func (p *program) policy(s *side, level int, extra map[string]bool) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if extra[fname(f)] {
			return true
		}
		switch level {
		case 0:
			return false
		case 1:
			g := s.other.fns[fname(f)]
			return s.isSmall(f) && g != nil && s.other.isSmall(g)
		}
		g := s.other.fns[fname(f)]
		return !s.recursive(f) && g != nil && !s.other.recursive(g)
	}
}

func (p *program) eval2(name string, level int, extra map[string]bool, limit int) (a, b *Term, e1, e2 *ev, err error) {
	f, g := p.n.fns[name], p.r.fns[name]
	for i := 0; i < 2; i++ {
		a, e1, err = evalFn(p.n, f, p.policy(p.n, level, extra), limit)
		if err != nil {
			return
		}
		b, e2, err = evalFn(p.r, g, p.policy(p.r, level, extra), limit)
		if err != nil {
			err = fmt.Errorf("reference: %v", err)
			return
		}
		if p.debug && os.Getenv("VTERM") == itoa(level) {
			fmt.Fprintf(os.Stderr, "%s level %d\n  %v\n  %v\n", name, level, a, b)
		}
		if a == b {
			return
		}
	}
	return
}

func (p *program) unit(name string) *verdict {
	if v, ok := p.memo[name]; ok {
		return v
	}
	v := &verdict{name: name}
	p.memo[name] = v
	t0 := time.Now()
	p.decide(v)
	v.dur = time.Since(t0)
	return v
}

const maxPairs = 6

func (p *program) decide(v *verdict) {
	f := p.n.fns[v.name]
	v.pos = p.n.pos(f.Pos())
	v.status = "undecided"
	if strings.Contains(v.name, "acc/parse/internal/parser.") && p.sameSource(v.name) {
		v.status = "equal"
		return
	}
	var cand []pair
	var lossy, panics []hazard
	var few, fewPos string
	for level := 0; level <= 2; level++ {
		if level == 2 && strings.HasSuffix(v.name, ".init") {
			break
		}
		resetTerms()
		limit := p.limit
		if level == 2 {
			limit = p.limit / 2
		}
		a, b, e1, e2, err := p.eval2(v.name, level, nil, limit)
		if err != nil {
			if v.why == "" {
				v.why = err.Error()
			}
			if p.debug {
				fmt.Fprintf(os.Stderr, "%s level %d: %v\n", v.name, level, err)
			}
			continue
		}
		asc := ascendingParams(f)
		if a == b {
			if h := append(append(newHazards(e1, e2), lostGuards(e1, e2)...), newLossy(e1, e2)...); len(h) > 0 {
				v.status = "differs"
				v.hard = true
				v.why = h[0].kind
				v.pos = h[0].pos
				v.level = level
				v.pairs = nil
				return
			}
			if few != "" && os.Getenv("VSELF") != "" {
				fmt.Fprintln(os.Stderr, "SELF", v.name, level, few)
				v.status, v.why, v.pos = "differs", "SELF "+few, fewPos
				return
			}
			v.status, v.level, v.nterm = "equal", level, termSeq
			v.pairs, v.why = nil, ""
			return
		}
		if level < 2 {
			lossy = newLossy(e1, e2)
		}
		ps, derr := safeDiff(a, b, limit, strings.Contains(v.name, ".vzregion"), p.nilTested(v.name))
		if derr != nil {
			if v.why == "" {
				v.why = derr.Error()
			}
			continue
		}
		if p.debug {
			for _, x := range ps {
				fmt.Fprintf(os.Stderr, "%s level %d: %v\n", v.name, level, x)
			}
		}
		if level == 2 {
			// otherwise only equality counts when everything is expanded
			if few == "" && !strings.Contains(v.name, ".vzregion") {
				var at *Term
				if few, at = sized(a, b, asc, limit); few != "" && at != nil {
					fewPos = e1.posIn(at, 0, map[*Term]bool{})
				}
			}
			continue
		}
		if level == 0 && !strings.Contains(v.name, ".vzregion") && p.sameCallers(v.name) {
			if h := newPanics(e1, e2, limit); len(h) > 0 && len(panics) == 0 {
				panics = h
			}
		}
		if !allSure(ps) && few == "" && !strings.Contains(v.name, ".vzregion") {
			var at *Term
			if few, at = sized(a, b, asc, limit); few != "" && at != nil {
				fewPos = e1.posIn(at, 0, map[*Term]bool{})
			}
			if few == "" {
				if few, at = unrolled(a, b, limit); few != "" && at != nil {
					fewPos = e1.posIn(at, 0, map[*Term]bool{})
				}
			}
		}
		if cand == nil || cost(ps) < cost(cand) {
			cand = ps
			v.level = level
			if h := newHazards(e1, e2); len(h) > 0 {
				v.why = h[0].kind
			}
			// keep printable text, the terms go away
			v.pairs = ps
			if q := e1.position(ps); q != "" {
				v.pos = q
			}
		}
	}
	if len(panics) > 0 {
		v.status = "differs"
		v.hard = true
		v.why, v.pos = panics[0].kind, panics[0].pos
		v.pairs = nil
	} else if len(lossy) > 0 {
		v.status = "differs"
		v.hard = true
		v.why, v.pos = lossy[0].kind, lossy[0].pos
		v.pairs = nil
	} else if cand != nil && allSure(cand) && len(cand) <= maxPairs {
		v.status = "differs"
		v.why = describePairs(cand)
	} else if few != "" {
		v.status = "differs"
		v.why = few
		if fewPos != "" {
			v.pos = fewPos
		}
		v.pairs = nil
	} else if cand != nil && (v.why == "" || strings.Contains(v.why, "too large")) {
		v.why = describePairs(cand)
	}
}

func safeDiff(a, b *Term, limit int, region, nilTested bool) (ps []pair, err error) {
	budget = limit
	defer func() {
		budget = 1 << 60
		if x := recover(); x != nil {
			if tc, ok := x.(tooComplex); ok {
				err = fmt.Errorf("diff: %s", tc.why)
				return
			}
			if os.Getenv("VDEBUG") != "" {
				panic(x)
			}
			err = fmt.Errorf("diff: internal: %v", x)
		}
	}()
	d := newDiffer()
	d.region, d.nilTested = region, nilTested
	a, b = samePanics(a, b)
	return d.diff(a, b), nil
}

// samePanics restricts two outcomes to the inputs for which neither panics, if
// they do not panic for the same ones.
func samePanics(a, b *Term) (*Term, *Term) {
	pa, pb := panicsOf(a), panicsOf(b)
	if pa == pb {
		return a, b
	}
	dom := mkAnd(mkNot(pa), mkNot(pb))
	if dom == tFALSE {
		return a, b
	}
	within := func(t *Term) *Term {
		if t.op != TUP || t.aux != "outcome" {
			t = mkTup("outcome", mkTup("results", t))
		}
		var parts []*Term
		for _, x := range t.args {
			if x.aux == "panics" {
				parts = append(parts, x)
				continue
			}
			args := append([]*Term{}, x.args...)
			for i, y := range args {
				if x.aux == "write" && i == 0 {
					continue
				}
				args[i] = under(dom, y)
			}
			parts = append(parts, mkTup(x.aux, args...))
		}
		return mkTup("outcome", parts...)
	}
	return within(a), within(b)
}

func panicsOf(t *Term) *Term {
	if t.op == TUP && t.aux == "outcome" {
		for _, x := range t.args {
			if x.aux == "panics" {
				return x.args[0]
			}
		}
	}
	return tFALSE
}

func newHazards(a, b *ev) []hazard {
	old := map[string]int{}
	for _, h := range b.hz {
		old[h.kind]++
	}
	var out []hazard
	for _, h := range a.hz {
		if old[h.kind] > 0 {
			old[h.kind]--
			continue
		}
		out = append(out, h)
	}
	return out
}

func describePairs(ps []pair) string {
	var out []string
	for i, p := range ps {
		if i == 4 {
			out = append(out, fmt.Sprintf("and %d more", len(ps)-4))
			break
		}
		out = append(out, p.String())
	}
	return strings.Join(out, " | ")
}

// position finds the source line of a difference.
func (e *ev) position(ps []pair) string {
	for _, p := range ps {
		if q := e.posIn(p.a, 0, map[*Term]bool{}); q != "" {
			return q
		}
	}
	return ""
}

func (e *ev) posIn(t *Term, d int, seen map[*Term]bool) string {
	if seen[t] || d > 6 {
		return ""
	}
	seen[t] = true
	if p, ok := e.posOf[t]; ok && p.IsValid() {
		return e.s.pos(p)
	}
	for _, a := range t.args {
		if q := e.posIn(a, d+1, seen); q != "" {
			return q
		}
	}
	for _, m := range t.poly {
		for _, f := range m.f {
			if q := e.posIn(f.t, d+1, seen); q != "" {
				return q
			}
		}
	}
	return ""
}

// ---- call graph ----

func (s *side) calleeNames(f *ssa.Function) []string {
	m := map[string]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range s.callees(c.Common()) {
						if g.Pkg != nil && isMod(g.Pkg.Pkg.Path()) && g.Parent() == nil {
							m[fname(g)] = true
						}
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g.Parent() != nil {
							continue
						}
						if g.Synthetic != "" {
							rec(g)
							continue
						}
						if g.Pkg != nil && isMod(g.Pkg.Pkg.Path()) {
							m[fname(g)] = true
						}
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && isMod(g.Pkg.Pkg.Path()) {
						if i := g.Pkg.Func("init"); i != nil {
							m[fname(i)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	rec(f)
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (s *side) fileOf(f *ssa.Function) string {
	p := s.fset.Position(f.Pos())
	r, err := filepath.Rel(s.dir, p.Filename)
	if err != nil {
		return p.Filename
	}
	return r
}

// closure lists the functions of the files and everything they call.
func (p *program) closure(files, roots []string) []string {
	in := map[string]bool{}
	for _, f := range files {
		in[f] = true
	}
	seen := map[string]bool{}
	var work []string
	push := func(n string) {
		if !seen[n] {
			seen[n] = true
			work = append(work, n)
		}
	}
	for _, s := range []*side{p.n, p.r} {
		for _, n := range s.order {
			f := s.fns[n]
			if in[s.fileOf(f)] && !isStringer(f) {
				push(n)
			}
			for _, pat := range roots {
				if hasPrefix(n, pat) && !isStringer(f) {
					push(n)
				}
			}
		}
	}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for _, s := range []*side{p.n, p.r} {
			if f := s.fns[n]; f != nil {
				for _, c := range s.calleeNames(f) {
					if g := s.fns[c]; g != nil && !isStringer(g) {
						push(c)
					}
				}
			}
		}
	}
	var out []string
	for n := range seen {
		if !skipUnit(n) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func isStringer(f *ssa.Function) bool {
	if f.Signature.Recv() == nil || f.Signature.Params().Len() != 0 {
		return false
	}
	switch f.Name() {
	case "String", "Error":
		return true
	case "Synopsis", "Usage":
		return strings.Contains(fname(f), "cmd/addchain")
	}
	return false
}

// comparable reports whether the function is a unit.
func (p *program) comparable(name string) bool {
	f, g := p.n.fns[name], p.r.fns[name]
	return f != nil && g != nil && sigString(f) == sigString(g)
}

// explained reports whether a changed internal function is compensated in all
// its callers: each caller has the same meaning with the callee expanded.
func (p *program) explained(name string) bool {
	f := p.n.fns[name]
	if f == nil || internalName(f) == false {
		return false
	}
	if p.callers == nil {
		p.callers = map[string][]string{}
		for _, s := range []*side{p.n, p.r} {
			for _, n := range s.order {
				for _, c := range s.calleeNames(s.fns[n]) {
					p.callers[c] = append(p.callers[c], n)
				}
			}
		}
	}
	cs := p.callers[name]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if c == name || !p.comparable(c) || strings.HasSuffix(c, ".init") {
			return false
		}
		resetTerms()
		a, b, _, _, err := p.eval2(c, 0, map[string]bool{name: true}, p.limit)
		if err != nil || a != b {
			return false
		}
	}
	return true
}

// internalName reports whether only this package can call the function.
func internalName(f *ssa.Function) bool {
	if !isExported(f.Name()) {
		return true
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return !isExported(n.Obj().Name())
		}
	}
	return false
}

// allUnits judges every function.
func (p *program) allUnits(pats []string) {
	count := map[string]int{}
	var all []string
	for _, name := range p.n.order {
		if len(pats) > 0 && !strings.Contains(name, pats[0]) || skipUnit(name) {
			continue
		}
		all = append(all, name)
	}
	p.refine(all)
	for _, name := range p.n.order {
		if len(pats) > 0 && !strings.Contains(name, pats[0]) || skipUnit(name) {
			continue
		}
		if !p.comparable(name) {
			fmt.Println("one-sided", name)
			continue
		}
		v := p.unit(name)
		if v.status == "differs" && !v.hard && p.explained(name) {
			v.status = "explained"
		}
		if x := newSharing(p.n, p.n.fns[name], p.r, p.r.fns[name]); len(x) > 0 {
			fmt.Println("differs", name, v.pos, "sharing:", strings.Join(x, ", "))
		} else if x := newEffects(p.n, p.n.fns[name], p.r, p.r.fns[name]); len(x) > 0 && v.status != "equal" {
			fmt.Println("differs", name, v.pos, "effects:", strings.Join(x, ", "))
		}
		count[v.status]++
		if v.status != "equal" {
			fmt.Println(v.status, name, v.pos, "level", v.level, v.why)
		} else if len(pats) > 0 {
			fmt.Println(v.status, name, "level", v.level, v.nterm, v.dur)
		}
	}
	fmt.Println(count)
}

// sameSource compares declarations of the generated parser, which is large.
func (p *program) sameSource(name string) bool {
	if strings.HasSuffix(name, ".init") {
		// the rule table is compared by the grammar rule
		return p.sameDecls()
	}
	a, _, _ := p.n.declOf(name)
	b, _, _ := p.r.declOf(name)
	return a != nil && b != nil && nodeText(a) == nodeText(b) && p.sameDecls()
}

// sameDecls compares the types, constants and variables of the parser
// package, apart from the rule table.
func (p *program) sameDecls() bool {
	if p.parserDecls == 0 {
		p.parserDecls = 1
		if parserDecls(p.n) == parserDecls(p.r) {
			p.parserDecls = 2
		}
	}
	return p.parserDecls == 2
}

func parserDecls(s *side) string {
	var out []string
	for _, f := range s.files[modPath+"/acc/parse/internal/parser"] {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok == token.IMPORT {
				continue
			}
			for _, sp := range gd.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 1 && vs.Names[0].Name == "g" {
					continue
				}
				out = append(out, nodeText(sp))
			}
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// nilTested reports whether callers tell an absent sequence returned by the
// method from an empty one.
func (p *program) nilTested(name string) bool {
	if p.nilTests == nil {
		p.nilTests = map[string]bool{}
		for _, f := range p.r.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					op, ok := in.(*ssa.BinOp)
					if !ok || op.Op != token.EQL && op.Op != token.NEQ {
						continue
					}
					c, ok := op.Y.(*ssa.Const)
					if !ok || !c.IsNil() {
						continue
					}
					if _, ok := c.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					call, ok := op.X.(*ssa.Call)
					if !ok {
						continue
					}
					if call.Call.IsInvoke() {
						p.nilTests["."+call.Call.Method.Name()] = true
					} else if g := call.Call.StaticCallee(); g != nil {
						p.nilTests[fname(g)] = true
					}
				}
			}
		}
	}
	return p.nilTests[name] || p.nilTests[name[strings.LastIndex(name, ".")+1:]] || strings.Contains(name, ").") && p.nilTests[name[strings.LastIndex(name, "."):]]
}

// sameCallers: the functions that call this one have not been touched, so
// they ensure no more than they did.
func (p *program) sameCallers(name string) bool {
	for _, c := range p.n.order {
		for _, g := range p.n.calleeNames(p.n.fns[c]) {
			if g != name || c == name {
				continue
			}
			x, _, _ := p.n.declOf(c)
			y, _, _ := p.r.declOf(c)
			if x == nil && y == nil && strings.HasSuffix(c, ".init") {
				continue
			}
			if x == nil || y == nil || nodeText(x) != nodeText(y) {
				return false
			}
		}
	}
	return true
}
