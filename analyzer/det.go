package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// detRule: the functions reachable from the given files give the same result
// every time: no result depends on map iteration order, time, randomness or
// the machine, beyond what the reviewed code reads.
func detRule(files, roots []string) func(*program) *ruleRun {
	return func(p *program) *ruleRun {
		r := &ruleRun{Rule: "deterministic", What: "no result depends on map iteration order, time, randomness or the machine"}
		names := p.closure(files, roots)
		known := map[string]bool{}
		for _, n := range names {
			if f := p.r.fns[n]; f != nil {
				for _, g := range withAnon(f) {
					for k := range varying(g) {
						known[k] = true
					}
				}
			}
		}
		for _, n := range names {
			f := p.n.fns[n]
			if f == nil {
				continue
			}
			found := false
			for _, g := range withAnon(f) {
				for k, in := range varying(g) {
					if !known[k] {
						found = true
						r.bad(p.n.pos(in.Pos()), n, "uses %s", k)
					}
				}
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if rg, ok := in.(*ssa.Range); ok {
							if _, m := rg.X.Type().Underlying().(*types.Map); !m {
								continue
							}
							found = true
							bad, why := p.n.orderDependent(g, rg)
							switch {
							case bad:
								r.bad(p.n.pos(rg.Pos()), n, "%s in the order of a map iteration", why)
							case why != "":
								r.open("%s: %s in a map iteration at %s", n, why, p.n.pos(rg.Pos()))
							default:
								r.ok("%s: map iteration at %s does not depend on the order", n, p.n.pos(rg.Pos()))
							}
						}
					}
				}
			}
			if !found {
				r.ok("%s", n)
			}
		}
		return r
	}
}

func withAnon(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, withAnon(a)...)
	}
	return out
}

// varying lists calls whose result differs between runs.
func varying(f *ssa.Function) map[string]ssa.Instruction {
	out := map[string]ssa.Instruction{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				if sel, ok := in.(*ssa.Select); ok && len(sel.States) > 1 {
					out["select over several channels"] = in
				}
				continue
			}
			g := c.Common().StaticCallee()
			if g == nil || g.Object() == nil || g.Object().Pkg() == nil {
				continue
			}
			k := g.Object().Pkg().Path() + "." + g.Name()
			switch {
			case strings.HasPrefix(k, "math/rand.") || strings.HasPrefix(k, "math/rand/v2.") || strings.HasPrefix(k, "crypto/rand.") || strings.HasPrefix(k, "hash/maphash."):
				out[k] = in
			case k == "time.Now" || k == "time.Since" || k == "time.Until" || k == "time.After" || k == "time.NewTimer" || k == "time.Tick" || k == "context.WithTimeout" || k == "context.WithDeadline":
				out[k] = in
			case k == "os.Getpid" || k == "os.Getenv" || k == "os.LookupEnv" || k == "os.Hostname" || k == "os.Getwd" || k == "os.TempDir":
				out[k] = in
			case k == "runtime.NumCPU" || k == "runtime.NumGoroutine" || k == "runtime.GOMAXPROCS":
				out[k] = in
			}
		}
	}
	return out
}

// orderDependent reports whether what a map iteration does depends on its
// order; a reason without certainty is an undecided case.
func (s *side) orderDependent(f *ssa.Function, rg *ssa.Range) (bool, string) {
	scc := sccOf(f)
	var next *ssa.Next
	for _, x := range *rg.Referrers() {
		if n, ok := x.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil || scc[next.Block()] == 0 {
		return false, ""
	}
	id := scc[next.Block()]
	dep := map[ssa.Value]bool{}
	// values that come from the iteration
	var mark func(v ssa.Value)
	mark = func(v ssa.Value) {
		if v == nil || dep[v] || v.Referrers() == nil {
			return
		}
		dep[v] = true
		for _, x := range *v.Referrers() {
			if y, ok := x.(ssa.Value); ok {
				mark(y)
			}
			if st, ok := x.(*ssa.Store); ok && st.Val == v {
				if al, ok := root(st.Addr).(*ssa.Alloc); ok {
					mark(al)
				}
			}
		}
	}
	mark(next)
	sorted := func() bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := closedFn(&c.Call); g != nil && g.Object() != nil && g.Object().Pkg() != nil {
						pk := g.Object().Pkg().Path()
						if pk == "sort" || pk == "slices" || strings.Contains(g.Name(), "Sort") {
							return true
						}
					}
				}
			}
		}
		return false
	}()
	soft := ""
	for _, b := range f.Blocks {
		if scc[b] != id {
			continue
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					if c, ok := e.(*ssa.Call); ok && isAppend(c) && dep[c] {
						if sorted {
							continue
						}
						return true, "a slice is filled"
					}
					if dep[e] && !commutes(e, in) {
						soft = "a value is chosen"
					}
				}
			case *ssa.Store:
				if c, ok := in.Val.(*ssa.Call); ok && isAppend(c) && dep[c] && !sorted {
					return true, "a slice is filled"
				}
			case *ssa.Send:
				return true, "values are sent"
			case *ssa.Call:
				g := closedFn(&in.Call)
				if g == nil || isAppend(in) {
					continue
				}
				anyDep := false
				for _, a := range in.Call.Args {
					if dep[a] {
						anyDep = true
					}
				}
				w := s.mods[g] != nil && s.mods[g].world || s.mods[g] == nil && worldCall(g) && !isBigMethod(g)
				if w && anyDep {
					return true, "output is written"
				}
				if m := s.mods[g]; m != nil && (len(m.params) > 0 || len(m.deep) > 0) {
					soft = "state is changed by " + fname(g)
				}
			}
		}
		// leaving the loop from its body with a value of the iteration
		for _, t := range b.Succs {
			if scc[t] == id || b == next.Block() {
				continue
			}
			for _, in := range t.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					for _, v := range ret.Results {
						if dep[v] {
							if _, isErr := v.Type().Underlying().(*types.Interface); isErr {
								soft = "the first error is returned"
								continue
							}
							return true, "the first match is returned"
						}
					}
				}
				if ph, ok := in.(*ssa.Phi); ok {
					for _, v := range ph.Edges {
						if dep[v] {
							soft = "the first match is chosen"
						}
					}
				}
			}
		}
	}
	return false, soft
}

// commutes: accumulating with a commutative operation.
func commutes(v ssa.Value, acc *ssa.Phi) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch b.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		if t, ok := b.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
			return false
		}
		return b.X == ssa.Value(acc) || b.Y == ssa.Value(acc)
	}
	return false
}
