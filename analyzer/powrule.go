package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// powRule: the size of a power grows with the value of its exponent, so an
// exponent that comes from the input needs a bound, or the tool does not
// finish.
func powRule(pkgs ...string) func(*program) *ruleRun {
	return func(p *program) *ruleRun {
		r := &ruleRun{Rule: "bounded-powers", What: "a power without modulus is computed only after a condition on its exponent"}
		s := p.n
		n := map[string]int{}
		var sites []*ssa.Call
		for f := range ssautil.AllFunctions(s.prog) {
			if f.Pkg == nil && f.Parent() == nil || !inPackages(s, f, pkgs) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || len(c.Call.Args) != 4 {
						continue
					}
					g := c.Call.StaticCallee()
					if g == nil || g.String() != "(*math/big.Int).Exp" {
						continue
					}
					if m, ok := c.Call.Args[3].(*ssa.Const); !ok || !m.IsNil() {
						continue
					}
					sites = append(sites, c)
				}
			}
		}
		for _, c := range sites {
			where := fname(c.Parent())
			e := c.Call.Args[2]
			if _, ok := e.(*ssa.Const); ok || inDominatingCondition(e, c) {
				r.ok("%s: exponent at %s", where, s.pos(c.Pos()))
				continue
			}
			f := r.bad(s.pos(c.Pos()), where, "computes a power whose exponent nothing bounds")
			if pk := pkgOf(c.Parent()); pk != nil {
				n[pk.Path()]++
				f.Key = "exp:" + pk.Name()
				if n[pk.Path()] > 1 {
					f.Key += itoa(n[pk.Path()])
				}
			}
		}
		return r
	}
}

func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		return nil
	}
	return f.Pkg.Pkg
}

func inPackages(s *side, f *ssa.Function, pkgs []string) bool {
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	for _, x := range pkgs {
		if strings.HasSuffix(pk.Path(), x) {
			return true
		}
	}
	return false
}
