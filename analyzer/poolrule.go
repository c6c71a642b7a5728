package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// poolRule: instructions are visited last to first. The variable of the result
// must be given back before the operands get theirs, on every path, or a
// variable is added while a free one is at hand.
func poolRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "free-before-allocate", What: "on every path to an allocation the variable of the result has been given back"}
	s := p.n
	const pool = "(*acc/pass.allocation)."
	allocs, frees := map[string]bool{pool + "Allocate": true}, map[string]bool{pool + "Free": true}
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(s.prog) {
		if inPackages(s, f, []string{"acc/pass"}) && f.Blocks != nil && !allocs[fname(f)] && !frees[fname(f)] {
			fs = append(fs, f)
		}
	}
	calls := func(f *ssa.Function, set map[string]bool) (cs []*ssa.Call) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && set[fname(c.Call.StaticCallee())] {
					cs = append(cs, c)
				}
			}
		}
		return
	}
	always := func(f *ssa.Function) bool {
		for _, c := range calls(f, frees) {
			all := true
			for _, b := range f.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !c.Block().Dominates(b) {
					all = false
				}
			}
			if all {
				return true
			}
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fs {
			n := fname(f)
			if !frees[n] && len(calls(f, allocs)) == 0 && always(f) {
				frees[n], changed = true, true
			}
			// the other methods of the pool look up variables, of the result too
			if !strings.HasPrefix(n, pool) && !allocs[n] && len(calls(f, allocs)) > 0 && len(calls(f, frees)) == 0 {
				allocs[n], changed = true, true
			}
		}
	}
	sites := 0
	for _, f := range fs {
		fc := calls(f, frees)
		if len(fc) == 0 {
			continue
		}
		for _, c := range calls(f, allocs) {
			sites++
			if freeReaches(c, fc) {
				r.ok("%s: allocation at %s", fname(f), s.pos(c.Pos()))
			} else {
				r.bad(s.pos(c.Pos()), fname(f), "allocates on a path on which the variable of the result was not given back")
			}
		}
	}
	if sites == 0 {
		r.open("no function both allocates and frees")
	}
	return r
}

// freeReaches reports whether every path from the entry to c passes one of
// the calls.
func freeReaches(c *ssa.Call, free []*ssa.Call) bool {
	index := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	first := map[*ssa.BasicBlock]bool{}
	for _, f := range free {
		if f.Block() != c.Block() {
			first[f.Block()] = true
		} else if index(f) < index(c) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var up func(b *ssa.BasicBlock) bool
	up = func(b *ssa.BasicBlock) bool {
		if b.Index == 0 {
			return false
		}
		for _, q := range b.Preds {
			if seen[q] || first[q] {
				continue
			}
			seen[q] = true
			if !up(q) {
				return false
			}
		}
		return true
	}
	return up(c.Block())
}
