package main

import (
	"go/ast"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// appendRule: an operation is appended to a program only after each of its
// operands has passed a check: the operand takes part in a condition that
// every path to the append goes through. Positions the program itself
// produced (its length, the result of another method) need none.
func appendRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "checked-append", What: "Program methods append an operation only after a condition on each operand that every path goes through"}
	s := p.n
	for _, n := range s.order {
		f := s.fns[n]
		if f.Signature.Recv() == nil || len(f.Params) == 0 || skipUnit(n) {
			continue
		}
		pt, ok := f.Params[0].Type().(*types.Pointer)
		if !ok || typeName(pt.Elem()) != "addchain.Program" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(f.Params[0]) {
					continue
				}
				c, ok := st.Val.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				ops, ok := storedInts(c.Call.Args[1])
				if !ok {
					r.open("%s: what is appended at %s was made elsewhere", n, s.pos(c.Pos()))
					continue
				}
				for _, v := range ops {
					switch checkedOperand(f, v, c, map[ssa.Value]bool{}) {
					case 1:
						r.ok("%s: operand of the append at %s", n, s.pos(c.Pos()))
					case 0:
						r.bad(s.pos(c.Pos()), n, "appends an operation whose operand %s no condition has checked", valueName(v))
					default:
						r.open("%s: operand of the append at %s", n, s.pos(c.Pos()))
					}
				}
			}
		}
	}
	return r
}

func valueName(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		return v.Name()
	case *ssa.Phi:
		if v.Comment != "" {
			return v.Comment
		}
	}
	return v.Name()
}

// storedInts lists the numbers stored in a literal list of structures.
func storedInts(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	var walk func(addr ssa.Value, d int) bool
	walk = func(addr ssa.Value, d int) bool {
		if d > 6 || addr.Referrers() == nil {
			return false
		}
		for _, r := range *addr.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if !walk(r, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !walk(r, d+1) {
					return false
				}
			case *ssa.Store:
				if r.Addr != addr {
					return false
				}
				if b, ok := r.Val.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					out = append(out, r.Val)
					continue
				}
				ld, ok := r.Val.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					return false
				}
				src, ok := ld.X.(*ssa.Alloc)
				if !ok || !walk(src, d+1) {
					return false
				}
			case *ssa.Slice, *ssa.DebugRef, *ssa.UnOp:
			default:
				return false
			}
		}
		return true
	}
	if !walk(al, 0) || len(out) == 0 {
		return nil, false
	}
	return out, true
}

// checkedOperand: 1 checked, 0 not checked, -1 not known.
func checkedOperand(f *ssa.Function, v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 1
	}
	seen[v] = true
	if inDominatingCondition(v, at) {
		return 1
	}
	for _, b := range f.Blocks {
		// a check in a loop over the operands
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != at.Block() && blockTo(b, at.Block()) && !blockTo(at.Block(), b) && dependsOn(i.Cond, v, 0, map[ssa.Value]bool{}) {
			return -1
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.ExactString() == "0" {
			return 1
		}
		return -1
	case *ssa.Phi:
		res := 1
		for _, e := range x.Edges {
			if c := checkedOperand(f, e, at, seen); c < res {
				if c == 0 {
					return 0
				}
				res = c
			}
		}
		return res
	case *ssa.Parameter:
		if !ast.IsExported(f.Name()) {
			return -1
		}
		return 0
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return 1
		}
	}
	return -1
}

// inDominatingCondition reports whether v takes part in a condition one
// branch of which all paths to the instruction take.
func inDominatingCondition(v ssa.Value, at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(at.Block()) {
			continue
		}
		through := false
		for _, s := range b.Succs {
			if s.Dominates(at.Block()) && len(s.Preds) == 1 {
				through = true
			}
		}
		if through && dependsOn(i.Cond, v, 0, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func dependsOn(x, v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if x == v {
		return true
	}
	if d > 12 || seen[x] {
		return false
	}
	seen[x] = true
	if al, ok := x.(*ssa.Alloc); ok && al.Referrers() != nil {
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == x && dependsOn(r.Val, v, d+1, seen) {
					return true
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
				a := r.(ssa.Value)
				if a.Referrers() == nil {
					continue
				}
				for _, q := range *a.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == a && dependsOn(st.Val, v, d+1, seen) {
						return true
					}
				}
			}
		}
	}
	in, ok := x.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, o := range in.Operands(nil) {
		if *o != nil && dependsOn(*o, v, d+1, seen) {
			return true
		}
	}
	return false
}

func blockTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(a)
}
