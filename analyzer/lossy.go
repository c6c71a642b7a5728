package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Numbers of any size against machine words. The terms treat machine integers
// as integers, so a function that goes through a machine word where the
// reviewed one does not would look the same. An operation that keeps only the
// low bits of its operand, whose operand is not shown to fit, is therefore
// reported when the reviewed function has none of its kind and the program as
// a whole has more of them than the reviewed one.

type lossyUse struct {
	kind string
	pos  string
}

// lossyKind classifies an instruction.
func lossyKind(ins ssa.Instruction) string {
	switch ins := ins.(type) {
	case *ssa.Call:
		if f := ins.Call.StaticCallee(); f != nil && isBigMethod(f) && len(ins.Call.Args) == 1 {
			if n := f.Name(); n == "Uint64" || n == "Int64" {
				if !smallResult(ins.Call.Args[0], 0) {
					return "(*big.Int)." + n + " of a number of any size"
				}
			}
		}
	case *ssa.BinOp:
		if ins.Op == token.SHL && isInteger(ins.Type()) {
			if _, ok := ins.Y.(*ssa.Const); !ok {
				return "shift of a machine word by a variable distance"
			}
		}
	case *ssa.Convert:
		from, to := ins.X.Type(), ins.Type()
		if isInteger(from) && isInteger(to) && width(to) < width(from) {
			if _, ok := ins.X.(*ssa.Const); !ok {
				return "conversion of " + from.Underlying().String() + " to " + to.Underlying().String()
			}
		}
	}
	return ""
}

// smallResult reports whether the number was just computed by an operation
// with a small result.
func smallResult(v ssa.Value, d int) bool {
	c, ok := v.(*ssa.Call)
	if !ok || d > 4 {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	if f.Pkg.Pkg.Path() == "math/big" && f.Name() == "NewInt" {
		return true
	}
	if isBigMethod(f) {
		switch f.Name() {
		case "SetInt64", "SetUint64", "And", "Mod", "Rem":
			return true
		}
	}
	return false
}

func (fr *frame) lossy(ins ssa.Instruction, st *State) {
	k := lossyKind(ins)
	if k == "" {
		return
	}
	e := fr.e
	var bad *Term
	between := func(x *Term, lo, hi *big.Int) *Term {
		return mkNot(mkAnd(mkLE0(mkSub2(mkBig(lo), x)), mkLE0(mkSub2(x, mkBig(hi)))))
	}
	hi := func(bits uint) *big.Int {
		h := new(big.Int).Lsh(big.NewInt(1), bits)
		return h.Sub(h, big.NewInt(1))
	}
	val := func(v ssa.Value, f func(*Term) *Term) *Term {
		t := fr.val(v, st)
		return mapLeaves(t, func(l *Term) *Term {
			if isUnreach(l) {
				return tFALSE
			}
			if _, ok := v.Type().Underlying().(*types.Pointer); ok {
				l = e.content(st, l, v.Type())
			}
			return mapLeaves(l, f)
		})
	}
	switch ins := ins.(type) {
	case *ssa.Call:
		bad = val(ins.Call.Args[0], func(l *Term) *Term {
			if l.op == X && (l.aux == "and" || l.aux == "emod" || l.aux == "trem") {
				return tFALSE
			}
			if ins.Call.StaticCallee().Name() == "Uint64" {
				return between(l, new(big.Int), hi(64))
			}
			return between(l, new(big.Int).Neg(hi(63)), hi(63))
		})
	case *ssa.BinOp:
		bad = val(ins.Y, func(l *Term) *Term { return between(l, new(big.Int), big.NewInt(int64(width(ins.Type())-2))) })
	case *ssa.Convert:
		bad = val(ins.X, func(l *Term) *Term { return between(l, new(big.Int), hi(uint(width(ins.Type())-1))) })
	}
	if bad == nil || mkAnd(fr.pc, bad) == tFALSE || fr.pc == tFALSE {
		k += ", checked"
	}
	e.lossyUses = append(e.lossyUses, lossyUse{k, e.s.pos(ins.Pos())})
}

// lossySites counts the operations of each kind in the module.
func (s *side) lossySites() map[string]int {
	if s.lossyN == nil {
		s.lossyN = map[string]int{}
		for _, f := range s.allFns() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if k := lossyKind(ins); k != "" {
						s.lossyN[k]++
					}
				}
			}
		}
	}
	return s.lossyN
}

// newLossy lists the operations of a that have nothing like them in b.
func newLossy(a, b *ev) []hazard {
	old := map[string]bool{}
	for _, u := range b.lossyUses {
		old[u.kind] = true
	}
	na, nb := a.s.lossySites(), b.s.lossySites()
	var out []hazard
	for _, u := range a.lossyUses {
		if na[u.kind] > nb[u.kind] && !old[u.kind] {
			out = append(out, hazard{kind: "only the low bits are used: " + u.kind, pos: u.pos})
		}
	}
	return out
}
