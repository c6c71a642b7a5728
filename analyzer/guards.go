package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Guarded uses. Some operations panic unless a condition holds: an index must
// be in range, a result may only be used after its error has been checked, a
// divisor must not be zero. For each such operation of the function the
// evaluator notes whether the path condition rules the panic out. A function
// that computes the same results as the reviewed one but no longer rules out
// a panic that the reviewed one does has lost a guard.

type use struct {
	kind   string
	proven bool
	pos    token.Pos
	bad    *Term
}

func (fr *frame) guard(ins ssa.Instruction, kind string, bad *Term) {
	e := fr.e
	if len(e.stack) != 1 {
		return
	}
	proven := mkAnd(fr.pc, bad) == tFALSE || fr.pc == tFALSE
	if e.uses == nil {
		e.uses = map[string]use{}
	}
	key := kind + "@" + itoa(int(ins.Pos())) + "." + itoa(instrIndex(ins))
	if e.unrolled != nil {
		if e.unrolled[key] && !e.uses[key].proven {
			return
		}
		e.unrolled[key] = true
	}
	e.uses[key] = use{kind, proven, ins.Pos(), mkAnd(fr.pc, bad)}
}

func instrIndex(ins ssa.Instruction) int {
	n := 0
	for _, b := range ins.Parent().Blocks {
		for _, i := range b.Instrs {
			n++
			if i == ins {
				return n
			}
		}
	}
	return 0
}

func (fr *frame) guards(ins ssa.Instruction, st *State) {
	if len(fr.e.stack) != 1 {
		return
	}
	switch ins := ins.(type) {
	case *ssa.IndexAddr:
		fr.guardResult(ins, ins.X, st)
		fr.guardIndex(ins, ins.X, ins.Index, st)
	case *ssa.Index:
		fr.guardIndex(ins, ins.X, ins.Index, st)
	case *ssa.Lookup:
		if isString(ins.X.Type()) {
			fr.guardIndex(ins, ins.X, ins.Index, st)
		}
	case *ssa.FieldAddr:
		fr.guardResult(ins, ins.X, st)
	case *ssa.UnOp:
		if ins.Op == token.MUL {
			fr.guardResult(ins, ins.X, st)
		}
	case *ssa.Call:
		c := &ins.Call
		if c.IsInvoke() {
			fr.guardResult(ins, c.Value, st)
		} else if f := c.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(c.Args) > 0 {
			fr.guardResult(ins, c.Args[0], st)
			if isBigMethod(f) {
				for _, a := range c.Args[1:] {
					if isBigPtr(a.Type()) {
						fr.guardResult(ins, a, st)
					}
				}
				switch f.Name() {
				case "Div", "Mod", "Quo", "Rem", "DivMod", "QuoRem":
					fr.guardDiv(ins, c.Args[2], st)
				}
			}
		}
	}
}

func (fr *frame) guardDiv(ins ssa.Instruction, y ssa.Value, st *State) {
	e := fr.e
	v := mapLeaves(fr.val(y, st), func(l *Term) *Term { return e.content(st, l, y.Type()) })
	fr.guard(ins, "division by zero", mapLeaves(v, func(l *Term) *Term {
		if isUnreach(l) || l.op == NIL {
			return tFALSE
		}
		return eqInt(l, tZERO)
	}))
}

func (fr *frame) guardIndex(ins ssa.Instruction, x, idx ssa.Value, st *State) {
	e := fr.e
	s := fr.val(x, st)
	var c *Term
	switch x.Type().Underlying().(type) {
	case *types.Slice:
		c = mapLeaves(s, func(l *Term) *Term {
			if isUnreach(l) {
				return tEMPTY
			}
			return e.content(st, l, x.Type())
		})
	case *types.Basic:
		c = s
	default:
		return
	}
	if isRangeIndex(idx) {
		return
	}
	i := fr.val(idx, st)
	n := mkLen(c)
	name := typeName(x.Type())
	fr.guard(ins, "index of "+name+" above the end", mkLE0(mkSub2(n, i)))
	if b, ok := lowerBound(idx, 0); !ok || b < 0 {
		fr.guard(ins, "negative index of "+name, mkLE0(addInt(i, 1)))
	}
}

// isRangeIndex reports whether the index is the hidden counter of a range
// statement, which no check in the source protects.
func isRangeIndex(v ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	phi, ok := b.X.(*ssa.Phi)
	return ok && phi.Comment == "rangeindex"
}

// lowerBound is a bound that holds for the value by the way it is computed:
// constants, lengths, and counters that only go up.
func lowerBound(v ssa.Value, d int) (int64, bool) {
	if d > 6 {
		return 0, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			return constant.Int64Val(v.Value)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return 0, true
		}
	case *ssa.BinOp:
		if v.Op == token.ADD {
			x, ok := lowerBound(v.X, d+1)
			y, ok2 := lowerBound(v.Y, d+1)
			return x + y, ok && ok2
		}
		if v.Op == token.SUB {
			if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				k, _ := constant.Int64Val(c.Value)
				x, ok := lowerBound(v.X, d+1)
				return x - k, ok
			}
		}
	case *ssa.Phi:
		var min int64
		have := false
		for _, e := range v.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(v) {
				if k, ok := lowerBound(b.Y, d+1); ok && k >= 0 {
					continue
				}
			}
			b, ok := lowerBound(e, d+1)
			if !ok {
				return 0, false
			}
			if !have || b < min {
				min, have = b, true
			}
		}
		return min, have
	}
	return 0, false
}

// guardResult handles the use of a result that came with an error.
func (fr *frame) guardResult(ins ssa.Instruction, x ssa.Value, st *State) {
	ex, ok := x.(*ssa.Extract)
	if !ok {
		return
	}
	tt := ex.Tuple.Type().(*types.Tuple)
	n := tt.Len()
	if n < 2 || ex.Index == n-1 || !isError(tt.At(n-1).Type()) {
		return
	}
	err := mkSel("tuple", n, n-1, fr.val(ex.Tuple, st))
	bad := mapLeaves(err, func(l *Term) *Term {
		if isUnreach(l) {
			return tFALSE
		}
		return mkNot(mkIsNil(l))
	})
	fr.guard(ins, "result used although the error is set", bad)
}

// lostGuards compares the guarded uses of two evaluations.
func lostGuards(a, b *ev) []hazard {
	if os.Getenv("VUSES") != "" {
		for _, e := range []*ev{a, b} {
			for k, u := range e.uses {
				fmt.Fprintln(os.Stderr, k, u.proven, e.s.pos(u.pos), u.bad)
			}
			fmt.Fprintln(os.Stderr)
		}
	}
	type cnt struct{ yes, no int }
	count := func(e *ev) map[string]cnt {
		m := map[string]cnt{}
		for _, u := range e.uses {
			c := m[u.kind]
			if u.proven {
				c.yes++
			} else {
				c.no++
			}
			m[u.kind] = c
		}
		return m
	}
	na, nb := count(a), count(b)
	var out []hazard
	for _, u := range a.uses {
		if u.proven {
			continue
		}
		x, y := na[u.kind], nb[u.kind]
		if x.no > y.no && x.yes < y.yes {
			out = append(out, hazard{kind: "guard lost: " + u.kind, pos: a.s.pos(u.pos)})
		}
	}
	return out
}

// newPanics finds operations that panic for some arguments for which no
// operation of the reviewed function does. Only the arguments themselves may
// decide that, not what loops make of them.
func newPanics(a, b *ev, limit int) (out []hazard) {
	budget = limit
	defer func() {
		budget = 1 << 60
		if x := recover(); x != nil {
			if _, ok := x.(tooComplex); !ok {
				panic(x)
			}
			out = nil
		}
	}()
	known := tFALSE
	for _, u := range b.uses {
		if !u.proven {
			known = mkOr(known, u.bad)
		}
	}
	for _, u := range a.uses {
		if u.proven || !strings.Contains(u.kind, "index of") {
			continue
		}
		bad := mkAnd(u.bad, mkNot(known))
		if os.Getenv("VPANIC") != "" {
			fmt.Fprintln(os.Stderr, "PANIC", a.s.pos(u.pos), u.bad.short(2000), "NEW", bad.short(2000))
		}
		var cube []literal
		steps := 0
		var walk func(t *Term) bool
		walk = func(t *Term) bool {
			steps++
			if steps > 2000 || isUnreach(t) || t == tFALSE {
				return false
			}
			if t == tTRUE {
				return possible(cube)
			}
			if t.op != ITE {
				return false
			}
			x := t.args[0]
			if !onlyArgs(x) {
				return false
			}
			cube = append(cube, literal{x, true})
			if walk(t.args[1]) {
				return true
			}
			cube[len(cube)-1].val = false
			if walk(t.args[2]) {
				return true
			}
			cube = cube[:len(cube)-1]
			return false
		}
		if walk(bad) {
			out = append(out, hazard{kind: "panics for some arguments: " + u.kind, pos: a.s.pos(u.pos)})
		}
	}
	return out
}

// onlyArgs: the comparison is about arguments and their elements.
func onlyArgs(t *Term) bool {
	m := map[*Term]bool{}
	if strict := rootsOf(t, m); strict {
		return false
	}
	for s := range symsOf(t) {
		if s.sid != 0 || !strings.HasPrefix(s.aux, "p") {
			return false
		}
	}
	return len(m) > 0
}
