package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The number of waiting operations must match the number of goroutines. A
// count is a value of the function (a length, the capacity of a channel) plus
// a constant.

type lin struct {
	base interface{} // ssa.Value, or lenOf / capOf
	k    int64
}

type lenOf struct{ v ssa.Value }
type capOf struct{ v ssa.Value }

func linOf(v ssa.Value, d int) (lin, bool) {
	if d > 8 {
		return lin{}, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			k, ok := constant.Int64Val(v.Value)
			return lin{nil, k}, ok
		}
		return lin{}, false
	case *ssa.Convert:
		return linOf(v.X, d+1)
	case *ssa.ChangeType:
		return linOf(v.X, d+1)
	case *ssa.BinOp:
		if v.Op == token.ADD || v.Op == token.SUB {
			x, ok1 := linOf(v.X, d+1)
			y, ok2 := linOf(v.Y, d+1)
			if ok1 && ok2 {
				if v.Op == token.SUB {
					if y.base != nil {
						if x.base == y.base {
							return lin{nil, x.k - y.k}, true
						}
						return lin{v, 0}, true
					}
					return lin{x.base, x.k - y.k}, true
				}
				if x.base == nil {
					return lin{y.base, x.k + y.k}, true
				}
				if y.base == nil {
					return lin{x.base, x.k + y.k}, true
				}
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			a := v.Call.Args[0]
			switch b.Name() {
			case "len":
				a = chanRoot(a)
				if st := singleStore(a); st != nil {
					a = chanRoot(st)
				}
				if mk, ok := a.(*ssa.MakeSlice); ok {
					return linOf(mk.Len, d+1)
				}
				return lin{lenOf{a}, 0}, true
			case "cap":
				if _, ok := a.Type().Underlying().(*types.Chan); ok {
					c := chanRoot(a)
					if st := singleStore(c); st != nil {
						c = chanRoot(st)
					}
					if mk, ok := c.(*ssa.MakeChan); ok {
						return linOf(mk.Size, d+1)
					}
					return lin{capOf{c}, 0}, true
				}
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if c := singleStore(v.X); c != nil {
				return linOf(c, d+1)
			}
		}
	}
	return lin{v, 0}, true
}

// singleStore is the value of a variable that is assigned once.
func singleStore(a ssa.Value) ssa.Value {
	al, ok := a.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var v ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			v, n = st.Val, n+1
		}
	}
	if n == 1 {
		return v
	}
	return nil
}

// tripCount is the number of times the loop around block b runs, for loops
// that count a variable up or down by one and are left only at the test.
func tripCount(f *ssa.Function, scc map[*ssa.BasicBlock]int, b *ssa.BasicBlock) (lin, bool) {
	id := scc[b]
	if id == 0 {
		return lin{nil, 1}, true
	}
	var test *ssa.If
	for _, x := range f.Blocks {
		if scc[x] != id {
			continue
		}
		for _, y := range x.Succs {
			if scc[y] != id && !isPanicBlock(y) {
				t, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
				if !ok || test != nil {
					return lin{}, false
				}
				test = t
			}
		}
	}
	if test == nil {
		return lin{}, false
	}
	c, ok := test.Cond.(*ssa.BinOp)
	if !ok {
		return lin{}, false
	}
	op, x, y := c.Op, c.X, c.Y
	if scc[test.Block().Succs[0]] != id {
		// the loop goes on when the test fails
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op = neg[op]
	}
	// counter is the value a phi of the loop has at the test
	counter := func(v ssa.Value) (start lin, step int64, off int64, ok bool) {
		if bo, isB := v.(*ssa.BinOp); isB && (bo.Op == token.ADD || bo.Op == token.SUB) {
			if k, isC := bo.Y.(*ssa.Const); isC && k.Value != nil {
				o, _ := constant.Int64Val(k.Value)
				if bo.Op == token.SUB {
					o = -o
				}
				if _, isPhi := bo.X.(*ssa.Phi); isPhi {
					off = o
					v = bo.X
				}
			}
		}
		phi, isPhi := v.(*ssa.Phi)
		if !isPhi || scc[phi.Block()] != id || len(phi.Edges) != 2 {
			return
		}
		for i, e := range phi.Edges {
			if scc[phi.Block().Preds[i]] != id {
				start, ok = linOf(e, 0)
				continue
			}
			bo, isB := e.(*ssa.BinOp)
			if !isB || bo.X != ssa.Value(phi) || bo.Op != token.ADD && bo.Op != token.SUB {
				return lin{}, 0, 0, false
			}
			k, isC := bo.Y.(*ssa.Const)
			if !isC || k.Value == nil {
				return lin{}, 0, 0, false
			}
			step, _ = constant.Int64Val(k.Value)
			if bo.Op == token.SUB {
				step = -step
			}
		}
		return
	}
	st, step, off, ok := counter(x)
	if !ok {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.NEQ: token.NEQ}
		st, step, off, ok = counter(y)
		op = flip[op]
		x, y = y, x
	}
	if !ok {
		return lin{}, false
	}
	if !fixedIn(y, scc, id, 0) {
		return lin{}, false
	}
	end, ok := linOf(y, 0)
	if !ok {
		return lin{}, false
	}
	st.k += off
	sub := func(a, b lin) (lin, bool) {
		if b.base == nil {
			return lin{a.base, a.k - b.k}, true
		}
		if a.base == b.base {
			return lin{nil, a.k - b.k}, true
		}
		return lin{}, false
	}
	// the test before the work: blocks doing the work must come after it
	switch {
	case step == 1 && (op == token.LSS || op == token.NEQ):
		return sub(end, st)
	case step == 1 && op == token.LEQ:
		end.k++
		return sub(end, st)
	case step == -1 && (op == token.GTR || op == token.NEQ):
		return sub(st, end)
	case step == -1 && op == token.GEQ:
		st.k++
		return sub(st, end)
	}
	return lin{}, false
}

// fixedIn reports whether the value is the same in every turn of the loop.
func fixedIn(v ssa.Value, scc map[*ssa.BasicBlock]int, id, d int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || scc[in.Block()] != id {
		return true
	}
	if d > 4 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Call:
		return isBuiltinCall(v, "len", "cap")
	case *ssa.BinOp:
		return fixedIn(v.X, scc, id, d+1) && fixedIn(v.Y, scc, id, d+1)
	}
	return false
}

func isBuiltinCall(c *ssa.Call, names ...string) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok {
		return false
	}
	for _, n := range names {
		if b.Name() == n {
			return true
		}
	}
	return false
}

// alwaysRuns reports whether every turn of the loop around in passes in.
func alwaysRuns(scc map[*ssa.BasicBlock]int, in ssa.Instruction) bool {
	id := scc[in.Block()]
	if id == 0 {
		return true
	}
	// leave in.Block() and come back to it without passing it: another cycle
	// in the same component avoids the block
	seen := map[*ssa.BasicBlock]bool{}
	var cyc func(b, start *ssa.BasicBlock) bool
	cyc = func(b, start *ssa.BasicBlock) bool {
		for _, x := range b.Succs {
			if scc[x] != id || x == in.Block() {
				continue
			}
			if x == start {
				return true
			}
			if !seen[x] {
				seen[x] = true
				if cyc(x, start) {
					return true
				}
			}
		}
		return false
	}
	for _, b := range in.Parent().Blocks {
		if scc[b] == id && b != in.Block() {
			seen = map[*ssa.BasicBlock]bool{}
			if cyc(b, b) {
				return false
			}
		}
	}
	return true
}

// checkBarrier compares the waiting operations after the goroutines of sp
// with the number of goroutines, or with the size of the semaphore.
func (s *side) checkBarrier(r *ruleRun, f *ssa.Function, sp *spawn) {
	name, at := fname(f), s.pos(sp.in.Pos())
	scc := sccOf(f)
	inner := map[ssa.Value][2]int{} // channel: sends, receives by the goroutine
	resolve := func(v ssa.Value) ssa.Value {
		v = chanRoot(v)
		if o, ok := outer(v, sp); ok {
			v = chanRoot(o)
		}
		if fv, ok := v.(*ssa.FreeVar); ok {
			v = chanRoot(binding(fv))
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if st := singleStore(u.X); st != nil {
				v = chanRoot(st)
			}
		}
		if st := singleStore(v); st != nil {
			v = chanRoot(st)
		}
		return v
	}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Send:
					c := inner[resolve(in.Chan)]
					c[0]++
					inner[resolve(in.Chan)] = c
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						c := inner[resolve(in.X)]
						c[1]++
						inner[resolve(in.X)] = c
					}
				}
			}
		}
		for _, a := range g.AnonFuncs {
			visit(a)
		}
	}
	visit(sp.fn)
	type wait struct {
		in   ssa.Instruction
		ch   ssa.Value
		send bool
	}
	var acquire, drain []wait
	other := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			same := scc[b] == scc[sp.in.Block()]
			if !same && flowsTo(sp.in, nil, never, func(x ssa.Instruction) bool { return x == in }) == nil {
				continue
			}
			var w wait
			switch x := in.(type) {
			case *ssa.Send:
				w = wait{in, resolve(x.Chan), true}
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					w = wait{in, resolve(x.X), false}
				}
			}
			switch {
			case w.in != nil && same:
				acquire = append(acquire, w)
			case w.in != nil:
				drain = append(drain, w)
			case !same && s.waits(in):
				other++
			}
		}
	}
	if len(drain) == 0 {
		s.checkCounter(r, f, sp)
		return
	}
	if other > 0 || len(drain) != 1 {
		r.open("%s: several waiting operations after the goroutines started at %s", name, at)
		return
	}
	w := drain[0]
	c, ok := inner[w.ch]
	if !ok {
		r.open("%s: the goroutine started at %s does not use the channel that is waited on", name, at)
		return
	}
	n, ok := tripCount(f, scc, w.in.Block())
	if !ok || !alwaysRuns(scc, w.in) {
		r.open("%s: number of waiting operations at %s unknown", name, s.pos(w.in.Pos()))
		return
	}
	var want lin
	var what string
	if w.send {
		if c[0] > 0 && c[1] > 0 {
			r.bad(s.pos(w.in.Pos()), name, "the goroutine started at %s takes its token itself: all tokens can be taken here before it runs, and nothing waits for it", at)
			return
		}
		if c[1] == 0 {
			r.open("%s: the goroutine started at %s does not receive from the channel", name, at)
			return
		}
		took := false
		for _, a := range acquire {
			if a.ch == w.ch && a.send && dominatesInstr(a.in, sp.in) {
				took = true
			}
		}
		if !took {
			r.open("%s: no token is taken before the goroutine at %s is started", name, at)
			return
		}
		mk, ok := w.ch.(*ssa.MakeChan)
		if !ok {
			r.open("%s: the channel is not made here", name)
			return
		}
		want, _ = linOf(mk.Size, 0)
		what = "the semaphore has room for another number of tokens than are taken"
	} else {
		if c[0] == 0 {
			r.open("%s: the goroutine started at %s does not send to the channel", name, at)
			return
		}
		if c[0] != 1 {
			r.open("%s: the goroutine started at %s sends in several places", name, at)
			return
		}
		want, ok = tripCount(f, scc, sp.in.Block())
		if !ok || !alwaysRuns(scc, sp.in) {
			r.open("%s: number of goroutines started at %s unknown", name, at)
			return
		}
		what = "the number of results received is not the number of goroutines"
	}
	switch {
	case want == n:
		r.ok("%s: as many waiting operations at %s as goroutines started at %s can be running", name, s.pos(w.in.Pos()), at)
	case want.base == n.base:
		r.bad(s.pos(w.in.Pos()), name, "%s: off by %d", what, n.k-want.k)
	default:
		r.open("%s: number of waiting operations at %s not comparable", name, s.pos(w.in.Pos()))
	}
}

func dominatesInstr(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// checkCounter compares what is added to a WaitGroup with the goroutines.
func (s *side) checkCounter(r *ruleRun, f *ssa.Function, sp *spawn) {
	if sp.done {
		return
	}
	name, at := fname(f), s.pos(sp.in.Pos())
	scc := sccOf(f)
	var adds []*ssa.Call
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && syncCall(&c.Call) == "Add" && len(c.Call.Args) == 2 {
				adds = append(adds, c)
			}
		}
	}
	if len(adds) != 1 || !s.hasCall(f, "Wait") {
		return
	}
	a := adds[0]
	n, ok := linOf(a.Call.Args[1], 0)
	if !ok {
		return
	}
	want := lin{nil, 1}
	if scc[a.Block()] != scc[sp.in.Block()] {
		if scc[a.Block()] != 0 {
			return
		}
		want, ok = tripCount(f, scc, sp.in.Block())
		if !ok || !alwaysRuns(scc, sp.in) {
			return
		}
	} else if !dominatesInstr(a, sp.in) {
		if dominatesInstr(sp.in, a) {
			r.bad(s.pos(a.Pos()), name, "WaitGroup.Add after the goroutine has been started at %s", at)
		}
		return
	}
	switch {
	case want == n:
		r.ok("%s: the WaitGroup counts the goroutines started at %s", name, at)
	case want.base == n.base:
		r.bad(s.pos(a.Pos()), name, "the WaitGroup does not count the goroutines started at %s: off by %d", at, n.k-want.k)
	}
}
