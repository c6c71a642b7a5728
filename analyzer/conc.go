package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about goroutines. A worker publishes what it wrote by an operation
// that another goroutine can wait for (channel operation, WaitGroup.Done,
// Unlock); the spawner waits for every worker before it goes on.

// flowsTo reports whether some execution runs from just after (or from the
// start of block blk, if from is nil) to an instruction accepted by target
// without executing one accepted by stop.
func flowsTo(from ssa.Instruction, blk *ssa.BasicBlock, stop, target func(ssa.Instruction) bool) ssa.Instruction {
	seen := map[*ssa.BasicBlock]bool{}
	var hit ssa.Instruction
	// scan runs over the instructions and reports whether the end is reached
	scan := func(ins []ssa.Instruction) bool {
		for _, in := range ins {
			if target(in) {
				hit = in
				return false
			}
			if stop(in) {
				return false
			}
		}
		return true
	}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if hit != nil || seen[b] {
			return
		}
		seen[b] = true
		if scan(b.Instrs) {
			for _, s := range b.Succs {
				walk(s)
			}
		}
	}
	if from == nil {
		walk(blk)
		return hit
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			if scan(b.Instrs[i+1:]) {
				for _, s := range b.Succs {
					walk(s)
				}
			}
		}
	}
	return hit
}

func never(ssa.Instruction) bool { return false }

func isReturn(in ssa.Instruction) bool { _, ok := in.(*ssa.Return); return ok }

// syncCall classifies calls of package sync.
func syncCall(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		if c.IsInvoke() && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
			return c.Method.Name()
		}
		return ""
	}
	if f.Pkg.Pkg.Path() == "sync" {
		return f.Name()
	}
	return ""
}

func closedFn(c *ssa.CallCommon) *ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return f
	}
	if f, ok := funcValue(c.Value); ok {
		return f
	}
	return nil
}

// funcValue finds the function held by a value, if it is the only one.
func funcValue(v ssa.Value) (*ssa.Function, bool) {
	switch v := v.(type) {
	case *ssa.Function:
		return v, true
	case *ssa.MakeClosure:
		f, ok := v.Fn.(*ssa.Function)
		return f, ok
	case *ssa.ChangeType:
		return funcValue(v.X)
	case *ssa.UnOp:
		// a variable assigned once
		var cell ssa.Value = v.X
		if fv, ok := cell.(*ssa.FreeVar); ok {
			cell = binding(fv)
		}
		al, ok := cell.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			return nil, false
		}
		var st ssa.Value
		n := 0
		for _, r := range *al.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == al {
				st = s.Val
				n++
			}
		}
		if n == 1 {
			return funcValue(st)
		}
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return funcValue(b)
		}
	}
	return nil, false
}

// binding is what a free variable of a closure stands for in the function
// that makes the closure.
func binding(fv *ssa.FreeVar) ssa.Value {
	f := fv.Parent()
	par := f.Parent()
	if par == nil {
		return nil
	}
	for i, v := range f.FreeVars {
		if v != fv {
			continue
		}
		var out ssa.Value
		for _, b := range par.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
					out = mc.Bindings[i]
				}
			}
		}
		return out
	}
	return nil
}

// contains reports whether f, or a module function it calls, has an
// instruction accepted by pred.
func (s *side) contains(f *ssa.Function, pred func(ssa.Instruction) bool, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] || len(f.Blocks) == 0 {
		return false
	}
	if f.Pkg != nil && !isMod(f.Pkg.Pkg.Path()) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if pred(in) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, spawn := in.(*ssa.Go); !spawn && s.contains(closedFn(c.Common()), pred, seen) {
					return true
				}
			}
		}
	}
	return false
}

// releases: others can learn that the goroutine came this far.
func (s *side) releases(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.UnOp:
		return in.Op.String() == "<-"
	case *ssa.Select:
		return in.Blocking
	case *ssa.Call:
		return s.releaseCall(&in.Call)
	case *ssa.RunDefers:
		for _, b := range in.Parent().Blocks {
			for _, d := range b.Instrs {
				if d, ok := d.(*ssa.Defer); ok && s.releaseCall(&d.Call) {
					return true
				}
			}
		}
	}
	return false
}

func (s *side) releaseCall(c *ssa.CallCommon) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name() == "close"
	}
	switch syncCall(c) {
	case "Done", "Unlock", "RUnlock", "Signal", "Broadcast", "Add":
		return true
	}
	return s.contains(closedFn(c), s.releases, map[*ssa.Function]bool{})
}

// waits: the goroutine may block here until another releases.
func (s *side) waits(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Send:
		return true
	case *ssa.UnOp:
		return in.Op.String() == "<-"
	case *ssa.Select:
		return in.Blocking
	case *ssa.Next:
		return false
	case *ssa.Call:
		return s.waitCall(&in.Call)
	case *ssa.RunDefers:
		for _, b := range in.Parent().Blocks {
			for _, d := range b.Instrs {
				if d, ok := d.(*ssa.Defer); ok && s.waitCall(&d.Call) {
					return true
				}
			}
		}
	}
	return false
}

func (s *side) waitCall(c *ssa.CallCommon) bool {
	switch syncCall(c) {
	case "Wait":
		return true
	case "":
		return s.contains(closedFn(c), s.waits, map[*ssa.Function]bool{})
	}
	return false
}

// spawn is a point where a goroutine starts.
type spawn struct {
	in   ssa.Instruction
	call *ssa.CallCommon
	fn   *ssa.Function
	done bool // the library signals completion itself (WaitGroup.Go)
}

func (s *side) spawns(f *ssa.Function) []spawn {
	var out []spawn
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Go:
				out = append(out, spawn{in: in, call: &in.Call, fn: closedFn(&in.Call)})
			case *ssa.Call:
				if syncCall(&in.Call) == "Go" && len(in.Call.Args) == 2 {
					if g, ok := funcValue(in.Call.Args[1]); ok {
						out = append(out, spawn{in: in, call: &in.Call, fn: g, done: true})
					}
				}
			}
		}
	}
	return out
}

// root strips selections: the object an address lies in.
func root(v ssa.Value) ssa.Value {
	for {
		switch b := v.(type) {
		case *ssa.FieldAddr:
			v = b.X
		case *ssa.IndexAddr:
			v = b.X
		case *ssa.Slice:
			v = b.X
		case *ssa.ChangeType:
			v = b.X
		default:
			return v
		}
	}
}

// outer maps a value used in a goroutine to what it is for the spawner.
func outer(v ssa.Value, sp *spawn) (ssa.Value, bool) {
	switch v := v.(type) {
	case *ssa.FreeVar:
		if v.Parent() == sp.fn {
			if b := binding(v); b != nil {
				return b, true
			}
			return v, true
		}
	case *ssa.Parameter:
		if v.Parent() == sp.fn && !sp.done {
			for i, p := range sp.fn.Params {
				if p == v && i < len(sp.call.Args) {
					return sp.call.Args[i], true
				}
			}
		}
	case *ssa.UnOp:
		// load of a captured variable
		if fv, ok := v.X.(*ssa.FreeVar); ok && fv.Parent() == sp.fn && v.Op.String() == "*" {
			if b := binding(fv); b != nil {
				return b, true
			}
		}
	}
	return nil, false
}

func sccOf(f *ssa.Function) map[*ssa.BasicBlock]int {
	// blocks reaching one another
	reach := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		r := map[*ssa.BasicBlock]bool{}
		var w func(x *ssa.BasicBlock)
		w = func(x *ssa.BasicBlock) {
			for _, s := range x.Succs {
				if !r[s] {
					r[s] = true
					w(s)
				}
			}
		}
		w(b)
		reach[b] = r
	}
	out := map[*ssa.BasicBlock]int{}
	n := 0
	for _, b := range f.Blocks {
		if out[b] != 0 || !reach[b][b] {
			continue
		}
		n++
		for _, c := range f.Blocks {
			if c == b || reach[b][c] && reach[c][b] {
				out[c] = n
			}
		}
	}
	return out
}

// writesOuter lists the instructions of a goroutine that write memory of the
// spawner.
type outWrite struct {
	in  ssa.Instruction
	obj ssa.Value // in the spawner
	dir bool      // the captured variable itself, not an element
	via string
}

func (s *side) writesOuter(sp *spawn) []outWrite {
	var out []outWrite
	add := func(addr ssa.Value, in ssa.Instruction, via string) {
		r := root(addr)
		if o, ok := outer(r, sp); ok {
			_, isfv := r.(*ssa.FreeVar)
			_, isParam := r.(*ssa.Parameter)
			out = append(out, outWrite{in: in, obj: o, dir: (isfv || isParam) && addr == r, via: via})
		}
	}
	for _, b := range sp.fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				add(in.Addr, in, "store")
			case *ssa.MapUpdate:
				add(in.Map, in, "map")
			case *ssa.Call:
				if syncCall(&in.Call) != "" {
					continue
				}
				if g := closedFn(&in.Call); g != nil && s.mods[g] != nil {
					for i := range s.mods[g].params {
						if i < len(in.Call.Args) {
							add(in.Call.Args[i], in, "call of "+fname(g))
						}
					}
				}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "copy" || bi.Name() == "delete") {
					add(in.Call.Args[0], in, bi.Name())
				}
			}
		}
	}
	return out
}

// concRule examines every goroutine started in the packages.
func concRule(pkgs ...string) func(*program) *ruleRun {
	return func(p *program) *ruleRun {
		r := &ruleRun{Rule: "goroutines", What: "each goroutine writes only memory of its own, publishes it before it signals completion, and the spawner waits for it before using the result"}
		s := p.n
		var fns []*ssa.Function
		for _, f := range s.allFns() {
			if f.Pkg == nil {
				continue
			}
			path := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
			for _, w := range pkgs {
				if path == w {
					fns = append(fns, f)
				}
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
		for _, f := range fns {
			sps := s.spawns(f)
			for i := range sps {
				s.checkSpawn(r, f, &sps[i])
			}
		}
		return r
	}
}

func (s *side) checkSpawn(r *ruleRun, f *ssa.Function, sp *spawn) {
	at := s.pos(sp.in.Pos())
	if sp.fn == nil || len(sp.fn.Blocks) == 0 {
		r.open("%s: goroutine at %s runs an unknown function", fname(f), at)
		return
	}
	name := fname(f)
	scc := sccOf(f)
	inLoop := scc[sp.in.Block()] != 0
	ws := s.writesOuter(sp)
	locks := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		return ok && (syncCall(&c.Call) == "Lock")
	}

	// completion is signalled after the last write
	for _, w := range ws {
		w := w
		if sp.done {
			r.ok("%s: %s at %s is published by WaitGroup.Go", name, w.via, s.pos(w.in.Pos()))
			continue
		}
		if hit := flowsTo(w.in, nil, s.releases, isReturn); hit != nil {
			r.bad(s.pos(w.in.Pos()), name, "the goroutine started at %s writes memory of its spawner and can end without signalling that afterwards", at)
		} else {
			r.ok("%s: write at %s is followed by a completion signal", name, s.pos(w.in.Pos()))
		}
	}
	// completion is signalled on every path
	if !sp.done && s.contains(sp.fn, s.releases, map[*ssa.Function]bool{}) {
		if hit := flowsTo(nil, sp.fn.Blocks[0], s.releases, isReturn); hit != nil {
			r.bad(s.pos(hit.Pos()), name, "the goroutine started at %s can end without signalling completion", at)
		} else {
			r.ok("%s: goroutine at %s signals completion on every path", name, at)
		}
	}
	// somebody waits
	waited := false
	for _, b := range f.Blocks {
		if scc[b] != 0 && scc[b] == scc[sp.in.Block()] {
			continue
		}
		for _, in := range b.Instrs {
			if s.waits(in) && flowsTo(sp.in, nil, never, func(x ssa.Instruction) bool { return x == in }) != nil {
				waited = true
			}
		}
	}
	for _, b := range f.Blocks {
		// ranging over a channel
		for _, in := range b.Instrs {
			if rg, ok := in.(*ssa.Range); ok {
				if _, ch := rg.X.Type().Underlying().(*types.Chan); ch {
					waited = true
				}
			}
		}
	}
	if inLoop || len(ws) > 0 {
		if waited {
			r.ok("%s: waits after starting goroutines at %s", name, at)
		} else {
			r.bad(at, name, "nothing after the goroutine is started waits for it")
		}
	}
	// values the goroutine reads do not change under it
	for i, fv := range sp.fn.FreeVars {
		_ = i
		cell, ok := binding(fv).(*ssa.Alloc)
		if !ok {
			continue
		}
		if !readsCell(sp.fn, fv) {
			continue
		}
		stop := func(in ssa.Instruction) bool {
			if in == ssa.Instruction(cell) {
				return true // a new variable
			}
			return s.waits(in) && (scc[in.Block()] != scc[sp.in.Block()] || !inLoop)
		}
		hit := flowsTo(sp.in, nil, stop, func(in ssa.Instruction) bool {
			st, ok := in.(*ssa.Store)
			return ok && root(st.Addr) == ssa.Value(cell)
		})
		if hit != nil && !s.contains(sp.fn, locks, map[*ssa.Function]bool{}) {
			r.bad(s.pos(hit.Pos()), name, "variable %s is read by the goroutine started at %s and changed here while it may still run", cell.Comment, at)
		} else {
			r.ok("%s: captured variable %s keeps its value while the goroutine runs", name, cell.Comment)
		}
	}
	if !inLoop {
		return
	}
	// no two goroutines write the same variable
	for _, w := range ws {
		al, ok := w.obj.(*ssa.Alloc)
		perIter := false
		if ok && scc[al.Block()] == scc[sp.in.Block()] {
			perIter = true
		}
		if perIter {
			continue
		}
		if varies(w.obj, sp, scc) {
			r.ok("%s: goroutines at %s write through an address taken anew for each at %s", name, at, s.pos(w.in.Pos()))
			continue
		}
		guarded := flowsTo(nil, sp.fn.Blocks[0], locks, func(x ssa.Instruction) bool { return x == w.in }) == nil
		if (w.dir || w.via == "map" || w.via == "delete") && !guarded {
			r.bad(s.pos(w.in.Pos()), name, "every goroutine started at %s writes this variable without a lock", at)
			continue
		}
		if st, ok := w.in.(*ssa.Store); ok && !guarded {
			if ix, ok := st.Addr.(*ssa.IndexAddr); ok && constIn(ix.Index, sp, scc) {
				r.bad(s.pos(w.in.Pos()), name, "every goroutine started at %s writes the same element", at)
				continue
			}
		}
		if guarded {
			if st, ok := w.in.(*ssa.Store); ok && isAppend(st.Val) {
				r.bad(s.pos(w.in.Pos()), name, "goroutines append to a shared slice: the order of the elements depends on the schedule")
				continue
			}
		}
		r.ok("%s: goroutines at %s write different memory at %s", name, at, s.pos(w.in.Pos()))
	}
	s.checkArrival(r, f, sp)
	s.checkBarrier(r, f, sp)
	// tokens taken for a goroutine are given to one
	for _, b := range f.Blocks {
		if scc[b] != scc[sp.in.Block()] {
			continue
		}
		for _, in := range b.Instrs {
			sd, ok := in.(*ssa.Send)
			if !ok || !receivesFrom(sp, sd.Chan) {
				continue
			}
			hit := flowsTo(in, nil, func(x ssa.Instruction) bool { return x == sp.in }, func(x ssa.Instruction) bool {
				return x == in || scc[x.Block()] != scc[b] && !isPanicBlock(x.Block())
			})
			if hit != nil {
				r.bad(s.pos(in.Pos()), name, "a token taken here is not given back when no goroutine is started")
			} else {
				r.ok("%s: the token taken at %s is passed to a goroutine", name, s.pos(in.Pos()))
			}
		}
	}
	// the counter is raised before the goroutine can finish
	for _, b := range sp.fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && syncCall(&c.Call) == "Add" && s.hasCall(sp.fn, "Done") && !s.hasCall(f, "Add") {
				r.bad(s.pos(in.Pos()), name, "WaitGroup.Add inside the goroutine: Wait can return before it runs")
			}
		}
	}
}

func (s *side) hasCall(f *ssa.Function, n string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && syncCall(c.Common()) == n {
				return true
			}
		}
	}
	return false
}

func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func isAppend(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func readsCell(f *ssa.Function, fv *ssa.FreeVar) bool {
	if fv.Referrers() == nil {
		return false
	}
	for _, r := range *fv.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(fv) {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return true
	}
	return false
}

// receivesFrom reports whether the goroutine receives from the spawner's
// channel.
func receivesFrom(sp *spawn, ch ssa.Value) bool {
	key := chanRoot(ch)
	var scan func(f *ssa.Function, depth int) bool
	scan = func(f *ssa.Function, depth int) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op.String() == "<-" {
					v := chanRoot(u.X)
					for i := 0; i < 3 && v != nil; i++ {
						if fv, ok := v.(*ssa.FreeVar); ok {
							v = chanRoot(binding(fv))
							continue
						}
						if o, ok := outer(v, sp); ok {
							v = chanRoot(o)
							continue
						}
						break
					}
					if v == key {
						return true
					}
				}
				if d, ok := in.(*ssa.Defer); ok && depth < 2 {
					if g := closedFn(&d.Call); g != nil && scan(g, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return scan(sp.fn, 0)
}

func chanRoot(v ssa.Value) ssa.Value {
	for {
		switch b := v.(type) {
		case *ssa.UnOp:
			if b.Op.String() != "*" {
				return v
			}
			v = b.X
		case *ssa.ChangeType:
			v = b.X
		default:
			return v
		}
	}
}

// constIn reports whether an index has the same value in every goroutine.
func constIn(v ssa.Value, sp *spawn, scc map[*ssa.BasicBlock]int) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Parameter, *ssa.FreeVar, *ssa.UnOp:
		o, ok := outer(v, sp)
		if !ok {
			return false
		}
		if al, ok := o.(*ssa.Alloc); ok && al.Referrers() != nil {
			for _, r := range *al.Referrers() {
				if _, st := r.(*ssa.Store); st && scc[r.Block()] == scc[sp.in.Block()] {
					return false
				}
				if r.Parent() != al.Parent() {
					return false
				}
			}
		}
		if _, isConst := o.(*ssa.Const); isConst {
			return true
		}
		if in, ok := o.(ssa.Instruction); ok {
			return scc[in.Block()] != scc[sp.in.Block()]
		}
		_, param := o.(*ssa.Parameter)
		return param
	}
	return false
}

// varies reports whether an argument of the go statement is the address of an
// element chosen anew in every round of the loop that starts the goroutines.
func varies(o ssa.Value, sp *spawn, scc map[*ssa.BasicBlock]int) bool {
	for {
		switch v := o.(type) {
		case *ssa.FieldAddr:
			o = v.X
			continue
		case *ssa.IndexAddr:
			in, ok := v.Index.(ssa.Instruction)
			return ok && v.Block() != nil && scc[v.Block()] == scc[sp.in.Block()] && scc[in.Block()] == scc[sp.in.Block()]
		}
		return false
	}
}

// pureRule: the algorithms that run concurrently share their receivers, the
// target and the package variables, so nothing they run may write those.
func pureRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "no-shared-writes", What: "methods called concurrently (FindChain, FindSequence, Decompose, Suggest, String) write neither receiver, argument nor package variable"}
	s := p.n
	for _, n := range s.order {
		f := s.fns[n]
		if f.Signature.Recv() == nil || skipUnit(n) || !strings.HasPrefix(n, "(alg/") && !strings.HasPrefix(n, "(*alg/") {
			continue
		}
		switch f.Name() {
		case "FindChain", "FindSequence", "Decompose", "Suggest", "String":
		default:
			continue
		}
		m := s.mods[f]
		if m == nil {
			continue
		}
		var bad []string
		for i := range m.params {
			// sequences are given targets of their own
			if i < len(f.Params) && (i == 0 || f.Name() != "FindSequence") {
				bad = append(bad, "writes memory reached from "+f.Params[i].Name()+whereStr(s, m, "p"+itoa(i)))
			}
		}
		for k := range m.deep {
			if strings.HasPrefix(k, "global ") {
				bad = append(bad, "writes package variable "+strings.TrimPrefix(k, "global ")+whereStr(s, m, k))
			}
		}
		sort.Strings(bad)
		if len(bad) > 0 {
			r.bad(s.pos(f.Pos()), n, "%s", strings.Join(bad, ", "))
		} else {
			r.ok("%s", n)
		}
	}
	return r
}

// checkArrival: results received from goroutines arrive in any order; their
// place must come from what was received.
func (s *side) checkArrival(r *ruleRun, f *ssa.Function, sp *spawn) {
	sent := map[ssa.Value]bool{}
	for _, b := range sp.fn.Blocks {
		for _, in := range b.Instrs {
			sd, ok := in.(*ssa.Send)
			if !ok {
				continue
			}
			v := chanRoot(sd.Chan)
			if o, ok := outer(v, sp); ok {
				v = chanRoot(o)
			}
			if fv, ok := v.(*ssa.FreeVar); ok {
				v = binding(fv)
			}
			if _, elem := v.(*ssa.IndexAddr); !elem && v != nil {
				sent[v] = true
			}
		}
	}
	if len(sent) == 0 {
		return
	}
	sorts := false
	var fromRecv func(v ssa.Value, seen map[ssa.Value]bool) bool
	fromRecv = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.UnOp:
			if v.Op.String() == "<-" {
				return sent[chanRoot(v.X)]
			}
			return fromRecv(v.X, seen)
		case *ssa.Extract:
			return fromRecv(v.Tuple, seen)
		case *ssa.Field:
			return fromRecv(v.X, seen)
		case *ssa.FieldAddr:
			return fromRecv(v.X, seen)
		case *ssa.Alloc:
			if v.Referrers() != nil {
				for _, x := range *v.Referrers() {
					if st, ok := x.(*ssa.Store); ok && st.Addr == ssa.Value(v) && fromRecv(st.Val, seen) {
						return true
					}
				}
			}
		case *ssa.Phi:
			for _, e := range v.Edges {
				if fromRecv(e, seen) {
					return true
				}
			}
		}
		return false
	}
	is := func(v ssa.Value) bool { return fromRecv(v, map[ssa.Value]bool{}) }
	var bad []ssa.Instruction
	n := 0
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
					sorts = true
				}
				if isAppend(in) && len(in.Call.Args) == 2 {
					// append(x, v) stores v into an array first
					if sl, ok := in.Call.Args[1].(*ssa.Slice); ok {
						if al, ok := sl.X.(*ssa.Alloc); ok && al.Referrers() != nil {
							for _, x := range *al.Referrers() {
								ia, ok := x.(*ssa.IndexAddr)
								if !ok || ia.Referrers() == nil {
									continue
								}
								for _, y := range *ia.Referrers() {
									if st, ok := y.(*ssa.Store); ok && is(st.Val) {
										bad = append(bad, in)
									}
								}
							}
						}
					}
				}
			case *ssa.Store:
				ia, ok := in.Addr.(*ssa.IndexAddr)
				if !ok || !is(in.Val) {
					continue
				}
				if al, ok := ia.X.(*ssa.Alloc); ok && al.Comment == "varargs" {
					continue
				}
				if is(ia.Index) {
					n++
				} else {
					bad = append(bad, in)
				}
			}
		}
	}
	for _, in := range bad {
		if !sorts {
			r.bad(s.pos(in.Pos()), fname(f), "the place of a result depends on the order in which goroutines finish")
		}
	}
	if n > 0 {
		r.ok("%s: %d results are placed by what the goroutine sent", fname(f), n)
	}
}
