package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sameSig reports whether the side has a function with the name and
// signature of fn.
func (s *side) sameSig(fn *ssa.Function) bool {
	if s == nil {
		return false
	}
	g := s.fns[fname(fn)]
	return g != nil && sigString(g) == sigString(fn)
}

func sigString(f *ssa.Function) string {
	var sb strings.Builder
	for _, p := range f.Params {
		sb.WriteString(typeName(p.Type()))
		sb.WriteByte(',')
	}
	sb.WriteString("->")
	sb.WriteString(typeName(f.Signature.Results()))
	if f.Signature.Variadic() {
		sb.WriteString("...")
	}
	return stripNames(f, sb.String())
}

// stripNames drops result names from the signature text.
func stripNames(f *ssa.Function, s string) string {
	rs := f.Signature.Results()
	var ts []string
	for i := 0; i < rs.Len(); i++ {
		ts = append(ts, typeName(rs.At(i).Type()))
	}
	return s[:strings.Index(s, "->")+2] + strings.Join(ts, ",")
}

// modsOf is the effect summary of f shared by both sides.
func (s *side) modsOf(f *ssa.Function) *modset {
	m := s.mods[f]
	if m == nil {
		return nil
	}
	if s.other == nil || !s.other.sameSig(f) {
		return m
	}
	o := s.other.mods[s.other.fns[fname(f)]]
	if o == nil {
		return m
	}
	r := &modset{params: map[int]bool{}, deep: map[string]bool{}, world: m.world || o.world, fresh: m.fresh && o.fresh}
	for _, x := range []*modset{m, o} {
		for k := range x.params {
			r.params[k] = true
		}
		for k := range x.deep {
			r.deep[k] = true
		}
	}
	return r
}

// small reports whether f is always inlined.
func (s *side) isSmall(f *ssa.Function) bool {
	if s.small == nil {
		s.small = map[*ssa.Function]int{}
	}
	if v, ok := s.small[f]; ok {
		return v == 1
	}
	s.small[f] = 0
	if f.Blocks == nil || f.Recover != nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	if n > 60 || len(cfgOf(f).loops) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Defer, *ssa.Go, *ssa.Select:
				return false
			}
		}
	}
	s.small[f] = 1
	return true
}

func (s *side) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if h := c.Common().StaticCallee(); h != nil {
						if h == f {
							return true
						}
						if h.Pkg != nil && isMod(h.Pkg.Pkg.Path()) && rec(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// arg reifies a value passed out of the function.
func (e *ev) arg(st *State, t *Term, ty types.Type) *Term {
	r := e.reify(st, t)
	if !boxed(ty) {
		return r
	}
	return mapLeaves(t, func(l *Term) *Term {
		switch l.op {
		case NIL, BOT, DC, PANIC, OBJ, FADDR, IADDR:
			return e.reify(st, l)
		}
		if c, ok := st.cont[l]; ok {
			d := e.defaultContentIn(st, l)
			if c != d {
				return mkAt(l, e.reify(st, c))
			}
		}
		return l
	})
}

func mkAt(p, c *Term) *Term {
	return lift("at", func(a []*Term) *Term {
		return intern(&Term{op: AT, args: []*Term{a[0], a[1]}})
	}, p, c)
}

func (fr *frame) callArgs(c *ssa.CallCommon, st *State) []*Term {
	e := fr.e
	var out []*Term
	if c.IsInvoke() {
		out = append(out, mk(X, "method:"+c.Method.Name(), e.arg(st, fr.val(c.Value, st), c.Value.Type())))
	} else {
		out = append(out, e.arg(st, fr.val(c.Value, st), c.Value.Type()))
	}
	for _, a := range c.Args {
		out = append(out, e.arg(st, fr.val(a, st), a.Type()))
	}
	return out
}

func (fr *frame) call(c *ssa.CallCommon, ins ssa.Instruction, st *State) *Term {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, fr.val(a, st))
	}
	return fr.callWith(c, fr.val(c.Value, st), args, ins, st)
}

// split evaluates f for each possible value of a decision diagram.
func (fr *frame) split(v *Term, st *State, f func(l *Term, st *State) *Term) *Term {
	if v.op != ITE {
		return f(v, st)
	}
	pc := fr.pc
	type br struct {
		c, r *Term
		st   *State
	}
	var bs []br
	npc := tFALSE
	for _, l := range leavesOf(v) {
		c := condOf(v, l)
		p := mkAnd(pc, c)
		if p == tFALSE || l == tBOT {
			continue
		}
		s := st.clone()
		fr.pc = p
		r := f(l, s)
		if fr.pc == tFALSE {
			continue
		}
		npc = mkOr(npc, fr.pc)
		bs = append(bs, br{fr.pc, r, s})
	}
	fr.pc = npc
	if len(bs) == 0 {
		return tBOT
	}
	var es []*edge
	r := tBOT
	for i := len(bs) - 1; i >= 0; i-- {
		r = ite(bs[i].c, bs[i].r, r)
	}
	for _, b := range bs {
		es = append(es, &edge{cond: b.c, st: b.st})
	}
	_, m := fr.e.mergeStates(es)
	*st = *m
	return r
}

func (fr *frame) callWith(c *ssa.CallCommon, fn *Term, args []*Term, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(b.Name(), c, args, ins, st)
	}
	if c.IsInvoke() {
		return fr.split(fn, st, func(l *Term, st *State) *Term {
			if l.op == MKI {
				if f := e.s.methodOf(c.Value.Type(), l.aux, c.Method); f != nil {
					return fr.callFn(f, nil, append([]*Term{l.args[0]}, args...), c, ins, st)
				}
			}
			return fr.invoke(l, c, args, ins, st)
		})
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return fr.callFn(f, nil, args, c, ins, st)
	}
	return fr.split(fn, st, func(l *Term, st *State) *Term {
		if l.op == CLO {
			return fr.callFn(e.clos[l.aux], l.args, args, c, ins, st)
		}
		if l.op == X && strings.HasPrefix(l.aux, "funcref:") {
			return fr.callFn(e.clos[l.aux[len("funcref:"):]], nil, args, c, ins, st)
		}
		return fr.dynamic(l, c, args, ins, st)
	})
}

// methodOf finds the implementation of an interface method.
func (s *side) methodOf(it types.Type, dyn string, m *types.Func) *ssa.Function {
	for _, f := range s.implementations(it, m) {
		rt := f.Signature.Recv().Type()
		if typeName(rt) == dyn {
			return f
		}
	}
	return nil
}

func external(f *ssa.Function) bool {
	if f.Pkg != nil {
		return !isMod(f.Pkg.Pkg.Path())
	}
	return f.Blocks == nil
}

// callFn calls a statically known function.
func (fr *frame) callFn(f *ssa.Function, fvs, args []*Term, c *ssa.CallCommon, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	if f == nil {
		return fr.dynamic(leaf(X, "unknown-function"), c, args, ins, st)
	}
	if external(f) && f.Blocks == nil {
		return fr.external(f, args, c, ins, st)
	}
	onStack := 0
	for _, g := range e.stack {
		if g == f {
			onStack++
		}
	}
	inl := false
	if onStack == 0 {
		switch {
		case f.Parent() != nil || f.Synthetic != "" && f.Name() != "init":
			inl = true // closures, wrappers
		case e.s.fns[fname(f)] != f:
			inl = true
		case !e.s.other.sameSig(f):
			inl = true
		case constResult(f) && constResult(e.s.other.fns[fname(f)]):
			inl = true
		default:
			inl = e.inline(f)
		}
	}
	if inl && f.Blocks != nil {
		return fr.inlined(f, fvs, args, st)
	}
	return fr.opaque(f, args, c, st)
}

func (fr *frame) inlined(f *ssa.Function, fvs, args []*Term, st *State) *Term {
	e := fr.e
	pc := fr.pc
	res, out, pan := e.run(f, args, fvs, st.clone())
	if pan != tFALSE {
		p := mkAnd(pc, pan)
		if p != tFALSE {
			fr.extra = append(fr.extra, &edge{cond: p, st: st.clone()})
			fr.pc = mkAnd(pc, mkNot(pan))
		}
	}
	*st = *out
	for i := range res {
		res[i] = ite(fr.pc, res[i], tBOT)
	}
	return pack(res)
}

func pack(res []*Term) *Term {
	switch len(res) {
	case 0:
		return tNIL
	case 1:
		return res[0]
	}
	return mkTup("tuple", res...)
}

// memArgs lists pending writes and heap versions a callee could see.
func (e *ev) memArgs(st *State, skip map[*Term]bool) []*Term {
	var out []*Term
	var ks []*Term
	for k := range st.cont {
		if k.op == OBJ || skip[k] {
			continue
		}
		if c := st.cont[k]; c == k || c == e.defaultContentIn(st, k) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
	for _, k := range ks {
		if !e.structRoot(k) {
			continue
		}
		out = append(out, mkTup("mem", k, e.reify(st, st.cont[k])))
	}
	var hs []string
	for n := range st.hv {
		if strings.HasPrefix(n, "$") {
			continue
		}
		hs = append(hs, n)
	}
	sort.Strings(hs)
	for _, n := range hs {
		out = append(out, mkTup("heap:"+n, st.hv[n]))
	}
	return out
}

// opaque represents a call by name.
func (fr *frame) opaque(f *ssa.Function, args []*Term, c *ssa.CallCommon, st *State) *Term {
	e := fr.e
	m := e.s.modsOf(f)
	if m == nil {
		m = &modset{params: map[int]bool{}, deep: map[string]bool{}}
	}
	var tys []types.Type
	for _, p := range f.Params {
		tys = append(tys, p.Type())
	}
	return fr.opaqueCall(CALL, fname(f), nil, m, f.Signature, tys, args, st)
}

func (fr *frame) opaqueCall(op Op, name string, pre []*Term, m *modset, sig *types.Signature, tys []types.Type, args []*Term, st *State) *Term {
	e := fr.e
	var as []*Term
	skip := map[*Term]bool{}
	for i, a := range args {
		var t types.Type = types.Typ[types.Int]
		if i < len(tys) {
			t = tys[i]
		}
		for _, l := range leavesOf(a) {
			skip[l] = true
		}
		if boxed(t) {
			e.noteRoot(a, pointee(t))
		}
		as = append(as, e.arg(st, a, t))
	}
	as = append(append([]*Term{}, pre...), as...)
	if sigRefs(sig) || len(m.deep) > 0 || len(m.params) > 0 {
		as = append(as, e.memArgs(st, skip)...)
	}
	if m.world {
		as = append(as, e.reify(st, st.world))
	}
	call := mk(op, name, as...)
	if m.world {
		st.world = mk(EFF, "after", call)
	}
	// effects
	post := map[int]bool{}
	for i := range m.params {
		post[i] = true
	}
	for k := range m.deep {
		switch {
		case strings.HasPrefix(k, "global "), strings.HasPrefix(k, "captured "):
			st.hv[k] = mk(X, "hv:"+k, call)
		case strings.HasPrefix(k, "*"):
			st.hv[k[1:]] = mk(X, "hv:"+k, call)
		default:
			for i, t := range tys {
				if reaches(t, k, map[types.Type]bool{}) {
					post[i] = true
				}
			}
		}
	}
	for i := range post {
		if i >= len(args) || i >= len(tys) {
			continue
		}
		p := mk(X, "post:"+itoa(i), call)
		for _, l := range leavesOf(args[i]) {
			switch l.op {
			case NIL, BOT, DC, PANIC, CONST:
				continue
			case MKI:
				l = l.args[0]
			}
			if l.op == CAT || l.op == POLY || l.op == TUP || l.op == STR {
				continue
			}
			e.setContent(st, l, tys[i], ite(condOf2(args[i], l), p, e.content(st, l, tys[i])))
		}
	}
	// results
	n := sig.Results().Len()
	res := make([]*Term, n)
	for i := range res {
		r := call
		if n > 1 {
			r = mkSel("tuple", n, i, call)
		}
		t := sig.Results().At(i).Type()
		if isError(t) {
			res[i] = mapLeaves(r, func(l *Term) *Term {
				if l == tBOT {
					return l
				}
				return ite(mkIsNil(l), tNIL, tERR)
			})
			continue
		}
		if m.fresh && isRef(t) {
			o := e.newObj(boxed(t))
			if boxed(t) {
				e.rtype[o] = pointee(t)
				st.cont[o] = mk(MEM, typeName(pointee(t)), r)
			} else {
				st.cont[o] = r
			}
			res[i] = o
			continue
		}
		if boxed(t) {
			e.noteRoot(r, pointee(t))
		}
		res[i] = typed(r, t)
	}
	return pack(res)
}

func condOf2(v, l *Term) *Term {
	if v.op != ITE {
		return tTRUE
	}
	return condOf(v, l)
}

func sigRefs(sig *types.Signature) bool {
	chk := func(t types.Type) bool { return hasRef(t, map[types.Type]bool{}) }
	if r := sig.Recv(); r != nil && chk(r.Type()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if chk(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

// hasRef reports whether values of type t can reach struct memory.
func hasRef(t types.Type, seen map[types.Type]bool) bool {
	if isBigInt(t) || seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return !isBigInt(u.Elem())
	case *types.Slice:
		return hasRef(u.Elem(), seen)
	case *types.Map:
		return hasRef(u.Elem(), seen)
	case *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Array:
		return hasRef(u.Elem(), seen)
	}
	return false
}

// reaches reports whether memory of kind k is reachable from type t.
func reaches(t types.Type, k string, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if isRef(t) && kindOf(t) == k {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isBigInt(u.Elem()) {
			return false
		}
		return reaches(u.Elem(), k, seen)
	case *types.Slice:
		return reaches(u.Elem(), k, seen)
	case *types.Map:
		return reaches(u.Elem(), k, seen)
	case *types.Interface:
		return k == "iface"
	case *types.Struct:
		if isBigInt(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if reaches(u.Field(i).Type(), k, seen) {
				return true
			}
		}
	case *types.Array:
		return reaches(u.Elem(), k, seen)
	}
	return false
}

// invoke represents an interface method call on an unknown value.
func (fr *frame) invoke(recv *Term, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	if isError(c.Value.Type()) {
		return mk(X, "errtext", e.reify(st, recv))
	}
	m := &modset{params: map[int]bool{}, deep: map[string]bool{}, fresh: true}
	add := func(s *side) {
		it := c.Value.Type()
		mt := c.Method
		if s != e.s {
			// find the same interface on the other side
			n, ok := types.Unalias(it).(*types.Named)
			if !ok || n.Obj().Pkg() == nil {
				return
			}
			p := s.pkgs[n.Obj().Pkg().Path()]
			if p == nil {
				return
			}
			o := p.Scope().Lookup(n.Obj().Name())
			if o == nil {
				return
			}
			ii, ok := o.Type().Underlying().(*types.Interface)
			if !ok {
				return
			}
			it = o.Type()
			mt = nil
			for i := 0; i < ii.NumMethods(); i++ {
				if ii.Method(i).Name() == c.Method.Name() {
					mt = ii.Method(i)
				}
			}
			if mt == nil {
				return
			}
		}
		for _, f := range s.implementations(it, mt) {
			x := s.mods[f]
			if x == nil {
				continue
			}
			for k := range x.params {
				m.params[k] = true
			}
			for k := range x.deep {
				m.deep[k] = true
			}
			if x.world {
				m.world = true
			}
			if !x.fresh {
				m.fresh = false
			}
		}
	}
	add(e.s)
	if e.s.other != nil {
		add(e.s.other)
	}
	if c.Method.Pkg() == nil || !isMod(c.Method.Pkg().Path()) {
		m.fresh = false
		switch c.Method.Name() {
		case "Write", "WriteString", "Read", "Close", "Flush", "Do", "Lock", "Unlock":
			m.world = true
		}
	}
	tys := []types.Type{c.Value.Type()}
	ps := c.Signature().Params()
	for i := 0; i < ps.Len(); i++ {
		tys = append(tys, ps.At(i).Type())
	}
	return fr.opaqueCall(CALL, "invoke:"+c.Method.Name(), nil, m, c.Signature(), tys, append([]*Term{recv}, args...), st)
}

// dynamic represents a call of an unknown function value. It is assumed to
// write through arguments that are fresh numbers (output parameters) only.
func (fr *frame) dynamic(fn *Term, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	m := &modset{params: map[int]bool{}, deep: map[string]bool{}}
	var tys []types.Type
	ps := c.Signature().Params()
	for i := 0; i < ps.Len(); i++ {
		tys = append(tys, ps.At(i).Type())
		if i < len(args) && isBigPtr(ps.At(i).Type()) && args[i].op == OBJ {
			m.params[i] = true
		}
	}
	return fr.opaqueCall(X, "dyn", []*Term{e.reify(st, fn)}, m, c.Signature(), tys, args, st)
}

// ---- builtins ----

func (fr *frame) builtin(name string, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	switch name {
	case "len":
		t := c.Args[0].Type()
		x := args[0]
		if isString(t) {
			return mkLen(x)
		}
		switch t.Underlying().(type) {
		case *types.Map:
			return mkMapLen(e.content(st, x, t))
		case *types.Chan:
			return mk(X, "chanlen", e.reify(st, x), st.world)
		}
		return mkLen(e.content(st, x, t))
	case "cap":
		t := c.Args[0].Type()
		if _, ok := t.Underlying().(*types.Chan); ok {
			return mk(X, "chancap", e.reify(st, args[0]))
		}
		return mk(X, "cap", e.reify(st, args[0]))
	case "append":
		t := c.Args[0].Type()
		base := e.content(st, args[0], t)
		var add *Term
		if isString(c.Args[1].Type()) {
			add = args[1]
		} else {
			add = e.content(st, args[1], c.Args[1].Type())
		}
		fr.appendHazard(args[0], add, ins, st)
		return e.fresh(st, false, mkCat(base, add))
	case "copy":
		var src *Term
		if isString(c.Args[1].Type()) {
			src = args[1]
		} else {
			src = e.content(st, args[1], c.Args[1].Type())
		}
		dst := e.content(st, args[0], c.Args[0].Type())
		n, m := mkLen(dst), mkLen(src)
		k := ite(mkLE0(mkSub2(n, m)), n, m)
		e.setContent(st, args[0], c.Args[0].Type(), mkCat(mkSubseq(src, tZERO, k), mkSubseq(dst, k, n)))
		return k
	case "delete":
		t := c.Args[0].Type()
		m := e.content(st, args[0], t)
		e.setContent(st, args[0], t, mkMapDel(m, e.reify(st, args[1])))
		return tNIL
	case "print", "println":
		st.world = mk(EFF, name, append([]*Term{st.world}, args...)...)
		return tNIL
	case "panic":
		return tNIL
	case "close":
		st.world = mk(EFF, "close", st.world, e.reify(st, args[0]))
		return tNIL
	case "recover":
		panic(tooComplex{"recover"})
	}
	panic(tooComplex{"builtin " + name})
}

func mkMapDel(m, k *Term) *Term {
	return lift("mdel", func(a []*Term) *Term {
		m, k := a[0], a[1]
		if m.op == MNEW || m.op == NIL {
			return m
		}
		if m.op == MUPD && m.args[1] == k {
			return mkMapDel(m.args[0], k)
		}
		return intern(&Term{op: MDEL, args: []*Term{m, k}})
	}, m, k)
}

// appendHazard records an append that overwrites memory of the caller.
func (fr *frame) appendHazard(base, add *Term, ins ssa.Instruction, st *State) {
	e := fr.e
	for _, l := range leavesOf(base) {
		if l.op != VIEW || add == tEMPTY || add.op == NIL {
			continue
		}
		root := l.args[0]
		hi := l.args[2]
		c := e.content(st, root, sliceOf)
		n := mkLen(c)
		if hi == n {
			continue
		}
		// elements hi.. of the root are overwritten if there is room
		k := mkLen(add)
		if room := mkLE0(mkSub2(mkAdd(hi, k), n)); room == tTRUE || root.op != OBJ {
			if root.op == OBJ {
				e.setContent(st, root, sliceOf, mkCat(mkSubseq(c, tZERO, hi), add, mkSubseq(c, mkAdd(hi, k), n)))
			} else if !e.owned[root] {
				e.hz = append(e.hz, hazard{kind: "append overwrites elements of a slice owned by the caller", pos: e.s.pos(ins.Pos())})
			}
		}
	}
}

func (e *ev) describe(ins ssa.Instruction) string {
	return fmt.Sprintf("%s", e.s.pos(ins.Pos()))
}

// constResult reports whether the function does nothing but return constants.
func constResult(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			for _, r := range in.Results {
				c, ok := r.(*ssa.Const)
				if !ok || c.Value == nil {
					return false
				}
			}
			return len(in.Results) > 0
		default:
			return false
		}
	}
	return false
}
