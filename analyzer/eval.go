package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the memory at a program point.
type State struct {
	cont  map[*Term]*Term  // contents that differ from the initial memory
	world *Term            // sequence of external effects
	hv    map[string]*Term // version of the unknown part of the heap, by type
}

func newState() *State {
	return &State{cont: map[*Term]*Term{}, world: tW0, hv: map[string]*Term{}}
}

func (s *State) clone() *State {
	n := &State{cont: make(map[*Term]*Term, len(s.cont)), world: s.world, hv: make(map[string]*Term, len(s.hv))}
	for k, v := range s.cont {
		n.cont[k] = v
	}
	for k, v := range s.hv {
		n.hv[k] = v
	}
	return n
}

type objInfo struct {
	box  bool // pointer object, reified as BOX
	loop *loopSys
}

type hazard struct {
	kind string
	pos  string
}

type ev struct {
	unrolled  map[string]bool // uses seen in a loop that is evaluated step by step
	numRoot   map[*Term]bool  // numbers written through a pointer the function was given
	marks     bool            // tell new numbers and sequences from the ones they copy
	s         *side
	inline    func(*ssa.Function) bool
	objs      map[*Term]*objInfo
	clos      map[string]*ssa.Function
	owned     map[*Term]bool
	rtype     map[*Term]types.Type // pointee types of opaque struct roots
	nobj      int
	stack     []*ssa.Function
	loops     []*loopSys
	hz        []hazard
	steps     int
	posOf     map[*Term]token.Pos
	varying   map[*Term]bool // outer objects modified by the loop being closed
	inLatch   bool
	aliased   map[*Term]bool // references that another loop variable changes in the next round
	uses      map[string]use
	lossyUses []lossyUse
}

func newEv(s *side, inline func(*ssa.Function) bool) *ev {
	return &ev{numRoot: map[*Term]bool{}, s: s, inline: inline, objs: map[*Term]*objInfo{}, clos: map[string]*ssa.Function{}, owned: map[*Term]bool{}, rtype: map[*Term]types.Type{}, posOf: map[*Term]token.Pos{}}
}

type frame struct {
	e     *ev
	fn    *ssa.Function
	env   map[ssa.Value]*Term
	fvs   []*Term
	defs  []deferred
	rets  []ret
	pan   []pan
	pc    *Term
	info  *cfgInfo
	extra []*edge // panic edges inside loops
}

type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	args []*Term
	fn   *Term
	in   ssa.Instruction
}
type ret struct {
	cond *Term
	vals []*Term
	st   *State
}
type pan struct {
	cond *Term
}
type edge struct {
	from, to *ssa.BasicBlock
	pidx     int
	cond     *Term
	st       *State
}

func (e *ev) newObj(box bool) *Term {
	e.nobj++
	t := leaf(OBJ, fmt.Sprintf("%s%d", e.s.name, e.nobj))
	info := &objInfo{box: box}
	if len(e.loops) > 0 {
		info.loop = e.loops[len(e.loops)-1]
	}
	e.objs[t] = info
	return t
}

// fresh allocates an object with the given content.
func (e *ev) fresh(st *State, box bool, c *Term) *Term {
	o := e.newObj(box)
	st.cont[o] = c
	return o
}

// ---- types ----

func zero(t types.Type) *Term {
	if isBigInt(t) {
		return tZERO
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFALSE
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsNumeric != 0:
			return tZERO
		}
		return tNIL
	case *types.Struct:
		fs := make([]*Term, u.NumFields())
		for i := range fs {
			fs[fieldPos(u, i)] = zero(u.Field(i).Type())
		}
		return mkTup(structName(t), fs...)
	case *types.Array:
		n := u.Len()
		if n <= 64 {
			var ps []*Term
			for i := int64(0); i < n; i++ {
				ps = append(ps, mkUnit(zero(u.Elem())))
			}
			return mkCat(ps...)
		}
		return mkZeros(mkInt(n), zero(u.Elem()))
	}
	return tNIL
}

func structName(t types.Type) string {
	return typeName(t)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// typed normalises an opaque value of Go type t.
func typed(v *Term, t types.Type) *Term {
	switch {
	case isBool(t):
		return ite(v, tTRUE, tFALSE)
	case isUnsigned(t):
		for _, l := range leavesOf(v) {
			switch l.op {
			case SYM, SEL, ELEM, MGET, CALL, X, MEM:
				l.nn = true
			}
		}
	}
	return v
}

// ---- memory ----

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// boxed reports whether references of type t have separate content terms.
func boxed(t types.Type) bool {
	p := pointee(t)
	return p != nil && !isBigInt(p)
}

// content returns what the reference h (of Go type t) refers to.
func (e *ev) content(st *State, h *Term, t types.Type) *Term {
	switch h.op {
	case ITE:
		return mapLeaves(h, func(l *Term) *Term { return e.content(st, l, t) })
	case BOT, DC, PANIC:
		return h
	case NIL:
		if boxed(t) {
			return tBOT
		}
		if _, ok := t.Underlying().(*types.Map); ok {
			return tNIL
		}
		return tNIL
	case VIEW:
		return mkSubseq(e.content(st, h.args[0], t), h.args[1], h.args[2])
	case FADDR:
		n, i := selParts(h.aux)
		return mkSel(h.aux[:strings.LastIndex(h.aux, "/")], n, i, e.content(st, h.args[0], ptrTo))
	case IADDR:
		return mkElem(e.content(st, h.args[0], sliceOf), h.args[1])
	}
	if c, ok := st.cont[h]; ok {
		return c
	}
	switch h.op {
	case OBJ:
		return tBOT
	case BOX:
		return h.args[0]
	case AT:
		return h.args[1]
	}
	if t == ptrTo || boxed(t) {
		name := "?"
		if t != ptrTo {
			name = typeName(pointee(t))
			e.rtype[h] = pointee(t)
		} else if rt := e.rtype[h]; rt != nil {
			name = typeName(rt)
		}
		if h.op == X && strings.HasPrefix(h.aux, "global:") {
			return leaf(X, "init:"+h.aux[7:])
		}
		if v, ok := st.hv[name]; ok {
			return mk(MEM, name, h, v)
		}
		return mk(MEM, name, h)
	}
	if isBigPtr(t) {
		if m, ok := st.hv[numbers]; ok {
			return loadNumber(m, h)
		}
	}
	return h
}

// marker types used when the static type is not at hand.
var (
	ptrTo   types.Type = types.NewPointer(types.NewStruct(nil, nil))
	sliceOf types.Type = types.NewSlice(types.Typ[types.Int])
)

func (e *ev) setContent(st *State, h *Term, t types.Type, v *Term) {
	switch h.op {
	case ITE:
		for _, l := range leavesOf(h) {
			if l == tBOT || l.op == DC || l.op == PANIC || l.op == NIL {
				continue
			}
			k := condOf(h, l)
			old := e.content(st, l, t)
			e.setContent(st, l, t, ite(k, v, old))
		}
	case BOT, DC, PANIC, NIL:
	case FADDR:
		n, i := selParts(h.aux)
		c := e.content(st, h.args[0], ptrTo)
		e.setContent(st, h.args[0], ptrTo, mkUpdField(h.aux[:strings.LastIndex(h.aux, "/")], n, i, c, v))
	case IADDR:
		switch h.args[0].op {
		case CAT, UPD, SUB, UNIT, TAB, ZEROS, ETA:
			panic(tooComplex{"write through a copied sequence"})
		}
		c := e.content(st, h.args[0], sliceOf)
		e.setContent(st, h.args[0], sliceOf, mkUpd(c, h.args[1], v))
	case VIEW:
		c := e.content(st, h.args[0], t)
		n := mkLen(c)
		e.setContent(st, h.args[0], t, mkCat(mkSubseq(c, tZERO, h.args[1]), v, mkSubseq(c, h.args[2], n)))
	case BOX:
		panic(tooComplex{"write through a pointer to a copied object"})
	default:
		if h.op != OBJ && isBigPtr(t) {
			e.storeNumber(st, h, v)
		}
		st.cont[h] = v
	}
}

// numbers is the part of the state that records writes to numbers the
// function was given: other pointers may refer to the same number.
const numbers = "$numbers"

func (e *ev) storeNumber(st *State, h, v *Term) {
	for k, c := range st.cont {
		if k == h || k.op == OBJ || e.structRoot(k) || !e.numRoot[k] {
			continue
		}
		st.cont[k] = ite(mkEq(h, k), v, c)
	}
	e.numRoot[h] = true
	m := hvOf(st, numbers)
	if m.op == X && m.aux == "nstore" && m.args[1] == h {
		m = m.args[0] // overwritten
	}
	st.hv[numbers] = mk(X, "nstore", m, h, v)
}

// loadNumber reads a number that has not been written by this name.
func loadNumber(m, h *Term) *Term {
	switch {
	case m.op == ITE:
		return ite(m.args[0], loadNumber(m.args[1], h), loadNumber(m.args[2], h))
	case m == tW0:
		return h
	case m.op == X && m.aux == "nstore":
		return ite(mkEq(m.args[1], h), m.args[2], loadNumber(m.args[0], h))
	}
	return mk(X, "nload", m, h)
}

// reify replaces object identities by contents.
func (e *ev) reify(st *State, t *Term) *Term {
	memo := map[*Term]*Term{}
	active := map[*Term]bool{}
	var rec, inner func(t *Term) *Term
	var stack []*Term
	selfs := 0
	// In part of a function what is handed on may be changed later: a new
	// number or sequence is not the same as the one it was made from.
	strip := func(t *Term) *Term { return t }
	if e.marks {
		strip = func(t *Term) *Term {
			if t.op == ITE {
				return mapLeaves(t, func(l *Term) *Term {
					if l.op == X && l.aux == "new" {
						return l.args[0]
					}
					return l
				})
			}
			if t.op == X && t.aux == "new" {
				return t.args[0]
			}
			return t
		}
	}
	inner = func(t *Term) *Term { return strip(rec(t)) }
	// value reifies the content of a number or sequence: a root symbol in it
	// stands for what the root held on entry, not for the root itself.
	var value func(t *Term) *Term
	value = func(t *Term) *Term {
		switch t.op {
		case ITE:
			return rebuild(t, func(a *Term) *Term {
				if a == t.args[0] {
					if a.obj {
						return rebuildAtom(a, inner)
					}
					return a
				}
				return value(a)
			})
		case CAT:
			return rebuild(t, value)
		case POLY:
			if t.obj {
				return rebuild(t, value)
			}
			return t
		case SUB, UPD:
			if t.args[0].obj || len(t.args) > 2 {
				first := true
				return rebuild(t, func(a *Term) *Term {
					if first {
						first = false
						return value(a)
					}
					return rec(a)
				})
			}
			return rec(t)
		case X:
			if strings.HasPrefix(t.aux, "funcref:") || t.obj {
				return inner(t)
			}
			return t
		}
		if !t.obj {
			if _, ok := st.cont[t]; ok && !e.structRoot(t) {
				return t
			}
		}
		return inner(t)
	}
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if active[t] {
			if t.op != OBJ {
				return t
			}
			// an object that is mentioned in its own content
			selfs++
			for i, o := range stack {
				if o == t {
					return mk(X, "self:"+itoa(i))
				}
			}
			panic(tooComplex{"cyclic object graph"})
		}
		before := selfs
		var r *Term
		if e.aliased[t] {
			save := e.aliased
			e.aliased = nil
			r = mk(X, "alias", e.plain(st, t))
			e.aliased = save
			return r
		}
		switch t.op {
		case OBJ:
			c, ok := st.cont[t]
			if !ok {
				r = tBOT
				break
			}
			if e.inLatch && e.varying[t] {
				x := e.plain(st, c)
				r = mk(X, "alias", x)
				break
			}
			active[t] = true
			stack = append(stack, t)
			if e.objs[t].box {
				c = rec(c)
			} else {
				c = value(c)
			}
			active[t] = false
			stack = stack[:len(stack)-1]
			switch {
			case e.objs[t].box:
				r = mkBox(c)
			case e.marks:
				r = mk(X, "new", c)
			default:
				r = c
			}
		case CLO:
			r = e.reifyFunc(st, t)
		case X:
			if strings.HasPrefix(t.aux, "funcref:") {
				r = e.reifyFunc(st, t)
			} else if t.obj {
				r = rebuild(t, inner)
			} else if c, ok := st.cont[t]; ok && !e.structRoot(t) {
				r = c
			} else {
				r = t
			}
		case VIEW:
			r = mkSubseq(inner(t.args[0]), t.args[1], t.args[2])
			if e.marks && t.args[0].op == OBJ {
				r = mk(X, "new", r)
			}
		case IADDR:
			r = mkElem(inner(t.args[0]), t.args[1])
		case FADDR:
			if t.args[0].op == OBJ {
				n, i := selParts(t.aux)
				r = mkBox(mkSel(t.aux[:strings.LastIndex(t.aux, "/")], n, i, inner(e.content(st, t.args[0], ptrTo))))
			} else {
				r = t
			}
		case ITE, TUP, CAT, UNIT, MUPD, MKI, UPD, SUB, ZEROS, BOX, AT:
			if t.op != ITE || true {
				r = rebuild(t, func(a *Term) *Term {
					if t.op == ITE && a == t.args[0] {
						if a.obj {
							return rebuildAtom(a, inner)
						}
						return a
					}
					if t.op == CAT || t.op == SUB || t.op == UPD && a == t.args[0] {
						return inner(a)
					}
					return rec(a)
				})
			}
		default:
			if c, ok := st.cont[t]; ok && !e.structRoot(t) {
				if c == t {
					r = t
				} else {
					active[t] = true
					r = value(c)
					active[t] = false
				}
			} else if t.obj && t.op != ETA && t.op != LAM && t.op != TAB {
				r = rebuild(t, inner)
			} else {
				r = t
			}
		}
		if selfs == before {
			memo[t] = r
		}
		return r
	}
	return rec(t)
}

func rebuildAtom(a *Term, f func(*Term) *Term) *Term { return rebuild(a, f) }

func (e *ev) plain(st *State, c *Term) *Term {
	save := e.inLatch
	e.inLatch = false
	r := e.reify(st, c)
	e.inLatch = save
	return r
}

func (e *ev) structRoot(t *Term) bool {
	_, ok := e.rtype[t]
	return ok
}

func mkBox(c *Term) *Term {
	return lift("box", func(a []*Term) *Term {
		if a[0].op == BOT {
			return tBOT
		}
		return intern(&Term{op: BOX, args: []*Term{a[0]}})
	}, c)
}

// reifyFunc turns a function value into a side-independent term.
func (e *ev) reifyFunc(st *State, t *Term) *Term {
	var fn *ssa.Function
	var fvs []*Term
	if t.op == CLO {
		fn = e.clos[t.aux]
		fvs = t.args
	} else {
		fn = e.clos[t.aux[len("funcref:"):]]
		if fn == nil || fn.Blocks == nil || (e.s.fns[fname(fn)] == fn && e.s.other.sameSig(fn) && !e.inline(fn)) {
			return t
		}
	}
	for _, f := range e.stack {
		if f == fn {
			return mk(X, "selfref:"+fname(fn))
		}
	}
	sub := st.clone()
	w := newSym("w", false)
	sub.world = w
	ps := []*Term{w}
	var args []*Term
	for _, p := range fn.Params {
		s := newSym("a", isUnsigned(p.Type()))
		ps = append(ps, s)
		args = append(args, typed(s, p.Type()))
	}
	save := e.inLatch
	e.inLatch = false
	res, out, pc := e.run(fn, args, fvs, sub)
	body := e.summary(fn, res, out, pc, sub, w)
	e.inLatch = save
	return mkLam(ps, body)
}

// summary describes the outcome of running fn from state before.
func (e *ev) summary(fn *ssa.Function, res []*Term, out *State, pan *Term, before *State, w *Term) *Term {
	rs := make([]*Term, len(res))
	for i, r := range res {
		rs[i] = e.reify(out, r)
	}
	parts := []*Term{mkTup("results", rs...)}
	var eff []*Term
	type kv struct{ k, v *Term }
	var ks []kv
	for h, c := range out.cont {
		if h.op == OBJ {
			if o, ok := before.cont[h]; ok && o != c {
				a, b := e.reify(before, o), e.reify(out, c)
				if a != b {
					ks = append(ks, kv{mk(X, "captured", a), b})
				}
			}
			continue
		}
		if o, ok := before.cont[h]; ok && o == c {
			continue
		}
		v := e.reify(out, c)
		if v == h || v == e.defaultContent(h) {
			continue
		}
		ks = append(ks, kv{h, v})
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].k != ks[j].k {
			return less(ks[i].k, ks[j].k)
		}
		return less(ks[i].v, ks[j].v)
	})
	for _, x := range ks {
		eff = append(eff, mkTup("write", x.k, x.v))
	}
	var hs []string
	for n, v := range out.hv {
		if before.hv[n] != v {
			hs = append(hs, n)
		}
	}
	sort.Strings(hs)
	for _, n := range hs {
		eff = append(eff, mkTup("heap:"+n, e.reify(out, out.hv[n])))
	}
	if out.world != w {
		eff = append(eff, mkTup("world", e.reify(out, out.world)))
	}
	if pan != tFALSE {
		eff = append(eff, mkTup("panics", mkCondTerm(pan)))
	}
	if len(eff) == 0 && len(rs) == 1 {
		return rs[0]
	}
	return mkTup("outcome", append(parts, eff...)...)
}

func mkCondTerm(c *Term) *Term { return c }

func (e *ev) defaultContent(h *Term) *Term {
	if rt, ok := e.rtype[h]; ok {
		return e.content(&State{cont: map[*Term]*Term{}, hv: map[string]*Term{}}, h, types.NewPointer(rt))
	}
	return h
}

// ---- control flow ----

type cfgInfo struct {
	rpo   []*ssa.BasicBlock
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

var cfgCache = map[*ssa.Function]*cfgInfo{}

func cfgOf(f *ssa.Function) *cfgInfo {
	if c, ok := cfgCache[f]; ok {
		return c
	}
	c := &cfgInfo{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		c.num[post[i]] = len(c.rpo)
		c.rpo = append(c.rpo, post[i])
	}
	for _, b := range c.rpo {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := c.loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					c.loops[h] = body
				}
				var work []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[0]
					work = work[1:]
					for _, p := range x.Preds {
						if seen[p] && !body[p] {
							body[p] = true
							work = append(work, p)
						}
					}
				}
			} else if c.num[h] <= c.num[b] {
				panic(tooComplex{"irreducible control flow"})
			}
		}
	}
	cfgCache[f] = c
	return c
}

func merge2(c *Term, a, b *Term) *Term {
	if a == b {
		return a
	}
	return ite(c, a, b)
}

// mergeStates joins the states of several edges.
func (e *ev) mergeStates(es []*edge) (*Term, *State) {
	if len(es) == 1 {
		return es[0].cond, es[0].st.clone()
	}
	pc := tFALSE
	for _, x := range es {
		pc = mkOr(pc, x.cond)
	}
	keys := map[*Term]bool{}
	hk := map[string]bool{}
	for _, x := range es {
		for k := range x.st.cont {
			keys[k] = true
		}
		for k := range x.st.hv {
			hk[k] = true
		}
	}
	st := newState()
	join := func(get func(*State) *Term) *Term {
		v := get(es[0].st)
		same := true
		for _, x := range es[1:] {
			if get(x.st) != v {
				same = false
			}
		}
		if same {
			return v
		}
		r := tBOT
		for i := len(es) - 1; i >= 0; i-- {
			r = ite(es[i].cond, get(es[i].st), r)
		}
		return r
	}
	for k := range keys {
		st.cont[k] = join(func(s *State) *Term {
			if c, ok := s.cont[k]; ok {
				return c
			}
			if k.op == OBJ {
				return tBOT
			}
			if rt, ok := e.rtype[k]; ok {
				return e.content(s, k, types.NewPointer(rt))
			}
			return k
		})
	}
	for k := range hk {
		st.hv[k] = join(func(s *State) *Term {
			if v, ok := s.hv[k]; ok {
				return v
			}
			return tW0
		})
	}
	st.world = join(func(s *State) *Term { return s.world })
	return pc, st
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// run evaluates a function body.
func (e *ev) run(fn *ssa.Function, args, fvs []*Term, st *State) (res []*Term, out *State, panics *Term) {
	if len(e.stack) > 40 {
		panic(tooComplex{"call depth"})
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &frame{e: e, fn: fn, env: map[ssa.Value]*Term{}, fvs: fvs, info: cfgOf(fn)}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(fvs) {
			fr.env[p] = fvs[i]
		}
	}
	entry := &edge{to: fn.Blocks[0], pidx: -1, cond: tTRUE, st: st}
	fr.region(nil, fn.Blocks[0], []*edge{entry})
	panics = tFALSE
	for _, p := range fr.pan {
		panics = mkOr(panics, p.cond)
	}
	n := fn.Signature.Results().Len()
	if len(fr.rets) == 0 {
		res = make([]*Term, n)
		for i := range res {
			res[i] = tBOT
		}
		return res, st, panics
	}
	// normalise error results
	var es []*edge
	for _, r := range fr.rets {
		es = append(es, &edge{cond: r.cond, st: r.st})
	}
	_, out = e.mergeStates(es)
	for i := 0; i < n; i++ {
		v := fr.rets[0].vals[i]
		same := true
		for _, r := range fr.rets[1:] {
			if r.vals[i] != v {
				same = false
			}
		}
		if !same {
			v = tBOT
			for k := len(fr.rets) - 1; k >= 0; k-- {
				v = ite(fr.rets[k].cond, fr.rets[k].vals[i], v)
			}
		}
		res = append(res, v)
	}
	return res, out, panics
}

// region evaluates the blocks of a loop body (or of the whole function if
// body is nil) and returns the back edges and the edges that leave it.
func (fr *frame) region(body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, entry []*edge) (latches, exits []*edge) {
	e := fr.e
	in := map[*ssa.BasicBlock][]*edge{header: entry}
	deliver := func(x *edge) {
		if x.cond == tFALSE || x.cond == tBOT {
			return
		}
		switch {
		case x.to == nil:
			if body == nil {
				fr.pan = append(fr.pan, pan{x.cond})
			} else {
				exits = append(exits, x)
			}
		case x.to == header && body != nil:
			latches = append(latches, x)
		case body != nil && !body[x.to]:
			exits = append(exits, x)
		default:
			in[x.to] = append(in[x.to], x)
		}
	}
	for _, b := range fr.info.rpo {
		if body != nil && !body[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		if lb := fr.info.loops[b]; lb != nil && b != header || lb != nil && body == nil {
			for _, x := range fr.loop(b, lb, es) {
				deliver(x)
			}
			continue
		}
		pc, st := e.mergeStates(es)
		// phis
		vals := map[*ssa.Phi]*Term{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if b == header && body != nil {
				continue
			}
			vals[phi] = fr.phiValue(phi, es)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
		fr.pc = pc
		for _, x := range fr.block(b, st) {
			deliver(x)
		}
	}
	return latches, exits
}

func (fr *frame) phiValue(phi *ssa.Phi, es []*edge) *Term {
	v := fr.val(phi.Edges[es[0].pidx], es[0].st)
	same := true
	for _, x := range es[1:] {
		if fr.val(phi.Edges[x.pidx], x.st) != v {
			same = false
		}
	}
	if same {
		return v
	}
	r := tBOT
	for i := len(es) - 1; i >= 0; i-- {
		r = ite(es[i].cond, fr.val(phi.Edges[es[i].pidx], es[i].st), r)
	}
	return r
}

// block executes the instructions of b and returns the outgoing edges.
func (fr *frame) block(b *ssa.BasicBlock, st *State) []*edge {
	e := fr.e
	var out []*edge
	flush := func() {
		out = append(out, fr.extra...)
		fr.extra = nil
	}
	for _, ins := range b.Instrs {
		e.steps++
		spend(1)
		if fr.pc == tFALSE {
			flush()
			return out
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			flush()
			c := fr.val(ins.Cond, st)
			t := mkAnd(fr.pc, c)
			f := mkAnd(fr.pc, mkNot(c))
			s0, s1 := b.Succs[0], b.Succs[1]
			i0 := predIndex(b, s0)
			i1 := predIndex(b, s1)
			if s0 == s1 {
				for i, p := range s1.Preds {
					if p == b {
						i1 = i
					}
				}
			}
			out = append(out, &edge{from: b, to: s0, pidx: i0, cond: t, st: st.clone()})
			out = append(out, &edge{from: b, to: s1, pidx: i1, cond: f, st: st})
			return out
		case *ssa.Jump:
			flush()
			out = append(out, &edge{from: b, to: b.Succs[0], pidx: predIndex(b, b.Succs[0]), cond: fr.pc, st: st})
			return out
		case *ssa.Return:
			flush()
			r := ret{cond: fr.pc, st: st}
			for _, v := range ins.Results {
				r.vals = append(r.vals, fr.val(v, st))
			}
			fr.normErr(&r)
			fr.rets = append(fr.rets, r)
			return out
		case *ssa.Panic:
			flush()
			out = append(out, &edge{from: b, cond: fr.pc, st: st})
			return out
		default:
			fr.exec(ins, st)
			if v, ok := ins.(ssa.Value); ok {
				e.notePos(fr.env[v], ins.Pos())
			}
		}
	}
	flush()
	return out
}

// normErr abstracts errors and the results that accompany them.
func (fr *frame) normErr(r *ret) {
	sig := fr.fn.Signature.Results()
	n := sig.Len()
	if n == 0 || !isError(sig.At(n-1).Type()) {
		return
	}
	ev := fr.e.reify(r.st, r.vals[n-1])
	ev = ite(r.cond, mapLeaves(ev, func(l *Term) *Term {
		switch l.op {
		case NIL, ERR, BOT:
			return l
		case DC, PANIC:
			return l
		}
		return ite(mkIsNil(l), tNIL, tERR)
	}), tBOT)
	r.vals[n-1] = ev
	ok := mapLeaves(ev, func(l *Term) *Term {
		if l == tBOT {
			return l
		}
		return mkBool(l != tERR)
	})
	if len(without(leavesOf(ok), []*Term{tTRUE, tBOT})) == 0 {
		return
	}
	for i := 0; i < n-1; i++ {
		r.vals[i] = ite(ok, r.vals[i], tDC)
	}
}

// ---- loops ----

type shape struct {
	all    bool
	fields map[int]*shape
}

func (s *shape) add(path []int) bool {
	if s.all {
		return false
	}
	if len(path) == 0 {
		s.all = true
		return true
	}
	if s.fields == nil {
		s.fields = map[int]*shape{}
	}
	f := s.fields[path[0]]
	if f == nil {
		f = &shape{}
		s.fields[path[0]] = f
	}
	return f.add(path[1:])
}

type loopVars struct {
	cont  map[*Term]*shape
	hv    map[string]bool
	world bool
}

type slot struct {
	u   *mu
	get func(st *State) *Term
}

// expandStruct exposes the fields of an opaque struct.
func (e *ev) expandStruct(h, c *Term) *Term {
	if c.op == TUP {
		return c
	}
	rt, ok := e.rtype[h]
	if !ok {
		return c
	}
	return expandType(c, rt)
}

func expandType(c *Term, t types.Type) *Term {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || isBigInt(t) || c.op == TUP || c.op == ITE {
		return c
	}
	n := s.NumFields()
	fs := make([]*Term, n)
	for i := range fs {
		fs[i] = mkSel(structName(t), n, i, c)
	}
	// avoid the eta rule of mkTup
	return intern(&Term{op: TUP, aux: structName(t), args: fs})
}

// loop evaluates a natural loop.
func (fr *frame) loop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []*edge) []*edge {
	e := fr.e
	if out, ok := fr.unroll(h, body, entry); ok {
		return out
	}
	pc0, st0 := e.mergeStates(entry)
	if pc0 == tFALSE {
		return nil
	}
	var phis []*ssa.Phi
	inits := map[*ssa.Phi]*Term{}
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		inits[phi] = fr.phiValue(phi, entry)
	}
	V := &loopVars{cont: map[*Term]*shape{}, hv: map[string]bool{}}
	savedPan := len(fr.pan)
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(tooComplex{"loop does not stabilise"})
		}
		l := newLoop()
		var slots []slot
		st := st0.clone()
		// expand changed contents
		e.loops = append(e.loops, l)
		ownedPhi := map[*ssa.Phi]bool{}
		for _, phi := range phis {
			s := newSym("m", isUnsigned(phi.Type()))
			if isRef(phi.Type()) && e.ownedAll(inits[phi]) {
				e.owned[s] = true
				ownedPhi[phi] = true
			}
			if boxed(phi.Type()) {
				e.rtype[s] = pointee(phi.Type())
			}
			fr.env[phi] = typed(s, phi.Type())
			l.mus = append(l.mus, &mu{sym: s, init: e.reify(st0, inits[phi])})
		}
		var keys []*Term
		for k := range V.cont {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
		for _, k := range keys {
			c0, ok := st0.cont[k]
			if !ok {
				c0 = e.defaultContentIn(st0, k)
			}
			var build func(c *Term, sh *shape, path []int) *Term
			build = func(c *Term, sh *shape, path []int) *Term {
				if sh.all {
					s := newSym("m", false)
					init := e.reify(st0, c)
					if e.ownedAll(c) {
						e.owned[s] = true
					}
					u := &mu{sym: s, init: init}
					p := append([]int{}, path...)
					kk := k
					slots = append(slots, slot{u, func(st *State) *Term { return pathGet(e.contentOf(st, kk), p) }})
					l.mus = append(l.mus, u)
					if init.op == BOOLC || isBoolDiagram(init) {
						return asCond(s)
					}
					return s
				}
				n := len(c.args)
				fs := make([]*Term, n)
				for i := range fs {
					if f := sh.fields[i]; f != nil {
						fs[i] = build(c.args[i], f, append(path, i))
					} else {
						fs[i] = c.args[i]
					}
				}
				return mkTup(c.aux, fs...)
			}
			sh := V.cont[k]
			ce := c0
			if !sh.all {
				ce = e.expandStruct(k, c0)
				if ce.op != TUP {
					sh = &shape{all: true}
				}
			}
			st.cont[k] = build(ce, sh, nil)
		}
		var hvs []string
		for k := range V.hv {
			hvs = append(hvs, k)
		}
		sort.Strings(hvs)
		for _, k := range hvs {
			s := newSym("h", false)
			init := tW0
			if v, ok := st0.hv[k]; ok {
				init = v
			}
			u := &mu{sym: s, init: init}
			kk := k
			slots = append(slots, slot{u, func(st *State) *Term { return hvOf(st, kk) }})
			l.mus = append(l.mus, u)
			st.hv[k] = s
		}
		if V.world {
			s := newSym("w", false)
			u := &mu{sym: s, init: e.reify(st0, st0.world)}
			slots = append(slots, slot{u, func(st *State) *Term { return st.world }})
			l.mus = append(l.mus, u)
			st.world = s
		}
		header := st.clone()
		latches, exits := fr.region(body, h, []*edge{{to: h, cond: tTRUE, st: st}})
		// writes through references that change with the iteration
		for _, x := range latches {
			e.flushVarying(l, x.st)
		}
		e.loops = e.loops[:len(e.loops)-1]
		// discover more loop variables
		grew := false
		for _, x := range latches {
			for k, c := range x.st.cont {
				if k.op == OBJ && e.objs[k].loop == l {
					continue
				}
				if l.hasSym(k) {
					continue
				}
				hc, ok := header.cont[k]
				if !ok {
					if k.op == OBJ {
						continue
					}
					hc = e.defaultContentIn(header, k)
				}
				if hc == c {
					continue
				}
				sh := V.cont[k]
				if sh == nil {
					sh = &shape{}
					V.cont[k] = sh
				}
				if diffShape(e.expandStruct(k, hc), e.expandStruct(k, c), nil, sh, header, x.st, e) {
					grew = true
				}
			}
			for k, v := range x.st.hv {
				if hvOf(header, k) != v && !V.hv[k] {
					V.hv[k] = true
					grew = true
				}
			}
			if x.st.world != header.world && !V.world {
				V.world = true
				grew = true
			}
		}
		if grew {
			fr.pan = fr.pan[:savedPan]
			continue
		}
		// ownership of phis must be inductive; retry without if not
		bad := false
		for _, phi := range phis {
			if !ownedPhi[phi] {
				continue
			}
			for _, x := range latches {
				if !e.ownedAll(fr.val(phi.Edges[x.pidx], x.st)) {
					ownedPhi[phi] = false
					bad = true
				}
			}
		}
		if bad {
			for i, phi := range phis {
				if !ownedPhi[phi] {
					delete(e.owned, l.mus[i].sym)
				}
			}
		}
		// close the loop
		C := tFALSE
		for _, x := range latches {
			C = mkOr(C, x.cond)
		}
		next := func(get func(x *edge) *Term) *Term {
			if len(latches) == 1 {
				return get(latches[0])
			}
			r := tBOT
			for i := len(latches) - 1; i >= 0; i-- {
				r = ite(latches[i].cond, get(latches[i]), r)
			}
			return r
		}
		e.varying = map[*Term]bool{}
		for k := range V.cont {
			if k.op == OBJ {
				e.varying[k] = true
			}
		}
		prevLatch := e.inLatch
		e.inLatch = true
		// the references that each loop variable hands on and whose target
		// is changed in the next round
		handed := map[*mu]map[*Term]bool{}
		hand := func(u *mu, get func(x *edge) *Term) {
			changed := false
			for _, x := range latches {
				if c, ok := x.st.cont[u.sym]; ok && c != u.sym {
					changed = true
				}
			}
			if !changed {
				return
			}
			set := map[*Term]bool{}
			for _, x := range latches {
				mapLeaves(get(x), func(t *Term) *Term {
					if t.op == OBJ || x.st.cont[t] != nil {
						set[t] = true
					}
					return t
				})
			}
			if len(set) > 0 {
				handed[u] = set
			}
		}
		for i, phi := range phis {
			phi := phi
			if isRef(phi.Type()) {
				hand(l.mus[i], func(x *edge) *Term { return fr.val(phi.Edges[x.pidx], x.st) })
			}
		}
		for _, s := range slots {
			s := s
			hand(s.u, func(x *edge) *Term { return s.get(x.st) })
		}
		others := func(u *mu) map[*Term]bool {
			var r map[*Term]bool
			for v, set := range handed {
				if v == u {
					continue
				}
				for t := range set {
					if r == nil {
						r = map[*Term]bool{}
					}
					r[t] = true
				}
			}
			return r
		}
		prevAliased := e.aliased
		for i, phi := range phis {
			phi := phi
			e.aliased = others(l.mus[i])
			l.mus[i].next = next(func(x *edge) *Term { return e.reify(x.st, fr.val(phi.Edges[x.pidx], x.st)) })
		}
		for _, s := range slots {
			s := s
			e.aliased = others(s.u)
			s.u.next = next(func(x *edge) *Term { return e.reify(x.st, s.get(x.st)) })
		}
		// what a loop variable holds at first and the loop changes by another
		// name
		for i, phi := range phis {
			e.aliased = nil
			for k := range V.cont {
				if k.op == OBJ {
					if e.aliased == nil {
						e.aliased = map[*Term]bool{}
					}
					e.aliased[k] = true
				}
			}
			for j, phj := range phis {
				if i == j || handed[l.mus[j]] == nil {
					continue
				}
				mapLeaves(inits[phj], func(t *Term) *Term {
					if t.op == OBJ {
						if e.aliased == nil {
							e.aliased = map[*Term]bool{}
						}
						e.aliased[t] = true
					}
					return t
				})
			}
			if e.aliased != nil {
				l.mus[i].init = e.reify(st0, inits[phi])
			}
		}
		e.aliased = prevAliased
		e.inLatch = prevLatch
		l.C = C
		if C == tFALSE {
			for _, u := range l.mus {
				u.next = u.sym
			}
		}
		symOf := map[*ssa.Phi]*Term{}
		for i, phi := range phis {
			symOf[phi] = l.mus[i].sym
		}
		l.solve()
		// values used after the loop
		newPhi := map[*ssa.Phi]*Term{}
		for _, phi := range phis {
			if ownedPhi[phi] && usedOutside(phi, body) {
				if !boxed(phi.Type()) {
					newPhi[phi] = e.newObj(false)
				}
			}
		}
		var out []*edge
		for _, x := range exits {
			y := &edge{from: x.from, to: x.to, pidx: x.pidx, cond: mkAnd(pc0, l.exitOf(x.cond)), st: newState()}
			if y.cond == tFALSE {
				continue
			}
			for phi, o := range newPhi {
				y.st.cont[o] = l.exitOf(e.content(x.st, symOf[phi], phi.Type()))
			}
			for k, c := range x.st.cont {
				kk := k
				if k.op != OBJ {
					kk = l.exitOf(k)
					if rt, ok := e.rtype[k]; ok {
						e.rtype[kk] = rt
					}
				}
				y.st.cont[kk] = l.exitOf(c)
			}
			for k, v := range x.st.hv {
				y.st.hv[k] = l.exitOf(v)
			}
			y.st.world = l.exitOf(x.st.world)
			out = append(out, y)
		}
		for b := range body {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || fr.env[v] == nil || !usedOutside(v, body) {
					continue
				}
				if phi, ok := v.(*ssa.Phi); ok && newPhi[phi] != nil {
					fr.env[v] = newPhi[phi]
					continue
				}
				old := fr.env[v]
				fr.env[v] = l.exitOf(old)
				if rt, ok := e.rtype[old]; ok {
					e.rtype[fr.env[v]] = rt
				}
			}
		}
		return out
	}
}

func isBoolDiagram(t *Term) bool {
	if t.op != ITE {
		return false
	}
	for _, l := range leavesOf(t) {
		if l.op != BOOLC && l.op != BOT {
			return false
		}
	}
	return true
}

func hvOf(st *State, k string) *Term {
	if v, ok := st.hv[k]; ok {
		return v
	}
	return tW0
}

func usedOutside(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if !body[r.Block()] {
			return true
		}
	}
	return false
}

func pathGet(c *Term, p []int) *Term {
	for _, i := range p {
		if c.op == TUP {
			c = c.args[i]
			continue
		}
		i := i
		c = mapLeaves(c, func(l *Term) *Term {
			switch l.op {
			case TUP:
				return l.args[i]
			case BOT, DC, PANIC:
				return l
			}
			return intern(&Term{op: SEL, aux: "?/0." + itoa(i), args: []*Term{l}})
		})
	}
	return c
}

func (e *ev) contentOf(st *State, k *Term) *Term {
	c, ok := st.cont[k]
	if !ok {
		c = e.defaultContentIn(st, k)
	}
	if rt, ok := e.rtype[k]; ok && c.op != TUP {
		if c.op == ITE {
			return mapLeaves(c, func(l *Term) *Term { return expandType(l, rt) })
		}
		return expandType(c, rt)
	}
	return c
}

func (e *ev) defaultContentIn(st *State, k *Term) *Term {
	if rt, ok := e.rtype[k]; ok {
		return e.content(&State{cont: map[*Term]*Term{}, hv: st.hv}, k, types.NewPointer(rt))
	}
	return k
}

// diffShape records which parts of a content changed.
func diffShape(a, b *Term, path []int, sh *shape, sa, sb *State, e *ev) bool {
	if a == b {
		return false
	}
	if a.op == TUP && b.op == TUP && len(a.args) == len(b.args) {
		grew := false
		for i := range a.args {
			if diffShape(a.args[i], b.args[i], append(append([]int{}, path...), i), sh, sa, sb, e) {
				grew = true
			}
		}
		return grew
	}
	if a.op == TUP && b.op == ITE {
		// field-wise comparison of merged structs
		grew := false
		for i := range a.args {
			bi := pathGet(b, []int{i})
			if diffShape(a.args[i], bi, append(append([]int{}, path...), i), sh, sa, sb, e) {
				grew = true
			}
		}
		return grew
	}
	return sh.add(path)
}

func (l *loopSys) hasSym(t *Term) bool {
	if t.dependsOn(l.T) {
		return true
	}
	for _, u := range l.mus {
		if t.dependsOn(u.sym) {
			return true
		}
	}
	return false
}

// flushVarying turns writes through loop-dependent references into heap
// events.
func (e *ev) flushVarying(l *loopSys, st *State) {
	var ks []*Term
	for k := range st.cont {
		if k.op != OBJ && l.hasSym(k) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	type wr struct{ k, v *Term }
	by := map[string][]wr{}
	for _, k := range ks {
		c := st.cont[k]
		isMu := false
		for _, u := range l.mus {
			if u.sym == k {
				isMu = true
			}
		}
		if isMu && !e.structRoot(k) {
			// content travels with the loop variable itself
			continue
		}
		if c == e.defaultContentIn(st, k) || c == k {
			delete(st.cont, k)
			continue
		}
		for _, u := range l.mus {
			if k.dependsOn(u.sym) && hasBox(u.init) {
				panic(tooComplex{"write through a pointer to a copied object"})
			}
		}
		name := "value"
		if rt, ok := e.rtype[k]; ok {
			name = typeName(rt)
		}
		by[name] = append(by[name], wr{k, e.reify(st, c)})
	}
	var names []string
	for n := range by {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := hvOf(st, n)
		for _, w := range by[n] {
			v = mk(EFF, "write:"+n, v, w.k, w.v)
			delete(st.cont, w.k)
		}
		st.hv[n] = v
	}
}

// hasBox reports whether a value contains a pointer to a copied object.
func hasBox(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == BOX || t.op == OBJ {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (e *ev) ownedAll(t *Term) bool {
	for _, l := range leavesOf(t) {
		switch l.op {
		case OBJ, NIL, BOT:
		case CAT:
			if len(l.args) != 0 {
				return false
			}
		case VIEW:
			if !e.ownedAll(l.args[0]) {
				return false
			}
		default:
			if !e.owned[l] {
				return false
			}
		}
	}
	return true
}

// ---- instructions ----

func (fr *frame) val(v ssa.Value, st *State) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		t := leaf(X, "global:"+fnameGlobal(v))
		fr.e.rtype[t] = pointee(v.Type())
		return t
	case *ssa.Function:
		return fr.e.funcTerm(v)
	case *ssa.Builtin:
		return leaf(X, "builtin:"+v.Name())
	}
	t, ok := fr.env[v]
	if !ok {
		return tBOT
	}
	return t
}

func (e *ev) funcTerm(f *ssa.Function) *Term {
	n := fname(f)
	e.clos[n] = f
	return leaf(X, "funcref:"+n)
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return mkStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		r := new(big.Rat)
		if _, ok := r.SetString(c.Value.ExactString()); ok {
			return mkRat(r)
		}
	}
	return mk(X, "const:"+c.Value.ExactString())
}

// notePos remembers where a value was computed.
func (e *ev) notePos(t *Term, p token.Pos) {
	if t == nil || !p.IsValid() || len(t.args) == 0 && t.op != POLY {
		return
	}
	if t.op == ITE {
		if t.args[1].op == BOOLC && t.args[2].op == BOOLC {
			t = t.args[0]
		} else {
			return
		}
	}
	if _, ok := e.posOf[t]; !ok {
		e.posOf[t] = p
	}
}

func (fr *frame) set(v ssa.Value, t *Term) { fr.env[v] = t }

func (fr *frame) exec(ins ssa.Instruction, st *State) {
	e := fr.e
	fr.guards(ins, st)
	fr.lossy(ins, st)
	switch ins := ins.(type) {
	case *ssa.Alloc:
		el := pointee(ins.Type())
		_, arr := el.Underlying().(*types.Array)
		box := !isBigInt(el) && !arr
		o := e.fresh(st, box, zero(el))
		if box {
			e.rtype[o] = el
		}
		fr.set(ins, o)
	case *ssa.BinOp:
		fr.set(ins, e.binop(ins.Op, fr.val(ins.X, st), fr.val(ins.Y, st), ins.X.Type(), ins.Y.Type(), st))
	case *ssa.UnOp:
		x := fr.val(ins.X, st)
		switch ins.Op {
		case token.MUL:
			fr.set(ins, typed(e.content(st, x, ins.X.Type()), ins.Type()))
		case token.NOT:
			fr.set(ins, mkNot(x))
		case token.SUB:
			if isFloat(ins.X.Type()) {
				fr.set(ins, mk(X, "fneg", x))
			} else {
				fr.set(ins, mkNeg(x))
			}
		case token.XOR:
			fr.set(ins, addInt(mkNeg(x), -1))
		case token.ARROW:
			r := mk(X, "recv", st.world, e.arg(st, x, ins.X.Type()))
			st.world = mk(EFF, "recv", st.world, e.arg(st, x, ins.X.Type()))
			if ins.CommaOk {
				r = mkTup("tuple", mkSel("tuple", 2, 0, r), ite(mkSel("tuple", 2, 1, r), tTRUE, tFALSE))
			}
			fr.set(ins, r)
		}
	case *ssa.Call:
		fr.set(ins, fr.call(&ins.Call, ins, st))
	case *ssa.ChangeInterface:
		fr.set(ins, fr.val(ins.X, st))
	case *ssa.ChangeType:
		fr.set(ins, fr.val(ins.X, st))
	case *ssa.Convert:
		fr.set(ins, e.convert(fr.val(ins.X, st), ins.X.Type(), ins.Type(), st))
	case *ssa.Defer:
		d := deferred{pc: fr.pc, call: &ins.Call, in: ins}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, fr.val(a, st))
		}
		d.fn = fr.val(ins.Call.Value, st)
		fr.defs = append(fr.defs, d)
	case *ssa.Extract:
		n := ins.Tuple.Type().(*types.Tuple).Len()
		fr.set(ins, typed(mkSel("tuple", n, ins.Index, fr.val(ins.Tuple, st)), ins.Type()))
	case *ssa.Field:
		s := ins.X.Type().Underlying().(*types.Struct)
		fr.set(ins, typed(mkSel(structName(ins.X.Type()), s.NumFields(), fieldPos(s, ins.Field), fr.val(ins.X, st)), ins.Type()))
	case *ssa.FieldAddr:
		s := pointee(ins.X.Type())
		us := s.Underlying().(*types.Struct)
		n := us.NumFields()
		x := fr.val(ins.X, st)
		e.noteRoot(x, s)
		fr.set(ins, mk(FADDR, structName(s)+"/"+itoa(n)+"."+itoa(fieldPos(us, ins.Field)), x))
	case *ssa.Go:
		st.world = mk(EFF, "go", append([]*Term{st.world}, fr.callArgs(&ins.Call, st)...)...)
	case *ssa.Index:
		x := fr.val(ins.X, st)
		fr.set(ins, typed(mkElem(x, fr.val(ins.Index, st)), ins.Type()))
	case *ssa.IndexAddr:
		x := fr.val(ins.X, st)
		switch x.op {
		case CAT, UPD, SUB, UNIT, TAB, ZEROS, ETA:
			// a write goes to the variable the sequence is kept in
			if a := keptIn(ins); a != nil {
				x = fr.val(a, st)
			}
		}
		fr.set(ins, mk(IADDR, "", viewBase(x, fr.val(ins.Index, st))...))
	case *ssa.Lookup:
		x := fr.val(ins.X, st)
		k := fr.val(ins.Index, st)
		if isString(ins.X.Type()) {
			fr.set(ins, typed(mkElem(x, k), ins.Type()))
			return
		}
		m := e.content(st, x, ins.X.Type())
		k = e.reify(st, k)
		mt := ins.X.Type().Underlying().(*types.Map)
		g := mkMapGet(m, k, zero(mt.Elem()))
		if boxed(mt.Elem()) {
			e.noteRoot(g, pointee(mt.Elem()))
		}
		if ins.CommaOk {
			fr.set(ins, mkTup("tuple", typed(g, mt.Elem()), mkMapHas(m, k)))
		} else {
			fr.set(ins, typed(g, ins.Type()))
		}
	case *ssa.MakeChan:
		o := e.newObj(false)
		st.cont[o] = mk(X, "chan", fr.val(ins.Size, st))
		fr.set(ins, o)
	case *ssa.MakeClosure:
		f := ins.Fn.(*ssa.Function)
		n := fname(f)
		e.clos[n] = f
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, fr.val(b, st))
		}
		if strings.Contains(f.Synthetic, "bound method") {
			fr.set(ins, mk(CLO, n, bs...))
		} else {
			fr.set(ins, mk(CLO, n, bs...))
		}
	case *ssa.MakeInterface:
		x := fr.val(ins.X, st)
		if isError(ins.Type()) {
			fr.set(ins, tERR)
			return
		}
		fr.set(ins, mk(MKI, typeName(ins.X.Type()), x))
	case *ssa.MakeMap:
		fr.set(ins, e.fresh(st, false, leaf(MNEW, "")))
	case *ssa.MakeSlice:
		n := fr.val(ins.Len, st)
		el := ins.Type().Underlying().(*types.Slice).Elem()
		fr.set(ins, e.fresh(st, false, mkZeros(n, zero(el))))
	case *ssa.MapUpdate:
		m := fr.val(ins.Map, st)
		k := e.reify(st, fr.val(ins.Key, st))
		v := fr.val(ins.Value, st)
		e.setContent(st, m, ins.Map.Type(), mkMapUpd(e.content(st, m, ins.Map.Type()), k, v))
	case *ssa.Next:
		fr.next(ins, st)
	case *ssa.Range:
		o := e.newObj(false)
		x := fr.val(ins.X, st)
		if !isString(ins.X.Type()) {
			x = e.content(st, x, ins.X.Type())
		}
		st.cont[o] = intern(&Term{op: TUP, aux: "iter", args: []*Term{tZERO, x}})
		fr.set(ins, o)
	case *ssa.RunDefers:
		for i := len(fr.defs) - 1; i >= 0; i-- {
			d := fr.defs[i]
			if mkAnd(fr.pc, mkNot(d.pc)) != tFALSE {
				if mkAnd(fr.pc, d.pc) == tFALSE {
					continue
				}
				panic(tooComplex{"conditional defer"})
			}
			fr.callWith(d.call, d.fn, d.args, d.in, st)
		}
	case *ssa.Select:
		panic(tooComplex{"select statement"})
	case *ssa.Send:
		st.world = mk(EFF, "send", st.world, e.arg(st, fr.val(ins.Chan, st), ins.Chan.Type()), e.arg(st, fr.val(ins.X, st), ins.X.Type()))
	case *ssa.Slice:
		fr.set(ins, fr.slice(ins, st))
	case *ssa.Store:
		e.noteRootOf(fr.val(ins.Addr, st), ins.Addr.Type())
		e.setContent(st, fr.val(ins.Addr, st), ins.Addr.Type(), fr.val(ins.Val, st))
	case *ssa.TypeAssert:
		x := fr.val(ins.X, st)
		iface := types.IsInterface(ins.AssertedType)
		tn := typeName(ins.AssertedType)
		ok := mkIsType(tn, iface, nil, x)
		z := zero(ins.AssertedType)
		v := mkAssert(tn, iface, z, x)
		if boxed(ins.AssertedType) {
			e.noteRoot(v, pointee(ins.AssertedType))
		}
		if ins.CommaOk {
			fr.set(ins, mkTup("tuple", typed(ite(ok, v, z), ins.AssertedType), ok))
		} else {
			fr.set(ins, typed(v, ins.AssertedType))
		}
	default:
		panic(tooComplex{fmt.Sprintf("instruction %T", ins)})
	}
}

// viewBase simplifies element addresses of views.
func viewBase(x, i *Term) []*Term {
	if x.op == VIEW {
		return []*Term{x.args[0], mkAdd(x.args[1], i)}
	}
	return []*Term{x, i}
}

func (e *ev) noteRoot(x *Term, t types.Type) {
	for _, l := range leavesOf(x) {
		switch l.op {
		case OBJ, NIL, BOT, DC, PANIC, FADDR, IADDR:
			continue
		}
		if _, ok := e.rtype[l]; !ok && !isBigInt(t) {
			e.rtype[l] = t
		}
	}
}

func (e *ev) noteRootOf(x *Term, t types.Type) {
	if p := pointee(t); p != nil {
		e.noteRoot(x, p)
	}
}

func mkZeros(n, z *Term) *Term {
	return lift("zeros", func(a []*Term) *Term {
		if a[0] == tZERO {
			return tEMPTY
		}
		if k, ok := isIntConst(a[0]); ok && k > 0 && k <= 8 {
			var ps []*Term
			for i := int64(0); i < k; i++ {
				ps = append(ps, mkUnit(a[1]))
			}
			return mkCat(ps...)
		}
		return intern(&Term{op: ZEROS, args: []*Term{a[0], a[1]}})
	}, n, z)
}

func (fr *frame) next(ins *ssa.Next, st *State) {
	e := fr.e
	it := fr.val(ins.Iter, st)
	c := st.cont[it]
	if c == nil || c.op != TUP {
		panic(tooComplex{"iterator"})
	}
	pos, x := c.args[0], c.args[1]
	if ins.IsString {
		ok := mkLE0(addInt(mkSub2(pos, mkLen(x)), 1))
		r := mk(X, "rune", x, pos)
		fr.set(ins, mkTup("tuple", ok, pos, r))
		rl := mk(X, "runelen", x, pos)
		st.cont[it] = intern(&Term{op: TUP, aux: "iter", args: []*Term{mkAdd(pos, rl), x}})
		return
	}
	x = e.reify(st, x)
	n := mkMapLen(x)
	ok := mkLE0(addInt(mkSub2(pos, n), 1))
	k := mk(X, "mapkey", x, pos)
	rt := fr.fn
	_ = rt
	mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	v := mkMapGet(x, k, zero(mt.Elem()))
	fr.set(ins, mkTup("tuple", ok, typed(k, mt.Key()), typed(v, mt.Elem())))
	st.cont[it] = intern(&Term{op: TUP, aux: "iter", args: []*Term{addInt(pos, 1), x}})
}

func mkMapLen(m *Term) *Term {
	return lift("maplen", func(a []*Term) *Term {
		switch a[0].op {
		case MNEW, NIL:
			return tZERO
		}
		return intern(&Term{op: X, aux: "maplen", args: []*Term{a[0]}})
	}, m)
}

func (fr *frame) slice(ins *ssa.Slice, st *State) *Term {
	e := fr.e
	x := fr.val(ins.X, st)
	if isString(ins.X.Type()) {
		lo, hi := tZERO, mkLen(x)
		if ins.Low != nil {
			lo = fr.val(ins.Low, st)
		}
		if ins.High != nil {
			hi = fr.val(ins.High, st)
		}
		return mkSubseq(x, lo, hi)
	}
	if ins.Low == nil && ins.High == nil {
		return x
	}
	return lift2(x, func(x *Term) *Term {
		c := e.content(st, x, sliceOf)
		lo, hi := tZERO, mkLen(c)
		if ins.Low != nil {
			lo = fr.val(ins.Low, st)
		}
		if ins.High != nil {
			hi = fr.val(ins.High, st)
		}
		if lo == tZERO && hi == mkLen(c) {
			return x
		}
		base := x
		if x.op == VIEW {
			lo = mkAdd(x.args[1], lo)
			hi = mkAdd(x.args[1], hi)
			base = x.args[0]
		}
		switch base.op {
		case NIL, BOT, DC, PANIC:
			return base
		}
		return mk(VIEW, "", base, lo, hi)
	})
}

func lift2(x *Term, f func(*Term) *Term) *Term { return mapLeaves(x, f) }

func (e *ev) convert(x *Term, from, to types.Type, st *State) *Term {
	switch {
	case isString(to) && isString(from):
		return x
	case isString(to):
		if _, ok := from.Underlying().(*types.Slice); ok {
			return e.reify(st, e.content(st, x, from))
		}
		return mk(X, "runestr", x)
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.fresh(st, false, x)
			}
			return e.fresh(st, false, mk(X, "runes", x))
		}
	case isInteger(from) && isInteger(to):
		if width(to) < width(from) || width(to) < 64 && isUnsigned(from) != isUnsigned(to) {
			if c, ok := isIntConst(x); ok && c >= 0 && c < 128 {
				return x
			}
			return mk(X, "conv:"+types.TypeString(to.Underlying(), nil), x)
		}
		return x
	case isInteger(from) && isFloat(to):
		return mk(X, "float", x)
	case isFloat(from) && isInteger(to):
		return mk(X, "trunc", x)
	}
	return x
}

func width(t types.Type) int {
	b := t.Underlying().(*types.Basic)
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (e *ev) binop(op token.Token, x, y *Term, t, ty types.Type, st *State) *Term {
	switch {
	case isString(t):
		switch op {
		case token.ADD:
			return mkStrCat(x, y)
		case token.EQL:
			return mkEq(x, y)
		case token.NEQ:
			return mkNot(mkEq(x, y))
		case token.LSS:
			return asCond(mk(X, "strlt", x, y))
		case token.GTR:
			return asCond(mk(X, "strlt", y, x))
		case token.LEQ:
			return mkNot(asCond(mk(X, "strlt", y, x)))
		case token.GEQ:
			return mkNot(asCond(mk(X, "strlt", x, y)))
		}
	case isFloat(t):
		switch op {
		case token.ADD:
			return mkFComm("fadd", x, y)
		case token.MUL:
			return mkFComm("fmul", x, y)
		case token.SUB:
			return mk(X, "fsub", x, y)
		case token.QUO:
			return mk(X, "fdiv", x, y)
		case token.LSS:
			return condOfX("flt", x, y)
		case token.GTR:
			return condOfX("flt", y, x)
		case token.LEQ:
			return condOfX("fle", x, y)
		case token.GEQ:
			return condOfX("fle", y, x)
		case token.EQL:
			return condOfX("feq", x, y)
		case token.NEQ:
			return mkNot(condOfX("feq", x, y))
		}
	case isInteger(t):
		switch op {
		case token.ADD:
			return mkAdd(x, y)
		case token.SUB:
			return mkSub2(x, y)
		case token.MUL:
			return mkMul(x, y)
		case token.QUO:
			return intQuo(x, y, isUnsigned(t))
		case token.REM:
			return mkSub2(x, mkMul(y, intQuo(x, y, isUnsigned(t))))
		case token.SHL:
			return mkMul(x, mkP2(y))
		case token.SHR:
			return mkFDiv(x, mkP2(y))
		case token.AND:
			return mkAndBits(x, y)
		case token.OR:
			return mkOrBits(x, y)
		case token.XOR:
			return mkXorBits(x, y)
		case token.AND_NOT:
			return mkSub2(x, mkAndBits(x, y))
		case token.LSS:
			return mkLE0(addInt(mkSub2(x, y), 1))
		case token.LEQ:
			return mkLE0(mkSub2(x, y))
		case token.GTR:
			return mkLE0(addInt(mkSub2(y, x), 1))
		case token.GEQ:
			return mkLE0(mkSub2(y, x))
		case token.EQL, token.NEQ:
			c := eqInt(x, y)
			if y == tONE && e.s.twoValued(t) {
				c = mkNot(eqInt(x, tZERO))
			} else if x == tONE && e.s.twoValued(t) {
				c = mkNot(eqInt(y, tZERO))
			}
			if op == token.NEQ {
				c = mkNot(c)
			}
			return c
		}
	case isBool(t):
		eq := ite(x, y, mkNot(y))
		if op == token.NEQ {
			return mkNot(eq)
		}
		return eq
	default:
		var r *Term
		if x == tNIL || y == tNIL {
			z := x
			if x == tNIL {
				z = y
			}
			if _, ok := t.Underlying().(*types.Slice); ok {
				z = mapLeaves(z, func(l *Term) *Term {
					if l.op == VIEW {
						return mkBox(l) // never nil
					}
					if l.op == OBJ {
						return l
					}
					return l
				})
			}
			r = mkIsNil(z)
		} else {
			r = mkEq(e.reify(st, x), e.reify(st, y))
			if x == y {
				r = tTRUE
			}
		}
		switch op {
		case token.EQL:
			return r
		case token.NEQ:
			return mkNot(r)
		}
	}
	return mk(X, "op:"+op.String(), x, y)
}

func condOfX(name string, x, y *Term) *Term {
	return ite(mk(X, name, x, y), tTRUE, tFALSE)
}

func intQuo(x, y *Term, unsigned bool) *Term {
	return lift("quo"+fmt.Sprint(unsigned), func(a []*Term) *Term {
		x, y := a[0], a[1]
		if z := numericLeaf(a); z != nil {
			return z
		}
		if isConst(y) && y.rat.Sign() > 0 && (unsigned || nonneg(x)) {
			return mkFDiv(x, y)
		}
		return intern(&Term{op: X, aux: "tquo", args: []*Term{x, y}})
	}, x, y)
}

// keptIn returns the address of the only place that holds the sequence the
// instruction indexes, as far as this part of the function is concerned: it is
// loaded just before and used for nothing else.
func keptIn(ins *ssa.IndexAddr) ssa.Value {
	ld, ok := ins.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != ins.Block() {
		return nil
	}
	switch ld.X.(type) {
	case *ssa.FieldAddr, *ssa.Alloc:
	default:
		return nil
	}
	if _, ok := ld.Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	for _, r := range *ld.Referrers() {
		if r == ssa.Instruction(ins) {
			continue
		}
		if c, ok := r.(*ssa.Call); ok && c.Block() == ins.Block() {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return nil
	}
	on := false
	for _, in := range ins.Block().Instrs {
		if in == ssa.Instruction(ld) {
			on = true
		}
		if in == ssa.Instruction(ins) {
			return ld.X
		}
		if !on {
			continue
		}
		switch in := in.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
			return nil
		case *ssa.Call:
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				return nil
			}
		}
	}
	return nil
}
