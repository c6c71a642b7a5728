package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---- substitution ----

var substMemo = map[string]map[*Term]*Term{}

// subst replaces free symbols.
func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	ids := map[int]*Term{}
	for s, v := range m {
		ids[s.sid] = v
	}
	memo := map[*Term]*Term{}
	return substRec(t, ids, memo)
}

func touches(t *Term, ids map[int]*Term) bool {
	for _, s := range t.syms {
		if _, ok := ids[s]; ok {
			return true
		}
	}
	return false
}

func substRec(t *Term, ids map[int]*Term, memo map[*Term]*Term) *Term {
	if !touches(t, ids) {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	spend(1)
	var r *Term
	switch t.op {
	case SYM:
		r = ids[t.sid]
	case ETA:
		l, exit := openEta(t)
		l.C = substRec(l.C, ids, map[*Term]*Term{})
		for i := range l.mus {
			l.mus[i].init = substRec(l.mus[i].init, ids, memo)
			l.mus[i].next = substRec(l.mus[i].next, ids, map[*Term]*Term{})
		}
		r = l.exitOf(exit)
	case LAM:
		ps, body := openLam(t)
		r = mkLam(ps, substRec(body, ids, map[*Term]*Term{}))
	case TAB:
		s, body := openTab(t)
		r = mkTab(substRec(t.args[0], ids, memo), s, substRec(body, ids, map[*Term]*Term{}))
	default:
		r = rebuild(t, func(a *Term) *Term { return substRec(a, ids, memo) })
	}
	memo[t] = r
	return r
}

// rebuild reconstructs t with transformed children, renormalising.
func rebuild(t *Term, f func(*Term) *Term) *Term {
	switch t.op {
	case POLY:
		sum := tZERO
		for _, m := range t.poly {
			p := mkRat(m.c)
			for _, fa := range m.f {
				x := f(fa.t)
				for i := 0; i < fa.e; i++ {
					p = mkMul(p, x)
				}
			}
			sum = mkAdd(sum, p)
		}
		return sum
	case ITE:
		return ite(asCond(f(t.args[0])), f(t.args[1]), f(t.args[2]))
	}
	a := make([]*Term, len(t.args))
	for i, x := range t.args {
		a[i] = f(x)
	}
	return construct(t, a)
}

func construct(t *Term, a []*Term) *Term {
	switch t.op {
	case LE:
		return mkLE0(mkSub2(a[0], mkRat(t.rat)))
	case EQ:
		return mkEqAny(a[0], a[1])
	case ISNIL:
		return mkIsNil(a[0])
	case ISTYP:
		if strings.HasPrefix(t.aux, "I:") {
			return mkIsType(t.aux[2:], true, nil, a[0])
		}
		return mkIsType(t.aux, false, nil, a[0])
	case TUP:
		return mkTup(t.aux, a...)
	case SEL:
		n, i := selParts(t.aux)
		return mkSel(t.aux[:strings.LastIndex(t.aux, "/")], n, i, a[0])
	case CAT:
		return mkCat(a...)
	case UNIT:
		return mkUnit(a[0])
	case ZEROS:
		return mkZeros(a[0], a[1])
	case SUB:
		return mkSubseq(a[0], a[1], a[2])
	case UPD:
		return mkUpd(a[0], a[1], a[2])
	case LEN:
		return mkLen(a[0])
	case ELEM:
		return mkElem(a[0], a[1])
	case MUPD:
		return mkMapUpd(a[0], a[1], a[2])
	case MGET:
		return mkMapGet(a[0], a[1], a[2])
	case MHAS:
		return mkMapHas(a[0], a[1])
	case P2:
		return mkP2(a[0])
	case FDIV:
		return mkFDiv(a[0], a[1])
	case BIT:
		return mkBit(a[0], a[1])
	case BLEN:
		return mkBitLen(a[0])
	case X:
		switch t.aux {
		case "sign":
			return mkSign(a[0])
		case "and":
			r := a[0]
			for _, x := range a[1:] {
				r = mkAndBits(r, x)
			}
			return r
		case "or":
			r := a[0]
			for _, x := range a[1:] {
				r = mkOrBits(r, x)
			}
			return r
		case "xor":
			r := a[0]
			for _, x := range a[1:] {
				r = mkXorBits(r, x)
			}
			return r
		case "scat":
			return mkStrCat(a...)
		case "fadd", "fmul":
			return mkFComm(t.aux, a[0], a[1])
		}
		if strings.HasPrefix(t.aux, "assert:") {
			return mkAssert(t.aux[7:], false, tNIL, a[0])
		}
	}
	if len(a) == 0 {
		return t
	}
	r := mk(t.op, t.aux, a...)
	if t.nn && r.op == t.op {
		r.nn = true
	}
	return r
}

func selParts(aux string) (n, i int) {
	s := aux[strings.LastIndex(aux, "/")+1:]
	p := strings.Split(s, ".")
	n, _ = strconv.Atoi(p[0])
	i, _ = strconv.Atoi(p[1])
	return
}

func mkStrCat(ts ...*Term) *Term {
	return lift("scat", func(a []*Term) *Term {
		var out []*Term
		for _, t := range a {
			ps := []*Term{t}
			if t.op == X && t.aux == "scat" {
				ps = t.args
			}
			for _, p := range ps {
				if p.op == STR {
					if p.aux == "" {
						continue
					}
					if len(out) > 0 && out[len(out)-1].op == STR {
						out[len(out)-1] = mkStr(out[len(out)-1].aux + p.aux)
						continue
					}
				}
				out = append(out, p)
			}
		}
		if len(out) == 0 {
			return mkStr("")
		}
		if len(out) == 1 {
			return out[0]
		}
		return intern(&Term{op: X, aux: "scat", args: out})
	}, ts...)
}

func mkFComm(op string, a, b *Term) *Term {
	return lift(op, func(x []*Term) *Term {
		a, b := x[0], x[1]
		if less(b, a) {
			a, b = b, a
		}
		return intern(&Term{op: X, aux: op, args: []*Term{a, b}})
	}, a, b)
}

// openBV replaces the bound variables of height h.
func openBV(t *Term, h int, m map[string]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if !hasInt(t.bvs, h) {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		spend(1)
		var r *Term
		switch t.op {
		case BV:
			if v, ok := m[t.aux]; ok {
				r = v
			} else {
				r = t
			}
		case ETA:
			l, exit := openEta(t)
			l.C = rec(l.C)
			for i := range l.mus {
				l.mus[i].init = rec(l.mus[i].init)
				l.mus[i].next = rec(l.mus[i].next)
			}
			r = l.exitOf(exit)
		case LAM:
			ps, body := openLam(t)
			r = mkLam(ps, rec(body))
		case TAB:
			s, body := openTab(t)
			r = mkTab(rec(t.args[0]), s, rec(body))
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- loops ----

type mu struct {
	sym, init, next *Term
}

type loopSys struct {
	C      *Term
	T      *Term
	mus    []*mu
	solved map[*Term]*Term // solved symbols in terms of T and remaining symbols
	done   bool
	etas   map[*Term]*Term
}

func newLoop() *loopSys {
	return &loopSys{T: newSym("T", true), solved: map[*Term]*Term{}, etas: map[*Term]*Term{}}
}

func openEta(t *Term) (*loopSys, *Term) {
	l := newLoop()
	h := t.hgt - 1
	m := map[string]*Term{fmt.Sprintf("%d.T", h): l.T}
	n := (len(t.args) - 2) / 2
	for i := 0; i < n; i++ {
		s := newSym("m", t.args[2+2*i].nn)
		m[fmt.Sprintf("%d.%d", h, i)] = s
		l.mus = append(l.mus, &mu{sym: s})
	}
	l.C = openBV(t.args[0], h, m)
	exit := openBV(t.args[1], h, m)
	for i := 0; i < n; i++ {
		l.mus[i].init = t.args[2+2*i]
		l.mus[i].next = openBV(t.args[3+2*i], h, m)
	}
	return l, exit
}

func openLam(t *Term) ([]*Term, *Term) {
	h := t.hgt - 1
	n, _ := strconv.Atoi(t.aux)
	m := map[string]*Term{}
	var ps []*Term
	for i := 0; i < n; i++ {
		s := newSym("p", false)
		ps = append(ps, s)
		m[fmt.Sprintf("%d.p%d", h, i)] = s
	}
	return ps, openBV(t.args[0], h, m)
}

func bv(h int, s string) *Term { return leaf(BV, fmt.Sprintf("%d.%s", h, s)) }

func mkLam(ps []*Term, body *Term) *Term {
	bs := closeTerms([]*Term{body}, func(h int) map[*Term]*Term {
		m := map[*Term]*Term{}
		for i, p := range ps {
			m[p] = bv(h, "p"+itoa(i))
		}
		return m
	})
	return intern(&Term{op: LAM, aux: itoa(len(ps)), args: bs})
}

// closeTerms replaces symbols by bound variables whose level is the nesting
// depth of the result.
func closeTerms(ts []*Term, f func(h int) map[*Term]*Term) []*Term {
	depth := func(ts []*Term) int {
		h := 0
		for _, t := range ts {
			if t.hgt > h {
				h = t.hgt
			}
		}
		return h
	}
	h := depth(ts)
	for i := 0; i < 4; i++ {
		m := f(h)
		out := make([]*Term, len(ts))
		for i, t := range ts {
			out[i] = subst(t, m)
		}
		k := depth(out)
		if k == h {
			return out
		}
		h = k
	}
	panic(tooComplex{"binder depth"})
}

func openTab(t *Term) (*Term, *Term) {
	h := t.hgt - 1
	s := newSym("T", true)
	return s, openBV(t.args[1], h, map[string]*Term{fmt.Sprintf("%d.T", h): s})
}

// mkTab is the sequence body(0), ..., body(n-1).
func mkTab(n, s, body *Term) *Term {
	return lift("tab:"+string(s.h[:])+string(body.h[:]), func(a []*Term) *Term {
		n := a[0]
		if n == tZERO {
			return tEMPTY
		}
		if n == tONE {
			return mkUnit(subst(body, map[*Term]*Term{s: tZERO}))
		}
		// [x[0], ..., x[n-1]]
		if body.op == ELEM && !body.args[0].dependsOn(s) {
			off := mkSub2(body.args[1], s)
			if !off.dependsOn(s) {
				return mkSubseq(body.args[0], off, mkAdd(off, n))
			}
		}
		if !body.dependsOn(s) {
			return mkZeros(n, body)
		}
		// the length is outside the binder and may itself mention s
		h := n.hgt
		for i := 0; ; i++ {
			b := subst(body, map[*Term]*Term{s: bv(h, "T")})
			k := n.hgt
			if b.hgt > k {
				k = b.hgt
			}
			if k == h {
				return intern(&Term{op: TAB, args: []*Term{n, b}})
			}
			if h = k; i == 4 {
				panic(tooComplex{"binder depth"})
			}
		}
	}, n)
}

func instTab(t, i *Term) *Term {
	s, b := openTab(t)
	return subst(b, map[*Term]*Term{s: i})
}

func (l *loopSys) apply(m map[*Term]*Term) {
	l.C = subst(l.C, m)
	for _, u := range l.mus {
		u.next = subst(u.next, m)
	}
	for k, v := range l.solved {
		l.solved[k] = subst(v, m)
	}
	for k, v := range m {
		l.solved[k] = v
	}
}

func (l *loopSys) remove(i int) {
	l.mus = append(append([]*mu{}, l.mus[:i]...), l.mus[i+1:]...)
}

// loopDep reports whether t varies between iterations.
func (l *loopSys) loopDep(t *Term) bool {
	if t.dependsOn(l.T) {
		return true
	}
	for _, u := range l.mus {
		if t.dependsOn(u.sym) {
			return true
		}
	}
	return false
}

// solve replaces loop variables that have a closed form.
func (l *loopSys) solve() {
	if l.done {
		return
	}
	l.done = true
	l.restrict()
	for changed := true; changed; {
		changed = false
		spend(10)
		for i := 0; i < len(l.mus); i++ {
			u := l.mus[i]
			if v := l.closed(u); v != nil {
				l.remove(i)
				l.apply(map[*Term]*Term{u.sym: v})
				l.restrict()
				changed = true
				break
			}
		}
		if changed {
			continue
		}
		if l.mergeEqual() {
			changed = true
			continue
		}
		for _, u := range l.mus {
			if l.shift(u) {
				changed = true
				break
			}
		}
	}
}

// restrict keeps next values only where the loop continues. The remaining
// part stays undefined, which keeps the diagrams canonical.
func (l *loopSys) restrict() {
	for _, u := range l.mus {
		u.next = ite(l.C, u.next, tBOT)
	}
}

// closed returns a closed form for u, or nil.
func (l *loopSys) closed(v *mu) *Term {
	u := &mu{sym: v.sym, init: v.init, next: v.next}
	if u.next.op == ITE {
		if ls := without(leavesOf(u.next), []*Term{tBOT}); len(ls) == 1 {
			u.next = ls[0]
		}
	}
	if u.next == u.sym || u.next == u.init {
		return u.init
	}
	if u.next.op == ITE || u.init.op == ITE && false {
		return nil
	}
	// x' = x + c
	if u.next.op == POLY {
		d := mkSub2(u.next, u.sym)
		if d.op != ITE && !l.loopDep(d) {
			return mkAdd(u.init, mkMul(d, l.T))
		}
		// x' = k x
		if c, a, ok := scaledAtom(u.next); ok && a == u.sym && c.IsInt() {
			if k := mkRat(c); isP2(k) {
				return mkMul(u.init, mkP2(mkMul(log2(k), l.T)))
			}
		}
		// x' = x * 2^k
		if ms := u.next.poly; len(ms) == 1 && len(ms[0].f) == 2 {
			var rest *Term
			for i, f := range ms[0].f {
				if f.t == u.sym && f.e == 1 && ms[0].f[1-i].t.op == P2 {
					rest = mkMul(mkRat(ms[0].c), ms[0].f[1-i].t)
				}
			}
			if rest != nil && isP2(rest) && !l.loopDep(rest) {
				return mkMul(u.init, mkP2(mkMul(log2(rest), l.T)))
			}
		}
	}
	// x' = floor(x / 2^k)
	if u.next.op == FDIV && u.next.args[0] == u.sym && isP2(u.next.args[1]) && !l.loopDep(u.next.args[1]) {
		return mkFDiv(u.init, mkP2(mkMul(log2(u.next.args[1]), l.T)))
	}
	// out' = out ++ [f(T)]
	if u.next.op == CAT && len(u.next.args) == 2 && u.next.args[0] == u.sym && u.next.args[1].op == UNIT {
		f := u.next.args[1].args[0]
		if l.onlyT(f) {
			return mkCat(u.init, mkTab(l.T, l.T, f))
		}
	}
	// out' = out ++ f(T) with a constant sequence: leave
	// x'[T] = f(T)
	if u.next.op == UPD && u.next.args[0] == u.sym && u.next.args[1] == l.T {
		f := u.next.args[2]
		if l.onlyT(f) && !l.loopDep(u.init) {
			return mkCat(mkTab(l.T, l.T, f), mkSubseq(u.init, l.T, mkLen(u.init)))
		}
		// f may read element T of the vector itself
		init := u.init
		g := replaceTerm(f, intern(&Term{op: ELEM, args: []*Term{u.sym, l.T}}), mkElem(init, l.T))
		if l.onlyT(g) {
			return mkCat(mkTab(l.T, l.T, g), mkSubseq(init, l.T, mkLen(init)))
		}
	}
	return nil
}

func (l *loopSys) onlyT(t *Term) bool {
	if t.op == ITE {
		// allowed: conditional element
	}
	for _, u := range l.mus {
		if t.dependsOn(u.sym) {
			return false
		}
	}
	return true
}

// replaceTerm replaces occurrences of a sub-term (outside binders).
func replaceTerm(t, from, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == from {
			return to
		}
		if t.size < from.size && t.op != BV {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch t.op {
		case ETA, LAM, TAB, SYM, BV, CONST, STR:
			r = t
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// shift normalises accumulators to start from zero or empty.
func (l *loopSys) shift(u *mu) bool {
	if u.init.op == ITE || l.loopDep(u.init) {
		return false
	}
	ls := leavesOf(u.next)
	// additive
	if u.init != tZERO && numericTerm(u.init) {
		ok := true
		for _, x := range ls {
			if x == tBOT {
				continue
			}
			has := false
			for _, m := range polyOf(x) {
				if len(m.f) == 1 && m.f[0].t == u.sym && m.f[0].e == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
					has = true
				}
			}
			if !has || mkSub2(x, u.sym).dependsOn(u.sym) && false {
				ok = false
			}
		}
		if ok {
			s := newSym("m", false)
			init := u.init
			old := u.sym
			v := mkAdd(init, s)
			next := mapLeaves(u.next, func(x *Term) *Term {
				if x == tBOT {
					return x
				}
				return mkSub2(x, init)
			})
			u.sym, u.init = s, tZERO
			u.next = next
			l.apply(map[*Term]*Term{old: v})
			l.restrict()
			return true
		}
	}
	if u.init != tEMPTY && u.init.op != CONST {
		ok := true
		any := false
		for _, x := range ls {
			if x == u.sym || x == tBOT {
				continue
			}
			if x.op == CAT && x.args[0] == u.sym {
				any = true
				continue
			}
			ok = false
		}
		if ok && any {
			s := newSym("m", false)
			old, init := u.sym, u.init
			next := mapLeaves(u.next, func(x *Term) *Term {
				if x == tBOT {
					return x
				}
				if x == old {
					return s
				}
				return mkCat(append([]*Term{s}, x.args[1:]...)...)
			})
			u.sym, u.init, u.next = s, tEMPTY, next
			l.apply(map[*Term]*Term{old: mkCat(init, s)})
			return true
		}
	}
	return false
}

func numericTerm(t *Term) bool {
	switch t.op {
	case CONST, POLY, LEN, BLEN, BIT, P2, FDIV:
		return true
	}
	return false
}

// mergeEqual merges loop variables that are provably equal (optimistic
// partitioning by initial and next values).
func (l *loopSys) mergeEqual() bool {
	if len(l.mus) < 2 {
		return false
	}
	color := l.colors(l.mus)
	byc := map[hash]*mu{}
	for i, u := range l.mus {
		if r, ok := byc[color[u.sym]]; ok {
			l.remove(i)
			l.apply(map[*Term]*Term{u.sym: r.sym})
			return true
		}
		byc[color[u.sym]] = u
	}
	return false
}

// colors computes a name-independent signature for every loop variable.
func (l *loopSys) colors(mus []*mu) map[*Term]hash {
	color := map[*Term]hash{}
	tT := leaf(X, "trip")
	for _, u := range mus {
		color[u.sym] = u.init.h
	}
	classes := func() int {
		m := map[hash]bool{}
		for _, c := range color {
			m[c] = true
		}
		return len(m)
	}
	n := classes()
	for round := 0; round <= len(mus)+1; round++ {
		m := map[*Term]*Term{l.T: tT}
		for _, u := range mus {
			h := color[u.sym]
			m[u.sym] = leaf(X, fmt.Sprintf("color:%x", h[:]))
		}
		nc := map[*Term]hash{}
		for _, u := range mus {
			x := subst(u.next, m)
			c := intern(&Term{op: X, aux: "col", args: []*Term{m[u.sym], x}})
			nc[u.sym] = c.h
		}
		color = nc
		k := classes()
		if k == n && round > 0 {
			break
		}
		n = k
	}
	return color
}

// exitOf returns the value of t at loop exit.
func (l *loopSys) exitOf(t *Term) *Term {
	l.solve()
	t = subst(t, l.solved)
	m := map[*Term]*Term{}
	if t.dependsOn(l.T) {
		m[l.T] = l.eta(l.T)
	}
	for _, u := range l.mus {
		if t.dependsOn(u.sym) {
			m[u.sym] = l.eta(u.sym)
		}
	}
	return subst(t, m)
}

// eta builds the exit value of a loop variable or of the trip counter.
func (l *loopSys) eta(s *Term) *Term {
	if r, ok := l.etas[s]; ok {
		return r
	}
	r := l.mkEta(s)
	l.etas[s] = r
	return r
}

func (l *loopSys) mkEta(s *Term) *Term {
	if l.C == tFALSE {
		if s == l.T {
			return tZERO
		}
		for _, u := range l.mus {
			if u.sym == s {
				return u.init
			}
		}
	}
	if s == l.T {
		if n := l.simpleBound(); n != nil {
			if nonneg(n) {
				return n
			}
			return ite(mkLE0(n), tZERO, n)
		}
	}
	// reachable loop variables
	need := map[*Term]bool{}
	var work []*Term
	visit := func(t *Term) {
		for _, u := range l.mus {
			if !need[u.sym] && t.dependsOn(u.sym) {
				need[u.sym] = true
				work = append(work, u.next)
			}
		}
	}
	visit(l.C)
	if s != l.T {
		visit(s)
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		visit(t)
	}
	var mus []*mu
	for _, u := range l.mus {
		if need[u.sym] {
			mus = append(mus, u)
		}
	}
	// lift decisions out of initial values
	for i, u := range mus {
		if u.init == tBOT {
			return tBOT
		}
		if u.init.op == ITE {
			x := u.init.args[0]
			split := func(v bool) *Term {
				k := &loopSys{C: l.C, T: l.T, solved: map[*Term]*Term{}, etas: map[*Term]*Term{}}
				for j, w := range mus {
					n := &mu{sym: w.sym, init: w.init, next: w.next}
					if j == i || true {
						n.init = cof2(w.init, x, v)
					}
					k.mus = append(k.mus, n)
				}
				return k.exitOf(s)
			}
			return ite(asCond(x), split(true), split(false))
		}
	}
	color := l.colors(mus)
	sort.SliceStable(mus, func(i, j int) bool {
		a, b := color[mus[i].sym], color[mus[j].sym]
		return string(a[:]) < string(b[:])
	})
	ts := []*Term{l.C, s}
	for _, u := range mus {
		ts = append(ts, u.init, u.next)
	}
	args := closeTerms(ts, func(h int) map[*Term]*Term {
		m := map[*Term]*Term{l.T: bv(h, "T")}
		for i, u := range mus {
			m[u.sym] = bv(h, itoa(i))
		}
		return m
	})
	return intern(&Term{op: ETA, args: args})
}

// cof2 takes a cofactor anywhere in the diagram.
func cof2(t, x *Term, v bool) *Term {
	c := asCond(x)
	if !v {
		c = mkNot(c)
	}
	t = ite(c, t, tBOT)
	return mapNodes(t, x, v)
}

// simpleBound returns n if the loop runs exactly while T < n.
func (l *loopSys) simpleBound() *Term {
	c := l.C
	if c.op != ITE {
		return nil
	}
	a := c.args[0]
	if a.op != LE {
		return nil
	}
	q := a.args[0]
	coef := new(big.Rat)
	for _, m := range polyOf(q) {
		if len(m.f) == 1 && m.f[0].t == l.T && m.f[0].e == 1 {
			coef = m.c
		}
	}
	if c.args[1] == tTRUE && c.args[2] == tFALSE && coef.Sign() > 0 {
		rest := mkSub2(q, mkScale(l.T, coef))
		if l.loopDep(rest) {
			return nil
		}
		// coef*T <= c - rest ; T < floor((c-rest)/coef)+1
		b := mkSub2(mkRat(a.rat), rest)
		if coef.Cmp(big.NewRat(1, 1)) == 0 {
			return addInt(b, 1)
		}
		return addInt(mkFDiv(b, mkRat(coef)), 1)
	}
	if c.args[1] == tFALSE && c.args[2] == tTRUE && coef.Sign() < 0 {
		rest := mkSub2(q, mkScale(l.T, coef))
		if l.loopDep(rest) {
			return nil
		}
		// not(rest - k T <= c): k T <= rest - c - 1
		k := new(big.Rat).Neg(coef)
		b := addInt(mkSub2(rest, mkRat(a.rat)), -1)
		if k.Cmp(big.NewRat(1, 1)) == 0 {
			return addInt(b, 1)
		}
		return addInt(mkFDiv(b, mkRat(k)), 1)
	}
	// T != n with n >= 0
	if c.args[1] == tTRUE && c.args[2].op == ITE && coef.Cmp(big.NewRat(1, 1)) == 0 {
		d := c.args[2]
		if d.args[0].op == LE && d.args[0].args[0] == q && d.args[1] == tFALSE && d.args[2] == tTRUE {
			n := mkSub2(mkRat(d.args[0].rat), mkSub2(q, l.T))
			if !l.loopDep(n) && nonneg(n) {
				return n
			}
		}
	}
	if c.args[1] == tTRUE && c.args[2].op == ITE && coef.Cmp(big.NewRat(-1, 1)) == 0 {
		d := c.args[2]
		if d.args[0].op == LE && d.args[0].args[0] == q && d.args[1] == tFALSE && d.args[2] == tTRUE {
			// q = rest - T != c  => T != rest - c
			n := mkSub2(mkAdd(q, l.T), mkRat(d.args[0].rat))
			if !l.loopDep(n) && nonneg(n) {
				return n
			}
		}
	}
	return nil
}

// mapNodes fixes the value of an atom in a diagram.
func mapNodes(t, x *Term, v bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != ITE {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.args[0] == x && v:
			r = rec(t.args[1])
		case t.args[0] == x:
			r = rec(t.args[2])
		default:
			r = ite(asCond(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// maxUnroll bounds the iterations of loops that are evaluated one by one.
const maxUnroll = 4

// fewIterations reports whether the loop counts towards a small constant.
func (fr *frame) fewIterations(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []*edge) bool {
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	small := func(v ssa.Value) (int64, bool) {
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			return 0, false
		}
		if _, ok := v.(*ssa.Const); !ok && fr.env[v] == nil {
			return 0, false
		}
		t := fr.val(v, entry[0].st)
		ls := leavesOf(t)
		if len(ls) > 3 {
			return 0, false
		}
		max := int64(0)
		for _, l := range ls {
			if l.op == BOT || l.op == DC || l.op == PANIC {
				continue
			}
			if l.op != CONST || !l.rat.IsInt() || !l.rat.Num().IsInt64() {
				return 0, false
			}
			n := l.rat.Num().Int64()
			if n < -2 || n > maxUnroll-1 {
				return 0, false
			}
			if n > max {
				max = n
			}
		}
		return max, true
	}
	counter := func(v ssa.Value) bool {
		if b, ok := v.(*ssa.BinOp); ok {
			v = b.X
		}
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() != h {
			return false
		}
		for i, p := range h.Preds {
			if body[p] {
				continue
			}
			if _, ok := small(phi.Edges[i]); !ok {
				return false
			}
		}
		return true
	}
	for _, p := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
		if _, ok := small(p[1]); ok && counter(p[0]) {
			return true
		}
	}
	return false
}

// unroll evaluates a loop of few iterations step by step.
func (fr *frame) unroll(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry []*edge) ([]*edge, bool) {
	if !fr.fewIterations(h, body, entry) {
		return nil, false
	}
	env := make(map[ssa.Value]*Term, len(fr.env))
	for k, v := range fr.env {
		env[k] = v
	}
	pans := len(fr.pan)
	cur := make([]*edge, len(entry))
	for i, x := range entry {
		y := *x
		y.st = x.st.clone()
		cur[i] = &y
	}
	var outside []ssa.Value
	for b := range body {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && usedOutside(v, body) {
				outside = append(outside, v)
			}
		}
	}
	if e := fr.e; e.unrolled == nil {
		e.unrolled = map[string]bool{}
		defer func() { e.unrolled = nil }()
	}
	type left struct {
		x    *edge
		vals []*Term
	}
	var exits []left
	for n := 0; n <= maxUnroll; n++ {
		vals := map[*ssa.Phi]*Term{}
		for _, ins := range h.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals[phi] = fr.phiValue(phi, cur)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
		latches, xs := fr.region(body, h, cur)
		for _, x := range xs {
			l := left{x: x}
			for _, v := range outside {
				l.vals = append(l.vals, fr.env[v])
			}
			exits = append(exits, l)
		}
		if len(latches) == 0 {
			var out []*edge
			for i, v := range outside {
				r := tBOT
				if env[v] != nil {
					delete(fr.env, v)
				}
				some := false
				for k := len(exits) - 1; k >= 0; k-- {
					if exits[k].vals[i] == nil {
						continue
					}
					some = true
					r = ite(exits[k].x.cond, exits[k].vals[i], r)
				}
				if some {
					fr.env[v] = r
				}
			}
			for _, l := range exits {
				out = append(out, l.x)
			}
			return out, true
		}
		cur = latches
	}
	fr.env = env
	fr.pan = fr.pan[:pans]
	return nil, false
}
