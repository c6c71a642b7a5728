package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Inputs of small size. A loop over a list is followed to its end when the
// list has a known number of elements. The elements stay unknown; a decided
// difference for some values of them decides the whole.

const maxSize = 3

// sizes replaces the lists, and numbers that are taken apart bit by bit, that
// the terms measure.
type sizes struct {
	k     int
	lists map[*Term]*Term
	blen  map[*Term]bool // numbers with k bits
	pre   []literal
	memo  map[*Term]*Term
}

func measured(ts ...*Term) (lists, nums []*Term) {
	seen := map[*Term]bool{}
	inL, inN := map[*Term]bool{}, map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == LEN || t.op == BLEN) && len(t.args) == 1 && inputTerm(t.args[0]) {
			if x := t.args[0]; t.op == LEN && !inL[x] {
				inL[x] = true
				lists = append(lists, x)
			} else if t.op == BLEN && !inN[x] {
				inN[x] = true
				nums = append(nums, x)
			}
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, m := range t.poly {
			for _, f := range m.f {
				rec(f.t)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return
}

// ascendingParams are the lists that a function may take to be in strictly
// ascending order, of positive numbers.
func ascendingParams(f *ssa.Function) map[*Term]bool {
	m := map[*Term]bool{}
	sorted := false
	switch f.Name() {
	case "MergeUnique", "InsertSortedUnique", "ContainsSorted":
		sorted = true
	case "FindSequence", "FindChain":
	default:
		sorted = f.Pkg != nil && strings.Contains(f.Pkg.Pkg.Path(), "/alg/")
	}
	for i, p := range f.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && sorted && isBigPtr(sl.Elem()) {
			m[named("p"+itoa(i), false)] = true
		}
	}
	return m
}

// inputTerm: part of what the function was given.
func inputTerm(t *Term) bool {
	for {
		switch t.op {
		case SYM:
			return true
		case SEL, MEM:
			t = t.args[0]
		default:
			return false
		}
	}
}

func (z *sizes) apply(t *Term) *Term {
	if r, ok := z.memo[t]; ok {
		return r
	}
	spend(1)
	if r, ok := z.lists[t]; ok {
		z.memo[t] = r
		return r
	}
	var r *Term
	switch {
	case t.op == BLEN && z.blen[t.args[0]]:
		r = mkInt(int64(z.k))
	case t.op == BIT && z.blen[t.args[0]]:
		i := z.apply(t.args[1])
		r = mkBit(t.args[0], i)
		if n, ok := isIntConst(i); ok && r.op == BIT {
			switch {
			case n >= int64(z.k):
				r = tZERO
			case n == int64(z.k)-1:
				r = tONE
			}
		}
	case t.op == ETA:
		l, exit := openEta(t)
		l.C = z.apply(l.C)
		for i := range l.mus {
			l.mus[i].init = z.apply(l.mus[i].init)
			l.mus[i].next = z.apply(l.mus[i].next)
		}
		r = l.exitOf(z.apply(exit))
	case t.op == LAM:
		ps, body := openLam(t)
		r = mkLam(ps, z.apply(body))
	case t.op == TAB:
		s, body := openTab(t)
		n, body := z.apply(t.args[0]), z.apply(body)
		if k, ok := isIntConst(n); ok && k <= maxSize+1 {
			var us []*Term
			for i := int64(0); i < k; i++ {
				us = append(us, mkUnit(subst(body, map[*Term]*Term{s: mkInt(i)})))
			}
			r = mkCat(us...)
			break
		}
		r = mkTab(n, s, body)
	case t.op == X && t.aux == "sortby" && len(t.args) == 2 && t.args[1].op == LAM:
		l, f := z.apply(t.args[0]), z.apply(t.args[1])
		ps, body := openLam(f)
		if len(ps) != 2 {
			r = rebuild(t, z.apply)
			break
		}
		less := mkLE0(mkAdd(mkSub2(ps[0], ps[1]), tONE))
		more := mkLE0(mkAdd(mkSub2(ps[1], ps[0]), tONE))
		r = sorted(l, func(a, b *Term) *Term {
			return subst(body, map[*Term]*Term{ps[0]: a, ps[1]: b})
		}, body == less || body == more)
		if r == nil {
			r = rebuild(t, z.apply)
		}
	case t.op == X && t.aux == "post:0" && t.args[0].op == CALL && t.args[0].aux == "internal/bigints.Sort" && len(t.args[0].args) == 1:
		r = sorted(z.apply(t.args[0].args[0]), func(a, b *Term) *Term {
			return mkLE0(mkAdd(mkSub2(a, b), tONE))
		}, true)
		if r == nil {
			r = rebuild(t, z.apply)
		}
	default:
		r = rebuild(t, z.apply)
		if t.op == CALL {
			r = mapLeaves(r, listCall)
		}
	}
	z.memo[t] = r
	return r
}

// listCall is what the helpers on numbers and lists of numbers, whose own
// bodies are compared elsewhere, make of a list with known elements.
func listCall(t *Term) *Term {
	if t.op != CALL {
		return t
	}
	units := func(l *Term) ([]*Term, bool) {
		if l == tEMPTY {
			return nil, true
		}
		es := pieces(l)
		for _, e := range es {
			if e.op != UNIT {
				return nil, false
			}
		}
		return es, len(es) <= 2*maxSize
	}
	less := func(x, y *Term) *Term { return mkLE0(mkAdd(mkSub2(x, y), tONE)) }
	switch {
	case t.aux == "internal/bigint.Equal" && len(t.args) == 2:
		return eqInt(t.args[0], t.args[1])
	case t.aux == "internal/bigint.EqualInt64" && len(t.args) == 2:
		return eqInt(t.args[0], t.args[1])
	case t.aux == "internal/bigint.IsZero" && len(t.args) == 1:
		return eqInt(t.args[0], tZERO)
	case t.aux == "internal/bigint.IsNonZero" && len(t.args) == 1:
		return mkNot(eqInt(t.args[0], tZERO))
	case t.aux == "internal/bigints.Unique" && len(t.args) == 1:
		es, ok := units(t.args[0])
		if !ok {
			return t
		}
		var keep func(done, rest []*Term) *Term
		keep = func(done, rest []*Term) *Term {
			if len(rest) == 0 {
				return mkCat(done...)
			}
			with := keep(append(append([]*Term{}, done...), rest[0]), rest[1:])
			if len(done) == 0 {
				return with
			}
			return ite(eqInt(done[len(done)-1].args[0], rest[0].args[0]), keep(done, rest[1:]), with)
		}
		return keep(nil, es)
	case t.aux == "internal/bigints.MergeUnique" && len(t.args) == 2, t.aux == "internal/bigints.InsertSortedUnique" && len(t.args) == 2:
		xs, ok1 := units(t.args[0])
		var ys []*Term
		ok2 := true
		if t.aux == "internal/bigints.MergeUnique" {
			ys, ok2 = units(t.args[1])
		} else {
			xs, ys = []*Term{mkUnit(t.args[1])}, xs
		}
		if !ok1 || !ok2 {
			return t
		}
		var merge func(done, xs, ys []*Term) *Term
		merge = func(done, xs, ys []*Term) *Term {
			if len(xs) == 0 || len(ys) == 0 {
				return mkCat(append(append(append([]*Term{}, done...), xs...), ys...)...)
			}
			x, y := xs[0], ys[0]
			withX := append(append([]*Term{}, done...), x)
			withY := append(append([]*Term{}, done...), y)
			return ite(less(x.args[0], y.args[0]), merge(withX, xs[1:], ys),
				ite(eqInt(x.args[0], y.args[0]), merge(withX, xs[1:], ys[1:]), merge(withY, xs, ys[1:])))
		}
		return merge(nil, xs, ys)
	case (t.aux == "internal/bigints.Contains" || t.aux == "internal/bigints.Index") && len(t.args) == 2:
		es, ok := units(t.args[1])
		if !ok {
			return t
		}
		r := mkInt(-1)
		if t.aux == "internal/bigints.Contains" {
			r = tFALSE
		}
		for i := len(es) - 1; i >= 0; i-- {
			at := mkInt(int64(i))
			if t.aux == "internal/bigints.Contains" {
				at = tTRUE
			}
			r = ite(eqInt(es[i].args[0], t.args[0]), at, r)
		}
		return r
	}
	return t
}

// sorted is the list in the order given by less, if its elements are known
// one by one. Elements that compare equal are interchangeable or the result
// is left open.
func sorted(l *Term, less func(a, b *Term) *Term, same bool) *Term {
	bad := false
	r := mapLeaves(l, func(l *Term) *Term {
		if isUnreach(l) || l == tEMPTY {
			return l
		}
		es := pieces(l)
		if len(es) > maxSize+1 {
			bad = true
			return l
		}
		for _, e := range es {
			if e.op != UNIT {
				bad = true
				return l
			}
		}
		var insert func(done, rest []*Term) *Term
		insert = func(done, rest []*Term) *Term {
			if len(rest) == 0 {
				return mkCat(done...)
			}
			e := rest[0]
			var place func(i int) *Term
			place = func(i int) *Term {
				at := func() *Term {
					n := append(append(append([]*Term{}, done[:i]...), e), done[i:]...)
					return insert(n, rest[1:])
				}
				if i == 0 {
					return at()
				}
				x, y := e.args[0], done[i-1].args[0]
				keep := at()
				if !same && x != y {
					keep = ite(less(y, x), keep, tBOT)
				}
				return ite(less(x, y), place(i-1), keep)
			}
			return place(len(done))
		}
		return insert(nil, es)
	})
	if bad {
		return nil
	}
	return r
}

func sized(a, b *Term, ascending map[*Term]bool, limit int) (why string, pos *Term) {
	lists, nums := measured(a, b)
	if len(lists) == 0 && len(nums) == 0 || len(lists) > 6 {
		return "", nil
	}
	for k := 0; k <= maxSize; k++ {
		if k == 0 && len(lists) == 0 {
			continue
		}
		if w, p := sizedAt(a, b, k, lists, nums, ascending, limit); w != "" {
			return fmt.Sprintf("for inputs of size %d: %s", k, w), p
		}
	}
	return "", nil
}

func sizedAt(a, b *Term, k int, lists, nums []*Term, ascending map[*Term]bool, limit int) (why string, pos *Term) {
	budget = limit
	defer func() {
		budget = 1 << 60
		if x := recover(); x != nil {
			if _, ok := x.(tooComplex); !ok {
				panic(x)
			}
			why, pos = "", nil
		}
	}()
	z := &sizes{k: k, lists: map[*Term]*Term{}, blen: map[*Term]bool{}, memo: map[*Term]*Term{}}
	for _, q := range lists {
		var us []*Term
		var last *Term
		for i := 0; i < k; i++ {
			s := newSym("e", false)
			us = append(us, mkUnit(s))
			if ascending[q] {
				lo := tZERO
				if last != nil {
					lo = last
				}
				z.pre = append(z.pre, holds(mkLE0(mkAdd(mkSub2(lo, s), tONE)))...)
			}
			last = s
		}
		z.lists[q] = mkCat(us...)
	}
	for _, x := range nums {
		z.blen[x] = true
		if k > 0 {
			p := mkInt(1 << uint(k-1))
			z.pre = append(z.pre, holds(mkLE0(mkSub2(p, x)))...)
			z.pre = append(z.pre, holds(mkLE0(mkSub2(x, mkInt(1<<uint(k)-1))))...)
		}
	}
	step := func(t *Term) *Term {
		u := &turns{n: k + 1, upTo: true, k: tTRUE, memo: map[*Term]*Term{}}
		t = u.expand(z.apply(t))
		// positions that are known now
		y := &sizes{k: k, lists: map[*Term]*Term{}, blen: z.blen, memo: map[*Term]*Term{}}
		return y.apply(t)
	}
	x, y := step(a), step(b)
	if os.Getenv("VSIZED") != "" {
		fmt.Fprintln(os.Stderr, "SIZE", k, clip(x.String(), 600), "\n  ====", clip(y.String(), 600))
	}
	if !sameCalls(x, y) {
		return "", nil
	}
	atomsB := map[*Term]bool{}
	for _, t := range atomsOf(y) {
		atomsB[t] = true
	}
	for _, l := range z.pre {
		atomsB[l.atom] = true
	}
	d := newDiffer()
	steps := 0
	cube := append([]literal{}, z.pre...)
	var whole []*Term
	var walk func(x, y *Term)
	walk = func(x, y *Term) {
		steps++
		if x == y || why != "" || steps > 3000 {
			return
		}
		if x.op != ITE && y.op != ITE {
			if isUnreach(x) || isUnreach(y) {
				return
			}
			x, y := settled(x, cube), settled(y, cube)
			if x == y || writesNowhere(x) || writesNowhere(y) {
				return
			}
			if whole == nil {
				whole = []*Term{x, y}
				defer func() { whole = nil }()
			}
			if each(x, y, walk) || !allSure(d.diff(settled(whole[0], cube), settled(whole[1], cube))) {
				return
			}
			if differentLists(x, y, cube) {
				why, pos = "different list of numbers: "+clip(y.String(), 120)+"  =>  "+clip(x.String(), 120), x
				return
			}
			ps := d.diff(x, y)
			if os.Getenv("VSIZED") != "" {
				fmt.Fprintln(os.Stderr, "  LEAF", clip(x.String(), 300), "  ===", clip(y.String(), 300), describePairs(ps), allSure(ps), canDiffer(ps, x, y, cube))
			}
			if allSure(ps) && canDiffer(ps, x, y, cube) && !impliedByCall(cube, atomsB) {
				why, pos = describePairs(ps), ps[0].a
			}
			return
		}
		t := topAtom(x, y)
		for _, l := range cube {
			if l.atom == t {
				walk(cof(x, t, l.val), cof(y, t, l.val))
				return
			}
		}
		for _, v := range []bool{true, false} {
			cube = append(cube, literal{t, v})
			if satisfiable(cube) {
				walk(cof(x, t, v), cof(y, t, v))
			}
			cube = cube[:len(cube)-1]
		}
	}
	walk(x, y)
	return why, pos
}

// differentLists: two lists of unknown numbers, none computed, that have
// different lengths or can differ at some place.
func differentLists(x, y *Term, cube []literal) bool {
	if negativeCount(cube) {
		return false
	}
	xs, ys := pieces(x), pieces(y)
	if x == tEMPTY {
		xs = nil
	}
	if y == tEMPTY {
		ys = nil
	}
	for _, e := range append(append([]*Term{}, xs...), ys...) {
		if e.op != UNIT || !numLike(e.args[0]) || !inputTerm(e.args[0]) {
			return false
		}
	}
	for _, l := range cube {
		if l.atom.op != LE {
			return false
		}
	}
	if len(xs) == 0 && len(ys) == 0 {
		return false
	}
	if len(xs) != len(ys) {
		return possible(cube)
	}
	for i := range xs {
		a, b := xs[i].args[0], ys[i].args[0]
		if a == b {
			continue
		}
		for _, q := range []*Term{mkSub2(a, b), mkSub2(b, a)} {
			l := holds(mkLE0(mkAdd(q, tONE)))
			if len(l) == 1 && possible(append(append([]literal{}, cube...), l...)) {
				return true
			}
		}
	}
	return false
}

// holds is the condition as literals, if it is one comparison.
func holds(c *Term) []literal {
	if c.op != ITE || c.args[1].op == ITE || c.args[2].op == ITE {
		return nil
	}
	return []literal{{c.args[0], c.args[1] == tTRUE}}
}

// canDiffer reports whether two values that are written differently can be
// different under the given comparisons.
func canDiffer(ps []pair, x, y *Term, cube []literal) bool {
	if negativeCount(cube) {
		return false
	}
	hx, hy := headsOf(x), headsOf(y)
	for h := range hx {
		if !hy[h] {
			return false
		}
	}
	for h := range hy {
		if !hx[h] {
			return false
		}
	}
	for _, p := range ps {
		if numericOp(p.a) && numLike(p.b) || numericOp(p.b) && numLike(p.a) {
			for _, q := range []*Term{mkSub2(p.a, p.b), mkSub2(p.b, p.a)} {
				l := holds(mkLE0(mkAdd(q, tONE)))
				if q := mkLE0(mkAdd(q, tONE)); q == tTRUE {
					if possible(cube) {
						return true
					}
				}
				if len(l) == 1 && possible(append(append([]literal{}, cube...), l...)) {
					return true
				}
			}
			continue
		}
		if !pinned(cube, p.a, p.b) && possible(cube) {
			return true
		}
	}
	return false
}

func numLike(t *Term) bool {
	return numericOp(t) || t.op == SYM || t.op == ELEM || t.op == SEL || t.op == LEN || t.op == BIT
}

// impliedByCall: what a call returned may follow from what the new code found
// out about the same quantities.
func impliedByCall(cube []literal, old map[*Term]bool) bool {
	for _, n := range cube {
		if old[n.atom] {
			continue
		}
		ns := symsOf(n.atom)
		for _, l := range cube {
			if l.atom == n.atom || !hasCall(l.atom) {
				continue
			}
			for s := range symsOf(l.atom) {
				if ns[s] {
					return true
				}
			}
		}
	}
	return false
}

func hasCall(t *Term) bool {
	for h := range headsOf(t) {
		if strings.HasPrefix(h, string(CALL)) {
			return true
		}
	}
	return false
}

// each compares two values part by part, as far as decisions are left in
// them, and reports whether there is nothing else to compare.
func each(x, y *Term, walk func(x, y *Term)) bool {
	if x.op == TUP && y.op == TUP && x.aux == y.aux && len(x.args) == len(y.args) {
		if x.aux == "write" && x.args[0] != y.args[0] {
			return true
		}
		for i := range x.args {
			walk(x.args[i], y.args[i])
		}
		return true
	}
	if x.op == ITE || y.op == ITE {
		walk(x, y)
		return true
	}
	return headsOf(x)[string(ITE)] || headsOf(y)[string(ITE)]
}

// sameCalls: both make the same calls; a call of another function may come to
// the same.
func sameCalls(x, y *Term) bool {
	hx, hy := headsOf(x), headsOf(y)
	for _, p := range [][2]map[string]bool{{hx, hy}, {hy, hx}} {
		for h := range p[0] {
			if strings.HasPrefix(h, string(CALL)) && !p[1][h] {
				return false
			}
		}
	}
	return true
}

// headsOf lists the operations that a value is made with, other than
// arithmetic and lists.
func headsOf(t *Term) map[string]bool {
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case CALL, X, FDIV, BIT, P2, ETA, TAB, LAM, SUB, UPD, MGET, MUPD, MHAS, MDEL, ITE, BLEN, PANIC, DC, BOT, ELEM:
			m[string(t.op)+t.aux] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.poly {
			for _, f := range p.f {
				rec(f.t)
			}
		}
	}
	rec(t)
	return m
}
