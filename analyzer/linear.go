package main

import (
	"math/big"
)

// Two decisions over the same quantities differ if some combination of the
// comparisons that separates them can come about. The quantities are taken to
// vary freely only if each of them has a part that none of the others has, and
// the reviewed decision already depended on them; whether the comparisons
// agree with each other is linear arithmetic.

type literal struct {
	atom *Term
	val  bool
}

// separable reports whether the two diagrams choose differently for some
// combination of free quantities.
func (d *differ) separable(a, b *Term, xa, xb []*Term) bool {
	ra, rb := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range atomsOf(a) {
		rootsOf(x, ra)
	}
	for _, x := range atomsOf(b) {
		rootsOf(x, rb)
	}
	for _, x := range append(append([]*Term{}, xa...), xb...) {
		rs := map[*Term]bool{}
		if strict := rootsOf(x, rs); strict {
			return false
		}
		for r := range rs {
			if !ra[r] || !rb[r] {
				return false
			}
		}
	}
	la, lb := map[*Term]bool{}, map[*Term]bool{}
	for _, l := range leavesOf(a) {
		la[l] = true
	}
	for _, l := range leavesOf(b) {
		lb[l] = true
	}
	n := 0
	found := false
	var cube []literal
	var walk func(x, y *Term)
	walk = func(x, y *Term) {
		if x == y || found || n > 3000 {
			return
		}
		n++
		if x.op != ITE && y.op != ITE {
			if isUnreach(x) || isUnreach(y) || x == tBOT || y == tBOT {
				return
			}
			if fixedLeaf(x) && fixedLeaf(y) || lb[x] && la[y] && !pinned(cube, x, y) {
				if possible(cube) {
					found = true
				}
			}
			return
		}
		t := topAtom(x, y)
		for _, l := range cube {
			if l.atom == t {
				walk(cof(x, t, l.val), cof(y, t, l.val))
				return
			}
		}
		cube = append(cube, literal{t, true})
		walk(cof(x, t, true), cof(y, t, true))
		cube[len(cube)-1].val = false
		walk(cof(x, t, false), cof(y, t, false))
		cube = cube[:len(cube)-1]
	}
	walk(a, b)
	return found
}

func fixedLeaf(t *Term) bool {
	switch t.op {
	case BOOLC, NIL, ERR, CONST:
		return true
	}
	return false
}

// pinned: the comparisons fix a quantity the values are computed from, they
// may be the same then.
func pinned(cube []literal, x, y *Term) bool {
	for _, l := range cube {
		if l.atom.op != LE {
			continue
		}
		for _, v := range varsOf(l.atom.args[0]) {
			if containsTerm(x, v) || containsTerm(y, v) {
				return true
			}
		}
	}
	return false
}

func containsTerm(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.poly {
			for _, f := range m.f {
				if rec(f.t) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

func varsOf(q *Term) []*Term {
	var out []*Term
	for _, m := range polyOf(q) {
		for _, f := range m.f {
			out = append(out, f.t)
		}
	}
	return out
}

// rootsOf collects the independent parts a term is computed from. It reports
// true if the term is the result of an operation about which nothing is known.
func rootsOf(t *Term, m map[*Term]bool) bool {
	switch t.op {
	case CONST, STR, NIL, BOOLC, ERR:
		return false
	case SYM, ELEM, SEL, MEM, LEN:
		m[t] = true
		return false
	}
	strict := true
	switch t.op {
	case POLY, LE, FDIV, BLEN, BIT, P2, MGET, MHAS, ISNIL, ISTYP, EQ:
		strict = false
	}
	for _, a := range t.args {
		if rootsOf(a, m) {
			strict = true
		}
	}
	for _, x := range t.poly {
		for _, f := range x.f {
			if rootsOf(f.t, m) {
				strict = true
			}
		}
	}
	return strict
}

// possible reports whether the comparisons hold together for some values of
// quantities that are free.
func possible(cube []literal) bool {
	// the quantities
	type quantity struct {
		roots  map[*Term]bool
		syms   map[*Term]bool
		strict bool
	}
	seen := map[*Term]bool{}
	var qs []quantity
	add := func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		q := quantity{roots: map[*Term]bool{}}
		q.strict = rootsOf(t, q.roots)
		q.syms = symsOf(t)
		qs = append(qs, q)
	}
	for _, l := range cube {
		if l.atom.op == LE {
			for _, v := range varsOf(l.atom.args[0]) {
				add(v)
			}
			continue
		}
		add(l.atom)
	}
	for i, q := range qs {
		for j, o := range qs {
			if i == j || !q.strict {
				continue
			}
			for s := range o.syms {
				if q.syms[s] {
					return false
				}
			}
		}
	}
	// each has a part of its own
	used := map[*Term]bool{}
	rest := qs
	for len(rest) > 0 {
		// the one that adds the least
		bi, bn := -1, 0
		for i, q := range rest {
			n := 0
			for r := range q.roots {
				if !used[r] {
					n++
				}
			}
			if q.strict {
				n += 1000
			}
			if bi < 0 || n < bn || n == bn && len(q.roots) < len(rest[bi].roots) {
				bi, bn = i, n
			}
		}
		q := rest[bi]
		if len(q.roots) > 0 && bn == 0 {
			return false
		}
		for r := range q.roots {
			used[r] = true
		}
		rest = append(append([]quantity{}, rest[:bi]...), rest[bi+1:]...)
	}
	return satisfiable(cube)
}

// satisfiable decides the conjunction over the rationals by elimination. The
// comparisons are between integers, so a strict one leaves a whole unit.
func satisfiable(cube []literal) bool {
	type row struct {
		c map[string]*big.Rat // sum c[v]*v <= b
		b *big.Rat
	}
	var rows []row
	nn := map[string]bool{}
	for _, l := range cube {
		if l.atom.op != LE {
			continue
		}
		r := row{c: map[string]*big.Rat{}, b: new(big.Rat).Set(l.atom.rat)}
		for _, m := range polyOf(l.atom.args[0]) {
			if len(m.f) == 0 {
				r.b.Sub(r.b, m.c)
				continue
			}
			k := monoKey(m)
			r.c[k] = new(big.Rat).Set(m.c)
			one := mono{c: big.NewRat(1, 1), f: m.f}
			if nonneg(fromMonos([]mono{one})) {
				nn[k] = true
			}
		}
		if !l.val {
			// q >= c+1
			for k, c := range r.c {
				r.c[k] = new(big.Rat).Neg(c)
			}
			r.b.Neg(r.b)
			r.b.Sub(r.b, big.NewRat(1, 1))
		}
		rows = append(rows, r)
	}
	for k := range nn {
		rows = append(rows, row{c: map[string]*big.Rat{k: big.NewRat(-1, 1)}, b: new(big.Rat)})
	}
	for {
		var v string
		for _, r := range rows {
			for k := range r.c {
				if v == "" || k < v {
					v = k
				}
			}
		}
		if v == "" {
			break
		}
		var pos, neg, out []row
		for _, r := range rows {
			c := r.c[v]
			switch {
			case c == nil:
				out = append(out, r)
			case c.Sign() > 0:
				pos = append(pos, r)
			default:
				neg = append(neg, r)
			}
		}
		if len(pos)*len(neg)+len(out) > 3000 {
			return false // not decided
		}
		for _, p := range pos {
			for _, q := range neg {
				fp := new(big.Rat).Inv(p.c[v])
				fq := new(big.Rat).Neg(new(big.Rat).Inv(q.c[v]))
				n := row{c: map[string]*big.Rat{}, b: new(big.Rat)}
				comb := func(r row, f *big.Rat) {
					for k, c := range r.c {
						if k == v {
							continue
						}
						x := new(big.Rat).Mul(c, f)
						if o := n.c[k]; o != nil {
							x.Add(x, o)
						}
						if x.Sign() == 0 {
							delete(n.c, k)
						} else {
							n.c[k] = x
						}
					}
					n.b.Add(n.b, new(big.Rat).Mul(r.b, f))
				}
				comb(p, fp)
				comb(q, fq)
				out = append(out, n)
			}
		}
		rows = out
	}
	for _, r := range rows {
		if r.b.Sign() < 0 {
			return false
		}
	}
	return true
}

func symsOf(t *Term) map[*Term]bool {
	m := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == SYM {
			m[t] = true
		}
		for _, a := range t.args {
			rec(a)
		}
		for _, x := range t.poly {
			for _, f := range x.f {
				rec(f.t)
			}
		}
	}
	rec(t)
	return m
}
