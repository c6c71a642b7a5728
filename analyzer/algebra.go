package main

import (
	"math/big"
	"sort"
	"strings"
)

// ---- polynomials ----

func isConst(t *Term) bool { return t.op == CONST }

func isIntConst(t *Term) (int64, bool) {
	if t.op == CONST && t.rat.IsInt() && t.rat.Num().IsInt64() {
		return t.rat.Num().Int64(), true
	}
	return 0, false
}

func polyOf(t *Term) []mono {
	switch t.op {
	case CONST:
		if t.rat.Sign() == 0 {
			return nil
		}
		return []mono{{c: t.rat}}
	case POLY:
		return t.poly
	}
	return []mono{{c: big.NewRat(1, 1), f: []factor{{t, 1}}}}
}

func monoKey(m mono) string {
	var sb strings.Builder
	for _, f := range m.f {
		sb.Write(f.t.h[:])
		sb.WriteByte(byte(f.e))
	}
	return sb.String()
}

func fromMonos(ms []mono) *Term {
	acc := map[string]mono{}
	for _, m := range ms {
		k := monoKey(m)
		if o, ok := acc[k]; ok {
			acc[k] = mono{c: new(big.Rat).Add(o.c, m.c), f: m.f}
		} else {
			acc[k] = m
		}
	}
	var keys []string
	for k, m := range acc {
		if m.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return tZERO
	}
	sort.Strings(keys)
	out := make([]mono, 0, len(keys))
	for _, k := range keys {
		out = append(out, acc[k])
	}
	if len(out) == 1 {
		m := out[0]
		if len(m.f) == 0 {
			return mkRat(m.c)
		}
		if len(m.f) == 1 && m.f[0].e == 1 && m.c.Cmp(big.NewRat(1, 1)) == 0 {
			return m.f[0].t
		}
	}
	spend(len(out))
	return intern(&Term{op: POLY, poly: out})
}

func mkAdd(a, b *Term) *Term {
	return lift("add", func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return z
		}
		return fromMonos(append(append([]mono{}, polyOf(x[0])...), polyOf(x[1])...))
	}, a, b)
}

// numericLeaf handles leaves that are not numbers.
func numericLeaf(x []*Term) *Term {
	for _, t := range x {
		switch t.op {
		case BOT, DC, PANIC:
			return t
		}
	}
	return nil
}

func mkScale(a *Term, c *big.Rat) *Term {
	return lift("scale:"+c.RatString(), func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return z
		}
		var ms []mono
		for _, m := range polyOf(x[0]) {
			ms = append(ms, mono{c: new(big.Rat).Mul(m.c, c), f: m.f})
		}
		return fromMonos(ms)
	}, a)
}

func mkNeg(a *Term) *Term     { return mkScale(a, big.NewRat(-1, 1)) }
func mkSub2(a, b *Term) *Term { return mkAdd(a, mkNeg(b)) }
func addInt(a *Term, i int64) *Term {
	return mkAdd(a, mkInt(i))
}

func mulMono(a, b mono) []mono {
	fs := map[*Term]int{}
	var exp *Term
	p2 := false
	for _, m := range []mono{a, b} {
		for _, f := range m.f {
			if f.t.op == P2 {
				e := f.t.args[0]
				if f.e != 1 {
					e = mkScale(e, big.NewRat(int64(f.e), 1))
				}
				if exp == nil {
					exp = e
				} else {
					exp = mkAdd(exp, e)
				}
				p2 = true
				continue
			}
			fs[f.t] += f.e
		}
	}
	m := mono{c: new(big.Rat).Mul(a.c, b.c)}
	for t, e := range fs {
		if e != 0 {
			m.f = append(m.f, factor{t, e})
		}
	}
	if p2 {
		for _, pm := range polyOf(mkP2(exp)) {
			m.c = new(big.Rat).Mul(m.c, pm.c)
			m.f = append(m.f, pm.f...)
		}
	}
	sort.Slice(m.f, func(i, j int) bool { return less(m.f[i].t, m.f[j].t) })
	return []mono{m}
}

func mkMul(a, b *Term) *Term {
	return lift("mul", func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return z
		}
		var ms []mono
		for _, p := range polyOf(x[0]) {
			for _, q := range polyOf(x[1]) {
				ms = append(ms, mulMono(p, q)...)
			}
		}
		return fromMonos(ms)
	}, a, b)
}

// mkP2 is 2**e.
func mkP2(e *Term) *Term {
	return lift("p2", func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return z
		}
		c, rest := splitConst(x[0])
		k, ok := isIntConst(mkRat(c))
		if !ok || k > 4096 || k < -4096 {
			return intern(&Term{op: P2, args: []*Term{x[0]}})
		}
		coef := new(big.Rat).SetInt64(1)
		if k >= 0 {
			coef.SetInt(new(big.Int).Lsh(big.NewInt(1), uint(k)))
		} else {
			coef.SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-k)))
		}
		if rest == tZERO {
			return mkRat(coef)
		}
		p := intern(&Term{op: P2, args: []*Term{rest}})
		return fromMonos([]mono{{c: coef, f: []factor{{p, 1}}}})
	}, e)
}

// splitConst splits p into constant and the rest.
func splitConst(p *Term) (*big.Rat, *Term) {
	c := new(big.Rat)
	var rest []mono
	for _, m := range polyOf(p) {
		if len(m.f) == 0 {
			c = m.c
		} else {
			rest = append(rest, m)
		}
	}
	return c, fromMonos(rest)
}

func atomNonneg(t *Term) bool {
	if t.nn {
		return true
	}
	switch t.op {
	case LEN, BLEN, BIT, P2:
		return true
	case BV:
		return strings.HasSuffix(t.aux, ".T")
	case FDIV:
		return nonneg(t.args[0]) && nonneg(t.args[1])
	case CONST:
		return t.rat.Sign() >= 0
	case X:
		switch t.aux {
		case "maplen", "cap", "runelen", "tz", "or", "setbit", "and", "search":
			if t.aux == "search" || t.aux == "maplen" || t.aux == "cap" || t.aux == "runelen" || t.aux == "tz" {
				return true
			}
			for _, a := range t.args {
				if !nonneg(a) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func atomPos(t *Term) bool { return t.op == P2 }

// lower returns a lower bound of p if one is known.
func lower(p *Term) (*big.Rat, bool) {
	lb := new(big.Rat)
	for _, m := range polyOf(p) {
		if len(m.f) == 0 {
			lb.Add(lb, m.c)
			continue
		}
		pos := true
		for _, f := range m.f {
			if !atomNonneg(f.t) && f.e%2 != 0 {
				return nil, false
			}
			if !atomPos(f.t) {
				pos = false
			}
		}
		if m.c.Sign() < 0 {
			if len(m.f) == 1 && m.f[0].t.op == BIT {
				lb.Add(lb, m.c)
				continue
			}
			return nil, false
		}
		if pos {
			lb.Add(lb, m.c)
		}
	}
	return lb, true
}

func upper(p *Term) (*big.Rat, bool) {
	l, ok := lower(mkNeg(p))
	if !ok {
		return nil, false
	}
	return new(big.Rat).Neg(l), true
}

func nonneg(p *Term) bool {
	if p.op == ITE {
		for _, l := range leavesOf(p) {
			if !nonneg(l) {
				return false
			}
		}
		return true
	}
	l, ok := lower(p)
	return ok && l.Sign() >= 0
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return new(big.Rat).SetInt(q)
}

func ceilRat(r *big.Rat) *big.Rat {
	return new(big.Rat).Neg(floorRat(new(big.Rat).Neg(r)))
}

// mkLE0 is the condition p <= 0 over the integers.
func mkLE0(p *Term) *Term {
	return lift("le0", func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return tBOT
		}
		return le0(x[0])
	}, p)
}

func le0(p *Term) *Term {
	if isConst(p) {
		return mkBool(p.rat.Sign() <= 0)
	}
	// sign(x) behaves like x for comparison with -1, 0, 1
	if c, q, ok := scaledAtom(p); ok && q.op == X && q.aux == "sign" && c.IsInt() && c.Num().IsInt64() {
		_ = c
	}
	k, rest := splitConst(p)
	ms := polyOf(rest)
	// strip a common positive factor
	if k.Sign() == 0 {
		ms = stripPositive(ms)
	}
	// scale to primitive integer coefficients
	l := big.NewInt(1)
	for _, m := range ms {
		d := m.c.Denom()
		g := new(big.Int).GCD(nil, nil, l, d)
		l = new(big.Int).Mul(l, new(big.Int).Div(d, g))
	}
	g := new(big.Int)
	for _, m := range ms {
		n := new(big.Int).Mul(m.c.Num(), new(big.Int).Div(l, m.c.Denom()))
		g = new(big.Int).GCD(nil, nil, g, n.Abs(n))
	}
	scale := new(big.Rat).SetFrac(l, g)
	neg := ms[0].c.Sign() < 0
	if neg {
		scale.Neg(scale)
	}
	// floor(n/k)+r <= 0 is n+k*r < k
	for i, m := range ms {
		c := new(big.Rat).Mul(m.c, scale)
		if !c.IsInt() || c.Num().CmpAbs(big.NewInt(1)) != 0 || len(m.f) != 1 || m.f[0].e != 1 || m.f[0].t.op != FDIV {
			continue
		}
		k1 := m.f[0].t.args[1]
		if !isConst(k1) || !k1.rat.IsInt() {
			continue
		}
		n := m.f[0].t.args[0]
		up := c.Sign() > 0
		if neg {
			up = !up
		}
		rest := mkScale(mkAdd(mkRat(k), fromMonos(append(append([]mono{}, ms[:i]...), ms[i+1:]...))), new(big.Rat).Abs(scale))
		r := mkMul(rest, k1)
		if up {
			return mkLE0(addInt(mkSub2(mkAdd(n, r), k1), 1))
		}
		return mkLE0(mkSub2(r, n))
	}
	q := mkScale(fromMonos(ms), scale)
	kk := new(big.Rat).Mul(k, scale)
	// scale*p = q + kk ; p<=0  <=>  q<=-kk (scale>0) or q>=-kk (scale<0)
	var res *Term
	if !neg {
		res = leAtom(q, floorRat(new(big.Rat).Neg(kk)))
	} else {
		c := ceilRat(new(big.Rat).Neg(kk))
		res = mkNot(leAtom(q, new(big.Rat).Sub(c, big.NewRat(1, 1))))
	}
	return res
}

func scaledAtom(p *Term) (*big.Rat, *Term, bool) {
	ms := polyOf(p)
	if len(ms) == 1 && len(ms[0].f) == 1 && ms[0].f[0].e == 1 {
		return ms[0].c, ms[0].f[0].t, true
	}
	return nil, nil, false
}

func stripPositive(ms []mono) []mono {
	if len(ms) == 0 {
		return ms
	}
	for {
		var common *Term
		for _, f := range ms[0].f {
			if f.t.op != P2 || f.e != 1 {
				continue
			}
			all := true
			for _, m := range ms[1:] {
				has := false
				for _, g := range m.f {
					if g.t == f.t {
						has = true
					}
				}
				if !has {
					all = false
				}
			}
			if all {
				common = f.t
				break
			}
		}
		if common == nil {
			return ms
		}
		var out []mono
		for _, m := range ms {
			n := mono{c: m.c}
			for _, f := range m.f {
				if f.t == common {
					if f.e > 1 {
						n.f = append(n.f, factor{f.t, f.e - 1})
					}
					continue
				}
				n.f = append(n.f, f)
			}
			out = append(out, n)
		}
		ms = out
		if len(ms) == 1 && len(ms[0].f) == 0 {
			return ms
		}
	}
}

func leAtom(q *Term, c *big.Rat) *Term {
	if isConst(q) {
		return mkBool(q.rat.Cmp(c) <= 0)
	}
	if lb, ok := lower(q); ok && c.Cmp(lb) < 0 {
		return tFALSE
	}
	if ub, ok := upper(q); ok && c.Cmp(ub) >= 0 {
		return tTRUE
	}
	if lb, ub, ok := loopBounds(q); ok {
		if ub != nil && c.Cmp(ub) >= 0 {
			return tTRUE
		}
		if lb != nil && c.Cmp(lb) < 0 {
			return tFALSE
		}
	}
	// bitlen(x) <= 0 is x == 0
	if q.op == BLEN && c.Sign() == 0 {
		return eqInt(q.args[0], tZERO)
	}
	// bitlen(x) <= c is -2^c < x < 2^c
	if q.op == BLEN && c.IsInt() && c.Sign() > 0 && c.Num().BitLen() <= 12 {
		m := new(big.Int).Lsh(big.NewInt(1), uint(c.Num().Int64()))
		m.Sub(m, big.NewInt(1))
		k := mkRat(new(big.Rat).SetInt(m))
		return mkAnd(mkLE0(mkSub2(q.args[0], k)), mkLE0(mkSub2(mkScale(q.args[0], big.NewRat(-1, 1)), k)))
	}
	// sign(x) <= c
	if q.op == X && q.aux == "sign" {
		switch {
		case c.Cmp(big.NewRat(1, 1)) >= 0:
			return tTRUE
		case c.Sign() == 0:
			return mkLE0(q.args[0])
		case c.Cmp(big.NewRat(-1, 1)) == 0:
			return mkLE0(addInt(q.args[0], 1))
		default:
			return tFALSE
		}
	}
	return asCond(intern(&Term{op: LE, args: []*Term{q}, rat: new(big.Rat).Set(c)}))
}

// loopBounds knows that a counter at loop exit never exceeds the bound that
// its loop condition enforces.
func loopBounds(q *Term) (lb, ub *big.Rat, ok bool) {
	for _, m := range polyOf(q) {
		if len(m.f) != 1 || m.f[0].e != 1 {
			continue
		}
		t := m.f[0].t
		search := t.op == X && t.aux == "search"
		if !search && (t.op != ETA || !strings.HasSuffix(t.args[1].aux, ".T")) {
			continue
		}
		one := m.c.Cmp(big.NewRat(1, 1)) == 0
		mone := m.c.Cmp(big.NewRat(-1, 1)) == 0
		if !one && !mone {
			continue
		}
		var n *Term
		if search {
			n = t.args[0]
		} else {
			n = tripBound(t)
		}
		if n == nil || !nonneg(n) {
			continue
		}
		// t <= n
		rest := mkSub2(q, mkScale(t, m.c))
		if one {
			d := mkAdd(rest, n)
			if isConst(d) {
				return nil, d.rat, true
			}
		} else {
			d := mkSub2(rest, n)
			if isConst(d) {
				return d.rat, nil, true
			}
		}
	}
	return nil, nil, false
}

// tripBound returns n if the loop condition of t implies T < n with n
// invariant.
func tripBound(t *Term) *Term {
	c := t.args[0]
	T := t.args[1]
	return boundIn(c, T, t.hgt-1)
}

func boundIn(c, T *Term, h int) *Term {
	// walk the top of the diagram looking for an atom implied by c
	for _, a := range atomsOf(c) {
		if a.op != LE {
			continue
		}
		q := a.args[0]
		coef := new(big.Rat)
		for _, m := range polyOf(q) {
			if len(m.f) == 1 && m.f[0].t == T && m.f[0].e == 1 {
				coef = m.c
			}
		}
		if coef.Cmp(big.NewRat(1, 1)) == 0 {
			rest := mkSub2(q, T)
			if usesBV(rest, h) {
				continue
			}
			// T + rest <= c  => T < c - rest + 1
			if ite(c, asCond(a), tTRUE) == tTRUE {
				return mkSub2(mkRat(new(big.Rat).Add(a.rat, big.NewRat(1, 1))), rest)
			}
		} else if coef.Cmp(big.NewRat(-1, 1)) == 0 {
			rest := mkAdd(q, T)
			if usesBV(rest, h) {
				continue
			}
			// not(rest - T <= c) => rest - T >= c+1 => T <= rest-c-1 => T < rest - c
			if ite(c, mkNot(asCond(a)), tTRUE) == tTRUE {
				return mkSub2(rest, mkRat(a.rat))
			}
		}
	}
	return nil
}

func usesBV(t *Term, h int) bool { return hasInt(t.bvs, h) }

func eqInt(a, b *Term) *Term {
	p := mkSub2(a, b)
	return mkAnd(mkLE0(p), mkLE0(mkNeg(p)))
}

func mkSign(a *Term) *Term {
	return lift("sign", func(x []*Term) *Term {
		if isConst(x[0]) {
			return mkInt(int64(x[0].rat.Sign()))
		}
		return intern(&Term{op: X, aux: "sign", args: []*Term{x[0]}})
	}, a)
}

// mkFDiv is floor(a/b) for b > 0.
func mkFDiv(a, b *Term) *Term {
	return lift("fdiv", func(x []*Term) *Term {
		if z := numericLeaf(x); z != nil {
			return z
		}
		return fdiv(x[0], x[1])
	}, a, b)
}

func fdiv(a, b *Term) *Term {
	if b == tONE || a == tZERO {
		return a
	}
	if isConst(a) && isConst(b) && b.rat.Sign() > 0 {
		return mkRat(floorRat(new(big.Rat).Quo(a.rat, b.rat)))
	}
	bm := polyOf(b)
	if len(bm) == 1 {
		// split exact multiples
		inv := mono{c: new(big.Rat).Inv(bm[0].c)}
		ok := true
		for _, f := range bm[0].f {
			if f.t.op == P2 && f.e == 1 {
				for _, pm := range polyOf(mkP2(mkNeg(f.t.args[0]))) {
					inv.c = new(big.Rat).Mul(inv.c, pm.c)
					inv.f = append(inv.f, pm.f...)
				}
			} else {
				ok = false
			}
		}
		if ok {
			var exact, rest []mono
			for _, m := range polyOf(a) {
				q := mulMono(m, inv)[0]
				integral := q.c.IsInt()
				for _, f := range q.f {
					if f.t.op == P2 && !nonneg(f.t.args[0]) {
						integral = false
					}
				}
				if integral {
					exact = append(exact, q)
				} else {
					rest = append(rest, m)
				}
			}
			if len(exact) > 0 {
				return mkAdd(fromMonos(exact), fdiv(fromMonos(rest), b))
			}
			if a.op == FDIV {
				return mkFDiv(a.args[0], mkMul(a.args[1], b))
			}
		}
	}
	return intern(&Term{op: FDIV, args: []*Term{a, b}})
}

// mkMod is a mod b for b > 0 (result in [0,b)).
func mkMod(a, b *Term) *Term {
	if k, ok := isIntConst(b); ok && k == 2 {
		return mkBit(a, tZERO)
	}
	return mkSub2(a, mkMul(b, mkFDiv(a, b)))
}

func isP2(b *Term) bool {
	bm := polyOf(b)
	if len(bm) != 1 || bm[0].c.Sign() <= 0 {
		return false
	}
	for _, f := range bm[0].f {
		if f.t.op != P2 {
			return false
		}
	}
	n := new(big.Int).Set(bm[0].c.Num())
	d := bm[0].c.Denom()
	pow := func(n *big.Int) bool { return new(big.Int).And(n, new(big.Int).Sub(n, big.NewInt(1))).Sign() == 0 }
	return pow(n) && pow(d)
}

func log2(b *Term) *Term {
	bm := polyOf(b)[0]
	e := mkInt(int64(bm.c.Num().BitLen()) - int64(bm.c.Denom().BitLen()))
	for _, f := range bm.f {
		e = mkAdd(e, f.t.args[0])
	}
	return e
}

func mkBit(x, i *Term) *Term {
	return lift("bit", func(a []*Term) *Term {
		x, i := a[0], a[1]
		if z := numericLeaf(a); z != nil {
			return z
		}
		if k, ok := isIntConst(i); ok && isConst(x) && x.rat.IsInt() && k >= 0 {
			return mkInt(int64(x.rat.Num().Bit(int(k))))
		}
		if x.op == FDIV && isP2(x.args[1]) {
			return mkBit(x.args[0], mkAdd(i, log2(x.args[1])))
		}
		return intern(&Term{op: BIT, args: []*Term{x, i}})
	}, x, i)
}

func mkBitLen(x *Term) *Term {
	return lift("blen", func(a []*Term) *Term {
		x := a[0]
		if z := numericLeaf(a); z != nil {
			return z
		}
		if isConst(x) && x.rat.IsInt() {
			return mkInt(int64(x.rat.Num().BitLen()))
		}
		if x.op != POLY && x.op != P2 {
			return intern(&Term{op: BLEN, args: []*Term{x}})
		}
		if isP2(x) {
			return addInt(log2(x), 1)
		}
		// 2^k - 1
		if y := addInt(x, 1); isP2(y) {
			return log2(y)
		}
		return intern(&Term{op: BLEN, args: []*Term{x}})
	}, x)
}

// mkAndBits is bitwise and.
func mkAndBits(a, b *Term) *Term {
	return lift("andb", func(x []*Term) *Term {
		a, b := x[0], x[1]
		if z := numericLeaf(x); z != nil {
			return z
		}
		for k := 0; k < 2; k++ {
			if isConst(b) && b.rat.Sign() == 0 {
				return tZERO
			}
			// low mask
			if m := addInt(b, 1); isP2(m) && !isConst(a) {
				return mkMod(a, m)
			}
			if b == tONE {
				return mkBit(a, tZERO)
			}
			// 2^h - 2^l
			if ms := polyOf(b); len(ms) == 2 {
				var pos, neg *Term
				for _, m := range ms {
					if m.c.Sign() > 0 {
						pos = fromMonos([]mono{m})
					} else {
						neg = mkNeg(fromMonos([]mono{m}))
					}
				}
				if pos != nil && neg != nil && isP2(pos) && isP2(neg) && !isConst(a) {
					w := mkMul(pos, mkP2(mkNeg(log2(neg))))
					return mkMul(neg, mkMod(mkFDiv(a, neg), w))
				}
			}
			a, b = b, a
		}
		if isConst(a) && isConst(b) && a.rat.IsInt() && b.rat.IsInt() {
			return mkBig(new(big.Int).And(a.rat.Num(), b.rat.Num()))
		}
		return acOp("and", a, b)
	}, a, b)
}

func acOp(name string, a, b *Term) *Term {
	var parts []*Term
	for _, t := range []*Term{a, b} {
		if t.op == X && t.aux == name {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	sort.Slice(parts, func(i, j int) bool { return less(parts[i], parts[j]) })
	return intern(&Term{op: X, aux: name, args: parts})
}

func mkOrBits(a, b *Term) *Term {
	return lift("orb", func(x []*Term) *Term {
		a, b := x[0], x[1]
		if z := numericLeaf(x); z != nil {
			return z
		}
		for k := 0; k < 2; k++ {
			if a == tZERO {
				return b
			}
			if isP2(b) && !isConst(a) {
				return intern(&Term{op: X, aux: "setbit", args: []*Term{a, log2(b)}})
			}
			a, b = b, a
		}
		if isConst(a) && isConst(b) && a.rat.IsInt() && b.rat.IsInt() {
			return mkBig(new(big.Int).Or(a.rat.Num(), b.rat.Num()))
		}
		return acOp("or", a, b)
	}, a, b)
}

func mkXorBits(a, b *Term) *Term {
	return lift("xorb", func(x []*Term) *Term {
		return acOp("xor", x[0], x[1])
	}, a, b)
}

// ---- equality ----

func mkEq(a, b *Term) *Term {
	return lift("eq", func(x []*Term) *Term {
		a, b := x[0], x[1]
		for _, t := range x {
			if t.op == BOT || t.op == DC || t.op == PANIC {
				return tBOT
			}
		}
		if a == b {
			return tTRUE
		}
		if a.op == NIL {
			return isnil(b)
		}
		if b.op == NIL {
			return isnil(a)
		}
		if a.op == BOOLC && b.op == BOOLC {
			return tFALSE
		}
		if (a.op == STR || a.op == CONST) && (b.op == STR || b.op == CONST) {
			return tFALSE
		}
		if a.op == OBJ && (b.op == OBJ || b.op == SYM || b.op == MEM || b.op == SEL) || b.op == OBJ && (a.op == SYM || a.op == MEM || a.op == SEL) {
			return tFALSE
		}
		if a.op == TUP && b.op == TUP && len(a.args) == len(b.args) {
			r := tTRUE
			for i := range a.args {
				r = mkAnd(r, mkEqAny(a.args[i], b.args[i]))
			}
			return r
		}
		// s == "" is len(s) == 0
		if a.op == STR && a.aux == "" {
			return eqInt(mkLen(b), tZERO)
		}
		if b.op == STR && b.aux == "" {
			return eqInt(mkLen(a), tZERO)
		}
		if less(b, a) {
			a, b = b, a
		}
		return asCond(intern(&Term{op: EQ, args: []*Term{a, b}}))
	}, a, b)
}

func mkEqAny(a, b *Term) *Term {
	if a.op == CONST || a.op == POLY || b.op == CONST || b.op == POLY {
		return eqInt(a, b)
	}
	return mkEq(a, b)
}

func isnil(a *Term) *Term {
	switch a.op {
	case NIL:
		return tTRUE
	case ERR, MKI, BOX, OBJ, AT, LAM, CLO, FADDR, IADDR, CONST, POLY, TUP, UNIT, FDIV, P2, MUPD, MNEW, STR:
		return tFALSE
	case X:
		if a.aux == "funcref" {
			return tFALSE
		}
	}
	return asCond(intern(&Term{op: ISNIL, args: []*Term{a}}))
}

func mkIsNil(a *Term) *Term {
	return lift("isnil", func(x []*Term) *Term {
		if x[0].op == BOT || x[0].op == DC || x[0].op == PANIC {
			return tBOT
		}
		return isnil(x[0])
	}, a)
}

// ---- tuples ----

func mkTup(aux string, args ...*Term) *Term {
	switch aux {
	case "outcome":
		return intern(&Term{op: TUP, aux: aux, args: sortRuns("write", args)})
	case "results", "write", "world", "panics":
		return intern(&Term{op: TUP, aux: aux, args: append([]*Term{}, args...)})
	}
	if strings.HasPrefix(aux, "heap:") {
		return intern(&Term{op: TUP, aux: aux, args: append([]*Term{}, args...)})
	}
	return lift("tup:"+aux, func(a []*Term) *Term {
		// eta: tuple of all the fields of one opaque value
		if len(a) > 0 && a[0].op == SEL && strings.HasSuffix(a[0].aux, ".0") {
			base := a[0].args[0]
			pre := strings.TrimSuffix(a[0].aux, "0")
			ok := true
			for i, t := range a {
				if t.op != SEL || t.args[0] != base || t.aux != pre+itoa(i) {
					ok = false
					break
				}
			}
			if ok && strings.HasPrefix(a[0].aux, aux+"/"+itoa(len(a))) {
				return base
			}
		}
		return intern(&Term{op: TUP, aux: aux, args: append([]*Term{}, a...)})
	}, args...)
}

// sortRuns returns the arguments with the tuples of the given name, whose
// order is immaterial, sorted.
func sortRuns(name string, args []*Term) []*Term {
	out := append([]*Term{}, args...)
	lo := 0
	for lo < len(out) && !(out[lo].op == TUP && out[lo].aux == name) {
		lo++
	}
	hi := lo
	for hi < len(out) && out[hi].op == TUP && out[hi].aux == name {
		hi++
	}
	sort.Slice(out[lo:hi], func(i, j int) bool { return less(out[lo+i], out[lo+j]) })
	return out
}

func itoa(i int) string { return big.NewInt(int64(i)).String() }

// mkSel selects field i of an n-field struct of the given type.
func mkSel(aux string, n, i int, t *Term) *Term {
	return lift("sel:"+aux+"/"+itoa(n)+"."+itoa(i), func(a []*Term) *Term {
		t := a[0]
		if t.op == TUP {
			if i < len(t.args) {
				return t.args[i]
			}
			return tBOT
		}
		switch t.op {
		case DC, PANIC, BOT, NIL:
			return t
		}
		return intern(&Term{op: SEL, aux: aux + "/" + itoa(n) + "." + itoa(i), args: []*Term{t}})
	}, t)
}

func mkUpdField(aux string, n, i int, t, v *Term) *Term {
	fs := make([]*Term, n)
	for j := range fs {
		if j == i {
			fs[j] = v
		} else {
			fs[j] = mkSel(aux, n, j, t)
		}
	}
	return mkTup(aux, fs...)
}

// ---- sequences ----

func mkUnit(x *Term) *Term {
	return lift("unit", func(a []*Term) *Term { return intern(&Term{op: UNIT, args: []*Term{a[0]}}) }, x)
}

func pieces(t *Term) []*Term {
	if t.op == CAT {
		return t.args
	}
	return []*Term{t}
}

func mkCat(ts ...*Term) *Term {
	return lift("cat", func(a []*Term) *Term {
		var ps []*Term
		for _, t := range a {
			switch t.op {
			case BOT, DC, PANIC:
				return t
			case NIL:
				continue
			}
			ps = append(ps, pieces(t)...)
		}
		// merge adjacent subsequences
		var out []*Term
		for _, p := range ps {
			if len(out) > 0 {
				if m := mergeSub(out[len(out)-1], p); m != nil {
					out = out[:len(out)-1]
					out = append(out, pieces(m)...)
					continue
				}
			}
			out = append(out, p)
		}
		if len(out) == 1 {
			return out[0]
		}
		return intern(&Term{op: CAT, args: out})
	}, ts...)
}

func subParts(t *Term) (s, lo, hi *Term) {
	switch t.op {
	case SUB:
		return t.args[0], t.args[1], t.args[2]
	case UNIT:
		if e := t.args[0]; e.op == ELEM {
			return e.args[0], e.args[1], addInt(e.args[1], 1)
		}
	}
	return nil, nil, nil
}

func mergeSub(a, b *Term) *Term {
	if a.op == UNIT && b.op == UNIT {
		return nil
	}
	s, lo, mid := subParts(a)
	t, mid2, hi := subParts(b)
	if s == nil || t == nil || s != t || mid != mid2 {
		return nil
	}
	r := mkSubseq(s, lo, hi)
	return r
}

func mkLen(t *Term) *Term {
	return lift("len", func(a []*Term) *Term { return seqLen(a[0]) }, t)
}

func seqLen(t *Term) *Term {
	switch t.op {
	case BOT, DC, PANIC:
		return t
	case NIL:
		return tZERO
	case CAT:
		n := tZERO
		for _, p := range t.args {
			n = mkAdd(n, seqLen(p))
		}
		return n
	case UNIT:
		return tONE
	case SUB:
		return mkSub2(t.args[2], t.args[1])
	case UPD:
		return mkLen(t.args[0])
	case ZEROS, TAB:
		return t.args[0]
	case STR:
		return mkInt(int64(len(t.aux)))
	case X:
		switch t.aux {
		case "sorted", "sortby":
			return mkLen(t.args[0])
		}
	}
	return intern(&Term{op: LEN, args: []*Term{t}})
}

func mkElem(s, i *Term) *Term {
	return lift("elem", func(a []*Term) *Term {
		for _, t := range a {
			switch t.op {
			case BOT, DC, PANIC:
				return t
			}
		}
		return elem(a[0], a[1])
	}, s, i)
}

func elem(s, i *Term) *Term {
	switch s.op {
	case CAT:
		// locate by prefix from the left
		off := tZERO
		for _, p := range s.args {
			n := seqLen(p)
			d := mkSub2(i, off)
			if p.op == UNIT && d == tZERO {
				return p.args[0]
			}
			end := mkAdd(off, n)
			// i >= off is assumed by construction order; need i < end
			if lt := mkLE0(addInt(mkSub2(i, end), 1)); lt == tTRUE && p.op != UNIT {
				return elem(p, d)
			} else if ge := mkLE0(mkSub2(end, i)); ge == tTRUE {
				off = end
				continue
			} else if p.op == UNIT {
				// cannot decide
				break
			} else {
				break
			}
		}
		// locate by suffix from the right
		off = seqLen(s)
		for k := len(s.args) - 1; k >= 0; k-- {
			p := s.args[k]
			off = mkSub2(off, seqLen(p))
			d := mkSub2(i, off)
			if p.op == UNIT && d == tZERO {
				return p.args[0]
			}
			if lt := mkLE0(addInt(d, 1)); lt == tTRUE {
				continue // i < off
			}
			if nonneg(d) && p.op != UNIT {
				return elem(p, d)
			}
			break
		}
	case UNIT:
		if i == tZERO {
			return s.args[0]
		}
	case SUB:
		return mkElem(s.args[0], mkAdd(s.args[1], i))
	case UPD:
		if s.args[1] == i {
			return s.args[2]
		}
		if d := mkSub2(s.args[1], i); isConst(d) {
			return mkElem(s.args[0], i)
		}
	case ZEROS:
		return s.args[1]
	case TAB:
		return instTab(s, i)
	case STR:
		if k, ok := isIntConst(i); ok && k >= 0 && k < int64(len(s.aux)) {
			return mkInt(int64(s.aux[k]))
		}
	}
	return intern(&Term{op: ELEM, args: []*Term{s, i}})
}

func mkSubseq(s, lo, hi *Term) *Term {
	return lift("sub", func(a []*Term) *Term {
		for _, t := range a {
			switch t.op {
			case BOT, DC, PANIC:
				return t
			}
		}
		return subseq(a[0], a[1], a[2])
	}, s, lo, hi)
}

func subseq(s, lo, hi *Term) *Term {
	if lo == hi {
		if s.op == STR {
			return mkStr("")
		}
		return tEMPTY
	}
	if s.op == NIL {
		return tEMPTY
	}
	if lo == tZERO && hi == seqLen(s) {
		return s
	}
	switch s.op {
	case SUB:
		return mkSubseq(s.args[0], mkAdd(s.args[1], lo), mkAdd(s.args[1], hi))
	case CAT:
		ps := s.args
		off := tZERO
		// drop prefix pieces
		for len(ps) > 0 {
			end := mkAdd(off, seqLen(ps[0]))
			if mkLE0(mkSub2(end, lo)) == tTRUE {
				off = end
				ps = ps[1:]
				continue
			}
			break
		}
		// drop suffix pieces
		end := seqLen(s)
		for len(ps) > 0 {
			st := mkSub2(end, seqLen(ps[len(ps)-1]))
			if mkLE0(mkSub2(hi, st)) == tTRUE {
				end = st
				ps = ps[:len(ps)-1]
				continue
			}
			break
		}
		if len(ps) < len(s.args) {
			return mkSubseq(mkCat(ps...), mkSub2(lo, off), mkSub2(hi, off))
		}
		if len(ps) >= 2 && lo == tZERO {
			// cut inside the last piece
			last := ps[len(ps)-1]
			st := mkSub2(end, seqLen(last))
			if nonneg(mkSub2(hi, st)) {
				return mkCat(append(append([]*Term{}, ps[:len(ps)-1]...), mkSubseq(last, tZERO, mkSub2(hi, st)))...)
			}
		}
		if len(ps) >= 2 && hi == end {
			first := ps[0]
			n := seqLen(first)
			if nonneg(mkSub2(n, lo)) {
				return mkCat(append([]*Term{mkSubseq(first, lo, n)}, ps[1:]...)...)
			}
		}
	case STR:
		l, ok1 := isIntConst(lo)
		h, ok2 := isIntConst(hi)
		if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(s.aux)) {
			return mkStr(s.aux[l:h])
		}
	case ZEROS:
		return mkZeros(mkSub2(hi, lo), s.args[1])
	}
	if d := mkSub2(hi, lo); d == tONE {
		return mkUnit(mkElem(s, lo))
	}
	return intern(&Term{op: SUB, args: []*Term{s, lo, hi}})
}

func mkUpd(s, i, v *Term) *Term {
	return lift("upd", func(a []*Term) *Term {
		s, i, v := a[0], a[1], a[2]
		for _, t := range a {
			switch t.op {
			case BOT, PANIC:
				return t
			}
		}
		if e := elem(s, i); e == v {
			return s
		}
		if s.op == CAT {
			off := tZERO
			for k, p := range s.args {
				if p.op == UNIT && mkSub2(i, off) == tZERO {
					ps := append([]*Term{}, s.args...)
					ps[k] = intern(&Term{op: UNIT, args: []*Term{v}})
					return mkCat(ps...)
				}
				off = mkAdd(off, seqLen(p))
				if mkLE0(mkSub2(off, i)) != tTRUE {
					break
				}
			}
		}
		if s.op == UNIT && i == tZERO {
			return intern(&Term{op: UNIT, args: []*Term{v}})
		}
		if s.op == UPD && s.args[1] == i {
			return mkUpd(s.args[0], i, v)
		}
		if s.op == UPD {
			// order independent constant updates
			if d := mkSub2(s.args[1], i); isConst(d) && d.rat.Sign() > 0 {
				return mkUpd(mkUpd(s.args[0], i, v), s.args[1], s.args[2])
			}
		}
		return intern(&Term{op: UPD, args: []*Term{s, i, v}})
	}, s, i, v)
}

// ---- maps ----

func mkMapUpd(m, k, v *Term) *Term {
	return lift("mupd", func(a []*Term) *Term {
		m, k, v := a[0], a[1], a[2]
		if m.op == MUPD && m.args[1] == k {
			return mkMapUpd(m.args[0], k, v)
		}
		if m.op == MUPD && distinctKeys(m.args[1], k) && less(k, m.args[1]) {
			return mkMapUpd(mkMapUpd(m.args[0], k, v), m.args[1], m.args[2])
		}
		return intern(&Term{op: MUPD, args: []*Term{m, k, v}})
	}, m, k, v)
}

func distinctKeys(a, b *Term) bool {
	if a.op == STR && b.op == STR {
		return a != b
	}
	if numeric(a) && numeric(b) {
		d := mkSub2(a, b)
		return isConst(d) && d != tZERO
	}
	return false
}

func numeric(t *Term) bool {
	switch t.op {
	case CONST, POLY, LEN, BLEN, BIT, P2, FDIV:
		return true
	}
	return false
}

func mkMapGet(m, k, zero *Term) *Term {
	return lift("mget", func(a []*Term) *Term {
		m, k := a[0], a[1]
		switch m.op {
		case MUPD:
			if m.args[1] == k {
				return m.args[2]
			}
			if distinctKeys(m.args[1], k) {
				return mkMapGet(m.args[0], k, a[2])
			}
		case MNEW, NIL:
			return a[2]
		case BOT, PANIC:
			return m
		}
		return intern(&Term{op: MGET, args: []*Term{m, k, a[2]}})
	}, m, k, zero)
}

func mkMapHas(m, k *Term) *Term {
	return lift("mhas", func(a []*Term) *Term {
		m, k := a[0], a[1]
		switch m.op {
		case MUPD:
			if m.args[1] == k {
				return tTRUE
			}
			if distinctKeys(m.args[1], k) {
				return mkMapHas(m.args[0], k)
			}
		case MNEW, NIL:
			return tFALSE
		case BOT, PANIC:
			return tBOT
		}
		return asCond(intern(&Term{op: MHAS, args: []*Term{m, k}}))
	}, m, k)
}

// ---- interfaces ----

func mkIsType(typ string, iface bool, impl func(dyn string) bool, x *Term) *Term {
	return lift("istype:"+typ, func(a []*Term) *Term {
		x := a[0]
		switch x.op {
		case MKI:
			if iface {
				if impl != nil {
					return mkBool(impl(x.aux))
				}
			} else {
				return mkBool(x.aux == typ)
			}
		case NIL:
			return tFALSE
		case BOT, PANIC, DC:
			return tBOT
		}
		p := typ
		if iface {
			p = "I:" + typ
		}
		return asCond(intern(&Term{op: ISTYP, aux: p, args: []*Term{x}}))
	}, x)
}

func mkAssert(typ string, iface bool, zero, x *Term) *Term {
	return lift("assert:"+typ, func(a []*Term) *Term {
		x := a[0]
		if x.op == MKI {
			if iface {
				return x
			}
			if x.aux == typ {
				return x.args[0]
			}
			return a[1]
		}
		switch x.op {
		case NIL:
			return a[1]
		case BOT, PANIC, DC:
			return x
		}
		if iface {
			return x
		}
		return intern(&Term{op: X, aux: "assert:" + typ, args: []*Term{x}})
	}, x, zero)
}
