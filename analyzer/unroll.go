package main

import (
	"fmt"
)

// Runs with few iterations. Loops that cannot be compared as a whole are
// compared for the runs on which every loop makes the same small number of
// turns: the loop is replaced by the value it has then, under the condition
// that it makes just these turns. A decided difference on such a run decides
// the whole.

const maxTurns = 2

type turns struct {
	n    int
	upTo bool  // any number of turns up to n
	k    *Term // condition for that number of turns
	memo map[*Term]*Term
	etas int
}

func (u *turns) expand(t *Term) *Term {
	if r, ok := u.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case ETA:
		r = u.eta(t)
	case LAM:
		r = t
	default:
		r = rebuild(t, u.expand)
	}
	u.memo[t] = r
	return r
}

func (u *turns) eta(t *Term) *Term {
	u.etas++
	if u.etas > 60 {
		panic(tooComplex{"too many loops"})
	}
	if u.upTo {
		return u.etaUpTo(t)
	}
	l, exit := openEta(t)
	state := map[*Term]*Term{l.T: tZERO}
	for _, m := range l.mus {
		state[m.sym] = u.expand(m.init)
	}
	for i := 0; ; i++ {
		c := u.expand(subst(l.C, state))
		if i == u.n {
			u.k = mkAnd(u.k, condOf(c, tFALSE))
			break
		}
		u.k = mkAnd(u.k, condOf(c, tTRUE))
		if u.k == tFALSE {
			panic(tooComplex{"no such run"})
		}
		next := map[*Term]*Term{l.T: mkInt(int64(i + 1))}
		for _, m := range l.mus {
			next[m.sym] = u.expand(subst(m.next, state))
		}
		state = next
	}
	if u.k == tFALSE {
		panic(tooComplex{"no such run"})
	}
	return u.expand(subst(exit, state))
}

// etaUpTo is the value of the loop if it makes at most n turns.
func (u *turns) etaUpTo(t *Term) *Term {
	l, exit := openEta(t)
	state := map[*Term]*Term{l.T: tZERO}
	for _, m := range l.mus {
		state[m.sym] = u.expand(m.init)
	}
	var conds, exits []*Term
	for i := 0; i <= u.n; i++ {
		c := condOf(u.expand(subst(l.C, state)), tFALSE)
		conds = append(conds, c) // the loop ends here
		exits = append(exits, u.expand(subst(exit, state)))
		if i == u.n || c == tTRUE {
			break
		}
		next := map[*Term]*Term{l.T: mkInt(int64(i + 1))}
		for _, m := range l.mus {
			next[m.sym] = u.expand(subst(m.next, state))
		}
		state = next
	}
	r := tBOT
	for i := len(conds) - 1; i >= 0; i-- {
		r = ite(conds[i], exits[i], r)
	}
	return r
}

// unrolled looks for a decided difference on runs with few iterations.
func unrolled(a, b *Term, limit int) (why string, pos *Term) {
	for n := 0; n <= maxTurns; n++ {
		if w, p := unrolledAt(a, b, n, limit); w != "" {
			return fmt.Sprintf("on runs with %d iterations: %s", n, w), p
		}
	}
	return "", nil
}

func unrolledAt(a, b *Term, n, limit int) (why string, pos *Term) {
	budget = limit
	defer func() {
		budget = 1 << 60
		if x := recover(); x != nil {
			if _, ok := x.(tooComplex); !ok {
				panic(x)
			}
			why, pos = "", nil
		}
	}()
	u := &turns{n: n, k: tTRUE, memo: map[*Term]*Term{}}
	y := u.expand(b)
	own := atomsOf(ite(u.k, y, tBOT))
	x := u.expand(a)
	if u.etas == 0 {
		return "", nil
	}
	x, y = ite(u.k, x, tBOT), ite(u.k, y, tBOT)
	atomsB := map[*Term]bool{}
	for _, t := range own {
		atomsB[t] = true
	}
	d := newDiffer()
	steps := 0
	var cube []literal
	var whole []*Term
	var walk func(x, y *Term)
	walk = func(x, y *Term) {
		steps++
		if x == y || why != "" || steps > 3000 {
			return
		}
		if x.op != ITE && y.op != ITE {
			if isUnreach(x) || isUnreach(y) {
				return
			}
			x, y := settled(x, cube), settled(y, cube)
			if x == y {
				return
			}
			if writesNowhere(x) || writesNowhere(y) {
				return
			}
			if whole == nil {
				whole = []*Term{x, y}
				defer func() { whole = nil }()
			}
			if each(x, y, walk) || !allSure(d.diff(settled(whole[0], cube), settled(whole[1], cube))) {
				return
			}
			ps := d.diff(x, y)
			if !allSure(ps) || pinned(cube, x, y) {
				return
			}
			known := true
			for _, l := range cube {
				if !atomsB[l.atom] {
					known = false
				}
			}
			if known && satisfiable(cube) || possible(cube) && !impliedByCall(cube, atomsB) {
				why, pos = describePairs(ps), ps[0].a
			}
			return
		}
		t := topAtom(x, y)
		for _, l := range cube {
			if l.atom == t {
				walk(cof(x, t, l.val), cof(y, t, l.val))
				return
			}
		}
		cube = append(cube, literal{t, true})
		walk(cof(x, t, true), cof(y, t, true))
		cube[len(cube)-1].val = false
		walk(cof(x, t, false), cof(y, t, false))
		cube = cube[:len(cube)-1]
	}
	walk(x, y)
	return why, pos
}

// settled simplifies the decisions inside t that the comparisons settle.
func settled(t *Term, cube []literal) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		for r.op == ITE {
			o := r
			for _, l := range cube {
				r = cof(r, l.atom, l.val)
			}
			if r == o {
				break
			}
		}
		if r.op != LAM && r.op != ETA {
			r = rebuild(r, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// writesNowhere: the run fails on an absent object.
func writesNowhere(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == TUP && t.aux == "write" && len(t.args) > 0 && t.args[0].op == NIL {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
