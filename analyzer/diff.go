package main

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// A pair is a place where two value graphs differ.
type pair struct {
	a, b *Term
	cond *Term  // condition under which the difference is visible, if known
	sure bool   // the two sides are different functions of the same quantities
	why  string // kind of difference
}

const undefinedValue = "undefined value"

type differ struct {
	memo      map[[2]*Term][]pair
	depth     int
	steps     int
	giveup    bool
	nilTested bool // callers tell an absent result from an empty one
	region    bool // parts of a function: the inputs are related
}

func newDiffer() *differ { return &differ{memo: map[[2]*Term][]pair{}} }

func unsure(a, b *Term, why string) []pair { return []pair{{a: a, b: b, why: why}} }
func sure(a, b *Term, why string) []pair   { return []pair{{a: a, b: b, sure: true, why: why}} }

// diff lists the smallest places where a and b differ.
func (d *differ) diff(a, b *Term) []pair {
	if a == b {
		return nil
	}
	k := [2]*Term{a, b}
	if r, ok := d.memo[k]; ok {
		return r
	}
	d.steps++
	spend(20)
	d.depth++
	if d.depth > 400 || d.steps > 20000 {
		d.depth--
		d.giveup = true
		return unsure(a, b, "difference too large")
	}
	d.memo[k] = unsure(a, b, "recursive")
	r := d.diff1(a, b)
	d.depth--
	r = dedupe(r)
	d.memo[k] = r
	return r
}

func dedupe(ps []pair) []pair {
	type k struct{ a, b *Term }
	seen := map[k]bool{}
	var out []pair
	for _, p := range ps {
		if seen[k{p.a, p.b}] {
			continue
		}
		seen[k{p.a, p.b}] = true
		out = append(out, p)
	}
	return out
}

// cost orders alternative explanations.
func cost(ps []pair) int {
	n := 0
	for _, p := range ps {
		n += 10
		if !p.sure {
			n += 100
		}
		s := p.a.size + p.b.size
		if s > 400 {
			s = 400
		}
		n += s / 40
	}
	return n
}

func best(alts ...[]pair) []pair {
	var r []pair
	for _, a := range alts {
		if a == nil {
			continue
		}
		if r == nil || cost(a) < cost(r) {
			r = a
		}
	}
	return r
}

func without(xs, ys []*Term) []*Term {
	m := map[*Term]bool{}
	for _, y := range ys {
		m[y] = true
	}
	var out []*Term
	for _, x := range xs {
		if !m[x] {
			out = append(out, x)
		}
	}
	return out
}

func isUnreach(t *Term) bool { return t.op == BOT || t.op == DC || t.op == PANIC }

// fieldwise: when the structure a is b with some of its fields changed, the
// fields of b; else nil.
func fieldwise(a, b *Term) []*Term {
	if a.op != TUP || b.op == TUP || len(a.args) < 2 {
		return nil
	}
	n := len(a.args)
	kept := false
	fs := make([]*Term, n)
	for i := range fs {
		fs[i] = mkSel(a.aux, n, i, b)
		if fs[i].op != SEL {
			return nil
		}
		if fs[i] == a.args[i] {
			kept = true
		}
	}
	if !kept {
		return nil
	}
	return fs
}

func (d *differ) diff1(a, b *Term) []pair {
	if a.op == ITE || b.op == ITE {
		return d.diffITE(a, b)
	}
	if isUnreach(a) || isUnreach(b) {
		// one side has no value here
		return unsure(a, b, undefinedValue)
	}
	if numericOp(a) || numericOp(b) {
		if r := d.diffNum(a, b); r != nil {
			return r
		}
	}
	if r := d.otherInput(a, b); r != nil {
		return r
	}
	if r := pipeline(a, b); r != nil {
		return r
	}
	if a.op == CAT || b.op == CAT {
		if r := d.diffCat(a, b); r != nil {
			return r
		}
	}
	if a.op == b.op {
		switch a.op {
		case STR, NIL, ERR, BOOLC, SYM, BV, CONST:
			return sure(a, b, "different value")
		case ETA:
			return d.diffEta(a, b)
		case LAM:
			return d.diffLam(a, b)
		case TAB:
			s, x := openTab(a)
			t, y := openTab(b)
			y = subst(y, map[*Term]*Term{t: s})
			return append(d.diff(a.args[0], b.args[0]), d.diff(x, y)...)
		case LEN:
			// a list a loop updates may be as long as one it is given
			if x, y := a.args[0], b.args[0]; x.op == SYM && y.op == SYM && (x.sid != 0) != (y.sid != 0) {
				return unsure(a, b, "length of another list")
			}
		case LE:
			if a.args[0] == b.args[0] {
				return sure(a, b, "different bound")
			}
			return d.diffAtomLE(a, b)
		case EFF:
			return d.diffEff(a, b)
		case TUP:
			if a.aux == "outcome" && b.aux == "outcome" {
				return d.diffOutcome(a, b)
			}
		}
		if a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 {
			var out []pair
			for i := range a.args {
				out = append(out, d.diff(a.args[i], b.args[i])...)
			}
			if a.op == EQ {
				var alt []pair
				alt = append(alt, d.diff(a.args[0], b.args[1])...)
				alt = append(alt, d.diff(a.args[1], b.args[0])...)
				if cost(alt) < cost(out) {
					out = alt
				}
			}
			return out
		}
		switch a.op {
		case SEL, FADDR:
			if len(a.args) == 1 && a.args[0] == b.args[0] {
				return sure(a, b, "different field")
			}
		case MEM:
			if a.aux == b.aux {
				return unsure(a, b, "different memory version")
			}
		case CALL:
			if a.aux != b.aux {
				return d.diffCallee(a, b)
			}
		case X:
			if a.aux != b.aux && strings.HasPrefix(a.aux, "funcref:") && strings.HasPrefix(b.aux, "funcref:") {
				return sure(a, b, "different function")
			}
			if pureExt(a) && pureExt(b) && a.aux != b.aux && sameArgs(a, b) {
				return sure(a, b, "different library function")
			}
			if a.aux != b.aux && knownX(a.aux) && knownX(b.aux) && len(a.args) == len(b.args) {
				same := true
				for i := range a.args {
					if a.args[i] != b.args[i] {
						same = false
					}
				}
				if same {
					return sure(a, b, "different operation")
				}
			}
		case MKI, ISTYP:
			if len(a.args) == 1 && len(b.args) == 1 && a.args[0] == b.args[0] {
				return sure(a, b, "different type")
			}
		}
		return unsure(a, b, "different shape")
	}
	if a.op == EFF || b.op == EFF {
		return d.diffEff(a, b)
	}
	if presence(a, b) {
		return unsure(a, b, "another test for a key")
	}
	if r := wrapper(a, b); r != nil {
		return r
	}
	if fs := fieldwise(a, b); fs != nil {
		var out []pair
		for i := range fs {
			out = append(out, d.diff(a.args[i], fs[i])...)
		}
		return out
	}
	if fs := fieldwise(b, a); fs != nil {
		var out []pair
		for i := range fs {
			out = append(out, d.diff(fs[i], b.args[i])...)
		}
		return out
	}
	if isAtomic(a) && isAtomic(b) {
		return sure(a, b, "different value")
	}
	if a.op == NIL && b.op == MKI || a.op == MKI && b.op == NIL {
		return sure(a, b, "a value for none, or none for a value")
	}
	if changesStore(a, b) {
		return sure(a, b, "removed the change of a number")
	}
	if changesStore(b, a) {
		return sure(a, b, "added a change of a number")
	}
	if a.op == EQ && pureExt(b) && sameArgs(a, b) || b.op == EQ && pureExt(a) && sameArgs(a, b) {
		return sure(a, b, "different comparison")
	}
	return unsure(a, b, "different shape")
}

// changesStore: b is the memory a with one number certainly changed.
func changesStore(a, b *Term) bool {
	if b.op != X || b.aux != "nstore" || len(b.args) != 3 || b.args[0] != a {
		return false
	}
	was := mk(X, "nload", a, b.args[1])
	now := b.args[2]
	return nonneg(mkAdd(mkSub2(now, was), mkInt(-1))) || nonneg(mkAdd(mkSub2(was, now), mkInt(-1))) || isPower(mkSub2(now, was)) || isPower(mkSub2(was, now))
}

func isPower(t *Term) bool { return t.op == P2 }

// pureExt are calls of library functions that only compute.
func pureExt(t *Term) bool {
	if t.op != X || !strings.HasPrefix(t.aux, "ext:") {
		return false
	}
	for _, p := range []string{"strings.", "strconv.", "bytes.", "math.", "math/bits.", "unicode.", "path/filepath."} {
		if strings.HasPrefix(t.aux[4:], p) {
			return true
		}
	}
	return false
}

func sameArgs(a, b *Term) bool {
	if len(a.args) != len(b.args) {
		return false
	}
	direct, swapped := true, len(a.args) == 2
	for i := range a.args {
		if a.args[i] != b.args[i] {
			direct = false
		}
		if a.args[i] != b.args[len(b.args)-1-i] {
			swapped = false
		}
	}
	return direct || swapped
}

// knownX reports whether an X operation has a fixed meaning.
func knownX(aux string) bool {
	switch aux {
	case "and", "or", "xor", "tquo", "trem", "ediv", "emod", "sign", "fadd", "fmul", "fsub", "fdiv", "flt", "fle", "feq", "strlt", "abs":
		return true
	}
	return false
}

func numericOp(t *Term) bool { return t.op == CONST || t.op == POLY }

// atomic values are parts of the function's input or constants.
func isAtomic(t *Term) bool {
	switch t.op {
	case SYM, BV, STR, NIL, ERR, CONST, BOOLC, MNEW:
		return true
	case SEL:
		return isAtomic(t.args[0])
	case MEM:
		return isAtomic(t.args[0])
	case ELEM:
		return isAtomic(t.args[0]) && isAtomic(t.args[1])
	case X:
		return strings.HasPrefix(t.aux, "global:") || strings.HasPrefix(t.aux, "funcref:")
	}
	return false
}

// otherInput recognises quantities that are computed from different parameters
// of the function.
func (d *differ) otherInput(a, b *Term) []pair {
	if d.region {
		return nil
	}
	ra, ok1 := inputsOf(a)
	rb, ok2 := inputsOf(b)
	if !ok1 || !ok2 || len(ra) == 0 || len(rb) == 0 {
		return nil
	}
	for x := range ra {
		if rb[x] {
			return nil
		}
	}
	for _, m := range []map[*Term]bool{ra, rb} {
		for x := range m {
			// what a loop has computed may depend on the parameters
			if x.sid != 0 {
				return nil
			}
		}
	}
	return sure(a, b, "computed from another input")
}

// inputsOf lists the parameters a simple quantity is computed from.
func inputsOf(t *Term) (map[*Term]bool, bool) {
	m := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		switch t.op {
		case SYM:
			m[t] = true
			return true
		case CONST:
			return true
		case SEL, MEM, LEN, BLEN:
			return walk(t.args[0])
		case ELEM:
			return walk(t.args[0]) && walk(t.args[1])
		case POLY:
			for _, x := range t.poly {
				for _, f := range x.f {
					if !walk(f.t) {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	return m, walk(t)
}

// pipeline recognises the same processing steps of a value left out, added or
// in another order.
func pipeline(a, b *Term) []pair {
	sa, sb := stages(a), stages(b)
	for _, x := range sa {
		for _, y := range sb {
			if x.base != y.base || len(x.names)+len(y.names) == 0 {
				continue
			}
			n, m := x.names, y.names
			switch {
			case subList(n, m):
				return sure(a, b, "processing removed")
			case subList(m, n):
				return sure(a, b, "processing added")
			}
			p, q := append([]string{}, n...), append([]string{}, m...)
			sort.Strings(p)
			sort.Strings(q)
			if strings.Join(p, "|") == strings.Join(q, "|") {
				return sure(a, b, "processing in another order")
			}
			return nil
		}
	}
	return nil
}

// copies are the functions that return a copy of the number they are given.
var (
	copies = map[string]bool{}
	copyMu sync.Mutex
)

func isCopy(f *ssa.Function) bool {
	if len(f.Params) != 1 || len(f.Blocks) != 1 {
		return false
	}
	b := f.Blocks[0]
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) != 1 {
		return false
	}
	c, ok := ret.Results[0].(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 {
		return false
	}
	return c.Call.StaticCallee().RelString(nil) == "(*math/big.Int).Set" && c.Call.Args[1] == f.Params[0]
}

// bothEmpty reports whether x and y are the same if two values whose lengths
// are tested are both empty.
func bothEmpty(x, y *Term, aa, ab []*Term) bool {
	var es []*Term
	for _, t := range append(append([]*Term{}, aa...), without(ab, aa)...) {
		if t.op == LE && t.args[0].op == LEN && t.rat.Sign() == 0 {
			es = append(es, t.args[0].args[0])
		}
	}
	if len(es) < 2 || len(es) > 4 {
		return false
	}
	for _, s := range es {
		for _, t := range es {
			if s != t && !containsTerm(t, s) && s.op == SEL && t.op == SEL && putFor(x, s, t) == putFor(y, s, t) {
				return true
			}
		}
	}
	return false
}

// floatNeg reports whether x is a < b and y is b <= a: one is the negation of
// the other for all but NaN.
func floatNeg(x, y *Term) bool {
	return x.op == X && y.op == X && x.aux == "flt" && y.aux == "fle" && x.args[0] == y.args[1] && x.args[1] == y.args[0]
}

// countTest reports whether the only change is that a count, an element of a
// table, is compared with zero in another way (> 0 or != 0).
func countTest(xa, xb, aa, ab []*Term) bool {
	if len(xa)+len(xb) == 0 {
		return false
	}
	for _, x := range append(append([]*Term{}, xa...), xb...) {
		if x.op != LE || x.args[0].op != ELEM && x.args[0].op != MGET || x.rat.Cmp(big.NewRat(-1, 1)) != 0 {
			return false
		}
		has := func(l []*Term) bool {
			for _, y := range l {
				if y.op == LE && y.args[0] == x.args[0] && y.rat.Sign() == 0 {
					return true
				}
			}
			return false
		}
		if !has(aa) || !has(ab) {
			return false
		}
	}
	return true
}

// negativeCount reports whether the assumptions say that a count kept in a
// table or list is negative: these are raised from zero and never are.
func negativeCount(cube []literal) bool {
	for _, l := range cube {
		if l.val && l.atom.op == LE && l.atom.rat.Cmp(big.NewRat(-1, 1)) == 0 && (l.atom.args[0].op == ELEM || l.atom.args[0].op == MGET) {
			return true
		}
	}
	return false
}

// equalities restricts a and b to the inputs for which a tested equality does
// not hold, if they are the same for those for which it holds.
func equalities(a, b *Term, atoms []*Term) (*Term, *Term, bool) {
	n := 0
	done := false
	for _, t := range atoms {
		if t.op != EQ {
			continue
		}
		if n++; n > 3 {
			break
		}
		at, bt := settle(a, []*Term{t}, true), settle(b, []*Term{t}, true)
		if at == bt {
			continue
		}
		for _, o := range [][2]int{{0, 1}, {1, 0}} {
			x, y := t.args[o[0]], t.args[o[1]]
			if x.op == POLY || x.op == CONST || x.op == STR || containsTerm(y, x) {
				continue
			}
			if putFor(at, x, y) == putFor(bt, x, y) {
				a, b, done = settle(a, []*Term{t}, false), settle(b, []*Term{t}, false), true
				break
			}
		}
	}
	return a, b, done
}

// presence reports whether one condition asks if a map has a key and the other
// one if the value for the key is nil.
func presence(a, b *Term) bool {
	if a.op != MHAS {
		a, b = b, a
	}
	return a.op == MHAS && b.op == ISNIL && b.args[0].op == MGET && a.args[0] == b.args[0].args[0] && a.args[1] == b.args[0].args[1]
}

type stage struct {
	base  *Term
	names []string // outermost first
}

// stages peels calls with one argument off a value.
func stages(t *Term) []stage {
	out := []stage{{t, nil}}
	var names []string
	for len(out) < 6 {
		switch {
		case t.op == CALL && len(t.args) == 1 && copies[t.aux]:
			// the same value
			t = t.args[0]
			if len(names) == 0 {
				out = []stage{{t, nil}}
				continue
			}
		case t.op == CALL && len(t.args) == 1 && !strings.HasPrefix(t.aux, "invoke:"):
			names = append(names, t.aux)
			t = t.args[0]
		case t.op == X && strings.HasPrefix(t.aux, "post:") && len(t.args) == 1 && t.args[0].op == CALL && len(t.args[0].args) == 1:
			names = append(names, "post "+t.args[0].aux)
			t = t.args[0].args[0]
		case t.op == X && t.aux == "sortby" && len(t.args) == 2:
			names = append(names, "sort "+string(t.args[1].h[:]))
			t = t.args[0]
		case t.op == X && t.aux == "new" && len(t.args) == 1 && len(names) > 0:
			t = t.args[0]
			continue
		default:
			return out
		}
		out = append(out, stage{t, append([]string{}, names...)})
	}
	return out
}

func subList(n, m []string) bool {
	if len(n) >= len(m) {
		return false
	}
	i := 0
	for _, x := range m {
		if i < len(n) && n[i] == x {
			i++
		}
	}
	return i == len(n)
}

// wrapper recognises f(t) against t.
func wrapper(a, b *Term) []pair {
	try := func(x, y *Term, what string) []pair {
		if x.op == X && strings.HasPrefix(x.aux, "post:") && len(x.args) > 0 {
			// what a call left in an argument against the argument itself
			for _, c := range x.args[0].args {
				if c == y || c.op == AT && c.args[1] == y {
					return sure(a, b, what+" the effect of a call")
				}
			}
		}
		if x.op == X && x.aux == "sortby" && x.args[0] == y {
			return sure(a, b, what+" sorting")
		}
		for _, c := range x.args {
			if c == y {
				switch x.op {
				case X:
					if pureExt(x) {
						return sure(a, b, what+" "+x.aux[4:])
					}
					if strings.HasPrefix(x.aux, "sorted") || strings.HasPrefix(x.aux, "abs") || knownX(x.aux) {
						return sure(a, b, what+" "+x.aux)
					}
				case UPD, FDIV, SUB, MUPD, MDEL, BIT, P2, LEN, BLEN:
					return sure(a, b, what+" "+string(x.op))
				case MKI, BOX, AT:
					return nil
				}
			}
		}
		return nil
	}
	if r := try(a, b, "added"); r != nil {
		return r
	}
	return try(b, a, "removed")
}

func (d *differ) diffCallee(a, b *Term) []pair {
	if len(a.args) == len(b.args) {
		same := true
		for i := range a.args {
			if a.args[i] != b.args[i] {
				same = false
			}
		}
		if same {
			return sure(a, b, "different callee")
		}
	}
	return unsure(a, b, "different callee")
}

// ---- numbers ----

func factorsOf(t *Term) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, x := range polyOf(t) {
		for _, f := range x.f {
			if !m[f.t] {
				m[f.t] = true
				out = append(out, f.t)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i], out[j]) })
	return out
}

func replacePoly(t, from, to *Term) *Term {
	return rebuild2(t, func(x *Term) *Term {
		if x == from {
			return to
		}
		return x
	})
}

func rebuild2(t *Term, f func(*Term) *Term) *Term {
	if t.op == POLY {
		return rebuild(t, f)
	}
	return f(t)
}

func (d *differ) diffNum(a, b *Term) []pair {
	fa, fb := factorsOf(a), factorsOf(b)
	xa, xb := without(fa, fb), without(fb, fa)
	switch {
	case len(xa) == 0 && len(xb) == 0:
		return sure(a, b, "different arithmetic")
	case len(xa) == 1 && len(xb) == 1:
		if replacePoly(a, xa[0], xb[0]) == b {
			return d.diff(xa[0], xb[0])
		}
		if isAtomic(xa[0]) && isAtomic(xb[0]) {
			return sure(a, b, "different arithmetic")
		}
		if r := d.otherInput(a, b); r != nil {
			return r
		}
		// exponents of two: 2^x against 2^y
		return unsure(a, b, "different arithmetic")
	case d.otherInput(a, b) != nil:
		return d.otherInput(a, b)
	case len(xa)+len(xb) == 1:
		x := append(xa, xb...)[0]
		if simpleNum(x) {
			return sure(a, b, "different arithmetic")
		}
		return unsure(a, b, "different arithmetic")
	case len(xa) == len(xb) && len(xa) <= 3:
		// align by replacing one factor at a time
		var out []pair
		cur := a
		rest := append([]*Term{}, xb...)
		for _, x := range xa {
			bi, bc := -1, 0
			var bp []pair
			for i, y := range rest {
				p := d.diff(x, y)
				if c := cost(p); bi < 0 || c < bc {
					bi, bc, bp = i, c, p
				}
			}
			cur = replacePoly(cur, x, rest[bi])
			out = append(out, bp...)
			rest = append(rest[:bi], rest[bi+1:]...)
		}
		if cur == b {
			return out
		}
	}
	return unsure(a, b, "different arithmetic")
}

// simpleNum terms vary freely with the input.
func simpleNum(t *Term) bool {
	switch t.op {
	case SYM, BV, LEN, BLEN, ELEM, SEL, MEM, P2, FDIV:
		return true
	case MGET:
		return true
	case X:
		return t.aux == "tquo"
	}
	return false
}

func (d *differ) diffAtomLE(a, b *Term) []pair {
	p := mkSub2(a.args[0], mkRat(a.rat))
	q := mkSub2(b.args[0], mkRat(b.rat))
	return d.diff(p, q)
}

// ---- sequences ----

func (d *differ) diffCat(a, b *Term) []pair {
	if d.nilTested && (a.op == NIL && b == tEMPTY || b.op == NIL && a == tEMPTY) {
		return sure(a, b, "an empty sequence for an absent one")
	}
	pa, pb := pieces(a), pieces(b)
	if a == tEMPTY {
		pa = nil
	}
	if b == tEMPTY {
		pb = nil
	}
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	pa, pb = pa[i:], pb[i:]
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	if len(pa) == len(pb) {
		var out []pair
		for i := range pa {
			if pa[i].op == CAT || pb[i].op == CAT {
				return nil
			}
			out = append(out, d.diff(pa[i], pb[i])...)
		}
		return out
	}
	if atEnd(pa, pb) || atEnd(pb, pa) {
		return sure(a, b, "put at the end instead of in its place")
	}
	if len(pa) == 0 || len(pb) == 0 {
		ps := append(append([]*Term{}, pa...), pb...)
		if len(ps) == 1 && ps[0].op == UNIT {
			return sure(a, b, "element added or removed")
		}
		if len(ps) <= 3 {
			all := true
			for _, p := range ps {
				if p.op != UNIT {
					all = false
				}
			}
			if all {
				return sure(a, b, "elements added or removed")
			}
		}
	}
	return unsure(a, b, "different sequence")
}

// atEnd: one side puts an element into a sorted list at its place, the other
// one at the end of the same list.
func atEnd(pa, pb []*Term) bool {
	if len(pa) != 1 || len(pb) < 2 || pa[0].op != CALL || pa[0].aux != "internal/bigints.InsertSortedUnique" || len(pa[0].args) != 2 {
		return false
	}
	last := pb[len(pb)-1]
	if last.op != UNIT {
		return false
	}
	x, e := pa[0].args[0], last.args[0]
	if mkCat(pb[:len(pb)-1]...) == x && pa[0].args[1] == e {
		return true
	}
	return mkCat(pb[:len(pb)-1]...) == pa[0].args[1] && x == e
}

// ---- effects ----

func effChain(t *Term) (list []*Term, base *Term) {
	for t.op == EFF && len(t.args) > 0 {
		list = append(list, t)
		if t.aux == "after" {
			c := t.args[0]
			if c.op == ITE || len(c.args) == 0 {
				break
			}
			t = c.args[len(c.args)-1]
			continue
		}
		t = t.args[0]
	}
	for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
		list[i], list[j] = list[j], list[i]
	}
	return list, t
}

func effKey(t *Term) string {
	s := t.aux
	if t.aux == "after" && len(t.args) > 0 {
		s += ":" + t.args[0].aux
	}
	return s
}

// quietEffect: effects another rule judges (goroutines) or that are allowed
// to change (logging).
func quietEffect(k string) bool {
	switch k {
	case "go", "send", "recv", "select", "defer", "close":
		return true
	}
	k = strings.ToLower(k)
	return strings.Contains(k, "sync.") || strings.Contains(k, "log.") || strings.Contains(k, "debug")
}

func (d *differ) diffEff(a, b *Term) []pair {
	la, ba := effChain(a)
	lb, bb := effChain(b)
	if len(la) == len(lb) {
		var out []pair
		out = append(out, d.diff(ba, bb)...)
		for i := range la {
			x, y := la[i], lb[i]
			if effKey(x) != effKey(y) {
				return unsure(a, b, "different effect")
			}
			xs, ys := x.args, y.args
			if x.aux == "after" {
				xs, ys = x.args[0].args, y.args[0].args
				if len(xs) == 0 || len(ys) == 0 {
					return unsure(a, b, "different effect")
				}
				xs, ys = xs[:len(xs)-1], ys[:len(ys)-1]
			} else {
				xs, ys = xs[1:], ys[1:]
			}
			if len(xs) != len(ys) {
				return unsure(a, b, "different effect")
			}
			for j := range xs {
				out = append(out, d.diff(xs[j], ys[j])...)
			}
		}
		return out
	}
	// an effect added or removed
	short, long := la, lb
	if len(short) > len(long) {
		short, long = long, short
	}
	if len(long)-len(short) <= 2 && ba == bb {
		i, j := 0, 0
		for i < len(short) && j < len(long) {
			if effKey(short[i]) == effKey(long[j]) {
				i++
			} else if quietEffect(effKey(long[j])) {
				return unsure(a, b, "different effects")
			}
			j++
		}
		for ; j < len(long); j++ {
			if quietEffect(effKey(long[j])) {
				return unsure(a, b, "different effects")
			}
		}
		if i == len(short) {
			return sure(a, b, "effect added or removed")
		}
	}
	return unsure(a, b, "different effects")
}

func (d *differ) diffOutcome(a, b *Term) []pair {
	var out []pair
	parts := func(t *Term) map[string][]*Term {
		m := map[string][]*Term{}
		for _, x := range t.args {
			k := x.aux
			if k == "write" {
				k += " " + string(x.args[0].h[:])
			}
			m[k] = append(m[k], x)
		}
		return m
	}
	pa, pb := parts(a), parts(b)
	var keys []string
	for k := range pa {
		keys = append(keys, k)
	}
	for k := range pb {
		if pa[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var onlyA, onlyB []*Term
	for _, k := range keys {
		x, y := pa[k], pb[k]
		if k == "heap:$log" {
			continue
		}
		if len(x) != len(y) {
			onlyA = append(onlyA, x...)
			onlyB = append(onlyB, y...)
			continue
		}
		for i := range x {
			if x[i] == y[i] {
				continue
			}
			if len(x[i].args) != len(y[i].args) {
				out = append(out, unsure(x[i], y[i], "different shape")...)
				continue
			}
			for j := range x[i].args {
				out = append(out, d.diff(x[i].args[j], y[i].args[j])...)
			}
		}
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && onlyA[0].aux == "write" && onlyB[0].aux == "write" {
		// same value written somewhere else, or the place is described differently
		out = append(out, d.diff(onlyA[0].args[0], onlyB[0].args[0])...)
		out = append(out, d.diff(onlyA[0].args[1], onlyB[0].args[1])...)
		return out
	}
	for _, x := range onlyA {
		out = append(out, effectPair(x, tNIL, "added"))
	}
	for _, x := range onlyB {
		if x.aux == "panics" && len(out) > 0 {
			continue // no reason for the other differences
		}
		out = append(out, effectPair(tNIL, x, "removed"))
	}
	return out
}

func effectPair(a, b *Term, how string) pair {
	x := a
	if x == tNIL {
		x = b
	}
	p := pair{a: a, b: b, why: x.aux + " " + how}
	switch {
	case x.aux == "write":
		p.sure = true
	case x.aux == "world":
		p.sure = true
	case x.aux == "panics":
		p.sure = how == "added"
	case strings.HasPrefix(x.aux, "heap:"):
		p.sure = false
	}
	return p
}

// ---- lambda and loops ----

func (d *differ) diffLam(a, b *Term) []pair {
	if a.aux != b.aux {
		return unsure(a, b, "different function")
	}
	ps, x := openLam(a)
	qs, y := openLam(b)
	m := map[*Term]*Term{}
	for i := range ps {
		m[qs[i]] = ps[i]
	}
	return d.diff(x, subst(y, m))
}

func (d *differ) diffEta(a, b *Term) []pair {
	la, xa := openEta(a)
	lb, xb := openEta(b)
	m := map[*Term]*Term{lb.T: la.T}
	// match loop variables by signature, then by similarity
	ca, cb := la.colors(la.mus), lb.colors(lb.mus)
	usedA := map[int]bool{}
	matchB := map[int]int{}
	for j, v := range lb.mus {
		for i, u := range la.mus {
			if !usedA[i] && ca[u.sym] == cb[v.sym] {
				usedA[i] = true
				matchB[j] = i
				break
			}
		}
	}
	// variables that start with a value of their own
	start := func(mus []*mu, v *mu, used func(int) bool) bool {
		for i, u := range mus {
			if u != v && !used(i) && u.init == v.init {
				return false
			}
		}
		return true
	}
	inA := func(i int) bool { return usedA[i] }
	inB := func(j int) bool { _, ok := matchB[j]; return ok }
	for j, v := range lb.mus {
		if inB(j) || !start(lb.mus, v, inB) {
			continue
		}
		for i, u := range la.mus {
			if !inA(i) && u.init == v.init && start(la.mus, u, inA) {
				usedA[i] = true
				matchB[j] = i
				break
			}
		}
	}
	var ra, rb []int
	for i := range la.mus {
		if !usedA[i] {
			ra = append(ra, i)
		}
	}
	for j := range lb.mus {
		if _, ok := matchB[j]; !ok {
			rb = append(rb, j)
		}
	}
	for j, i := range matchB {
		m[lb.mus[j].sym] = la.mus[i].sym
	}
	if len(ra) != len(rb) {
		return unsure(a, b, "different loop variables")
	}
	try := func(assign []int) []pair {
		mm := map[*Term]*Term{}
		for k, v := range m {
			mm[k] = v
		}
		for k, i := range assign {
			mm[lb.mus[rb[k]].sym] = la.mus[i].sym
		}
		var out []pair
		out = append(out, d.diff(la.C, subst(lb.C, mm))...)
		out = append(out, d.diff(xa, subst(xb, mm))...)
		one := func(i, j int) {
			out = append(out, d.diff(la.mus[i].init, lb.mus[j].init)...)
			nb := subst(lb.mus[j].next, mm)
			na := la.mus[i].next
			if na != nb {
				out = append(out, d.diff(na, nb)...)
			}
		}
		for j, i := range matchB {
			one(i, j)
		}
		for k, i := range assign {
			one(i, rb[k])
		}
		return dedupe(out)
	}
	if len(ra) == 0 {
		return try(nil)
	}
	if len(ra) > 3 {
		return unsure(a, b, "different loop variables")
	}
	var res []pair
	var perm func(cur []int, rest []int)
	perm = func(cur, rest []int) {
		if len(rest) == 0 {
			p := try(append([]int{}, cur...))
			if res == nil || cost(p) < cost(res) {
				res = p
			}
			return
		}
		for i := range rest {
			r := append(append([]int{}, rest[:i]...), rest[i+1:]...)
			perm(append(cur, rest[i]), r)
		}
	}
	perm(nil, ra)
	return res
}

// ---- decisions ----

func replaceAtom(t, from *Term, to *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != ITE {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		c := t.args[0]
		k := asCond(c)
		if c == from {
			k = to
		}
		r := ite(k, rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

func (d *differ) diffITE(a, b *Term) []pair {
	aa, ab := atomsOf(a), atomsOf(b)
	xa, xb := without(aa, ab), without(ab, aa)
	if sameBetween(a, b, xa, xb) {
		return unsure(a, b, "different conditions")
	}
	if countTest(xa, xb, aa, ab) {
		return unsure(a, b, "different conditions")
	}
	if x, y, ok := equalities(a, b, append(append([]*Term{}, aa...), without(ab, aa)...)); ok {
		if x == y {
			return unsure(a, b, "different conditions")
		}
		return d.diff(x, y)
	}
	var alts [][]pair
	if len(xa) == 1 && len(xb) == 1 {
		x, y := xa[0], xb[0]
		if replaceAtom(a, x, asCond(y)) == b {
			alts = append(alts, d.diff(x, y))
		} else if replaceAtom(a, x, mkNot(asCond(y))) == b {
			if p := d.diffNeg(x, y); p != nil {
				alts = append(alts, p)
			}
		}
	}
	// several atoms changed in the same way (an equality test is a pair of
	// inequalities)
	if len(xa) > 0 && len(xa) == len(xb) && len(xa) <= 4 && len(alts) == 0 {
		cur := a
		rest := append([]*Term{}, xb...)
		var ps []pair
		for _, x := range xa {
			bi, bc := -1, 0
			var bp []pair
			for i, y := range rest {
				p := d.diff(x, y)
				if c := cost(p); bi < 0 || c < bc {
					bi, bc, bp = i, c, p
				}
			}
			cur = replaceAtom(cur, x, asCond(rest[bi]))
			ps = append(ps, bp...)
			rest = append(rest[:bi], rest[bi+1:]...)
		}
		if cur == b {
			alts = append(alts, dedupe(ps))
		}
	}
	if r := best(alts...); r != nil && allSure(r) {
		return r
	}
	// leaves that differ
	type lp struct{ x, y *Term }
	where := map[lp]*Term{}
	var order []lp
	n := 0
	seen := map[[2]*Term]bool{}
	var walk func(x, y *Term)
	walk = func(x, y *Term) {
		if x == y || n > 4000 {
			return
		}
		if seen[[2]*Term{x, y}] {
			return
		}
		seen[[2]*Term{x, y}] = true
		n++
		if x.op != ITE && y.op != ITE {
			if x == tBOT || y == tBOT {
				// counted, but see below
			}
			k := lp{x, y}
			if where[k] == nil {
				where[k] = tTRUE
				order = append(order, k)
			}
			return
		}
		t := topAtom(x, y)
		walk(cof(x, t, true), cof(y, t, true))
		walk(cof(x, t, false), cof(y, t, false))
	}
	walk(a, b)
	if n > 4000 {
		return append(best(alts...), unsure(a, b, "different conditions")...)
	}
	boolPair := false
	if os.Getenv("VLEAF") != "" {
		for _, k := range order {
			fmt.Fprintln(os.Stderr, "LEAF", k.x.short(300), "=>", k.y.short(300))
		}
		for _, k := range xa {
			fmt.Fprintln(os.Stderr, "LEAF xa", k.short(1300))
		}
		for _, k := range xb {
			fmt.Fprintln(os.Stderr, "LEAF xb", k.short(1300))
		}
	}
	for _, k := range order {
		if k.x.op == BOOLC && k.y.op == BOOLC || k.x.op == NIL && k.y.op == ERR || k.x.op == ERR && k.y.op == NIL {
			boolPair = true
		}
	}
	if len(order) > 0 && len(order) <= 4 {
		all := true
		for _, k := range order {
			all = all && bothEmpty(k.x, k.y, aa, ab)
		}
		if all {
			return unsure(a, b, "different conditions")
		}
	}
	if !boolPair && len(order) <= 4 {
		var out []pair
		la, lb := map[*Term]bool{}, map[*Term]bool{}
		for _, l := range leavesOf(a) {
			la[l] = true
		}
		for _, l := range leavesOf(b) {
			lb[l] = true
		}
		for _, k := range order {
			ps := d.diff(k.x, k.y)
			if len(xa) > 0 && len(xb) > 0 && (lb[k.x] && la[k.y] || isUnreach(k.x) || isUnreach(k.y)) {
				// both sides can have both values, the conditions decide
				ps = unsure(k.x, k.y, "different conditions")
			}
			if len(xa)+len(xb) > 0 && (idempotent(k.x, k.y) || idempotent(k.y, k.x)) {
				// x op y is x when both are the same
				ps = unsure(k.x, k.y, "different conditions")
			}
			out = append(out, ps...)
		}
		// the difference may also be a condition that selects other values
		if (len(xa)+len(xb) <= 1 || len(xa) > 0 && len(xb) > 0) && !allSure(out) && sharedLeaves(a, b) {
			out = d.condChange(a, b, xa, xb)
		}
		alts = append(alts, dedupe(out))
	} else if len(order) > 0 {
		alts = append(alts, d.condChange(a, b, xa, xb))
	}
	if r := best(alts...); r != nil {
		return r
	}
	return unsure(a, b, "different conditions")
}

// sameBetween reports whether a and b agree although they test one quantity
// with different bounds: they are compared for each value between the bounds
// and beyond the first and the last bound; or they test an equality that only
// one of them tests, and are the same when it holds and when it does not.
func sameBetween(a, b *Term, xa, xb []*Term) bool {
	atoms := append(append([]*Term{}, xa...), xb...)
	if len(atoms) == 0 || len(atoms) > 6 {
		return false
	}
	if len(atoms) == 1 && atoms[0].op == EQ {
		x, y := atoms[0].args[0], atoms[0].args[1]
		if x.op == CONST || containsTerm(y, x) {
			x, y = y, x
		}
		if x.op == POLY || x.op == CONST || containsTerm(y, x) {
			return false
		}
		return settle(a, atoms, false) == settle(b, atoms, false) && putFor(a, x, y) == putFor(b, x, y)
	}
	// q <= bound, or not(q <= bound) written as -q <= -bound-1
	one := big.NewRat(1, 1)
	var q *Term
	var bounds []*big.Rat
	up := map[*Term]bool{}
	for _, x := range atoms {
		switch {
		case x.op != LE || !x.rat.IsInt():
			return false
		case q == nil || x.args[0] == q:
			q = x.args[0]
			bounds = append(bounds, x.rat)
			up[x] = true
		case x.args[0] == mkNeg(q):
			c := new(big.Rat).Neg(x.rat)
			bounds = append(bounds, c.Sub(c, one))
		default:
			return false
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].Cmp(bounds[j]) < 0 })
	first, last := bounds[0], bounds[len(bounds)-1]
	if n := new(big.Rat).Sub(last, first); n.Cmp(big.NewRat(8, 1)) > 0 {
		return false
	}
	for c := new(big.Rat).Add(first, one); c.Cmp(last) <= 0; c = new(big.Rat).Add(c, one) {
		x, v := solveLinear(q, c)
		if x == nil || putFor(a, x, v) != putFor(b, x, v) {
			return false
		}
	}
	for _, low := range []bool{true, false} {
		x, y := a, b
		for _, t := range atoms {
			v := low == up[t]
			x, y = settle(x, []*Term{t}, v), settle(y, []*Term{t}, v)
		}
		if x != y {
			return false
		}
	}
	return true
}

// settle is t with the conditions decided.
func settle(t *Term, atoms []*Term, v bool) *Term {
	for _, x := range atoms {
		t = replaceAtom(t, x, mkBool(v))
	}
	return t
}

// putFor is t with v in place of x.
func putFor(t, x, v *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == x {
			return v
		}
		if r, ok := memo[t]; ok {
			return r
		}
		spend(1)
		var r *Term
		switch t.op {
		case ETA:
			l, exit := openEta(t)
			l.C = rec(l.C)
			for i := range l.mus {
				l.mus[i].init = rec(l.mus[i].init)
				l.mus[i].next = rec(l.mus[i].next)
			}
			r = l.exitOf(exit)
		case LAM:
			ps, body := openLam(t)
			r = mkLam(ps, rec(body))
		case TAB:
			s, body := openTab(t)
			r = mkTab(rec(t.args[0]), s, rec(body))
		default:
			r = rebuild(t, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// solveLinear finds in q = c one quantity in terms of the others.
func solveLinear(q *Term, c *big.Rat) (x, v *Term) {
	if q.op != POLY {
		return q, mkRat(c)
	}
	var pick *Term
	var coef *big.Rat
	for _, m := range q.poly {
		if len(m.f) != 1 || m.f[0].e != 1 || m.c.Num().CmpAbs(m.c.Denom()) != 0 {
			continue
		}
		t := m.f[0].t
		others := 0
		for _, o := range q.poly {
			for _, f := range o.f {
				if containsTerm(f.t, t) {
					others++
				}
			}
		}
		if others == 1 && (pick == nil || t.op == SYM && pick.op != SYM) {
			pick, coef = t, m.c
		}
	}
	if pick == nil {
		return nil, nil
	}
	// coef*pick + rest = c
	rest := mkSub2(q, mkMul(mkRat(coef), pick))
	v = mkMul(mkRat(coef), mkSub2(mkRat(c), rest))
	return pick, v
}

// idempotent reports whether a is the combination of b and another value that
// is b when the other value is the same.
func idempotent(a, b *Term) bool {
	found := false
	var walk func(a, b *Term, n int)
	walk = func(a, b *Term, n int) {
		if a == b || found || n > 6 {
			return
		}
		if a.op == X && (a.aux == "and" || a.aux == "or") && len(a.args) == 2 {
			if a.args[0] == b || a.args[1] == b {
				found = true
				return
			}
		}
		if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) {
			for i := range a.args {
				walk(a.args[i], b.args[i], n+1)
			}
		}
	}
	walk(a, b, 0)
	return found
}

// sharedLeaves reports whether two diagrams choose among the same values.
func sharedLeaves(a, b *Term) bool {
	la, lb := leavesOf(a), leavesOf(b)
	return len(without(la, lb)) == 0 || len(without(lb, la)) == 0
}

// condChange judges two diagrams that choose among values under different
// conditions.
func (d *differ) condChange(a, b *Term, xa, xb []*Term) []pair {
	for _, x := range append(append([]*Term{}, xa...), xb...) {
		if !decidable(x) {
			return unsure(a, b, "different conditions")
		}
	}
	if !sharedLeaves(a, b) {
		// the values chosen among have changed as well
		eff := len(xa)+len(xb) == 0
		for _, l := range append(append([]*Term{}, leavesOf(a)...), leavesOf(b)...) {
			if l.op == EFF {
				eff = true
			}
		}
		if eff {
			return unsure(a, b, "different conditions")
		}
	}
	if len(xa)+len(xb) == 0 {
		return sure(a, b, "different condition")
	}
	if len(xa) <= 3 && len(xb) == 0 || len(xb) <= 3 && len(xa) == 0 {
		return sure(a, b, "condition added or removed")
	}
	if len(xa) == 1 && len(xb) == 1 {
		p := d.diff(xa[0], xb[0])
		if allSure(p) {
			return sure(a, b, "different condition")
		}
	}
	if sameGroups(xa, xb) {
		return sure(a, b, "different bound")
	}
	if d.separable(a, b, xa, xb) {
		return sure(a, b, "different condition")
	}
	return unsure(a, b, "different conditions")
}

// sameGroups reports whether all the atoms compare the same quantity.
func sameGroups(xa, xb []*Term) bool {
	g := ""
	for _, x := range append(append([]*Term{}, xa...), xb...) {
		if x.op != LE {
			return false
		}
		k, _ := group(x)
		if g == "" {
			g = k
		}
		if k != g {
			return false
		}
	}
	return true
}

// decidable atoms are not artefacts of the representation.
func decidable(x *Term) bool {
	switch x.op {
	case ISNIL:
		if x.args[0].op == EFF {
			return false
		}
	}
	return plain(x, 0)
}

// plain terms do not depend on the results of loops or on what calls left in
// memory: their truth does not follow from other parts of the graph.
func plain(t *Term, d int) bool {
	if d > 12 {
		return false
	}
	switch t.op {
	case ETA:
		return false
	case X:
		if strings.HasPrefix(t.aux, "post:") || strings.HasPrefix(t.aux, "hv:") {
			return false
		}
	case TUP:
		if strings.HasPrefix(t.aux, "heap:") || t.aux == "mem" {
			return true
		}
	case EFF, BOX:
		return true
	}
	for _, a := range t.args {
		if !plain(a, d+1) {
			return false
		}
	}
	for _, m := range t.poly {
		for _, f := range m.f {
			if !plain(f.t, d+1) {
				return false
			}
		}
	}
	return true
}

func (d *differ) diffNeg(x, y *Term) []pair {
	if presence(x, y) {
		return unsure(x, y, "another test for a key")
	}
	if floatNeg(x, y) || floatNeg(y, x) {
		return unsure(x, y, "different only without an order")
	}
	if x.op == LE && y.op == LE {
		// not(q <= c)  =  -q <= -c-1
		q := mkLE0(addInt(mkSub2(mkRat(y.rat), y.args[0]), 1))
		if q.op == ITE {
			if x.args[0] == y.args[0] {
				return sure(x, y, "negated comparison")
			}
			// the same comparison written with the opposite sign, of
			// something else
			if ps := d.diff(x.args[0], mkNeg(y.args[0])); !allSure(ps) {
				return ps
			}
			return sure(x, y, "negated comparison")
		}
	}
	return sure(x, y, "negated condition")
}

func allSure(ps []pair) bool {
	n := 0
	for _, p := range ps {
		if p.why == undefinedValue {
			continue // a path one side knows to be impossible
		}
		if !p.sure {
			return false
		}
		n++
	}
	return n > 0
}

func (p pair) String() string {
	s := "?"
	if p.sure {
		s = "!"
	}
	return fmt.Sprintf("%s %s: %s  =>  %s", s, p.why, p.b.short(pairWidth), p.a.short(pairWidth))
}

var pairWidth = func() int {
	if n, err := strconv.Atoi(os.Getenv("VWIDTH")); err == nil {
		return n
	}
	return 200
}()
