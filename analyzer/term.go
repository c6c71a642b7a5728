package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Value graphs are hash-consed terms. Every constructor returns the normal
// form, so two equal terms are the same pointer. The order used to sort
// commutative structures is the content hash, so it does not depend on the
// order in which terms were created.

type Op string

const (
	CONST Op = "const" // rational constant
	POLY  Op = "poly"  // polynomial over integer atoms
	ITE   Op = "ite"   // decision node: atom, hi, lo
	BOOLC Op = "bool"  // boolean leaf
	BOT   Op = "bot"   // unreachable
	LE    Op = "le"    // atom: q <= c (rat)
	EQ    Op = "eq"    // atom: generic equality
	ISNIL Op = "isnil" // atom
	ISTYP Op = "istype"
	SYM   Op = "sym" // free symbol (parameter, or loop variable being solved)
	BV    Op = "bv"  // bound variable of a loop or lambda
	ETA   Op = "eta" // value of a loop variable at loop exit
	LAM   Op = "lam" // function value
	TAB   Op = "tab" // sequence [f(0)..f(n-1)]
	OBJ   Op = "obj" // identity of a local object
	NIL   Op = "nil"
	ERR   Op = "err"  // some non-nil error
	TUP   Op = "tup"  // tuple or struct
	SEL   Op = "sel"  // field of opaque struct / component of opaque tuple
	MEM   Op = "mem"  // initial content behind a pointer
	FADDR Op = "fad"  // address of field
	IADDR Op = "iad"  // address of element
	VIEW  Op = "view" // subslice of an object
	AT    Op = "at"   // pointer together with modified content
	BOX   Op = "box"  // pointer to a fresh object with this content
	CAT   Op = "cat"  // sequence concatenation
	UNIT  Op = "unit" // one-element sequence
	SUB   Op = "sub"  // subsequence
	UPD   Op = "upd"  // sequence update
	LEN   Op = "len"
	ELEM  Op = "elem"
	ZEROS Op = "zeros"
	MUPD  Op = "mupd" // map update
	MGET  Op = "mget"
	MHAS  Op = "mhas"
	MDEL  Op = "mdel"
	MNEW  Op = "mnew"
	P2    Op = "pow2"
	FDIV  Op = "fdiv" // floor division
	BIT   Op = "bit"
	BLEN  Op = "bitlen"
	STR   Op = "str"
	MKI   Op = "mki" // interface value: dynamic type, value
	CALL  Op = "call"
	X     Op = "x" // other operation, name in aux
	PANIC Op = "panic"
	DC    Op = "dc" // don't care
	CLO   Op = "clo"
	W0    Op = "w0"
	EFF   Op = "eff"
)

type hash [16]byte

type factor struct {
	t *Term
	e int
}
type mono struct {
	c *big.Rat
	f []factor
}

// Term is a node of a value graph.
type Term struct {
	op   Op
	aux  string
	args []*Term
	rat  *big.Rat
	poly []mono
	h    hash
	id   int
	size int
	hgt  int   // nesting depth of binders
	syms []int // free symbols, sorted
	bvs  []int // levels of free bound variables, sorted
	sid  int   // symbol id (SYM only)
	nn   bool  // known non-negative (symbols)
	obj  bool  // contains OBJ
}

var (
	interned = map[hash]*Term{}
	termSeq  int
	symSeq   int
	budget   int
)

type tooComplex struct{ why string }

func spend(n int) {
	budget -= n
	if budget < 0 || atomic.LoadInt32(&memHigh) != 0 {
		panic(tooComplex{"value graph too large"})
	}
}

// memHigh is set while the analyzer uses too much memory.
var memHigh int32

func watchMemory(limit uint64) {
	go func() {
		for {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			v := int32(0)
			if m.HeapAlloc > limit {
				v = 1
			}
			atomic.StoreInt32(&memHigh, v)
			time.Sleep(100 * time.Millisecond)
		}
	}()
}

func intern(t *Term) *Term {
	hs := sha256.New()
	hs.Write([]byte(t.op))
	hs.Write([]byte{0})
	hs.Write([]byte(t.aux))
	hs.Write([]byte{0})
	if t.rat != nil {
		hs.Write([]byte(t.rat.RatString()))
	}
	hs.Write([]byte{0})
	for _, a := range t.args {
		hs.Write(a.h[:])
	}
	for _, m := range t.poly {
		hs.Write([]byte{1})
		hs.Write([]byte(m.c.RatString()))
		for _, f := range m.f {
			hs.Write([]byte{2, byte(f.e), byte(f.e >> 8)})
			hs.Write(f.t.h[:])
		}
	}
	if t.op == SYM {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(t.sid))
		hs.Write(b[:])
	}
	copy(t.h[:], hs.Sum(nil))
	if o, ok := interned[t.h]; ok {
		return o
	}
	spend(1)
	termSeq++
	t.id = termSeq
	t.size = 1
	add := func(a *Term) {
		t.size += a.size
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
		if a.hgt > t.hgt {
			t.hgt = a.hgt
		}
		if a.obj {
			t.obj = true
		}
		t.syms = union(t.syms, a.syms)
		t.bvs = union(t.bvs, a.bvs)
	}
	for _, a := range t.args {
		add(a)
	}
	for _, m := range t.poly {
		for _, f := range m.f {
			add(f.t)
		}
	}
	if t.op == SYM {
		t.syms = []int{t.sid}
	}
	if t.op == OBJ {
		t.obj = true
	}
	if t.op == BV {
		h, _ := strconv.Atoi(t.aux[:strings.IndexByte(t.aux, '.')])
		t.bvs = []int{h}
	}
	switch t.op {
	case ETA, LAM, TAB:
		h := t.hgt
		t.hgt++
		if hasInt(t.bvs, h) {
			var r []int
			for _, x := range t.bvs {
				if x != h {
					r = append(r, x)
				}
			}
			t.bvs = r
		}
	}
	interned[t.h] = t
	spend(len(t.syms) / 64)
	return t
}

func union(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	same := len(a) == len(b)
	if same {
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (t *Term) dependsOn(s *Term) bool { return hasInt(t.syms, s.sid) }

func hasInt(xs []int, x int) bool {
	i := sort.SearchInts(xs, x)
	return i < len(xs) && xs[i] == x
}

func less(a, b *Term) bool { return string(a.h[:]) < string(b.h[:]) }

func leaf(op Op, aux string) *Term { return intern(&Term{op: op, aux: aux}) }

var (
	tTRUE, tFALSE, tBOT, tNIL, tERR, tPANIC, tDC, tEMPTY, tW0 *Term
	tZERO, tONE                                               *Term
)

func resetTerms() {
	interned = map[hash]*Term{}
	if atomic.LoadInt32(&memHigh) != 0 {
		runtime.GC()
		atomic.StoreInt32(&memHigh, 0)
	}
	termSeq = 0
	symSeq = 0
	budget = 1 << 60
	substMemo = map[string]map[*Term]*Term{}
	liftMemo = map[string]*Term{}
	iteMemo = map[[3]*Term]*Term{}
	tTRUE = leaf(BOOLC, "true")
	tFALSE = leaf(BOOLC, "false")
	tBOT = leaf(BOT, "")
	tNIL = leaf(NIL, "")
	tERR = leaf(ERR, "")
	tPANIC = leaf(PANIC, "")
	tDC = leaf(DC, "")
	tEMPTY = intern(&Term{op: CAT})
	tW0 = leaf(W0, "")
	tZERO = mkInt(0)
	tONE = mkInt(1)
}

func newSym(name string, nonneg bool) *Term {
	symSeq++
	t := intern(&Term{op: SYM, aux: name, sid: symSeq})
	t.nn = nonneg
	return t
}

func named(name string, nonneg bool) *Term {
	t := intern(&Term{op: SYM, aux: name})
	t.nn = nonneg
	t.syms = nil
	return t
}

func mkBool(b bool) *Term {
	if b {
		return tTRUE
	}
	return tFALSE
}

func mkInt(i int64) *Term { return mkRat(new(big.Rat).SetInt64(i)) }
func mkBig(i *big.Int) *Term {
	return mkRat(new(big.Rat).SetInt(i))
}
func mkRat(r *big.Rat) *Term { return intern(&Term{op: CONST, rat: r}) }
func mkStr(s string) *Term   { return leaf(STR, s) }

// ---- decision diagrams ----

// group returns the mutual-implication group of a boolean atom.
func group(a *Term) (string, byte) {
	switch a.op {
	case LE:
		return string(a.args[0].h[:]), 'L'
	case ISTYP, ISNIL:
		return string(a.args[0].h[:]), 'X'
	case EQ:
		for i := 0; i < 2; i++ {
			if c := a.args[i]; c.op == STR || c.op == CONST {
				return string(a.args[1-i].h[:]), 'X'
			}
		}
	case X:
		if (a.aux == "hasprefix" || a.aux == "hassuffix") && a.args[1].op == STR {
			return a.aux + string(a.args[0].h[:]), 'X'
		}
	}
	return string(a.h[:]), 0
}

// exclusive reports whether a being true makes b false.
func exclusive(a, b *Term) bool {
	if a.op == ISTYP && b.op == ISTYP {
		return !strings.HasPrefix(a.aux, "I:") && !strings.HasPrefix(b.aux, "I:")
	}
	if a.op == X {
		s, t := a.args[1].aux, b.args[1].aux
		if a.aux == "hasprefix" {
			return !strings.HasPrefix(s, t) && !strings.HasPrefix(t, s)
		}
		return !strings.HasSuffix(s, t) && !strings.HasSuffix(t, s)
	}
	return true
}

func atomLess(a, b *Term) bool {
	ga, ka := group(a)
	gb, kb := group(b)
	if ga != gb {
		return ga < gb
	}
	if ka != kb {
		return ka < kb
	}
	if ka == 'L' {
		return a.rat.Cmp(b.rat) < 0
	}
	return less(a, b)
}

func cof(t, x *Term, val bool) *Term {
	for t.op == ITE {
		a := t.args[0]
		if a == x {
			if val {
				t = t.args[1]
			} else {
				t = t.args[2]
			}
			continue
		}
		ga, ka := group(a)
		gx, kx := group(x)
		if ga != gx || ka != kx || ka == 0 {
			return t
		}
		if !val {
			if ka == 'L' && a.rat.Cmp(x.rat) <= 0 {
				t = t.args[2]
				continue
			}
			return t
		}
		if ka == 'L' {
			if a.rat.Cmp(x.rat) >= 0 {
				t = t.args[1]
				continue
			}
			return t
		}
		if exclusive(x, a) {
			t = t.args[2]
			continue
		}
		return t
	}
	if t == x {
		return mkBool(val)
	}
	return t
}

func node(x, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if x.op == LE {
		lo = cof(lo, x, false)
		// where both sides agree at the bound itself, use the lower bound
		if l := cof(lo, x, true); hi.op != ITE && l.op != ITE && (numericOp(hi) || numericOp(l)) {
			if d := mkSub2(hi, l); multipleOf(d, mkSub2(x.args[0], mkRat(x.rat))) {
				return ite(leAtom(x.args[0], new(big.Rat).Sub(x.rat, big.NewRat(1, 1))), hi, lo)
			}
		}
	}
	// the test is redundant if the rest of its group already decides it
	if lo.op == ITE && cof(lo, x, true) == hi {
		return lo
	}
	return intern(&Term{op: ITE, args: []*Term{x, hi, lo}})
}

// multipleOf reports whether d is a constant multiple of q.
func multipleOf(d, q *Term) bool {
	a, b := polyOf(d), polyOf(q)
	if len(a) == 0 || len(a) != len(b) {
		return false
	}
	return mkScale(q, new(big.Rat).Quo(a[0].c, b[0].c)) == d
}

var iteMemo = map[[3]*Term]*Term{}

func topAtom(ts ...*Term) *Term {
	var x *Term
	for _, t := range ts {
		if t.op == ITE && (x == nil || atomLess(t.args[0], x)) {
			x = t.args[0]
		}
	}
	return x
}

// ite builds the decision diagram "if c then a else b".
func ite(c, a, b *Term) *Term {
	switch {
	case c == tTRUE:
		return a
	case c == tFALSE:
		return b
	case c == tBOT:
		return tBOT
	case a == b:
		return a
	}
	if c.op != ITE {
		if c.op == BOOLC || c.op == DC || c.op == PANIC || c.op == NIL {
			return a
		}
		c = asCond(c)
		if c.op != ITE {
			return ite(c, a, b)
		}
	}
	k := [3]*Term{c, a, b}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	spend(1)
	x := topAtom(c, a, b)
	hi := ite(cof(c, x, true), cof(a, x, true), cof(b, x, true))
	lo := ite(cof(c, x, false), cof(a, x, false), cof(b, x, false))
	r := node(x, hi, lo)
	iteMemo[k] = r
	return r
}

// asCond turns a boolean atom into a decision diagram.
func asCond(t *Term) *Term {
	switch t.op {
	case ITE:
		return t
	case BOOLC, BOT:
		return t
	}
	return node(t, tTRUE, tFALSE)
}

func mkAnd(a, b *Term) *Term { return ite(a, b, tFALSE) }
func mkOr(a, b *Term) *Term  { return ite(a, tTRUE, b) }
func mkNot(a *Term) *Term    { return ite(a, tFALSE, tTRUE) }

// dropBot fills the unreachable part of a diagram.
func dropBot(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != ITE {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		hi, lo := rec(t.args[1]), rec(t.args[2])
		var r *Term
		switch {
		case hi == tBOT:
			r = lo
		case lo == tBOT:
			r = hi
		default:
			r = ite(asCond(t.args[0]), hi, lo)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// under restricts v to the domain c and fills the rest.
func under(c, v *Term) *Term {
	if v.op != ITE || c == tTRUE {
		return v
	}
	r := dropBot(ite(c, v, tBOT))
	return r
}

var liftMemo = map[string]*Term{}

// lift applies f to the leaves of the arguments' decision diagrams.
func lift(key string, f func(args []*Term) *Term, args ...*Term) *Term {
	any := false
	for _, a := range args {
		if a.op == BOT {
			return tBOT
		}
		if a.op == ITE {
			any = true
		}
	}
	if !any {
		return f(args)
	}
	var sb strings.Builder
	sb.WriteString(key)
	for _, a := range args {
		sb.Write(a.h[:])
	}
	k := sb.String()
	if r, ok := liftMemo[k]; ok {
		return r
	}
	spend(1)
	x := topAtom(args...)
	his := make([]*Term, len(args))
	los := make([]*Term, len(args))
	for i, a := range args {
		his[i] = cof(a, x, true)
		los[i] = cof(a, x, false)
	}
	hi := lift(key, f, his...)
	lo := lift(key, f, los...)
	r := ite(asCond(x), hi, lo)
	liftMemo[k] = r
	return r
}

// mapLeaves applies f to every leaf of a decision diagram.
func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != ITE {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := ite(asCond(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

// leaves calls f for each leaf with its condition.
func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == ITE {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// condOf returns the condition under which diagram t has leaf l.
func condOf(t, l *Term) *Term {
	return mapLeaves(t, func(x *Term) *Term { return mkBool(x == l) })
}

// atomsOf returns the atoms of a diagram.
func atomsOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	am := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op != ITE {
			return
		}
		seen[t] = true
		if !am[t.args[0]] {
			am[t.args[0]] = true
			out = append(out, t.args[0])
		}
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(t)
	sort.Slice(out, func(i, j int) bool { return atomLess(out[i], out[j]) })
	return out
}

// ---- generic constructor ----

// mk builds an opaque operation, lifting decisions out of its arguments.
func mk(op Op, aux string, args ...*Term) *Term {
	return lift("mk:"+string(op)+":"+aux, func(a []*Term) *Term {
		if op == CALL || op == X && aux == "dyn" {
			return intern(&Term{op: op, aux: aux, args: sortRuns("mem", a)})
		}
		return intern(&Term{op: op, aux: aux, args: append([]*Term{}, a...)})
	}, args...)
}

// ---- printing ----

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, printDepth)
	return sb.String()
}

func (t *Term) short(n int) string {
	s := t.String()
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (t *Term) write(sb *strings.Builder, d int) {
	if d == 0 || sb.Len() > printMax {
		sb.WriteString("…")
		return
	}
	list := func(ts []*Term) {
		for i, a := range ts {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.write(sb, d-1)
		}
	}
	switch t.op {
	case CONST:
		sb.WriteString(t.rat.RatString())
	case BOOLC:
		sb.WriteString(t.aux)
	case POLY:
		for i, m := range t.poly {
			if i > 0 {
				sb.WriteString(" + ")
			}
			one := m.c.Cmp(big.NewRat(1, 1)) == 0
			if !one || len(m.f) == 0 {
				sb.WriteString(m.c.RatString())
			}
			for j, f := range m.f {
				if j > 0 || !one {
					sb.WriteString("*")
				}
				f.t.write(sb, d-1)
				if f.e != 1 {
					fmt.Fprintf(sb, "^%d", f.e)
				}
			}
		}
	case SYM, BV:
		if t.op == BV {
			sb.WriteString("v")
		}
		sb.WriteString(t.aux)
		if t.op == SYM && t.sid != 0 {
			fmt.Fprintf(sb, "#%d", t.sid)
		}
	case OBJ:
		fmt.Fprintf(sb, "obj(%s)", t.aux)
	case STR:
		fmt.Fprintf(sb, "%q", t.aux)
	case ITE:
		sb.WriteString("(")
		t.args[0].write(sb, d-1)
		sb.WriteString(" ? ")
		t.args[1].write(sb, d-1)
		sb.WriteString(" : ")
		t.args[2].write(sb, d-1)
		sb.WriteString(")")
	case LE:
		t.args[0].write(sb, d-1)
		sb.WriteString("<=" + t.rat.RatString())
	case ETA:
		sb.WriteString("loop{while ")
		t.args[0].write(sb, d-1)
		for i := 2; i+1 < len(t.args); i += 2 {
			fmt.Fprintf(sb, "; v%d.%d=", t.hgt-1, (i-2)/2)
			t.args[i].write(sb, d-1)
			sb.WriteString(" then ")
			t.args[i+1].write(sb, d-1)
		}
		sb.WriteString("; exit ")
		t.args[1].write(sb, d-1)
		sb.WriteString("}")
	default:
		sb.WriteString(string(t.op))
		if t.aux != "" {
			sb.WriteString(":" + t.aux)
		}
		if len(t.args) > 0 {
			sb.WriteString("(")
			list(t.args)
			sb.WriteString(")")
		}
	}
}

var printDepth, printMax = 14, 6000

func init() {
	if os.Getenv("VFULL") != "" {
		printDepth, printMax = 200, 1000000
	}
}
