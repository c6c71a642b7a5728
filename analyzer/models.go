package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the module.

// external evaluates a call of a function outside the module.
func (fr *frame) external(f *ssa.Function, args []*Term, c *ssa.CallCommon, ins ssa.Instruction, st *State) *Term {
	e := fr.e
	if isBigMethod(f) {
		return fr.bigMethod(f, args, c, st)
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	name := pkg + "." + f.Name()
	recv := f.Signature.Recv()
	if recv != nil {
		name = typeName(recv.Type()) + "." + f.Name()
	}
	str := func(i int) *Term { return args[i] }
	switch name {
	case "math/big.NewInt":
		return e.fresh(st, false, args[0])
	case "sort.Sort", "sort.Stable":
		return fr.sortSort(args[0], c, st)
	case "sort.Slice", "sort.SliceStable":
		return fr.sortSlice(args[0], args[1], st)
	case "sort.Ints", "sort.Strings":
		a, b := newSym("p", false), newSym("p", false)
		var lt *Term
		if name == "sort.Ints" {
			lt = mkLE0(addInt(mkSub2(a, b), 1))
		} else {
			lt = asCond(mk(X, "strlt", a, b))
		}
		e.setContent(st, args[0], sliceOf, mkSortBy(e.content(st, args[0], sliceOf), mkLam([]*Term{a, b}, lt)))
		return tNIL
	case "sort.Search":
		i := newSym("p", true)
		body := fr.applyFn(args[1], []*Term{i}, st)
		return mk(X, "search", args[0], mkLam([]*Term{i}, body))
	case "strconv.Itoa":
		return mkDec(args[0])
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1] == mkInt(10) {
			return mkDec(args[0])
		}
		return mk(X, "text", args...)
	case "errors.New":
		return tERR
	case "fmt.Errorf":
		return tERR
	case "fmt.Sprintf":
		return fr.sprintf(args[0], fr.variadic(args[1], st), st)
	case "fmt.Sprint":
		return mk(X, "sprint", fr.variadic(args[0], st)...)
	case "fmt.Sprintln":
		return mk(X, "sprintln", fr.variadic(args[0], st)...)
	case "fmt.Fprintf":
		fr.print(e.reify(st, args[0]), fr.sprintf(args[1], fr.variadic(args[2], st), st), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "fmt.Fprint":
		fr.print(e.reify(st, args[0]), sprintArgs(fr.variadic(args[1], st), st, e), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "fmt.Fprintln":
		fr.print(e.reify(st, args[0]), mkStrCat(sprintlnArgs(fr.variadic(args[1], st), st, e), mkStr("\n")), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "fmt.Printf":
		fr.print(mk(X, "stdout"), fr.sprintf(args[0], fr.variadic(args[1], st), st), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "fmt.Print":
		fr.print(mk(X, "stdout"), sprintArgs(fr.variadic(args[0], st), st, e), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "fmt.Println":
		fr.print(mk(X, "stdout"), mkStrCat(sprintlnArgs(fr.variadic(args[0], st), st, e), mkStr("\n")), st)
		return mkTup("tuple", mk(X, "n"), tNILerr(fr))
	case "*log.Logger.Printf", "*log.Logger.Print", "*log.Logger.Println":
		st.hv["$log"] = mk(EFF, "log", hvOf(st, "$log"), e.reify(st, args[0]), e.reify(st, e.content(st, args[len(args)-1], sliceOf)))
		return tNIL
	case "strings.Repeat":
		if k, ok := isIntConst(args[1]); ok && args[0].op == STR && k >= 0 && k < 64 {
			return mkStr(strings.Repeat(args[0].aux, int(k)))
		}
		return mk(X, "repeat", args...)
	case "strings.HasPrefix", "bytes.HasPrefix":
		return hasAffix("hasprefix", e.content(st, args[0], sliceOf), e.content(st, args[1], sliceOf), e, st)
	case "strings.HasSuffix", "bytes.HasSuffix":
		return hasAffix("hassuffix", e.content(st, args[0], sliceOf), e.content(st, args[1], sliceOf), e, st)
	case "strings.TrimPrefix":
		h := hasAffix("hasprefix", args[0], args[1], e, st)
		return ite(h, mkSubseq(args[0], mkLen(args[1]), mkLen(args[0])), args[0])
	case "strings.TrimSuffix":
		h := hasAffix("hassuffix", args[0], args[1], e, st)
		return ite(h, mkSubseq(args[0], tZERO, mkSub2(mkLen(args[0]), mkLen(args[1]))), args[0])
	case "strings.Contains":
		return asCond(mk(X, "contains", str(0), str(1)))
	case "strings.Replace":
		if args[3] == mkInt(-1) {
			return mk(X, "replaceall", args[:3]...)
		}
	case "strings.ReplaceAll":
		return mk(X, "replaceall", args...)
	case "math.Inf":
		return mk(X, "inf", mkSign(args[0]))
	case "*strings.Builder.WriteString", "*bytes.Buffer.WriteString":
		fr.print(mk(MKI, strings.TrimSuffix(name, ".WriteString"), e.plainArg(st, args[0])), args[1], st)
		return mkTup("tuple", mkLen(args[1]), tNIL)
	}
	// receivers that write elsewhere
	var as []*Term
	tys := paramTypes(f)
	for i, a := range args {
		var t types.Type = types.Typ[types.Int]
		if i < len(tys) {
			t = tys[i]
		}
		as = append(as, e.arg(st, e.sliceArg(st, a, t), t))
	}
	w := worldCall(f) || pkg == "bytes" && recv != nil || pkg == "strings" && recv != nil || recv != nil && isPointer(recv.Type()) && pkg != "math/big"
	if w {
		as = append(as, e.reify(st, st.world))
	}
	call := mk(X, "ext:"+name, as...)
	if w {
		st.world = mk(EFF, "after", call)
	}
	sig := f.Signature
	n := sig.Results().Len()
	res := make([]*Term, n)
	for i := range res {
		r := call
		if n > 1 {
			r = mkSel("tuple", n, i, call)
		}
		t := sig.Results().At(i).Type()
		if isError(t) {
			res[i] = mapLeaves(r, func(l *Term) *Term {
				if l == tBOT {
					return l
				}
				return ite(mkIsNil(l), tNIL, tERR)
			})
			continue
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			res[i] = e.fresh(st, false, r)
			continue
		}
		if boxed(t) {
			e.noteRoot(r, pointee(t))
		}
		res[i] = typed(r, t)
	}
	if k := mutatesArg(f); k >= 0 && k < len(args) {
		e.setContent(st, args[k], sliceOf, mk(X, "post:"+itoa(k), call))
	}
	return pack(res)
}

// sliceArg replaces slices by their contents.
func (e *ev) sliceArg(st *State, a *Term, t types.Type) *Term { return a }

func (e *ev) plainArg(st *State, a *Term) *Term { return e.reify(st, a) }

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func paramTypes(f *ssa.Function) []types.Type {
	var out []types.Type
	if r := f.Signature.Recv(); r != nil {
		out = append(out, r.Type())
	}
	for i := 0; i < f.Signature.Params().Len(); i++ {
		out = append(out, f.Signature.Params().At(i).Type())
	}
	return out
}

// tNILerr is the error of a write to a printer.
func tNILerr(fr *frame) *Term { return ite(mkIsNil(mk(X, "write-error")), tNIL, tERR) }

func hasAffix(kind string, s, p *Term, e *ev, st *State) *Term {
	s, p = e.reify(st, s), e.reify(st, p)
	if s.op == STR && p.op == STR {
		if kind == "hasprefix" {
			return mkBool(strings.HasPrefix(s.aux, p.aux))
		}
		return mkBool(strings.HasSuffix(s.aux, p.aux))
	}
	return asConds(mk(X, kind, s, p))
}

// asConds turns an opaque boolean diagram into a condition.
func asConds(t *Term) *Term {
	return mapLeaves(t, func(l *Term) *Term {
		if l == tBOT || l.op == BOOLC {
			return l
		}
		return asCond(l)
	})
}

// print appends text to a writer.
func (fr *frame) print(w, text *Term, st *State) {
	st.world = mkPrint(st.world, w, text)
}

func mkPrint(world, w, text *Term) *Term {
	return lift("print", func(a []*Term) *Term {
		world, w, text := a[0], a[1], a[2]
		if world.op == EFF && world.aux == "print" && world.args[1] == w {
			return mkPrint(world.args[0], w, mkStrCat(world.args[2], text))
		}
		if text.op == STR && text.aux == "" {
			return world
		}
		return intern(&Term{op: EFF, aux: "print", args: []*Term{world, w, text}})
	}, world, w, text)
}

// variadic returns the elements of a variadic argument.
func (fr *frame) variadic(a *Term, st *State) []*Term {
	c := fr.e.reify(st, fr.e.content(st, a, sliceOf))
	if c == tNIL || c == tEMPTY {
		return nil
	}
	var out []*Term
	for _, p := range pieces(c) {
		if p.op == UNIT {
			out = append(out, p.args[0])
		} else {
			out = append(out, mk(X, "spread", p))
		}
	}
	return out
}

func mkDec(x *Term) *Term {
	return lift("dec", func(a []*Term) *Term {
		if isConst(a[0]) && a[0].rat.IsInt() {
			return mkStr(a[0].rat.Num().String())
		}
		return intern(&Term{op: X, aux: "dec", args: []*Term{a[0]}})
	}, x)
}

// fmtArg formats one argument for verb v.
func fmtArg(flags string, v byte, x *Term) *Term {
	return lift("fmt%"+flags+string(v), func(a []*Term) *Term {
		x := a[0]
		if x.op == BOT || x.op == DC {
			return x
		}
		if flags == "" && x.op == MKI {
			switch {
			case (v == 's' || v == 'v') && x.aux == "string":
				return x.args[0]
			case (v == 'd' || v == 'v') && isIntName(x.aux):
				return mkDec(x.args[0])
			case (v == 'd' || v == 'v' || v == 's') && x.aux == "*math/big.Int":
				return mkDec(x.args[0])
			case v == 'x' && x.aux == "*math/big.Int":
				return mk(X, "text", x.args[0], mkInt(16))
			case v == 'b' && x.aux == "*math/big.Int":
				return mk(X, "text", x.args[0], mkInt(2))
			case v == 'q' && x.aux == "string":
				return mk(X, "quote", x.args[0])
			}
		}
		return intern(&Term{op: X, aux: "fmt%" + flags + string(v), args: []*Term{x}})
	}, x)
}

func isIntName(s string) bool {
	switch s {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64":
		return true
	}
	return false
}

// sprintf expands constant formats.
func (fr *frame) sprintf(f *Term, args []*Term, st *State) *Term {
	return mapLeaves(f, func(f *Term) *Term {
		if f.op != STR {
			return mk(X, "sprintf", append([]*Term{f}, args...)...)
		}
		s := f.aux
		var out []*Term
		n := 0
		for len(s) > 0 {
			i := strings.IndexByte(s, '%')
			if i < 0 {
				out = append(out, mkStr(s))
				break
			}
			out = append(out, mkStr(s[:i]))
			s = s[i+1:]
			j := 0
			for j < len(s) && strings.IndexByte("+-# 0123456789.*[]", s[j]) >= 0 {
				j++
			}
			if j == len(s) || strings.ContainsAny(s[:j], "*[]") {
				return mk(X, "sprintf", append([]*Term{f}, args...)...)
			}
			flags, v := s[:j], s[j]
			s = s[j+1:]
			if v == '%' {
				out = append(out, mkStr("%"))
				continue
			}
			if n >= len(args) || args[n].op == X && args[n].aux == "spread" {
				return mk(X, "sprintf", append([]*Term{f}, args...)...)
			}
			out = append(out, fmtArg(flags, v, args[n]))
			n++
		}
		if n != len(args) {
			return mk(X, "sprintf", append([]*Term{f}, args...)...)
		}
		return mkStrCat(out...)
	})
}

func sprintArgs(args []*Term, st *State, e *ev) *Term {
	if len(args) == 1 {
		return fmtArg("", 'v', args[0])
	}
	return mk(X, "sprint", args...)
}

func sprintlnArgs(args []*Term, st *State, e *ev) *Term {
	var ps []*Term
	for i, a := range args {
		if i > 0 {
			ps = append(ps, mkStr(" "))
		}
		ps = append(ps, fmtArg("", 'v', a))
	}
	return mkStrCat(ps...)
}

// applyFn evaluates a function value on terms and returns its only result.
func (fr *frame) applyFn(fn *Term, args []*Term, st *State) *Term {
	e := fr.e
	var f *ssa.Function
	var fvs []*Term
	switch {
	case fn.op == CLO:
		f, fvs = e.clos[fn.aux], fn.args
	case fn.op == X && strings.HasPrefix(fn.aux, "funcref:"):
		f = e.clos[fn.aux[len("funcref:"):]]
	}
	if f == nil || f.Blocks == nil {
		return mk(X, "dyn", append([]*Term{e.reify(st, fn)}, args...)...)
	}
	if len(f.FreeVars) == 0 && len(f.Params) == len(args)+len(fvs) {
		args = append(append([]*Term{}, fvs...), args...)
		fvs = nil
	}
	sub := st.clone()
	res, out, pan := e.run(f, args, fvs, sub)
	if len(res) != 1 {
		panic(tooComplex{"callback results"})
	}
	if pan != tFALSE {
		return ite(pan, tPANIC, e.reify(out, res[0]))
	}
	return e.reify(out, res[0])
}

func mkSortBy(c, less *Term) *Term {
	return lift("sortby", func(a []*Term) *Term {
		c := a[0]
		switch {
		case c == tEMPTY || c == tNIL || c.op == UNIT:
			return c
		case c.op == X && c.aux == "sortby" && c.args[1] == a[1]:
			return c
		}
		return intern(&Term{op: X, aux: "sortby", args: []*Term{c, a[1]}})
	}, c, less)
}

func (fr *frame) sortSlice(x, less *Term, st *State) *Term {
	e := fr.e
	if x.op == MKI {
		x = x.args[0]
	}
	a, b := newSym("p", false), newSym("p", false)
	sub := st.clone()
	pair := mkCat(intern(&Term{op: UNIT, args: []*Term{a}}), intern(&Term{op: UNIT, args: []*Term{b}}))
	c := e.content(st, x, sliceOf)
	e.setContent(sub, x, sliceOf, pair)
	body := fr.applyFn(less, []*Term{tZERO, tONE}, sub)
	e.setContent(st, x, sliceOf, mkSortBy(c, mkLam([]*Term{a, b}, body)))
	return tNIL
}

func (fr *frame) sortSort(x *Term, c *ssa.CallCommon, st *State) *Term {
	e := fr.e
	var reverse bool
	_ = reverse
	if x.op == MKI {
		it := c.Args[0].Type()
		iface := it.Underlying().(*types.Interface)
		for i := 0; i < iface.NumMethods(); i++ {
			if m := iface.Method(i); m.Name() == "Less" {
				f := e.s.methodOf(it, x.aux, m)
				if f != nil && f.Signature.Recv() != nil {
					if _, ok := f.Signature.Recv().Type().Underlying().(*types.Slice); ok {
						return fr.sortSlice(x.args[0], mk(CLO, e.boundName(f), x.args[0]), st)
					}
				}
			}
		}
	}
	if x.op == MKI && x.aux == "sort.IntSlice" {
		a, b := newSym("p", false), newSym("p", false)
		e.setContent(st, x.args[0], sliceOf, mkSortBy(e.content(st, x.args[0], sliceOf), mkLam([]*Term{a, b}, mkLE0(addInt(mkSub2(a, b), 1)))))
		return tNIL
	}
	old := e.reify(st, x)
	call := mk(X, "ext:sort.Sort", old)
	if x.op == MKI {
		e.setContent(st, x.args[0], sliceOf, mk(X, "post:0", call))
	} else {
		st.world = mk(EFF, "sort", st.world, old)
	}
	return tNIL
}

// boundName registers a method so that applyFn can evaluate it with the
// receiver as first argument.
func (e *ev) boundName(f *ssa.Function) string {
	w := boundWrapper(e.s, f)
	n := fname(w)
	e.clos[n] = w
	return n
}

// ---- big.Int ----

func (fr *frame) bigMethod(f *ssa.Function, args []*Term, c *ssa.CallCommon, st *State) *Term {
	e := fr.e
	val := func(i int) *Term {
		return mapLeaves(args[i], func(l *Term) *Term {
			v := e.content(st, l, c.Args[i].Type())
			if v == tNIL {
				return tBOT
			}
			return v
		})
	}
	valAt := func(i int) *Term { return dropBot(val(i)) }
	set := func(v *Term) *Term {
		e.setContent(st, args[0], c.Args[0].Type(), v)
		return args[0]
	}
	div := func(x, y *Term) *Term {
		return lift("ediv", func(a []*Term) *Term {
			if z := numericLeaf(a); z != nil {
				return z
			}
			if isP2(a[1]) || isConst(a[1]) && a[1].rat.Sign() > 0 {
				return mkFDiv(a[0], a[1])
			}
			return intern(&Term{op: X, aux: "ediv", args: []*Term{a[0], a[1]}})
		}, x, y)
	}
	switch f.Name() {
	case "Set", "SetInt64", "SetUint64":
		return set(valAt(1))
	case "Add":
		return set(mkAdd(valAt(1), valAt(2)))
	case "Sub":
		return set(mkSub2(valAt(1), valAt(2)))
	case "Mul":
		return set(mkMul(valAt(1), valAt(2)))
	case "Neg":
		return set(mkNeg(valAt(1)))
	case "Not":
		return set(addInt(mkNeg(valAt(1)), -1))
	case "Abs":
		x := valAt(1)
		return set(ite(mkLE0(addInt(x, 1)), mkNeg(x), x))
	case "Lsh":
		return set(mkMul(valAt(1), mkP2(valAt(2))))
	case "Rsh":
		return set(mkFDiv(valAt(1), mkP2(valAt(2))))
	case "Div":
		return set(div(valAt(1), valAt(2)))
	case "Mod":
		x, y := valAt(1), valAt(2)
		return set(mkModE(x, y, div))
	case "DivMod":
		x, y := valAt(1), valAt(2)
		q := div(x, y)
		r := mkModE(x, y, div)
		e.setContent(st, args[0], c.Args[0].Type(), q)
		e.setContent(st, args[3], c.Args[3].Type(), r)
		return mkTup("tuple", args[0], args[3])
	case "Quo":
		return set(intQuo(valAt(1), valAt(2), false))
	case "Rem":
		x, y := valAt(1), valAt(2)
		return set(mkSub2(x, mkMul(y, intQuo(x, y, false))))
	case "QuoRem":
		x, y := valAt(1), valAt(2)
		q := intQuo(x, y, false)
		e.setContent(st, args[0], c.Args[0].Type(), q)
		e.setContent(st, args[3], c.Args[3].Type(), mkSub2(x, mkMul(y, q)))
		return mkTup("tuple", args[0], args[3])
	case "Exp":
		x, y := valAt(1), valAt(2)
		m := mapLeaves(args[3], func(l *Term) *Term { return e.content(st, l, c.Args[3].Type()) })
		if m == tNIL && x == mkInt(2) && nonneg(y) {
			return set(mkP2(y))
		}
		return set(mk(X, "exp", x, y, m))
	case "Sqrt":
		return set(mk(X, "isqrt", valAt(1)))
	case "And":
		return set(mkAndBits(valAt(1), valAt(2)))
	case "Or":
		return set(mkOrBits(valAt(1), valAt(2)))
	case "Xor":
		return set(mkXorBits(valAt(1), valAt(2)))
	case "AndNot":
		x := valAt(1)
		return set(mkSub2(x, mkAndBits(x, valAt(2))))
	case "SetBit":
		x, i, b := valAt(1), valAt(2), valAt(3)
		one := eqInt(b, tONE)
		zero := eqInt(b, tZERO)
		v1 := ite(one, mkSetBit(x, i), tZERO)
		v0 := mk(X, "clrbit", x, i)
		return set(ite(one, v1, ite(zero, v0, mk(X, "setbitv", x, i, b))))
	case "Cmp":
		return mkSign(mkSub2(valAt(0), valAt(1)))
	case "Sign":
		return mkSign(valAt(0))
	case "BitLen":
		return mkBitLen(valAt(0))
	case "Bit":
		return mkBit(valAt(0), valAt(1))
	case "TrailingZeroBits":
		return mk(X, "tz", valAt(0))
	case "IsUint64":
		x := valAt(0)
		return mkAnd(mkLE0(mkNeg(x)), mkLE0(mkSub2(x, mkBig(new(big.Int).SetUint64(^uint64(0))))))
	case "IsInt64":
		x := valAt(0)
		lo := new(big.Int).SetInt64(-1 << 63)
		hi := new(big.Int).SetInt64(1<<63 - 1)
		return mkAnd(mkLE0(mkSub2(mkBig(lo), x)), mkLE0(mkSub2(x, mkBig(hi))))
	case "Uint64", "Int64":
		x := valAt(0)
		nm := "u64"
		if f.Name() == "Int64" {
			nm = "i64"
		}
		return lift(nm, func(a []*Term) *Term {
			if isConst(a[0]) && a[0].rat.IsInt() {
				v := a[0].rat.Num()
				if nm == "u64" && v.IsUint64() || nm == "i64" && v.IsInt64() {
					return a[0]
				}
			}
			t := intern(&Term{op: X, aux: nm, args: []*Term{a[0]}})
			if nm == "u64" {
				t.nn = true
			}
			return t
		}, x)
	case "String":
		return mkDec(valAt(0))
	case "Text":
		if args[1] == mkInt(10) {
			return mkDec(valAt(0))
		}
		return mk(X, "text", valAt(0), args[1])
	case "Bytes":
		return e.fresh(st, false, mk(X, "bytes", valAt(0)))
	case "SetBytes":
		return set(mk(X, "frombytes", e.reify(st, e.content(st, args[1], sliceOf))))
	case "SetString":
		s := e.reify(st, args[1])
		ok := asConds(mk(X, "parseok", s, args[2]))
		v := mk(X, "parse", s, args[2])
		e.setContent(st, args[0], c.Args[0].Type(), ite(ok, v, tDC))
		return mkTup("tuple", ite(ok, args[0], tNIL), ok)
	}
	var as []*Term
	for i := range args {
		as = append(as, e.reify(st, e.content(st, args[i], c.Args[i].Type())))
	}
	r := mk(X, "big:"+f.Name(), as...)
	if bigMutates(f.Name()) {
		return set(r)
	}
	return r
}

func mkSetBit(x, i *Term) *Term {
	return lift("setbit", func(a []*Term) *Term {
		if z := numericLeaf(a); z != nil {
			return z
		}
		if a[0] == tZERO {
			return mkP2(a[1])
		}
		return intern(&Term{op: X, aux: "setbit", args: []*Term{a[0], a[1]}})
	}, x, i)
}

func mkModE(x, y *Term, div func(x, y *Term) *Term) *Term {
	return lift("emod", func(a []*Term) *Term {
		if z := numericLeaf(a); z != nil {
			return z
		}
		if isP2(a[1]) || isConst(a[1]) && a[1].rat.Sign() > 0 {
			return mkMod(a[0], a[1])
		}
		return mkSub2(a[0], mkMul(a[1], div(a[0], a[1])))
	}, x, y)
}

var _ = strconv.Itoa

// boundWrapper returns f itself: CLO terms whose function has a receiver
// parameter instead of free variables are evaluated with the captured value
// as first argument.
func boundWrapper(s *side, f *ssa.Function) *ssa.Function { return f }
