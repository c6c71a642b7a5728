package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: which memory that exists before the call may a function
// write, and does it interact with the outside world.

type modset struct {
	params map[int]bool    // objects passed directly as a parameter
	deep   map[string]bool // other objects, by kind
	world  bool
	fresh  bool         // every returned reference is freshly allocated
	tails  map[int]bool // parameters whose storage is appended to
	rets   map[int]bool // parameters whose storage is returned
	ints   map[int]bool // parameters that hold an integer that is changed
	where  map[string]ssa.Instruction
}

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
		return true
	}
	return false
}

func kindOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isBigInt(u.Elem()) {
			return "big"
		}
		return "*" + typeName(u.Elem())
	case *types.Slice:
		return "[]" + typeName(u.Elem())
	case *types.Map:
		return "map[" + typeName(u.Key()) + "]" + typeName(u.Elem())
	case *types.Interface:
		return "iface"
	}
	return typeName(t)
}

// origin classifies the memory a reference points to.
type origin struct {
	local  bool
	param  map[int]bool
	global map[string]bool
	other  map[string]bool // kinds loaded from memory or returned by calls
}

func newOrigin() *origin {
	return &origin{local: true, param: map[int]bool{}, global: map[string]bool{}, other: map[string]bool{}}
}

func (o *origin) isLocal() bool { return len(o.param) == 0 && len(o.global) == 0 && len(o.other) == 0 }

func (s *side) trace(v ssa.Value) *origin {
	o := newOrigin()
	s.traceInto(v, o, map[ssa.Value]bool{})
	return o
}

func (s *side) traceInto(v ssa.Value, o *origin, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeClosure:
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				o.param[i] = true
			}
		}
	case *ssa.FreeVar:
		// resolve to the binding in the enclosing function
		f := v.Parent()
		bound := false
		if par := f.Parent(); par != nil {
			for i, fv := range f.FreeVars {
				if fv != v {
					continue
				}
				for _, b := range par.Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
							bound = true
							sub := newOrigin()
							s.traceInto(mc.Bindings[i], sub, seen)
							if !sub.isLocal() {
								o.other["captured "+kindOf(v.Type())] = true
							}
							_ = sub
						}
					}
				}
			}
		}
		if !bound {
			o.other[kindOf(v.Type())] = true
		}
	case *ssa.Global:
		o.global[fnameGlobal(v)] = true
	case *ssa.FieldAddr:
		s.traceInto(v.X, o, seen)
	case *ssa.IndexAddr:
		s.traceInto(v.X, o, seen)
	case *ssa.Slice:
		s.traceInto(v.X, o, seen)
	case *ssa.ChangeType:
		s.traceInto(v.X, o, seen)
	case *ssa.Convert:
		// string/byte conversions copy
		if isRef(v.X.Type()) {
			s.traceInto(v.X, o, seen)
		}
	case *ssa.MakeInterface:
		s.traceInto(v.X, o, seen)
	case *ssa.ChangeInterface:
		s.traceInto(v.X, o, seen)
	case *ssa.TypeAssert:
		s.traceInto(v.X, o, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.traceInto(e, o, seen)
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			s.traceCall(c, v.Type(), o, seen)
			return
		}
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok {
			s.traceInto(ta.X, o, seen)
			return
		}
		o.other[kindOf(v.Type())] = true
	case *ssa.Call:
		s.traceCall(v, v.Type(), o, seen)
	case *ssa.UnOp:
		// a reference loaded from memory: if loaded from a local cell, what was stored
		if al, ok := v.X.(*ssa.Alloc); ok {
			if s.traceCell(al, o, seen) {
				return
			}
		}
		// what a package variable refers to
		base := v.X
		for {
			switch b := base.(type) {
			case *ssa.FieldAddr:
				base = b.X
				continue
			case *ssa.IndexAddr:
				base = b.X
				continue
			}
			break
		}
		if g, ok := base.(*ssa.Global); ok && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
			o.global[fnameGlobal(g)] = true
		}
		o.other[kindOf(v.Type())] = true
	case *ssa.Lookup, *ssa.Field, *ssa.Index, *ssa.Next, *ssa.Range:
		o.other[kindOf(v.(ssa.Value).Type())] = true
	default:
		o.other[kindOf(v.Type())] = true
	}
}

// traceCell handles a local variable whose address is only used for direct
// loads and stores.
func (s *side) traceCell(al *ssa.Alloc, o *origin, seen map[ssa.Value]bool) bool {
	if al.Referrers() == nil {
		return false
	}
	var vals []ssa.Value
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != al {
				return false
			}
			vals = append(vals, r.Val)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// what closures store into the variable
			vs, ok := closureStores(r, al)
			if !ok {
				return false
			}
			vals = append(vals, vs...)
		default:
			return false
		}
	}
	for _, v := range vals {
		s.traceInto(v, o, seen)
	}
	return true
}

// closureStores lists what a closure stores into a captured variable.
func closureStores(mc *ssa.MakeClosure, cell ssa.Value) ([]ssa.Value, bool) {
	f, ok := mc.Fn.(*ssa.Function)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for i, b := range mc.Bindings {
		if b != cell || f.FreeVars[i].Referrers() == nil {
			continue
		}
		for _, r := range *f.FreeVars[i].Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != ssa.Value(f.FreeVars[i]) {
					return nil, false
				}
				out = append(out, r.Val)
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				vs, ok := closureStores(r, f.FreeVars[i])
				if !ok {
					return nil, false
				}
				out = append(out, vs...)
			default:
				return nil, false
			}
		}
	}
	return out, true
}

func fnameGlobal(g *ssa.Global) string {
	return strings.ReplaceAll(strings.ReplaceAll(g.RelString(nil), modPath+"/", ""), modPath, "addchain")
}

// bigReturnsReceiver reports whether the big.Int method returns its receiver.
func bigReturnsReceiver(name string) bool {
	switch name {
	case "Add", "Sub", "Mul", "Set", "SetInt64", "SetUint64", "SetBit", "SetBits", "SetBytes", "Lsh", "Rsh", "And", "Or", "Xor", "Not", "AndNot", "Neg", "Abs",
		"Div", "Mod", "Quo", "Rem", "Exp", "Sqrt", "GCD", "ModInverse", "MulRange", "Binomial", "Rand", "SetString", "DivMod", "QuoRem", "ModSqrt", "FillBytes":
		return true
	}
	return false
}

func bigMutates(name string) bool {
	return bigReturnsReceiver(name) || name == "UnmarshalText" || name == "Scan" || name == "GobDecode"
}

func isBigMethod(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	return isBigPtr(f.Signature.Recv().Type())
}

func (s *side) traceCall(c *ssa.Call, t types.Type, o *origin, seen map[ssa.Value]bool) {
	if !isRef(t) && !types.IsInterface(t) {
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			s.traceInto(c.Call.Args[0], o, seen)
		}
		return
	}
	f := c.Call.StaticCallee()
	if f != nil {
		if isBigMethod(f) && bigReturnsReceiver(f.Name()) {
			s.traceInto(c.Call.Args[0], o, seen)
			if f.Name() == "DivMod" || f.Name() == "QuoRem" {
				s.traceInto(c.Call.Args[len(c.Call.Args)-1], o, seen)
			}
			return
		}
		if f.Pkg != nil && f.Pkg.Pkg.Path() == "math/big" {
			return // NewInt, Bytes: fresh
		}
		if m := s.mods[f]; m != nil {
			if m.fresh {
				return
			}
			for i := range m.rets {
				if i < len(c.Call.Args) {
					s.traceInto(c.Call.Args[i], o, seen)
				}
			}
			o.other["result of "+fname(f)] = true
			return
		}
		if f.Pkg != nil && !isMod(f.Pkg.Pkg.Path()) {
			switch f.Pkg.Pkg.Path() {
			case "bytes", "strings", "strconv", "errors", "fmt", "math/rand", "sort":
				if f.Name() == "TrimSpace" || f.Name() == "Trim" || f.Name() == "TrimLeft" || f.Name() == "TrimRight" {
					s.traceInto(c.Call.Args[0], o, seen)
				}
				return
			}
		}
		o.other["result of "+f.Name()] = true
		return
	}
	if c.Call.IsInvoke() {
		o.other["result of "+c.Call.Method.Name()] = true
		return
	}
	o.other["result of function value"] = true
}

// callees returns the possible internal callees of a call.
func (s *side) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		return s.implementations(c.Value.Type(), c.Method)
	}
	return nil
}

func (s *side) implementations(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := typeName(it) + "." + m.Name()
	if s.impls == nil {
		s.impls = map[string][]*ssa.Function{}
	}
	if r, ok := s.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, p := range s.paths {
		sc := s.pkgs[p].Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.IsInterface(tn.Type()) || !types.Implements(t, iface) {
					continue
				}
				sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				fo, ok := sel.Obj().(*types.Func)
				if !ok {
					continue
				}
				if f := s.prog.FuncValue(fo); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	s.impls[key] = out
	return out
}

// worldCall reports whether a call outside the module may touch the outside
// world; only the listed packages are known not to.
func worldCall(f *ssa.Function) bool {
	o := f.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch p := o.Pkg().Path(); p {
	case "fmt":
		return !strings.HasPrefix(f.Name(), "Sprint") && f.Name() != "Errorf"
	case "math", "math/big", "math/bits", "strings", "strconv", "sort", "errors", "unicode", "unicode/utf8", "unicode/utf16", "bytes", "path", "path/filepath",
		"go/ast", "go/token", "go/parser", "go/format", "go/printer", "go/scanner", "go/types", "regexp", "reflect", "encoding/hex", "encoding/binary", "hash", "hash/fnv", "crypto/sha256",
		"slices", "maps", "cmp", "container/heap", "sync/atomic":
		return false
	}
	return true
}

// mutableLib lists library types whose methods change the receiver.
func mutableLib(t types.Type) bool {
	switch typeName(t) {
	case "*bytes.Buffer", "*strings.Builder":
		return true
	}
	return false
}

// mutatesArg lists external functions that write through an argument.
func mutatesArg(f *ssa.Function) int {
	if f.Pkg == nil {
		return -1
	}
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "sort.Float64s", "container/heap.Init", "container/heap.Push", "container/heap.Pop", "io.ReadFull", "math/rand.Shuffle":
		return 0
	}
	return -1
}

func (s *side) allFns() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, n := range s.order {
		add(s.fns[n])
	}
	return out
}

func (s *side) computeMods() {
	s.mods = map[*ssa.Function]*modset{}
	fns := s.allFns()
	for _, f := range fns {
		s.mods[f] = &modset{params: map[int]bool{}, tails: map[int]bool{}, rets: map[int]bool{}, ints: map[int]bool{}, deep: map[string]bool{}, fresh: true, where: map[string]ssa.Instruction{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			if s.modOf(f) {
				changed = true
			}
		}
	}
}

func (s *side) modOf(f *ssa.Function) bool {
	m := s.mods[f]
	before := len(m.params) + len(m.deep) + len(m.tails) + len(m.rets) + len(m.ints)
	w, fr := m.world, m.fresh
	write := func(v ssa.Value, in ssa.Instruction) {
		o := s.trace(v)
		t := v.Type()
		if isBigPtr(t) {
			held := map[int]bool{}
			s.heldBy(v, held, map[ssa.Value]bool{})
			m.changes(held, in)
		}
		// the object written is the innermost base
		base := v
		for {
			switch b := base.(type) {
			case *ssa.FieldAddr:
				base = b.X
				continue
			case *ssa.IndexAddr:
				base = b.X
				continue
			}
			break
		}
		t = base.Type()
		for i := range o.param {
			m.params[i] = true
			if m.where["p"+itoa(i)] == nil {
				m.where["p"+itoa(i)] = in
			}
		}
		for g := range o.global {
			k := "global " + g
			m.deep[k] = true
			if m.where[k] == nil {
				m.where[k] = in
			}
		}
		if len(o.other) > 0 {
			k := kindOf(t)
			m.deep[k] = true
			if m.where[k] == nil {
				m.where[k] = in
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if f.Name() == "init" && f.Synthetic != "" {
					continue
				}
				write(in.Addr, in)
			case *ssa.MapUpdate:
				write(in.Map, in)
			case *ssa.Send, *ssa.Go, *ssa.Select:
				m.world = true
				if g, ok := in.(*ssa.Go); ok {
					s.modCall(f, m, &g.Call, in, write)
				}
			case *ssa.Call:
				s.modCall(f, m, &in.Call, in, write)
			case *ssa.Defer:
				s.modCall(f, m, &in.Call, in, write)
			case *ssa.MakeClosure:
				// assume it runs
				if cf, ok := in.Fn.(*ssa.Function); ok {
					if cm := s.mods[cf]; cm != nil {
						for k := range cm.deep {
							if strings.HasPrefix(k, "cap ") {
								continue
							}
							m.deep[k] = true
							if m.where[k] == nil {
								m.where[k] = in
							}
						}
						if cm.world {
							m.world = true
						}
					}
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if _, ok := r.Type().Underlying().(*types.Slice); ok {
						for i := range s.trace(r).param {
							m.rets[i] = true
							if k := "r" + itoa(i); m.where[k] == nil {
								m.where[k] = in
							}
						}
					}
					if isRef(r.Type()) && !s.trace(r).isLocal() {
						m.fresh = false
					}
					if types.IsInterface(r.Type()) {
						if o := s.trace(r); !o.isLocal() {
							m.fresh = false
						}
					}
				}
			}
		}
	}
	return before != len(m.params)+len(m.deep)+len(m.tails)+len(m.rets)+len(m.ints) || w != m.world || fr != m.fresh
}

func (s *side) modCall(f *ssa.Function, m *modset, c *ssa.CallCommon, in ssa.Instruction, write func(ssa.Value, ssa.Instruction)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if capped(c.Args[0]) {
				break
			}
			for i := range s.trace(c.Args[0]).param {
				m.tails[i] = true
				if k := "t" + itoa(i); m.where[k] == nil {
					m.where[k] = in
				}
			}
		case "copy":
			write(c.Args[0], in)
		case "delete":
			write(c.Args[0], in)
		case "print", "println":
			m.world = true
		}
		return
	}
	if callee := c.StaticCallee(); callee != nil {
		if isBigMethod(callee) {
			if bigMutates(callee.Name()) {
				write(c.Args[0], in)
				if callee.Name() == "DivMod" || callee.Name() == "QuoRem" {
					write(c.Args[len(c.Args)-1], in)
				}
			}
			return
		}
		if s.mods[callee] == nil {
			if k := mutatesArg(callee); k >= 0 {
				write(c.Args[k], in)
			}
			if worldCall(callee) {
				m.world = true
			}
			if recv := callee.Signature.Recv(); recv != nil && isPointer(recv.Type()) && mutableLib(recv.Type()) {
				write(c.Args[0], in)
			}
			return
		}
	}
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
		if c.Method.Pkg() == nil || !isMod(c.Method.Pkg().Path()) {
			switch c.Method.Name() {
			case "Write", "WriteString", "Read", "Close", "Flush", "Do", "Lock", "Unlock":
				m.world = true
			}
		}
	}
	for _, callee := range s.callees(c) {
		cm := s.mods[callee]
		if cm == nil {
			continue
		}
		if cm.world {
			m.world = true
		}
		for i := range cm.params {
			if i < len(args) {
				write(args[i], in)
			}
		}
		for i := range cm.ints {
			if i < len(args) {
				held := map[int]bool{}
				s.holders(args[i], held, map[ssa.Value]bool{})
				m.changes(held, in)
			}
		}
		for i := range cm.tails {
			if i < len(args) && !capped(args[i]) {
				for j := range s.trace(args[i]).param {
					m.tails[j] = true
					if k := "t" + itoa(j); m.where[k] == nil {
						m.where[k] = in
					}
				}
			}
		}
		for k := range cm.deep {
			m.deep[k] = true
			if m.where[k] == nil {
				m.where[k] = in
			}
		}
	}
}

// capped slices have no room behind their end.
func capped(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.Max != nil && sl.Max == sl.High
}

func (m *modset) changes(held map[int]bool, in ssa.Instruction) {
	for i := range held {
		m.ints[i] = true
		if k := "i" + itoa(i); m.where[k] == nil {
			m.where[k] = in
		}
	}
}
