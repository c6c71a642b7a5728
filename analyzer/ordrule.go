package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sorted lists without repeats. Some helpers require their lists to be sorted
// or to be free of repeats. A small type state follows what is known about a
// list of integers inside a function: what the caller passes may be in any
// order and have repeats, sorting and removing repeats change that.

type know int8

const (
	unknown know = iota
	yes
	no // nothing but what the caller passed
)

type listState struct{ sorted, distinct know }

func both(a, b know) know {
	switch {
	case a == no || b == no:
		return no
	case a == yes && b == yes:
		return yes
	}
	return unknown
}

var setOps = map[string]bool{
	"internal/bigints.InsertSortedUnique": true,
	"internal/bigints.MergeUnique":        true,
	"internal/bigints.ContainsSorted":     true,
	"internal/bigints.Unique":             true,
}

func isInts(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isBigPtr(sl.Elem())
}

// listOf follows v backwards. at is the place where it is used.
func (s *side) listOf(v ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) (st listState) {
	if seen[v] {
		return listState{yes, yes} // the other edges decide
	}
	seen[v] = true
	defer delete(seen, v)
	defer func() {
		if st.sorted != yes && sortedBefore(v, at) {
			st.sorted = yes
		}
	}()
	switch v := v.(type) {
	case *ssa.Parameter:
		if s.other != nil && s.other.fns[fname(v.Parent())] == nil {
			return listState{} // a new helper
		}
		return listState{no, no}
	case *ssa.Const:
		return listState{yes, yes}
	case *ssa.ChangeType:
		return s.listOf(v.X, at, seen)
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			if a, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
				return listState{yes, yes}
			}
			return listState{}
		}
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			return s.listOf(v.X, at, seen)
		}
	case *ssa.Phi:
		st := listState{yes, yes}
		for _, e := range v.Edges {
			x := s.listOf(e, at, seen)
			st.sorted, st.distinct = both(st.sorted, x.sorted), both(st.distinct, x.distinct)
		}
		return st
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return listState{}
			}
			x := s.listOf(v.Call.Args[0], v, seen)
			if isInts(v.Call.Args[1].Type()) {
				if _, lit := v.Call.Args[1].(*ssa.Slice); !lit {
					y := s.listOf(v.Call.Args[1], v, seen)
					if y.sorted == no {
						x.sorted = no
					}
					if y.distinct == no {
						x.distinct = no
					}
				}
			}
			if x.sorted == yes {
				x.sorted = unknown
			}
			if x.distinct == yes {
				x.distinct = unknown
			}
			return x
		}
		f := v.Call.StaticCallee()
		if f == nil {
			return listState{}
		}
		a := v.Call.Args
		switch fname(f) {
		case "internal/bigints.Clone":
			return s.listOf(a[0], v, seen)
		case "internal/bigints.Concat":
			x, y := s.listOf(a[0], v, seen), s.listOf(a[1], v, seen)
			st := listState{}
			if x.sorted == no || y.sorted == no {
				st.sorted = no
			}
			if x.distinct == no || y.distinct == no {
				st.distinct = no
			}
			return st
		case "internal/bigints.Unique":
			x := s.listOf(a[0], v, seen)
			return listState{x.sorted, x.sorted}
		case "internal/bigints.InsertSortedUnique":
			x := s.listOf(a[0], v, seen)
			k := both(x.sorted, x.distinct)
			return listState{x.sorted, k}
		case "internal/bigints.MergeUnique":
			x, y := s.listOf(a[0], v, seen), s.listOf(a[1], v, seen)
			o := both(x.sorted, y.sorted)
			return listState{o, both(o, both(x.distinct, y.distinct))}
		case "internal/bigints.Int64s":
			if ascendingLiteral(a[0]) {
				return listState{yes, yes}
			}
		}
	}
	return listState{}
}

// ascendingLiteral: a list of constants in strictly ascending order.
func ascendingLiteral(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return false
	}
	vals := map[int64]int64{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, ok := ia.Index.(*ssa.Const)
		if !ok || ia.Referrers() == nil {
			return false
		}
		for _, q := range *ia.Referrers() {
			st, ok := q.(*ssa.Store)
			if !ok {
				return false
			}
			c, ok := st.Val.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return false
			}
			vals[i.Int64()] = c.Int64()
		}
	}
	for i := int64(1); i < int64(len(vals)); i++ {
		if vals[i] <= vals[i-1] {
			return false
		}
	}
	return true
}

// sortedBefore: a call that sorts the list in place comes first on every path.
func sortedBefore(v ssa.Value, at ssa.Instruction) bool {
	var uses func(v ssa.Value, d int) bool
	uses = func(v ssa.Value, d int) bool {
		if d > 4 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				f := r.Call.StaticCallee()
				if f == nil {
					continue
				}
				sorts := fname(f) == "internal/bigints.Sort" || f.Pkg != nil && (f.Pkg.Pkg.Path() == "sort" || f.Pkg.Pkg.Path() == "slices")
				if sorts && before(r, at) {
					return true
				}
			case *ssa.ChangeType:
				if uses(r, d+1) {
					return true
				}
			case *ssa.MakeInterface:
				if uses(r, d+1) {
					return true
				}
			}
		}
		return false
	}
	return uses(v, 0)
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == nil || b.Block() == nil || a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

type rawUse struct {
	pos, what string
}

// rawUses lists the places where a helper that needs a sorted list, or one
// without repeats, gets a list as the caller passed it.
func (s *side) rawUses(f *ssa.Function) (out map[string][]rawUse, sites int) {
	out = map[string][]rawUse{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || !setOps[fname(g)] {
				continue
			}
			sites++
			add := func(arg ssa.Value, distinct bool) {
				st := s.listOf(arg, in, map[ssa.Value]bool{})
				if st.sorted == no {
					out[fname(g)] = append(out[fname(g)], rawUse{s.pos(in.Pos()), "may be in any order"})
				} else if distinct && st.distinct == no {
					out[fname(g)] = append(out[fname(g)], rawUse{s.pos(in.Pos()), "may have repeats"})
				}
			}
			switch fname(g) {
			case "internal/bigints.Unique":
				add(c.Call.Args[0], false)
			case "internal/bigints.ContainsSorted":
				add(c.Call.Args[1], false)
			case "internal/bigints.InsertSortedUnique":
				add(c.Call.Args[0], true)
			case "internal/bigints.MergeUnique":
				add(c.Call.Args[0], true)
				add(c.Call.Args[1], true)
			}
		}
	}
	return out, sites
}

// setRule: lists that helpers take for sorted or free of repeats are.
func setRule(prefixes ...string) func(*program) *ruleRun {
	return func(p *program) *ruleRun {
		r := &ruleRun{Rule: "sorted-sets", What: "no list passed by a caller reaches a helper that needs it sorted, or without repeats, unless it has been made so (calls already there in the reviewed code are exempt)"}
		for _, n := range p.n.order {
			if skipUnit(n) || !underAny(n, prefixes) {
				continue
			}
			uses, sites := p.n.rawUses(p.n.fns[n])
			if sites == 0 {
				continue
			}
			var old map[string][]rawUse
			if g := p.r.fns[n]; g != nil {
				old, _ = p.r.rawUses(g)
			}
			bad := 0
			for k, us := range uses {
				if len(us) > len(old[k]) {
					bad++
					r.bad(us[0].pos, n, "passes a list that %s to %s", us[0].what, k)
				}
			}
			if bad == 0 {
				r.ok("%s: %d calls", n, sites)
			}
		}
		return r
	}
}

func underAny(n string, prefixes []string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range prefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// orderRule: the functions leave the order of the elements alone.
func orderRule(prefix string) func(*program) *ruleRun {
	return func(p *program) *ruleRun {
		r := &ruleRun{Rule: "keeps-order", What: "no function of " + prefix + " sorts, merges or inserts by value: elements keep the order of the chain"}
		for _, n := range p.n.order {
			if skipUnit(n) || !underAny(n, []string{prefix}) {
				continue
			}
			for _, b := range p.n.fns[n].Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := c.Call.StaticCallee()
					if g == nil {
						continue
					}
					k := fname(g)
					if p := g.Pkg; p != nil && (p.Pkg.Path() == "sort" || p.Pkg.Path() == "slices") {
						k = p.Pkg.Path() + "." + g.Name()
					}
					sorts := k == "internal/bigints.Sort" || k == "internal/bigints.InsertSortedUnique" || k == "internal/bigints.MergeUnique"
					if strings.HasPrefix(k, "sort.S") && k != "sort.Search" && k != "sort.Strings" || strings.HasPrefix(k, "slices.Sort") || strings.HasPrefix(k, "slices.Reverse") {
						sorts = len(c.Call.Args) > 0 && sortsInts(c.Call.Args[0], 0)
					}
					if sorts {
						r.bad(p.n.pos(in.Pos()), n, "%s changes the order of the elements", k)
					} else if g.Pkg != nil && isMod(g.Pkg.Pkg.Path()) {
						r.ok("%s: %s", n, k)
					}
				}
			}
		}
		return r
	}
}

func sortsInts(v ssa.Value, d int) bool {
	if isInts(v.Type()) {
		return true
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return d < 4 && sortsInts(v.X, d+1)
	case *ssa.ChangeType:
		return d < 4 && sortsInts(v.X, d+1)
	case *ssa.UnOp:
		return v.Op == token.MUL && d < 4 && isInts(v.Type())
	}
	return false
}
