package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Integers are shared by pointer: a slice of integers holds references, and
// changing one in place changes it for everyone else. These functions find the
// parameters that hold an integer a function changes.

// heldBy adds the parameters that hold the integer v.
func (s *side) heldBy(v ssa.Value, out map[int]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return
		}
		if al, ok := v.X.(*ssa.Alloc); ok {
			for _, x := range storedIn(al) {
				s.heldBy(x, out, seen)
			}
			return
		}
		s.holders(v.X, out, map[ssa.Value]bool{})
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.heldBy(e, out, seen)
		}
	case *ssa.Field:
		s.holders(v.X, out, map[ssa.Value]bool{})
	case *ssa.Index:
		s.holders(v.X, out, map[ssa.Value]bool{})
	case *ssa.Lookup:
		s.holders(v.X, out, map[ssa.Value]bool{})
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && isBigMethod(f) && bigReturnsReceiver(f.Name()) {
			s.heldBy(v.Call.Args[0], out, seen)
		}
	}
}

// holders adds the parameters that share elements with v.
func (s *side) holders(v ssa.Value, out map[int]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				out[i] = true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			s.holders(v.X, out, seen)
		}
	case *ssa.FieldAddr:
		s.holders(v.X, out, seen)
	case *ssa.IndexAddr:
		s.holders(v.X, out, seen)
	case *ssa.Slice:
		s.holders(v.X, out, seen)
	case *ssa.ChangeType:
		s.holders(v.X, out, seen)
	case *ssa.Field:
		s.holders(v.X, out, seen)
	case *ssa.Index:
		s.holders(v.X, out, seen)
	case *ssa.Lookup:
		s.holders(v.X, out, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			s.holders(e, out, seen)
		}
	case *ssa.Alloc:
		for _, x := range storedIn(v) {
			s.holders(x, out, seen)
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				s.holders(v.Call.Args[0], out, seen)
				s.holders(v.Call.Args[1], out, seen)
			}
			return
		}
		if f := v.Call.StaticCallee(); f != nil {
			if m := s.mods[f]; m != nil {
				for i := range m.rets {
					if i < len(v.Call.Args) {
						s.holders(v.Call.Args[i], out, seen)
					}
				}
			}
		}
	}
}

func storedIn(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	if al.Referrers() == nil {
		return nil
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) {
			out = append(out, st.Val)
		}
	}
	return out
}
