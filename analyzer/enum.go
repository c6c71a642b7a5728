package main

import (
	"go/constant"
	"go/types"
)

// twoValued reports whether t is an unexported integer type of the module
// declared as an enumeration with the values 0 and 1: x == 1 is x != 0 there.
func (s *side) twoValued(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Exported() || !isMod(n.Obj().Pkg().Path()) {
		return false
	}
	seen := map[int64]int{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !types.Identical(c.Type(), t) {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if !ok {
			return false
		}
		seen[v]++
	}
	return len(seen) == 2 && seen[0] == 1 && seen[1] == 1
}
