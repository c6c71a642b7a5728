package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// newEffects lists the parameters and package variables that f may write and
// the reviewed g does not.
func newEffects(n *side, f *ssa.Function, r *side, g *ssa.Function) []string {
	a, b := n.mods[f], r.mods[g]
	if a == nil || b == nil {
		return nil
	}
	var out []string
	for i := range a.params {
		if !b.params[i] && !b.tails[i] && i < len(f.Params) {
			out = append(out, "writes memory reached from parameter "+f.Params[i].Name()+whereStr(n, a, "p"+itoa(i)))
		}
	}
	for i := range a.ints {
		if !b.ints[i] && i < len(f.Params) {
			out = append(out, "changes an integer held by parameter "+f.Params[i].Name()+whereStr(n, a, "i"+itoa(i)))
		}
	}
	for k := range a.deep {
		if strings.HasPrefix(k, "global ") && !b.deep[k] {
			out = append(out, "writes package variable "+strings.TrimPrefix(k, "global ")+whereStr(n, a, k))
		}
	}
	sort.Strings(out)
	return out
}

// newSharing lists new ways in which results or later calls share storage
// with the arguments. Values do not show it.
func newSharing(n *side, f *ssa.Function, r *side, g *ssa.Function) []string {
	a, b := n.mods[f], r.mods[g]
	if a == nil || b == nil {
		return nil
	}
	var out []string
	for i := range a.tails {
		if !b.tails[i] && !b.params[i] && i < len(f.Params) {
			out = append(out, "appends to the storage of parameter "+f.Params[i].Name()+whereStr(n, a, "t"+itoa(i)))
		}
	}
	for i := range a.rets {
		if !b.rets[i] && i < len(f.Params) {
			out = append(out, "returns the storage of parameter "+f.Params[i].Name()+whereStr(n, a, "r"+itoa(i)))
		}
	}
	sort.Strings(out)
	return out
}

func whereStr(s *side, m *modset, k string) string {
	if in := m.where[k]; in != nil && in.Pos().IsValid() {
		return " (" + s.pos(in.Pos()) + ")"
	}
	return ""
}
