package main

import (
	"go/types"
	"sort"
	"strings"
)

// Correspondence of declarations between the two versions: renamed unexported
// types and reordered or renamed struct fields denote the same things.

var (
	typeRenames [][2]string                 // name in the new version, name in the reference
	fieldPerm   = map[*types.Struct][]int{} // field index in the new version -> reference
)

func fieldPos(s *types.Struct, i int) int {
	if p, ok := fieldPerm[s]; ok {
		return p[i]
	}
	return i
}

func renamed(n string) string {
	for _, r := range typeRenames {
		if strings.Contains(n, r[0]) {
			n = replaceWord(n, r[0], r[1])
		}
	}
	return n
}

func isWordByte(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func replaceWord(s, from, to string) string {
	var sb strings.Builder
	for {
		i := strings.Index(s, from)
		if i < 0 {
			sb.WriteString(s)
			return sb.String()
		}
		j := i + len(from)
		ok := (j == len(s) || !isWordByte(s[j])) && (i == 0 || !isWordByte(s[i-1]) && s[i-1] != '/')
		sb.WriteString(s[:i])
		if ok {
			sb.WriteString(to)
		} else {
			sb.WriteString(from)
		}
		s = s[j:]
	}
}

// shapeOf describes a type without the names it declares.
func shapeOf(t types.Type, self types.Type) string {
	self = types.Unalias(self)
	selfName := typeName(self)
	return replaceWord(shapeRec(t.Underlying()), selfName, "self")
}

func shapeRec(t types.Type) string {
	if s, ok := t.(*types.Struct); ok {
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, typeName(s.Field(i).Type()))
		}
		return "struct{" + strings.Join(fs, ";") + "}"
	}
	return typeName(t)
}

func alignTypes(n, r *side) {
	for _, path := range n.paths {
		np, rp := n.pkgs[path], r.pkgs[path]
		if rp == nil {
			continue
		}
		get := func(p *types.Package) map[string]*types.Named {
			m := map[string]*types.Named{}
			for _, name := range p.Scope().Names() {
				if tn, ok := p.Scope().Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
					if nt, ok := tn.Type().(*types.Named); ok {
						m[name] = nt
					}
				}
			}
			return m
		}
		nt, rt := get(np), get(rp)
		var added, removed []string
		for k := range nt {
			if rt[k] == nil && !isExported(k) {
				added = append(added, k)
			}
		}
		for k := range rt {
			if nt[k] == nil && !isExported(k) {
				removed = append(removed, k)
			}
		}
		sort.Strings(added)
		sort.Strings(removed)
		pre := strings.TrimPrefix(path, modPath+"/")
		if pre == modPath {
			pre = "addchain"
		}
		for _, a := range added {
			var m []string
			for _, b := range removed {
				if shapeOf(nt[a], nt[a]) == shapeOf(rt[b], rt[b]) {
					m = append(m, b)
				}
			}
			if len(m) == 1 && rt[m[0]] != nil {
				typeRenames = append(typeRenames, [2]string{pre + "." + a, pre + "." + m[0]})
				nt[m[0]] = nt[a]
			}
		}
		for name, a := range nt {
			b := rt[name]
			if b == nil {
				continue
			}
			as, ok1 := a.Underlying().(*types.Struct)
			bs, ok2 := b.Underlying().(*types.Struct)
			if !ok1 || !ok2 {
				continue
			}
			if p := matchFields(as, bs); p != nil {
				fieldPerm[as] = p
			}
		}
	}
}

func isExported(n string) bool { return n[0] >= 'A' && n[0] <= 'Z' }

func matchFields(a, b *types.Struct) []int {
	na, nb := a.NumFields(), b.NumFields()
	perm := make([]int, na)
	used := map[int]bool{}
	var rest []int
	ident := na == nb
	for i := 0; i < na; i++ {
		perm[i] = -1
		for j := 0; j < nb; j++ {
			if a.Field(i).Name() == b.Field(j).Name() {
				perm[i] = j
				used[j] = true
			}
		}
		if perm[i] < 0 {
			rest = append(rest, i)
		} else if perm[i] != i {
			ident = false
		}
	}
	if len(rest) == 0 && ident {
		return nil
	}
	// renamed fields: same type, in order
	var left []int
	for _, i := range rest {
		done := false
		for j := 0; j < nb; j++ {
			if !used[j] && typeName(a.Field(i).Type()) == typeName(b.Field(j).Type()) && !a.Field(i).Exported() {
				perm[i] = j
				used[j] = true
				done = true
				break
			}
		}
		if !done {
			left = append(left, i)
		}
	}
	// added fields go last; slots of removed fields are reused
	next := 0
	for _, i := range left {
		for used[next] {
			next++
		}
		used[next] = true
		perm[i] = next
	}
	// must be a permutation of 0..na-1
	seen := map[int]bool{}
	for _, p := range perm {
		if p >= na || seen[p] {
			// fields were removed: compress
			order := append([]int{}, perm...)
			sort.Ints(order)
			rank := map[int]int{}
			for k, v := range order {
				rank[v] = k
			}
			for i := range perm {
				perm[i] = rank[perm[i]]
			}
			return perm
		}
		seen[p] = true
	}
	return perm
}
