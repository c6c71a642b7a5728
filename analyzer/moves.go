package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// narrows reports whether a conversion can lose bits.
func narrows(from, to types.Type) bool {
	size := func(t types.Type) (int, bool) {
		if t == nil {
			return 0, false
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0, false
		}
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8, true
		case types.Int16, types.Uint16:
			return 16, true
		case types.Int32, types.Uint32:
			return 32, true
		}
		return 64, true
	}
	a, ok1 := size(from)
	b, ok2 := size(to)
	return ok1 && ok2 && b < a
}

// access lists what a statement reads and writes. A place is a variable
// followed by a path of fields and "[]"; memory that calls write is included.
type access struct {
	reads, writes map[string]bool
	counts        bool // only adds to what it writes
	world         bool
}

func (p *program) accessOf(n ast.Node, info *types.Info) *access {
	a := &access{reads: map[string]bool{}, writes: map[string]bool{}}
	switch n.(type) {
	case *ast.IncDecStmt:
		a.counts = true
	case *ast.AssignStmt:
		if t := n.(*ast.AssignStmt).Tok; t != token.ASSIGN && t != token.DEFINE {
			a.counts = true
		}
	}
	var place func(e ast.Expr) string
	place = func(e ast.Expr) string {
		switch e := e.(type) {
		case *ast.ParenExpr:
			return place(e.X)
		case *ast.StarExpr:
			return place(e.X)
		case *ast.Ident:
			if v, ok := info.ObjectOf(e).(*types.Var); ok {
				return v.Name() + "@" + p.n.pos(v.Pos())
			}
		case *ast.SelectorExpr:
			if x := place(e.X); x != "" {
				if _, ok := info.ObjectOf(e.Sel).(*types.Var); ok {
					return x + "." + e.Sel.Name
				}
			} else if v, ok := info.ObjectOf(e.Sel).(*types.Var); ok {
				return v.Name() + "@" + p.n.pos(v.Pos())
			}
		case *ast.IndexExpr:
			if x := place(e.X); x != "" {
				return x + ".[]"
			}
		case *ast.SliceExpr:
			return place(e.X)
		case *ast.UnaryExpr:
			if e.Op == token.AND {
				return place(e.X)
			}
		}
		return ""
	}
	write := func(e ast.Expr) {
		if x := place(e); x != "" {
			a.writes[x] = true
		}
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.AssignStmt:
				for _, l := range m.Lhs {
					if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
						continue
					}
					write(l)
					switch l := l.(type) {
					case *ast.Ident:
						if m.Tok != token.ASSIGN && m.Tok != token.DEFINE {
							walk(l)
						}
					case *ast.IndexExpr:
						walk(l.Index)
						if m.Tok != token.ASSIGN {
							walk(l)
						}
					case *ast.SelectorExpr:
						if m.Tok != token.ASSIGN {
							walk(l)
						}
					default:
						walk(l)
					}
				}
				for _, r := range m.Rhs {
					walk(r)
				}
				return false
			case *ast.IncDecStmt:
				write(m.X)
			case *ast.RangeStmt:
				if m.Key != nil {
					write(m.Key)
				}
				if m.Value != nil {
					write(m.Value)
				}
			case *ast.CallExpr:
				if id, ok := m.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") && len(m.Args) == 1 {
					if x := place(m.Args[0]); x != "" {
						a.reads[x+".len"] = true
						return false
					}
				}
				if p.callAccess(m, info, a, place) {
					for _, e := range m.Args {
						walk(e)
					}
					return false
				}
			case *ast.SelectorExpr, *ast.IndexExpr, *ast.Ident:
				if x := place(m.(ast.Expr)); x != "" {
					a.reads[x] = true
					if ix, ok := m.(*ast.IndexExpr); ok {
						walk(ix.Index)
						// the index of an inner expression
						if in, ok := ix.X.(*ast.IndexExpr); ok {
							walk(in.Index)
						}
					}
					return false
				}
			}
			return true
		})
	}
	walk(n)
	return a
}

// fieldAccess lists the fields of a parameter that a function reads and writes,
// if it does nothing else with it.
func fieldAccess(f *ssa.Function, i int) (reads, writes []string, ok bool) {
	if i >= len(f.Params) || len(f.Blocks) == 0 || f.Params[i].Referrers() == nil {
		return
	}
	for _, r := range *f.Params[i].Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			st, isSt := r.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !isSt {
				return nil, nil, false
			}
			name := st.Field(r.Field).Name()
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.Store:
					if u.Addr != r {
						return nil, nil, false
					}
					writes = append(writes, name)
				case *ssa.UnOp:
					// what a loaded reference leads to may be written
					if isRef(u.Type()) {
						writes = append(writes, name)
					}
					reads = append(reads, name)
				case *ssa.DebugRef:
				default:
					writes = append(writes, name)
					reads = append(reads, name)
				}
			}
		default:
			return nil, nil, false
		}
	}
	return reads, writes, true
}

// callAccess adds what a call writes. It reports whether the reads of the
// receiver are known as well.
func (p *program) callAccess(c *ast.CallExpr, info *types.Info, a *access, place func(ast.Expr) string) (known bool) {
	var fo *types.Func
	var recv ast.Expr
	switch f := c.Fun.(type) {
	case *ast.Ident:
		fo, _ = info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		fo, _ = info.Uses[f.Sel].(*types.Func)
		if fo != nil && fo.Type().(*types.Signature).Recv() != nil {
			recv = f.X
		}
	}
	if fo == nil {
		return false
	}
	if recv != nil && isBigPtr(fo.Type().(*types.Signature).Recv().Type()) {
		if s := fo.Type().(*types.Signature); s.Results().Len() > 0 && isBigPtr(s.Results().At(0).Type()) {
			if x := place(recv); x != "" {
				a.writes[x] = true
			}
			if fo.Name() == "DivMod" || fo.Name() == "QuoRem" {
				if x := place(c.Args[2]); x != "" {
					a.writes[x] = true
				}
			}
		}
		return false
	}
	if fo.Pkg() != nil && !isMod(fo.Pkg().Path()) {
		switch fo.Pkg().Path() {
		case "fmt", "log", "os", "io":
			if !strings.HasPrefix(fo.Name(), "S") && fo.Name() != "Errorf" {
				a.world = true
			}
		case "sort":
			for _, e := range c.Args {
				if x := place(e); x != "" {
					a.writes[x] = true
				}
			}
		}
		return false
	}
	var f *ssa.Function
	if recv == nil || !types.IsInterface(fo.Type().(*types.Signature).Recv().Type()) {
		f = p.n.prog.FuncValue(fo)
	}
	if f == nil {
		return false
	}
	m := p.n.modsOf(f)
	if m == nil {
		return false
	}
	args := c.Args
	if recv != nil {
		args = append([]ast.Expr{recv}, c.Args...)
		if x := place(recv); x != "" {
			if rs, ws, ok := fieldAccess(f, 0); ok {
				for _, n := range rs {
					a.reads[x+"."+n] = true
				}
				for _, n := range ws {
					a.writes[x+"."+n] = true
				}
				known = true
			}
		}
	}
	for i, e := range args {
		if m.params[i] && !(known && i == 0) {
			if x := place(e); x != "" {
				a.writes[x] = true
			}
		}
	}
	if m.world {
		a.world = true
	}
	return known
}

func overlap(xs, ys map[string]bool) string {
	for x := range xs {
		for y := range ys {
			if x == y || strings.HasPrefix(x, y+".") || strings.HasPrefix(y, x+".") {
				i := strings.Index(x, "@")
				j := strings.Index(x[i:], ".")
				if j < 0 || strings.HasSuffix(x[i:], ".go") {
					return x[:i]
				}
				return x[:i]
			}
		}
	}
	return ""
}

// movedPast reports a statement that changed places with one it depends on.
func (p *program) movedPast(es []edit, info *types.Info) (string, token.Pos) {
	if len(es) != 2 {
		return "", 0
	}
	x, y := es[0], es[1]
	if isNilNode(x.new) {
		x, y = y, x
	}
	if isNilNode(x.new) || !isNilNode(x.old) || isNilNode(y.old) || !isNilNode(y.new) || x.list == nil || y.list == nil {
		return "", 0
	}
	if !sameAST(x.new, y.old) || len(x.list) != len(y.list) {
		return "", 0
	}
	var rest []ast.Node
	k := 0
	for i, s := range x.list {
		if i == x.idx {
			continue
		}
		if k == y.idx {
			k++
		}
		if !sameAST(s, y.list[k]) {
			return "", 0
		}
		k++
		rest = append(rest, s)
	}
	lo, hi := x.idx, y.idx
	if lo > hi {
		lo, hi = hi, lo
	}
	s := p.accessOf(x.new, info)
	for _, m := range rest[lo:hi] {
		t := p.accessOf(m, info)
		if s.counts && t.counts {
			continue
		}
		if s.world && t.world {
			return "statement moved past another that writes output", x.new.Pos()
		}
		v := overlap(s.writes, t.reads)
		if v == "" {
			v = overlap(s.reads, t.writes)
		}
		if v == "" {
			v = overlap(s.writes, t.writes)
		}
		if v != "" {
			return "statement moved past one that depends on it through " + v, x.new.Pos()
		}
	}
	return "", 0
}

// permutation matches the statements of two lists that hold the same
// statements in another order; it returns the old place of each.
func permutation(la, lb []ast.Node) []int {
	if len(la) != len(lb) || len(la) < 2 || len(la) > 60 {
		return nil
	}
	used := make([]bool, len(lb))
	at := make([]int, len(la))
	moved := false
	for i, x := range la {
		at[i] = -1
		for j, y := range lb {
			if !used[j] && sameAST(x, y) {
				used[j] = true
				at[i] = j
				break
			}
		}
		if at[i] < 0 {
			return nil
		}
		moved = moved || at[i] != i
	}
	if !moved {
		return nil
	}
	return at
}

// exchanged reports a pair of statements that changed places although one
// depends on the other. Equal statements among them (error checks) move with
// the statement they follow.
func (p *program) exchanged(la []ast.Node, at []int, info *types.Info) (string, token.Pos) {
	acc := make([]*access, len(la))
	for i, s := range la {
		acc[i] = p.accessOf(s, info)
		for _, m := range []map[string]bool{acc[i].reads, acc[i].writes} {
			for k := range m {
				if strings.HasPrefix(k, "err@") {
					delete(m, k)
				}
			}
		}
	}
	for i := range la {
		for j := i + 1; j < len(la); j++ {
			if at[i] < at[j] {
				continue
			}
			s, t := acc[i], acc[j]
			if s.counts && t.counts {
				continue
			}
			if s.world && t.world {
				return "statement exchanged with another that writes output", la[i].Pos()
			}
			v := overlap(s.writes, t.reads)
			if v == "" {
				v = overlap(s.reads, t.writes)
			}
			if v == "" {
				v = overlap(s.writes, t.writes)
			}
			if v != "" {
				return "statement exchanged with one that depends on it through " + v, la[i].Pos()
			}
		}
	}
	return "", 0
}
