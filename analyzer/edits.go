package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// Small edits. When neither a function nor the part that differs could be
// compared by meaning, the edits that lead from the reviewed syntax tree to the
// present one are examined. Some single edits have no purpose other than a
// change of meaning: a condition gains or loses a conjunct, a constant or an
// operator changes, two arguments are exchanged, a statement with an effect is
// dropped.

type edit struct {
	old, new ast.Node // one of them nil for a deletion or an insertion
	what     string
	isStmt   bool
	list     []ast.Node // the statements among which it was found
	idx      int
	perm     []int // the statements of the list were put in another order
}

const maxEdits = 3

// treeEdits lists the smallest edits, or reports false if there are many.
func treeEdits(a, b ast.Node) ([]edit, bool) {
	var out []edit
	ok := true
	add := func(e edit) {
		out = append(out, e)
		if len(out) > maxEdits {
			ok = false
		}
	}
	var rec func(a, b ast.Node)
	rec = func(a, b ast.Node) {
		if !ok || sameAST(a, b) {
			return
		}
		if isNilNode(a) || isNilNode(b) {
			_, s1 := a.(ast.Stmt)
			_, s2 := b.(ast.Stmt)
			add(edit{old: b, new: a, isStmt: s1 || s2})
			return
		}
		if reflect.TypeOf(a) != reflect.TypeOf(b) {
			_, st := a.(ast.Stmt)
			add(edit{old: b, new: a, isStmt: st})
			return
		}
		if x, ok := a.(*ast.CallExpr); ok && otherCallee(x, b.(*ast.CallExpr)) {
			add(edit{old: b, new: a})
			return
		}
		if x, ok := a.(*ast.SelectorExpr); ok && x.Sel.Name != b.(*ast.SelectorExpr).Sel.Name {
			add(edit{old: b, new: a})
			return
		}
		fa, fb := astFields(a), astFields(b)
		var diff []int
		for i := range fa {
			if !sameField(fa[i], fb[i]) {
				diff = append(diff, i)
			}
		}
		for _, i := range diff {
			if fa[i].scalar != nil || fb[i].scalar != nil {
				_, st := a.(ast.Stmt)
				add(edit{old: b, new: a, isStmt: st})
				return
			}
		}
		// a conjunct added or an operand dropped is one edit of the whole
		if _, isExpr := a.(ast.Expr); isExpr && len(diff) > 1 {
			add(edit{old: b, new: a})
			return
		}
		for _, i := range diff {
			x, y := fa[i], fb[i]
			if !x.isList {
				rec(x.node, y.node)
				continue
			}
			if isStmtList(append(append([]ast.Node{}, x.list...), y.list...)) {
				alignLists(x.list, y.list, rec, add)
				continue
			}
			if len(x.list) != len(y.list) {
				add(edit{old: b, new: a})
				return
			}
			n := 0
			for j := range x.list {
				if !sameAST(x.list[j], y.list[j]) {
					n++
				}
			}
			if n > 1 {
				add(edit{old: b, new: a})
				return
			}
			for j := range x.list {
				rec(x.list[j], y.list[j])
			}
		}
	}
	rec(a, b)
	return out, ok
}

// alignLists matches statements of two lists.
func alignLists(la, lb []ast.Node, rec func(a, b ast.Node), add func(edit)) {
	if at := permutation(la, lb); at != nil {
		add(edit{new: la[0], old: lb[0], isStmt: true, list: la, perm: at})
		return
	}
	n, m := len(la), len(lb)
	// longest common subsequence of equal statements, with a bonus for
	// statements of the same kind at the same place
	cost := make([][]int, n+1)
	for i := range cost {
		cost[i] = make([]int, m+1)
	}
	sub := func(i, j int) int {
		if sameAST(la[i], lb[j]) {
			return 0
		}
		if reflect.TypeOf(la[i]) == reflect.TypeOf(lb[j]) {
			return 3
		}
		return 5
	}
	for i := n; i >= 0; i-- {
		for j := m; j >= 0; j-- {
			if i == n && j == m {
				continue
			}
			best := 1 << 30
			if i < n && cost[i+1][j]+2 < best {
				best = cost[i+1][j] + 2
			}
			if j < m && cost[i][j+1]+2 < best {
				best = cost[i][j+1] + 2
			}
			if i < n && j < m && cost[i+1][j+1]+sub(i, j) < best {
				best = cost[i+1][j+1] + sub(i, j)
			}
			cost[i][j] = best
		}
	}
	i, j := 0, 0
	for i < n || j < m {
		switch {
		case i < n && j < m && cost[i][j] == cost[i+1][j+1]+sub(i, j):
			rec(la[i], lb[j])
			i++
			j++
		case i < n && cost[i][j] == cost[i+1][j]+2:
			add(edit{new: la[i], isStmt: true, list: la, idx: i})
			i++
		default:
			add(edit{old: lb[j], isStmt: true, list: lb, idx: j})
			j++
		}
	}
}

// telling says what an edit changes, or "" if it may well change nothing.
func (p *program) telling(e edit, in, ir *types.Info) string {
	if e.isStmt {
		switch {
		case e.new == nil || isNilNode(e.new):
			return p.tellingStmt(e.old, ir, "removed")
		case e.old == nil || isNilNode(e.old):
			if p.usesNew(e.new, in) {
				return ""
			}
			if unchangedSince(e) {
				return ""
			}
			return p.tellingStmt(e.new, in, "added")
		}
		x, ok1 := e.new.(*ast.AssignStmt)
		y, ok2 := e.old.(*ast.AssignStmt)
		if ok1 && ok2 && x.Tok != y.Tok && x.Tok != token.DEFINE && y.Tok != token.DEFINE && len(x.Lhs) == 1 && sameAST(x.Lhs[0], y.Lhs[0]) && sameAST(x.Rhs[0], y.Rhs[0]) {
			return fmt.Sprintf("operator %s became %s", y.Tok, x.Tok)
		}
		if x, ok := e.new.(*ast.IncDecStmt); ok {
			if y, ok := e.old.(*ast.IncDecStmt); ok && sameAST(x.X, y.X) {
				return fmt.Sprintf("operator %s became %s", y.Tok, x.Tok)
			}
		}
		if x, ok := e.new.(*ast.BranchStmt); ok {
			if y, ok := e.old.(*ast.BranchStmt); ok && x.Tok != y.Tok {
				return fmt.Sprintf("%s became %s", y.Tok, x.Tok)
			}
		}
		return ""
	}
	x, ok1 := e.new.(ast.Expr)
	y, ok2 := e.old.(ast.Expr)
	if !ok1 || !ok2 || p.usesNew(x, in) {
		return ""
	}
	return exprEdit(x, y, in, ir)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func conjuncts(e ast.Expr, op token.Token) []ast.Expr {
	e = unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == op {
		return append(conjuncts(b.X, op), conjuncts(b.Y, op)...)
	}
	return []ast.Expr{e}
}

// subset reports whether every expression of xs is in ys.
func subsetExprs(xs, ys []ast.Expr) bool {
	for _, x := range xs {
		ok := false
		for _, y := range ys {
			if sameAST(x, y) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func exprEdit(x, y ast.Expr, in, ir *types.Info) string {
	x, y = unparen(x), unparen(y)
	for _, op := range []token.Token{token.LAND, token.LOR} {
		cx, cy := conjuncts(x, op), conjuncts(y, op)
		if len(cx) > len(cy) && subsetExprs(cy, cx) {
			return "condition gained a term"
		}
		if len(cx) < len(cy) && subsetExprs(cx, cy) {
			return "condition lost a term"
		}
		if len(cx) > len(cy) && likeTerms(cy, cx) {
			return "condition gained a term"
		}
		if len(cx) < len(cy) && likeTerms(cx, cy) {
			return "condition lost a term"
		}
	}
	switch x := x.(type) {
	case *ast.BasicLit:
		if y, ok := y.(*ast.BasicLit); ok && x.Kind == y.Kind && x.Value != y.Value {
			a, b := in.Types[ast.Expr(x)].Value, ir.Types[ast.Expr(y)].Value
			if a == nil || b == nil || a.ExactString() != b.ExactString() {
				return "constant " + y.Value + " became " + x.Value
			}
		}
	case *ast.Ident:
		if y, ok := y.(*ast.Ident); ok && x.Name != y.Name {
			vx, ok1 := in.ObjectOf(x).(*types.Var)
			vy, ok2 := ir.ObjectOf(y).(*types.Var)
			// both variables exist in the reviewed version
			if ok1 && ok2 && vx.Parent() != nil && vy.Parent() != nil && types.TypeString(vx.Type(), nil) == types.TypeString(vy.Type(), nil) {
				return "variable " + y.Name + " became " + x.Name
			}
		}
	case *ast.BinaryExpr:
		yb, ok := y.(*ast.BinaryExpr)
		if ok && sameAST(x.X, yb.X) && sameAST(x.Y, yb.Y) && x.Op != yb.Op {
			if !closeOps(x.Op, yb.Op) {
				return fmt.Sprintf("operator %s became %s", yb.Op, x.Op)
			}
			return ""
		}
		if (x.Op == token.ADD || x.Op == token.SUB) && isConstExpr(x.Y, in) && sameAST(x.X, y) {
			return "constant term added"
		}
		if sameAST(unparen(x.X), y) && arithmetic(x.Op) && !neutralOperand(x.Op, x.Y, in) {
			return "operation " + x.Op.String() + " added"
		}
	case *ast.UnaryExpr:
		if x.Op == token.NOT && sameAST(unparen(x.X), y) {
			return "condition negated"
		}
	case *ast.SelectorExpr:
		if y, ok := y.(*ast.SelectorExpr); ok && sameAST(x.X, y.X) && x.Sel.Name != y.Sel.Name {
			return "." + y.Sel.Name + " became ." + x.Sel.Name
		}
	case *ast.CallExpr:
		if w := calleeEdit(x, y, in, ir); w != "" {
			return w
		}
		if len(x.Args) == 1 && sameAST(unparen(x.Args[0]), y) {
			if tv := in.Types[x.Fun]; tv.IsType() && narrows(in.TypeOf(x.Args[0]), tv.Type) {
				return "value cut to " + tv.Type.String()
			}
		}
		if len(x.Args) == 1 && in.Types[x.Fun].IsType() {
			// the conversion may itself be wrapped in the reviewed one
			if c, ok := y.(*ast.CallExpr); ok && len(c.Args) == 1 && sameAST(c.Fun, x.Fun) {
				return exprEdit(x.Args[0], c.Args[0], in, ir)
			}
		}
		if y, ok := y.(*ast.CallExpr); ok && sameAST(x.Fun, y.Fun) && len(x.Args) == len(y.Args) {
			var d []int
			for i := range x.Args {
				if !sameAST(x.Args[i], y.Args[i]) {
					d = append(d, i)
				}
			}
			if len(d) == 2 && sameAST(x.Args[d[0]], y.Args[d[1]]) && sameAST(x.Args[d[1]], y.Args[d[0]]) && !symmetric(x, in) {
				return "arguments exchanged"
			}
		}
	}
	if y, ok := y.(*ast.BinaryExpr); ok && (y.Op == token.ADD || y.Op == token.SUB) && isConstExpr(y.Y, ir) && sameAST(y.X, x) {
		return "constant term removed"
	}
	if y, ok := y.(*ast.BinaryExpr); ok && sameAST(unparen(y.X), x) && arithmetic(y.Op) && !neutralOperand(y.Op, y.Y, ir) {
		return "operation " + y.Op.String() + " removed"
	}
	if w := partOnly(x, y, in, ir); w != "" {
		return w
	}
	if y, ok := y.(*ast.UnaryExpr); ok && y.Op == token.NOT && sameAST(unparen(y.X), x) {
		return "condition negated"
	}
	return ""
}

func isConstExpr(e ast.Expr, info *types.Info) bool { return info.Types[e].Value != nil }

// symmetric calls may exchange their arguments.
func symmetric(c *ast.CallExpr, info *types.Info) bool {
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		switch s.Sel.Name {
		case "Add", "Mul", "And", "Or", "Xor", "Equal", "GCD", "Max", "Min", "EqualFold", "MergeUnique", "Concat", "Dot":
			return true
		}
		return false
	}
	return true
}

// closeOps may mean the same for the values that occur.
func closeOps(a, b token.Token) bool {
	pair := func(x, y token.Token) bool { return a == x && b == y || a == y && b == x }
	return pair(token.LSS, token.NEQ) || pair(token.GTR, token.NEQ) || pair(token.LEQ, token.EQL) || pair(token.GEQ, token.EQL)
}

// usesNew reports whether the node mentions something the reviewed version
// does not have.
func (p *program) usesNew(n ast.Node, info *types.Info) bool {
	found := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.Ident:
			switch o := info.Uses[m].(type) {
			case *types.Func:
				if o.Pkg() != nil && isMod(o.Pkg().Path()) {
					if f := p.n.prog.FuncValue(o); f != nil && p.r.fns[fname(f)] == nil {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

// unchangedSince recognises a guard that skips what follows when a quantity is
// still what it was when it was recorded earlier in the same block: nothing
// may be left to do then.
func unchangedSince(e edit) bool {
	s, ok := e.new.(*ast.IfStmt)
	if !ok {
		return false
	}
	c, ok := unparen(s.Cond).(*ast.BinaryExpr)
	if !ok || c.Op != token.EQL {
		return false
	}
	for _, o := range [][2]ast.Expr{{c.X, c.Y}, {c.Y, c.X}} {
		id, ok := unparen(o[0]).(*ast.Ident)
		if !ok {
			continue
		}
		for i := 0; i < e.idx && i < len(e.list); i++ {
			d, ok := e.list[i].(*ast.AssignStmt)
			if ok && d.Tok == token.DEFINE && len(d.Lhs) == 1 && len(d.Rhs) == 1 && sameAST(unparen(d.Rhs[0]), unparen(o[1])) {
				if v, ok := d.Lhs[0].(*ast.Ident); ok && v.Name == id.Name {
					return true
				}
			}
		}
	}
	return false
}

// tellingStmt describes a statement that has an effect of its own.
func (p *program) tellingStmt(n ast.Node, info *types.Info, how string) string {
	switch s := n.(type) {
	case *ast.ExprStmt:
		c, ok := s.X.(*ast.CallExpr)
		if !ok || isLogging(c, info) {
			return ""
		}
		return "call " + how
	case *ast.IncDecStmt:
		return "assignment " + how
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return ""
		}
		for i, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				return ""
			}
			if len(s.Lhs) == len(s.Rhs) && sameAST(l, s.Rhs[i]) {
				return ""
			}
		}
		return "assignment " + how
	case *ast.SendStmt:
		return "send " + how
	case *ast.BranchStmt:
		return s.Tok.String() + " " + how
	case *ast.IfStmt:
		// a guard: the body ends by leaving
		if s.Init != nil || s.Else != nil || len(s.Body.List) == 0 || len(s.Body.List) > 4 {
			return ""
		}
		switch s.Body.List[len(s.Body.List)-1].(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			return "guard " + how
		}
		if len(s.Body.List) == 1 {
			if t := p.tellingStmt(s.Body.List[0], info, how); t != "" {
				return "conditional " + t
			}
		}
	}
	return ""
}

func isLogging(c *ast.CallExpr, info *types.Info) bool {
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	if t := info.TypeOf(s.X); t != nil && strings.Contains(t.String(), "log.Logger") {
		return true
	}
	switch s.Sel.Name {
	case "Debugf", "Logf", "Log":
		return true
	}
	return false
}

// smallEdits judges a unit by the edits of its syntax tree.
func (p *program) smallEdits(name string) (why, pos string) {
	dn, _, path := p.n.declOf(name)
	dr, _, path2 := p.r.declOf(name)
	if dn == nil || dr == nil || path != path2 {
		return
	}
	es, ok := treeEdits(dn.Body, dr.Body)
	if !ok || len(es) == 0 {
		return
	}
	for _, e := range es {
		if e.perm != nil {
			if w, q := p.exchanged(e.list, e.perm, p.n.infos[path]); w != "" {
				return w, p.n.pos(q)
			}
			return
		}
	}
	if w, q := p.movedPast(es, p.n.infos[path]); w != "" {
		return w, p.n.pos(q)
	}
	// moved statements
	for _, x := range es {
		for _, y := range es {
			if x.isStmt && y.isStmt && !isNilNode(x.new) && isNilNode(x.old) && isNilNode(y.new) && !isNilNode(y.old) {
				return
			}
		}
	}
	in, ir := p.n.infos[path], p.r.infos[path]
	var ws []string
	if w, q := p.loopEdit(es, in, ir); w != "" {
		return w, p.n.pos(q)
	}
	if w, q := firstOnly(es, in, ir); w != "" {
		return w, p.n.pos(q)
	}
	for _, e := range es {
		w := p.telling(e, in, ir)
		if x, ok := e.new.(*ast.Ident); ok {
			if y, ok := e.old.(*ast.Ident); ok && tied(dn, x.Name, y.Name) {
				w = ""
			}
		}
		if w == "" {
			if neutral(e, in, ir, dr) {
				continue
			}
			return "", ""
		}
		ws = append(ws, w)
		if pos == "" {
			q := e.new
			if isNilNode(q) {
				q = dn
			}
			pos = p.n.pos(q.Pos())
		}
	}
	return strings.Join(ws, ", "), pos
}

// otherCallee reports calls of different functions on the same receiver.
func otherCallee(x, y *ast.CallExpr) bool {
	switch f := x.Fun.(type) {
	case *ast.Ident:
		g, ok := y.Fun.(*ast.Ident)
		return ok && f.Name != g.Name
	case *ast.SelectorExpr:
		g, ok := y.Fun.(*ast.SelectorExpr)
		return ok && f.Sel.Name != g.Sel.Name
	}
	return false
}

func arithmetic(op token.Token) bool {
	switch op {
	case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return true
	}
	return false
}

func neutralOperand(op token.Token, y ast.Expr, info *types.Info) bool {
	v := info.Types[y].Value
	if v == nil {
		return false
	}
	s := v.ExactString()
	return s == "0" && op != token.MUL && op != token.AND || s == "1" && (op == token.MUL || op == token.QUO)
}

func calledFunc(e ast.Expr, info *types.Info) *types.Func {
	switch f := unparen(e).(type) {
	case *ast.Ident:
		o, _ := info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		o, _ := info.Uses[f.Sel].(*types.Func)
		return o
	}
	return nil
}

// alike library functions give the same results where they are exchanged.
var alike = [][2]string{
	{"sort.Slice", "sort.SliceStable"},
	{"sort.Sort", "sort.Stable"},
	{"fmt.Errorf", "errors.New"},
	{"fmt.Sprint", "fmt.Sprintf"},
	{"fmt.Fprint", "fmt.Fprintf"},
	{"fmt.Print", "fmt.Printf"},
	{"os.ReadFile", "io/ioutil.ReadFile"},
	{"io.ReadAll", "io/ioutil.ReadAll"},
	{"(*math/big.Int).Text", "(*math/big.Int).String"},
	// the same for bits that are known to be set, or to be clear
	{"(*math/big.Int).Xor", "(*math/big.Int).AndNot"},
	{"(*math/big.Int).Xor", "(*math/big.Int).Sub"},
	{"(*math/big.Int).AndNot", "(*math/big.Int).Sub"},
	{"(*math/big.Int).Or", "(*math/big.Int).Add"},
}

// calleeEdit compares calls with the same arguments of different functions.
func calleeEdit(x *ast.CallExpr, y0 ast.Expr, in, ir *types.Info) string {
	y, ok := y0.(*ast.CallExpr)
	if !ok || len(x.Args) != len(y.Args) {
		return ""
	}
	for i := range x.Args {
		if !sameAST(x.Args[i], y.Args[i]) {
			return ""
		}
	}
	if tx, ty := in.Types[x.Fun], ir.Types[y.Fun]; tx.IsType() && ty.IsType() && len(x.Args) == 1 {
		if narrows(ty.Type, tx.Type) && narrows(in.TypeOf(x.Args[0]), tx.Type) {
			return "value cut to " + tx.Type.String()
		}
		return ""
	}
	fx, fy := calledFunc(x.Fun, in), calledFunc(y.Fun, ir)
	if fx == nil || fy == nil || fx.FullName() == fy.FullName() {
		return ""
	}
	for _, f := range []*types.Func{fx, fy} {
		if f.Pkg() == nil || isMod(f.Pkg().Path()) {
			return ""
		}
	}
	sx, ok1 := unparen(x.Fun).(*ast.SelectorExpr)
	sy, ok2 := unparen(y.Fun).(*ast.SelectorExpr)
	if ok1 && ok2 && fx.Type().(*types.Signature).Recv() != nil && !sameAST(sx.X, sy.X) {
		return ""
	}
	for _, a := range alike {
		if a[0] == fx.FullName() && a[1] == fy.FullName() || a[1] == fx.FullName() && a[0] == fy.FullName() {
			return ""
		}
	}
	return fy.FullName() + " became " + fx.FullName()
}

// partOnly recognises a test of a whole list that became a test of single
// elements of it.
func partOnly(x, y ast.Expr, in, ir *types.Info) string {
	if t := in.TypeOf(x); t == nil || !isBool(t) {
		return ""
	}
	whole, part := listUses(x, in)
	oldWhole, _ := listUses(y, ir)
	for k := range oldWhole {
		if !whole[k] && part[k] {
			return "the test of all of " + k + " became a test of some of its elements"
		}
	}
	return ""
}

// listUses tells how a node uses lists: as a whole, or only elements of them.
func listUses(n ast.Node, info *types.Info) (whole, part map[string]bool) {
	whole, part = map[string]bool{}, map[string]bool{}
	isList := func(e ast.Expr) bool {
		t := info.TypeOf(e)
		if t == nil {
			return false
		}
		_, ok := t.Underlying().(*types.Slice)
		return ok
	}
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch m := m.(type) {
			case *ast.IndexExpr:
				if isList(m.X) {
					if _, loopVar := unparen(m.Index).(*ast.Ident); loopVar {
						whole[exprString(m.X)] = true
					} else {
						part[exprString(m.X)] = true
					}
					walk(m.Index)
					return false
				}
			case *ast.CallExpr:
				if id, ok := m.Fun.(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
					return false
				}
				if isList(m) {
					whole[exprString(m)] = true
					return false
				}
			case *ast.SelectorExpr:
				if isList(m) {
					whole[exprString(m)] = true
					return false
				}
			case *ast.Ident:
				if isList(m) {
					whole[m.Name] = true
				}
			}
			return true
		})
	}
	walk(n)
	return
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

// neutral edits only introduce variables.
func neutral(e edit, in, ir *types.Info, dr *ast.FuncDecl) bool {
	if isNilNode(e.new) {
		return false
	}
	fresh := func(x ast.Expr) bool {
		id, ok := x.(*ast.Ident)
		if !ok {
			return false
		}
		if id.Name == "_" {
			return true
		}
		v, ok := in.ObjectOf(id).(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() {
			return false
		}
		found := false
		ast.Inspect(dr, func(m ast.Node) bool {
			if y, ok := m.(*ast.Ident); ok && y.Name == id.Name {
				found = true
			}
			return !found
		})
		return !found
	}
	if isNilNode(e.old) {
		switch s := e.new.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					l = ix.X
				}
				if !fresh(l) {
					return false
				}
			}
			return true
		case *ast.IncDecStmt:
			return fresh(s.X)
		case *ast.DeclStmt:
			return true
		}
		return false
	}
	// _ replaced by a new variable
	x, ok1 := e.new.(*ast.Ident)
	y, ok2 := e.old.(*ast.Ident)
	return ok1 && ok2 && y.Name == "_" && fresh(x)
}

// firstOnly recognises a loop over a list that became work on one element.
func firstOnly(es []edit, in, ir *types.Info) (string, token.Pos) {
	var del *ast.RangeStmt
	whole, part := map[string]bool{}, map[string]bool{}
	var pos token.Pos
	for _, e := range es {
		switch {
		case !e.isStmt:
			return "", 0
		case isNilNode(e.new):
			r, ok := e.old.(*ast.RangeStmt)
			if !ok || del != nil {
				return "", 0
			}
			del = r
		case isNilNode(e.old):
			if pos == 0 {
				pos = e.new.Pos()
			}
			w, q := listUses(e.new, in)
			for k := range w {
				whole[k] = true
			}
			for k := range q {
				part[k] = true
			}
		default:
			return "", 0
		}
	}
	if del == nil || pos == 0 {
		return "", 0
	}
	k := exprString(del.X)
	if part[k] && !whole[k] {
		return "the loop over " + k + " became work on some of its elements", pos
	}
	return "", 0
}

// loopEdit recognises loops whose body is now run once, conditional statements
// that are now repeated, and statements that became conditional.
func (p *program) loopEdit(es []edit, in, ir *types.Info) (string, token.Pos) {
	var add, del ast.Node
	for _, e := range es {
		if !e.isStmt {
			return "", 0
		}
		switch {
		case isNilNode(e.old) && add == nil:
			add = e.new
		case isNilNode(e.new) && del == nil:
			del = e.old
		case !isNilNode(e.old) && !isNilNode(e.new) && len(es) == 1:
			add, del = e.new, e.old
		default:
			return "", 0
		}
	}
	if add == nil || del == nil {
		return "", 0
	}
	leaves := func(b *ast.BlockStmt) bool {
		if len(b.List) == 0 {
			return true
		}
		switch b.List[len(b.List)-1].(type) {
		case *ast.ReturnStmt, *ast.BranchStmt:
			return true
		}
		return false
	}
	switch x := add.(type) {
	case *ast.IfStmt:
		if y, ok := del.(*ast.ForStmt); ok && x.Else == nil && x.Init == nil && y.Init == nil && y.Post == nil && sameAST(x.Body, y.Body) && !leaves(y.Body) {
			return "loop became a single step", x.Pos()
		}
		if len(x.Body.List) == 1 && x.Else == nil && sameAST(x.Body.List[0], del) && p.tellingStmt(del, ir, "") != "" {
			return "statement became conditional", x.Pos()
		}
	case *ast.ForStmt:
		if y, ok := del.(*ast.IfStmt); ok && y.Else == nil && y.Init == nil && x.Init == nil && x.Post == nil && sameAST(x.Body, y.Body) && !leaves(y.Body) {
			return "single step became a loop", x.Pos()
		}
	}
	if y, ok := del.(*ast.IfStmt); ok && y.Else == nil && len(y.Body.List) == 1 && sameAST(y.Body.List[0], add) && p.tellingStmt(add, in, "") != "" {
		return "statement became unconditional", add.Pos()
	}
	return "", 0
}

// likeTerms is subsetExprs for terms that may be written differently.
func likeTerms(xs, ys []ast.Expr) bool {
	for _, x := range xs {
		ok := false
		for _, y := range ys {
			if sameAST(x, y) || likeTerm(x, y) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func likeTerm(x, y ast.Expr) bool {
	a, ok1 := unparen(x).(*ast.BinaryExpr)
	b, ok2 := unparen(y).(*ast.BinaryExpr)
	if !ok1 || !ok2 {
		return false
	}
	if sameAST(a.X, b.X) && sameAST(a.Y, b.Y) && closeOps(a.Op, b.Op) {
		return true
	}
	return emptyTest(a) != nil && emptyTest(b) != nil && sameAST(emptyTest(a), emptyTest(b)) && (a.Op == token.EQL) == (b.Op == token.EQL)
}

// emptyTest recognises x == nil, len(x) == 0, len(x) > 0 and the like.
func emptyTest(b *ast.BinaryExpr) ast.Expr {
	if id, ok := b.Y.(*ast.Ident); ok && id.Name == "nil" && (b.Op == token.EQL || b.Op == token.NEQ) {
		return b.X
	}
	if l, ok := b.Y.(*ast.BasicLit); ok && l.Value == "0" && (b.Op == token.EQL || b.Op == token.NEQ || b.Op == token.GTR) {
		if c, ok := b.X.(*ast.CallExpr); ok && len(c.Args) == 1 {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
				return c.Args[0]
			}
		}
	}
	return nil
}
