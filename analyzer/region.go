package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Regions. When the value graphs of two versions of a function cannot be
// compared as a whole, the part of the syntax tree in which they differ is cut
// out and made a function of its own: its parameters are the variables the
// part reads, its results the variables it assigns that are used later, the
// way control leaves it, and what it returns. If the parts have the same
// meaning then so have the functions.

// ---- comparing syntax ----

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

type astField struct {
	name   string
	node   ast.Node
	list   []ast.Node
	isList bool
	scalar interface{}
}

func isNilNode(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func astFields(n ast.Node) []astField {
	v := reflect.ValueOf(n).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out []astField
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := t.Field(i).Name
		switch x := f.Interface().(type) {
		case token.Pos:
			if name == "Ellipsis" || name == "Assign" {
				out = append(out, astField{name: name, scalar: x.IsValid()})
			}
			continue
		case *ast.CommentGroup, *ast.Object, *ast.Scope:
			continue
		case token.Token, string, bool, ast.ChanDir:
			out = append(out, astField{name: name, scalar: x})
			continue
		}
		if f.Kind() == reflect.Slice && f.Type().Elem().Implements(nodeType) {
			af := astField{name: name, isList: true}
			for j := 0; j < f.Len(); j++ {
				af.list = append(af.list, f.Index(j).Interface().(ast.Node))
			}
			out = append(out, af)
			continue
		}
		if f.Type().Implements(nodeType) {
			af := astField{name: name}
			if !f.IsNil() {
				af.node = f.Interface().(ast.Node)
			}
			out = append(out, af)
		}
	}
	return out
}

func sameAST(a, b ast.Node) bool {
	if isNilNode(a) || isNilNode(b) {
		return isNilNode(a) == isNilNode(b)
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	fa, fb := astFields(a), astFields(b)
	for i := range fa {
		if !sameField(fa[i], fb[i]) {
			return false
		}
	}
	return true
}

func sameField(x, y astField) bool {
	if x.isList {
		if len(x.list) != len(y.list) {
			return false
		}
		for j := range x.list {
			if !sameAST(x.list[j], y.list[j]) {
				return false
			}
		}
		return true
	}
	if x.scalar != nil || y.scalar != nil {
		return x.scalar == y.scalar
	}
	return sameAST(x.node, y.node)
}

// part is a piece of one version: an expression or a run of statements.
type part struct {
	expr  ast.Expr
	stmts []ast.Stmt
	path  []ast.Node // enclosing nodes, outermost first
	at    token.Pos  // position if there are no statements
}

func (p *part) pos() token.Pos {
	if p.expr != nil {
		return p.expr.Pos()
	}
	if len(p.stmts) > 0 {
		return p.stmts[0].Pos()
	}
	return p.at
}

func (p *part) end() token.Pos {
	if p.expr != nil {
		return p.expr.End()
	}
	if len(p.stmts) > 0 {
		return p.stmts[len(p.stmts)-1].End()
	}
	return p.at
}

type partPair struct {
	n, r part
	ctx  bool // with the statements before it that may leave the block
}

// mayLeave reports whether a statement decides if what follows it runs.
func mayLeave(n ast.Node) bool {
	switch n.(type) {
	case *ast.IfStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
	default:
		return false
	}
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			found = true
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
				found = true
			}
		}
		return !found
	})
	return found
}

// parts lists nested parts that contain all the differences, outermost first.
// rest is the innermost pair of nodes that differ.
func parts(n, r *ast.FuncDecl) []partPair {
	var out []partPair
	var rec func(a, b ast.Node, pa, pb []ast.Node, inExpr bool)
	stmtsOf := func(l []ast.Node) []ast.Stmt {
		var o []ast.Stmt
		for _, x := range l {
			o = append(o, x.(ast.Stmt))
		}
		return o
	}
	after := func(l []ast.Node, i int, owner ast.Node) token.Pos {
		if i > 0 {
			return l[i-1].End()
		}
		switch o := owner.(type) {
		case *ast.BlockStmt:
			return o.Lbrace + 1
		case *ast.CaseClause:
			return o.Colon + 1
		case *ast.CommClause:
			return o.Colon + 1
		}
		return owner.Pos()
	}
	rec = func(a, b ast.Node, pa, pb []ast.Node, inExpr bool) {
		if ea, ok := a.(ast.Expr); ok {
			eb, ok := b.(ast.Expr)
			if ok && !inExpr {
				out = append(out, partPair{part{expr: ea, path: pa}, part{expr: eb, path: pb}, false})
			}
			inExpr = true
		} else {
			inExpr = false
		}
		if reflect.TypeOf(a) != reflect.TypeOf(b) {
			return
		}
		qa := append(append([]ast.Node{}, pa...), a)
		qb := append(append([]ast.Node{}, pb...), b)
		fa, fb := astFields(a), astFields(b)
		k := -1
		for i := range fa {
			if !sameField(fa[i], fb[i]) {
				if k >= 0 {
					return
				}
				k = i
			}
		}
		if k < 0 {
			return
		}
		x, y := fa[k], fb[k]
		if x.isList {
			la, lb := x.list, y.list
			i := 0
			for i < len(la) && i < len(lb) && sameAST(la[i], lb[i]) {
				i++
			}
			ja, jb := len(la), len(lb)
			for ja > i && jb > i && sameAST(la[ja-1], lb[jb-1]) {
				ja--
				jb--
			}
			if (len(la) > 0 || len(lb) > 0) && isStmtList(append(append([]ast.Node{}, la...), lb...)) {
				_, isBlock := a.(*ast.BlockStmt)
				_, isCase := a.(*ast.CaseClause)
				_, isComm := a.(*ast.CommClause)
				caseList := false
				for _, s := range la {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						caseList = true
					}
				}
				if (isBlock && !caseList) || isCase || isComm {
					if ja < len(la) {
						out = append(out, partPair{
							part{stmts: stmtsOf(la[i:]), path: qa, at: after(la, i, a)},
							part{stmts: stmtsOf(lb[i:]), path: qb, at: after(lb, i, b)},
							false,
						})
					}
					for g := 0; g < i; g++ {
						if mayLeave(la[g]) {
							out = append(out, partPair{
								part{stmts: stmtsOf(la[g:ja]), path: qa, at: after(la, g, a)},
								part{stmts: stmtsOf(lb[g:jb]), path: qb, at: after(lb, g, b)},
								true,
							})
							break
						}
					}
					out = append(out, partPair{
						part{stmts: stmtsOf(la[i:ja]), path: qa, at: after(la, i, a)},
						part{stmts: stmtsOf(lb[i:jb]), path: qb, at: after(lb, i, b)},
						false,
					})
				}
			}
			if ja-i == 1 && jb-i == 1 {
				rec(la[i], lb[i], qa, qb, inExpr)
			}
			return
		}
		if isNilNode(x.node) || isNilNode(y.node) {
			return
		}
		rec(x.node, y.node, qa, qb, inExpr)
	}
	rec(n.Body, r.Body, []ast.Node{n}, []ast.Node{r}, false)
	return out
}

func isStmtList(l []ast.Node) bool {
	for _, x := range l {
		if _, ok := x.(ast.Stmt); !ok {
			return false
		}
	}
	return true
}

func (s *side) declOf(name string) (*ast.FuncDecl, *ast.File, string) {
	f := s.fns[name]
	if f == nil || f.Pkg == nil {
		return nil, nil, ""
	}
	path := f.Pkg.Pkg.Path()
	for _, file := range s.files[path] {
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Pos() == f.Pos() {
				return fd, file, path
			}
		}
	}
	return nil, nil, ""
}

// ---- cutting a part out ----

type outlineErr string

type outline struct {
	s     *side
	p     *part
	file  *ast.File
	path  string
	info  *types.Info
	fn    ast.Node // innermost enclosing function
	decl  *ast.FuncDecl
	src   []byte
	free  map[string]*types.Var
	mod   map[string]bool
	outs  map[string]types.Type // assigned or declared here and used later
	inner map[string]bool       // outs declared inside the part
	ctls  map[string]bool
	pkgs  map[string]string // alias -> path
	res   []types.Type
}

func bail(why string) { panic(outlineErr(why)) }

func newOutline(s *side, p *part, file *ast.File, path string, src []byte) *outline {
	o := &outline{s: s, p: p, file: file, path: path, info: s.infos[path], src: src,
		free: map[string]*types.Var{}, mod: map[string]bool{}, outs: map[string]types.Type{}, inner: map[string]bool{}, ctls: map[string]bool{}, pkgs: map[string]string{}}
	o.decl = p.path[0].(*ast.FuncDecl)
	for _, a := range p.path {
		switch a.(type) {
		case *ast.FuncDecl, *ast.FuncLit:
			o.fn = a
		}
	}
	o.analyse()
	return o
}

func (o *outline) inside(p token.Pos) bool { return p >= o.p.pos() && p < o.p.end() }

func (o *outline) nodes() []ast.Node {
	if o.p.expr != nil {
		return []ast.Node{o.p.expr}
	}
	var out []ast.Node
	for _, s := range o.p.stmts {
		out = append(out, s)
	}
	return out
}

func (o *outline) rootVar(e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if t := o.info.TypeOf(x.X); t == nil || isPtr(t) {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if t := o.info.TypeOf(x.X); t == nil {
				return nil
			} else if _, ok := t.Underlying().(*types.Array); !ok {
				return nil
			}
			e = x.X
		case *ast.Ident:
			v, _ := o.info.ObjectOf(x).(*types.Var)
			return v
		default:
			return nil
		}
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (o *outline) analyse() {
	info := o.info
	isLocal := func(v *types.Var) bool {
		return !v.IsField() && v.Pkg() != nil && v.Parent() != v.Pkg().Scope()
	}
	assign := func(e ast.Expr) {
		if v := o.rootVar(e); v != nil && isLocal(v) && !o.inside(v.Pos()) {
			o.mod[v.Name()] = true
			o.use(v)
		}
	}
	for _, n := range o.nodes() {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				switch v := info.Uses[n].(type) {
				case *types.Var:
					if isLocal(v) && !o.inside(v.Pos()) {
						o.use(v)
					}
				case *types.PkgName:
					o.pkgs[v.Name()] = v.Imported().Path()
				case *types.Const:
					if v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && !o.inside(v.Pos()) {
						bail("local constant")
					}
				case *types.TypeName:
					if v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && !o.inside(v.Pos()) {
						bail("local type")
					}
				}
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && info.Defs[id] != nil {
						continue
					}
					assign(l)
				}
			case *ast.IncDecStmt:
				assign(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						assign(n.Key)
					}
					if n.Value != nil {
						assign(n.Value)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					assign(n.X)
				}
			case *ast.CallExpr:
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if s := info.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
						if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil && isPtr(sig.Recv().Type()) && !isPtr(s.Recv()) {
							assign(sel.X)
						}
					}
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "recover" {
					bail("recover")
				}
			case *ast.DeferStmt:
				bail("defer")
			case *ast.LabeledStmt:
				bail("label")
			}
			return true
		})
	}
	if o.p.expr != nil {
		if len(o.mod) > 0 {
			bail("assignment in an expression")
		}
		return
	}
	// results of the enclosing function
	var ft *ast.FuncType
	switch f := o.fn.(type) {
	case *ast.FuncDecl:
		ft = f.Type
	case *ast.FuncLit:
		ft = f.Type
	}
	named := map[*types.Var]bool{}
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			t := info.TypeOf(f.Type)
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				o.res = append(o.res, t)
			}
			for _, id := range f.Names {
				if v, ok := info.Defs[id].(*types.Var); ok {
					named[v] = true
				}
			}
		}
	}
	// what is used later
	var loops []ast.Node // bodies of the loops around the part
	for _, a := range o.p.path {
		switch a := a.(type) {
		case *ast.ForStmt:
			loops = append(loops, a.Body)
		case *ast.RangeStmt:
			loops = append(loops, a.Body)
		}
	}
	later := map[string]bool{}
	ast.Inspect(o.decl, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok || o.inside(id.Pos()) {
			return true
		}
		v, _ := info.Uses[id].(*types.Var)
		if v == nil || !isLocal(v) {
			return true
		}
		if o.inside(v.Pos()) {
			if o.outs[v.Name()] != nil && !types.Identical(o.outs[v.Name()], v.Type()) {
				bail("two variables of one name")
			}
			o.outs[v.Name()] = v.Type()
			o.inner[v.Name()] = true
			return true
		}
		if id.Pos() > o.p.pos() {
			later[v.Name()] = true
		}
		return true
	})
	for name := range o.mod {
		v := o.free[name]
		live := later[name] || named[v]
		for _, l := range loops {
			if v.Pos() < l.Pos() {
				live = true
			}
		}
		if v.Pos() < o.fn.Pos() || v.Pos() >= o.fn.End() {
			live = true
		}
		if live {
			o.outs[name] = v.Type()
		}
		// modified variables must not be shared with other functions
		shared := false
		ast.Inspect(o.decl, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				if n == o.fn || o.inside(n.Pos()) {
					return true
				}
				in := false
				for _, a := range o.p.path {
					if a == ast.Node(n) {
						in = true
					}
				}
				if in {
					return true
				}
				ast.Inspect(n.Body, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && info.Uses[id] == types.Object(v) {
						shared = true
					}
					return true
				})
			case *ast.UnaryExpr:
				if n.Op == token.AND && !o.inside(n.Pos()) && o.rootVar(n.X) == v {
					shared = true
				}
			}
			return true
		})
		if shared {
			bail("shared variable " + name)
		}
	}
}

func (o *outline) use(v *types.Var) {
	if v.Name() == "_" {
		return
	}
	if w := o.free[v.Name()]; w != nil && w != v {
		bail("two variables of one name")
	}
	o.free[v.Name()] = v
}

// qualifier for types in the generated signature.
func (o *outline) typeString(t types.Type, pkgs map[string]string) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == o.path {
			return ""
		}
		alias := "vzp_" + strings.Map(func(r rune) rune {
			if r == '/' || r == '.' || r == '-' {
				return '_'
			}
			return r
		}, p.Path())
		pkgs[alias] = p.Path()
		return alias
	})
}

type gen struct {
	imports map[string]string
	code    string
}

// outlinePair generates the two functions.
func outlinePair(n, r *outline, name string) (gn, gr *gen) {
	gn, gr = &gen{imports: map[string]string{}}, &gen{imports: map[string]string{}}
	both := []*outline{n, r}
	gens := []*gen{gn, gr}
	for i, o := range both {
		for a, p := range o.pkgs {
			gens[i].imports[a] = p
		}
	}
	if n.p.expr != nil {
		t, u := n.info.TypeOf(n.p.expr), r.info.TypeOf(r.p.expr)
		if t == nil || u == nil {
			bail("no type")
		}
		for i, o := range both {
			tv := o.info.Types[o.p.expr]
			if !tv.IsValue() {
				bail("not a value")
			}
			ty := types.Default(tv.Type)
			if _, ok := ty.(*types.Tuple); ok || ty == types.Typ[types.UntypedNil] {
				bail("several values")
			}
			ps := paramList(both, nil, o, gens[i])
			gens[i].code = fmt.Sprintf("func %s(%s) %s {\n\treturn %s\n}\n", name, ps, o.typeString(ty, gens[i].imports), o.text(o.p.pos(), o.p.end(), nil))
		}
		return
	}
	outs := map[string]types.Type{}
	outer := map[string]bool{}
	for _, o := range both {
		for k, t := range o.outs {
			outs[k] = t
		}
	}
	for _, o := range both {
		for k := range outs {
			if !o.inner[k] {
				outer[k] = true
			}
		}
	}
	// variables used after the part on this side must exist on this side
	for _, o := range both {
		for k := range outs {
			if o.inner[k] || o.free[k] != nil {
				continue
			}
			// declared before the part, not touched in it
			v := o.lookup(k)
			if v == nil {
				bail("variable " + k + " exists on one side")
			}
			o.use(v)
		}
	}
	var names []string
	for k := range outs {
		names = append(names, k)
	}
	sort.Strings(names)
	for i, o := range both {
		g := gens[i]
		ps := paramList(both, nil, o, g)
		var rs []string
		var zero, full []string
		for j, k := range names {
			z := "vzo" + strconv.Itoa(j)
			t := o.outs[k]
			if t == nil {
				if v := o.free[k]; v != nil {
					t = v.Type()
				} else {
					t = outs[k]
				}
			}
			rs = append(rs, z+" "+o.typeString(t, g.imports))
			zero = append(zero, z)
			full = append(full, k)
		}
		rs = append(rs, "vzctl int")
		var rz []string
		for j, t := range o.res {
			z := "vzr" + strconv.Itoa(j)
			rs = append(rs, z+" "+o.typeString(t, g.imports))
			rz = append(rz, z)
		}
		body := o.text(o.p.pos(), o.p.end(), o.control(names, zero, rz))
		end := append(append(append([]string{}, full...), "0"), rz...)
		g.code = fmt.Sprintf("func %s(%s) (%s) {\n\t{\n%s\n\treturn %s\n\t}\n}\n", name, ps, strings.Join(rs, ", "), body, strings.Join(end, ", "))
	}
	return
}

func (o *outline) lookup(name string) *types.Var {
	sc := o.s.pkgs[o.path].Scope().Innermost(o.p.pos())
	if sc == nil {
		return nil
	}
	_, obj := sc.LookupParent(name, o.p.pos())
	v, _ := obj.(*types.Var)
	if v == nil || v.Parent() == v.Pkg().Scope() {
		return nil
	}
	return v
}

func paramList(both []*outline, skip map[string]bool, o *outline, g *gen) string {
	all := map[string]bool{}
	for _, x := range both {
		for k := range x.free {
			all[k] = true
		}
	}
	var names []string
	for k := range all {
		if !skip[k] {
			names = append(names, k)
		}
	}
	sort.Strings(names)
	var out []string
	for _, k := range names {
		v := o.free[k]
		if v == nil {
			// read on the other side only
			for _, x := range both {
				if w := x.free[k]; w != nil {
					v = w
				}
			}
		}
		out = append(out, k+" "+o.typeString(v.Type(), g.imports))
	}
	return strings.Join(out, ", ")
}

type textEdit struct {
	from, to token.Pos
	text     string
}

// text is the source between two positions with replacements.
func (o *outline) text(from, to token.Pos, eds []textEdit) string {
	off := func(p token.Pos) int { return o.s.fset.Position(p).Offset }
	sort.Slice(eds, func(i, j int) bool { return eds[i].from < eds[j].from })
	var sb strings.Builder
	cur := off(from)
	for _, e := range eds {
		sb.Write(o.src[cur:off(e.from)])
		sb.WriteString(e.text)
		cur = off(e.to)
	}
	sb.Write(o.src[cur:off(to)])
	return sb.String()
}

// tail tells which statement does the same as reaching the end of the part.
func (o *outline) tail() string {
	last := func(l []ast.Stmt, end token.Pos) bool {
		return len(l) == 0 || l[len(l)-1].End() <= end
	}
	end := o.p.end()
	for i := len(o.p.path) - 1; i >= 0; i-- {
		switch n := o.p.path[i].(type) {
		case *ast.BlockStmt:
			if !last(n.List, end) {
				return ""
			}
			end = n.End()
		case *ast.CaseClause:
			if last(n.Body, end) {
				return "break"
			}
			return ""
		case *ast.CommClause:
			if last(n.Body, end) {
				return "break"
			}
			return ""
		case *ast.IfStmt:
			end = n.End()
		case *ast.ForStmt, *ast.RangeStmt:
			return "continue"
		case *ast.FuncDecl, *ast.FuncLit:
			return "return"
		default:
			return ""
		}
	}
	return ""
}

// control replaces the statements that leave the part.
func (o *outline) control(names, zero, rz []string) []textEdit {
	var eds []textEdit
	exit := func(code string, vals, rets []string) string {
		return "return " + strings.Join(append(append(append([]string{}, vals...), code), rets...), ", ")
	}
	live := func(pos token.Pos) []string {
		// break and continue: variables of the surrounding code stay alive
		var out []string
		for i, k := range names {
			if o.inner[k] {
				out = append(out, zero[i])
				continue
			}
			sc := o.s.pkgs[o.path].Scope().Innermost(pos)
			_, obj := sc.LookupParent(k, pos)
			if obj != types.Object(o.free[k]) {
				bail("shadowed variable")
			}
			out = append(out, k)
		}
		return out
	}
	tail := o.tail()
	var walk func(n ast.Node, brk, cont bool)
	walk = func(n ast.Node, brk, cont bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch m := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				walk(m, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(m, true, cont)
				return false
			case *ast.ReturnStmt:
				vals := append([]string{}, zero...)
				for i, k := range names {
					// named results and shared variables outlive the function
					if v := o.free[k]; v != nil && (v.Pos() < o.fn.Pos() || v.Pos() >= o.fn.End()) {
						vals[i] = k
					}
				}
				switch {
				case len(m.Results) == 0 && len(rz) == 0:
					code := "1"
					if tail == "return" {
						code = "0"
					}
					eds = append(eds, textEdit{m.Pos(), m.End(), exit(code, vals, nil)})
				case len(m.Results) == 0:
					bail("bare return")
				case len(m.Results) == len(rz):
					eds = append(eds, textEdit{m.Pos(), m.Results[0].Pos(), "return " + strings.Join(append(append([]string{}, vals...), "1", ""), ", ")})
				default:
					var ts []string
					for i := range rz {
						ts = append(ts, "vzt"+strconv.Itoa(i))
					}
					eds = append(eds, textEdit{m.Pos(), m.Results[0].Pos(), "{ " + strings.Join(ts, ", ") + " := "})
					eds = append(eds, textEdit{m.End(), m.End(), "; " + exit("1", vals, ts) + " }"})
				}
			case *ast.BranchStmt:
				if m.Label != nil {
					bail("label")
				}
				switch m.Tok {
				case token.BREAK:
					if !brk {
						code := "2"
						if tail == "break" {
							code = "0"
						}
						eds = append(eds, textEdit{m.Pos(), m.End(), exit(code, live(m.Pos()), rz)})
					}
				case token.CONTINUE:
					if !cont {
						code := "3"
						if tail == "continue" {
							code = "0"
						}
						eds = append(eds, textEdit{m.Pos(), m.End(), exit(code, live(m.Pos()), rz)})
					}
				case token.GOTO, token.FALLTHROUGH:
					bail("goto")
				}
			}
			return true
		})
	}
	for _, s := range o.p.stmts {
		walk(&ast.BlockStmt{List: []ast.Stmt{s}, Lbrace: s.Pos(), Rbrace: s.End()}, false, false)
	}
	return eds
}

// ---- judging parts ----

type regionJob struct {
	unit string
	name string // function generated for it
	pair partPair
	n, r *gen
	path string
	pos  string
	v    *verdict
	err  string
	tied bool // the parts read different variables, one found by the other
}

// tied reports whether one variable is a list made as long as the other or the
// entry of a table found under the other.
func tied(d *ast.FuncDecl, a, b string) bool {
	found := false
	ast.Inspect(d.Body, func(n ast.Node) bool {
		s, ok := n.(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || len(s.Rhs) != 1 {
			return !found
		}
		l, ok := s.Lhs[0].(*ast.Ident)
		if !ok || l.Name != a && l.Name != b {
			return !found
		}
		o := a
		if l.Name == a {
			o = b
		}
		is := func(e ast.Expr) bool {
			id, ok := unparen(e).(*ast.Ident)
			return ok && id.Name == o
		}
		switch e := unparen(s.Rhs[0]).(type) {
		case *ast.IndexExpr:
			found = found || is(e.Index)
		case *ast.CallExpr:
			if f, ok := e.Fun.(*ast.Ident); ok && f.Name == "make" && len(e.Args) > 1 {
				if c, ok := unparen(e.Args[1]).(*ast.CallExpr); ok && len(c.Args) == 1 {
					if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "len" {
						found = found || is(c.Args[0])
					}
				}
			}
		}
		return !found
	})
	return found
}

// tiedVars lists the variables only one of the parts reads with those they
// are tied to and the other reads.
func tiedVars(d *ast.FuncDecl, x, y *outline) (out [][2]string) {
	for _, o := range [][2]*outline{{x, y}, {y, x}} {
		for a := range o[0].free {
			if o[1].free[a] != nil {
				continue
			}
			for b := range o[1].free {
				if tied(d, a, b) {
					out = append(out, [2]string{a, b})
				}
			}
		}
	}
	return out
}

func (p *program) sourceOf(s *side, file *ast.File) []byte {
	b, err := os.ReadFile(s.fset.Position(file.Pos()).Filename)
	if err != nil {
		return nil
	}
	return b
}

func (p *program) jobs(unit string, seq *int) []*regionJob {
	dn, fn, path := p.n.declOf(unit)
	dr, fr, path2 := p.r.declOf(unit)
	if dn == nil || dr == nil || path != path2 {
		return nil
	}
	sn, sr := p.sourceOf(p.n, fn), p.sourceOf(p.r, fr)
	var out []*regionJob
	ps := parts(dn, dr)
	var ties [][2]string // found in the inner parts
	for i := len(ps) - 1; i >= 0; i-- {
		j := &regionJob{unit: unit, pair: ps[i], path: path, pos: p.n.pos(ps[i].n.pos())}
		*seq++
		j.name = "vzregion" + strconv.Itoa(*seq)
		func() {
			defer func() {
				if x := recover(); x != nil {
					if e, ok := x.(outlineErr); ok {
						j.err = string(e)
						return
					}
					panic(x)
				}
			}()
			on := newOutline(p.n, &ps[i].n, fn, path, sn)
			or := newOutline(p.r, &ps[i].r, fr, path, sr)
			j.n, j.r = outlinePair(on, or, j.name)
			ties = append(ties, tiedVars(dn, on, or)...)
			for _, t := range ties {
				reads := func(v string) bool { return on.free[v] != nil || or.free[v] != nil }
				j.tied = j.tied || reads(t[0]) && reads(t[1])
			}
		}()
		out = append(out, j)
	}
	return out
}

// fileFor assembles the generated functions of one package.
func fileFor(pkgName string, js []*regionJob, pick func(*regionJob) *gen) []string {
	// one file per function, imports may clash
	var out []string
	for _, j := range js {
		g := pick(j)
		var sb strings.Builder
		sb.WriteString("package " + pkgName + "\n\n")
		var al []string
		for a := range g.imports {
			al = append(al, a)
		}
		sort.Strings(al)
		for _, a := range al {
			fmt.Fprintf(&sb, "import %s %q\n", a, g.imports[a])
		}
		sb.WriteString("\n" + g.code)
		out = append(out, sb.String())
	}
	return out
}

// check type-checks a generated function on its own against the package.
func (s *side) tryCompile(path, src string) error {
	f, err := parser.ParseFile(s.fset, "vz.go", src, parser.SkipObjectResolution)
	if err != nil {
		return err
	}
	var first error
	conf := &types.Config{
		Importer: mapImporter{nil, func(q string) *types.Package {
			if isMod(q) {
				return s.pkgs[q]
			}
			return s.extern[q]
		}},
		GoVersion: "go1.16",
		Sizes:     types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if first == nil {
				first = err
			}
		},
	}
	files := append(append([]*ast.File{}, s.files[path]...), f)
	conf.Check(path, s.fset, files, nil)
	return first
}

// refine judges the parts of units that could not be decided as a whole.
func (p *program) refine(names []string) {
	if p.refined == nil {
		p.refined = map[string]bool{}
	}
	var all []*regionJob
	seq := 0
	for _, name := range names {
		if p.refined[name] || !p.comparable(name) || p.unit(name).status != "undecided" {
			continue
		}
		p.refined[name] = true
		all = append(all, p.jobs(name, &seq)...)
	}
	var js []*regionJob
	for _, j := range all {
		if j.err != "" {
			continue
		}
		fn := fileFor(p.n.pkgs[j.path].Name(), []*regionJob{j}, func(j *regionJob) *gen { return j.n })[0]
		fr := fileFor(p.r.pkgs[j.path].Name(), []*regionJob{j}, func(j *regionJob) *gen { return j.r })[0]
		if p.debug {
			fmt.Fprintf(os.Stderr, "--- region %s of %s (%s)\n%s\n%s\n", j.name, j.unit, j.pos, fr, fn)
		}
		if err := p.n.tryCompile(j.path, fn); err != nil {
			j.err = "new: " + err.Error()
			continue
		}
		if err := p.r.tryCompile(j.path, fr); err != nil {
			j.err = "reference: " + err.Error()
			continue
		}
		js = append(js, j)
	}
	if len(js) > 0 {
		en, er := map[string][]string{}, map[string][]string{}
		for _, j := range js {
			en[j.path] = append(en[j.path], fileFor(p.n.pkgs[j.path].Name(), []*regionJob{j}, func(j *regionJob) *gen { return j.n })...)
			er[j.path] = append(er[j.path], fileFor(p.r.pkgs[j.path].Name(), []*regionJob{j}, func(j *regionJob) *gen { return j.r })...)
		}
		n2, r2, err := loadPair(p.n.dir, p.r.dir, en, er)
		if err != nil {
			if p.debug {
				fmt.Fprintln(os.Stderr, "regions:", err)
			}
			js = nil
		}
		p2 := newProgram(n2, r2)
		p2.limit, p2.debug = p.limit, p.debug
		for _, j := range js {
			f := n2.spkg[j.path].Func(j.name)
			if f == nil {
				continue
			}
			j.v = p2.unit(fname(f))
		}
	}
	for _, name := range names {
		v := p.memo[name]
		if v == nil || v.status != "undecided" {
			continue
		}
		differs := ""
		dpos := ""
		last := -1 // parts up to this one are judged in their context
		for i, j := range all {
			if j.unit == name && j.pair.ctx && j.v != nil && j.v.status == "undecided" && len(j.v.pairs) > 0 {
				last = i
			}
		}
		for i, j := range all {
			if j.unit != name {
				continue
			}
			if p.debug {
				fmt.Fprintf(os.Stderr, "region %s of %s at %s: err=%q %+v\n", j.name, j.unit, j.pos, j.err, j.v)
			}
			if j.v == nil {
				continue
			}
			switch {
			case j.v.status == "equal":
				v.status, v.why, v.pairs, v.region = "equal", "", nil, true
			case j.v.status == "differs" && !j.v.hard && differs == "" && i > last && !j.tied:
				differs = j.v.why
				dpos = j.pos
			}
			if v.status == "equal" {
				break
			}
		}
		if v.status == "undecided" && differs != "" {
			v.status, v.why, v.pos, v.region = "differs", differs, dpos, true
		}
		if v.status == "undecided" {
			if w, pos := p.smallEdits(name); w != "" {
				v.status, v.why, v.pos, v.region = "differs", "edit: "+w, pos, true
			}
		}
	}
}
