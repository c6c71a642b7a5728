package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The script grammar exists twice: acc.peg, which documents it, and
// zparser.go, which is generated from it and runs. Both are read from source
// and compared with each other and with the reviewed grammar, as grammars:
// rules may be renamed, split or joined.

type peg struct {
	kind string // seq choice star plus opt not and lit class any ref label action
	text string // literal, rule, label, canonical class, action body
	ic   bool
	fn   string // action function of zparser.go
	kids []*peg
	pos  string
}

type grammar struct {
	name  string
	start string
	rules map[string]*peg
	order []string
}

const zparserPath = "acc/parse/internal/parser/zparser.go"
const pegPath = "acc/parse/acc.peg"

// ---- zparser.go ----

func readZparser(dir string) (*grammar, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, filepath.Join(dir, zparserPath), nil, 0)
	if err != nil {
		return nil, err
	}
	bodies := map[string]string{}
	var lit *ast.CompositeLit
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv != nil && strings.HasPrefix(d.Name.Name, "on") {
				bodies[d.Name.Name] = nodeText(d.Body)
			}
		case *ast.GenDecl:
			for _, s := range d.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 || vs.Names[0].Name != "g" || len(vs.Values) != 1 {
					continue
				}
				if u, ok := vs.Values[0].(*ast.UnaryExpr); ok {
					lit, _ = u.X.(*ast.CompositeLit)
				}
			}
		}
	}
	if lit == nil {
		return nil, fmt.Errorf("no grammar found in %s", zparserPath)
	}
	g := &grammar{name: zparserPath, rules: map[string]*peg{}}
	var fail error
	pos := func(n ast.Node) string {
		p := fset.Position(n.Pos())
		return zparserPath + ":" + itoa(p.Line)
	}
	var conv func(e ast.Expr) *peg
	list := func(e ast.Expr) []*peg {
		var out []*peg
		if cl, ok := e.(*ast.CompositeLit); ok {
			for _, x := range cl.Elts {
				out = append(out, conv(x))
			}
		} else {
			fail = fmt.Errorf("%s: not a list", pos(e))
		}
		return out
	}
	conv = func(e ast.Expr) *peg {
		if u, ok := e.(*ast.UnaryExpr); ok {
			e = u.X
		}
		cl, ok := e.(*ast.CompositeLit)
		if !ok {
			fail = fmt.Errorf("%s: not a grammar expression", pos(e))
			return &peg{kind: "?"}
		}
		fs := fieldsOf(cl)
		t := ""
		if id, ok := cl.Type.(*ast.Ident); ok {
			t = id.Name
		}
		out := &peg{pos: pos(cl)}
		str := func(n string) string {
			if l, ok := fs[n].(*ast.BasicLit); ok {
				s, err := strconv.Unquote(l.Value)
				if err == nil {
					return s
				}
			}
			fail = fmt.Errorf("%s: field %s is not a literal", pos(cl), n)
			return ""
		}
		truth := func(n string) bool {
			id, ok := fs[n].(*ast.Ident)
			return ok && id.Name == "true"
		}
		one := func(kind string) *peg {
			out.kind = kind
			out.kids = []*peg{conv(fs["expr"])}
			return out
		}
		switch t {
		case "actionExpr":
			one("action")
			if s, ok := fs["run"].(*ast.SelectorExpr); ok {
				out.fn = strings.TrimPrefix(s.Sel.Name, "call")
				out.text = bodies[out.fn]
			}
		case "seqExpr":
			out.kind, out.kids = "seq", list(fs["exprs"])
		case "choiceExpr":
			out.kind, out.kids = "choice", list(fs["alternatives"])
		case "labeledExpr":
			one("label")
			out.text = str("label")
		case "zeroOrMoreExpr":
			one("star")
		case "oneOrMoreExpr":
			one("plus")
		case "zeroOrOneExpr":
			one("opt")
		case "notExpr":
			one("not")
		case "andExpr":
			one("and")
		case "ruleRefExpr":
			out.kind, out.text = "ref", str("name")
		case "litMatcher":
			out.kind, out.text, out.ic = "lit", str("val"), truth("ignoreCase")
		case "anyMatcher":
			out.kind = "any"
		case "charClassMatcher":
			var set []rune
			for _, n := range []string{"chars", "ranges"} {
				cl, ok := fs[n].(*ast.CompositeLit)
				if !ok {
					continue
				}
				var rs []rune
				for _, x := range cl.Elts {
					l, ok := x.(*ast.BasicLit)
					if !ok {
						fail = fmt.Errorf("%s: class element", pos(x))
						continue
					}
					s, err := strconv.Unquote(l.Value)
					if err != nil {
						fail = err
						continue
					}
					r, _ := utf8.DecodeRuneInString(s)
					rs = append(rs, r)
				}
				if n == "chars" {
					for _, r := range rs {
						set = append(set, r, r)
					}
				} else {
					set = append(set, rs...)
				}
			}
			if fs["classes"] != nil {
				fail = fmt.Errorf("%s: unicode classes", pos(cl))
			}
			out.kind, out.text = "class", classText(set, truth("inverted"))
			out.ic = truth("ignoreCase")
		default:
			fail = fmt.Errorf("%s: %s is not understood", pos(cl), t)
		}
		return out
	}
	if rs, ok := fieldsOf(lit)["rules"].(*ast.CompositeLit); ok {
		for _, x := range rs.Elts {
			cl, ok := x.(*ast.CompositeLit)
			if !ok {
				return nil, fmt.Errorf("%s: rule", pos(x))
			}
			fs := fieldsOf(cl)
			l, ok := fs["name"].(*ast.BasicLit)
			if !ok {
				return nil, fmt.Errorf("%s: rule name", pos(x))
			}
			n, _ := strconv.Unquote(l.Value)
			if g.start == "" {
				g.start = n
			}
			g.rules[n] = conv(fs["expr"])
			g.order = append(g.order, n)
		}
	}
	if fail != nil {
		return nil, fail
	}
	if g.start == "" {
		return nil, fmt.Errorf("no rules in %s", zparserPath)
	}
	return g, nil
}

func fieldsOf(cl *ast.CompositeLit) map[string]ast.Expr {
	out := map[string]ast.Expr{}
	for _, e := range cl.Elts {
		if kv, ok := e.(*ast.KeyValueExpr); ok {
			if id, ok := kv.Key.(*ast.Ident); ok {
				out[id.Name] = kv.Value
			}
		}
	}
	return out
}

func classText(rs []rune, inv bool) string {
	type iv struct{ a, b rune }
	var ivs []iv
	for i := 0; i+1 < len(rs); i += 2 {
		ivs = append(ivs, iv{rs[i], rs[i+1]})
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].a < ivs[j].a })
	var m []iv
	for _, v := range ivs {
		if n := len(m); n > 0 && v.a <= m[n-1].b+1 {
			if v.b > m[n-1].b {
				m[n-1].b = v.b
			}
			continue
		}
		m = append(m, v)
	}
	var b strings.Builder
	if inv {
		b.WriteString("^")
	}
	for _, v := range m {
		fmt.Fprintf(&b, "%q-%q ", v.a, v.b)
	}
	return b.String()
}

// nodeText prints code without positions and comments.
func nodeText(n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), n)
	return strings.Join(strings.Fields(b.String()), " ")
}

// ---- acc.peg ----

type pegReader struct {
	s    string
	i    int
	line int
	err  error
}

func readPeg(dir string) (*grammar, error) {
	b, err := os.ReadFile(filepath.Join(dir, pegPath))
	if err != nil {
		return nil, err
	}
	r := &pegReader{s: string(b), line: 1}
	g := &grammar{name: pegPath, rules: map[string]*peg{}}
	r.space(true)
	if r.peek() == '{' {
		r.code()
	}
	for r.err == nil {
		r.space(true)
		if r.i >= len(r.s) {
			break
		}
		n := r.ident()
		if n == "" {
			return nil, fmt.Errorf("%s:%d: rule expected", pegPath, r.line)
		}
		r.space(true)
		if r.peek() == '"' {
			r.str()
			r.space(true)
		}
		if !r.eat("<-") && !r.eat("=") {
			return nil, fmt.Errorf("%s:%d: <- expected", pegPath, r.line)
		}
		g.rules[n] = r.choice()
		g.order = append(g.order, n)
		if g.start == "" {
			g.start = n
		}
	}
	if r.err != nil {
		return nil, r.err
	}
	return g, nil
}

func (r *pegReader) peek() byte {
	if r.i < len(r.s) {
		return r.s[r.i]
	}
	return 0
}

func (r *pegReader) fail(f string, a ...interface{}) {
	if r.err == nil {
		r.err = fmt.Errorf("%s:%d: %s", pegPath, r.line, fmt.Sprintf(f, a...))
	}
	r.i = len(r.s)
}

func (r *pegReader) next() {
	if r.i < len(r.s) {
		if r.s[r.i] == '\n' {
			r.line++
		}
		r.i++
	}
}

func (r *pegReader) space(nl bool) {
	for r.i < len(r.s) {
		switch {
		case strings.IndexByte(" \t\r\n;", r.s[r.i]) >= 0:
			r.next()
		case strings.HasPrefix(r.s[r.i:], "//"):
			for r.i < len(r.s) && r.s[r.i] != '\n' {
				r.next()
			}
		case strings.HasPrefix(r.s[r.i:], "/*"):
			for r.i < len(r.s) && !strings.HasPrefix(r.s[r.i:], "*/") {
				r.next()
			}
			r.next()
			r.next()
		default:
			return
		}
	}
}

func (r *pegReader) eat(t string) bool {
	if strings.HasPrefix(r.s[r.i:], t) {
		for range t {
			r.next()
		}
		return true
	}
	return false
}

func isIdent(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

func (r *pegReader) ident() string {
	j := r.i
	for r.i < len(r.s) && isIdent(r.s[r.i]) {
		r.next()
	}
	return r.s[j:r.i]
}

func (r *pegReader) code() string {
	j := r.i
	depth := 0
	for r.i < len(r.s) {
		switch c := r.s[r.i]; c {
		case '{':
			depth++
		case '}':
			depth--
		case '"', '\'', '`':
			r.next()
			for r.i < len(r.s) && r.s[r.i] != c {
				if r.s[r.i] == '\\' && c != '`' {
					r.next()
				}
				r.next()
			}
		}
		r.next()
		if depth == 0 {
			return r.s[j:r.i]
		}
	}
	r.fail("code block is not closed")
	return ""
}

func (r *pegReader) str() string {
	q := r.peek()
	j := r.i
	r.next()
	for r.i < len(r.s) && r.s[r.i] != q {
		if r.s[r.i] == '\\' && q != '`' {
			r.next()
		}
		r.next()
	}
	r.next()
	t := r.s[j:r.i]
	if q == '\'' {
		t = `"` + strings.ReplaceAll(strings.ReplaceAll(t[1:len(t)-1], `\'`, `'`), `"`, `\"`) + `"`
	}
	s, err := strconv.Unquote(t)
	if err != nil {
		r.fail("literal %s", t)
	}
	return s
}

func (r *pegReader) at() string { return pegPath + ":" + itoa(r.line) }

func (r *pegReader) choice() *peg {
	out := &peg{kind: "choice", pos: r.at()}
	for {
		out.kids = append(out.kids, r.action())
		r.space(true)
		if r.err != nil || !r.eat("/") {
			break
		}
	}
	if len(out.kids) == 1 {
		return out.kids[0]
	}
	return out
}

func (r *pegReader) action() *peg {
	r.space(true)
	at := r.at()
	sq := &peg{kind: "seq", pos: at}
	for {
		r.space(true)
		if r.err != nil || r.i >= len(r.s) || strings.IndexByte("/){", r.peek()) >= 0 {
			break
		}
		// the next rule starts here
		save := *r
		if n := r.ident(); n != "" {
			r.space(true)
			if r.eat("<-") || r.peek() == '=' || r.peek() == '"' && strings.Contains(strings.SplitN(r.s[r.i:], "\n", 2)[0], "<-") {
				*r = save
				break
			}
		}
		*r = save
		sq.kids = append(sq.kids, r.labeled())
	}
	e := sq
	if len(sq.kids) == 1 {
		e = sq.kids[0]
	}
	if r.peek() == '{' {
		code := r.code()
		f, err := parser.ParseFile(token.NewFileSet(), "", "package p\nfunc f() "+code, 0)
		if err != nil {
			r.fail("code block: %v", err)
			return e
		}
		return &peg{kind: "action", text: nodeText(f.Decls[0].(*ast.FuncDecl).Body), kids: []*peg{e}, pos: at}
	}
	return e
}

func (r *pegReader) labeled() *peg {
	save := *r
	at := r.at()
	if n := r.ident(); n != "" {
		r.space(true)
		if r.eat(":") {
			r.space(true)
			return &peg{kind: "label", text: n, kids: []*peg{r.prefixed()}, pos: at}
		}
	}
	*r = save
	return r.prefixed()
}

func (r *pegReader) prefixed() *peg {
	at := r.at()
	for op, k := range map[string]string{"!": "not", "&": "and"} {
		if r.eat(op) {
			r.space(true)
			if r.peek() == '{' {
				r.fail("code predicate")
			}
			return &peg{kind: k, kids: []*peg{r.suffixed()}, pos: at}
		}
	}
	return r.suffixed()
}

func (r *pegReader) suffixed() *peg {
	e := r.primary()
	for {
		switch r.peek() {
		case '*':
			r.next()
			e = &peg{kind: "star", kids: []*peg{e}, pos: e.pos}
		case '+':
			r.next()
			e = &peg{kind: "plus", kids: []*peg{e}, pos: e.pos}
		case '?':
			r.next()
			e = &peg{kind: "opt", kids: []*peg{e}, pos: e.pos}
		default:
			return e
		}
	}
}

func (r *pegReader) primary() *peg {
	at := r.at()
	switch c := r.peek(); {
	case c == '(':
		r.next()
		e := r.choice()
		r.space(true)
		if !r.eat(")") {
			r.fail(") expected")
		}
		return e
	case c == '.':
		r.next()
		return &peg{kind: "any", pos: at}
	case c == '"' || c == '\'' || c == '`':
		s := r.str()
		return &peg{kind: "lit", text: s, ic: r.ignoreCase(), pos: at}
	case c == '[':
		r.next()
		inv := r.eat("^")
		var set []rune
		get := func() rune {
			if r.peek() == '\\' {
				v, _, tail, err := strconv.UnquoteChar(r.s[r.i:], 0)
				if err != nil {
					// \] and \- stand for themselves
					r.next()
					v = rune(r.peek())
					r.next()
					return v
				}
				for n := len(r.s[r.i:]) - len(tail); n > 0; n-- {
					r.next()
				}
				return v
			}
			v, n := utf8.DecodeRuneInString(r.s[r.i:])
			for ; n > 0; n-- {
				r.next()
			}
			return v
		}
		for r.i < len(r.s) && r.peek() != ']' {
			a := get()
			b := a
			if r.peek() == '-' && r.i+1 < len(r.s) && r.s[r.i+1] != ']' {
				r.next()
				b = get()
			}
			set = append(set, a, b)
		}
		r.next()
		return &peg{kind: "class", text: classText(set, inv), ic: r.ignoreCase(), pos: at}
	case isIdent(c):
		return &peg{kind: "ref", text: r.ident(), pos: at}
	}
	r.fail("expression expected at %q", clip(r.s[r.i:], 10))
	return &peg{kind: "?", pos: at}
}

func (r *pegReader) ignoreCase() bool {
	if r.peek() == 'i' && (r.i+1 >= len(r.s) || !isIdent(r.s[r.i+1])) {
		r.next()
		return true
	}
	return false
}

// ---- comparison ----

type pegDiff struct {
	pos, text string
	soft      bool // names or action code only
}

// samePeg compares two grammars from their start rules on.
func samePeg(a, b *grammar) (diffs []pegDiff, compared int) {
	assumed := map[[2]string]bool{}
	var cmp func(x, y *peg)
	get := func(g *grammar, e *peg) *peg {
		for i := 0; i < 50 && e.kind == "ref"; i++ {
			n := g.rules[e.text]
			if n == nil {
				return e
			}
			e = n
		}
		if e.kind == "seq" || e.kind == "choice" {
			if len(e.kids) == 1 {
				return e.kids[0]
			}
		}
		if e.kind == "choice" {
			// nested choices are one choice
			var ks []*peg
			for _, k := range e.kids {
				if k.kind == "choice" {
					ks = append(ks, k.kids...)
				} else {
					ks = append(ks, k)
				}
			}
			c := *e
			c.kids = ks
			return &c
		}
		if e.kind == "class" && !e.ic && !strings.HasPrefix(e.text, "^") {
			// a class of one character is a literal
			if p := strings.Fields(e.text); len(p) == 1 {
				if q := strings.SplitN(p[0], "-", 2); len(q) == 2 && q[0] == q[1] {
					if s, err := strconv.Unquote(strings.ReplaceAll(`"`+strings.Trim(q[0], "'")+`"`, `"""`, `"\""`)); err == nil {
						return &peg{kind: "lit", text: s, pos: e.pos}
					}
				}
			}
		}
		return e
	}
	cmp = func(x, y *peg) {
		if x.kind == "ref" && y.kind == "ref" {
			k := [2]string{x.text, y.text}
			if assumed[k] {
				return
			}
			assumed[k] = true
		}
		px := x.pos
		x, y = get(a, x), get(b, y)
		if x.pos == "" {
			x.pos = px
		}
		compared++
		if x.kind != y.kind || len(x.kids) != len(y.kids) {
			diffs = append(diffs, pegDiff{pos: x.pos, text: fmt.Sprintf("%s, but %s has %s", pegText(x, 0), b.name, pegText(y, 0))})
			return
		}
		switch x.kind {
		case "lit", "class", "ref":
			if x.text != y.text || x.ic != y.ic {
				diffs = append(diffs, pegDiff{pos: x.pos, text: fmt.Sprintf("%s, but %s has %s", pegText(x, 0), b.name, pegText(y, 0))})
			}
		case "label":
			if x.text != y.text {
				diffs = append(diffs, pegDiff{pos: x.pos, text: "label " + x.text + ", but " + b.name + " has " + y.text, soft: true})
			}
		case "action":
			if x.text != y.text && (x.fn == "" || x.fn != y.fn) {
				diffs = append(diffs, pegDiff{pos: x.pos, text: "action code differs from " + b.name, soft: true})
			}
		}
		for i := range x.kids {
			cmp(x.kids[i], y.kids[i])
		}
	}
	cmp(&peg{kind: "ref", text: a.start}, &peg{kind: "ref", text: b.start})
	return diffs, compared
}

func pegText(e *peg, d int) string {
	if d > 4 {
		return "..."
	}
	var ks []string
	for _, k := range e.kids {
		ks = append(ks, pegText(k, d+1))
	}
	switch e.kind {
	case "lit":
		s := strconv.Quote(e.text)
		if e.ic {
			s += "i"
		}
		return s
	case "class":
		return "[" + strings.TrimSpace(e.text) + "]"
	case "any":
		return "."
	case "ref":
		return e.text
	case "label":
		return e.text + ":" + ks[0]
	case "action":
		return ks[0] + " {...}"
	case "star":
		return "(" + ks[0] + ")*"
	case "plus":
		return "(" + ks[0] + ")+"
	case "opt":
		return "(" + ks[0] + ")?"
	case "not":
		return "!" + ks[0]
	case "and":
		return "&" + ks[0]
	case "choice":
		return "(" + strings.Join(ks, " / ") + ")"
	}
	return "(" + strings.Join(ks, " ") + ")"
}

func grammarRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "grammar", What: "the parser's rule table, acc.peg and the reviewed grammar are the same grammar"}
	z, err := readZparser(p.n.dir)
	ref, err2 := readZparser(p.r.dir)
	if err != nil || err2 != nil {
		r.open("parser tables: %v %v", err, err2)
		return r
	}
	diffs, n := samePeg(z, ref)
	for _, d := range diffs {
		if d.soft {
			r.open("%s: %s", d.pos, d.text)
			continue
		}
		r.bad(d.pos, "grammar", "%s", strings.Replace(d.text, "but "+zparserPath, "but the reviewed grammar", 1))
	}
	if len(diffs) == 0 {
		for _, k := range z.order {
			r.ok("rule %s as reviewed", k)
		}
		r.ok("%d grammar expressions equal", n)
	}
	pg, err := readPeg(p.n.dir)
	if err != nil {
		r.open("acc.peg: %v", err)
		return r
	}
	diffs, n = samePeg(z, pg)
	hard := false
	for _, d := range diffs {
		if d.soft {
			r.open("%s: %s", d.pos, d.text)
			continue
		}
		hard = true
		r.bad(d.pos, "grammar", "%s", d.text)
	}
	if !hard {
		r.ok("parser and acc.peg: %d grammar expressions equal", n)
	}
	return r
}
