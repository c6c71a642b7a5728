package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template/parse"
)

// The listing templates are embedded in the program; they are compared with
// the reviewed ones as programs of the template language: variable names,
// trimming and printf formats are resolved.

const templateDir = "internal/gen/templates"

type tmplCanon struct {
	out  []string
	text strings.Builder
	vars []map[string]string
	n    int
}

func (c *tmplCanon) flush() {
	if c.text.Len() > 0 {
		c.out = append(c.out, "text "+strconv.Quote(c.text.String()))
		c.text.Reset()
	}
}

func (c *tmplCanon) emit(s string) {
	c.flush()
	c.out = append(c.out, s)
}

func (c *tmplCanon) lookup(n string) string {
	for i := len(c.vars) - 1; i >= 0; i-- {
		if v, ok := c.vars[i][n]; ok {
			return v
		}
	}
	return n
}

func (c *tmplCanon) declare(n string) string {
	c.n++
	v := "$" + itoa(c.n)
	c.vars[len(c.vars)-1][n] = v
	return v
}

func (c *tmplCanon) arg(n parse.Node) string {
	switch n := n.(type) {
	case *parse.FieldNode:
		return "." + strings.Join(n.Ident, ".")
	case *parse.VariableNode:
		return strings.Join(append([]string{c.lookup(n.Ident[0])}, n.Ident[1:]...), ".")
	case *parse.DotNode:
		return "."
	case *parse.StringNode:
		return strconv.Quote(n.Text)
	case *parse.NumberNode:
		return n.Text
	case *parse.PipeNode:
		return "(" + c.pipe(n) + ")"
	case *parse.IdentifierNode:
		return n.Ident
	case *parse.ChainNode:
		return c.arg(n.Node) + "." + strings.Join(n.Field, ".")
	}
	return n.String()
}

func (c *tmplCanon) cmd(n *parse.CommandNode, prev string) string {
	var as []string
	for _, a := range n.Args {
		as = append(as, c.arg(a))
	}
	if prev != "" {
		as = append(as, "("+prev+")")
	}
	s := strings.Join(as, " ")
	for strings.HasPrefix(s, "((") && strings.HasSuffix(s, "))") && len(as) == 1 {
		s = s[1 : len(s)-1]
	}
	return s
}

func (c *tmplCanon) pipe(n *parse.PipeNode) string {
	prev := ""
	for i, cm := range n.Cmds {
		_ = i
		prev = c.cmd(cm, prev)
	}
	return prev
}

// action emits what an action prints.
func (c *tmplCanon) action(n *parse.PipeNode) {
	if len(n.Decl) > 0 {
		v := c.pipe(n)
		for _, d := range n.Decl {
			c.emit("set " + c.declare(d.Ident[0]) + " = " + v)
		}
		return
	}
	// printf with a constant format is text and values
	if len(n.Cmds) == 1 && len(n.Cmds[0].Args) > 1 {
		as := n.Cmds[0].Args
		if id, ok := as[0].(*parse.IdentifierNode); ok && id.Ident == "printf" {
			if f, ok := as[1].(*parse.StringNode); ok {
				if c.printf(f.Text, as[2:]) {
					return
				}
			}
		}
	}
	c.emit("print %s " + c.pipe(n))
}

func (c *tmplCanon) printf(f string, as []parse.Node) bool {
	type piece struct{ text, verb string }
	var ps []piece
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			ps = append(ps, piece{text: f[i:]})
			break
		}
		if j > 0 {
			ps = append(ps, piece{text: f[i : i+j]})
		}
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) || f[k] == '[' || f[k] == '*' {
			return false
		}
		if f[k] == '%' {
			ps = append(ps, piece{text: "%"})
		} else {
			ps = append(ps, piece{verb: f[i : k+1]})
		}
		i = k + 1
	}
	nv := 0
	for _, p := range ps {
		if p.verb != "" {
			nv++
		}
	}
	if nv != len(as) {
		return false
	}
	nv = 0
	for _, p := range ps {
		if p.verb == "" {
			c.text.WriteString(p.text)
			continue
		}
		v := p.verb
		if v == "%v" || v == "%d" {
			v = "%s" // what print does
		}
		a := c.arg(as[nv])
		if strings.HasPrefix(a, "(") && strings.HasSuffix(a, ")") {
			a = a[1 : len(a)-1]
		}
		c.emit("print " + v + " " + a)
		nv++
	}
	return true
}

func (c *tmplCanon) list(l *parse.ListNode) {
	if l == nil {
		return
	}
	c.vars = append(c.vars, map[string]string{})
	for _, n := range l.Nodes {
		c.node(n)
	}
	c.vars = c.vars[:len(c.vars)-1]
}

func (c *tmplCanon) branch(kind string, n *parse.BranchNode) {
	c.vars = append(c.vars, map[string]string{})
	v := c.pipe(n.Pipe)
	var ds []string
	for _, d := range n.Pipe.Decl {
		ds = append(ds, c.declare(d.Ident[0]))
	}
	if kind == "range" && len(ds) == 2 {
		c.emit("range " + ds[0] + "," + ds[1] + " := " + v)
	} else {
		c.emit(kind + " " + strings.Join(ds, ",") + " := " + v)
	}
	c.list(n.List)
	if n.ElseList != nil {
		c.emit("else")
		c.list(n.ElseList)
	}
	c.emit("end")
	c.vars = c.vars[:len(c.vars)-1]
}

func (c *tmplCanon) node(n parse.Node) {
	switch n := n.(type) {
	case *parse.TextNode:
		c.text.Write(n.Text)
	case *parse.ActionNode:
		c.action(n.Pipe)
	case *parse.ListNode:
		c.list(n)
	case *parse.IfNode:
		c.branch("if", &n.BranchNode)
	case *parse.RangeNode:
		c.branch("range", &n.BranchNode)
	case *parse.WithNode:
		c.branch("with", &n.BranchNode)
	case *parse.CommentNode:
	case *parse.TemplateNode:
		s := "template " + strconv.Quote(n.Name)
		if n.Pipe != nil {
			s += " " + c.pipe(n.Pipe)
		}
		c.emit(s)
	default:
		c.emit(n.String())
	}
}

// readTemplates canonicalises the templates of a tree.
func readTemplates(dir string, used bool) (map[string][]string, error) {
	ents, err := os.ReadDir(filepath.Join(dir, templateDir))
	if err != nil {
		return nil, err
	}
	out := map[string][]string{}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".tmpl") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, templateDir, e.Name()))
		if err != nil {
			return nil, err
		}
		tr := parse.New(e.Name())
		tr.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		if _, err := tr.Parse(string(b), "{{", "}}", set); err != nil {
			return nil, fmt.Errorf("%s: %v", e.Name(), err)
		}
		c := &tmplCanon{}
		if tr.Root != nil {
			c.list(tr.Root)
		}
		c.flush()
		var names []string
		for n := range set {
			if n != e.Name() {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			c.emit("define " + n)
			c.list(set[n].Root)
			c.flush()
		}
		out[e.Name()] = c.out
	}
	return out, nil
}

func templateRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "templates", What: "each embedded template prints what the reviewed template prints"}
	a, err := readTemplates(p.n.dir, true)
	b, err2 := readTemplates(p.r.dir, true)
	if err != nil || err2 != nil {
		if err2 == nil {
			r.bad(templateDir, "template", "%v", err)
		} else {
			r.open("%v %v", err, err2)
		}
		return r
	}
	var names []string
	for n := range b {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		x, ok := a[n]
		if !ok {
			r.bad(templateDir+"/"+n, "template", "the template is gone")
			continue
		}
		y := b[n]
		diff := ""
		for i := 0; i < len(x) || i < len(y); i++ {
			g, w := "(end)", "(end)"
			if i < len(x) {
				g = x[i]
			}
			if i < len(y) {
				w = y[i]
			}
			if g != w {
				diff = fmt.Sprintf("%s where the reviewed template has %s", clip(g, 120), clip(w, 120))
				break
			}
		}
		if diff != "" {
			r.bad(templateDir+"/"+n, "template", "%s", diff)
		} else {
			r.ok("%s: %d steps equal", n, len(y))
		}
	}
	return r
}
