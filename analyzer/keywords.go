package main

import (
	"strconv"
	"strings"
)

// keywordRule: words of the script language may not swallow the beginning of
// a name. Where an alternative that starts with a word competes with one that
// starts with a name, the word has to be separated from what follows it, or
// names that begin with the word are not read back as they were printed.
func keywordRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "keywords", What: "a word at which an alternative starts does not take the beginning of a name"}
	g, err := readZparser(p.n.dir)
	if err != nil {
		r.open("parser tables: %v", err)
		return r
	}
	for _, name := range g.order {
		g.choices(g.rules[name], func(c *peg) {
			for i, a := range c.kids {
				for _, w := range g.starts(a, true, 0) {
					if w.kind != "lit" || !isWord(w.text) {
						continue
					}
					clash := false
					for j, b := range c.kids {
						if j == i {
							continue
						}
						for _, s := range g.starts(b, false, 0) {
							if s.kind == "class" && classHas(s.text, rune(w.text[0])) {
								clash = true
							}
						}
					}
					if !clash {
						r.ok("%s: %q competes with no name", name, w.text)
						continue
					}
					if !w.glued {
						r.ok("%s: %q is separated from a following name", name, w.text)
						continue
					}
					f := r.bad(w.pos, name, "%q followed by further letters is read as %q applied to the rest of the name: a name that starts with %q is not read back where an expression starts", w.text, w.text, w.text)
					f.Key = w.text
				}
			}
		})
	}
	return r
}

func isWord(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isIdent(s[i]) {
			return false
		}
	}
	return s != "" && !(s[0] >= '0' && s[0] <= '9')
}

// classHas reports whether the character class, in the form of classText,
// has the character.
func classHas(text string, r rune) bool {
	inv := strings.HasPrefix(text, "^")
	for _, f := range strings.Fields(strings.TrimPrefix(text, "^")) {
		q, err := strconv.QuotedPrefix(f)
		if err != nil || len(q)+1 > len(f) {
			continue
		}
		a, _, _, err1 := strconv.UnquoteChar(q[1:len(q)-1], '\'')
		q2 := f[len(q)+1:]
		if err1 != nil || len(q2) < 3 {
			continue
		}
		b, _, _, err2 := strconv.UnquoteChar(q2[1:len(q2)-1], '\'')
		if err2 == nil && a <= r && r <= b {
			return !inv
		}
	}
	return inv
}

// start is a terminal with which an expression can begin; glued tells whether
// a letter can follow the terminal directly.
type start struct {
	kind, text, pos string
	glued           bool
}

func (g *grammar) choices(e *peg, f func(*peg)) {
	if e == nil {
		return
	}
	if e.kind == "choice" {
		f(e)
	}
	for _, k := range e.kids {
		g.choices(k, f)
	}
}

// starts lists the terminals at which e can begin. With follow, it is noted
// whether what comes after the terminal inside e can begin with a letter.
func (g *grammar) starts(e *peg, follow bool, d int) []start {
	if e == nil || d > 40 {
		return nil
	}
	switch e.kind {
	case "lit":
		return []start{{kind: "lit", text: e.text, pos: e.pos}}
	case "class":
		return []start{{kind: "class", text: e.text, pos: e.pos}}
	case "any":
		return []start{{kind: "any", pos: e.pos}}
	case "ref":
		return g.starts(g.rules[e.text], follow, d+1)
	case "not", "and":
		return nil
	case "choice":
		var out []start
		for _, k := range e.kids {
			out = append(out, g.starts(k, follow, d+1)...)
		}
		return out
	case "seq":
		var out []start
		for i, k := range e.kids {
			ss := g.starts(k, follow, d+1)
			if follow {
				for n := range ss {
					ss[n].glued = ss[n].glued || g.letterNext(e.kids[i+1:], d)
				}
			}
			out = append(out, ss...)
			if !g.nullable(k, 0) {
				break
			}
		}
		return out
	}
	if len(e.kids) == 1 {
		return g.starts(e.kids[0], follow, d+1)
	}
	return nil
}

// letterNext reports whether the sequence can begin with a letter.
func (g *grammar) letterNext(ks []*peg, d int) bool {
	for _, k := range ks {
		if k.kind == "not" {
			// a lookahead that excludes letters
			for _, s := range g.starts(k.kids[0], false, d+1) {
				if s.kind == "any" || s.kind == "class" && classHas(s.text, 'a') {
					return false
				}
			}
			continue
		}
		for _, s := range g.starts(k, false, d+1) {
			if s.kind == "class" && classHas(s.text, 'x') {
				return true
			}
		}
		if !g.nullable(k, 0) {
			return false
		}
	}
	return false
}

func (g *grammar) nullable(e *peg, d int) bool {
	if e == nil || d > 40 {
		return false
	}
	switch e.kind {
	case "lit":
		return e.text == ""
	case "class", "any":
		return false
	case "ref":
		return g.nullable(g.rules[e.text], d+1)
	case "star", "opt", "not", "and":
		return true
	case "choice":
		for _, k := range e.kids {
			if g.nullable(k, d+1) {
				return true
			}
		}
		return false
	}
	for _, k := range e.kids {
		if !g.nullable(k, d+1) {
			return false
		}
	}
	return true
}
