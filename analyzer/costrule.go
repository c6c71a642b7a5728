package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// costRule: the search command reports the cost of what it prints. Messages
// are otherwise not compared, so this one is followed back to what it says:
// the least cost seen, in full precision.
func costRule(p *program) *ruleRun {
	r := &ruleRun{Rule: "reported-cost", What: "the cost line shows, in full precision, the variable that kept the least cost"}
	s := p.n
	sites := 0
	for f := range ssautil.AllFunctions(s.prog) {
		if !inPackages(s, f, []string{"cmd/addchain"}) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().String() != "(*log.Logger).Printf" || len(c.Call.Args) != 3 {
					continue
				}
				k, ok := c.Call.Args[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				format := constant.StringVal(k.Value)
				if !strings.HasPrefix(format, "cost: %") {
					continue
				}
				sites++
				if v := strings.TrimSpace(format[len("cost: "):]); v != "%v" && v != "%g" {
					r.bad(s.pos(c.Pos()), fname(f), "reports the cost with %s, which does not always show it exactly", v)
					continue
				}
				as := storedArgs(c.Call.Args[2])
				if len(as) != 1 {
					r.open("%s: what the cost line shows", fname(f))
					continue
				}
				switch why := leastCost(as[0]); why {
				case "":
					r.ok("%s: cost line at %s", fname(f), s.pos(c.Pos()))
				case "?":
					r.open("%s: what the cost line shows", fname(f))
				default:
					r.bad(s.pos(c.Pos()), fname(f), "%s", why)
				}
			}
		}
	}
	if sites == 0 {
		r.open("no cost line")
	}
	return r
}

// storedArgs lists the values put in the slice of a variadic call.
func storedArgs(v ssa.Value) (vs []ssa.Value) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok || ia.Referrers() == nil {
			continue
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				x := st.Val
				if mi, ok := x.(*ssa.MakeInterface); ok {
					x = mi.X
				}
				vs = append(vs, x)
			}
		}
	}
	return
}

// leastCost says what is wrong with reporting v, "?" if that is not known.
func leastCost(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Convert:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat == 0 {
			return "reports the cost as " + bt.String()
		}
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			return "reports the cost as " + bt.String()
		}
		return "?"
	case *ssa.BinOp:
		fs := map[string]bool{}
		whole := true
		var rec func(v ssa.Value, d int)
		rec = func(v ssa.Value, d int) {
			switch v := v.(type) {
			case *ssa.BinOp:
				rec(v.X, d+1)
				rec(v.Y, d+1)
			case *ssa.UnOp:
				if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
					fs[fieldName(fa)] = true
					return
				}
				whole = false
			case *ssa.Convert, *ssa.Const:
			default:
				whole = false
			}
		}
		rec(x, 0)
		if whole && !(fs["add"] && fs["double"]) {
			return "reports a cost that does not count both additions and doublings"
		}
		return "?"
	case *ssa.Phi:
		web := map[ssa.Value]bool{}
		var rest []ssa.Value
		var rec func(p *ssa.Phi)
		rec = func(p *ssa.Phi) {
			if web[p] {
				return
			}
			web[p] = true
			for _, e := range p.Edges {
				if q, ok := e.(*ssa.Phi); ok {
					rec(q)
				} else {
					rest = append(rest, e)
				}
			}
		}
		rec(x)
		for _, e := range rest {
			if _, ok := e.(*ssa.BinOp); !ok || e.Referrers() == nil {
				continue
			}
			compared := false
			for _, u := range *e.Referrers() {
				if c, ok := u.(*ssa.BinOp); ok && (c.Op == token.LSS || c.Op == token.GTR || c.Op == token.LEQ || c.Op == token.GEQ) && (web[c.X] || web[c.Y]) {
					compared = true
				}
			}
			if !compared {
				return "reports a cost that was not compared with the least one so far"
			}
		}
		return ""
	}
	return "?"
}

func fieldName(fa *ssa.FieldAddr) string {
	if st, ok := pointee(fa.X.Type()).Underlying().(*types.Struct); ok && fa.Field < st.NumFields() {
		return st.Field(fa.Field).Name()
	}
	return ""
}
