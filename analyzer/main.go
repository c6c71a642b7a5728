package main

import (
	"fmt"
	"go/token"
	"go/types"
	"log"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	log.SetFlags(0)
	resetTerms()
	watchMemory(5 << 30)
	switch os.Args[1] {
	case "diff":
		n, r := loadBoth(os.Args[2], refDir)
		p := newProgram(n, r)
		p.debug = os.Getenv("VDBG") != ""
		p.allUnits(os.Args[3:])
		if len(os.Args) == 3 {
			for _, ps := range props {
				known := map[string]bool{}
				for _, k := range loadKnown(filepath.Dir(refDir), ps.id) {
					known[k.key] = true
				}
				for _, f := range ps.rules {
					for _, x := range f(p).findings {
						if x.Key != "" && known[x.Key] {
							continue
						}
						fmt.Println("differs", ps.id, x.Rule, x.Pos, x.Func, x.Text)
					}
				}
			}
		}
	case "check":
		dir := os.Getenv("VERIF_DIR")
		if dir == "" {
			dir = "/verif"
		}
		tier := "quick"
		if len(os.Args) > 4 {
			tier = os.Args[4]
		}
		os.Exit(runCheck(dir, os.Args[2], os.Args[3], tier))
	case "self":
		selfCheck(os.Args[2], os.Args[3:])
	}
}

var refDir = "/verif/ref"

func loadBoth(newDir, refDir string) (n, r *side) {
	n, r, err := loadPair(newDir, refDir, nil, nil)
	if err != nil {
		log.Fatal(err)
	}
	return n, r
}

var stdlib = &shared{fset: token.NewFileSet(), pkgs: map[string]*types.Package{}}

// loadPair loads both versions, with additional source files per package.
func loadPair(newDir, refDir string, en, er map[string][]string) (n, r *side, err error) {
	n, err = loadSide("new", newDir, stdlib, en)
	if err != nil {
		return
	}
	r, err = loadSide("ref", refDir, stdlib, er)
	if err != nil {
		return
	}
	alignTypes(n, r)
	n.index()
	r.index()
	n.other, r.other = r, n
	n.computeMods()
	r.computeMods()
	return
}

// evalFn computes the summary term of a function.
func evalFn(s *side, f *ssa.Function, inline func(*ssa.Function) bool, limit int) (t *Term, e *ev, err error) {
	budget = limit
	defer func() {
		budget = 1 << 60
		if x := recover(); x != nil {
			if tc, ok := x.(tooComplex); ok {
				err = fmt.Errorf("%s", tc.why)
				return
			}
			if os.Getenv("VDEBUG") != "" {
				panic(x)
			}
			err = fmt.Errorf("internal: %v", x)
		}
	}()
	e = newEv(s, inline)
	e.marks = strings.HasPrefix(f.Name(), "vzregion")
	st := newState()
	var args []*Term
	for i, p := range f.Params {
		a := named("p"+itoa(i), isUnsigned(p.Type()))
		if boxed(p.Type()) {
			e.rtype[a] = pointee(p.Type())
		}
		args = append(args, typed(a, p.Type()))
	}
	res, out, pan := e.run(f, args, nil, st)
	for i := range res {
		res[i] = dropBot(res[i])
	}
	return e.summary(f, res, out, pan, newState(), tW0), e, nil
}

func selfCheck(dir string, pats []string) {
	t0 := time.Now()
	n, r := loadBoth(dir, "/verif/ref")
	fmt.Println("load", time.Since(t0))
	eq, ne, bad := 0, 0, 0
	for _, name := range n.order {
		if len(pats) > 0 && !strings.Contains(name, pats[0]) {
			continue
		}
		if strings.Contains(name, "parser.(") || strings.Contains(name, "acc/parse/internal/parser") {
			continue
		}
		f, g := n.fns[name], r.fns[name]
		if g == nil {
			fmt.Println("NOREF", name)
			continue
		}
		resetTerms()
		t1 := time.Now()
		inl := func(s *side) func(*ssa.Function) bool {
			return func(f *ssa.Function) bool { return len(pats) > 1 && pats[1] == "inline" && !s.recursive(f) }
		}
		a, _, ea := evalFn(n, f, inl(n), 3000000)
		b, _, eb := evalFn(r, g, inl(r), 3000000)
		a, _, ea = evalFn(n, f, inl(n), 3000000)
		b, _, eb = evalFn(r, g, inl(r), 3000000)
		d := time.Since(t1)
		switch {
		case ea != nil || eb != nil:
			bad++
			fmt.Println("COMPLEX", name, ea, eb, d)
		case a == b:
			eq++
			if d > 300*time.Millisecond {
				fmt.Println("slow", name, d)
			}
			if len(pats) > 0 {
				fmt.Println(name, a)
			}
		default:
			ne++
			fmt.Println("DIFF", name, d)
			for _, p := range newDiffer().diff(a, b) {
				fmt.Println("   ", p)
			}
			if len(pats) > 1 {
				fmt.Println("  new", a)
				fmt.Println("  ref", b)
			}
		}
	}
	fmt.Println(eq, ne, bad)
}
