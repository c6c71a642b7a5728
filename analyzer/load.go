package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mmcloughlin/addchain"

// side is one loaded copy of the module.
type side struct {
	name   string
	dir    string
	fset   *token.FileSet
	pkgs   map[string]*types.Package
	files  map[string][]*ast.File
	infos  map[string]*types.Info
	prog   *ssa.Program
	spkg   map[string]*ssa.Package
	fns    map[string]*ssa.Function // all named functions and methods of the module
	order  []string
	paths  []string // module packages
	mods   map[*ssa.Function]*modset
	gvals  map[string]*Term
	other  *side
	small  map[*ssa.Function]int
	impls  map[string][]*ssa.Function
	gw     map[string]bool
	lossyN map[string]int

	extern map[string]*types.Package // packages outside the module
}

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

// patterns of packages that carry properties.
var patterns = []string{".", "./acc/...", "./alg/...", "./cmd/...", "./internal/...", "./meta/...", "./rand/..."}

func goList(dir string) ([]*listPkg, error) {
	args := append([]string{"list", "-e", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Imports,ImportMap,Standard,DepOnly,Module,Error"}, patterns...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	cmd.Env = append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "PWD="+dir)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list in %s: %v\n%s", dir, err, errb.String())
	}
	var ps []*listPkg
	dec := json.NewDecoder(&out)
	for dec.More() {
		p := new(listPkg)
		if err := dec.Decode(p); err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

// shared holds the type information of packages outside the module.
type shared struct {
	fset *token.FileSet
	pkgs map[string]*types.Package
}

func isMod(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

type mapImporter struct {
	m    map[string]string
	pkgs func(string) *types.Package
}

func (i mapImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if q, ok := i.m[path]; ok {
		path = q
	}
	if p := i.pkgs(path); p != nil {
		return p, nil
	}
	return nil, fmt.Errorf("package %s not loaded", path)
}

func loadSide(name, dir string, sh *shared, extra map[string][]string) (*side, error) {
	ps, err := goList(dir)
	if err != nil {
		return nil, err
	}
	s := &side{name: name, dir: dir, fset: sh.fset, pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{}}
	s.extern = sh.pkgs
	lookup := func(p string) *types.Package {
		if isMod(p) {
			return s.pkgs[p]
		}
		return sh.pkgs[p]
	}
	// parse in parallel
	parsed := make([][]*ast.File, len(ps))
	perr := make([]error, len(ps))
	var wg sync.WaitGroup
	lim := make(chan bool, 8)
	for i, p := range ps {
		if p.ImportPath == "unsafe" || (!isMod(p.ImportPath) && sh.pkgs[p.ImportPath] != nil) {
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			lim <- true
			defer func() { <-lim }()
			for _, f := range p.GoFiles {
				fn := f
				if !filepath.IsAbs(fn) {
					fn = filepath.Join(p.Dir, f)
				}
				mode := parser.SkipObjectResolution
				if isMod(p.ImportPath) {
					mode |= parser.ParseComments
				}
				af, err := parser.ParseFile(sh.fset, fn, nil, mode)
				if err != nil && isMod(p.ImportPath) {
					perr[i] = err
					return
				}
				if af != nil {
					parsed[i] = append(parsed[i], af)
				}
			}
			for k, src := range extra[p.ImportPath] {
				af, err := parser.ParseFile(sh.fset, filepath.Join(p.Dir, fmt.Sprintf("vzregion%d.go", k)), src, parser.SkipObjectResolution)
				if err != nil {
					perr[i] = err
					return
				}
				parsed[i] = append(parsed[i], af)
			}
		}(i, p)
	}
	wg.Wait()
	for i, p := range ps {
		if p.ImportPath == "unsafe" {
			continue
		}
		mod := isMod(p.ImportPath)
		if !mod && sh.pkgs[p.ImportPath] != nil {
			continue
		}
		if perr[i] != nil {
			return nil, perr[i]
		}
		var first error
		conf := &types.Config{
			Importer:         mapImporter{p.ImportMap, lookup},
			IgnoreFuncBodies: !mod,
			FakeImportC:      true,
			Sizes:            types.SizesFor("gc", "amd64"),
			Error: func(err error) {
				if first == nil {
					first = err
				}
			},
		}
		if mod {
			conf.GoVersion = "go1.16"
		}
		info := &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Scopes:       map[ast.Node]*types.Scope{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
		if !mod {
			info = &types.Info{}
		}
		tp, err := conf.Check(p.ImportPath, sh.fset, parsed[i], info)
		if first == nil {
			first = err
		}
		if mod {
			if first != nil {
				return nil, fmt.Errorf("%s: %v", p.ImportPath, first)
			}
			s.pkgs[p.ImportPath] = tp
			s.files[p.ImportPath] = parsed[i]
			s.infos[p.ImportPath] = info
			s.paths = append(s.paths, p.ImportPath)
		} else {
			tp.MarkComplete()
			sh.pkgs[p.ImportPath] = tp
		}
	}
	// SSA
	s.prog = ssa.NewProgram(sh.fset, ssa.BuilderMode(0))
	created := map[string]bool{}
	var create func(tp *types.Package)
	create = func(tp *types.Package) {
		if created[tp.Path()] || tp == types.Unsafe {
			return
		}
		created[tp.Path()] = true
		for _, imp := range tp.Imports() {
			create(imp)
		}
		if isMod(tp.Path()) {
			s.prog.CreatePackage(tp, s.files[tp.Path()], s.infos[tp.Path()], true)
		} else {
			s.prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, p := range s.paths {
		create(s.pkgs[p])
	}
	s.spkg = map[string]*ssa.Package{}
	for _, p := range s.paths {
		sp := s.prog.Package(s.pkgs[p])
		sp.Build()
		s.spkg[p] = sp
	}
	return s, nil
}

// index lists the functions by name.
func (s *side) index() {
	s.fns = map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(s.prog) {
		if f.Pkg == nil || !isMod(f.Pkg.Pkg.Path()) || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		s.fns[fname(f)] = f
	}
	// methods never reached by AllFunctions
	for _, p := range s.paths {
		for _, m := range s.spkg[p].Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Blocks != nil {
					s.fns[fname(m)] = m
				}
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := s.prog.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
						s.fns[fname(f)] = f
					}
				}
			}
		}
	}
	for n, f := range s.fns {
		s.order = append(s.order, n)
		if isCopy(f) {
			copyMu.Lock()
			copies[n] = true
			copyMu.Unlock()
		}
	}
	sort.Strings(s.order)
}

// fname is the side-independent name of a function.
func fname(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, modPath+"/", "")
	n = strings.ReplaceAll(n, modPath, "addchain")
	return renamed(n)
}

func typeName(t types.Type) string {
	return renamed(types.TypeString(t, func(p *types.Package) string {
		q := strings.TrimPrefix(p.Path(), modPath+"/")
		if q == modPath {
			q = "addchain"
		}
		return q
	}))
}

func (s *side) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := s.fset.Position(p)
	r, err := filepath.Rel(s.dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}
