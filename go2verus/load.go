package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Pkg is one type-checked package of the module under verification.
type Pkg struct {
	path  string
	name  string
	files []*ast.File
	info  *types.Info
	tpkg  *types.Package
	errs  []string
}

type FuncInfo struct {
	key  string
	pkg  *Pkg
	decl *ast.FuncDecl
	obj  *types.Func
}

type Module struct {
	root  string
	mod   string
	fset  *token.FileSet
	pkgs  map[string]*Pkg
	order []string
	funcs map[string]*FuncInfo
	byObj map[*types.Func]*FuncInfo
	std   types.Importer
	vars  map[types.Object]ast.Expr // package level variable initialisers
	varPk map[types.Object]*Pkg
	wvars map[types.Object]bool // package level variables assigned somewhere
}

func (m *Module) Import(path string) (*types.Package, error) {
	if path == m.mod || strings.HasPrefix(path, m.mod+"/") {
		p, err := m.load(path)
		if err != nil {
			return nil, err
		}
		return p.tpkg, nil
	}
	return m.std.Import(path)
}

func (m *Module) load(path string) (*Pkg, error) {
	if p, ok := m.pkgs[path]; ok {
		if p == nil {
			return nil, fmt.Errorf("import cycle at %s", path)
		}
		return p, nil
	}
	m.pkgs[path] = nil
	dir := filepath.Join(m.root, strings.TrimPrefix(strings.TrimPrefix(path, m.mod), "/"))
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	p := &Pkg{path: path}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return nil, err
		}
		if hasBuildTag(src) {
			continue
		}
		f, err := parser.ParseFile(m.fset, filepath.Join(dir, n), src, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, f)
		p.name = f.Name.Name
	}
	if len(p.files) == 0 {
		return nil, fmt.Errorf("no go files in %s", dir)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: m, Error: func(err error) { p.errs = append(p.errs, err.Error()) }}
	p.tpkg, _ = conf.Check(path, m.fset, p.files, p.info)
	if len(p.errs) > 0 {
		return nil, fmt.Errorf("type errors in %s: %s", path, strings.Join(p.errs, "; "))
	}
	m.pkgs[path] = p
	m.order = append(m.order, path)
	return p, nil
}

// hasBuildTag reports a build constraint before the package clause: such files
// (hooks) are not part of the default build.
func hasBuildTag(src []byte) bool {
	sc := bufio.NewScanner(bytes.NewReader(src))
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if strings.HasPrefix(l, "//go:build ") {
			return true
		}
		if strings.HasPrefix(l, "package ") {
			return false
		}
	}
	return false
}

func loadModule(root string) (*Module, error) {
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return nil, err
	}
	mod := ""
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			mod = strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	m := &Module{root: root, mod: mod, fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, funcs: map[string]*FuncInfo{}, byObj: map[*types.Func]*FuncInfo{},
		vars: map[types.Object]ast.Expr{}, varPk: map[types.Object]*Pkg{}, wvars: map[types.Object]bool{}}
	m.std = importer.ForCompiler(m.fset, "source", nil)
	var dirs []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != root {
			return filepath.SkipDir
		}
		if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			d := filepath.Dir(p)
			if len(dirs) == 0 || dirs[len(dirs)-1] != d {
				dirs = append(dirs, d)
			}
		}
		return nil
	})
	sort.Strings(dirs)
	for _, d := range dirs {
		rel, _ := filepath.Rel(root, d)
		path := mod
		if rel != "." {
			path = mod + "/" + filepath.ToSlash(rel)
		}
		if strings.HasSuffix(path, "/pkg/tests") {
			continue // test helpers
		}
		if _, err := m.load(path); err != nil {
			return nil, err
		}
	}
	for _, path := range m.order {
		p := m.pkgs[path]
		for _, f := range p.files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Body == nil {
						continue
					}
					obj, _ := p.info.Defs[d.Name].(*types.Func)
					if obj == nil {
						continue
					}
					fi := &FuncInfo{key: funcKey(obj), pkg: p, decl: d, obj: obj}
					m.funcs[fi.key] = fi
					m.byObj[obj] = fi
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							o := p.info.Defs[n]
							if len(vs.Values) == len(vs.Names) {
								m.vars[o] = vs.Values[i]
								m.varPk[o] = p
							}
						}
					}
				}
			}
			ast.Inspect(f, func(n ast.Node) bool {
				mark := func(e ast.Expr) {
					for {
						switch x := e.(type) {
						case *ast.ParenExpr:
							e = x.X
							continue
						case *ast.IndexExpr:
							e = x.X
							continue
						case *ast.SelectorExpr:
							if o := p.info.Uses[x.Sel]; o != nil {
								if v, ok := o.(*types.Var); ok && !v.IsField() {
									m.wvars[o] = true
									return
								}
							}
							e = x.X
							continue
						case *ast.StarExpr:
							e = x.X
							continue
						case *ast.Ident:
							if o := p.info.Uses[x]; o != nil && o.Parent() == p.tpkg.Scope() {
								m.wvars[o] = true
							}
						}
						return
					}
				}
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(s.X)
				}
				return true
			})
		}
	}
	return m, nil
}

func funcKey(o *types.Func) string {
	o = o.Origin()
	sig := o.Type().(*types.Signature)
	pk := "?"
	if o.Pkg() != nil {
		pk = o.Pkg().Name()
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return pk + "." + n.Obj().Name() + "." + o.Name()
		}
		return pk + ".?." + o.Name()
	}
	return pk + "." + o.Name()
}
