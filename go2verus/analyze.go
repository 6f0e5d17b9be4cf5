package main

import (
	"go/ast"
	"go/types"
	"sort"
)

// typeKey is pkgname.Type of a named type.
func typeKey(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return ""
}

type ptrKind int

const (
	notPtr ptrKind = iota
	ptrPlain
	ptrNullable
	ptrHeap
)

func (g *Gen) ptrKind(t types.Type) (ptrKind, types.Type) {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return notPtr, nil
	}
	k := typeKey(p.Elem())
	if g.cs.heap[k] {
		return ptrHeap, p.Elem()
	}
	if g.cs.nullable[k] {
		return ptrNullable, p.Elem()
	}
	return ptrPlain, p.Elem()
}

// FnSig is the calling convention of a translated function or interface method.
type FnSig struct {
	params []*types.Var // receiver first
	recv   bool
	res    []*types.Var
	inout  []bool
	clob   []bool
	heapR  map[string]bool
	heapW  map[string]bool
}

func (s *FnSig) heapsR() []string { return sortedKeys(s.heapR) }
func (s *FnSig) heapsW() []string { return sortedKeys(s.heapW) }

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k, v := range m {
		if v {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func mkSig(o *types.Func) *FnSig {
	sg := o.Type().(*types.Signature)
	s := &FnSig{heapR: map[string]bool{}, heapW: map[string]bool{}}
	if r := sg.Recv(); r != nil {
		s.params = append(s.params, r)
		s.recv = true
	}
	for i := 0; i < sg.Params().Len(); i++ {
		s.params = append(s.params, sg.Params().At(i))
	}
	for i := 0; i < sg.Results().Len(); i++ {
		s.res = append(s.res, sg.Results().At(i))
	}
	s.inout = make([]bool, len(s.params))
	s.clob = make([]bool, len(s.params))
	return s
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

func isNamedIn(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func isBuilder(t types.Type) bool {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	return isNamedIn(t, "strings", "Builder") || isNamedIn(t, "bytes", "Buffer")
}

func isSink(t types.Type) bool {
	return typeKey(t) == "items.Store"
}

// callee resolves a call to (function object, receiver expression, interface method?).
func (g *Gen) callee(p *Pkg, c *ast.CallExpr) (*types.Func, *ast.SelectorExpr) {
	fun := ast.Unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	switch f := fun.(type) {
	case *ast.Ident:
		o, _ := p.info.Uses[f].(*types.Func)
		return o, nil
	case *ast.SelectorExpr:
		if s := p.info.Selections[f]; s != nil {
			if s.Kind() == types.MethodVal {
				return s.Obj().(*types.Func), f
			}
			return nil, nil
		}
		o, _ := p.info.Uses[f.Sel].(*types.Func)
		return o, nil
	}
	return nil, nil
}

func isIfaceMethod(o *types.Func) bool {
	r := o.Type().(*types.Signature).Recv()
	return r != nil && isIface(r.Type())
}

// rootObj is the variable at the root of an addressable expression.
func rootObj(p *Pkg, e ast.Expr) types.Object {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if p.info.Selections[x] == nil {
				return p.info.Uses[x.Sel]
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		case *ast.Ident:
			if o := p.info.Uses[x]; o != nil {
				return o
			}
			return p.info.Defs[x]
		default:
			return nil
		}
	}
}

// heapRoot reports the heap type dereferenced last on the path of an
// addressable expression (the object a store would go to), if any.
func (g *Gen) heapOnPath(p *Pkg, e ast.Expr) string {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if p.info.Selections[x] == nil {
				return ""
			}
			if k, el := g.ptrKind(p.info.TypeOf(x.X)); k == ptrHeap {
				return typeKey(el)
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			if k, el := g.ptrKind(p.info.TypeOf(x.X)); k == ptrHeap {
				return typeKey(el)
			}
			e = x.X
		case *ast.UnaryExpr:
			e = x.X
		default:
			return ""
		}
	}
}

func (g *Gen) sigOf(o *types.Func) *FnSig {
	o = o.Origin()
	if s, ok := g.sigs[o]; ok {
		return s
	}
	s := mkSig(o)
	g.sigs[o] = s
	return s
}

// ifaceImpls lists concrete types implementing an interface method's interface.
func (g *Gen) methodImpl(t types.Type, name string) *types.Func {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ms.At(i).Obj().(*types.Func)
		}
	}
	return nil
}

// analyze computes, to a fixpoint, which parameters each function writes
// through (they become results of the translated function) and which heaps it uses.
func (g *Gen) analyze() {
	for _, fi := range g.m.funcs {
		g.sigOf(fi.obj)
	}
	for changed := true; changed; {
		changed = false
		set := func(b *bool) {
			if !*b {
				*b = true
				changed = true
			}
		}
		hset := func(m map[string]bool, k string) {
			if k != "" && !m[k] {
				m[k] = true
				changed = true
			}
		}
		for _, key := range sortedFuncs(g.m.funcs) {
			fi := g.m.funcs[key]
			p := fi.pkg
			sig := g.sigOf(fi.obj)
			c := g.cs.fns[key]
			idx := map[types.Object]int{}
			for i, v := range sig.params {
				idx[v] = i
			}
			// aliases made by type switches and assertions: v -> root of the subject
			alias := map[types.Object]ast.Expr{}
			ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.TypeSwitchStmt:
					as, ok := s.Assign.(*ast.AssignStmt)
					if !ok {
						return true
					}
					subj := as.Rhs[0].(*ast.TypeAssertExpr).X
					for _, cc := range s.Body.List {
						if o := p.info.Implicits[cc]; o != nil {
							alias[o] = subj
						}
					}
				case *ast.AssignStmt:
					if len(s.Rhs) == 1 {
						if ta, ok := s.Rhs[0].(*ast.TypeAssertExpr); ok && ta.Type != nil {
							if id, ok := s.Lhs[0].(*ast.Ident); ok {
								if o := p.info.Defs[id]; o != nil {
									alias[o] = ta.X
								}
							}
						}
					}
				}
				return true
			})
			whole := map[types.Object]bool{}
			ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
				if as, ok := n.(*ast.AssignStmt); ok {
					for _, l := range as.Lhs {
						if id, ok := l.(*ast.Ident); ok {
							if o := p.info.Uses[id]; o != nil {
								whole[o] = true
							}
						}
					}
				}
				return true
			})
			var write func(e ast.Expr, deep bool)
			write = func(e ast.Expr, deep bool) {
				if h := g.heapOnPath(p, e); h != "" {
					hset(sig.heapR, h)
					hset(sig.heapW, h)
					return
				}
				o := rootObj(p, e)
				if o == nil {
					return
				}
				if _, ok := ast.Unparen(e).(*ast.Ident); ok && !deep {
					return // rebinding the variable itself
				}
				if a, ok := alias[o]; ok {
					if kp, _ := g.ptrKind(o.Type()); kp != notPtr {
						write(a, true)
					}
				}
				i, ok := idx[o]
				if !ok {
					return
				}
				switch o.Type().Underlying().(type) {
				case *types.Pointer, *types.Map, *types.Interface:
					set(&sig.inout[i])
				case *types.Slice:
					if (c != nil && c.opts["noinout"]) || whole[o] {
						sig.clob[i] = true
					} else {
						set(&sig.inout[i])
					}
				}
			}
			ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
				switch s := n.(type) {
				case *ast.AssignStmt:
					for _, l := range s.Lhs {
						write(l, false)
					}
				case *ast.IncDecStmt:
					write(s.X, false)
				case *ast.SelectorExpr:
					if k, el := g.ptrKind(p.info.TypeOf(s.X)); k == ptrHeap && p.info.Selections[s] != nil {
						if p.info.Selections[s].Kind() == types.FieldVal || len(p.info.Selections[s].Index()) > 1 {
							hset(sig.heapR, typeKey(el))
						}
					}
				case *ast.StarExpr:
					if tv, ok := p.info.Types[s]; ok && !tv.IsType() {
						if k, el := g.ptrKind(p.info.TypeOf(s.X)); k == ptrHeap {
							hset(sig.heapR, typeKey(el))
						}
					}
				case *ast.UnaryExpr:
					if k, el := g.ptrKind(p.info.TypeOf(s)); k == ptrHeap {
						hset(sig.heapR, typeKey(el))
						hset(sig.heapW, typeKey(el))
					}
				case *ast.CallExpr:
					if id, ok := s.Fun.(*ast.Ident); ok {
						if b, ok := p.info.Uses[id].(*types.Builtin); ok {
							switch b.Name() {
							case "delete", "copy":
								write(s.Args[0], true)
							case "new":
								if k, el := g.ptrKind(p.info.TypeOf(s)); k == ptrHeap {
									hset(sig.heapR, typeKey(el))
									hset(sig.heapW, typeKey(el))
								}
							}
							return true
						}
					}
					o, sel := g.callee(p, s)
					if o == nil {
						return true
					}
					if sel != nil && isBuilder(p.info.TypeOf(sel.X)) {
						switch o.Name() {
						case "String", "Len", "Cap", "Bytes":
						default:
							write(sel.X, true)
						}
						return true
					}
					if sel != nil && isSink(p.info.TypeOf(sel.X)) {
						write(sel.X, true)
						return true
					}
					cs := g.sigs[o.Origin()]
					if cs == nil {
						if isIfaceMethod(o) && o.Pkg() != nil && g.m.pkgs[o.Pkg().Path()] != nil {
							cs = g.sigOf(o)
						} else {
							return true
						}
					}
					for _, h := range cs.heapsR() {
						hset(sig.heapR, h)
					}
					for _, h := range cs.heapsW() {
						hset(sig.heapW, h)
					}
					off := 0
					if cs.recv {
						off = 1
						if cs.inout[0] && sel != nil {
							write(sel.X, true)
						}
					}
					for i, a := range s.Args {
						k := i + off
						if k >= len(cs.params) {
							k = len(cs.params) - 1
						}
						if cs.inout[k] {
							write(a, true)
						}
					}
				}
				return true
			})
		}
		// interface methods: the union over the implementations
		for _, ii := range g.ifaces {
			for i := 0; i < ii.iface.NumMethods(); i++ {
				mth := ii.iface.Method(i)
				ms := g.sigOf(mth)
				for _, v := range ii.impls {
					im := g.methodImpl(v.goType, mth.Name())
					if im == nil {
						continue
					}
					is := g.sigOf(im)
					for k := range ms.inout {
						if is.inout[k] && k < len(is.inout) {
							set(&ms.inout[k])
						}
					}
					for _, h := range is.heapsR() {
						hset(ms.heapR, h)
					}
					for _, h := range is.heapsW() {
						hset(ms.heapW, h)
					}
				}
				for _, v := range ii.impls {
					im := g.methodImpl(v.goType, mth.Name())
					if im == nil {
						continue
					}
					is := g.sigOf(im)
					for k := range ms.inout {
						if ms.inout[k] {
							set(&is.inout[k])
						}
					}
				}
			}
		}
	}
}

func sortedFuncs(m map[string]*FuncInfo) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
