package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// ---------- statements ----------

func (t *Tr) flushBefore() {
	for _, s := range t.befores {
		t.raw(s)
	}
	t.befores = nil
}

func (t *Tr) flushAfter() {
	a := t.afters
	t.afters = nil
	for _, s := range a {
		t.raw(s)
	}
}

// emit writes a statement whose text has been built (so that the hints of the
// calls in it are known).
func (t *Tr) emit(s string) {
	t.flushBefore()
	if s != "" {
		t.line("%s", s)
	}
	t.flushAfter()
}

func (t *Tr) block(l []ast.Stmt) {
	t.ind++
	t.stmts(l)
	t.ind--
}

func (t *Tr) stmts(l []ast.Stmt) {
	for _, s := range l {
		t.stmt(s, "")
	}
}

func usesSwitchBreak(body []ast.Stmt) bool {
	found := false
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if x.Tok == token.BREAK && x.Label == nil {
				found = true
			}
		}
		return true
	}
	for _, s := range body {
		ast.Inspect(s, walk)
	}
	return found
}

func (t *Tr) declVar(id *ast.Ident, val string, ty types.Type) {
	t.emit(fmt.Sprintf("let mut %s: %s = %s;", rid(id.Name), t.g.rt(ty), val))
}

// noop reports statements which do nothing: empty function literals called or
// discarded, loops whose constant condition is false.
func (t *Tr) noop(s ast.Stmt) bool {
	emptyCall := func(c *ast.CallExpr) bool {
		f, ok := ast.Unparen(c.Fun).(*ast.FuncLit)
		return ok && len(f.Body.List) == 0 && len(c.Args) == 0
	}
	switch x := s.(type) {
	case *ast.ExprStmt:
		c, ok := ast.Unparen(x.X).(*ast.CallExpr)
		return ok && emptyCall(c)
	case *ast.DeferStmt:
		return emptyCall(x.Call)
	case *ast.AssignStmt:
		for i, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); !ok || id.Name != "_" || len(x.Rhs) != len(x.Lhs) {
				return false
			} else if _, ok := ast.Unparen(x.Rhs[i]).(*ast.FuncLit); !ok {
				return false
			}
		}
		return true
	case *ast.ForStmt:
		if x.Cond == nil {
			return false
		}
		if tv := t.p.info.Types[x.Cond]; tv.Value != nil {
			return x.Init == nil && !constant.BoolVal(tv.Value)
		}
		// for i := a; i < b; ... with constants a >= b
		in, ok := x.Init.(*ast.AssignStmt)
		c, ok2 := x.Cond.(*ast.BinaryExpr)
		if !ok || !ok2 || in.Tok != token.DEFINE || len(in.Lhs) != 1 || len(in.Rhs) != 1 || c.Op != token.LSS {
			return false
		}
		a, b := t.p.info.Types[in.Rhs[0]].Value, t.p.info.Types[c.Y].Value
		l, ok := in.Lhs[0].(*ast.Ident)
		r, ok2 := c.X.(*ast.Ident)
		return ok && ok2 && l.Name == r.Name && a != nil && b != nil && constant.Compare(a, token.GEQ, b)
	}
	return false
}

func (t *Tr) stmt(s ast.Stmt, label string) {
	if t.noop(s) {
		return
	}
	switch x := s.(type) {
	case *ast.EmptyStmt:
	case *ast.BlockStmt:
		t.line("{")
		t.block(x.List)
		t.line("}")
	case *ast.ExprStmt:
		c, ok := ast.Unparen(x.X).(*ast.CallExpr)
		if !ok {
			t.fail("expression statement")
		}
		pre, vals := t.pieces(c)
		txt := pre
		if len(vals) == 1 && pre == "" {
			txt = "let _ = " + vals[0] + ";"
			if t.depth == 0 && vals[0] == "go_panic::<()>()" {
				txt = "return go_panic();"
			}
		}
		t.emit(txt)
	case *ast.IncDecStmt:
		op := token.ADD
		if x.Tok == token.DEC {
			op = token.SUB
		}
		ty := t.typ(x.X)
		pl := t.place(x.X)
		t.emit(pl.store(t.arith(op, pl.read(), "1"+t.g.rt(ty), ty, ty, ty)))
	case *ast.AssignStmt:
		t.assign(x)
	case *ast.DeclStmt:
		gd := x.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				t.fail("var declaration of several variables from one call")
			}
			for i, n := range vs.Names {
				if n.Name == "_" {
					continue
				}
				ty := t.p.info.Defs[n].Type()
				v := t.g.zero(ty)
				if i < len(vs.Values) {
					v = t.conv(vs.Values[i], ty)
				}
				t.declVar(n, v, ty)
			}
		}
	case *ast.ReturnStmt:
		t.ret(x)
	case *ast.IfStmt:
		t.ifStmt(x)
	case *ast.ForStmt:
		t.forStmt(x, label)
	case *ast.RangeStmt:
		t.rangeStmt(x, label)
	case *ast.SwitchStmt:
		t.switchStmt(x, func(l []ast.Stmt) { t.block(l) }, false)
	case *ast.TypeSwitchStmt:
		t.typeSwitch(x, func(l []ast.Stmt) { t.block(l) }, false)
	case *ast.LabeledStmt:
		t.stmt(x.Stmt, x.Label.Name)
	case *ast.BranchStmt:
		t.branch(x)
	default:
		t.fail("statement %T", s)
	}
}

type loopCtx struct {
	label string // Go label
	rust  string // Rust label
	post  string // text run before continue
	kind  string // loop, switch
	exit  string // proof text before break
}

func (t *Tr) findLoop(label string) *loopCtx {
	for i := len(t.loops) - 1; i >= 0; i-- {
		l := &t.loops[i]
		if label != "" && l.label == label {
			return l
		}
		if label == "" {
			return l
		}
	}
	return nil
}

func (t *Tr) branch(x *ast.BranchStmt) {
	lb := ""
	if x.Label != nil {
		lb = x.Label.Name
	}
	switch x.Tok {
	case token.BREAK:
		l := t.findLoop(lb)
		if l == nil || l.kind == "switch" {
			t.fail("break of a switch")
		}
		if l.exit != "" {
			t.raw(l.exit)
		}
		t.line("break %s;", l.rust)
	case token.CONTINUE:
		var l *loopCtx
		for i := len(t.loops) - 1; i >= 0; i-- {
			if t.loops[i].kind == "loop" && (lb == "" || t.loops[i].label == lb) {
				l = &t.loops[i]
				break
			}
		}
		if l == nil {
			t.fail("continue outside a loop")
		}
		for _, p := range strings.Split(l.post, "\n") {
			if strings.TrimSpace(p) != "" {
				t.line("%s", p)
			}
		}
		t.line("continue %s;", l.rust)
	default:
		t.fail("%s", x.Tok)
	}
}

// capture runs f with output going to a separate buffer at indent 0.
func (t *Tr) capture(f func()) string {
	b, ind := t.b, t.ind
	t.b, t.ind = &strings.Builder{}, 0
	f()
	s := t.b.String()
	t.b, t.ind = b, ind
	return s
}

func (t *Tr) assign(x *ast.AssignStmt) {
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		ty := t.typ(x.Lhs[0])
		pl := t.place(x.Lhs[0])
		t.emit(pl.store(t.arith(ops[x.Tok], pl.read(), t.ex(x.Rhs[0]), ty, t.typ(x.Rhs[0]), ty)))
		return
	}
	isNew := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return ok && x.Tok == token.DEFINE && t.p.info.Defs[id] != nil
	}
	set := func(l ast.Expr, v string) string {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				return "let _ = " + v + ";"
			}
			if isNew(l) {
				return fmt.Sprintf("let mut %s: %s = %s;", rid(id.Name), t.g.rt(t.p.info.Defs[id].Type()), v)
			}
		}
		return t.place(l).store(v)
	}
	lty := func(l ast.Expr) types.Type {
		if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
			return nil
		}
		return t.typ(l)
	}
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		switch r := ast.Unparen(x.Rhs[0]).(type) {
		case *ast.CallExpr:
			pre, vals := t.pieces(r)
			if len(vals) != len(x.Lhs) {
				t.fail("assignment count")
			}
			txt := pre
			for i, l := range x.Lhs {
				v := vals[i]
				if lt := lty(l); lt != nil && isIface(lt) && t.g.rt(lt) != "Err" {
					tup := t.typ(r).(*types.Tuple)
					if !isIface(tup.At(i).Type()) {
						v = t.toIface(v, tup.At(i).Type(), lt, nil)
					}
				}
				txt += " " + set(l, v)
			}
			t.emit(strings.TrimSpace(txt))
			return
		case *ast.IndexExpr:
			mt := types.Unalias(t.typ(r.X)).Underlying().(*types.Map)
			b, _ := t.derefPlace(t.place(r.X), t.typ(r.X))
			c := t.tmp("mk")
			m := t.tmp("mv")
			t.emit(fmt.Sprintf("let %s = %s; let %s = %s; %s %s", m, b.read(), c, t.conv(r.Index, mt.Key()),
				set(x.Lhs[0], fmt.Sprintf("mp_idx(%s, %s, %s)", m, c, t.g.zero(mt.Elem()))), set(x.Lhs[1], fmt.Sprintf("mp_has(%s, %s)", m, c))))
			return
		case *ast.TypeAssertExpr:
			v := t.tmp("tv")
			pat, val := t.assertPat(v, t.typ(r.X), t.typ(r.Type))
			tup := t.typ(r)
			_ = tup
			dst := t.typ(r.Type)
			txt := fmt.Sprintf("let %s = %s; %s %s", v, t.ex(r.X),
				set(x.Lhs[0], fmt.Sprintf("(match %s { %s => %s, _ => %s })", v, pat, val, t.g.zero(dst))),
				set(x.Lhs[1], fmt.Sprintf("(match %s { %s => true, _ => false })", v, strings.ReplaceAll(pat, "(ta_v)", "(_)"))))
			t.emit(txt)
			// writes through the asserted pointer reach the subject
			if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name != "_" {
				t.addAlias(t.p.info.Defs[id], r.X, dst)
			}
			return
		}
		t.fail("multi assignment from %T", x.Rhs[0])
	}
	if len(x.Lhs) == 1 {
		l := x.Lhs[0]
		var v string
		if lt := lty(l); lt != nil {
			v = t.conv(x.Rhs[0], lt)
		} else {
			v = t.ex(x.Rhs[0])
		}
		t.emit(set(l, v))
		if id, ok := l.(*ast.Ident); ok && isNew(l) {
			if ta, ok := ast.Unparen(x.Rhs[0]).(*ast.TypeAssertExpr); ok {
				t.addAlias(t.p.info.Defs[id], ta.X, t.typ(ta))
			}
		}
		return
	}
	var tmps []string
	for i, r := range x.Rhs {
		tmp := t.tmp("as")
		tmps = append(tmps, tmp)
		t.emit(fmt.Sprintf("let %s = %s;", tmp, t.conv(r, lty(x.Lhs[i]))))
	}
	for i, l := range x.Lhs {
		t.emit(set(l, tmps[i]))
	}
}

// assertPat is the pattern and the value for an assertion of v.
func (t *Tr) assertPat(v string, src, dst types.Type) (string, string) {
	ii := t.g.ifaceOf(src)
	if ii == nil {
		t.fail("type assertion on %s", src)
	}
	root := ii.root()
	if di := t.g.ifaceOf(dst); di != nil {
		var pats []string
		for _, vr := range di.impls {
			pats = append(pats, root.enum+"::"+vr.name+"(_)")
		}
		if len(pats) == 0 {
			t.fail("assertion to %s", dst)
		}
		return strings.Join(pats, " | "), v
	}
	for _, vr := range root.impls {
		if types.Identical(vr.goType, dst) {
			return root.enum + "::" + vr.name + "(ta_v)", "ta_v"
		}
	}
	t.fail("assertion to %s", dst)
	return "", ""
}

func (i *ifaceInfo) root() *ifaceInfo {
	for i.base != nil {
		i = i.base
	}
	return i
}

// addAlias records that writes through o (a pointer taken out of an interface
// value) are writes to the subject.
func (t *Tr) addAlias(o types.Object, subj ast.Expr, ty types.Type) {
	if o == nil || !isPtr(ty) {
		return
	}
	if k, _ := t.g.ptrKind(ty); k == ptrHeap {
		return
	}
	p := t.p
	t.alias[o] = func(n string) string {
		save := t.p
		t.p = p
		defer func() { t.p = save }()
		return t.place(subj).store(t.toIface(n, ty, t.typ(subj), nil))
	}
}

func (t *Tr) retComponents(vals []string) []string {
	for i, p := range t.sig.params {
		if t.sig.inout[i] {
			vals = append(vals, t.varName(p))
		}
	}
	for _, h := range t.sig.heapsW() {
		vals = append(vals, t.heapVar(h))
	}
	return vals
}

// retVals computes the result values of a return statement (prefix text emitted).
func (t *Tr) retVals(x *ast.ReturnStmt) []string {
	var vals []string
	if len(x.Results) == 0 {
		for i := range t.sig.res {
			vals = append(vals, t.named[i])
		}
	} else if len(x.Results) == 1 && len(t.sig.res) > 1 {
		c, ok := ast.Unparen(x.Results[0]).(*ast.CallExpr)
		if !ok {
			t.fail("return of a tuple")
		}
		pre, vs := t.pieces(c)
		t.emit(pre)
		vals = vs
	} else {
		simple := len(x.Results) == 1
		for i, r := range x.Results {
			v := t.conv(r, t.sig.res[i].Type())
			// calls may write inouts: fix the order
			if hasCall(r) && (!simple || len(t.retComponents(nil)) > 0) {
				tmp := t.tmp("rv")
				t.emit(fmt.Sprintf("let %s = %s;", tmp, v))
				v = tmp
			}
			vals = append(vals, v)
		}
	}
	return t.retComponents(vals)
}

func hasCall(e ast.Expr) bool {
	f := false
	if e == nil {
		return false
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			f = true
		}
		return true
	})
	return f
}

func (t *Tr) ret(x *ast.ReturnStmt) {
	if t.depth > 0 {
		t.fail("return inside a loop or a branch of an inlined function")
	}
	vals := t.retVals(x)
	t.retN++
	h := ""
	if t.c != nil {
		h = t.c.returns[t.retN]
		if t.c.returns[0] != "" {
			h = t.c.returns[0] + h
		}
	}
	if h == "" {
		t.emit("return " + tupE(vals) + ";")
		return
	}
	t.flushBefore()
	_, tys := t.components()
	t.line("let ret: %s = %s;", tupT(tys), tupE(vals))
	t.flushAfter()
	t.raw(h)
	t.line("return ret;")
}

// cond emits a condition; hints of calls in it need it in a variable.
func (t *Tr) condText(e ast.Expr) string {
	c := t.ex(e)
	t.flushBefore()
	if len(t.afters) > 0 {
		v := t.tmp("cond")
		t.line("let %s: bool = %s;", v, c)
		t.flushAfter()
		return v
	}
	return c
}

func (t *Tr) ifStmt(x *ast.IfStmt) {
	if x.Init != nil {
		t.line("{")
		t.ind++
		t.stmt(x.Init, "")
	}
	c := t.condText(x.Cond)
	t.line("if %s {", c)
	t.block(x.Body.List)
	switch e := x.Else.(type) {
	case nil:
		t.line("}")
	case *ast.BlockStmt:
		t.line("} else {")
		t.block(e.List)
		t.line("}")
	default:
		t.line("} else {")
		t.ind++
		t.stmt(e, "")
		t.ind--
		t.line("}")
	}
	if x.Init != nil {
		t.ind--
		t.line("}")
	}
}

func (t *Tr) hasBreak(body *ast.BlockStmt, label string) bool {
	f := false
	var walk func(n ast.Node, inner bool)
	walk = func(n ast.Node, inner bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch b := m.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				walk(m, true)
				return false
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if b.Tok == token.BREAK || b.Tok == token.CONTINUE {
					if b.Label == nil && !inner && b.Tok == token.BREAK {
						f = true
					}
					if b.Label != nil && b.Label.Name == label && b.Tok == token.BREAK {
						f = true
					}
					if b.Label != nil && b.Label.Name != label {
						f = true
					}
				}
			}
			return true
		})
	}
	walk(body, false)
	return f
}

func (t *Tr) loopSpec(lc *LoopC, autoInv, autoEns []string, autoDec string) {
	clause := func(kw, s string, auto []string) {
		if s == "" && len(auto) == 0 {
			return
		}
		t.line("    %s", kw)
		for _, a := range auto {
			t.line("        %s,", a)
		}
		if s != "" {
			t.ind += 2
			t.raw(s)
			t.ind -= 2
		}
	}
	if lc == nil {
		lc = &LoopC{}
	}
	clause("invariant_except_break", lc.exc, nil)
	clause("invariant", lc.inv, autoInv)
	clause("ensures", lc.ens, autoEns)
	if lc.dec == "" && autoDec != "" {
		t.line("    decreases %s", autoDec)
		return
	}
	clause("decreases", lc.dec, nil)
	if lc.dec == "" {
		t.line("    // no decreases")
	}
}

func (t *Tr) lc(n int) *LoopC {
	if t.c == nil || t.depth > 0 {
		return nil
	}
	return t.c.loops[n]
}

// probe is an assertion which must fail: the point can be reached.
func (t *Tr) probe() {
	if t.g.probe && t.depth == 0 {
		t.g.probeN++
		t.line("proof { if probe_at(%d) { assert(false); } } // probe", t.g.probeN)
	}
}

func (t *Tr) forStmt(x *ast.ForStmt, label string) {
	t.loopN++
	n := t.loopN
	t.line("{")
	t.ind++
	if x.Init != nil {
		if as, ok := x.Init.(*ast.AssignStmt); ok {
			if id, ok := as.Lhs[0].(*ast.Ident); ok {
				t.idxName[n] = rid(id.Name)
			}
		}
		t.stmt(x.Init, "")
	}
	lc := t.lc(n)
	if lc != nil {
		t.raw(lc.pre)
	}
	rl := fmt.Sprintf("'l%d", n)
	post := ""
	if lc != nil && lc.tail != "" {
		post += strings.TrimRight(t.macro(lc.tail), "\n") + "\n"
	}
	if x.Post != nil {
		post += t.capture(func() { t.stmt(x.Post, "") })
	}
	t.line("%s: loop", rl)
	t.loopSpec(lc, nil, nil, "")
	t.line("{")
	t.ind++
	if x.Cond != nil {
		if c := t.condText(x.Cond); c != "true" {
			t.line("if !(%s) { break %s; }", c, rl)
		}
	}
	if lc != nil {
		t.raw(lc.head)
	}
	t.probe()
	exit := ""
	if lc != nil {
		exit = lc.exit
	}
	t.loops = append(t.loops, loopCtx{label: label, rust: rl, post: post, kind: "loop", exit: exit})
	t.stmts(x.Body.List)
	t.loops = t.loops[:len(t.loops)-1]
	for _, p := range strings.Split(post, "\n") {
		if strings.TrimSpace(p) != "" && !terminates(x.Body.List) {
			t.line("%s", p)
		}
	}
	t.ind--
	t.line("}")
	if lc != nil {
		t.raw(lc.post)
	}
	t.ind--
	t.line("}")
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch x := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK || x.Tok == token.CONTINUE
	case *ast.BlockStmt:
		return terminates(x.List)
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				return true
			}
		}
	case *ast.IfStmt:
		if x.Else == nil || !terminates(x.Body.List) {
			return false
		}
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			return terminates(e.List)
		default:
			return terminates([]ast.Stmt{e})
		}
	case *ast.LabeledStmt:
		return terminates([]ast.Stmt{x.Stmt})
	case *ast.ForStmt:
		if x.Cond != nil {
			return false
		}
		tt := &Tr{}
		return !tt.hasBreak(x.Body, "")
	case *ast.SwitchStmt:
		def := false
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = true
			}
			if !terminates(cc.Body) || usesSwitchBreak(cc.Body) {
				return false
			}
		}
		return def
	case *ast.TypeSwitchStmt:
		def := false
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = true
			}
			if !terminates(cc.Body) || usesSwitchBreak(cc.Body) {
				return false
			}
		}
		return def
	}
	return false
}

// terminatesFn is terminates without branch statements: control leaves the function.
func terminatesFn(l []ast.Stmt) bool {
	if !terminates(l) {
		return false
	}
	if b, ok := l[len(l)-1].(*ast.BranchStmt); ok {
		_ = b
		return false
	}
	return true
}

func (t *Tr) writesElems(body *ast.BlockStmt, root types.Object) (elems, whole bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for _, l := range as.Lhs {
			if rootObj(t.p, l) == root && root != nil {
				if _, ok := l.(*ast.Ident); ok {
					if as.Tok != token.DEFINE {
						whole = true
					}
				} else {
					elems = true
				}
			}
		}
		return true
	})
	return
}

func (t *Tr) rangeStmt(x *ast.RangeStmt, label string) {
	t.loopN++
	n := t.loopN
	ty := t.typ(x.X)
	t.line("{")
	t.ind++
	b, bt := t.derefPlace(t.place(x.X), ty)
	rl := fmt.Sprintf("'l%d", n)
	lc := t.lc(n)
	define := x.Tok == token.DEFINE
	name := func(e ast.Expr) string {
		if id, ok := e.(*ast.Ident); ok && id.Name != "_" {
			return rid(id.Name)
		}
		return ""
	}
	var kn, vn string
	if x.Key != nil {
		kn = name(x.Key)
	}
	if x.Value != nil {
		vn = name(x.Value)
	}
	if !define && (kn != "" || vn != "") {
		t.fail("range with assignment")
	}
	rx := fmt.Sprintf("rx%d", n)
	ix := fmt.Sprintf("ix%d", n)
	t.idxName[n] = ix
	kind := ""
	elem := ""
	ln := ""
	live := ""
	switch u := types.Unalias(bt).Underlying().(type) {
	case *types.Slice:
		kind = "slice"
		e, w := t.writesElems(x.Body, rootObj(t.p, x.X))
		if e && !w && b.path != "" {
			live = b.read()
		}
		t.line("let %s = %s;", rx, b.read())
		src := rx
		if live != "" {
			src = live
		}
		elem = fmt.Sprintf("sl_get(%s, %s)", src, ix)
		ln = fmt.Sprintf("sl_len(%s)", rx)
	case *types.Array:
		kind = "slice"
		t.line("let %s = ar_to_sl(%s);", rx, b.read())
		elem = fmt.Sprintf("sl_get(%s, %s)", rx, ix)
		ln = fmt.Sprintf("sl_len(%s)", rx)
	case *types.Map:
		kind = "map"
		if vn != "" {
			t.fail("range over the values of a map")
		}
		t.line("let %s = mp_keys(%s);", rx, b.read())
		ln = fmt.Sprintf("sl_len(%s)", rx)
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			kind = "string"
			t.line("let %s = %s;", rx, b.read())
			ln = fmt.Sprintf("str_len(%s)", rx)
		} else {
			kind = "int"
			t.line("let %s = %s;", rx, b.read())
			ln = rx
		}
	default:
		t.fail("range over %s", bt)
	}
	t.line("let mut %s: i64 = 0;", ix)
	if lc != nil {
		t.raw(lc.pre)
	}
	t.line("%s: loop", rl)
	hb := t.hasBreak(x.Body, label)
	specLen := map[string]string{"slice": rx + "@.len()", "map": rx + "@.len()", "string": rx + "@.len()", "int": rx}[kind]
	var ai, ae []string
	if kind == "int" {
		ai = []string{fmt.Sprintf("0 <= %s", ix), fmt.Sprintf("%s <= %s || %s == 0", ix, rx, ix)}
		if !hb {
			ae = []string{fmt.Sprintf("%s >= %s", ix, rx)}
		}
	} else {
		ai = []string{fmt.Sprintf("0 <= %s <= %s", ix, specLen)}
		if !hb {
			ae = []string{fmt.Sprintf("%s == %s", ix, specLen)}
		}
	}
	t.loopSpec(lc, ai, ae, specLen+" - "+ix)
	t.line("{")
	t.ind++
	t.line("if !(%s < %s) { break %s; }", ix, ln, rl)
	post := ""
	if lc != nil && lc.tail != "" {
		post += strings.TrimRight(t.macro(lc.tail), "\n") + "\n"
	}
	switch kind {
	case "slice":
		if kn != "" {
			t.line("let mut %s: i64 = %s;", kn, ix)
		}
		if vn != "" {
			el := types.Unalias(bt).Underlying()
			var et types.Type
			switch u := el.(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
			t.line("let mut %s: %s = %s;", vn, t.g.rt(et), elem)
		}
		post += fmt.Sprintf("%s = %s + 1;\n", ix, ix)
	case "map":
		if kn != "" {
			t.line("let mut %s = sl_get(%s, %s);", kn, rx, ix)
		}
		post += fmt.Sprintf("%s = %s + 1;\n", ix, ix)
	case "int":
		if kn != "" {
			t.line("let mut %s: i64 = %s;", kn, ix)
		}
		post += fmt.Sprintf("%s = %s + 1;\n", ix, ix)
	case "string":
		rr := fmt.Sprintf("rr%d", n)
		t.line("let %s = str_rune(%s, %s);", rr, rx, ix)
		if kn != "" {
			t.line("let mut %s: i64 = %s;", kn, ix)
		}
		if vn != "" {
			t.line("let mut %s: i32 = %s.0;", vn, rr)
		}
		post += fmt.Sprintf("%s = %s + %s.1;\n", ix, ix, rr)
	}
	if lc != nil {
		t.raw(lc.head)
	}
	t.probe()
	exit := ""
	if lc != nil {
		exit = lc.exit
	}
	t.loops = append(t.loops, loopCtx{label: label, rust: rl, post: post, kind: "loop", exit: exit})
	t.stmts(x.Body.List)
	t.loops = t.loops[:len(t.loops)-1]
	for _, p := range strings.Split(post, "\n") {
		if strings.TrimSpace(p) != "" && !terminates(x.Body.List) {
			t.line("%s", p)
		}
	}
	t.ind--
	t.line("}")
	if lc != nil {
		t.raw(lc.post)
	}
	t.ind--
	t.line("}")
}

func (t *Tr) switchStmt(x *ast.SwitchStmt, body func([]ast.Stmt), tail bool) {
	t.line("{")
	t.ind++
	if x.Init != nil {
		t.stmt(x.Init, "")
	}
	tag := ""
	var tagT types.Type
	if x.Tag != nil {
		tag = t.tmp("sw")
		tagT = t.typ(x.Tag)
		t.emit(fmt.Sprintf("let %s = %s;", tag, t.ex(x.Tag)))
	}
	var def *ast.CaseClause
	first := true
	t.loops = append(t.loops, loopCtx{kind: "switch"})
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		for _, s := range cc.Body {
			if b, ok := s.(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				t.fail("fallthrough")
			}
		}
		if cc.List == nil {
			def = cc
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag == "" {
				cs = append(cs, t.ex(e))
				continue
			}
			if t.g.rt(tagT) == "Str" {
				if cv := t.p.info.Types[e].Value; cv != nil {
					cs = append(cs, t.strEqConst(tag, cv.ExactString(), e))
					continue
				}
			}
			switch t.g.rt(tagT) {
			case "i64", "u8", "i32", "u32", "i8", "u64", "u16", "i16", "bool":
				cs = append(cs, fmt.Sprintf("(%s == %s)", tag, t.ex(e)))
			default:
				cs = append(cs, fmt.Sprintf("go_eq(%s, %s)", tag, t.ex(e)))
			}
		}
		t.flushBefore()
		kw := "if"
		if !first {
			kw = "} else if"
		}
		first = false
		t.line("%s %s {", kw, strings.Join(cs, " || "))
		body(stripBreak(cc.Body))
	}
	if def != nil || tail {
		if first {
			t.line("if true {")
		} else {
			t.line("} else {")
		}
		first = false
		if def != nil {
			body(stripBreak(def.Body))
		} else {
			body(nil)
		}
	}
	t.loops = t.loops[:len(t.loops)-1]
	if !first {
		t.line("}")
	}
	t.ind--
	t.line("}")
}

// stripBreak drops a trailing unlabelled break of a case.
func stripBreak(l []ast.Stmt) []ast.Stmt {
	if len(l) > 0 {
		if b, ok := l[len(l)-1].(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
			return l[:len(l)-1]
		}
	}
	return l
}

func (t *Tr) strEqConst(v, _ string, e ast.Expr) string {
	return fmt.Sprintf("go_eq(%s, %s)", v, t.ex(e))
}

func (t *Tr) typeSwitch(x *ast.TypeSwitchStmt, body func([]ast.Stmt), tail bool) {
	t.line("{")
	t.ind++
	if x.Init != nil {
		t.stmt(x.Init, "")
	}
	var subj ast.Expr
	name := ""
	switch a := x.Assign.(type) {
	case *ast.AssignStmt:
		subj = a.Rhs[0].(*ast.TypeAssertExpr).X
		name = a.Lhs[0].(*ast.Ident).Name
	case *ast.ExprStmt:
		subj = a.X.(*ast.TypeAssertExpr).X
	}
	ii := t.g.ifaceOf(t.typ(subj))
	if ii == nil {
		t.fail("type switch on %s", t.typ(subj))
	}
	root := ii.root()
	ts := t.tmp("ts")
	t.emit(fmt.Sprintf("let %s = %s;", ts, t.ex(subj)))
	t.line("match %s {", ts)
	t.ind++
	t.loops = append(t.loops, loopCtx{kind: "switch"})
	var def *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var pats []string
		bind := ""
		for _, e := range cc.List {
			if t.p.info.Types[e].IsNil() {
				pats = append(pats, root.enum+"::Nil")
				continue
			}
			p, v := t.assertPat(ts, t.typ(subj), t.typ(e))
			if len(cc.List) == 1 && name != "" {
				bind = v
			} else {
				p = strings.ReplaceAll(p, "(ta_v)", "(_)")
			}
			pats = append(pats, p)
		}
		if bind == "" {
			bind = ts
		}
		if !strings.Contains(strings.Join(pats, ""), "ta_v") && bind == "ta_v" {
			bind = ts
		}
		t.line("%s => {", strings.Join(pats, " | "))
		o := t.p.info.Implicits[cc]
		if o != nil && name != "" && name != "_" {
			t.ind++
			t.line("let mut %s: %s = %s;", rid(name), t.g.rt(o.Type()), bind)
			t.ind--
			if len(cc.List) == 1 {
				t.addAlias(o, subj, o.Type())
			}
		}
		body(stripBreak(cc.Body))
		t.line("}")
	}
	t.line("_ => {")
	if def != nil {
		o := t.p.info.Implicits[def]
		if o != nil && name != "" && name != "_" {
			t.ind++
			t.line("let mut %s: %s = %s;", rid(name), t.g.rt(o.Type()), ts)
			t.ind--
		}
		body(stripBreak(def.Body))
	} else if tail {
		body(nil)
	}
	t.line("}")
	t.loops = t.loops[:len(t.loops)-1]
	t.ind--
	t.line("}")
	t.ind--
	t.line("}")
}

// ---------- inlining of helpers without a contract ----------

func hasReturn(n ast.Node) bool {
	f := false
	ast.Inspect(n, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.ReturnStmt:
			f = true
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return f
}

// tailOK: every return of the list is in a tail position.
func tailOK(l []ast.Stmt) bool {
	for i, s := range l {
		switch x := s.(type) {
		case *ast.ReturnStmt:
			return i == len(l)-1
		case *ast.IfStmt:
			if !hasReturn(x) {
				continue
			}
			rest := l[i+1:]
			if x.Init != nil && hasReturn(x.Init) {
				return false
			}
			branch := func(b []ast.Stmt) bool {
				if terminatesFn(b) {
					return tailOK(b)
				}
				return tailOK(append(append([]ast.Stmt{}, b...), rest...))
			}
			if !branch(x.Body.List) {
				return false
			}
			switch e := x.Else.(type) {
			case nil:
				return tailOK(rest)
			case *ast.BlockStmt:
				return branch(e.List)
			default:
				return branch([]ast.Stmt{e})
			}
		case *ast.SwitchStmt:
			if !hasReturn(x) {
				continue
			}
			rest := l[i+1:]
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				b := stripBreak(cc.Body)
				if usesSwitchBreak(b) {
					return false
				}
				if terminatesFn(b) {
					if !tailOK(b) {
						return false
					}
				} else if !tailOK(append(append([]ast.Stmt{}, b...), rest...)) {
					return false
				}
			}
			return tailOK(rest)
		case *ast.TypeSwitchStmt:
			if !hasReturn(x) {
				continue
			}
			rest := l[i+1:]
			for _, c := range x.Body.List {
				cc := c.(*ast.CaseClause)
				b := stripBreak(cc.Body)
				if usesSwitchBreak(b) {
					return false
				}
				if terminatesFn(b) {
					if !tailOK(b) {
						return false
					}
				} else if !tailOK(append(append([]ast.Stmt{}, b...), rest...)) {
					return false
				}
			}
			return tailOK(rest)
		case *ast.BlockStmt:
			if !hasReturn(x) {
				continue
			}
			return tailOK(append(append([]ast.Stmt{}, x.List...), l[i+1:]...))
		default:
			if hasReturn(s) {
				return false
			}
		}
	}
	return true
}

func countNodes(n ast.Node) int {
	c := 0
	ast.Inspect(n, func(ast.Node) bool { c++; return true })
	return c
}

func (g *Gen) inlinable(key string) bool {
	if v, ok := g.inl[key]; ok {
		return v
	}
	g.inl[key] = false // recursion
	fi := g.m.funcs[key]
	if fi == nil || g.cs.fns[key] != nil {
		return false
	}
	sg := fi.obj.Type().(*types.Signature)
	if sg.TypeParams() != nil || sg.RecvTypeParams() != nil {
		return false
	}
	ok := true
	ast.Inspect(fi.decl.Body, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit, *ast.DeferStmt, *ast.GoStmt, *ast.LabeledStmt:
			ok = false
		}
		return ok
	})
	if !ok || countNodes(fi.decl.Body) > 400 || !tailOK(fi.decl.Body.List) {
		return false
	}
	// not recursive
	seen := map[string]bool{}
	var reach func(k string) bool
	reach = func(k string) bool {
		if seen[k] {
			return false
		}
		seen[k] = true
		f := g.m.funcs[k]
		if f == nil {
			return false
		}
		r := false
		ast.Inspect(f.decl.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if o, _ := g.callee(f.pkg, c); o != nil {
					ck := funcKey(o)
					if ck == key {
						r = true
					} else if g.cs.fns[ck] == nil && reach(ck) {
						r = true
					}
				}
			}
			return !r
		})
		return r
	}
	if reach(key) {
		return false
	}
	g.inl[key] = true
	return true
}

func (t *Tr) inline(fi *FuncInfo, args []string) string {
	t.g.nInline++
	t.g.inlined[fi.key] = true
	sub := &Tr{g: t.g, p: fi.pkg, fi: fi, sig: t.g.sigOf(fi.obj), c: nil, b: &strings.Builder{}, calls: map[string]int{}, alias: map[types.Object]func(string) string{}, idxName: map[int]string{}, rename: map[types.Object]string{}, depth: 1, tmpN: t.tmpN + 100*(t.g.nInline), math: t.math}
	sub.ind = t.ind + 1
	names := sub.argNames()
	sub.line("{")
	sub.ind++
	var tn []string
	for i := range names {
		x := fmt.Sprintf("ia%d__%d", t.g.nInline, i)
		tn = append(tn, x)
		sub.line("let %s = %s;", x, args[i])
	}
	for i, n := range names {
		if n != "_" {
			sub.line("let mut %s = %s;", n, tn[i])
		}
	}
	sub.declResults()
	sub.tail(fi.decl.Body.List)
	sub.ind--
	sub.line("}")
	return strings.TrimSpace(sub.b.String())
}

// tail emits a statement list whose returns become block values.
func (t *Tr) tail(l []ast.Stmt) {
	for i, s := range l {
		rest := l[i+1:]
		branch := func(b []ast.Stmt) {
			t.ind++
			if terminatesFn(b) {
				t.tail(b)
			} else {
				t.tail(append(append([]ast.Stmt{}, b...), rest...))
			}
			t.ind--
		}
		if !hasReturn(s) {
			t.stmt(s, "")
			if terminatesFn(l[:i+1]) {
				// a panic: no value
				t.line("go_panic()")
				return
			}
			continue
		}
		switch x := s.(type) {
		case *ast.ReturnStmt:
			vals := t.retVals(x)
			t.emit(tupE(vals))
			return
		case *ast.IfStmt:
			if x.Init != nil {
				t.line("{")
				t.ind++
				t.stmt(x.Init, "")
			}
			c := t.condText(x.Cond)
			t.line("if %s {", c)
			branch(x.Body.List)
			t.line("} else {")
			switch e := x.Else.(type) {
			case nil:
				branch(nil)
			case *ast.BlockStmt:
				branch(e.List)
			default:
				branch([]ast.Stmt{e})
			}
			t.line("}")
			if x.Init != nil {
				t.ind--
				t.line("}")
			}
			return
		case *ast.SwitchStmt:
			t.switchStmt(x, branch, true)
			return
		case *ast.TypeSwitchStmt:
			t.typeSwitch(x, branch, true)
			return
		case *ast.BlockStmt:
			t.line("{")
			t.ind++
			t.tail(append(append([]ast.Stmt{}, x.List...), rest...))
			t.ind--
			t.line("}")
			return
		}
		t.fail("inlining of %T", s)
	}
	// end of a function without results
	var vals []string
	for i := range t.sig.res {
		vals = append(vals, t.named[i])
	}
	t.line("%s", tupE(t.retComponents(vals)))
}
