package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type variant struct {
	name   string // enum variant
	goType types.Type
	rust   string // payload type
	key    string // items.Star
}

type ifaceInfo struct {
	key   string
	named *types.Named
	iface *types.Interface
	enum  string // rust enum name
	base  *ifaceInfo
	impls []variant
}

// Gen is one run of the translator.
type Gen struct {
	m                  *Module
	cs                 *Contracts
	sigs               map[*types.Func]*FnSig
	ifaces             []*ifaceInfo
	structs            map[string]string // rust name -> definition
	sorder             []string
	done               map[string]bool
	queue              []string
	fnOut              []fnText
	assume             map[string]bool // assumptions that the extraction relies on
	prelude            map[string]bool // functions available in the prelude
	errs               map[string]string
	nInline            int
	trustedHit         map[string]bool
	noStub             map[string]bool
	inl                map[string]bool
	inlined            map[string]bool
	useAllEnums, probe bool
	probeN             int
}

type fnText struct {
	key, name, text string
	mode            string // verified, trusted, inlined, failed, dispatch
}

type trErr struct{ msg string }

var keywords = map[string]bool{"as": true, "break": true, "const": true, "continue": true, "crate": true, "else": true, "enum": true, "extern": true, "false": true, "fn": true, "for": true, "if": true, "impl": true, "in": true, "let": true, "loop": true, "match": true, "mod": true, "move": true, "mut": true, "pub": true, "ref": true, "return": true, "self": true, "Self": true, "static": true, "struct": true, "super": true, "trait": true, "true": true, "type": true, "unsafe": true, "use": true, "where": true, "while": true, "async": true, "await": true, "dyn": true, "final": true, "try": true, "spec": true, "proof": true, "exec": true, "ghost": true, "tracked": true, "old": true, "assert": true, "assume": true, "requires": true, "ensures": true, "invariant": true, "decreases": true, "forall": true, "exists": true, "by": true, "via": true, "when": true, "choose": true, "is": true, "has": true, "matches": true, "open": true, "closed": true, "broadcast": true, "axiom": true, "ret": true, "int": true, "nat": true, "box": true, "macro": true, "yield": true, "abstract": true, "become": true, "do": true, "override": true, "priv": true, "typeof": true, "unsized": true, "virtual": true, "union": true, "opens_invariants": true, "returns": true, "default": true, "uninterp": true, "global": true, "reveal": true, "hide": true, "calc": true, "any": true, "all": true}

func rid(s string) string {
	if keywords[s] {
		return s + "_"
	}
	return s
}

func rname(key string) string { return strings.ReplaceAll(key, ".", "_") }

func (g *Gen) ifaceOf(t types.Type) *ifaceInfo {
	k := typeKey(t)
	for _, i := range g.ifaces {
		if i.key == k {
			return i
		}
	}
	return nil
}

// rt is the Rust type of a Go type.
func (g *Gen) rt(t types.Type) string {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		return tp.Obj().Name()
	}
	if n, ok := t.(*types.Named); ok {
		if isBuilder(t) {
			return "Str"
		}
		if isSink(t) {
			return "St"
		}
		if i := g.ifaceOf(t); i != nil {
			return i.enum
		}
		if n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
			return "Err"
		}
		if n.Obj().Pkg() != nil && g.m.pkgs[n.Obj().Pkg().Path()] == nil {
			// external type
			return "Opq"
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return "Str"
		case types.Int, types.Int64, types.UntypedInt:
			return "i64"
		case types.Uint8:
			return "u8"
		case types.Int8:
			return "i8"
		case types.Int16:
			return "i16"
		case types.Uint16:
			return "u16"
		case types.Int32, types.UntypedRune:
			return "i32"
		case types.Uint32:
			return "u32"
		case types.Uint, types.Uint64, types.Uintptr:
			return "u64"
		case types.Bool, types.UntypedBool:
			return "bool"
		}
		return "Opq"
	case *types.Slice:
		return "Sl<" + g.rt(u.Elem()) + ">"
	case *types.Array:
		return fmt.Sprintf("Ar<%s, %d>", g.rt(u.Elem()), u.Len())
	case *types.Map:
		return "Mp<" + g.rt(u.Key()) + ", " + g.rt(u.Elem()) + ">"
	case *types.Pointer:
		if isBuilder(t) {
			return "Str"
		}
		k, el := g.ptrKind(t)
		switch k {
		case ptrHeap:
			return "Ref"
		case ptrNullable:
			return "Pt<" + g.rt(el) + ">"
		}
		return g.rt(el)
	case *types.Struct:
		if n, ok := t.(*types.Named); ok {
			return g.structT(n, u)
		}
		if u.NumFields() == 0 {
			return "()"
		}
		return "Opq"
	case *types.Interface:
		return "Opq"
	}
	return "Opq"
}

func (g *Gen) structT(n *types.Named, u *types.Struct) string {
	name := rname(typeKey(n))
	if _, ok := g.structs[name]; ok {
		return name
	}
	g.structs[name] = ""
	var b strings.Builder
	fmt.Fprintf(&b, "#[derive(Clone, Copy)]\npub struct %s {\n", name)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fmt.Fprintf(&b, "    pub %s: %s,\n", rid(f.Name()), g.rt(f.Type()))
	}
	b.WriteString("}\n")
	g.structs[name] = b.String()
	g.sorder = append(g.sorder, name)
	return name
}

func (g *Gen) zero(t types.Type) string {
	r := g.rt(t)
	switch {
	case r == "Str":
		return "str_empty()"
	case r == "bool":
		return "false"
	case r == "Err":
		return "Err::Nil"
	case r == "Opq":
		return "opq_zero()"
	case r == "Ref":
		return "0u64"
	case r == "()":
		return "()"
	case r == "St":
		return "st_nil()"
	case strings.HasPrefix(r, "Pt<"):
		return "pt_nil()"
	case strings.HasPrefix(r, "Sl<"):
		return "sl_nil()"
	case strings.HasPrefix(r, "Mp<"):
		return "mp_nil()"
	case strings.HasPrefix(r, "Ar<"):
		a := types.Unalias(t).Underlying().(*types.Array)
		return "ar_new(" + g.zero(a.Elem()) + ")"
	case isIface(t):
		return r + "::Nil"
	}
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		// the nil of a pointer which the extraction treats as its target: never used before it is set
		return g.zero(p.Elem())
	}
	if st, ok := types.Unalias(t).Underlying().(*types.Struct); ok {
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, rid(st.Field(i).Name())+": "+g.zero(st.Field(i).Type()))
		}
		return r + " { " + strings.Join(fs, ", ") + " }"
	}
	return "0" + r
}

// Tr translates one function.
type Tr struct {
	g         *Gen
	p         *Pkg
	fi        *FuncInfo
	sig       *FnSig
	c         *Contract
	b         *strings.Builder
	ind       int
	loopN     int
	retN      int
	tmpN      int
	calls     map[string]int
	befores   []string
	afters    []string
	alias     map[types.Object]func(string) string
	contPost  []string // text emitted before continue, per enclosing loop
	breakable []string // "loop" or "switch" nesting
	swLabel   []string
	idxName   map[int]string
	depth     int
	inlineRet []types.Type
	rename    map[types.Object]string
	curHints  bool
	math      bool
	named     []string
	labels    map[string]int
	loops     []loopCtx
}

func (t *Tr) fail(f string, a ...interface{}) string {
	panic(trErr{fmt.Sprintf(f, a...)})
}

func (t *Tr) tmp(p string) string {
	t.tmpN++
	return fmt.Sprintf("%s__%d", p, t.tmpN)
}

func (t *Tr) line(f string, a ...interface{}) {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	t.b.WriteString(strings.Repeat("    ", t.ind))
	t.b.WriteString(s)
	t.b.WriteString("\n")
}

func (t *Tr) raw(s string) {
	if s == "" {
		return
	}
	s = t.macro(s)
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		t.b.WriteString(strings.Repeat("    ", t.ind))
		t.b.WriteString(strings.TrimPrefix(l, "  "))
		t.b.WriteString("\n")
	}
}

var macroRe = regexp.MustCompile(`\$(idx[0-9]+|[0-9]+|[A-Za-z_][A-Za-z0-9_]*)`)

func (t *Tr) macro(s string) string {
	return macroRe.ReplaceAllStringFunc(s, func(m string) string {
		n := m[1:]
		if strings.HasPrefix(n, "idx") {
			if k, err := strconv.Atoi(n[3:]); err == nil {
				if v := t.idxName[k]; v != "" {
					return v
				}
				return n
			}
		}
		return t.accessor(n, "ret")
	})
}

func (t *Tr) components() (names []string, tys []string) {
	for i, r := range t.sig.res {
		n := r.Name()
		if n == "" || n == "_" {
			n = strconv.Itoa(i)
		}
		names = append(names, n)
		tys = append(tys, t.g.rt(r.Type()))
	}
	for i, p := range t.sig.params {
		if t.sig.inout[i] {
			names = append(names, t.varName(p))
			tys = append(tys, t.g.rt(p.Type()))
		}
	}
	for _, h := range t.sig.heapsW() {
		names = append(names, "h_"+strings.Split(h, ".")[1])
		tys = append(tys, "Hp<"+rname(h)+">")
	}
	return
}

func (t *Tr) accessor(n, base string) string {
	names, _ := t.components()
	if n == "ret" {
		return base
	}
	for i, x := range names {
		if x == n || (i < len(t.sig.res) && strconv.Itoa(i) == n) {
			if len(names) == 1 {
				return base
			}
			return fmt.Sprintf("%s.%d", base, i)
		}
	}
	// interface/implementation parameter names may differ: allow positional $pN
	if strings.HasPrefix(n, "p") {
		if k, err := strconv.Atoi(n[1:]); err == nil && k < len(t.sig.params) {
			return rid(t.sig.params[k].Name())
		}
	}
	return t.fail("contract refers to unknown result $%s", n)
}

func tupT(tys []string) string {
	switch len(tys) {
	case 0:
		return "()"
	case 1:
		return tys[0]
	}
	return "(" + strings.Join(tys, ", ") + ")"
}

func tupE(es []string) string {
	switch len(es) {
	case 0:
		return "()"
	case 1:
		return es[0]
	}
	return "(" + strings.Join(es, ", ") + ")"
}

func errCode(name string) string {
	h := fnv.New32a()
	h.Write([]byte(name))
	return fmt.Sprintf("Err::E(%di64)", 1+int64(h.Sum32()))
}

// ---------- expressions ----------

func (t *Tr) typ(e ast.Expr) types.Type { return t.p.info.TypeOf(e) }

func bytesLit(s string) string {
	if s == "" {
		return "str_empty()"
	}
	r := "Seq::<u8>::empty()"
	for i := 0; i < len(s); i++ {
		r += fmt.Sprintf(".push(%du8)", s[i])
	}
	return "str_lit(Ghost(" + r + "))"
}

func (t *Tr) constVal(v constant.Value, ty types.Type) string {
	r := t.g.rt(ty)
	switch v.Kind() {
	case constant.String:
		return bytesLit(constant.StringVal(v))
	case constant.Bool:
		return v.String()
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			if i < 0 {
				return fmt.Sprintf("(%d%s)", i, r)
			}
			return fmt.Sprintf("%d%s", i, r)
		}
		return v.ExactString() + r
	case constant.Float:
		if iv := constant.ToInt(v); iv.Kind() == constant.Int {
			return t.constVal(iv, ty)
		}
	}
	return t.fail("constant %s", v)
}

// conv converts the value text of expression e to the target type.
func (t *Tr) conv(e ast.Expr, target types.Type) string {
	if target == nil {
		return t.ex(e)
	}
	src := t.typ(e)
	tv := t.p.info.Types[e]
	if tv.IsNil() {
		return t.g.zero(target)
	}
	if isIface(target) && src != nil && !isIface(src) {
		return t.toIface(t.ex(e), src, target, e)
	}
	return t.ex(e)
}

func (t *Tr) toIface(v string, src, target types.Type, e ast.Expr) string {
	if t.g.rt(target) == "Err" {
		return errCode(typeKeyOrPtr(src))
	}
	ii := t.g.ifaceOf(target)
	if ii == nil {
		return t.fail("conversion of %s to interface %s", src, target)
	}
	for ii.base != nil {
		ii = ii.base
	}
	for _, vr := range ii.impls {
		if types.Identical(vr.goType, src) {
			return ii.enum + "::" + vr.name + "(" + v + ")"
		}
	}
	return t.fail("%s is not a known implementation of %s", src, target)
}

func typeKeyOrPtr(ty types.Type) string {
	if p, ok := ty.(*types.Pointer); ok {
		ty = p.Elem()
	}
	return typeKey(ty)
}

func (t *Tr) varName(o types.Object) string {
	if n, ok := t.rename[o]; ok {
		return n
	}
	return rid(o.Name())
}

func (t *Tr) ident(x *ast.Ident) string {
	o := t.p.info.Uses[x]
	if o == nil {
		o = t.p.info.Defs[x]
	}
	switch o := o.(type) {
	case *types.Var:
		if o.Parent() == o.Pkg().Scope() || (o.Pkg() != nil && t.isPkgVar(o)) {
			return t.pkgVar(o)
		}
		return t.varName(o)
	case *types.Nil:
		return t.fail("nil without a target type")
	}
	return t.fail("identifier %s", x.Name)
}

func (t *Tr) isPkgVar(o *types.Var) bool {
	return o.Pkg() != nil && o.Parent() == o.Pkg().Scope()
}

func (t *Tr) pkgVar(o *types.Var) string {
	if t.g.rt(o.Type()) == "Err" {
		return errCode(o.Pkg().Name() + "." + o.Name())
	}
	init, ok := t.g.m.vars[o]
	if !ok || t.g.m.wvars[o] {
		return t.fail("package variable %s", o.Name())
	}
	save := t.p
	t.p = t.g.m.varPk[o]
	defer func() { t.p = save }()
	return t.conv(init, o.Type())
}

func (t *Tr) ex(e ast.Expr) string {
	if tv, ok := t.p.info.Types[e]; ok && tv.Value != nil {
		return t.constVal(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + t.ex(x.X) + ")"
	case *ast.Ident:
		return t.ident(x)
	case *ast.BasicLit:
		return t.fail("literal %s", x.Value)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return t.place(e).read()
	case *ast.SliceExpr:
		return t.slice(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if cl, ok := ast.Unparen(x.X).(*ast.CompositeLit); ok {
				return t.wrapPtr(t.compLit(cl), t.typ(x))
			}
			k, _ := t.g.ptrKind(t.typ(x))
			if k == ptrHeap {
				return t.fail("address of a variable of a heap type")
			}
			return t.wrapPtr(t.ex(x.X), t.typ(x))
		case token.NOT:
			return "!(" + t.ex(x.X) + ")"
		case token.SUB:
			return "(-" + t.ex(x.X) + ")"
		case token.ADD:
			return t.ex(x.X)
		case token.XOR:
			return "(!" + t.ex(x.X) + ")"
		}
		return t.fail("unary %s", x.Op)
	case *ast.BinaryExpr:
		return t.binary(x)
	case *ast.CallExpr:
		return t.callValue(x)
	case *ast.CompositeLit:
		return t.compLit(x)
	case *ast.TypeAssertExpr:
		v := t.ex(x.X)
		return t.assertTo(v, t.typ(x.X), t.typ(x))
	}
	return t.fail("expression %T", e)
}

// wrapPtr turns a pointed-to value into the representation of the pointer.
func (t *Tr) wrapPtr(v string, pt types.Type) string {
	k, el := t.g.ptrKind(pt)
	switch k {
	case ptrHeap:
		h := t.heapVar(typeKey(el))
		x := t.tmp("nw")
		return fmt.Sprintf("{ let %s = hp_new(%s, %s); %s = %s.1; %s.0 }", x, h, v, h, x, x)
	case ptrNullable:
		return "pt_some(" + v + ")"
	}
	return v
}

func (t *Tr) heapVar(key string) string { return "h_" + strings.Split(key, ".")[1] }

func (t *Tr) assertTo(v string, src, dst types.Type) string {
	ii := t.g.ifaceOf(src)
	if ii == nil {
		return t.fail("type assertion on %s", src)
	}
	root := ii
	for root.base != nil {
		root = root.base
	}
	if di := t.g.ifaceOf(dst); di != nil {
		var pats []string
		for _, vr := range di.impls {
			pats = append(pats, root.enum+"::"+vr.name+"(_)")
		}
		if len(pats) == 0 {
			return t.fail("assertion to %s", dst)
		}
		x := t.tmp("ta")
		return fmt.Sprintf("{ let %s = %s; match %s { %s => %s, _ => go_panic() } }", x, v, x, strings.Join(pats, " | "), x)
	}
	for _, vr := range root.impls {
		if types.Identical(vr.goType, dst) {
			return fmt.Sprintf("(match %s { %s::%s(ta_v) => ta_v, _ => go_panic() })", v, root.enum, vr.name)
		}
	}
	return t.fail("assertion to %s", dst)
}

// place is a readable, writable location.
type place struct {
	read  func() string
	store func(val string) string
	path  string // non-empty: a plain Rust place
}

func (t *Tr) derefPlace(p place, ty types.Type) (place, types.Type) {
	k, el := t.g.ptrKind(ty)
	switch k {
	case ptrHeap:
		h := t.heapVar(typeKey(el))
		ref := p.read
		return place{
			read:  func() string { return fmt.Sprintf("hp_get(%s, %s)", h, ref()) },
			store: func(v string) string { return fmt.Sprintf("%s = hp_set(%s, %s, %s);", h, h, ref(), v) },
		}, el
	case ptrNullable:
		r, s := p.read, p.store
		return place{
			read:  func() string { return "pt_get(" + r() + ")" },
			store: func(v string) string { return s("pt_some(" + v + ")") },
		}, el
	case ptrPlain:
		return p, el
	}
	return p, ty
}

func (t *Tr) fieldPlace(b place, f *types.Var) place {
	fn := rid(f.Name())
	pl := place{read: func() string { return b.read() + "." + fn }}
	if b.path != "" {
		pl.path = b.path + "." + fn
		pl.store = func(v string) string { return pl.path + " = " + v + ";" }
		return pl
	}
	pl.store = func(v string) string {
		w := t.tmp("w")
		nv := t.tmp("nv")
		return fmt.Sprintf("let %s = %s; let mut %s = %s; %s.%s = %s; %s", nv, v, w, b.read(), w, fn, nv, b.store(w))
	}
	return pl
}

// fieldPath walks a selection's index path from base.
func (t *Tr) walk(b place, ty types.Type, index []int) (place, types.Type) {
	for _, i := range index {
		b, ty = t.derefPlace(b, ty)
		st, ok := types.Unalias(ty).Underlying().(*types.Struct)
		if !ok {
			t.fail("field of %s", ty)
		}
		f := st.Field(i)
		b = t.fieldPlace(b, f)
		ty = f.Type()
	}
	return b, ty
}

func (t *Tr) place(e ast.Expr) place {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.place(x.X)
	case *ast.Ident:
		o := t.p.info.Uses[x]
		if o == nil {
			o = t.p.info.Defs[x]
		}
		n := t.ident(x)
		if a, ok := t.alias[o]; ok {
			return place{read: func() string { return n }, store: func(v string) string {
				return fmt.Sprintf("%s = %s; %s", n, v, a(n))
			}}
		}
		if v, ok := o.(*types.Var); ok && t.isPkgVar(v) {
			return place{read: func() string { return n }, store: func(v string) string { return t.fail("store to a package variable") }}
		}
		return place{read: func() string { return n }, store: func(v string) string { return n + " = " + v + ";" }, path: n}
	case *ast.SelectorExpr:
		s := t.p.info.Selections[x]
		if s == nil {
			// package qualified
			o := t.p.info.Uses[x.Sel]
			if v, ok := o.(*types.Var); ok {
				n := ""
				if t.g.rt(v.Type()) == "Err" {
					n = errCode(v.Pkg().Name() + "." + v.Name())
				} else if t.g.m.pkgs[v.Pkg().Path()] != nil {
					n = t.pkgVar(v)
				} else {
					t.fail("external variable %s", v.Name())
				}
				return place{read: func() string { return n }, store: func(string) string { return t.fail("store to a package variable") }}
			}
			t.fail("selector %s", x.Sel.Name)
		}
		if s.Kind() != types.FieldVal {
			t.fail("method value %s", x.Sel.Name)
		}
		b := t.place(x.X)
		b, _ = t.walk(b, t.typ(x.X), s.Index())
		return b
	case *ast.StarExpr:
		b, _ := t.derefPlace(t.place(x.X), t.typ(x.X))
		return b
	case *ast.IndexExpr:
		bt := t.typ(x.X)
		b := t.place(x.X)
		b, bt = t.derefPlace(b, bt)
		switch u := types.Unalias(bt).Underlying().(type) {
		case *types.Slice, *types.Array:
			pre := "sl"
			if _, ok := u.(*types.Array); ok {
				pre = "ar"
			}
			ix := t.index(x.Index)
			return place{
				read:  func() string { return fmt.Sprintf("%s_get(%s, %s)", pre, b.read(), ix) },
				store: func(v string) string { return b.store(fmt.Sprintf("%s_set(%s, %s, %s)", pre, b.read(), ix, v)) },
			}
		case *types.Map:
			ix := t.conv(x.Index, u.Key())
			z := t.g.zero(u.Elem())
			return place{
				read: func() string { return fmt.Sprintf("mp_idx(%s, %s, %s)", b.read(), ix, z) },
				store: func(v string) string {
					return b.store(fmt.Sprintf("mp_set(%s, %s, %s)", b.read(), ix, v))
				},
			}
		case *types.Basic:
			ix := t.index(x.Index)
			return place{read: func() string { return fmt.Sprintf("str_at(%s, %s)", b.read(), ix) }, store: func(string) string { return t.fail("store into a string") }}
		}
		t.fail("index of %s", bt)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, ok := ast.Unparen(x.X).(*ast.CompositeLit); !ok {
				return t.place(x.X)
			}
		}
	case *ast.SliceExpr:
		if _, ok := types.Unalias(t.typ(x.X)).Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
			b := t.place(x.X)
			return place{read: func() string { return t.slice(x) }, store: func(v string) string { return b.store("ar_from_sl(" + v + ")") }}
		}
		if _, ok := types.Unalias(t.typ(x.X)).Underlying().(*types.Slice); ok && !x.Slice3 && !hasCall(x.Low) && !hasCall(x.High) {
			// the callee writes elements: put them back
			b := t.place(x.X)
			return place{read: func() string { return t.slice(x) }, store: func(v string) string {
				r := v
				if x.Low != nil {
					r = fmt.Sprintf("sl_cat(sl_to(%s, %s), %s)", b.read(), t.index(x.Low), r)
				}
				if x.High != nil {
					r = fmt.Sprintf("sl_cat(%s, sl_from(%s, %s))", r, b.read(), t.index(x.High))
				}
				return b.store(r)
			}}
		}
	case *ast.CompositeLit:
		// a temporary: what the callee writes is lost
		v := t.ex(x)
		return place{read: func() string { return v }, store: func(nv string) string { return "let _ = " + nv + ";" }}
	case *ast.TypeAssertExpr:
		v := t.ex(x)
		b := t.place(x.X)
		return place{read: func() string { return v }, store: func(nv string) string {
			return b.store(t.toIface(nv, t.typ(x), t.typ(x.X), nil))
		}}
	}
	v := t.ex(e)
	return place{read: func() string { return v }, store: func(string) string { return t.fail("store to a %T", e) }}
}

func (t *Tr) index(e ast.Expr) string {
	s := t.ex(e)
	if r := t.g.rt(t.typ(e)); r != "i64" {
		return "(" + s + " as i64)"
	}
	return s
}

func (t *Tr) slice(x *ast.SliceExpr) string {
	if x.Slice3 {
		return t.fail("full slice expression")
	}
	ty := t.typ(x.X)
	b, ty := t.derefPlace(t.place(x.X), ty)
	v := b.read()
	pre := "str"
	switch types.Unalias(ty).Underlying().(type) {
	case *types.Slice:
		pre = "sl"
	case *types.Array:
		v = "ar_to_sl(" + v + ")"
		pre = "sl"
	}
	switch {
	case x.Low == nil && x.High == nil:
		return v
	case x.Low == nil:
		return fmt.Sprintf("%s_to(%s, %s)", pre, v, t.index(x.High))
	case x.High == nil:
		return fmt.Sprintf("%s_from(%s, %s)", pre, v, t.index(x.Low))
	}
	return fmt.Sprintf("%s_sub(%s, %s, %s)", pre, v, t.index(x.Low), t.index(x.High))
}

func (t *Tr) binary(x *ast.BinaryExpr) string {
	if x.Op == token.LAND || x.Op == token.LOR {
		return "(" + t.ex(x.X) + " " + x.Op.String() + " " + t.ex(x.Y) + ")"
	}
	lt, rt := t.typ(x.X), t.typ(x.Y)
	if x.Op == token.EQL || x.Op == token.NEQ {
		neg := ""
		if x.Op == token.NEQ {
			neg = "!"
		}
		ln, rn := t.p.info.Types[x.X].IsNil(), t.p.info.Types[x.Y].IsNil()
		if ln || rn {
			a, at := x.X, lt
			if ln {
				a, at = x.Y, rt
			}
			r := t.g.rt(at)
			v := t.ex(a)
			switch {
			case r == "Err":
				return fmt.Sprintf("(%serr_is_nil(%s))", neg, v)
			case r == "Ref":
				return fmt.Sprintf("(%s(%s == 0u64))", neg, v)
			case strings.HasPrefix(r, "Pt<"):
				return fmt.Sprintf("(%spt_is_nil(%s))", neg, v)
			case strings.HasPrefix(r, "Sl<"):
				return fmt.Sprintf("(%ssl_is_nil(%s))", neg, v)
			case strings.HasPrefix(r, "Mp<"):
				return fmt.Sprintf("(%smp_is_nil(%s))", neg, v)
			case t.g.ifaceOf(at) != nil:
				return fmt.Sprintf("(%s(match %s { %s::Nil => true, _ => false }))", neg, v, r)
			case isPtr(at):
				t.g.assume["a pointer of type "+at.String()+" is never nil where it is compared with nil"] = true
				return fmt.Sprintf("(%sfalse)", neg)
			}
			return t.fail("comparison of %s with nil", at)
		}
		// an interface value and a value which is no pointer
		if t.g.ifaceOf(lt) != nil && !isIface(rt) && !isPtr(rt) {
			return fmt.Sprintf("(%sgo_eq(%s, %s))", neg, t.ex(x.X), t.conv(x.Y, lt))
		}
		if t.g.ifaceOf(rt) != nil && !isIface(lt) && !isPtr(lt) {
			return fmt.Sprintf("(%sgo_eq(%s, %s))", neg, t.conv(x.X, rt), t.ex(x.Y))
		}
		r := t.g.rt(lt)
		if isIface(lt) && !isIface(rt) {
			r = t.g.rt(rt)
		}
		switch r {
		case "i64", "u8", "i32", "u32", "i8", "u64", "u16", "i16", "bool", "Ref":
			return fmt.Sprintf("(%s %s %s)", t.ex(x.X), x.Op, t.ex(x.Y))
		case "Str":
			if cv := t.p.info.Types[x.Y].Value; cv != nil && constant.StringVal(cv) == "" {
				return fmt.Sprintf("(str_len(%s) %s 0)", t.ex(x.X), x.Op)
			}
			if cv := t.p.info.Types[x.X].Value; cv != nil && constant.StringVal(cv) == "" {
				return fmt.Sprintf("(str_len(%s) %s 0)", t.ex(x.Y), x.Op)
			}
			return fmt.Sprintf("(%sgo_eq(%s, %s))", neg, t.ex(x.X), t.ex(x.Y))
		}
		if isIface(lt) && t.g.ifaceOf(lt) != nil {
			return t.fail("comparison of interface values")
		}
		if isPtr(lt) {
			return t.fail("comparison of pointers")
		}
		return fmt.Sprintf("(%sgo_eq(%s, %s))", neg, t.ex(x.X), t.ex(x.Y))
	}
	return t.arith(x.Op, t.ex(x.X), t.ex(x.Y), lt, rt, t.typ(x))
}

func isPtr(ty types.Type) bool {
	_, ok := types.Unalias(ty).Underlying().(*types.Pointer)
	return ok
}

func (t *Tr) arith(op token.Token, a, b string, lt, rt, res types.Type) string {
	r := t.g.rt(lt)
	if r == "Str" {
		switch op {
		case token.ADD:
			return fmt.Sprintf("str_cat(%s, %s)", a, b)
		case token.LSS:
			return fmt.Sprintf("str_lt(%s, %s)", a, b)
		case token.GTR:
			return fmt.Sprintf("str_lt(%s, %s)", b, a)
		case token.LEQ:
			return fmt.Sprintf("(!str_lt(%s, %s))", b, a)
		case token.GEQ:
			return fmt.Sprintf("(!str_lt(%s, %s))", a, b)
		}
		return t.fail("string operator %s", op)
	}
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	case token.ADD, token.SUB, token.MUL:
		if t.math && r == "i64" {
			return fmt.Sprintf("%s(%s, %s)", map[token.Token]string{token.ADD: "m_add", token.SUB: "m_sub", token.MUL: "m_mul"}[op], a, b)
		}
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	case token.QUO, token.REM:
		if r[0] == 'i' {
			f := "i_div"
			if op == token.REM {
				f = "i_rem"
			}
			return fmt.Sprintf("%s_%s(%s, %s)", f, r, a, b)
		}
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	case token.AND, token.OR, token.XOR:
		return fmt.Sprintf("(%s %s %s)", a, op, b)
	case token.AND_NOT:
		return fmt.Sprintf("(%s & !%s)", a, b)
	case token.SHL, token.SHR:
		o := "<<"
		if op == token.SHR {
			o = ">>"
		}
		return fmt.Sprintf("(%s %s (%s as u32))", a, o, b)
	}
	return t.fail("operator %s", op)
}

func (t *Tr) compLit(x *ast.CompositeLit) string {
	ty := t.typ(x)
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Struct:
		if t.g.rt(ty) == "()" {
			return "()"
		}
		if len(x.Elts) == 0 {
			return t.g.zero(ty)
		}
		vals := map[string]string{}
		for i, e := range x.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == n {
						vals[n] = t.conv(kv.Value, u.Field(j).Type())
					}
				}
			} else {
				vals[u.Field(i).Name()] = t.conv(e, u.Field(i).Type())
			}
		}
		var fs []string
		for j := 0; j < u.NumFields(); j++ {
			n := u.Field(j).Name()
			v, ok := vals[n]
			if !ok {
				v = t.g.zero(u.Field(j).Type())
			}
			fs = append(fs, rid(n)+": "+v)
		}
		return t.g.rt(ty) + " { " + strings.Join(fs, ", ") + " }"
	case *types.Slice:
		v := "sl_empty()"
		for _, e := range x.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return t.fail("keyed slice literal")
			}
			var ev string
			if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
				ev = t.compLitElem(cl, u.Elem())
			} else {
				ev = t.conv(e, u.Elem())
			}
			v = fmt.Sprintf("sl_push(%s, %s)", v, ev)
		}
		return v
	case *types.Map:
		if len(x.Elts) == 0 {
			return "mp_new()"
		}
	case *types.Array:
		if len(x.Elts) == 0 {
			return t.g.zero(ty)
		}
	}
	return t.fail("composite literal of %s", ty)
}

func (t *Tr) compLitElem(cl *ast.CompositeLit, el types.Type) string {
	if isPtr(el) {
		return t.wrapPtr(t.compLit(cl), el)
	}
	return t.compLit(cl)
}

// ---------- calls ----------

// pieces translates a call into a prefix (statements) and its result values.
func (t *Tr) pieces(c *ast.CallExpr) (pre string, vals []string) {
	if tv, ok := t.p.info.Types[c.Fun]; ok && tv.IsType() {
		return "", []string{t.conversion(c, tv.Type)}
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if b, ok := t.p.info.Uses[id].(*types.Builtin); ok {
			return t.builtin(c, b.Name())
		}
	}
	o, sel := t.g.callee(t.p, c)
	if o == nil {
		t.fail("call of a function value")
	}
	if sel != nil && isBuilder(t.typ(sel.X)) {
		return t.builderCall(c, o, sel)
	}
	if sel != nil && isSink(t.typ(sel.X)) {
		pl := t.place(sel.X)
		var as []string
		for i, a := range c.Args {
			as = append(as, t.conv(a, o.Type().(*types.Signature).Params().At(i).Type()))
		}
		return pl.store(fmt.Sprintf("st_%s(%s)", strings.ToLower(o.Name()), strings.Join(append([]string{pl.read()}, as...), ", "))), nil
	}
	sg := o.Type().(*types.Signature)
	key := funcKey(o)
	inModule := o.Pkg() != nil && t.g.m.pkgs[o.Pkg().Path()] != nil
	if !inModule {
		return t.stdCall(c, o, sel, key)
	}
	t.hint(key)
	sig := t.g.sigOf(o)
	fname := rname(key)
	if isIfaceMethod(o) {
		// dispatch
		ii := t.g.ifaceByMethod(o, t.recvIface(sel))
		if ii == nil {
			t.fail("method %s of an unknown interface", o.Name())
		}
		key = ii.key + "." + o.Name()
		fname = rname(key)
		t.g.need("dispatch:" + key)
	} else if !t.g.inlinable(key) {
		t.g.need(key)
	}
	if inst, ok := t.instance(c); ok {
		fname += "_" + inst
		t.fail("generic function %s", key)
	}
	var args []string
	type sb struct {
		pl  place
		idx int
	}
	var backs []sb
	params := sig.params
	ai := 0
	for i := range params {
		var pl place
		var v string
		if i == 0 && sig.recv {
			rt := t.typ(sel.X)
			s := t.p.info.Selections[sel]
			ix := s.Index()
			pl = t.place(sel.X)
			pl, rt = t.walk(pl, rt, ix[:len(ix)-1])
			// adapt: method on value vs pointer
			pk, _ := t.g.ptrKind(params[0].Type())
			rk, _ := t.g.ptrKind(rt)
			if isIfaceMethod(o) {
				v = pl.read()
			} else if pk == notPtr && rk != notPtr {
				pl, _ = t.derefPlace(pl, rt)
				v = pl.read()
			} else if pk == ptrHeap {
				if rk != ptrHeap {
					t.fail("method %s on a non-pointer heap value", key)
				}
				v = pl.read()
			} else if pk == ptrNullable && rk == notPtr {
				vp := pl
				pl = place{
					read:  func() string { return "pt_some(" + vp.read() + ")" },
					store: func(v string) string { return vp.store("pt_get(" + v + ")") },
				}
				v = pl.read()
			} else {
				v = pl.read()
			}
		} else {
			pt := params[i].Type()
			if sg.Variadic() && i == len(params)-1 {
				if c.Ellipsis.IsValid() {
					v = t.ex(c.Args[ai])
					pl = place{}
				} else {
					v = "sl_empty()"
					el := pt.(*types.Slice).Elem()
					for ; ai < len(c.Args); ai++ {
						v = fmt.Sprintf("sl_push(%s, %s)", v, t.conv(c.Args[ai], el))
					}
				}
			} else {
				a := c.Args[ai]
				ai++
				if sig.inout[i] {
					pl = t.place(a)
					v = pl.read()
				} else {
					v = t.conv(a, pt)
				}
			}
		}
		args = append(args, v)
		if sig.inout[i] {
			backs = append(backs, sb{pl, i})
		}
	}
	for _, h := range sig.heapsR() {
		args = append(args, t.heapVar(h))
	}
	nres := len(sig.res)
	ncomp := nres + len(backs) + len(sig.heapsW())
	call := ""
	if !isIfaceMethod(o) && t.g.inlinable(key) {
		call = t.inline(t.g.m.funcs[key], args)
	} else {
		call = fname + "(" + strings.Join(args, ", ") + ")"
	}
	if ncomp == 1 && nres == 1 {
		return "", []string{call}
	}
	x := t.tmp("c")
	pre = fmt.Sprintf("let %s = %s;", x, call)
	acc := func(i int) string {
		if ncomp == 1 {
			return x
		}
		return fmt.Sprintf("%s.%d", x, i)
	}
	for i := 0; i < nres; i++ {
		vals = append(vals, acc(i))
	}
	for i, b := range backs {
		pre += " " + b.pl.store(acc(nres+i))
	}
	for i, h := range sig.heapsW() {
		pre += fmt.Sprintf(" %s = %s;", t.heapVar(h), acc(nres+len(backs)+i))
	}
	return
}

func (t *Tr) recvIface(sel *ast.SelectorExpr) types.Type {
	ty := t.typ(sel.X)
	s := t.p.info.Selections[sel]
	ix := s.Index()
	for _, i := range ix[:len(ix)-1] {
		if p, ok := types.Unalias(ty).Underlying().(*types.Pointer); ok {
			ty = p.Elem()
		}
		ty = types.Unalias(ty).Underlying().(*types.Struct).Field(i).Type()
	}
	return ty
}

func (g *Gen) ifaceByMethod(o *types.Func, rt types.Type) *ifaceInfo {
	// the declaring interface
	for _, ii := range g.ifaces {
		for i := 0; i < ii.iface.NumExplicitMethods(); i++ {
			if ii.iface.ExplicitMethod(i) == o {
				return ii
			}
		}
	}
	return g.ifaceOf(rt)
}

func (t *Tr) instance(c *ast.CallExpr) (string, bool) {
	fun := ast.Unparen(c.Fun)
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	var id *ast.Ident
	switch f := fun.(type) {
	case *ast.Ident:
		id = f
	case *ast.SelectorExpr:
		id = f.Sel
	}
	if id == nil {
		return "", false
	}
	in, ok := t.p.info.Instances[id]
	if !ok {
		return "", false
	}
	var s []string
	for i := 0; i < in.TypeArgs.Len(); i++ {
		s = append(s, regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(t.g.rt(in.TypeArgs.At(i)), "_"))
	}
	return strings.Join(s, "_"), true
}

func (t *Tr) callValue(c *ast.CallExpr) string {
	if g, ok := t.genericCall(c); ok {
		return g
	}
	pre, vals := t.pieces(c)
	if len(vals) != 1 {
		if len(vals) == 0 {
			t.fail("call without a value used as a value")
		}
		return "{ " + pre + " " + tupE(vals) + " }"
	}
	if pre == "" {
		return vals[0]
	}
	return "{ " + pre + " " + vals[0] + " }"
}

// genericCall: small generic helpers of the module are monomorphised by the
// generic Rust functions they translate to.
func (t *Tr) genericCall(c *ast.CallExpr) (string, bool) {
	o, _ := t.g.callee(t.p, c)
	if o == nil {
		return "", false
	}
	if _, ok := t.instance(c); !ok {
		return "", false
	}
	if o.Pkg() == nil || t.g.m.pkgs[o.Pkg().Path()] == nil {
		return "", false
	}
	key := funcKey(o)
	t.hint(key)
	t.g.need(key)
	var args []string
	for i, a := range c.Args {
		args = append(args, t.conv(a, o.Type().(*types.Signature).Params().At(i).Type()))
	}
	return rname(key) + "(" + strings.Join(args, ", ") + ")", true
}

func (t *Tr) hint(key string) {
	t.calls[key]++
	if t.c == nil || t.depth > 0 {
		return
	}
	k := fmt.Sprintf("%s#%d", key, t.calls[key])
	if s := t.c.callsB[k]; s != "" {
		t.befores = append(t.befores, s)
	}
	if s := t.c.callsA[k]; s != "" {
		t.afters = append(t.afters, s)
	}
}

func (t *Tr) conversion(c *ast.CallExpr, target types.Type) string {
	a := c.Args[0]
	src := t.typ(a)
	sr, tr := t.g.rt(src), t.g.rt(target)
	if isIface(target) && !isIface(src) {
		return t.conv(a, target)
	}
	if t.p.info.Types[a].IsNil() {
		return t.g.zero(target)
	}
	v := t.ex(a)
	if sr == tr {
		return v
	}
	num := func(s string) bool {
		switch s {
		case "i64", "u8", "i32", "u32", "i8", "u64", "u16", "i16":
			return true
		}
		return false
	}
	switch {
	case num(sr) && num(tr):
		return fmt.Sprintf("(%s as %s)", v, tr)
	case tr == "Str" && sr == "Sl<u8>":
		return "str_of_sl(" + v + ")"
	case tr == "Str" && num(sr):
		return "str_of_rune(" + v + " as i32)"
	case tr == "Sl<u8>" && sr == "Str":
		return "sl_of_str(" + v + ")"
	}
	return t.fail("conversion %s to %s", src, target)
}

func (t *Tr) builtin(c *ast.CallExpr, name string) (string, []string) {
	switch name {
	case "len":
		ty := t.typ(c.Args[0])
		b, ty := t.derefPlace(t.place(c.Args[0]), ty)
		v := b.read()
		switch u := types.Unalias(ty).Underlying().(type) {
		case *types.Basic:
			return "", []string{"str_len(" + v + ")"}
		case *types.Slice:
			return "", []string{"sl_len(" + v + ")"}
		case *types.Map:
			return "", []string{"mp_len(" + v + ")"}
		case *types.Array:
			return "", []string{fmt.Sprintf("%di64", u.Len())}
		}
	case "cap":
		return "", []string{"sl_cap(" + t.ex(c.Args[0]) + ")"}
	case "append":
		st := types.Unalias(t.typ(c)).Underlying().(*types.Slice)
		v := t.conv(c.Args[0], t.typ(c))
		if c.Ellipsis.IsValid() {
			at := t.typ(c.Args[1])
			a := t.ex(c.Args[1])
			if t.g.rt(at) == "Str" {
				a = "sl_of_str(" + a + ")"
			}
			return "", []string{fmt.Sprintf("sl_cat(%s, %s)", v, a)}
		}
		for _, a := range c.Args[1:] {
			v = fmt.Sprintf("sl_push(%s, %s)", v, t.conv(a, st.Elem()))
		}
		return "", []string{v}
	case "make":
		ty := t.typ(c)
		switch u := types.Unalias(ty).Underlying().(type) {
		case *types.Map:
			return "", []string{"mp_new()"}
		case *types.Slice:
			n := t.index(c.Args[1])
			if len(c.Args) == 3 {
				return "", []string{fmt.Sprintf("sl_make_cap(%s, %s, %s)", n, t.index(c.Args[2]), t.g.zero(u.Elem()))}
			}
			return "", []string{fmt.Sprintf("sl_make(%s, %s)", n, t.g.zero(u.Elem()))}
		}
	case "new":
		pt := t.typ(c)
		return "", []string{t.wrapPtr(t.g.zero(pt.(*types.Pointer).Elem()), pt)}
	case "delete":
		pl := t.place(c.Args[0])
		mt := types.Unalias(t.typ(c.Args[0])).Underlying().(*types.Map)
		return pl.store(fmt.Sprintf("mp_del(%s, %s)", pl.read(), t.conv(c.Args[1], mt.Key()))), nil
	case "copy":
		pl := t.place(c.Args[0])
		a := t.ex(c.Args[1])
		if t.g.rt(t.typ(c.Args[1])) == "Str" {
			a = "sl_of_str(" + a + ")"
		}
		x := t.tmp("cp")
		return fmt.Sprintf("let %s = sl_copy(%s, %s); %s", x, pl.read(), a, pl.store(x+".0")), []string{x + ".1"}
	case "panic":
		return "", []string{"go_panic::<()>()"}
	case "min", "max":
		v := t.ex(c.Args[0])
		for _, a := range c.Args[1:] {
			v = fmt.Sprintf("i_%s(%s, %s)", name, v, t.ex(a))
		}
		return "", []string{v}
	}
	t.fail("builtin %s", name)
	return "", nil
}

func (t *Tr) builderCall(c *ast.CallExpr, o *types.Func, sel *ast.SelectorExpr) (string, []string) {
	pl := t.place(sel.X)
	r := pl.read()
	switch o.Name() {
	case "WriteString":
		a := t.ex(c.Args[0])
		x := t.tmp("ws")
		return fmt.Sprintf("let %s = %s; %s", x, a, pl.store(fmt.Sprintf("str_cat(%s, %s)", r, x))), []string{"str_len(" + x + ")", "Err::Nil"}
	case "WriteByte":
		return pl.store(fmt.Sprintf("str_push(%s, %s)", r, t.ex(c.Args[0]))), []string{"Err::Nil"}
	case "WriteRune":
		x := t.tmp("wr")
		return fmt.Sprintf("let %s = str_of_rune(%s); %s", x, t.ex(c.Args[0]), pl.store(fmt.Sprintf("str_cat(%s, %s)", r, x))), []string{"str_len(" + x + ")", "Err::Nil"}
	case "Grow":
		return fmt.Sprintf("go_grow(%s);", t.ex(c.Args[0])), nil
	case "String":
		return "", []string{r}
	case "Len":
		return "", []string{"str_len(" + r + ")"}
	case "Bytes":
		return "", []string{"sl_of_str(" + r + ")"}
	case "Reset":
		return pl.store("str_empty()"), nil
	}
	t.fail("builder method %s", o.Name())
	return "", nil
}

func (t *Tr) stdCall(c *ast.CallExpr, o *types.Func, sel *ast.SelectorExpr, key string) (string, []string) {
	if key == "errors.New" || key == "fmt.Errorf" {
		return "", []string{"Err::E(1i64)"}
	}
	t.hint(key)
	if key == "sort.Slice" {
		return t.sortSlice(c), nil
	}
	if key == "sort.SliceStable" {
		// the order is not modelled: the result is any permutation
		fl, ok := ast.Unparen(c.Args[1]).(*ast.FuncLit)
		if !ok || len(fl.Body.List) != 1 {
			t.fail("sort.SliceStable with an unknown less")
		}
		if _, ok := fl.Body.List[0].(*ast.ReturnStmt); !ok {
			t.fail("sort.SliceStable with an unknown less")
		}
		t.g.trustedHit[key] = true
		pl := t.place(c.Args[0])
		return pl.store("sort_any(" + pl.read() + ")"), nil
	}
	sg := o.Type().(*types.Signature)
	if key == "sort.Strings" {
		pl := t.place(c.Args[0])
		return pl.store("sort_Strings(" + pl.read() + ")"), nil
	}
	name := rname(key)
	if !t.g.prelude[name] {
		t.fail("call of %s has no contract", key)
	}
	t.g.trustedHit[key] = true
	var args []string
	if sg.Recv() != nil {
		args = append(args, t.ex(sel.X))
	}
	for i, a := range c.Args {
		var pt types.Type
		if i < sg.Params().Len() && !sg.Variadic() {
			pt = sg.Params().At(i).Type()
		}
		args = append(args, t.conv(a, pt))
	}
	call := name + "(" + strings.Join(args, ", ") + ")"
	n := sg.Results().Len()
	if n <= 1 {
		return "", []string{call}
	}
	x := t.tmp("c")
	var vals []string
	for i := 0; i < n; i++ {
		vals = append(vals, fmt.Sprintf("%s.%d", x, i))
	}
	return fmt.Sprintf("let %s = %s;", x, call), vals
}

// sortSlice handles sort.Slice(x, func(i, j int) bool {...}) with a pure less.
func (t *Tr) sortSlice(c *ast.CallExpr) string {
	pl := t.place(c.Args[0])
	fl, ok := ast.Unparen(c.Args[1]).(*ast.FuncLit)
	if !ok {
		t.fail("sort.Slice with a function value")
	}
	el := types.Unalias(t.typ(c.Args[0])).Underlying().(*types.Slice).Elem()
	ps := []string{}
	for _, f := range fl.Type.Params.List {
		for _, n := range f.Names {
			ps = append(ps, n.Name)
		}
	}
	root := rootObj(t.p, c.Args[0])
	sp := &specTr{t: t, subj: root, i: ps[0], j: ps[1]}
	body := sp.stmts(fl.Body.List)
	et := t.g.rt(el)
	t.g.trustedHit["sort.Slice"] = true
	return pl.store(fmt.Sprintf("sort_slice(%s, Ghost(|x_i: %s, x_j: %s| { %s }))", pl.read(), et, et, body))
}

// specTr emits a pure less function as a spec closure over the two elements.
type specTr struct {
	t    *Tr
	subj types.Object
	i, j string
}

func (s *specTr) stmts(l []ast.Stmt) string {
	if len(l) == 0 {
		return s.t.fail("less without a result")
	}
	switch x := l[0].(type) {
	case *ast.ReturnStmt:
		return s.ex(x.Results[0])
	case *ast.IfStmt:
		if x.Init != nil {
			s.t.fail("less with an init statement")
		}
		rest := l[1:]
		var els []ast.Stmt
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			els = append(append([]ast.Stmt{}, e.List...), rest...)
		case *ast.IfStmt:
			els = append([]ast.Stmt{e}, rest...)
		default:
			els = rest
		}
		return fmt.Sprintf("if %s { %s } else { %s }", s.ex(x.Cond), s.stmts(append(append([]ast.Stmt{}, x.Body.List...), rest...)), s.stmts(els))
	case *ast.EmptyStmt:
		return s.stmts(l[1:])
	}
	return s.t.fail("less with a %T", l[0])
}

func (s *specTr) ex(e ast.Expr) string {
	t := s.t
	if tv, ok := t.p.info.Types[e]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.String:
			v := constant.StringVal(tv.Value)
			var bs []string
			for i := 0; i < len(v); i++ {
				bs = append(bs, fmt.Sprintf("%du8", v[i]))
			}
			return "seq![" + strings.Join(bs, ", ") + "]"
		}
		return t.constVal(tv.Value, tv.Type)
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + s.ex(x.X) + ")"
	case *ast.BinaryExpr:
		a, b := s.ex(x.X), s.ex(x.Y)
		if t.g.rt(t.typ(x.X)) == "Str" {
			switch x.Op {
			case token.EQL:
				return fmt.Sprintf("(%s =~= %s)", a, b)
			case token.NEQ:
				return fmt.Sprintf("(!(%s =~= %s))", a, b)
			case token.LSS:
				return fmt.Sprintf("sq_lt(%s, %s)", a, b)
			case token.GTR:
				return fmt.Sprintf("sq_lt(%s, %s)", b, a)
			}
		}
		return fmt.Sprintf("(%s %s %s)", a, x.Op, b)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return "!(" + s.ex(x.X) + ")"
		}
	case *ast.SelectorExpr:
		r := s.raw(x.X) + "." + rid(x.Sel.Name)
		if t.g.rt(t.typ(e)) == "Str" {
			r += "@"
		}
		return r
	case *ast.IndexExpr:
		r := s.raw(x)
		if t.g.rt(t.typ(e)) == "Str" {
			r += "@"
		}
		return r
	}
	return t.fail("less with a %T", e)
}

func (s *specTr) raw(e ast.Expr) string {
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok {
		if id, ok := ix.Index.(*ast.Ident); ok && rootObj(s.t.p, ix.X) == s.subj {
			if id.Name == s.i {
				return "x_i"
			}
			if id.Name == s.j {
				return "x_j"
			}
		}
	}
	if sl, ok := ast.Unparen(e).(*ast.SelectorExpr); ok {
		return s.raw(sl.X) + "." + rid(sl.Sel.Name)
	}
	return s.t.fail("less reads %T", e)
}

func sortStrings(a []string) []string { sort.Strings(a); return a }
