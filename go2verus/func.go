package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func newGen(m *Module, cs *Contracts, prelude map[string]bool) *Gen {
	g := &Gen{m: m, cs: cs, sigs: map[*types.Func]*FnSig{}, structs: map[string]string{}, done: map[string]bool{}, assume: map[string]bool{}, prelude: prelude, errs: map[string]string{}, trustedHit: map[string]bool{}, noStub: map[string]bool{}, inl: map[string]bool{}, inlined: map[string]bool{}}
	g.findIfaces()
	g.analyze()
	return g
}

// findIfaces: the interfaces of the module are closed: their values are the
// implementations declared in the module.
func (g *Gen) findIfaces() {
	var named []*types.Named
	for _, path := range g.m.order {
		sc := g.m.pkgs[path].tpkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams() == nil {
				named = append(named, nt)
			}
		}
	}
	for _, n := range named {
		it, ok := n.Underlying().(*types.Interface)
		if !ok || isSink(n) || it.NumMethods() == 0 {
			continue
		}
		ii := &ifaceInfo{key: typeKey(n), named: n, iface: it, enum: rname(typeKey(n))}
		for _, c := range named {
			if isIface(c) {
				continue
			}
			var ct types.Type = c
			if !types.Implements(c, it) {
				ct = types.NewPointer(c)
				if !types.Implements(ct, it) {
					continue
				}
			}
			vn := c.Obj().Name()
			for _, v := range ii.impls {
				if v.name == vn {
					vn = c.Obj().Pkg().Name() + "_" + vn
				}
			}
			ii.impls = append(ii.impls, variant{name: vn, goType: ct, key: typeKey(c)})
		}
		sort.Slice(ii.impls, func(a, b int) bool { return ii.impls[a].name < ii.impls[b].name })
		g.ifaces = append(g.ifaces, ii)
	}
	// an interface embedding another one uses the enum of the embedded one
	for _, i := range g.ifaces {
		for k := 0; k < i.iface.NumEmbeddeds(); k++ {
			if b := g.ifaceOf(i.iface.EmbeddedType(k)); b != nil && b != i {
				i.base = b
			}
		}
	}
	for _, i := range g.ifaces {
		i.enum = i.root().enum
	}
}

func (g *Gen) enumText(i *ifaceInfo) string {
	var b strings.Builder
	fmt.Fprintf(&b, "#[derive(Clone, Copy)]\npub enum %s {\n    Nil,\n", i.enum)
	for _, v := range i.impls {
		fmt.Fprintf(&b, "    %s(%s),\n", v.name, g.rt(v.goType))
	}
	b.WriteString("}\n")
	return b.String()
}

func (g *Gen) need(key string) {
	if g.done[key] {
		return
	}
	g.done[key] = true
	g.queue = append(g.queue, key)
}

func (g *Gen) run() {
	for len(g.queue) > 0 {
		k := g.queue[0]
		g.queue = g.queue[1:]
		if strings.HasPrefix(k, "dispatch:") {
			g.dispatch(strings.TrimPrefix(k, "dispatch:"))
			continue
		}
		g.function(k)
	}
}

func (t *Tr) argNames() []string {
	var ns []string
	for i, p := range t.sig.params {
		n := rid(p.Name())
		if r, ok := t.rename[p]; ok {
			n = r
		}
		if n == "" || n == "_" {
			n = fmt.Sprintf("up_%d", i)
			t.rename[p] = n
		}
		ns = append(ns, n)
	}
	for _, h := range t.sig.heapsR() {
		ns = append(ns, t.heapVar(h))
	}
	return ns
}

func (t *Tr) argTypes() []string {
	var ts []string
	for _, p := range t.sig.params {
		ts = append(ts, t.g.rt(p.Type()))
	}
	for _, h := range t.sig.heapsR() {
		ts = append(ts, "Hp<"+rname(h)+">")
		t.g.needHeap(h)
	}
	return ts
}

// needHeap makes the struct of a heap type known.
func (g *Gen) needHeap(key string) {
	for _, path := range g.m.order {
		p := g.m.pkgs[path]
		if !strings.HasPrefix(key, p.name+".") {
			continue
		}
		if tn, ok := p.tpkg.Scope().Lookup(strings.TrimPrefix(key, p.name+".")).(*types.TypeName); ok {
			g.rt(tn.Type())
		}
	}
}

func (t *Tr) declResults() {
	t.named = make([]string, len(t.sig.res))
	for i, r := range t.sig.res {
		if r.Name() == "" || r.Name() == "_" {
			t.named[i] = t.g.zero(r.Type())
			continue
		}
		t.named[i] = rid(r.Name())
		t.line("let mut %s: %s = %s;", rid(r.Name()), t.g.rt(r.Type()), t.g.zero(r.Type()))
	}
}

func (t *Tr) head(b *strings.Builder, name, tparams string, c *Contract, mode string) {
	ns, ts := t.argNames(), t.argTypes()
	var ps []string
	for i := range ns {
		ps = append(ps, ns[i]+": "+ts[i])
	}
	_, tys := t.components()
	fmt.Fprintf(b, "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n")
	if mode == "trusted" {
		fmt.Fprintf(b, "#[verifier::external_body]\n")
	} else {
		// a solver of its own: the proof of a function does not depend on what was proved before
		fmt.Fprintf(b, "#[verifier::spinoff_prover]\n")
	}
	if c != nil {
		for o := range c.opts {
			if strings.HasPrefix(o, "rlimit=") {
				fmt.Fprintf(b, "#[verifier::rlimit(%s)]\n", strings.TrimPrefix(o, "rlimit="))
			}
		}
	}
	fmt.Fprintf(b, "pub fn %s%s(%s)", name, tparams, strings.Join(ps, ", "))
	if len(tys) > 0 {
		fmt.Fprintf(b, " -> (ret: %s)", tupT(tys))
	}
	b.WriteString("\n")
	if c != nil {
		for _, cl := range []struct{ k, s string }{{"requires", c.requires}, {"ensures", c.ensures}, {"decreases", c.decreases}} {
			if cl.s == "" || (cl.k == "decreases" && mode == "trusted") {
				continue
			}
			fmt.Fprintf(b, "    %s\n", cl.k)
			for _, l := range strings.Split(strings.TrimRight(t.macro(cl.s), "\n"), "\n") {
				fmt.Fprintf(b, "      %s\n", l)
			}
		}
	}
}

func (g *Gen) newTr(fi *FuncInfo, c *Contract) *Tr {
	return &Tr{g: g, p: fi.pkg, fi: fi, sig: g.sigOf(fi.obj), c: c, b: &strings.Builder{}, calls: map[string]int{}, alias: map[types.Object]func(string) string{}, idxName: map[int]string{}, rename: map[types.Object]string{}, math: c != nil && c.opts["math"]}
}

func (g *Gen) function(key string) {
	fi := g.m.funcs[key]
	c := g.cs.fns[key]
	name := rname(key)
	if fi == nil {
		g.errs[key] = "function not found in the source"
		g.fnOut = append(g.fnOut, fnText{key: key, name: name, mode: "failed"})
		return
	}
	mode := "verified"
	if c != nil && c.opts["trusted"] {
		mode = "trusted"
	}
	tp := ""
	if tps := fi.obj.Type().(*types.Signature).TypeParams(); tps != nil {
		var ns []string
		for i := 0; i < tps.Len(); i++ {
			ns = append(ns, tps.At(i).Obj().Name()+": Copy")
		}
		tp = "<" + strings.Join(ns, ", ") + ">"
	}
	var text string
	err := func() (err string) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(trErr); ok {
					err = e.msg
					return
				}
				err = fmt.Sprint("translator: ", r)
			}
		}()
		var hb strings.Builder
		if mode == "trusted" {
			t := g.newTr(fi, c)
			t.head(&hb, name, tp, c, mode)
			text = hb.String() + "{\n    unimplemented!()\n}\n"
			return ""
		}
		t := g.newTr(fi, c)
		t.ind = 1
		ns := t.argNames()
		for _, n := range ns {
			t.line("let ghost o_%s = %s;", n, n)
			t.line("let mut %s = %s;", n, n)
		}
		t.declResults()
		if c != nil {
			t.raw(c.entry)
			t.probe()
		}
		t.stmts(fi.decl.Body.List)
		if _, tys := t.components(); !terminates(fi.decl.Body.List) {
			if c != nil {
				t.retN++
				if h := c.returns[0] + c.returns[t.retN]; h != "" {
					if len(tys) > 0 {
						var vals []string
						for i := range t.sig.res {
							vals = append(vals, t.named[i])
						}
						t.line("let ret: %s = %s;", tupT(tys), tupE(t.retComponents(vals)))
					}
					t.raw(h)
				}
			}
			if len(tys) > 0 {
				var vals []string
				for i := range t.sig.res {
					vals = append(vals, t.named[i])
				}
				t.line("return %s;", tupE(t.retComponents(vals)))
			}
		}
		if c != nil {
			for n := range c.loops {
				if n > t.loopN {
					t.fail("contract for loop %d, the function has %d loops", n, t.loopN)
				}
			}
			for k := range c.callsB {
				if !t.hasCallHint(k) {
					t.fail("contract hint for call %s which is not in the function", k)
				}
			}
			for k := range c.callsA {
				if !t.hasCallHint(k) {
					t.fail("contract hint for call %s which is not in the function", k)
				}
			}
		}
		th := g.newTr(fi, c)
		th.head(&hb, name, tp, c, mode)
		text = hb.String() + "{\n" + t.b.String() + "}\n"
		return ""
	}()
	if err != "" {
		g.errs[key] = err
		// keep the callers checkable: the contract alone
		func() {
			defer func() { recover() }()
			var hb strings.Builder
			t := g.newTr(fi, c)
			t.head(&hb, name, tp, c, "trusted")
			text = hb.String() + "{\n    unimplemented!()\n}\n"
		}()
		g.fnOut = append(g.fnOut, fnText{key: key, name: name, text: text, mode: "failed"})
		return
	}
	g.fnOut = append(g.fnOut, fnText{key: key, name: name, text: text, mode: mode})
}

func (t *Tr) hasCallHint(k string) bool {
	var n int
	i := strings.LastIndex(k, "#")
	fmt.Sscan(k[i+1:], &n)
	return t.calls[k[:i]] >= n
}

// dispatch emits the method of an interface: a match over the implementations.
func (g *Gen) dispatch(key string) {
	i := strings.LastIndex(key, ".")
	var ii *ifaceInfo
	for _, x := range g.ifaces {
		if x.key == key[:i] {
			ii = x
		}
	}
	var mth *types.Func
	for k := 0; k < ii.iface.NumMethods(); k++ {
		if ii.iface.Method(k).Name() == key[i+1:] {
			mth = ii.iface.Method(k)
		}
	}
	c := g.cs.fns[key]
	sig := g.sigOf(mth)
	name := rname(key)
	var hb strings.Builder
	t := &Tr{g: g, p: g.m.pkgs[mth.Pkg().Path()], sig: sig, c: c, b: &strings.Builder{}, calls: map[string]int{}, alias: map[types.Object]func(string) string{}, idxName: map[int]string{}, rename: map[types.Object]string{}}
	err := func() (err string) {
		defer func() {
			if r := recover(); r != nil {
				if e, ok := r.(trErr); ok {
					err = e.msg
					return
				}
				err = fmt.Sprint("translator: ", r)
			}
		}()
		// the receiver of an interface method has no name
		t.renameRecv()
		t.head(&hb, name, "", c, "dispatch")
		ns := t.argNames()
		t.ind = 1
		for _, n := range ns {
			t.line("let ghost o_%s = %s;", n, n)
		}
		if c != nil {
			t.raw(c.entry)
		}
		t.line("match %s {", ns[0])
		for _, v := range ii.impls {
			im := g.methodImpl(v.goType, mth.Name())
			ik := funcKey(im)
			is := g.sigOf(im)
			g.need(ik)
			// the concrete receiver
			recv := "dv"
			if embedded(v.goType, im) {
				t.fail("promoted method %s", ik)
			}
			args := append([]string{recv}, ns[1:len(sig.params)]...)
			for _, h := range is.heapsR() {
				args = append(args, t.heapVar(h))
			}
			call := rname(ik) + "(" + strings.Join(args, ", ") + ")"
			nres := len(sig.res)
			var comps []string
			nin, nim := 0, 0
			for k := range sig.inout {
				if sig.inout[k] {
					nin++
				}
				if is.inout[k] {
					nim++
				}
			}
			ncomp := nres + nim + len(is.heapsW())
			acc := func(k int) string {
				if ncomp == 1 {
					return "dr"
				}
				return fmt.Sprintf("dr.%d", k)
			}
			for k := 0; k < nres; k++ {
				comps = append(comps, acc(k))
			}
			j := nres
			for k := range sig.params {
				if !sig.inout[k] {
					continue
				}
				val := ns[k]
				if is.inout[k] {
					val = acc(j)
					j++
				}
				if k == 0 {
					if is.inout[k] {
						val = ii.enum + "::" + v.name + "(" + val + ")"
					}
				}
				comps = append(comps, val)
			}
			for _, h := range sig.heapsW() {
				done := false
				for hi, h2 := range is.heapsW() {
					if h2 == h {
						comps = append(comps, acc(nres+nim+hi))
						done = true
					}
				}
				if !done {
					comps = append(comps, t.heapVar(h))
				}
			}
			t.line("    %s::%s(dv) => { let dr = %s; %s return %s; }", ii.enum, v.name, call, t.dispatchHint(c, v.name), tupE(comps))
		}
		if len(ii.impls) < len(ii.root().impls) {
			t.line("    _ => { go_panic() }")
		} else {
			t.line("    %s::Nil => { go_panic() }", ii.enum)
		}
		t.line("}")
		return ""
	}()
	if err != "" {
		g.errs[key] = err
		g.fnOut = append(g.fnOut, fnText{key: key, name: name, mode: "failed"})
		return
	}
	g.fnOut = append(g.fnOut, fnText{key: key, name: name, text: hb.String() + "{\n" + t.b.String() + "}\n", mode: "dispatch"})
}

func (t *Tr) dispatchHint(c *Contract, v string) string {
	if c == nil {
		return ""
	}
	return strings.ReplaceAll(strings.TrimSpace(c.callsA[v+"#0"]), "\n", " ")
}

func (t *Tr) renameRecv() {
	t.rename[t.sig.params[0]] = "it"
	for i, p := range t.sig.params {
		if i > 0 && (p.Name() == "" || p.Name() == "_") {
			t.rename[p] = fmt.Sprintf("up_%d", i)
		}
	}
}

// embedded: the method is promoted from an embedded field.
func embedded(ty types.Type, im *types.Func) bool {
	sel := types.NewMethodSet(ty).Lookup(im.Pkg(), im.Name())
	return sel != nil && len(sel.Index()) > 1
}

func (g *Gen) defs() string {
	var b strings.Builder
	for _, i := range g.ifaces {
		if i.base == nil && g.usedEnum(i) {
			// payload types first known
			_ = g.enumText(i)
		}
	}
	for _, i := range g.ifaces {
		if i.base == nil && g.usedEnum(i) {
			b.WriteString(g.enumText(i))
		}
	}
	for _, n := range g.sorder {
		b.WriteString(g.structs[n])
	}
	return b.String()
}

func (g *Gen) usedEnum(i *ifaceInfo) bool {
	return g.useAllEnums || strings.HasPrefix(i.key, "items.")
}
