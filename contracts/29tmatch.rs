// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs 23rec.rs 28tree.rs
// What matching a string in the glob tree stores.

// ---- the depth left below a node
pub open spec fn tch(h: TH) -> TPM { choose|p: TPM| #[trigger] tvalid(h, p) }
pub open spec fn tcd(h: TH) -> nat { choose|d: nat| #[trigger] tv_deep(h, tch(h), d) }
pub open spec fn tdh(h: TH, r: u64) -> nat { (tcd(h) - tch(h)[r].1.len()) as nat }
// a node of a tree, its children
pub open spec fn tin(h: TH, y: u64) -> bool { U() && twfh(h) && h.contains_key(y) }
pub proof fn lemma_tkids(h: TH, y: u64)
    requires tin(h, y)
    ensures forall|j: int| 0 <= j < h[y].Childs@.len() ==> tin(h, #[trigger] h[y].Childs@[j]) && h[y].Childs@[j] != 0 && wfi(h[h[y].Childs@[j]].Item) && tdh(h, h[y].Childs@[j]) < tdh(h, y) && (h[h[y].Childs@[j]].Reverse ==> issfx(h[h[y].Childs@[j]].Item))
{
    reveal(tvalid);
    let p = tch(h);
    assert(tvalid(h, p));
    let d = tcd(h);
    assert(tv_deep(h, p, d));
    assert forall|j: int| 0 <= j < h[y].Childs@.len() implies tin(h, #[trigger] h[y].Childs@[j]) && h[y].Childs@[j] != 0 && wfi(h[h[y].Childs@[j]].Item) && tdh(h, h[y].Childs@[j]) < tdh(h, y) && (h[h[y].Childs@[j]].Reverse ==> issfx(h[h[y].Childs@[j]].Item)) by {
        assert(tslot(h, y, j));
        let c = tat(h, y, j);
        assert(tkid_ok(h, p, y, c));
        lemma_wfix(h[c].Item);
        assert(p[c].1.len() <= d);
    }
}
// ---- what a path below the current node has to accept
pub enum Ac {
    M(Seq<items_Item>, Seq<u8>),
    S(Seq<items_Item>, Seq<u8>),
    L(items_StringList, Seq<u8>, int),
    L1(items_StringList, Seq<u8>, int),
    SL(items_StringList, Seq<u8>, int),
    G(items_Group, Seq<u8>, int),
    GS(items_Group, Seq<u8>, int),
}
pub open spec fn sl1(l: items_StringList, q: Seq<items_Item>, s: Seq<u8>, i: int) -> bool {
    exists|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && starts(from(s, p), l.Vals@[i]@) && mm(q, from(s, p + l.Vals@[i]@.len()))
}
pub open spec fn sln(l: items_StringList, q: Seq<items_Item>, s: Seq<u8>, n: int) -> bool { exists|i: int| 0 <= i < n && i < l.Vals@.len() && #[trigger] sl1(l, q, s, i) }
pub open spec fn ap(a: Ac, q: Seq<items_Item>) -> bool {
    match a {
        Ac::M(c, s) => mm(c + q, s),
        Ac::S(c, s) => smatch(c + q, s),
        Ac::L(l, s, n) => (l.MinSize == 0 && mm(q, s)) || lk(l, q, s, n),
        Ac::L1(l, s, i) => sl1(l, q, s, i),
        Ac::SL(l, s, n) => (l.MinSize == 0 && smatch(q, s)) || sln(l, q, s, n),
        Ac::G(g, s, n) => (g.MinSize == 0 && mm(q, s)) || gm(g, q, s, n),
        Ac::GS(g, s, n) => (g.MinSize == 0 && smatch(q, s)) || gsm(g, q, s, n),
    }
}
pub open spec fn aeq(a: Ac, b: Ac) -> bool { forall|q: Seq<items_Item>| #[trigger] ap(a, q) == ap(b, q) }
pub open spec fn aor(c: Ac, a: Ac, b: Ac) -> bool { forall|q: Seq<items_Item>| #[trigger] ap(c, q) == (ap(a, q) || ap(b, q)) }
pub open spec fn anone(a: Ac) -> bool { forall|q: Seq<items_Item>| !#[trigger] ap(a, q) }
pub open spec fn tone(it: items_Item) -> Seq<items_Item> { seq![it] }
pub open spec fn nop() -> Seq<items_Item> { Seq::empty() }
pub proof fn lemma_onecat(it: items_Item, r: Seq<items_Item>, q: Seq<items_Item>)
    ensures (cons(it, r)) + q == cons(it, r + q), tone(it) + q == cons(it, q), nop() + q == q, cons(it, nop()) == tone(it)
{ assert(cons(it, r) + q =~= cons(it, r + q)); assert(tone(it) + q =~= cons(it, q)); assert(nop() + q =~= q); assert(cons(it, nop()) =~= tone(it)); }

// ---- what is below a node
pub open spec fn town(h: TH, y: u64, x: Rec) -> bool { h.contains_key(y) && h[y].Terminated.Terminate && trec(h[y]) == x }
pub open spec fn desc(h: TH, y: u64, d: u64, q: Seq<items_Item>) -> bool decreases q.len() {
    if q.len() == 0 { d == y } else { exists|j: int| tslot(h, y, j) && h[#[trigger] tat(h, y, j)].Item == q[0] && desc(h, tat(h, y, j), d, q.drop_first()) }
}
pub open spec fn want(h: TH, y: u64, a: Ac, x: Rec) -> bool { exists|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(a, q) }
#[verifier::opaque]
pub open spec fn did(h: TH, y: u64, a: Ac, s0: Seq<Rec>, s1: Seq<Rec>) -> bool { grows(s0, s1) && forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == want(h, y, a, x) }
// b is still to do
#[verifier::opaque]
pub open spec fn left(h: TH, y: u64, a: Ac, b: Ac, s0: Seq<Rec>, s1: Seq<Rec>) -> bool { grows(s0, s1) && forall|x: Rec| #![trigger want(h, y, a, x)] #![trigger want(h, y, b, x)] want(h, y, a, x) == (tl(s0, s1).contains(x) || want(h, y, b, x)) }
pub proof fn lemma_want_eq(h: TH, y: u64, a: Ac, b: Ac)
    requires aeq(a, b)
    ensures forall|x: Rec| #[trigger] want(h, y, a, x) == want(h, y, b, x)
{
    assert forall|x: Rec| #[trigger] want(h, y, a, x) == want(h, y, b, x) by {
        if want(h, y, a, x) { let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(a, q); assert(ap(b, q)); }
        if want(h, y, b, x) { let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(b, q); assert(ap(a, q)); }
    }
}
pub proof fn lemma_want_or(h: TH, y: u64, c: Ac, a: Ac, b: Ac)
    requires aor(c, a, b)
    ensures forall|x: Rec| #[trigger] want(h, y, c, x) == (want(h, y, a, x) || want(h, y, b, x))
{
    assert forall|x: Rec| #[trigger] want(h, y, c, x) == (want(h, y, a, x) || want(h, y, b, x)) by {
        if want(h, y, c, x) { let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(c, q); assert(ap(a, q) || ap(b, q)); }
        if want(h, y, a, x) { let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(a, q); assert(ap(c, q)); }
        if want(h, y, b, x) { let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(b, q); assert(ap(c, q)); }
    }
}
pub proof fn lemma_want_none(h: TH, y: u64, a: Ac)
    requires anone(a)
    ensures forall|x: Rec| !#[trigger] want(h, y, a, x)
{}
pub proof fn lemma_did_eq(h: TH, y: u64, a: Ac, b: Ac, s0: Seq<Rec>, s1: Seq<Rec>)
    requires did(h, y, a, s0, s1), aeq(a, b)
    ensures did(h, y, b, s0, s1)
{ reveal(did); lemma_want_eq(h, y, a, b); }
pub proof fn lemma_did_none(h: TH, y: u64, a: Ac, s0: Seq<Rec>)
    requires anone(a)
    ensures did(h, y, a, s0, s0)
{ reveal(did); lemma_want_none(h, y, a); lemma_tl_refl(s0); }
pub proof fn lemma_did_or(h: TH, y: u64, c: Ac, a: Ac, b: Ac, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires did(h, y, a, s0, s1), did(h, y, b, s1, s2), aor(c, a, b)
    ensures did(h, y, c, s0, s2)
{ reveal(did); lemma_want_or(h, y, c, a, b); lemma_tl(s0, s1, s2); }
pub proof fn lemma_left0(h: TH, y: u64, a: Ac, b: Ac, s0: Seq<Rec>)
    requires aeq(a, b)
    ensures left(h, y, a, b, s0, s0)
{ reveal(left); lemma_want_eq(h, y, a, b); lemma_tl_refl(s0); }
pub proof fn lemma_left_eq(h: TH, y: u64, a: Ac, b: Ac, c: Ac, s0: Seq<Rec>, s1: Seq<Rec>)
    requires left(h, y, a, b, s0, s1), aeq(b, c)
    ensures left(h, y, a, c, s0, s1)
{
    reveal(left); lemma_want_eq(h, y, b, c);
    assert forall|x: Rec| #![trigger want(h, y, a, x)] #![trigger want(h, y, c, x)] want(h, y, a, x) == (tl(s0, s1).contains(x) || want(h, y, c, x)) by { assert(want(h, y, b, x) == want(h, y, c, x)); }
}
pub proof fn lemma_left_or(h: TH, y: u64, a: Ac, b: Ac, c: Ac, d: Ac, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires left(h, y, a, b, s0, s1), aor(b, c, d), did(h, y, c, s1, s2)
    ensures left(h, y, a, d, s0, s2)
{
    reveal(left); reveal(did); lemma_want_or(h, y, b, c, d); lemma_tl(s0, s1, s2);
    assert forall|x: Rec| #![trigger want(h, y, a, x)] #![trigger want(h, y, d, x)] want(h, y, a, x) == (tl(s0, s2).contains(x) || want(h, y, d, x)) by {
        assert(want(h, y, b, x) == (want(h, y, c, x) || want(h, y, d, x)));
        assert(tl(s1, s2).contains(x) == want(h, y, c, x));
        assert(want(h, y, a, x) == (tl(s0, s1).contains(x) || want(h, y, b, x)));
    }
}
pub proof fn lemma_left_last(h: TH, y: u64, a: Ac, b: Ac, c: Ac, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires left(h, y, a, b, s0, s1), aeq(b, c), did(h, y, c, s1, s2)
    ensures did(h, y, a, s0, s2)
{
    reveal(left); reveal(did); lemma_want_eq(h, y, b, c); lemma_tl(s0, s1, s2);
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == want(h, y, a, x) by {
        assert(want(h, y, b, x) == want(h, y, c, x));
        assert(tl(s1, s2).contains(x) == want(h, y, c, x));
        assert(want(h, y, a, x) == (tl(s0, s1).contains(x) || want(h, y, b, x)));
    }
}
pub proof fn lemma_left_end(h: TH, y: u64, a: Ac, b: Ac, s0: Seq<Rec>, s1: Seq<Rec>)
    requires left(h, y, a, b, s0, s1), anone(b)
    ensures did(h, y, a, s0, s1)
{
    reveal(left); reveal(did); lemma_want_none(h, y, b);
    assert forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == want(h, y, a, x) by { assert(!want(h, y, b, x)); }
}
pub proof fn lemma_did_grows(h: TH, y: u64, a: Ac, s0: Seq<Rec>, s1: Seq<Rec>)
    requires did(h, y, a, s0, s1)
    ensures s0.len() <= s1.len()
{ reveal(did); }
pub proof fn lemma_stlen()
    ensures forall|s: St| (#[trigger] s@).len() <= MAXL
{ assert forall|s: St| (#[trigger] s@).len() <= MAXL by { ax_st_len(s); } }

// ---- the node itself and its children
pub open spec fn kidac(h: TH, c: u64, star: bool, s: Seq<u8>) -> Ac { if star { Ac::S(tone(h[c].Item), s) } else { Ac::M(tone(h[c].Item), s) } }
pub open spec fn nowac(star: bool, s: Seq<u8>) -> Ac { if star { Ac::S(nop(), s) } else { Ac::M(nop(), s) } }
pub open spec fn kidsin(h: TH, y: u64, star: bool, s: Seq<u8>, n: int, x: Rec) -> bool { exists|j: int| 0 <= j < n && j < h[y].Childs@.len() && #[trigger] want(h, tat(h, y, j), kidac(h, tat(h, y, j), star, s), x) }
#[verifier::opaque]
pub open spec fn kids(h: TH, y: u64, star: bool, s: Seq<u8>, n: int, s0: Seq<Rec>, s1: Seq<Rec>) -> bool {
    grows(s0, s1) && forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == (((star || s.len() == 0) && town(h, y, x)) || kidsin(h, y, star, s, n, x))
}
pub proof fn lemma_kids0(h: TH, y: u64, star: bool, s: Seq<u8>, s0: Seq<Rec>, s1: Seq<Rec>)
    requires h.contains_key(y), s1 == if (star || s.len() == 0) && h[y].Terminated.Terminate { s0.push(trec(h[y])) } else { s0 }
    ensures kids(h, y, star, s, 0, s0, s1), s0.len() <= s1.len()
{ reveal(kids); lemma_tl_refl(s0); lemma_tl_push(s0, trec(h[y])); }
pub proof fn lemma_kids_step(h: TH, y: u64, star: bool, s: Seq<u8>, n: int, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires kids(h, y, star, s, n, s0, s1), 0 <= n < h[y].Childs@.len(), did(h, tat(h, y, n), kidac(h, tat(h, y, n), star, s), s1, s2)
    ensures kids(h, y, star, s, n + 1, s0, s2), s1.len() <= s2.len()
{
    reveal(kids); reveal(did);
    lemma_tl(s0, s1, s2);
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == (((star || s.len() == 0) && town(h, y, x)) || kidsin(h, y, star, s, n + 1, x)) by {
        if kidsin(h, y, star, s, n + 1, x) {
            let j = choose|j: int| 0 <= j < n + 1 && j < h[y].Childs@.len() && #[trigger] want(h, tat(h, y, j), kidac(h, tat(h, y, j), star, s), x);
            if j < n { assert(kidsin(h, y, star, s, n, x)); }
        }
        if kidsin(h, y, star, s, n, x) {
            let j = choose|j: int| 0 <= j < n && j < h[y].Childs@.len() && #[trigger] want(h, tat(h, y, j), kidac(h, tat(h, y, j), star, s), x);
            assert(kidsin(h, y, star, s, n + 1, x));
        }
        assert(tl(s0, s1).contains(x) == (((star || s.len() == 0) && town(h, y, x)) || kidsin(h, y, star, s, n, x)));
    }
}
pub proof fn lemma_kids_end(h: TH, y: u64, star: bool, s: Seq<u8>, s0: Seq<Rec>, s1: Seq<Rec>)
    requires kids(h, y, star, s, h[y].Childs@.len() as int, s0, s1), h.contains_key(y)
    ensures did(h, y, nowac(star, s), s0, s1), s0.len() <= s1.len()
{
    reveal(kids); reveal(did);
    let a = nowac(star, s); let n = h[y].Childs@.len() as int;
    assert forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == want(h, y, a, x) by {
        if (star || s.len() == 0) && town(h, y, x) {
            let q = nop();
            assert(q + q =~= q);
            if star { lemma_star_nil(s); }
            assert(desc(h, y, y, q)); assert(ap(a, q));
        }
        if kidsin(h, y, star, s, n, x) {
            let j = choose|j: int| 0 <= j < n && j < h[y].Childs@.len() && #[trigger] want(h, tat(h, y, j), kidac(h, tat(h, y, j), star, s), x);
            let c = tat(h, y, j); let b = kidac(h, c, star, s);
            let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, c, d, q) && town(h, d, x) && ap(b, q);
            let u = cons(h[c].Item, q);
            lemma_cons(h[c].Item, q);
            lemma_onecat(h[c].Item, nop(), q); lemma_onecat(h[c].Item, nop(), u);
            assert(tslot(h, y, j));
            assert(desc(h, y, d, u));
            assert(ap(a, u));
        }
        if want(h, y, a, x) {
            let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, y, d, q) && town(h, d, x) && ap(a, q);
            if q.len() == 0 { assert(nop() + q =~= q); }
            else {
                let j = choose|j: int| tslot(h, y, j) && h[#[trigger] tat(h, y, j)].Item == q[0] && desc(h, tat(h, y, j), d, q.drop_first());
                let c = tat(h, y, j); let b = kidac(h, c, star, s); let r = q.drop_first();
                lemma_onecat(h[c].Item, nop(), r); lemma_onecat(h[c].Item, nop(), q);
                assert(cons(q[0], r) =~= q);
                assert(ap(b, r));
                assert(want(h, c, b, x));
                assert(kidsin(h, y, star, s, n, x));
            }
        }
    }
}

// ---- one step of the matcher
pub proof fn lemma_a_refl(a: Ac)
    ensures aeq(a, a)
{}
pub proof fn lemma_a_short(it: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    requires wfi(it), s.len() < leaf_min(it)
    ensures anone(Ac::M(cons(it, r), s)), anone(Ac::S(cons(it, r), s))
{
    assert forall|q: Seq<items_Item>| !#[trigger] ap(Ac::M(cons(it, r), s), q) by { lemma_onecat(it, r, q); lemma_short(it, r + q, s); }
    assert forall|q: Seq<items_Item>| !#[trigger] ap(Ac::S(cons(it, r), s), q) by { lemma_onecat(it, r, q); lemma_short(it, r + q, s); }
}
// what Match of an item tells
pub proof fn lemma_a_match(it: items_Item, r: Seq<items_Item>, s: Seq<u8>, off: int, flag: int)
    requires wfi(it), match_r(it, s, off, flag)
    ensures
        simple(it) && off < 0 ==> anone(Ac::M(cons(it, r), s)),
        simple(it) && off >= 0 ==> 0 <= off <= s.len() && aeq(Ac::M(cons(it, r), s), Ac::M(r, from(s, off))),
        it is Star && off < 0 ==> anone(Ac::M(cons(it, r), s)),
        it is Star && off >= 0 ==> 0 <= off <= s.len() && aeq(Ac::M(cons(it, r), s), Ac::S(r, from(s, off))),
        simple(it) || it is Star || it is StringList || it is Group,
        from(s, 0) == s,
{
    lemma_from0(s);
    let a = Ac::M(cons(it, r), s);
    assert forall|q: Seq<items_Item>| (simple(it) || it is Star) && off < 0 implies !#[trigger] ap(a, q) by {
        lemma_onecat(it, r, q);
        match it { items_Item::Star(n) => { lemma_star_step(n, r + q, s); } _ => { lemma_no_step(it, r + q, s); } }
    }
    if simple(it) && off >= 0 { lemma_simple_step(it, r, s, off); }
    match it { items_Item::Star(n) => { lemma_star_step(n, r, s); lemma_sk(s, n as int); } _ => {} }
    assert forall|q: Seq<items_Item>| simple(it) && off >= 0 implies #[trigger] ap(a, q) == ap(Ac::M(r, from(s, off)), q) by { lemma_onecat(it, r, q); lemma_simple_step(it, r + q, s, off); }
    assert forall|q: Seq<items_Item>| it is Star && off >= 0 implies #[trigger] ap(a, q) == ap(Ac::S(r, from(s, off)), q) by { lemma_onecat(it, r, q); lemma_star_step(it->Star_0, r + q, s); }
}
// what Find of an item tells
pub open spec fn afrom(c: Seq<items_Item>, t: Seq<u8>) -> bool { t.len() > 0 ==> 1 <= dec_w(t) <= t.len() }
pub proof fn lemma_a_find(it: items_Item, r: Seq<items_Item>, s: Seq<u8>, idx: int, n: int, flag: int)
    requires wfi(it), find_r(it, s, idx, n, flag)
    ensures
        simple(it) && idx < 0 ==> anone(Ac::S(cons(it, r), s)),
        simple(it) && idx >= 0 ==> 0 <= idx <= s.len() && 0 <= n <= s.len() - idx && aeq(Ac::S(cons(it, r), s), Ac::S(cons(it, r), from(s, idx))),
        simple(it) && idx >= 0 && idx < s.len() ==> 1 <= dec_w(from(s, idx)) <= from(s, idx).len() && aor(Ac::S(cons(it, r), from(s, idx)), Ac::M(r, from(from(s, idx), n)), Ac::S(cons(it, r), from(from(s, idx), dec_w(from(s, idx))))),
        simple(it) && idx >= 0 && idx == s.len() ==> dec_w(from(s, idx)) == 0 && aeq(Ac::S(cons(it, r), from(s, idx)), Ac::M(r, from(from(s, idx), n))),
        it is Star ==> n == -1 || 0 <= n <= s.len(),
        it is Star && n < 0 ==> anone(Ac::S(cons(it, r), s)),
        it is Star && n >= 0 ==> aeq(Ac::S(cons(it, r), s), Ac::S(r, from(s, n))),
        simple(it) || it is Star || it is StringList || it is Group,
        from(s, 0) == s,
{
    lemma_from0(s);
    let a = Ac::S(cons(it, r), s);
    match it { items_Item::Star(c) => { lemma_star_step(c, r, s); lemma_sk(s, c as int); lemma_skip(s, c as int); } _ => {} }
    assert forall|q: Seq<items_Item>| it is Star && n < 0 implies !#[trigger] ap(a, q) by { lemma_onecat(it, r, q); lemma_star_step(it->Star_0, r + q, s); }
    assert forall|q: Seq<items_Item>| it is Star && n >= 0 implies #[trigger] ap(a, q) == ap(Ac::S(r, from(s, n)), q) by { lemma_onecat(it, r, q); lemma_star_step(it->Star_0, r + q, s); }
    assert forall|q: Seq<items_Item>| simple(it) && idx < 0 implies !#[trigger] ap(a, q) by { lemma_onecat(it, r, q); lemma_smatch_none(it, r + q, s); }
    if simple(it) && idx >= 0 {
        let t = from(s, idx); let w = dec_w(t);
        let b = Ac::S(cons(it, r), t);
        lemma_dec(t);
        assert forall|q: Seq<items_Item>| #[trigger] ap(a, q) == ap(b, q) by { lemma_onecat(it, r, q); lemma_smatch_find(it, r + q, s, idx); }
        assert forall|q: Seq<items_Item>| #[trigger] ap(b, q) == (ap(Ac::M(r, from(t, n)), q) || (t.len() > 0 && ap(Ac::S(cons(it, r), from(t, w)), q))) by {
            lemma_onecat(it, r, q);
            let c = cons(it, r + q);
            lemma_simple_step(it, r + q, t, n);
            lemma_smatch_mm(c, t);
            if !mm(c, t) { lemma_smatch_next(c, t); }
            else if t.len() > 0 && smatch(c, from(t, w)) { }
        }
    }
}
// ---- lists
pub proof fn lemma_a_list0(l: items_StringList, s: Seq<u8>)
    ensures l.MinSize == 0 ==> aeq(Ac::M(nop(), s), Ac::L(l, s, 0)), l.MinSize != 0 ==> anone(Ac::L(l, s, 0)),
        aeq(Ac::L(l, s, l.Vals@.len() as int), Ac::M(tone(items_Item::StringList(l)), s))
{
    let it = items_Item::StringList(l);
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::M(nop(), s), q) == mm(q, s) by { lemma_onecat(it, nop(), q); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::L(l, s, l.Vals@.len() as int), q) == ap(Ac::M(tone(it), s), q) by { lemma_onecat(it, nop(), q); lemma_list_step(l, q, s); }
}
pub proof fn lemma_a_list(l: items_StringList, s: Seq<u8>, n: int)
    requires 0 <= n < l.Vals@.len()
    ensures !starts(s, l.Vals@[n]@) ==> aeq(Ac::L(l, s, n), Ac::L(l, s, n + 1)),
        starts(s, l.Vals@[n]@) ==> aor(Ac::L(l, s, n + 1), Ac::L(l, s, n), Ac::M(nop(), from(s, l.Vals@[n]@.len() as int)))
{
    let it = items_Item::StringList(l);
    assert forall|q: Seq<items_Item>| !starts(s, l.Vals@[n]@) implies #[trigger] ap(Ac::L(l, s, n), q) == ap(Ac::L(l, s, n + 1), q) by { lemma_lk_step(l, q, s, n); }
    assert forall|q: Seq<items_Item>| starts(s, l.Vals@[n]@) implies #[trigger] ap(Ac::L(l, s, n + 1), q) == (ap(Ac::L(l, s, n), q) || ap(Ac::M(nop(), from(s, l.Vals@[n]@.len() as int)), q)) by { lemma_onecat(it, nop(), q); lemma_lk_step(l, q, s, n); }
}
proof fn lemma_sln(l: items_StringList, q: Seq<items_Item>, s: Seq<u8>)
    ensures slk(l, q, s) == sln(l, q, s, l.Vals@.len() as int)
{
    let n = l.Vals@.len() as int;
    if slk(l, q, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && lk(l, q, from(s, p), n);
        let i = choose|i: int| 0 <= i < n && i < l.Vals@.len() && starts(from(s, p), (#[trigger] l.Vals@[i])@) && mm(q, from(from(s, p), l.Vals@[i]@.len() as int));
        lemma_from_from(s, p, l.Vals@[i]@.len() as int);
        assert(sl1(l, q, s, i));
    }
    if sln(l, q, s, n) {
        let i = choose|i: int| 0 <= i < n && i < l.Vals@.len() && #[trigger] sl1(l, q, s, i);
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && starts(from(s, p), l.Vals@[i]@) && mm(q, from(s, p + l.Vals@[i]@.len()));
        lemma_from_from(s, p, l.Vals@[i]@.len() as int);
        assert(lk(l, q, from(s, p), n));
    }
}
pub proof fn lemma_a_slist0(l: items_StringList, s: Seq<u8>)
    ensures l.MinSize == 0 ==> aeq(Ac::S(nop(), s), Ac::SL(l, s, 0)), l.MinSize != 0 ==> anone(Ac::SL(l, s, 0)),
        aeq(Ac::SL(l, s, l.Vals@.len() as int), Ac::S(tone(items_Item::StringList(l)), s))
{
    let it = items_Item::StringList(l);
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::S(nop(), s), q) == smatch(q, s) by { lemma_onecat(it, nop(), q); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::SL(l, s, l.Vals@.len() as int), q) == ap(Ac::S(tone(it), s), q) by { lemma_onecat(it, nop(), q); lemma_list_star(l, q, s); lemma_sln(l, q, s); }
}
pub proof fn lemma_a_slist(l: items_StringList, s: Seq<u8>, n: int)
    requires 0 <= n < l.Vals@.len()
    ensures aor(Ac::SL(l, s, n + 1), Ac::SL(l, s, n), Ac::L1(l, s, n))
{
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::SL(l, s, n + 1), q) == (ap(Ac::SL(l, s, n), q) || ap(Ac::L1(l, s, n), q)) by {
        if sln(l, q, s, n + 1) { let i = choose|i: int| 0 <= i < n + 1 && i < l.Vals@.len() && #[trigger] sl1(l, q, s, i); if i < n { assert(sln(l, q, s, n)); } }
        if sln(l, q, s, n) { let i = choose|i: int| 0 <= i < n && i < l.Vals@.len() && #[trigger] sl1(l, q, s, i); assert(sln(l, q, s, n + 1)); }
        if sl1(l, q, s, n) { assert(sln(l, q, s, n + 1)); }
    }
}
// the search for one value
proof fn lemma_scan_next(s: Seq<u8>, o: int, p: int)
    requires bnd(s, o), 0 <= o < p <= s.len(), bnd(s, p)
    ensures ({ let w = dec_w(from(s, o)); let u = from(from(s, o), w); 1 <= w <= s.len() - o && p - o - w >= 0 && bnd(u, p - o - w) && from(u, p - o - w) == from(s, p) && u.len() == s.len() - o - w })
{
    let t = from(s, o); let w = dec_w(t);
    lemma_dec(t);
    lemma_bnd_add(s, o, p - o);
    assert(bnd(t, p - o));
    assert(from(t, w) == from(s, o + w)) by { lemma_from_from(s, o, w); }
    lemma_from_from(s, o + w, p - o - w);
}
proof fn lemma_scan_back(s: Seq<u8>, o: int, p: int)
    requires bnd(s, o), 0 <= o < s.len(), 0 <= p, ({ let u = from(from(s, o), dec_w(from(s, o))); p <= u.len() && bnd(u, p) })
    ensures ({ let w = dec_w(from(s, o)); let u = from(from(s, o), w); 1 <= w && o + w + p <= s.len() && bnd(s, o + w + p) && from(u, p) == from(s, o + w + p) })
{
    let t = from(s, o); let w = dec_w(t);
    lemma_dec(t);
    lemma_from_from(s, o, w);
    assert(bnd(from(t, w), 0)); assert(bnd(t, w));
    lemma_bnd_add(s, o, w);
    lemma_bnd_add(s, o + w, p);
    lemma_from_from(s, o + w, p);
}
proof fn lemma_sl1_step(l: items_StringList, s: Seq<u8>, i: int, o: int, q: Seq<items_Item>)
    requires bnd(s, o), 0 <= o < s.len(), starts(from(s, o), l.Vals@[i]@), forall|p: int| 0 <= p < o ==> !starts(#[trigger] from(s, p), l.Vals@[i]@)
    ensures sl1(l, q, s, i) == (mm(q, from(s, o + l.Vals@[i]@.len())) || sl1(l, q, from(from(s, o), dec_w(from(s, o))), i))
{
    let v = l.Vals@[i]@; let n = v.len() as int;
    let w = dec_w(from(s, o)); let u = from(from(s, o), w);
    lemma_dec(from(s, o));
    if sl1(l, q, s, i) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && starts(from(s, p), v) && mm(q, from(s, p + n));
        if p > o {
            lemma_scan_next(s, o, p);
            let k = p - o - w;
            assert(from(u, k + n) =~= from(s, p + n));
            assert(bnd(u, k));
            assert(sl1(l, q, u, i));
        }
    }
    if sl1(l, q, u, i) {
        let p = choose|p: int| 0 <= p <= u.len() && #[trigger] bnd(u, p) && starts(from(u, p), v) && mm(q, from(u, p + n));
        lemma_scan_back(s, o, p);
        assert(from(u, p + n) =~= from(s, o + w + p + n));
        assert(bnd(s, o + w + p));
        assert(sl1(l, q, s, i));
    }
    if mm(q, from(s, o + n)) { assert(bnd(s, o)); assert(sl1(l, q, s, i)); }
}
pub proof fn lemma_a_scan(l: items_StringList, s: Seq<u8>, i: int, o: int)
    requires wf_list(l), 0 <= i < l.Vals@.len(), -1 <= o <= s.len(), o >= 0 ==> starts(from(s, o), l.Vals@[i]@),
        forall|p: int| 0 <= p <= s.len() && (o < 0 || p < o) ==> !starts(#[trigger] from(s, p), l.Vals@[i]@)
    ensures o < 0 ==> anone(Ac::L1(l, s, i)),
        o >= 0 ==> o + l.Vals@[i]@.len() <= s.len() && 1 <= dec_w(from(s, o)) <= s.len() - o && aor(Ac::L1(l, s, i), Ac::M(nop(), from(s, o + l.Vals@[i]@.len())), Ac::L1(l, from(from(s, o), dec_w(from(s, o))), i))
{
    let v = l.Vals@[i]@;
    if o >= 0 {
        lemma_occ_starts(s, v, o); lemma_occ_bnd(s, v, o);
        lemma_dec(from(s, o));
        let u = from(from(s, o), dec_w(from(s, o)));
        assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::L1(l, s, i), q) == (ap(Ac::M(nop(), from(s, o + v.len())), q) || ap(Ac::L1(l, u, i), q)) by {
            lemma_onecat(items_Item::Nil, nop(), q);
            lemma_sl1_step(l, s, i, o, q);
        }
    }
}
// ---- groups
pub proof fn lemma_a_group0(g: items_Group, s: Seq<u8>)
    requires wf_group(g)
    ensures g.MinSize == 0 ==> aeq(Ac::M(nop(), s), Ac::G(g, s, 0)) && aeq(Ac::S(nop(), s), Ac::GS(g, s, 0)), g.MinSize != 0 ==> anone(Ac::G(g, s, 0)) && anone(Ac::GS(g, s, 0)),
        aeq(Ac::G(g, s, g.Vals@.len() as int), Ac::M(tone(items_Item::Group(g)), s)), aeq(Ac::GS(g, s, g.Vals@.len() as int), Ac::S(tone(items_Item::Group(g)), s))
{
    let it = items_Item::Group(g); let n = g.Vals@.len() as int;
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::M(nop(), s), q) == mm(q, s) by { lemma_onecat(it, nop(), q); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::S(nop(), s), q) == smatch(q, s) by { lemma_onecat(it, nop(), q); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::G(g, s, 0), q) == (g.MinSize == 0 && mm(q, s)) by { lemma_gm_step0(g, q, s); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::GS(g, s, 0), q) == (g.MinSize == 0 && smatch(q, s)) by { lemma_gm_step0(g, q, s); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::G(g, s, n), q) == ap(Ac::M(tone(it), s), q) by { lemma_onecat(it, nop(), q); lemma_group_step(g, q, s); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::GS(g, s, n), q) == ap(Ac::S(tone(it), s), q) by { lemma_onecat(it, nop(), q); lemma_group_star(g, q, s); }
}
pub proof fn lemma_a_group(g: items_Group, s: Seq<u8>, n: int)
    requires wf_group(g), 0 <= n < g.Vals@.len()
    ensures aor(Ac::G(g, s, n + 1), Ac::G(g, s, n), Ac::M(val_items(g.Vals@[n]), s)), aor(Ac::GS(g, s, n + 1), Ac::GS(g, s, n), Ac::S(val_items(g.Vals@[n]), s)), wf_leafs(val_items(g.Vals@[n]))
{
    let v = g.Vals@[n];
    assert(wf_val(v));
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::G(g, s, n + 1), q) == (ap(Ac::G(g, s, n), q) || ap(Ac::M(val_items(v), s), q)) by { lemma_gm_step(g, q, s, n); }
    assert forall|q: Seq<items_Item>| #[trigger] ap(Ac::GS(g, s, n + 1), q) == (ap(Ac::GS(g, s, n), q) || ap(Ac::S(val_items(v), s), q)) by { lemma_gm_step(g, q, s, n); }
}
// the rest of items
pub proof fn lemma_a_rest(c: Seq<items_Item>, i: int)
    requires wf_leafs(c), 0 <= i <= c.len()
    ensures rest(c, 0) == c, i == c.len() ==> rest(c, i) == nop(), wf_leafs(rest(c, i)), i < c.len() ==> rest(c, i) == cons(c[i], rest(c, i + 1)) && wf_leaf(c[i]) && !(c[i] is StringList) && wf_leafs(rest(c, i + 1))
{
    assert(rest(c, 0) =~= c);
    if i == c.len() { assert(rest(c, i) =~= nop()); }
    assert forall|j: int| 0 <= j < rest(c, i).len() implies wf_leaf(#[trigger] rest(c, i)[j]) && !(rest(c, i)[j] is StringList) by { assert(wf_leaf(c[i + j])); }
    if i < c.len() {
        assert(rest(c, i) =~= cons(c[i], rest(c, i + 1)));
        assert(wf_leaf(c[i]));
        assert forall|j: int| 0 <= j < rest(c, i + 1).len() implies wf_leaf(#[trigger] rest(c, i + 1)[j]) && !(rest(c, i + 1)[j] is StringList) by { assert(wf_leaf(c[i + 1 + j])); }
    }
}

// ---- the root
pub open spec fn cut(s: Seq<u8>, n: int) -> Seq<u8> { s.subrange(0, s.len() - n) }
pub open spec fn sfx(it: items_Item) -> Seq<u8> { it->String_0.S@ }
pub open spec fn rwant(h: TH, c: u64, s: Seq<u8>, x: Rec) -> bool {
    if h[c].Reverse { ends(s, sfx(h[c].Item)) && want(h, c, Ac::M(nop(), cut(s, sfx(h[c].Item).len() as int)), x) } else { want(h, c, Ac::M(tone(h[c].Item), s), x) }
}
pub open spec fn rootin(h: TH, y: u64, s: Seq<u8>, n: int, x: Rec) -> bool { exists|j: int| 0 <= j < n && j < h[y].Childs@.len() && #[trigger] rwant(h, tat(h, y, j), s, x) }
#[verifier::opaque]
pub open spec fn rpre(h: TH, y: u64, s: Seq<u8>, n: int, s0: Seq<Rec>, s1: Seq<Rec>) -> bool { grows(s0, s1) && forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == rootin(h, y, s, n, x) }
pub proof fn lemma_rpre0(h: TH, y: u64, s: Seq<u8>, s0: Seq<Rec>)
    ensures rpre(h, y, s, 0, s0, s0)
{ reveal(rpre); lemma_tl_refl(s0); }
pub proof fn lemma_rstep(h: TH, y: u64, s: Seq<u8>, n: int, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires rpre(h, y, s, n, s0, s1), 0 <= n < h[y].Childs@.len(), ({
        let c = tat(h, y, n);
        if h[c].Reverse { if ends(s, sfx(h[c].Item)) { did(h, c, Ac::M(nop(), cut(s, sfx(h[c].Item).len() as int)), s1, s2) } else { s2 == s1 } } else { did(h, c, Ac::M(tone(h[c].Item), s), s1, s2) }
    })
    ensures rpre(h, y, s, n + 1, s0, s2), s1.len() <= s2.len()
{
    reveal(rpre); reveal(did);
    let c = tat(h, y, n);
    lemma_tl_refl(s1);
    lemma_tl(s0, s1, s2);
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == rootin(h, y, s, n + 1, x) by {
        assert(tl(s0, s1).contains(x) == rootin(h, y, s, n, x));
        assert(tl(s1, s2).contains(x) == rwant(h, c, s, x));
        if rootin(h, y, s, n + 1, x) {
            let j = choose|j: int| 0 <= j < n + 1 && j < h[y].Childs@.len() && #[trigger] rwant(h, tat(h, y, j), s, x);
            if j < n { assert(rootin(h, y, s, n, x)); }
        }
        if rootin(h, y, s, n, x) {
            let j = choose|j: int| 0 <= j < n && j < h[y].Childs@.len() && #[trigger] rwant(h, tat(h, y, j), s, x);
            assert(rootin(h, y, s, n + 1, x));
        }
        if rwant(h, c, s, x) { assert(rwant(h, tat(h, y, n), s, x)); assert(rootin(h, y, s, n + 1, x)); }
    }
}

// ---- items of one element accept the same
pub open spec fn ksame(a: items_Item, b: items_Item) -> bool { forall|s: Seq<u8>, k: int| #[trigger] it_k(a, s, k) == it_k(b, s, k) }
pub proof fn lemma_cl_k(a: items_Item, b: items_Item, s: Seq<u8>, k: int)
    requires cl(a) == cl(b), wf_leafx(a, true), wf_leafx(b, true)
    ensures leaf_k(a, s, k) == leaf_k(b, s, k)
{
    match a {
        items_Item::RunesRanges(r) => { let q = b->RunesRanges_0; assert(mk_sl(r.RunesRanges.UnicodeRanges@) == mk_sl(q.RunesRanges.UnicodeRanges@)); assert(rin(r.RunesRanges, dec_c(from(s, 0))) == rin(q.RunesRanges, dec_c(from(s, 0)))); }
        items_Item::StringList(l) => { let m = b->StringList_0; assert(l.Vals@ == m.Vals@); }
        _ => {}
    }
}
pub proof fn lemma_cls_k(a: Seq<items_Item>, b: Seq<items_Item>, s: Seq<u8>, k: int)
    requires cls(a) == cls(b), wf_leafsx(a, true), wf_leafsx(b, true)
    ensures ch_k(a, s, k) == ch_k(b, s, k)
    decreases a.len()
{
    assert(cls(a).len() == a.len()); assert(cls(b).len() == b.len());
    if a.len() > 0 {
        lemma_leafsx_tail(a, true); lemma_leafsx_tail(b, true);
        assert(cls(a)[0] == cl(a[0])); assert(cls(b)[0] == cl(b[0]));
        assert(cls(a.drop_first()) =~= cls(a).drop_first()); assert(cls(b.drop_first()) =~= cls(b).drop_first());
        let c = a.drop_first(); let d = b.drop_first();
        if ch_k(a, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(a[0], s, j) && ch_k(c, from(s, j), k - j);
            lemma_cl_k(a[0], b[0], s, j); lemma_cls_k(c, d, from(s, j), k - j);
            assert(leaf_k(b[0], s, j) && ch_k(d, from(s, j), k - j));
        }
        if ch_k(b, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(b[0], s, j) && ch_k(d, from(s, j), k - j);
            lemma_cl_k(a[0], b[0], s, j); lemma_cls_k(c, d, from(s, j), k - j);
            assert(leaf_k(a[0], s, j) && ch_k(c, from(s, j), k - j));
        }
    }
}
pub proof fn lemma_cv_k(a: items_Item, b: items_Item, s: Seq<u8>, k: int)
    requires cv(a) == cv(b), wf_valx(a, true), wf_valx(b, true)
    ensures val_k(a, s, k) == val_k(b, s, k)
{
    match a { items_Item::Chain(c) => { let d = b->Chain_0; lemma_cls_k(c.Items@, d.Items@, s, k); } _ => { lemma_cl_k(a, b, s, k); } }
}
pub proof fn lemma_ce_k(a: items_Item, b: items_Item)
    requires ce(a) == ce(b), wfi(a), wfi(b)
    ensures ksame(a, b)
{
    lemma_wfix(a); lemma_wfix(b);
    assert forall|s: Seq<u8>, k: int| #[trigger] it_k(a, s, k) == it_k(b, s, k) by {
        match a {
            items_Item::Group(g) => {
                let m = b->Group_0;
                assert(cvs(g.Vals@).len() == g.Vals@.len()); assert(cvs(m.Vals@).len() == m.Vals@.len());
                assert forall|i: int| 0 <= i < g.Vals@.len() implies #[trigger] val_k(g.Vals@[i], s, k) == val_k(m.Vals@[i], s, k) by {
                    assert(cvs(g.Vals@)[i] == cv(g.Vals@[i])); assert(cvs(m.Vals@)[i] == cv(m.Vals@[i]));
                    assert(wf_valx(g.Vals@[i], true)); assert(wf_valx(m.Vals@[i], true));
                    lemma_cv_k(g.Vals@[i], m.Vals@[i], s, k);
                }
                if grp_k(g, s, k) { let i = choose|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], s, k); assert(val_k(m.Vals@[i], s, k)); }
                if grp_k(m, s, k) { let i = choose|i: int| 0 <= i < m.Vals@.len() && #[trigger] val_k(m.Vals@[i], s, k); assert(val_k(g.Vals@[i], s, k)); }
            }
            _ => { lemma_cl_k(a, b, s, k); }
        }
    }
}
pub proof fn lemma_mm_same(a: Seq<items_Item>, b: Seq<items_Item>, s: Seq<u8>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> wfi(#[trigger] a[i]) && wfi(b[i]) && ce(a[i]) == ce(b[i])
    ensures mm(a, s) == mm(b, s)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_ce_k(a[0], b[0]);
        let c = a.drop_first(); let d = b.drop_first();
        assert forall|i: int| 0 <= i < c.len() implies wfi(#[trigger] c[i]) && wfi(d[i]) && ce(c[i]) == ce(d[i]) by { assert(wfi(a[i + 1])); }
        if mm(a, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(a[0], s, k) && mm(c, from(s, k));
            lemma_mm_same(c, d, from(s, k)); assert(it_k(b[0], s, k));
        }
        if mm(b, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(b[0], s, k) && mm(d, from(s, k));
            lemma_mm_same(c, d, from(s, k)); assert(it_k(a[0], s, k));
        }
    }
}
// ---- the path of a descendant
pub open spec fn qels(q: Seq<items_Item>) -> Seq<TEl> { iels(q, q.len() as int) }
pub proof fn lemma_desc_path(h: TH, p: TPM, y: u64, d: u64, q: Seq<items_Item>)
    requires tvalid(h, p), U(), h.contains_key(y), p[y].1.len() > 0, desc(h, y, d, q)
    ensures h.contains_key(d), p[d] == (p[y].0, p[y].1 + qels(q)), wfs(q)
    decreases q.len()
{
    if q.len() == 0 { assert(p[y].1 + qels(q) =~= p[y].1); }
    else {
        let j = choose|j: int| tslot(h, y, j) && h[#[trigger] tat(h, y, j)].Item == q[0] && desc(h, tat(h, y, j), d, q.drop_first());
        let c = tat(h, y, j); let r = q.drop_first();
        assert(tkid_ok(h, p, y, c)) by { reveal(tvalid); }
        assert(!h[c].Reverse);
        lemma_desc_path(h, p, c, d, r);
        lemma_wfix(h[c].Item);
        assert forall|i: int| 0 <= i < q.len() implies wfi(#[trigger] q[i]) by { if i > 0 { assert(wfi(r[i - 1])); } }
        let u = p[y].1.push(tel(h[c])) + qels(r); let v = p[y].1 + qels(q);
        assert(qels(r).len() == r.len()); assert(qels(q).len() == q.len());
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] u[i] == v[i] by {
            let n = p[y].1.len();
            if i > n { assert(qels(r)[i - n - 1] == (false, ce(r[i - n - 1]))); assert(qels(q)[i - n] == (false, ce(q[i - n]))); assert(r[i - n - 1] == q[i - n]); }
            else if i == n { assert(qels(q)[0] == (false, ce(q[0]))); }
        }
        assert(u =~= v);
    }
}
pub proof fn lemma_desc_push(h: TH, y: u64, d: u64, q: Seq<items_Item>, j: int)
    requires desc(h, y, d, q), tslot(h, d, j)
    ensures desc(h, y, tat(h, d, j), q.push(h[tat(h, d, j)].Item))
    decreases q.len()
{
    let c = tat(h, d, j); let u = q.push(h[c].Item);
    if q.len() == 0 { assert(u.drop_first() =~= q); assert(desc(h, c, c, u.drop_first())); assert(tslot(h, y, j)); assert(h[tat(h, y, j)].Item == u[0]); }
    else {
        let i = choose|i: int| tslot(h, y, i) && h[#[trigger] tat(h, y, i)].Item == q[0] && desc(h, tat(h, y, i), d, q.drop_first());
        lemma_desc_push(h, tat(h, y, i), d, q.drop_first(), j);
        assert(u.drop_first() =~= q.drop_first().push(h[c].Item));
        assert(u[0] == q[0]);
        assert(tslot(h, y, i)); assert(h[tat(h, y, i)].Item == u[0]);
    }
}
pub open spec fn under(h: TH, o: u64, r: u64, j: int, q: Seq<items_Item>) -> bool { tslot(h, o, j) && desc(h, tat(h, o, j), r, q) }
pub proof fn lemma_tfind(h: TH, p: TPM, o: u64, r: u64)
    requires tvalid(h, p), tis_root(p, o), h.contains_key(o), h.contains_key(r), p[r].0 == o, p[r].1.len() > 0
    ensures exists|j: int, q: Seq<items_Item>| #[trigger] under(h, o, r, j, q)
    decreases p[r].1.len()
{
    reveal(tvalid);
    assert(p[r] != (r, Seq::<TEl>::empty()));
    assert(thas_par(h, r));
    let (t, i) = choose|t: u64, i: int| tslot(h, t, i) && #[trigger] tat(h, t, i) == r;
    assert(tkid_ok(h, p, t, r));
    if p[t].1.len() == 0 {
        assert(p[t].1 =~= Seq::<TEl>::empty());
        assert(p[t] == p[o]);
        assert(t == o);
        assert(desc(h, r, r, nop()));
        assert(under(h, o, r, i, nop()));
    } else {
        lemma_tfind(h, p, o, t);
        let (j, q) = choose|j: int, q: Seq<items_Item>| #[trigger] under(h, o, t, j, q);
        lemma_desc_push(h, tat(h, o, j), t, q, i);
        assert(under(h, o, r, j, q.push(h[r].Item)));
    }
}
// ---- the path of a glob accepts what the glob accepts
pub open spec fn gitems(g: glob_Glob) -> Seq<items_Item> { if g.Prefix@.len() > 0 { cons(node_pfx(g), g.Items@) } else { g.Items@ } }
pub proof fn lemma_mm_pfx(g: glob_Glob, s: Seq<u8>)
    requires g.Items@.len() > 0, ok8(g.Prefix@)
    ensures mm(gitems(g), s) == (starts(s, g.Prefix@) && mm(g.Items@, from(s, g.Prefix@.len() as int)))
{
    let n = g.Prefix@.len() as int;
    if n > 0 {
        let it = node_pfx(g);
        if starts(s, g.Prefix@) { assert(leaf_k(it, s, n)); lemma_simple_step(it, g.Items@, s, n); }
        else { assert forall|k: int| !#[trigger] it_k(it, s, k) by {} lemma_no_step(it, g.Items@, s); }
    } else { lemma_from0(s); }
}
pub open spec fn accpath(rev: bool, it: items_Item, q: Seq<items_Item>, s: Seq<u8>) -> bool {
    if rev { ends(s, sfx(it)) && mm(q, cut(s, sfx(it).len() as int)) } else { mm(cons(it, q), s) }
}
// the items of a path against those of the glob
pub proof fn lemma_mm_path(c: Seq<items_Item>, g: glob_Glob, s: Seq<u8>)
    requires wfs(c), wfg(g), ok8(g.Prefix@), g.Items@.len() > 0, qels(c) == qels(gitems(g))
    ensures mm(c, s) == (starts(s, g.Prefix@) && mm(g.Items@, from(s, g.Prefix@.len() as int)))
{
    let d = gitems(g);
    lemma_mm_pfx(g, s);
    assert(qels(c).len() == c.len()); assert(qels(d).len() == d.len());
    assert forall|i: int| 0 <= i < c.len() implies wfi(#[trigger] c[i]) && wfi(d[i]) && ce(c[i]) == ce(d[i]) by {
        assert(qels(c)[i] == (false, ce(c[i]))); assert(qels(d)[i] == (false, ce(d[i])));
        let k = d.len() - g.Items@.len();
        if i >= k { assert(d[i] == g.Items@[i - k]); assert(wfi(g.Items@[i - k])); } else { assert(d[i] == node_pfx(g)); }
    }
    lemma_mm_same(c, d, s);
}
pub proof fn lemma_aend_pfx(p: Seq<u8>, c: Seq<items_Item>, e: Seq<u8>, s: Seq<u8>)
    requires wfs(c), ok8(e)
    ensures (starts(s, p) && aend(c, e, from(s, p.len() as int))) == (ends(s, e) && starts(cut(s, e.len() as int), p) && mm(c, from(cut(s, e.len() as int), p.len() as int)))
{
    let n = p.len() as int; let m = e.len() as int;
    if n <= s.len() {
        let t = from(s, n);
        lemma_aend_trunc(c, e, t);
        if n + m <= s.len() {
            let u = cut(s, m);
            assert(t.subrange(t.len() - m, t.len() as int) =~= s.subrange(s.len() - m, s.len() as int));
            assert(u.subrange(0, n) =~= s.subrange(0, n));
            assert(from(u, n) =~= t.subrange(0, t.len() - m));
        }
    }
}
pub proof fn lemma_lit_of(it: items_Item, x: Seq<u8>)
    requires ce(it) == tlit(x)
    ensures it is String, it->String_0.S@ == x
{}
pub proof fn lemma_gpath(g: glob_Glob, rev: bool, it: items_Item, q: Seq<items_Item>, s: Seq<u8>)
    requires U(), tgood(g), wfi(it), wfs(q), seq![(rev, ce(it))] + qels(q) == gels(g)
    ensures accpath(rev, it, q, s) == glang(g, s)
{
    let e = seq![(rev, ce(it))] + qels(q); let n = g.Items@.len() as int; let d = gitems(g);
    let ie = iels(g.Items@, n);
    assert(qels(q).len() == q.len()); assert(ie.len() == n); assert(qels(d).len() == d.len());
    assert forall|i: int| 0 <= i < n implies #[trigger] ie[i] == (false, ce(g.Items@[i])) by {}
    assert(e[0] == (rev, ce(it)));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] e[i + 1] == qels(q)[i] by {}
    assert(gels(g).len() == gels1(g).len() + n);
    if n == 0 {
        assert(gels(g)[0] == (false, tlit(pfx(g))));
        lemma_lit_of(it, pfx(g));
        assert(q.len() == 0); assert(q =~= nop());
        if leaf_k(it, s, s.len() as int) { assert(s.subrange(0, s.len() as int) =~= s); assert(s == g.Node@); }
        if s == g.Node@ {
            assert(leaf_k(it, s, s.len() as int));
            assert(it_k(it, s, s.len() as int)); lemma_mm_cons(it, q, s); assert(from(s, s.len() as int).len() == 0); assert(mm(q, from(s, s.len() as int)));
        }
        if mm(cons(it, q), s) {
            lemma_mm_cons(it, q, s);
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(q, from(s, k));
            assert(k == s.len()); assert(leaf_k(it, s, k));
        }
    } else {
        // the elements of gitems
        let z = qels(d);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] z[i] == gels(g)[gels0(g).len() + i] by {
            let k = d.len() - n;
            if i >= k { assert(d[i] == g.Items@[i - k]); assert(gels(g)[gels0(g).len() + i] == ie[i - k]); }
            else { assert(d[i] == node_pfx(g)); assert(gels(g)[gels0(g).len() + i] == gels1(g)[gels0(g).len() + i]); }
        }
        lemma_aend_pfx(g.Prefix@, g.Items@, g.Suffix@, s);
        if g.Suffix@.len() > 0 {
            assert(gels(g)[0] == (true, tlit(g.Suffix@)));
            lemma_lit_of(it, g.Suffix@);
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] z[i] == qels(q)[i] by { assert(z[i] == gels(g)[1 + i]); assert(e[i + 1] == qels(q)[i]); }
            assert(z =~= qels(q));
            if ends(s, g.Suffix@) { lemma_mm_path(q, g, cut(s, g.Suffix@.len() as int)); }
        } else {
            let c = cons(it, q);
            assert(z[0] == gels(g)[0]);
            assert(!rev) by { assert(z[0] == (false, ce(d[0]))); }
            assert(qels(c).len() == c.len());
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] z[i] == qels(c)[i] by {
                assert(z[i] == gels(g)[i]);
                assert(qels(c)[i] == (false, ce(c[i])));
                if i > 0 { assert(e[i] == qels(q)[i - 1]); assert(qels(q)[i - 1] == (false, ce(q[i - 1]))); assert(c[i] == q[i - 1]); } else { assert(c[0] == it); }
            }
            assert(z =~= qels(c));
            assert forall|i: int| 0 <= i < c.len() implies wfi(#[trigger] c[i]) by { if i > 0 { assert(c[i] == q[i - 1]); assert(wfi(q[i - 1])); } }
            lemma_mm_path(c, g, s);
            assert(cut(s, 0) =~= s);
        }
    }
}
// ---- a match stores exactly the members whose glob accepts the text
pub open spec fn tmatches(m: TMem, s: Seq<u8>, x: Rec, q: Seq<TEl>) -> bool { m.contains_key(q) && mrec(m[q]) == x && glang(m[q].0, s) }
pub open spec fn tstored(m: TMem, s: Seq<u8>, s0: Seq<Rec>, s1: Seq<Rec>) -> bool { grows(s0, s1) && forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == exists|q: Seq<TEl>| #[trigger] tmatches(m, s, x, q) }
proof fn lemma_rwant_mem(h: TH, p: TPM, o: u64, m: TMem, s: Seq<u8>, j: int, x: Rec)
    requires U(), tvalid(h, p), tis_root(p, o), tmem_ok(h, p, o, m), tslot(h, o, j), rwant(h, tat(h, o, j), s, x)
    ensures exists|q: Seq<TEl>| #[trigger] tmatches(m, s, x, q)
{
    let c = tat(h, o, j); let it = h[c].Item;
    let a = if h[c].Reverse { Ac::M(nop(), cut(s, sfx(it).len() as int)) } else { Ac::M(tone(it), s) };
    let (d, q) = choose|d: u64, q: Seq<items_Item>| #[trigger] desc(h, c, d, q) && town(h, d, x) && ap(a, q);
    lemma_onecat(it, nop(), q);
    assert(accpath(h[c].Reverse, it, q, s));
    assert(tkid_ok(h, p, o, c)) by { reveal(tvalid); }
    lemma_wfix(it);
    lemma_desc_path(h, p, c, d, q);
    let path = seq![tel(h[c])] + qels(q);
    assert(p[c].1 =~= seq![tel(h[c])]);
    assert(tis_mem(h, p, o, d, path));
    lemma_gpath(m[path].0, h[c].Reverse, it, q, s);
    assert(tmatches(m, s, x, path));
}
proof fn lemma_mem_rwant(h: TH, p: TPM, o: u64, m: TMem, s: Seq<u8>, path: Seq<TEl>, x: Rec)
    requires U(), tvalid(h, p), tis_root(p, o), h.contains_key(o), tmem_ok(h, p, o, m), tmatches(m, s, x, path)
    ensures rootin(h, o, s, h[o].Childs@.len() as int, x)
{
    let g = m[path].0;
    let r = choose|r: u64| tis_mem(h, p, o, r, path);
    lemma_gels_pos(g);
    lemma_tfind(h, p, o, r);
    let (j, q) = choose|j: int, q: Seq<items_Item>| #[trigger] under(h, o, r, j, q);
    let c = tat(h, o, j); let it = h[c].Item;
    assert(tkid_ok(h, p, o, c)) by { reveal(tvalid); }
    lemma_wfix(it);
    lemma_desc_path(h, p, c, r, q);
    assert(p[c].1 =~= seq![tel(h[c])]);
    lemma_gpath(g, h[c].Reverse, it, q, s);
    lemma_onecat(it, nop(), q);
    assert(tis_mem(h, p, o, r, path));
    assert(trec(h[r]) == x);
    let a = if h[c].Reverse { Ac::M(nop(), cut(s, sfx(it).len() as int)) } else { Ac::M(tone(it), s) };
    assert(ap(a, q));
    assert(town(h, r, x));
    assert(want(h, c, a, x));
    assert(rwant(h, tat(h, o, j), s, x));
}
pub proof fn theorem_tree_match(h: TH, o: u64, m: TMem, s: Seq<u8>, s0: Seq<Rec>, s1: Seq<Rec>)
    requires U(), ttree(h, o, m), rpre(h, o, s, h[o].Childs@.len() as int, s0, s1)
    ensures tstored(m, s, s0, s1)
{
    reveal(rpre);
    let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) && tmem_ok(h, p, o, m);
    let n = h[o].Childs@.len() as int;
    assert forall|x: Rec| #[trigger] tl(s0, s1).contains(x) == exists|q: Seq<TEl>| #[trigger] tmatches(m, s, x, q) by {
        if rootin(h, o, s, n, x) {
            let j = choose|j: int| 0 <= j < n && j < h[o].Childs@.len() && #[trigger] rwant(h, tat(h, o, j), s, x);
            lemma_rwant_mem(h, p, o, m, s, j, x);
        }
        if exists|q: Seq<TEl>| #[trigger] tmatches(m, s, x, q) {
            let q = choose|q: Seq<TEl>| #[trigger] tmatches(m, s, x, q);
            lemma_mem_rwant(h, p, o, m, s, q, x);
        }
    }
}
