// uses: 10sets.rs 11classtext.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs
// The text of a glob is a well formed text of the same language.

// no comma: a piece of a list
pub open spec fn nocom(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 44 }
pub open spec fn inl(t: Seq<u8>) -> bool { nocom(t) && nobr(t) }
// the literals of the item can be written as they are (only a class of one wildcard gives another literal), and its class has one closing bracket
pub open spec fn clleaf(it: items_Item, l: bool) -> bool {
    match it {
        items_Item::RunesRanges(r) => text_ok(r.RunesRanges) && first_b(rstext(r.RunesRanges), 93) == rstext(r.RunesRanges).len() - 1 && (l ==> inl(rstext(r.RunesRanges))),
        items_Item::StringList(s) => !l && s.Vals@.len() > 0 && forall|i: int| 0 <= i < s.Vals@.len() ==> nowild((#[trigger] s.Vals@[i])@) && nocom(s.Vals@[i]@),
        _ => nowild(litx(it)) && (l ==> nocom(litx(it))),
    }
}
pub open spec fn clleafs(c: Seq<items_Item>) -> bool { forall|i: int| 0 <= i < c.len() ==> clleaf(#[trigger] c[i], true) }
pub open spec fn clval(v: items_Item) -> bool { match v { items_Item::Chain(c) => clleafs(c.Items@), _ => clleaf(v, true) } }
pub open spec fn clitem(it: items_Item) -> bool { match it { items_Item::Group(g) => g.Vals@.len() > 0 && forall|i: int| 0 <= i < g.Vals@.len() ==> clval(#[trigger] g.Vals@[i]), _ => clleaf(it, false) } }
pub open spec fn clitems(c: Seq<items_Item>) -> bool { forall|i: int| 0 <= i < c.len() ==> clitem(#[trigger] c[i]) }
pub open spec fn clean(g: glob_Glob) -> bool { nowild(g.Prefix@) && nowild(g.Suffix@) && clitems(g.Items@) && (g.Items@.len() == 0 ==> nowild(g.Node@)) }

// the text t stands for the item
#[verifier::opaque]
pub open spec fn stands(t: Seq<u8>, it: items_Item) -> bool {
    &&& forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, u, x)
    &&& forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u)
}
pub proof fn lemma_inl_cat(a: Seq<u8>, b: Seq<u8>)
    requires inl(a), inl(b)
    ensures inl(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] (a + b)[i] != 44 && (a + b)[i] != 125 by { if i < a.len() { assert(a[i] != 44 && a[i] != 125); } else { assert(b[i - a.len()] != 44 && b[i - a.len()] != 125); } }
}
pub proof fn lemma_rep_q(n: int)
    ensures rep(seq![63u8], n).len() == (if n < 0 { 0 } else { n }), inl(rep(seq![63u8], n))
    decreases n
{
    if n > 0 { lemma_rep_q(n - 1); assert(inl(seq![63u8])); lemma_inl_cat(rep(seq![63u8], n - 1), seq![63u8]); }
}
// two items one after another
pub proof fn lemma_itt_two(a: items_Item, b: items_Item, z: items_Item, u: Seq<u8>, x: Seq<u8>)
    requires wf_leaf(a), wf_leaf(b), wf_leaf(z), mrg(a, b, z)
    ensures itt(z, u, x) == exists|j: int| 0 <= j <= x.len() && #[trigger] it_k(a, x, j) && itt(b, u, from(x, j))
{
    if itt(z, u, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(z, x, k) && acc(u, from(x, k));
        lemma_mrg_k(a, b, z, x, k);
        let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(a, x, j) && it_k(b, from(x, j), k - j);
        lemma_from_from(x, j, k - j);
        assert(itt(b, u, from(x, j)));
    }
    if exists|j: int| 0 <= j <= x.len() && #[trigger] it_k(a, x, j) && itt(b, u, from(x, j)) {
        let j = choose|j: int| 0 <= j <= x.len() && #[trigger] it_k(a, x, j) && itt(b, u, from(x, j));
        let m = choose|m: int| 0 <= m <= from(x, j).len() && #[trigger] it_k(b, from(x, j), m) && acc(u, from(from(x, j), m));
        lemma_from_from(x, j, m);
        lemma_mrg_k(a, b, z, x, j + m);
        assert(it_k(b, from(x, j), (j + m) - j));
        assert(two_k(a, b, x, j + m));
        assert(it_k(z, x, j + m));
    }
}
pub proof fn lemma_stands_two(s: Seq<u8>, a: items_Item, t: Seq<u8>, b: items_Item, z: items_Item)
    requires wf_leaf(a), wf_leaf(b), wf_leaf(z), mrg(a, b, z), stands(s, a), stands(t, b)
    ensures stands(s + t, z)
{
    reveal(stands);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc((s + t) + u, x) == itt(z, u, x) by {
        assert((s + t) + u =~= s + (t + u));
        lemma_itt_two(a, b, z, u, x);
        assert(acc(s + (t + u), x) == itt(a, t + u, x));
        if itt(a, t + u, x) { let j = choose|j: int| 0 <= j <= x.len() && #[trigger] it_k(a, x, j) && acc(t + u, from(x, j)); assert(itt(b, u, from(x, j))); }
        if itt(z, u, x) { let j = choose|j: int| 0 <= j <= x.len() && #[trigger] it_k(a, x, j) && itt(b, u, from(x, j)); assert(acc(t + u, from(x, j))); }
    }
    assert forall|u: Seq<u8>| #[trigger] tw((s + t) + u) == tw(u) by { assert((s + t) + u =~= s + (t + u)); assert(tw(s + (t + u)) == tw(t + u)); }
}
pub proof fn lemma_stands_any1()
    ensures stands(seq![63u8], items_Item::Any(1))
{
    reveal(stands);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(seq![63u8] + u, x) == itt(items_Item::Any(1), u, x) by { lemma_acc_any(u, x); }
    assert forall|u: Seq<u8>| #[trigger] tw(seq![63u8] + u) == tw(u) by { lemma_acc_any(u, u); }
}
pub proof fn lemma_stands_any(n: i64)
    requires 0 < n <= MAXL
    ensures stands(rep(seq![63u8], n as int), items_Item::Any(n))
    decreases n
{
    lemma_stands_any1();
    if n == 1 {
        assert(rep(seq![63u8], 1) =~= seq![63u8]) by { reveal_with_fuel(rep, 2); }
    } else {
        let m = (n - 1) as i64;
        lemma_stands_any(m);
        lemma_stands_two(rep(seq![63u8], m as int), items_Item::Any(m), seq![63u8], items_Item::Any(1), items_Item::Any(n));
    }
}
pub proof fn lemma_stands_star(n: i64)
    requires 0 <= n <= MAXL
    ensures stands(seq![42u8] + rep(seq![63u8], n as int), items_Item::Star(n))
{
    let t = seq![42u8];
    assert(stands(t, items_Item::Star(0))) by {
        reveal(stands);
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(items_Item::Star(0), u, x) by { lemma_acc_star1(u, x); }
        assert forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u) by { assert((t + u)[0] == 42); assert(from(t + u, 1) =~= u); }
    }
    if n == 0 { assert(t + rep(seq![63u8], 0) =~= t); } else {
        lemma_stands_any(n);
        lemma_stands_two(t, items_Item::Star(0), rep(seq![63u8], n as int), items_Item::Any(n), items_Item::Star(n));
    }
}
pub proof fn lemma_stands_lit(it: items_Item)
    requires islit(it), wf_leaf(it), nowild(litx(it))
    ensures stands(litx(it), it)
{
    reveal(stands);
    let l = litx(it);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(l + u, x) == itt(it, u, x) by {
        lemma_acc_lit(l, u, x);
        lemma_lit_k(it, x, l.len() as int);
        if itt(it, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(it, x, k) && acc(u, from(x, k)); lemma_lit_k(it, x, k); }
        if starts(x, l) { assert(it_k(it, x, l.len() as int)); }
    }
    assert forall|u: Seq<u8>| #[trigger] tw(l + u) == tw(u) by { lemma_tw_lit(l, u); }
}
pub proof fn lemma_stands_class(r: items_RunesRanges)
    requires wf_leaf(items_Item::RunesRanges(r)), clleaf(items_Item::RunesRanges(r), false)
    ensures stands(rstext(r.RunesRanges), items_Item::RunesRanges(r))
{
    reveal(stands);
    let rs = r.RunesRanges;
    let it = items_Item::RunesRanges(r);
    let t = rstext(rs);
    lemma_class_text(rs);
    assert(t[0] == 91);
    assert(t.subrange(0, t.len() as int) =~= t);
    let y = choose|c: int| #[trigger] rin(rs, c) && rune_ok(c) && rune_len(c) == rs.MinSize;
    assert(y > 0);
    assert(class_in(t, y) == rin(rs, y));
    assert(!class_empty(t));
    assert forall|s: Seq<u8>, k: int| it_k(it, s, k) == #[trigger] cls_k(t, s, k) by { lemma_from0(s); lemma_dec(s); assert(class_in(t, dec_c(s)) == rin(rs, dec_c(s))); }
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, u, x) by {
        lemma_acc_class(t, u, it, x);
        assert(from(t, t.len() as int) + u =~= u);
    }
    assert forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u) by {
        lemma_first_cat(t, u, 93);
        lemma_from_cat(t, u, t.len() as int);
        assert(from(t, t.len() as int) + u =~= u);
        assert((t + u)[0] == 91);
    }
}
// a leaf which is not a list
pub proof fn lemma_stands_leaf(it: items_Item, l: bool)
    requires wf_leaf(it), clleaf(it, l), !(it is StringList)
    ensures stands(leaftx(it), it), l ==> inl(leaftx(it))
{
    match it {
        items_Item::Any(n) => { lemma_stands_any(n); lemma_rep_q(n as int); }
        items_Item::Star(n) => { lemma_stands_star(n); lemma_rep_q(n as int); assert(inl(seq![42u8])); lemma_inl_cat(seq![42u8], rep(seq![63u8], n as int)); }
        items_Item::RunesRanges(r) => { lemma_stands_class(r); }
        _ => { lemma_stands_lit(it); if l { let t = litx(it); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 125 by { assert(!wildb(t[i])); } } }
    }
}
// ---- the pieces of a list
pub proof fn lemma_split_push(a: Seq<u8>, p: Seq<u8>)
    requires nocom(p)
    ensures split_b(a.push(44u8) + p, 44) == split_b(a, 44).push(p)
    decreases a.len()
{
    let s = a.push(44u8) + p;
    lemma_first_b(a, 44);
    let k = first_b(a, 44);
    if k >= a.len() {
        assert(s[k] == 44);
        assert forall|i: int| 0 <= i < k implies #[trigger] s[i] != 44 by { assert(a[i] != 44); }
        lemma_first_at(s, 44, k);
        assert(s.subrange(0, k) =~= a);
        assert(s.subrange(k + 1, s.len() as int) =~= p);
        lemma_split_one(p);
        assert(split_b(s, 44) =~= seq![a].push(p));
    } else {
        let b = a.subrange(k + 1, a.len() as int);
        assert(s[k] == a[k]);
        assert forall|i: int| 0 <= i < k implies #[trigger] s[i] != 44 by { assert(a[i] != 44); }
        lemma_first_at(s, 44, k);
        assert(s.subrange(0, k) =~= a.subrange(0, k));
        assert(s.subrange(k + 1, s.len() as int) =~= b.push(44u8) + p);
        lemma_split_push(b, p);
        assert(split_b(s, 44) =~= split_b(a, 44).push(p));
    }
}
pub proof fn lemma_split_one(p: Seq<u8>)
    requires nocom(p)
    ensures split_b(p, 44) == seq![p]
{ lemma_first_b(p, 44); if first_b(p, 44) < p.len() { assert(p[first_b(p, 44)] != 44); } }
// {n}, cut into the pieces a
pub proof fn lemma_braces(n: Seq<u8>, a: Seq<Seq<u8>>, it: items_Item)
    requires nobr(n), a == split_b(n, 44), forall|i: int, u: Seq<u8>| 0 <= i < a.len() ==> #[trigger] tw(a[i] + u) == tw(u),
        forall|u: Seq<u8>, x: Seq<u8>| #[trigger] altacc(a, u, x) == itt(it, u, x)
    ensures stands((seq![123u8] + n).push(125u8), it)
{
    reveal(stands);
    let t = (seq![123u8] + n).push(125u8);
    let j = (t.len() - 1) as int;
    assert forall|i: int| 0 <= i < j implies #[trigger] t[i] != 125 by { if i > 0 { assert(n[i - 1] != 125); } }
    lemma_first_at(t, 125, j);
    assert(t[0] == 123);
    assert(t.subrange(1, j) =~= n);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, u, x) by {
        lemma_acc_list(t, u, x);
        assert(from(t, j + 1) + u =~= u);
        assert(altacc(a, u, x) == itt(it, u, x));
    }
    assert(alltw(a)) by { assert forall|i: int| 0 <= i < a.len() implies tw(#[trigger] a[i]) by { let e = Seq::<u8>::empty(); assert(a[i] + e =~= a[i]); assert(tw(a[i] + e) == tw(e)); } }
    assert forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u) by {
        lemma_first_cat(t, u, 125);
        lemma_from_cat(t, u, j);
        lemma_from_cat(t, u, j + 1);
        assert(from(t, j + 1) + u =~= u);
        assert((t + u)[0] == 123);
        assert(alts(t + u, j) == a);
    }
}
// a list of texts
pub open spec fn spcs(v: Seq<Str>, m: bool, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { if m { seq![Seq::empty()] } else { Seq::empty() } } else { spcs(v, m, n - 1).push(v[n - 1]@) } }
pub proof fn lemma_spcs(v: Seq<Str>, m: bool, n: int)
    requires 0 <= n <= v.len(), m || n > 0, forall|i: int| 0 <= i < v.len() ==> nowild((#[trigger] v[i])@) && nocom(v[i]@)
    ensures split_b(ltx(v, m, n), 44) == spcs(v, m, n), nobr(ltx(v, m, n)), spcs(v, m, n).len() == n + (if m { 1int } else { 0 }),
        forall|i: int| 0 <= i < n ==> spcs(v, m, n)[i + (if m { 1int } else { 0 })] == (#[trigger] v[i])@, m ==> spcs(v, m, n)[0].len() == 0
    decreases n
{
    if n == 0 { lemma_split_one(Seq::empty()); } else {
        let p = v[n - 1]@;
        assert(nobr(p)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] != 125 by { assert(!wildb(p[i])); } }
        if n > 1 || m {
            lemma_spcs(v, m, n - 1);
            let h = ltx(v, m, n - 1);
            lemma_split_push(h, p);
            let t = h.push(44u8) + p;
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 125 by { if i < h.len() { assert(h[i] != 125); } else if i > h.len() { assert(p[i - h.len() - 1] != 125); } }
        } else {
            assert(ltx(v, m, 0) + p =~= p);
            assert(ltx(v, m, 1) =~= p) by { reveal_with_fuel(ltx, 2); }
            lemma_split_one(p);
            assert(spcs(v, m, 1) =~= seq![p]) by { reveal_with_fuel(spcs, 2); }
        }
    }
}
pub proof fn lemma_stands_list(l: items_StringList)
    requires wf_leaf(items_Item::StringList(l)), clleaf(items_Item::StringList(l), false)
    ensures stands(leaftx(items_Item::StringList(l)), items_Item::StringList(l))
{
    let v = l.Vals@;
    let m = l.MinSize == 0;
    let d = if m { 1int } else { 0 };
    let it = items_Item::StringList(l);
    lemma_spcs(v, m, v.len() as int);
    let a = spcs(v, m, v.len() as int);
    assert forall|i: int, u: Seq<u8>| 0 <= i < a.len() implies #[trigger] tw(a[i] + u) == tw(u) by {
        if i >= d { assert(a[i] == v[i - d]@); }
        lemma_tw_lit(a[i], u);
    }
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] altacc(a, u, x) == itt(it, u, x) by {
        if altacc(a, u, x) {
            let i = choose|i: int| 0 <= i < a.len() && acc(#[trigger] a[i] + u, x);
            if i >= d { assert(a[i] == v[i - d]@); lemma_acc_lit(a[i], u, x); assert(it_k(it, x, a[i].len() as int)); }
            else { assert(a[i] + u =~= u); lemma_from0(x); assert(it_k(it, x, 0)); }
        }
        if itt(it, u, x) {
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(it, x, k) && acc(u, from(x, k));
            if m && k == 0 { assert(a[0] + u =~= u); lemma_from0(x); assert(acc(a[0] + u, x)); } else {
                let i = choose|i: int| 0 <= i < v.len() && starts(x, (#[trigger] v[i])@) && k == v[i]@.len();
                assert(a[i + d] == v[i]@);
                lemma_acc_lit(a[i + d], u, x);
                assert(acc(a[i + d] + u, x));
            }
        }
    }
    lemma_braces(ltx(v, m, v.len() as int), a, it);
}
// ---- items one after another
#[verifier::opaque]
pub open spec fn standc(t: Seq<u8>, c: Seq<items_Item>) -> bool {
    &&& forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == acct(c, u, x)
    &&& forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u)
}
pub proof fn lemma_standc0()
    ensures standc(Seq::empty(), Seq::empty())
{
    reveal(standc);
    let e = Seq::<u8>::empty();
    let c = Seq::<items_Item>::empty();
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(e + u, x) == acct(c, u, x) by { assert(e + u =~= u); lemma_from0(x); if acc(u, x) { assert(chk(c, x, 0)); } }
    assert forall|u: Seq<u8>| #[trigger] tw(e + u) == tw(u) by { assert(e + u =~= u); }
}
pub proof fn lemma_standc_push(t: Seq<u8>, c: Seq<items_Item>, p: Seq<u8>, it: items_Item)
    requires standc(t, c), stands(p, it), wfs(c), wfi(it)
    ensures standc(t + p, c.push(it))
{
    reveal(standc); reveal(stands);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc((t + p) + u, x) == acct(c.push(it), u, x) by {
        assert((t + p) + u =~= t + (p + u));
        assert(acc(t + (p + u), x) == acct(c, p + u, x));
        lemma_acct_push(c, it, u, x);
        if acct(c, p + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(p + u, from(x, k)); assert(itt(it, u, from(x, k))); assert(acct2(c, it, u, x)); }
        if acct2(c, it, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && itt(it, u, from(x, k)); assert(acc(p + u, from(x, k))); assert(acct(c, p + u, x)); }
    }
    assert forall|u: Seq<u8>| #[trigger] tw((t + p) + u) == tw(u) by { assert((t + p) + u =~= t + (p + u)); assert(tw(t + (p + u)) == tw(p + u)); }
}
pub proof fn lemma_ctx_stands(c: Seq<items_Item>, n: int)
    requires wf_leafs(c), clleafs(c), 0 <= n <= c.len()
    ensures standc(ctx(c, n), c.subrange(0, n)), inl(ctx(c, n))
    decreases n
{
    if n == 0 { lemma_standc0(); assert(c.subrange(0, 0) =~= Seq::empty()); } else {
        lemma_ctx_stands(c, n - 1);
        let it = c[n - 1];
        assert(wf_leaf(it) && !(it is StringList) && clleaf(it, true));
        lemma_stands_leaf(it, true);
        let d = c.subrange(0, n - 1);
        assert forall|i: int| 0 <= i < d.len() implies wfi(#[trigger] d[i]) by { assert(wf_leaf(c[i])); }
        lemma_standc_push(ctx(c, n - 1), d, leaftx(it), it);
        assert(d.push(it) =~= c.subrange(0, n));
        lemma_inl_cat(ctx(c, n - 1), leaftx(it));
    }
}
// a value of a group
#[verifier::opaque]
pub open spec fn standv(t: Seq<u8>, v: items_Item) -> bool {
    &&& forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == vtt(v, u, x)
    &&& forall|u: Seq<u8>| #[trigger] tw(t + u) == tw(u)
}
pub proof fn lemma_val_stands(v: items_Item)
    requires wf_val(v), clval(v)
    ensures standv(valtx(v), v), inl(valtx(v))
{
    reveal(standv);
    let t = valtx(v);
    match v {
        items_Item::Chain(ch) => {
            let c = ch.Items@;
            lemma_ctx_stands(c, c.len() as int);
            assert(c.subrange(0, c.len() as int) =~= c);
            reveal(standc);
            assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == vtt(v, u, x) by {
                assert(acc(t + u, x) == acct(c, u, x));
                if acct(c, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(u, from(x, k)); lemma_ch_chk(c, x, k); assert(val_k(v, x, k)); }
                if vtt(v, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] val_k(v, x, k) && acc(u, from(x, k)); lemma_ch_chk(c, x, k); assert(chk(c, x, k)); }
            }
        }
        _ => {
            lemma_stands_leaf(v, true);
            reveal(stands);
            assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == vtt(v, u, x) by {
                assert(acc(t + u, x) == itt(v, u, x));
                if itt(v, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(v, x, k) && acc(u, from(x, k)); assert(val_k(v, x, k)); }
                if vtt(v, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] val_k(v, x, k) && acc(u, from(x, k)); assert(it_k(v, x, k)); }
            }
        }
    }
}
pub open spec fn gpcs(v: Seq<items_Item>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else { gpcs(v, n - 1).push(valtx(v[n - 1])) } }
pub proof fn lemma_gpcs(v: Seq<items_Item>, n: int)
    requires 0 < n <= v.len(), forall|i: int| 0 <= i < v.len() ==> wf_val(#[trigger] v[i]) && clval(v[i])
    ensures split_b(gvtx(v, n), 44) == gpcs(v, n), nobr(gvtx(v, n)), gpcs(v, n).len() == n, forall|i: int| 0 <= i < n ==> gpcs(v, n)[i] == valtx(#[trigger] v[i])
    decreases n
{
    let p = valtx(v[n - 1]);
    lemma_val_stands(v[n - 1]);
    if n > 1 {
        lemma_gpcs(v, n - 1);
        let h = gvtx(v, n - 1);
        lemma_split_push(h, p);
        let t = h.push(44u8) + p;
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 125 by { if i < h.len() { assert(h[i] != 125); } else if i > h.len() { assert(p[i - h.len() - 1] != 125); } }
    } else {
        assert(gvtx(v, 1) =~= p) by { reveal_with_fuel(gvtx, 2); }
        lemma_split_one(p);
        assert(gpcs(v, 1) =~= seq![p]) by { reveal_with_fuel(gpcs, 2); }
    }
}
pub proof fn lemma_stands_group(g: items_Group)
    requires wf_group(g), clitem(items_Item::Group(g))
    ensures stands(itx(items_Item::Group(g)), items_Item::Group(g))
{
    let v = g.Vals@;
    let it = items_Item::Group(g);
    lemma_gpcs(v, v.len() as int);
    let a = gpcs(v, v.len() as int);
    assert forall|i: int, u: Seq<u8>| 0 <= i < a.len() implies #[trigger] tw(a[i] + u) == tw(u) by { assert(a[i] == valtx(v[i])); lemma_val_stands(v[i]); reveal(standv); }
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] altacc(a, u, x) == itt(it, u, x) by {
        reveal(standv);
        if altacc(a, u, x) {
            let i = choose|i: int| 0 <= i < a.len() && acc(#[trigger] a[i] + u, x);
            assert(a[i] == valtx(v[i])); lemma_val_stands(v[i]);
            assert(vtt(v[i], u, x));
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] val_k(v[i], x, k) && acc(u, from(x, k));
            assert(it_k(it, x, k));
        }
        if itt(it, u, x) {
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(it, x, k) && acc(u, from(x, k));
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] val_k(v[i], x, k);
            assert(a[i] == valtx(v[i])); lemma_val_stands(v[i]);
            assert(vtt(v[i], u, x));
            assert(acc(a[i] + u, x));
        }
    }
    lemma_braces(gvtx(v, v.len() as int), a, it);
}
pub proof fn lemma_stands_item(it: items_Item)
    requires wfi(it), clitem(it)
    ensures stands(itx(it), it)
{
    match it {
        items_Item::Group(g) => { lemma_stands_group(g); }
        items_Item::StringList(l) => { lemma_stands_list(l); }
        _ => { lemma_stands_leaf(it, false); }
    }
}
pub proof fn lemma_itxs_stands(c: Seq<items_Item>, n: int)
    requires wfs(c), clitems(c), 0 <= n <= c.len()
    ensures standc(itxs(c, n), c.subrange(0, n))
    decreases n
{
    if n == 0 { lemma_standc0(); assert(c.subrange(0, 0) =~= Seq::empty()); } else {
        lemma_itxs_stands(c, n - 1);
        let it = c[n - 1];
        assert(wfi(it) && clitem(it));
        lemma_stands_item(it);
        let d = c.subrange(0, n - 1);
        assert forall|i: int| 0 <= i < d.len() implies wfi(#[trigger] d[i]) by { assert(wfi(c[i])); }
        lemma_standc_push(itxs(c, n - 1), d, itx(it), it);
        assert(d.push(it) =~= c.subrange(0, n));
    }
}
// the text of a glob whose items are clean is well formed, and of the language of the glob
pub proof fn theorem_text(g: glob_Glob)
    requires gshape(g), wfg(g), clean(g)
    ensures tw(g.Node@), forall|x: Seq<u8>| #[trigger] acc(g.Node@, x) == glang(g, x)
{
    let e = Seq::<u8>::empty();
    let w = g.Node@;
    let c = g.Items@;
    if c.len() == 0 {
        lemma_tw_lit(w, e);
        assert(w + e =~= w);
        assert forall|x: Seq<u8>| #[trigger] acc(w, x) == glang(g, x) by { lemma_acc_empty(w, x); }
    } else {
        let n = c.len() as int;
        let p = g.Prefix@; let f = g.Suffix@;
        let t = itxs(c, n);
        lemma_itxs_stands(c, n);
        assert(c.subrange(0, n) =~= c);
        assert(w =~= p + (t + f));
        reveal(standc);
        lemma_tw_lit(p, t + f);
        assert(tw(t + f) == tw(f));
        lemma_tw_lit(f, e); assert(f + e =~= f);
        assert forall|x: Seq<u8>| #[trigger] acc(w, x) == glang(g, x) by {
            lemma_acc_lit(p, t + f, x);
            let y = from(x, p.len() as int);
            assert(acc(t + f, y) == acct(c, f, y));
            if acct(c, f, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && acc(f, from(y, k)); lemma_acc_empty(f, from(y, k)); assert(aend(c, f, y)); }
            if aend(c, f, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && from(y, k) == f; lemma_acc_empty(f, from(y, k)); assert(acct(c, f, y)); }
        }
    }
}
// a parsed text and its normalized text accept the same strings, and so does the glob parsed from the normalized text
pub proof fn theorem_normalize(w: Seq<u8>, g: glob_Glob, h: glob_Glob)
    requires gshape(g), wfg(g), clean(g), glok(w, g), glok(g.Node@, h)
    ensures tw(g.Node@), forall|x: Seq<u8>| #[trigger] acc(w, x) == acc(g.Node@, x), forall|x: Seq<u8>| #[trigger] glang(h, x) == glang(g, x)
{
    theorem_text(g);
    assert forall|x: Seq<u8>| #[trigger] acc(w, x) == acc(g.Node@, x) by { assert(glang(g, x) == acc(w, x)); }
    assert forall|x: Seq<u8>| #[trigger] glang(h, x) == glang(g, x) by { assert(acc(g.Node@, x) == glang(g, x)); }
}
