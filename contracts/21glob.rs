// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs
// The language of a parsed glob.

// ---- text cut at a boundary
pub proof fn lemma_tr_dec(s: Seq<u8>, k: int)
    requires 0 < k <= s.len(), bnd(s, k)
    ensures dec_w(s.subrange(0, k)) == dec_w(s), dec_c(s.subrange(0, k)) == dec_c(s), dec_ok(s.subrange(0, k)) == dec_ok(s), 1 <= dec_w(s) <= k, from(s.subrange(0, k), dec_w(s)) == from(s, dec_w(s)).subrange(0, k - dec_w(s)), bnd(from(s, dec_w(s)), k - dec_w(s))
{
    let h = s.subrange(0, k);
    lemma_dec(s); lemma_dec(h);
    let w = dec_w(s);
    assert(from(h, w) =~= from(s, w).subrange(0, k - w));
    if dec_ok(h) { assert(starts(s, h)) by { assert(s.subrange(0, h.len() as int) =~= h); } lemma_dec_prefix(s, h); }
    if dec_ok(s) {
        let e = s.subrange(0, w);
        assert(dec_ok(h) && dec_w(h) == w && dec_c(h) == dec_c(s)) by {
            assert(h[0] == s[0]);
            if w > 1 { assert(h[1] == s[1]); }
            if w > 2 { assert(h[2] == s[2]); }
            if w > 3 { assert(h[3] == s[3]); }
        }
    }
}
pub proof fn lemma_tr_bnd(s: Seq<u8>, k: int, j: int)
    requires 0 <= j <= k <= s.len(), bnd(s, k)
    ensures bnd(s.subrange(0, k), j) == bnd(s, j)
    decreases s.len()
{
    if k > 0 && j > 0 {
        lemma_tr_dec(s, k);
        let w = dec_w(s);
        if j >= w { lemma_tr_bnd(from(s, w), k - w, j - w); }
    }
}
pub proof fn lemma_tr_skip(s: Seq<u8>, k: int, n: int)
    requires 0 <= k <= s.len(), bnd(s, k)
    ensures 0 <= skip_w(s, n) <= k ==> skip_w(s.subrange(0, k), n) == skip_w(s, n), skip_w(s.subrange(0, k), n) >= 0 ==> skip_w(s, n) == skip_w(s.subrange(0, k), n)
    decreases n
{
    let h = s.subrange(0, k);
    if n > 0 {
        if k == 0 { lemma_sk(s, n); lemma_sk(h, n); lemma_skip(h, n); } else {
            lemma_tr_dec(s, k);
            lemma_dec(s);
            let w = dec_w(s);
            lemma_tr_skip(from(s, w), k - w, n - 1);
            lemma_sk(from(s, w), n - 1); lemma_skip(from(s, w), n - 1);
            lemma_sk(from(h, w), n - 1); lemma_skip(from(h, w), n - 1);
        }
    }
}
pub proof fn lemma_tr_leaf(it: items_Item, s: Seq<u8>, k: int, j: int)
    requires 0 <= j <= k <= s.len(), bnd(s, k), wf_leaf(it)
    ensures leaf_k(it, s.subrange(0, k), j) == leaf_k(it, s, j)
{
    let h = s.subrange(0, k);
    lemma_from0(s); lemma_from0(h);
    if k > 0 { lemma_tr_dec(s, k); }
    lemma_dec(s); lemma_dec(h);
    match it {
        items_Item::Any(n) => { lemma_tr_skip(s, k, n as int); lemma_sk(h, n as int); }
        items_Item::Star(n) => { lemma_tr_skip(s, k, n as int); lemma_tr_bnd(s, k, j); lemma_sk(h, n as int); }
        items_Item::String(x) => { if j == x.S@.len() { assert(h.subrange(0, j) =~= s.subrange(0, j)); } }
        items_Item::StringList(l) => {
            assert forall|i: int| 0 <= i < l.Vals@.len() && j == (#[trigger] l.Vals@[i])@.len() implies starts(h, l.Vals@[i]@) == starts(s, l.Vals@[i]@) by { assert(h.subrange(0, j) =~= s.subrange(0, j)); }
        }
        _ => {}
    }
}
pub proof fn lemma_tr_from(s: Seq<u8>, k: int, j: int)
    requires 0 <= j <= k <= s.len(), bnd(s, k), bnd(s, j)
    ensures from(s.subrange(0, k), j) == from(s, j).subrange(0, k - j), bnd(from(s, j), k - j)
{ assert(from(s.subrange(0, k), j) =~= from(s, j).subrange(0, k - j)); lemma_bnd_add(s, j, k - j); }
pub proof fn lemma_tr_ch(c: Seq<items_Item>, s: Seq<u8>, k: int, j: int)
    requires 0 <= j <= k <= s.len(), bnd(s, k), wf_leafs(c)
    ensures ch_k(c, s.subrange(0, k), j) == ch_k(c, s, j)
    decreases c.len()
{
    if c.len() > 0 {
        lemma_leafs_tail(c);
        let d = c.drop_first();
        let h = s.subrange(0, k);
        assert forall|m: int| 0 <= m <= j && #[trigger] leaf_k(c[0], s, m) implies ch_k(d, from(h, m), j - m) == ch_k(d, from(s, m), j - m) by {
            lemma_leaf_bounds(c[0], s, m);
            lemma_tr_from(s, k, m);
            lemma_tr_ch(d, from(s, m), k - m, j - m);
        }
        assert forall|m: int| 0 <= m <= j implies #[trigger] leaf_k(c[0], h, m) == leaf_k(c[0], s, m) by { lemma_tr_leaf(c[0], s, k, m); }
        if ch_k(c, s, j) { let m = choose|m: int| 0 <= m <= j && #[trigger] leaf_k(c[0], s, m) && ch_k(d, from(s, m), j - m); assert(leaf_k(c[0], h, m)); }
        if ch_k(c, h, j) { let m = choose|m: int| 0 <= m <= j && #[trigger] leaf_k(c[0], h, m) && ch_k(d, from(h, m), j - m); assert(leaf_k(c[0], s, m)); }
    }
}
pub proof fn lemma_tr_it(it: items_Item, s: Seq<u8>, k: int, j: int)
    requires 0 <= j <= k <= s.len(), bnd(s, k), wfi(it)
    ensures it_k(it, s.subrange(0, k), j) == it_k(it, s, j)
{
    let h = s.subrange(0, k);
    match it {
        items_Item::Group(g) => {
            assert forall|i: int| 0 <= i < g.Vals@.len() implies #[trigger] val_k(g.Vals@[i], h, j) == val_k(g.Vals@[i], s, j) by {
                assert(wf_val(g.Vals@[i]));
                match g.Vals@[i] { items_Item::Chain(c) => { lemma_tr_ch(c.Items@, s, k, j); } v => { lemma_tr_leaf(v, s, k, j); } }
            }
            if it_k(it, s, j) { let i = choose|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], s, j); assert(val_k(g.Vals@[i], h, j)); }
            if it_k(it, h, j) { let i = choose|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], h, j); assert(val_k(g.Vals@[i], s, j)); }
        }
        _ => { lemma_tr_leaf(it, s, k, j); }
    }
}
pub proof fn lemma_tr_chk(c: Seq<items_Item>, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), bnd(s, k), wfs(c)
    ensures chk(c, s.subrange(0, k), k) == chk(c, s, k)
    decreases c.len()
{
    if c.len() > 0 {
        lemma_wfs_tail(c);
        let d = c.drop_first();
        let h = s.subrange(0, k);
        assert forall|m: int| 0 <= m <= k && #[trigger] it_k(c[0], s, m) implies chk(d, from(h, m), k - m) == chk(d, from(s, m), k - m) by {
            lemma_it_bounds(c[0], s, m);
            lemma_tr_from(s, k, m);
            lemma_tr_chk(d, from(s, m), k - m);
        }
        assert forall|m: int| 0 <= m <= k implies #[trigger] it_k(c[0], h, m) == it_k(c[0], s, m) by { lemma_tr_it(c[0], s, k, m); }
        if chk(c, s, k) { let m = choose|m: int| 0 <= m <= k && #[trigger] it_k(c[0], s, m) && chk(d, from(s, m), k - m); assert(it_k(c[0], h, m)); }
        if chk(c, h, k) { let m = choose|m: int| 0 <= m <= k && #[trigger] it_k(c[0], h, m) && chk(d, from(h, m), k - m); assert(it_k(c[0], s, m)); }
    }
}
// ---- what a glob accepts
// items, then the rest of the text
pub open spec fn aend(c: Seq<items_Item>, e: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] chk(c, s, k) && from(s, k) == e }
pub open spec fn glang(g: glob_Glob, s: Seq<u8>) -> bool {
    if g.Items@.len() == 0 { s == g.Node@ } else { starts(s, g.Prefix@) && aend(g.Items@, g.Suffix@, from(s, g.Prefix@.len() as int)) }
}
// what is left between prefix and suffix
pub open spec fn gmid(g: glob_Glob, s: Seq<u8>) -> Seq<u8> { s.subrange(g.Prefix@.len() as int, s.len() - g.Suffix@.len()) }
pub open spec fn vkeys(m: Map<Str, ()>, l: items_StringList) -> bool { forall|k: Str| #[trigger] m.contains_key(k) == list_k(l, k@, k@.len() as int) }
pub open spec fn isstar(c: Seq<items_Item>) -> bool { c.len() > 0 && c[0] == items_Item::Star(0) && forall|i: int| 1 <= i < c.len() ==> islit(#[trigger] c[i]) && litx(c[i]).len() == 0 }
pub open spec fn wfg(g: glob_Glob) -> bool {
    &&& wfs(g.Items@) && ok8(g.Suffix@)
    &&& 0 <= g.MinLen
    &&& g.Items@.len() == 0 ==> g.MinLen == g.Node@.len() && g.MaxLen == g.Node@.len() && g.Vals@.dom().len() == 0
    &&& g.Items@.len() > 0 ==> {
        &&& g.MinLen == g.Prefix@.len() + g.Suffix@.len() + sum_min(g.Items@)
        &&& g.MaxLen == addmax((g.Prefix@.len() + g.Suffix@.len()) as int, sum_max(g.Items@))
    }
    &&& g.Vals@.dom().len() > 0 ==> g.Items@.len() == 1 && g.Items@[0] is StringList && vkeys(g.Vals@, g.Items@[0]->StringList_0)
    &&& g.Node@ == seq![42u8] && g.Items@.len() > 0 ==> g.Prefix@.len() == 0 && g.Suffix@.len() == 0 && isstar(g.Items@)
}
pub proof fn lemma_aend_trunc(c: Seq<items_Item>, e: Seq<u8>, s: Seq<u8>)
    requires wfs(c), ok8(e)
    ensures aend(c, e, s) == (ends(s, e) && mm(c, s.subrange(0, s.len() - e.len()))),
        aend(c, e, s) ==> sum_min(c) + e.len() <= s.len() && (sum_max(c) == -1 || s.len() <= sum_max(c) + e.len())
{
    let n = s.len() - e.len();
    if aend(c, e, s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] chk(c, s, k) && from(s, k) == e;
        assert(k == n);
        lemma_chk_bounds(c, s, k);
        lemma_tr_chk(c, s, n);
        lemma_mm_chk(c, s.subrange(0, n));
        assert(from(s, n) =~= s.subrange(n, s.len() as int));
    }
    if ends(s, e) && mm(c, s.subrange(0, n)) {
        assert(from(s, n) =~= e);
        if e.len() > 0 { lemma_dec(e); lemma_ok8_first(e); assert(s[n] == e[0]); }
        lemma_bnd_start(s, n);
        lemma_tr_chk(c, s, n);
        lemma_mm_chk(c, s.subrange(0, n));
    }
}
pub proof fn lemma_ok8_first(e: Seq<u8>)
    requires ok8(e), e.len() > 0
    ensures !is_cont(e[0])
{ lemma_dec(e); }
pub proof fn lemma_isstar(c: Seq<items_Item>, s: Seq<u8>)
    requires wfs(c), isstar(c)
    ensures aend(c, Seq::empty(), s)
{
    lemma_from0(s);
    let n = s.len() as int;
    let d = c.drop_first();
    assert(from(s, n) =~= Seq::empty());
    assert(wfs(d)) by { lemma_wfs_tail(c); }
    assert forall|i: int| 0 <= i < d.len() implies islit(#[trigger] d[i]) && litx(d[i]).len() == 0 by { assert(c[i + 1] == d[i]); }
    lemma_empties(d);
    lemma_bnd_start(s, n);
    assert(it_k(c[0], s, n));
    assert(chk(d, from(s, n), n - n));
    assert(chk(c, s, n));
}
proof fn lemma_empties(d: Seq<items_Item>)
    requires wfs(d), forall|i: int| 0 <= i < d.len() ==> islit(#[trigger] d[i]) && litx(d[i]).len() == 0
    ensures chk(d, Seq::empty(), 0)
    decreases d.len()
{
    if d.len() > 0 {
        let s = Seq::<u8>::empty();
        lemma_wfs_tail(d);
        let e = d.drop_first();
        assert forall|i: int| 0 <= i < e.len() implies islit(#[trigger] e[i]) && litx(e[i]).len() == 0 by { assert(d[i + 1] == e[i]); }
        lemma_empties(e);
        lemma_lit_k(d[0], s, 0);
        assert(litx(d[0]) =~= s);
        assert(s.subrange(0, 0) =~= s);
        assert(starts(s, litx(d[0])));
        assert(it_k(d[0], s, 0));
        lemma_from0(s);
        assert(chk(e, from(s, 0), 0 - 0));
    }
}
pub proof fn lemma_list1(l: items_StringList, c: Seq<items_Item>, s: Seq<u8>)
    requires c.len() == 1, c[0] == items_Item::StringList(l)
    ensures mm(c, s) == list_k(l, s, s.len() as int)
{
    let n = s.len() as int;
    assert(c.drop_first() =~= Seq::empty());
    lemma_from0(s);
    if mm(c, s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(c[0], s, k) && mm(c.drop_first(), from(s, k)); assert(k == n); }
    if list_k(l, s, n) { assert(it_k(c[0], s, n)); assert(mm(c.drop_first(), from(s, n))); }
}
// ---- the parser
pub proof fn lemma_tw_app(t: Seq<u8>, e: Seq<u8>)
    requires nowild(e)
    ensures tw(t + e) == tw(t)
    decreases t.len()
{
    let x = t + e;
    if t.len() == 0 { assert(x =~= e); lemma_tw_lit(e, Seq::empty()); assert(e + Seq::<u8>::empty() =~= e); } else {
        assert(x[0] == t[0]);
        if t[0] == 91 { lemma_app_first(t, e, 93); let i = first_b(t, 93); if i < t.len() { lemma_from_cat(t, e, i + 1); lemma_tw_app(from(t, i + 1), e); } }
        else if t[0] == 123 {
            lemma_app_first(t, e, 125);
            let j = first_b(t, 125);
            if j < t.len() { lemma_from_cat(t, e, j + 1); lemma_tw_app(from(t, j + 1), e); lemma_from_cat(t, e, j); lemma_first_b(t, 125); assert(j > 0); assert(alts(x, j) == alts(t, j)); }
        }
        else if t[0] == 93 || t[0] == 125 {}
        else { lemma_from_cat(t, e, 1); lemma_tw_app(from(t, 1), e); }
    }
}
proof fn lemma_app_first(t: Seq<u8>, e: Seq<u8>, b: u8)
    requires nowild(e), wildb(b)
    ensures first_b(t, b) < t.len() ==> first_b(t + e, b) == first_b(t, b) && first_b(t, b) >= 0, first_b(t, b) >= t.len() ==> first_b(t + e, b) >= (t + e).len()
{
    lemma_first_b(t, b); lemma_first_b(t + e, b);
    if first_b(t, b) < t.len() { lemma_first_cat(t, e, b); } else {
        let k = first_b(t + e, b);
        if k < (t + e).len() { if k < t.len() { assert(t[k] == b); } else { assert(e[k - t.len()] == b); } }
    }
}
// a bracket without an end
pub proof fn lemma_tw_open(t: Seq<u8>)
    requires t.len() > 0, wildb(t[0]), t[0] != 42, t[0] != 63, nowild(from(t, 1))
    ensures !tw(t)
{
    lemma_first_b(t, 93); lemma_first_b(t, 125);
    assert forall|k: int| 1 <= k < t.len() implies !wildb(#[trigger] t[k]) by { assert(!wildb(from(t, 1)[k - 1])); }
}
pub proof fn lemma_acct_step(c: Seq<items_Item>, v: Seq<u8>, it: items_Item, next: Seq<u8>, d: Seq<items_Item>, u: Seq<u8>, x: Seq<u8>)
    requires nxt_ok(v, it, next), wfs(c), wfs(d), if it is Nil { d == c } else { wfi(it) && merges(c, it, d) }
    ensures acct(c, v + u, x) == acct(d, next + u, x)
{
    reveal(nxt_ok);
    if acct(c, v + u, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(v + u, from(x, k));
        assert(itt(it, next + u, from(x, k)));
        assert(acct2(c, it, next + u, x));
    }
    if acct2(c, it, next + u, x) {
        let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && itt(it, next + u, from(x, k));
        assert(acc(v + u, from(x, k)));
        assert(acct(c, v + u, x));
    }
    if it is Nil {
        if acct2(c, it, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && itt(it, next + u, from(x, k)); assert(acct(c, next + u, x)); }
        if acct(c, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(next + u, from(x, k)); assert(acct2(c, it, next + u, x)); }
    } else {
        lemma_acct_push(c, it, next + u, x);
        if acct(c.push(it), next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c.push(it), x, k) && acc(next + u, from(x, k)); lemma_merges(c, it, d, x, k); assert(acct(d, next + u, x)); }
        if acct(d, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(d, x, k) && acc(next + u, from(x, k)); lemma_merges(c, it, d, x, k); assert(acct(c.push(it), next + u, x)); }
    }
}
pub proof fn lemma_acct0(t: Seq<u8>, x: Seq<u8>)
    ensures acct(Seq::empty(), t, x) == acc(t, x)
{
    let c = Seq::<items_Item>::empty();
    lemma_from0(x);
    if acc(t, x) { assert(chk(c, x, 0)); }
    if acct(c, t, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(t, from(x, k)); assert(k == 0); }
}
// the text w accepts p, then the items, then the rest
#[verifier::opaque]
pub open spec fn glg(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, t: Seq<u8>) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(w + u, x) == (starts(x, p) && acct(c, t + u, from(x, p.len() as int))) }
#[verifier::opaque]
pub open spec fn gcs(w: Seq<u8>, t: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: int) -> bool {
    let n = w.len() - t.len();
    &&& txt(t) && t.len() <= w.len() && w.len() + e <= MAXL && tw(w) == tw(t) && 0 <= e
    &&& wfsx(c, U()) && szs(c, n) && p.len() <= 4 * n && (U() ==> ok8(p))
    &&& mn == p.len() + e + sum_min(c) && mx == addmax(p.len() + e, sum_max(c))
    &&& c.len() > 0 ==> !islit(c[0])
    &&& U() && N() ==> glg(w, p, c, t)
}
pub proof fn lemma_gcs0(w: Seq<u8>, t: Seq<u8>, p: Seq<u8>, e: int)
    requires w == p + t, txt(t), nowild(p), w.len() + e <= MAXL, e >= 0, U() ==> ok8(p)
    ensures gcs(w, t, p, Seq::empty(), p.len() + e, p.len() + e, e)
{
    reveal(gcs); reveal(glg);
    lemma_tw_lit(p, t);
    let c = Seq::<items_Item>::empty();
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(w + u, x) == (starts(x, p) && acct(c, t + u, from(x, p.len() as int))) by {
        assert(w + u =~= p + (t + u));
        lemma_acc_lit(p, t + u, x);
        lemma_acct0(t + u, from(x, p.len() as int));
    }
}
pub proof fn lemma_gcs_at(w: Seq<u8>, t: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: int)
    requires gcs(w, t, p, c, mn, mx, e)
    ensures txt(t), tw(w) == tw(t), wfsx(c, U()), 0 <= mn <= 9 * MAXL, -1 <= mx <= 9 * MAXL, c.len() > 0 ==> !islit(c[0]) && wfix(c.last(), U()) && 0 <= cnt(c.last()) <= w.len() - t.len() <= MAXL
{ reveal(gcs); if c.len() > 0 { assert(cnt(c[c.len() - 1]) <= w.len() - t.len()); assert(wfix(c[c.len() - 1], U())); lemma_leafx_mins(c.last(), U()); } }
pub open spec fn gstep(p: Seq<u8>, c: Seq<items_Item>, it: items_Item, q: Seq<u8>, d: Seq<items_Item>) -> bool {
    if it is Nil { q == p && d == c } else if c.len() == 0 && islit(it) { q == p + litx(it) && d == c } else { q == p && merges(c, it, d) }
}
pub proof fn lemma_gcs_step(w: Seq<u8>, t: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: int, it: items_Item, next: Seq<u8>, q: Seq<u8>, d: Seq<items_Item>)
    requires gcs(w, t, p, c, mn, mx, e), nxt(t, it, next), gstep(p, c, it, q, d)
    ensures gcs(w, next, q, d, mn + leaf_min(it), addmax(mx, leaf_max(it)), e)
{
    reveal(gcs); reveal(glg);
    let n = w.len() - t.len();
    let m = t.len() - next.len();
    lemma_sumx_pos(c, U());
    if it is Nil {
        assert(szs(d, n + m)) by { assert forall|i: int| 0 <= i < d.len() implies cnt(#[trigger] d[i]) <= n + m by { assert(cnt(c[i]) <= n); } }
    } else if c.len() == 0 && islit(it) {
        match it { items_Item::Rune(r) => { lemma_enc_len(r as int); } _ => {} }
        if U() { lemma_wfix(it); lemma_lit_k(it, Seq::empty(), 0); lemma_ok8_cat(p, litx(it)); }
    } else {
        lemma_merges_sz(c, it, d, U(), n, m);
        lemma_leafx_mins(it, U());
        if c.len() > 0 {
            if can_merge(c.last(), it) {
                if c.len() == 1 { assert(d[0] == d.last()); assert(c[0] == c.last()); } else { assert(d[0] == d.drop_last()[0]); assert(c.drop_last()[0] == c[0]); }
            } else { assert(d[0] == c[0]); }
        } else { assert(d[0] == it); }
    }
    if U() && N() {
        lemma_wfsx(c); lemma_wfsx(d);
        if !(it is Nil) { lemma_wfix(it); }
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(w + u, x) == (starts(x, q) && acct(d, next + u, from(x, q.len() as int))) by {
            assert(acc(w + u, x) == (starts(x, p) && acct(c, t + u, from(x, p.len() as int))));
            if !(it is Nil) && c.len() == 0 && islit(it) {
                let l = litx(it);
                let y = from(x, p.len() as int);
                assert(c =~= Seq::empty());
                lemma_acct0(t + u, y);
                lemma_cat_starts(x, p, l);
                lemma_acct0(next + u, from(x, q.len() as int));
                if starts(x, p) {
                    assert(acc(t + u, y) == itt(it, next + u, y)) by { reveal(nxt_ok); }
                    if itt(it, next + u, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] it_k(it, y, k) && acc(next + u, from(y, k)); lemma_lit_k(it, y, k); lemma_from_from(x, p.len() as int, k); }
                    if starts(y, l) { lemma_lit_k(it, y, l.len() as int); lemma_from_from(x, p.len() as int, l.len() as int); assert(it_k(it, y, l.len() as int)); }
                }
            } else if starts(x, p) {
                lemma_acct_step(c, t, it, next, d, u, from(x, p.len() as int));
            }
        }
    }
}
pub proof fn lemma_cat_starts(s: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    ensures starts(s, x + y) == (starts(s, x) && starts(from(s, x.len() as int), y))
{
    if starts(s, x + y) {
        assert forall|i: int| 0 <= i < x.len() + y.len() implies #[trigger] s[i] == (x + y)[i] by { assert(s.subrange(0, (x + y).len() as int)[i] == (x + y)[i]); }
        assert(s.subrange(0, x.len() as int) =~= x);
        assert(from(s, x.len() as int).subrange(0, y.len() as int) =~= y);
    }
    if starts(s, x) && starts(from(s, x.len() as int), y) {
        assert forall|i: int| 0 <= i < x.len() + y.len() implies #[trigger] s.subrange(0, (x + y).len() as int)[i] == (x + y)[i] by {
            if i < x.len() { assert(s.subrange(0, x.len() as int)[i] == x[i]); } else { assert(from(s, x.len() as int).subrange(0, y.len() as int)[i - x.len()] == y[i - x.len()]); }
        }
    }
}
// the end of the text: what was read, then the suffix
#[verifier::opaque]
pub open spec fn gfin(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, e: Seq<u8>) -> bool { forall|x: Seq<u8>| #[trigger] acc(w, x) == (starts(x, p) && aend(c, e, from(x, p.len() as int))) }
#[verifier::opaque]
pub open spec fn gcf(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: Seq<u8>) -> bool {
    &&& wfsx(c, U()) && (U() ==> ok8(p) && ok8(e))
    &&& 0 <= mn == p.len() + e.len() + sum_min(c) && mx == addmax((p.len() + e.len()) as int, sum_max(c))
    &&& c.len() > 0 ==> !islit(c[0])
    &&& cntle(c, MAXL)
    &&& mn <= 8 * w.len() && -1 <= mx <= 8 * w.len()
    &&& U() && N() ==> gfin(w, p, c, e)
}
pub proof fn lemma_gcf0(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: Seq<u8>)
    requires gcs(w, Seq::empty(), p, c, mn, mx, e.len() as int), nowild(e), U() ==> ok8(e)
    ensures gcf(w + e, p, c, mn, mx, e), tw(w + e)
{
    reveal(gcs); reveal(gcf); reveal(glg); reveal(gfin);
    lemma_sumx_pos(c, U());
    lemma_tw_app(w, e);
    if U() && N() {
        assert forall|x: Seq<u8>| #[trigger] acc(w + e, x) == (starts(x, p) && aend(c, e, from(x, p.len() as int))) by {
            let y = from(x, p.len() as int);
            assert(Seq::<u8>::empty() + e =~= e);
            assert(acc(w + e, x) == (starts(x, p) && acct(c, e, y)));
            if acct(c, e, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && acc(e, from(y, k)); lemma_acc_empty(e, from(y, k)); }
            if aend(c, e, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && from(y, k) == e; lemma_acc_empty(e, from(y, k)); }
        }
    }
}
// the last literal becomes a part of the suffix
pub proof fn lemma_gcf_sfx(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: Seq<u8>)
    requires gcf(w, p, c, mn, mx, e), c.len() > 1, islit(c.last())
    ensures gcf(w, p, c.drop_last(), mn, mx, litx(c.last()) + e)
{
    reveal(gcf); reveal(gfin);
    let d = c.drop_last();
    let z = c.last();
    let l = litx(z);
    lemma_wfsx_tail(c, U());
    lemma_sumx_pos(d, U());
    match z { items_Item::Rune(r) => { lemma_enc_len(r as int); } _ => {} }
    assert(d[0] == c[0]);
    assert forall|i: int| 0 <= i < d.len() implies cnt(#[trigger] d[i]) <= MAXL by { assert(cnt(c[i]) <= MAXL); }
    if U() { lemma_wfix(z); lemma_lit_k(z, Seq::empty(), 0); lemma_ok8_cat(l, e); lemma_wfsx(d); }
    if U() && N() {
        assert(c =~= d.push(z));
        assert forall|x: Seq<u8>| #[trigger] acc(w, x) == (starts(x, p) && aend(d, l + e, from(x, p.len() as int))) by {
            let y = from(x, p.len() as int);
            if aend(c, e, y) {
                let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && from(y, k) == e;
                lemma_chk_push(d, z, y, k);
                let j = choose|j: int| 0 <= j <= k && #[trigger] chk(d, y, j) && it_k(z, from(y, j), k - j);
                lemma_lit_k(z, from(y, j), k - j);
                assert(from(y, j) =~= l + e) by { lemma_from_from(y, j, k - j); let f = from(y, j); assert(f =~= f.subrange(0, k - j) + from(f, k - j)); }
                assert(aend(d, l + e, y));
            }
            if aend(d, l + e, y) {
                let j = choose|j: int| 0 <= j <= y.len() && #[trigger] chk(d, y, j) && from(y, j) == l + e;
                let k = j + l.len();
                lemma_from_from(y, j, l.len() as int);
                assert(from(l + e, l.len() as int) =~= e);
                assert((l + e).subrange(0, l.len() as int) =~= l);
                lemma_lit_k(z, from(y, j), l.len() as int);
                assert(chk(d, y, j) && it_k(z, from(y, j), k - j));
                assert(chk2(d, z, y, k));
                lemma_chk_push(d, z, y, k);
                assert(chk(c, y, k));
            }
        }
    }
}
pub proof fn lemma_gcf_at(w: Seq<u8>, p: Seq<u8>, c: Seq<items_Item>, mn: int, mx: int, e: Seq<u8>)
    requires gcf(w, p, c, mn, mx, e)
    ensures wfsx(c, U()), c.len() > 0 ==> !islit(c[0]), forall|i: int| 0 <= i < c.len() ==> wfx(#[trigger] c[i]) && !(c[i] is Nil), 0 <= mn <= 8 * w.len(), -1 <= mx <= 8 * w.len(),
{ reveal(gcf); }
// the text of the items so far
#[verifier::opaque]
pub open spec fn gtx(p: Seq<u8>, c: Seq<items_Item>, i: int, b: Seq<u8>) -> bool {
    &&& 0 <= i <= c.len() && b == p + itxs(c, i)
    &&& i == 0 ==> b == p
    &&& i > 0 ==> b.len() > 0 && (b == seq![42u8] ==> p.len() == 0 && isstar(c.subrange(0, i))) 
}
pub proof fn lemma_gtx0(p: Seq<u8>, c: Seq<items_Item>)
    ensures gtx(p, c, 0, p)
{ reveal(gtx); assert(p + itxs(c, 0) =~= p); }
pub proof fn lemma_gtx_step(p: Seq<u8>, c: Seq<items_Item>, i: int, b: Seq<u8>, t: Seq<u8>)
    requires gtx(p, c, i, b), i < c.len(), wfsx(c, U()), !islit(c[0]), wok(c[i], t)
    ensures gtx(p, c, i + 1, b + t)
{
    reveal(gtx);
    let d = b + t;
    assert(d =~= p + itxs(c, i + 1));
    assert(wfix(c[i], U()));
    if i == 0 {
        assert(t.len() > 0);
        if d == seq![42u8] { assert(d.len() == 1); assert(b.len() == 0); assert(d =~= t); assert(d[0] == 42u8); assert(c[0] == items_Item::Star(0)); assert(c.subrange(0, 1)[0] == c[0]); }
    } else if d == seq![42u8] {
        assert(d.len() == 1);
        assert(t.len() == 0); assert(b =~= d);
        match c[i] { items_Item::Rune(r) => { lemma_enc_len(r as int); } _ => {} }
        assert(islit(c[i]) && litx(c[i]).len() == 0);
        let a = c.subrange(0, i);
        let n = c.subrange(0, i + 1);
        assert forall|k: int| 1 <= k < n.len() implies islit(#[trigger] n[k]) && litx(n[k]).len() == 0 by { if k < i { assert(a[k] == n[k]); } }
        assert(a[0] == n[0]);
    }
}
pub proof fn lemma_gtx_end(p: Seq<u8>, c: Seq<items_Item>, b: Seq<u8>, e: Seq<u8>)
    requires gtx(p, c, c.len() as int, b), c.len() > 0
    ensures b + e == seq![42u8] ==> p.len() == 0 && e.len() == 0 && isstar(c), b == p + itxs(c, c.len() as int)
{ reveal(gtx); if b + e == seq![42u8] { assert((b + e).len() == 1); assert(e.len() == 0); assert(b =~= b + e); assert(c.subrange(0, c.len() as int) =~= c); } }
// how a parsed glob looks like: its text is the one of its items
pub open spec fn gshape(g: glob_Glob) -> bool {
    &&& g.Items@.len() == 0 ==> g.Prefix@.len() == 0 && g.Suffix@.len() == 0 && (U() ==> ok8(g.Node@))
    &&& g.Items@.len() > 0 ==> g.Node@ == g.Prefix@ + itxs(g.Items@, g.Items@.len() as int) + g.Suffix@ && !islit(g.Items@[0])
    &&& U() ==> ok8(g.Prefix@) && ok8(g.Suffix@)
}
pub proof fn lemma_shape_items(w: Seq<u8>, g: glob_Glob, mn: int, mx: int)
    requires gcf(w, g.Prefix@, g.Items@, mn, mx, g.Suffix@), g.Items@.len() > 0, g.Node@ == g.Prefix@ + itxs(g.Items@, g.Items@.len() as int) + g.Suffix@
    ensures gshape(g)
{ reveal(gcf); }
pub proof fn lemma_shape_node(w: Seq<u8>, p: Seq<u8>, e: Seq<u8>, mn: int, mx: int, g: glob_Glob)
    requires gcf(w, p, Seq::empty(), mn, mx, e), g.Items@.len() == 0, g.Node@ == p + e, g.Prefix@.len() == 0, g.Suffix@.len() == 0
    ensures gshape(g)
{ reveal(gcf); if U() { lemma_ok8_cat(p, e); } assert(g.Prefix@ =~= Seq::<u8>::empty()); assert(g.Suffix@ =~= Seq::<u8>::empty()); }
// the finished glob
pub open spec fn glok(w: Seq<u8>, g: glob_Glob) -> bool { forall|x: Seq<u8>| #[trigger] glang(g, x) == acc(w, x) }
pub proof fn lemma_gok_items(w: Seq<u8>, g: glob_Glob)
    requires gcf(w, g.Prefix@, g.Items@, g.MinLen as int, g.MaxLen as int, g.Suffix@), g.Items@.len() > 0,
        g.Vals@.dom().len() > 0 ==> g.Items@.len() == 1 && g.Items@[0] is StringList && vkeys(g.Vals@, g.Items@[0]->StringList_0),
        g.Node@ == seq![42u8] ==> g.Prefix@.len() == 0 && g.Suffix@.len() == 0 && isstar(g.Items@)
    ensures U() ==> wfg(g), U() && N() ==> glok(w, g)
{
    reveal(gcf); reveal(gfin);
    if U() { lemma_wfsx(g.Items@); }
    if U() && N() { assert forall|x: Seq<u8>| #[trigger] glang(g, x) == acc(w, x) by { assert(acc(w, x) == (starts(x, g.Prefix@) && aend(g.Items@, g.Suffix@, from(x, g.Prefix@.len() as int)))); } }
}
pub proof fn lemma_gok_node(w: Seq<u8>, p: Seq<u8>, e: Seq<u8>, g: glob_Glob)
    requires gcf(w, p, Seq::empty(), g.MinLen as int, g.MaxLen as int, e), g.Items@.len() == 0, g.Node@ == p + e, g.Vals@.dom().len() == 0, g.Suffix@.len() == 0
    ensures U() ==> wfg(g), U() && N() ==> glok(w, g)
{
    reveal(gcf); reveal(gfin);
    let c = Seq::<items_Item>::empty();
    assert(g.Items@ =~= c);
    assert(ok8(g.Suffix@));
    if U() && N() {
        assert forall|x: Seq<u8>| #[trigger] glang(g, x) == acc(w, x) by {
            let y = from(x, p.len() as int);
            assert(acc(w, x) == (starts(x, p) && aend(c, e, y)));
            lemma_from0(y);
            if starts(x, p) && aend(c, e, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] chk(c, y, k) && from(y, k) == e; assert(k == 0); assert(x =~= x.subrange(0, p.len() as int) + y); }
            if x == p + e { assert(x.subrange(0, p.len() as int) =~= p); assert(y =~= e); assert(chk(c, y, 0)); assert(aend(c, e, y)); }
        }
    }
}
pub proof fn lemma_gok_plain(g: glob_Glob)
    requires nowild(g.Node@), g.Items@.len() == 0, g.MinLen == g.Node@.len(), g.MaxLen == g.Node@.len(), g.Vals@.dom().len() == 0, g.Suffix@.len() == 0
    ensures wfg(g), glok(g.Node@, g), tw(g.Node@)
{
    lemma_tw_lit(g.Node@, Seq::empty());
    assert(g.Node@ + Seq::<u8>::empty() =~= g.Node@);
    assert forall|x: Seq<u8>| #[trigger] glang(g, x) == acc(g.Node@, x) by { lemma_acc_empty(g.Node@, x); }
}
// ---- the values of a list
pub proof fn lemma_has_step(l: Seq<Str>, i: int, k: Str)
    requires 0 <= i < l.len()
    ensures has(l, i + 1, k) == (has(l, i, k) || l[i] == k)
{
    reveal(has);
    if has(l, i, k) { let j = choose|j: int| 0 <= j < i && #[trigger] l[j] == k; assert(l[j] == k); }
}
pub proof fn lemma_has_list(l: items_StringList, k: Str)
    ensures list_k(l, k@, k@.len() as int) == ((l.MinSize == 0 && k@.len() == 0) || has(l.Vals@, l.Vals@.len() as int, k))
{
    reveal(has);
    if has(l.Vals@, l.Vals@.len() as int, k) { let j = choose|j: int| 0 <= j < l.Vals@.len() && #[trigger] l.Vals@[j] == k; assert(k@.subrange(0, k@.len() as int) =~= k@); assert(starts(k@, l.Vals@[j]@)); }
    if list_k(l, k@, k@.len() as int) && !(l.MinSize == 0 && k@.len() == 0) {
        let j = choose|j: int| 0 <= j < l.Vals@.len() && starts(k@, (#[trigger] l.Vals@[j])@) && k@.len() == l.Vals@[j]@.len();
        assert(k@.subrange(0, k@.len() as int) =~= k@);
        assert(l.Vals@[j]@ == k@); assert(l.Vals@[j] == k);
    }
}
