// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs
// Reading of items from a text.

pub open spec fn wcs() -> Seq<u8> { Seq::<u8>::empty().push(91u8).push(93u8).push(123u8).push(125u8).push(42u8).push(63u8) }
pub broadcast proof fn axiom_wcs(b: u8)
    ensures #[trigger] wcs().contains(b) == wildb(b)
{ assert(wcs() =~= seq![91u8, 93u8, 123u8, 125u8, 42u8, 63u8]); lemma_wildset(wcs()); }
pub proof fn lemma_wcs()
    ensures ascii(wcs()), forall|b: u8| wcs().contains(b) == wildb(b)
{ assert(wcs() =~= seq![91u8, 93u8, 123u8, 125u8, 42u8, 63u8]); lemma_wildset(wcs()); }
// bounds of the values seen so far
#[verifier::opaque]
pub open spec fn mmx(its: Seq<items_Item>, i: int, mn: int, mx: int) -> bool {
    &&& 0 < i <= its.len() && 0 <= mn && -1 <= mx && (mx == -1 || mn <= mx)
    &&& forall|k: int| 0 <= k < i ==> mn <= leaf_min(#[trigger] its[k]) && (mx == -1 || 0 <= leaf_max(its[k]) <= mx)
    &&& exists|k: int| 0 <= k < i && leaf_min(#[trigger] its[k]) == mn
    &&& mx == -1 || exists|k: int| 0 <= k < i && leaf_max(#[trigger] its[k]) == mx
}
pub proof fn lemma_valx_mins(it: items_Item, n: int)
    requires wf_valx(it, U()), szb(it, n)
    ensures 0 <= leaf_min(it) <= 4 * n, -1 <= leaf_max(it) <= 4 * n, leaf_max(it) == -1 || leaf_min(it) <= leaf_max(it)
{}
pub proof fn lemma_mmx0(its: Seq<items_Item>, n: int)
    requires its_ok(its, n), its.len() > 0
    ensures mmx(its, 1, leaf_min(its[0]), leaf_max(its[0]))
{ reveal(mmx); lemma_valx_mins(its[0], n); }
pub proof fn lemma_mmx_step(its: Seq<items_Item>, i: int, mn: int, mx: int, n: int)
    requires its_ok(its, n), 0 < i < its.len(), mmx(its, i, mn, mx)
    ensures mmx(its, i + 1, if mn > leaf_min(its[i]) { leaf_min(its[i]) } else { mn }, if mx != -1 && (leaf_max(its[i]) == -1 || mx < leaf_max(its[i])) { leaf_max(its[i]) } else { mx })
{
    reveal(mmx); lemma_valx_mins(its[i], n);
}
pub proof fn lemma_mmx_end(g: items_Group, n: int)
    requires its_ok(g.Vals@, n), 0 <= n <= MAXL, mmx(g.Vals@, g.Vals@.len() as int, g.MinSize as int, g.MaxSize as int)
    ensures wf_groupx(g, U()), gsz(g, n)
{
    reveal(mmx);
    let v = g.Vals@;
    let k = choose|k: int| 0 <= k < v.len() && leaf_min(#[trigger] v[k]) == g.MinSize;
    lemma_valx_mins(v[k], n);
    assert forall|i: int| 0 <= i < v.len() implies wf_valx(#[trigger] v[i], U()) && szb(v[i], n) by {}
    if g.MaxSize != -1 { let j = choose|j: int| 0 <= j < v.len() && leaf_max(#[trigger] v[j]) == g.MaxSize; lemma_valx_mins(v[j], n); }
}
// ---- one literal value
pub proof fn lemma_lit1(l: Seq<Str>, it: items_Item)
    requires vals_ok(l), l.len() == 1, nowild(l[0]@), l[0]@.len() > 0, islit(it), litx(it) == l[0]@, !(it is String) ==> wf_leafx(it, U())
    ensures allv_tw(l), wfix(it, U()), isz(it, maxl(l)), U() && N() ==> alt_ok(l, it)
{
    reveal(alt_ok);
    let v = l[0]@;
    lemma_vals_at(l, 0);
    lemma_maxl(l, 0);
    lemma_tw_lit(v, Seq::empty());
    assert(v + Seq::<u8>::empty() =~= v);
    match it { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
    if U() {
        lemma_wfix(it);
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(it, u, x) by {
            lemma_acc_lit(v, u, x);
            if alts_acc(l, u, x) { let i = choose|i: int| 0 <= i < l.len() && acc((#[trigger] l[i])@ + u, x); assert(i == 0); lemma_lit_k(it, x, v.len() as int); assert(it_k(it, x, v.len() as int)); }
            if itt(it, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(it, x, k) && acc(u, from(x, k)); lemma_lit_k(it, x, k); assert(acc(l[0]@ + u, x)); }
        }
    }
}
pub proof fn lemma_empty1(l: Seq<Str>)
    requires l.len() == 1, l[0]@.len() == 0
    ensures allv_tw(l), alt_ok(l, items_Item::Nil), maxl(l) >= 0
{
    reveal(alt_ok);
    lemma_maxl(l, 0);
    assert(l[0]@ =~= Seq::empty());
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(items_Item::Nil, u, x) by {
        assert(l[0]@ + u =~= u);
        if alts_acc(l, u, x) { let i = choose|i: int| 0 <= i < l.len() && acc((#[trigger] l[i])@ + u, x); assert(i == 0); }
    }
}
// ---- a list of literal values
#[verifier::opaque]
pub open spec fn lsc(l: Seq<Str>, i: int, mn: int, mx: int) -> bool {
    &&& 0 <= i <= l.len() && 0 <= mx
    &&& forall|k: int| 0 <= k < i ==> nowild((#[trigger] l[k])@) && mn <= l[k]@.len() <= mx
    &&& i == 0 ==> mn == 0x7fff_ffff_ffff_ffff && mx == 0
    &&& i > 0 ==> exists|k: int| 0 <= k < i && (#[trigger] l[k])@.len() == mn
    &&& i > 0 ==> exists|k: int| 0 <= k < i && (#[trigger] l[k])@.len() == mx
}
pub proof fn lemma_lsc0(l: Seq<Str>)
    ensures lsc(l, 0, 0x7fff_ffff_ffff_ffff, 0)
{ reveal(lsc); }
pub proof fn lemma_lsc_step(l: Seq<Str>, i: int, mn: int, mx: int)
    requires lsc(l, i, mn, mx), i < l.len(), nowild(l[i]@), mn <= 0x7fff_ffff_ffff_ffff
    ensures lsc(l, i + 1, if mn > l[i]@.len() { l[i]@.len() as int } else { mn }, if mx < l[i]@.len() { l[i]@.len() as int } else { mx })
{ reveal(lsc); if i > 0 { let k = choose|k: int| 0 <= k < i && (#[trigger] l[k])@.len() == mn; assert(l[k]@.len() == mn); } }
pub proof fn lemma_lsc_end(l: Seq<Str>, mn: int, mx: int)
    requires lsc(l, l.len() as int, mn, mx), l.len() > 0, nempty(l), vals_ok(l)
    ensures 0 <= mn <= mx <= maxl(l), mn == 0 ==> l[0]@.len() == 0, allv_tw(l)
{
    reveal(lsc);
    lemma_maxl(l, 0);
    assert(mn <= l[0]@.len() <= mx);
    let k = choose|k: int| 0 <= k < l.len() && (#[trigger] l[k])@.len() == mn;
    if mn == 0 { assert(k == 0); }
    assert forall|i: int| 0 <= i < l.len() implies tw((#[trigger] l[i])@) by { lemma_tw_lit(l[i]@, Seq::empty()); assert(l[i]@ + Seq::<u8>::empty() =~= l[i]@); }
}
pub proof fn lemma_slist(l: Seq<Str>, it: items_StringList)
    requires lsc(l, l.len() as int, it.MinSize as int, it.MaxSize as int), l.len() > 0, nempty(l), vals_ok(l), it.Vals@ == (if it.MinSize == 0 { l.subrange(1, l.len() as int) } else { l })
    ensures wf_listx(it, U()), szb(items_Item::StringList(it), maxl(l)), alt_ok(l, items_Item::StringList(it))
{
    let li = items_Item::StringList(it);
    lemma_lsc_end(l, it.MinSize as int, it.MaxSize as int);
    lemma_maxl(l, MAXL);
    let b = if it.MinSize == 0 { 1int } else { 0 };
    reveal(lsc); reveal(alt_ok);
    assert forall|i: int| 0 <= i < it.Vals@.len() implies (#[trigger] it.Vals@[i]) == l[i + b] && it.Vals@[i]@.len() > 0 && (U() ==> ok8(it.Vals@[i]@)) && it.MinSize <= it.Vals@[i]@.len() <= it.MaxSize by { lemma_vals_at(l, i + b); assert(nowild(l[i + b]@)); }
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(li, u, x) by {
        lemma_from0(x);
        if alts_acc(l, u, x) {
            let i = choose|i: int| 0 <= i < l.len() && acc((#[trigger] l[i])@ + u, x);
            lemma_acc_lit(l[i]@, u, x);
            let k = l[i]@.len() as int;
            if i >= b { assert(it.Vals@[i - b] == l[i]); }
            assert(list_k(it, x, k));
            assert(it_k(li, x, k));
        }
        if itt(li, u, x) {
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(li, x, k) && acc(u, from(x, k));
            if it.MinSize == 0 && k == 0 { assert(l[0]@ =~= Seq::<u8>::empty()); assert(l[0]@ + u =~= u); assert(acc(l[0]@ + u, x)); } else {
                let i = choose|i: int| 0 <= i < it.Vals@.len() && starts(x, (#[trigger] it.Vals@[i])@) && k == it.Vals@[i]@.len();
                assert(it.Vals@[i] == l[i + b]);
                lemma_acc_lit(l[i + b]@, u, x);
                assert(acc(l[i + b]@ + u, x));
            }
        }
    }
}
// ---- one item of a text
pub proof fn lemma_isz_mono(it: items_Item, n: int, m: int)
    requires isz(it, n), n <= m
    ensures isz(it, m)
{ match it { items_Item::Group(g) => { assert forall|i: int| 0 <= i < g.Vals@.len() implies szb(#[trigger] g.Vals@[i], m) by { assert(szb(g.Vals@[i], n)); } } _ => {} } }
pub proof fn lemma_rd_cls(t: Seq<u8>, rs: utils_RunesRanges, it: items_Item)
    requires txt(t), t.len() > 0, t[0] == 91, first_b(t, 93) < t.len(), class_ok(t.subrange(0, first_b(t, 93) + 1)), rok(rs), rsz(rs),
        forall|x: int| #[trigger] rin(rs, x) == class_in(t.subrange(0, first_b(t, 93) + 1), x), cls_it(rs, it)
    ensures nxt(t, it, from(t, first_b(t, 93) + 1))
{
    let i = first_b(t, 93);
    lemma_first_b(t, 93);
    let c = t.subrange(0, i + 1);
    lemma_txt_cut(t, i + 1);
    lemma_cls_it(c, rs, it);
    if N() { assert(nonul(c)); lemma_nxt_class(t, it); }
}
pub proof fn lemma_rd_lit(t: Seq<u8>, n: int, it: items_Item)
    requires txt(t), 0 < n <= t.len(), n == t.len() || wildb(t[n]), nowild(t.subrange(0, n)), islit(it), litx(it) == t.subrange(0, n), !(it is String) ==> wf_leafx(it, U())
    ensures nxt(t, it, from(t, n))
{
    lemma_txt_cut(t, n);
    match it { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
    if U() { lemma_wfix(it); }
    lemma_nxt_lit(t, n, it);
}
pub proof fn lemma_rd_star(t: Seq<u8>, n: int)
    requires txt(t), 0 < n <= t.len(), stars(t.subrange(0, n))
    ensures nxt(t, items_Item::Star(0), from(t, n))
{
    assert(t[n - 1] == 42) by { assert(t.subrange(0, n)[n - 1] == 42); }
    lemma_txt_cut(t, n);
    lemma_nxt_stars(t, n);
}
pub proof fn lemma_rd_any(t: Seq<u8>)
    requires txt(t), t.len() > 0, t[0] == 63
    ensures nxt(t, items_Item::Any(1), from(t, 1))
{ lemma_txt_cut(t, 1); lemma_nxt_any(t); }
pub open spec fn lst_of(t: Seq<u8>, l: Seq<Str>) -> bool {
    &&& t.len() > 0 && t[0] == 123 && first_b(t, 125) < t.len() && txt(t)
    &&& same_in(l, alts(t, first_b(t, 125))) || (first_b(t, 125) == 1 && l.len() == 0)
}
pub proof fn lemma_rd_list(t: Seq<u8>, l: Seq<Str>, it: items_Item)
    requires lst_of(t, l), allv_tw(l), it is Nil || wfix(it, U()), isz(it, maxl(l)), l.len() == 0 ==> it is Nil, U() && N() && l.len() > 0 ==> alt_ok(l, it)
    ensures nxt(t, it, from(t, first_b(t, 125) + 1))
{
    let j = first_b(t, 125);
    lemma_first_b(t, 125);
    lemma_txt_cut(t, j + 1);
    lemma_nxt_list(t, l, it);
    lemma_isz_mono(it, maxl(l), j + 1);
    assert(t[j] == 125);
}
