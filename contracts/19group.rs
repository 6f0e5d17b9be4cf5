// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs
// Lists with wildcards: text of items, equal values, groups.

pub open spec fn rk(it: items_Item) -> int { match it { items_Item::Group(_) => 3, items_Item::Chain(_) => 2, _ => 0 } }
// an item, or a value of a group
pub open spec fn wfx(it: items_Item) -> bool { wfix(it, U()) || wf_valx(it, U()) }
// the text of an item
pub open spec fn ltx(v: Seq<Str>, m: bool, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { (if n > 1 || m { ltx(v, m, n - 1).push(44u8) } else { ltx(v, m, n - 1) }) + v[n - 1]@ } }
pub open spec fn leaftx(it: items_Item) -> Seq<u8> {
    match it {
        items_Item::Any(n) => rep(seq![63u8], n as int),
        items_Item::Star(n) => seq![42u8] + rep(seq![63u8], n as int),
        items_Item::RunesRanges(r) => rstext(r.RunesRanges),
        items_Item::StringList(l) => (seq![123u8] + ltx(l.Vals@, l.MinSize == 0, l.Vals@.len() as int)).push(125u8),
        _ => litx(it),
    }
}
pub open spec fn ctx(c: Seq<items_Item>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { ctx(c, n - 1) + leaftx(c[n - 1]) } }
pub open spec fn valtx(v: items_Item) -> Seq<u8> { match v { items_Item::Chain(c) => ctx(c.Items@, c.Items@.len() as int), _ => leaftx(v) } }
pub open spec fn gvtx(v: Seq<items_Item>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { (if n > 1 { gvtx(v, n - 1).push(44u8) } else { gvtx(v, n - 1) }) + valtx(v[n - 1]) } }
pub open spec fn itx(it: items_Item) -> Seq<u8> { match it { items_Item::Group(g) => (seq![123u8] + gvtx(g.Vals@, g.Vals@.len() as int)).push(125u8), _ => valtx(it) } }
// the texts of items one after another
pub open spec fn itxs(c: Seq<items_Item>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { itxs(c, n - 1) + itx(c[n - 1]) } }
pub open spec fn wok(it: items_Item, t: Seq<u8>) -> bool {
    t == itx(it) && match it {
        items_Item::Any(n) => t.len() == n && (n > 0 ==> t[0] == 63),
        items_Item::Star(n) => t.len() == n + 1 && t[0] == 42,
        items_Item::RunesRanges(r) => t.len() > 1 && t[0] == 91,
        items_Item::StringList(l) => t.len() > 1 && t[0] == 123,
        items_Item::Group(g) => t.len() > 1 && t[0] == 123,
        items_Item::Byte(c) => t == litx(it),
        items_Item::Rune(c) => t == litx(it),
        items_Item::String(x) => t == litx(it),
        _ => true,
    }
}
pub proof fn lemma_appd(b: Seq<u8>, x: u8, c: Seq<u8>)
    requires starts(c, b.push(x))
    ensures c == b + from(c, b.len() as int), from(c, b.len() as int).len() > 0, from(c, b.len() as int)[0] == x
{
    let t = b.push(x);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] c[i] == t[i] by { assert(c.subrange(0, t.len() as int)[i] == t[i]); }
    assert(c =~= b + from(c, b.len() as int));
}
// ---- what Equal compares
pub enum Cl { Any(int), Star(int), Byte(u8), Rune(int), Rng(Ar<u32, 8>, Seq<utils_RuneRange>, int, int), Lit(Seq<u8>), List(Seq<Str>, int, int), Bad }
pub enum Ce { Leaf(Cl), Chain(Seq<Cl>), Group(Seq<Ce>), Bad }
pub open spec fn cl(it: items_Item) -> Cl {
    match it {
        items_Item::Any(n) => Cl::Any(n as int),
        items_Item::Star(n) => Cl::Star(n as int),
        items_Item::Byte(c) => Cl::Byte(c),
        items_Item::Rune(c) => Cl::Rune(c as int),
        items_Item::RunesRanges(r) => Cl::Rng(r.RunesRanges.ASCII, r.RunesRanges.UnicodeRanges@, r.RunesRanges.MinSize as int, r.RunesRanges.MaxSize as int),
        items_Item::String(x) => Cl::Lit(x.S@),
        items_Item::StringList(l) => Cl::List(l.Vals@, l.MinSize as int, l.MaxSize as int),
        _ => Cl::Bad,
    }
}
pub open spec fn cls(c: Seq<items_Item>) -> Seq<Cl> { Seq::new(c.len(), |i: int| cl(c[i])) }
pub open spec fn cv(v: items_Item) -> Ce { match v { items_Item::Chain(c) => Ce::Chain(cls(c.Items@)), items_Item::Group(g) => Ce::Bad, items_Item::Nil => Ce::Bad, _ => Ce::Leaf(cl(v)) } }
pub open spec fn cvs(c: Seq<items_Item>) -> Seq<Ce> { Seq::new(c.len(), |i: int| cv(c[i])) }
pub open spec fn ce(it: items_Item) -> Ce { match it { items_Item::Group(g) => Ce::Group(cvs(g.Vals@)), _ => cv(it) } }
pub proof fn lemma_cv(a: items_Item, b: items_Item)
    requires wf_valx(a, U())
    ensures (ce(a) == ce(b)) == (cv(a) == cv(b))
{}
// ---- values which accept the same
#[verifier::opaque]
pub open spec fn vsame(a: items_Item, b: items_Item) -> bool { leaf_min(a) == leaf_min(b) && leaf_max(a) == leaf_max(b) && (U() ==> forall|s: Seq<u8>, k: int| #[trigger] val_k(a, s, k) == val_k(b, s, k)) }
pub proof fn lemma_vsame_eq(a: items_Item)
    ensures vsame(a, a)
{ reveal(vsame); }
pub proof fn lemma_vsame_sym(a: items_Item, b: items_Item)
    requires vsame(a, b)
    ensures vsame(b, a)
{ reveal(vsame); }
pub proof fn lemma_vsame_trans(a: items_Item, b: items_Item, c: items_Item)
    requires vsame(a, b), vsame(b, c)
    ensures vsame(a, c)
{ reveal(vsame); assert(U() ==> forall|s: Seq<u8>, k: int| val_k(b, s, k) == val_k(c, s, k)); }
pub proof fn lemma_leafsx_tail(c: Seq<items_Item>, u: bool)
    requires wf_leafsx(c, u), c.len() > 0
    ensures wf_leafsx(c.drop_last(), u), wf_leafsx(c.drop_first(), u), wf_leafx(c.last(), u), wf_leafx(c[0], u), !(c.last() is StringList), !(c[0] is StringList)
{
    assert forall|i: int| 0 <= i < c.len() - 1 implies wf_leafx(#[trigger] c.drop_last()[i], u) && !(c.drop_last()[i] is StringList) by { assert(wf_leafx(c[i], u)); }
    assert forall|i: int| 0 <= i < c.len() - 1 implies wf_leafx(#[trigger] c.drop_first()[i], u) && !(c.drop_first()[i] is StringList) by { assert(wf_leafx(c[i + 1], u)); }
    assert(wf_leafx(c[c.len() - 1], u));
}
pub proof fn lemma_leafsx_wfsx(c: Seq<items_Item>, u: bool)
    requires wf_leafsx(c, u)
    ensures wfsx(c, u)
{ assert forall|i: int| 0 <= i < c.len() implies wfix(#[trigger] c[i], u) by { assert(wf_leafx(c[i], u)); } }
pub proof fn lemma_leafsx(c: Seq<items_Item>)
    requires wf_leafsx(c, true)
    ensures wf_leafs(c)
{ assert forall|i: int| 0 <= i < c.len() implies wf_leaf(#[trigger] c[i]) && !(c[i] is StringList) by { assert(wf_leafx(c[i], true)); lemma_wfix(c[i]); } }
// without a length it is empty text
pub proof fn lemma_ch0(c: Seq<items_Item>, u: bool)
    requires wf_leafsx(c, u), sum_max(c) == 0
    ensures sum_min(c) == 0
    decreases c.len()
{
    if c.len() > 0 {
        lemma_leafsx_tail(c, u);
        lemma_leafsx_wfsx(c.drop_last(), u);
        lemma_sumx_pos(c.drop_last(), u);
        lemma_ch0(c.drop_last(), u);
    }
}
pub proof fn lemma_vsame0(a: items_Item, b: items_Item)
    requires wf_valx(a, U()), wf_valx(b, U()), leaf_max(a) == 0, leaf_max(b) == 0
    ensures vsame(a, b)
{
    reveal(vsame);
    match a { items_Item::Chain(c) => { lemma_ch0(c.Items@, U()); } _ => {} }
    match b { items_Item::Chain(c) => { lemma_ch0(c.Items@, U()); } _ => {} }
    if U() {
        assert forall|s: Seq<u8>, k: int| #[trigger] val_k(a, s, k) == val_k(b, s, k) by { lemma_val0(a, s, k); lemma_val0(b, s, k); }
    }
}
pub proof fn lemma_val0(a: items_Item, s: Seq<u8>, k: int)
    requires wf_valx(a, true), leaf_max(a) == 0, leaf_min(a) == 0
    ensures val_k(a, s, k) == (k == 0)
{
    lemma_valx(a);
    if val_k(a, s, k) { lemma_val_bounds(a, s, k); }
    match a { items_Item::Chain(c) => { lemma_ch_zero(c.Items@, s); } _ => { lemma_leaf_zero(a, s); } }
}
pub proof fn lemma_vsame_lit(a: items_Item, b: items_Item)
    requires islit(a), islit(b), wf_leafx(a, U()), wf_leafx(b, U()), litx(a) == litx(b)
    ensures vsame(a, b)
{
    reveal(vsame);
    match a { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
    match b { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
    if U() {
        lemma_wfix(a); lemma_wfix(b);
        assert forall|s: Seq<u8>, k: int| #[trigger] val_k(a, s, k) == val_k(b, s, k) by { lemma_lit_k(a, s, k); lemma_lit_k(b, s, k); }
    }
}
pub proof fn lemma_vsame_rr(a: items_RunesRanges, b: items_RunesRanges)
    requires a.RunesRanges.ASCII == b.RunesRanges.ASCII, a.RunesRanges.UnicodeRanges@ == b.RunesRanges.UnicodeRanges@, a.RunesRanges.MinSize == b.RunesRanges.MinSize, a.RunesRanges.MaxSize == b.RunesRanges.MaxSize
    ensures vsame(items_Item::RunesRanges(a), items_Item::RunesRanges(b))
{
    reveal(vsame);
    assert forall|s: Seq<u8>, k: int| #[trigger] val_k(items_Item::RunesRanges(a), s, k) == val_k(items_Item::RunesRanges(b), s, k) by {
        assert(rin(a.RunesRanges, dec_c(from(s, 0))) == rin(b.RunesRanges, dec_c(from(s, 0))));
    }
}
pub open spec fn csame(a: Seq<items_Item>, b: Seq<items_Item>, n: int) -> bool { forall|i: int| 0 <= i < n ==> vsame(#[trigger] a[i], b[i]) }
pub proof fn lemma_csame_sum(a: Seq<items_Item>, b: Seq<items_Item>)
    requires a.len() == b.len(), csame(a, b, a.len() as int)
    ensures sum_min(a) == sum_min(b), sum_max(a) == sum_max(b)
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies vsame(#[trigger] a.drop_last()[i], b.drop_last()[i]) by { assert(vsame(a[i], b[i])); }
        lemma_csame_sum(a.drop_last(), b.drop_last());
        assert(vsame(a[a.len() - 1], b[b.len() - 1]));
        reveal(vsame);
    }
}
pub proof fn lemma_csame_k(a: Seq<items_Item>, b: Seq<items_Item>, s: Seq<u8>, k: int)
    requires a.len() == b.len(), csame(a, b, a.len() as int), wf_leafs(a), wf_leafs(b), U()
    ensures ch_k(a, s, k) == ch_k(b, s, k)
    decreases a.len()
{
    if a.len() > 0 {
        let c = a.drop_first(); let d = b.drop_first();
        assert forall|i: int| 0 <= i < c.len() implies vsame(#[trigger] c[i], d[i]) by { assert(vsame(a[i + 1], b[i + 1])); }
        assert(vsame(a[0], b[0]));
        lemma_leafs_tail(a); lemma_leafs_tail(b);
        reveal(vsame);
        assert forall|j: int| #[trigger] leaf_k(a[0], s, j) == leaf_k(b[0], s, j) by { assert(val_k(a[0], s, j) == val_k(b[0], s, j)); }
        if ch_k(a, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(a[0], s, j) && ch_k(c, from(s, j), k - j); lemma_csame_k(c, d, from(s, j), k - j); assert(leaf_k(b[0], s, j)); }
        if ch_k(b, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(b[0], s, j) && ch_k(d, from(s, j), k - j); lemma_csame_k(c, d, from(s, j), k - j); assert(leaf_k(a[0], s, j)); }
    }
}
pub proof fn lemma_vsame_chain(a: items_Chain, b: items_Chain)
    requires wf_chainx(a, U()), wf_chainx(b, U()), a.Items@.len() == b.Items@.len(), csame(a.Items@, b.Items@, a.Items@.len() as int)
    ensures vsame(items_Item::Chain(a), items_Item::Chain(b))
{
    reveal(vsame);
    lemma_csame_sum(a.Items@, b.Items@);
    if U() {
        lemma_leafsx(a.Items@); lemma_leafsx(b.Items@);
        assert forall|s: Seq<u8>, k: int| #[trigger] val_k(items_Item::Chain(a), s, k) == val_k(items_Item::Chain(b), s, k) by { lemma_csame_k(a.Items@, b.Items@, s, k); }
    }
}
// ---- the same item
#[verifier::opaque]
pub open spec fn same_it(a: items_Item, b: items_Item) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] itt(a, u, x) == itt(b, u, x) }
#[verifier::opaque]
pub open spec fn ihas(s: Seq<items_Item>, n: int, x: items_Item) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
#[verifier::opaque]
pub open spec fn vhas(s: Seq<items_Item>, n: int, x: items_Item) -> bool { exists|i: int| 0 <= i < n && vsame(x, #[trigger] s[i]) }
pub proof fn lemma_ihas(s: Seq<items_Item>, n: int, i: int)
    requires 0 <= i < n
    ensures ihas(s, n, s[i])
{ reveal(ihas); }
pub proof fn ihas_at(s: Seq<items_Item>, n: int, x: items_Item) -> (i: int)
    requires ihas(s, n, x)
    ensures 0 <= i < n, s[i] == x
{ reveal(ihas); choose|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub proof fn lemma_vhas(s: Seq<items_Item>, n: int, i: int, x: items_Item)
    requires 0 <= i < n, vsame(x, s[i])
    ensures vhas(s, n, x)
{ reveal(vhas); }
pub proof fn vhas_at(s: Seq<items_Item>, n: int, x: items_Item) -> (i: int)
    requires vhas(s, n, x)
    ensures 0 <= i < n, vsame(x, s[i])
{ reveal(vhas); choose|i: int| 0 <= i < n && vsame(x, #[trigger] s[i]) }
// the first n values of v stand for the first i of p
#[verifier::opaque]
pub open spec fn vdd(p: Seq<items_Item>, v: Seq<items_Item>, n: int, i: int) -> bool {
    &&& 1 <= n <= i <= p.len() && v.len() == p.len()
    &&& forall|k: int| i <= k < p.len() ==> #[trigger] v[k] == p[k]
    &&& forall|k: int| 0 <= k < n ==> ihas(p, p.len() as int, #[trigger] v[k])
    &&& forall|m: int| 0 <= m < i ==> vhas(v, n, #[trigger] p[m])
}
pub proof fn lemma_vdd0(p: Seq<items_Item>)
    requires p.len() > 0
    ensures vdd(p, p, 1, 1)
{ reveal(vdd); lemma_ihas(p, p.len() as int, 0); lemma_vsame_eq(p[0]); lemma_vhas(p, 1, 0, p[0]); }
pub proof fn lemma_vdd_at(p: Seq<items_Item>, v: Seq<items_Item>, n: int, i: int)
    requires vdd(p, v, n, i)
    ensures 1 <= n <= i <= p.len(), v.len() == p.len(), i < p.len() ==> v[i] == p[i], ihas(p, p.len() as int, v[n - 1])
{ reveal(vdd); }
pub proof fn lemma_vdd_skip(p: Seq<items_Item>, v: Seq<items_Item>, n: int, i: int)
    requires vdd(p, v, n, i), i < p.len(), vsame(v[i], v[n - 1])
    ensures vdd(p, v, n, i + 1)
{ reveal(vdd); lemma_vhas(v, n, n - 1, p[i]); }
pub proof fn lemma_vdd_keep(p: Seq<items_Item>, v: Seq<items_Item>, n: int, i: int)
    requires vdd(p, v, n, i), i < p.len()
    ensures vdd(p, v.update(n, v[i]), n + 1, i + 1)
{
    reveal(vdd);
    let w = v.update(n, v[i]);
    assert forall|k: int| 0 <= k < n + 1 implies ihas(p, p.len() as int, #[trigger] w[k]) by { if k == n { lemma_ihas(p, p.len() as int, i); } else { assert(w[k] == v[k]); } }
    assert forall|m: int| 0 <= m < i + 1 implies vhas(w, n + 1, #[trigger] p[m]) by {
        if m == i { lemma_vsame_eq(p[i]); lemma_vhas(w, n + 1, n, p[i]); } else { let k = vhas_at(v, n, p[m]); lemma_vhas(w, n + 1, k, p[m]); }
    }
}
// a group made from n bytes
pub open spec fn gsz(g: items_Group, n: int) -> bool { 0 <= n && szb(items_Item::Group(g), n) && forall|i: int| 0 <= i < g.Vals@.len() ==> szb(#[trigger] g.Vals@[i], n) }
pub open spec fn isz(it: items_Item, n: int) -> bool { match it { items_Item::Group(g) => gsz(g, n), _ => szb(it, n) } }
pub proof fn lemma_grp_in(g: items_Group, p: Seq<items_Item>, i: int)
    requires wf_groupx(g, U()), forall|x: items_Item| p.contains(x) <==> g.Vals@.contains(x), 0 <= i < p.len()
    ensures wf_valx(p[i], U()), ihas(g.Vals@, g.Vals@.len() as int, p[i])
{
    assert(p.contains(p[i]));
    let j = choose|j: int| 0 <= j < g.Vals@.len() && g.Vals@[j] == p[i];
    assert(wf_valx(g.Vals@[j], U()));
    lemma_ihas(g.Vals@, g.Vals@.len() as int, j);
}
// a group with a star accepts what the star accepts
pub proof fn lemma_norm_star(g: items_Group, i: int)
    requires wf_groupx(g, U()), 0 <= i < g.Vals@.len(), g.Vals@[i] == items_Item::Star(0)
    ensures U() ==> same_it(items_Item::Group(g), items_Item::Star(0))
{
    reveal(same_it);
    let st = items_Item::Star(0);
    let gi = items_Item::Group(g);
    if U() {
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] itt(gi, u, x) == itt(st, u, x) by {
            if itt(gi, u, x) {
                let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(gi, x, k) && acc(u, from(x, k));
                let j = choose|j: int| 0 <= j < g.Vals@.len() && #[trigger] val_k(g.Vals@[j], x, k);
                lemma_valx(g.Vals@[j]);
                lemma_val_bounds(g.Vals@[j], x, k);
                assert(it_k(st, x, k));
            }
            if itt(st, u, x) {
                let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(st, x, k) && acc(u, from(x, k));
                assert(val_k(g.Vals@[i], x, k));
                assert(it_k(gi, x, k));
            }
        }
    }
}
pub proof fn lemma_same_k(a: items_Item, b: items_Item)
    requires !(a is Nil), !(b is Nil), forall|x: Seq<u8>, k: int| #[trigger] it_k(a, x, k) == it_k(b, x, k)
    ensures same_it(a, b)
{
    reveal(same_it);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] itt(a, u, x) == itt(b, u, x) by {
        if itt(a, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(a, x, k) && acc(u, from(x, k)); assert(it_k(b, x, k)); }
        if itt(b, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(b, x, k) && acc(u, from(x, k)); assert(it_k(a, x, k)); }
    }
}
pub proof fn lemma_norm(g: items_Group, p: Seq<items_Item>, v: Seq<items_Item>, n: int, r: items_Group)
    requires wf_groupx(g, U()), forall|x: items_Item| p.contains(x) <==> g.Vals@.contains(x), vdd(p, v, n, p.len() as int),
        r.Vals@ == v.subrange(0, n), r.MinSize == g.MinSize, r.MaxSize == g.MaxSize
    ensures wf_groupx(r, U()), U() ==> same_it(items_Item::Group(g), items_Item::Group(r)), forall|m: int| gsz(g, m) ==> #[trigger] gsz(r, m),
        n == 1 && !(v[0] is Chain) && U() ==> same_it(items_Item::Group(g), v[0]),
        n == 1 && g.MaxSize == 0 && U() ==> same_it(items_Item::Group(g), items_Item::Nil),
        n >= 1
{
    reveal(vdd);
    let o = g.Vals@;
    let q = r.Vals@;
    assert forall|k: int| 0 <= k < q.len() implies #[trigger] q[k] == v[k] && ihas(o, o.len() as int, q[k]) by {
        let m = ihas_at(p, p.len() as int, v[k]);
        lemma_grp_in(g, p, m);
    }
    assert forall|k: int| 0 <= k < q.len() implies wf_valx(#[trigger] q[k], U()) && r.MinSize <= leaf_min(q[k]) && (r.MaxSize == -1 || 0 <= leaf_max(q[k]) <= r.MaxSize) by {
        assert(q[k] == v[k]);
        let m = ihas_at(o, o.len() as int, q[k]);
        assert(wf_valx(o[m], U()));
    }
    // what is left out is there once more
    assert forall|m: int| 0 <= m < o.len() implies vhas(q, n, #[trigger] o[m]) by {
        assert(o.contains(o[m]));
        assert(p.contains(o[m]));
        let j = choose|j: int| 0 <= j < p.len() && p[j] == o[m];
        assert(vhas(v, n, p[j]));
        let k = vhas_at(v, n, p[j]);
        assert(q[k] == v[k]);
        lemma_vhas(q, n, k, o[m]);
    }
    let mi = choose|i: int| 0 <= i < o.len() && leaf_min(#[trigger] o[i]) == g.MinSize;
    let mk = vhas_at(q, n, o[mi]);
    assert(leaf_min(q[mk]) == r.MinSize) by { reveal(vsame); }
    assert forall|m: int| gsz(g, m) implies #[trigger] gsz(r, m) by {
        assert forall|k: int| 0 <= k < q.len() implies szb(#[trigger] q[k], m) by { assert(q[k] == v[k]); let j = ihas_at(o, o.len() as int, q[k]); assert(szb(o[j], m)); }
    }
    if U() {
        let a = items_Item::Group(g);
        let b = items_Item::Group(r);
        assert forall|x: Seq<u8>, k: int| #[trigger] it_k(a, x, k) == it_k(b, x, k) by {
            if it_k(a, x, k) { let i = choose|i: int| 0 <= i < o.len() && #[trigger] val_k(o[i], x, k); assert(vhas(q, n, o[i])); let j = vhas_at(q, n, o[i]); assert(val_k(q[j], x, k)) by { reveal(vsame); } }
            if it_k(b, x, k) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] val_k(q[i], x, k); assert(q[i] == v[i]); let j = ihas_at(o, o.len() as int, q[i]); assert(val_k(o[j], x, k)); }
        }
        lemma_same_k(a, b);
        if n == 1 && !(v[0] is Chain) {
            assert(q[0] == v[0]);
            assert(wf_valx(q[0], U()));
            assert forall|x: Seq<u8>, k: int| #[trigger] it_k(a, x, k) == it_k(v[0], x, k) by {
                assert(it_k(a, x, k) == it_k(b, x, k));
                if it_k(b, x, k) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] val_k(q[i], x, k); assert(i == 0); }
                if it_k(v[0], x, k) { assert(val_k(q[0], x, k)); }
            }
            lemma_same_k(a, v[0]);
        }
        if n == 1 && g.MaxSize == 0 {
            assert(q[0] == v[0]);
            assert(wf_valx(q[0], U()) && leaf_max(q[0]) == 0);
            match q[0] { items_Item::Chain(c) => { lemma_ch0(c.Items@, U()); } _ => {} }
            reveal(same_it);
            assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] itt(a, u, x) == itt(items_Item::Nil, u, x) by {
                assert(itt(a, u, x) == itt(b, u, x));
                lemma_from0(x);
                if itt(b, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(b, x, k) && acc(u, from(x, k)); let i = choose|i: int| 0 <= i < q.len() && #[trigger] val_k(q[i], x, k); assert(i == 0); lemma_val0(q[0], x, k); }
                if acc(u, x) { lemma_val0(q[0], x, 0); assert(val_k(q[0], x, 0)); assert(it_k(b, x, 0)); }
            }
        }
    }
}
pub proof fn lemma_alt_same(l: Seq<Str>, a: items_Item, b: items_Item)
    requires alt_ok(l, a), same_it(a, b)
    ensures alt_ok(l, b)
{
    reveal(alt_ok); reveal(same_it);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(b, u, x) by { assert(itt(a, u, x) == itt(b, u, x)); }
}
// ---- the chain of a value
pub proof fn lemma_chn0(v: Seq<u8>)
    ensures chn_ok(v, Seq::empty(), v)
{
    reveal(chn_ok);
    let c = Seq::<items_Item>::empty();
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(v + u, x) == acct(c, v + u, x) by {
        lemma_from0(x);
        if acc(v + u, x) { assert(chk(c, x, 0)); }
    }
}
pub proof fn lemma_chn_step(v0: Seq<u8>, c: Seq<items_Item>, v: Seq<u8>, it: items_Item, next: Seq<u8>, d: Seq<items_Item>)
    requires chn_ok(v0, c, v), nxt_ok(v, it, next), wfs(c), wfs(d), if it is Nil { d == c } else { wfi(it) && merges(c, it, d) }
    ensures chn_ok(v0, d, next)
{
    reveal(chn_ok); reveal(nxt_ok);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(v0 + u, x) == acct(d, next + u, x) by {
        assert(acc(v0 + u, x) == acct(c, v + u, x));
        if acct(c, v + u, x) {
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(v + u, from(x, k));
            assert(itt(it, next + u, from(x, k)));
            assert(acct2(c, it, next + u, x));
        }
        if acct2(c, it, next + u, x) {
            let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && itt(it, next + u, from(x, k));
            assert(acc(v + u, from(x, k)));
            assert(acct(c, v + u, x));
        }
        if it is Nil {
            if acct2(c, it, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && itt(it, next + u, from(x, k)); assert(acct(c, next + u, x)); }
            if acct(c, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c, x, k) && acc(next + u, from(x, k)); assert(acct2(c, it, next + u, x)); }
        } else {
            lemma_acct_push(c, it, next + u, x);
            if acct(c.push(it), next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(c.push(it), x, k) && acc(next + u, from(x, k)); lemma_merges(c, it, d, x, k); assert(acct(d, next + u, x)); }
            if acct(d, next + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(d, x, k) && acc(next + u, from(x, k)); lemma_merges(c, it, d, x, k); assert(acct(c.push(it), next + u, x)); }
        }
    }
}
// the items of a text so far
#[verifier::opaque]
pub open spec fn cst(v0: Seq<u8>, v: Seq<u8>, c: items_Chain) -> bool {
    &&& txt(v) && nobr(v) && v.len() <= v0.len() <= MAXL && tw(v0) == tw(v)
    &&& wf_leafsx(c.Items@, U()) && szs(c.Items@, v0.len() - v.len()) && c.MinSize == sum_min(c.Items@) && c.MaxSize == sum_max(c.Items@)
    &&& (c.MaxSize == -1 || c.MinSize <= c.MaxSize)
    &&& U() && N() ==> chn_ok(v0, c.Items@, v)
}
pub proof fn lemma_cst0(v: Seq<u8>, c: items_Chain)
    requires txt(v), nobr(v), v.len() <= MAXL, c.Items@.len() == 0, c.MinSize == 0, c.MaxSize == 0
    ensures cst(v, v, c)
{ reveal(cst); lemma_chn0(v); assert(c.Items@ =~= Seq::empty()); }
pub proof fn lemma_cst_at(v0: Seq<u8>, v: Seq<u8>, c: items_Chain)
    requires cst(v0, v, c)
    ensures txt(v), nobr(v), v.len() <= v0.len() <= MAXL, tw(v0) == tw(v), wf_leafsx(c.Items@, U()), wfsx(c.Items@, U()),
        0 <= c.MinSize <= 4 * MAXL, -1 <= c.MaxSize <= 4 * MAXL, c.Items@.len() > 0 ==> 0 <= cnt(c.Items@.last()) <= v0.len() - v.len()
{ reveal(cst); lemma_leafsx_wfsx(c.Items@, U()); if c.Items@.len() > 0 { lemma_leafsx_tail(c.Items@, U()); assert(cnt(c.Items@[c.Items@.len() - 1]) <= v0.len() - v.len()); lemma_leafx_mins(c.Items@.last(), U()); } }
// what is known about an item read from s
pub open spec fn nxt(s: Seq<u8>, it: items_Item, next: Seq<u8>) -> bool {
    &&& next.len() < s.len() && next == from(s, s.len() - next.len()) && tw(s) == tw(next) && txt(next)
    &&& it is Nil || wfix(it, U())
    &&& isz(it, s.len() - next.len())
    &&& nobr(s) ==> !lsty(it)
    &&& U() && N() ==> nxt_ok(s, it, next)
}
pub proof fn lemma_nobr_from(s: Seq<u8>, k: int)
    requires nobr(s), 0 <= k <= s.len()
    ensures nobr(from(s, k))
{ assert forall|i: int| 0 <= i < s.len() - k implies #[trigger] from(s, k)[i] != 125 by { assert(s[i + k] != 125); } }
pub proof fn lemma_cst_skip(v0: Seq<u8>, v: Seq<u8>, c: items_Chain, next: Seq<u8>)
    requires cst(v0, v, c), nxt(v, items_Item::Nil, next)
    ensures cst(v0, next, c)
{
    reveal(cst);
    lemma_nobr_from(v, v.len() - next.len());
    if U() && N() { lemma_leafsx_wfsx(c.Items@, true); lemma_wfsx(c.Items@); lemma_chn_step(v0, c.Items@, v, items_Item::Nil, next, c.Items@); }
    assert(szs(c.Items@, v0.len() - next.len())) by { assert forall|i: int| 0 <= i < c.Items@.len() implies cnt(#[trigger] c.Items@[i]) <= v0.len() - next.len() by { assert(cnt(c.Items@[i]) <= v0.len() - v.len()); } }
}
pub proof fn lemma_cst_push(v0: Seq<u8>, v: Seq<u8>, c: items_Chain, it: items_Item, next: Seq<u8>, d: items_Chain)
    requires cst(v0, v, c), nxt(v, it, next), !(it is Nil), merges(c.Items@, it, d.Items@), d.MinSize == c.MinSize + leaf_min(it), d.MaxSize == addmax(c.MaxSize as int, leaf_max(it))
    ensures cst(v0, next, d)
{
    reveal(cst);
    let n = v0.len() - v.len();
    let m = v.len() - next.len();
    lemma_nobr_from(v, m);
    lemma_leafsx_wfsx(c.Items@, U());
    lemma_merges_sz(c.Items@, it, d.Items@, U(), n, m);
    assert(n + m == v0.len() - next.len());
    if U() && N() { lemma_wfsx(c.Items@); lemma_wfsx(d.Items@); lemma_wfix(it); lemma_chn_step(v0, c.Items@, v, it, next, d.Items@); }
}
// the value which the chain becomes
pub open spec fn chv(c: items_Chain) -> items_Item { if c.Items@.len() == 1 { c.Items@[0] } else { items_Item::Chain(c) } }
pub proof fn lemma_cst_end(v0: Seq<u8>, c: items_Chain)
    requires cst(v0, Seq::empty(), c)
    ensures tw(v0), wf_valx(chv(c), U()), szb(chv(c), v0.len() as int), U() && N() ==> val_ok(v0, chv(c))
{
    reveal(cst);
    let q = c.Items@;
    let n = v0.len() as int;
    let v = chv(c);
    if q.len() == 1 {
        assert(q.drop_last() =~= Seq::empty());
        assert(sum_min(q) == leaf_min(q[0]) && sum_max(q) == addmax(0, leaf_max(q[0]))) by { reveal_with_fuel(sum_min, 2); reveal_with_fuel(sum_max, 2); }
        assert(wf_leafx(q[0], U()));
        assert(cnt(q[0]) <= n);
    }
    if U() && N() {
        lemma_leafsx(q);
        reveal(chn_ok); reveal(val_ok);
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(v0 + u, x) == vtt(v, u, x) by {
            assert(Seq::<u8>::empty() + u =~= u);
            assert(acc(v0 + u, x) == acct(q, u, x));
            if acct(q, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] chk(q, x, k) && acc(u, from(x, k)); lemma_ch_chk(q, x, k); lemma_chv(c, x, k); assert(val_k(v, x, k)); }
            if vtt(v, u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] val_k(v, x, k) && acc(u, from(x, k)); lemma_chv(c, x, k); lemma_ch_chk(q, x, k); assert(chk(q, x, k)); }
        }
    }
}
pub proof fn lemma_chv(c: items_Chain, x: Seq<u8>, k: int)
    requires wf_leafs(c.Items@), 0 <= k <= x.len()
    ensures val_k(chv(c), x, k) == ch_k(c.Items@, x, k)
{
    let q = c.Items@;
    if q.len() == 1 {
        assert(q.drop_first() =~= Seq::empty());
        assert(wf_leaf(q[0]));
        if leaf_k(q[0], x, k) { assert(ch_k(q.drop_first(), from(x, k), k - k)); assert(ch_k(q, x, k)); }
        if ch_k(q, x, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(q[0], x, j) && ch_k(q.drop_first(), from(x, j), k - j); assert(k - j == 0); assert(val_k(chv(c), x, k)); }
    }
}
// ---- the values of a group so far
pub open spec fn stv(v: Seq<u8>) -> bool { v.len() > 0 && stars(v) }
#[verifier::opaque]
pub open spec fn cov(its: Seq<items_Item>, v: Seq<u8>) -> bool { exists|k: int| 0 <= k < its.len() && val_ok(v, #[trigger] its[k]) }
pub open spec fn its_ok(its: Seq<items_Item>, n: int) -> bool { forall|k: int| 0 <= k < its.len() ==> wf_valx(#[trigger] its[k], U()) && szb(its[k], n) }
#[verifier::opaque]
pub open spec fn grp_ok(l: Seq<Str>, its: Seq<items_Item>, i: int, hs: bool) -> bool {
    &&& 0 <= i <= l.len() && its.len() <= i && (!hs ==> its.len() == i)
    &&& its_ok(its, maxl(l))
    &&& forall|m: int| 0 <= m < i ==> tw((#[trigger] l[m])@)
    &&& hs ==> exists|m: int| 0 <= m < i && stv((#[trigger] l[m])@)
    &&& U() && N() ==> forall|m: int| 0 <= m < i ==> stv((#[trigger] l[m])@) || cov(its, l[m]@)
    &&& U() && N() && !hs ==> forall|m: int| 0 <= m < i ==> val_ok((#[trigger] l[m])@, its[m])
}
pub proof fn lemma_grp0(l: Seq<Str>)
    ensures grp_ok(l, Seq::empty(), 0, false)
{ reveal(grp_ok); }
pub proof fn lemma_grp_at(l: Seq<Str>, its: Seq<items_Item>, i: int, hs: bool)
    requires grp_ok(l, its, i, hs)
    ensures 0 <= i <= l.len(), its.len() <= i, !hs ==> its.len() == i, its_ok(its, maxl(l)), i == l.len() ==> allv_tw(l)
{ reveal(grp_ok); }
pub proof fn lemma_grp_star(l: Seq<Str>, its: Seq<items_Item>, i: int, hs: bool)
    requires grp_ok(l, its, i, hs), i < l.len(), stv(l[i]@)
    ensures grp_ok(l, its, i + 1, true)
{ reveal(grp_ok); lemma_acc_stars(l[i]@, Seq::empty(), Seq::empty()); assert(l[i]@ + Seq::<u8>::empty() =~= l[i]@); }
pub proof fn lemma_grp_push(l: Seq<Str>, its: Seq<items_Item>, i: int, hs: bool, v: items_Item)
    requires grp_ok(l, its, i, hs), i < l.len(), wf_valx(v, U()), szb(v, l[i]@.len() as int), tw(l[i]@), U() && N() ==> val_ok(l[i]@, v)
    ensures grp_ok(l, its.push(v), i + 1, hs)
{
    reveal(grp_ok); reveal(cov);
    let q = its.push(v);
    lemma_maxl(l, 0);
    assert(l[i]@.len() <= maxl(l));
    assert forall|k: int| 0 <= k < q.len() implies wf_valx(#[trigger] q[k], U()) && szb(q[k], maxl(l)) by { if k < its.len() { assert(q[k] == its[k]); } }
    if U() && N() {
        assert forall|m: int| 0 <= m < i + 1 implies stv((#[trigger] l[m])@) || cov(q, l[m]@) by {
            if m < i { if !stv(l[m]@) { assert(cov(its, l[m]@)); let k = choose|k: int| 0 <= k < its.len() && val_ok(l[m]@, #[trigger] its[k]); assert(val_ok(l[m]@, q[k])); } }
            else { assert(val_ok(l[m]@, q[its.len() as int])); }
        }
        if !hs { assert forall|m: int| 0 <= m < i + 1 implies val_ok((#[trigger] l[m])@, q[m]) by { if m < i { assert(q[m] == its[m]); } } }
    }
}
pub proof fn lemma_val_lit(v: Seq<u8>, it: items_Item, x: items_String)
    requires nowild(v), x.S@ == v, it == items_Item::String(x), txt(v)
    ensures wf_valx(it, U()), szb(it, v.len() as int), tw(v), U() && N() ==> val_ok(v, it)
{
    reveal(val_ok);
    lemma_tw_lit(v, Seq::empty());
    assert(v + Seq::<u8>::empty() =~= v);
    assert forall|u: Seq<u8>, y: Seq<u8>| #[trigger] acc(v + u, y) == vtt(it, u, y) by {
        lemma_acc_lit(v, u, y);
        if acc(v + u, y) { assert(val_k(it, y, v.len() as int)); }
    }
}
pub proof fn lemma_val_any(v: Seq<u8>)
    requires v == seq![63u8]
    ensures tw(v), val_ok(v, items_Item::Any(1)), szb(items_Item::Any(1), v.len() as int)
{
    reveal(val_ok);
    lemma_acc_any(Seq::empty(), Seq::empty());
    assert(v + Seq::<u8>::empty() =~= v);
    let it = items_Item::Any(1);
    assert forall|u: Seq<u8>, y: Seq<u8>| #[trigger] acc(v + u, y) == vtt(it, u, y) by {
        lemma_acc_any(u, y);
        if itt(it, u, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] it_k(it, y, k) && acc(u, from(y, k)); assert(val_k(it, y, k)); }
        if vtt(it, u, y) { let k = choose|k: int| 0 <= k <= y.len() && #[trigger] val_k(it, y, k) && acc(u, from(y, k)); assert(it_k(it, y, k)); }
    }
}
pub proof fn lemma_grp_star_end(l: Seq<Str>, its: Seq<items_Item>)
    requires grp_ok(l, its, l.len() as int, true)
    ensures U() && N() ==> alt_ok(l, items_Item::Star(0))
{
    reveal(grp_ok); reveal(alt_ok); reveal(cov); reveal(val_ok);
    let st = items_Item::Star(0);
    let sm = choose|m: int| 0 <= m < l.len() && stv((#[trigger] l[m])@);
    if U() && N() {
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(st, u, x) by {
            lemma_acc_stars(l[sm]@, u, x);
            if alts_acc(l, u, x) {
                let m = choose|m: int| 0 <= m < l.len() && acc((#[trigger] l[m])@ + u, x);
                if stv(l[m]@) { lemma_acc_stars(l[m]@, u, x); } else {
                    assert(cov(its, l[m]@));
                    let k = choose|k: int| 0 <= k < its.len() && val_ok(l[m]@, #[trigger] its[k]);
                    assert(vtt(its[k], u, x));
                    let j = choose|j: int| 0 <= j <= x.len() && #[trigger] val_k(its[k], x, j) && acc(u, from(x, j));
                    assert(wf_valx(its[k], true));
                    lemma_valx(its[k]);
                    lemma_val_bounds(its[k], x, j);
                    assert(it_k(st, x, j));
                }
            }
        }
    }
}
pub proof fn lemma_grp_end(l: Seq<Str>, its: Seq<items_Item>, it: items_Item)
    requires grp_ok(l, its, l.len() as int, false), l.len() > 0,
        match it {
            items_Item::Group(g) => g.Vals@ == its,
            items_Item::Nil => its.len() == 1 && its[0] is Chain && (its[0]->Chain_0).Items@.len() == 0,
            _ => its.len() == 1 && it == its[0] && !(it is Chain),
        }
    ensures U() && N() ==> alt_ok(l, it)
{
    reveal(grp_ok); reveal(alt_ok); reveal(val_ok);
    if U() && N() {
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(it, u, x) by {
            lemma_from0(x);
            if alts_acc(l, u, x) {
                let m = choose|m: int| 0 <= m < l.len() && acc((#[trigger] l[m])@ + u, x);
                assert(val_ok(l[m]@, its[m]));
                assert(vtt(its[m], u, x));
                let j = choose|j: int| 0 <= j <= x.len() && #[trigger] val_k(its[m], x, j) && acc(u, from(x, j));
                match it { items_Item::Nil => {} _ => { assert(it_k(it, x, j)); } }
            }
            if itt(it, u, x) {
                match it {
                    items_Item::Nil => { assert(val_k(its[0], x, 0)); assert(vtt(its[0], u, x)); assert(val_ok(l[0]@, its[0])); assert(acc(l[0]@ + u, x)); }
                    items_Item::Group(g) => {
                        let j = choose|j: int| 0 <= j <= x.len() && #[trigger] it_k(it, x, j) && acc(u, from(x, j));
                        let m = choose|m: int| 0 <= m < its.len() && #[trigger] val_k(its[m], x, j);
                        assert(vtt(its[m], u, x)); assert(val_ok(l[m]@, its[m])); assert(acc(l[m]@ + u, x));
                    }
                    _ => {
                        let j = choose|j: int| 0 <= j <= x.len() && #[trigger] it_k(it, x, j) && acc(u, from(x, j));
                        assert(wf_valx(its[0], U()));
                        assert(val_k(its[0], x, j)); assert(vtt(its[0], u, x)); assert(val_ok(l[0]@, its[0])); assert(acc(l[0]@ + u, x));
                    }
                }
            }
        }
    }
}
// nothing but stars is left when stars are trimmed
pub proof fn lemma_trim_stars(v: Seq<u8>)
    ensures trim_r(trim_l(v, 42), 42).len() == 0 <==> stars(v)
{ lemma_trim_l(v); lemma_trim_r(trim_l(v, 42)); }
proof fn lemma_trim_l(v: Seq<u8>)
    ensures trim_l(v, 42).len() > 0 ==> trim_l(v, 42)[0] != 42, trim_l(v, 42).len() == 0 <==> stars(v)
    decreases v.len()
{
    if v.len() > 0 && v[0] == 42 {
        let t = v.subrange(1, v.len() as int);
        lemma_trim_l(t);
        if stars(v) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] == 42 by { assert(v[i + 1] == 42); } }
        if stars(t) { assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] == 42 by { if i > 0 { assert(t[i - 1] == 42); } } }
    }
}
proof fn lemma_trim_r(v: Seq<u8>)
    requires v.len() > 0 ==> v[0] != 42
    ensures trim_r(v, 42).len() == 0 <==> v.len() == 0
    decreases v.len()
{ if v.len() > 0 && v.last() == 42 { assert(v.len() > 1) by { if v.len() == 1 { assert(v[0] == v.last()); } } lemma_trim_r(v.drop_last()); } }
pub proof fn lemma_wildset(cs: Seq<u8>)
    requires cs == seq![91u8, 93u8, 123u8, 125u8, 42u8, 63u8]
    ensures ascii(cs), forall|b: u8| cs.contains(b) == wildb(b)
{
    assert forall|b: u8| cs.contains(b) == wildb(b) by {
        if wildb(b) { assert(cs[0] == 91 && cs[1] == 93 && cs[2] == 123 && cs[3] == 125 && cs[4] == 42 && cs[5] == 63); assert(exists|i: int| 0 <= i < cs.len() && cs[i] == b) by { if b == 91 { assert(cs[0] == b); } else if b == 93 { assert(cs[1] == b); } else if b == 123 { assert(cs[2] == b); } else if b == 125 { assert(cs[3] == b); } else if b == 42 { assert(cs[4] == b); } else { assert(cs[5] == b); } } }
    }
}
