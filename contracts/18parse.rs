// uses: 10sets.rs 16match.rs 17text.rs
// What the parser makes from a text. U: every text is well formed UTF-8, N: and without NUL symbols.
// The contracts are proved for both values of U and N: the structure is what the parser
// promises for any bytes, the language of the items is promised when U and N hold.

pub uninterp spec fn U() -> bool;
pub uninterp spec fn N() -> bool;
pub open spec fn nonul(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 }
pub open spec fn txt(s: Seq<u8>) -> bool { (U() ==> ok8(s)) && (N() ==> nonul(s)) }
pub open spec fn wf_listx(l: items_StringList, u: bool) -> bool {
    &&& 0 <= l.MinSize <= l.MaxSize <= LIM()
    &&& forall|i: int| 0 <= i < l.Vals@.len() ==> (#[trigger] l.Vals@[i])@.len() > 0 && (u ==> ok8(l.Vals@[i]@)) && l.MinSize <= l.Vals@[i]@.len() <= l.MaxSize
}
pub open spec fn wf_leafx(it: items_Item, u: bool) -> bool {
    match it {
        items_Item::Any(n) => 0 < n <= MAXL,
        items_Item::Star(n) => 0 <= n <= MAXL,
        items_Item::Byte(c) => c < 128,
        items_Item::Rune(c) => rune_ok(c as int) && c != RERR,
        items_Item::RunesRanges(r) => rok(r.RunesRanges) && rsz(r.RunesRanges) && r.RunesRanges.MinSize > 0,
        items_Item::String(x) => u ==> ok8(x.S@),
        items_Item::StringList(l) => wf_listx(l, u),
        _ => false,
    }
}
pub open spec fn wf_leafsx(c: Seq<items_Item>, u: bool) -> bool { forall|i: int| 0 <= i < c.len() ==> wf_leafx(#[trigger] c[i], u) && !(c[i] is StringList) }
pub open spec fn wf_chainx(c: items_Chain, u: bool) -> bool { wf_leafsx(c.Items@, u) && c.MinSize == sum_min(c.Items@) && c.MaxSize == sum_max(c.Items@) && 0 <= c.MinSize <= LIM() && -1 <= c.MaxSize <= LIM() }
pub open spec fn wf_valx(v: items_Item, u: bool) -> bool { match v { items_Item::Chain(c) => wf_chainx(c, u), items_Item::StringList(l) => false, _ => wf_leafx(v, u) } }
pub open spec fn wf_groupx(g: items_Group, u: bool) -> bool {
    &&& 0 <= g.MinSize <= LIM() && -1 <= g.MaxSize <= LIM()
    &&& forall|i: int| 0 <= i < g.Vals@.len() ==> wf_valx(#[trigger] g.Vals@[i], u) && g.MinSize <= leaf_min(g.Vals@[i]) && (g.MaxSize == -1 || 0 <= leaf_max(g.Vals@[i]) <= g.MaxSize)
    &&& exists|i: int| 0 <= i < g.Vals@.len() && leaf_min(#[trigger] g.Vals@[i]) == g.MinSize
}
pub open spec fn wfix(it: items_Item, u: bool) -> bool { match it { items_Item::Group(g) => wf_groupx(g, u), _ => wf_leafx(it, u) } }
pub open spec fn wfsx(c: Seq<items_Item>, u: bool) -> bool { forall|i: int| 0 <= i < c.len() ==> wfix(#[trigger] c[i], u) }
pub proof fn lemma_valx(v: items_Item)
    ensures wf_valx(v, true) == wf_val(v)
{
    match v {
        items_Item::Chain(c) => {
            if wf_leafsx(c.Items@, true) { assert forall|i: int| 0 <= i < c.Items@.len() implies wf_leaf(#[trigger] c.Items@[i]) && !(c.Items@[i] is StringList) by { assert(wf_leafx(c.Items@[i], true)); } }
            if wf_leafs(c.Items@) { assert forall|i: int| 0 <= i < c.Items@.len() implies wf_leafx(#[trigger] c.Items@[i], true) && !(c.Items@[i] is StringList) by { assert(wf_leaf(c.Items@[i])); } }
        }
        _ => {}
    }
}
pub proof fn lemma_wfix(it: items_Item)
    ensures wfix(it, true) == wfi(it)
{
    match it {
        items_Item::Group(g) => {
            assert forall|i: int| 0 <= i < g.Vals@.len() implies wf_valx(#[trigger] g.Vals@[i], true) == wf_val(g.Vals@[i]) by { lemma_valx(g.Vals@[i]); }
            if wf_groupx(g, true) { assert forall|i: int| 0 <= i < g.Vals@.len() implies wf_val(#[trigger] g.Vals@[i]) by { assert(wf_valx(g.Vals@[i], true)); } }
            if wf_group(g) { assert forall|i: int| 0 <= i < g.Vals@.len() implies wf_valx(#[trigger] g.Vals@[i], true) by { assert(wf_val(g.Vals@[i])); } }
        }
        _ => {}
    }
}
pub proof fn lemma_wfsx(c: Seq<items_Item>)
    requires wfsx(c, true)
    ensures wfs(c)
{ assert forall|i: int| 0 <= i < c.len() implies wfi(#[trigger] c[i]) by { assert(wfix(c[i], true)); lemma_wfix(c[i]); } }
// ---- sizes
pub open spec fn cntle(c: Seq<items_Item>, n: int) -> bool { forall|i: int| 0 <= i < c.len() ==> cnt(#[trigger] c[i]) <= n }
// an item made from n bytes
pub open spec fn szb(it: items_Item, n: int) -> bool { 0 <= leaf_min(it) <= 4 * n && -1 <= leaf_max(it) <= 4 * n && cnt(it) <= n && (leaf_max(it) == -1 || leaf_min(it) <= leaf_max(it)) }
pub open spec fn szs(c: Seq<items_Item>, n: int) -> bool { 0 <= sum_min(c) <= 4 * n && -1 <= sum_max(c) <= 4 * n && cntle(c, n) }
pub proof fn lemma_mrg_sz(a: items_Item, b: items_Item, z: items_Item, u: bool)
    requires wf_leafx(a, u), wf_leafx(b, u), mrg(a, b, z), can_merge(a, b)
    ensures leaf_min(z) == leaf_min(a) + leaf_min(b), leaf_max(z) == addmax(leaf_max(a), leaf_max(b)), !(z is StringList),
        cnt(a) + cnt(b) <= MAXL ==> wf_leafx(z, u)
{
    if islit(a) {
        match a { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
        match b { items_Item::Rune(c) => { lemma_enc_len(c as int); } _ => {} }
        if u { lemma_lit_k(a, Seq::empty(), 0); lemma_lit_k(b, Seq::empty(), 0); lemma_ok8_cat(litx(a), litx(b)); }
    }
}
pub proof fn lemma_sum_push(c: Seq<items_Item>, it: items_Item)
    ensures sum_min(c.push(it)) == sum_min(c) + leaf_min(it), sum_max(c.push(it)) == addmax(sum_max(c), leaf_max(it))
{ assert(c.push(it).drop_last() =~= c); }
pub proof fn lemma_leafx_mins(it: items_Item, u: bool)
    requires wfix(it, u)
    ensures 0 <= leaf_min(it), -1 <= leaf_max(it), cnt(it) >= 0
{}
pub proof fn lemma_sumx_pos(c: Seq<items_Item>, u: bool)
    requires wfsx(c, u)
    ensures sum_min(c) >= 0, sum_max(c) >= -1
    decreases c.len()
{ if c.len() > 0 { lemma_wfsx_tail(c, u); lemma_sumx_pos(c.drop_last(), u); lemma_leafx_mins(c.last(), u); } }
pub proof fn lemma_wfsx_tail(c: Seq<items_Item>, u: bool)
    requires wfsx(c, u), c.len() > 0
    ensures wfsx(c.drop_last(), u), wfix(c.last(), u)
{
    assert forall|i: int| 0 <= i < c.len() - 1 implies wfix(#[trigger] c.drop_last()[i], u) by { assert(wfix(c[i], u)); }
    assert(wfix(c[c.len() - 1], u));
}
pub proof fn lemma_merges_sz(c: Seq<items_Item>, it: items_Item, d: Seq<items_Item>, u: bool, n: int, m: int)
    requires wfsx(c, u), wfix(it, u), merges(c, it, d), szs(c, n), szb(it, m), n + m <= MAXL, n >= 0, m >= 0
    ensures wfsx(d, u), szs(d, n + m), sum_min(d) == sum_min(c) + leaf_min(it), sum_max(d) == addmax(sum_max(c), leaf_max(it)), d.len() > 0,
        wf_leafsx(c, u) && wf_leafx(it, u) && !(it is StringList) ==> wf_leafsx(d, u)
{
    lemma_sum_push(c, it);
    lemma_sumx_pos(c, u);
    lemma_leafx_mins(it, u);
    if c.len() > 0 && can_merge(c.last(), it) {
        let b = c.drop_last();
        lemma_wfsx_tail(c, u);
        lemma_sumx_pos(b, u);
        lemma_leafx_mins(c.last(), u);
        assert(cnt(c[c.len() - 1]) <= n);
        lemma_mrg_sz(c.last(), it, d.last(), u);
        assert(d =~= b.push(d.last()));
        assert(c =~= b.push(c.last()));
        lemma_sum_push(b, d.last());
        lemma_sum_push(b, c.last());
        assert forall|i: int| 0 <= i < d.len() implies wfix(#[trigger] d[i], u) && cnt(d[i]) <= n + m && (wf_leafsx(c, u) ==> wf_leafx(d[i], u) && !(d[i] is StringList)) by { if i < b.len() { assert(d[i] == b[i]); assert(b[i] == c[i]); } }
    } else {
        assert forall|i: int| 0 <= i < d.len() implies wfix(#[trigger] d[i], u) && cnt(d[i]) <= n + m && (wf_leafsx(c, u) && wf_leafx(it, u) && !(it is StringList) ==> wf_leafx(d[i], u) && !(d[i] is StringList)) by { if i < c.len() { assert(d[i] == c[i]); } }
    }
}
// ---- the values of a list
pub open spec fn srt(a: Seq<Str>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> !sq_lt((#[trigger] a[j])@, (#[trigger] a[i])@) }
pub open spec fn adj(a: Seq<Str>) -> bool { forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] a[i] != a[i + 1] }
pub proof fn lemma_lt_irrefl(a: Seq<u8>)
    ensures !sq_lt(a, a)
    decreases a.len()
{ if a.len() > 0 { lemma_lt_irrefl(a.subrange(1, a.len() as int)); } }
#[verifier::opaque]
pub open spec fn has(s: Seq<Str>, n: int, x: Str) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub proof fn lemma_has(s: Seq<Str>, n: int, i: int, x: Str)
    requires 0 <= i < n, s[i] == x
    ensures has(s, n, x)
{ reveal(has); }
pub proof fn has_at(s: Seq<Str>, n: int, x: Str) -> (i: int)
    requires has(s, n, x)
    ensures 0 <= i < n, s[i] == x
{ reveal(has); choose|i: int| 0 <= i < n && #[trigger] s[i] == x }
// the first j values of a stand for the first i of a0
#[verifier::opaque]
pub open spec fn dedup(a0: Seq<Str>, a: Seq<Str>, j: int, i: int) -> bool {
    &&& 0 <= j <= i <= a0.len() && a.len() == a0.len() && (i < a0.len() || a0.len() == 0 || j > 0)
    &&& forall|k: int| i <= k < a0.len() ==> #[trigger] a[k] == a0[k]
    &&& forall|k: int| 0 <= k < j ==> has(a0, a0.len() as int, #[trigger] a[k])
    &&& forall|m: int| 0 <= m < i ==> has(a, j, #[trigger] a0[m]) || (i < a0.len() && a0[m] == a0[i])
    &&& j > 0 && i < a0.len() ==> a[j - 1] != a0[i]
    &&& adj(a.subrange(0, j)) && srt(a.subrange(0, j))
    &&& forall|k: int, m: int| 0 <= k < j && i <= m < a0.len() ==> !sq_lt((#[trigger] a0[m])@, (#[trigger] a[k])@)
}
pub proof fn lemma_dedup0(a0: Seq<Str>)
    ensures dedup(a0, a0, 0, 0)
{ reveal(dedup); }
pub proof fn lemma_dedup_skip(a0: Seq<Str>, a: Seq<Str>, j: int, i: int)
    requires dedup(a0, a, j, i), 0 <= i < a0.len() - 1, a[i] == a[i + 1]
    ensures dedup(a0, a, j, i + 1)
{ reveal(dedup); }
pub proof fn lemma_dedup_keep(a0: Seq<Str>, a: Seq<Str>, j: int, i: int)
    requires dedup(a0, a, j, i), srt(a0), 0 <= i < a0.len(), i == a0.len() - 1 || a[i] != a[i + 1]
    ensures 0 <= j < a.len(), dedup(a0, a.update(j, a[i]), j + 1, i + 1)
{
    reveal(dedup);
    let b = a.update(j, a[i]);
    let r = b.subrange(0, j + 1);
    assert(r =~= a.subrange(0, j).push(a0[i]));
    assert forall|m: int| 0 <= m < i + 1 implies has(b, j + 1, #[trigger] a0[m]) by {
        if m == i || a0[m] == a0[i] { lemma_has(b, j + 1, j, a0[m]); } else {
            let k = has_at(a, j, a0[m]);
            lemma_has(b, j + 1, k, a0[m]);
        }
    }
    assert forall|k: int| 0 <= k < j + 1 implies has(a0, a0.len() as int, #[trigger] b[k]) by { if k == j { lemma_has(a0, a0.len() as int, i, b[k]); } else { assert(has(a0, a0.len() as int, a[k])); } }
    assert(adj(r)) by { assert forall|k: int| 0 <= k < r.len() - 1 implies #[trigger] r[k] != r[k + 1] by { if k < j - 1 { assert(a.subrange(0, j)[k] != a.subrange(0, j)[k + 1]); } else { assert(r[k] == a[j - 1]); } } }
    assert(srt(r)) by { assert forall|p: int, q: int| 0 <= p < q < r.len() implies !sq_lt((#[trigger] r[q])@, (#[trigger] r[p])@) by { if q < j { assert(!sq_lt(a.subrange(0, j)[q]@, a.subrange(0, j)[p]@)); } else { assert(!sq_lt(a0[i]@, a[p]@)); } } }
    assert forall|k: int, m: int| 0 <= k < j + 1 && i + 1 <= m < a0.len() implies !sq_lt((#[trigger] a0[m])@, (#[trigger] b[k])@) by { if k == j { assert(b[k] == a0[i]); } else { assert(b[k] == a[k]); } }
    assert(forall|k: int| i + 1 <= k < a0.len() ==> #[trigger] b[k] == a0[k]);
}
pub proof fn lemma_dedup_end(a0: Seq<Str>, a: Seq<Str>, j: int)
    requires dedup(a0, a, j, a0.len() as int)
    ensures adj(a.subrange(0, j)), srt(a.subrange(0, j)), forall|x: Str| a.subrange(0, j).contains(x) <==> a0.contains(x), a0.len() > 0 ==> j > 0
{
    reveal(dedup);
    let r = a.subrange(0, j);
    assert forall|x: Str| r.contains(x) <==> a0.contains(x) by {
        if r.contains(x) { let k = choose|k: int| 0 <= k < j && r[k] == x; assert(has(a0, a0.len() as int, a[k])); let m = has_at(a0, a0.len() as int, x); assert(a0[m] == x); }
        if a0.contains(x) { let m = choose|m: int| 0 <= m < a0.len() && a0[m] == x; assert(has(a, j, a0[m])); let k = has_at(a, j, x); assert(r[k] == x); }
    }
}
// equal values are left out at the ends
pub proof fn lemma_trim_ends(s: Seq<Str>, i: int, j: int)
    requires 0 <= i <= j + 1 <= s.len(), srt(s), s.len() > 0 ==> i <= j, forall|k: int| 0 <= k <= i && k < s.len() ==> #[trigger] s[k] == s[i], forall|k: int| j <= k < s.len() ==> #[trigger] s[k] == s[j]
    ensures srt(s.subrange(i, j + 1)), forall|x: Str| s.subrange(i, j + 1).contains(x) <==> s.contains(x)
{
    let r = s.subrange(i, j + 1);
    assert forall|x: Str| r.contains(x) <==> s.contains(x) by {
        if r.contains(x) { let k = choose|k: int| 0 <= k < r.len() && r[k] == x; assert(s[i + k] == x); }
        if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; if k < i { assert(s[k] == s[i]); assert(r[0] == x); } else if k > j { assert(s[k] == s[j]); assert(r[j - i] == x); } else { assert(r[k - i] == x); } }
    }
    assert forall|p: int, q: int| 0 <= p < q < r.len() implies !sq_lt((#[trigger] r[q])@, (#[trigger] r[p])@) by { assert(!sq_lt(s[i + q]@, s[i + p]@)); }
}
// only the first value can be empty
pub open spec fn nempty(a: Seq<Str>) -> bool { forall|i: int| 1 <= i < a.len() ==> (#[trigger] a[i])@.len() > 0 }
pub proof fn lemma_nempty(a: Seq<Str>)
    requires srt(a), adj(a)
    ensures nempty(a)
{
    assert forall|i: int| 1 <= i < a.len() implies (#[trigger] a[i])@.len() > 0 by {
        if a[i]@.len() == 0 {
            let b = a[i - 1];
            assert(!sq_lt(a[i]@, b@));
            assert(b@.len() == 0);
            assert(b@ =~= a[i]@);
            assert(mk_str(b@) == b && mk_str(a[i]@) == a[i]);
        }
    }
}
pub open spec fn lst_in(l: Seq<Str>, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == x }
pub open spec fn sq_in(l: Seq<Seq<u8>>, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] l[i] == x }
pub proof fn lemma_lst_in(l: Seq<Str>)
    ensures forall|x: Str| l.contains(x) == lst_in(l, x@)
{
    assert forall|x: Str| l.contains(x) == lst_in(l, x@) by {
        if l.contains(x) { let i = choose|i: int| 0 <= i < l.len() && l[i] == x; assert(l[i]@ == x@); }
        if lst_in(l, x@) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == x@; assert(mk_str(l[i]@) == l[i] && mk_str(x@) == x); assert(l[i] == x); }
    }
}
pub open spec fn same_in(l: Seq<Str>, m: Seq<Seq<u8>>) -> bool { forall|x: Seq<u8>| #[trigger] lst_in(l, x) == sq_in(m, x) }
pub proof fn lemma_same_in(a: Seq<Str>, b: Seq<Str>, m: Seq<Seq<u8>>)
    requires same_in(a, m), forall|x: Str| b.contains(x) <==> a.contains(x)
    ensures same_in(b, m), a.len() > 0 ==> b.len() > 0
{
    lemma_lst_in(a); lemma_lst_in(b);
    if a.len() > 0 { assert(a.contains(a[0])); }
    assert forall|x: Seq<u8>| #[trigger] lst_in(b, x) == sq_in(m, x) by {
        if lst_in(b, x) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == x; assert(b.contains(b[i])); assert(lst_in(a, x)); }
        if lst_in(a, x) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == x; assert(a.contains(a[i])); assert(lst_in(b, x)); }
    }
}
pub proof fn lemma_same_eq(l: Seq<Str>, m: Seq<Seq<u8>>)
    requires l.len() == m.len(), forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@ == m[i]
    ensures same_in(l, m)
{
    assert forall|x: Seq<u8>| #[trigger] lst_in(l, x) == sq_in(m, x) by {
        if lst_in(l, x) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == x; assert(m[i] == x); }
        if sq_in(m, x) { let i = choose|i: int| 0 <= i < m.len() && #[trigger] m[i] == x; assert(l[i]@ == x); }
    }
}
pub open spec fn braces(s: Seq<u8>) -> bool { s.len() > 1 && s[0] == 123 && s.last() == 125 }
pub open spec fn inner(s: Seq<u8>) -> Seq<u8> { s.subrange(1, s.len() - 1) }
// ---- cutting well formed text
pub open spec fn cutp(s: Seq<u8>, k: int) -> bool { 0 <= k <= s.len() && (k == 0 || k == s.len() || s[k - 1] < 0x80 || s[k] < 0x80) }
pub proof fn lemma_ok8_cut(s: Seq<u8>, k: int)
    requires ok8(s), cutp(s, k)
    ensures ok8(from(s, k)), ok8(s.subrange(0, k)), bnd(s, k)
    decreases s.len()
{
    if k == 0 { lemma_from0(s); } else {
        lemma_dec(s);
        let w = dec_w(s);
        if k < w {
            assert(is_cont(s[k]));
            assert(s[k - 1] >= 0x80);
        }
        let t = from(s, w);
        if k - w > 0 { assert(t[k - w - 1] == s[k - 1]); }
        if k < s.len() { assert(t[k - w] == s[k]); }
        lemma_ok8_cut(t, k - w);
        lemma_from_from(s, w, k - w);
        let h = s.subrange(0, k);
        assert(dec_ok(h) && dec_w(h) == w) by {
            assert(h[0] == s[0]);
            if w > 1 { assert(h[1] == s[1]); }
            if w > 2 { assert(h[2] == s[2]); }
            if w > 3 { assert(h[3] == s[3]); }
        }
        assert(from(h, w) =~= t.subrange(0, k - w));
    }
}
pub proof fn lemma_txt_cut(s: Seq<u8>, k: int)
    requires txt(s), cutp(s, k)
    ensures txt(from(s, k)), txt(s.subrange(0, k))
{
    if U() { lemma_ok8_cut(s, k); }
    assert(forall|i: int| 0 <= i < s.len() - k ==> #[trigger] from(s, k)[i] == s[i + k]);
}
pub open spec fn nobr(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 125 }
// the parts of a text
pub proof fn lemma_split_txt(s: Seq<u8>, b: u8, i: int)
    requires txt(s), b < 0x80, 0 <= i < split_b(s, b).len()
    ensures txt(split_b(s, b)[i]), split_b(s, b)[i].len() <= s.len(), nobr(s) ==> nobr(split_b(s, b)[i])
    decreases s.len()
{
    lemma_first_b(s, b);
    let k = first_b(s, b);
    if k < s.len() {
        lemma_txt_cut(s, k);
        lemma_txt_cut(s, k + 1);
        let r = from(s, k + 1);
        if i > 0 { lemma_split_txt(r, b, i - 1); assert(split_b(s, b)[i] == split_b(r, b)[i - 1]); } else { assert(split_b(s, b)[0] =~= s.subrange(0, k)); }
    } else { assert(split_b(s, b)[0] == s); }
}
pub open spec fn maxl(l: Seq<Str>) -> int decreases l.len() { if l.len() == 0 { 0 } else { let m = maxl(l.drop_last()); if l.last()@.len() > m { l.last()@.len() as int } else { m } } }
pub proof fn lemma_maxl(l: Seq<Str>, n: int)
    ensures maxl(l) >= 0, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@.len() <= maxl(l),
        n >= 0 && (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@.len() <= n) ==> maxl(l) <= n
    decreases l.len()
{
    if l.len() > 0 {
        let d = l.drop_last();
        lemma_maxl(d, n);
        assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i])@.len() <= maxl(l) by { if i < d.len() { assert(d[i] == l[i]); } }
        if n >= 0 && (forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@.len() <= n) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i])@.len() <= n by { assert(d[i] == l[i]); } assert(l[l.len() - 1]@.len() <= n); }
    }
}
// values of a list the parser can take
#[verifier::opaque]
pub open spec fn vals_ok(l: Seq<Str>) -> bool { forall|i: int| 0 <= i < l.len() ==> txt((#[trigger] l[i])@) && nobr(l[i]@) }
pub proof fn lemma_vals_at(l: Seq<Str>, i: int)
    requires vals_ok(l), 0 <= i < l.len()
    ensures txt(l[i]@), nobr(l[i]@)
{ reveal(vals_ok); }
pub open spec fn allv_tw(l: Seq<Str>) -> bool { forall|i: int| 0 <= i < l.len() ==> tw((#[trigger] l[i])@) }
pub open spec fn alts_acc(l: Seq<Str>, u: Seq<u8>, x: Seq<u8>) -> bool { exists|i: int| 0 <= i < l.len() && acc((#[trigger] l[i])@ + u, x) }
pub proof fn lemma_alts_same(l: Seq<Str>, m: Seq<Seq<u8>>, n: int)
    requires same_in(l, m), n >= 0, forall|i: int| 0 <= i < m.len() ==> txt(#[trigger] m[i]) && nobr(m[i]) && m[i].len() <= n
    ensures vals_ok(l), maxl(l) <= n, allv_tw(l) == alltw(m), forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == altacc(m, u, x)
{
    reveal(vals_ok);
    assert forall|i: int| 0 <= i < l.len() implies txt((#[trigger] l[i])@) && nobr(l[i]@) && l[i]@.len() <= n by { assert(lst_in(l, l[i]@)); let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == l[i]@; assert(txt(m[j])); }
    lemma_maxl(l, n);
    if allv_tw(l) { assert forall|j: int| 0 <= j < m.len() implies tw(#[trigger] m[j]) by { assert(sq_in(m, m[j])); assert(lst_in(l, m[j])); } }
    if alltw(m) { assert forall|i: int| 0 <= i < l.len() implies tw((#[trigger] l[i])@) by { assert(lst_in(l, l[i]@)); } }
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == altacc(m, u, x) by {
        if alts_acc(l, u, x) { let i = choose|i: int| 0 <= i < l.len() && acc((#[trigger] l[i])@ + u, x); assert(lst_in(l, l[i]@)); let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == l[i]@; assert(acc(m[j] + u, x)); }
        if altacc(m, u, x) { let j = choose|j: int| 0 <= j < m.len() && acc(#[trigger] m[j] + u, x); assert(sq_in(m, m[j])); assert(lst_in(l, m[j])); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == m[j]; assert(acc(l[i]@ + u, x)); }
    }
}
// ---- an item stands for the start of a text
#[verifier::opaque]
pub open spec fn nxt_ok(s: Seq<u8>, it: items_Item, next: Seq<u8>) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(s + u, x) == itt(it, next + u, x) }
#[verifier::opaque]
pub open spec fn alt_ok(l: Seq<Str>, it: items_Item) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] alts_acc(l, u, x) == itt(it, u, x) }
pub open spec fn vtt(v: items_Item, u: Seq<u8>, x: Seq<u8>) -> bool { exists|k: int| 0 <= k <= x.len() && #[trigger] val_k(v, x, k) && acc(u, from(x, k)) }
#[verifier::opaque]
pub open spec fn val_ok(v: Seq<u8>, it: items_Item) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(v + u, x) == vtt(it, u, x) }
// the items c stand for the text up to its rest v
#[verifier::opaque]
pub open spec fn chn_ok(v0: Seq<u8>, c: Seq<items_Item>, v: Seq<u8>) -> bool { forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(v0 + u, x) == acct(c, v + u, x) }
pub open spec fn nes(it: items_Item) -> bool { it matches items_Item::String(x) ==> x.S@.len() > 0 }
pub open spec fn nesx(c: Seq<items_Item>) -> bool { forall|i: int| 0 <= i < c.len() ==> nes(#[trigger] c[i]) }
pub open spec fn lsty(it: items_Item) -> bool { it is StringList || it is Group }

pub proof fn lemma_nxt_class(t: Seq<u8>, it: items_Item)
    requires t.len() > 0, t[0] == 91, first_b(t, 93) < t.len(),
        ({ let c = t.subrange(0, first_b(t, 93) + 1); if it is Nil { class_empty(c) } else { !class_empty(c) && forall|s: Seq<u8>, k: int| it_k(it, s, k) == #[trigger] cls_k(c, s, k) } })
    ensures nxt_ok(t, it, from(t, first_b(t, 93) + 1))
{
    reveal(nxt_ok);
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, from(t, first_b(t, 93) + 1) + u, x) by { lemma_acc_class(t, u, it, x); }
}
pub proof fn lemma_nxt_stars(t: Seq<u8>, n: int)
    requires 0 < n <= t.len(), stars(t.subrange(0, n))
    ensures nxt_ok(t, items_Item::Star(0), from(t, n)), tw(t) == tw(from(t, n))
{
    reveal(nxt_ok);
    let l = t.subrange(0, n);
    let r = from(t, n);
    assert(t =~= l + r);
    lemma_acc_stars(l, r, Seq::empty());
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(items_Item::Star(0), r + u, x) by { assert(t + u =~= l + (r + u)); lemma_acc_stars(l, r + u, x); }
}
pub proof fn lemma_nxt_any(t: Seq<u8>)
    requires t.len() > 0, t[0] == 63
    ensures nxt_ok(t, items_Item::Any(1), from(t, 1)), tw(t) == tw(from(t, 1))
{
    reveal(nxt_ok);
    let r = from(t, 1);
    assert(t =~= seq![63u8] + r);
    lemma_acc_any(r, Seq::empty());
    assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(items_Item::Any(1), r + u, x) by { assert(t + u =~= seq![63u8] + (r + u)); lemma_acc_any(r + u, x); }
}
pub proof fn lemma_nxt_lit(t: Seq<u8>, n: int, it: items_Item)
    requires 0 < n <= t.len(), nowild(t.subrange(0, n)), islit(it), litx(it) == t.subrange(0, n), U() ==> wf_leaf(it)
    ensures U() ==> nxt_ok(t, it, from(t, n)), tw(t) == tw(from(t, n))
{
    reveal(nxt_ok);
    let l = t.subrange(0, n);
    let r = from(t, n);
    assert(t =~= l + r);
    lemma_tw_lit(l, r);
    if U() {
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, r + u, x) by {
            assert(t + u =~= l + (r + u)); lemma_acc_lit(l, r + u, x);
            if acc(t + u, x) { lemma_lit_k(it, x, n); assert(it_k(it, x, n)); }
            if itt(it, r + u, x) { let k = choose|k: int| 0 <= k <= x.len() && #[trigger] it_k(it, x, k) && acc(r + u, from(x, k)); lemma_lit_k(it, x, k); }
        }
    }
}
// a list
pub proof fn lemma_nxt_list(t: Seq<u8>, l: Seq<Str>, it: items_Item)
    requires t.len() > 0, t[0] == 123, first_b(t, 125) < t.len(), txt(t),
        same_in(l, alts(t, first_b(t, 125))) || (first_b(t, 125) == 1 && l.len() == 0 && it is Nil),
    ensures allv_tw(l) ==> tw(t) == tw(from(t, first_b(t, 125) + 1)), !allv_tw(l) ==> !tw(t), alt_ok(l, it) || l.len() == 0 ==> nxt_ok(t, it, from(t, first_b(t, 125) + 1)),
        vals_ok(l), maxl(l) <= first_b(t, 125)
{
    reveal(nxt_ok); reveal(alt_ok); reveal(vals_ok);
    let j = first_b(t, 125);
    lemma_first_b(t, 125);
    let a = alts(t, j);
    let n = t.subrange(1, j);
    let r = from(t, j + 1);
    lemma_txt_cut(t, j);
    lemma_txt_cut(t.subrange(0, j), 1);
    assert(from(t.subrange(0, j), 1) =~= n);
    assert(nobr(n));
    assert forall|i: int| 0 <= i < a.len() implies txt(#[trigger] a[i]) && nobr(a[i]) && a[i].len() <= j by { lemma_split_txt(n, 44, i); }
    if l.len() == 0 {
        lemma_split_len0(n);
        assert(a.len() > 0);
        if same_in(l, a) { assert(sq_in(a, a[0])); assert(lst_in(l, a[0])); assert(false); }
        assert(first_b(n, 44) == 0);
        assert(n =~= Seq::<u8>::empty());
        assert(a =~= seq![n]);
        assert(alltw(a));
        assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, r + u, x) by {
            lemma_acc_list(t, u, x);
            assert(a[0] + (r + u) =~= r + u);
            if altacc(a, r + u, x) { let i = choose|i: int| 0 <= i < a.len() && acc(#[trigger] a[i] + (r + u), x); assert(i == 0); }
        }
        lemma_maxl(l, j);
    } else {
        lemma_alts_same(l, a, j);
        if alt_ok(l, it) {
            assert forall|u: Seq<u8>, x: Seq<u8>| #[trigger] acc(t + u, x) == itt(it, r + u, x) by {
                lemma_acc_list(t, u, x);
                assert(alts_acc(l, r + u, x) == itt(it, r + u, x));
            }
        }
    }
}
pub proof fn lemma_split_len0(s: Seq<u8>)
    ensures split_b(s, 44).len() > 0
{}
// ---- what a class becomes
// an invalid symbol is only inside of a range
pub proof fn lemma_cls_rerr(s: Seq<u8>, st: int, isr: bool)
    requires cls_in(s, st, isr, RERR)
    ensures cls_in(s, st, isr, RERR - 1)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s);
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { lemma_cls_rerr(t, st, true); }
        else if isr && st != RERR { if !(st <= RERR <= c) { lemma_cls_rerr(t, RERR, false); } }
        else { lemma_cls_rerr(t, c, false); }
    }
}
pub proof fn lemma_nonul_syms(s: Seq<u8>)
    requires nonul(s)
    ensures !syms_in(s, 0)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s); lemma_dec_hi(s);
        assert(s[0] != 0);
        assert forall|i: int| 0 <= i < s.len() - dec_w(s) implies #[trigger] from(s, dec_w(s))[i] != 0 by { assert(s[i + dec_w(s)] != 0); }
        lemma_nonul_syms(from(s, dec_w(s)));
    }
}
pub proof fn lemma_cls_nul(s: Seq<u8>, st: int, isr: bool)
    requires nonul(s), st > 0, cls_in(s, st, isr, 0)
    ensures false
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s); lemma_dec_hi(s);
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        assert(s[0] != 0);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 0 by { assert(s[i + dec_w(s)] != 0); }
        if s[0] == 45 { lemma_cls_nul(t, st, true); }
        else if isr && st != RERR { lemma_cls_nul(t, RERR, false); }
        else { lemma_cls_nul(t, c, false); }
    }
}
pub proof fn lemma_class_nul(c: Seq<u8>)
    requires nonul(c), c.len() > 1
    ensures !class_in(c, 0)
{
    let i = c.subrange(1, c.len() - 1);
    assert forall|k: int| 0 <= k < i.len() implies #[trigger] i[k] != 0 by { assert(c[k + 1] != 0); }
    if class_in(c, 0) { lemma_cls_nul(i, RERR, false); }
}
pub open spec fn cls_it(rs: utils_RunesRanges, it: items_Item) -> bool {
    match it {
        items_Item::Nil => acount(rs.ASCII, 128) == 0 && rs.UnicodeRanges@.len() == 0,
        items_Item::Byte(b) => rs.UnicodeRanges@.len() == 0 && acount(rs.ASCII, 128) == 1 && b != 0 && ain(rs.ASCII, b as int),
        items_Item::Rune(c) => acount(rs.ASCII, 128) == 0 && rs.UnicodeRanges@.len() == 1 && rs.UnicodeRanges@[0].First == c && rs.UnicodeRanges@[0].Last == c,
        items_Item::RunesRanges(r) => r.RunesRanges == rs && !(acount(rs.ASCII, 128) == 0 && rs.UnicodeRanges@.len() == 0),
        _ => false,
    }
}
pub proof fn lemma_acount_zero(a: Ar<u32, 8>, n: int, c: int)
    requires acount(a, n) == 0, 1 <= c < n
    ensures !ain(a, c)
    decreases n
{ lemma_acount(a, n - 1); if c < n - 1 { lemma_acount_zero(a, n - 1, c); } }
pub proof fn lemma_acount_one(a: Ar<u32, 8>, n: int, b: int, c: int)
    requires acount(a, n) == 1, 1 <= b < n, 1 <= c < n, ain(a, b), ain(a, c)
    ensures b == c
    decreases n
{
    if b != c {
        lemma_acount(a, n - 1);
        if b == n - 1 { lemma_acount_zero(a, n - 1, c); } else if c == n - 1 { lemma_acount_zero(a, n - 1, b); } else { lemma_acount_one(a, n - 1, b, c); }
    }
}
pub proof fn lemma_acount_some(a: Ar<u32, 8>, n: int) -> (c: int)
    requires acount(a, n) > 0
    ensures 1 <= c < n, ain(a, c)
    decreases n
{ if ain(a, n - 1) && n > 1 { n - 1 } else { lemma_acount_some(a, n - 1) } }
pub proof fn lemma_cls_it(c: Seq<u8>, rs: utils_RunesRanges, it: items_Item)
    requires class_ok(c), rok(rs), rsz(rs), forall|x: int| #[trigger] rin(rs, x) == class_in(c, x), cls_it(rs, it)
    ensures it is Nil ==> class_empty(c),
        !(it is Nil) ==> wf_leaf(it) && !class_empty(c) && szb(it, c.len() as int) && nes(it) && !lsty(it),
        !(it is Nil) && nonul(c) ==> forall|s: Seq<u8>, k: int| it_k(it, s, k) == #[trigger] cls_k(c, s, k)
{
    let u = rs.UnicodeRanges@;
    let a = rs.ASCII;
    assert(!class_in(c, RERR) || class_in(c, RERR - 1)) by { if class_in(c, RERR) { lemma_cls_rerr(c.subrange(1, c.len() - 1), RERR, false); } }
    if it is Nil {
        assert forall|x: int| x > 0 implies !#[trigger] class_in(c, x) by { assert(!rin(rs, x)) by { if 0 < x < 128 { lemma_acount_zero(a, 128, x); } } assert(rin(rs, x) == class_in(c, x)); }
    } else {
        lemma_acount(a, 128);
        let y = match it { items_Item::Byte(b) => b as int, items_Item::Rune(r) => r as int, _ => if acount(a, 128) > 0 { lemma_acount_some(a, 128) } else { u[0].First as int } };
        if !(it is Byte) && acount(a, 128) == 0 { assert(rr_ok(u[0])); assert(rr_in(u[0], y)); assert(uin(u, y)); }
        assert(rin(rs, y));
        assert(y > 0 && class_in(c, y));
        if it is Rune {
            assert(rr_ok(u[0]));
            if y == RERR {
                assert(rin(rs, RERR - 1));
                let m = choose|m: int| 0 <= m < u.len() && rr_in(#[trigger] u[m], RERR - 1);
                assert(false);
            }
        }
        if nonul(c) {
            lemma_class_nul(c);
            assert(!rin(rs, 0));
            assert forall|s: Seq<u8>, k: int| it_k(it, s, k) == #[trigger] cls_k(c, s, k) by {
                lemma_dec(s);
                if s.len() > 0 { lemma_dec_hi(s); }
                lemma_from0(s);
                let x = dec_c(s);
                assert(rin(rs, x) == class_in(c, x));
                match it {
                    items_Item::Byte(b) => { if ain(a, x) && x != 0 { lemma_acount_one(a, 128, b as int, x); } }
                    items_Item::Rune(r) => {
                        if x < 128 && x > 0 { lemma_acount_zero(a, 128, x); }
                        if uin(u, x) { let m = choose|m: int| 0 <= m < u.len() && rr_in(#[trigger] u[m], x); assert(m == 0); }
                        if x == r { assert(rr_in(u[0], x)); }
                    }
                    _ => {}
                }
            }
        }
    }
}
pub proof fn lemma_first_idx(s: Seq<u8>, b: u8, r: int)
    requires r == -1 || 0 <= r < s.len() && s[r] == b, forall|i: int| 0 <= i < s.len() && (r < 0 || i < r) ==> #[trigger] s[i] != b
    ensures r >= 0 ==> first_b(s, b) == r, r < 0 ==> first_b(s, b) >= s.len()
{ lemma_first_b(s, b); if r >= 0 { lemma_first_at(s, b, r); } }
pub proof fn lemma_idx(s: Seq<u8>, p: Seq<u8>, r: int)
    requires p.len() == 1, -1 <= r, r >= 0 ==> occ(s, p, r), forall|i: int| 0 <= i && (r < 0 || i < r) ==> !#[trigger] occ(s, p, i)
    ensures r >= 0 ==> r < s.len() && first_b(s, p[0]) == r, r < 0 ==> first_b(s, p[0]) >= s.len()
{
    if r >= 0 { assert(s.subrange(r, r + 1)[0] == p[0]); }
    assert forall|i: int| 0 <= i < s.len() && (r < 0 || i < r) implies #[trigger] s[i] != p[0] by { if s[i] == p[0] { assert(s.subrange(i, i + 1) =~= p); assert(occ(s, p, i)); } }
    lemma_first_idx(s, p[0], r);
}
