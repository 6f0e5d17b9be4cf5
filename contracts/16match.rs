// uses: 10sets.rs
// What the items of a glob accept.

// k is at a symbol boundary of s
pub open spec fn bnd(s: Seq<u8>, k: int) -> bool decreases s.len() via bnd_dec {
    k == 0 || (0 < k <= s.len() && dec_w(s) <= k && bnd(from(s, dec_w(s)), k - dec_w(s)))
}
#[via_fn]
proof fn bnd_dec(s: Seq<u8>, k: int) { if s.len() > 0 { lemma_dec(s); } }
// skip_w(s, n): the bytes of the first n symbols, -1 when there are fewer
pub proof fn lemma_sk(s: Seq<u8>, n: int)
    ensures -1 <= skip_w(s, n) <= s.len(), skip_w(s, n) >= 0 ==> bnd(s, skip_w(s, n)) && (n >= 0 ==> skip_w(s, n) >= n) && skip_w(s, n) <= 4 * n || n <= 0
    decreases n
{
    if n > 0 && s.len() > 0 {
        lemma_dec(s);
        let w = dec_w(s);
        let r = skip_w(from(s, w), n - 1);
        lemma_sk(from(s, w), n - 1);
        if r >= 0 {
            assert(skip_w(s, n) == w + r);
            assert(bnd(from(s, w), r)) by { if n - 1 <= 0 { assert(r == 0); } }
            assert(bnd(s, w + r)) by { assert(w + r - w == r); }
        }
    }
}
pub proof fn lemma_from_from(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures from(from(s, a), b) == from(s, a + b)
{ assert(from(from(s, a), b) =~= from(s, a + b)); }
pub proof fn lemma_from0(s: Seq<u8>)
    ensures from(s, 0) == s
{ assert(from(s, 0) =~= s); }
pub proof fn lemma_sk_add(s: Seq<u8>, a: int, b: int)
    requires a >= 0, b >= 0
    ensures skip_w(s, a) < 0 ==> skip_w(s, a + b) < 0,
        skip_w(s, a) >= 0 ==> skip_w(s, a + b) == if skip_w(from(s, skip_w(s, a)), b) < 0 { -1 } else { skip_w(s, a) + skip_w(from(s, skip_w(s, a)), b) },
    decreases a
{
    if a == 0 { lemma_from0(s); lemma_sk(s, b); } else if s.len() > 0 {
        lemma_dec(s);
        let t = from(s, dec_w(s));
        lemma_sk_add(t, a - 1, b);
        lemma_sk(t, a - 1);
        if skip_w(t, a - 1) >= 0 { lemma_from_from(s, dec_w(s), skip_w(t, a - 1)); lemma_sk(from(t, skip_w(t, a - 1)), b); }
    }
}
pub proof fn lemma_bnd_add(s: Seq<u8>, a: int, b: int)
    requires bnd(s, a), 0 <= a <= s.len(), 0 <= b, a + b <= s.len()
    ensures bnd(from(s, a), b) == bnd(s, a + b)
    decreases s.len()
{
    if a == 0 { lemma_from0(s); } else {
        lemma_dec(s);
        let t = from(s, dec_w(s));
        lemma_bnd_add(t, a - dec_w(s), b);
        lemma_from_from(s, dec_w(s), a - dec_w(s));
    }
}
// a symbol start which is no continuation byte
pub proof fn lemma_bnd_start(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), k < s.len() ==> !is_cont(s[k])
    ensures bnd(s, k)
    decreases s.len()
{
    if k > 0 {
        lemma_dec(s);
        let w = dec_w(s);
        if k < w {
            assert(is_cont(s[k]));
        }
        let t = from(s, w);
        if k < s.len() { assert(t[k - w] == s[k]); }
        lemma_bnd_start(t, k - w);
    }
}
// skipping from a later start ends later
pub proof fn lemma_sk_mono(s: Seq<u8>, u: int, n: int)
    requires bnd(s, u), 0 <= u <= s.len(), n >= 0, skip_w(from(s, u), n) >= 0
    ensures 0 <= skip_w(s, n) <= u + skip_w(from(s, u), n), bnd(s, u + skip_w(from(s, u), n)), u + skip_w(from(s, u), n) <= s.len()
    decreases u + n
{
    let e = skip_w(from(s, u), n);
    lemma_sk(from(s, u), n);
    lemma_bnd_add(s, u, e);
    lemma_sk(s, n);
    if u == 0 { lemma_from0(s); } else if n > 0 {
        lemma_dec(s);
        let w = dec_w(s);
        let t = from(s, w);
        lemma_from_from(s, w, u - w);
        // t from u-w skips n, so it skips n-1 too
        lemma_sk_add(from(s, u), n - 1, 1);
        lemma_sk(from(s, u), n - 1);
        assert(skip_w(from(s, u), n - 1) >= 0);
        lemma_sk(from(from(s, u), skip_w(from(s, u), n - 1)), 1);
        lemma_sk_mono(t, u - w, n - 1);
    }
}
// well formed text
pub open spec fn ok8(x: Seq<u8>) -> bool decreases x.len() via ok8_dec { x.len() == 0 || (dec_ok(x) && ok8(from(x, dec_w(x)))) }
#[via_fn]
proof fn ok8_dec(x: Seq<u8>) { if x.len() > 0 { lemma_dec(x); } }
pub open spec fn nrune(x: Seq<u8>) -> int decreases x.len() via nrune_dec { if x.len() == 0 { 0 } else { 1 + nrune(from(x, dec_w(x))) } }
#[via_fn]
proof fn nrune_dec(x: Seq<u8>) { if x.len() > 0 { lemma_dec(x); } }
pub proof fn lemma_dec_prefix(s: Seq<u8>, x: Seq<u8>)
    requires starts(s, x), dec_ok(x)
    ensures dec_ok(s), dec_w(s) == dec_w(x), dec_c(s) == dec_c(x)
{
    lemma_dec(x);
    assert(forall|i: int| 0 <= i < x.len() ==> s.subrange(0, x.len() as int)[i] == x[i]);
    assert(forall|i: int| 0 <= i < x.len() ==> #[trigger] s[i] == x[i]);
    assert(s[0] == x[0]);
    if x.len() > 1 { assert(s[1] == x[1]); }
    if x.len() > 2 { assert(s[2] == x[2]); }
    if x.len() > 3 { assert(s[3] == x[3]); }
}
pub proof fn lemma_starts_from(s: Seq<u8>, x: Seq<u8>, w: int)
    requires starts(s, x), 0 <= w <= x.len()
    ensures starts(from(s, w), from(x, w))
{
    assert(forall|i: int| 0 <= i < x.len() ==> s.subrange(0, x.len() as int)[i] == x[i]);
    assert(from(s, w).subrange(0, x.len() - w) =~= from(x, w));
}
pub proof fn lemma_starts_ok8(s: Seq<u8>, x: Seq<u8>)
    requires starts(s, x), ok8(x)
    ensures skip_w(s, nrune(x)) == x.len(), nrune(x) >= 0
    decreases x.len()
{
    if x.len() > 0 {
        lemma_dec(x);
        lemma_dec_prefix(s, x);
        lemma_starts_from(s, x, dec_w(x));
        lemma_starts_ok8(from(s, dec_w(x)), from(x, dec_w(x)));
    }
}
pub proof fn lemma_starts_rune(s: Seq<u8>, c: int)
    requires rune_ok(c)
    ensures starts(s, enc(c)) <==> (dec_ok(s) && dec_c(s) == c), starts(s, enc(c)) ==> dec_w(s) == enc(c).len(), enc(c).len() == rune_len(c), !is_cont(enc(c)[0])
{
    lemma_enc_len(c);
    if starts(s, enc(c)) {
        lemma_dec_enc(c, from(s, enc(c).len() as int));
        assert(enc(c) + from(s, enc(c).len() as int) =~= s) by { assert(s.subrange(0, enc(c).len() as int) =~= enc(c)); }
    }
    if dec_ok(s) && dec_c(s) == c { lemma_enc_dec(s); lemma_dec(s); }
}

// ---- leaf items: it accepts the first k bytes of s
pub open spec fn list_k(l: items_StringList, s: Seq<u8>, k: int) -> bool {
    (l.MinSize == 0 && k == 0) || exists|i: int| 0 <= i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && k == l.Vals@[i]@.len()
}
pub open spec fn leaf_k(it: items_Item, s: Seq<u8>, k: int) -> bool {
    match it {
        items_Item::Any(n) => k >= 0 && k == skip_w(s, n as int),
        items_Item::Star(n) => bnd(s, k) && 0 <= skip_w(s, n as int) <= k,
        items_Item::Byte(c) => s.len() > 0 && s[0] == c && k == 1,
        items_Item::Rune(c) => dec_ok(s) && dec_c(s) == c && k == dec_w(s),
        items_Item::RunesRanges(r) => symin(r.RunesRanges, s, 0) && k == dec_w(s),
        items_Item::String(x) => starts(s, x.S@) && k == x.S@.len(),
        items_Item::StringList(l) => list_k(l, s, k),
        _ => false,
    }
}
pub open spec fn LIM() -> int { 8 * MAXL }
pub open spec fn wf_list(l: items_StringList) -> bool {
    &&& 0 <= l.MinSize <= l.MaxSize <= LIM()
    &&& forall|i: int| 0 <= i < l.Vals@.len() ==> (#[trigger] l.Vals@[i])@.len() > 0 && ok8(l.Vals@[i]@) && l.MinSize <= l.Vals@[i]@.len() <= l.MaxSize
}
pub open spec fn wf_leaf(it: items_Item) -> bool {
    match it {
        items_Item::Any(n) => 0 < n <= MAXL,
        items_Item::Star(n) => 0 <= n <= MAXL,
        items_Item::Byte(c) => c < 128,
        items_Item::Rune(c) => rune_ok(c as int) && c != RERR,
        items_Item::RunesRanges(r) => rok(r.RunesRanges) && rsz(r.RunesRanges) && r.RunesRanges.MinSize > 0,
        items_Item::String(x) => ok8(x.S@),
        items_Item::StringList(l) => wf_list(l),
        _ => false,
    }
}
pub open spec fn simple(it: items_Item) -> bool { it is Any || it is Byte || it is Rune || it is RunesRanges || it is String }
pub open spec fn leaf_min(it: items_Item) -> int {
    match it {
        items_Item::Any(n) => n as int,
        items_Item::Star(n) => n as int,
        items_Item::Byte(c) => 1,
        items_Item::Rune(c) => rune_len(c as int),
        items_Item::RunesRanges(r) => r.RunesRanges.MinSize as int,
        items_Item::String(x) => x.S@.len() as int,
        items_Item::StringList(l) => l.MinSize as int,
        items_Item::Group(g) => g.MinSize as int,
        items_Item::Chain(c) => c.MinSize as int,
        items_Item::Nil => 0,
    }
}
pub open spec fn leaf_max(it: items_Item) -> int {
    match it {
        items_Item::Any(n) => n * 4,
        items_Item::Star(n) => -1,
        items_Item::Byte(c) => 1,
        items_Item::Rune(c) => rune_len(c as int),
        items_Item::RunesRanges(r) => r.RunesRanges.MaxSize as int,
        items_Item::String(x) => x.S@.len() as int,
        items_Item::StringList(l) => l.MaxSize as int,
        items_Item::Group(g) => g.MaxSize as int,
        items_Item::Chain(c) => c.MaxSize as int,
        items_Item::Nil => 0,
    }
}
// a simple item accepts at most one length
pub proof fn lemma_simple_one(it: items_Item, s: Seq<u8>, a: int, b: int)
    requires simple(it), leaf_k(it, s, a), leaf_k(it, s, b)
    ensures a == b
{}
pub open spec fn nsym(it: items_Item) -> int {
    match it { items_Item::Any(n) => n as int, items_Item::String(x) => nrune(x.S@), _ => 1 }
}
// a simple item takes a fixed number of symbols
pub proof fn lemma_simple_sk(it: items_Item, s: Seq<u8>, k: int)
    requires simple(it), wf_leaf(it), leaf_k(it, s, k)
    ensures skip_w(s, nsym(it)) == k, nsym(it) >= 0, 0 <= k <= s.len(), bnd(s, k)
{
    lemma_dec(s);
    match it {
        items_Item::String(x) => { lemma_starts_ok8(s, x.S@); }
        items_Item::Any(n) => {}
        _ => { lemma_from0(s); assert(skip_w(from(s, dec_w(s)), 0) == 0); assert(skip_w(s, 1) == dec_w(s)); }
    }
    lemma_sk(s, nsym(it));
}
pub proof fn lemma_leaf_bounds(it: items_Item, s: Seq<u8>, k: int)
    requires wf_leaf(it), leaf_k(it, s, k)
    ensures 0 <= leaf_min(it) <= k <= s.len(), leaf_max(it) == -1 || k <= leaf_max(it), bnd(s, k)
{
    lemma_dec(s);
    match it {
        items_Item::Star(n) => { lemma_sk(s, n as int); lemma_bnd_le(s, k); }
        items_Item::StringList(l) => {
            if !(l.MinSize == 0 && k == 0) {
                let i = choose|i: int| 0 <= i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && k == l.Vals@[i]@.len();
                lemma_starts_ok8(s, l.Vals@[i]@);
                lemma_sk(s, nrune(l.Vals@[i]@));
            }
        }
        items_Item::Any(n) => { lemma_simple_sk(it, s, k); lemma_sk(s, n as int); }
        items_Item::RunesRanges(r) => { lemma_simple_sk(it, s, k); lemma_from0(s); assert(rin(r.RunesRanges, dec_c(s))); assert(rune_ok(dec_c(s))); }
        items_Item::Rune(c) => { lemma_simple_sk(it, s, k); }
        _ => { lemma_simple_sk(it, s, k); }
    }
}
pub proof fn lemma_bnd_le(s: Seq<u8>, k: int)
    requires bnd(s, k)
    ensures 0 <= k <= s.len()
    decreases s.len()
{}
// what may be empty accepts the empty text
pub proof fn lemma_leaf_zero(it: items_Item, s: Seq<u8>)
    requires wf_leaf(it), leaf_min(it) == 0
    ensures leaf_k(it, s, 0)
{
    match it { items_Item::String(x) => { assert(s.subrange(0, 0) =~= x.S@); } items_Item::Rune(c) => { } _ => {} }
}

// ---- chains, groups
pub open spec fn ch_k(c: Seq<items_Item>, s: Seq<u8>, k: int) -> bool decreases c.len() {
    if c.len() == 0 { k == 0 } else { exists|j: int| 0 <= j <= k && #[trigger] leaf_k(c[0], s, j) && ch_k(c.drop_first(), from(s, j), k - j) }
}
pub open spec fn val_items(v: items_Item) -> Seq<items_Item> { match v { items_Item::Chain(c) => c.Items@, _ => seq![v] } }
pub open spec fn val_k(v: items_Item, s: Seq<u8>, k: int) -> bool { match v { items_Item::Chain(c) => ch_k(c.Items@, s, k), _ => leaf_k(v, s, k) } }
pub open spec fn grp_k(g: items_Group, s: Seq<u8>, k: int) -> bool { exists|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], s, k) }
pub open spec fn it_k(it: items_Item, s: Seq<u8>, k: int) -> bool { match it { items_Item::Group(g) => grp_k(g, s, k), _ => leaf_k(it, s, k) } }
pub open spec fn wf_leafs(c: Seq<items_Item>) -> bool { forall|i: int| 0 <= i < c.len() ==> wf_leaf(#[trigger] c[i]) && !(c[i] is StringList) }
pub open spec fn sum_min(c: Seq<items_Item>) -> int decreases c.len() { if c.len() == 0 { 0 } else { sum_min(c.drop_last()) + leaf_min(c.last()) } }
pub open spec fn addmax(a: int, b: int) -> int { if a > -1 && b > -1 { a + b } else { -1 } }
pub open spec fn sum_max(c: Seq<items_Item>) -> int decreases c.len() { if c.len() == 0 { 0 } else { addmax(sum_max(c.drop_last()), leaf_max(c.last())) } }
pub open spec fn wf_chain(c: items_Chain) -> bool { wf_leafs(c.Items@) && c.MinSize == sum_min(c.Items@) && c.MaxSize == sum_max(c.Items@) && 0 <= c.MinSize <= LIM() && -1 <= c.MaxSize <= LIM() }
pub open spec fn wf_val(v: items_Item) -> bool { match v { items_Item::Chain(c) => wf_chain(c), items_Item::StringList(l) => false, _ => wf_leaf(v) } }
pub open spec fn wf_group(g: items_Group) -> bool {
    &&& 0 <= g.MinSize <= LIM() && -1 <= g.MaxSize <= LIM()
    &&& forall|i: int| 0 <= i < g.Vals@.len() ==> wf_val(#[trigger] g.Vals@[i]) && g.MinSize <= leaf_min(g.Vals@[i]) && (g.MaxSize == -1 || 0 <= leaf_max(g.Vals@[i]) <= g.MaxSize)
    &&& exists|i: int| 0 <= i < g.Vals@.len() && leaf_min(#[trigger] g.Vals@[i]) == g.MinSize
}
pub open spec fn wfi(it: items_Item) -> bool { match it { items_Item::Group(g) => wf_group(g), _ => wf_leaf(it) } }
pub open spec fn wfs(c: Seq<items_Item>) -> bool { forall|i: int| 0 <= i < c.len() ==> wfi(#[trigger] c[i]) }
pub proof fn lemma_sum_min_cons(c: Seq<items_Item>)
    requires c.len() > 0
    ensures sum_min(c) == leaf_min(c[0]) + sum_min(c.drop_first()), sum_max(c) == addmax(leaf_max(c[0]), sum_max(c.drop_first())) || leaf_max(c[0]) < -1
    decreases c.len()
{
    if c.len() == 1 { assert(c.drop_first() =~= Seq::empty()); assert(c.drop_last() =~= Seq::empty()); } else {
        lemma_sum_min_cons(c.drop_last());
        assert(c.drop_last().drop_first() =~= c.drop_first().drop_last());
    }
}
pub proof fn lemma_sum_pos(c: Seq<items_Item>)
    requires wf_leafs(c)
    ensures sum_min(c) >= 0, sum_max(c) >= -1
    decreases c.len()
{ if c.len() > 0 { assert(wf_leafs(c.drop_last())) by { assert forall|i: int| 0 <= i < c.len() - 1 implies wf_leaf(#[trigger] c.drop_last()[i]) && !(c.drop_last()[i] is StringList) by { assert(wf_leaf(c[i])); } } lemma_sum_pos(c.drop_last()); assert(wf_leaf(c.last())) by { assert(wf_leaf(c[c.len() - 1])); } lemma_leaf_mins(c.last()); } }
pub proof fn lemma_leaf_mins(it: items_Item)
    requires wf_leaf(it)
    ensures 0 <= leaf_min(it), -1 <= leaf_max(it), leaf_max(it) == -1 || leaf_min(it) <= leaf_max(it)
{}
pub proof fn lemma_leafs_tail(c: Seq<items_Item>)
    requires wf_leafs(c), c.len() > 0
    ensures wf_leafs(c.drop_first()), wf_leaf(c[0])
{ assert forall|i: int| 0 <= i < c.len() - 1 implies wf_leaf(#[trigger] c.drop_first()[i]) && !(c.drop_first()[i] is StringList) by { assert(wf_leaf(c[i + 1])); } assert(wf_leaf(c[0])); }
pub proof fn lemma_ch_bounds(c: Seq<items_Item>, s: Seq<u8>, k: int)
    requires wf_leafs(c), ch_k(c, s, k)
    ensures 0 <= sum_min(c) <= k <= s.len(), sum_max(c) == -1 || k <= sum_max(c), bnd(s, k)
    decreases c.len()
{
    if c.len() > 0 {
        lemma_leafs_tail(c);
        let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(c[0], s, j) && ch_k(c.drop_first(), from(s, j), k - j);
        lemma_leaf_bounds(c[0], s, j);
        lemma_ch_bounds(c.drop_first(), from(s, j), k - j);
        lemma_sum_min_cons(c);
        lemma_sum_pos(c.drop_first());
        lemma_bnd_add(s, j, k - j);
    }
}
pub proof fn lemma_ch_zero(c: Seq<items_Item>, s: Seq<u8>)
    requires wf_leafs(c), sum_min(c) == 0
    ensures ch_k(c, s, 0)
    decreases c.len()
{
    if c.len() > 0 {
        lemma_leafs_tail(c);
        lemma_sum_min_cons(c);
        lemma_sum_pos(c.drop_first());
        lemma_leaf_mins(c[0]);
        lemma_leaf_zero(c[0], s);
        lemma_from0(s);
        lemma_ch_zero(c.drop_first(), s);
        assert(leaf_k(c[0], s, 0) && ch_k(c.drop_first(), from(s, 0), 0 - 0));
    }
}
pub proof fn lemma_val_bounds(v: items_Item, s: Seq<u8>, k: int)
    requires wf_val(v), val_k(v, s, k)
    ensures 0 <= leaf_min(v) <= k <= s.len(), leaf_max(v) == -1 || k <= leaf_max(v), bnd(s, k)
{ match v { items_Item::Chain(c) => { lemma_ch_bounds(c.Items@, s, k); } _ => { lemma_leaf_bounds(v, s, k); } } }
pub proof fn lemma_val_zero(v: items_Item, s: Seq<u8>)
    requires wf_val(v), leaf_min(v) == 0
    ensures val_k(v, s, 0)
{ match v { items_Item::Chain(c) => { lemma_ch_zero(c.Items@, s); } _ => { lemma_leaf_zero(v, s); } } }
pub proof fn lemma_it_bounds(it: items_Item, s: Seq<u8>, k: int)
    requires wfi(it), it_k(it, s, k)
    ensures 0 <= leaf_min(it) <= k <= s.len(), leaf_max(it) == -1 || k <= leaf_max(it), bnd(s, k)
{
    match it {
        items_Item::Group(g) => {
            let i = choose|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], s, k);
            lemma_val_bounds(g.Vals@[i], s, k);
        }
        _ => { lemma_leaf_bounds(it, s, k); }
    }
}

// ---- sequences of items: the whole of s is accepted
pub open spec fn mm(c: Seq<items_Item>, s: Seq<u8>) -> bool decreases c.len() {
    if c.len() == 0 { s.len() == 0 } else { exists|k: int| 0 <= k <= s.len() && #[trigger] it_k(c[0], s, k) && mm(c.drop_first(), from(s, k)) }
}
// some rest of s is accepted
pub open spec fn smatch(c: Seq<items_Item>, s: Seq<u8>) -> bool { exists|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(c, from(s, p)) }
pub open spec fn cons(it: items_Item, r: Seq<items_Item>) -> Seq<items_Item> { seq![it] + r }
pub proof fn lemma_cons(it: items_Item, r: Seq<items_Item>)
    ensures cons(it, r).len() == r.len() + 1, cons(it, r)[0] == it, cons(it, r).drop_first() == r
{ assert(cons(it, r).drop_first() =~= r); }
pub proof fn lemma_mm_cons(it: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    ensures mm(cons(it, r), s) == exists|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(r, from(s, k))
{ lemma_cons(it, r); }
// a part of a sequence
pub open spec fn rest(c: Seq<items_Item>, i: int) -> Seq<items_Item> { c.subrange(i, c.len() as int) }
pub proof fn lemma_rest(c: Seq<items_Item>, i: int, f: Seq<items_Item>)
    requires 0 <= i < c.len()
    ensures rest(c, i) + f == cons(c[i], rest(c, i + 1) + f)
{ assert(rest(c, i) + f =~= cons(c[i], rest(c, i + 1) + f)); }
// a simple item in front, matched or not
pub proof fn lemma_simple_step(it: items_Item, r: Seq<items_Item>, s: Seq<u8>, k: int)
    requires simple(it), wf_leaf(it), leaf_k(it, s, k)
    ensures 0 <= k <= s.len(), bnd(s, k), mm(cons(it, r), s) == mm(r, from(s, k)), smatch(cons(it, r), s) ==> smatch(r, from(s, k))
{
    lemma_simple_sk(it, s, k);
    lemma_mm_cons(it, r, s);
    if mm(cons(it, r), s) {
        let j = choose|j: int| 0 <= j <= s.len() && #[trigger] it_k(it, s, j) && mm(r, from(s, j));
        lemma_simple_one(it, s, j, k);
    }
    assert(it_k(it, s, k));
    if smatch(cons(it, r), s) {
        let u = choose|u: int| 0 <= u <= s.len() && #[trigger] bnd(s, u) && mm(cons(it, r), from(s, u));
        lemma_mm_cons(it, r, from(s, u));
        let j = choose|j: int| 0 <= j <= from(s, u).len() && #[trigger] it_k(it, from(s, u), j) && mm(r, from(from(s, u), j));
        lemma_simple_sk(it, from(s, u), j);
        lemma_sk_mono(s, u, nsym(it));
        lemma_from_from(s, u, j);
        lemma_from_from(s, k, u + j - k);
        lemma_bnd_add(s, k, u + j - k);
        assert(bnd(from(s, k), u + j - k));
    }
}
pub proof fn lemma_no_step(it: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    requires forall|k: int| !#[trigger] it_k(it, s, k)
    ensures !mm(cons(it, r), s)
{ lemma_mm_cons(it, r, s); }
pub proof fn lemma_short(it: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    requires wfi(it), s.len() < leaf_min(it)
    ensures !mm(cons(it, r), s), !smatch(cons(it, r), s)
{
    lemma_mm_cons(it, r, s);
    if mm(cons(it, r), s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(r, from(s, k)); lemma_it_bounds(it, s, k); }
    if smatch(cons(it, r), s) {
        let u = choose|u: int| 0 <= u <= s.len() && #[trigger] bnd(s, u) && mm(cons(it, r), from(s, u));
        lemma_mm_cons(it, r, from(s, u));
        let k = choose|k: int| 0 <= k <= from(s, u).len() && #[trigger] it_k(it, from(s, u), k) && mm(r, from(from(s, u), k));
        lemma_it_bounds(it, from(s, u), k);
    }
}
pub proof fn lemma_star_step(n: i64, r: Seq<items_Item>, s: Seq<u8>)
    requires n >= 0
    ensures skip_w(s, n as int) < 0 ==> !mm(cons(items_Item::Star(n), r), s) && !smatch(cons(items_Item::Star(n), r), s),
        skip_w(s, n as int) >= 0 ==> skip_w(s, n as int) <= s.len() && mm(cons(items_Item::Star(n), r), s) == smatch(r, from(s, skip_w(s, n as int)))
            && smatch(cons(items_Item::Star(n), r), s) == smatch(r, from(s, skip_w(s, n as int))),
{
    let it = items_Item::Star(n);
    let c = cons(it, r);
    let m = skip_w(s, n as int);
    lemma_sk(s, n as int);
    lemma_mm_cons(it, r, s);
    if mm(c, s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(r, from(s, k));
        lemma_bnd_add(s, m, k - m);
        lemma_from_from(s, m, k - m);
        assert(bnd(from(s, m), k - m));
        lemma_from0(s);
        assert(bnd(s, 0));
        assert(smatch(c, s));
    }
    if smatch(c, s) {
        let u = choose|u: int| 0 <= u <= s.len() && #[trigger] bnd(s, u) && mm(c, from(s, u));
        lemma_mm_cons(it, r, from(s, u));
        let k = choose|k: int| 0 <= k <= from(s, u).len() && #[trigger] it_k(it, from(s, u), k) && mm(r, from(from(s, u), k));
        lemma_sk_mono(s, u, n as int);
        lemma_from_from(s, u, k);
        lemma_bnd_add(s, u, k);
        lemma_bnd_add(s, m, u + k - m);
        lemma_from_from(s, m, u + k - m);
        assert(bnd(from(s, m), u + k - m));
    }
    if m >= 0 && smatch(r, from(s, m)) {
        let p = choose|p: int| 0 <= p <= from(s, m).len() && #[trigger] bnd(from(s, m), p) && mm(r, from(from(s, m), p));
        lemma_bnd_add(s, m, p);
        lemma_from_from(s, m, p);
        assert(it_k(it, s, m + p));
        assert(mm(c, s));
    }
}
pub proof fn lemma_star_nil(s: Seq<u8>)
    ensures smatch(Seq::<items_Item>::empty(), s)
{ lemma_bnd_start(s, s.len() as int); assert(from(s, s.len() as int).len() == 0); assert(bnd(s, s.len() as int)); }
// going forward where nothing matches
pub proof fn lemma_smatch_skip(c: Seq<items_Item>, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), bnd(s, k), forall|p: int| 0 <= p < k && #[trigger] bnd(s, p) ==> !mm(c, from(s, p))
    ensures smatch(c, s) == smatch(c, from(s, k))
{
    if smatch(c, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(c, from(s, p));
        lemma_bnd_add(s, k, p - k);
        lemma_from_from(s, k, p - k);
        assert(bnd(from(s, k), p - k));
    }
    if smatch(c, from(s, k)) {
        let p = choose|p: int| 0 <= p <= from(s, k).len() && #[trigger] bnd(from(s, k), p) && mm(c, from(from(s, k), p));
        lemma_bnd_add(s, k, p);
        lemma_from_from(s, k, p);
        assert(bnd(s, k + p));
    }
}
pub proof fn lemma_smatch_next(c: Seq<items_Item>, s: Seq<u8>)
    requires !mm(c, s)
    ensures s.len() > 0 ==> smatch(c, s) == smatch(c, from(s, dec_w(s))) && 1 <= dec_w(s) <= s.len(), s.len() == 0 ==> !smatch(c, s) && dec_w(s) == 0
{
    lemma_from0(s);
    if s.len() > 0 {
        lemma_dec(s);
        let w = dec_w(s);
        assert(bnd(from(s, w), 0));
        assert(bnd(s, w));
        assert forall|p: int| 0 <= p < w && #[trigger] bnd(s, p) implies !mm(c, from(s, p)) by { assert(p == 0); }
        lemma_smatch_skip(c, s, w);
    } else if smatch(c, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(c, from(s, p));
        assert(p == 0);
    }
}
pub proof fn lemma_smatch_mm(c: Seq<items_Item>, s: Seq<u8>)
    ensures mm(c, s) ==> smatch(c, s)
{ lemma_from0(s); assert(bnd(s, 0)); }
// no match at all positions
pub proof fn lemma_smatch_none(it: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    requires forall|p: int, k: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) ==> !#[trigger] it_k(it, from(s, p), k)
    ensures !smatch(cons(it, r), s)
{
    if smatch(cons(it, r), s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(cons(it, r), from(s, p));
        lemma_mm_cons(it, r, from(s, p));
    }
}
pub proof fn lemma_smatch_find(it: items_Item, r: Seq<items_Item>, s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(), bnd(s, i), forall|p: int, k: int| 0 <= p < i && #[trigger] bnd(s, p) ==> !#[trigger] it_k(it, from(s, p), k)
    ensures smatch(cons(it, r), s) == smatch(cons(it, r), from(s, i))
{
    assert forall|p: int| 0 <= p < i && #[trigger] bnd(s, p) implies !mm(cons(it, r), from(s, p)) by { lemma_mm_cons(it, r, from(s, p)); }
    lemma_smatch_skip(cons(it, r), s, i);
}

// ---- lists
// a value of the list in front
pub open spec fn lk(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, n: int) -> bool {
    exists|i: int| 0 <= i < n && i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && mm(r, from(s, l.Vals@[i]@.len() as int))
}
pub proof fn lemma_list_step(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>)
    ensures mm(cons(items_Item::StringList(l), r), s) == ((l.MinSize == 0 && mm(r, s)) || lk(l, r, s, l.Vals@.len() as int))
{
    let it = items_Item::StringList(l);
    lemma_mm_cons(it, r, s);
    lemma_from0(s);
    if mm(cons(it, r), s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(r, from(s, k));
        if !(l.MinSize == 0 && k == 0) {
            let i = choose|i: int| 0 <= i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && k == l.Vals@[i]@.len();
            assert(lk(l, r, s, l.Vals@.len() as int));
        }
    }
    if l.MinSize == 0 && mm(r, s) { assert(it_k(it, s, 0)); }
    if lk(l, r, s, l.Vals@.len() as int) {
        let i = choose|i: int| 0 <= i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && mm(r, from(s, l.Vals@[i]@.len() as int));
        assert(it_k(it, s, l.Vals@[i]@.len() as int));
    }
}
pub proof fn lemma_lk_step(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, n: int)
    requires 0 <= n < l.Vals@.len()
    ensures lk(l, r, s, n + 1) == (lk(l, r, s, n) || (starts(s, l.Vals@[n]@) && mm(r, from(s, l.Vals@[n]@.len() as int)))), !lk(l, r, s, 0)
{
    if lk(l, r, s, n + 1) {
        let i = choose|i: int| 0 <= i < n + 1 && i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && mm(r, from(s, l.Vals@[i]@.len() as int));
        if i < n { assert(lk(l, r, s, n)); }
    }
    if lk(l, r, s, n) {
        let i = choose|i: int| 0 <= i < n && i < l.Vals@.len() && starts(s, (#[trigger] l.Vals@[i])@) && mm(r, from(s, l.Vals@[i]@.len() as int));
        assert(lk(l, r, s, n + 1));
    }
}
pub open spec fn slk(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>) -> bool { exists|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && lk(l, r, from(s, p), l.Vals@.len() as int) }
pub proof fn lemma_list_star(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>)
    ensures smatch(cons(items_Item::StringList(l), r), s) == ((l.MinSize == 0 && smatch(r, s)) || slk(l, r, s))
{
    let it = items_Item::StringList(l);
    let c = cons(it, r);
    if smatch(c, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(c, from(s, p));
        lemma_list_step(l, r, from(s, p));
    }
    if l.MinSize == 0 && smatch(r, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(r, from(s, p));
        lemma_list_step(l, r, from(s, p));
    }
    if slk(l, r, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && lk(l, r, from(s, p), l.Vals@.len() as int);
        lemma_list_step(l, r, from(s, p));
    }
}
pub proof fn lemma_slk_skip(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), bnd(s, k), forall|p: int| 0 <= p < k && #[trigger] bnd(s, p) ==> !lk(l, r, from(s, p), l.Vals@.len() as int)
    ensures slk(l, r, s) == slk(l, r, from(s, k))
{
    if slk(l, r, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && lk(l, r, from(s, p), l.Vals@.len() as int);
        lemma_bnd_add(s, k, p - k);
        lemma_from_from(s, k, p - k);
        assert(bnd(from(s, k), p - k));
    }
    if slk(l, r, from(s, k)) {
        let p = choose|p: int| 0 <= p <= from(s, k).len() && #[trigger] bnd(from(s, k), p) && lk(l, r, from(from(s, k), p), l.Vals@.len() as int);
        lemma_bnd_add(s, k, p);
        lemma_from_from(s, k, p);
        assert(bnd(s, k + p));
    }
}
// the state of the search of the first n values: none before off, and no match at off
pub open spec fn find_st(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, n: int, off: int) -> bool {
    &&& -1 <= off <= s.len()
    &&& (off >= 0 ==> bnd(s, off))
    &&& forall|i: int, p: int| 0 <= i < n && 0 <= p <= s.len() && (off < 0 || p <= off) && starts(#[trigger] from(s, p), (#[trigger] l.Vals@[i])@)
            ==> p == off && !mm(r, from(s, p + l.Vals@[i]@.len()))
}
pub proof fn lemma_find_end(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, off: int)
    requires find_st(l, r, s, l.Vals@.len() as int, off)
    ensures off < 0 ==> !slk(l, r, s),
        off >= 0 && off < s.len() ==> bnd(s, off) && 1 <= dec_w(from(s, off)) <= s.len() - off && slk(l, r, s) == slk(l, r, from(from(s, off), dec_w(from(s, off)))),
        off >= 0 && off == s.len() ==> !slk(l, r, s) && dec_w(from(s, off)) == 0,
{
    assert forall|p: int| 0 <= p <= s.len() && (off < 0 || p <= off) && #[trigger] bnd(s, p) implies !lk(l, r, from(s, p), l.Vals@.len() as int) by {
        if lk(l, r, from(s, p), l.Vals@.len() as int) {
            let i = choose|i: int| 0 <= i < l.Vals@.len() && starts(from(s, p), (#[trigger] l.Vals@[i])@) && mm(r, from(from(s, p), l.Vals@[i]@.len() as int));
            lemma_from_from(s, p, l.Vals@[i]@.len() as int);
        }
    }
    if off >= 0 {
        let t = from(s, off);
        lemma_dec(t);
        if off < s.len() {
            let w = dec_w(t);
            assert(bnd(from(t, w), 0));
            assert(bnd(t, w));
            lemma_bnd_add(s, off, w);
            lemma_from_from(s, off, w);
            assert forall|p: int| 0 <= p < off + w && #[trigger] bnd(s, p) implies !lk(l, r, from(s, p), l.Vals@.len() as int) by {
                if p > off {
                    lemma_bnd_add(s, off, p - off);
                    assert(bnd(t, p - off));
                }
            }
            lemma_slk_skip(l, r, s, off + w);
        } else if slk(l, r, s) {
            let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && lk(l, r, from(s, p), l.Vals@.len() as int);
        }
    }
}
pub proof fn lemma_lk_slk(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, p: int, i: int)
    requires 0 <= i < l.Vals@.len(), 0 <= p, p + l.Vals@[i]@.len() <= s.len(), starts(from(s, p), l.Vals@[i]@), mm(r, from(s, p + l.Vals@[i]@.len())), bnd(s, p)
    ensures slk(l, r, s)
{
    lemma_from_from(s, p, l.Vals@[i]@.len() as int);
    assert(lk(l, r, from(s, p), l.Vals@.len() as int));
}

// ---- groups
pub proof fn lemma_ch_mm(c: Seq<items_Item>, r: Seq<items_Item>, s: Seq<u8>)
    requires wf_leafs(c)
    ensures mm(c + r, s) == exists|k: int| 0 <= k <= s.len() && #[trigger] ch_k(c, s, k) && mm(r, from(s, k))
    decreases c.len()
{
    lemma_from0(s);
    if c.len() == 0 {
        assert(c + r =~= r);
        if mm(r, s) { assert(ch_k(c, s, 0)); }
    } else {
        lemma_leafs_tail(c);
        let d = c.drop_first();
        assert(c + r =~= cons(c[0], d + r));
        lemma_mm_cons(c[0], d + r, s);
        if mm(c + r, s) {
            let j = choose|j: int| 0 <= j <= s.len() && #[trigger] it_k(c[0], s, j) && mm(d + r, from(s, j));
            lemma_ch_mm(d, r, from(s, j));
            let k = choose|k: int| 0 <= k <= from(s, j).len() && #[trigger] ch_k(d, from(s, j), k) && mm(r, from(from(s, j), k));
            lemma_from_from(s, j, k);
            assert(leaf_k(c[0], s, j) && ch_k(d, from(s, j), (j + k) - j));
            assert(ch_k(c, s, j + k));
        }
        if exists|k: int| 0 <= k <= s.len() && #[trigger] ch_k(c, s, k) && mm(r, from(s, k)) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] ch_k(c, s, k) && mm(r, from(s, k));
            let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(c[0], s, j) && ch_k(d, from(s, j), k - j);
            lemma_from_from(s, j, k - j);
            lemma_ch_mm(d, r, from(s, j));
            assert(mm(d + r, from(s, j)));
            assert(it_k(c[0], s, j));
        }
    }
}
pub proof fn lemma_val_mm(v: items_Item, r: Seq<items_Item>, s: Seq<u8>)
    requires wf_val(v)
    ensures mm(val_items(v) + r, s) == exists|k: int| 0 <= k <= s.len() && #[trigger] val_k(v, s, k) && mm(r, from(s, k))
{
    match v {
        items_Item::Chain(c) => {
            lemma_ch_mm(c.Items@, r, s);
            if mm(c.Items@ + r, s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] ch_k(c.Items@, s, k) && mm(r, from(s, k)); assert(val_k(v, s, k)); }
            if exists|k: int| 0 <= k <= s.len() && #[trigger] val_k(v, s, k) && mm(r, from(s, k)) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] val_k(v, s, k) && mm(r, from(s, k)); assert(ch_k(c.Items@, s, k)); }
        }
        _ => {
            assert(val_items(v) + r == cons(v, r));
            lemma_mm_cons(v, r, s);
            if mm(cons(v, r), s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(v, s, k) && mm(r, from(s, k)); assert(val_k(v, s, k)); }
            if exists|k: int| 0 <= k <= s.len() && #[trigger] val_k(v, s, k) && mm(r, from(s, k)) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] val_k(v, s, k) && mm(r, from(s, k)); assert(it_k(v, s, k)); }
        }
    }
}
pub open spec fn gm(g: items_Group, r: Seq<items_Item>, s: Seq<u8>, n: int) -> bool { exists|i: int| 0 <= i < n && i < g.Vals@.len() && mm(val_items(#[trigger] g.Vals@[i]) + r, s) }
pub open spec fn gsm(g: items_Group, r: Seq<items_Item>, s: Seq<u8>, n: int) -> bool { exists|i: int| 0 <= i < n && i < g.Vals@.len() && smatch(val_items(#[trigger] g.Vals@[i]) + r, s) }
pub proof fn lemma_group_step(g: items_Group, r: Seq<items_Item>, s: Seq<u8>)
    requires wf_group(g)
    ensures mm(cons(items_Item::Group(g), r), s) == gm(g, r, s, g.Vals@.len() as int), g.MinSize == 0 && mm(r, s) ==> gm(g, r, s, g.Vals@.len() as int)
{
    let it = items_Item::Group(g);
    lemma_mm_cons(it, r, s);
    if mm(cons(it, r), s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && mm(r, from(s, k));
        let i = choose|i: int| 0 <= i < g.Vals@.len() && #[trigger] val_k(g.Vals@[i], s, k);
        lemma_val_mm(g.Vals@[i], r, s);
    }
    if gm(g, r, s, g.Vals@.len() as int) {
        let i = choose|i: int| 0 <= i < g.Vals@.len() && mm(val_items(#[trigger] g.Vals@[i]) + r, s);
        lemma_val_mm(g.Vals@[i], r, s);
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] val_k(g.Vals@[i], s, k) && mm(r, from(s, k));
        assert(it_k(it, s, k));
    }
    if g.MinSize == 0 && mm(r, s) {
        let i = choose|i: int| 0 <= i < g.Vals@.len() && leaf_min(#[trigger] g.Vals@[i]) == g.MinSize;
        lemma_val_zero(g.Vals@[i], s);
        lemma_val_mm(g.Vals@[i], r, s);
        lemma_from0(s);
    }
}
pub proof fn lemma_gm_step(g: items_Group, r: Seq<items_Item>, s: Seq<u8>, n: int)
    requires 0 <= n < g.Vals@.len()
    ensures gm(g, r, s, n + 1) == (gm(g, r, s, n) || mm(val_items(g.Vals@[n]) + r, s)), gsm(g, r, s, n + 1) == (gsm(g, r, s, n) || smatch(val_items(g.Vals@[n]) + r, s)),
        gm(g, r, s, n + 1) ==> gm(g, r, s, g.Vals@.len() as int), gsm(g, r, s, n + 1) ==> gsm(g, r, s, g.Vals@.len() as int)
{
    if gm(g, r, s, n + 1) {
        let i = choose|i: int| 0 <= i < n + 1 && i < g.Vals@.len() && mm(val_items(#[trigger] g.Vals@[i]) + r, s);
        if i < n { assert(gm(g, r, s, n)); }
    }
    if gm(g, r, s, n) { let i = choose|i: int| 0 <= i < n && i < g.Vals@.len() && mm(val_items(#[trigger] g.Vals@[i]) + r, s); assert(gm(g, r, s, n + 1)); }
    if gsm(g, r, s, n + 1) {
        let i = choose|i: int| 0 <= i < n + 1 && i < g.Vals@.len() && smatch(val_items(#[trigger] g.Vals@[i]) + r, s);
        if i < n { assert(gsm(g, r, s, n)); }
    }
    if gsm(g, r, s, n) { let i = choose|i: int| 0 <= i < n && i < g.Vals@.len() && smatch(val_items(#[trigger] g.Vals@[i]) + r, s); assert(gsm(g, r, s, n + 1)); }
}
pub proof fn lemma_group_star(g: items_Group, r: Seq<items_Item>, s: Seq<u8>)
    requires wf_group(g)
    ensures smatch(cons(items_Item::Group(g), r), s) == gsm(g, r, s, g.Vals@.len() as int), g.MinSize == 0 && smatch(r, s) ==> smatch(cons(items_Item::Group(g), r), s)
{
    let c = cons(items_Item::Group(g), r);
    if smatch(c, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(c, from(s, p));
        lemma_group_step(g, r, from(s, p));
        let i = choose|i: int| 0 <= i < g.Vals@.len() && mm(val_items(#[trigger] g.Vals@[i]) + r, from(s, p));
        assert(smatch(val_items(g.Vals@[i]) + r, s));
    }
    if gsm(g, r, s, g.Vals@.len() as int) {
        let i = choose|i: int| 0 <= i < g.Vals@.len() && smatch(val_items(#[trigger] g.Vals@[i]) + r, s);
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(val_items(g.Vals@[i]) + r, from(s, p));
        assert(gm(g, r, from(s, p), g.Vals@.len() as int));
        lemma_group_step(g, r, from(s, p));
    }
    if g.MinSize == 0 && smatch(r, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && mm(r, from(s, p));
        lemma_group_step(g, r, from(s, p));
    }
}

// ---- the items after the current ones
pub open spec fn flat(p: Pt<items_nextItemsTree>) -> Seq<items_Item> decreases p via flat_dec { match p@ { None => Seq::empty(), Some(t) => t.items@ + flat(t.next) } }
#[via_fn]
proof fn flat_dec(p: Pt<items_nextItemsTree>) {}
pub open spec fn depth(p: Pt<items_nextItemsTree>) -> nat decreases p via depth_dec { match p@ { None => 0, Some(t) => 1 + depth(t.next) } }
#[via_fn]
proof fn depth_dec(p: Pt<items_nextItemsTree>) {}
pub open spec fn wv(v: items_Item) -> nat { match v { items_Item::Chain(c) => 1 + c.Items@.len(), _ => 2 } }
pub open spec fn wvs(c: Seq<items_Item>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { wvs(c.drop_last()) + wv(c.last()) } }
pub open spec fn wt1(it: items_Item) -> nat { match it { items_Item::Group(g) => 1 + wvs(g.Vals@), _ => 1 } }
pub open spec fn wt(c: Seq<items_Item>) -> nat decreases c.len() { if c.len() == 0 { 0 } else { wt1(c[0]) + wt(c.drop_first()) } }
pub proof fn lemma_wt_cons(it: items_Item, r: Seq<items_Item>)
    ensures wt(cons(it, r)) == wt1(it) + wt(r)
{ lemma_cons(it, r); }
pub proof fn lemma_wvs(c: Seq<items_Item>, i: int)
    requires 0 <= i < c.len()
    ensures wv(c[i]) <= wvs(c)
    decreases c.len()
{ if i < c.len() - 1 { lemma_wvs(c.drop_last(), i); } }
pub proof fn lemma_wt_leafs(c: Seq<items_Item>, r: Seq<items_Item>)
    requires wf_leafs(c)
    ensures wt(c + r) == c.len() + wt(r)
    decreases c.len()
{
    if c.len() == 0 { assert(c + r =~= r); } else {
        lemma_leafs_tail(c);
        assert(c + r =~= cons(c[0], c.drop_first() + r));
        lemma_wt_cons(c[0], c.drop_first() + r);
        lemma_wt_leafs(c.drop_first(), r);
    }
}
pub proof fn lemma_wt_val(g: items_Group, i: int, r: Seq<items_Item>)
    requires wf_group(g), 0 <= i < g.Vals@.len()
    ensures wt(val_items(g.Vals@[i]) + r) < wt(cons(items_Item::Group(g), r))
{
    lemma_wt_cons(items_Item::Group(g), r);
    lemma_wvs(g.Vals@, i);
    match g.Vals@[i] {
        items_Item::Chain(c) => { lemma_wt_leafs(c.Items@, r); }
        _ => { assert(wf_leaf(g.Vals@[i])); lemma_wt_cons(g.Vals@[i], r); assert(val_items(g.Vals@[i]) + r == cons(g.Vals@[i], r)); }
    }
}
pub open spec fn wfn(p: Pt<items_nextItemsTree>) -> bool { wfs(flat(p)) }

// ---- what Match and Find of an item tell
pub open spec fn match_r(it: items_Item, s: Seq<u8>, off: int, flag: int) -> bool {
    match it {
        items_Item::Star(n) => flag == 3 && off == skip_w(s, n as int),
        items_Item::StringList(l) => flag == 2 && off == 0,
        items_Item::Group(g) => flag == 4 && off == 0,
        _ => flag == 0 && -1 <= off <= s.len() && if off < 0 { forall|k: int| !#[trigger] it_k(it, s, k) } else { leaf_k(it, s, off) },
    }
}
pub open spec fn none_before(it: items_Item, s: Seq<u8>, i: int) -> bool { forall|p: int, k: int| 0 <= p <= s.len() && (i < 0 || p < i) && #[trigger] bnd(s, p) ==> !#[trigger] it_k(it, from(s, p), k) }
pub open spec fn find_r(it: items_Item, s: Seq<u8>, idx: int, n: int, flag: int) -> bool {
    match it {
        items_Item::Star(c) => flag == 3 && idx == 0 && n == skip_w(s, c as int),
        items_Item::StringList(l) => flag == 2 && idx == 0,
        items_Item::Group(g) => flag == 4 && idx == 0,
        _ => (flag == 0 || flag == 1) && -1 <= idx <= s.len() && none_before(it, s, idx) && (idx >= 0 ==> bnd(s, idx) && 0 <= n <= s.len() - idx && leaf_k(it, from(s, idx), n)),
    }
}
pub proof fn lemma_any_none(n: i64, s: Seq<u8>)
    requires n >= 0, skip_w(s, n as int) < 0
    ensures none_before(items_Item::Any(n), s, -1)
{
    assert forall|p: int, k: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) implies !#[trigger] it_k(items_Item::Any(n), from(s, p), k) by {
        if it_k(items_Item::Any(n), from(s, p), k) { lemma_sk_mono(s, p, n as int); }
    }
}
pub proof fn lemma_occ_starts(s: Seq<u8>, p: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures occ(s, p, i) == starts(from(s, i), p)
{ if i + p.len() <= s.len() { assert(from(s, i).subrange(0, p.len() as int) =~= s.subrange(i, i + p.len())); } }
// a well formed text occurs at a symbol boundary
pub proof fn lemma_occ_bnd(s: Seq<u8>, p: Seq<u8>, i: int)
    requires occ(s, p, i), ok8(p), p.len() > 0 || i == 0
    ensures bnd(s, i)
{ if p.len() > 0 { lemma_dec(p); assert(s[i] == s.subrange(i, i + p.len())[0]); lemma_bnd_start(s, i); } }
// ---- the walk through the following items
pub proof fn lemma_next(p: Pt<items_nextItemsTree>)
    requires p@ is Some
    ensures ({
        let t = p@->0;
        let n = t.next;
        &&& flat(p) == t.items@ + flat(n) && depth(p) == 1 + depth(n)
        &&& (t.items@.len() == 0 ==> flat(p) == flat(n))
        &&& (n@ is None ==> flat(n).len() == 0 && depth(n) == 0)
        &&& (n@ is Some ==> flat(n) == (n@->0).items@ + flat((n@->0).next) && depth(n) == 1 + depth((n@->0).next))
        &&& (wfn(p) ==> wfs(t.items@) && wfn(n) && (n@ is Some ==> wfs((n@->0).items@) && wfn((n@->0).next)))
    })
{ let t = p@->0; let n = t.next; lemma_wfs_cat(t.items@, flat(n)); if n@ is Some { lemma_wfs_cat((n@->0).items@, flat((n@->0).next)); } assert(Seq::<items_Item>::empty() + flat(t.next) =~= flat(t.next)); if t.items@.len() == 0 { assert(t.items@ =~= Seq::<items_Item>::empty()); } }
pub proof fn lemma_flat_none(p: Pt<items_nextItemsTree>)
    ensures p@ is None ==> flat(p) == Seq::<items_Item>::empty()
{}
pub proof fn lemma_wt_rest(c: Seq<items_Item>, i: int, f: Seq<items_Item>)
    requires 0 <= i <= c.len()
    ensures wt(rest(c, i) + f) + i <= wt(c + f)
    decreases i
{
    if i == 0 { assert(rest(c, 0) =~= c); } else {
        lemma_wt_rest(c, i - 1, f);
        lemma_rest(c, i - 1, f);
        lemma_wt_cons(c[i - 1], rest(c, i) + f);
    }
}
pub proof fn lemma_wfs_parts(c: Seq<items_Item>, i: int)
    requires wfs(c), 0 <= i <= c.len()
    ensures wfs(rest(c, i)), i < c.len() ==> wfi(c[i])
{ assert forall|j: int| 0 <= j < c.len() - i implies wfi(#[trigger] rest(c, i)[j]) by { assert(wfi(c[i + j])); } if i < c.len() { assert(wfi(c[i])); } }
pub proof fn lemma_wfs_cat(a: Seq<items_Item>, b: Seq<items_Item>)
    ensures (wfs(a) && wfs(b)) == wfs(a + b)
{
    if wfs(a + b) {
        assert forall|j: int| 0 <= j < a.len() implies wfi(#[trigger] a[j]) by { assert(wfi((a + b)[j])); }
        assert forall|j: int| 0 <= j < b.len() implies wfi(#[trigger] b[j]) by { assert(wfi((a + b)[a.len() + j])); }
    }
}
pub proof fn lemma_wfs_val(g: items_Group, i: int)
    requires wf_group(g), 0 <= i < g.Vals@.len()
    ensures wfs(val_items(g.Vals@[i])), wf_val(g.Vals@[i])
{
    match g.Vals@[i] {
        items_Item::Chain(c) => { assert forall|j: int| 0 <= j < c.Items@.len() implies wfi(#[trigger] c.Items@[j]) by { assert(wf_leaf(c.Items@[j])); } }
        _ => { assert(wf_leaf(g.Vals@[i])); }
    }
}
pub proof fn lemma_find_step(l: items_StringList, r: Seq<items_Item>, s: Seq<u8>, n: int, off: int, q: int)
    requires wf_list(l), 0 <= n < l.Vals@.len(), find_st(l, r, s, n, off), -1 <= q,
        q >= 0 ==> q <= s.len() && starts(from(s, q), l.Vals@[n]@) && !mm(r, from(s, q + l.Vals@[n]@.len())),
        forall|p: int| 0 <= p <= s.len() && (q < 0 || p < q) ==> !starts(#[trigger] from(s, p), l.Vals@[n]@),
    ensures find_st(l, r, s, n + 1, if q < 0 { off } else if off < 0 || off > q { q } else { off })
{
    let o = if q < 0 { off } else if off < 0 || off > q { q } else { off };
    if q >= 0 { lemma_occ_starts(s, l.Vals@[n]@, q); lemma_occ_bnd(s, l.Vals@[n]@, q); }
    assert forall|i: int, p: int| 0 <= i < n + 1 && 0 <= p <= s.len() && (o < 0 || p <= o) && starts(#[trigger] from(s, p), (#[trigger] l.Vals@[i])@)
            implies p == o && !mm(r, from(s, p + l.Vals@[i]@.len())) by {
        if i == n { } else { }
    }
}
pub proof fn lemma_gm_step0(g: items_Group, r: Seq<items_Item>, s: Seq<u8>)
    ensures !gm(g, r, s, 0), !gsm(g, r, s, 0)
{}
