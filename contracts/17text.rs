// uses: 10sets.rs 16match.rs
// The language of a glob text, and how items stand for parts of a text.

pub open spec fn wildb(b: u8) -> bool { b == 91 || b == 93 || b == 123 || b == 125 || b == 42 || b == 63 }
pub open spec fn nowild(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> !wildb(#[trigger] t[i]) }
pub proof fn lemma_split_len(s: Seq<u8>, b: u8, i: int)
    requires 0 <= i < split_b(s, b).len()
    ensures split_b(s, b)[i].len() <= s.len()
    decreases s.len()
{
    lemma_first_b(s, b);
    let k = first_b(s, b);
    if k < s.len() && i > 0 { let r = s.subrange(k + 1, s.len() as int); lemma_split_len(r, b, i - 1); assert(split_b(s, b)[i] == split_b(r, b)[i - 1]); }
}
// the alternatives of a list which starts the text and ends at j
pub open spec fn alts(t: Seq<u8>, j: int) -> Seq<Seq<u8>> { split_b(t.subrange(1, j), 44) }
// a class without symbols stands for nothing
pub open spec fn class_empty(c: Seq<u8>) -> bool { forall|x: int| x > 0 ==> !#[trigger] class_in(c, x) }
// the text t accepts the string s
pub open spec fn acc(t: Seq<u8>, s: Seq<u8>) -> bool decreases t.len() via acc_dec {
    if t.len() == 0 { s.len() == 0 }
    else if t[0] == 42 { exists|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && acc(from(t, 1), from(s, p)) }
    else if t[0] == 63 { s.len() > 0 && acc(from(t, 1), from(s, dec_w(s))) }
    else if t[0] == 91 {
        let i = first_b(t, 93);
        i < t.len() && if class_empty(t.subrange(0, i + 1)) { acc(from(t, i + 1), s) } else {
            dec_ok(s) && dec_c(s) != RERR && class_in(t.subrange(0, i + 1), dec_c(s)) && acc(from(t, i + 1), from(s, dec_w(s)))
        }
    }
    else if t[0] == 123 {
        let j = first_b(t, 125);
        j < t.len() && exists|i: int| 0 <= i < alts(t, j).len() && acc(#[trigger] alts(t, j)[i] + from(t, j + 1), s)
    }
    else if t[0] == 93 || t[0] == 125 { false }
    else { s.len() > 0 && s[0] == t[0] && acc(from(t, 1), from(s, 1)) }
}
#[via_fn]
proof fn acc_dec(t: Seq<u8>, s: Seq<u8>) {
    lemma_first_b(t, 93); lemma_first_b(t, 125);
    let j = first_b(t, 125);
    if t.len() > 0 && t[0] == 123 && j < t.len() {
        assert forall|i: int| 0 <= i < alts(t, j).len() implies (#[trigger] alts(t, j)[i] + from(t, j + 1)).len() < t.len() by { lemma_split_len(t.subrange(1, j), 44, i); }
    }
}
// the text is well formed
pub open spec fn tw(t: Seq<u8>) -> bool decreases t.len() via tw_dec {
    if t.len() == 0 { true }
    else if t[0] == 91 { let i = first_b(t, 93); i < t.len() && class_ok(t.subrange(0, i + 1)) && tw(from(t, i + 1)) }
    else if t[0] == 123 { let j = first_b(t, 125); j < t.len() && (forall|i: int| 0 <= i < alts(t, j).len() ==> tw(#[trigger] alts(t, j)[i])) && tw(from(t, j + 1)) }
    else if t[0] == 93 || t[0] == 125 { false }
    else { tw(from(t, 1)) }
}
#[via_fn]
proof fn tw_dec(t: Seq<u8>) {
    lemma_first_b(t, 93); lemma_first_b(t, 125);
    let j = first_b(t, 125);
    if t.len() > 0 && t[0] == 123 && j < t.len() {
        assert forall|i: int| 0 <= i < alts(t, j).len() implies (#[trigger] alts(t, j)[i]).len() < t.len() by { lemma_split_len(t.subrange(1, j), 44, i); }
    }
}
pub open spec fn altacc(a: Seq<Seq<u8>>, u: Seq<u8>, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < a.len() && acc(#[trigger] a[i] + u, s) }
pub open spec fn alltw(a: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < a.len() ==> tw(#[trigger] a[i]) }
// an item in front of a text
pub open spec fn itt(it: items_Item, t: Seq<u8>, s: Seq<u8>) -> bool {
    if it is Nil { acc(t, s) } else { exists|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && acc(t, from(s, k)) }
}
pub proof fn lemma_from_cat(t: Seq<u8>, u: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures from(t + u, i) == from(t, i) + u, (t + u).subrange(0, i) == t.subrange(0, i), i > 0 ==> (t + u).subrange(1, i) == t.subrange(1, i)
{ assert(from(t + u, i) =~= from(t, i) + u); assert((t + u).subrange(0, i) =~= t.subrange(0, i)); if i > 0 { assert((t + u).subrange(1, i) =~= t.subrange(1, i)); } }
pub proof fn lemma_first_at(t: Seq<u8>, b: u8, i: int)
    requires 0 <= i < t.len(), t[i] == b, forall|k: int| 0 <= k < i ==> #[trigger] t[k] != b
    ensures first_b(t, b) == i
{ lemma_first_b(t, b); }
pub proof fn lemma_first_cat(t: Seq<u8>, u: Seq<u8>, b: u8)
    requires first_b(t, b) < t.len()
    ensures first_b(t + u, b) == first_b(t, b), 0 <= first_b(t, b)
{ lemma_first_b(t, b); lemma_first_at(t + u, b, first_b(t, b)); }
// literal text
pub proof fn lemma_acc_lit(l: Seq<u8>, t: Seq<u8>, s: Seq<u8>)
    requires nowild(l)
    ensures acc(l + t, s) == (starts(s, l) && acc(t, from(s, l.len() as int)))
    decreases l.len()
{
    if l.len() == 0 { assert(l + t =~= t); lemma_from0(s); assert(s.subrange(0, 0) =~= l); } else {
        let x = l + t;
        let m = from(l, 1);
        assert(x[0] == l[0]);
        assert(from(x, 1) =~= m + t);
        assert(nowild(m));
        lemma_acc_lit(m, t, from(s, 1));
        if s.len() > 0 {
            assert(s[0] == l[0] && starts(from(s, 1), m) ==> starts(s, l)) by { if s[0] == l[0] && starts(from(s, 1), m) { assert forall|i: int| 0 <= i < l.len() implies #[trigger] s.subrange(0, l.len() as int)[i] == l[i] by { if i > 0 { assert(from(s, 1).subrange(0, m.len() as int)[i - 1] == m[i - 1]); } } } }
            assert(starts(s, l) ==> s[0] == l[0] && starts(from(s, 1), m)) by { if starts(s, l) { assert(s.subrange(0, l.len() as int)[0] == l[0]); lemma_starts_from(s, l, 1); } }
            if starts(s, l) { lemma_from_from(s, 1, m.len() as int); }
        }
    }
}
pub proof fn lemma_acc_empty(u: Seq<u8>, s: Seq<u8>)
    requires nowild(u)
    ensures acc(u, s) == (s == u)
{
    lemma_acc_lit(u, Seq::empty(), s);
    assert(u + Seq::<u8>::empty() =~= u);
    if starts(s, u) && from(s, u.len() as int).len() == 0 { assert(s =~= s.subrange(0, u.len() as int)); }
    if s == u { assert(s.subrange(0, u.len() as int) =~= u); }
}
pub proof fn lemma_tw_lit(l: Seq<u8>, t: Seq<u8>)
    requires nowild(l)
    ensures tw(l + t) == tw(t)
    decreases l.len()
{
    if l.len() == 0 { assert(l + t =~= t); } else {
        assert((l + t)[0] == l[0]);
        assert(from(l + t, 1) =~= from(l, 1) + t);
        lemma_tw_lit(from(l, 1), t);
    }
}
// stars
pub open spec fn stars(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == 42 }
pub proof fn lemma_acc_star1(t: Seq<u8>, s: Seq<u8>)
    ensures acc(seq![42u8] + t, s) == itt(items_Item::Star(0), t, s)
{
    let x = seq![42u8] + t;
    assert(from(x, 1) =~= t);
    if acc(x, s) {
        let p = choose|p: int| 0 <= p <= s.len() && #[trigger] bnd(s, p) && acc(t, from(s, p));
        assert(it_k(items_Item::Star(0), s, p));
    }
    if itt(items_Item::Star(0), t, s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(items_Item::Star(0), s, k) && acc(t, from(s, k));
        assert(bnd(s, k));
    }
}
pub proof fn lemma_acc_stars(l: Seq<u8>, t: Seq<u8>, s: Seq<u8>)
    requires stars(l), l.len() > 0
    ensures acc(l + t, s) == itt(items_Item::Star(0), t, s), tw(l + t) == tw(t)
    decreases l.len()
{
    let m = from(l, 1);
    assert(l + t =~= seq![42u8] + (m + t));
    assert(from(l + t, 1) =~= m + t);
    lemma_acc_star1(m + t, s);
    if m.len() == 0 { assert(m + t =~= t); } else {
        assert(stars(m));
        let st = items_Item::Star(0);
        lemma_acc_stars(m, t, s);
        lemma_from0(s);
        if itt(st, t, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(st, s, k) && acc(t, from(s, k));
            lemma_acc_stars(m, t, from(s, k));
            lemma_from0(from(s, k));
            assert(it_k(st, from(s, k), 0));
            assert(itt(st, t, from(s, k)));
            assert(itt(st, m + t, s));
        }
        if itt(st, m + t, s) {
            let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(st, s, k) && acc(m + t, from(s, k));
            lemma_acc_stars(m, t, from(s, k));
            let j = choose|j: int| 0 <= j <= from(s, k).len() && #[trigger] it_k(st, from(s, k), j) && acc(t, from(from(s, k), j));
            lemma_from_from(s, k, j);
            lemma_bnd_add(s, k, j);
            assert(it_k(st, s, k + j));
        }
    }
}
pub proof fn lemma_acc_any(t: Seq<u8>, s: Seq<u8>)
    ensures acc(seq![63u8] + t, s) == itt(items_Item::Any(1), t, s), tw(seq![63u8] + t) == tw(t)
{
    let x = seq![63u8] + t;
    assert(from(x, 1) =~= t);
    lemma_dec(s);
    if s.len() > 0 {
        assert(skip_w(from(s, dec_w(s)), 0) == 0);
        assert(skip_w(s, 1) == dec_w(s));
        if acc(x, s) { assert(it_k(items_Item::Any(1), s, dec_w(s))); }
    } else { assert(skip_w(s, 1) == -1); }
}
// a class
pub proof fn lemma_acc_class(t: Seq<u8>, u: Seq<u8>, it: items_Item, s: Seq<u8>)
    requires t.len() > 0, t[0] == 91, first_b(t, 93) < t.len(),
        ({ let c = t.subrange(0, first_b(t, 93) + 1); if it is Nil { class_empty(c) } else { !class_empty(c) && forall|k: int| it_k(it, s, k) == #[trigger] cls_k(c, s, k) } })
    ensures acc(t + u, s) == itt(it, from(t, first_b(t, 93) + 1) + u, s)
{
    let i = first_b(t, 93);
    lemma_first_cat(t, u, 93);
    lemma_from_cat(t, u, i + 1);
    let c = t.subrange(0, i + 1);
    let r = from(t, i + 1) + u;
    assert((t + u)[0] == 91);
    if !(it is Nil) {
        lemma_dec(s);
        if acc(t + u, s) { assert(cls_k(c, s, dec_w(s))); assert(it_k(it, s, dec_w(s))); }
        if itt(it, r, s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(it, s, k) && acc(r, from(s, k)); assert(cls_k(c, s, k)); }
    }
}
pub open spec fn cls_k(c: Seq<u8>, s: Seq<u8>, k: int) -> bool { dec_ok(s) && dec_c(s) != RERR && class_in(c, dec_c(s)) && k == dec_w(s) }
// a list
pub proof fn lemma_acc_list(t: Seq<u8>, u: Seq<u8>, s: Seq<u8>)
    requires t.len() > 0, t[0] == 123, first_b(t, 125) < t.len()
    ensures acc(t + u, s) == altacc(alts(t, first_b(t, 125)), from(t, first_b(t, 125) + 1) + u, s)
{
    let j = first_b(t, 125);
    lemma_first_cat(t, u, 125);
    lemma_from_cat(t, u, j);
    lemma_from_cat(t, u, j + 1);
    assert((t + u)[0] == 123);
    lemma_first_b(t, 125);
    assert(j > 0);
    assert(alts(t + u, j) == alts(t, j));
    assert(first_b(t + u, 125) == j);
}

// ---- items which accept the first k bytes
pub open spec fn chk(c: Seq<items_Item>, s: Seq<u8>, k: int) -> bool decreases c.len() {
    if c.len() == 0 { k == 0 } else { exists|j: int| 0 <= j <= k && #[trigger] it_k(c[0], s, j) && chk(c.drop_first(), from(s, j), k - j) }
}
pub proof fn lemma_chk_bounds(c: Seq<items_Item>, s: Seq<u8>, k: int)
    requires wfs(c), chk(c, s, k)
    ensures 0 <= sum_min(c) <= k <= s.len(), sum_max(c) == -1 || k <= sum_max(c), bnd(s, k)
    decreases c.len()
{
    if c.len() > 0 {
        let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(c[0], s, j) && chk(c.drop_first(), from(s, j), k - j);
        lemma_wfs_tail(c);
        lemma_it_bounds(c[0], s, j);
        lemma_chk_bounds(c.drop_first(), from(s, j), k - j);
        lemma_sum_min_cons(c);
        lemma_wfi_mins(c[0]);
        lemma_sum_pos2(c.drop_first());
        lemma_bnd_add(s, j, k - j);
    }
}
pub proof fn lemma_wfi_mins(it: items_Item)
    requires wfi(it)
    ensures 0 <= leaf_min(it) <= LIM(), -1 <= leaf_max(it) <= LIM()
{}
pub proof fn lemma_wfs_tail(c: Seq<items_Item>)
    requires wfs(c), c.len() > 0
    ensures wfs(c.drop_first()), wfs(c.drop_last()), wfi(c[0]), wfi(c.last())
{
    assert forall|i: int| 0 <= i < c.len() - 1 implies wfi(#[trigger] c.drop_first()[i]) by { assert(wfi(c[i + 1])); }
    assert forall|i: int| 0 <= i < c.len() - 1 implies wfi(#[trigger] c.drop_last()[i]) by { assert(wfi(c[i])); }
    assert(wfi(c[0])); assert(wfi(c[c.len() - 1]));
}
pub proof fn lemma_sum_pos2(c: Seq<items_Item>)
    requires wfs(c)
    ensures sum_min(c) >= 0, sum_max(c) >= -1
    decreases c.len()
{ if c.len() > 0 { lemma_wfs_tail(c); lemma_sum_pos2(c.drop_last()); lemma_wfi_mins(c.last()); } }
pub proof fn lemma_mm_chk(c: Seq<items_Item>, s: Seq<u8>)
    ensures mm(c, s) == chk(c, s, s.len() as int)
    decreases c.len()
{
    if c.len() > 0 {
        if mm(c, s) { let k = choose|k: int| 0 <= k <= s.len() && #[trigger] it_k(c[0], s, k) && mm(c.drop_first(), from(s, k)); lemma_mm_chk(c.drop_first(), from(s, k)); }
        if chk(c, s, s.len() as int) { let j = choose|j: int| 0 <= j <= s.len() && #[trigger] it_k(c[0], s, j) && chk(c.drop_first(), from(s, j), s.len() - j); lemma_mm_chk(c.drop_first(), from(s, j)); }
    }
}
pub proof fn lemma_ch_chk(c: Seq<items_Item>, s: Seq<u8>, k: int)
    requires wf_leafs(c)
    ensures ch_k(c, s, k) == chk(c, s, k)
    decreases c.len()
{
    if c.len() > 0 {
        lemma_leafs_tail(c);
        if ch_k(c, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] leaf_k(c[0], s, j) && ch_k(c.drop_first(), from(s, j), k - j); lemma_ch_chk(c.drop_first(), from(s, j), k - j); assert(it_k(c[0], s, j)); }
        if chk(c, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(c[0], s, j) && chk(c.drop_first(), from(s, j), k - j); lemma_ch_chk(c.drop_first(), from(s, j), k - j); assert(leaf_k(c[0], s, j)); }
    }
}
pub open spec fn chk2(a: Seq<items_Item>, b: items_Item, s: Seq<u8>, k: int) -> bool { exists|j: int| 0 <= j <= k && #[trigger] chk(a, s, j) && it_k(b, from(s, j), k - j) }
pub proof fn lemma_chk_push(a: Seq<items_Item>, b: items_Item, s: Seq<u8>, k: int)
    requires wfs(a)
    ensures chk(a.push(b), s, k) == chk2(a, b, s, k)
    decreases a.len()
{
    let c = a.push(b);
    lemma_from0(s);
    if a.len() == 0 {
        assert(c.drop_first() =~= Seq::empty());
        if chk(c, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(c[0], s, j) && chk(c.drop_first(), from(s, j), k - j); assert(c[0] == b); assert(k - j == 0); assert(chk(a, s, 0)); assert(chk(a, s, 0) && it_k(b, from(s, 0), k - 0)); }
        if chk2(a, b, s, k) { let j = choose|j: int| 0 <= j <= k && #[trigger] chk(a, s, j) && it_k(b, from(s, j), k - j); assert(j == 0); assert(c[0] == b); assert(it_k(c[0], s, k)); assert(chk(c.drop_first(), from(s, k), k - k)); }
    } else {
        let d = a.drop_first();
        assert(c.drop_first() =~= d.push(b));
        lemma_wfs_tail(a);
        if chk(c, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(c[0], s, j) && chk(d.push(b), from(s, j), k - j);
            lemma_chk_push(d, b, from(s, j), k - j);
            let m = choose|m: int| 0 <= m <= k - j && #[trigger] chk(d, from(s, j), m) && it_k(b, from(from(s, j), m), k - j - m);
            lemma_it_bounds(a[0], s, j);
            lemma_chk_bounds(d, from(s, j), m);
            lemma_from_from(s, j, m);
            assert(it_k(a[0], s, j) && chk(a.drop_first(), from(s, j), (j + m) - j));
            assert(chk(a, s, j + m));
        }
        if chk2(a, b, s, k) {
            let m = choose|m: int| 0 <= m <= k && #[trigger] chk(a, s, m) && it_k(b, from(s, m), k - m);
            let j = choose|j: int| 0 <= j <= m && #[trigger] it_k(a[0], s, j) && chk(d, from(s, j), m - j);
            lemma_chk_bounds(a, s, m);
            lemma_from_from(s, j, m - j);
            assert(chk(d, from(s, j), m - j));
            assert(chk2(d, b, from(s, j), k - j));
            lemma_chk_push(d, b, from(s, j), k - j);
            assert(it_k(c[0], s, j));
        }
    }
}
// items in front of a text
pub open spec fn acct(c: Seq<items_Item>, t: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] chk(c, s, k) && acc(t, from(s, k)) }
pub open spec fn acct2(c: Seq<items_Item>, it: items_Item, t: Seq<u8>, s: Seq<u8>) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] chk(c, s, k) && itt(it, t, from(s, k)) }
pub proof fn lemma_acct_push(c: Seq<items_Item>, it: items_Item, t: Seq<u8>, s: Seq<u8>)
    requires wfs(c), wfi(it)
    ensures acct(c.push(it), t, s) == acct2(c, it, t, s)
{
    if acct(c.push(it), t, s) {
        let k = choose|k: int| 0 <= k <= s.len() && #[trigger] chk(c.push(it), s, k) && acc(t, from(s, k));
        lemma_chk_push(c, it, s, k);
        let j = choose|j: int| 0 <= j <= k && #[trigger] chk(c, s, j) && it_k(it, from(s, j), k - j);
        lemma_from_from(s, j, k - j);
        assert(itt(it, t, from(s, j)));
    }
    if acct2(c, it, t, s) {
        let j = choose|j: int| 0 <= j <= s.len() && #[trigger] chk(c, s, j) && itt(it, t, from(s, j));
        let m = choose|m: int| 0 <= m <= from(s, j).len() && #[trigger] it_k(it, from(s, j), m) && acc(t, from(from(s, j), m));
        lemma_from_from(s, j, m);
        assert(chk(c, s, j) && it_k(it, from(s, j), (j + m) - j));
        assert(chk2(c, it, s, j + m));
        lemma_chk_push(c, it, s, j + m);
    }
}

// ---- merging of neighbours
pub open spec fn islit(it: items_Item) -> bool { it is Byte || it is Rune || it is String }
pub open spec fn litx(it: items_Item) -> Seq<u8> { match it { items_Item::Byte(c) => seq![c], items_Item::Rune(c) => enc(c as int), items_Item::String(x) => x.S@, _ => Seq::empty() } }
pub open spec fn cnt(it: items_Item) -> int { match it { items_Item::Any(n) => n as int, items_Item::Star(n) => n as int, _ => 0 } }
pub open spec fn gap(it: items_Item) -> bool { it is Any || it is Star }
pub open spec fn can_merge(a: items_Item, b: items_Item) -> bool { (islit(a) && islit(b)) || (gap(a) && gap(b)) }
pub open spec fn mrg(a: items_Item, b: items_Item, z: items_Item) -> bool {
    ||| (islit(a) && islit(b) && z is String && litx(z) == litx(a) + litx(b))
    ||| (gap(a) && gap(b) && gap(z) && cnt(z) == cnt(a) + cnt(b) && (z is Star <==> a is Star || b is Star))
}
pub open spec fn merges(c: Seq<items_Item>, it: items_Item, d: Seq<items_Item>) -> bool {
    if c.len() > 0 && can_merge(c.last(), it) { d.len() == c.len() && d.drop_last() == c.drop_last() && mrg(c.last(), it, d.last()) } else { d == c.push(it) }
}
pub proof fn lemma_ok8_cat(a: Seq<u8>, b: Seq<u8>)
    requires ok8(a), ok8(b)
    ensures ok8(a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        lemma_dec(a);
        assert((a + b).subrange(0, a.len() as int) =~= a);
        lemma_dec_prefix(a + b, a);
        assert(from(a + b, dec_w(a)) =~= from(a, dec_w(a)) + b);
        lemma_ok8_cat(from(a, dec_w(a)), b);
    }
}
pub proof fn lemma_lit_k(it: items_Item, s: Seq<u8>, k: int)
    requires islit(it), wf_leaf(it)
    ensures leaf_k(it, s, k) == (starts(s, litx(it)) && k == litx(it).len()), ok8(litx(it)), leaf_min(it) == litx(it).len(), leaf_max(it) == litx(it).len()
{
    match it {
        items_Item::Byte(c) => {
            let x = litx(it);
            assert(dec_w(x) == 1 && dec_ok(x));
            assert(from(x, 1).len() == 0);
            assert(ok8(from(x, 1)));
            assert(ok8(x)) by { reveal_with_fuel(ok8, 2); }
            if s.len() > 0 { assert(s.subrange(0, 1)[0] == s[0]); if s[0] == c { assert(s.subrange(0, 1) =~= x); } }
        }
        items_Item::Rune(c) => {
            lemma_starts_rune(s, c as int);
            let x = litx(it);
            lemma_dec_enc(c as int, Seq::empty());
            assert(x + Seq::<u8>::empty() =~= x);
            assert(from(x, dec_w(x)).len() == 0);
            assert(ok8(x)) by { reveal_with_fuel(ok8, 2); }
        }
        _ => {}
    }
}
pub open spec fn two_k(a: items_Item, b: items_Item, s: Seq<u8>, k: int) -> bool { exists|j: int| 0 <= j <= k && #[trigger] it_k(a, s, j) && it_k(b, from(s, j), k - j) }
pub proof fn lemma_mrg_k(a: items_Item, b: items_Item, z: items_Item, s: Seq<u8>, k: int)
    requires wf_leaf(a), wf_leaf(b), wf_leaf(z), mrg(a, b, z), 0 <= k <= s.len()
    ensures it_k(z, s, k) == two_k(a, b, s, k)
{
    if islit(a) {
        lemma_lit_k(a, s, litx(a).len() as int); lemma_lit_k(z, s, k);
        let x = litx(a); let y = litx(b);
        if starts(s, x + y) {
            assert forall|i: int| 0 <= i < x.len() + y.len() implies #[trigger] s[i] == (x + y)[i] by { assert(s.subrange(0, (x + y).len() as int)[i] == (x + y)[i]); }
            assert(s.subrange(0, x.len() as int) =~= x);
            assert(from(s, x.len() as int).subrange(0, y.len() as int) =~= y);
        }
        if starts(s, x) && starts(from(s, x.len() as int), y) {
            assert forall|i: int| 0 <= i < x.len() + y.len() implies #[trigger] s.subrange(0, (x + y).len() as int)[i] == (x + y)[i] by {
                if i < x.len() { assert(s.subrange(0, x.len() as int)[i] == x[i]); } else { assert(from(s, x.len() as int).subrange(0, y.len() as int)[i - x.len()] == y[i - x.len()]); }
            }
            assert(starts(s, x + y));
        }
        if it_k(z, s, k) { lemma_lit_k(b, from(s, x.len() as int), k - x.len()); assert(it_k(a, s, x.len() as int)); }
        if two_k(a, b, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(a, s, j) && it_k(b, from(s, j), k - j);
            lemma_lit_k(a, s, j); lemma_lit_k(b, from(s, j), k - j);
        }
    } else {
        let n = cnt(a); let m = cnt(b);
        lemma_sk_add(s, n, m);
        lemma_sk(s, n);
        lemma_skip(s, n); lemma_skip(s, n + m);
        lemma_sk(s, n + m);
        if it_k(z, s, k) {
            let j = skip_w(s, n);
            lemma_sk_ge(s, n, m);
            assert(j >= 0);
            lemma_sk(from(s, j), m); lemma_skip(from(s, j), m);
            if z is Any { assert(it_k(a, s, j)); } else if a is Any {
                // b is a star
                lemma_bnd_add(s, j, k - j);
                assert(it_k(a, s, j));
            } else if b is Star {
                lemma_bnd_add(s, j, k - j);
                assert(it_k(a, s, j));
            } else {
                // a star, then m symbols which end at k
                lemma_back(s, n, m, k);
                let q = choose|q: int| bnd(s, q) && skip_w(s, n) <= q <= k && #[trigger] skip_w(from(s, q), m) == k - q;
                assert(it_k(a, s, q));
            }
        }
        if two_k(a, b, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] it_k(a, s, j) && it_k(b, from(s, j), k - j);
            lemma_bnd_le(s, j);
            lemma_sk(from(s, j), m); lemma_skip(from(s, j), m);
            if z is Any { } else {
                lemma_sk_from(s, n, m, j);
                if b is Any { lemma_bnd_add(s, j, k - j); } else { lemma_bnd_add(s, j, k - j); }
            }
        }
    }
}
// n symbols can be skipped when more can
pub proof fn lemma_sk_ge(s: Seq<u8>, n: int, m: int)
    requires n >= 0, m >= 0, skip_w(s, n + m) >= 0
    ensures 0 <= skip_w(s, n) <= skip_w(s, n + m), skip_w(from(s, skip_w(s, n)), m) == skip_w(s, n + m) - skip_w(s, n)
{ lemma_sk_add(s, n, m); lemma_skip(s, n); lemma_skip(from(s, skip_w(s, n)), m); }
// from a later start at least n symbols on, m more end later
pub proof fn lemma_sk_from(s: Seq<u8>, n: int, m: int, j: int)
    requires n >= 0, m >= 0, bnd(s, j), 0 <= skip_w(s, n) <= j, skip_w(from(s, j), m) >= 0
    ensures 0 <= skip_w(s, n + m) <= j + skip_w(from(s, j), m)
{
    let a = skip_w(s, n);
    lemma_sk(s, n); lemma_skip(s, n);
    lemma_bnd_le(s, j);
    lemma_bnd_add(s, a, j - a);
    let t = from(s, a);
    lemma_from_from(s, a, j - a);
    lemma_sk_mono(t, j - a, m);
    lemma_sk_add(s, n, m);
}
// the m symbols before the boundary k
pub proof fn lemma_back(s: Seq<u8>, n: int, m: int, k: int)
    requires n >= 0, m >= 0, bnd(s, k), 0 <= skip_w(s, n + m) <= k
    ensures exists|q: int| bnd(s, q) && skip_w(s, n) <= q <= k && #[trigger] skip_w(from(s, q), m) == k - q
    decreases s.len()
{
    lemma_bnd_le(s, k);
    lemma_sk_ge(s, n, m);
    let a = skip_w(s, n);
    lemma_sk(s, n);
    if skip_w(s, n + m) == k {
        assert(skip_w(from(s, a), m) == k - a);
    } else {
        // one symbol can be left out
        lemma_dec(s);
        if s.len() == 0 { assert(k == 0); lemma_skip(s, n + m); } else {
            let w = dec_w(s);
            let t = from(s, w);
            assert(k > 0);
            assert(bnd(t, k - w));
            // the skip from the next symbol ends at most one symbol later, so not after k
            lemma_shift(s, n + m, k);
            lemma_back(t, n, m, k - w);
            let q = choose|q: int| bnd(t, q) && skip_w(t, n) <= q <= k - w && #[trigger] skip_w(from(t, q), m) == (k - w) - q;
            lemma_bnd_le(t, q);
            lemma_from_from(s, w, q);
            assert(bnd(s, w + q));
            // n symbols from s end no later than n from t
            lemma_sk_ge(t, n, m);
            assert(bnd(s, w)) by { assert(bnd(t, 0)); }
            lemma_sk_mono(s, w, n);
            assert(skip_w(from(s, w + q), m) == k - (w + q));
        }
    }
}
// skipping n symbols ends before the boundary k: so does skipping one more
pub proof fn lemma_shift(s: Seq<u8>, n: int, k: int)
    requires n >= 0, bnd(s, k), 0 <= skip_w(s, n) < k, s.len() > 0
    ensures 0 <= skip_w(from(s, dec_w(s)), n), dec_w(s) + skip_w(from(s, dec_w(s)), n) <= k
    decreases n
{
    lemma_bnd_le(s, k);
    lemma_dec(s);
    let w = dec_w(s);
    let t = from(s, w);
    if n > 0 {
        lemma_skip(t, n - 1);
        if t.len() == 0 { } else {
            lemma_shift(t, n - 1, k - w);
        }
    }
}
// merged neighbours accept the same
pub proof fn lemma_merges(c: Seq<items_Item>, it: items_Item, d: Seq<items_Item>, s: Seq<u8>, k: int)
    requires wfs(c), wfi(it), wfs(d), merges(c, it, d), 0 <= k <= s.len()
    ensures chk(d, s, k) == chk(c.push(it), s, k)
{
    if c.len() > 0 && can_merge(c.last(), it) {
        let b = c.drop_last();
        let x = c.last();
        let z = d.last();
        lemma_wfs_tail(c); lemma_wfs_tail(d);
        assert(c =~= b.push(x)); assert(d =~= b.push(z));
        lemma_chk_push(b, z, s, k);
        lemma_chk_push(c, it, s, k);
        if chk2(b, z, s, k) {
            let j = choose|j: int| 0 <= j <= k && #[trigger] chk(b, s, j) && it_k(z, from(s, j), k - j);
            lemma_mrg_k(x, it, z, from(s, j), k - j);
            let m = choose|m: int| 0 <= m <= k - j && #[trigger] it_k(x, from(s, j), m) && it_k(it, from(from(s, j), m), k - j - m);
            lemma_from_from(s, j, m);
            assert(chk(b, s, j) && it_k(x, from(s, j), (j + m) - j));
            assert(chk2(b, x, s, j + m));
            lemma_chk_push(b, x, s, j + m);
        }
        if chk2(c, it, s, k) {
            let m = choose|m: int| 0 <= m <= k && #[trigger] chk(c, s, m) && it_k(it, from(s, m), k - m);
            lemma_chk_push(b, x, s, m);
            let j = choose|j: int| 0 <= j <= m && #[trigger] chk(b, s, j) && it_k(x, from(s, j), m - j);
            lemma_from_from(s, j, m - j);
            assert(two_k(x, it, from(s, j), k - j)) by { assert(it_k(x, from(s, j), m - j)); }
            lemma_mrg_k(x, it, z, from(s, j), k - j);
            assert(chk2(b, z, s, k));
        }
    }
}
