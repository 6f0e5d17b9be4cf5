// The tags of a tagged path.
pub type KV = (Seq<u8>, Seq<u8>);
pub open spec fn kv_k(a: Seq<u8>) -> Seq<u8> { a.subrange(0, first_b(a, 61)) }
pub open spec fn kv_rest(a: Seq<u8>) -> Seq<u8> { a.subrange(first_b(a, 61) + 1, a.len() as int) }
pub open spec fn kv_v(a: Seq<u8>, sep: u8) -> Seq<u8> { kv_rest(a).subrange(0, first_b(kv_rest(a), sep)) }
pub open spec fn kv_next(a: Seq<u8>, sep: u8) -> Seq<u8> {
    let r = kv_rest(a);
    let j = first_b(r, sep);
    if j >= r.len() { Seq::empty() } else { r.subrange(j + 1, r.len() as int) }
}
// every pair of the arguments has a =
pub open spec fn pairs_ok(a: Seq<u8>, sep: u8) -> bool decreases a.len() via pairs_ok_dec {
    if a.len() == 0 { true } else if first_b(a, 61) >= a.len() { false } else { pairs_ok(kv_next(a, sep), sep) }
}
#[via_fn]
proof fn pairs_ok_dec(a: Seq<u8>, sep: u8) { lemma_kv(a, sep); }
// the unescaped pairs (up to the first one without =)
pub open spec fn pairs(a: Seq<u8>, sep: u8) -> Seq<KV> decreases a.len() via pairs_dec {
    if a.len() == 0 || first_b(a, 61) >= a.len() { Seq::empty() }
    else { seq![(unesc(kv_k(a)), unesc(kv_v(a, sep)))] + pairs(kv_next(a, sep), sep) }
}
#[via_fn]
proof fn pairs_dec(a: Seq<u8>, sep: u8) { lemma_kv(a, sep); }
pub proof fn lemma_kv(a: Seq<u8>, sep: u8)
    ensures 0 <= first_b(a, 61) <= a.len(), first_b(a, 61) < a.len() ==> kv_next(a, sep).len() < a.len() && 0 <= first_b(kv_rest(a), sep) <= kv_rest(a).len()
{ lemma_first_b(a, 61); if first_b(a, 61) < a.len() { lemma_first_b(kv_rest(a), sep); } }

pub open spec fn name_of(p: Seq<u8>, q: u8) -> Seq<u8> { p.subrange(0, first_b(p, q)) }
pub open spec fn args_of(p: Seq<u8>, q: u8) -> Seq<u8> { if first_b(p, q) >= p.len() { Seq::empty() } else { p.subrange(first_b(p, q) + 1, p.len() as int) } }
pub open spec fn path_ok_tags(p: Seq<u8>, q: u8, sep: u8) -> bool {
    first_b(p, q) < p.len() && !name_of(p, q).contains(61u8) && pairs_ok(args_of(p, q), sep)
}
pub open spec fn name_key() -> Seq<u8> { seq![95u8, 95, 110, 97, 109, 101, 95, 95] }
pub open spec fn tags_of(p: Seq<u8>, q: u8, sep: u8) -> Seq<KV> {
    seq![(name_key(), unesc(name_of(p, q)))] + pairs(args_of(p, q), sep)
}
pub open spec fn tmap(t: Seq<KV>) -> Map<Str, Str> decreases t.len() {
    if t.len() == 0 { Map::empty() } else { tmap(t.drop_last()).insert(mk_str(t.last().0), mk_str(t.last().1)) }
}
pub proof fn lemma_tmap_push(t: Seq<KV>, x: KV)
    ensures tmap(t.push(x)) == tmap(t).insert(mk_str(x.0), mk_str(x.1))
{ assert(t.push(x).drop_last() =~= t); }
pub open spec fn tv(t: Seq<gtags_Tag>) -> Seq<KV> { Seq::new(t.len(), |i: int| (t[i].Key@, t[i].Value@)) }

// one step of reading the pairs
pub proof fn lemma_pairs_step(t: Seq<KV>, a: Seq<u8>, sep: u8)
    ensures
        a.len() == 0 ==> pairs_ok(a, sep) && t + pairs(a, sep) == t,
        a.len() > 0 && first_b(a, 61) >= a.len() ==> !pairs_ok(a, sep) && t + pairs(a, sep) == t,
        first_b(a, 61) < a.len() ==> kv_next(a, sep).len() < a.len() && pairs_ok(a, sep) == pairs_ok(kv_next(a, sep), sep)
            && t + pairs(a, sep) == t.push((unesc(kv_k(a)), unesc(kv_v(a, sep)))) + pairs(kv_next(a, sep), sep)
            && 0 <= first_b(kv_rest(a), sep) <= kv_rest(a).len(),
        0 <= first_b(a, 61) <= a.len(),
{
    lemma_kv(a, sep);
    lemma_first_b(a, 61);
    if a.len() == 0 || first_b(a, 61) >= a.len() { assert(t + pairs(a, sep) =~= t); }
    else {
        assert(t + pairs(a, sep) =~= t.push((unesc(kv_k(a)), unesc(kv_v(a, sep)))) + pairs(kv_next(a, sep), sep));
    }
}
pub proof fn lemma_occ1(s: Seq<u8>, c: u8)
    ensures (exists|i: int| #[trigger] occ(s, seq![c], i)) == s.contains(c)
{
    if s.contains(c) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(s.subrange(i, i + 1) =~= seq![c]);
        assert(occ(s, seq![c], i));
    }
    if exists|i: int| #[trigger] occ(s, seq![c], i) {
        let i = choose|i: int| #[trigger] occ(s, seq![c], i);
        assert(s.subrange(i, i + 1)[0] == s[i]);
        assert(seq![c][0] == c);
        assert(s[i] == c);
    }
}

// ---- a path built from escaped pieces
pub open spec fn esc_out(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (unres(#[trigger] s[i]) || s[i] == 37 || s[i] == 43) }
pub proof fn lemma_esc_out(s: Seq<u8>)
    ensures esc_out(esc(s, 6))
    decreases s.len()
{
    reveal(esc_must);
    if s.len() > 0 {
        lemma_esc_out(s.drop_last());
        let a = esc(s.drop_last(), 6);
        let b = esc_b(s.last(), 6);
        assert(esc_out(b)) by { assert(forall|n: int| 0 <= n < 16 ==> unres(#[trigger] hexd(n))); let c = s.last() as int; assert(0 <= c / 16 < 16 && 0 <= c % 16 < 16); assert(unres(hexd(c / 16)) && unres(hexd(c % 16))); }
        assert forall|i: int| 0 <= i < (a + b).len() implies (unres(#[trigger] (a + b)[i]) || (a + b)[i] == 37 || (a + b)[i] == 43) by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn lemma_first_cat(a: Seq<u8>, c: u8, r: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != c
    ensures first_b(a.push(c) + r, c) == a.len(), first_b(a, c) == a.len()
{
    let s = a.push(c) + r;
    lemma_first_b(s, c);
    lemma_first_b(a, c);
    let k = first_b(s, c);
    assert(s[a.len() as int] == c);
    if k < a.len() { assert(s[k] == a[k]); }
    if first_b(a, c) < a.len() { assert(a[first_b(a, c)] != c); }
}
// the written form of some tags
pub open spec fn esc_pairs(t: Seq<KV>, sep: u8) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if t.len() == 1 { esc(t[0].0, 6).push(61) + esc(t[0].1, 6) }
    else { esc(t[0].0, 6).push(61) + (esc(t[0].1, 6).push(sep) + esc_pairs(t.drop_first(), sep)) }
}
pub open spec fn sep_ok(c: u8) -> bool { !unres(c) && c != 37 && c != 43 && c != 61 }
pub proof fn lemma_pairs_built(t: Seq<KV>, sep: u8)
    requires sep_ok(sep)
    ensures pairs_ok(esc_pairs(t, sep), sep), pairs(esc_pairs(t, sep), sep) == t
    decreases t.len()
{
    let a = esc_pairs(t, sep);
    if t.len() == 0 { assert(pairs(a, sep) =~= t); } else {
        let k = esc(t[0].0, 6);
        let v = esc(t[0].1, 6);
        lemma_esc_out(t[0].0); lemma_esc_out(t[0].1);
        lemma_unesc_esc(t[0].0); lemma_unesc_esc(t[0].1);
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] k[i] != 61 by { assert(unres(k[i]) || k[i] == 37 || k[i] == 43); }
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != sep by { assert(unres(v[i]) || v[i] == 37 || v[i] == 43); }
        let rest = if t.len() == 1 { v } else { v.push(sep) + esc_pairs(t.drop_first(), sep) };
        assert(a =~= k.push(61) + rest);
        lemma_first_cat(k, 61, rest);
        assert(first_b(a, 61) < a.len());
        assert(kv_k(a) =~= k);
        assert(kv_rest(a) =~= rest);
        lemma_first_cat(v, sep, esc_pairs(t.drop_first(), sep));
        assert(kv_v(a, sep) =~= v);
        if t.len() == 1 {
            assert(kv_next(a, sep).len() == 0);
            assert(pairs_ok(kv_next(a, sep), sep));
            assert(pairs(a, sep) =~= t) by { assert(pairs(kv_next(a, sep), sep) =~= Seq::<KV>::empty()); }
        } else {
            assert(kv_next(a, sep) =~= esc_pairs(t.drop_first(), sep));
            lemma_pairs_built(t.drop_first(), sep);
            assert(pairs(a, sep) =~= t);
        }
    }
}
// The last sentence of the property: escaped pieces come back.
pub proof fn lemma_path_built(name: Seq<u8>, t: Seq<KV>, q: u8, sep: u8)
    requires sep_ok(sep), sep_ok(q)
    ensures ({ let p = esc(name, 6).push(q) + esc_pairs(t, sep); path_ok_tags(p, q, sep) && tags_of(p, q, sep) == seq![(name_key(), name)] + t })
{
    let e = esc(name, 6);
    let p = e.push(q) + esc_pairs(t, sep);
    lemma_esc_out(name);
    lemma_unesc_esc(name);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] != q && e[i] != 61 by { assert(unres(e[i]) || e[i] == 37 || e[i] == 43); }
    lemma_first_cat(e, q, esc_pairs(t, sep));
    assert(name_of(p, q) =~= e);
    assert(args_of(p, q) =~= esc_pairs(t, sep));
    lemma_pairs_built(t, sep);
}
pub proof fn lemma_path_built_both(name: Seq<u8>, t: Seq<KV>)
    ensures
        ({ let p = esc(name, 6).push(63) + esc_pairs(t, 38); path_ok_tags(p, 63, 38) && tags_of(p, 63, 38) == seq![(name_key(), name)] + t }),
        ({ let p = esc(name, 6).push(59) + esc_pairs(t, 59); path_ok_tags(p, 59, 59) && tags_of(p, 59, 59) == seq![(name_key(), name)] + t }),
{ lemma_path_built(name, t, 63, 38); lemma_path_built(name, t, 59, 59); }
// keys of a map still to be deleted
pub open spec fn keys_left(m: Map<Str, Str>, ks: Seq<Str>, n: int) -> bool { forall|k: Str| m.contains_key(k) ==> exists|j: int| n <= j < ks.len() && #[trigger] ks[j] == k }
