// uses: 10sets.rs 11classtext.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs 25terms.rs 30norm.rs
// Printed expressions parse back.

// ---- trimming twice changes nothing
pub proof fn lemma_tsl_stop(s: Seq<u8>)
    ensures ts_l(ts_l(s)) == ts_l(s), ts_l(s).len() > 0 ==> !is_space(dec_c(ts_l(s)))
    decreases s.len()
{
    lemma_dec(s);
    if s.len() > 0 && is_space(dec_c(s)) && 0 < dec_w(s) <= s.len() { lemma_tsl_stop(from(s, dec_w(s))); }
    else if s.len() > 0 { assert(ts_l(s) == s); }
}
pub proof fn lemma_tsr_stop(s: Seq<u8>)
    requires ok8(s)
    ensures ts_r(ts_r(s)) == ts_r(s), ok8(ts_r(s)), ts_r(s).len() > 0 ==> s.len() > 0 && dec_c(ts_r(s)) == dec_c(s)
    decreases s.len()
{
    if exists|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k))) {
        let k = choose|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k)));
        let h = s.subrange(0, s.len() - k);
        assert(from(s, s.len() - k)[0] == s[s.len() - k]);
        lemma_ok8_pre(s, s.len() - k);
        lemma_tsr_stop(h);
        if h.len() > 0 {
            assert(starts(s, h));
            lemma_dec(h);
            assert(dec_ok(h));
            assert(dec_c(s) == dec_c(h)) by {
                assert(h[0] == s[0]);
                let w = dec_w(h);
                if w > 1 { assert(h[1] == s[1]); }
                if w > 2 { assert(h[2] == s[2]); }
                if w > 3 { assert(h[3] == s[3]); }
            }
        }
    }
}
pub proof fn lemma_ts_stop(s: Seq<u8>)
    requires ok8(s)
    ensures trim_space(trim_space(s)) == trim_space(s)
{
    let l = ts_l(s);
    lemma_tsl_stop(s);
    lemma_tsl8(s);
    lemma_tsr_stop(l);
    let r = ts_r(l);
    assert(ts_l(r) == r);
}
pub proof fn lemma_tsl8(s: Seq<u8>)
    requires ok8(s)
    ensures ok8(ts_l(s))
    decreases s.len()
{
    lemma_dec(s);
    if s.len() > 0 && is_space(dec_c(s)) && 0 < dec_w(s) <= s.len() { lemma_tsl8(from(s, dec_w(s))); }
}
// ---- sorted terms are determined by their multiset
pub type Tr = (Seq<u8>, int, Seq<u8>);
pub open spec fn tr(t: gtags_TaggedTerm) -> Tr { (t.Key@, t.Op as int, t.Value@) }
pub open spec fn trs(t: Seq<gtags_TaggedTerm>) -> Seq<Tr> { Seq::new(t.len(), |i: int| tr(t[i])) }
pub open spec fn trless(a: Tr, b: Tr) -> bool { if a.0 == b.0 { if a.1 == b.1 { sq_lt(a.2, b.2) } else { a.1 < b.1 } } else { klt(a.0, b.0) } }
pub open spec fn trsorted(t: Seq<Tr>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> !trless(#[trigger] t[j], #[trigger] t[i]) }
pub proof fn lemma_tr_total(a: Tr, b: Tr)
    ensures trless(a, b) || trless(b, a) || a == b
{ lemma_klt(a.0, b.0, a.0); lemma_lt_total(a.2, b.2); }
pub proof fn lemma_ms_drop<A>(a: Seq<A>)
    requires a.len() > 0
    ensures a.to_multiset() == a.drop_last().to_multiset().insert(a.last())
{
    a.drop_last().to_multiset_ensures();
    assert(a =~= a.drop_last().push(a.last()));
}
pub proof fn lemma_sorted_same(a: Seq<Tr>, b: Seq<Tr>)
    requires trsorted(a), trsorted(b), a.to_multiset() == b.to_multiset()
    ensures a == b
    decreases a.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    if a.len() == 0 { assert(a =~= b); } else {
        let n = a.len() - 1;
        let x = a.last(); let y = b.last();
        assert(a.contains(a[n])); assert(b.contains(b[n]));
        assert(a.to_multiset().count(x) > 0); assert(b.to_multiset().count(y) > 0);
        assert(b.contains(x)); assert(a.contains(y));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
        assert(!trless(y, x)) by { if j < n { assert(!trless(b[n], b[j])); } else { lemma_lt_irrefl(x.2); } }
        assert(!trless(x, y)) by { if i < n { assert(!trless(a[n], a[i])); } else { lemma_lt_irrefl(x.2); } }
        lemma_tr_total(x, y);
        lemma_ms_drop(a); lemma_ms_drop(b);
        let u = a.drop_last(); let v = b.drop_last();
        assert(u.to_multiset() =~= a.to_multiset().remove(x));
        assert(v.to_multiset() =~= b.to_multiset().remove(x));
        assert(trsorted(u)) by { assert forall|i: int, j: int| 0 <= i < j < u.len() implies !trless(#[trigger] u[j], #[trigger] u[i]) by { assert(!trless(a[j], a[i])); } }
        assert(trsorted(v)) by { assert forall|i: int, j: int| 0 <= i < j < v.len() implies !trless(#[trigger] v[j], #[trigger] v[i]) by { assert(!trless(b[j], b[i])); } }
        lemma_sorted_same(u, v);
        assert(a =~= u.push(x)); assert(b =~= v.push(x));
    }
}
// the triples of a permutation are a permutation
pub proof fn lemma_trs_ms(a: Seq<gtags_TaggedTerm>, b: Seq<gtags_TaggedTerm>)
    requires a.to_multiset() == b.to_multiset()
    ensures trs(a).to_multiset() == trs(b).to_multiset()
    decreases a.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.to_multiset().len() == a.len());
    assert(b.to_multiset().len() == b.len());
    if a.len() == 0 { assert(trs(a) =~= trs(b)); } else {
        let n = a.len() - 1;
        let j = lemma_ms_at(a, b, n);
        let u = a.drop_last(); let v = b.remove(j);
        lemma_ms_drop(a);
        assert(u.to_multiset() =~= a.to_multiset().remove(a.last()));
        assert(v.to_multiset() =~= b.to_multiset().remove(b[j]));
        lemma_trs_ms(u, v);
        lemma_ms_drop(trs(a));
        assert(trs(a).drop_last() =~= trs(u));
        trs(b).to_multiset_ensures();
        assert(trs(b).remove(j) =~= trs(v));
        assert(trs(b).to_multiset().remove(tr(b[j])) =~= trs(v).to_multiset());
        assert(trs(b).contains(trs(b)[j]));
        assert(trs(b).to_multiset().count(tr(b[j])) > 0);
        assert(trs(b).to_multiset() =~= trs(v).to_multiset().insert(tr(b[j])));
    }
}
// ---- the printed text
pub open spec fn ttxts(t: Seq<gtags_TaggedTerm>) -> Seq<Seq<u8>> { Seq::new(t.len(), |i: int| ttxt(t[i])) }
pub open spec fn noq(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 39 }
pub open spec fn prt(s: Seq<u8>) -> bool { s.len() > 0 && noq(s) }
pub proof fn lemma_qone(x: Seq<u8>, r: Seq<u8>)
    requires prt(x)
    ensures qargs((seq![39u8] + x).push(39u8) + r) == (match qargs(r) { None => None::<Seq<Seq<u8>>>, Some(c) => Some(seq![x] + c) })
{
    let e = (seq![39u8] + x).push(39u8) + r;
    let t = from(e, 1);
    assert(t =~= x.push(39u8) + r);
    let k = x.len() as int;
    assert(t[k] == 39);
    assert forall|i: int| 0 <= i < k implies #[trigger] t[i] != 39 by { assert(t[i] == x[i]); }
    lemma_first_at(t, 39, k);
    assert(t.subrange(0, k) =~= x);
    assert(from(t, k + 1) =~= r);
    assert(e[0] == 39);
}
pub proof fn lemma_qjoin(t: Seq<gtags_TaggedTerm>, r: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> prt(ttxt(#[trigger] t[i])), qargs(r) is Some
    ensures qargs(tjoin(t) + r) == Some(ttxts(t) + qargs(r)->0)
    decreases t.len()
{
    if t.len() == 0 {
        assert(tjoin(t) + r =~= r);
        assert(ttxts(t) + qargs(r)->0 =~= qargs(r)->0);
    } else {
        let n = t.len() - 1;
        let u = t.drop_last();
        let x = ttxt(t.last());
        assert(t.last() == t[n]);
        let w = (seq![39u8] + x).push(39u8);
        lemma_qone(x, r);
        let s = if t.len() > 1 { seq![44u8] } else { Seq::<u8>::empty() };
        let z = s + w + r;
        if t.len() > 1 { assert(z[0] == 44); assert(from(z, 1) =~= w + r); } else { assert(z =~= w + r); }
        assert(qargs(z) == qargs(w + r));
        assert forall|i: int| 0 <= i < u.len() implies prt(ttxt(#[trigger] u[i])) by { assert(u[i] == t[i]); }
        lemma_qjoin(u, z);
        assert(tjoin(t) + r =~= tjoin(u) + z);
        assert(ttxts(u) + (seq![x] + qargs(r)->0) =~= ttxts(t) + qargs(r)->0) by { assert(ttxts(t) =~= ttxts(u).push(x)); }
    }
}
pub proof fn lemma_print_args(t: Seq<gtags_TaggedTerm>)
    requires forall|i: int| 0 <= i < t.len() ==> prt(ttxt(#[trigger] t[i])), t.len() <= 128
    ensures conds(terms_txt(t)) == Some(ttxts(t))
{
    let q = terms_txt(t);
    let e = Seq::<u8>::empty();
    assert(q[0] == sbt()[0]);
    assert(q.last() == 41);
    assert(trim_l(q, 32) == q);
    assert(trim_r(q, 32) == q);
    assert(q.subrange(0, 12) =~= sbt());
    assert(call_args(q) =~= tjoin(t));
    lemma_qjoin(t, e);
    assert(tjoin(t) + e =~= tjoin(t));
    assert(qargs(e)->0 =~= Seq::empty());
    assert(ttxts(t) + qargs(e)->0 =~= ttxts(t));
}
// ---- a printed condition
pub open spec fn keyok(k: Seq<u8>) -> bool { k.len() > 0 && trim_space(k) == k && k != seq![110u8, 97, 109, 101] && (forall|i: int| 0 <= i < k.len() ==> !isop(#[trigger] k[i])) }
pub open spec fn valok(t: gtags_TaggedTerm) -> bool { trim_space(t.Value@) == t.Value@ && ((t.Op == 1 || t.Op == 3) && t.Value@.len() > 0 ==> t.Value@[0] != 126) }
pub proof fn lemma_first_op_at(s: Seq<u8>, k: int)
    requires 0 <= k < s.len(), isop(s[k]), forall|i: int| 0 <= i < k ==> !isop(#[trigger] s[i])
    ensures first_op(s) == k
{ lemma_first_op(s); let f = first_op(s); if f < k { assert(!isop(s[f])); } if f > k { assert(!isop(s[k])); } }
pub proof fn lemma_print_cond(t: gtags_TaggedTerm)
    requires keyok(t.Key@), valok(t), 1 <= t.Op <= 4
    ensures c_key(ttxt(t)) == t.Key@, c_op(ttxt(t)) == t.Op, c_val(ttxt(t)) == t.Value@,
        c_ok(ttxt(t)) == (if t.Op == 2 || t.Op == 4 { re_ok(t.Value@) } else { tw(t.Value@) })
{
    let k = t.Key@; let o = opstr(t.Op as int); let v = t.Value@;
    let s = ttxt(t);
    let n = k.len() as int;
    assert(s[n] == o[0]);
    assert(isop(o[0]));
    assert forall|i: int| 0 <= i < n implies !isop(#[trigger] s[i]) by { assert(s[i] == k[i]); }
    lemma_first_op_at(s, n);
    assert(s.subrange(0, n) =~= k);
    let r = c_rest(s);
    assert(r =~= o + v);
    assert(starts(r, o)) by { assert(r.subrange(0, o.len() as int) =~= o); }
    assert(c_op(s) == t.Op) by {
        assert(starts(r, opstr(2)) ==> r.subrange(0, 2)[1] == 126 && r.subrange(0, 2)[0] == 61);
        assert(starts(r, opstr(1)) ==> r.subrange(0, 1)[0] == 61);
        assert(starts(r, opstr(4)) ==> r.subrange(0, 3)[2] == 126 && r.subrange(0, 3)[0] == 33);
        assert(starts(r, opstr(3)) ==> r.subrange(0, 2)[0] == 33);
    }
    assert(from(r, o.len() as int) =~= v);
}
// a value without wildcards
pub open spec fn plainv(t: gtags_TaggedTerm) -> bool { t.Op == 1 || t.Op == 3 ==> nowild(t.Value@) }
// the elements of a wild value are clean (only a class of one wildcard gives others)
pub open spec fn wildok(t: gtags_TaggedTerm) -> bool { t.Op == 1 || t.Op == 3 ==> (if t.HasWildcard { clean(t.Glob) } else { nowild(t.Value@) }) }
pub open spec fn again(t: gtags_TaggedTerm) -> bool { noq(t.Key@) && noq(t.Value@) && valok(t) && wildok(t) }
pub proof fn lemma_key(c: Seq<u8>)
    requires txt(c), U(), c_ok(c)
    ensures keyok(c_key(c))
{
    lemma_first_op(c);
    let f = first_op(c);
    lemma_txt_cut(c, f);
    let p = c.subrange(0, f);
    lemma_ts_stop(p);
    if trim_space(p) == seq![110u8, 97, 109, 101] { lemma_kname(); } else {
        assert forall|i: int| 0 <= i < p.len() implies !isop(#[trigger] p[i]) by { assert(p[i] == c[i]); }
        lemma_ts_all(p);
    }
}
pub proof fn lemma_kname()
    ensures keyok(kname())
{
    let k = kname();
    assert(k[0] == 95);
    assert(ts_l(k) == k);
    assert(k.last() == 95);
    assert forall|j: int| #[trigger] last_is(k, j) implies !is_space(dec_c(from(k, k.len() - j))) by {
        let z = from(k, k.len() - j);
        assert(z[0] == k[k.len() - j]);
    }
    assert(seq![110u8, 97, 109, 101].len() == 4);
}
// trimming takes nothing from inside
pub proof fn lemma_tsl_all(p: Seq<u8>)
    requires forall|i: int| 0 <= i < p.len() ==> !isop(#[trigger] p[i])
    ensures forall|i: int| 0 <= i < ts_l(p).len() ==> !isop(#[trigger] ts_l(p)[i])
    decreases p.len()
{
    lemma_dec(p);
    if p.len() > 0 && is_space(dec_c(p)) && 0 < dec_w(p) <= p.len() {
        let u = from(p, dec_w(p));
        assert forall|i: int| 0 <= i < u.len() implies !isop(#[trigger] u[i]) by { assert(u[i] == p[i + dec_w(p)]); }
        lemma_tsl_all(u);
        assert(ts_l(p) == ts_l(u));
    } else { assert(ts_l(p) == p); }
}
pub proof fn lemma_tsr_all(p: Seq<u8>)
    requires forall|i: int| 0 <= i < p.len() ==> !isop(#[trigger] p[i])
    ensures forall|i: int| 0 <= i < ts_r(p).len() ==> !isop(#[trigger] ts_r(p)[i])
    decreases p.len()
{
    if exists|k: int| #[trigger] last_is(p, k) && is_space(dec_c(from(p, p.len() - k))) {
        let k = choose|k: int| #[trigger] last_is(p, k) && is_space(dec_c(from(p, p.len() - k)));
        let h = p.subrange(0, p.len() - k);
        assert forall|i: int| 0 <= i < h.len() implies !isop(#[trigger] h[i]) by { assert(h[i] == p[i]); }
        lemma_tsr_all(h);
        assert(ts_r(p) == ts_r(h));
    } else { assert(ts_r(p) == p); }
}
pub proof fn lemma_ts_all(p: Seq<u8>)
    requires forall|i: int| 0 <= i < p.len() ==> !isop(#[trigger] p[i])
    ensures forall|i: int| 0 <= i < trim_space(p).len() ==> !isop(#[trigger] trim_space(p)[i])
{ lemma_tsl_all(p); lemma_tsr_all(ts_l(p)); }
// the value of a term is good for a new term
pub proof fn lemma_val_ok(c: Seq<u8>, t: gtags_TaggedTerm)
    requires c_ok(c), c_term(c, t), wildok(t), U()
    ensures if t.Op == 2 || t.Op == 4 { re_ok(t.Value@) } else { tw(t.Value@) && forall|v: Seq<u8>| #[trigger] acc(t.Value@, v) == teq(t, v) }
{
    if t.Op == 1 || t.Op == 3 {
        let w = t.Value@;
        if t.HasWildcard {
            theorem_text(t.Glob);
            assert forall|v: Seq<u8>| #[trigger] acc(w, v) == teq(t, v) by { assert(acc(t.Glob.Node@, v) == glang(t.Glob, v)); }
        } else {
            lemma_tw_lit(w, Seq::empty()); assert(w + Seq::<u8>::empty() =~= w);
            assert forall|v: Seq<u8>| #[trigger] acc(w, v) == teq(t, v) by { lemma_acc_empty(w, v); }
        }
    }
}
// the printed condition asks what the term asks
pub open spec fn says(t: gtags_TaggedTerm) -> bool {
    let d = ttxt(t);
    c_ok(d) && c_key(d) == t.Key@ && c_op(d) == t.Op && c_val(d) == t.Value@ && forall|v: Seq<u8>| #[trigger] c_sat(d, v) == tsat(t, v)
}
pub proof fn lemma_says(c: Seq<u8>, t: gtags_TaggedTerm)
    requires c_ok(c), txt(c), c_term(c, t), again(t), U()
    ensures says(t), keyok(t.Key@), 1 <= t.Op <= 4
{
    lemma_key(c);
    lemma_print_cond(t);
    lemma_val_ok(c, t);
    let d = ttxt(t);
    assert forall|v: Seq<u8>| #[trigger] c_sat(d, v) == tsat(t, v) by {
        if t.Op == 1 || t.Op == 3 { assert(acc(t.Value@, v) == teq(t, v)); } else { assert(t.Re == re_of(t.Value@)); }
    }
}
pub proof fn lemma_says_cms(t: gtags_TaggedTerm, m: Map<Str, Str>)
    requires says(t)
    ensures cms(ttxt(t), m) == msat(t, m)
{
    let d = ttxt(t);
    if m.contains_key(t.Key) {
        assert(c_sat(d, m[t.Key]@) == tsat(t, m[t.Key]@));
        if cms(d, m) { let k = choose|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(d) && c_sat(d, m[k]@); assert(k == t.Key); }
    } else if exists|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(d) { let k = choose|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(d); assert(k == t.Key); }
}
pub open spec fn plains(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int| 0 <= i < t.len() ==> plainv(#[trigger] t[i]) }
pub open spec fn agains(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int| 0 <= i < t.len() ==> again(#[trigger] t[i]) }
// printing the terms of a call and parsing the text gives the terms again: the same ones when no value is wild, ones which match the same tags in any case
pub open spec fn roundtrip(t: Seq<gtags_TaggedTerm>, u: Seq<gtags_TaggedTerm>) -> bool {
    &&& u.len() == t.len()
    &&& plains(t) ==> trs(u) == trs(t) && terms_txt(u) == terms_txt(t)
    &&& N() ==> forall|m: Map<Str, Str>| #[trigger] allsat(u, m) == allsat(t, m)
}
pub proof fn lemma_round_at(t: Seq<gtags_TaggedTerm>, d: Seq<Seq<u8>>, u: Seq<gtags_TaggedTerm>)
    requires d == ttxts(t), tsorted(t), forall|i: int| 0 <= i < t.len() ==> says(#[trigger] t[i]), parsed(d, u), U()
    ensures roundtrip(t, u)
{
    let a = choose|a: Seq<gtags_TaggedTerm>| all_term(d, a) && #[trigger] a.to_multiset() == u.to_multiset();
    a.to_multiset_ensures(); u.to_multiset_ensures();
    assert(a.to_multiset().len() == a.len());
    assert(u.to_multiset().len() == u.len());
    if plains(t) {
        assert forall|i: int| 0 <= i < t.len() implies tr(#[trigger] a[i]) == tr(t[i]) by {
            assert(c_term(d[i], a[i]));
            assert(d[i] == ttxt(t[i]));
            assert(says(t[i]));
            assert(plainv(t[i]));
        }
        assert(trs(a) =~= trs(t));
        lemma_trs_ms(a, u);
        lemma_trs_sorted(t); lemma_trs_sorted(u);
        lemma_sorted_same(trs(t), trs(u));
        lemma_same_txt(t, u);
    }
    if N() {
        assert forall|m: Map<Str, Str>| #[trigger] allsat(u, m) == allsat(t, m) by {
            theorem_terms(d, u, m);
            assert forall|i: int| 0 <= i < t.len() implies cms(d[i], m) == msat(#[trigger] t[i], m) by { assert(says(t[i])); lemma_says_cms(t[i], m); }
            if allsat(t, m) { assert forall|i: int| 0 <= i < d.len() implies cms(#[trigger] d[i], m) by { assert(msat(t[i], m)); } }
            if allcms(d, m) { assert forall|i: int| 0 <= i < t.len() implies msat(#[trigger] t[i], m) by { assert(cms(d[i], m)); } }
        }
    }
}
pub proof fn theorem_print(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>)
    requires parsed(c, t), all_ok(c), c.len() <= 128, U(), forall|i: int| 0 <= i < c.len() ==> txt(#[trigger] c[i]), agains(t)
    ensures conds(terms_txt(t)) == Some(ttxts(t)), all_ok(ttxts(t)), forall|u: Seq<gtags_TaggedTerm>| #[trigger] parsed(ttxts(t), u) ==> roundtrip(t, u),
{
    let b = choose|b: Seq<gtags_TaggedTerm>| all_term(c, b) && #[trigger] b.to_multiset() == t.to_multiset();
    b.to_multiset_ensures(); t.to_multiset_ensures();
    assert(b.to_multiset().len() == b.len());
    assert(t.to_multiset().len() == t.len());
    let d = ttxts(t);
    assert forall|i: int| 0 <= i < t.len() implies says(#[trigger] t[i]) && keyok(t[i].Key@) && 1 <= t[i].Op <= 4 by {
        let j = lemma_ms_at(t, b, i);
        assert(c_term(c[j], b[j]));
        assert(c_ok(c[j]));
        assert(again(t[i]));
        lemma_says(c[j], t[i]);
    }
    assert forall|i: int| 0 <= i < t.len() implies prt(ttxt(#[trigger] t[i])) by { assert(again(t[i])); assert(says(t[i])); lemma_prt(t[i]); }
    lemma_print_args(t);
    assert forall|i: int| 0 <= i < d.len() implies c_ok(#[trigger] d[i]) by { assert(says(t[i])); }
    assert forall|u: Seq<gtags_TaggedTerm>| #[trigger] parsed(d, u) implies roundtrip(t, u) by { lemma_round_at(t, d, u); }
}
pub proof fn lemma_prt(x: gtags_TaggedTerm)
    requires again(x), keyok(x.Key@), 1 <= x.Op <= 4
    ensures prt(ttxt(x))
{
    let k = x.Key@; let o = opstr(x.Op as int); let v = x.Value@; let s = ttxt(x);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != 39 by {
        if i < k.len() { assert(s[i] == k[i]); }
        else if i < k.len() + o.len() { assert(s[i] == o[i - k.len()]); }
        else { assert(s[i] == v[i - k.len() - o.len()]); }
    }
}
pub proof fn lemma_trs_sorted(t: Seq<gtags_TaggedTerm>)
    requires tsorted(t)
    ensures trsorted(trs(t))
{
    let r = trs(t);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies !trless(#[trigger] r[j], #[trigger] r[i]) by { assert(!tless(t[j], t[i])); }
}
pub proof fn lemma_same_join(t: Seq<gtags_TaggedTerm>, u: Seq<gtags_TaggedTerm>)
    requires trs(t) == trs(u)
    ensures tjoin(t) == tjoin(u)
    decreases t.len()
{
    assert(trs(t).len() == t.len()); assert(trs(u).len() == u.len());
    if t.len() > 0 {
        let n = t.len() - 1;
        let a = t.drop_last(); let b = u.drop_last();
        assert(trs(t)[n] == trs(u)[n]);
        assert(trs(t)[n] == tr(t[n])); assert(trs(u)[n] == tr(u[n]));
        assert(trs(a) =~= trs(t).drop_last());
        assert(trs(b) =~= trs(u).drop_last());
        lemma_same_join(a, b);
        assert(ttxt(t.last()) == ttxt(u.last()));
        assert(t.len() == u.len());
    }
}
pub proof fn lemma_same_txt(t: Seq<gtags_TaggedTerm>, u: Seq<gtags_TaggedTerm>)
    requires trs(t) == trs(u)
    ensures terms_txt(t) == terms_txt(u)
{ lemma_same_join(t, u); }
// ---- the texts stay texts
pub proof fn lemma_txt_cat(a: Seq<u8>, b: Seq<u8>)
    requires txt(a), txt(b)
    ensures txt(a + b)
{ if U() { lemma_ok8_cat(a, b); } }
pub proof fn lemma_txt_one(b: u8)
    requires 0 < b < 0x80
    ensures txt(seq![b])
{ let s = seq![b]; assert(dec_ok(s)); assert(dec_w(s) == 1); assert(from(s, 1).len() == 0); assert(ok8(from(s, 1))); assert(ok8(s)); }
pub proof fn lemma_txt_op(o: int)
    requires 1 <= o <= 4
    ensures txt(opstr(o))
{
    lemma_txt_one(61); lemma_txt_one(126); lemma_txt_one(33);
    lemma_txt_cat(seq![61u8], seq![126u8]); lemma_txt_cat(seq![33u8], seq![61u8]); lemma_txt_cat(seq![33u8] + seq![61u8], seq![126u8]);
    assert(opstr(2) =~= seq![61u8] + seq![126u8]);
    assert(opstr(3) =~= seq![33u8] + seq![61u8]);
    assert(opstr(4) =~= seq![33u8] + seq![61u8] + seq![126u8]);
}
pub proof fn lemma_txt_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> 0 < #[trigger] s[i] < 0x80
    ensures txt(s)
    decreases s.len()
{
    if s.len() > 0 {
        let t = from(s, 1);
        assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i] < 0x80 by { assert(t[i] == s[i + 1]); }
        lemma_txt_ascii(t);
        lemma_txt_one(s[0]);
        lemma_txt_cat(seq![s[0]], t);
        assert(s =~= seq![s[0]] + t);
    }
}
pub proof fn lemma_key_txt(c: Seq<u8>)
    requires txt(c), c_ok(c)
    ensures txt(c_key(c))
{
    lemma_first_op(c);
    lemma_txt_cut(c, first_op(c));
    lemma_ts_txt(c.subrange(0, first_op(c)));
    let k = kname();
    assert forall|i: int| 0 <= i < k.len() implies 0 < #[trigger] k[i] < 0x80 by {
        assert(k[0] == 95 && k[1] == 95 && k[2] == 110 && k[3] == 97 && k[4] == 109 && k[5] == 101 && k[6] == 95 && k[7] == 95);
    }
    lemma_txt_ascii(k);
}
pub proof fn lemma_txt_join(t: Seq<gtags_TaggedTerm>)
    requires forall|i: int| 0 <= i < t.len() ==> txt((#[trigger] t[i]).Key@) && txt(t[i].Value@) && 1 <= t[i].Op <= 4
    ensures txt(tjoin(t))
    decreases t.len()
{
    if t.len() == 0 { let e = Seq::<u8>::empty(); assert(ok8(e)); } else {
        let u = t.drop_last();
        let x = t.last();
        assert(x == t[t.len() - 1]);
        assert forall|i: int| 0 <= i < u.len() implies txt((#[trigger] u[i]).Key@) && txt(u[i].Value@) && 1 <= u[i].Op <= 4 by { assert(u[i] == t[i]); }
        lemma_txt_join(u);
        lemma_txt_op(x.Op as int);
        let k = x.Key@; let o = opstr(x.Op as int); let v = x.Value@;
        lemma_txt_cat(k, o); lemma_txt_cat(k + o, v);
        lemma_txt_one(39); lemma_txt_one(44);
        lemma_txt_cat(seq![39u8], ttxt(x));
        lemma_txt_cat(seq![39u8] + ttxt(x), seq![39u8]);
        let w = (seq![39u8] + ttxt(x)).push(39u8);
        assert(w =~= seq![39u8] + ttxt(x) + seq![39u8]);
        let s = if t.len() > 1 { seq![44u8] } else { Seq::<u8>::empty() };
        assert(ok8(Seq::<u8>::empty()));
        lemma_txt_cat(tjoin(u), s);
        lemma_txt_cat(tjoin(u) + s, w);
    }
}
pub proof fn lemma_txt_call(t: Seq<gtags_TaggedTerm>)
    requires txt(tjoin(t))
    ensures txt(terms_txt(t))
{
    let b = sbt();
    assert forall|i: int| 0 <= i < b.len() implies 0 < #[trigger] b[i] < 0x80 by {
        assert(b[0] == 115 && b[1] == 101 && b[2] == 114 && b[3] == 105 && b[4] == 101 && b[5] == 115 && b[6] == 66 && b[7] == 121 && b[8] == 84 && b[9] == 97 && b[10] == 103 && b[11] == 40);
    }
    lemma_txt_ascii(b);
    lemma_txt_one(41);
    lemma_txt_cat(b, tjoin(t));
    lemma_txt_cat(b + tjoin(t), seq![41u8]);
    assert(terms_txt(t) =~= b + tjoin(t) + seq![41u8]);
}
pub proof fn lemma_qargs_txt(e: Seq<u8>)
    requires txt(e), qargs(e) is Some
    ensures forall|i: int| 0 <= i < (qargs(e)->0).len() ==> txt(#[trigger] (qargs(e)->0)[i])
    decreases e.len()
{
    if e.len() > 0 {
        if e[0] == 39 || e[0] == 34 {
            let t = from(e, 1);
            let k = first_b(t, e[0]);
            lemma_first_b(t, e[0]);
            lemma_txt_cut(e, 1);
            lemma_txt_cut(t, k);
            lemma_txt_cut(t, k + 1);
            let r = qargs(from(t, k + 1))->0;
            lemma_qargs_txt(from(t, k + 1));
            assert forall|i: int| 0 <= i < (qargs(e)->0).len() implies txt(#[trigger] (qargs(e)->0)[i]) by {
                if k > 0 { let z = seq![t.subrange(0, k)] + r; if i == 0 { assert(z[0] == t.subrange(0, k)); } else { assert(z[i] == r[i - 1]); } }
            }
        } else { lemma_txt_cut(e, 1); lemma_qargs_txt(from(e, 1)); }
    }
}
pub proof fn lemma_conds_txt(q: Seq<u8>)
    requires txt(q), conds(q) is Some
    ensures forall|i: int| 0 <= i < (conds(q)->0).len() ==> txt(#[trigger] (conds(q)->0)[i])
{
    lemma_trim_txt(q); lemma_trim_txt(trim_l(q, 32));
    let e = trim_r(trim_l(q, 32), 32);
    assert(e.subrange(0, 12)[11] == sbt()[11]);
    assert(e[11] == 40);
    assert(e.len() > 12) by { if e.len() == 12 { assert(e.last() == e[11]); } }
    lemma_txt_cut(e, e.len() - 1);
    let f = e.subrange(0, e.len() - 1);
    assert(f[11] == 40);
    lemma_txt_cut(f, 12);
    assert(from(f, 12) =~= call_args(q));
    lemma_qargs_txt(call_args(q));
}
// whatever the parser gives for the printed text of the terms of an accepted call is the terms again
pub proof fn theorem_round(q: Seq<u8>, t: Seq<gtags_TaggedTerm>)
    requires txt(q), U(), conds(q) is Some, all_ok(conds(q)->0), parsed(conds(q)->0, t), agains(t)
    ensures conds(terms_txt(t)) is Some, all_ok(conds(terms_txt(t))->0), (conds(terms_txt(t))->0).len() == t.len(),
        forall|u: Seq<gtags_TaggedTerm>| #[trigger] parsed(conds(terms_txt(t))->0, u) ==> roundtrip(t, u),
        (forall|i: int| 0 <= i < t.len() ==> txt((#[trigger] t[i]).Value@)) ==> txt(terms_txt(t)),
{
    let c = conds(q)->0;
    lemma_conds_txt(q);
    theorem_print(c, t);
    let b = choose|b: Seq<gtags_TaggedTerm>| all_term(c, b) && #[trigger] b.to_multiset() == t.to_multiset();
    if forall|i: int| 0 <= i < t.len() ==> txt((#[trigger] t[i]).Value@) {
        assert forall|i: int| 0 <= i < t.len() implies txt((#[trigger] t[i]).Key@) && txt(t[i].Value@) && 1 <= t[i].Op <= 4 by {
            let j = lemma_ms_at(t, b, i);
            assert(c_term(c[j], b[j]));
            assert(c_ok(c[j]));
            lemma_key_txt(c[j]);
        }
        lemma_txt_join(t);
        lemma_txt_call(t);
    }
}
