// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs
// Tags expressions.

// ---- what a term asks of a value
pub open spec fn neg(op: int) -> bool { op == 3 || op == 4 }
pub open spec fn teq(t: gtags_TaggedTerm, v: Seq<u8>) -> bool { if t.HasWildcard { glang(t.Glob, v) } else { v == t.Value@ } }
pub open spec fn tsat(t: gtags_TaggedTerm, v: Seq<u8>) -> bool {
    if t.Op == 1 { teq(t, v) } else if t.Op == 3 { !teq(t, v) } else if t.Op == 2 { re_match(t.Re, v) } else { !re_match(t.Re, v) }
}
pub open spec fn wft(t: gtags_TaggedTerm) -> bool { 1 <= t.Op <= 4 && (t.HasWildcard && (t.Op == 1 || t.Op == 3) ==> wfg(t.Glob)) }
pub open spec fn wfts(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int| 0 <= i < t.len() ==> wft(#[trigger] t[i]) }
// a term is satisfied by a set of tags
pub open spec fn msat(t: gtags_TaggedTerm, m: Map<Str, Str>) -> bool { if m.contains_key(t.Key) { tsat(t, m[t.Key]@) } else { neg(t.Op as int) } }
pub open spec fn allsat(t: Seq<gtags_TaggedTerm>, m: Map<Str, Str>) -> bool { forall|i: int| 0 <= i < t.len() ==> msat(#[trigger] t[i], m) }
// the set of tags of a slice
pub open spec fn tgs(t: Seq<gtags_Tag>) -> Map<Str, Str> decreases t.len() { if t.len() == 0 { Map::empty() } else { tgs(t.drop_last()).insert(t.last().Key, t.last().Value) } }

pub open spec fn kname() -> Seq<u8> { seq![95u8, 95, 110, 97, 109, 101, 95, 95] }
// ---- order of the keys
pub open spec fn klt(a: Seq<u8>, b: Seq<u8>) -> bool { a != b && (a == kname() || (b != kname() && sq_lt(a, b))) }
pub open spec fn tags_ord(t: Seq<gtags_Tag>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> klt((#[trigger] t[i]).Key@, (#[trigger] t[j]).Key@) }
pub open spec fn terms_ord(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> !klt((#[trigger] t[j]).Key@, (#[trigger] t[i]).Key@) }
pub proof fn lemma_lt_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires sq_lt(a, b), sq_lt(b, c)
    ensures sq_lt(a, c)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_lt_trans(from(a, 1), from(b, 1), from(c, 1));
    }
}
pub proof fn lemma_lt_total(a: Seq<u8>, b: Seq<u8>)
    ensures sq_lt(a, b) || sq_lt(b, a) || a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lt_total(from(a, 1), from(b, 1));
        if from(a, 1) == from(b, 1) { assert(a =~= seq![a[0]] + from(a, 1)); assert(b =~= seq![b[0]] + from(b, 1)); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
// sq_lt is a strict total order
pub proof fn lemma_lt_order()
    ensures forall|a: Seq<u8>| !#[trigger] sq_lt(a, a),
        forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] sq_lt(a, b) && #[trigger] sq_lt(b, c) ==> sq_lt(a, c),
        forall|a: Seq<u8>, b: Seq<u8>| #![trigger sq_lt(a, b)] sq_lt(a, b) || sq_lt(b, a) || a == b,
{
    assert forall|a: Seq<u8>| !#[trigger] sq_lt(a, a) by { lemma_lt_irrefl(a); }
    assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #[trigger] sq_lt(a, b) && #[trigger] sq_lt(b, c) implies sq_lt(a, c) by { lemma_lt_trans(a, b, c); }
    assert forall|a: Seq<u8>, b: Seq<u8>| #![trigger sq_lt(a, b)] sq_lt(a, b) || sq_lt(b, a) || a == b by { lemma_lt_total(a, b); }
}
pub proof fn lemma_klt(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures !klt(a, a), klt(a, b) && klt(b, c) ==> klt(a, c), klt(a, b) || klt(b, a) || a == b, klt(a, b) ==> !klt(b, a),
        klt(a, b) && !klt(c, b) ==> klt(a, c),
{
    lemma_lt_irrefl(a); lemma_lt_total(a, b); lemma_lt_total(b, c); lemma_lt_total(a, c);
    if sq_lt(a, b) && sq_lt(b, c) { lemma_lt_trans(a, b, c); }
    if sq_lt(a, b) && sq_lt(b, a) { lemma_lt_trans(a, b, a); }
    if sq_lt(a, b) && sq_lt(c, b) { }
}
// ---- the tags of a slice as a set
pub open spec fn tkey(t: Seq<gtags_Tag>, k: Str) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).Key == k }
pub proof fn lemma_tgs(t: Seq<gtags_Tag>, k: Str)
    requires tags_ord(t)
    ensures tgs(t).contains_key(k) == tkey(t, k), forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).Key == k ==> tgs(t)[k] == t[i].Value
    decreases t.len()
{
    if t.len() > 0 {
        let u = t.drop_last();
        lemma_tgs(u, k);
        if t.last().Key == k { assert(t[t.len() - 1].Key == k); } 
        if tkey(u, k) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).Key == k; assert(t[i].Key == k); }
        if tkey(t, k) && t.last().Key != k { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).Key == k; assert(u[i].Key == k); }
        assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).Key == k implies tgs(t)[k] == t[i].Value by {
            if i < u.len() { assert(u[i].Key == k); assert(klt(t[i].Key@, t[t.len() - 1].Key@)); }
        }
    }
}
// the tags before i have keys below the keys of the terms from x on
pub open spec fn below(t: Seq<gtags_Tag>, i: int, r: Seq<gtags_TaggedTerm>, x: int) -> bool { forall|k: int, j: int| 0 <= k < i && x <= j < r.len() ==> klt((#[trigger] t[k]).Key@, (#[trigger] r[j]).Key@) }
pub proof fn lemma_below_next(t: Seq<gtags_Tag>, i: int, r: Seq<gtags_TaggedTerm>, x: int, n: int)
    requires below(t, i, r, x), tags_ord(t), terms_ord(r), 0 <= x < r.len(), 0 <= i <= n < t.len(), t[n].Key == r[x].Key
    ensures below(t, n, r, x + 1), below(t, n, r, x)
{
    assert forall|k: int, j: int| 0 <= k < n && x <= j < r.len() implies klt((#[trigger] t[k]).Key@, (#[trigger] r[j]).Key@) by {
        assert(klt(t[k].Key@, t[n].Key@));
        lemma_klt(t[k].Key@, t[n].Key@, r[j].Key@);
        if j == x { } else { assert(!klt(r[j].Key@, r[x].Key@)); }
    }
}
pub proof fn lemma_below_none(t: Seq<gtags_Tag>, i: int, r: Seq<gtags_TaggedTerm>, x: int)
    requires below(t, i, r, x), tags_ord(t), 0 <= x < r.len(), 0 <= i, forall|k: int| i <= k < t.len() ==> (#[trigger] t[k]).Key != r[x].Key
    ensures !tkey(t, r[x].Key)
{
    if tkey(t, r[x].Key) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).Key == r[x].Key; assert(k < i); assert(klt(t[k].Key@, r[x].Key@)); }
}
// a map with the same tags gives the same answer
pub proof fn theorem_same_tags(r: Seq<gtags_TaggedTerm>, t: Seq<gtags_Tag>, m: Map<Str, Str>)
    requires tags_ord(t), forall|k: Str| #[trigger] m.contains_key(k) == tkey(t, k), forall|i: int| 0 <= i < t.len() ==> m[(#[trigger] t[i]).Key] == t[i].Value
    ensures allsat(r, m) == allsat(r, tgs(t))
{
    assert forall|i: int| 0 <= i < r.len() implies msat(#[trigger] r[i], m) == msat(r[i], tgs(t)) by {
        let k = r[i].Key;
        lemma_tgs(t, k);
        if tkey(t, k) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).Key == k; }
    }
}

// ---- the text of an expression
pub open spec fn opstr(op: int) -> Seq<u8> { if op == 1 { seq![61u8] } else if op == 2 { seq![61u8, 126] } else if op == 3 { seq![33u8, 61] } else { seq![33u8, 61, 126] } }
pub open spec fn ttxt(t: gtags_TaggedTerm) -> Seq<u8> { t.Key@ + opstr(t.Op as int) + t.Value@ }
pub open spec fn tjoin(t: Seq<gtags_TaggedTerm>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { tjoin(t.drop_last()) + (if t.len() > 1 { seq![44u8] } else { Seq::empty() }) + (seq![39u8] + ttxt(t.last())).push(39u8) }
}
pub open spec fn sbt() -> Seq<u8> { seq![115u8, 101, 114, 105, 101, 115, 66, 121, 84, 97, 103, 40] }
pub open spec fn terms_txt(t: Seq<gtags_TaggedTerm>) -> Seq<u8> { (sbt() + tjoin(t)).push(41u8) }
pub open spec fn opsok(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int| 0 <= i < t.len() ==> 1 <= (#[trigger] t[i]).Op <= 4 }

// ---- the quoted arguments
pub open spec fn qargs(e: Seq<u8>) -> Option<Seq<Seq<u8>>> decreases e.len() via qargs_dec {
    if e.len() == 0 { Some(Seq::empty()) }
    else if e[0] == 39 || e[0] == 34 {
        let t = from(e, 1);
        let k = first_b(t, e[0]);
        if k >= t.len() { None } else {
            match qargs(from(t, k + 1)) { None => None, Some(r) => Some(if k == 0 { r } else { seq![t.subrange(0, k)] + r }) }
        }
    }
    else if e[0] == 32 || e[0] == 44 { qargs(from(e, 1)) }
    else { None }
}
#[via_fn]
proof fn qargs_dec(e: Seq<u8>) { if e.len() > 0 { lemma_first_b(from(e, 1), e[0]); } }
// the inside of the call
pub open spec fn call_ok(q: Seq<u8>) -> bool { let e = trim_r(trim_l(q, 32), 32); starts(e, sbt()) && e.last() == 41 }
pub open spec fn call_args(q: Seq<u8>) -> Seq<u8> { let e = trim_r(trim_l(q, 32), 32); e.subrange(12, e.len() - 1) }
// the conditions of a call
pub open spec fn conds(q: Seq<u8>) -> Option<Seq<Seq<u8>>> { if !call_ok(q) { None } else { match qargs(call_args(q)) { None => None, Some(c) => if c.len() > 128 { None } else { Some(c) } } } }
// the arguments read so far
#[verifier::opaque]
pub open spec fn qst(all: Option<Seq<Seq<u8>>>, done: Seq<Str>, n: int, e: Seq<u8>) -> bool {
    &&& 0 <= n <= done.len()
    &&& (all is None) == (qargs(e) is None)
    &&& qargs(e) is Some ==> all->0 == sv(done.subrange(0, n)) + qargs(e)->0
    &&& forall|i: int| 0 <= i < n ==> txt((#[trigger] done[i])@)
    &&& txt(e)
}
pub open spec fn sv(a: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(a.len(), |i: int| a[i]@) }
pub proof fn lemma_trim_txt(s: Seq<u8>)
    requires txt(s)
    ensures txt(trim_l(s, 32)), txt(trim_r(s, 32))
    decreases s.len()
{
    if s.len() > 0 {
        if s[0] == 32 { lemma_txt_cut(s, 1); lemma_trim_txt(from(s, 1)); }
        if s.last() == 32 { lemma_txt_cut(s, s.len() - 1); assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); lemma_trim_txt(s.drop_last()); }
    }
}
pub proof fn lemma_q0(q: Seq<u8>, a: Seq<Str>)
    requires txt(q), call_ok(q)
    ensures qst(qargs(call_args(q)), a, 0, call_args(q)), trim_r(trim_l(q, 32), 32).len() > 12
{
    reveal(qst);
    lemma_trim_txt(q); lemma_trim_txt(trim_l(q, 32));
    let e = trim_r(trim_l(q, 32), 32);
    assert(e.subrange(0, 12)[11] == sbt()[11]);
    assert(e[11] == 40);
    lemma_txt_cut(e, e.len() - 1);
    let f = e.subrange(0, e.len() - 1);
    assert(f[11] == 40);
    lemma_txt_cut(f, 12);
    assert(from(f, 12) =~= call_args(q));
    assert(sv(a.subrange(0, 0)) + qargs(call_args(q))->0 =~= qargs(call_args(q))->0);
}
pub proof fn lemma_q_skip(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int, e: Seq<u8>)
    requires qst(all, a, n, e), e.len() > 0, e[0] == 32 || e[0] == 44
    ensures qst(all, a, n, from(e, 1))
{ reveal(qst); lemma_txt_cut(e, 1); }
pub proof fn lemma_q_empty(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int, e: Seq<u8>)
    requires qst(all, a, n, e), e.len() > 0, e[0] == 39 || e[0] == 34, first_b(from(e, 1), e[0]) == 0, from(e, 1).len() > 0
    ensures qst(all, a, n, from(from(e, 1), 1))
{ reveal(qst); lemma_first_b(from(e, 1), e[0]); lemma_txt_cut(e, 1); lemma_txt_cut(from(e, 1), 1); }
pub proof fn lemma_q_arg(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int, e: Seq<u8>, x: Str)
    requires qst(all, a, n, e), e.len() > 0, e[0] == 39 || e[0] == 34, 0 < first_b(from(e, 1), e[0]) < from(e, 1).len(), x@ == from(e, 1).subrange(0, first_b(from(e, 1), e[0]))
    ensures n < a.len() ==> qst(all, a.update(n, x), n + 1, from(from(e, 1), first_b(from(e, 1), e[0]) + 1))
{
    reveal(qst);
    let t = from(e, 1);
    let k = first_b(t, e[0]);
    lemma_first_b(t, e[0]);
    lemma_txt_cut(e, 1);
    lemma_txt_cut(t, k);
    lemma_txt_cut(t, k + 1);
    if n < a.len() {
        let b = a.update(n, x);
        assert forall|i: int| 0 <= i < n + 1 implies txt((#[trigger] b[i])@) by { if i < n { assert(b[i] == a[i]); } }
        if qargs(e) is Some {
            let r = qargs(from(t, k + 1))->0;
            assert(sv(b.subrange(0, n + 1)) + r =~= sv(a.subrange(0, n)) + (seq![x@] + r));
        }
    }
}
pub proof fn lemma_q_over(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int, e: Seq<u8>)
    requires qst(all, a, n, e), e.len() > 0, e[0] == 39 || e[0] == 34, 0 < first_b(from(e, 1), e[0]) < from(e, 1).len()
    ensures all is None || (all->0).len() > n
{ reveal(qst); lemma_first_b(from(e, 1), e[0]); if qargs(e) is Some { assert(sv(a.subrange(0, n)).len() == n); } }
pub proof fn lemma_q_bad(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int, e: Seq<u8>)
    requires qst(all, a, n, e), qargs(e) is None
    ensures all is None
{ reveal(qst); }
pub proof fn lemma_q_end(all: Option<Seq<Seq<u8>>>, a: Seq<Str>, n: int)
    requires qst(all, a, n, Seq::empty())
    ensures all is Some, all->0 == sv(a.subrange(0, n)), forall|i: int| 0 <= i < n ==> txt((#[trigger] a[i])@)
{ reveal(qst); assert(sv(a.subrange(0, n)) + Seq::<Seq<u8>>::empty() =~= sv(a.subrange(0, n))); }

// ---- a condition
pub open spec fn isop(b: u8) -> bool { b == 61 || b == 126 || b == 33 }
pub open spec fn first_op(c: Seq<u8>) -> int decreases c.len() { if c.len() == 0 { 0 } else if isop(c[0]) { 0 } else { 1 + first_op(from(c, 1)) } }
pub open spec fn c_key(c: Seq<u8>) -> Seq<u8> { let k = trim_space(c.subrange(0, first_op(c))); if k == seq![110u8, 97, 109, 101] { kname() } else { k } }
pub open spec fn c_rest(c: Seq<u8>) -> Seq<u8> { from(c, first_op(c)) }
pub open spec fn c_op(c: Seq<u8>) -> int {
    let r = c_rest(c);
    if starts(r, opstr(2)) { 2 } else if starts(r, opstr(1)) { 1 } else if starts(r, opstr(4)) { 4 } else if starts(r, opstr(3)) { 3 } else { 0 }
}
pub open spec fn c_val(c: Seq<u8>) -> Seq<u8> { trim_space(from(c_rest(c), opstr(c_op(c)).len() as int)) }
pub open spec fn c_ok(c: Seq<u8>) -> bool {
    0 < first_op(c) < c.len() && trim_space(c.subrange(0, first_op(c))).len() > 0 && c_op(c) != 0
    && (if c_op(c) == 2 || c_op(c) == 4 { re_ok(c_val(c)) } else { tw(c_val(c)) })
}
// what a condition asks of a value
pub open spec fn c_sat(c: Seq<u8>, v: Seq<u8>) -> bool {
    if c_op(c) == 1 { acc(c_val(c), v) } else if c_op(c) == 3 { !acc(c_val(c), v) } else if c_op(c) == 2 { re_match(re_of(c_val(c)), v) } else { !re_match(re_of(c_val(c)), v) }
}
// the term of a condition
pub open spec fn c_term(c: Seq<u8>, t: gtags_TaggedTerm) -> bool {
    &&& t.Key@ == c_key(c) && t.Op == c_op(c) && 1 <= t.Op <= 4
    &&& U() ==> wft(t)
    &&& (c_op(c) == 2 || c_op(c) == 4 ==> t.Value@ == c_val(c) && t.Re == re_of(c_val(c)))
    &&& nowild(c_val(c)) ==> t.Value@ == c_val(c) && !t.HasWildcard
    &&& t.HasWildcard ==> (t.Op == 1 || t.Op == 3) && gshape(t.Glob) && t.Value@ == t.Glob.Node@
    &&& U() && N() ==> forall|v: Seq<u8>| #[trigger] tsat(t, v) == c_sat(c, v)
}
pub open spec fn all_ok(c: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < c.len() ==> c_ok(#[trigger] c[i]) }
pub open spec fn all_term(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>) -> bool { t.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> c_term(c[i], #[trigger] t[i]) }
pub open spec fn tless(a: gtags_TaggedTerm, b: gtags_TaggedTerm) -> bool {
    if a.Key@ == b.Key@ { if a.Op == b.Op { sq_lt(a.Value@, b.Value@) } else { a.Op < b.Op } } else { klt(a.Key@, b.Key@) }
}
pub open spec fn tsorted(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> !tless(#[trigger] t[j], #[trigger] t[i]) }
// the terms of conditions, in order
pub open spec fn parsed(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>) -> bool {
    tsorted(t) && exists|b: Seq<gtags_TaggedTerm>| all_term(c, b) && #[trigger] b.to_multiset() == t.to_multiset()
}
// ---- trimming of spaces
pub proof fn lemma_tsl_txt(s: Seq<u8>)
    requires txt(s)
    ensures txt(ts_l(s)), ts_l(s).len() <= s.len()
    decreases s.len()
{
    lemma_dec(s);
    if s.len() > 0 && is_space(dec_c(s)) && 0 < dec_w(s) <= s.len() {
        assert forall|i: int| 0 <= i < from(s, dec_w(s)).len() implies #[trigger] from(s, dec_w(s))[i] == s[i + dec_w(s)] by {}
        lemma_tsl_txt(from(s, dec_w(s)));
    }
}
pub proof fn lemma_ok8_pre(s: Seq<u8>, k: int)
    requires ok8(s), 0 <= k <= s.len(), k < s.len() ==> !is_cont(s[k])
    ensures ok8(s.subrange(0, k))
    decreases s.len()
{
    if k > 0 {
        lemma_bnd_start(s, k);
        lemma_dec(s);
        let w = dec_w(s);
        let t = from(s, w);
        let h = s.subrange(0, k);
        if k < s.len() { assert(t[k - w] == s[k]); }
        lemma_ok8_pre(t, k - w);
        assert(dec_ok(h) && dec_w(h) == w) by {
            assert(h[0] == s[0]);
            if w > 1 { assert(h[1] == s[1]); }
            if w > 2 { assert(h[2] == s[2]); }
            if w > 3 { assert(h[3] == s[3]); }
        }
        assert(from(h, w) =~= t.subrange(0, k - w));
    }
}
pub proof fn lemma_tsr_txt(s: Seq<u8>)
    requires txt(s)
    ensures txt(ts_r(s)), ts_r(s).len() <= s.len()
    decreases s.len()
{
    if exists|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k))) {
        let k = choose|k: int| #[trigger] last_is(s, k) && is_space(dec_c(from(s, s.len() - k)));
        let h = s.subrange(0, s.len() - k);
        assert(from(s, s.len() - k)[0] == s[s.len() - k]);
        if U() { lemma_ok8_pre(s, s.len() - k); }
        assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] == s[i] by {}
        lemma_tsr_txt(h);
    }
}
pub proof fn lemma_ts_txt(s: Seq<u8>)
    requires txt(s)
    ensures txt(trim_space(s)), trim_space(s).len() <= s.len()
{ lemma_tsl_txt(s); lemma_tsr_txt(ts_l(s)); }
pub proof fn lemma_first_op(c: Seq<u8>)
    ensures 0 <= first_op(c) <= c.len(), first_op(c) < c.len() ==> isop(c[first_op(c)]), forall|i: int| 0 <= i < first_op(c) ==> !isop(#[trigger] c[i])
    decreases c.len()
{
    if c.len() > 0 && !isop(c[0]) {
        let t = from(c, 1);
        lemma_first_op(t);
        assert forall|i: int| 0 <= i < first_op(c) implies !isop(#[trigger] c[i]) by { if i > 0 { assert(!isop(t[i - 1])); } }
    }
}
// the texts of a condition
pub proof fn lemma_c_txt(c: Seq<u8>)
    requires txt(c), first_op(c) < c.len(), c_op(c) != 0
    ensures txt(c_val(c)), txt(c_rest(c))
{
    lemma_first_op(c);
    lemma_txt_cut(c, first_op(c));
    let r = c_rest(c);
    let n = opstr(c_op(c)).len() as int;
    assert(starts(r, opstr(c_op(c))));
    assert(r.subrange(0, n)[n - 1] == opstr(c_op(c))[n - 1]);
    assert(r[n - 1] < 0x80);
    lemma_txt_cut(r, n);
    lemma_ts_txt(from(r, n));
}
// the terms built so far
#[verifier::opaque]
pub open spec fn ctst(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>, n: int) -> bool {
    t.len() == c.len() && 0 <= n <= c.len() && forall|i: int| 0 <= i < n ==> c_ok(c[i]) && c_term(c[i], #[trigger] t[i])
}
pub proof fn lemma_ctst0(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>)
    requires t.len() == c.len()
    ensures ctst(c, t, 0)
{ reveal(ctst); }
pub proof fn lemma_ctst_step(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>, n: int, u: Seq<gtags_TaggedTerm>)
    requires ctst(c, t, n), n < c.len(), u.len() == t.len(), c_ok(c[n]), c_term(c[n], u[n]), forall|i: int| 0 <= i < n ==> #[trigger] u[i] == t[i]
    ensures ctst(c, u, n + 1)
{ hide(c_ok); hide(c_term); reveal(ctst);
    assert(u.len() == c.len());
    assert(0 <= n + 1 <= c.len());
    assert forall|i: int| 0 <= i < n + 1 implies c_ok(c[i]) by { if i < n { let v = t[i]; assert(c_term(c[i], v)); } else { assert(i == n); } }
    assert forall|i: int| 0 <= i < n + 1 implies c_term(c[i], #[trigger] u[i]) by { if i < n { let v = t[i]; assert(u[i] == v); assert(c_term(c[i], v)); } else { assert(i == n); } }
}
pub proof fn lemma_ctst_end(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>)
    requires ctst(c, t, c.len() as int)
    ensures all_ok(c), all_term(c, t)
{ hide(c_ok); hide(c_term); reveal(ctst); assert forall|i: int| 0 <= i < c.len() implies c_ok(#[trigger] c[i]) by { assert(c_term(c[i], t[i])); } }
// what a term which holds its parsed value asks
pub proof fn lemma_c_term(c: Seq<u8>, t: gtags_TaggedTerm)
    requires c_op(c) != 0, t.Key@ == c_key(c), t.Op == c_op(c),
        c_op(c) == 2 || c_op(c) == 4 ==> t.Value@ == c_val(c) && t.Re == re_of(c_val(c)) && !t.HasWildcard,
        c_op(c) == 1 || c_op(c) == 3 ==> (if nowild(c_val(c)) { t.Value@ == c_val(c) && !t.HasWildcard } else { if t.HasWildcard { gshape(t.Glob) && t.Value@ == t.Glob.Node@ && (U() ==> wfg(t.Glob)) && (U() && N() ==> glok(c_val(c), t.Glob)) } else { U() && N() ==> forall|v: Seq<u8>| acc(c_val(c), v) == (v == t.Value@) } })
    ensures c_term(c, t)
{
    if U() && N() {
        assert forall|v: Seq<u8>| #[trigger] tsat(t, v) == c_sat(c, v) by {
            if c_op(c) == 1 || c_op(c) == 3 {
                if nowild(c_val(c)) { lemma_acc_empty(c_val(c), v); }
                else if t.HasWildcard { assert(glang(t.Glob, v) == acc(c_val(c), v)); }
            }
        }
    }
}
pub proof fn lemma_parsed0(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>)
    requires c.len() == 0, t.len() == 0
    ensures all_ok(c), parsed(c, t)
{ assert(all_term(c, t)); assert(t.to_multiset() == t.to_multiset()); }
// ---- what a parsed expression accepts
// a condition is satisfied by a set of tags
pub open spec fn cms(c: Seq<u8>, m: Map<Str, Str>) -> bool {
    if exists|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(c) { exists|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(c) && c_sat(c, m[k]@) } else { neg(c_op(c)) }
}
pub open spec fn allcms(c: Seq<Seq<u8>>, m: Map<Str, Str>) -> bool { forall|i: int| 0 <= i < c.len() ==> cms(#[trigger] c[i], m) }
pub proof fn lemma_ms_at(a: Seq<gtags_TaggedTerm>, b: Seq<gtags_TaggedTerm>, i: int) -> (j: int)
    requires a.to_multiset() == b.to_multiset(), 0 <= i < a.len()
    ensures 0 <= j < b.len(), b[j] == a[i]
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.contains(a[i]));
    assert(a.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
    choose|j: int| 0 <= j < b.len() && b[j] == a[i]
}
pub proof fn lemma_cms(c: Seq<u8>, t: gtags_TaggedTerm, m: Map<Str, Str>)
    requires c_term(c, t), U(), N()
    ensures msat(t, m) == cms(c, m)
{
    if m.contains_key(t.Key) {
        assert(tsat(t, m[t.Key]@) == c_sat(c, m[t.Key]@));
        if cms(c, m) { let k = choose|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(c) && c_sat(c, m[k]@); assert(k == t.Key); }
    } else {
        if exists|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(c) { let k = choose|k: Str| #[trigger] m.contains_key(k) && k@ == c_key(c); assert(k == t.Key); }
    }
}
pub proof fn theorem_terms(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>, m: Map<Str, Str>)
    requires parsed(c, t), U(), N()
    ensures wfts(t), terms_ord(t), opsok(t), allsat(t, m) == allcms(c, m), t.len() == c.len()
{
    let b = choose|b: Seq<gtags_TaggedTerm>| all_term(c, b) && #[trigger] b.to_multiset() == t.to_multiset();
    b.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|i: int| 0 <= i < t.len() implies wft(#[trigger] t[i]) by { let j = lemma_ms_at(t, b, i); assert(c_term(c[j], b[j])); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !klt((#[trigger] t[j]).Key@, (#[trigger] t[i]).Key@) by { assert(!tless(t[j], t[i])); }
    if allsat(t, m) {
        assert forall|i: int| 0 <= i < c.len() implies cms(#[trigger] c[i], m) by { let j = lemma_ms_at(b, t, i); assert(c_term(c[i], b[i])); lemma_cms(c[i], b[i], m); assert(msat(t[j], m)); }
    }
    if allcms(c, m) {
        assert forall|i: int| 0 <= i < t.len() implies msat(#[trigger] t[i], m) by { let j = lemma_ms_at(t, b, i); assert(c_term(c[j], b[j])); lemma_cms(c[j], b[j], m); assert(cms(c[j], m)); }
    }
}
