// uses: 10sets.rs
// The text of a class is parsed back to the same class.

// one symbol in front
proof fn lemma_cls_sym(a: int, t: Seq<u8>, st: int, x: int)
    requires rune_ok(a), a != 45
    ensures cls_ok(enc(a) + t, st, false) == cls_ok(t, a, false),
        cls_in(enc(a) + t, st, false, x) == ((st != RERR && x == st) || cls_in(t, a, false, x)),
        st != RERR ==> cls_ok(enc(a) + t, st, true) == (range_ok(st, a) && cls_ok(t, RERR, false)),
        st != RERR ==> cls_in(enc(a) + t, st, true, x) == (st <= x <= a || cls_in(t, RERR, false, x)),
{
    let s = enc(a) + t;
    lemma_dec_enc(a, t);
    lemma_enc_len(a);
    assert(from(s, dec_w(s)) =~= t);
    assert(s[0] == enc(a)[0]);
    assert(s[0] != 45);
}
// a range in front
proof fn lemma_cls_rng(a: int, b: int, t: Seq<u8>, st: int, x: int)
    requires rune_ok(a), rune_ok(b), a != 45, b != 45, a != RERR, range_ok(a, b)
    ensures cls_ok(enc(a).push(45u8) + enc(b) + t, st, false) == cls_ok(t, RERR, false),
        cls_in(enc(a).push(45u8) + enc(b) + t, st, false, x) == ((st != RERR && x == st) || a <= x <= b || cls_in(t, RERR, false, x))
{
    let v = enc(b) + t;
    let u = seq![45u8] + v;
    assert(enc(a).push(45u8) + enc(b) + t =~= enc(a) + u);
    lemma_cls_sym(a, u, st, x);
    lemma_cls_sym(b, t, a, x);
    assert(from(u, 1) =~= v);
    assert(dec_w(u) == 1);
}
// the last single symbol of the text of the symbols before n
pub open spec fn apend(a: Ar<u32, 8>, n: int) -> int decreases n {
    if n <= 1 { RERR }
    else if !ain(a, n - 1) && arun(a, n - 1) != 0 { if n - 2 > arun(a, n - 1) { RERR } else { arun(a, n - 1) } }
    else { apend(a, n - 1) }
}
pub open spec fn alim(a: Ar<u32, 8>, n: int) -> int { if arun(a, n) != 0 { arun(a, n) } else { n } }
pub open spec fn amem(a: Ar<u32, 8>, n: int, x: int) -> bool { ain(a, x) && 1 <= x < alim(a, n) }
// - is only inside of a range
pub open spec fn text_ok(rs: utils_RunesRanges) -> bool {
    &&& !ain(rs.ASCII, 0)
    &&& (ain(rs.ASCII, 45) ==> ain(rs.ASCII, 44) && ain(rs.ASCII, 46))
    &&& forall|i: int| 0 <= i < rs.UnicodeRanges@.len() ==> (#[trigger] rs.UnicodeRanges@[i]).First != RERR && rs.UnicodeRanges@[i].Last != RERR
}
proof fn lemma_arun_start(a: Ar<u32, 8>, n: int)
    ensures arun(a, n) > 1 ==> !ain(a, arun(a, n) - 1)
    decreases n
{ if n > 1 { lemma_arun_start(a, n - 1); lemma_arun(a, n - 1); } }
proof fn lemma_apend(a: Ar<u32, 8>, n: int)
    ensures apend(a, n) == RERR || amem(a, n, apend(a, n))
    decreases n
{
    if n > 1 {
        lemma_apend(a, n - 1); lemma_arun(a, n - 1); lemma_arun(a, n);
    }
}
proof fn lemma_piece(a: Ar<u32, 8>, p: int, q: int, t: Seq<u8>, st: int, x: int)
    requires 1 <= p <= q < 128, p != 45, q != 45
    ensures ({ let e = if q > p { RERR } else { p };
        &&& cls_ok(runtext(p, q) + t, st, false) == cls_ok(t, e, false)
        &&& cls_in(runtext(p, q) + t, st, false, x) == ((st != RERR && x == st) || (q > p && p <= x <= q) || cls_in(t, e, false, x)) })
{
    assert(enc(p) =~= seq![p as u8] && enc(q) =~= seq![q as u8]);
    if q > p {
        assert(runtext(p, q) =~= enc(p).push(45u8) + enc(q));
        lemma_cls_rng(p, q, t, st, x);
    } else {
        lemma_cls_sym(p, t, st, x);
    }
}
proof fn lemma_pend_in(t: Seq<u8>, st: int, isr: bool)
    requires st != RERR, cls_ok(t, st, isr)
    ensures cls_in(t, st, isr, st)
    decreases t.len()
{
    if t.len() > 0 { lemma_dec(t); if t[0] == 45 { lemma_pend_in(from(t, dec_w(t)), st, true); } }
}
proof fn lemma_aruns_parse(rs: utils_RunesRanges, n: int, t: Seq<u8>, x: int)
    requires text_ok(rs), n <= 128, cls_ok(t, apend(rs.ASCII, n), false)
    ensures cls_ok(aruns(rs.ASCII, n) + t, RERR, false),
        cls_in(aruns(rs.ASCII, n) + t, RERR, false, x) == (amem(rs.ASCII, n, x) || cls_in(t, apend(rs.ASCII, n), false, x))
    decreases n
{
    let a = rs.ASCII;
    if n <= 1 {
        assert(aruns(a, n) + t =~= t);
    } else {
        lemma_arun(a, n - 1); lemma_arun(a, n); lemma_apend(a, n - 1); lemma_arun_start(a, n - 1);
        if !ain(a, n - 1) && arun(a, n - 1) != 0 {
            let p = arun(a, n - 1);
            assert(p != 45 && n - 2 != 45);
            assert(aruns(a, n) + t =~= aruns(a, n - 1) + (runtext(p, n - 2) + t));
            lemma_piece(a, p, n - 2, t, apend(a, n - 1), x);
            lemma_aruns_parse(rs, n - 1, runtext(p, n - 2) + t, x);
            assert(ain(a, p));
            if p == n - 2 { lemma_pend_in(t, p, false); }
            if p <= x <= n - 2 { assert(ain(a, x)); }
            assert(amem(a, n, x) == (amem(a, n - 1, x) || p <= x <= n - 2));
        } else {
            lemma_aruns_parse(rs, n - 1, t, x);
            assert(amem(a, n, x) == amem(a, n - 1, x));
        }
    }
}
pub open spec fn upend(u: Seq<utils_RuneRange>, n: int, st: int) -> int {
    if n <= 0 { st } else if u[n - 1].First == u[n - 1].Last { u[n - 1].First as int } else { RERR }
}
proof fn lemma_utext_parse(rs: utils_RunesRanges, n: int, t: Seq<u8>, st: int, x: int)
    requires rok(rs), text_ok(rs), 0 <= n <= rs.UnicodeRanges@.len(), cls_ok(t, upend(rs.UnicodeRanges@, n, st), false)
    ensures cls_ok(utext(rs.UnicodeRanges@, n) + t, st, false),
        cls_in(utext(rs.UnicodeRanges@, n) + t, st, false, x)
            == ((n > 0 && st != RERR && x == st) || uin(rs.UnicodeRanges@.subrange(0, n), x) || cls_in(t, upend(rs.UnicodeRanges@, n, st), false, x))
    decreases n
{
    let u = rs.UnicodeRanges@;
    if n <= 0 {
        assert(utext(u, n) + t =~= t);
    } else {
        let r = u[n - 1];
        assert(rr_ok(r));
        let e = upend(u, n - 1, st);
        assert(utext(u, n) + t =~= utext(u, n - 1) + (rtext(r) + t));
        if r.First == r.Last { lemma_cls_sym(r.First as int, t, e, x); lemma_pend_in(t, r.First as int, false); }
        else { lemma_cls_rng(r.First as int, r.Last as int, t, e, x); }
        lemma_utext_parse(rs, n - 1, rtext(r) + t, st, x);
        assert(u.subrange(0, n) =~= u.subrange(0, n - 1).push(r));
        lemma_uin_push(u.subrange(0, n - 1), r);
        if n - 1 > 0 && e != RERR && x == e {
            assert(rr_in(u[n - 2], x)); assert(rr_in(u.subrange(0, n - 1)[n - 2], x));
        }
    }
}
// the text of a class is a class of the same symbols
proof fn lemma_class_text1(rs: utils_RunesRanges, x: int)
    requires rok(rs), text_ok(rs)
    ensures class_ok(rstext(rs)), class_in(rstext(rs), x) == rin(rs, x)
{
    let a = rs.ASCII;
    let u = rs.UnicodeRanges@;
    let n = u.len() as int;
    let s = rstext(rs);
    let i = s.subrange(1, s.len() - 1);
    assert(i =~= atext(a) + utext(u, n));
    let ut = utext(u, n);
    assert(ut + Seq::<u8>::empty() =~= ut);
    let p = arun(a, 128);
    lemma_arun(a, 128); lemma_arun_start(a, 128); lemma_apend(a, 128);
    let st = if p == 0 { apend(a, 128) } else if p < 127 { RERR } else { p };
    lemma_utext_parse(rs, n, Seq::empty(), st, x);
    assert(u.subrange(0, n) =~= u);
    if p != 0 {
        assert(i =~= aruns(a, 128) + (runtext(p, 127) + ut));
        lemma_piece(a, p, 127, ut, apend(a, 128), x);
        lemma_aruns_parse(rs, 128, runtext(p, 127) + ut, x);
        assert(ain(a, p));
    } else {
        assert(i =~= aruns(a, 128) + ut);
        lemma_aruns_parse(rs, 128, ut, x);
    }
    if n > 0 { assert(rr_ok(u[n - 1])); assert(rr_in(u[n - 1], u[n - 1].First as int)); }
    if x < 128 {
        assert(!uin(u, x)) by { assert forall|k: int| 0 <= k < u.len() implies !rr_in(#[trigger] u[k], x) by { assert(rr_ok(u[k])); } }
        if p != 0 && p <= x { assert(ain(a, x)); }
    }
}
pub proof fn lemma_class_text(rs: utils_RunesRanges)
    requires rok(rs), text_ok(rs)
    ensures class_ok(rstext(rs)), forall|x: int| #[trigger] class_in(rstext(rs), x) == rin(rs, x)
{
    lemma_class_text1(rs, 0);
    assert forall|x: int| #[trigger] class_in(rstext(rs), x) == rin(rs, x) by { lemma_class_text1(rs, x); }
}
// what is not written in a class is only inside of a range of it
proof fn lemma_cls_inner(s: Seq<u8>, st: int, isr: bool, v: int)
    requires cls_in(s, st, isr, v), cls_ok(s, st, isr), st != v, v == 45
    ensures cls_in(s, st, isr, v - 1), cls_in(s, st, isr, v + 1)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s);
        lemma_dec_hi(s);
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { lemma_cls_inner(t, st, true, v); }
        else if isr && st != RERR {
            assert(c != v);
            if !(st <= v <= c) { lemma_cls_inner(t, RERR, false, v); }
        } else { lemma_cls_inner(t, c, false, v); }
    }
}
proof fn lemma_cls_zero(s: Seq<u8>, st: int, isr: bool)
    requires cls_in(s, st, isr, 0), st != 0, st >= 0, !syms_in(s, 0)
    ensures false
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s);
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { lemma_cls_zero(t, st, true); }
        else if isr && st != RERR { if !(st <= 0 <= c) { lemma_cls_zero(t, RERR, false); } }
        else { lemma_cls_zero(t, c, false); }
    }
}
// a parsed class without NUL and invalid symbols is parsed back from its text
pub proof fn lemma_class_roundtrip(s: Seq<u8>, rs: utils_RunesRanges)
    requires class_ok(s), rok(rs), forall|x: int| #[trigger] rin(rs, x) == class_in(s, x),
        !syms_in(s.subrange(1, s.len() - 1), 0), !syms_in(s.subrange(1, s.len() - 1), RERR)
    ensures class_ok(rstext(rs)), forall|x: int| #[trigger] class_in(rstext(rs), x) == class_in(s, x)
{
    let i = s.subrange(1, s.len() - 1);
    let u = rs.UnicodeRanges@;
    assert(text_ok(rs)) by {
        if rin(rs, 0) { lemma_cls_zero(i, RERR, false); }
        if rin(rs, 45) { lemma_cls_inner(i, RERR, false, 45); assert(rin(rs, 44) && rin(rs, 46)); }
        assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k]).First != RERR && u[k].Last != RERR by {
            assert(rr_ok(u[k]));
            if u[k].First == RERR || u[k].Last == RERR {
                assert(rr_in(u[k], RERR));
                assert(uin(u, RERR) && rin(rs, RERR));
                lemma_no_pend(i, RERR, false);
                assert(rin(rs, RERR - 1) && rin(rs, RERR + 1));
                if u[k].First == RERR {
                    let m = choose|m: int| 0 <= m < u.len() && rr_in(#[trigger] u[m], RERR - 1);
                    assert(rr_ok(u[m]));
                    if m < k { assert(rr_before(u[m], u[k])); } else if m > k { assert(rr_before(u[k], u[m])); }
                } else {
                    let m = choose|m: int| 0 <= m < u.len() && rr_in(#[trigger] u[m], RERR + 1);
                    assert(rr_ok(u[m]));
                    if m < k { assert(rr_before(u[m], u[k])); } else if m > k { assert(rr_before(u[k], u[m])); }
                }
            }
        }
    }
    lemma_class_text(rs);
}
// as lemma_cls_inner for RERR, which also marks that nothing is pending
proof fn lemma_no_pend(s: Seq<u8>, st: int, isr: bool)
    requires cls_in(s, st, isr, RERR), cls_ok(s, st, isr), !syms_in(s, RERR)
    ensures cls_in(s, st, isr, RERR - 1), cls_in(s, st, isr, RERR + 1)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_dec(s);
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { lemma_no_pend(t, st, true); }
        else if isr && st != RERR { assert(c != RERR); if !(st <= RERR <= c) { lemma_no_pend(t, RERR, false); } }
        else { lemma_no_pend(t, c, false); }
    }
}
