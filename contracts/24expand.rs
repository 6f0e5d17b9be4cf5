// uses: 10sets.rs 13store.rs
// Shell expansions.

// ---- ranges of symbols
pub open spec fn em(rs: Seq<expand_runes>, n: int, x: int) -> bool decreases n {
    n > 0 && (em(rs, n - 1, x) || rs[n - 1].start <= x <= rs[n - 1].stop)
}
pub open spec fn evr(r: expand_runes) -> bool { 0 <= r.start <= r.stop <= 0x10FFFF && r.start != RERR }
pub open spec fn evrs(rs: Seq<expand_runes>) -> bool { forall|k: int| 0 <= k < rs.len() ==> evr(#[trigger] rs[k]) }
// ascending, with gaps
pub open spec fn eord(rs: Seq<expand_runes>, n: int) -> bool { forall|a: int, b: int| 0 <= a < b < n ==> (#[trigger] rs[a]).stop + 1 < (#[trigger] rs[b]).start }
pub proof fn lemma_em(rs: Seq<expand_runes>, n: int, x: int)
    requires n <= rs.len()
    ensures em(rs, n, x) == exists|k: int| 0 <= k < n && (#[trigger] rs[k]).start <= x <= rs[k].stop
    decreases n
{
    if n > 0 {
        lemma_em(rs, n - 1, x);
        if em(rs, n - 1, x) { let k = choose|k: int| 0 <= k < n - 1 && (#[trigger] rs[k]).start <= x <= rs[k].stop; assert(rs[k].start <= x <= rs[k].stop); }
        if rs[n - 1].start <= x <= rs[n - 1].stop { assert(rs[n - 1].start <= x); }
    }
}
pub proof fn lemma_em_same(a: Seq<expand_runes>, b: Seq<expand_runes>, n: int, x: int)
    requires n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> (#[trigger] a[k]).start == b[k].start && a[k].stop == b[k].stop
    ensures em(a, n, x) == em(b, n, x)
    decreases n
{ if n > 0 { lemma_em_same(a, b, n - 1, x); assert(a[n - 1].start == b[n - 1].start); } }
pub proof fn lemma_em_sort(a: Seq<expand_runes>, b: Seq<expand_runes>, x: int)
    requires a.len() == b.len(), forall|r: expand_runes| a.contains(r) <==> b.contains(r)
    ensures em(a, a.len() as int, x) == em(b, b.len() as int, x)
{
    let n = a.len() as int;
    lemma_em(a, n, x); lemma_em(b, n, x);
    if em(a, n, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] a[k]).start <= x <= a[k].stop; assert(a.contains(a[k])); let j = choose|j: int| 0 <= j < n && b[j] == a[k]; assert(b[j].start <= x); }
    if em(b, n, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] b[k]).start <= x <= b[k].stop; assert(b.contains(b[k])); let j = choose|j: int| 0 <= j < n && a[j] == b[k]; assert(a[j].start <= x); }
}
pub open spec fn rlt(a: expand_runes, b: expand_runes) -> bool { if a.start == b.start { a.stop < b.stop } else { a.start < b.start } }
pub open spec fn esorted(w: Seq<expand_runes>) -> bool { forall|a: int, b: int| 0 <= a < b < w.len() ==> (#[trigger] w[a]).start <= (#[trigger] w[b]).start }
// the same symbols, NUL may be lost
pub open spec fn kept(a: bool, b: bool, x: int) -> bool { (a ==> b) && (x > 0 ==> a == b) }
pub open spec fn emk0(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, i: int, x: int) -> bool { kept(em(rs, j, x), em(w, i, x), x) }
pub open spec fn emk(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, pos: int, i: int, x: int) -> bool { kept(em(rs, j, x) || rs[pos].start <= x <= rs[pos].stop, em(w, i + 1, x), x) }
// the merge of the sorted w before i is rs before j
#[verifier::opaque]
pub open spec fn emrg(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, i: int) -> bool {
    &&& rs.len() == w.len() && evrs(w) && esorted(w)
    &&& eord(rs, j)
    &&& forall|k: int| 0 <= k < j ==> evr(#[trigger] rs[k]) && rs[k].stop > 0
    &&& forall|k: int| i <= k < w.len() ==> #[trigger] rs[k] == w[k]
    &&& forall|x: int| #[trigger] emk0(w, rs, j, i, x)
    &&& j > 0 && i < w.len() ==> rs[j - 1].stop + 1 < w[i].start
}
// in between: the range at pos holds the merged ones from pos to i
#[verifier::opaque]
pub open spec fn emrg2(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, pos: int, i: int) -> bool {
    &&& rs.len() == w.len() && evrs(w) && esorted(w)
    &&& 0 <= j <= pos <= i < w.len()
    &&& eord(rs, j)
    &&& forall|k: int| 0 <= k < j ==> evr(#[trigger] rs[k]) && rs[k].stop > 0
    &&& evr(rs[pos]) && rs[pos].start == w[pos].start
    &&& forall|k: int| i < k < w.len() ==> #[trigger] rs[k] == w[k]
    &&& forall|x: int| #[trigger] emk(w, rs, j, pos, i, x)
    &&& j > 0 ==> rs[j - 1].stop + 1 < rs[pos].start
}
pub proof fn lemma_emrg_start(w: Seq<expand_runes>)
    requires evrs(w), esorted(w)
    ensures emrg(w, w, 0, 0)
{ reveal(emrg); }
pub proof fn lemma_emrg_in(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, i: int)
    requires emrg(w, rs, j, i), 0 <= j <= i < w.len()
    ensures emrg2(w, rs, j, i, i)
{
    reveal(emrg); reveal(emrg2); assert(rs[i] == w[i]); assert(evr(w[i]));
    assert forall|x: int| #[trigger] emk(w, rs, j, i, i, x) by { assert(emk0(w, rs, j, i, x)); }
}
proof fn lemma_emrg2_fold(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int, pos: int, i: int)
    requires
        rs.len() == w.len() && evrs(w) && esorted(w),
        0 <= j <= pos <= i < w.len(),
        eord(rs, j),
        forall|k: int| 0 <= k < j ==> evr(#[trigger] rs[k]) && rs[k].stop > 0,
        evr(rs[pos]) && rs[pos].start == w[pos].start,
        forall|k: int| i < k < w.len() ==> #[trigger] rs[k] == w[k],
        forall|x: int| #[trigger] emk(w, rs, j, pos, i, x),
        j > 0 ==> rs[j - 1].stop + 1 < rs[pos].start,
    ensures emrg2(w, rs, j, pos, i)
{ reveal(emrg2); }
pub proof fn lemma_emrg_mid(w: Seq<expand_runes>, a: Seq<expand_runes>, b: Seq<expand_runes>, c: Seq<expand_runes>, j: int, pos: int, i: int)
    requires emrg2(w, a, j, pos, i), 0 <= pos <= i, i + 1 < w.len(), a.len() == w.len(),
        a[pos].start == a[i + 1].start || a[pos].stop + 1 >= a[i + 1].start,
        b == (if a[pos].stop < a[i + 1].stop { a.update(pos, expand_runes { stop: a[i + 1].stop, ..a[pos] }) } else { a }),
        c == b.update(i + 1, expand_runes { stop: 0, ..b[i + 1] }),
    ensures emrg2(w, c, j, pos, i + 1)
{
    reveal(emrg2);
    assert(a[i + 1] == w[i + 1]);
    assert(evr(w[i + 1]));
    assert(w[pos].start <= w[i + 1].start);
    assert(forall|k: int| 0 <= k < w.len() && k != pos && k != i + 1 ==> c[k] == a[k]);
    assert(eord(c, j)) by { assert forall|p: int, q: int| 0 <= p < q < j implies (#[trigger] c[p]).stop + 1 < (#[trigger] c[q]).start by { assert(a[p].stop + 1 < a[q].start); } }
    assert(evr(c[pos]) && c[pos].start == w[pos].start);
    assert(forall|k: int| i + 1 < k < w.len() ==> #[trigger] c[k] == w[k]) by { assert forall|k: int| i + 1 < k < w.len() implies #[trigger] c[k] == w[k] by { assert(a[k] == w[k]); } }
    assert(j > 0 ==> c[j - 1].stop + 1 < c[pos].start) by { if j > 0 { assert(c[j - 1] == a[j - 1]); } }
    assert forall|k: int| 0 <= k < j implies evr(#[trigger] c[k]) && c[k].stop > 0 by { assert(c[k] == a[k]); }
    let i2 = i + 1;
    assert forall|x: int| #[trigger] emk(w, c, j, pos, i2, x) by {
        lemma_em_same(a, c, j, x);
        assert(em(a, j, x) == em(c, j, x));
        assert(emk(w, a, j, pos, i, x));
        assert(em(w, i2 + 1, x) == (em(w, i2, x) || w[i2].start <= x <= w[i2].stop));
    }
    assert(c.len() == w.len());
    assert(0 <= j <= pos <= i2 < w.len());
    assert(eord(c, j));
    assert(evr(c[pos]) && c[pos].start == w[pos].start);
    assert(forall|k: int| i2 < k < w.len() ==> #[trigger] c[k] == w[k]);
    assert(j > 0 ==> c[j - 1].stop + 1 < c[pos].start);
    assert(forall|k: int| 0 <= k < j ==> evr(#[trigger] c[k]) && c[k].stop > 0);
    assert(evrs(w) && esorted(w));
    assert(forall|x: int| #[trigger] emk(w, c, j, pos, i2, x));
    lemma_emrg2_fold(w, c, j, pos, i2);
}
pub proof fn lemma_emrg_out(w: Seq<expand_runes>, a: Seq<expand_runes>, c: Seq<expand_runes>, j: int, pos: int, i: int, j2: int)
    requires emrg2(w, a, j, pos, i), 0 <= j <= pos <= i < w.len(), a.len() == w.len(),
        i + 1 < w.len() ==> !(a[pos].start == a[i + 1].start || a[pos].stop + 1 >= a[i + 1].start),
        c == (if pos != j { a.update(j, a[pos]).update(pos, expand_runes { stop: 0, ..a[pos] }) } else { a }),
        j2 == (if c[j].stop != 0 { j + 1 } else { j }),
    ensures emrg(w, c, j2, i + 1), 0 <= j2 <= i + 1
{
    reveal(emrg); reveal(emrg2);
    assert(c[j] == a[pos]);
    if i + 1 < w.len() { assert(a[i + 1] == w[i + 1]); }
    assert forall|x: int| #[trigger] emk0(w, c, j2, i + 1, x) by { assert(emk(w, a, j, pos, i, x)); lemma_em_same(a, c, j, x); assert(em(a, j, x) == em(c, j, x)); }
    assert forall|k: int| 0 <= k < j2 implies evr(#[trigger] c[k]) && c[k].stop > 0 by { if k < j { assert(c[k] == a[k]); } }
    assert forall|p: int, q: int| 0 <= p < q < j2 implies (#[trigger] c[p]).stop + 1 < (#[trigger] c[q]).start by {
        assert(c[p] == a[p]);
        if q < j { assert(c[q] == a[q]); } else { if p < j - 1 { assert(a[p].stop + 1 < a[j - 1].start); assert(evr(a[j - 1])); } }
    }
    assert forall|k: int| i + 1 <= k < w.len() implies #[trigger] c[k] == w[k] by { assert(a[k] == w[k]); }
    if c[j].stop == 0 && j > 0 { assert(evr(a[j - 1])); }
}
pub proof fn lemma_emrg_end(w: Seq<expand_runes>, rs: Seq<expand_runes>, j: int)
    requires emrg(w, rs, j, w.len() as int), 0 <= j <= w.len()
    ensures evrs(rs.subrange(0, j)), eord(rs.subrange(0, j), j), forall|k: int| 0 <= k < j ==> (#[trigger] rs.subrange(0, j)[k]).stop > 0,
        forall|x: int| kept(#[trigger] em(rs.subrange(0, j), j, x), em(w, w.len() as int, x), x)
{
    reveal(emrg);
    let q = rs.subrange(0, j);
    assert forall|k: int| 0 <= k < q.len() implies evr(#[trigger] q[k]) && q[k].stop > 0 by { assert(q[k] == rs[k]); }
    assert forall|a: int, b: int| 0 <= a < b < j implies (#[trigger] q[a]).stop + 1 < (#[trigger] q[b]).start by { assert(q[a] == rs[a] && q[b] == rs[b]); }
    assert forall|x: int| kept(#[trigger] em(q, j, x), em(w, w.len() as int, x), x) by { assert(emk0(w, rs, j, w.len() as int, x)); lemma_em_same(q, rs, j, x); assert(em(rs, j, x) == em(q, j, x)); }
}
// ---- the parse of a class
#[verifier::opaque]
pub open spec fn ecls(s: Seq<u8>, rs: Seq<expand_runes>, t: Seq<u8>, st: int, isr: bool) -> bool {
    &&& cls_ok(s, RERR, false) == cls_ok(t, st, isr)
    &&& evrs(rs)
    &&& forall|x: int| #[trigger] cls_in(s, RERR, false, x) == (em(rs, rs.len() as int, x) || cls_in(t, st, isr, x))
}
pub proof fn lemma_ecls_start(s: Seq<u8>, rs: Seq<expand_runes>)
    requires rs.len() == 0
    ensures ecls(s, rs, s, RERR, false)
{ reveal(ecls); }
pub proof fn lemma_em_push(rs: Seq<expand_runes>, r: expand_runes, x: int)
    ensures em(rs.push(r), rs.len() as int + 1, x) == (em(rs, rs.len() as int, x) || r.start <= x <= r.stop)
{ lemma_em_same(rs, rs.push(r), rs.len() as int, x); assert(rs.push(r)[rs.len() as int] == r); }
// one symbol was read
pub open spec fn epush(rs: Seq<expand_runes>, m: Seq<expand_runes>, a: int, b: int) -> bool { m.len() == rs.len() + 1 && m.drop_last() =~= rs && m.last().start == a && m.last().stop == b }
pub proof fn lemma_ecls_step(s: Seq<u8>, rs: Seq<expand_runes>, t: Seq<u8>, st: int, isr: bool)
    requires ecls(s, rs, t, st, isr), t.len() > 0, st == RERR || rune_ok(st)
    ensures ({
        let c = dec_c(t);
        let u = from(t, dec_w(t));
        &&& (t[0] == 45 ==> ecls(s, rs, u, st, true))
        &&& (t[0] != 45 && st == RERR ==> ecls(s, rs, u, c, false))
        &&& (t[0] != 45 && isr && st != RERR && !range_ok(st, c) ==> !cls_ok(s, RERR, false))
    })
{ reveal(ecls); lemma_dec(t); lemma_dec_hi(t); }
pub proof fn lemma_ecls_push(s: Seq<u8>, rs: Seq<expand_runes>, m: Seq<expand_runes>, t: Seq<u8>, st: int, isr: bool)
    requires ecls(s, rs, t, st, isr), t.len() > 0, rune_ok(st), st != RERR, t[0] != 45,
        isr ==> range_ok(st, dec_c(t)), epush(rs, m, st, if isr { dec_c(t) } else { st }),
    ensures ecls(s, m, from(t, dec_w(t)), if isr { RERR } else { dec_c(t) }, false)
{
    reveal(ecls);
    lemma_dec(t); lemma_dec_hi(t);
    assert(m =~= rs.push(m.last()));
    let u = from(t, dec_w(t));
    let e = if isr { RERR } else { dec_c(t) };
    assert forall|x: int| #[trigger] cls_in(s, RERR, false, x) == (em(m, m.len() as int, x) || cls_in(u, e, false, x)) by { lemma_em_push(rs, m.last(), x); }
}
pub proof fn lemma_ecls_end(s: Seq<u8>, rs: Seq<expand_runes>, m: Seq<expand_runes>, t: Seq<u8>, st: int, isr: bool)
    requires ecls(s, rs, t, st, isr), t.len() == 0, st == RERR || rune_ok(st), if st == RERR { m == rs } else { epush(rs, m, st, st) }
    ensures evrs(m), forall|x: int| #[trigger] cls_in(s, RERR, false, x) == em(m, m.len() as int, x),
{
    reveal(ecls);
    if st != RERR {
        assert(m =~= rs.push(m.last()));
        assert forall|x: int| #[trigger] cls_in(s, RERR, false, x) == em(m, m.len() as int, x) by { lemma_em_push(rs, m.last(), x); }
    }
}
// the symbols of the class content c before n, ascending
pub open spec fn asc(c: Seq<u8>, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 1 { Seq::empty() } else if cls_in(c, RERR, false, n - 1) { asc(c, n - 1).push(enc(n - 1)) } else { asc(c, n - 1) }
}
pub open spec fn symbols(c: Seq<u8>) -> Seq<Seq<u8>> { asc(c, 0x110000) }
// no NUL, no U+FFFD
pub open spec fn clean(c: Seq<u8>) -> bool { !cls_in(c, RERR, false, 0) && !cls_in(c, RERR, false, RERR) }

// ---- pieces of an expression
pub struct Ep { pub body: Seq<u8>, pub alts: Seq<Seq<u8>>, pub n: int, pub fix: bool }
pub open spec fn fixE(b: Seq<u8>) -> Ep { Ep { body: b, alts: seq![b], n: 1, fix: true } }
pub open spec fn altE(b: Seq<u8>, a: Seq<Seq<u8>>) -> Ep { Ep { body: b, alts: a, n: a.len() as int, fix: false } }
pub open spec fn cat(ps: Seq<Ep>) -> Seq<u8> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else { ps[0].body + cat(ps.drop_first()) } }
// the product of the alternatives after the text b: cnt is the product of the counts so far, max the limit
// (0: nothing is expanded, negative: none), dep one more than the dots left before the end of expansion (0: no limit)
pub open spec fn prod(ps: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, b: Seq<u8>) -> Seq<Seq<u8>>
    decreases ps.len(), 1int, 0int
{
    if ps.len() == 0 { seq![b] }
    else if max == 0 { seq![b + cat(ps)] }
    else {
        let p = ps[0];
        let c2 = if max > 0 { cnt * p.n } else { cnt };
        let d2 = if p.fix && dep > 0 { dep - nbyte(p.body, 46) } else { dep };
        if (max > 0 && c2 > max) || (p.fix && dep > 0 && d2 <= 1) { seq![b + cat(ps)] }
        else { palts(ps, c2, max, d2, first, b, 0) }
    }
}
pub open spec fn palts(ps: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, b: Seq<u8>, k: int) -> Seq<Seq<u8>>
    decreases ps.len(), 0int, ps[0].alts.len() - k + 1
{
    if ps.len() == 0 || k < 0 || k >= ps[0].alts.len() { Seq::empty() }
    else { prod(ps.drop_first(), cnt, max, dep, first, b + ps[0].alts[k]) + if first { Seq::empty() } else { palts(ps, cnt, max, dep, first, b, k + 1) } }
}
// ---- the pieces of a text
pub open spec fn xwild(b: u8) -> bool { b == 91 || b == 93 || b == 123 || b == 125 || b == 42 || b == 63 }
pub open spec fn fw(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else if xwild(s[0]) { 0 } else { 1 + fw(from(s, 1)) } }
pub proof fn lemma_fw(s: Seq<u8>)
    ensures 0 <= fw(s) <= s.len(), fw(s) < s.len() ==> xwild(s[fw(s)]), forall|i: int| 0 <= i < fw(s) ==> !xwild(#[trigger] s[i])
    decreases s.len()
{ if s.len() > 0 && !xwild(s[0]) { let t = from(s, 1); lemma_fw(t); assert forall|i: int| 0 <= i < fw(s) implies !xwild(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } } } }
pub proof fn lemma_fw_is(s: Seq<u8>, p: int)
    requires 0 <= p <= s.len(), p < s.len() ==> xwild(s[p]), forall|i: int| 0 <= i < p ==> !xwild(#[trigger] s[i])
    ensures fw(s) == p
{ lemma_fw(s); let q = fw(s); if q < p { assert(xwild(s[q])); } if p < q { assert(xwild(s[p])); } }
pub open spec fn group(t: Seq<u8>) -> Ep {
    let c = t.subrange(1, t.len() - 1);
    if c.len() == 0 { fixE(c) }
    else if t[0] == 123 { if c.contains(44) { altE(t, split_b(c, 44)) } else { fixE(c) } }
    else if c.len() == 1 { fixE(c) }
    else if !cls_ok(c, RERR, false) { fixE(t) }
    else if symbols(c).len() == 0 { fixE(Seq::empty()) }
    else { altE(t, symbols(c)) }
}
// the start of the first group and its end (-1: not closed)
pub open spec fn gpair(s: Seq<u8>) -> (int, int) {
    let p = fw(s);
    if p >= s.len() { (-1, -1) } else {
        let q = p + 1 + fw(from(s, p + 1));
        if q < s.len() && ((s[p] == 123 && s[q] == 125) || (s[p] == 91 && s[q] == 93)) { (p, q) } else { (p, -1) }
    }
}
pub open spec fn eparse(s: Seq<u8>) -> Seq<Ep> decreases s.len() via eparse_dec {
    if s.len() == 0 { Seq::empty() } else {
        let (p, q) = gpair(s);
        if p < 0 { seq![fixE(s)] }
        else if q < 0 { seq![fixE(s.subrange(0, p)), fixE(from(s, p))] }
        else { seq![fixE(s.subrange(0, p)), group(s.subrange(p, q + 1))] + eparse(from(s, q + 1)) }
    }
}
#[via_fn]
proof fn eparse_dec(s: Seq<u8>) { lemma_gpair(s); }
pub proof fn lemma_gpair(s: Seq<u8>)
    ensures ({ let (p, q) = gpair(s); -1 <= p < s.len() && (q == -1 || 0 <= p < q < s.len()) && (p < 0 ==> q == -1) }) || s.len() == 0 && gpair(s).0 == -1 && gpair(s).1 == -1
{ lemma_fw(s); let p = fw(s); if p < s.len() { lemma_fw(from(s, p + 1)); } }
// every class of the text is clean
pub open spec fn xok(s: Seq<u8>) -> bool decreases s.len() via xok_dec {
    if s.len() == 0 { true } else {
        let (p, q) = gpair(s);
        q < 0 || ((s[p] == 91 ==> clean(s.subrange(p + 1, q))) && xok(from(s, q + 1)))
    }
}
#[via_fn]
proof fn xok_dec(s: Seq<u8>) { lemma_gpair(s); }

// ---- equal products
pub open spec fn pst(cnt: int, max: int, dep: int) -> bool { cnt >= 1 && (max > 0 ==> cnt <= max) && dep != 1 }
#[verifier::opaque]
pub open spec fn eqv(a: Seq<Ep>, b: Seq<Ep>) -> bool {
    forall|cnt: int, max: int, dep: int, first: bool, s: Seq<u8>| pst(cnt, max, dep) ==> #[trigger] prod(a, cnt, max, dep, first, s) == prod(b, cnt, max, dep, first, s)
}
pub proof fn lemma_eqv_use(a: Seq<Ep>, b: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, s: Seq<u8>)
    requires eqv(a, b), pst(cnt, max, dep)
    ensures prod(a, cnt, max, dep, first, s) == prod(b, cnt, max, dep, first, s)
{ reveal(eqv); }
pub proof fn lemma_eqv_refl(a: Seq<Ep>)
    ensures eqv(a, a)
{ reveal(eqv); }
pub proof fn lemma_eqv_trans(a: Seq<Ep>, b: Seq<Ep>, c: Seq<Ep>)
    requires eqv(a, b), eqv(b, c)
    ensures eqv(a, c)
{ reveal(eqv); }
pub proof fn lemma_eqv_cat(a: Seq<Ep>, b: Seq<Ep>)
    requires eqv(a, b)
    ensures cat(a) == cat(b)
{
    let e = Seq::<u8>::empty();
    lemma_eqv_use(a, b, 1, 0, 0, false, e);
    assert(e + cat(a) =~= cat(a) && e + cat(b) =~= cat(b));
    assert(prod(a, 1, 0, 0, false, e)[0] == cat(a));
    assert(prod(b, 1, 0, 0, false, e)[0] == cat(b));
}
proof fn lemma_palts_eq(p: Ep, a: Seq<Ep>, b: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, s: Seq<u8>, k: int)
    requires eqv(a, b), pst(cnt, max, dep), 0 <= k
    ensures palts(seq![p] + a, cnt, max, dep, first, s, k) == palts(seq![p] + b, cnt, max, dep, first, s, k)
    decreases p.alts.len() - k
{
    let x = seq![p] + a;
    let y = seq![p] + b;
    assert(x.drop_first() =~= a && y.drop_first() =~= b);
    assert(x[0] == p && y[0] == p);
    if k < p.alts.len() {
        lemma_eqv_use(a, b, cnt, max, dep, first, s + p.alts[k]);
        lemma_palts_eq(p, a, b, cnt, max, dep, first, s, k + 1);
    }
}
pub proof fn lemma_eqv_cons(p: Ep, a: Seq<Ep>, b: Seq<Ep>)
    requires eqv(a, b), p.n >= 1
    ensures eqv(seq![p] + a, seq![p] + b)
{
    let x = seq![p] + a;
    let y = seq![p] + b;
    lemma_eqv_cat(a, b);
    assert(x.drop_first() =~= a && y.drop_first() =~= b);
    assert(x[0] == p && y[0] == p);
    assert(cat(x) == cat(y));
    assert(eqv(x, y)) by {
        reveal(eqv);
        assert forall|cnt: int, max: int, dep: int, first: bool, s: Seq<u8>| pst(cnt, max, dep) implies #[trigger] prod(x, cnt, max, dep, first, s) == prod(y, cnt, max, dep, first, s) by {
            let c2 = if max > 0 { cnt * p.n } else { cnt };
            let d2 = if p.fix && dep > 0 { dep - nbyte(p.body, 46) } else { dep };
            assert(cnt * p.n >= 1) by (nonlinear_arith) requires cnt >= 1, p.n >= 1;
            if max == 0 {} else if (max > 0 && c2 > max) || (p.fix && dep > 0 && d2 <= 1) {} else { lemma_palts_eq(p, a, b, c2, max, d2, first, s, 0); }
        }
    }
}
pub open spec fn npos(c: Seq<Ep>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).n >= 1 }
pub proof fn lemma_eqv_pre(c: Seq<Ep>, a: Seq<Ep>, b: Seq<Ep>)
    requires eqv(a, b), npos(c)
    ensures eqv(c + a, c + b)
    decreases c.len()
{
    if c.len() == 0 { assert(c + a =~= a && c + b =~= b); } else {
        let d = c.drop_first();
        assert(npos(d)) by { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).n >= 1 by { assert(c[i + 1].n >= 1); } }
        lemma_eqv_pre(d, a, b);
        assert(c[0].n >= 1);
        lemma_eqv_cons(c[0], d + a, d + b);
        assert(seq![c[0]] + (d + a) =~= c + a && seq![c[0]] + (d + b) =~= c + b);
    }
}
pub proof fn lemma_nbyte_cat(a: Seq<u8>, b: Seq<u8>, c: u8)
    ensures nbyte(a + b, c) == nbyte(a, c) + nbyte(b, c), nbyte(a, c) >= 0, nbyte(b, c) >= 0
    decreases b.len()
{
    lemma_nbyte0(a, c); lemma_nbyte0(b, c);
    if b.len() == 0 { assert(a + b =~= a); } else { lemma_nbyte_cat(a, b.drop_last(), c); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_nbyte0(a: Seq<u8>, c: u8)
    ensures nbyte(a, c) >= 0
    decreases a.len()
{ if a.len() > 0 { lemma_nbyte0(a.drop_last(), c); } }
// one fixed piece in front
proof fn lemma_prod_fix(x: Seq<u8>, r: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, s: Seq<u8>)
    requires pst(cnt, max, dep)
    ensures prod(seq![fixE(x)] + r, cnt, max, dep, first, s) == (if max == 0 || (dep > 0 && dep - nbyte(x, 46) <= 1) { seq![s + x + cat(r)] } else { prod(r, cnt, max, if dep > 0 { dep - nbyte(x, 46) } else { dep }, first, s + x) }),
        cat(seq![fixE(x)] + r) == x + cat(r)
{
    let y = seq![fixE(x)] + r;
    assert(y.drop_first() =~= r);
    assert(s + (x + cat(r)) =~= s + x + cat(r));
    let d2 = if dep > 0 { dep - nbyte(x, 46) } else { dep };
    assert(palts(y, cnt, max, d2, first, s, 1) =~= Seq::empty());
    assert(palts(y, cnt, max, d2, first, s, 0) =~= prod(r, cnt, max, d2, first, s + x));
    assert(cat(y) == x + cat(r));
    assert(y[0] == fixE(x));
    assert(cnt * 1 == cnt);
    let c2 = if max > 0 { cnt * y[0].n } else { cnt };
    assert(c2 == cnt);
    if max == 0 || (dep > 0 && dep - nbyte(x, 46) <= 1) { assert(prod(y, cnt, max, dep, first, s) == seq![s + cat(y)]); }
    else { assert(prod(y, cnt, max, dep, first, s) == palts(y, c2, max, d2, first, s, 0)); }
}
pub proof fn lemma_eqv_fix2(x: Seq<u8>, y: Seq<u8>, r: Seq<Ep>)
    ensures eqv(seq![fixE(x)] + (seq![fixE(y)] + r), seq![fixE(x + y)] + r)
{
    reveal(eqv);
    lemma_nbyte_cat(x, y, 46);
    let q = seq![fixE(y)] + r;
    assert forall|cnt: int, max: int, dep: int, first: bool, s: Seq<u8>| pst(cnt, max, dep) implies #[trigger] prod(seq![fixE(x)] + q, cnt, max, dep, first, s) == prod(seq![fixE(x + y)] + r, cnt, max, dep, first, s) by {
        lemma_prod_fix(x, q, cnt, max, dep, first, s);
        lemma_prod_fix(x + y, r, cnt, max, dep, first, s);
        let d2 = if dep > 0 { dep - nbyte(x, 46) } else { dep };
        assert(s + x + (y + cat(r)) =~= s + (x + y) + cat(r));
        assert(s + x + y =~= s + (x + y));
        lemma_prod_fix(y, r, cnt, max, if d2 == 1 { 0 } else { d2 }, first, s + x);
        if max == 0 || (dep > 0 && d2 <= 1) {} else { lemma_prod_fix(y, r, cnt, max, d2, first, s + x); }
    }
}
pub proof fn lemma_eqv_fix0(r: Seq<Ep>)
    ensures eqv(seq![fixE(Seq::empty())] + r, r)
{
    reveal(eqv);
    let e = Seq::<u8>::empty();
    assert forall|cnt: int, max: int, dep: int, first: bool, s: Seq<u8>| pst(cnt, max, dep) implies #[trigger] prod(seq![fixE(e)] + r, cnt, max, dep, first, s) == prod(r, cnt, max, dep, first, s) by {
        lemma_prod_fix(e, r, cnt, max, dep, first, s);
        assert(s + e =~= s);
        if r.len() == 0 { assert(s + cat(r) =~= s); }
    }
}
// ---- pieces of the parsed expression
pub open spec fn rcut(r: expand_runes) -> int { if r.start <= RERR <= r.stop { RERR - r.start } else { r.stop - r.start + 1 } }
pub open spec fn rseq(r: expand_runes) -> Seq<Seq<u8>> { Seq::new(rcut(r) as nat, |i: int| enc(r.start + i)) }
pub open spec fn rall(rs: Seq<expand_runes>, n: int) -> Seq<Seq<u8>> decreases n { if n <= 0 { Seq::empty() } else { rall(rs, n - 1) + rseq(rs[n - 1]) } }
pub open spec fn rcount(rs: Seq<expand_runes>, n: int) -> int decreases n { if n <= 0 { 0 } else { rcount(rs, n - 1) + rs[n - 1].stop - rs[n - 1].start + 1 } }
pub open spec fn ep(e: expand_Expression) -> Ep {
    if e.typ == 2 { Ep { body: e.body@, alts: strs(e.list@), n: e.list@.len() as int, fix: false } }
    else if e.typ == 3 { Ep { body: e.body@, alts: rall(e.runes@, e.runes@.len() as int), n: rcount(e.runes@, e.runes@.len() as int), fix: false } }
    else { fixE(e.body@) }
}
pub open spec fn eps(v: Seq<expand_Expression>) -> Seq<Ep> { Seq::new(v.len(), |i: int| ep(v[i])) }
#[verifier::opaque]
pub open spec fn eok(e: expand_Expression) -> bool {
    &&& 0 <= e.typ <= 3
    &&& (e.typ == 2 ==> e.list@.len() > 0)
    &&& (e.typ == 3 ==> e.runes@.len() > 0 && evrs(e.runes@) && eord(e.runes@, e.runes@.len() as int))
}
pub proof fn lemma_eok(e: expand_Expression)
    requires eok(e)
    ensures 0 <= e.typ <= 3, e.typ == 2 ==> e.list@.len() > 0, e.typ == 3 ==> e.runes@.len() > 0 && evrs(e.runes@) && eord(e.runes@, e.runes@.len() as int)
{ reveal(eok); }
pub open spec fn fresh(e: expand_Expression) -> bool { e.pos == 0 && forall|i: int| 0 <= i < e.runes@.len() ==> (#[trigger] e.runes@[i]).pos == e.runes@[i].start }
pub open spec fn efs(v: Seq<expand_Expression>) -> bool { forall|i: int| 0 <= i < v.len() ==> eok(#[trigger] v[i]) && fresh(v[i]) }
pub open spec fn esame(a: expand_Expression, b: expand_Expression) -> bool {
    &&& a.typ == b.typ && a.body == b.body && a.list == b.list && a.runes@.len() == b.runes@.len()
    &&& forall|i: int| 0 <= i < a.runes@.len() ==> (#[trigger] a.runes@[i]).start == b.runes@[i].start && a.runes@[i].stop == b.runes@[i].stop
}
// how many alternatives were taken
pub open spec fn eat(e: expand_Expression) -> int {
    if e.typ == 2 { if e.pos == -1 { e.list@.len() as int } else { e.pos as int } }
    else if e.typ == 3 { rall(e.runes@, e.pos as int).len() + e.runes@[e.pos as int].pos - e.runes@[e.pos as int].start }
    else { if e.pos == -1 { 1 } else { 0 } }
}
pub open spec fn einv(e: expand_Expression) -> bool {
    &&& eok(e)
    &&& if e.typ == 2 { -1 <= e.pos < e.list@.len() }
        else if e.typ == 3 { 0 <= e.pos < e.runes@.len() && e.runes@[e.pos as int].start <= e.runes@[e.pos as int].pos <= e.runes@[e.pos as int].start + rcut(e.runes@[e.pos as int]) }
        else { e.pos == 0 || e.pos == -1 }
}
pub proof fn lemma_rall_same(a: Seq<expand_runes>, b: Seq<expand_runes>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).start == b[i].start && a[i].stop == b[i].stop
    ensures rall(a, n) == rall(b, n), rcount(a, n) == rcount(b, n)
    decreases n
{ if n > 0 { lemma_rall_same(a, b, n - 1); assert(a[n - 1].start == b[n - 1].start); assert(rseq(a[n - 1]) =~= rseq(b[n - 1])); } }
pub proof fn lemma_rall_len(rs: Seq<expand_runes>, n: int)
    requires evrs(rs), 0 <= n <= rs.len()
    ensures n <= rall(rs, n).len() <= rcount(rs, n)
    decreases n
{ if n > 0 { assert(evr(rs[n - 1])); lemma_rall_len(rs, n - 1); } }
pub proof fn lemma_rall_at(rs: Seq<expand_runes>, n: int, k: int, i: int)
    requires evrs(rs), 0 <= k < n <= rs.len(), 0 <= i < rcut(rs[k])
    ensures rall(rs, k).len() + i < rall(rs, n).len(), rall(rs, n)[rall(rs, k).len() + i] == enc(rs[k].start + i)
    decreases n
{ assert(evr(rs[n - 1])); if k < n - 1 { lemma_rall_at(rs, n - 1, k, i); } }
pub proof fn lemma_rall_mono(rs: Seq<expand_runes>, n: int, k: int)
    requires evrs(rs), 0 <= k < n <= rs.len()
    ensures rall(rs, k).len() + rcut(rs[k]) <= rall(rs, n).len()
    decreases n
{ assert(evr(rs[n - 1])); if k < n - 1 { lemma_rall_mono(rs, n - 1, k); } }
pub proof fn lemma_rcount(rs: Seq<expand_runes>, n: int)
    requires evrs(rs), eord(rs, rs.len() as int), 0 <= n <= rs.len()
    ensures n <= rcount(rs, n) <= 0x110000, n > 0 ==> rcount(rs, n) <= rs[n - 1].stop + 1
    decreases n
{ if n > 0 { assert(evr(rs[n - 1])); lemma_rcount(rs, n - 1); if n > 1 { assert(rs[n - 2].stop + 1 < rs[n - 1].start); } } }
pub proof fn lemma_ep_same(a: expand_Expression, b: expand_Expression)
    requires esame(a, b)
    ensures ep(a) == ep(b), eok(a) == eok(b)
{ reveal(eok);
    lemma_rall_same(a.runes@, b.runes@, a.runes@.len() as int);
    let n = a.runes@.len() as int;
    if eok(a) && a.typ == 3 {
        assert forall|i: int| 0 <= i < n implies evr(#[trigger] b.runes@[i]) by { assert(evr(a.runes@[i])); }
        assert forall|p: int, q: int| 0 <= p < q < n implies (#[trigger] b.runes@[p]).stop + 1 < (#[trigger] b.runes@[q]).start by { assert(a.runes@[p].stop + 1 < a.runes@[q].start); }
    }
    if eok(b) && a.typ == 3 {
        assert forall|i: int| 0 <= i < n implies evr(#[trigger] a.runes@[i]) by { assert(evr(b.runes@[i])); assert(a.runes@[i].start == b.runes@[i].start); }
        assert forall|p: int, q: int| 0 <= p < q < n implies (#[trigger] a.runes@[p]).stop + 1 < (#[trigger] a.runes@[q]).start by { assert(b.runes@[p].stop + 1 < b.runes@[q].start); }
    }
}
pub proof fn lemma_ep_n(e: expand_Expression)
    requires eok(e)
    ensures 1 <= ep(e).alts.len() <= ep(e).n <= MAXL
{ reveal(eok);
    if e.typ == 3 { lemma_rall_len(e.runes@, e.runes@.len() as int); lemma_rcount(e.runes@, e.runes@.len() as int); }
}
// taken up to the symbol q of the range p
pub open spec fn eatp(rs: Seq<expand_runes>, p: int, q: int) -> int { rall(rs, p).len() + q - rs[p].start }
pub proof fn lemma_eatp(e: expand_Expression, p: int, q: int)
    requires eok(e), e.typ == 3, 0 <= p < e.runes@.len(), e.runes@[p].start <= q <= e.runes@[p].start + rcut(e.runes@[p])
    ensures ({
        let rs = e.runes@; let n = rs.len() as int; let r = rs[p];
        &&& evr(r) && rcut(r) >= 1 && (rcut(r) == r.stop - r.start + 1 || r.start + rcut(r) == RERR <= r.stop) && r.start + rcut(r) <= r.stop + 1
        &&& 0 <= eatp(rs, p, q) <= ep(e).alts.len()
        &&& (q < r.start + rcut(r) ==> eatp(rs, p, q) < ep(e).alts.len() && ep(e).alts[eatp(rs, p, q)] == enc(q) && q != RERR)
        &&& (q == r.start + rcut(r) && p + 1 < n ==> eatp(rs, p, q) == eatp(rs, p + 1, rs[p + 1].start as int) && evr(rs[p + 1]) && rcut(rs[p + 1]) >= 1)
        &&& (q == r.start + rcut(r) && p + 1 == n ==> eatp(rs, p, q) == ep(e).alts.len())
    })
{
    lemma_eok(e);
    let rs = e.runes@; let n = rs.len() as int; let r = rs[p];
    assert(evr(r));
    lemma_rall_mono(rs, n, p);
    if q < r.start + rcut(r) { lemma_rall_at(rs, n, p, q - r.start); }
    if p + 1 < n { assert(evr(rs[p + 1])); }
}
pub proof fn lemma_eat0(e: expand_Expression)
    requires eok(e), fresh(e)
    ensures einv(e), eat(e) == 0
{ reveal(eok); if e.typ == 3 { assert(evr(e.runes@[0])); assert(e.runes@[0].pos == e.runes@[0].start); } }
// the symbols between a and b
proof fn lemma_asc_gap(c: Seq<u8>, a: int, b: int)
    requires 1 <= a <= b, forall|x: int| a <= x < b ==> !#[trigger] cls_in(c, RERR, false, x)
    ensures asc(c, b) == asc(c, a)
    decreases b
{ if a < b { assert(!cls_in(c, RERR, false, b - 1)); lemma_asc_gap(c, a, b - 1); } }
proof fn lemma_asc_run(c: Seq<u8>, a: int, b: int)
    requires 1 <= a <= b, forall|x: int| a <= x < b ==> #[trigger] cls_in(c, RERR, false, x)
    ensures asc(c, b) == asc(c, a) + Seq::new((b - a) as nat, |i: int| enc(a + i))
    decreases b
{
    let v = Seq::new((b - a) as nat, |i: int| enc(a + i));
    if a < b {
        assert(cls_in(c, RERR, false, b - 1));
        lemma_asc_run(c, a, b - 1);
        let u = Seq::new((b - 1 - a) as nat, |i: int| enc(a + i));
        assert(u.push(enc(b - 1)) =~= v);
        assert(asc(c, a) + v =~= (asc(c, a) + u).push(enc(b - 1)));
    } else { assert(asc(c, a) + v =~= asc(c, a)); }
}
pub open spec fn rend(rs: Seq<expand_runes>, k: int) -> int { if k <= 0 { 1 } else { rs[k - 1].stop + 1 } }
proof fn lemma_em_gap(rs: Seq<expand_runes>, k: int, x: int)
    requires evrs(rs), eord(rs, rs.len() as int), 0 <= k <= rs.len(), k > 0 ==> x > rs[k - 1].stop, k < rs.len() ==> x < rs[k].start
    ensures !em(rs, rs.len() as int, x)
{
    lemma_em(rs, rs.len() as int, x);
    assert forall|i: int| 0 <= i < rs.len() implies !((#[trigger] rs[i]).start <= x <= rs[i].stop) by {
        assert(evr(rs[i]));
        if k < rs.len() { assert(evr(rs[k])); if i > k { assert(rs[k].stop + 1 < rs[i].start); } }
        if k > 0 { assert(evr(rs[k - 1])); if i < k - 1 { assert(rs[i].stop + 1 < rs[k - 1].start); } }
    }
}
proof fn lemma_rall_asc(c: Seq<u8>, rs: Seq<expand_runes>, k: int)
    requires evrs(rs), eord(rs, rs.len() as int), 0 <= k <= rs.len(), clean(c), forall|x: int| #[trigger] cls_in(c, RERR, false, x) == em(rs, rs.len() as int, x)
    ensures rall(rs, k) == asc(c, rend(rs, k)), rcount(rs, k) == rall(rs, k).len(), rend(rs, k) >= 1
    decreases k
{
    if k > 0 {
        lemma_rall_asc(c, rs, k - 1);
        let r = rs[k - 1];
        assert(evr(r));
        lemma_em(rs, rs.len() as int, 0); lemma_em(rs, rs.len() as int, RERR);
        assert(!cls_in(c, RERR, false, 0) && !cls_in(c, RERR, false, RERR));
        assert(!(r.start <= 0 <= r.stop)); assert(!(r.start <= RERR <= r.stop));
        if k > 1 { assert(rs[k - 2].stop + 1 < rs[k - 1].start); assert(evr(rs[k - 2])); }
        let e = rend(rs, k - 1);
        assert forall|x: int| e <= x < r.start implies !#[trigger] cls_in(c, RERR, false, x) by { lemma_em_gap(rs, k - 1, x); }
        lemma_asc_gap(c, e, r.start as int);
        assert forall|x: int| r.start <= x < r.stop + 1 implies #[trigger] cls_in(c, RERR, false, x) by { lemma_em(rs, rs.len() as int, x); assert(rs[k - 1].start <= x <= rs[k - 1].stop); }
        lemma_asc_run(c, r.start as int, r.stop + 1);
        assert(rseq(r) =~= Seq::new((r.stop + 1 - r.start) as nat, |i: int| enc(r.start + i)));
    } else { assert(asc(c, 1) =~= Seq::empty()); }
}
pub proof fn lemma_symbols(c: Seq<u8>, rs: Seq<expand_runes>)
    requires evrs(rs), eord(rs, rs.len() as int), clean(c), forall|x: int| kept(em(rs, rs.len() as int, x), #[trigger] cls_in(c, RERR, false, x), x)
    ensures rall(rs, rs.len() as int) == symbols(c), rcount(rs, rs.len() as int) == symbols(c).len()
{
    let n = rs.len() as int;
    assert forall|x: int| #[trigger] cls_in(c, RERR, false, x) == em(rs, n, x) by {
        assert(kept(em(rs, n, x), cls_in(c, RERR, false, x), x));
        lemma_em(rs, n, x);
        if x < 0 { if em(rs, n, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] rs[k]).start <= x <= rs[k].stop; assert(evr(rs[k])); } lemma_cls_in_neg(c, RERR, false, x); }
        if x == 0 { assert(!cls_in(c, RERR, false, 0)); }
    }
    lemma_rall_asc(c, rs, n);
    if n > 0 { assert(evr(rs[n - 1])); }
    assert forall|x: int| rend(rs, n) <= x < 0x110000 implies !#[trigger] cls_in(c, RERR, false, x) by { lemma_em_gap(rs, n, x); }
    lemma_asc_gap(c, rend(rs, n), 0x110000);
}
proof fn lemma_cls_in_neg(c: Seq<u8>, st: int, isr: bool, x: int)
    requires x < 0, st >= 0
    ensures !cls_in(c, st, isr, x)
    decreases c.len()
{ if c.len() > 0 { lemma_dec(c); let t = from(c, dec_w(c)); lemma_cls_in_neg(t, st, true, x); lemma_cls_in_neg(t, RERR, false, x); lemma_cls_in_neg(t, dec_c(c), false, x); } }

// ---- the expansion
pub proof fn lemma_strs_push(v: Seq<Str>, x: Str)
    ensures strs(v.push(x)) == strs(v).push(x@)
{ assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub open spec fn norm(c: int) -> int { if c <= 0 { 1 } else { c } }
pub open spec fn dplus(d: int) -> int { if d > 0 { d + 1 } else { d } }
// the result of the expansion of a text
pub open spec fn expanded(s: Seq<u8>, max: int, depth: int, first: bool) -> Seq<Seq<u8>> { prod(eparse(s), 1, max, dplus(depth), first, Seq::empty()) }
// ---- steps of the parser
pub proof fn lemma_npos(v: Seq<expand_Expression>)
    requires forall|i: int| 0 <= i < v.len() ==> eok(#[trigger] v[i])
    ensures npos(eps(v))
{ assert forall|i: int| 0 <= i < v.len() implies (#[trigger] eps(v)[i]).n >= 1 by { lemma_ep_n(v[i]); } }
// x before g, as a piece when it is not empty
pub proof fn lemma_step_fix(c: Seq<Ep>, d: Seq<Ep>, x: Seq<u8>, r: Seq<Ep>)
    requires npos(c), if x.len() > 0 { d =~= c.push(fixE(x)) } else { d == c }
    ensures eqv(d + r, c + (seq![fixE(x)] + r)), npos(d)
{
    if x.len() > 0 { assert(d + r =~= c + (seq![fixE(x)] + r)); lemma_eqv_refl(d + r); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).n >= 1 by { if i < c.len() { assert(c[i].n >= 1); } } }
    else { assert(x =~= Seq::empty()); lemma_eqv_fix0(r); lemma_eqv_sym(seq![fixE(x)] + r, r); lemma_eqv_pre(c, r, seq![fixE(x)] + r); }
}
pub proof fn lemma_eqv_sym(a: Seq<Ep>, b: Seq<Ep>)
    requires eqv(a, b)
    ensures eqv(b, a)
{ reveal(eqv); }
// x joined to the last piece
pub proof fn lemma_step_join(c: Seq<Ep>, d: Seq<Ep>, l: Seq<u8>, x: Seq<u8>, r: Seq<Ep>)
    requires npos(c), c.len() > 0, c.last() == fixE(l), d =~= c.drop_last().push(fixE(l + x))
    ensures eqv(d + r, c + (seq![fixE(x)] + r))
{
    let e = c.drop_last();
    assert(npos(e)) by { assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i]).n >= 1 by { assert(c[i].n >= 1); } }
    lemma_eqv_fix2(l, x, r);
    lemma_eqv_sym(seq![fixE(l)] + (seq![fixE(x)] + r), seq![fixE(l + x)] + r);
    lemma_eqv_pre(e, seq![fixE(l + x)] + r, seq![fixE(l)] + (seq![fixE(x)] + r));
    assert(e + (seq![fixE(l + x)] + r) =~= d + r);
    assert(e + (seq![fixE(l)] + (seq![fixE(x)] + r)) =~= c + (seq![fixE(x)] + r));
}
// a piece is divided
pub proof fn lemma_step_cut(c: Seq<Ep>, x: Seq<u8>, y: Seq<u8>)
    requires npos(c)
    ensures eqv(c.push(fixE(x)).push(fixE(y)), c.push(fixE(x + y)))
{
    lemma_eqv_fix2(x, y, Seq::empty());
    let e = Seq::<Ep>::empty();
    lemma_eqv_pre(c, seq![fixE(x)] + (seq![fixE(y)] + e), seq![fixE(x + y)] + e);
    assert(c + (seq![fixE(x)] + (seq![fixE(y)] + e)) =~= c.push(fixE(x)).push(fixE(y)));
    assert(c + (seq![fixE(x + y)] + e) =~= c.push(fixE(x + y)));
}
// the whole text s from the pieces c and the pieces of its rest
pub proof fn lemma_eparse(s: Seq<u8>)
    requires s.len() > 0
    ensures ({
        let (p, q) = gpair(s);
        &&& (p < 0 ==> eparse(s) == seq![fixE(s)])
        &&& (p >= 0 && q < 0 ==> eparse(s) == seq![fixE(s.subrange(0, p))] + (seq![fixE(from(s, p))] + Seq::<Ep>::empty()))
        &&& (q >= 0 ==> eparse(s) == seq![fixE(s.subrange(0, p))] + (seq![group(s.subrange(p, q + 1))] + eparse(from(s, q + 1))))
        &&& (q >= 0 && xok(s) ==> (s[p] == 91 ==> clean(s.subrange(p, q + 1).subrange(1, q - p))) && xok(from(s, q + 1)))
    })
{
    lemma_gpair(s);
    let (p, q) = gpair(s);
    if q >= 0 {
        assert(s.subrange(p, q + 1).subrange(1, q - p) =~= s.subrange(p + 1, q));
        assert(eparse(s) =~= seq![fixE(s.subrange(0, p))] + (seq![group(s.subrange(p, q + 1))] + eparse(from(s, q + 1))));
    } else if p >= 0 {
        assert(eparse(s) =~= seq![fixE(s.subrange(0, p))] + (seq![fixE(from(s, p))] + Seq::<Ep>::empty()));
    }
}

// ---- expand
pub open spec fn sl_tail(v: Seq<expand_Expression>) -> Seq<expand_Expression> { v.subrange(1, v.len() as int) }
pub proof fn lemma_quot(max: int, c: int, n: int)
    requires c >= 1, n >= 1
    ensures max > 0 ==> (n > max / c <==> c * n > max), c * n >= 1
{
    assert(c * n >= 1) by (nonlinear_arith) requires c >= 1, n >= 1;
    if max > 0 {
        assert(n > max / c <==> c * n > max) by (nonlinear_arith) requires c >= 1, n >= 1, max > 0;
    }
}
pub proof fn lemma_prod0(ps: Seq<Ep>, cnt: int, dep: int, first: bool, b: Seq<u8>)
    ensures prod(ps, cnt, 0, dep, first, b) == seq![b + cat(ps)]
{ if ps.len() == 0 { assert(b + cat(ps) =~= b); } }
pub proof fn lemma_reset(a: expand_Expression, b: expand_Expression)
    requires esame(a, b), fresh(a), fresh(b)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.runes@.len() implies a.runes@[i] == b.runes@[i] by { assert(a.runes@[i].start == b.runes@[i].start); assert(a.runes@[i].pos == a.runes@[i].start); assert(b.runes@[i].pos == b.runes@[i].start); }
    assert(a.runes@ =~= b.runes@);
    assert(mk_sl(a.runes@) == a.runes && mk_sl(b.runes@) == b.runes);
}
pub proof fn lemma_palts_step(ps: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, b: Seq<u8>, k: int, r1: Seq<Seq<u8>>, r2: Seq<Seq<u8>>)
    requires ps.len() > 0, 0 <= k < ps[0].alts.len(), r2 == r1 + prod(ps.drop_first(), cnt, max, dep, first, b + ps[0].alts[k])
    ensures first ==> r1 + palts(ps, cnt, max, dep, first, b, k) == r2, !first ==> r1 + palts(ps, cnt, max, dep, first, b, k) == r2 + palts(ps, cnt, max, dep, first, b, k + 1)
{
    let p = prod(ps.drop_first(), cnt, max, dep, first, b + ps[0].alts[k]);
    if first { assert(p + Seq::<Seq<u8>>::empty() =~= p); } else { assert(r1 + (p + palts(ps, cnt, max, dep, first, b, k + 1)) =~= r1 + p + palts(ps, cnt, max, dep, first, b, k + 1)); }
}
// ---- the first pair of brackets
pub open spec fn xnone(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> !xwild(#[trigger] s[i]) }
pub open spec fn gst(s: Seq<u8>, p: int, i: int) -> bool {
    if p == -1 { 0 <= i <= s.len() && xnone(s, 0, i) } else { 0 <= p < i <= s.len() && xnone(s, 0, p) && (s[p] == 91 || s[p] == 123) && xnone(s, p + 1, i) }
}
proof fn lemma_dec_cont(s: Seq<u8>)
    ensures forall|i: int| 1 <= i < dec_w(s) ==> #[trigger] s[i] >= 0x80
{}
pub proof fn lemma_gp(s: Seq<u8>, p: int, i: int)
    requires gst(s, p, i)
    ensures
        i == s.len() ==> gpair(s) == (p, -1int),
        i < s.len() && xwild(s[i]) && p == -1 && s[i] != 91 && s[i] != 123 ==> gpair(s) == (i, -1int),
        i < s.len() && xwild(s[i]) && p >= 0 ==> gpair(s) == (if (s[p] == 123 && s[i] == 125) || (s[p] == 91 && s[i] == 93) { (p, i) } else { (p, -1int) }),
        i < s.len() && xwild(s[i]) ==> s[i] < 0x80,
        i < s.len() && p == -1 && (s[i] == 91 || s[i] == 123) ==> gst(s, i, i + 1),
        i < s.len() && !xwild(s[i]) ==> gst(s, p, i + dec_w(from(s, i))),
{
    if i < s.len() {
        lemma_dec(from(s, i)); lemma_dec_cont(from(s, i));
        if !xwild(s[i]) {
            assert forall|k: int| i <= k < i + dec_w(from(s, i)) implies !xwild(#[trigger] s[k]) by { assert(s[k] == from(s, i)[k - i]); }
        }
    }
    if p >= 0 {
        lemma_fw_is(s, p);
        let t = from(s, p + 1);
        if i == s.len() || xwild(s[i]) {
            assert forall|k: int| 0 <= k < i - p - 1 implies !xwild(#[trigger] t[k]) by { assert(t[k] == s[k + p + 1]); }
            if i < s.len() { assert(t[i - p - 1] == s[i]); }
            lemma_fw_is(t, i - p - 1);
        }
    } else if i == s.len() || xwild(s[i]) {
        lemma_fw_is(s, i);
        if i < s.len() { lemma_fw(from(s, i + 1)); }
    }
}
// ---- the parser
pub proof fn lemma_eps_push()
    ensures forall|v: Seq<expand_Expression>, x: expand_Expression| #[trigger] eps(v.push(x)) == eps(v).push(ep(x)),
        forall|v: Seq<expand_Expression>, x: expand_Expression| efs(v) && eok(x) && fresh(x) ==> #[trigger] efs(v.push(x)),
{
    assert forall|v: Seq<expand_Expression>, x: expand_Expression| #[trigger] eps(v.push(x)) == eps(v).push(ep(x)) by { assert(eps(v.push(x)) =~= eps(v).push(ep(x))); }
    assert forall|v: Seq<expand_Expression>, x: expand_Expression| efs(v) && eok(x) && fresh(x) implies #[trigger] efs(v.push(x)) by {
        assert forall|i: int| 0 <= i < v.push(x).len() implies eok(#[trigger] v.push(x)[i]) && fresh(v.push(x)[i]) by { if i < v.len() { assert(eok(v[i])); } }
    }
}
pub open spec fn joined(v: Seq<expand_Expression>, w: Seq<expand_Expression>, x: Seq<u8>) -> bool {
    &&& v.len() > 0 && w.len() == v.len() && w.drop_last() =~= v.drop_last()
    &&& v.last().typ == 0 && w.last().typ == 0 && w.last().pos == v.last().pos && w.last().runes == v.last().runes && w.last().body@ == v.last().body@ + x
}
pub proof fn lemma_joined(v: Seq<expand_Expression>, w: Seq<expand_Expression>, x: Seq<u8>, r: Seq<Ep>, full: Seq<Ep>)
    requires efs(v), joined(v, w, x)
    ensures efs(w), eqv(eps(v) + (seq![fixE(x)] + r), full) ==> eqv(eps(w) + r, full)
{
    reveal(eok);
    lemma_efs_npos(v);
    assert(eok(v.last()) && fresh(v.last()));
    assert forall|i: int| 0 <= i < w.len() implies eok(#[trigger] w[i]) && fresh(w[i]) by { if i < w.len() - 1 { assert(w[i] == w.drop_last()[i]); assert(v[i] == v.drop_last()[i]); assert(eok(v[i])); } }
    let c = eps(v); let d = eps(w); let l = v.last().body@;
    assert(d =~= c.drop_last().push(fixE(l + x))) by {
        assert forall|i: int| 0 <= i < d.len() implies d[i] == c.drop_last().push(fixE(l + x))[i] by { if i < w.len() - 1 { assert(w[i] == w.drop_last()[i]); assert(v[i] == v.drop_last()[i]); } }
    }
    lemma_step_join(c, d, l, x, r);
    if eqv(c + (seq![fixE(x)] + r), full) { lemma_eqv_trans(d + r, c + (seq![fixE(x)] + r), full); }
}
// the rest after a group is taken
pub proof fn lemma_taken(v: Seq<expand_Expression>, w: Seq<expand_Expression>, g: expand_Expression, r: Seq<Ep>, full: Seq<Ep>, x: bool)
    requires efs(v), eok(g), fresh(g), x ==> eqv(eps(v) + (seq![ep(g)] + r), full),
        w == v.push(g) || (g.typ == 0 && joined(v, w, g.body@)) || (g.typ == 0 && g.body@.len() == 0 && w == v),
    ensures efs(w), x ==> eqv(eps(w) + r, full)
{
    lemma_eps_push();
    let b = g.body@;
    if w == v.push(g) { assert(eps(w) + r =~= eps(v) + (seq![ep(g)] + r)); }
    else if g.typ == 0 && joined(v, w, b) { lemma_joined(v, w, b, r, full); }
    else {
        lemma_efs_npos(v);
        lemma_step_fix(eps(v), eps(v), b, r);
        if x { lemma_eqv_trans(eps(w) + r, eps(v) + (seq![fixE(b)] + r), full); }
    }
}
pub open spec fn xstr(t: i8, b: Str) -> expand_Expression { expand_Expression { typ: t, body: b, list: mk_sl(Seq::empty()), runes: mk_sl(Seq::empty()), pos: 0 } }
pub proof fn lemma_fresh()
    ensures forall|e: expand_Expression| (e.typ == 0 || e.typ == 1) && e.pos == 0 && e.runes@.len() == 0 ==> #[trigger] eok(e) && fresh(e)
{ reveal(eok); }
pub proof fn lemma_efs_npos(v: Seq<expand_Expression>)
    requires efs(v)
    ensures npos(eps(v))
{ assert forall|i: int| 0 <= i < v.len() implies eok(#[trigger] v[i]) by { } lemma_npos(v); }
pub proof fn lemma_gfirst(s: Seq<u8>)
    ensures ({
        let (p, q) = gpair(s);
        &&& (q < 0 && p <= 0 ==> eqv(seq![fixE(s)], eparse(s)) && eqv(Seq::<Ep>::empty().push(fixE(s)), eparse(s)))
        &&& (q < 0 && p > 0 ==> eqv(seq![fixE(s.subrange(0, p))].push(fixE(from(s, p))), eparse(s)))
    })
{
    lemma_gpair(s);
    let (p, q) = gpair(s);
    let e = Seq::<Ep>::empty();
    lemma_eqv_refl(eparse(s));
    assert(seq![fixE(s)] =~= e.push(fixE(s)));
    if q < 0 {
        if s.len() == 0 { assert(s =~= Seq::empty()); lemma_eqv_fix0(e); assert(seq![fixE(s)] + e =~= seq![fixE(s)]); }
        else if p < 0 { lemma_eparse(s); }
        else {
            lemma_eparse(s);
            let y = seq![fixE(from(s, p))] + e;
            if p == 0 {
                assert(from(s, 0) =~= s && s.subrange(0, 0) =~= Seq::empty());
                lemma_eqv_fix0(y);
                lemma_eqv_sym(seq![fixE(Seq::empty())] + y, y);
                assert(y =~= seq![fixE(s)]);
            } else { assert(seq![fixE(s.subrange(0, p))].push(fixE(from(s, p))) =~= eparse(s)); }
        }
    }
}
pub proof fn lemma_cut2(c: Seq<Ep>, s: Seq<u8>, k: int, full: Seq<Ep>)
    requires npos(c), 0 <= k <= s.len()
    ensures eqv(c.push(fixE(s)), full) ==> eqv(c.push(fixE(s.subrange(0, k))).push(fixE(from(s, k))), full)
{
    lemma_step_cut(c, s.subrange(0, k), from(s, k));
    assert(s.subrange(0, k) + from(s, k) =~= s);
    if eqv(c.push(fixE(s)), full) { lemma_eqv_trans(c.push(fixE(s.subrange(0, k))).push(fixE(from(s, k))), c.push(fixE(s)), full); }
}
// the text before the group is taken, or all when there is no group
pub open spec fn pre1(c: Seq<Ep>, x: Seq<u8>) -> Seq<Ep> { if x.len() > 0 { c.push(fixE(x)) } else { c } }
pub proof fn lemma_round(t: Seq<u8>, v: Seq<expand_Expression>, full: Seq<Ep>, x: bool)
    requires efs(v), t.len() > 0, x ==> xok(t) && eqv(eps(v) + eparse(t), full)
    ensures ({
        let (p, q) = gpair(t);
        let c = eps(v);
        let d = pre1(c, t.subrange(0, p));
        &&& (p < 0 && x ==> eqv(c.push(fixE(t)), full))
        &&& (p >= 0 && q < 0 && x ==> eqv(d.push(fixE(from(t, p))), full))
        &&& (q >= 0 && x ==> eqv(d + (seq![group(t.subrange(p, q + 1))] + eparse(from(t, q + 1))), full))
    })
{
    let (p, q) = gpair(t);
    let c = eps(v);
    let d = pre1(c, t.subrange(0, p));
    lemma_gpair(t);
    lemma_eparse(t);
    lemma_efs_npos(v);
    if x {
        if p < 0 { assert(c + seq![fixE(t)] =~= c.push(fixE(t))); }
        else {
            let r = if q < 0 { seq![fixE(from(t, p))] + Seq::<Ep>::empty() } else { seq![group(t.subrange(p, q + 1))] + eparse(from(t, q + 1)) };
            lemma_step_fix(c, d, t.subrange(0, p), r);
            lemma_eqv_trans(d + r, c + (seq![fixE(t.subrange(0, p))] + r), full);
            if q < 0 { assert(d + r =~= d.push(fixE(from(t, p)))); }
        }
    }
}
pub open spec fn specials() -> Seq<u8> { Seq::<u8>::empty().push(91u8).push(93u8).push(123u8).push(125u8).push(42u8).push(63u8) }
pub proof fn lemma_specials(s: Seq<u8>)
    ensures forall|b: u8| xwild(b) ==> #[trigger] specials().contains(b), gpair(s).0 >= 0 ==> gpair(s).0 < s.len() && specials().contains(s[gpair(s).0]) && s[gpair(s).0] < 128
{
    let w = specials();
    assert(w[0] == 91 && w[1] == 93 && w[2] == 123 && w[3] == 125 && w[4] == 42 && w[5] == 63);
    assert forall|b: u8| xwild(b) implies #[trigger] w.contains(b) by { }
    lemma_fw(s);
}
pub proof fn lemma_nbyte2(a: Seq<u8>, x: u8, y: u8)
    requires x != y
    ensures 0 <= nbyte(a, x) + nbyte(a, y) <= a.len(), nbyte(a, x) >= 0, nbyte(a, y) >= 0
    decreases a.len()
{ if a.len() > 0 { lemma_nbyte2(a.drop_last(), x, y); } }
pub proof fn lemma_cutefs(v: Seq<expand_Expression>, w: Seq<expand_Expression>)
    requires efs(v), v.len() > 0, v.last().typ == 1, w.len() == v.len() + 1, w.subrange(0, v.len() - 1) =~= v.drop_last(),
        w[v.len() - 1] == (expand_Expression { body: w[v.len() - 1].body, ..v.last() }), w.last().typ == 0, w.last().pos == 0, w.last().runes@.len() == 0
    ensures efs(w)
{
    reveal(eok);
    assert(eok(v.last()) && fresh(v.last()));
    assert forall|i: int| 0 <= i < w.len() implies eok(#[trigger] w[i]) && fresh(w[i]) by { if i < v.len() - 1 { assert(w[i] == w.subrange(0, v.len() - 1)[i]); assert(v[i] == v.drop_last()[i]); assert(eok(v[i])); } }
}
pub open spec fn cutlast(v: Seq<expand_Expression>, w: Seq<expand_Expression>, a: expand_Expression, b: expand_Expression) -> bool {
    &&& v.len() > 0 && v.last().typ == 1 && w == v.update(v.len() - 1, a).push(b)
    &&& a == (expand_Expression { body: a.body, ..v.last() }) && b.typ == 0 && b.pos == 0 && b.runes@.len() == 0
    &&& a.body@.len() <= v.last().body@.len() && a.body@ == v.last().body@.subrange(0, a.body@.len() as int) && b.body@ == from(v.last().body@, a.body@.len() as int)
}
pub proof fn lemma_final(v: Seq<expand_Expression>, w: Seq<expand_Expression>, full: Seq<Ep>, x: bool)
    requires efs(v), x ==> eqv(eps(v), full), w == v || (w.len() == v.len() + 1 && cutlast(v, w, w[v.len() - 1], w.last()))
    ensures efs(w), x ==> eqv(eps(w), full)
{
    if w != v {
        let n = v.len() - 1;
        lemma_cutefs(v, w);
        lemma_efs_npos(v);
        let c = eps(v.drop_last());
        let s = v.last().body@;
        let k = w[n].body@.len() as int;
        assert(npos(c)) by { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).n >= 1 by { assert(eps(v)[i].n >= 1); } }
        assert(eps(v) =~= c.push(fixE(s)));
        lemma_cut2(c, s, k, full);
        assert(eps(w) =~= c.push(fixE(s.subrange(0, k))).push(fixE(from(s, k))));
    }
}
// w is v with g taken
pub open spec fn took(v: Seq<expand_Expression>, w: Seq<expand_Expression>, g: expand_Expression) -> bool {
    w == v.push(g) || (g.typ == 0 && g.body@.len() == 0 && w == v)
    || (g.typ == 0 && v.len() > 0 && v.last().typ == 0 && w == v.update(v.len() - 1, w.last()) && w.last() == (expand_Expression { body: w.last().body, ..v.last() }) && w.last().body@ == v.last().body@ + g.body@)
}
pub open spec fn tookok(w: Seq<expand_Expression>, r: Seq<Ep>, full: Seq<Ep>, x: bool) -> bool {
    efs(w) && (x ==> eqv(eps(w) + r, full)) && (x && r.len() == 0 ==> eqv(eps(w), full))
}
pub proof fn lemma_taken_all(v: Seq<expand_Expression>, g: expand_Expression, r: Seq<Ep>, full: Seq<Ep>, x: bool)
    requires efs(v), eok(g), fresh(g), x ==> eqv(eps(v) + (seq![ep(g)] + r), full)
    ensures forall|w: Seq<expand_Expression>| took(v, w, g) ==> #[trigger] tookok(w, r, full, x)
{
    assert forall|w: Seq<expand_Expression>| took(v, w, g) implies #[trigger] tookok(w, r, full, x) by {
        if w != v.push(g) && w != v { assert(joined(v, w, g.body@)) by { assert(w.drop_last() =~= v.drop_last()); } }
        lemma_taken(v, w, g, r, full, x);
        if r.len() == 0 { assert(eps(w) + r =~= eps(w)); }
    }
}
pub open spec fn sl_to0(b: Seq<u8>) -> Seq<u8> { b.subrange(0, 0) }
pub proof fn lemma_mulb(c: int, n: int)
    requires 1 <= c <= 1024, 1 <= n <= MAXL
    ensures 1 <= c * n <= 1024 * MAXL
{ assert(1 <= c * n <= 1024 * MAXL) by (nonlinear_arith) requires 1 <= c <= 1024, 1 <= n <= MAXL; }
pub proof fn lemma_prod1(b: Seq<u8>, max: int, dep: int, first: bool)
    ensures prod(seq![fixE(b)], 1, max, dep, first, Seq::empty()) == seq![b]
{
    let e = Seq::<u8>::empty();
    let y = seq![fixE(b)];
    assert(y.drop_first() =~= Seq::<Ep>::empty());
    assert(cat(y.drop_first()) =~= e);
    assert(cat(y) =~= b);
    assert(e + b =~= b);
    let d2 = if dep > 0 { dep - nbyte(b, 46) } else { dep };
    let c2 = if max > 0 { 1 * y[0].n } else { 1int };
    assert(c2 == 1);
    if max == 0 || (dep > 0 && d2 <= 1) {} else {
        assert(palts(y, c2, max, d2, first, e, 1) =~= Seq::empty());
        assert(prod(y.drop_first(), c2, max, d2, first, e + b) =~= seq![b]);
        assert(palts(y, c2, max, d2, first, e, 0) =~= seq![b]);
    }
}
pub proof fn lemma_expanded(s: Seq<u8>, max: int, depth: int, first: bool)
    ensures forall|ps: Seq<Ep>| eqv(ps, eparse(s)) ==> #[trigger] prod(ps, 1, max, dplus(depth), first, Seq::empty()) == expanded(s, max, depth, first)
{
    assert forall|ps: Seq<Ep>| eqv(ps, eparse(s)) implies #[trigger] prod(ps, 1, max, dplus(depth), first, Seq::empty()) == expanded(s, max, depth, first) by {
        lemma_eqv_use(ps, eparse(s), 1, max, dplus(depth), first, Seq::empty());
    }
}
// ---- the properties of the expansion
// nothing limits it: the ordered product of all alternatives
pub open spec fn product(ps: Seq<Ep>, b: Seq<u8>) -> Seq<Seq<u8>> decreases ps.len(), 1int, 0int {
    if ps.len() == 0 { seq![b] } else { product_from(ps, b, 0) }
}
pub open spec fn product_from(ps: Seq<Ep>, b: Seq<u8>, k: int) -> Seq<Seq<u8>> decreases ps.len(), 0int, ps[0].alts.len() - k + 1 {
    if ps.len() == 0 || k < 0 || k >= ps[0].alts.len() { Seq::empty() } else { product(ps.drop_first(), b + ps[0].alts[k]) + product_from(ps, b, k + 1) }
}
pub proof fn theorem_product(ps: Seq<Ep>, cnt: int, max: int, dep: int, b: Seq<u8>)
    requires max < 0, dep <= 0
    ensures prod(ps, cnt, max, dep, false, b) == product(ps, b)
    decreases ps.len(), 1int, 0int
{ if ps.len() > 0 { lemma_product_from(ps, cnt, max, dep, b, 0); } }
proof fn lemma_product_from(ps: Seq<Ep>, cnt: int, max: int, dep: int, b: Seq<u8>, k: int)
    requires max < 0, dep <= 0, ps.len() > 0, 0 <= k
    ensures palts(ps, cnt, max, dep, false, b, k) == product_from(ps, b, k)
    decreases ps.len(), 0int, ps[0].alts.len() - k + 1
{
    if k < ps[0].alts.len() {
        theorem_product(ps.drop_first(), cnt, max, dep, b + ps[0].alts[k]);
        lemma_product_from(ps, cnt, max, dep, b, k + 1);
    }
}
// a limit bounds the number of the results; there is at least one
pub open spec fn altn(ps: Seq<Ep>) -> bool { forall|i: int| 0 <= i < ps.len() ==> 1 <= (#[trigger] ps[i]).alts.len() <= ps[i].n }
pub proof fn theorem_limit(ps: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, b: Seq<u8>)
    requires cnt >= 1, max > 0 ==> cnt <= max, altn(ps)
    ensures prod(ps, cnt, max, dep, first, b).len() >= 1,
        max > 0 ==> cnt * prod(ps, cnt, max, dep, first, b).len() <= max,
        max == 0 ==> prod(ps, cnt, max, dep, first, b) == seq![b + cat(ps)],
        first ==> prod(ps, cnt, max, dep, first, b).len() == 1,
    decreases ps.len(), 1int, 0int
{
    if ps.len() == 0 { assert(b + cat(ps) =~= b); assert(cnt * 1 == cnt); }
    else if max == 0 {}
    else {
        let p = ps[0];
        assert(1 <= p.alts.len() <= p.n);
        let c2 = if max > 0 { cnt * p.n } else { cnt };
        let d2 = if p.fix && dep > 0 { dep - nbyte(p.body, 46) } else { dep };
        if (max > 0 && c2 > max) || (p.fix && dep > 0 && d2 <= 1) { assert(cnt * 1 == cnt); }
        else {
            assert(cnt * p.n >= 1) by (nonlinear_arith) requires cnt >= 1, p.n >= 1;
            lemma_palts_limit(ps, c2, max, d2, first, b, 0);
            if max > 0 {
                let l = palts(ps, c2, max, d2, first, b, 0).len() as int;
                let m = p.alts.len() as int;
                // c2 * l <= m * max, and m <= n
                assert(cnt * l <= max) by (nonlinear_arith) requires c2 == cnt * p.n, c2 * l <= m * max, 1 <= m <= p.n, cnt >= 1, l >= 0, max > 0;
            }
        }
    }
}
proof fn lemma_palts_limit(ps: Seq<Ep>, cnt: int, max: int, dep: int, first: bool, b: Seq<u8>, k: int)
    requires cnt >= 1, max > 0 ==> cnt <= max, max != 0, altn(ps), ps.len() > 0, 0 <= k <= ps[0].alts.len()
    ensures k < ps[0].alts.len() ==> palts(ps, cnt, max, dep, first, b, k).len() >= 1,
        max > 0 ==> cnt * palts(ps, cnt, max, dep, first, b, k).len() <= (ps[0].alts.len() - k) * max,
        first && k < ps[0].alts.len() ==> palts(ps, cnt, max, dep, first, b, k).len() == 1,
    decreases ps.len(), 0int, ps[0].alts.len() - k + 1
{
    if k < ps[0].alts.len() {
        let t = ps.drop_first();
        assert(altn(t)) by { assert forall|i: int| 0 <= i < t.len() implies 1 <= (#[trigger] t[i]).alts.len() <= t[i].n by { assert(t[i] == ps[i + 1]); } }
        theorem_limit(t, cnt, max, dep, first, b + ps[0].alts[k]);
        if !first { lemma_palts_limit(ps, cnt, max, dep, first, b, k + 1); }
        if max > 0 {
            let x = prod(t, cnt, max, dep, first, b + ps[0].alts[k]).len() as int;
            let y = if first { 0 } else { palts(ps, cnt, max, dep, first, b, k + 1).len() as int };
            let r = ps[0].alts.len() - k;
            assert(palts(ps, cnt, max, dep, first, b, k).len() == x + y);
            assert(cnt * (x + y) <= r * max) by (nonlinear_arith) requires cnt * x <= max, first_or(first, cnt * y, (r - 1) * max), r >= 1, max > 0, first ==> y == 0;
        }
    } else { assert(palts(ps, cnt, max, dep, first, b, k).len() == 0); assert(cnt * 0 == 0); assert((ps[0].alts.len() - k) * max == 0) by (nonlinear_arith) requires ps[0].alts.len() - k == 0; }
}
spec fn first_or(f: bool, a: int, b: int) -> bool { f || a <= b }
// the pieces of a text have alternatives
pub proof fn theorem_pieces(s: Seq<u8>)
    requires xok(s)
    ensures altn(eparse(s))
    decreases s.len()
{
    if s.len() > 0 {
        lemma_gpair(s);
        let (p, q) = gpair(s);
        if q >= 0 { theorem_pieces(from(s, q + 1)); }
        assert forall|i: int| 0 <= i < eparse(s).len() implies 1 <= (#[trigger] eparse(s)[i]).alts.len() <= eparse(s)[i].n by { if q >= 0 && i >= 2 { assert(eparse(s)[i] == eparse(from(s, q + 1))[i - 2]); } else if q >= 0 && i == 1 { assert(split_b(s.subrange(p, q + 1).subrange(1, q - p), 44).len() > 0); } }
    }
}
// C19, C20: on every text whose classes hold no NUL and no U+FFFD
pub proof fn theorem_expand(s: Seq<u8>, max: int, depth: int)
    requires xok(s)
    ensures
        max < 0 && depth <= 0 ==> expanded(s, max, depth, false) == product(eparse(s), Seq::empty()),
        expanded(s, max, depth, false).len() >= 1,
        max > 0 ==> expanded(s, max, depth, false).len() <= max,
        max == 0 ==> expanded(s, max, depth, false) == seq![cat(eparse(s))],
        expanded(s, max, depth, true).len() == 1,
{
    let e = Seq::<u8>::empty();
    theorem_pieces(s);
    if max < 0 && depth <= 0 { theorem_product(eparse(s), 1, max, depth, e); }
    theorem_limit(eparse(s), 1, max, dplus(depth), false, e);
    theorem_limit(eparse(s), 1, max, dplus(depth), true, e);
    assert(e + cat(eparse(s)) =~= cat(eparse(s)));
}
