// The escaping of URL parts.

pub open spec fn unres(c: u8) -> bool {
    97 <= c <= 122 || 65 <= c <= 90 || 48 <= c <= 57 || c == 45 || c == 95 || c == 46 || c == 126
}
// $ & + , / : ; = @
pub open spec fn path_ok(c: u8) -> bool {
    c == 36 || c == 38 || c == 43 || c == 44 || c == 47 || c == 58 || c == 59 || c == 61 || c == 64
}
// mode 1 is a path, mode 6 a query
#[verifier::opaque]
pub open spec fn esc_must(c: u8, mode: int) -> bool { !unres(c) && !(mode == 1 && path_ok(c)) }
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn esc_b(c: u8, mode: int) -> Seq<u8> {
    if !esc_must(c, mode) { seq![c] }
    else if c == 32 && mode == 6 { seq![43u8] }
    else { seq![37u8, hexd(c as int / 16), hexd(c as int % 16)] }
}
pub open spec fn esc(s: Seq<u8>, mode: int) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { esc(s.drop_last(), mode) + esc_b(s.last(), mode) }
}
pub open spec fn esc_to(s: Seq<u8>, mode: int, i: int) -> Seq<u8> { esc(s.subrange(0, i), mode) }
pub proof fn lemma_esc_step(s: Seq<u8>, mode: int, i: int)
    requires 0 <= i < s.len()
    ensures esc_to(s, mode, i + 1) == esc_to(s, mode, i) + esc_b(s[i], mode), esc_to(s, mode, s.len() as int) == esc(s, mode)
{
    assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i));
    assert(s.subrange(0, s.len() as int) =~= s);
}
pub proof fn lemma_esc_mono(s: Seq<u8>, mode: int, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures i <= esc_to(s, mode, i).len() <= 3 * i, esc_to(s, mode, i).len() <= esc_to(s, mode, j).len()
    decreases j + i
{
    if i > 0 { lemma_esc_step(s, mode, i - 1); lemma_esc_mono(s, mode, i - 1, i - 1); }
    if i < j { lemma_esc_step(s, mode, j - 1); lemma_esc_mono(s, mode, i, j - 1); }
}
// all bytes are written as one byte
pub proof fn lemma_esc_flat(s: Seq<u8>, mode: int)
    requires forall|k: int| 0 <= k < s.len() ==> esc_b(#[trigger] s[k], mode).len() == 1
    ensures esc(s, mode).len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] esc(s, mode)[k] == esc_b(s[k], mode)[0]
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies esc_b(#[trigger] t[k], mode).len() == 1 by { assert(t[k] == s[k]); }
        lemma_esc_flat(t, mode);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] esc(s, mode)[k] == esc_b(s[k], mode)[0] by {
            if k < t.len() { assert(t[k] == s[k]); assert(esc(t, mode)[k] == esc_b(t[k], mode)[0]); }
        }
    }
}
pub proof fn lemma_nib(c: u8)
    ensures (c >> 4u32) as int == c as int / 16, (c & 15u8) as int == c as int % 16, (c >> 4u32) < 16, (c & 15u8) < 16
{
    assert((c >> 4u32) == c / 16 && (c & 15u8) == c % 16) by (bit_vector);
}

// ---- unescaping
pub open spec fn is_hexd(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 102 || 65 <= c <= 70 }
pub open spec fn hexv(c: u8) -> int {
    if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 102 { c - 87 } else if 65 <= c <= 70 { c - 55 } else { 0 }
}
pub open spec fn unesc(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == 37 {
        if s.len() < 3 { s }
        else if is_hexd(s[1]) && is_hexd(s[2]) { seq![(hexv(s[1]) * 16 + hexv(s[2])) as u8] + unesc(from(s, 3)) }
        else { s.subrange(0, 3) + unesc(from(s, 3)) }
    }
    else if s[0] == 43 { seq![32u8] + unesc(from(s, 1)) }
    else { seq![s[0]] + unesc(from(s, 1)) }
}
pub proof fn lemma_unhex(a: u8, b: u8)
    requires a < 16, b < 16
    ensures ((a << 4u32) | b) as int == a * 16 + b
{
    assert(a < 16 && b < 16 ==> ((a << 4u32) | b) == a * 16 + b) by (bit_vector);
}
// a prefix without % and + is kept
pub proof fn lemma_unesc_plain(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> #[trigger] s[k] != 37 && s[k] != 43
    ensures unesc(s) == s.subrange(0, n) + unesc(from(s, n))
    decreases n
{
    if n == 0 {
        assert(from(s, 0) =~= s);
        assert(unesc(s) =~= s.subrange(0, 0) + unesc(from(s, 0)));
    } else {
        let t = from(s, 1);
        assert forall|k: int| 0 <= k < n - 1 implies #[trigger] t[k] != 37 && t[k] != 43 by { assert(t[k] == s[k + 1]); }
        lemma_unesc_plain(t, n - 1);
        assert(from(t, n - 1) =~= from(s, n));
        assert(s[0] != 37 && s[0] != 43);
        assert(seq![s[0]] + t.subrange(0, n - 1) =~= s.subrange(0, n));
        assert(unesc(s) =~= s.subrange(0, n) + unesc(from(s, n)));
    }
}
pub proof fn lemma_unesc_none(s: Seq<u8>)
    requires forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != 37 && s[k] != 43
    ensures unesc(s) == s
{
    lemma_unesc_plain(s, s.len() as int);
    assert(s.subrange(0, s.len() as int) + unesc(from(s, s.len() as int)) =~= s);
}
proof fn lemma_hexd(n: int)
    requires 0 <= n < 16
    ensures is_hexd(hexd(n)), hexv(hexd(n)) == n
{}
pub proof fn lemma_must(mode: int)
    ensures esc_must(32, mode), esc_must(37, mode), mode == 6 ==> esc_must(43, mode)
{
    reveal(esc_must);
}
// unescaping one escaped byte
proof fn lemma_unesc_one(c: u8, t: Seq<u8>)
    ensures unesc(esc_b(c, 6) + t) == seq![c] + unesc(t)
{
    let e = esc_b(c, 6);
    let s = e + t;
    lemma_must(6);
    lemma_hexd(c as int / 16);
    lemma_hexd(c as int % 16);
    assert(from(s, e.len() as int) =~= t);
    if esc_must(c, 6) && c != 32 {
        assert(s[0] == 37 && s[1] == hexd(c as int / 16) && s[2] == hexd(c as int % 16));
        assert((hexv(s[1]) * 16 + hexv(s[2])) as u8 == c);
    } else {
        assert(s[0] == e[0]);
    }
}
proof fn lemma_unesc_cat(s: Seq<u8>, t: Seq<u8>)
    ensures unesc(esc(s, 6) + t) == s + unesc(t)
    decreases s.len()
{
    if s.len() == 0 {
        assert(esc(s, 6) + t =~= t);
        assert(s + unesc(t) =~= unesc(t));
    } else {
        let p = s.drop_last();
        let e = esc_b(s.last(), 6);
        lemma_unesc_cat(p, e + t);
        lemma_unesc_one(s.last(), t);
        assert(esc(s, 6) + t =~= esc(p, 6) + (e + t));
        assert(p + (seq![s.last()] + unesc(t)) =~= s + unesc(t));
    }
}
// unescaping an escaped query gives it back
pub proof fn lemma_unesc_esc(s: Seq<u8>)
    ensures unesc(esc(s, 6)) == s
{
    lemma_unesc_cat(s, Seq::empty());
    assert(esc(s, 6) + Seq::<u8>::empty() =~= esc(s, 6));
    assert(s + unesc(Seq::<u8>::empty()) =~= s);
}
// "__name__="
pub open spec fn name_eq() -> Seq<u8> { seq![95u8, 95u8, 110u8, 97u8, 109u8, 101u8, 95u8, 95u8, 61u8] }
pub proof fn lemma_unesc_set()
    ensures forall|x: u8| #[trigger] Seq::<u8>::empty().push(37u8).push(43u8).contains((x as int) as u8) == (x == 37 || x == 43), ascii(Seq::<u8>::empty().push(37u8).push(43u8))
{
    let s = Seq::<u8>::empty().push(37u8).push(43u8);
    assert(s[0] == 37 && s[1] == 43);
}
