// Sets of ASCII symbols and of symbol ranges.

pub open spec fn bit32(w: u32, k: int) -> bool { (w & (1u32 << (k as u32))) != 0 }
// the symbol c is in the ASCII set
pub open spec fn ain(a: Ar<u32, 8>, c: int) -> bool { 0 <= c < 128 && bit32(a@[c / 32], c % 32) }
// the unused words are zero
pub open spec fn aok(a: Ar<u32, 8>) -> bool { a@[4] == 0 && a@[5] == 0 && a@[6] == 0 && a@[7] == 0 }

pub proof fn lemma_bit_or(w: u32, k: u32, j: u32)
    requires k < 32, j < 32
    ensures ((w | (1u32 << k)) & (1u32 << j)) != 0 <==> ((w & (1u32 << j)) != 0 || j == k)
{
    assert(k < 32 && j < 32 ==> ((((w | (1u32 << k)) & (1u32 << j)) != 0) <==> ((w & (1u32 << j)) != 0 || j == k))) by (bit_vector);
}
pub proof fn lemma_bit_oror(w: u32, v: u32, j: u32)
    requires j < 32
    ensures ((w | v) & (1u32 << j)) != 0 <==> ((w & (1u32 << j)) != 0 || (v & (1u32 << j)) != 0)
{
    assert(j < 32 ==> ((((w | v) & (1u32 << j)) != 0) <==> ((w & (1u32 << j)) != 0 || (v & (1u32 << j)) != 0))) by (bit_vector);
}
pub proof fn lemma_bit_zero(w: u32)
    ensures w == 0 <==> forall|j: int| 0 <= j < 32 ==> !#[trigger] bit32(w, j)
{
    if w == 0 {
        assert forall|j: int| 0 <= j < 32 implies !#[trigger] bit32(w, j) by {
            let k = j as u32;
            assert((0u32 & (1u32 << k)) == 0) by (bit_vector);
        }
    } else {
        if forall|j: int| 0 <= j < 32 ==> !#[trigger] bit32(w, j) {
            lemma_bits_none(w);
        }
    }
}
proof fn lemma_bits_none(w: u32)
    requires forall|j: int| 0 <= j < 32 ==> !#[trigger] bit32(w, j)
    ensures w == 0
{
    assert(!bit32(w, 0) && !bit32(w, 1) && !bit32(w, 2) && !bit32(w, 3) && !bit32(w, 4) && !bit32(w, 5) && !bit32(w, 6) && !bit32(w, 7));
    assert(!bit32(w, 8) && !bit32(w, 9) && !bit32(w, 10) && !bit32(w, 11) && !bit32(w, 12) && !bit32(w, 13) && !bit32(w, 14) && !bit32(w, 15));
    assert(!bit32(w, 16) && !bit32(w, 17) && !bit32(w, 18) && !bit32(w, 19) && !bit32(w, 20) && !bit32(w, 21) && !bit32(w, 22) && !bit32(w, 23));
    assert(!bit32(w, 24) && !bit32(w, 25) && !bit32(w, 26) && !bit32(w, 27) && !bit32(w, 28) && !bit32(w, 29) && !bit32(w, 30) && !bit32(w, 31));
    assert((w & (1u32 << 0u32)) == 0 && (w & (1u32 << 1u32)) == 0 && (w & (1u32 << 2u32)) == 0 && (w & (1u32 << 3u32)) == 0
        && (w & (1u32 << 4u32)) == 0 && (w & (1u32 << 5u32)) == 0 && (w & (1u32 << 6u32)) == 0 && (w & (1u32 << 7u32)) == 0
        && (w & (1u32 << 8u32)) == 0 && (w & (1u32 << 9u32)) == 0 && (w & (1u32 << 10u32)) == 0 && (w & (1u32 << 11u32)) == 0
        && (w & (1u32 << 12u32)) == 0 && (w & (1u32 << 13u32)) == 0 && (w & (1u32 << 14u32)) == 0 && (w & (1u32 << 15u32)) == 0
        && (w & (1u32 << 16u32)) == 0 && (w & (1u32 << 17u32)) == 0 && (w & (1u32 << 18u32)) == 0 && (w & (1u32 << 19u32)) == 0
        && (w & (1u32 << 20u32)) == 0 && (w & (1u32 << 21u32)) == 0 && (w & (1u32 << 22u32)) == 0 && (w & (1u32 << 23u32)) == 0
        && (w & (1u32 << 24u32)) == 0 && (w & (1u32 << 25u32)) == 0 && (w & (1u32 << 26u32)) == 0 && (w & (1u32 << 27u32)) == 0
        && (w & (1u32 << 28u32)) == 0 && (w & (1u32 << 29u32)) == 0 && (w & (1u32 << 30u32)) == 0 && (w & (1u32 << 31u32)) == 0
        ==> w == 0) by (bit_vector);
}
// no word set <==> no symbol
pub open spec fn aempty(a: Ar<u32, 8>) -> bool { forall|c: int| !#[trigger] ain(a, c) }
pub proof fn lemma_aempty(a: Ar<u32, 8>)
    requires aok(a)
    ensures aempty(a) <==> (forall|i: int| 0 <= i < 8 ==> #[trigger] a@[i] == 0)
{
    lemma_bit_zero(a@[0]); lemma_bit_zero(a@[1]); lemma_bit_zero(a@[2]); lemma_bit_zero(a@[3]);
    if aempty(a) {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] a@[i] == 0 by {
            if i < 4 {
                assert forall|j: int| 0 <= j < 32 implies !#[trigger] bit32(a@[i], j) by {
                    assert(!ain(a, i * 32 + j));
                    assert((i * 32 + j) / 32 == i && (i * 32 + j) % 32 == j);
                }
                lemma_bit_zero(a@[i]);
            }
        }
    }
    if forall|i: int| 0 <= i < 8 ==> #[trigger] a@[i] == 0 {
        assert forall|c: int| !#[trigger] ain(a, c) by {
            if 0 <= c < 128 { assert(a@[c / 32] == 0); lemma_bit_zero(a@[c / 32]); }
        }
    }
}
// what adding c does
pub open spec fn aadd(a: Ar<u32, 8>, b: Ar<u32, 8>, c: int) -> bool {
    aok(b) && forall|x: int| #[trigger] ain(b, x) == (ain(a, x) || (x == c && 0 <= c < 128))
}
pub proof fn lemma_aadd(a: Ar<u32, 8>, b: Ar<u32, 8>, c: u8)
    requires aok(a), c < 128, b@ == a@.update((c / 32) as int, a@[(c / 32) as int] | (1u32 << ((c % 32) as u32)))
    ensures aadd(a, b, c as int)
{
    assert forall|x: int| #[trigger] ain(b, x) == (ain(a, x) || x == c) by {
        if 0 <= x < 128 {
            let i = x / 32;
            if i == (c / 32) as int {
                lemma_bit_or(a@[i], (c % 32) as u32, (x % 32) as u32);
                assert((x % 32) == (c % 32) as int <==> x == c);
            } else {
                assert(x != c);
            }
        }
    }
}
// the count of symbols of the set in [1, n)
pub open spec fn acount(a: Ar<u32, 8>, n: int) -> int decreases n {
    if n <= 1 { 0 } else { acount(a, n - 1) + if ain(a, n - 1) { 1int } else { 0 } }
}
pub proof fn lemma_acount(a: Ar<u32, 8>, n: int)
    ensures 0 <= acount(a, n), n >= 1 ==> acount(a, n) <= n - 1,
        acount(a, n) == 0 <==> forall|c: int| 1 <= c < n ==> !#[trigger] ain(a, c)
    decreases n
{ if n > 1 { lemma_acount(a, n - 1); } }
// the symbols of the set in [1, n), in order
pub open spec fn asyms(a: Ar<u32, 8>, n: int) -> Seq<u8> decreases n {
    if n <= 1 { Seq::empty() } else if ain(a, n - 1) { asyms(a, n - 1).push((n - 1) as u8) } else { asyms(a, n - 1) }
}
// the class text of the symbols in [1, n): each run as first[-last]; st is the start of a run that reaches n (0 if none)
pub open spec fn arun(a: Ar<u32, 8>, n: int) -> int decreases n {
    if n <= 1 || !ain(a, n - 1) { 0 } else if arun(a, n - 1) != 0 { arun(a, n - 1) } else { n - 1 }
}
pub open spec fn runtext(x: int, y: int) -> Seq<u8> {
    if y > x { seq![x as u8, 45u8, y as u8] } else { seq![x as u8] }
}
pub open spec fn aruns(a: Ar<u32, 8>, n: int) -> Seq<u8> decreases n {
    if n <= 1 { Seq::empty() }
    else if !ain(a, n - 1) && arun(a, n - 1) != 0 { aruns(a, n - 1) + runtext(arun(a, n - 1), n - 2) }
    else { aruns(a, n - 1) }
}
pub open spec fn atext(a: Ar<u32, 8>) -> Seq<u8> {
    if arun(a, 128) != 0 { aruns(a, 128) + runtext(arun(a, 128), 127) } else { aruns(a, 128) }
}
pub proof fn lemma_arun(a: Ar<u32, 8>, n: int)
    ensures 0 <= arun(a, n), arun(a, n) != 0 ==> 1 <= arun(a, n) < n,
        forall|c: int| arun(a, n) != 0 && arun(a, n) <= c < n ==> #[trigger] ain(a, c),
        n > 1 && ain(a, n - 1) ==> arun(a, n) != 0
    decreases n
{ if n > 1 { lemma_arun(a, n - 1); } }
pub proof fn lemma_aempty_text(a: Ar<u32, 8>, n: int)
    requires aempty(a)
    ensures aruns(a, n) == Seq::<u8>::empty(), arun(a, n) == 0, asyms(a, n) == Seq::<u8>::empty(), acount(a, n) == 0
    decreases n
{ if n > 1 { lemma_aempty_text(a, n - 1); assert(!ain(a, n - 1)); } }

// ---- symbol ranges
pub open spec fn rr_in(r: utils_RuneRange, c: int) -> bool { r.First <= c <= r.Last }
pub open spec fn uin(u: Seq<utils_RuneRange>, c: int) -> bool { exists|i: int| 0 <= i < u.len() && rr_in(#[trigger] u[i], c) }
// ranges as added: not empty, beyond ASCII
pub open spec fn rr_ok(r: utils_RuneRange) -> bool { 128 <= r.First <= r.Last && rune_ok(r.First as int) && rune_ok(r.Last as int) && rune_len(r.First as int) == rune_len(r.Last as int) }
pub open spec fn uraw(u: Seq<utils_RuneRange>) -> bool { forall|i: int| 0 <= i < u.len() ==> rr_ok(#[trigger] u[i]) }
// a ends before b, not merged with it
pub open spec fn rr_before(a: utils_RuneRange, b: utils_RuneRange) -> bool {
    a.Last + 1 < b.First || (a.Last + 1 == b.First && rune_len(a.Last as int) != rune_len(b.First as int))
}
// ordered and separate
pub open spec fn usep(u: Seq<utils_RuneRange>) -> bool { forall|i: int, j: int| 0 <= i < j < u.len() ==> rr_before(#[trigger] u[i], #[trigger] u[j]) }
pub open spec fn uok(u: Seq<utils_RuneRange>) -> bool { uraw(u) && usep(u) }
// the symbol c is in the class
pub open spec fn rin(rs: utils_RunesRanges, c: int) -> bool { if c < 128 { ain(rs.ASCII, c) } else { uin(rs.UnicodeRanges@, c) } }
pub open spec fn rraw(rs: utils_RunesRanges) -> bool { aok(rs.ASCII) && uraw(rs.UnicodeRanges@) }
pub open spec fn rok(rs: utils_RunesRanges) -> bool { aok(rs.ASCII) && uok(rs.UnicodeRanges@) }
// the sizes are the least and the greatest encoded length of a symbol of the class
pub open spec fn rsz(rs: utils_RunesRanges) -> bool {
    &&& 0 <= rs.MinSize <= rs.MaxSize <= 4
    &&& (rs.MinSize == 0 <==> rs.MaxSize == 0)
    &&& (forall|c: int| rin(rs, c) ==> rs.MinSize > 0)
    &&& (forall|c: int| #[trigger] rin(rs, c) && rune_ok(c) ==> rs.MinSize <= rune_len(c) <= rs.MaxSize)
    &&& (rs.MinSize > 0 ==> exists|c: int| #[trigger] rin(rs, c) && rune_ok(c) && rune_len(c) == rs.MinSize)
    &&& (rs.MaxSize > 0 ==> exists|c: int| #[trigger] rin(rs, c) && rune_ok(c) && rune_len(c) == rs.MaxSize)
}
pub open spec fn sz_max(rs: utils_RunesRanges, n: int) -> int { if rs.MaxSize < n { n } else { rs.MaxSize as int } }
pub open spec fn sz_min(rs: utils_RunesRanges, n: int) -> int { if rs.MinSize > n || rs.MinSize == 0 { n } else { rs.MinSize as int } }
// adding the symbols a..b of one encoded length
pub open spec fn radd(r0: utils_RunesRanges, r1: utils_RunesRanges, a: int, b: int) -> bool {
    &&& rraw(r1)
    &&& r1.MinSize == sz_min(r0, rune_len(a)) && r1.MaxSize == sz_max(r0, rune_len(a))
    &&& forall|x: int| #[trigger] rin(r1, x) == (rin(r0, x) || a <= x <= b)
}
pub proof fn lemma_rune_len_mono(a: int, b: int)
    requires rune_ok(a), rune_ok(b), a <= b
    ensures rune_len(a) <= rune_len(b)
{}
pub proof fn lemma_radd(r0: utils_RunesRanges, r1: utils_RunesRanges, a: int, b: int)
    requires rsz(r0), radd(r0, r1, a, b), a <= b, rune_ok(a), rune_ok(b), rune_len(a) == rune_len(b)
    ensures rsz(r1)
{
    assert(rin(r1, a));
    assert forall|c: int| #[trigger] rin(r1, c) && rune_ok(c) implies r1.MinSize <= rune_len(c) <= r1.MaxSize by {
        if !rin(r0, c) { lemma_rune_len_mono(a, c); lemma_rune_len_mono(c, b); }
    }
    if r1.MinSize != rune_len(a) {
        let c = choose|c: int| #[trigger] rin(r0, c) && rune_ok(c) && rune_len(c) == r0.MinSize;
        assert(rin(r1, c));
    }
    if r1.MaxSize != rune_len(a) {
        let c = choose|c: int| #[trigger] rin(r0, c) && rune_ok(c) && rune_len(c) == r0.MaxSize;
        assert(rin(r1, c));
    }
}
pub proof fn lemma_uin_push(u: Seq<utils_RuneRange>, r: utils_RuneRange)
    ensures forall|c: int| #[trigger] uin(u.push(r), c) == (uin(u, c) || rr_in(r, c))
{
    assert forall|c: int| #[trigger] uin(u.push(r), c) == (uin(u, c) || rr_in(r, c)) by {
        let v = u.push(r);
        if rr_in(r, c) { assert(rr_in(v[u.len() as int], c)); }
        if uin(u, c) { let i = choose|i: int| 0 <= i < u.len() && rr_in(#[trigger] u[i], c); assert(rr_in(v[i], c)); }
        if uin(v, c) { let i = choose|i: int| 0 <= i < v.len() && rr_in(#[trigger] v[i], c); if i < u.len() { assert(rr_in(u[i], c)); } }
    }
}
pub proof fn lemma_uin_same(u: Seq<utils_RuneRange>, v: Seq<utils_RuneRange>)
    requires forall|x: utils_RuneRange| u.contains(x) <==> v.contains(x)
    ensures forall|c: int| #[trigger] uin(u, c) == uin(v, c)
{
    assert forall|c: int| #[trigger] uin(u, c) == uin(v, c) by {
        if uin(u, c) { let i = choose|i: int| 0 <= i < u.len() && rr_in(#[trigger] u[i], c); assert(v.contains(u[i])); let j = choose|j: int| 0 <= j < v.len() && v[j] == u[i]; assert(rr_in(v[j], c)); }
        if uin(v, c) { let i = choose|i: int| 0 <= i < v.len() && rr_in(#[trigger] v[i], c); assert(u.contains(v[i])); let j = choose|j: int| 0 <= j < u.len() && u[j] == v[i]; assert(rr_in(u[j], c)); }
    }
}
pub open spec fn rr_less(a: utils_RuneRange, b: utils_RuneRange) -> bool { if a.First == b.First { a.Last < b.Last } else { a.First < b.First } }
pub open spec fn usorted(u: Seq<utils_RuneRange>) -> bool { forall|i: int, j: int| 0 <= i <= j < u.len() ==> (#[trigger] u[i]).First <= (#[trigger] u[j]).First }
// the state of the merge: the first j ranges are the merge of s[0..i), the rest from i on is s
pub open spec fn umerged(s: Seq<utils_RuneRange>, u: Seq<utils_RuneRange>, j: int, i: int) -> bool {
    &&& 0 <= j <= i <= s.len() && u.len() == s.len()
    &&& uok(u.subrange(0, j))
    &&& forall|c: int| #[trigger] uin(u.subrange(0, j), c) == uin(s.subrange(0, i), c)
    &&& forall|k: int| i <= k < s.len() ==> #[trigger] u[k] == s[k]
    &&& (forall|k: int| 0 <= k < j && i < s.len() ==> rr_before(#[trigger] u[k], s[i]))
}
// ranges pos..=i are merged in u[pos]
pub open spec fn uspan(s: Seq<utils_RuneRange>, u: Seq<utils_RuneRange>, pos: int, i: int) -> bool {
    &&& 0 <= pos <= i < s.len() && u.len() == s.len()
    &&& u[pos].First == s[pos].First && rr_ok(u[pos])
    &&& forall|c: int| rr_in(u[pos], c) == #[trigger] uin(s.subrange(pos, i + 1), c)
    &&& forall|k: int| i < k < s.len() ==> #[trigger] u[k] == s[k]
}
pub proof fn lemma_uspan0(s: Seq<utils_RuneRange>, u: Seq<utils_RuneRange>, pos: int)
    requires 0 <= pos < s.len(), u.len() == s.len(), uraw(s), forall|k: int| pos <= k < s.len() ==> #[trigger] u[k] == s[k]
    ensures uspan(s, u, pos, pos)
{
    let t = s.subrange(pos, pos + 1);
    assert forall|c: int| rr_in(u[pos], c) == #[trigger] uin(t, c) by { assert(t[0] == s[pos]); assert(rr_in(t[0], c) == rr_in(u[pos], c)); }
}
pub proof fn lemma_uspan_step(s: Seq<utils_RuneRange>, u: Seq<utils_RuneRange>, v: Seq<utils_RuneRange>, pos: int, i: int)
    requires uraw(s), usorted(s), uspan(s, u, pos, i), i + 1 < s.len(), !rr_before(u[pos], s[i + 1]),
        v.len() == u.len(), v[pos].First == u[pos].First,
        v[pos].Last == if u[pos].Last < s[i + 1].Last { s[i + 1].Last } else { u[pos].Last },
        forall|k: int| i + 1 < k < s.len() ==> #[trigger] v[k] == s[k],
    ensures uspan(s, v, pos, i + 1)
{
    assert(rr_ok(s[i + 1]) && s[pos].First <= s[i + 1].First);
    lemma_rune_len_mono(s[pos].First as int, s[i + 1].First as int);
    if s[i + 1].First <= u[pos].Last { lemma_rune_len_mono(s[i + 1].First as int, u[pos].Last as int); }
    let t = s.subrange(pos, i + 1);
    let w = s.subrange(pos, i + 2);
    assert(w =~= t.push(s[i + 1]));
    lemma_uin_push(t, s[i + 1]);
    assert forall|c: int| rr_in(v[pos], c) == #[trigger] uin(w, c) by {
        assert(uin(w, c) == (uin(t, c) || rr_in(s[i + 1], c)));
        assert(s[pos].First <= s[i + 1].First);
    }
}
pub proof fn lemma_umerged_step(s: Seq<utils_RuneRange>, u: Seq<utils_RuneRange>, v: Seq<utils_RuneRange>, j: int, pos: int, i: int)
    requires uraw(s), usorted(s), uspan(s, u, pos, i), 0 <= j <= pos, uok(u.subrange(0, j)),
        forall|c: int| #[trigger] uin(u.subrange(0, j), c) == uin(s.subrange(0, pos), c),
        forall|k: int| 0 <= k < j ==> rr_before(#[trigger] u[k], s[pos]),
        i + 1 < s.len() ==> rr_before(u[pos], s[i + 1]),
        v.len() == u.len(), v[j] == u[pos], forall|k: int| 0 <= k < j || i < k < v.len() ==> #[trigger] v[k] == u[k]
    ensures umerged(s, v, j + 1, i + 1), v[j].Last != 0
{
    let a = u.subrange(0, j);
    let b = v.subrange(0, j + 1);
    assert(b =~= a.push(u[pos]));
    lemma_uin_push(a, u[pos]);
    assert(rr_ok(s[pos]));
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies rr_before(#[trigger] b[x], #[trigger] b[y]) by {
        if y < j { assert(a[x] == b[x] && a[y] == b[y]); assert(rr_before(a[x], a[y])); } else { assert(b[x] == u[x]); assert(rr_before(u[x], s[pos])); }
    }
    assert(uraw(b)) by {
        assert forall|x: int| 0 <= x < b.len() implies rr_ok(#[trigger] b[x]) by { if x < j { assert(b[x] == a[x]); } else { assert(b[x] == u[pos]); } }
    }
    let p = s.subrange(0, pos);
    let q = s.subrange(pos, i + 1);
    let r = s.subrange(0, i + 1);
    assert forall|c: int| #[trigger] uin(b, c) == uin(r, c) by {
        assert(uin(b, c) == (uin(a, c) || rr_in(u[pos], c)));
        assert(uin(a, c) == uin(p, c));
        assert(rr_in(u[pos], c) == uin(q, c));
        if uin(p, c) { let k = choose|k: int| 0 <= k < p.len() && rr_in(#[trigger] p[k], c); assert(r[k] == p[k]); assert(rr_in(r[k], c)); }
        if uin(q, c) { let k = choose|k: int| 0 <= k < q.len() && rr_in(#[trigger] q[k], c); assert(r[pos + k] == q[k]); assert(rr_in(r[pos + k], c)); }
        if uin(r, c) {
            let k = choose|k: int| 0 <= k < r.len() && rr_in(#[trigger] r[k], c);
            if k < pos { assert(p[k] == r[k]); assert(rr_in(p[k], c)); } else { assert(q[k - pos] == r[k]); assert(rr_in(q[k - pos], c)); }
        }
    }
    assert forall|k: int| 0 <= k < j + 1 && i + 1 < s.len() implies rr_before(#[trigger] v[k], s[i + 1]) by {
        if k < j {
            assert(v[k] == u[k]); assert(rr_before(u[k], s[pos])); assert(rr_ok(s[i + 1]));
            assert(u[pos].Last < s[i + 1].First);
        }
    }
}
// a well formed symbol of the class starts at i
pub open spec fn symin(rs: utils_RunesRanges, s: Seq<u8>, i: int) -> bool {
    0 <= i < s.len() && dec_ok(from(s, i)) && dec_c(from(s, i)) != RERR && rin(rs, dec_c(from(s, i)))
}
// no symbol starts inside another
pub proof fn lemma_no_inner(s: Seq<u8>, i: int, k: int)
    requires 0 <= i < k < i + dec_w(from(s, i)), i < s.len()
    ensures k < s.len(), !dec_ok(from(s, k))
{
    lemma_dec(from(s, i));
    assert(from(s, i)[k - i] == s[k] && from(s, k)[0] == s[k]);
    let a = from(s, i);
    assert(is_cont(s[k])) by {
        if k - i == 1 { assert(is_cont(a[1])); } else if k - i == 2 { assert(is_cont(a[2])); } else { assert(is_cont(a[3])); }
    }
}
pub proof fn lemma_dec_hi(s: Seq<u8>)
    requires s.len() > 0
    ensures s[0] >= 0x80 ==> dec_c(s) >= 0x80, s[0] < 0x80 ==> dec_c(s) == s[0] && dec_w(s) == 1 && dec_ok(s)
{}
pub proof fn lemma_last_unique(s: Seq<u8>, k: int, m: int)
    requires last_is(s, k), last_is(s, m)
    ensures k == m
{
    if k < m { lemma_no_inner(s, s.len() - m, s.len() - k); }
    if m < k { lemma_no_inner(s, s.len() - k, s.len() - m); }
}
// binary search: what is outside of [low, high] can't hold c
pub open spec fn ubs(u: Seq<utils_RuneRange>, low: int, high: int, c: int) -> bool {
    (forall|k: int| 0 <= k < low && k < u.len() ==> (#[trigger] u[k]).Last < c) && (forall|k: int| high < k < u.len() && 0 <= k ==> c < (#[trigger] u[k]).First)
}
// the text of the ranges
pub open spec fn rtext(r: utils_RuneRange) -> Seq<u8> {
    if r.First != r.Last { enc(r.First as int).push(45u8) + enc(r.Last as int) } else { enc(r.First as int) }
}
pub open spec fn utext(u: Seq<utils_RuneRange>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else { utext(u, n - 1) + rtext(u[n - 1]) }
}
pub open spec fn rstext(rs: utils_RunesRanges) -> Seq<u8> {
    (seq![91u8] + atext(rs.ASCII) + utext(rs.UnicodeRanges@, rs.UnicodeRanges@.len() as int)).push(93u8)
}
// ---- the class [s]: st is a pending symbol (RERR: none), isr: a - was read after it
pub open spec fn range_ok(a: int, b: int) -> bool { a <= b && rune_len(a) == rune_len(b) }
pub open spec fn cls_ok(s: Seq<u8>, st: int, isr: bool) -> bool decreases s.len() via cls_ok_dec {
    if s.len() == 0 { true } else {
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { cls_ok(t, st, true) }
        else if isr && st != RERR { range_ok(st, c) && cls_ok(t, RERR, false) }
        else { cls_ok(t, c, false) }
    }
}
#[via_fn]
proof fn cls_ok_dec(s: Seq<u8>, st: int, isr: bool) { lemma_dec(s); }
pub open spec fn cls_in(s: Seq<u8>, st: int, isr: bool, x: int) -> bool decreases s.len() via cls_in_dec {
    if s.len() == 0 { st != RERR && x == st } else {
        let c = dec_c(s);
        let t = from(s, dec_w(s));
        if s[0] == 45 { cls_in(t, st, true, x) }
        else if isr && st != RERR { st <= x <= c || cls_in(t, RERR, false, x) }
        else { (st != RERR && x == st) || cls_in(t, c, false, x) }
    }
}
#[via_fn]
proof fn cls_in_dec(s: Seq<u8>, st: int, isr: bool, x: int) { lemma_dec(s); }
pub open spec fn class_ok(s: Seq<u8>) -> bool {
    s.len() > 1 && s[0] == 91 && s.last() == 93 && cls_ok(s.subrange(1, s.len() - 1), RERR, false)
}
pub open spec fn class_in(s: Seq<u8>, x: int) -> bool { cls_in(s.subrange(1, s.len() - 1), RERR, false, x) }
// what was read so far is in rs, the rest t is to be read
#[verifier::opaque]
pub open spec fn cls_inv(s: Seq<u8>, rs: utils_RunesRanges, t: Seq<u8>, st: int, isr: bool) -> bool {
    &&& cls_ok(s, RERR, false) == cls_ok(t, st, isr)
    &&& forall|x: int| cls_in(s, RERR, false, x) == (#[trigger] rin(rs, x) || cls_in(t, st, isr, x))
}
pub proof fn lemma_cls_init(s: Seq<u8>, rs: utils_RunesRanges)
    requires rs.UnicodeRanges@.len() == 0, forall|c: int| !#[trigger] ain(rs.ASCII, c)
    ensures cls_inv(s, rs, s, RERR, false)
{
    reveal(cls_inv);
    assert(forall|x: int| !#[trigger] rin(rs, x));
}
// nothing was added
pub proof fn lemma_cls_skip(s: Seq<u8>, rs: utils_RunesRanges, t: Seq<u8>, st: int, isr: bool)
    requires cls_inv(s, rs, t, st, isr), t.len() > 0
    ensures ({
        let u = from(t, dec_w(t));
        &&& t[0] == 45 ==> cls_inv(s, rs, u, st, true)
        &&& t[0] != 45 && st == RERR ==> cls_inv(s, rs, u, dec_c(t), false)
    })
{
    reveal(cls_inv);
    let u = from(t, dec_w(t));
    let c = dec_c(t);
    if t[0] == 45 {
        assert(forall|x: int| #[trigger] cls_in(t, st, isr, x) == cls_in(u, st, true, x));
    } else if st == RERR {
        assert(forall|x: int| #[trigger] cls_in(t, st, isr, x) == cls_in(u, c, false, x));
    }
}
// the pending symbol was added
pub proof fn lemma_cls_add(s: Seq<u8>, rs: utils_RunesRanges, r1: utils_RunesRanges, t: Seq<u8>, st: int)
    requires cls_inv(s, rs, t, st, false), t.len() > 0, t[0] != 45, st != RERR, radd(rs, r1, st, st)
    ensures cls_inv(s, r1, from(t, dec_w(t)), dec_c(t), false)
{
    reveal(cls_inv);
    let u = from(t, dec_w(t));
    let c = dec_c(t);
    assert(forall|x: int| #[trigger] cls_in(t, st, false, x) == (x == st || cls_in(u, c, false, x)));
    assert forall|x: int| cls_in(s, RERR, false, x) == (#[trigger] rin(r1, x) || cls_in(u, c, false, x)) by {
        assert(rin(r1, x) == (rin(rs, x) || x == st));
        assert(cls_in(s, RERR, false, x) == (rin(rs, x) || cls_in(t, st, false, x)));
        assert(cls_in(t, st, false, x) == (x == st || cls_in(u, c, false, x)));
    }
}
// a range was added
pub proof fn lemma_cls_range(s: Seq<u8>, rs: utils_RunesRanges, r1: utils_RunesRanges, t: Seq<u8>, st: int)
    requires cls_inv(s, rs, t, st, true), t.len() > 0, t[0] != 45, st != RERR, radd(rs, r1, st, dec_c(t)), range_ok(st, dec_c(t))
    ensures cls_inv(s, r1, from(t, dec_w(t)), RERR, false)
{
    reveal(cls_inv);
    let u = from(t, dec_w(t));
    let c = dec_c(t);
    assert(forall|x: int| #[trigger] cls_in(t, st, true, x) == (st <= x <= c || cls_in(u, RERR, false, x)));
    assert forall|x: int| cls_in(s, RERR, false, x) == (#[trigger] rin(r1, x) || cls_in(u, RERR, false, x)) by {
        assert(rin(r1, x) == (rin(rs, x) || st <= x <= c));
        assert(cls_in(s, RERR, false, x) == (rin(rs, x) || cls_in(t, st, true, x)));
        assert(cls_in(t, st, true, x) == (st <= x <= c || cls_in(u, RERR, false, x)));
    }
}
pub proof fn lemma_cls_bad(s: Seq<u8>, rs: utils_RunesRanges, t: Seq<u8>, st: int)
    requires cls_inv(s, rs, t, st, true), t.len() > 0, t[0] != 45, st != RERR, !range_ok(st, dec_c(t))
    ensures !cls_ok(s, RERR, false)
{
    reveal(cls_inv);
}
pub proof fn lemma_cls_end(s: Seq<u8>, rs: utils_RunesRanges, r1: utils_RunesRanges, t: Seq<u8>, st: int, isr: bool)
    requires cls_inv(s, rs, t, st, isr), t.len() == 0, st == RERR ==> r1 == rs, st != RERR ==> radd(rs, r1, st, st)
    ensures cls_ok(s, RERR, false), forall|x: int| #[trigger] rin(r1, x) == cls_in(s, RERR, false, x)
{
    reveal(cls_inv);
    assert forall|x: int| #[trigger] rin(r1, x) == cls_in(s, RERR, false, x) by { if st != RERR { assert(rin(r1, x) == (rin(rs, x) || x == st)); } assert(cls_in(s, RERR, false, x) == (rin(rs, x) || cls_in(t, st, isr, x))); }
}
pub proof fn lemma_rsz_same(a: utils_RunesRanges, b: utils_RunesRanges)
    requires rsz(a), a.MinSize == b.MinSize, a.MaxSize == b.MaxSize, forall|x: int| #[trigger] rin(b, x) == rin(a, x)
    ensures rsz(b)
{
    assert forall|c: int| rin(b, c) implies b.MinSize > 0 by { assert(rin(a, c)); }
    if a.MinSize > 0 { let c = choose|c: int| #[trigger] rin(a, c) && rune_ok(c) && rune_len(c) == a.MinSize; assert(rin(b, c)); }
    if a.MaxSize > 0 { let c = choose|c: int| #[trigger] rin(a, c) && rune_ok(c) && rune_len(c) == a.MaxSize; assert(rin(b, c)); }
}
// a search result: the first symbol of the class in s from 0
pub open spec fn first_sym(rs: utils_RunesRanges, s: Seq<u8>, pos: int, c: int, n: int) -> bool {
    &&& -1 <= pos && (pos < s.len() || pos == -1)
    &&& pos >= 0 ==> symin(rs, s, pos) && c == dec_c(from(s, pos)) && n == dec_w(from(s, pos))
    &&& pos < 0 ==> c == RERR && n == 0
    &&& forall|k: int| 0 <= k < s.len() && (pos < 0 || k < pos) ==> !#[trigger] symin(rs, s, k)
}
pub proof fn lemma_sym_ascii(rs: utils_RunesRanges, s: Seq<u8>, k: int)
    requires 0 <= k < s.len()
    ensures s[k] < 0x80 ==> symin(rs, s, k) == ain(rs.ASCII, s[k] as int) && dec_c(from(s, k)) == s[k] && dec_w(from(s, k)) == 1,
        s[k] >= 0x80 && rs.UnicodeRanges@.len() == 0 ==> !symin(rs, s, k)
{
    lemma_dec_hi(from(s, k));
    assert(from(s, k)[0] == s[k]);
}
pub proof fn lemma_sym_skip(rs: utils_RunesRanges, s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures forall|k: int| i < k < i + dec_w(from(s, i)) ==> !#[trigger] symin(rs, s, k)
{
    assert forall|k: int| i < k < i + dec_w(from(s, i)) implies !#[trigger] symin(rs, s, k) by { lemma_no_inner(s, i, k); }
}
// c is a symbol of s (an invalid byte is RERR)
pub open spec fn syms_in(s: Seq<u8>, x: int) -> bool decreases s.len() via syms_in_dec {
    if s.len() == 0 { false } else { x == dec_c(s) || syms_in(from(s, dec_w(s)), x) }
}
#[via_fn]
proof fn syms_in_dec(s: Seq<u8>, x: int) { lemma_dec(s); }
// the length of the first n symbols, or -1 when there are fewer
pub open spec fn skip_w(s: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if s.len() == 0 { -1 } else { let k = skip_w(from(s, dec_w(s)), n - 1); if k < 0 { -1 } else { dec_w(s) + k } }
}
pub proof fn lemma_skip(s: Seq<u8>, n: int)
    ensures -1 <= skip_w(s, n) <= s.len(), skip_w(s, n) >= 0 ==> skip_w(s, n) >= n || n < 0
    decreases n
{ lemma_dec(s); if n > 0 && s.len() > 0 { lemma_skip(from(s, dec_w(s)), n - 1); } }
// the length of the last symbol (an invalid byte is one)
pub open spec fn last_w(s: Seq<u8>) -> int {
    if s.len() == 0 { 0 } else if exists|k: int| last_is(s, k) { choose|k: int| last_is(s, k) } else { 1 }
}
pub proof fn lemma_last_w(s: Seq<u8>, n: int)
    requires s.len() > 0, last_is(s, n) || (n == 1 && forall|k: int| !last_is(s, k))
    ensures last_w(s) == n, 1 <= n <= s.len()
{
    if last_is(s, n) { lemma_last_unique(s, n, last_w(s)); }
}
// the length of the last n symbols, or -1 when there are fewer
pub open spec fn skip_l(s: Seq<u8>, n: int) -> int decreases n {
    if n <= 0 { 0 } else if s.len() == 0 { -1 } else { let k = skip_l(s.subrange(0, s.len() - last_w(s)), n - 1); if k < 0 { -1 } else { last_w(s) + k } }
}
