// The parts of dotted paths.
pub open spec fn pv(v: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn trim1(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 46 { s.drop_last() } else { s } }
pub open spec fn parts_of(s: Seq<u8>) -> Seq<Seq<u8>> { if s.len() == 0 { Seq::empty() } else { split_b(trim1(s), 46) } }
pub open spec fn has_empty(p: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).len() == 0 }

pub proof fn lemma_nbyte_cat(a: Seq<u8>, b: Seq<u8>, c: u8)
    ensures nbyte(a + b, c) == nbyte(a, c) + nbyte(b, c)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_nbyte_cat(a, b.drop_last(), c);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_nbyte_zero(a: Seq<u8>, c: u8)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != c
    ensures nbyte(a, c) == 0
    decreases a.len()
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.drop_last()[i] != c by { assert(a[i] != c); } lemma_nbyte_zero(a.drop_last(), c); } }
// one part more than separators
pub proof fn lemma_split_count(s: Seq<u8>, c: u8)
    ensures split_b(s, c).len() == nbyte(s, c) + 1
    decreases s.len()
{
    let k = first_b(s, c);
    lemma_first_b(s, c);
    if k >= s.len() { lemma_nbyte_zero(s, c); } else {
        let t = s.subrange(k + 1, s.len() as int);
        let a = s.subrange(0, k);
        lemma_split_count(t, c);
        lemma_nbyte_zero(a, c);
        lemma_nbyte_cat(a.push(c), t, c);
        assert(a.push(c).drop_last() =~= a);
        assert(s =~= a.push(c) + t);
    }
}
pub proof fn lemma_split_step(s: Seq<u8>, c: u8)
    ensures 0 <= first_b(s, c) <= s.len(), split_b(s, c).len() >= 1,
        first_b(s, c) < s.len() ==> split_b(s, c) == seq![s.subrange(0, first_b(s, c))] + split_b(s.subrange(first_b(s, c) + 1, s.len() as int), c),
        first_b(s, c) == s.len() ==> split_b(s, c) == seq![s]
{ lemma_first_b(s, c); }
