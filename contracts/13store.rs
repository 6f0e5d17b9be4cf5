// The stores: m is the minimum of the indexes h stored since the last reset.
pub open spec fn is_min(m: int, h: Seq<int>) -> bool {
    if h.len() == 0 { m == -1 } else { h.contains(m) && forall|i: int| 0 <= i < h.len() ==> m <= #[trigger] h[i] }
}
pub open spec fn nonneg(h: Seq<int>) -> bool { forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] h[i] }
pub proof fn lemma_min_push(m: int, h: Seq<int>, x: int)
    requires is_min(m, h), nonneg(h), x >= 0
    ensures is_min(if m < 0 || m > x { x } else { m }, h.push(x)), nonneg(h.push(x))
{
    let g = h.push(x);
    assert(g[h.len() as int] == x);
    assert forall|i: int| 0 <= i < g.len() implies 0 <= #[trigger] g[i] by { if i < h.len() { assert(g[i] == h[i]); } }
    if h.len() > 0 {
        let k = choose|k: int| 0 <= k < h.len() && h[k] == m;
        assert(g[k] == m && h[k] >= 0);
    }
}
// a history of calls of one store, and what it must hold after it
pub enum Sop { Reset, Put(Seq<u8>, int), Grow }
pub open spec fn since(h: Seq<Sop>) -> Seq<(Seq<u8>, int)> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else {
        match h.last() { Sop::Reset => Seq::empty(), Sop::Put(s, i) => since(h.drop_last()).push((s, i)), Sop::Grow => since(h.drop_last()) }
    }
}
pub open spec fn idxs(v: Seq<(Seq<u8>, int)>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i].1) }
pub open spec fn ints(v: Seq<i64>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub open spec fn strs(v: Seq<Str>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn texts(v: Seq<(Seq<u8>, int)>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].0) }
pub open spec fn puts_ok(h: Seq<Sop>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i] matches Sop::Put(s, x) ==> x >= 0) }
// the contents a store must have after a history
pub open spec fn min_holds(m: items_MinStore, h: Seq<Sop>) -> bool { is_min(m.Min as int, idxs(since(h))) && nonneg(idxs(since(h))) }
pub open spec fn idx_holds(m: items_IndexStore, h: Seq<Sop>) -> bool { ints(m.N@) == idxs(since(h)) }
pub open spec fn str_holds(m: items_StringStore, h: Seq<Sop>) -> bool { strs(m.S@) == texts(since(h)) }
pub open spec fn all_holds(m: items_AllStore, h: Seq<Sop>) -> bool { min_holds(m.Min, h) && idx_holds(m.Index, h) && str_holds(m.S, h) }

pub proof fn lemma_since_reset(h: Seq<Sop>)
    ensures since(h.push(Sop::Reset)) == Seq::<(Seq<u8>, int)>::empty()
{ assert(h.push(Sop::Reset).last() == Sop::Reset); }
pub proof fn lemma_since_grow(h: Seq<Sop>)
    ensures since(h.push(Sop::Grow)) == since(h)
{ assert(h.push(Sop::Grow).drop_last() =~= h); }
pub proof fn lemma_since_put(h: Seq<Sop>, s: Seq<u8>, i: int)
    ensures since(h.push(Sop::Put(s, i))) == since(h).push((s, i)),
        idxs(since(h.push(Sop::Put(s, i)))) == idxs(since(h)).push(i),
        texts(since(h.push(Sop::Put(s, i)))) == texts(since(h)).push(s)
{
    assert(h.push(Sop::Put(s, i)).drop_last() =~= h);
    assert(idxs(since(h).push((s, i))) =~= idxs(since(h)).push(i));
    assert(texts(since(h).push((s, i))) =~= texts(since(h)).push(s));
}
pub proof fn lemma_since_empty()
    ensures idxs(since(Seq::empty())) == Seq::<int>::empty(), texts(since(Seq::empty())) == Seq::<Seq<u8>>::empty()
{
    assert(idxs(since(Seq::empty())) =~= Seq::<int>::empty());
    assert(texts(since(Seq::empty())) =~= Seq::<Seq<u8>>::empty());
}
