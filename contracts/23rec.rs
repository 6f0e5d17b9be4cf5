// uses: 10sets.rs
// What a tree stores, how it answers an add.

pub type Rec = (Seq<u8>, int);
pub open spec fn grows(a: Seq<Rec>, b: Seq<Rec>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn tl(a: Seq<Rec>, b: Seq<Rec>) -> Seq<Rec> { b.subrange(a.len() as int, b.len() as int) }
pub proof fn lemma_tl(s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires grows(s0, s1), grows(s1, s2)
    ensures grows(s0, s2), tl(s0, s2) == tl(s0, s1) + tl(s1, s2), forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == (tl(s0, s1).contains(x) || tl(s1, s2).contains(x))
{
    assert forall|k: int| 0 <= k < s1.len() implies s2[k] == s1[k] by { assert(s2.subrange(0, s1.len() as int)[k] == s1[k]); }
    assert forall|k: int| 0 <= k < s0.len() implies s1[k] == s0[k] by { assert(s1.subrange(0, s0.len() as int)[k] == s0[k]); }
    assert(s2.subrange(0, s0.len() as int) =~= s0);
    let a = tl(s0, s1); let b = tl(s1, s2); let s = tl(s0, s2);
    assert(s =~= a + b);
    assert forall|x: Rec| #[trigger] s.contains(x) == (a.contains(x) || b.contains(x)) by {
        if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(s[k] == x); }
        if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(s[a.len() + k] == x); }
        if s.contains(x) {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
            if k < a.len() { assert(a[k] == x); } else { assert(b[k - a.len()] == x); }
        }
    }
}
pub proof fn lemma_tl_refl(a: Seq<Rec>)
    ensures grows(a, a), tl(a, a) == Seq::<Rec>::empty()
{ assert(a.subrange(0, a.len() as int) =~= a); assert(tl(a, a) =~= Seq::<Rec>::empty()); }
pub proof fn lemma_tl_push(a: Seq<Rec>, x: Rec)
    ensures grows(a, a.push(x)), tl(a, a.push(x)) == seq![x], forall|y: Rec| #[trigger] tl(a, a.push(x)).contains(y) == (y == x)
{
    assert(a.push(x).subrange(0, a.len() as int) =~= a); assert(tl(a, a.push(x)) =~= seq![x]);
    assert forall|y: Rec| #[trigger] tl(a, a.push(x)).contains(y) == (y == x) by { if y == x { assert(seq![x][0] == y); } }
}
// ---- the answer of an add
pub open spec fn E_INDEX() -> Err { Err::E(2045400398i64) }
pub open spec fn E_EXIST() -> Err { Err::E(2448021308i64) }
pub open spec fn E_DUP() -> Err { Err::E(3293863716i64) }
