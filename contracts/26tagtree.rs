// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs 25terms.rs
// The tags tree: its nodes in the heap, its members, what a match reports.

pub type Tri = (Seq<u8>, int, Seq<u8>);
pub type Pth = (u64, Seq<Tri>);
pub type TIH = Map<u64, gtags_TaggedItem>;
pub open spec fn tri(t: gtags_TaggedTerm) -> Tri { (t.Key@, t.Op as int, t.Value@) }
pub open spec fn tris(t: Seq<gtags_TaggedTerm>) -> Seq<Tri> { Seq::new(t.len(), |i: int| tri(t[i])) }
pub open spec fn keysok(t: Seq<gtags_TaggedTerm>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).Key@.len() > 0 }

// ---- the levels of a node: keys ordered, __name__ first, without duplicates
pub open spec fn lev_ord(t: Seq<gtags_TaggedItems>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < t.len() ==> klt((#[trigger] t[i]).Key@, (#[trigger] t[j]).Key@)) && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).Key@.len() > 0
}
pub open spec fn lev0(x: gtags_TaggedItems, key: Str) -> bool { x.Key == key && x.Matched@.len() == 0 && x.NotMatched@.len() == 0 }
// the levels a with one more for the key at n, or a itself which has it there
pub open spec fn lev_ins(a: Seq<gtags_TaggedItems>, b: Seq<gtags_TaggedItems>, key: Str, n: int) -> bool {
    0 <= n < b.len() && b[n].Key == key && lev_ord(b) && (b == a || (n <= a.len() && lev0(b[n], key) && b == a.insert(n, b[n])))
}
// everything before n is below the key, everything from n on above
pub open spec fn lev_cut(a: Seq<gtags_TaggedItems>, k: Seq<u8>, n: int) -> bool {
    0 <= n <= a.len() && (forall|i: int| 0 <= i < n ==> klt((#[trigger] a[i]).Key@, k)) && forall|i: int| n <= i < a.len() ==> klt(k, (#[trigger] a[i]).Key@)
}
pub proof fn lemma_lev_ins(a: Seq<gtags_TaggedItems>, x: gtags_TaggedItems, key: Str, n: int)
    requires lev_ord(a), lev_cut(a, key@, n), lev0(x, key), key@.len() > 0
    ensures lev_ins(a, a.insert(n, x), key, n)
{
    let b = a.insert(n, x);
    assert(b[n] == x);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies klt((#[trigger] b[i]).Key@, (#[trigger] b[j]).Key@) by {
        if i < n { assert(b[i] == a[i]); } else if i > n { assert(b[i] == a[i - 1]); }
        if j < n { assert(b[j] == a[j]); } else if j > n { assert(b[j] == a[j - 1]); }
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).Key@.len() > 0 by { if i < n { assert(b[i] == a[i]); } else if i > n { assert(b[i] == a[i - 1]); } }
}

// ---- the nodes: every node has one path of terms from its root
pub open spec fn grp(x: gtags_TaggedItems, m: bool) -> Seq<u64> { if m { x.Matched@ } else { x.NotMatched@ } }
// c is the child j of the level i of r
pub open spec fn slot(h: TIH, r: u64, i: int, m: bool, j: int) -> bool { h.contains_key(r) && 0 <= i < h[r].Items@.len() && 0 <= j < grp(h[r].Items@[i], m).len() }
pub open spec fn at(h: TIH, r: u64, i: int, m: bool, j: int) -> u64 { grp(h[r].Items@[i], m)[j] }
pub open spec fn kid_ok(h: TIH, p: Map<u64, Pth>, r: u64, i: int, m: bool, c: u64) -> bool {
    h.contains_key(c) && c != 0 && p[c] == (p[r].0, p[r].1.push(tri(h[c].Term))) && h[c].Term.Key == h[r].Items@[i].Key && m == !neg(h[c].Term.Op as int) && (U() ==> wft(h[c].Term))
}
pub open spec fn v_kids(h: TIH, p: Map<u64, Pth>) -> bool { forall|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) ==> kid_ok(h, p, r, i, m, #[trigger] at(h, r, i, m, j)) }
pub open spec fn v_inj(h: TIH, p: Map<u64, Pth>) -> bool { forall|r: u64, s: u64| h.contains_key(r) && h.contains_key(s) && #[trigger] p[r] == #[trigger] p[s] ==> r == s }
pub open spec fn has_par(h: TIH, c: u64) -> bool { exists|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) && #[trigger] at(h, r, i, m, j) == c }
pub open spec fn v_par(h: TIH, p: Map<u64, Pth>) -> bool { forall|c: u64| #[trigger] h.contains_key(c) ==> p[c] == (c, Seq::<Tri>::empty()) || has_par(h, c) }
pub open spec fn v_ord(h: TIH) -> bool { forall|r: u64| #[trigger] h.contains_key(r) ==> lev_ord(h[r].Items@) }
pub open spec fn v_dep(h: TIH, p: Map<u64, Pth>, d: nat) -> bool { forall|r: u64| #[trigger] h.contains_key(r) ==> p[r].1.len() <= d }
#[verifier::opaque]
pub open spec fn valid(h: TIH, p: Map<u64, Pth>, d: nat) -> bool { v_kids(h, p) && v_inj(h, p) && v_par(h, p) && v_ord(h) && v_dep(h, p, d) }
pub open spec fn wfh(h: TIH) -> bool { exists|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) }

// h2 is h with more nodes below the root o, for terms of ts
#[verifier::opaque]
pub open spec fn ext(h: TIH, p: Map<u64, Pth>, h2: TIH, p2: Map<u64, Pth>, o: u64, ts: Seq<gtags_TaggedTerm>) -> bool {
    &&& forall|r: u64| #![trigger h.contains_key(r)] #![trigger h2.contains_key(r)] h.contains_key(r) ==> h2.contains_key(r) && p2[r] == p[r] && h2[r].Term == h[r].Term && h2[r].Terminated == h[r].Terminated
    &&& forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) ==> !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0 && exists|k: int| 0 <= k < ts.len() && #[trigger] ts[k] == h2[r].Term
}
pub open spec fn landed(h: TIH, p: Map<u64, Pth>, h2: TIH, o: u64, ts: Seq<gtags_TaggedTerm>, r: u64, path: Pth) -> bool {
    h2.contains_key(r) && exists|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h2, p2, d2) && ext(h, p, h2, p2, o, ts) && p2[r] == path
}
pub proof fn lemma_ext_refl(h: TIH, p: Map<u64, Pth>, o: u64, ts: Seq<gtags_TaggedTerm>)
    ensures ext(h, p, h, p, o, ts)
{ reveal(ext); }
pub proof fn lemma_ext_trans(h: TIH, p: Map<u64, Pth>, h1: TIH, p1: Map<u64, Pth>, h2: TIH, p2: Map<u64, Pth>, o: u64, t1: Seq<gtags_TaggedTerm>, t2: Seq<gtags_TaggedTerm>)
    requires ext(h, p, h1, p1, o, t1), ext(h1, p1, h2, p2, o, t2), forall|k: int| 0 <= k < t2.len() ==> exists|l: int| 0 <= l < t1.len() && #[trigger] t1[l] == #[trigger] t2[k]
    ensures ext(h, p, h2, p2, o, t1)
{
    reveal(ext);
    assert forall|r: u64| h.contains_key(r) implies #[trigger] h2.contains_key(r) && p2[r] == p[r] && h2[r].Term == h[r].Term && h2[r].Terminated == h[r].Terminated by { assert(h1.contains_key(r)); }
    assert forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) implies !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0 && exists|k: int| 0 <= k < t1.len() && #[trigger] t1[k] == h2[r].Term by {
        if h1.contains_key(r) { } else { let k = choose|k: int| 0 <= k < t2.len() && #[trigger] t2[k] == h2[r].Term; assert(t2[k] == t2[k]); }
    }
}
// a level is added
pub proof fn lemma_lev(h: TIH, p: Map<u64, Pth>, d: nat, t: u64, h1: TIH, key: Str, n: int)
    requires valid(h, p, d), h.contains_key(t), lev_ins(h[t].Items@, h1[t].Items@, key, n), h1 == h.insert(t, gtags_TaggedItem { Items: h1[t].Items, ..h[t] })
    ensures valid(h1, p, d), forall|o: u64, ts: Seq<gtags_TaggedTerm>| ext(h, p, h1, p, o, ts)
{
    reveal(valid);
    let a = h[t].Items@; let b = h1[t].Items@;
    assert forall|o: u64, ts: Seq<gtags_TaggedTerm>| ext(h, p, h1, p, o, ts) by { reveal(ext); }
    assert forall|r: u64, i: int, m: bool, j: int| slot(h1, r, i, m, j) implies kid_ok(h1, p, r, i, m, #[trigger] at(h1, r, i, m, j)) by {
        if r != t || b == a { assert(slot(h, r, i, m, j)); assert(at(h, r, i, m, j) == at(h1, r, i, m, j)); }
        else { assert(i != n); let i0 = if i < n { i } else { i - 1 }; assert(b[i] == a[i0]); assert(slot(h, r, i0, m, j)); assert(at(h, r, i0, m, j) == at(h1, r, i, m, j)); }
    }
    assert forall|c: u64| #[trigger] h1.contains_key(c) implies p[c] == (c, Seq::<Tri>::empty()) || has_par(h1, c) by {
        assert(h.contains_key(c));
        if p[c] != (c, Seq::<Tri>::empty()) {
            let (r, i, m, j) = choose|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) && #[trigger] at(h, r, i, m, j) == c;
            let i1 = if r != t || b == a || i < n { i } else { i + 1 };
            if r == t && b != a { assert(b[i1] == a[i]); }
            assert(slot(h1, r, i1, m, j)); assert(at(h1, r, i1, m, j) == c);
        }
    }
    assert forall|r: u64| #[trigger] h1.contains_key(r) implies lev_ord(h1[r].Items@) by { assert(h.contains_key(r)); }
}
// a child is added
pub open spec fn lev_push(x: gtags_TaggedItems, y: gtags_TaggedItems, m: bool, c: u64) -> bool { y.Key == x.Key && grp(y, m) == grp(x, m).push(c) && grp(y, !m) == grp(x, !m) }
pub open spec fn leaf(x: gtags_TaggedItem, t: gtags_TaggedTerm) -> bool { x.Term == t && !x.Terminated.Terminate && x.Items@.len() == 0 }
pub proof fn lemma_child(h: TIH, p: Map<u64, Pth>, d: nat, t: u64, n: int, m: bool, c: u64, x: gtags_TaggedItem, u: gtags_TaggedItem, h2: TIH, o: u64, ts: Seq<gtags_TaggedTerm>)
    requires valid(h, p, d), h.contains_key(t), !h.contains_key(c), c != 0, 0 <= n < h[t].Items@.len(), ts.len() > 0, leaf(x, ts[0]), x.Term.Key == h[t].Items@[n].Key, m == !neg(x.Term.Op as int), U() ==> wft(x.Term), o == p[t].0,
        u.Term == h[t].Term, u.Terminated == h[t].Terminated, u.Items@.len() == h[t].Items@.len(), lev_push(h[t].Items@[n], u.Items@[n], m, c), forall|i: int| 0 <= i < u.Items@.len() && i != n ==> #[trigger] u.Items@[i] == h[t].Items@[i],
        h2 == h.insert(c, x).insert(t, u),
        forall|j: int| 0 <= j < grp(h[t].Items@[n], m).len() ==> tri(h[(#[trigger] grp(h[t].Items@[n], m)[j])].Term) != tri(x.Term)
    ensures landed(h, p, h2, o, ts, c, (o, p[t].1.push(tri(x.Term))))
{
    reveal(valid);
    let q = (o, p[t].1.push(tri(x.Term)));
    let p2 = p.insert(c, q);
    let d2 = d + p[t].1.len() + 1;
    assert(ext(h, p, h2, p2, o, ts)) by { reveal(ext); assert(ts[0] == h2[c].Term); assert(c != t); }
    assert forall|r: u64, i: int, k: bool, j: int| slot(h2, r, i, k, j) implies kid_ok(h2, p2, r, i, k, #[trigger] at(h2, r, i, k, j)) by {
        assert(r != c);
        if r == t && i == n && k == m && j == grp(h[t].Items@[n], m).len() { assert(at(h2, r, i, k, j) == c); }
        else {
            if r == t && i != n { assert(u.Items@[i] == h[t].Items@[i]); }
            assert(slot(h, r, i, k, j)); assert(at(h, r, i, k, j) == at(h2, r, i, k, j)); assert(kid_ok(h, p, r, i, k, at(h, r, i, k, j)));
        }
    }
    // no node had the new path
    assert forall|s: u64| h.contains_key(s) implies #[trigger] p[s] != q by {
        if p[s] == q {
            assert(has_par(h, s));
            let (r, i, k, j) = choose|r: u64, i: int, k: bool, j: int| slot(h, r, i, k, j) && #[trigger] at(h, r, i, k, j) == s;
            assert(kid_ok(h, p, r, i, k, s));
            assert(p[r].1.push(tri(h[s].Term)) == p[t].1.push(tri(x.Term)));
            assert(p[r].1 =~= p[s].1.drop_last()); assert(p[t].1 =~= p[s].1.drop_last());
            assert(p[s].1.last() == tri(h[s].Term)); assert(q.1.last() == tri(x.Term));
            assert(p[r] == p[t]); assert(r == t);
            assert(tri(h[s].Term) == tri(x.Term));
            assert(h[t].Items@[i].Key@ == h[t].Items@[n].Key@);
            assert(lev_ord(h[t].Items@));
            if i < n { assert(klt(h[t].Items@[i].Key@, h[t].Items@[n].Key@)); } else if i > n { assert(klt(h[t].Items@[n].Key@, h[t].Items@[i].Key@)); }
            assert(k == m);
            assert(grp(h[t].Items@[n], m)[j] == s);
        }
    }
    assert forall|c1: u64| #[trigger] h2.contains_key(c1) implies p2[c1] == (c1, Seq::<Tri>::empty()) || has_par(h2, c1) by {
        if c1 == c { let j = grp(h[t].Items@[n], m).len() as int; assert(slot(h2, t, n, m, j)); assert(at(h2, t, n, m, j) == c); }
        else {
            assert(h.contains_key(c1));
            if p[c1] != (c1, Seq::<Tri>::empty()) {
                let (r, i, k, j) = choose|r: u64, i: int, k: bool, j: int| slot(h, r, i, k, j) && #[trigger] at(h, r, i, k, j) == c1;
                if r == t && i != n { assert(u.Items@[i] == h[t].Items@[i]); }
                assert(slot(h2, r, i, k, j)); assert(at(h2, r, i, k, j) == c1);
            }
        }
    }
    assert forall|r: u64, s: u64| h2.contains_key(r) && h2.contains_key(s) && #[trigger] p2[r] == #[trigger] p2[s] implies r == s by {
        if r != c && s != c { assert(h.contains_key(r) && h.contains_key(s)); assert(p[r] == p[s]); }
        else if r != c { assert(h.contains_key(r)); assert(p[r] != q); }
        else if s != c { assert(h.contains_key(s)); assert(p[s] != q); }
    }
    assert forall|r: u64| #[trigger] h2.contains_key(r) implies lev_ord(h2[r].Items@) && p2[r].1.len() <= d2 by {
        if r == t {
            assert(lev_ord(h[t].Items@));
            assert forall|i: int, j: int| 0 <= i < j < u.Items@.len() implies klt((#[trigger] u.Items@[i]).Key@, (#[trigger] u.Items@[j]).Key@) by { assert(u.Items@[i].Key == h[t].Items@[i].Key); assert(u.Items@[j].Key == h[t].Items@[j].Key); }
            assert forall|i: int| 0 <= i < u.Items@.len() implies (#[trigger] u.Items@[i]).Key@.len() > 0 by { assert(u.Items@[i].Key == h[t].Items@[i].Key); }
        } else if r != c { assert(h.contains_key(r)); }
    }
    assert(valid(h2, p2, d2));
    assert(p2[c] == q);
}

// ---- walking down the terms, adding what is missing
pub open spec fn step1(h: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, h2: TIH, r: u64) -> bool {
    forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) ==> landed(h, p, h2, p[item].0, ts, r, (p[item].0, p[item].1.push(tri(ts[0]))))
}
pub open spec fn stepn(h: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, h2: TIH, r: u64) -> bool {
    forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) ==> landed(h, p, h2, p[item].0, ts, r, (p[item].0, p[item].1 + tris(ts)))
}
pub proof fn lemma_wf(h: TIH, h2: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, r: u64)
    requires wfh(h), step1(h, item, ts, h2, r)
    ensures wfh(h2), h2.contains_key(r)
{ let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d); assert(landed(h, p, h2, p[item].0, ts, r, (p[item].0, p[item].1.push(tri(ts[0]))))); }
pub proof fn lemma_kids(h: TIH)
    requires wfh(h)
    ensures forall|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) ==> h.contains_key(#[trigger] at(h, r, i, m, j)) && at(h, r, i, m, j) != 0,
        forall|r: u64| #[trigger] h.contains_key(r) ==> lev_ord(h[r].Items@),
{ reveal(valid); }
pub proof fn lemma_found(h: TIH, h1: TIH, item: u64, key: Str, n: int, m: bool, j: int, ts: Seq<gtags_TaggedTerm>)
    requires h.contains_key(item), lev_ins(h[item].Items@, h1[item].Items@, key, n), h1 == h.insert(item, gtags_TaggedItem { Items: h1[item].Items, ..h[item] }),
        slot(h1, item, n, m, j), ts.len() > 0, tri(h1[at(h1, item, n, m, j)].Term) == tri(ts[0])
    ensures step1(h, item, ts, h1, at(h1, item, n, m, j))
{
    let r = at(h1, item, n, m, j);
    assert forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) implies landed(h, p, h1, p[item].0, ts, r, (p[item].0, p[item].1.push(tri(ts[0])))) by {
        lemma_lev(h, p, d, item, h1, key, n);
        assert(kid_ok(h1, p, item, n, m, r)) by { reveal(valid); }
        assert(ext(h, p, h1, p, p[item].0, ts));
        assert(valid(h1, p, d));
    }
}
pub proof fn lemma_added(h: TIH, h1: TIH, item: u64, key: Str, n: int, m: bool, c: u64, x: gtags_TaggedItem, h2: TIH, ts: Seq<gtags_TaggedTerm>)
    requires h.contains_key(item), lev_ins(h[item].Items@, h1[item].Items@, key, n), h1 == h.insert(item, gtags_TaggedItem { Items: h1[item].Items, ..h[item] }),
        ts.len() > 0, ts[0].Key == key, m == !neg(ts[0].Op as int), U() ==> wft(ts[0]), !h1.contains_key(c), c != 0, leaf(x, ts[0]),
        h2[item].Term == h1[item].Term, h2[item].Terminated == h1[item].Terminated, h2[item].Items@.len() == h1[item].Items@.len(), lev_push(h1[item].Items@[n], h2[item].Items@[n], m, c),
        forall|i: int| 0 <= i < h2[item].Items@.len() && i != n ==> #[trigger] h2[item].Items@[i] == h1[item].Items@[i],
        h2 == h1.insert(c, x).insert(item, h2[item]),
        forall|j: int| 0 <= j < grp(h1[item].Items@[n], m).len() ==> tri(h1[(#[trigger] grp(h1[item].Items@[n], m)[j])].Term) != tri(ts[0])
    ensures step1(h, item, ts, h2, c)
{
    assert forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) implies landed(h, p, h2, p[item].0, ts, c, (p[item].0, p[item].1.push(tri(ts[0])))) by {
        lemma_lev(h, p, d, item, h1, key, n);
        let o = p[item].0;
        lemma_child(h1, p, d, item, n, m, c, x, h2[item], h2, o, ts);
        let (p2, d2) = choose|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h2, p2, d2) && ext(h1, p, h2, p2, o, ts) && p2[c] == (o, p[item].1.push(tri(ts[0])));
        lemma_ext_trans(h, p, h1, p, h2, p2, o, ts, ts);
    }
}
pub proof fn lemma_stepn_one(h: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, h2: TIH, r: u64)
    requires step1(h, item, ts, h2, r), ts.len() == 1
    ensures stepn(h, item, ts, h2, r)
{
    assert forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) implies landed(h, p, h2, p[item].0, ts, r, (p[item].0, p[item].1 + tris(ts))) by { assert(p[item].1 + tris(ts) =~= p[item].1.push(tri(ts[0]))); }
}
pub proof fn lemma_stepn_more(h: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, h2: TIH, r: u64, us: Seq<gtags_TaggedTerm>, h3: TIH, r3: u64)
    requires step1(h, item, ts, h2, r), ts.len() > 1, us == ts.subrange(1, ts.len() as int), stepn(h2, r, us, h3, r3)
    ensures stepn(h, item, ts, h3, r3)
{
    assert forall|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) implies landed(h, p, h3, p[item].0, ts, r3, (p[item].0, p[item].1 + tris(ts))) by {
        let o = p[item].0; let pa = (o, p[item].1.push(tri(ts[0])));
        let (p2, d2) = choose|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h2, p2, d2) && ext(h, p, h2, p2, o, ts) && p2[r] == pa;
        let pb = (o, pa.1 + tris(us));
        assert(landed(h2, p2, h3, o, us, r3, pb));
        let (p3, d3) = choose|p3: Map<u64, Pth>, d3: nat| #[trigger] valid(h3, p3, d3) && ext(h2, p2, h3, p3, o, us) && p3[r3] == pb;
        assert forall|k: int| 0 <= k < us.len() implies exists|l: int| 0 <= l < ts.len() && #[trigger] ts[l] == #[trigger] us[k] by { assert(ts[k + 1] == us[k]); }
        lemma_ext_trans(h, p, h2, p2, h3, p3, o, ts, us);
        assert(pb.1 =~= p[item].1 + tris(ts));
    }
}
pub proof fn lemma_stepn_wf(h: TIH, item: u64, ts: Seq<gtags_TaggedTerm>, h2: TIH, r: u64)
    requires wfh(h), stepn(h, item, ts, h2, r)
    ensures wfh(h2), h2.contains_key(r)
{ let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d); assert(landed(h, p, h2, p[item].0, ts, r, (p[item].0, p[item].1 + tris(ts)))); }

pub open spec fn from2(t: Seq<gtags_TaggedTerm>) -> Seq<gtags_TaggedTerm> { t.subrange(1, t.len() as int) }

// ---- what a match reports
pub type Rec = (Seq<u8>, int);
pub type Tags = Map<Str, Str>;
pub open spec fn own(h: TIH, c: u64, x: Rec) -> bool { h[c].Terminated.Terminate && x == (h[c].Terminated.Query@, h[c].Terminated.Index as int) }
// c is n levels below r, the terms of the nodes after r down to c are satisfied
pub open spec fn hit(h: TIH, r: u64, c: u64, t: Tags, n: nat) -> bool decreases n {
    if n == 0 { r == c } else { exists|i: int, m: bool, j: int| slot(h, r, i, m, j) && msat(h[(#[trigger] at(h, r, i, m, j))].Term, t) && hit(h, at(h, r, i, m, j), c, t, (n - 1) as nat) }
}
pub open spec fn hitx(h: TIH, r: u64, t: Tags, x: Rec) -> bool { exists|c: u64, n: nat| n > 0 && #[trigger] hit(h, r, c, t, n) && own(h, c, x) }
pub open spec fn ck(h: TIH, c: u64, t: Tags, x: Rec) -> bool { own(h, c, x) || hitx(h, c, t, x) }
pub open spec fn sel(h: TIH, r: u64, t: Tags, i: int, m: bool, j: int, x: Rec) -> bool { slot(h, r, i, m, j) && msat(h[at(h, r, i, m, j)].Term, t) && ck(h, at(h, r, i, m, j), t, x) }
pub proof fn lemma_hitx(h: TIH, r: u64, t: Tags, x: Rec)
    ensures hitx(h, r, t, x) == exists|i: int, m: bool, j: int| #[trigger] sel(h, r, t, i, m, j, x)
{
    if hitx(h, r, t, x) {
        let (c, n) = choose|c: u64, n: nat| n > 0 && #[trigger] hit(h, r, c, t, n) && own(h, c, x);
        let (i, m, j) = choose|i: int, m: bool, j: int| slot(h, r, i, m, j) && msat(h[(#[trigger] at(h, r, i, m, j))].Term, t) && hit(h, at(h, r, i, m, j), c, t, (n - 1) as nat);
        if n - 1 > 0 { assert(hit(h, at(h, r, i, m, j), c, t, (n - 1) as nat)); }
        assert(sel(h, r, t, i, m, j, x));
    }
    if exists|i: int, m: bool, j: int| #[trigger] sel(h, r, t, i, m, j, x) {
        let (i, m, j) = choose|i: int, m: bool, j: int| #[trigger] sel(h, r, t, i, m, j, x);
        let k = at(h, r, i, m, j);
        if own(h, k, x) { assert(hit(h, k, k, t, 0)); assert(hit(h, r, k, t, 1)); }
        else {
            let (c, n) = choose|c: u64, n: nat| n > 0 && #[trigger] hit(h, k, c, t, n) && own(h, c, x);
            assert(hit(h, r, c, t, n + 1));
        }
    }
}
pub open spec fn grows(a: Seq<Rec>, b: Seq<Rec>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn tl(a: Seq<Rec>, b: Seq<Rec>) -> Seq<Rec> { b.subrange(a.len() as int, b.len() as int) }
// s holds exactly what is below r
#[verifier::opaque]
pub open spec fn found(h: TIH, r: u64, t: Tags, s: Seq<Rec>) -> bool { forall|x: Rec| #[trigger] s.contains(x) == hitx(h, r, t, x) }
// .. in its levels before i, and before jm and jn in level i
pub open spec fn part(h: TIH, r: u64, t: Tags, i: int, jm: int, jn: int, x: Rec) -> bool {
    exists|k: int, m: bool, j: int| #[trigger] sel(h, r, t, k, m, j, x) && (k < i || k == i && j < if m { jm } else { jn })
}
#[verifier::opaque]
pub open spec fn pre(h: TIH, r: u64, t: Tags, i: int, jm: int, jn: int, s: Seq<Rec>) -> bool { forall|x: Rec| #[trigger] s.contains(x) == part(h, r, t, i, jm, jn, x) }
pub proof fn lemma_pre0(h: TIH, r: u64, t: Tags, a: Seq<Rec>)
    ensures pre(h, r, t, 0, 0, 0, tl(a, a)), grows(a, a)
{ reveal(pre); assert(a.subrange(0, a.len() as int) =~= a); assert(tl(a, a).len() == 0); }
pub proof fn lemma_pre_skip(h: TIH, r: u64, t: Tags, i: int, jm: int, jn: int, m: bool, s: Seq<Rec>)
    requires pre(h, r, t, i, jm, jn, s), !msat(h[at(h, r, i, m, if m { jm } else { jn })].Term, t)
    ensures pre(h, r, t, i, if m { jm + 1 } else { jm }, if m { jn } else { jn + 1 }, s)
{
    reveal(pre);
    let am = if m { jm + 1 } else { jm }; let an = if m { jn } else { jn + 1 };
    assert forall|x: Rec| #[trigger] s.contains(x) == part(h, r, t, i, am, an, x) by {
        if part(h, r, t, i, jm, jn, x) { let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i || k == i && j < if b { jm } else { jn }); assert(sel(h, r, t, k, b, j, x)); }
        if part(h, r, t, i, am, an, x) { let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i || k == i && j < if b { am } else { an }); assert(sel(h, r, t, k, b, j, x)); }
    }
}
// the matched children of a level without a tag
pub proof fn lemma_pre_none(h: TIH, r: u64, t: Tags, i: int, s: Seq<Rec>)
    requires wfh(h), h.contains_key(r), 0 <= i < h[r].Items@.len(), pre(h, r, t, i, 0, 0, s), !t.contains_key(h[r].Items@[i].Key)
    ensures pre(h, r, t, i, grp(h[r].Items@[i], true).len() as int, 0, s)
{
    reveal(pre); reveal(valid);
    let am = grp(h[r].Items@[i], true).len() as int;
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
    assert forall|x: Rec| #[trigger] s.contains(x) == part(h, r, t, i, am, 0, x) by {
        if part(h, r, t, i, 0, 0, x) { let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i || k == i && j < if b { 0int } else { 0 }); assert(sel(h, r, t, k, b, j, x)); }
        if part(h, r, t, i, am, 0, x) {
            let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i || k == i && j < if b { am } else { 0 });
            assert(kid_ok(h, p, r, k, b, at(h, r, k, b, j)));
            assert(sel(h, r, t, k, b, j, x));
        }
    }
}
pub proof fn lemma_pre_next(h: TIH, r: u64, t: Tags, i: int, s: Seq<Rec>)
    requires pre(h, r, t, i, grp(h[r].Items@[i], true).len() as int, grp(h[r].Items@[i], false).len() as int, s)
    ensures pre(h, r, t, i + 1, 0, 0, s)
{
    reveal(pre);
    let am = grp(h[r].Items@[i], true).len() as int; let an = grp(h[r].Items@[i], false).len() as int;
    assert forall|x: Rec| #[trigger] s.contains(x) == part(h, r, t, i + 1, 0, 0, x) by {
        if part(h, r, t, i, am, an, x) { let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i || k == i && j < if b { am } else { an }); assert(sel(h, r, t, k, b, j, x)); }
        if part(h, r, t, i + 1, 0, 0, x) { let (k, b, j) = choose|k: int, b: bool, j: int| #[trigger] sel(h, r, t, k, b, j, x) && (k < i + 1 || k == i + 1 && j < if b { 0int } else { 0 }); assert(sel(h, r, t, k, b, j, x)); }
    }
}
pub proof fn lemma_pre_end(h: TIH, r: u64, t: Tags, s: Seq<Rec>)
    requires pre(h, r, t, h[r].Items@.len() as int, 0, 0, s)
    ensures found(h, r, t, s)
{
    reveal(pre); reveal(found);
    assert forall|x: Rec| #[trigger] s.contains(x) == hitx(h, r, t, x) by {
        lemma_hitx(h, r, t, x);
        if hitx(h, r, t, x) { let (i, m, j) = choose|i: int, m: bool, j: int| #[trigger] sel(h, r, t, i, m, j, x); assert(sel(h, r, t, i, m, j, x)); }
    }
}
pub proof fn lemma_take(h: TIH, r: u64, t: Tags, i: int, jm: int, jn: int, m: bool, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>, s3: Seq<Rec>)
    requires pre(h, r, t, i, jm, jn, tl(s0, s1)), grows(s0, s1), slot(h, r, i, m, if m { jm } else { jn }), msat(h[at(h, r, i, m, if m { jm } else { jn })].Term, t),
        ({ let c = h[at(h, r, i, m, if m { jm } else { jn })]; s2 == if c.Terminated.Terminate { s1.push((c.Terminated.Query@, c.Terminated.Index as int)) } else { s1 } }),
        grows(s2, s3), found(h, at(h, r, i, m, if m { jm } else { jn }), t, tl(s2, s3)),
    ensures grows(s0, s3), pre(h, r, t, i, if m { jm + 1 } else { jm }, if m { jn } else { jn + 1 }, tl(s0, s3))
{
    reveal(pre); reveal(found);
    let j0 = if m { jm } else { jn };
    let c = at(h, r, i, m, j0);
    let am = if m { jm + 1 } else { jm }; let an = if m { jn } else { jn + 1 };
    assert(s1.subrange(0, s0.len() as int) =~= s0);
    assert(s3.subrange(0, s0.len() as int) =~= s2.subrange(0, s0.len() as int)) by { assert forall|k: int| 0 <= k < s0.len() implies s3[k] == s2[k] by { assert(s3.subrange(0, s2.len() as int)[k] == s2[k]); } }
    assert(s2.subrange(0, s0.len() as int) =~= s1.subrange(0, s0.len() as int));
    let w = if h[c].Terminated.Terminate { seq![(h[c].Terminated.Query@, h[c].Terminated.Index as int)] } else { Seq::<Rec>::empty() };
    let a = tl(s0, s1); let b = tl(s2, s3); let s = tl(s0, s3);
    assert(s =~= a + w + b) by { assert forall|k: int| 0 <= k < s2.len() implies s3[k] == s2[k] by { assert(s3.subrange(0, s2.len() as int)[k] == s2[k]); } }
    assert forall|x: Rec| #[trigger] s.contains(x) == part(h, r, t, i, am, an, x) by {
        lemma_cat_contains(a, w, b, x);
        assert(w.contains(x) == own(h, c, x)) by { if own(h, c, x) { assert(w[0] == x); } }
        assert((w.contains(x) || b.contains(x)) == sel(h, r, t, i, m, j0, x));
        if part(h, r, t, i, jm, jn, x) { let (k, e, j) = choose|k: int, e: bool, j: int| #[trigger] sel(h, r, t, k, e, j, x) && (k < i || k == i && j < if e { jm } else { jn }); assert(sel(h, r, t, k, e, j, x)); }
        if part(h, r, t, i, am, an, x) { let (k, e, j) = choose|k: int, e: bool, j: int| #[trigger] sel(h, r, t, k, e, j, x) && (k < i || k == i && j < if e { am } else { an }); assert(sel(h, r, t, k, e, j, x)); }
    }
}
pub proof fn lemma_cat_contains(a: Seq<Rec>, w: Seq<Rec>, b: Seq<Rec>, x: Rec)
    ensures (a + w + b).contains(x) == (a.contains(x) || w.contains(x) || b.contains(x))
{
    let s = a + w + b;
    if a.contains(x) { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(s[k] == x); }
    if w.contains(x) { let k = choose|k: int| 0 <= k < w.len() && w[k] == x; assert(s[a.len() + k] == x); }
    if b.contains(x) { let k = choose|k: int| 0 <= k < b.len() && b[k] == x; assert(s[a.len() + w.len() + k] == x); }
    if s.contains(x) {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
        if k < a.len() { assert(a[k] == x); } else if k < a.len() + w.len() { assert(w[k - a.len()] == x); } else { assert(b[k - a.len() - w.len()] == x); }
    }
}
// ---- the walk goes down
pub open spec fn chp(h: TIH) -> (Map<u64, Pth>, nat) { choose|q: (Map<u64, Pth>, nat)| #[trigger] valid(h, q.0, q.1) }
pub open spec fn tdepth(h: TIH, r: u64) -> nat { (chp(h).1 - chp(h).0[r].1.len()) as nat }
pub proof fn lemma_depth(h: TIH)
    requires wfh(h)
    ensures forall|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) ==> tdepth(h, #[trigger] at(h, r, i, m, j)) < tdepth(h, r)
{
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
    let q = (p, d);
    assert(valid(h, q.0, q.1));
    let (p, d) = chp(h);
    assert(valid(h, p, d));
    reveal(valid);
    assert forall|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) implies tdepth(h, #[trigger] at(h, r, i, m, j)) < tdepth(h, r) by {
        let c = at(h, r, i, m, j);
        assert(kid_ok(h, p, r, i, m, c));
        assert(h.contains_key(c)); assert(h.contains_key(r));
        assert(p[c].1.len() == p[r].1.len() + 1);
    }
}
// what the walk needs of a child
pub open spec fn kidterm(h: TIH, r: u64, i: int, m: bool, c: u64) -> bool { h.contains_key(c) && wft(h[c].Term) && h[c].Term.Key == h[r].Items@[i].Key && m == !neg(h[c].Term.Op as int) && tdepth(h, c) < tdepth(h, r) }
pub proof fn lemma_kidterms(h: TIH, r: u64)
    requires wfh(h), h.contains_key(r), U()
    ensures forall|i: int, m: bool, j: int| slot(h, r, i, m, j) ==> kidterm(h, r, i, m, #[trigger] at(h, r, i, m, j)), forall|i: int| 0 <= i < h[r].Items@.len() ==> (#[trigger] h[r].Items@[i]).Key@.len() > 0
{
    lemma_depth(h);
    reveal(valid);
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
    assert forall|i: int, m: bool, j: int| slot(h, r, i, m, j) implies kidterm(h, r, i, m, #[trigger] at(h, r, i, m, j)) by { assert(kid_ok(h, p, r, i, m, at(h, r, i, m, j))); }
    assert(lev_ord(h[r].Items@));
}

// ---- the members of a tree
pub type Mem = Map<Seq<Tri>, Rec>;
pub open spec fn is_mem(h: TIH, p: Map<u64, Pth>, root: u64, r: u64, q: Seq<Tri>) -> bool { h.contains_key(r) && p[r] == (root, q) && q.len() > 0 && h[r].Terminated.Terminate }
pub open spec fn mem_ok(g: gtags_GTagsTree, h: TIH, p: Map<u64, Pth>, m: Mem) -> bool {
    &&& forall|r: u64, q: Seq<Tri>| #[trigger] is_mem(h, p, g.Root, r, q) ==> m.contains_key(q) && m[q] == (h[r].Terminated.Query@, h[r].Terminated.Index as int)
    &&& forall|q: Seq<Tri>| #[trigger] m.contains_key(q) && q.len() > 0 ==> exists|r: u64| is_mem(h, p, g.Root, r, q)
    &&& m.contains_key(Seq::empty()) == g.Terminated.Terminate
    &&& g.Terminated.Terminate ==> m[Seq::empty()] == (g.Terminated.Query@, g.Terminated.Index as int)
}
pub open spec fn rooted(g: gtags_GTagsTree, h: TIH, p: Map<u64, Pth>) -> bool { h.contains_key(g.Root) && p[g.Root] == (g.Root, Seq::<Tri>::empty()) }
pub open spec fn tree(g: gtags_GTagsTree, h: TIH, m: Mem) -> bool { exists|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m) }
// the text of a path
pub open spec fn trijoin(q: Seq<Tri>) -> Seq<u8> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { trijoin(q.drop_last()) + (if q.len() > 1 { seq![44u8] } else { Seq::empty() }) + (seq![39u8] + (q.last().0 + opstr(q.last().1) + q.last().2)).push(39u8) }
}
pub open spec fn tri_txt(q: Seq<Tri>) -> Seq<u8> { (sbt() + trijoin(q)).push(41u8) }
// the registries hold the members
pub open spec fn regs(g: gtags_GTagsTree, m: Mem) -> bool {
    &&& !g.Queries.nil() && !g.QueryIndex.nil()
    &&& forall|q: Seq<Tri>| #[trigger] m.contains_key(q) ==> m[q].0 == tri_txt(q) && 0 <= m[q].1 <= i64::MAX && g.Queries@.contains_key(mk_str(m[q].0)) && g.Queries@[mk_str(m[q].0)] == m[q].1 && g.QueryIndex@.contains_key(m[q].1 as i64) && g.QueryIndex@[m[q].1 as i64]@ == m[q].0
    &&& forall|i: i64| #[trigger] g.QueryIndex@.contains_key(i) ==> exists|q: Seq<Tri>| #[trigger] m.contains_key(q) && m[q] == (g.QueryIndex@[i]@, i as int)
    &&& forall|s: Str| #[trigger] g.Queries@.contains_key(s) ==> g.QueryIndex@.contains_key(g.Queries@[s])
}
pub open spec fn gt(g: gtags_GTagsTree, h: TIH, m: Mem) -> bool { tree(g, h, m) && regs(g, m) }

pub proof fn lemma_trijoin(t: Seq<gtags_TaggedTerm>)
    ensures trijoin(tris(t)) == tjoin(t), tri_txt(tris(t)) == terms_txt(t)
    decreases t.len()
{
    if t.len() > 0 {
        lemma_trijoin(t.drop_last());
        assert(tris(t).drop_last() =~= tris(t.drop_last()));
        assert(tris(t).last() == tri(t.last()));
    }
}
// what a term accepts depends on what is written only
pub type Lang = spec_fn(Tri, Seq<u8>) -> bool;
pub open spec fn agree(t: gtags_TaggedTerm, l: Lang) -> bool { forall|v: Seq<u8>| #[trigger] tsat(t, v) == l(tri(t), v) }
pub open spec fn coht(t: Seq<gtags_TaggedTerm>, l: Lang) -> bool { forall|i: int| 0 <= i < t.len() ==> agree(#[trigger] t[i], l) }
pub open spec fn coh(h: TIH, l: Lang) -> bool { forall|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) ==> agree(h[(#[trigger] at(h, r, i, m, j))].Term, l) }
// terms are added as one member
pub open spec fn added(g: gtags_GTagsTree, h: TIH, terms: Seq<gtags_TaggedTerm>, nrm: Str, index: i64, g2: gtags_GTagsTree, h2: TIH) -> bool {
    &&& nrm@ == terms_txt(terms) && g2.Root == g.Root
    &&& forall|m: Mem| #[trigger] gt(g, h, m) ==> !m.contains_key(tris(terms)) && gt(g2, h2, m.insert(tris(terms), (nrm@, index as int)))
    &&& forall|g9: gtags_GTagsTree, m: Mem| g9.Root != g.Root && #[trigger] tree(g9, h, m) ==> tree(g9, h2, m)
    &&& forall|l: Lang| coht(terms, l) && #[trigger] coh(h, l) ==> coh(h2, l)
}
// the last node is made a member
pub open spec fn ended(x: gtags_TaggedItem, y: gtags_TaggedItem, nrm: Str, index: i64) -> bool { y.Term == x.Term && y.Items == x.Items && y.Terminated.Terminate && y.Terminated.Query == nrm && y.Terminated.Index == index }
pub proof fn lemma_end_valid(h: TIH, p: Map<u64, Pth>, d: nat, r: u64, h2: TIH)
    requires valid(h, p, d), h.contains_key(r), h2 == h.insert(r, h2[r]), h2[r].Term == h[r].Term, h2[r].Items == h[r].Items
    ensures valid(h2, p, d)
{
    reveal(valid);
    assert forall|x: u64, i: int, m: bool, j: int| slot(h2, x, i, m, j) implies kid_ok(h2, p, x, i, m, #[trigger] at(h2, x, i, m, j)) by { assert(slot(h, x, i, m, j)); assert(at(h, x, i, m, j) == at(h2, x, i, m, j)); assert(kid_ok(h, p, x, i, m, at(h, x, i, m, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p[c] == (c, Seq::<Tri>::empty()) || has_par(h2, c) by {
        assert(h.contains_key(c));
        if p[c] != (c, Seq::<Tri>::empty()) { let (x, i, m, j) = choose|x: u64, i: int, m: bool, j: int| slot(h, x, i, m, j) && #[trigger] at(h, x, i, m, j) == c; assert(slot(h2, x, i, m, j)); assert(at(h2, x, i, m, j) == c); }
    }
    assert forall|x: u64| #[trigger] h2.contains_key(x) implies lev_ord(h2[x].Items@) && p[x].1.len() <= d by { assert(h.contains_key(x)); }
}
// the trees after the terms are added below the root o and the node r is made a member
pub proof fn lemma_tree_add(o: u64, h: TIH, terms: Seq<gtags_TaggedTerm>, h1: TIH, r: u64, h2: TIH, nrm: Str, index: i64)
    requires stepn(h, o, terms, h1, r), terms.len() > 0, h2 == h1.insert(r, h2[r]), h1.contains_key(r), ended(h1[r], h2[r], nrm, index)
    ensures forall|g: gtags_GTagsTree, m: Mem| g.Root == o && #[trigger] tree(g, h, m) ==> tree(g, h2, m.insert(tris(terms), (nrm@, index as int))),
        forall|g: gtags_GTagsTree, m: Mem| g.Root != o && #[trigger] tree(g, h, m) && wroot(h, o) ==> tree(g, h2, m),
        forall|l: Lang| wfh(h) && coht(terms, l) && #[trigger] coh(h, l) ==> coh(h2, l),
{
    let q0 = tris(terms);
    assert forall|g: gtags_GTagsTree, m: Mem| g.Root == o && #[trigger] tree(g, h, m) implies tree(g, h2, m.insert(tris(terms), (nrm@, index as int))) by {
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
        assert(p[o].1 + q0 =~= q0);
        let (p2, d2) = choose|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h1, p2, d2) && ext(h, p, h1, p2, o, terms) && p2[r] == (o, q0);
        lemma_end_valid(h1, p2, d2, r, h2);
        reveal(ext);
        let m2 = m.insert(q0, (nrm@, index as int));
        assert forall|x: u64, q: Seq<Tri>| #[trigger] is_mem(h2, p2, o, x, q) implies m2.contains_key(q) && m2[q] == (h2[x].Terminated.Query@, h2[x].Terminated.Index as int) by {
            if x != r { assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(is_mem(h, p, o, x, q)); assert(q != q0) by { if q == q0 { assert(p2[x] == p2[r]); assert(v_inj(h1, p2)) by { reveal(valid); } } } }
        }
        assert forall|q: Seq<Tri>| #[trigger] m2.contains_key(q) && q.len() > 0 implies exists|x: u64| is_mem(h2, p2, o, x, q) by {
            if q == q0 { assert(is_mem(h2, p2, o, r, q)); }
            else { assert(m.contains_key(q)); let x = choose|x: u64| is_mem(h, p, o, x, q); assert(h.contains_key(x)); assert(is_mem(h2, p2, o, x, q)); }
        }
        assert(Seq::<Tri>::empty() != q0) by { assert(q0.len() > 0); }
        assert(rooted(g, h2, p2)) by { assert(h.contains_key(o)); }
        assert(mem_ok(g, h2, p2, m2));
    }
    assert forall|g: gtags_GTagsTree, m: Mem| g.Root != o && #[trigger] tree(g, h, m) && wroot(h, o) implies tree(g, h2, m) by {
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
        lemma_wroot(h, p, d, o);
        assert(p[o].1 + q0 =~= q0);
        let (p2, d2) = choose|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h1, p2, d2) && ext(h, p, h1, p2, o, terms) && p2[r] == (o, q0);
        lemma_end_valid(h1, p2, d2, r, h2);
        reveal(ext);
        let o9 = g.Root;
        assert forall|x: u64, q: Seq<Tri>| #[trigger] is_mem(h2, p2, o9, x, q) implies m.contains_key(q) && m[q] == (h2[x].Terminated.Query@, h2[x].Terminated.Index as int) by {
            assert(x != r); assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(is_mem(h, p, o9, x, q));
        }
        assert forall|q: Seq<Tri>| #[trigger] m.contains_key(q) && q.len() > 0 implies exists|x: u64| is_mem(h2, p2, o9, x, q) by {
            let x = choose|x: u64| is_mem(h, p, o9, x, q); assert(h.contains_key(x)); assert(x != r); assert(is_mem(h2, p2, o9, x, q));
        }
        assert(rooted(g, h2, p2)) by { assert(h.contains_key(o9)); }
        assert(mem_ok(g, h2, p2, m));
    }
    assert forall|l: Lang| wfh(h) && coht(terms, l) && #[trigger] coh(h, l) implies coh(h2, l) by {
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
        assert(landed(h, p, h1, p[o].0, terms, r, (p[o].0, p[o].1 + q0)));
        let (p2, d2) = choose|p2: Map<u64, Pth>, d2: nat| #[trigger] valid(h1, p2, d2) && ext(h, p, h1, p2, p[o].0, terms) && p2[r] == (p[o].0, p[o].1 + q0);
        reveal(ext); reveal(valid);
        assert forall|x: u64, i: int, m: bool, j: int| slot(h2, x, i, m, j) implies agree(h2[(#[trigger] at(h2, x, i, m, j))].Term, l) by {
            let c = at(h2, x, i, m, j);
            assert(slot(h1, x, i, m, j)); assert(at(h1, x, i, m, j) == c);
            assert(kid_ok(h1, p2, x, i, m, c));
            assert(h2[c].Term == h1[c].Term);
            if h.contains_key(c) {
                assert(p[c] == p2[c]);
                assert(has_par(h, c));
                let (y, i2, m2, j2) = choose|y: u64, i2: int, m2: bool, j2: int| slot(h, y, i2, m2, j2) && #[trigger] at(h, y, i2, m2, j2) == c;
                assert(agree(h[at(h, y, i2, m2, j2)].Term, l));
            } else { let k = choose|k: int| 0 <= k < terms.len() && #[trigger] terms[k] == h1[c].Term; assert(agree(terms[k], l)); }
        }
    }
}
// o is a root of the heap
pub open spec fn wroot(h: TIH, o: u64) -> bool { exists|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && h.contains_key(o) && p[o] == (o, Seq::<Tri>::empty()) }

pub proof fn lemma_wroot(h: TIH, p: Map<u64, Pth>, d: nat, o: u64)
    requires valid(h, p, d), wroot(h, o)
    ensures p[o] == (o, Seq::<Tri>::empty())
{
    reveal(valid);
    let (q, e) = choose|q: Map<u64, Pth>, e: nat| #[trigger] valid(h, q, e) && h.contains_key(o) && q[o] == (o, Seq::<Tri>::empty());
    if has_par(h, o) { let (r, i, m, j) = choose|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) && #[trigger] at(h, r, i, m, j) == o; assert(kid_ok(h, q, r, i, m, o)); assert(q[o].1.len() > 0); }
}

pub open spec fn okg(g: gtags_GTagsTree, h: TIH) -> bool { exists|m: Mem| #[trigger] gt(g, h, m) }
pub proof fn lemma_okg(g: gtags_GTagsTree, h: TIH)
    requires okg(g, h)
    ensures wfh(h), h.contains_key(g.Root), wroot(h, g.Root), !g.Queries.nil(), !g.QueryIndex.nil()
{
    let m = choose|m: Mem| #[trigger] gt(g, h, m);
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
}
// both registries hold the new query, the query text too
pub open spec fn reg2(g: gtags_GTagsTree, q: Str, nrm: Str, index: i64, g2: gtags_GTagsTree) -> bool {
    !g2.Queries.nil() && !g2.QueryIndex.nil() && g2.Queries@ == g.Queries@.insert(q, index).insert(nrm, index) && g2.QueryIndex@ == g.QueryIndex@.insert(index, nrm)
}
pub proof fn lemma_regs(g: gtags_GTagsTree, m: Mem, g2: gtags_GTagsTree, q: Str, nrm: Str, index: i64, path: Seq<Tri>)
    requires regs(g, m), reg2(g, q, nrm, index, g2), index >= 0, !g.Queries@.contains_key(q), !g.Queries@.contains_key(nrm), !g.QueryIndex@.contains_key(index), nrm@ == tri_txt(path)
    ensures regs(g2, m.insert(path, (nrm@, index as int))), !m.contains_key(path)
{
    let m2 = m.insert(path, (nrm@, index as int));
    assert(mk_str(nrm@) == nrm);
    if m.contains_key(path) { assert(m[path].0 == nrm@); }
    assert forall|x: Seq<Tri>| #[trigger] m2.contains_key(x) implies m2[x].0 == tri_txt(x) && 0 <= m2[x].1 <= i64::MAX && g2.Queries@.contains_key(mk_str(m2[x].0)) && g2.Queries@[mk_str(m2[x].0)] == m2[x].1 && g2.QueryIndex@.contains_key(m2[x].1 as i64) && g2.QueryIndex@[m2[x].1 as i64]@ == m2[x].0 by {
        if x != path { assert(m.contains_key(x)); assert(mk_str(m[x].0) != nrm); assert(mk_str(m[x].0) != q); assert(m[x].1 != index); }
    }
    assert forall|i: i64| #[trigger] g2.QueryIndex@.contains_key(i) implies exists|x: Seq<Tri>| #[trigger] m2.contains_key(x) && m2[x] == (g2.QueryIndex@[i]@, i as int) by {
        if i == index { assert(m2.contains_key(path)); }
        else { assert(g.QueryIndex@.contains_key(i)); let x = choose|x: Seq<Tri>| #[trigger] m.contains_key(x) && m[x] == (g.QueryIndex@[i]@, i as int); assert(x != path); assert(m2.contains_key(x)); }
    }
    assert forall|s: Str| #[trigger] g2.Queries@.contains_key(s) implies g2.QueryIndex@.contains_key(g2.Queries@[s]) by {
        if s != nrm && s != q { assert(g.Queries@.contains_key(s)); }
    }
}
pub proof fn lemma_same_tree(g: gtags_GTagsTree, g2: gtags_GTagsTree, h: TIH)
    requires g.Root == g2.Root, g.Terminated == g2.Terminated
    ensures forall|m: Mem| #[trigger] tree(g, h, m) ==> tree(g2, h, m)
{
    assert forall|m: Mem| #[trigger] tree(g, h, m) implies tree(g2, h, m) by {
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
        assert(rooted(g2, h, p)); assert(mem_ok(g2, h, p, m));
    }
}
pub proof fn lemma_added_terms(g: gtags_GTagsTree, h: TIH, q: Str, terms: Seq<gtags_TaggedTerm>, nrm: Str, index: i64, h1: TIH, r: u64, g2: gtags_GTagsTree, h2: TIH)
    requires okg(g, h), terms.len() > 0, stepn(h, g.Root, terms, h1, r), h2 == h1.insert(r, h2[r]), h1.contains_key(r), ended(h1[r], h2[r], nrm, index), reg2(g, q, nrm, index, g2), g2.Root == g.Root, g2.Terminated == g.Terminated,
        index >= 0, !g.Queries@.contains_key(q), !g.Queries@.contains_key(nrm), !g.QueryIndex@.contains_key(index), nrm@ == terms_txt(terms)
    ensures added(g, h, terms, nrm, index, g2, h2)
{
    lemma_okg(g, h);
    lemma_tree_add(g.Root, h, terms, h1, r, h2, nrm, index);
    lemma_trijoin(terms);
    lemma_same_tree(g, g2, h2);
    assert forall|m: Mem| #[trigger] gt(g, h, m) implies !m.contains_key(tris(terms)) && gt(g2, h2, m.insert(tris(terms), (nrm@, index as int))) by {
        lemma_regs(g, m, g2, q, nrm, index, tris(terms));
        assert(tree(g, h, m));
        assert(tree(g, h2, m.insert(tris(terms), (nrm@, index as int))));
    }
}
pub proof fn lemma_added_none(g: gtags_GTagsTree, h: TIH, q: Str, nrm: Str, index: i64, g2: gtags_GTagsTree, terms: Seq<gtags_TaggedTerm>)
    requires okg(g, h), terms.len() == 0, reg2(g, q, nrm, index, g2), g2.Root == g.Root, g2.Terminated.Terminate, g2.Terminated.Query == nrm, g2.Terminated.Index == index,
        index >= 0, !g.Queries@.contains_key(q), !g.Queries@.contains_key(nrm), !g.QueryIndex@.contains_key(index), nrm@ == terms_txt(terms)
    ensures added(g, h, terms, nrm, index, g2, h)
{
    lemma_trijoin(terms);
    let q0 = tris(terms);
    assert(q0 =~= Seq::<Tri>::empty());
    assert forall|m: Mem| #[trigger] gt(g, h, m) implies !m.contains_key(q0) && gt(g2, h, m.insert(q0, (nrm@, index as int))) by {
        lemma_regs(g, m, g2, q, nrm, index, q0);
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
        let m2 = m.insert(q0, (nrm@, index as int));
        assert(rooted(g2, h, p));
        assert forall|r: u64, x: Seq<Tri>| #[trigger] is_mem(h, p, g2.Root, r, x) implies m2.contains_key(x) && m2[x] == (h[r].Terminated.Query@, h[r].Terminated.Index as int) by { assert(is_mem(h, p, g.Root, r, x)); assert(x != q0); }
        assert forall|x: Seq<Tri>| #[trigger] m2.contains_key(x) && x.len() > 0 implies exists|r: u64| is_mem(h, p, g2.Root, r, x) by { assert(m.contains_key(x)); let r = choose|r: u64| is_mem(h, p, g.Root, r, x); assert(is_mem(h, p, g2.Root, r, x)); }
        assert(mem_ok(g2, h, p, m2));
    }
}
pub proof fn lemma_parsed_keys(c: Seq<Seq<u8>>, t: Seq<gtags_TaggedTerm>)
    requires parsed(c, t), all_ok(c)
    ensures keysok(t), opsok(t), U() ==> wfts(t), t.len() == c.len()
{
    let b = choose|b: Seq<gtags_TaggedTerm>| all_term(c, b) && #[trigger] b.to_multiset() == t.to_multiset();
    b.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).Key@.len() > 0 && 1 <= t[i].Op <= 4 && (U() ==> wft(t[i])) by { let j = lemma_ms_at(t, b, i); assert(c_term(c[j], b[j])); assert(c_ok(c[j])); }
}
// ---- the answer of an add
pub open spec fn E_INDEX() -> Err { Err::E(2045400398i64) }
pub open spec fn E_EXIST() -> Err { Err::E(2448021308i64) }
pub open spec fn E_DUP() -> Err { Err::E(3293863716i64) }
pub open spec fn accepted(g: gtags_GTagsTree, h: TIH, q: Str, terms: Seq<gtags_TaggedTerm>, nrm: Str, index: i64, g2: gtags_GTagsTree, h2: TIH) -> bool {
    nrm@ == terms_txt(terms) && reg2(g, q, nrm, index, g2) && added(g, h, terms, nrm, index, g2, h2)
}

// a new root
pub proof fn lemma_new1(h: TIH, p: Map<u64, Pth>, d: nat, r: u64, x: gtags_TaggedItem, h2: TIH)
    requires valid(h, p, d), !h.contains_key(r), x.Items@.len() == 0, h2 == h.insert(r, x)
    ensures valid(h2, p.insert(r, (r, Seq::empty())), d)
{
    reveal(valid);
    let p2 = p.insert(r, (r, Seq::<Tri>::empty()));
    assert forall|y: u64, i: int, m: bool, j: int| slot(h2, y, i, m, j) implies kid_ok(h2, p2, y, i, m, #[trigger] at(h2, y, i, m, j)) by { assert(y != r); assert(slot(h, y, i, m, j)); assert(at(h, y, i, m, j) == at(h2, y, i, m, j)); assert(kid_ok(h, p, y, i, m, at(h, y, i, m, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p2[c] == (c, Seq::<Tri>::empty()) || has_par(h2, c) by {
        if c != r { assert(h.contains_key(c)); if p[c] != (c, Seq::<Tri>::empty()) { let (y, i, m, j) = choose|y: u64, i: int, m: bool, j: int| slot(h, y, i, m, j) && #[trigger] at(h, y, i, m, j) == c; assert(slot(h2, y, i, m, j)); assert(at(h2, y, i, m, j) == c); } }
    }
    assert forall|s: u64| h.contains_key(s) implies #[trigger] p[s] != (r, Seq::<Tri>::empty()) by {
        if p[s] == (r, Seq::<Tri>::empty()) { assert(has_par(h, s)); let (y, i, m, j) = choose|y: u64, i: int, m: bool, j: int| slot(h, y, i, m, j) && #[trigger] at(h, y, i, m, j) == s; assert(kid_ok(h, p, y, i, m, s)); assert(p[s].1.len() > 0); }
    }
    assert forall|y: u64, s: u64| h2.contains_key(y) && h2.contains_key(s) && #[trigger] p2[y] == #[trigger] p2[s] implies y == s by {
        if y != r { assert(h.contains_key(y)); assert(p[y] == p2[y]); } if s != r { assert(h.contains_key(s)); assert(p[s] == p2[s]); }
    }
    assert forall|y: u64| #[trigger] h2.contains_key(y) implies lev_ord(h2[y].Items@) && p2[y].1.len() <= d by { if y != r { assert(h.contains_key(y)); } }
}
pub proof fn lemma_new(h: TIH, r: u64, x: gtags_TaggedItem, h2: TIH)
    requires wfh(h), !h.contains_key(r), x.Items@.len() == 0, !x.Terminated.Terminate, h2 == h.insert(r, x)
    ensures wfh(h2), forall|g9: gtags_GTagsTree, m: Mem| #[trigger] tree(g9, h, m) ==> tree(g9, h2, m), forall|l: Lang| #[trigger] coh(h, l) ==> coh(h2, l)
{
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
    lemma_new1(h, p, d, r, x, h2);
    assert forall|g9: gtags_GTagsTree, m: Mem| #[trigger] tree(g9, h, m) implies tree(g9, h2, m) by {
        let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g9, h, p) && mem_ok(g9, h, p, m);
        lemma_new1(h, p, d, r, x, h2);
        let p2 = p.insert(r, (r, Seq::<Tri>::empty()));
        assert(rooted(g9, h2, p2));
        assert forall|y: u64, q: Seq<Tri>| #[trigger] is_mem(h2, p2, g9.Root, y, q) implies m.contains_key(q) && m[q] == (h2[y].Terminated.Query@, h2[y].Terminated.Index as int) by { assert(is_mem(h, p, g9.Root, y, q)); }
        assert forall|q: Seq<Tri>| #[trigger] m.contains_key(q) && q.len() > 0 implies exists|y: u64| is_mem(h2, p2, g9.Root, y, q) by { let y = choose|y: u64| is_mem(h, p, g9.Root, y, q); assert(is_mem(h2, p2, g9.Root, y, q)); }
        assert(mem_ok(g9, h2, p2, m));
    }
    assert forall|l: Lang| #[trigger] coh(h, l) implies coh(h2, l) by {
        reveal(valid);
        assert forall|y: u64, i: int, m: bool, j: int| slot(h2, y, i, m, j) implies agree(h2[(#[trigger] at(h2, y, i, m, j))].Term, l) by { assert(y != r); assert(slot(h, y, i, m, j)); assert(at(h, y, i, m, j) == at(h2, y, i, m, j)); assert(kid_ok(h, p, y, i, m, at(h, y, i, m, j))); }
    }
}
pub proof fn lemma_new_tree(h: TIH, g: gtags_GTagsTree, h2: TIH)
    requires wfh(h), !h.contains_key(g.Root), h2 == h.insert(g.Root, h2[g.Root]), h2[g.Root].Items@.len() == 0, !h2[g.Root].Terminated.Terminate, !g.Terminated.Terminate, !g.Queries.nil(), !g.QueryIndex.nil(), g.Queries@ == Map::<Str, i64>::empty(), g.QueryIndex@ == Map::<i64, Str>::empty()
    ensures gt(g, h2, Map::empty())
{
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d);
    lemma_new1(h, p, d, g.Root, h2[g.Root], h2);
    let p2 = p.insert(g.Root, (g.Root, Seq::<Tri>::empty()));
    let m = Map::<Seq<Tri>, Rec>::empty();
    reveal(valid);
    assert forall|y: u64, q: Seq<Tri>| #[trigger] is_mem(h2, p2, g.Root, y, q) implies m.contains_key(q) && m[q] == (h2[y].Terminated.Query@, h2[y].Terminated.Index as int) by {
        // a node of the new root has a chain of parents up to it: it has none
        assert(y != g.Root); assert(h.contains_key(y)); lemma_root_in(h, p, d, y); assert(h.contains_key(p[y].0));
    }
    assert(mem_ok(g, h2, p2, m));
}
pub proof fn lemma_root_in(h: TIH, p: Map<u64, Pth>, d: nat, y: u64)
    requires valid(h, p, d), h.contains_key(y)
    ensures h.contains_key(p[y].0)
    decreases p[y].1.len()
{
    reveal(valid);
    if p[y] != (y, Seq::<Tri>::empty()) {
        let (r, i, m, j) = choose|r: u64, i: int, m: bool, j: int| slot(h, r, i, m, j) && #[trigger] at(h, r, i, m, j) == y;
        assert(kid_ok(h, p, r, i, m, y));
        lemma_root_in(h, p, d, r);
    }
}

// ---- what a match of the tree reports
pub open spec fn treefound(g: gtags_GTagsTree, h: TIH, t: Tags, s: Seq<Rec>) -> bool {
    forall|x: Rec| #[trigger] s.contains(x) == (g.Terminated.Terminate && x == (g.Terminated.Query@, g.Terminated.Index as int) || hitx(h, g.Root, t, x))
}
pub proof fn lemma_treefound(g: gtags_GTagsTree, h: TIH, t: Tags, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires s1 == if g.Terminated.Terminate { s0.push((g.Terminated.Query@, g.Terminated.Index as int)) } else { s0 }, grows(s1, s2), found(h, g.Root, t, tl(s1, s2))
    ensures grows(s0, s2), treefound(g, h, t, tl(s0, s2))
{
    reveal(found);
    let w = if g.Terminated.Terminate { seq![(g.Terminated.Query@, g.Terminated.Index as int)] } else { Seq::<Rec>::empty() };
    assert(s1 =~= s0 + w);
    assert forall|k: int| 0 <= k < s1.len() implies s2[k] == s1[k] by { assert(s2.subrange(0, s1.len() as int)[k] == s1[k]); }
    assert(s2.subrange(0, s0.len() as int) =~= s0);
    assert(tl(s0, s2) =~= w + Seq::<Rec>::empty() + tl(s1, s2));
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == (g.Terminated.Terminate && x == (g.Terminated.Query@, g.Terminated.Index as int) || hitx(h, g.Root, t, x)) by {
        lemma_cat_contains(w, Seq::<Rec>::empty(), tl(s1, s2), x);
        if g.Terminated.Terminate { assert(w[0] == (g.Terminated.Query@, g.Terminated.Index as int)); }
    }
}
// a member is satisfied
pub open spec fn trisat(l: Lang, q: Tri, t: Tags) -> bool { if t.contains_key(mk_str(q.0)) { l(q, t[mk_str(q.0)]@) } else { neg(q.1) } }
pub open spec fn psat(l: Lang, q: Seq<Tri>, t: Tags) -> bool { forall|i: int| 0 <= i < q.len() ==> trisat(l, #[trigger] q[i], t) }
pub proof fn lemma_trisat(x: gtags_TaggedTerm, l: Lang, t: Tags)
    requires agree(x, l)
    ensures msat(x, t) == trisat(l, tri(x), t)
{ assert(mk_str(x.Key@) == x.Key); if t.contains_key(x.Key) { assert(tsat(x, t[x.Key]@) == l(tri(x), t[x.Key]@)); } }
pub proof fn lemma_psat(terms: Seq<gtags_TaggedTerm>, l: Lang, t: Tags)
    requires coht(terms, l)
    ensures psat(l, tris(terms), t) == allsat(terms, t)
{
    assert forall|i: int| 0 <= i < terms.len() implies msat(#[trigger] terms[i], t) == trisat(l, #[trigger] tris(terms)[i], t) by { lemma_trisat(terms[i], l, t); }
    if psat(l, tris(terms), t) { assert forall|i: int| 0 <= i < terms.len() implies msat(#[trigger] terms[i], t) by { assert(trisat(l, tris(terms)[i], t)); } }
    if allsat(terms, t) { assert forall|i: int| 0 <= i < tris(terms).len() implies trisat(l, #[trigger] tris(terms)[i], t) by { assert(msat(terms[i], t)); } }
}
pub proof fn lemma_hit_path(h: TIH, p: Map<u64, Pth>, d: nat, l: Lang, r: u64, c: u64, t: Tags, n: nat)
    requires valid(h, p, d), coh(h, l), h.contains_key(r), hit(h, r, c, t, n)
    ensures h.contains_key(c), p[c].0 == p[r].0, exists|q: Seq<Tri>| p[c].1 == p[r].1 + q && q.len() == n && #[trigger] psat(l, q, t)
    decreases n
{
    if n == 0 { let q = Seq::<Tri>::empty(); assert(p[c].1 =~= p[r].1 + q); assert(psat(l, q, t)); }
    else {
        let (i, m, j) = choose|i: int, m: bool, j: int| slot(h, r, i, m, j) && msat(h[(#[trigger] at(h, r, i, m, j))].Term, t) && hit(h, at(h, r, i, m, j), c, t, (n - 1) as nat);
        let k = at(h, r, i, m, j);
        assert(kid_ok(h, p, r, i, m, k)) by { reveal(valid); }
        lemma_hit_path(h, p, d, l, k, c, t, (n - 1) as nat);
        let q = choose|q: Seq<Tri>| p[c].1 == p[k].1 + q && q.len() == n - 1 && #[trigger] psat(l, q, t);
        assert(agree(h[k].Term, l));
        lemma_trisat(h[k].Term, l, t);
        let q1 = seq![tri(h[k].Term)] + q;
        assert(p[c].1 =~= p[r].1 + q1);
        assert forall|a: int| 0 <= a < q1.len() implies trisat(l, #[trigger] q1[a], t) by { if a > 0 { assert(q1[a] == q[a - 1]); } }
        assert(psat(l, q1, t));
    }
}
pub proof fn lemma_hit_snoc(h: TIH, r: u64, k: u64, t: Tags, n: nat, i: int, m: bool, j: int)
    requires hit(h, r, k, t, n), slot(h, k, i, m, j), msat(h[at(h, k, i, m, j)].Term, t)
    ensures hit(h, r, at(h, k, i, m, j), t, n + 1)
    decreases n
{
    let c = at(h, k, i, m, j);
    if n == 0 { assert(hit(h, c, c, t, 0)); }
    else {
        let (i2, m2, j2) = choose|i2: int, m2: bool, j2: int| slot(h, r, i2, m2, j2) && msat(h[(#[trigger] at(h, r, i2, m2, j2))].Term, t) && hit(h, at(h, r, i2, m2, j2), k, t, (n - 1) as nat);
        lemma_hit_snoc(h, at(h, r, i2, m2, j2), k, t, (n - 1) as nat, i, m, j);
        assert(hit(h, at(h, r, i2, m2, j2), c, t, n));
    }
}
pub proof fn lemma_path_hit(h: TIH, p: Map<u64, Pth>, d: nat, l: Lang, root: u64, c: u64, t: Tags)
    requires valid(h, p, d), coh(h, l), h.contains_key(root), p[root] == (root, Seq::<Tri>::empty()), h.contains_key(c), p[c].0 == root, psat(l, p[c].1, t)
    ensures hit(h, root, c, t, p[c].1.len())
    decreases p[c].1.len()
{
    assert(v_inj(h, p) && v_par(h, p)) by { reveal(valid); }
    if p[c].1.len() == 0 { assert(p[c].1 =~= Seq::<Tri>::empty()); assert(p[c] == p[root]); assert(c == root); }
    else {
        assert(has_par(h, c)) by { assert(p[c] != (c, Seq::<Tri>::empty())); }
        let (k, i, m, j) = choose|k: u64, i: int, m: bool, j: int| slot(h, k, i, m, j) && #[trigger] at(h, k, i, m, j) == c;
        assert(kid_ok(h, p, k, i, m, c)) by { reveal(valid); }
        assert(agree(h[at(h, k, i, m, j)].Term, l));
        lemma_trisat(h[c].Term, l, t);
        let q = p[c].1; let q0 = p[k].1;
        assert(q[q.len() - 1] == tri(h[c].Term));
        assert(trisat(l, q[q.len() - 1], t));
        assert forall|a: int| 0 <= a < q0.len() implies trisat(l, #[trigger] q0[a], t) by { assert(q[a] == q0[a]); assert(trisat(l, q[a], t)); }
        lemma_path_hit(h, p, d, l, root, k, t);
        lemma_hit_snoc(h, root, k, t, q0.len(), i, m, j);
    }
}
// what the tree reports are exactly the members whose terms are satisfied
pub proof fn theorem_tree_match(g: gtags_GTagsTree, h: TIH, m: Mem, l: Lang, t: Tags, s: Seq<Rec>)
    requires tree(g, h, m), coh(h, l), treefound(g, h, t, s)
    ensures forall|x: Rec| #[trigger] s.contains(x) == exists|q: Seq<Tri>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t)
{
    let (p, d) = choose|p: Map<u64, Pth>, d: nat| #[trigger] valid(h, p, d) && rooted(g, h, p) && mem_ok(g, h, p, m);
    let e = Seq::<Tri>::empty();
    assert forall|x: Rec| #[trigger] s.contains(x) == exists|q: Seq<Tri>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t) by {
        if s.contains(x) {
            if g.Terminated.Terminate && x == (g.Terminated.Query@, g.Terminated.Index as int) { assert(m.contains_key(e) && m[e] == x && psat(l, e, t)); }
            else {
                let (c, n) = choose|c: u64, n: nat| n > 0 && #[trigger] hit(h, g.Root, c, t, n) && own(h, c, x);
                lemma_hit_path(h, p, d, l, g.Root, c, t, n);
                let q = choose|q: Seq<Tri>| p[c].1 == p[g.Root].1 + q && q.len() == n && #[trigger] psat(l, q, t);
                assert(p[c].1 =~= q);
                assert(is_mem(h, p, g.Root, c, q));
                assert(m.contains_key(q) && m[q] == x && psat(l, q, t));
            }
        }
        if exists|q: Seq<Tri>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t) {
            let q = choose|q: Seq<Tri>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t);
            if q.len() == 0 { assert(q =~= e); }
            else {
                let r = choose|r: u64| is_mem(h, p, g.Root, r, q);
                lemma_path_hit(h, p, d, l, g.Root, r, t);
                assert(own(h, r, x));
                assert(hitx(h, g.Root, t, x));
            }
            assert(s.contains(x));
        }
    }
}
