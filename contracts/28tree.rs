// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs 23rec.rs
// The glob tree: its nodes in the heap, its members, what a match reports.

// a node is named by what it holds, and whether it is a suffix
pub type TEl = (bool, Ce);
pub type TPth = (u64, Seq<TEl>);
pub type TH = Map<u64, items_TreeItem>;
pub type TPM = Map<u64, TPth>;
pub open spec fn tel(x: items_TreeItem) -> TEl { (x.Reverse, ce(x.Item)) }
pub open spec fn tslot(h: TH, r: u64, j: int) -> bool { h.contains_key(r) && 0 <= j < h[r].Childs@.len() }
pub open spec fn tat(h: TH, r: u64, j: int) -> u64 { h[r].Childs@[j] }
pub open spec fn issfx(it: items_Item) -> bool { it matches items_Item::String(x) && x.S@.len() > 0 }
pub open spec fn tkid_ok(h: TH, p: TPM, r: u64, c: u64) -> bool {
    h.contains_key(c) && c != 0 && p[c] == (p[r].0, p[r].1.push(tel(h[c]))) && wfix(h[c].Item, U()) && (h[c].Reverse ==> p[r].1.len() == 0 && issfx(h[c].Item))
}
pub open spec fn tv_kids(h: TH, p: TPM) -> bool { forall|r: u64, j: int| tslot(h, r, j) ==> tkid_ok(h, p, r, #[trigger] tat(h, r, j)) }
pub open spec fn tv_inj(h: TH, p: TPM) -> bool { forall|r: u64, s: u64| h.contains_key(r) && h.contains_key(s) && #[trigger] p[r] == #[trigger] p[s] ==> r == s }
pub open spec fn thas_par(h: TH, c: u64) -> bool { exists|r: u64, j: int| tslot(h, r, j) && #[trigger] tat(h, r, j) == c }
pub open spec fn tv_par(h: TH, p: TPM) -> bool { forall|c: u64| #[trigger] h.contains_key(c) ==> p[c] == (c, Seq::<TEl>::empty()) || thas_par(h, c) }
pub open spec fn tv_deep(h: TH, p: TPM, d: nat) -> bool { forall|r: u64| #[trigger] h.contains_key(r) ==> p[r].1.len() <= d }
#[verifier::opaque]
pub open spec fn tvalid(h: TH, p: TPM) -> bool { tv_kids(h, p) && tv_inj(h, p) && tv_par(h, p) && exists|d: nat| #[trigger] tv_deep(h, p, d) }
pub open spec fn twfh(h: TH) -> bool { exists|p: TPM| #[trigger] tvalid(h, p) }
pub proof fn tdeep_more(h: TH, p: TPM, d: nat, e: nat)
    requires tv_deep(h, p, d), d <= e
    ensures tv_deep(h, p, e)
{}

// h2 is h with more nodes below the root o
#[verifier::opaque]
pub open spec fn text(h: TH, p: TPM, h2: TH, p2: TPM, o: u64) -> bool {
    &&& forall|r: u64| #![trigger h.contains_key(r)] #![trigger h2.contains_key(r)] h.contains_key(r) ==> h2.contains_key(r) && p2[r] == p[r] && h2[r].Item == h[r].Item && h2[r].Reverse == h[r].Reverse && h2[r].Terminated == h[r].Terminated
    &&& forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) ==> !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0
}
pub open spec fn tlanded(h: TH, p: TPM, h2: TH, o: u64, r: u64, path: TPth) -> bool {
    h2.contains_key(r) && exists|p2: TPM| #[trigger] tvalid(h2, p2) && text(h, p, h2, p2, o) && p2[r] == path
}
pub proof fn lemma_text_refl(h: TH, p: TPM, o: u64)
    ensures text(h, p, h, p, o)
{ reveal(text); }
pub proof fn lemma_text_trans(h: TH, p: TPM, h1: TH, p1: TPM, h2: TH, p2: TPM, o: u64)
    requires text(h, p, h1, p1, o), text(h1, p1, h2, p2, o)
    ensures text(h, p, h2, p2, o)
{
    reveal(text);
    assert forall|r: u64| h.contains_key(r) implies #[trigger] h2.contains_key(r) && p2[r] == p[r] && h2[r].Item == h[r].Item && h2[r].Reverse == h[r].Reverse && h2[r].Terminated == h[r].Terminated by { assert(h1.contains_key(r)); }
    assert forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) implies !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0 by { if h1.contains_key(r) { } }
}
// a new leaf for the element e
pub open spec fn tleaf(x: items_TreeItem, e: TEl) -> bool { tel(x) == e && wfix(x.Item, U()) && (e.0 ==> issfx(x.Item)) && !x.Terminated.Terminate && x.Childs@.len() == 0 }
pub open spec fn tnokid(h: TH, t: u64, e: TEl) -> bool { forall|j: int| 0 <= j < h[t].Childs@.len() ==> tel(h[(#[trigger] h[t].Childs@[j])]) != e }
pub open spec fn tgrown(x: items_TreeItem, u: items_TreeItem, c: u64) -> bool { u.Item == x.Item && u.Reverse == x.Reverse && u.Terminated == x.Terminated && u.Childs@ =~= x.Childs@.push(c) }
// a child is added
pub proof fn lemma_tchild(h: TH, p: TPM, t: u64, c: u64, h2: TH, o: u64, e: TEl)
    requires tvalid(h, p), h.contains_key(t), !h.contains_key(c), c != 0, tleaf(h2[c], e), o == p[t].0, e.0 ==> p[t].1.len() == 0,
        tnokid(h, t, e), tgrown(h[t], h2[t], c), h2 == h.insert(c, h2[c]).insert(t, h2[t]),
    ensures tlanded(h, p, h2, o, c, (o, p[t].1.push(e)))
{
    reveal(tvalid);
    let q = (o, p[t].1.push(e));
    let p2 = p.insert(c, q);
    assert(c != t);
    assert(text(h, p, h2, p2, o)) by { reveal(text); }
    assert forall|r: u64, j: int| tslot(h2, r, j) implies tkid_ok(h2, p2, r, #[trigger] tat(h2, r, j)) by {
        assert(r != c);
        if r == t && j == h[t].Childs@.len() { assert(tat(h2, r, j) == c); }
        else { assert(tslot(h, r, j)); assert(tat(h, r, j) == tat(h2, r, j)); assert(tkid_ok(h, p, r, tat(h, r, j))); }
    }
    assert forall|x: u64| #[trigger] h2.contains_key(x) implies p2[x] == (x, Seq::<TEl>::empty()) || thas_par(h2, x) by {
        if x == c {
            let j0 = h[t].Childs@.len() as int;
            assert(tslot(h2, t, j0)); assert(tat(h2, t, j0) == c);
        } else {
            assert(h.contains_key(x));
            if p[x] != (x, Seq::<TEl>::empty()) {
                let (r, j) = choose|r: u64, j: int| tslot(h, r, j) && #[trigger] tat(h, r, j) == x;
                assert(tslot(h2, r, j)); assert(tat(h2, r, j) == x);
            }
        }
    }
    assert forall|r: u64| h.contains_key(r) implies #[trigger] p[r] != q by {
        if p[r] == q {
            assert(q.1.len() > 0);
            assert(p[r] != (r, Seq::<TEl>::empty()));
            let (s, j) = choose|s: u64, j: int| tslot(h, s, j) && #[trigger] tat(h, s, j) == r;
            assert(tkid_ok(h, p, s, r));
            assert(p[s].1.push(tel(h[r])).drop_last() =~= p[s].1); assert(p[t].1.push(e).drop_last() =~= p[t].1);
            assert(p[s].1.push(tel(h[r])).last() == tel(h[r])); assert(p[t].1.push(e).last() == e);
            assert(p[s] == p[t]); assert(s == t);
            assert(h[t].Childs@[j] == r);
        }
    }
    assert forall|r: u64, s: u64| h2.contains_key(r) && h2.contains_key(s) && #[trigger] p2[r] == #[trigger] p2[s] implies r == s by {
        if r != c && s != c { assert(h.contains_key(r) && h.contains_key(s)); assert(p[r] == p[s]); }
        else if r != c { assert(h.contains_key(r)); assert(p[r] != q); }
        else if s != c { assert(h.contains_key(s)); assert(p[s] != q); }
    }
    let d = choose|d: nat| #[trigger] tv_deep(h, p, d);
    assert(tv_deep(h2, p2, d + 1 + q.1.len()));
    assert(tvalid(h2, p2));
    assert(p2[c] == q);
}
pub open spec fn tis_root(p: TPM, o: u64) -> bool { p[o] == (o, Seq::<TEl>::empty()) }
pub open spec fn twroot(h: TH, o: u64) -> bool { exists|p: TPM| #[trigger] tvalid(h, p) && h.contains_key(o) && tis_root(p, o) }
pub proof fn lemma_twroot(h: TH, p: TPM, o: u64)
    requires tvalid(h, p), twroot(h, o)
    ensures tis_root(p, o)
{
    reveal(tvalid);
    let q = choose|q: TPM| #[trigger] tvalid(h, q) && h.contains_key(o) && tis_root(q, o);
    if thas_par(h, o) { let (r, j) = choose|r: u64, j: int| tslot(h, r, j) && #[trigger] tat(h, r, j) == o; assert(tkid_ok(h, q, r, o)); assert(q[o].1.len() > 0); }
}
// r is the node of the path q below the root o
#[verifier::opaque]
pub open spec fn twalked(h: TH, o: u64, q: Seq<TEl>, h2: TH, r: u64) -> bool {
    twroot(h, o) && forall|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) ==> tlanded(h, p, h2, o, r, (o, q))
}
pub proof fn lemma_twalk0(h: TH, o: u64)
    requires twroot(h, o)
    ensures twalked(h, o, Seq::empty(), h, o)
{
    reveal(twalked);
    assert forall|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) implies tlanded(h, p, h, o, o, (o, Seq::empty())) by { lemma_text_refl(h, p, o); }
}
pub proof fn lemma_twalked_at(h: TH, o: u64, q: Seq<TEl>, h2: TH, r: u64)
    requires twalked(h, o, q, h2, r)
    ensures twfh(h2), h2.contains_key(r), q.len() > 0 ==> r != 0,
        forall|j: int| 0 <= j < h2[r].Childs@.len() ==> h2.contains_key(#[trigger] h2[r].Childs@[j]) && h2[r].Childs@[j] != 0 && wfix(h2[h2[r].Childs@[j]].Item, U()),
{
    reveal(twalked); reveal(tvalid);
    let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o);
    assert(tlanded(h, p, h2, o, r, (o, q)));
    let p2 = choose|p2: TPM| #[trigger] tvalid(h2, p2) && text(h, p, h2, p2, o) && p2[r] == (o, q);
    if r == 0 && q.len() > 0 {
        assert(p2[r] != (r, Seq::<TEl>::empty()));
        let (s, j) = choose|s: u64, j: int| tslot(h2, s, j) && #[trigger] tat(h2, s, j) == r;
        assert(tkid_ok(h2, p2, s, r));
    }
    assert forall|j: int| 0 <= j < h2[r].Childs@.len() implies h2.contains_key(#[trigger] h2[r].Childs@[j]) && h2[r].Childs@[j] != 0 && wfix(h2[h2[r].Childs@[j]].Item, U()) by { assert(tslot(h2, r, j)); assert(tkid_ok(h2, p2, r, tat(h2, r, j))); }
}
// the next element is there, or is added
pub open spec fn tnext(h2: TH, r: u64, e: TEl, h3: TH, c: u64) -> bool {
    if h2.contains_key(c) { h3 == h2 && exists|j: int| 0 <= j < h2[r].Childs@.len() && #[trigger] h2[r].Childs@[j] == c && tel(h2[c]) == e }
    else { c != 0 && tleaf(h3[c], e) && tnokid(h2, r, e) && tgrown(h2[r], h3[r], c) && h3 == h2.insert(c, h3[c]).insert(r, h3[r]) }
}
pub proof fn lemma_twalk_next(h: TH, o: u64, q: Seq<TEl>, h2: TH, r: u64, e: TEl, h3: TH, c: u64)
    requires twalked(h, o, q, h2, r), tnext(h2, r, e, h3, c), e.0 ==> q.len() == 0
    ensures twalked(h, o, q.push(e), h3, c)
{
    reveal(twalked);
    assert forall|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) implies tlanded(h, p, h3, o, c, (o, q.push(e))) by {
        assert(tlanded(h, p, h2, o, r, (o, q)));
        let p2 = choose|p2: TPM| #[trigger] tvalid(h2, p2) && text(h, p, h2, p2, o) && p2[r] == (o, q);
        if h2.contains_key(c) {
            let j = choose|j: int| 0 <= j < h2[r].Childs@.len() && #[trigger] h2[r].Childs@[j] == c && tel(h2[c]) == e;
            assert(tkid_ok(h2, p2, r, tat(h2, r, j))) by { reveal(tvalid); assert(tslot(h2, r, j)); }
        } else {
            lemma_tchild(h2, p2, r, c, h3, o, e);
            let p3 = choose|p3: TPM| #[trigger] tvalid(h3, p3) && text(h2, p2, h3, p3, o) && p3[c] == (o, q.push(e));
            lemma_text_trans(h, p, h2, p2, h3, p3, o);
        }
    }
}
// what the code does at one element
pub open spec fn tdone1(h2: TH, r: u64, e: TEl, h3: TH, c: u64) -> bool {
    ||| (h3 == h2 && c != 0 && exists|j: int| 0 <= j < h2[r].Childs@.len() && #[trigger] h2[r].Childs@[j] == c && tel(h2[c]) == e)
    ||| (c != 0 && !h2.contains_key(c) && tleaf(h3[c], e) && tnokid(h2, r, e) && h3.contains_key(r) && h3.contains_key(c) && tgrown(h2[r], h3[r], c) && h3.dom() =~= h2.dom().insert(c) && forall|x: u64| x != c && x != r && #[trigger] h2.contains_key(x) ==> h3[x] == h2[x])
}
pub proof fn lemma_tstep(h: TH, o: u64, q: Seq<TEl>, h2: TH, r: u64, e: TEl, h3: TH, c: u64)
    requires twalked(h, o, q, h2, r), tdone1(h2, r, e, h3, c), e.0 ==> q.len() == 0
    ensures twalked(h, o, q.push(e), h3, c)
{
    lemma_twalked_at(h, o, q, h2, r);
    if !h2.contains_key(c) { assert(h3 =~= h2.insert(c, h3[c]).insert(r, h3[r])); }
    assert(tnext(h2, r, e, h3, c));
    lemma_twalk_next(h, o, q, h2, r, e, h3, c);
}
// ---- the path of a glob
pub open spec fn node_sfx(g: glob_Glob) -> items_Item { items_Item::String(items_String { S: g.Suffix }) }
pub open spec fn node_pfx(g: glob_Glob) -> items_Item { items_Item::String(items_String { S: if g.Items@.len() == 0 { g.Node } else { g.Prefix } }) }
pub open spec fn tlit(x: Seq<u8>) -> Ce { Ce::Leaf(Cl::Lit(x)) }
pub open spec fn pfx(g: glob_Glob) -> Seq<u8> { if g.Items@.len() == 0 { g.Node@ } else { g.Prefix@ } }
pub open spec fn gels0(g: glob_Glob) -> Seq<TEl> { if g.Suffix@.len() > 0 { seq![(true, tlit(g.Suffix@))] } else { Seq::empty() } }
pub open spec fn gels1(g: glob_Glob) -> Seq<TEl> { if pfx(g).len() > 0 || g.Items@.len() == 0 { gels0(g).push((false, tlit(pfx(g)))) } else { gels0(g) } }
pub open spec fn iels(c: Seq<items_Item>, n: int) -> Seq<TEl> { Seq::new(n as nat, |i: int| (false, ce(c[i]))) }
pub open spec fn gels(g: glob_Glob) -> Seq<TEl> { gels1(g) + iels(g.Items@, g.Items@.len() as int) }
pub open spec fn tgood(g: glob_Glob) -> bool { gshape(g) && wfsx(g.Items@, U()) && (U() ==> wfg(g)) }
pub proof fn lemma_gels_pos(g: glob_Glob)
    ensures gels(g).len() > 0
{}

// ---- the members of a tree
pub type TMem = Map<Seq<TEl>, (glob_Glob, int)>;
pub open spec fn trec(x: items_TreeItem) -> Rec { (x.Terminated.Query@, x.Terminated.Index as int) }
pub open spec fn mrec(m: (glob_Glob, int)) -> Rec { (m.0.Node@, m.1) }
pub open spec fn tis_mem(h: TH, p: TPM, o: u64, r: u64, q: Seq<TEl>) -> bool { h.contains_key(r) && p[r] == (o, q) && h[r].Terminated.Terminate }
pub open spec fn tmem_ok(h: TH, p: TPM, o: u64, m: TMem) -> bool {
    &&& forall|r: u64, q: Seq<TEl>| #[trigger] tis_mem(h, p, o, r, q) ==> m.contains_key(q) && mrec(m[q]) == trec(h[r])
    &&& forall|q: Seq<TEl>| #[trigger] m.contains_key(q) ==> tgood(m[q].0) && gels(m[q].0) == q && exists|r: u64| tis_mem(h, p, o, r, q)
}
pub open spec fn ttree(h: TH, o: u64, m: TMem) -> bool { o != 0 && h.contains_key(o) && exists|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) && tmem_ok(h, p, o, m) }
// the last node is made a member
pub open spec fn tended(x: items_TreeItem, y: items_TreeItem, nrm: Str, index: i64) -> bool { y.Item == x.Item && y.Reverse == x.Reverse && y.Childs == x.Childs && y.Terminated.Terminate && y.Terminated.Query == nrm && y.Terminated.Index == index }
pub proof fn lemma_tend_valid(h: TH, p: TPM, r: u64, h2: TH)
    requires tvalid(h, p), h.contains_key(r), h2 == h.insert(r, h2[r]), h2[r].Item == h[r].Item, h2[r].Reverse == h[r].Reverse, h2[r].Childs == h[r].Childs
    ensures tvalid(h2, p)
{
    reveal(tvalid);
    assert forall|x: u64, j: int| tslot(h2, x, j) implies tkid_ok(h2, p, x, #[trigger] tat(h2, x, j)) by { assert(tslot(h, x, j)); assert(tat(h, x, j) == tat(h2, x, j)); assert(tkid_ok(h, p, x, tat(h, x, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p[c] == (c, Seq::<TEl>::empty()) || thas_par(h2, c) by {
        assert(h.contains_key(c));
        if p[c] != (c, Seq::<TEl>::empty()) { let (x, j) = choose|x: u64, j: int| tslot(h, x, j) && #[trigger] tat(h, x, j) == c; assert(tslot(h2, x, j)); assert(tat(h2, x, j) == c); }
    }
    let d = choose|d: nat| #[trigger] tv_deep(h, p, d);
    assert forall|x: u64| #[trigger] h2.contains_key(x) implies p[x].1.len() <= d by { assert(h.contains_key(x)); }
    assert(tv_deep(h2, p, d));
}
// a glob is added below the root o; trees below other roots are as they were
pub open spec fn taddedg(o: u64, h: TH, g: glob_Glob, index: i64, h2: TH) -> bool {
    &&& forall|m: TMem| #[trigger] ttree(h, o, m) ==> ttree(h2, o, m.insert(gels(g), (g, index as int)))
    &&& forall|o9: u64, m: TMem| #[trigger] ttree(h, o9, m) && o9 != o ==> ttree(h2, o9, m)
}
pub proof fn lemma_taddedg(h: TH, o: u64, g: glob_Glob, h1: TH, r: u64, h2: TH, index: i64)
    requires twalked(h, o, gels(g), h1, r), tgood(g), h2 == h1.insert(r, h2[r]), tended(h1[r], h2[r], g.Node, index)
    ensures taddedg(o, h, g, index, h2)
{
    reveal(twalked);
    let q0 = gels(g);
    lemma_gels_pos(g);
    assert forall|m: TMem| #[trigger] ttree(h, o, m) implies ttree(h2, o, m.insert(q0, (g, index as int))) by {
        let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) && tmem_ok(h, p, o, m);
        assert(tlanded(h, p, h1, o, r, (o, q0)));
        let p2 = choose|p2: TPM| #[trigger] tvalid(h1, p2) && text(h, p, h1, p2, o) && p2[r] == (o, q0);
        lemma_tend_valid(h1, p2, r, h2);
        reveal(text);
        let m2 = m.insert(q0, (g, index as int));
        assert forall|x: u64, q: Seq<TEl>| #[trigger] tis_mem(h2, p2, o, x, q) implies m2.contains_key(q) && mrec(m2[q]) == trec(h2[x]) by {
            if x != r {
                assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(tis_mem(h, p, o, x, q));
                assert(q != q0) by { if q == q0 { assert(p2[x] == p2[r]); assert(tv_inj(h1, p2)) by { reveal(tvalid); } } }
            }
        }
        assert forall|q: Seq<TEl>| #[trigger] m2.contains_key(q) implies tgood(m2[q].0) && gels(m2[q].0) == q && exists|x: u64| tis_mem(h2, p2, o, x, q) by {
            if q == q0 { assert(tis_mem(h2, p2, o, r, q)); }
            else { assert(m.contains_key(q)); let x = choose|x: u64| tis_mem(h, p, o, x, q); assert(h.contains_key(x)); assert(tis_mem(h2, p2, o, x, q)); }
        }
        assert(h.contains_key(o)); assert(h1.contains_key(o));
        assert(tis_root(p2, o));
        assert(tmem_ok(h2, p2, o, m2));
    }
    assert forall|o9: u64, m: TMem| #[trigger] ttree(h, o9, m) && o9 != o implies ttree(h2, o9, m) by {
        let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o9) && tmem_ok(h, p, o9, m);
        lemma_twroot(h, p, o);
        assert(tlanded(h, p, h1, o, r, (o, q0)));
        let p2 = choose|p2: TPM| #[trigger] tvalid(h1, p2) && text(h, p, h1, p2, o) && p2[r] == (o, q0);
        lemma_tend_valid(h1, p2, r, h2);
        reveal(text);
        assert forall|x: u64, q: Seq<TEl>| #[trigger] tis_mem(h2, p2, o9, x, q) implies m.contains_key(q) && mrec(m[q]) == trec(h2[x]) by {
            assert(x != r); assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(tis_mem(h, p, o9, x, q));
        }
        assert forall|q: Seq<TEl>| #[trigger] m.contains_key(q) implies tgood(m[q].0) && gels(m[q].0) == q && exists|x: u64| tis_mem(h2, p2, o9, x, q) by {
            let x = choose|x: u64| tis_mem(h, p, o9, x, q); assert(h.contains_key(x)); assert(x != r); assert(tis_mem(h2, p2, o9, x, q));
        }
        assert(h.contains_key(o9)); assert(h1.contains_key(o9));
        assert(tis_root(p2, o9));
        assert(tmem_ok(h2, p2, o9, m));
    }
}
pub open spec fn tokr(h: TH, o: u64) -> bool { exists|m: TMem| #[trigger] ttree(h, o, m) }
pub proof fn lemma_tokr(h: TH, o: u64)
    requires tokr(h, o)
    ensures twfh(h), h.contains_key(o), o != 0, twroot(h, o)
{
    let m = choose|m: TMem| #[trigger] ttree(h, o, m);
    let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) && tmem_ok(h, p, o, m);
}
// ---- globs of one path have one text
pub proof fn lemma_cl_tx(a: items_Item, b: items_Item, u: bool)
    requires wf_leafx(a, u), wf_leafx(b, u), cl(a) == cl(b)
    ensures leaftx(a) == leaftx(b)
{}
pub proof fn lemma_ctx_eq(a: Seq<items_Item>, b: Seq<items_Item>, n: int, u: bool)
    requires wf_leafsx(a, u), wf_leafsx(b, u), cls(a) == cls(b), 0 <= n <= a.len()
    ensures ctx(a, n) == ctx(b, n), a.len() == b.len()
    decreases n
{
    assert(cls(a).len() == a.len()); assert(cls(b).len() == b.len());
    if n > 0 { assert(cls(a)[n - 1] == cl(a[n - 1])); assert(cls(b)[n - 1] == cl(b[n - 1])); lemma_ctx_eq(a, b, n - 1, u); assert(cls(a)[n - 1] == cls(b)[n - 1]); assert(wf_leafx(a[n - 1], u)); assert(wf_leafx(b[n - 1], u)); lemma_cl_tx(a[n - 1], b[n - 1], u); }
}
pub proof fn lemma_cv_tx(a: items_Item, b: items_Item, u: bool)
    requires wf_valx(a, u) || wf_leafx(a, u), wf_valx(b, u) || wf_leafx(b, u), cv(a) == cv(b)
    ensures valtx(a) == valtx(b)
{
    match a { items_Item::Chain(c) => { let d = b->Chain_0; assert(cls(c.Items@) == cls(d.Items@)); lemma_ctx_eq(c.Items@, d.Items@, c.Items@.len() as int, u); } _ => { lemma_cl_tx(a, b, u); } }
}
pub proof fn lemma_gvtx_eq(a: Seq<items_Item>, b: Seq<items_Item>, n: int, u: bool)
    requires forall|i: int| 0 <= i < a.len() ==> wf_valx(#[trigger] a[i], u), forall|i: int| 0 <= i < b.len() ==> wf_valx(#[trigger] b[i], u), cvs(a) == cvs(b), 0 <= n <= a.len()
    ensures gvtx(a, n) == gvtx(b, n), a.len() == b.len()
    decreases n
{
    assert(cvs(a).len() == a.len()); assert(cvs(b).len() == b.len());
    if n > 0 { assert(cvs(a)[n - 1] == cv(a[n - 1])); assert(cvs(b)[n - 1] == cv(b[n - 1])); lemma_gvtx_eq(a, b, n - 1, u); assert(cvs(a)[n - 1] == cvs(b)[n - 1]); lemma_cv_tx(a[n - 1], b[n - 1], u); }
}
pub proof fn lemma_ce_tx(a: items_Item, b: items_Item, u: bool)
    requires wfix(a, u), wfix(b, u), ce(a) == ce(b)
    ensures itx(a) == itx(b)
{
    match a { items_Item::Group(g) => { let k = b->Group_0; lemma_gvtx_eq(g.Vals@, k.Vals@, g.Vals@.len() as int, u); } _ => { lemma_cv_tx(a, b, u); } }
}
pub proof fn lemma_itxs_eq(a: Seq<items_Item>, b: Seq<items_Item>, n: int, u: bool)
    requires wfsx(a, u), wfsx(b, u), 0 <= n <= a.len(), n <= b.len(), iels(a, n) == iels(b, n)
    ensures itxs(a, n) == itxs(b, n)
    decreases n
{
    if n > 0 {
        assert(iels(a, n)[n - 1] == iels(b, n)[n - 1]);
        lemma_ce_tx(a[n - 1], b[n - 1], u);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] iels(a, n - 1)[i] == iels(b, n - 1)[i] by { assert(iels(a, n)[i] == iels(b, n)[i]); }
        assert(iels(a, n - 1) =~= iels(b, n - 1));
        lemma_itxs_eq(a, b, n - 1, u);
    }
}
// the elements of a glob are told apart by their places
pub proof fn lemma_gels_node(g: glob_Glob, k: glob_Glob)
    requires tgood(g), tgood(k), gels(g) == gels(k)
    ensures g.Node@ == k.Node@, g.Items@.len() == k.Items@.len(), g.Prefix@ == k.Prefix@, g.Suffix@ == k.Suffix@, iels(g.Items@, g.Items@.len() as int) == iels(k.Items@, g.Items@.len() as int)
{
    let a = gels(g); let b = gels(k); let n = g.Items@.len() as int; let m = k.Items@.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] iels(g.Items@, n)[i] == (false, ce(g.Items@[i])) by {}
    assert forall|i: int| 0 <= i < n implies a[gels1(g).len() + i] == #[trigger] iels(g.Items@, n)[i] by {}
    assert forall|i: int| 0 <= i < m implies b[gels1(k).len() + i] == #[trigger] iels(k.Items@, m)[i] by {}
    lemma_gels0(g, k); lemma_gels0(k, g);
    assert(gels0(g) == gels0(k));
    if gels1(g).len() != gels1(k).len() {
        if gels1(g).len() > gels1(k).len() { lemma_gels1(g, k); } else { lemma_gels1(k, g); }
    }
    assert(gels1(g).len() == gels1(k).len());
    assert(a.len() == gels1(g).len() + iels(g.Items@, n).len()); assert(b.len() == gels1(k).len() + iels(k.Items@, m).len());
    assert(iels(g.Items@, n).len() == n); assert(iels(k.Items@, m).len() == m);
    assert(n == m);
    assert(iels(g.Items@, n) =~= iels(k.Items@, n)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] iels(g.Items@, n)[i] == iels(k.Items@, n)[i] by { assert(a[gels1(g).len() + i] == b[gels1(k).len() + i]); }
    }
    lemma_itxs_eq(g.Items@, k.Items@, n, U());
    assert(g.Suffix@ =~= k.Suffix@);
    let j = gels0(g).len() as int;
    if gels1(g).len() > j { assert(a[j] == (false, tlit(pfx(g)))); assert(b[j] == (false, tlit(pfx(k)))); }
    assert(g.Prefix@ =~= k.Prefix@);
}
pub proof fn lemma_gels0(g: glob_Glob, k: glob_Glob)
    requires tgood(g), tgood(k), gels(g) == gels(k)
    ensures g.Suffix@.len() > 0 ==> k.Suffix@.len() > 0 && gels0(g) == gels0(k) && g.Suffix@ == k.Suffix@
{
    if g.Suffix@.len() > 0 {
        assert(gels(g)[0] == (true, tlit(g.Suffix@)));
        let b = gels(k);
        if k.Suffix@.len() == 0 {
            lemma_gels_pos(k);
            if gels1(k).len() > 0 { assert(b[0] == gels1(k)[0]); } else { assert(b[0] == iels(k.Items@, k.Items@.len() as int)[0]); }
            assert(false);
        }
        assert(b[0] == (true, tlit(k.Suffix@)));
    }
}
pub proof fn lemma_gels1(g: glob_Glob, k: glob_Glob)
    requires tgood(g), tgood(k), gels(g) == gels(k), gels0(g) == gels0(k), gels1(g).len() > gels1(k).len()
    ensures false
{
    let j = gels0(g).len() as int;
    assert(gels(g)[j] == (false, tlit(pfx(g))));
    assert(gels1(k).len() == j);
    assert(k.Items@.len() > 0);
    assert(gels(k)[j] == iels(k.Items@, k.Items@.len() as int)[0]);
    assert(ce(k.Items@[0]) == tlit(pfx(g)));
    assert(!islit(k.Items@[0]));
}

// ---- the registries
pub open spec fn tregs(g: glob_GlobTree, m: TMem) -> bool {
    &&& !g.Globs.nil() && !g.GlobsIndex.nil()
    &&& forall|q: Seq<TEl>| #[trigger] m.contains_key(q) ==> 0 <= m[q].1 <= i64::MAX && g.Globs@.contains_key(m[q].0.Node) && g.Globs@[m[q].0.Node] == m[q].1 && g.GlobsIndex@.contains_key(m[q].1 as i64) && g.GlobsIndex@[m[q].1 as i64] == m[q].0.Node
    &&& forall|i: i64| #[trigger] g.GlobsIndex@.contains_key(i) ==> exists|q: Seq<TEl>| #[trigger] m.contains_key(q) && m[q].0.Node == g.GlobsIndex@[i] && m[q].1 == i
    &&& forall|s: Str| #[trigger] g.Globs@.contains_key(s) ==> g.GlobsIndex@.contains_key(g.Globs@[s])
}
pub open spec fn tgt(g: glob_GlobTree, h: TH, m: TMem) -> bool { ttree(h, g.Root, m) && tregs(g, m) }
pub open spec fn tokg(g: glob_GlobTree, h: TH) -> bool { exists|m: TMem| #[trigger] tgt(g, h, m) }
pub proof fn lemma_tokg(g: glob_GlobTree, h: TH)
    requires tokg(g, h)
    ensures tokr(h, g.Root), twfh(h), !g.Globs.nil(), !g.GlobsIndex.nil(), h.contains_key(g.Root), g.Root != 0
{ let m = choose|m: TMem| #[trigger] tgt(g, h, m); assert(ttree(h, g.Root, m)); lemma_tokr(h, g.Root); }
// both registries hold the new glob, the text q too
pub open spec fn treg2(g: glob_GlobTree, q: Str, nrm: Str, index: i64, g2: glob_GlobTree) -> bool {
    !g2.Globs.nil() && !g2.GlobsIndex.nil() && g2.Root == g.Root && g2.Globs@ == g.Globs@.insert(q, index).insert(nrm, index) && g2.GlobsIndex@ == g.GlobsIndex@.insert(index, nrm)
}
pub proof fn lemma_tregs(t: glob_GlobTree, m: TMem, t2: glob_GlobTree, q: Str, g: glob_Glob, index: i64)
    requires tregs(t, m), treg2(t, q, g.Node, index, t2), index >= 0, !t.Globs@.contains_key(q), !t.Globs@.contains_key(g.Node), !t.GlobsIndex@.contains_key(index), tgood(g),
        forall|x: Seq<TEl>| #[trigger] m.contains_key(x) ==> tgood(m[x].0) && gels(m[x].0) == x
    ensures tregs(t2, m.insert(gels(g), (g, index as int))), !m.contains_key(gels(g))
{
    let path = gels(g); let nrm = g.Node;
    let m2 = m.insert(path, (g, index as int));
    if m.contains_key(path) { lemma_gels_node(m[path].0, g); assert(mk_str(m[path].0.Node@) == mk_str(g.Node@)); }
    assert forall|x: Seq<TEl>| #[trigger] m2.contains_key(x) implies 0 <= m2[x].1 <= i64::MAX && t2.Globs@.contains_key(m2[x].0.Node) && t2.Globs@[m2[x].0.Node] == m2[x].1 && t2.GlobsIndex@.contains_key(m2[x].1 as i64) && t2.GlobsIndex@[m2[x].1 as i64] == m2[x].0.Node by {
        if x != path { assert(m.contains_key(x)); assert(m[x].0.Node != nrm); assert(m[x].0.Node != q); assert(m[x].1 != index); }
    }
    assert forall|i: i64| #[trigger] t2.GlobsIndex@.contains_key(i) implies exists|x: Seq<TEl>| #[trigger] m2.contains_key(x) && m2[x].0.Node == t2.GlobsIndex@[i] && m2[x].1 == i by {
        if i == index { assert(m2.contains_key(path)); }
        else { assert(t.GlobsIndex@.contains_key(i)); let x = choose|x: Seq<TEl>| #[trigger] m.contains_key(x) && m[x].0.Node == t.GlobsIndex@[i] && m[x].1 == i; assert(x != path); assert(m2.contains_key(x)); }
    }
    assert forall|s: Str| #[trigger] t2.Globs@.contains_key(s) implies t2.GlobsIndex@.contains_key(t2.Globs@[s]) by {
        if s != nrm && s != q { assert(t.Globs@.contains_key(s)); }
    }
}
// g is a result of parsing the text s
pub open spec fn tparsed(s: Seq<u8>, g: glob_Glob) -> bool { tgood(g) && g.Glob@ == s && (U() && N() ==> glok(s, g)) }
// the glob g is added under its normalized text and the text q
pub open spec fn taccepted(t: glob_GlobTree, h: TH, q: Str, g: glob_Glob, index: i64, t2: glob_GlobTree, h2: TH) -> bool {
    &&& treg2(t, q, g.Node, index, t2) && taddedg(t.Root, h, g, index, h2)
    &&& forall|m: TMem| #[trigger] tgt(t, h, m) ==> !m.contains_key(gels(g)) && tgt(t2, h2, m.insert(gels(g), (g, index as int)))
}
pub proof fn lemma_taccepted(t: glob_GlobTree, h: TH, q: Str, g: glob_Glob, index: i64, t2: glob_GlobTree, h2: TH)
    requires treg2(t, q, g.Node, index, t2), taddedg(t.Root, h, g, index, h2), index >= 0, !t.Globs@.contains_key(q), !t.Globs@.contains_key(g.Node), !t.GlobsIndex@.contains_key(index), tgood(g)
    ensures taccepted(t, h, q, g, index, t2, h2)
{
    assert forall|m: TMem| #[trigger] tgt(t, h, m) implies !m.contains_key(gels(g)) && tgt(t2, h2, m.insert(gels(g), (g, index as int))) by {
        assert(ttree(h, t.Root, m));
        let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, t.Root) && tmem_ok(h, p, t.Root, m);
        lemma_tregs(t, m, t2, q, g, index);
    }
}
// an empty tree
pub open spec fn tbare(x: items_TreeItem) -> bool { !x.Terminated.Terminate && x.Childs@.len() == 0 }
pub proof fn lemma_tnew(h: TH, r: u64, h2: TH)
    requires twfh(h), !h.contains_key(r), r != 0, tbare(h2[r]), h2 == h.insert(r, h2[r])
    ensures ttree(h2, r, Map::empty()), forall|o: u64, m: TMem| #[trigger] ttree(h, o, m) ==> ttree(h2, o, m)
{
    let p = choose|p: TPM| #[trigger] tvalid(h, p);
    lemma_tnew1(h, p, r, h2);
    let p2 = p.insert(r, (r, Seq::<TEl>::empty()));
    assert(tis_root(p2, r));
    assert(tmem_ok(h2, p2, r, Map::empty())) by {
        assert forall|x: u64, q: Seq<TEl>| #[trigger] tis_mem(h2, p2, r, x, q) implies false by { assert(x != r); assert(h.contains_key(x)); lemma_troot_in(h, p, x); }
    }
    assert forall|o: u64, m: TMem| #[trigger] ttree(h, o, m) implies ttree(h2, o, m) by {
        let p = choose|p: TPM| #[trigger] tvalid(h, p) && tis_root(p, o) && tmem_ok(h, p, o, m);
        lemma_tnew1(h, p, r, h2);
        let p2 = p.insert(r, (r, Seq::<TEl>::empty()));
        assert forall|x: u64, q: Seq<TEl>| #[trigger] tis_mem(h2, p2, o, x, q) implies m.contains_key(q) && mrec(m[q]) == trec(h2[x]) by { assert(x != r); assert(tis_mem(h, p, o, x, q)); }
        assert forall|q: Seq<TEl>| #[trigger] m.contains_key(q) implies tgood(m[q].0) && gels(m[q].0) == q && exists|x: u64| tis_mem(h2, p2, o, x, q) by { let x = choose|x: u64| tis_mem(h, p, o, x, q); assert(tis_mem(h2, p2, o, x, q)); }
        assert(tis_root(p2, o));
        assert(tmem_ok(h2, p2, o, m));
    }
}
pub proof fn lemma_troot_in(h: TH, p: TPM, y: u64)
    requires tvalid(h, p), h.contains_key(y)
    ensures h.contains_key(p[y].0)
    decreases p[y].1.len()
{
    reveal(tvalid);
    if p[y] != (y, Seq::<TEl>::empty()) {
        let (r, j) = choose|r: u64, j: int| tslot(h, r, j) && #[trigger] tat(h, r, j) == y;
        assert(tkid_ok(h, p, r, y));
        lemma_troot_in(h, p, r);
    }
}
pub proof fn lemma_tnew1(h: TH, p: TPM, r: u64, h2: TH)
    requires tvalid(h, p), !h.contains_key(r), tbare(h2[r]), h2 == h.insert(r, h2[r])
    ensures tvalid(h2, p.insert(r, (r, Seq::empty())))
{
    reveal(tvalid);
    let p2 = p.insert(r, (r, Seq::<TEl>::empty()));
    assert forall|y: u64, j: int| tslot(h2, y, j) implies tkid_ok(h2, p2, y, #[trigger] tat(h2, y, j)) by { assert(y != r); assert(tslot(h, y, j)); assert(tat(h, y, j) == tat(h2, y, j)); assert(tkid_ok(h, p, y, tat(h, y, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p2[c] == (c, Seq::<TEl>::empty()) || thas_par(h2, c) by {
        if c != r { assert(h.contains_key(c)); if p[c] != (c, Seq::<TEl>::empty()) { let (y, j) = choose|y: u64, j: int| tslot(h, y, j) && #[trigger] tat(h, y, j) == c; assert(tslot(h2, y, j)); assert(tat(h2, y, j) == c); } }
    }
    assert forall|s: u64| h.contains_key(s) implies #[trigger] p[s] != (r, Seq::<TEl>::empty()) by {
        if p[s] == (r, Seq::<TEl>::empty()) { assert(s != r); assert(thas_par(h, s)); let (y, j) = choose|y: u64, j: int| tslot(h, y, j) && #[trigger] tat(h, y, j) == s; assert(tkid_ok(h, p, y, s)); assert(p[s].1.len() > 0); }
    }
    assert forall|y: u64, s: u64| h2.contains_key(y) && h2.contains_key(s) && #[trigger] p2[y] == #[trigger] p2[s] implies y == s by {
        if y != r { assert(h.contains_key(y)); assert(p[y] == p2[y]); } if s != r { assert(h.contains_key(s)); assert(p[s] == p2[s]); }
    }
    let d = choose|d: nat| #[trigger] tv_deep(h, p, d);
    assert forall|x: u64| #[trigger] h2.contains_key(x) implies p2[x].1.len() <= d by { if x != r { assert(h.contains_key(x)); } }
    assert(tv_deep(h2, p2, d));
}
