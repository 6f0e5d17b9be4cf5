// uses: 10sets.rs 14path.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs 22gglob.rs 23rec.rs
// The dotted glob tree: its nodes in the heap, its members, what a match reports.

// a node is named by what it holds: plain text or a wildcard part, and its normalized text
pub type El = (bool, Seq<u8>);
pub type Pth = (u64, Seq<El>);
pub type GH = Map<u64, gglob_GTreeItem>;
pub type PM = Map<u64, Pth>;
pub type Roots = Map<i64, u64>;
pub open spec fn el(g: glob_Glob) -> El { (g.Items@.len() == 0, g.Node@) }
pub open spec fn els(g: Seq<glob_Glob>) -> Seq<El> { Seq::new(g.len(), |i: int| el(g[i])) }
// c is a child of r: the one under the text k, or the j-th of the others
pub open spec fn slot(h: GH, r: u64, m: bool, k: Str, j: int) -> bool { h.contains_key(r) && if m { h[r].ChildsMap@.contains_key(k) } else { 0 <= j < h[r].Childs@.len() } }
pub open spec fn at(h: GH, r: u64, m: bool, k: Str, j: int) -> u64 { if m { h[r].ChildsMap@[k] } else { h[r].Childs@[j] } }
pub open spec fn kid_ok(h: GH, p: PM, r: u64, m: bool, k: Str, c: u64) -> bool {
    h.contains_key(c) && c != 0 && p[c] == (p[r].0, p[r].1.push(el(h[c].Item))) && el(h[c].Item).0 == m && (m ==> k == h[c].Item.Node) && (U() ==> wfg(h[c].Item))
}
pub open spec fn v_kids(h: GH, p: PM) -> bool { forall|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) ==> kid_ok(h, p, r, m, k, #[trigger] at(h, r, m, k, j)) }
pub open spec fn v_inj(h: GH, p: PM) -> bool { forall|r: u64, s: u64| h.contains_key(r) && h.contains_key(s) && #[trigger] p[r] == #[trigger] p[s] ==> r == s }
pub open spec fn has_par(h: GH, c: u64) -> bool { exists|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) && #[trigger] at(h, r, m, k, j) == c }
pub open spec fn v_par(h: GH, p: PM) -> bool { forall|c: u64| #[trigger] h.contains_key(c) ==> p[c] == (c, Seq::<El>::empty()) || has_par(h, c) }
#[verifier::opaque]
pub open spec fn valid(h: GH, p: PM) -> bool { v_kids(h, p) && v_inj(h, p) && v_par(h, p) }
pub open spec fn wfh(h: GH) -> bool { exists|p: PM| #[trigger] valid(h, p) }

// h2 is h with more nodes below the root o, for parts of ts
#[verifier::opaque]
pub open spec fn ext(h: GH, p: PM, h2: GH, p2: PM, o: u64, ts: Seq<glob_Glob>) -> bool {
    &&& forall|r: u64| #![trigger h.contains_key(r)] #![trigger h2.contains_key(r)] h.contains_key(r) ==> h2.contains_key(r) && p2[r] == p[r] && h2[r].Item == h[r].Item && h2[r].Terminated == h[r].Terminated
    &&& forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) ==> !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0 && exists|k: int| 0 <= k < ts.len() && #[trigger] ts[k] == h2[r].Item
}
pub open spec fn landed(h: GH, p: PM, h2: GH, o: u64, ts: Seq<glob_Glob>, r: u64, path: Pth) -> bool {
    h2.contains_key(r) && exists|p2: PM| #[trigger] valid(h2, p2) && ext(h, p, h2, p2, o, ts) && p2[r] == path
}
pub proof fn lemma_ext_refl(h: GH, p: PM, o: u64, ts: Seq<glob_Glob>)
    ensures ext(h, p, h, p, o, ts)
{ reveal(ext); }
pub proof fn lemma_ext_trans(h: GH, p: PM, h1: GH, p1: PM, h2: GH, p2: PM, o: u64, ts: Seq<glob_Glob>)
    requires ext(h, p, h1, p1, o, ts), ext(h1, p1, h2, p2, o, ts)
    ensures ext(h, p, h2, p2, o, ts)
{
    reveal(ext);
    assert forall|r: u64| h.contains_key(r) implies #[trigger] h2.contains_key(r) && p2[r] == p[r] && h2[r].Item == h[r].Item && h2[r].Terminated == h[r].Terminated by { assert(h1.contains_key(r)); }
    assert forall|r: u64| #[trigger] h2.contains_key(r) && !h.contains_key(r) implies !h2[r].Terminated.Terminate && p2[r].0 == o && p2[r].1.len() > 0 && exists|k: int| 0 <= k < ts.len() && #[trigger] ts[k] == h2[r].Item by { if h1.contains_key(r) { } }
}
pub open spec fn newleaf(x: gglob_GTreeItem, g: glob_Glob) -> bool { x.Item == g && !x.Terminated.Terminate && x.ChildsMap@ == Map::<Str, u64>::empty() && x.Childs@.len() == 0 }
pub open spec fn nokid(h: GH, t: u64, g: glob_Glob) -> bool {
    if el(g).0 { !h[t].ChildsMap@.contains_key(g.Node) } else { forall|j: int| 0 <= j < h[t].Childs@.len() ==> h[(#[trigger] h[t].Childs@[j])].Item.Node != g.Node }
}
pub open spec fn grown(x: gglob_GTreeItem, u: gglob_GTreeItem, g: glob_Glob, c: u64) -> bool {
    u.Item == x.Item && u.Terminated == x.Terminated && if el(g).0 { u.Childs@ == x.Childs@ && u.ChildsMap@ == x.ChildsMap@.insert(g.Node, c) } else { u.ChildsMap@ == x.ChildsMap@ && u.Childs@ == x.Childs@.push(c) }
}
// a child is added
pub proof fn lemma_child(h: GH, p: PM, t: u64, c: u64, h2: GH, o: u64, ts: Seq<glob_Glob>, i: int)
    requires valid(h, p), h.contains_key(t), !h.contains_key(c), c != 0, 0 <= i < ts.len(), newleaf(h2[c], ts[i]), U() ==> wfg(ts[i]), o == p[t].0,
        nokid(h, t, ts[i]), grown(h[t], h2[t], ts[i], c), h2 == h.insert(c, h2[c]).insert(t, h2[t]),
    ensures landed(h, p, h2, o, ts, c, (o, p[t].1.push(el(ts[i]))))
{
    reveal(valid);
    let g = ts[i];
    let q = (o, p[t].1.push(el(g)));
    let p2 = p.insert(c, q);
    assert(c != t);
    assert(ext(h, p, h2, p2, o, ts)) by { reveal(ext); assert(ts[i] == h2[c].Item); }
    assert forall|r: u64, m: bool, k: Str, j: int| slot(h2, r, m, k, j) implies kid_ok(h2, p2, r, m, k, #[trigger] at(h2, r, m, k, j)) by {
        assert(r != c);
        if r == t && m == el(g).0 && (if m { k == g.Node } else { j == h[t].Childs@.len() }) { assert(at(h2, r, m, k, j) == c); }
        else { assert(slot(h, r, m, k, j)); assert(at(h, r, m, k, j) == at(h2, r, m, k, j)); assert(kid_ok(h, p, r, m, k, at(h, r, m, k, j))); }
    }
    // every old node keeps its parent
    assert forall|x: u64| #[trigger] h2.contains_key(x) implies p2[x] == (x, Seq::<El>::empty()) || has_par(h2, x) by {
        if x == c { 
            let j0 = h[t].Childs@.len() as int;
            assert(slot(h2, t, el(g).0, g.Node, j0)); assert(at(h2, t, el(g).0, g.Node, j0) == c);
        } else {
            assert(h.contains_key(x));
            if p[x] != (x, Seq::<El>::empty()) {
                let (r, m, k, j) = choose|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) && #[trigger] at(h, r, m, k, j) == x;
                assert(slot(h2, r, m, k, j)); assert(at(h2, r, m, k, j) == x);
            }
        }
    }
    // nothing had this path
    assert forall|r: u64| h.contains_key(r) implies #[trigger] p[r] != q by {
        if p[r] == q {
            assert(q.1.len() > 0);
            assert(p[r] != (r, Seq::<El>::empty()));
            let (s, m, k, j) = choose|s: u64, m: bool, k: Str, j: int| slot(h, s, m, k, j) && #[trigger] at(h, s, m, k, j) == r;
            assert(kid_ok(h, p, s, m, k, r));
            assert(p[s].1.push(el(h[r].Item)).drop_last() =~= p[s].1); assert(p[t].1.push(el(g)).drop_last() =~= p[t].1);
            assert(p[s].1.push(el(h[r].Item)).last() == el(h[r].Item)); assert(p[t].1.push(el(g)).last() == el(g));
            assert(p[s] == p[t]); assert(s == t);
            assert(mk_str(h[r].Item.Node@) == h[r].Item.Node); assert(mk_str(g.Node@) == g.Node);
        }
    }
    assert forall|r: u64, s: u64| h2.contains_key(r) && h2.contains_key(s) && #[trigger] p2[r] == #[trigger] p2[s] implies r == s by {
        if r != c && s != c { assert(h.contains_key(r) && h.contains_key(s)); assert(p[r] == p[s]); }
        else if r != c { assert(h.contains_key(r)); assert(p[r] != q); }
        else if s != c { assert(h.contains_key(s)); assert(p[s] != q); }
    }
    assert(valid(h2, p2));
    assert(p2[c] == q);
}
pub open spec fn is_root(p: PM, o: u64) -> bool { p[o] == (o, Seq::<El>::empty()) }
// r is the node of the first i parts of ts below the root o
#[verifier::opaque]
pub open spec fn walked(h: GH, o: u64, ts: Seq<glob_Glob>, i: int, h2: GH, r: u64) -> bool {
    wfh(h) && h.contains_key(o) && wroot(h, o) && forall|p: PM| #[trigger] valid(h, p) && is_root(p, o) ==> landed(h, p, h2, o, ts, r, (o, els(ts).subrange(0, i)))
}
pub open spec fn wroot(h: GH, o: u64) -> bool { exists|p: PM| #[trigger] valid(h, p) && h.contains_key(o) && is_root(p, o) }
pub proof fn lemma_wroot(h: GH, p: PM, o: u64)
    requires valid(h, p), wroot(h, o)
    ensures is_root(p, o)
{
    reveal(valid);
    let q = choose|q: PM| #[trigger] valid(h, q) && h.contains_key(o) && is_root(q, o);
    if has_par(h, o) { let (r, m, k, j) = choose|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) && #[trigger] at(h, r, m, k, j) == o; assert(kid_ok(h, q, r, m, k, o)); assert(q[o].1.len() > 0); }
}
pub proof fn lemma_walk0(h: GH, o: u64, ts: Seq<glob_Glob>)
    requires wroot(h, o)
    ensures walked(h, o, ts, 0, h, o)
{
    reveal(walked);
    assert forall|p: PM| #[trigger] valid(h, p) && is_root(p, o) implies landed(h, p, h, o, ts, o, (o, els(ts).subrange(0, 0))) by { lemma_ext_refl(h, p, o, ts); assert(els(ts).subrange(0, 0) =~= Seq::<El>::empty()); }
}
pub proof fn lemma_walked_at(h: GH, o: u64, ts: Seq<glob_Glob>, i: int, h2: GH, r: u64)
    requires walked(h, o, ts, i, h2, r)
    ensures wfh(h2), h2.contains_key(r), r != 0 || r == o,
        forall|m: bool, k: Str, j: int| slot(h2, r, m, k, j) ==> h2.contains_key(#[trigger] at(h2, r, m, k, j)) && at(h2, r, m, k, j) != 0 && el(h2[at(h2, r, m, k, j)].Item).0 == m && (m ==> h2[at(h2, r, m, k, j)].Item.Node == k),
{
    reveal(walked); reveal(valid);
    let p = choose|p: PM| #[trigger] valid(h, p) && is_root(p, o);
    assert(landed(h, p, h2, o, ts, r, (o, els(ts).subrange(0, i))));
    let p2 = choose|p2: PM| #[trigger] valid(h2, p2) && ext(h, p, h2, p2, o, ts) && p2[r] == (o, els(ts).subrange(0, i));
    if r == 0 && r != o {
        assert(p2[r] != (r, Seq::<El>::empty()));
        let (s, m, k, j) = choose|s: u64, m: bool, k: Str, j: int| slot(h2, s, m, k, j) && #[trigger] at(h2, s, m, k, j) == r;
        assert(kid_ok(h2, p2, s, m, k, r));
    }
    assert forall|m: bool, k: Str, j: int| slot(h2, r, m, k, j) implies h2.contains_key(#[trigger] at(h2, r, m, k, j)) && at(h2, r, m, k, j) != 0 && el(h2[at(h2, r, m, k, j)].Item).0 == m && (m ==> h2[at(h2, r, m, k, j)].Item.Node == k) by { assert(kid_ok(h2, p2, r, m, k, at(h2, r, m, k, j))); }
}
// the next part is there
pub proof fn lemma_walk_found(h: GH, o: u64, ts: Seq<glob_Glob>, i: int, h2: GH, r: u64, m: bool, k: Str, j: int)
    requires walked(h, o, ts, i, h2, r), 0 <= i < ts.len(), slot(h2, r, m, k, j), el(h2[at(h2, r, m, k, j)].Item) == el(ts[i])
    ensures walked(h, o, ts, i + 1, h2, at(h2, r, m, k, j))
{
    reveal(walked);
    let c = at(h2, r, m, k, j);
    assert forall|p: PM| #[trigger] valid(h, p) && is_root(p, o) implies landed(h, p, h2, o, ts, c, (o, els(ts).subrange(0, i + 1))) by {
        let q = els(ts).subrange(0, i);
        assert(landed(h, p, h2, o, ts, r, (o, q)));
        let p2 = choose|p2: PM| #[trigger] valid(h2, p2) && ext(h, p, h2, p2, o, ts) && p2[r] == (o, q);
        assert(kid_ok(h2, p2, r, m, k, c)) by { reveal(valid); }
        assert(q.push(el(ts[i])) =~= els(ts).subrange(0, i + 1));
    }
}
// the next part is added
pub proof fn lemma_walk_added(h: GH, o: u64, ts: Seq<glob_Glob>, i: int, h2: GH, r: u64, h3: GH, c: u64)
    requires walked(h, o, ts, i, h2, r), 0 <= i < ts.len(), !h2.contains_key(c), c != 0, newleaf(h3[c], ts[i]), U() ==> wfg(ts[i]), nokid(h2, r, ts[i]), grown(h2[r], h3[r], ts[i], c), h3 == h2.insert(c, h3[c]).insert(r, h3[r]),
    ensures walked(h, o, ts, i + 1, h3, c)
{
    reveal(walked);
    assert forall|p: PM| #[trigger] valid(h, p) && is_root(p, o) implies landed(h, p, h3, o, ts, c, (o, els(ts).subrange(0, i + 1))) by {
        let q = els(ts).subrange(0, i);
        assert(landed(h, p, h2, o, ts, r, (o, q)));
        let p2 = choose|p2: PM| #[trigger] valid(h2, p2) && ext(h, p, h2, p2, o, ts) && p2[r] == (o, q);
        lemma_child(h2, p2, r, c, h3, o, ts, i);
        assert(q.push(el(ts[i])) =~= els(ts).subrange(0, i + 1));
        let q3 = (o, q.push(el(ts[i])));
        let p3 = choose|p3: PM| #[trigger] valid(h3, p3) && ext(h2, p2, h3, p3, o, ts) && p3[c] == q3;
        lemma_ext_trans(h, p, h2, p2, h3, p3, o, ts);
    }
}

// ---- the members of a tree
pub type Mem = Map<Seq<El>, Rec>;
pub open spec fn recof(x: gglob_GTreeItem) -> Rec { (x.Terminated.Query@, x.Terminated.Index as int) }
pub open spec fn is_mem(h: GH, p: PM, rt: Roots, n: i64, r: u64, q: Seq<El>) -> bool { rt.contains_key(n) && h.contains_key(r) && p[r] == (rt[n], q) && h[r].Terminated.Terminate }
pub open spec fn mem_ok(h: GH, p: PM, rt: Roots, m: Mem) -> bool {
    &&& forall|n: i64, r: u64, q: Seq<El>| #[trigger] is_mem(h, p, rt, n, r, q) ==> q.len() == n && m.contains_key(q) && m[q] == recof(h[r])
    &&& forall|q: Seq<El>| #[trigger] m.contains_key(q) ==> exists|n: i64, r: u64| is_mem(h, p, rt, n, r, q)
}
pub open spec fn rooted(h: GH, p: PM, rt: Roots) -> bool {
    &&& forall|n: i64| #[trigger] rt.contains_key(n) ==> h.contains_key(rt[n]) && rt[n] != 0 && is_root(p, rt[n])
    &&& forall|n: i64, k: i64| #[trigger] rt.contains_key(n) && #[trigger] rt.contains_key(k) && rt[n] == rt[k] ==> n == k
}
pub open spec fn tree(h: GH, rt: Roots, m: Mem) -> bool { exists|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m) }
pub open spec fn disj(a: Roots, b: Roots) -> bool { forall|i: i64, j: i64| #[trigger] a.contains_key(i) && #[trigger] b.contains_key(j) ==> a[i] != b[j] }
pub type Lang = spec_fn(El, Seq<u8>) -> bool;
// what a node accepts depends on what is written only
pub open spec fn agree(g: glob_Glob, l: Lang) -> bool { forall|v: Seq<u8>| #[trigger] glang(g, v) == l(el(g), v) }
pub open spec fn coht(g: Seq<glob_Glob>, l: Lang) -> bool { forall|i: int| 0 <= i < g.len() ==> agree(#[trigger] g[i], l) }
pub open spec fn coh(h: GH, l: Lang) -> bool { forall|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) ==> agree(h[(#[trigger] at(h, r, m, k, j))].Item, l) }

// a new root
pub open spec fn bare(x: gglob_GTreeItem) -> bool { !x.Terminated.Terminate && x.ChildsMap@ == Map::<Str, u64>::empty() && x.Childs@.len() == 0 }
pub proof fn lemma_new1(h: GH, p: PM, r: u64, h2: GH)
    requires valid(h, p), !h.contains_key(r), bare(h2[r]), h2 == h.insert(r, h2[r])
    ensures valid(h2, p.insert(r, (r, Seq::empty())))
{
    reveal(valid);
    let p2 = p.insert(r, (r, Seq::<El>::empty()));
    assert forall|y: u64, m: bool, k: Str, j: int| slot(h2, y, m, k, j) implies kid_ok(h2, p2, y, m, k, #[trigger] at(h2, y, m, k, j)) by { assert(y != r); assert(slot(h, y, m, k, j)); assert(at(h, y, m, k, j) == at(h2, y, m, k, j)); assert(kid_ok(h, p, y, m, k, at(h, y, m, k, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p2[c] == (c, Seq::<El>::empty()) || has_par(h2, c) by {
        if c != r { assert(h.contains_key(c)); if p[c] != (c, Seq::<El>::empty()) { let (y, m, k, j) = choose|y: u64, m: bool, k: Str, j: int| slot(h, y, m, k, j) && #[trigger] at(h, y, m, k, j) == c; assert(slot(h2, y, m, k, j)); assert(at(h2, y, m, k, j) == c); } }
    }
    assert forall|s: u64| h.contains_key(s) implies #[trigger] p[s] != (r, Seq::<El>::empty()) by {
        if p[s] == (r, Seq::<El>::empty()) { assert(s != r); assert(has_par(h, s)); let (y, m, k, j) = choose|y: u64, m: bool, k: Str, j: int| slot(h, y, m, k, j) && #[trigger] at(h, y, m, k, j) == s; assert(kid_ok(h, p, y, m, k, s)); assert(p[s].1.len() > 0); }
    }
    assert forall|y: u64, s: u64| h2.contains_key(y) && h2.contains_key(s) && #[trigger] p2[y] == #[trigger] p2[s] implies y == s by {
        if y != r { assert(h.contains_key(y)); assert(p[y] == p2[y]); } if s != r { assert(h.contains_key(s)); assert(p[s] == p2[s]); }
    }
}
pub proof fn lemma_root_in(h: GH, p: PM, y: u64)
    requires valid(h, p), h.contains_key(y)
    ensures h.contains_key(p[y].0)
    decreases p[y].1.len()
{
    reveal(valid);
    if p[y] != (y, Seq::<El>::empty()) {
        let (r, m, k, j) = choose|r: u64, m: bool, k: Str, j: int| slot(h, r, m, k, j) && #[trigger] at(h, r, m, k, j) == y;
        assert(kid_ok(h, p, r, m, k, y));
        lemma_root_in(h, p, r);
    }
}
// what holds of every tree when a node is new and a root
pub proof fn lemma_new(h: GH, r: u64, h2: GH)
    requires wfh(h), !h.contains_key(r), r != 0, bare(h2[r]), h2 == h.insert(r, h2[r])
    ensures wfh(h2), wroot(h2, r),
        forall|rt: Roots, m: Mem| #[trigger] tree(h, rt, m) ==> tree(h2, rt, m) && forall|n: i64| #[trigger] rt.contains_key(n) ==> rt[n] != r,
        forall|rt: Roots, m: Mem, n: i64| #[trigger] tree(h, rt, m) && !rt.contains_key(n) ==> tree(h2, #[trigger] rt.insert(n, r), m),
        forall|l: Lang| #[trigger] coh(h, l) ==> coh(h2, l)
{
    let p = choose|p: PM| #[trigger] valid(h, p);
    lemma_new1(h, p, r, h2);
    assert(is_root(p.insert(r, (r, Seq::empty())), r));
    assert forall|rt: Roots, m: Mem| #[trigger] tree(h, rt, m) implies tree(h2, rt, m) && forall|n: i64| #[trigger] rt.contains_key(n) ==> rt[n] != r by {
        let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
        lemma_new1(h, p, r, h2);
        let p2 = p.insert(r, (r, Seq::<El>::empty()));
        assert(rooted(h2, p2, rt));
        assert forall|n: i64, y: u64, q: Seq<El>| #[trigger] is_mem(h2, p2, rt, n, y, q) implies q.len() == n && m.contains_key(q) && m[q] == recof(h2[y]) by { assert(is_mem(h, p, rt, n, y, q)); }
        assert forall|q: Seq<El>| #[trigger] m.contains_key(q) implies exists|n: i64, y: u64| is_mem(h2, p2, rt, n, y, q) by { let (n, y) = choose|n: i64, y: u64| is_mem(h, p, rt, n, y, q); assert(is_mem(h2, p2, rt, n, y, q)); }
        assert(mem_ok(h2, p2, rt, m));
    }
    assert forall|rt: Roots, m: Mem, n0: i64| #[trigger] tree(h, rt, m) && !rt.contains_key(n0) implies tree(h2, #[trigger] rt.insert(n0, r), m) by {
        let rt2 = rt.insert(n0, r);
        let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
        lemma_new1(h, p, r, h2);
        let p2 = p.insert(r, (r, Seq::<El>::empty()));
        assert forall|n: i64, k: i64| #[trigger] rt2.contains_key(n) && #[trigger] rt2.contains_key(k) && rt2[n] == rt2[k] implies n == k by { if n != n0 { assert(rt.contains_key(n)); } if k != n0 { assert(rt.contains_key(k)); } }
        assert forall|n: i64| #[trigger] rt2.contains_key(n) implies h2.contains_key(rt2[n]) && rt2[n] != 0 && is_root(p2, rt2[n]) by { if n != n0 { assert(rt.contains_key(n)); } }
        assert(rooted(h2, p2, rt2));
        assert forall|n: i64, y: u64, q: Seq<El>| #[trigger] is_mem(h2, p2, rt2, n, y, q) implies q.len() == n && m.contains_key(q) && m[q] == recof(h2[y]) by {
            assert(y != r); assert(h.contains_key(y));
            if n == n0 { lemma_root_in(h, p, y); assert(h.contains_key(p[y].0)); }
            assert(is_mem(h, p, rt, n, y, q));
        }
        assert forall|q: Seq<El>| #[trigger] m.contains_key(q) implies exists|n: i64, y: u64| is_mem(h2, p2, rt2, n, y, q) by { let (n, y) = choose|n: i64, y: u64| is_mem(h, p, rt, n, y, q); assert(is_mem(h2, p2, rt2, n, y, q)); }
        assert(mem_ok(h2, p2, rt2, m));
    }
    assert forall|l: Lang| #[trigger] coh(h, l) implies coh(h2, l) by {
        reveal(valid);
        assert forall|y: u64, m: bool, k: Str, j: int| slot(h2, y, m, k, j) implies agree(h2[(#[trigger] at(h2, y, m, k, j))].Item, l) by { assert(y != r); assert(slot(h, y, m, k, j)); assert(at(h, y, m, k, j) == at(h2, y, m, k, j)); assert(kid_ok(h, p, y, m, k, at(h, y, m, k, j))); }
    }
}
// the last node is made a member
pub open spec fn ended(x: gglob_GTreeItem, y: gglob_GTreeItem, nrm: Str, index: i64) -> bool { y.Item == x.Item && y.ChildsMap == x.ChildsMap && y.Childs == x.Childs && y.Terminated.Terminate && y.Terminated.Query == nrm && y.Terminated.Index == index }
pub proof fn lemma_end_valid(h: GH, p: PM, r: u64, h2: GH)
    requires valid(h, p), h.contains_key(r), h2 == h.insert(r, h2[r]), h2[r].Item == h[r].Item, h2[r].ChildsMap == h[r].ChildsMap, h2[r].Childs == h[r].Childs
    ensures valid(h2, p)
{
    reveal(valid);
    assert forall|x: u64, m: bool, k: Str, j: int| slot(h2, x, m, k, j) implies kid_ok(h2, p, x, m, k, #[trigger] at(h2, x, m, k, j)) by { assert(slot(h, x, m, k, j)); assert(at(h, x, m, k, j) == at(h2, x, m, k, j)); assert(kid_ok(h, p, x, m, k, at(h, x, m, k, j))); }
    assert forall|c: u64| #[trigger] h2.contains_key(c) implies p[c] == (c, Seq::<El>::empty()) || has_par(h2, c) by {
        assert(h.contains_key(c));
        if p[c] != (c, Seq::<El>::empty()) { let (x, m, k, j) = choose|x: u64, m: bool, k: Str, j: int| slot(h, x, m, k, j) && #[trigger] at(h, x, m, k, j) == c; assert(slot(h2, x, m, k, j)); assert(at(h2, x, m, k, j) == c); }
    }
}
// the trees after the parts are added below the root o, of number n0, and the node r is made a member
pub proof fn lemma_tree_add(h: GH, rt: Roots, n0: i64, ts: Seq<glob_Glob>, h1: GH, r: u64, h2: GH, nrm: Str, index: i64)
    requires walked(h, rt[n0], ts, ts.len() as int, h1, r), rt.contains_key(n0), n0 == ts.len(), h2 == h1.insert(r, h2[r]), ended(h1[r], h2[r], nrm, index)
    ensures forall|m: Mem| #[trigger] tree(h, rt, m) ==> tree(h2, rt, m.insert(els(ts), (nrm@, index as int))),
        forall|rt9: Roots, m: Mem| #[trigger] tree(h, rt9, m) && disj(rt9, rt) ==> tree(h2, rt9, m),
        forall|l: Lang| coht(ts, l) && #[trigger] coh(h, l) ==> coh(h2, l),
{
    reveal(walked);
    let q0 = els(ts);
    let o = rt[n0];
    assert(q0.subrange(0, ts.len() as int) =~= q0);
    let rec = (nrm@, index as int);
    assert forall|m: Mem| #[trigger] tree(h, rt, m) implies tree(h2, rt, m.insert(q0, rec)) by {
        let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
        assert(landed(h, p, h1, o, ts, r, (o, q0)));
        let p2 = choose|p2: PM| #[trigger] valid(h1, p2) && ext(h, p, h1, p2, o, ts) && p2[r] == (o, q0);
        lemma_end_valid(h1, p2, r, h2);
        reveal(ext);
        let m2 = m.insert(q0, rec);
        assert forall|n: i64, x: u64, q: Seq<El>| #[trigger] is_mem(h2, p2, rt, n, x, q) implies q.len() == n && m2.contains_key(q) && m2[q] == recof(h2[x]) by {
            if x != r {
                assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(is_mem(h, p, rt, n, x, q));
                assert(q != q0) by { if q == q0 { assert(rt.contains_key(n)); assert(n == n0); assert(p2[x] == p2[r]); assert(v_inj(h1, p2)) by { reveal(valid); } } }
            } else { assert(rt.contains_key(n)); assert(n == n0); }
        }
        assert forall|q: Seq<El>| #[trigger] m2.contains_key(q) implies exists|n: i64, x: u64| is_mem(h2, p2, rt, n, x, q) by {
            if q == q0 { assert(is_mem(h2, p2, rt, n0, r, q)); }
            else { assert(m.contains_key(q)); let (n, x) = choose|n: i64, x: u64| is_mem(h, p, rt, n, x, q); assert(h.contains_key(x)); assert(is_mem(h2, p2, rt, n, x, q)); }
        }
        assert(rooted(h2, p2, rt)) by { assert forall|n: i64| #[trigger] rt.contains_key(n) implies h2.contains_key(rt[n]) && rt[n] != 0 && is_root(p2, rt[n]) by { assert(h.contains_key(rt[n])); } }
        assert(mem_ok(h2, p2, rt, m2));
    }
    assert forall|rt9: Roots, m: Mem| #[trigger] tree(h, rt9, m) && disj(rt9, rt) implies tree(h2, rt9, m) by {
        let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt9) && mem_ok(h, p, rt9, m);
        lemma_wroot(h, p, o);
        assert(landed(h, p, h1, o, ts, r, (o, q0)));
        let p2 = choose|p2: PM| #[trigger] valid(h1, p2) && ext(h, p, h1, p2, o, ts) && p2[r] == (o, q0);
        lemma_end_valid(h1, p2, r, h2);
        reveal(ext);
        assert forall|n: i64, x: u64, q: Seq<El>| #[trigger] is_mem(h2, p2, rt9, n, x, q) implies q.len() == n && m.contains_key(q) && m[q] == recof(h2[x]) by {
            assert(rt9.contains_key(n) && rt.contains_key(n0)); assert(x != r); assert(h1.contains_key(x)); assert(h.contains_key(x)); assert(is_mem(h, p, rt9, n, x, q));
        }
        assert forall|q: Seq<El>| #[trigger] m.contains_key(q) implies exists|n: i64, x: u64| is_mem(h2, p2, rt9, n, x, q) by {
            let (n, x) = choose|n: i64, x: u64| is_mem(h, p, rt9, n, x, q); assert(rt9.contains_key(n) && rt.contains_key(n0)); assert(h.contains_key(x)); assert(x != r); assert(is_mem(h2, p2, rt9, n, x, q));
        }
        assert(rooted(h2, p2, rt9)) by { assert forall|n: i64| #[trigger] rt9.contains_key(n) implies h2.contains_key(rt9[n]) && rt9[n] != 0 && is_root(p2, rt9[n]) by { assert(h.contains_key(rt9[n])); } }
        assert(mem_ok(h2, p2, rt9, m));
    }
    assert forall|l: Lang| coht(ts, l) && #[trigger] coh(h, l) implies coh(h2, l) by {
        let p = choose|p: PM| #[trigger] valid(h, p) && h.contains_key(o) && is_root(p, o);
        assert(landed(h, p, h1, o, ts, r, (o, q0)));
        let p2 = choose|p2: PM| #[trigger] valid(h1, p2) && ext(h, p, h1, p2, o, ts) && p2[r] == (o, q0);
        reveal(ext); reveal(valid);
        assert forall|x: u64, m: bool, k: Str, j: int| slot(h2, x, m, k, j) implies agree(h2[(#[trigger] at(h2, x, m, k, j))].Item, l) by {
            let c = at(h2, x, m, k, j);
            assert(slot(h1, x, m, k, j)); assert(at(h1, x, m, k, j) == c);
            assert(kid_ok(h1, p2, x, m, k, c));
            assert(h2[c].Item == h1[c].Item);
            if h.contains_key(c) {
                assert(p[c] == p2[c]);
                assert(p[c] != (c, Seq::<El>::empty())) by { assert(p[c].1.len() > 0); }
                assert(has_par(h, c));
                let (y, m2, k2, j2) = choose|y: u64, m2: bool, k2: Str, j2: int| slot(h, y, m2, k2, j2) && #[trigger] at(h, y, m2, k2, j2) == c;
                assert(agree(h[at(h, y, m2, k2, j2)].Item, l));
            } else { let i = choose|i: int| 0 <= i < ts.len() && #[trigger] ts[i] == h1[c].Item; assert(agree(ts[i], l)); }
        }
    }
}
// a dotted glob is added to the roots rt as one member
pub open spec fn addedg(rt: Roots, h: GH, g: gglob_GGlob, index: i64, rt2: Roots, h2: GH) -> bool {
    &&& forall|m: Mem| #[trigger] tree(h, rt, m) ==> tree(h2, rt2, m.insert(els(g.Parts@), (g.Node@, index as int)))
    &&& forall|rt9: Roots, m: Mem| #[trigger] tree(h, rt9, m) && disj(rt9, rt) ==> tree(h2, rt9, m) && disj(rt9, rt2)
    &&& forall|l: Lang| coht(g.Parts@, l) && #[trigger] coh(h, l) ==> coh(h2, l)
}
pub open spec fn okr(h: GH, rt: Roots) -> bool { exists|m: Mem| #[trigger] tree(h, rt, m) }
pub proof fn lemma_okr(h: GH, rt: Roots)
    requires okr(h, rt)
    ensures wfh(h), forall|n: i64| #[trigger] rt.contains_key(n) ==> h.contains_key(rt[n]) && rt[n] != 0 && wroot(h, rt[n])
{
    let m = choose|m: Mem| #[trigger] tree(h, rt, m);
    let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
}
// .. below an old root
pub proof fn lemma_added_old(h: GH, rt: Roots, g: gglob_GGlob, index: i64, h1: GH, r: u64, h2: GH)
    requires okr(h, rt), rt.contains_key(g.Parts@.len() as i64), g.Parts@.len() <= i64::MAX, walked(h, rt[g.Parts@.len() as i64], g.Parts@, g.Parts@.len() as int, h1, r), h2 == h1.insert(r, h2[r]), ended(h1[r], h2[r], g.Node, index)
    ensures addedg(rt, h, g, index, rt, h2)
{ lemma_tree_add(h, rt, g.Parts@.len() as i64, g.Parts@, h1, r, h2, g.Node, index); }
// .. below a new root
pub proof fn lemma_added_new(h: GH, rt: Roots, g: gglob_GGlob, index: i64, h0: GH, rt0: Roots, o: u64, h1: GH, r: u64, h2: GH)
    requires okr(h, rt), !rt.contains_key(g.Parts@.len() as i64), g.Parts@.len() <= i64::MAX, !h.contains_key(o), o != 0, bare(h0[o]), h0 == h.insert(o, h0[o]), rt0 == rt.insert(g.Parts@.len() as i64, o),
        walked(h0, o, g.Parts@, g.Parts@.len() as int, h1, r), h2 == h1.insert(r, h2[r]), ended(h1[r], h2[r], g.Node, index)
    ensures addedg(rt, h, g, index, rt0, h2)
{
    lemma_okr(h, rt);
    lemma_new(h, o, h0);
    lemma_tree_add(h0, rt0, g.Parts@.len() as i64, g.Parts@, h1, r, h2, g.Node, index);
    assert forall|m: Mem| #[trigger] tree(h, rt, m) implies tree(h2, rt0, m.insert(els(g.Parts@), (g.Node@, index as int))) by { assert(tree(h0, rt0, m)); }
    assert forall|rt9: Roots, m: Mem| #[trigger] tree(h, rt9, m) && disj(rt9, rt) implies tree(h2, rt9, m) && disj(rt9, rt0) by {
        assert(tree(h0, rt9, m));
        assert forall|i: i64, j: i64| #[trigger] rt9.contains_key(i) && #[trigger] rt0.contains_key(j) implies rt9[i] != rt0[j] by { if j != g.Parts@.len() { assert(rt.contains_key(j)); } }
    }
}

// ---- the registries
// the text of a path
pub open spec fn eljoin(q: Seq<El>) -> Seq<u8> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { eljoin(q.drop_last()) + (if q.len() > 1 { seq![46u8] } else { Seq::empty() }) + q.last().1 }
}
pub open spec fn regs(g: gglob_GGlobTree, m: Mem) -> bool {
    &&& !g.Globs.nil() && !g.GlobsIndex.nil() && !g.Root.nil()
    &&& forall|q: Seq<El>| #[trigger] m.contains_key(q) ==> m[q].0 == eljoin(q) && 0 <= m[q].1 <= i64::MAX && g.Globs@.contains_key(mk_str(m[q].0)) && g.Globs@[mk_str(m[q].0)] == m[q].1 && g.GlobsIndex@.contains_key(m[q].1 as i64) && g.GlobsIndex@[m[q].1 as i64]@ == m[q].0
    &&& forall|i: i64| #[trigger] g.GlobsIndex@.contains_key(i) ==> exists|q: Seq<El>| #[trigger] m.contains_key(q) && m[q] == (g.GlobsIndex@[i]@, i as int)
    &&& forall|s: Str| #[trigger] g.Globs@.contains_key(s) ==> g.GlobsIndex@.contains_key(g.Globs@[s])
}
pub open spec fn gt(g: gglob_GGlobTree, h: GH, m: Mem) -> bool { tree(h, g.Root@, m) && regs(g, m) }
pub open spec fn okg(g: gglob_GGlobTree, h: GH) -> bool { exists|m: Mem| #[trigger] gt(g, h, m) }
pub proof fn lemma_okg(g: gglob_GGlobTree, h: GH)
    requires okg(g, h)
    ensures okr(h, g.Root@), wfh(h), !g.Globs.nil(), !g.GlobsIndex.nil(), !g.Root.nil()
{ let m = choose|m: Mem| #[trigger] gt(g, h, m); assert(tree(h, g.Root@, m)); lemma_okr(h, g.Root@); }
// both registries hold the new glob, the text q too
pub open spec fn reg2(g: gglob_GGlobTree, q: Str, nrm: Str, index: i64, g2: gglob_GGlobTree) -> bool {
    !g2.Globs.nil() && !g2.GlobsIndex.nil() && g2.Globs@ == g.Globs@.insert(q, index).insert(nrm, index) && g2.GlobsIndex@ == g.GlobsIndex@.insert(index, nrm)
}
pub proof fn lemma_regs(g: gglob_GGlobTree, m: Mem, g2: gglob_GGlobTree, q: Str, nrm: Str, index: i64, path: Seq<El>)
    requires regs(g, m), reg2(g, q, nrm, index, g2), !g2.Root.nil(), index >= 0, !g.Globs@.contains_key(q), !g.Globs@.contains_key(nrm), !g.GlobsIndex@.contains_key(index), nrm@ == eljoin(path)
    ensures regs(g2, m.insert(path, (nrm@, index as int))), !m.contains_key(path)
{
    let m2 = m.insert(path, (nrm@, index as int));
    assert(mk_str(nrm@) == nrm);
    if m.contains_key(path) { assert(m[path].0 == nrm@); }
    assert forall|x: Seq<El>| #[trigger] m2.contains_key(x) implies m2[x].0 == eljoin(x) && 0 <= m2[x].1 <= i64::MAX && g2.Globs@.contains_key(mk_str(m2[x].0)) && g2.Globs@[mk_str(m2[x].0)] == m2[x].1 && g2.GlobsIndex@.contains_key(m2[x].1 as i64) && g2.GlobsIndex@[m2[x].1 as i64]@ == m2[x].0 by {
        if x != path { assert(m.contains_key(x)); assert(mk_str(m[x].0) != nrm); assert(mk_str(m[x].0) != q); assert(m[x].1 != index); }
    }
    assert forall|i: i64| #[trigger] g2.GlobsIndex@.contains_key(i) implies exists|x: Seq<El>| #[trigger] m2.contains_key(x) && m2[x] == (g2.GlobsIndex@[i]@, i as int) by {
        if i == index { assert(m2.contains_key(path)); }
        else { assert(g.GlobsIndex@.contains_key(i)); let x = choose|x: Seq<El>| #[trigger] m.contains_key(x) && m[x] == (g.GlobsIndex@[i]@, i as int); assert(x != path); assert(m2.contains_key(x)); }
    }
    assert forall|s: Str| #[trigger] g2.Globs@.contains_key(s) implies g2.GlobsIndex@.contains_key(g2.Globs@[s]) by {
        if s != nrm && s != q { assert(g.Globs@.contains_key(s)); }
    }
}
// g is a result of parsing the text s
pub open spec fn parsedg(s: Seq<u8>, g: gglob_GGlob) -> bool {
    &&& g.Node@ == nodes_txt(g.Parts@) && g.Glob@ == trim1(s)
    &&& U() ==> wfgg(g)
    &&& U() && N() ==> ggok(s, g)
}
// the glob g is added under its normalized text and the text q
pub open spec fn accepted(t: gglob_GGlobTree, h: GH, q: Str, g: gglob_GGlob, index: i64, t2: gglob_GGlobTree, h2: GH) -> bool {
    &&& reg2(t, q, g.Node, index, t2) && !t2.Root.nil() && addedg(t.Root@, h, g, index, t2.Root@, h2)
    &&& forall|m: Mem| #[trigger] gt(t, h, m) ==> !m.contains_key(els(g.Parts@)) && gt(t2, h2, m.insert(els(g.Parts@), (g.Node@, index as int)))
}
pub proof fn lemma_accepted(t: gglob_GGlobTree, h: GH, q: Str, g: gglob_GGlob, index: i64, t2: gglob_GGlobTree, h2: GH)
    requires reg2(t, q, g.Node, index, t2), !t2.Root.nil(), addedg(t.Root@, h, g, index, t2.Root@, h2), index >= 0, !t.Globs@.contains_key(q), !t.Globs@.contains_key(g.Node), !t.GlobsIndex@.contains_key(index), g.Node@ == nodes_txt(g.Parts@)
    ensures accepted(t, h, q, g, index, t2, h2)
{
    lemma_eljoin(g.Parts@);
    assert forall|m: Mem| #[trigger] gt(t, h, m) implies !m.contains_key(els(g.Parts@)) && gt(t2, h2, m.insert(els(g.Parts@), (g.Node@, index as int))) by {
        lemma_regs(t, m, t2, q, g.Node, index, els(g.Parts@));
        assert(tree(h, t.Root@, m));
    }
}
pub proof fn lemma_eljoin(g: Seq<glob_Glob>)
    ensures eljoin(els(g)) == nodes_txt(g)
    decreases g.len()
{
    if g.len() > 0 {
        lemma_eljoin(g.drop_last());
        assert(els(g).drop_last() =~= els(g.drop_last()));
        assert(els(g).last() == el(g.last()));
    }
}

// ---- what a match reports
pub open spec fn own(h: GH, c: u64, x: Rec) -> bool { h[c].Terminated.Terminate && x == recof(h[c]) }
pub type Pts = Seq<Seq<u8>>;
// c is below r, the nodes after r down to c accept the parts
pub open spec fn hit(h: GH, r: u64, c: u64, t: Pts) -> bool decreases t.len() {
    if t.len() == 0 { r == c } else { exists|m: bool, k: Str, j: int| slot(h, r, m, k, j) && glang(h[(#[trigger] at(h, r, m, k, j))].Item, t[0]) && hit(h, at(h, r, m, k, j), c, t.drop_first()) }
}
pub open spec fn hitx(h: GH, r: u64, t: Pts, x: Rec) -> bool { exists|c: u64| #[trigger] hit(h, r, c, t) && own(h, c, x) }
pub open spec fn sel(h: GH, r: u64, t: Pts, m: bool, k: Str, j: int, x: Rec) -> bool { slot(h, r, m, k, j) && glang(h[at(h, r, m, k, j)].Item, t[0]) && hitx(h, at(h, r, m, k, j), t.drop_first(), x) }
pub proof fn lemma_hitx(h: GH, r: u64, t: Pts, x: Rec)
    requires t.len() > 0
    ensures hitx(h, r, t, x) == exists|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x)
{
    if hitx(h, r, t, x) {
        let c = choose|c: u64| #[trigger] hit(h, r, c, t) && own(h, c, x);
        let (m, k, j) = choose|m: bool, k: Str, j: int| slot(h, r, m, k, j) && glang(h[(#[trigger] at(h, r, m, k, j))].Item, t[0]) && hit(h, at(h, r, m, k, j), c, t.drop_first());
        assert(sel(h, r, t, m, k, j, x));
    }
    if exists|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) {
        let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x);
        let c = choose|c: u64| #[trigger] hit(h, at(h, r, m, k, j), c, t.drop_first()) && own(h, c, x);
        assert(hit(h, r, c, t));
    }
}
// s holds exactly what is below r and accepts t, nothing with e
#[verifier::opaque]
pub open spec fn found(h: GH, r: u64, e: bool, t: Pts, s: Seq<Rec>) -> bool { forall|x: Rec| #[trigger] s.contains(x) == (!e && hitx(h, r, t, x)) }
// .. in its children under texts, with a, and in the first j0 of the others
pub open spec fn part(h: GH, r: u64, t: Pts, a: bool, j0: int, x: Rec) -> bool { exists|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { a } else { j < j0 } }
#[verifier::opaque]
pub open spec fn pre(h: GH, r: u64, e: bool, t: Pts, a: bool, j0: int, s: Seq<Rec>) -> bool { forall|x: Rec| #[trigger] s.contains(x) == (!e && part(h, r, t, a, j0, x)) }
pub proof fn lemma_pre0(h: GH, r: u64, e: bool, t: Pts, a: Seq<Rec>)
    ensures pre(h, r, e, t, false, 0, tl(a, a)), grows(a, a)
{
    reveal(pre); lemma_tl_refl(a);
    assert forall|x: Rec| !(#[trigger] Seq::<Rec>::empty().contains(x)) && !part(h, r, t, false, 0, x) by {
        if part(h, r, t, false, 0, x) { let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { false } else { j < 0 }; }
    }
}
// a leaf of the walk
pub proof fn lemma_leaf(h: GH, c: u64, t: Pts, s1: Seq<Rec>, s2: Seq<Rec>)
    requires t.len() == 0, s2 == if h[c].Terminated.Terminate { s1.push(recof(h[c])) } else { s1 }
    ensures grows(s1, s2), found(h, c, false, t, tl(s1, s2))
{
    reveal(found);
    lemma_tl_refl(s1); lemma_tl_push(s1, recof(h[c]));
    assert forall|x: Rec| hitx(h, c, t, x) == #[trigger] own(h, c, x) by { if own(h, c, x) { assert(hit(h, c, c, t)); } }
    assert forall|x: Rec| #[trigger] tl(s1, s2).contains(x) == hitx(h, c, t, x) by { assert(hitx(h, c, t, x) == own(h, c, x)); }
}
// the child under the text of the part
pub proof fn lemma_pre_map(h: GH, r: u64, e: bool, t: Pts, v: Str, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires wfh(h), h.contains_key(r), t.len() > 0, t[0] == v@, pre(h, r, e, t, false, 0, tl(s0, s1)), grows(s0, s1), grows(s1, s2),
        if h[r].ChildsMap@.contains_key(v) { found(h, h[r].ChildsMap@[v], e, t.drop_first(), tl(s1, s2)) } else { s1 == s2 }
    ensures grows(s0, s2), pre(h, r, e, t, true, 0, tl(s0, s2))
{
    reveal(pre); reveal(found);
    lemma_tl(s0, s1, s2); lemma_tl_refl(s1);
    let p = choose|p: PM| #[trigger] valid(h, p);
    assert(v_kids(h, p)) by { reveal(valid); }
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == (!e && part(h, r, t, true, 0, x)) by {
        assert(tl(s0, s2).contains(x) == (tl(s0, s1).contains(x) || tl(s1, s2).contains(x)));
        if part(h, r, t, false, 0, x) { let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { false } else { j < 0 }; assert(false); }
        if part(h, r, t, true, 0, x) {
            let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { true } else { j < 0 };
            assert(kid_ok(h, p, r, m, k, at(h, r, m, k, j)));
            assert(k@ == v@); assert(mk_str(k@) == k && mk_str(v@) == v);
        }
        if h[r].ChildsMap@.contains_key(v) {
            let c = h[r].ChildsMap@[v];
            assert(slot(h, r, true, v, 0)); assert(at(h, r, true, v, 0) == c);
            assert(kid_ok(h, p, r, true, v, c));
            assert(sel(h, r, t, true, v, 0, x) == hitx(h, c, t.drop_first(), x));
            if hitx(h, c, t.drop_first(), x) { assert(sel(h, r, t, true, v, 0, x)); assert(part(h, r, t, true, 0, x)); }
        } else { assert(!tl(s1, s2).contains(x)); }
    }
}
pub proof fn lemma_pre_kid(h: GH, r: u64, e: bool, t: Pts, j0: int, s0: Seq<Rec>, s1: Seq<Rec>, s2: Seq<Rec>)
    requires t.len() > 0, h.contains_key(r), 0 <= j0 < h[r].Childs@.len(), pre(h, r, e, t, true, j0, tl(s0, s1)), grows(s0, s1), grows(s1, s2),
        if glang(h[h[r].Childs@[j0]].Item, t[0]) { found(h, h[r].Childs@[j0], e, t.drop_first(), tl(s1, s2)) } else { s1 == s2 }
    ensures grows(s0, s2), pre(h, r, e, t, true, j0 + 1, tl(s0, s2))
{
    reveal(pre); reveal(found);
    lemma_tl(s0, s1, s2); lemma_tl_refl(s1);
    let c = h[r].Childs@[j0];
    let z = mk_str(Seq::empty());
    assert forall|x: Rec| #[trigger] tl(s0, s2).contains(x) == (!e && part(h, r, t, true, j0 + 1, x)) by {
        assert(tl(s0, s2).contains(x) == (tl(s0, s1).contains(x) || tl(s1, s2).contains(x)));
        assert(slot(h, r, false, z, j0)); assert(at(h, r, false, z, j0) == c);
        assert(sel(h, r, t, false, z, j0, x) == (glang(h[c].Item, t[0]) && hitx(h, c, t.drop_first(), x)));
        if part(h, r, t, true, j0, x) { let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { true } else { j < j0 }; assert(sel(h, r, t, m, k, j, x)); }
        if part(h, r, t, true, j0 + 1, x) { let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x) && if m { true } else { j < j0 + 1 }; assert(sel(h, r, t, m, k, j, x)); if !m && j == j0 { assert(sel(h, r, t, false, z, j0, x)); } }
        if sel(h, r, t, false, z, j0, x) { assert(part(h, r, t, true, j0 + 1, x)); }
    }
}
pub proof fn lemma_pre_end(h: GH, r: u64, e: bool, t: Pts, s: Seq<Rec>)
    requires pre(h, r, e, t, true, h[r].Childs@.len() as int, s), t.len() > 0
    ensures found(h, r, e, t, s)
{
    reveal(pre); reveal(found);
    assert forall|x: Rec| #[trigger] s.contains(x) == (!e && hitx(h, r, t, x)) by {
        lemma_hitx(h, r, t, x);
        if hitx(h, r, t, x) { let (m, k, j) = choose|m: bool, k: Str, j: int| #[trigger] sel(h, r, t, m, k, j, x); assert(sel(h, r, t, m, k, j, x)); }
    }
}
// what the walk needs of the children
pub proof fn lemma_kids(h: GH, r: u64)
    requires wfh(h), h.contains_key(r), U()
    ensures forall|m: bool, k: Str, j: int| slot(h, r, m, k, j) ==> h.contains_key(#[trigger] at(h, r, m, k, j)) && wfg(h[at(h, r, m, k, j)].Item),
        forall|j: int| 0 <= j < h[r].Childs@.len() ==> h.contains_key(#[trigger] h[r].Childs@[j]) && wfg(h[h[r].Childs@[j]].Item),
        forall|k: Str| #[trigger] h[r].ChildsMap@.contains_key(k) ==> h.contains_key(h[r].ChildsMap@[k]),
{
    reveal(valid);
    let p = choose|p: PM| #[trigger] valid(h, p);
    assert forall|m: bool, k: Str, j: int| slot(h, r, m, k, j) implies h.contains_key(#[trigger] at(h, r, m, k, j)) && wfg(h[at(h, r, m, k, j)].Item) by { assert(kid_ok(h, p, r, m, k, at(h, r, m, k, j))); }
    assert forall|j: int| 0 <= j < h[r].Childs@.len() implies h.contains_key(#[trigger] h[r].Childs@[j]) && wfg(h[h[r].Childs@[j]].Item) by { let z = mk_str(Seq::empty()); assert(slot(h, r, false, z, j)); assert(h.contains_key(at(h, r, false, z, j)) && wfg(h[at(h, r, false, z, j)].Item)); }
    assert forall|k: Str| #[trigger] h[r].ChildsMap@.contains_key(k) implies h.contains_key(h[r].ChildsMap@[k]) by { assert(slot(h, r, true, k, 0)); assert(h.contains_key(at(h, r, true, k, 0))); }
}
// a path is its first part and the rest
pub open spec fn cuthead(s: Seq<u8>) -> Seq<u8> { s.subrange(0, first_b(s, 46)) }
pub open spec fn cutrest(s: Seq<u8>) -> Seq<u8> { if first_b(s, 46) < s.len() { s.subrange(first_b(s, 46) + 1, s.len() as int) } else { Seq::empty() } }
pub proof fn lemma_cutparts(s: Seq<u8>)
    ensures 0 <= first_b(s, 46) <= s.len(), s.len() > 0 ==> ({
        &&& parts_of(s).len() > 0 && parts_of(s)[0] == cuthead(s)
        &&& parts_of(s).drop_first() == parts_of(cutrest(s))
        &&& cutrest(s).len() < s.len()
        &&& cuthead(s).len() > 0 ==> has_empty(parts_of(s)) == has_empty(parts_of(cutrest(s)))
        &&& cuthead(s).len() == 0 ==> has_empty(parts_of(s))
    })
{
    lemma_first_b(s, 46);
    if s.len() > 0 {
        let k = first_b(s, 46);
        let t = trim1(s);
        lemma_split_step(t, 46); lemma_first_b(t, 46);
        if k < s.len() {
            let r = cutrest(s);
            if k + 1 == s.len() {
                assert(s.last() == 46);
                assert(t =~= s.subrange(0, k));
                assert(first_b(t, 46) == t.len());
                assert(seq![t].drop_first() =~= Seq::empty());
                assert(parts_of(s)[0] =~= cuthead(s));
            } else {
                lemma_first_cut(s, t, 46);
                assert(first_b(t, 46) == k);
                assert(r.last() == s.last());
                assert(t.subrange(k + 1, t.len() as int) =~= trim1(r));
                assert(t.subrange(0, k) =~= cuthead(s));
                assert((seq![cuthead(s)] + parts_of(r)).drop_first() =~= parts_of(r));
            }
        } else {
            assert(s.last() != 46) by { if s.last() == 46 { assert(s[s.len() - 1] == 46); } }
            assert(t == s);
            assert(seq![s].drop_first() =~= Seq::empty());
            assert(cuthead(s) =~= s);
        }
        let a = parts_of(s); let b = parts_of(cutrest(s));
        assert(forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[i + 1]);
        if cuthead(s).len() > 0 {
            if has_empty(a) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).len() == 0; assert(b[i - 1].len() == 0); }
            if has_empty(b) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() == 0; assert(a[i + 1].len() == 0); }
        } else { assert(a[0].len() == 0); }
    }
}
// where the first dot is does not depend on a last one
pub proof fn lemma_first_cut(s: Seq<u8>, t: Seq<u8>, c: u8)
    requires s.len() > 0, t == s || t == s.drop_last(), first_b(s, c) < s.len() - 1
    ensures first_b(t, c) == first_b(s, c)
{
    lemma_first_b(s, c); lemma_first_b(t, c);
    let a = first_b(s, c); let b = first_b(t, c);
    assert(t[a] == s[a]);
    if b < a { assert(t[b] == s[b]); }
}

// ---- the tree
pub open spec fn treefound(h: GH, rt: Roots, e: bool, t: Pts, s: Seq<Rec>) -> bool {
    forall|x: Rec| #[trigger] s.contains(x) == (!e && t.len() <= i64::MAX && rt.contains_key(t.len() as i64) && hitx(h, rt[t.len() as i64], t, x))
}
pub proof fn lemma_hit_len(h: GH, p: PM, r: u64, c: u64, t: Pts)
    requires valid(h, p), h.contains_key(r), hit(h, r, c, t)
    ensures h.contains_key(c), p[c].0 == p[r].0, p[c].1.len() == p[r].1.len() + t.len()
    decreases t.len()
{
    if t.len() > 0 {
        let (m, k, j) = choose|m: bool, k: Str, j: int| slot(h, r, m, k, j) && glang(h[(#[trigger] at(h, r, m, k, j))].Item, t[0]) && hit(h, at(h, r, m, k, j), c, t.drop_first());
        assert(kid_ok(h, p, r, m, k, at(h, r, m, k, j))) by { reveal(valid); }
        lemma_hit_len(h, p, at(h, r, m, k, j), c, t.drop_first());
    }
}
// nothing is reported by the nodes which are no ends of members
pub proof fn lemma_deep(h: GH, rt: Roots, n: i64, t: Pts, x: Rec)
    requires okr(h, rt), rt.contains_key(n), t.len() != n
    ensures !hitx(h, rt[n], t, x)
{
    let m = choose|m: Mem| #[trigger] tree(h, rt, m);
    let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
    if hitx(h, rt[n], t, x) {
        let c = choose|c: u64| #[trigger] hit(h, rt[n], c, t) && own(h, c, x);
        lemma_hit_len(h, p, rt[n], c, t);
        assert(is_mem(h, p, rt, n, c, p[c].1));
    }
}
// the walk of the trimmed path reports what the parts of the path call for
pub proof fn lemma_treefound(h: GH, rt: Roots, path: Seq<u8>, s: Seq<Rec>)
    requires okr(h, rt), path.len() > 0, parts_of(path).len() <= i64::MAX,
        if rt.contains_key(parts_of(path).len() as i64) { if trim1(path).len() > 0 { found(h, rt[parts_of(path).len() as i64], has_empty(parts_of(trim1(path))), parts_of(trim1(path)), s) } else { s.len() == 0 } } else { s.len() == 0 }
    ensures treefound(h, rt, has_empty(parts_of(path)), parts_of(path), s)
{
    reveal(found);
    let t = trim1(path); let n = parts_of(path).len();
    let a = split_b(t, 46);
    assert(parts_of(path) == a);
    lemma_split_step(t, 46);
    if t.len() == 0 { assert(a[0].len() == 0); assert(has_empty(a)); }
    else if trim1(t) == t { }
    else {
        lemma_dot_end(t);
        assert(trim1(t) == t.drop_last());
        if rt.contains_key(n as i64) { assert forall|x: Rec| !(#[trigger] s.contains(x)) by { lemma_deep(h, rt, n as i64, parts_of(t), x); } }
    }
}
// a text which ends with a dot has one part more, an empty one
pub proof fn lemma_dot_end(t: Seq<u8>)
    requires t.len() > 0, t.last() == 46
    ensures split_b(t, 46).len() == split_b(t.drop_last(), 46).len() + 1, has_empty(split_b(t, 46))
    decreases t.len()
{
    lemma_split_step(t, 46); lemma_first_b(t, 46); 
    let k = first_b(t, 46); let d = t.drop_last();
    lemma_split_step(d, 46); lemma_first_b(d, 46);
    assert(t[t.len() - 1] == 46);
    assert(k < t.len());
    let r = t.subrange(k + 1, t.len() as int);
    if k + 1 == t.len() {
        assert(first_b(d, 46) == d.len());
        lemma_split_step(r, 46); lemma_first_b(r, 46);
        assert(split_b(t, 46)[1] == r);
        assert(split_b(t, 46)[1].len() == 0);
    } else {
        lemma_first_cut(t, d, 46);
        assert(r.last() == 46);
        lemma_dot_end(r);
        assert(d.subrange(k + 1, d.len() as int) =~= r.drop_last());
        let b = split_b(r, 46);
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).len() == 0;
        assert(split_b(t, 46)[i + 1] == b[i]);
    }
}
// a member accepts the parts
pub open spec fn psat(l: Lang, q: Seq<El>, t: Pts) -> bool { q.len() == t.len() && forall|i: int| 0 <= i < q.len() ==> l(#[trigger] q[i], t[i]) }
pub proof fn lemma_psat(g: Seq<glob_Glob>, l: Lang, t: Pts)
    requires coht(g, l)
    ensures psat(l, els(g), t) == plang(g, t)
{
    let q = els(g);
    assert forall|i: int| 0 <= i < g.len() && i < t.len() implies glang(g[i], t[i]) == l(#[trigger] q[i], t[i]) by { assert(agree(g[i], l)); }
    if psat(l, q, t) { assert forall|i: int| 0 <= i < t.len() implies glang(g[i], #[trigger] t[i]) by { assert(l(q[i], t[i])); } }
    if plang(g, t) { assert forall|i: int| 0 <= i < q.len() implies l(#[trigger] q[i], t[i]) by { assert(glang(g[i], t[i])); } }
}
pub proof fn lemma_hit_path(h: GH, p: PM, l: Lang, r: u64, c: u64, t: Pts)
    requires valid(h, p), coh(h, l), h.contains_key(r), hit(h, r, c, t)
    ensures h.contains_key(c), p[c].0 == p[r].0, exists|q: Seq<El>| p[c].1 == p[r].1 + q && #[trigger] psat(l, q, t)
    decreases t.len()
{
    if t.len() == 0 { let q = Seq::<El>::empty(); assert(p[c].1 =~= p[r].1 + q); assert(psat(l, q, t)); }
    else {
        let (m, k, j) = choose|m: bool, k: Str, j: int| slot(h, r, m, k, j) && glang(h[(#[trigger] at(h, r, m, k, j))].Item, t[0]) && hit(h, at(h, r, m, k, j), c, t.drop_first());
        let y = at(h, r, m, k, j);
        assert(kid_ok(h, p, r, m, k, y)) by { reveal(valid); }
        lemma_hit_path(h, p, l, y, c, t.drop_first());
        let q = choose|q: Seq<El>| p[c].1 == p[y].1 + q && #[trigger] psat(l, q, t.drop_first());
        assert(agree(h[y].Item, l));
        let q1 = seq![el(h[y].Item)] + q;
        assert(p[c].1 =~= p[r].1 + q1);
        assert forall|a: int| 0 <= a < q1.len() implies l(#[trigger] q1[a], t[a]) by { if a > 0 { assert(q1[a] == q[a - 1]); assert(t[a] == t.drop_first()[a - 1]); } else { assert(glang(h[y].Item, t[0]) == l(el(h[y].Item), t[0])); } }
        assert(psat(l, q1, t));
    }
}
pub proof fn lemma_hit_snoc(h: GH, r: u64, y: u64, t: Pts, m: bool, k: Str, j: int, v: Seq<u8>)
    requires hit(h, r, y, t), slot(h, y, m, k, j), glang(h[at(h, y, m, k, j)].Item, v)
    ensures hit(h, r, at(h, y, m, k, j), t.push(v))
    decreases t.len()
{
    let c = at(h, y, m, k, j);
    if t.len() == 0 { assert(t.push(v).drop_first() =~= Seq::empty()); assert(hit(h, c, c, t.push(v).drop_first())); }
    else {
        let (m2, k2, j2) = choose|m2: bool, k2: Str, j2: int| slot(h, r, m2, k2, j2) && glang(h[(#[trigger] at(h, r, m2, k2, j2))].Item, t[0]) && hit(h, at(h, r, m2, k2, j2), y, t.drop_first());
        lemma_hit_snoc(h, at(h, r, m2, k2, j2), y, t.drop_first(), m, k, j, v);
        assert(t.push(v).drop_first() =~= t.drop_first().push(v));
        assert(t.push(v)[0] == t[0]);
    }
}
pub proof fn lemma_path_hit(h: GH, p: PM, l: Lang, root: u64, c: u64, t: Pts)
    requires valid(h, p), coh(h, l), h.contains_key(root), is_root(p, root), h.contains_key(c), p[c].0 == root, psat(l, p[c].1, t)
    ensures hit(h, root, c, t)
    decreases t.len()
{
    assert(v_inj(h, p) && v_par(h, p)) by { reveal(valid); }
    if t.len() == 0 { assert(p[c].1 =~= Seq::<El>::empty()); assert(p[c] == p[root]); assert(c == root); }
    else {
        assert(has_par(h, c)) by { assert(p[c] != (c, Seq::<El>::empty())); }
        let (y, m, k, j) = choose|y: u64, m: bool, k: Str, j: int| slot(h, y, m, k, j) && #[trigger] at(h, y, m, k, j) == c;
        assert(kid_ok(h, p, y, m, k, c)) by { reveal(valid); }
        assert(agree(h[at(h, y, m, k, j)].Item, l));
        let q = p[c].1; let q0 = p[y].1; let t0 = t.drop_last();
        assert(q[q.len() - 1] == el(h[c].Item));
        assert(l(q[q.len() - 1], t[q.len() - 1]));
        assert(glang(h[c].Item, t.last()) == l(el(h[c].Item), t.last()));
        assert forall|a: int| 0 <= a < q0.len() implies l(#[trigger] q0[a], t0[a]) by { assert(q[a] == q0[a]); assert(l(q[a], t[a])); }
        assert(psat(l, q0, t0));
        lemma_path_hit(h, p, l, root, y, t0);
        lemma_hit_snoc(h, root, y, t0, m, k, j, t.last());
        assert(t0.push(t.last()) =~= t);
    }
}
// what the tree reports are exactly the members which accept the parts
pub proof fn theorem_gtree_match(h: GH, rt: Roots, m: Mem, l: Lang, e: bool, t: Pts, s: Seq<Rec>)
    requires tree(h, rt, m), coh(h, l), treefound(h, rt, e, t, s), t.len() <= i64::MAX
    ensures forall|x: Rec| #[trigger] s.contains(x) == (!e && exists|q: Seq<El>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t))
{
    let p = choose|p: PM| #[trigger] valid(h, p) && rooted(h, p, rt) && mem_ok(h, p, rt, m);
    let n = t.len() as i64;
    assert forall|x: Rec| #[trigger] s.contains(x) == (!e && exists|q: Seq<El>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t)) by {
        if s.contains(x) {
            let c = choose|c: u64| #[trigger] hit(h, rt[n], c, t) && own(h, c, x);
            lemma_hit_path(h, p, l, rt[n], c, t);
            let q = choose|q: Seq<El>| p[c].1 == p[rt[n]].1 + q && #[trigger] psat(l, q, t);
            assert(p[c].1 =~= q);
            assert(is_mem(h, p, rt, n, c, q));
            assert(m.contains_key(q) && m[q] == x && psat(l, q, t));
        }
        if !e && exists|q: Seq<El>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t) {
            let q = choose|q: Seq<El>| #[trigger] m.contains_key(q) && m[q] == x && psat(l, q, t);
            let (k, r) = choose|k: i64, r: u64| is_mem(h, p, rt, k, r, q);
            assert(is_mem(h, p, rt, k, r, q));
            assert(k == n);
            assert(rt.contains_key(n));
            lemma_path_hit(h, p, l, rt[n], r, t);
            assert(own(h, r, x));
            assert(hitx(h, rt[n], t, x));
            assert(s.contains(x));
        }
    }
}
// an empty tree
pub proof fn lemma_empty_tree(h: GH, g: gglob_GGlobTree)
    requires wfh(h), g.Root@ == Map::<i64, u64>::empty(), !g.Root.nil(), !g.Globs.nil(), !g.GlobsIndex.nil(), g.Globs@ == Map::<Str, i64>::empty(), g.GlobsIndex@ == Map::<i64, Str>::empty()
    ensures gt(g, h, Map::empty())
{
    let p = choose|p: PM| #[trigger] valid(h, p);
    let m = Map::<Seq<El>, Rec>::empty();
    assert(rooted(h, p, g.Root@));
    assert(mem_ok(h, p, g.Root@, m));
}
