// uses: 10sets.rs 16match.rs 17text.rs 18parse.rs
// Matching with any parsed items, also of texts which are not UTF-8: no panics, and an end.

pub open spec fn fl(it: items_Item) -> int { match it { items_Item::Star(n) => 3, items_Item::StringList(l) => 2, items_Item::Group(g) => 4, _ => 0 } }
pub open spec fn sm_r(it: items_Item, n: int, off: int, flag: int) -> bool { -1 <= off <= n && flag == fl(it) }
pub open spec fn sf_r(it: items_Item, n: int, idx: int, len: int, flag: int) -> bool {
    &&& -1 <= idx <= n
    &&& flag == fl(it) || (fl(it) == 0 && flag == 1)
    &&& idx >= 0 && fl(it) != 2 && fl(it) != 4 ==> (if it is Star { -1 } else { 0 }) <= len <= n - idx
}
pub open spec fn wfs0(c: Seq<items_Item>) -> bool { wfsx(c, false) }
pub open spec fn wfn0(p: Pt<items_nextItemsTree>) -> bool { wfs0(flat(p)) }
pub proof fn lemma_wfs0_cat(a: Seq<items_Item>, b: Seq<items_Item>)
    ensures (wfs0(a) && wfs0(b)) == wfs0(a + b)
{
    if wfs0(a + b) {
        assert forall|j: int| 0 <= j < a.len() implies wfix(#[trigger] a[j], false) by { assert(wfix((a + b)[j], false)); }
        assert forall|j: int| 0 <= j < b.len() implies wfix(#[trigger] b[j], false) by { assert(wfix((a + b)[a.len() + j], false)); }
    }
}
pub proof fn lemma_wfs0_parts(c: Seq<items_Item>, i: int)
    requires wfs0(c), 0 <= i <= c.len()
    ensures wfs0(rest(c, i)), i < c.len() ==> wfix(c[i], false)
{ assert forall|j: int| 0 <= j < c.len() - i implies wfix(#[trigger] rest(c, i)[j], false) by { assert(wfix(c[i + j], false)); } if i < c.len() { assert(wfix(c[i], false)); } }
pub proof fn lemma_next0(p: Pt<items_nextItemsTree>)
    requires p@ is Some
    ensures ({
        let t = p@->0;
        let n = t.next;
        &&& flat(p) == t.items@ + flat(n) && depth(p) == 1 + depth(n)
        &&& (t.items@.len() == 0 ==> flat(p) == flat(n))
        &&& (n@ is None ==> flat(n).len() == 0 && depth(n) == 0)
        &&& (n@ is Some ==> flat(n) == (n@->0).items@ + flat((n@->0).next) && depth(n) == 1 + depth((n@->0).next))
        &&& (wfn0(p) ==> wfs0(t.items@) && wfn0(n) && (n@ is Some ==> wfs0((n@->0).items@) && wfn0((n@->0).next)))
    })
{ lemma_next(p); let t = p@->0; let n = t.next; lemma_wfs0_cat(t.items@, flat(n)); if n@ is Some { lemma_wfs0_cat((n@->0).items@, flat((n@->0).next)); } }
pub proof fn lemma_wt_leafs0(c: Seq<items_Item>, r: Seq<items_Item>)
    requires wf_leafsx(c, false)
    ensures wt(c + r) == c.len() + wt(r)
    decreases c.len()
{
    if c.len() == 0 { assert(c + r =~= r); } else {
        let d = c.drop_first();
        assert forall|i: int| 0 <= i < d.len() implies wf_leafx(#[trigger] d[i], false) && !(d[i] is StringList) by { assert(wf_leafx(c[i + 1], false)); }
        assert(wf_leafx(c[0], false));
        assert(c + r =~= cons(c[0], d + r));
        lemma_wt_cons(c[0], d + r);
        lemma_wt_leafs0(d, r);
    }
}
pub proof fn lemma_gval0(g: items_Group, i: int, r: Seq<items_Item>)
    requires wf_groupx(g, false), 0 <= i < g.Vals@.len()
    ensures wt(val_items(g.Vals@[i]) + r) < wt(cons(items_Item::Group(g), r)), wfs0(val_items(g.Vals@[i]))
{
    lemma_wt_cons(items_Item::Group(g), r);
    lemma_wvs(g.Vals@, i);
    assert(wf_valx(g.Vals@[i], false));
    match g.Vals@[i] {
        items_Item::Chain(c) => { lemma_wt_leafs0(c.Items@, r); assert forall|j: int| 0 <= j < c.Items@.len() implies wfix(#[trigger] c.Items@[j], false) by { assert(wf_leafx(c.Items@[j], false)); } }
        _ => { lemma_wt_cons(g.Vals@[i], r); assert(val_items(g.Vals@[i]) + r == cons(g.Vals@[i], r)); }
    }
}
pub proof fn lemma_wfsx0(c: Seq<items_Item>)
    requires wfsx(c, U())
    ensures wfs0(c)
{
    assert forall|i: int| 0 <= i < c.len() implies wfix(#[trigger] c[i], false) by {
        assert(wfix(c[i], U()));
        match c[i] {
            items_Item::Group(g) => { assert forall|k: int| 0 <= k < g.Vals@.len() implies wf_valx(#[trigger] g.Vals@[k], false) by {
                assert(wf_valx(g.Vals@[k], U()));
                match g.Vals@[k] { items_Item::Chain(h) => { assert forall|j: int| 0 <= j < h.Items@.len() implies wf_leafx(#[trigger] h.Items@[j], false) && !(h.Items@[j] is StringList) by { assert(wf_leafx(h.Items@[j], U())); } } _ => {} }
            } }
            _ => {}
        }
    }
}
// the globs of parsed texts
pub open spec fn wfg0(g: glob_Glob) -> bool { wfs0(g.Items@) }
pub open spec fn wfgs0(g: Seq<glob_Glob>) -> bool { forall|i: int| 0 <= i < g.len() ==> wfg0(#[trigger] g[i]) }
pub open spec fn wfgg0(g: gglob_GGlob) -> bool { wfgs0(g.Parts@) }
