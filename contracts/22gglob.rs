// uses: 10sets.rs 14path.rs 16match.rs 17text.rs 18parse.rs 19group.rs 20next.rs 21glob.rs
// Dotted globs.

pub open spec fn slen(p: Seq<Seq<u8>>) -> int decreases p.len() { if p.len() == 0 { 0 } else { slen(p.drop_last()) + p.last().len() } }
pub open spec fn pmin(p: Seq<glob_Glob>) -> int decreases p.len() { if p.len() == 0 { 0 } else { pmin(p.drop_last()) + p.last().MinLen } }
pub open spec fn pmax(p: Seq<glob_Glob>) -> int decreases p.len() { if p.len() == 0 { 0 } else { addmax(pmax(p.drop_last()), p.last().MaxLen as int) } }
// every part is accepted by the glob at its place
pub open spec fn plang(g: Seq<glob_Glob>, p: Seq<Seq<u8>>) -> bool { g.len() == p.len() && forall|i: int| 0 <= i < p.len() ==> glang(g[i], #[trigger] p[i]) }
// what a dotted glob accepts
pub open spec fn gglang(g: gglob_GGlob, path: Seq<u8>) -> bool { path.len() > 0 && !has_empty(parts_of(path)) && plang(g.Parts@, parts_of(path)) }
pub open spec fn wfgs(g: Seq<glob_Glob>) -> bool { forall|i: int| 0 <= i < g.len() ==> wfg(#[trigger] g[i]) }
pub open spec fn wfgg(g: gglob_GGlob) -> bool { wfgs(g.Parts@) && 0 <= g.MinLen == pmin(g.Parts@) && g.MaxLen == pmax(g.Parts@) }
// the bounds of a glob are bounds of what it accepts
pub proof fn lemma_glob_bounds(g: glob_Glob, s: Seq<u8>)
    requires wfg(g), glang(g, s)
    ensures g.MinLen <= s.len(), g.MaxLen == -1 || s.len() <= g.MaxLen
{
    if g.Items@.len() > 0 {
        lemma_from0(s);
        lemma_aend_trunc(g.Items@, g.Suffix@, from(s, g.Prefix@.len() as int));
    }
}
pub proof fn lemma_gglob_bounds(g: Seq<glob_Glob>, p: Seq<Seq<u8>>)
    requires wfgs(g), plang(g, p)
    ensures pmin(g) <= slen(p), pmax(g) <= -1 || slen(p) <= pmax(g)
    decreases g.len()
{
    if g.len() > 0 {
        let h = g.drop_last();
        let q = p.drop_last();
        assert forall|i: int| 0 <= i < h.len() implies wfg(#[trigger] h[i]) by { assert(wfg(g[i])); }
        assert forall|i: int| 0 <= i < q.len() implies glang(h[i], #[trigger] q[i]) by { assert(glang(g[i], p[i])); }
        lemma_gglob_bounds(h, q);
        assert(glang(g[g.len() - 1], p[g.len() - 1]));
        lemma_glob_bounds(g.last(), p.last());
    }
}
pub proof fn lemma_slen_cat(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures slen(a + b) == slen(a) + slen(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_slen_cat(a, b.drop_last());
    }
}
pub proof fn lemma_split_slen(s: Seq<u8>, c: u8)
    ensures slen(split_b(s, c)) + split_b(s, c).len() == s.len() + 1
    decreases s.len()
{
    lemma_first_b(s, c);
    let k = first_b(s, c);
    if k < s.len() {
        let r = s.subrange(k + 1, s.len() as int);
        let a = seq![s.subrange(0, k)];
        lemma_split_slen(r, c);
        lemma_slen_cat(a, split_b(r, c));
        assert(a.drop_last() =~= Seq::empty());
        assert(split_b(s, c) == a + split_b(r, c));
        assert(slen(a) == k) by { assert(slen(a.drop_last()) == 0); }
    } else {
        assert(split_b(s, c) == seq![s]);
        assert(seq![s].drop_last() =~= Seq::empty());
        assert(slen(seq![s].drop_last()) == 0);
    }
}
// the parts still to come
pub open spec fn walk(all: Seq<Seq<u8>>, i: int, rest: Seq<u8>) -> bool {
    0 <= i <= all.len() && (i < all.len() ==> split_b(rest, 46) == all.subrange(i, all.len() as int)) && (i == all.len() ==> rest.len() == 0)
}
pub proof fn lemma_walk(all: Seq<Seq<u8>>, i: int, rest: Seq<u8>)
    requires walk(all, i, rest), i < all.len()
    ensures first_b(rest, 46) < rest.len() ==> all[i] == rest.subrange(0, first_b(rest, 46)) && walk(all, i + 1, rest.subrange(first_b(rest, 46) + 1, rest.len() as int)) && i + 1 < all.len(),
        first_b(rest, 46) >= rest.len() ==> all[i] == rest && walk(all, i + 1, Seq::empty()) && i + 1 == all.len(),
{
    lemma_split_step(rest, 46);
    let n = all.len() as int;
    let t = all.subrange(i, n);
    assert(t[0] == all[i]);
    if first_b(rest, 46) < rest.len() {
        let r = rest.subrange(first_b(rest, 46) + 1, rest.len() as int);
        lemma_split_step(r, 46);
        assert(t.len() == 1 + split_b(r, 46).len());
        assert(all.subrange(i + 1, n) =~= split_b(r, 46)) by {
            assert forall|k: int| 0 <= k < n - i - 1 implies all.subrange(i + 1, n)[k] == #[trigger] split_b(r, 46)[k] by { assert(t[k + 1] == split_b(r, 46)[k]); }
        }
    } else { assert(t.len() == 1); }
}
pub open spec fn alltw2(p: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < p.len() ==> tw(#[trigger] p[i]) }
// the globs of the parts read so far
#[verifier::opaque]
pub open spec fn gpx(all: Seq<Seq<u8>>, g: Seq<glob_Glob>, mn: int, mx: int) -> bool {
    &&& g.len() <= all.len()
    &&& forall|i: int| 0 <= i < g.len() ==> tw(all[i]) && all[i].len() > 0
    &&& mn == pmin(g) && mx == pmax(g) && 0 <= mn <= 8 * slen(all.subrange(0, g.len() as int)) && -1 <= mx <= 8 * slen(all.subrange(0, g.len() as int))
    &&& U() ==> wfgs(g)
    &&& forall|i: int| 0 <= i < g.len() ==> wfsx((#[trigger] g[i]).Items@, U())
    &&& U() && N() ==> forall|i: int| 0 <= i < g.len() ==> glok(all[i], #[trigger] g[i])
}
pub proof fn lemma_slen_le(all: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= all.len()
    ensures 0 <= slen(all.subrange(0, n)) <= slen(all)
    decreases all.len() - n
{
    lemma_slen_pos(all.subrange(0, n));
    if n < all.len() {
        lemma_slen_le(all, n + 1);
        assert(all.subrange(0, n + 1).drop_last() =~= all.subrange(0, n));
    } else { assert(all.subrange(0, n) =~= all); }
}
pub proof fn lemma_slen_pos(all: Seq<Seq<u8>>)
    ensures 0 <= slen(all)
    decreases all.len()
{ if all.len() > 0 { lemma_slen_pos(all.drop_last()); } }
pub proof fn lemma_gpx0(all: Seq<Seq<u8>>)
    ensures gpx(all, Seq::empty(), 0, 0)
{ reveal(gpx); assert(all.subrange(0, 0) =~= Seq::empty()); }
pub proof fn lemma_gpx_at(all: Seq<Seq<u8>>, g: Seq<glob_Glob>, mn: int, mx: int)
    requires gpx(all, g, mn, mx)
    ensures 0 <= mn <= 8 * slen(all), -1 <= mx <= 8 * slen(all), g.len() <= all.len()
{ reveal(gpx); lemma_slen_le(all, g.len() as int); }
pub proof fn lemma_gpx_push(all: Seq<Seq<u8>>, g: Seq<glob_Glob>, mn: int, mx: int, x: glob_Glob)
    requires gpx(all, g, mn, mx), g.len() < all.len(), wfsx(x.Items@, U()), tw(all[g.len() as int]), all[g.len() as int].len() > 0,
        U() ==> wfg(x), U() && N() ==> glok(all[g.len() as int], x), 0 <= x.MinLen <= 8 * all[g.len() as int].len(), -1 <= x.MaxLen <= 8 * all[g.len() as int].len()
    ensures gpx(all, g.push(x), mn + x.MinLen, addmax(mx, x.MaxLen as int))
{
    reveal(gpx);
    let n = g.len() as int;
    let h = g.push(x);
    assert(h.drop_last() =~= g);
    assert(all.subrange(0, n + 1).drop_last() =~= all.subrange(0, n));
    assert forall|i: int| 0 <= i < h.len() implies wfsx((#[trigger] h[i]).Items@, U()) by { if i < n { assert(wfsx(g[i].Items@, U())); } }
    if U() { assert forall|i: int| 0 <= i < h.len() implies wfg(#[trigger] h[i]) by { if i < n { assert(wfg(g[i])); } } }
    if U() && N() { assert forall|i: int| 0 <= i < h.len() implies glok(all[i], #[trigger] h[i]) by { if i < n { assert(glok(all[i], g[i])); } } }
}
// the finished dotted glob
pub open spec fn ggok(s: Seq<u8>, g: gglob_GGlob) -> bool { g.Parts@.len() == parts_of(s).len() && forall|i: int| 0 <= i < g.Parts@.len() ==> glok(parts_of(s)[i], #[trigger] g.Parts@[i]) }
pub open spec fn ggtw(s: Seq<u8>) -> bool { !has_empty(parts_of(s)) && alltw2(parts_of(s)) }
pub proof fn lemma_gpx_end(s: Seq<u8>, g: gglob_GGlob)
    requires gpx(parts_of(s), g.Parts@, g.MinLen as int, g.MaxLen as int), g.Parts@.len() == parts_of(s).len()
    ensures ggtw(s), U() ==> wfgg(g), U() && N() ==> ggok(s, g), forall|i: int| 0 <= i < g.Parts@.len() ==> wfsx((#[trigger] g.Parts@[i]).Items@, U())
{ reveal(gpx); }
// what the text of a dotted glob accepts
pub open spec fn ggacc(s: Seq<u8>, path: Seq<u8>) -> bool { path.len() > 0 && !has_empty(parts_of(path)) && parts_of(path).len() == parts_of(s).len() && forall|i: int| 0 <= i < parts_of(path).len() ==> acc(parts_of(s)[i], #[trigger] parts_of(path)[i]) }
pub proof fn lemma_ggok(s: Seq<u8>, g: gglob_GGlob, path: Seq<u8>)
    requires ggok(s, g)
    ensures gglang(g, path) == ggacc(s, path)
{
    let p = parts_of(path);
    if p.len() == g.Parts@.len() { assert forall|i: int| 0 <= i < p.len() implies glang(g.Parts@[i], #[trigger] p[i]) == acc(parts_of(s)[i], p[i]) by { assert(glok(parts_of(s)[i], g.Parts@[i])); } }
}
pub proof fn lemma_slen_at(all: Seq<Seq<u8>>, i: int)
    requires 0 <= i < all.len()
    ensures all[i].len() <= slen(all)
{
    lemma_slen_le(all, i + 1);
    assert(all.subrange(0, i + 1).drop_last() =~= all.subrange(0, i));
    lemma_slen_pos(all.subrange(0, i));
}
// the normalized text of a dotted glob: of its parts, with dots between
pub open spec fn nodes_txt(g: Seq<glob_Glob>) -> Seq<u8> decreases g.len() {
    if g.len() == 0 { Seq::empty() } else { nodes_txt(g.drop_last()) + (if g.len() > 1 { seq![46u8] } else { Seq::empty() }) + g.last().Node@ }
}
pub proof fn lemma_nodes_step(g: Seq<glob_Glob>, i: int)
    requires 0 <= i < g.len()
    ensures nodes_txt(g.subrange(0, i + 1)) == nodes_txt(g.subrange(0, i)) + (if i > 0 { seq![46u8] } else { Seq::empty() }) + g[i].Node@
{ assert(g.subrange(0, i + 1).drop_last() =~= g.subrange(0, i)); }
