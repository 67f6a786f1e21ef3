// ---------------------------------------------------------------------------------
// stacks of iterators, newest layer first, as lists of views
// ---------------------------------------------------------------------------------
pub open spec fn vw(v: Seq<MergeItem>) -> Seq<Seq<IdTriple>> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn all_of(v: Seq<MergeItem>) -> Seq<Seq<IdTriple>> { Seq::new(v.len(), |i: int| v[i].all()) }
pub open spec fn all_wf(v: Seq<MergeItem>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).wf() }
pub open spec fn all_strict(v: Seq<Seq<IdTriple>>) -> bool { forall|i: int| 0 <= i < v.len() ==> strict(#[trigger] v[i]) }
pub proof fn wf_strict(v: Seq<MergeItem>) requires all_wf(v) ensures all_strict(vw(v)), all_strict(all_of(v))
{
    assert forall|i: int| 0 <= i < v.len() implies strict(#[trigger] vw(v)[i]) by { v[i].strict_view(); }
    assert forall|i: int| 0 <= i < v.len() implies strict(#[trigger] all_of(v)[i]) by { v[i].strict_view(); }
}
pub open spec fn inl(p: Seq<Seq<IdTriple>>, i: int, t: IdTriple) -> bool { 0 <= i < p.len() && p[i].contains(t) }
/// t is in the result of layers i and older: the newest layer that mentions it adds it
pub open spec fn first(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, i: int, t: IdTriple) -> bool decreases p.len() - i {
    if i < 0 || i >= p.len() { false } else if inl(p, i, t) { true } else if inl(n, i, t) { false } else { first(p, n, i + 1, t) }
}
/// every addition is of something absent below, every removal of something present below
#[verifier::opaque]
pub open spec fn layered(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>) -> bool {
    &&& p.len() == n.len()
    &&& forall|i: int, t: IdTriple| #[trigger] inl(p, i, t) ==> !inl(n, i, t) && !first(p, n, i + 1, t)
    &&& forall|i: int, t: IdTriple| #[trigger] inl(n, i, t) ==> first(p, n, i + 1, t)
}
pub open spec fn popped(p: Seq<Seq<IdTriple>>, i: int) -> Seq<Seq<IdTriple>> { p.update(i, p[i].drop_first()) }
pub open spec fn total(p: Seq<Seq<IdTriple>>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { total(p.drop_last()) + p.last().len() } }
pub proof fn total_popped(p: Seq<Seq<IdTriple>>, i: int) requires 0 <= i < p.len(), p[i].len() > 0 ensures total(popped(p, i)) + 1 == total(p) decreases p.len()
{
    if i == p.len() - 1 { assert(popped(p, i).drop_last() =~= p.drop_last()); } else { assert(popped(p, i).drop_last() =~= popped(p.drop_last(), i)); total_popped(p.drop_last(), i); }
}
pub proof fn popped_members(p: Seq<Seq<IdTriple>>, i: int)
    requires 0 <= i < p.len(), all_strict(p), p[i].len() > 0
    ensures all_strict(popped(p, i)), forall|k: int, u: IdTriple| #[trigger] inl(popped(p, i), k, u) <==> inl(p, k, u) && !(k == i && u == p[i][0])
{
    let q = popped(p, i);
    assert forall|k: int| 0 <= k < q.len() implies strict(#[trigger] q[k]) by { assert(strict(p[k])); if k == i { assert forall|a: int, b: int| 0 <= a < b < q[k].len() implies tlt(q[k][a], q[k][b]) by { assert(tlt(p[k][a + 1], p[k][b + 1])); } } }
    assert forall|k: int, u: IdTriple| #[trigger] inl(q, k, u) <==> inl(p, k, u) && !(k == i && u == p[i][0]) by {
        if k == i {
            assert(strict(p[i]));
            if q[i].contains(u) { let a = choose|a: int| 0 <= a < q[i].len() && q[i][a] == u; assert(p[i][a + 1] == u); assert(tlt(p[i][0], p[i][a + 1])); }
            if p[i].contains(u) && u != p[i][0] { let a = choose|a: int| 0 <= a < p[i].len() && p[i][a] == u; assert(q[i][a - 1] == u); }
        }
    }
}
pub proof fn first_same(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, p2: Seq<Seq<IdTriple>>, n2: Seq<Seq<IdTriple>>, i: int, t: IdTriple)
    requires p.len() == p2.len(), forall|k: int| i <= k ==> inl(p, k, t) == #[trigger] inl(p2, k, t), forall|k: int| i <= k ==> inl(n, k, t) == #[trigger] inl(n2, k, t),
    ensures first(p, n, i, t) == first(p2, n2, i, t)
    decreases p.len() - i
{ if 0 <= i < p.len() { assert(inl(p2, i, t) == inl(p, i, t)); assert(inl(n2, i, t) == inl(n, i, t)); first_same(p, n, p2, n2, i + 1, t); } }
/// layers that do not mention t make no difference
pub proof fn first_skip(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, a: int, b: int, t: IdTriple)
    requires 0 <= a <= b <= p.len(), forall|k: int| a <= k < b ==> !#[trigger] inl(p, k, t), forall|k: int| a <= k < b ==> !#[trigger] inl(n, k, t),
    ensures first(p, n, a, t) == first(p, n, b, t)
    decreases b - a
{ if a < b { first_skip(p, n, a + 1, b, t); assert(!inl(p, a, t) && !inl(n, a, t)); } }
/// if something is removed before the next addition, it is not in the result
pub proof fn first_removed(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, a: int, m: int, t: IdTriple)
    requires 0 <= a <= m < p.len(), inl(n, m, t), forall|k: int| a <= k <= m ==> !#[trigger] inl(p, k, t)
    ensures !first(p, n, a, t)
    decreases m - a
{ assert(!inl(p, a, t)); if a < m && !inl(n, a, t) { first_removed(p, n, a + 1, m, t); } }
pub proof fn first_has(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, a: int, t: IdTriple)
    requires first(p, n, a, t)
    ensures exists|k: int| a <= k < p.len() && #[trigger] inl(p, k, t)
    decreases p.len() - a
{ if !inl(p, a, t) { first_has(p, n, a + 1, t); } }
pub open spec fn least(p: Seq<Seq<IdTriple>>, t: IdTriple) -> bool { forall|k: int, u: IdTriple| #[trigger] inl(p, k, u) ==> !tlt(u, t) }
pub proof fn heads_least(p: Seq<Seq<IdTriple>>, t: IdTriple)
    requires all_strict(p), forall|k: int| 0 <= k < p.len() && (#[trigger] p[k]).len() > 0 ==> !tlt(p[k][0], t)
    ensures least(p, t), forall|k: int| #[trigger] inl(p, k, t) ==> p[k].len() > 0 && p[k][0] == t
{
    assert forall|k: int, u: IdTriple| #[trigger] inl(p, k, u) implies !tlt(u, t) by { assert(strict(p[k])); let a = choose|a: int| 0 <= a < p[k].len() && p[k][a] == u; assert(!tlt(p[k][0], t)); if a > 0 { assert(tlt(p[k][0], p[k][a])); } }
    assert forall|k: int| #[trigger] inl(p, k, t) implies p[k].len() > 0 && p[k][0] == t by { assert(strict(p[k])); let a = choose|a: int| 0 <= a < p[k].len() && p[k][a] == t; if a > 0 { assert(tlt(p[k][0], p[k][a])); } }
}
pub proof fn removals_least(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, t: IdTriple)
    requires all_strict(n), layered(p, n), least(p, t)
    ensures least(n, t), forall|k: int| #[trigger] inl(n, k, t) ==> n[k].len() > 0 && n[k][0] == t
{
    reveal(layered);
    assert forall|k: int, u: IdTriple| #[trigger] inl(n, k, u) implies !tlt(u, t) by { first_has(p, n, k + 1, u); }
    assert forall|k: int| 0 <= k < n.len() && (#[trigger] n[k]).len() > 0 implies !tlt(n[k][0], t) by { assert(n[k].contains(n[k][0])); assert(inl(n, k, n[k][0])); }
    heads_least(n, t);
}
/// the least addition, not removed above: taking it out takes it out of the result
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn pop_addition(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, i: int)
    requires layered(p, n), all_strict(p), all_strict(n), 0 <= i < p.len(), p[i].len() > 0, least(p, p[i][0]),
        forall|k: int| 0 <= k < i ==> !#[trigger] inl(p, k, p[i][0]), forall|k: int| 0 <= k < i ==> !#[trigger] inl(n, k, p[i][0]),
    ensures layered(popped(p, i), n), all_strict(popped(p, i)), first(p, n, 0, p[i][0]),
        forall|u: IdTriple| #[trigger] first(popped(p, i), n, 0, u) <==> first(p, n, 0, u) && u != p[i][0],
        forall|u: IdTriple| #[trigger] first(p, n, 0, u) ==> !tlt(u, p[i][0]),
{
    reveal(layered);
    let t = p[i][0]; let q = popped(p, i);
    popped_members(p, i);
    assert(p[i].contains(t)); assert(inl(p, i, t));
    first_skip(p, n, 0, i, t);
    assert forall|k: int, u: IdTriple| u != t || k > i implies #[trigger] first(q, n, k, u) == first(p, n, k, u) by {
        assert forall|m: int| k <= m implies inl(p, m, u) == #[trigger] inl(q, m, u) by { }
        first_same(p, n, q, n, k, u);
    }
    // t itself: nothing above i mentions it, and below i it is not present
    assert(!inl(n, i, t) && !first(p, n, i + 1, t));
    assert(!inl(q, i, t));
    assert forall|k: int| 0 <= k <= i implies !#[trigger] first(q, n, k, t) by {
        assert forall|m: int| k <= m < i + 1 implies !#[trigger] inl(q, m, t) by { }
        assert forall|m: int| k <= m < i + 1 implies !#[trigger] inl(n, m, t) by { }
        first_skip(q, n, k, i + 1, t); assert(first(q, n, i + 1, t) == first(p, n, i + 1, t));
    }
    assert forall|k: int, u: IdTriple| #[trigger] inl(q, k, u) implies !inl(n, k, u) && !first(q, n, k + 1, u) by { assert(inl(p, k, u)); assert(u != t || k > i); assert(first(q, n, k + 1, u) == first(p, n, k + 1, u)); }
    assert forall|k: int, u: IdTriple| #[trigger] inl(n, k, u) implies first(q, n, k + 1, u) by { assert(first(p, n, k + 1, u)); if u == t { assert(k > i); } assert(first(q, n, k + 1, u) == first(p, n, k + 1, u)); }
    assert forall|u: IdTriple| #[trigger] first(q, n, 0, u) <==> first(p, n, 0, u) && u != t by { }
    assert forall|u: IdTriple| #[trigger] first(p, n, 0, u) implies !tlt(u, t) by { first_has(p, n, 0, u); }
}
/// the least addition with the removal above it: taking both out changes nothing
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn pop_pair(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, j: int, i: int)
    requires layered(p, n), all_strict(p), all_strict(n), 0 <= j < i < p.len(), p[i].len() > 0, least(p, p[i][0]), n[j].len() > 0, n[j][0] == p[i][0],
        forall|k: int| 0 <= k < i ==> !#[trigger] inl(p, k, p[i][0]), forall|k: int| 0 <= k < j ==> !#[trigger] inl(n, k, p[i][0]),
    ensures layered(popped(p, i), popped(n, j)), all_strict(popped(p, i)), all_strict(popped(n, j)),
        forall|u: IdTriple| #[trigger] first(popped(p, i), popped(n, j), 0, u) == first(p, n, 0, u),
{
    reveal(layered);
    let t = p[i][0]; let q = popped(p, i); let m = popped(n, j);
    popped_members(p, i); popped_members(n, j);
    assert(p[i].contains(t)); assert(inl(p, i, t)); assert(n[j].contains(t)); assert(inl(n, j, t));
    assert forall|k: int, u: IdTriple| u != t || k > i implies #[trigger] first(q, m, k, u) == first(p, n, k, u) by {
        assert forall|a: int| k <= a implies inl(p, a, u) == #[trigger] inl(q, a, u) by { }
        assert forall|a: int| k <= a implies inl(n, a, u) == #[trigger] inl(m, a, u) by { }
        first_same(p, n, q, m, k, u);
    }
    // between j and i nothing removes t
    assert forall|k: int| j < k < i implies !#[trigger] inl(n, k, t) by { if inl(n, k, t) { assert(first(p, n, j + 1, t)); first_removed(p, n, j + 1, k, t); } }
    assert(!inl(n, i, t) && !first(p, n, i + 1, t));
    assert forall|k: int| 0 <= k <= i implies !#[trigger] first(q, m, k, t) by {
        assert forall|a: int| k <= a < i + 1 implies !#[trigger] inl(q, a, t) by { }
        assert forall|a: int| k <= a < i + 1 implies !#[trigger] inl(m, a, t) by { }
        first_skip(q, m, k, i + 1, t); assert(first(q, m, i + 1, t) == first(p, n, i + 1, t));
    }
    first_skip(p, n, 0, j, t);
    assert(!inl(p, j, t));
    assert(!first(p, n, 0, t));
    assert forall|k: int, u: IdTriple| #[trigger] inl(q, k, u) implies !inl(m, k, u) && !first(q, m, k + 1, u) by { assert(inl(p, k, u)); assert(u != t || k > i); assert(first(q, m, k + 1, u) == first(p, n, k + 1, u)); }
    assert forall|k: int, u: IdTriple| #[trigger] inl(m, k, u) implies first(q, m, k + 1, u) by { assert(inl(n, k, u)); assert(first(p, n, k + 1, u)); if u == t { assert(k > i); } assert(first(q, m, k + 1, u) == first(p, n, k + 1, u)); }
    assert forall|u: IdTriple| #[trigger] first(q, m, 0, u) == first(p, n, 0, u) by { }
}
