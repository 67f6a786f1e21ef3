// ---------------------------------------------------------------------------------
// a layer's stack, newest first, and the merge of what its layers record
// (madds, mdels, mhas: the triples of interest, as they are listed)
// ---------------------------------------------------------------------------------
impl InternalLayer {
    pub open spec fn hast(&self, t: IdTriple) -> bool { self.has(t.subject, t.predicate, t.object) }
    pub open spec fn addst(&self, t: IdTriple) -> bool { self.adds(t.subject, t.predicate, t.object) }
    pub open spec fn delst(&self, t: IdTriple) -> bool { self.dels(t.subject, t.predicate, t.object) }
    /// every recorded addition is of an absent triple, every recorded removal of a present one
    pub open spec fn changes_wf(&self) -> bool decreases self.height() {
        &&& forall|t: IdTriple| #[trigger] self.addst(t) ==> !self.delst(t) && match self.up() { Some(u) => !u.hast(t), None => true }
        &&& forall|t: IdTriple| #[trigger] self.delst(t) ==> match self.up() { Some(u) => u.hast(t), None => false }
        &&& match self.up() { Some(u) => u.changes_wf(), None => true }
    }
    /// the k-th ancestor
    pub open spec fn anc(&self, k: nat) -> Option<InternalLayer> decreases k {
        if k == 0 { Some(*self) } else { match self.anc((k - 1) as nat) { Some(l) => l.up(), None => None } }
    }
    pub proof fn anc_next(&self, k: nat) ensures self.anc(k + 1) == (match self.anc(k) { Some(l) => l.up(), None => None }) { }
    pub proof fn anc_wf(&self, k: nat)
        ensures match self.anc(k) { Some(l) => (self.triples_wf() ==> l.triples_wf()) && (self.changes_wf() ==> l.changes_wf()) && l.height() + k == self.height(), None => k > self.height() }
        decreases k
    { if k > 0 { self.anc_wf((k - 1) as nat); } }
@@fn layer/internal/mod.rs :: impl InternalLayer :: layer_stack_size
@ret r
@props A12
@spec
    requires self.height() < i64::MAX,
    ensures r == self.height() + 1,
@loop 0
invariant count + l.height() == self.height() + 1, self.height() < i64::MAX,
ensures count == self.height() + 1,
decreases l.height()
@@end
}
/// p and n hold the additions and removals of the layer and its nearest ancestors
pub open spec fn stacked(l: InternalLayer, q: u64, p: Seq<MergeItem>, n: Seq<MergeItem>) -> bool {
    &&& all_wf(p) && all_wf(n) && p.len() == n.len()
    &&& vw(p) == all_of(p) && vw(n) == all_of(n)
    &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] l.anc(k as nat)).is_some()
    &&& forall|k: int, t: IdTriple| #[trigger] inl(vw(p), k, t) <==> 0 <= k < p.len() && madds(l.anc(k as nat).unwrap(), q, t)
    &&& forall|k: int, t: IdTriple| #[trigger] inl(vw(n), k, t) <==> 0 <= k < n.len() && mdels(l.anc(k as nat).unwrap(), q, t)
}
pub proof fn stack_push(l: InternalLayer, q: u64, p: Seq<MergeItem>, n: Seq<MergeItem>, p2: Seq<MergeItem>, n2: Seq<MergeItem>)
    requires (p.len() == 0 && n.len() == 0) || stacked(l, q, p, n), p2.len() == p.len() + 1, n2.len() == n.len() + 1, p2 =~= p.push(p2.last()), n2 =~= n.push(n2.last()),
        p2.last().wf(), n2.last().wf(), p2.last()@ == p2.last().all(), n2.last()@ == n2.last().all(), l.anc(p.len()).is_some(),
        forall|t: IdTriple| #[trigger] p2.last()@.contains(t) <==> madds(l.anc(p.len()).unwrap(), q, t),
        forall|t: IdTriple| #[trigger] n2.last()@.contains(t) <==> mdels(l.anc(p.len()).unwrap(), q, t),
    ensures stacked(l, q, p2, n2)
{
    let m = p.len() as int;
    assert forall|k: int| 0 <= k < p2.len() implies (#[trigger] p2[k]).wf() && p2[k]@ == p2[k].all() by { if k < m { assert(p2[k] == p[k]); assert(vw(p)[k] == all_of(p)[k]); } }
    assert forall|k: int| 0 <= k < n2.len() implies (#[trigger] n2[k]).wf() && n2[k]@ == n2[k].all() by { if k < m { assert(n2[k] == n[k]); assert(vw(n)[k] == all_of(n)[k]); } }
    assert(vw(p2) =~= all_of(p2)); assert(vw(n2) =~= all_of(n2));
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(p2), k, t) <==> 0 <= k < p2.len() && madds(l.anc(k as nat).unwrap(), q, t) by { if 0 <= k < m { assert(inl(vw(p), k, t) == inl(vw(p2), k, t)); } else if k == m { assert(p2.last()@.contains(t) == inl(vw(p2), k, t)); } }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(n2), k, t) <==> 0 <= k < n2.len() && mdels(l.anc(k as nat).unwrap(), q, t) by { if 0 <= k < m { assert(inl(vw(n), k, t) == inl(vw(n2), k, t)); } else if k == m { assert(n2.last()@.contains(t) == inl(vw(n2), k, t)); } }
}
pub proof fn stack_first_at(l: InternalLayer, q: u64, p: Seq<MergeItem>, n: Seq<MergeItem>, k: nat, t: IdTriple)
    requires stacked(l, q, p, n), l.anc(p.len()).is_none(), k <= p.len()
    ensures first(vw(p), vw(n), k as int, t) == (match l.anc(k) { Some(a) => mhas(a, q, t), None => false })
    decreases p.len() - k
{
    if k < p.len() {
        stack_first_at(l, q, p, n, k + 1, t);
        l.anc_next(k);
        assert(l.anc(k).is_some());
        assert(inl(vw(p), k as int, t) == madds(l.anc(k).unwrap(), q, t)); assert(inl(vw(n), k as int, t) == mdels(l.anc(k).unwrap(), q, t));
    }
}
pub proof fn stack_first(l: InternalLayer, q: u64, p: Seq<MergeItem>, n: Seq<MergeItem>)
    requires stacked(l, q, p, n), l.anc(p.len()).is_none(), l.triples_wf(), l.changes_wf(), p.len() > 0,
    ensures layered(vw(p), vw(n)), forall|t: IdTriple| #[trigger] first(vw(p), vw(n), 0, t) == mhas(l, q, t)
{
    reveal(layered);
    assert forall|t: IdTriple| #[trigger] first(vw(p), vw(n), 0, t) == mhas(l, q, t) by { stack_first_at(l, q, p, n, 0, t); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(p), k, t) implies !inl(vw(n), k, t) && !first(vw(p), vw(n), k + 1, t) by { stack_first_at(l, q, p, n, (k + 1) as nat, t); l.anc_next(k as nat); l.anc_wf(k as nat); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(n), k, t) implies first(vw(p), vw(n), k + 1, t) by { stack_first_at(l, q, p, n, (k + 1) as nat, t); l.anc_next(k as nat); l.anc_wf(k as nat); }
}

