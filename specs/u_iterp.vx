#![feature(allocator_api)]
// Enumeration by predicate: one layer, the merged stack.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
@@include iter.inc
@@include iterp_one.inc
pub type MergeItem = OptInternalLayerTriplePredicateIterator;
@@include merge.inc
pub open spec fn madds(l: InternalLayer, q: u64, t: IdTriple) -> bool { l.addst(t) && t.predicate == q }
pub open spec fn mdels(l: InternalLayer, q: u64, t: IdTriple) -> bool { l.delst(t) && t.predicate == q }
pub open spec fn mhas(l: InternalLayer, q: u64, t: IdTriple) -> bool { l.hast(t) && t.predicate == q }
@@include stack.inc
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions_p
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), forall|t: IdTriple| #[trigger] r@.contains(t) <==> self.addst(t) && t.predicate == predicate,
@at start
proof { rest_is_index(self.psub(), self.psp(), self.pspo()); rest_members(self.psub(), self.psp(), self.pspo(), 0); none_of(self.psub(), self.psp(), self.pspo(), predicate); pick_facts(rest(self.psub(), self.psp(), self.pspo(), 0), predicate, 0); }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals_p
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), forall|t: IdTriple| #[trigger] r@.contains(t) <==> self.delst(t) && t.predicate == predicate,
@at start
proof { if self.nsp().is_some() { let (sub, sp, spo) = (self.nsub(), self.nsp().unwrap(), self.nspo().unwrap()); rest_is_index(sub, sp, spo); rest_members(sub, sp, spo, 0); none_of(sub, sp, spo, predicate); pick_facts(rest(sub, sp, spo, 0), predicate, 0); } }
@@end
}
// what min_by_key(|(_, elt)| elt.unwrap()) compares
pub fn __key(x: &IdTriple) -> (r: IdTriple) ensures r == *x { *x }
pub fn __key_lt(a: &IdTriple, b: &IdTriple) -> (r: bool) ensures r == tlt(*a, *b) { a < b }

/// state of the search for the first iterator with the least head
pub open spec fn min_so_far(p: Seq<Seq<IdTriple>>, i: int, best: Option<IdTriple>, acc: Option<usize>) -> bool {
    match (best, acc) {
        (None, None) => forall|k: int| 0 <= k < i ==> (#[trigger] p[k]).len() == 0,
        (Some(b), Some(a)) => a < i && p[a as int].len() > 0 && p[a as int][0] == b && (forall|k: int| 0 <= k < i && (#[trigger] p[k]).len() > 0 ==> !tlt(p[k][0], b)) && (forall|k: int| 0 <= k < a && (#[trigger] p[k]).len() > 0 ==> p[k][0] != b),
        _ => false,
    }
}
@@item layer/internal/predicate_iterator.rs :: struct InternalTriplePredicateIterator
@flag pub
@@end
impl InternalTriplePredicateIterator {
    pub open spec fn p(&self) -> Seq<Seq<IdTriple>> { vw(self.positives@) }
    pub open spec fn n(&self) -> Seq<Seq<IdTriple>> { vw(self.negatives@) }
    pub open spec fn wf(&self) -> bool { all_wf(self.positives@) && all_wf(self.negatives@) && self.positives@.len() == self.negatives@.len() && layered(self.p(), self.n()) }
    /// the triples still to come
    pub open spec fn present(&self, t: IdTriple) -> bool { first(self.p(), self.n(), 0, t) }
@@fn layer/internal/predicate_iterator.rs :: impl Iterator for InternalTriplePredicateIterator :: next
@ret r
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            None => forall|u: IdTriple| !#[trigger] old(self).present(u),
            Some(t) => old(self).present(t) && (forall|u: IdTriple| #[trigger] old(self).present(u) ==> !tlt(u, t)) && (forall|u: IdTriple| #[trigger] final(self).present(u) <==> old(self).present(u) && u != t),
        },
@loopattr 0 #[verifier::loop_isolation(false)]
@loop 0
invariant
    self.wf(), forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) == old(self).present(u),
decreases total(self.p())
@at loopstart 0
let ghost p0 = self.p();
let ghost n0 = self.n();
let ghost __tot = total(p0);
let ghost __neg0 = self.negatives@;
proof { wf_strict(self.positives@); wf_strict(self.negatives@); }
@loop c0
invariant
    all_wf(self.positives@), self.positives@.len() == p0.len(), forall|k: int| 0 <= k < p0.len() ==> (#[trigger] self.positives@[k])@ == p0[k], self.negatives@ == __neg0,
    __c0_i == __c0_n, 0 <= __c0_i <= p0.len(),
    min_so_far(p0, __c0_i as int, __c0_best, __c0_acc),
decreases p0.len() - __c0_i
@at let lowest_index
proof { assert(self.p() =~= p0); assert(self.n() == n0);
  match lowest_index {
    None => { assert forall|u: IdTriple| !#[trigger] first(p0, n0, 0, u) by { if first(p0, n0, 0, u) { first_has(p0, n0, 0, u); } } assert forall|u: IdTriple| !#[trigger] old(self).present(u) by { assert(old(self).present(u) == first(p0, n0, 0, u)); } },
    Some(a) => { let t = p0[a as int][0]; heads_least(p0, t); removals_least(p0, n0, t);
        assert forall|k: int| 0 <= k < a implies !#[trigger] inl(p0, k, t) by { if inl(p0, k, t) { assert(p0[k].len() > 0 && p0[k][0] == t); } }
    },
  } }
@at let lowest
let ghost p1 = self.p();
proof { assert(p1 =~= popped(p0, lowest_index as int)); assert(self.n() == n0); total_popped(p0, lowest_index as int); }
@loopattr 1 #[verifier::loop_isolation(false)]
@loop 1
invariant
    __f1 <= lowest_index < p0.len(), self.negatives@.len() == n0.len(), forall|k: int| 0 <= k < n0.len() ==> (#[trigger] self.negatives@[k])@ == n0[k], layered(p0, n0), all_strict(p0), all_strict(n0), all_wf(self.negatives@), all_wf(self.positives@), self.p() == p1, p1 == popped(p0, lowest_index as int), total(p1) + 1 == total(p0), total(p0) == __tot,
    forall|u: IdTriple| #[trigger] first(p0, n0, 0, u) == old(self).present(u), least(p0, lowest), forall|k: int| 0 <= k < lowest_index ==> !#[trigger] inl(p0, k, lowest),
    forall|k: int| #[trigger] inl(n0, k, lowest) ==> n0[k].len() > 0 && n0[k][0] == lowest,
    p0[lowest_index as int].len() > 0, lowest == p0[lowest_index as int][0],
    forall|k: int| 0 <= k < __f1 ==> !#[trigger] inl(n0, k, lowest),
    p0.len() == n0.len(),
decreases lowest_index - __f1
@at looppre 1
let ghost __j = __f1 as int;
proof { assert(self.negatives@[__j]@ == n0[__j] && self.negatives@[__j].wf()); }
@at call next
proof { assert(iter@ == n0[__j]); assert(iter@.len() > 0); assert(iter@[0] == lowest); }
@at continue
proof { assert(self.n() =~= popped(n0, __j)); pop_pair(p0, n0, __j, lowest_index as int); }
@at return
proof { assert(self.n() =~= n0); pop_addition(p0, n0, lowest_index as int);
    assert(old(self).present(lowest));
    assert forall|u: IdTriple| #[trigger] old(self).present(u) implies !tlt(u, lowest) by { assert(first(p0, n0, 0, u)); }
    assert forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) <==> old(self).present(u) && u != lowest by { assert(first(popped(p0, lowest_index as int), n0, 0, u) <==> first(p0, n0, 0, u) && u != lowest); }
    assert forall|u: IdTriple| #[trigger] self.present(u) <==> old(self).present(u) && u != lowest by { assert(first(self.p(), self.n(), 0, u) == self.present(u)); }
}
@@end
@@fn layer/internal/predicate_iterator.rs :: impl InternalTriplePredicateIterator :: from_layer
@ret r
@props A01 A02
@spec
    requires layer.triples_wf(), layer.changes_wf(), layer.height() < i64::MAX,
    ensures r.wf(), forall|t: IdTriple| #[trigger] r.present(t) <==> layer.hast(t) && t.predicate == predicate,
@at let layer_opt
proof { layer.anc_next(0); stack_push(*layer, predicate, Seq::empty(), Seq::empty(), positives@, negatives@); }
@loop 0
invariant
    layer.triples_wf(), stacked(*layer, predicate, positives@, negatives@), positives@.len() > 0, layer.anc(positives@.len()) == own(layer_opt),
decreases (match layer_opt { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
let ghost (p0, n0) = (positives@, negatives@);
proof { layer.anc_next(p0.len()); layer.anc_wf(p0.len()); }
@at loopend 0
proof { stack_push(*layer, predicate, p0, n0, positives@, negatives@); }
@at tail
proof { stack_first(*layer, predicate, positives@, negatives@); }
@@end
}
// ---------------------------------------------------------------------------------
// the lists handed out: a lazily filtered iterator as the triples it yields, in order
// ---------------------------------------------------------------------------------
#[verifier::external_body] pub struct Stream { _x: () }
impl Stream { pub uninterp spec fn yields(&self, t: IdTriple) -> bool; }
pub trait Source { spec fn ready(&self) -> bool; spec fn src(&self, t: IdTriple) -> bool; spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool; }
impl Source for Stream { open spec fn ready(&self) -> bool { true } open spec fn src(&self, t: IdTriple) -> bool { self.yields(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { false } }
impl Source for InternalTriplePredicateIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self.present(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
impl Source for OptInternalLayerTriplePredicateIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
/// std's TakeWhile: what comes before the first element that fails the condition
#[verifier::external_body] pub fn __take_while<S: Source>(s: S, f: Ghost<spec_fn(IdTriple) -> bool>) -> (r: Stream)
    requires s.ready()
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) && f@(t) && (forall|u: IdTriple| #[trigger] s.src(u) && s.earlier(u, t) ==> f@(u))
{ unimplemented!() }
#[verifier::external_body] pub fn __boxed<S: Source>(s: S) -> (r: Stream) requires s.ready() ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) { unimplemented!() }
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triples_p
@ret r
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A02
@spec
    requires self.triples_wf(), self.changes_wf(), self.height() < i64::MAX,
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.hast(t) && t.predicate == predicate,
@@end
}
fn main() {}
} // verus!
