#![feature(allocator_api)]
// Enumeration by object: one layer, the merged stack. Lists are kept as (object, subject, predicate), the order in
// which they come.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
pub open spec fn ascending(s: Seq<IdTriple>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tlt(s[i], s[j]) }
pub open spec fn strict(s: Seq<IdTriple>) -> bool { ascending(s) && forall|i: int| 0 <= i < s.len() ==> s[i].subject != 0 && s[i].predicate != 0 && s[i].object != 0 }
@@include itero_one.inc
pub type MergeItem = OptInternalLayerTripleObjectIterator;
@@include merge.inc
pub open spec fn madds(l: InternalLayer, q: u64, u: IdTriple) -> bool { l.addst(unbyo(u)) }
pub open spec fn mdels(l: InternalLayer, q: u64, u: IdTriple) -> bool { l.delst(unbyo(u)) }
pub open spec fn mhas(l: InternalLayer, q: u64, u: IdTriple) -> bool { l.hast(unbyo(u)) }
@@include stack.inc
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions_by_object
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), r.open_end(), forall|u: IdTriple| #[trigger] r@.contains(u) <==> self.addst(unbyo(u)),
@at start
proof { index_listed(self.psub(), self.pobj(), self.pops(), self.psp(), self.pspo()); }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals_by_object
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), r.open_end(), forall|u: IdTriple| #[trigger] r@.contains(u) <==> self.delst(unbyo(u)),
@at start
proof { if self.nsp().is_some() { index_listed(self.nsub(), self.nobj(), self.nops().unwrap(), self.nsp().unwrap(), self.nspo().unwrap()); } }
@@end
}
pub open spec fn open_ended(v: Seq<OptInternalLayerTripleObjectIterator>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).open_end() }
pub broadcast proof fn sought_of(i: OptInternalLayerTripleObjectIterator, object: u64)
    requires i.wf(), #[trigger] i.at_object(object)
    ensures forall|u: IdTriple| #[trigger] i.with_stop(true)@.contains(u) && u.subject == object <==> i.all().contains(u) && u.subject == object,
        forall|u: IdTriple| #[trigger] i.with_stop(true)@.contains(u) ==> u.subject >= object, i.with_stop(true).wf(),
        forall|u: IdTriple| #[trigger] i@.contains(u) && u.subject == object <==> i.all().contains(u) && u.subject == object,
        forall|u: IdTriple| #[trigger] i@.contains(u) ==> u.subject >= object,
{ i.sought(object); let j = i.with_stop(true); match j.0 { Some(x) => { assert(forall|k: int| x.object_of(k) == i.0.unwrap().object_of(k)); }, None => {} } j.sought(object); }
// what min_by_key(|(_, elt)| elt.unwrap()) compares
pub fn __key(x: (u64, u64, u64)) -> (r: (u64, u64, u64)) ensures r == x { x }
pub open spec fn kt(k: (u64, u64, u64)) -> IdTriple { tr(k.0, k.1, k.2) }
pub fn __key_lt(a: &(u64, u64, u64), b: &(u64, u64, u64)) -> (r: bool) ensures r == tlt(kt(*a), kt(*b)) { a.0 < b.0 || (a.0 == b.0 && (a.1 < b.1 || (a.1 == b.1 && a.2 < b.2))) }

/// state of the search for the first iterator with the least head
pub open spec fn min_so_far(p: Seq<Seq<IdTriple>>, i: int, best: Option<(u64, u64, u64)>, acc: Option<usize>) -> bool {
    match (best, acc) {
        (None, None) => forall|k: int| 0 <= k < i ==> (#[trigger] p[k]).len() == 0,
        (Some(bk), Some(a)) => { let b = kt(bk); a < i && p[a as int].len() > 0 && p[a as int][0] == b && (forall|k: int| 0 <= k < i && (#[trigger] p[k]).len() > 0 ==> !tlt(p[k][0], b)) && (forall|k: int| 0 <= k < a && (#[trigger] p[k]).len() > 0 ==> p[k][0] != b) },
        _ => false,
    }
}
@@item layer/internal/object_iterator.rs :: struct InternalTripleObjectIterator
@flag pub
@@end
impl InternalTripleObjectIterator {
    pub open spec fn p(&self) -> Seq<Seq<IdTriple>> { vw(self.positives@) }
    pub open spec fn n(&self) -> Seq<Seq<IdTriple>> { vw(self.negatives@) }
    pub open spec fn wf(&self) -> bool { all_wf(self.positives@) && all_wf(self.negatives@) && open_ended(self.positives@) && open_ended(self.negatives@) && self.positives@.len() == self.negatives@.len() && layered(self.p(), self.n()) }
    /// the triples still to come
    pub open spec fn present(&self, u: IdTriple) -> bool { first(self.p(), self.n(), 0, u) }
@@fn layer/internal/object_iterator.rs :: impl Iterator for InternalTripleObjectIterator :: next
@ret r
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            None => forall|u: IdTriple| !#[trigger] old(self).present(u),
            Some(t) => old(self).present(byo(t)) && (forall|u: IdTriple| #[trigger] old(self).present(u) ==> !tlt(u, byo(t))) && (forall|u: IdTriple| #[trigger] final(self).present(u) <==> old(self).present(u) && u != byo(t)),
        },
@loopattr 0 #[verifier::loop_isolation(false)]
@loop 0
invariant
    self.wf(), forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) == old(self).present(u),
decreases total(self.p())
@at loopstart 0
let ghost p0 = self.p();
let ghost n0 = self.n();
let ghost __tot = total(p0);
let ghost __neg0 = self.negatives@;
proof { wf_strict(self.positives@); wf_strict(self.negatives@); }
@loop c0
invariant
    all_wf(self.positives@), open_ended(self.positives@), self.positives@.len() == p0.len(), forall|k: int| 0 <= k < p0.len() ==> (#[trigger] self.positives@[k])@ == p0[k], self.negatives@ == __neg0,
    __c0_i == __c0_n, 0 <= __c0_i <= p0.len(),
    min_so_far(p0, __c0_i as int, __c0_best, __c0_acc),
decreases p0.len() - __c0_i
@at let lowest_index
proof { assert(self.p() =~= p0); assert(self.n() == n0);
  match lowest_index {
    None => { assert forall|u: IdTriple| !#[trigger] first(p0, n0, 0, u) by { if first(p0, n0, 0, u) { first_has(p0, n0, 0, u); } } assert forall|u: IdTriple| !#[trigger] old(self).present(u) by { assert(old(self).present(u) == first(p0, n0, 0, u)); } },
    Some(a) => { let t = p0[a as int][0]; heads_least(p0, t); removals_least(p0, n0, t);
        assert forall|k: int| 0 <= k < a implies !#[trigger] inl(p0, k, t) by { if inl(p0, k, t) { assert(p0[k].len() > 0 && p0[k][0] == t); } }
    },
  } }
@at let lowest
let ghost p1 = self.p();
proof { assert(p1 =~= popped(p0, lowest_index as int)); assert(self.n() == n0); total_popped(p0, lowest_index as int); }
@loopattr 1 #[verifier::loop_isolation(false)]
@loop 1
invariant
    __f1 <= lowest_index < p0.len(), self.negatives@.len() == n0.len(), forall|k: int| 0 <= k < n0.len() ==> (#[trigger] self.negatives@[k])@ == n0[k], layered(p0, n0), all_strict(p0), all_strict(n0), all_wf(self.negatives@), all_wf(self.positives@), open_ended(self.negatives@), open_ended(self.positives@), self.p() == p1, p1 == popped(p0, lowest_index as int), total(p1) + 1 == total(p0), total(p0) == __tot,
    forall|u: IdTriple| #[trigger] first(p0, n0, 0, u) == old(self).present(u), least(p0, byo(lowest)), forall|k: int| 0 <= k < lowest_index ==> !#[trigger] inl(p0, k, byo(lowest)),
    forall|k: int| #[trigger] inl(n0, k, byo(lowest)) ==> n0[k].len() > 0 && n0[k][0] == byo(lowest),
    p0[lowest_index as int].len() > 0, byo(lowest) == p0[lowest_index as int][0],
    forall|k: int| 0 <= k < __f1 ==> !#[trigger] inl(n0, k, byo(lowest)),
    p0.len() == n0.len(),
decreases lowest_index - __f1
@at looppre 1
let ghost __j = __f1 as int;
proof { assert(self.negatives@[__j]@ == n0[__j] && self.negatives@[__j].wf()); }
@at call next
proof { assert(iter@ == n0[__j]); assert(iter@.len() > 0); assert(iter@[0] == byo(lowest)); }
@at continue
proof { assert(self.n() =~= popped(n0, __j)); pop_pair(p0, n0, __j, lowest_index as int); }
@at return
proof { assert(self.n() =~= n0); pop_addition(p0, n0, lowest_index as int);
    assert(old(self).present(byo(lowest)));
    assert forall|u: IdTriple| #[trigger] old(self).present(u) implies !tlt(u, byo(lowest)) by { assert(first(p0, n0, 0, u)); }
    assert forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) <==> old(self).present(u) && u != byo(lowest) by { assert(first(popped(p0, lowest_index as int), n0, 0, u) <==> first(p0, n0, 0, u) && u != byo(lowest)); }
    assert forall|u: IdTriple| #[trigger] self.present(u) <==> old(self).present(u) && u != byo(lowest) by { assert(first(self.p(), self.n(), 0, u) == self.present(u)); }
}
@@end
    pub open spec fn allp(&self) -> Seq<Seq<IdTriple>> { all_of(self.positives@) }
    pub open spec fn alln(&self) -> Seq<Seq<IdTriple>> { all_of(self.negatives@) }
    pub open spec fn all_layered(&self) -> bool { layered(self.allp(), self.alln()) }
    pub open spec fn everything(&self, t: IdTriple) -> bool { first(self.allp(), self.alln(), 0, t) }
@@fn layer/internal/object_iterator.rs :: impl InternalTripleObjectIterator :: seek_object
@ret r
@props A01 A02
@spec
    requires self.wf(), self.all_layered(),
    ensures r.wf(), r.allp() == self.allp(), r.alln() == self.alln(), forall|u: IdTriple| #[trigger] r.present(u) <==> self.everything(u) && u.subject >= object,
@loop 0
invariant
    __self.negatives@ == self.negatives@, all_wf(__self.positives@), open_ended(__self.positives@), open_ended(__self.negatives@), __self.positives@.len() == self.positives@.len(), __f0 <= self.positives@.len(),
    forall|k: int| 0 <= k < self.positives@.len() ==> (#[trigger] __self.positives@[k]).all() == self.positives@[k].all(),
    forall|k: int| 0 <= k < __f0 ==> (#[trigger] __self.positives@[k]).at_object(object),
decreases self.positives@.len() - __f0
@loop 1
invariant
    __self.positives@ == __p1, all_wf(__self.negatives@), open_ended(__self.positives@), open_ended(__self.negatives@), __self.negatives@.len() == self.negatives@.len(), __f1 <= self.negatives@.len(),
    forall|k: int| 0 <= k < self.negatives@.len() ==> (#[trigger] __self.negatives@[k]).all() == self.negatives@[k].all(),
    forall|k: int| 0 <= k < __f1 ==> (#[trigger] __self.negatives@[k]).at_object(object),
decreases self.negatives@.len() - __f1
@at beforeloop 1
let ghost __p1 = __self.positives@;
@at tail
proof {
    assert(__self.allp() =~= self.allp()); assert(__self.alln() =~= self.alln());
    sought_stack(__self, object);
}
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalTripleObjectIterator :: from_layer
@ret r
@props A01 A02
@spec
    requires layer.triples_wf(), layer.changes_wf(), layer.height() < i64::MAX,
    ensures r.wf(), r.all_layered(), forall|t: IdTriple| #[trigger] r.present(t) == layer.hast(unbyo(t)), forall|t: IdTriple| #[trigger] r.everything(t) == layer.hast(unbyo(t)),
@at let layer_opt
proof { layer.anc_next(0); stack_push(*layer, 0, Seq::empty(), Seq::empty(), positives@, negatives@); }
@loop 0
invariant
    layer.triples_wf(), open_ended(positives@), open_ended(negatives@), stacked(*layer, 0, positives@, negatives@), positives@.len() > 0, layer.anc(positives@.len()) == own(layer_opt),
decreases (match layer_opt { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
let ghost (p0, n0) = (positives@, negatives@);
proof { layer.anc_next(p0.len()); layer.anc_wf(p0.len()); }
@at loopend 0
proof { stack_push(*layer, 0, p0, n0, positives@, negatives@); }
@at tail
proof { stack_first(*layer, 0, positives@, negatives@); }
@@end
}
pub proof fn sought_stack(it: InternalTripleObjectIterator, o: u64)
    requires all_wf(it.positives@), all_wf(it.negatives@), it.all_layered(), it.positives@.len() == it.negatives@.len(), open_ended(it.positives@), open_ended(it.negatives@),
        forall|k: int| 0 <= k < it.positives@.len() ==> (#[trigger] it.positives@[k]).at_object(o),
        forall|k: int| 0 <= k < it.negatives@.len() ==> (#[trigger] it.negatives@[k]).at_object(o),
    ensures it.wf(), forall|t: IdTriple| #[trigger] it.present(t) <==> it.everything(t) && t.subject >= o
{
    reveal(layered);
    let (pp, nn, ap, an) = (it.p(), it.n(), it.allp(), it.alln());
    assert forall|k: int, t: IdTriple| #[trigger] inl(pp, k, t) <==> inl(ap, k, t) && t.subject >= o by { if 0 <= k < pp.len() { assert(it.positives@[k].at_object(o)); it.positives@[k].sought(o); } }
    assert forall|k: int, t: IdTriple| #[trigger] inl(nn, k, t) <==> inl(an, k, t) && t.subject >= o by { if 0 <= k < nn.len() { assert(it.negatives@[k].at_object(o)); it.negatives@[k].sought(o); } }
    assert forall|k: int, t: IdTriple| #[trigger] first(pp, nn, k, t) <==> first(ap, an, k, t) && t.subject >= o by {
        if t.subject >= o {
            assert forall|m: int| k <= m implies inl(pp, m, t) == #[trigger] inl(ap, m, t) by { assert(inl(pp, m, t) <==> inl(ap, m, t)); }
            assert forall|m: int| k <= m implies inl(nn, m, t) == #[trigger] inl(an, m, t) by { assert(inl(nn, m, t) <==> inl(an, m, t)); }
            first_same(pp, nn, ap, an, k, t);
        } else if first(pp, nn, k, t) { first_has(pp, nn, k, t); }
    }
    assert forall|k: int, t: IdTriple| #[trigger] inl(pp, k, t) implies !inl(nn, k, t) && !first(pp, nn, k + 1, t) by { assert(inl(ap, k, t)); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(nn, k, t) implies first(pp, nn, k + 1, t) by { assert(inl(an, k, t)); }
    assert(layered(pp, nn));
}
// ---------------------------------------------------------------------------------
// the lists handed out: a lazily filtered iterator as the triples it yields, in order
// ---------------------------------------------------------------------------------
#[verifier::external_body] pub struct Stream { _x: () }
impl Stream { pub uninterp spec fn yields(&self, t: IdTriple) -> bool; }
pub trait Source { spec fn ready(&self) -> bool; spec fn src(&self, t: IdTriple) -> bool; spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool; }
impl Source for Stream { open spec fn ready(&self) -> bool { true } open spec fn src(&self, t: IdTriple) -> bool { self.yields(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { false } }
impl Source for InternalTripleObjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self.present(byo(t)) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(byo(a), byo(b)) } }
impl Source for OptInternalLayerTripleObjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(byo(t)) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(byo(a), byo(b)) } }
/// std's TakeWhile: what comes before the first element that fails the condition
#[verifier::external_body] pub fn __take_while<S: Source>(s: S, f: Ghost<spec_fn(IdTriple) -> bool>) -> (r: Stream)
    requires s.ready()
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) && f@(t) && (forall|u: IdTriple| #[trigger] s.src(u) && s.earlier(u, t) ==> f@(u))
{ unimplemented!() }
#[verifier::external_body] pub fn __boxed<S: Source>(s: S) -> (r: Stream) requires s.ready() ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) { unimplemented!() }
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions_o
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(),
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.addst(t) && t.object == object,
@at start
proof { broadcast use sought_of; }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals_o
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(),
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.delst(t) && t.object == object,
@at start
proof { broadcast use sought_of; }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triples_o
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A02
@spec
    requires self.triples_wf(), self.changes_wf(), self.height() < i64::MAX,
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.hast(t) && t.object == object,
@@end
}
fn main() {}
} // verus!
