#![feature(allocator_api)]
// Enumeration in subject order: one layer, the merged stack, the net change over a stack.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
@@include iter.inc
@@include opt.inc
pub type MergeItem = OptInternalLayerTripleSubjectIterator;
@@include merge.inc
// what min_by_key(|(_, elt)| elt.unwrap()) compares
pub fn __key(x: &IdTriple) -> (r: IdTriple) ensures r == *x { *x }
pub fn __key_lt(a: &IdTriple, b: &IdTriple) -> (r: bool) ensures r == tlt(*a, *b) { a < b }

/// state of the search for the first iterator with the least head
pub open spec fn min_so_far(p: Seq<Seq<IdTriple>>, i: int, best: Option<IdTriple>, acc: Option<usize>) -> bool {
    match (best, acc) {
        (None, None) => forall|k: int| 0 <= k < i ==> (#[trigger] p[k]).len() == 0,
        (Some(b), Some(a)) => a < i && p[a as int].len() > 0 && p[a as int][0] == b && (forall|k: int| 0 <= k < i && (#[trigger] p[k]).len() > 0 ==> !tlt(p[k][0], b)) && (forall|k: int| 0 <= k < a && (#[trigger] p[k]).len() > 0 ==> p[k][0] != b),
        _ => false,
    }
}
@@item layer/internal/subject_iterator.rs :: struct InternalTripleSubjectIterator
@flag pub
@@end
impl InternalTripleSubjectIterator {
    pub open spec fn p(&self) -> Seq<Seq<IdTriple>> { vw(self.positives@) }
    pub open spec fn n(&self) -> Seq<Seq<IdTriple>> { vw(self.negatives@) }
    pub open spec fn wf(&self) -> bool { all_wf(self.positives@) && all_wf(self.negatives@) && self.positives@.len() == self.negatives@.len() && layered(self.p(), self.n()) }
    /// the triples still to come
    pub open spec fn present(&self, t: IdTriple) -> bool { first(self.p(), self.n(), 0, t) }
@@fn layer/internal/subject_iterator.rs :: impl Iterator for InternalTripleSubjectIterator :: next
@ret r
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            None => forall|u: IdTriple| !#[trigger] old(self).present(u),
            Some(t) => old(self).present(t) && (forall|u: IdTriple| #[trigger] old(self).present(u) ==> !tlt(u, t)) && (forall|u: IdTriple| #[trigger] final(self).present(u) <==> old(self).present(u) && u != t),
        },
@loopattr 0 #[verifier::loop_isolation(false)]
@loop 0
invariant
    self.wf(), forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) == old(self).present(u),
decreases total(self.p())
@at loopstart 0
let ghost p0 = self.p();
let ghost n0 = self.n();
let ghost __tot = total(p0);
let ghost __neg0 = self.negatives@;
proof { wf_strict(self.positives@); wf_strict(self.negatives@); }
@loop c0
invariant
    all_wf(self.positives@), self.positives@.len() == p0.len(), forall|k: int| 0 <= k < p0.len() ==> (#[trigger] self.positives@[k])@ == p0[k], self.negatives@ == __neg0,
    __c0_i == __c0_n, 0 <= __c0_i <= p0.len(),
    min_so_far(p0, __c0_i as int, __c0_best, __c0_acc),
decreases p0.len() - __c0_i
@at let lowest_index
proof { assert(self.p() =~= p0); assert(self.n() == n0);
  match lowest_index {
    None => { assert forall|u: IdTriple| !#[trigger] first(p0, n0, 0, u) by { if first(p0, n0, 0, u) { first_has(p0, n0, 0, u); } } assert forall|u: IdTriple| !#[trigger] old(self).present(u) by { assert(old(self).present(u) == first(p0, n0, 0, u)); } },
    Some(a) => { let t = p0[a as int][0]; heads_least(p0, t); removals_least(p0, n0, t);
        assert forall|k: int| 0 <= k < a implies !#[trigger] inl(p0, k, t) by { if inl(p0, k, t) { assert(p0[k].len() > 0 && p0[k][0] == t); } }
    },
  } }
@at let lowest
let ghost p1 = self.p();
proof { assert(p1 =~= popped(p0, lowest_index as int)); assert(self.n() == n0); total_popped(p0, lowest_index as int); }
@loopattr 1 #[verifier::loop_isolation(false)]
@loop 1
invariant
    __f1 <= lowest_index < p0.len(), self.negatives@.len() == n0.len(), forall|k: int| 0 <= k < n0.len() ==> (#[trigger] self.negatives@[k])@ == n0[k], layered(p0, n0), all_strict(p0), all_strict(n0), all_wf(self.negatives@), all_wf(self.positives@), self.p() == p1, p1 == popped(p0, lowest_index as int), total(p1) + 1 == total(p0), total(p0) == __tot,
    forall|u: IdTriple| #[trigger] first(p0, n0, 0, u) == old(self).present(u), least(p0, lowest), forall|k: int| 0 <= k < lowest_index ==> !#[trigger] inl(p0, k, lowest),
    forall|k: int| #[trigger] inl(n0, k, lowest) ==> n0[k].len() > 0 && n0[k][0] == lowest,
    p0[lowest_index as int].len() > 0, lowest == p0[lowest_index as int][0],
    forall|k: int| 0 <= k < __f1 ==> !#[trigger] inl(n0, k, lowest),
    p0.len() == n0.len(),
decreases lowest_index - __f1
@at looppre 1
let ghost __j = __f1 as int;
proof { assert(self.negatives@[__j]@ == n0[__j] && self.negatives@[__j].wf()); }
@at call next
proof { assert(iter@ == n0[__j]); assert(iter@.len() > 0); assert(iter@[0] == lowest); }
@at continue
proof { assert(self.n() =~= popped(n0, __j)); pop_pair(p0, n0, __j, lowest_index as int); }
@at return
proof { assert(self.n() =~= n0); pop_addition(p0, n0, lowest_index as int);
    assert(old(self).present(lowest));
    assert forall|u: IdTriple| #[trigger] old(self).present(u) implies !tlt(u, lowest) by { assert(first(p0, n0, 0, u)); }
    assert forall|u: IdTriple| #[trigger] first(self.p(), self.n(), 0, u) <==> old(self).present(u) && u != lowest by { assert(first(popped(p0, lowest_index as int), n0, 0, u) <==> first(p0, n0, 0, u) && u != lowest); }
    assert forall|u: IdTriple| #[trigger] self.present(u) <==> old(self).present(u) && u != lowest by { assert(first(self.p(), self.n(), 0, u) == self.present(u)); }
}
@@end
    pub open spec fn allp(&self) -> Seq<Seq<IdTriple>> { all_of(self.positives@) }
    pub open spec fn alln(&self) -> Seq<Seq<IdTriple>> { all_of(self.negatives@) }
    pub open spec fn all_layered(&self) -> bool { layered(self.allp(), self.alln()) }
    pub open spec fn everything(&self, t: IdTriple) -> bool { first(self.allp(), self.alln(), 0, t) }
@@fn layer/internal/subject_iterator.rs :: impl InternalTripleSubjectIterator :: seek_subject
@ret r
@props A01 A02
@spec
    requires self.wf(), self.all_layered(),
    ensures r.wf(), r.allp() == self.allp(), r.alln() == self.alln(), forall|t: IdTriple| #[trigger] r.present(t) <==> self.everything(t) && key_ge(t, subject, 0),
@loop 0
invariant
    __self.negatives@ == self.negatives@, all_wf(__self.positives@), __self.positives@.len() == self.positives@.len(), __f0 <= self.positives@.len(),
    forall|k: int| 0 <= k < self.positives@.len() ==> (#[trigger] __self.positives@[k]).all() == self.positives@[k].all(),
    forall|k: int| 0 <= k < __f0 ==> (#[trigger] __self.positives@[k]).sought(subject, 0),
decreases self.positives@.len() - __f0
@loop 1
invariant
    __self.positives@ == __p1, all_wf(__self.negatives@), __self.negatives@.len() == self.negatives@.len(), __f1 <= self.negatives@.len(),
    forall|k: int| 0 <= k < self.negatives@.len() ==> (#[trigger] __self.negatives@[k]).all() == self.negatives@[k].all(),
    forall|k: int| 0 <= k < __f1 ==> (#[trigger] __self.negatives@[k]).sought(subject, 0),
decreases self.negatives@.len() - __f1
@at beforeloop 1
let ghost __p1 = __self.positives@;
@at tail
proof {
    assert(__self.allp() =~= self.allp()); assert(__self.alln() =~= self.alln());
    sought_stack(__self, subject, 0);
}
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalTripleSubjectIterator :: seek_subject_predicate
@ret r
@props A01 A02
@spec
    requires self.wf(), self.all_layered(),
    ensures r.wf(), r.allp() == self.allp(), r.alln() == self.alln(), forall|t: IdTriple| #[trigger] r.present(t) <==> self.everything(t) && key_ge(t, subject, predicate),
@loop 0
invariant
    __self.negatives@ == self.negatives@, all_wf(__self.positives@), __self.positives@.len() == self.positives@.len(), __f0 <= self.positives@.len(),
    forall|k: int| 0 <= k < self.positives@.len() ==> (#[trigger] __self.positives@[k]).all() == self.positives@[k].all(),
    forall|k: int| 0 <= k < __f0 ==> (#[trigger] __self.positives@[k]).sought(subject, predicate),
decreases self.positives@.len() - __f0
@loop 1
invariant
    __self.positives@ == __p1, all_wf(__self.negatives@), __self.negatives@.len() == self.negatives@.len(), __f1 <= self.negatives@.len(),
    forall|k: int| 0 <= k < self.negatives@.len() ==> (#[trigger] __self.negatives@[k]).all() == self.negatives@[k].all(),
    forall|k: int| 0 <= k < __f1 ==> (#[trigger] __self.negatives@[k]).sought(subject, predicate),
decreases self.negatives@.len() - __f1
@at beforeloop 1
let ghost __p1 = __self.positives@;
@at tail
proof {
    assert(__self.allp() =~= self.allp()); assert(__self.alln() =~= self.alln());
    sought_stack(__self, subject, predicate);
}
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalTripleSubjectIterator :: from_layer
@ret r
@props A01 A02
@spec
    requires layer.triples_wf(), layer.changes_wf(), layer.height() < i64::MAX,
    ensures r.wf(), r.all_layered(), forall|t: IdTriple| #[trigger] r.present(t) == layer.hast(t), forall|t: IdTriple| #[trigger] r.everything(t) == layer.hast(t),
@at let layer_opt
proof { layer.anc_next(0); stack_push(*layer, Seq::empty(), Seq::empty(), positives@, negatives@); }
@loop 0
invariant
    layer.triples_wf(), stacked(*layer, positives@, negatives@), positives@.len() > 0, layer.anc(positives@.len()) == own(layer_opt),
decreases (match layer_opt { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
let ghost (p0, n0) = (positives@, negatives@);
proof { layer.anc_next(p0.len()); layer.anc_wf(p0.len()); }
@at loopend 0
proof { stack_push(*layer, p0, n0, positives@, negatives@); }
@at tail
proof { stack_first(*layer, positives@, negatives@); }
@@end
}
pub open spec fn key_ge(t: IdTriple, s: u64, p: u64) -> bool { t.subject > s || (t.subject == s && t.predicate >= p) }
pub proof fn sought_stack(it: InternalTripleSubjectIterator, s: u64, p: u64)
    requires all_wf(it.positives@), all_wf(it.negatives@), it.all_layered(), it.positives@.len() == it.negatives@.len(),
        forall|k: int| 0 <= k < it.positives@.len() ==> (#[trigger] it.positives@[k]).sought(s, p),
        forall|k: int| 0 <= k < it.negatives@.len() ==> (#[trigger] it.negatives@[k]).sought(s, p),
    ensures it.wf(), forall|t: IdTriple| #[trigger] it.present(t) <==> it.everything(t) && key_ge(t, s, p)
{
    reveal(layered);
    let (pp, nn, ap, an) = (it.p(), it.n(), it.allp(), it.alln());
    assert forall|k: int, t: IdTriple| #[trigger] inl(pp, k, t) <==> inl(ap, k, t) && key_ge(t, s, p) by { if 0 <= k < pp.len() { assert(it.positives@[k].sought(s, p)); } }
    assert forall|k: int, t: IdTriple| #[trigger] inl(nn, k, t) <==> inl(an, k, t) && key_ge(t, s, p) by { if 0 <= k < nn.len() { assert(it.negatives@[k].sought(s, p)); } }
    assert forall|k: int, t: IdTriple| #[trigger] first(pp, nn, k, t) <==> first(ap, an, k, t) && key_ge(t, s, p) by {
        if key_ge(t, s, p) {
            assert forall|m: int| k <= m implies inl(pp, m, t) == #[trigger] inl(ap, m, t) by { assert(inl(pp, m, t) <==> inl(ap, m, t)); }
            assert forall|m: int| k <= m implies inl(nn, m, t) == #[trigger] inl(an, m, t) by { assert(inl(nn, m, t) <==> inl(an, m, t)); }
            first_same(pp, nn, ap, an, k, t);
        } else if first(pp, nn, k, t) { first_has(pp, nn, k, t); }
    }
    assert forall|k: int, t: IdTriple| #[trigger] inl(pp, k, t) implies !inl(nn, k, t) && !first(pp, nn, k + 1, t) by { assert(inl(ap, k, t)); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(nn, k, t) implies first(pp, nn, k + 1, t) by { assert(inl(an, k, t)); }
    assert(layered(pp, nn));
}
impl InternalLayer {
    pub open spec fn hast(&self, t: IdTriple) -> bool { self.has(t.subject, t.predicate, t.object) }
    pub open spec fn addst(&self, t: IdTriple) -> bool { self.adds(t.subject, t.predicate, t.object) }
    pub open spec fn delst(&self, t: IdTriple) -> bool { self.dels(t.subject, t.predicate, t.object) }
    /// every recorded addition is of an absent triple, every recorded removal of a present one
    pub open spec fn changes_wf(&self) -> bool decreases self.height() {
        &&& forall|t: IdTriple| #[trigger] self.addst(t) ==> !self.delst(t) && match self.up() { Some(u) => !u.hast(t), None => true }
        &&& forall|t: IdTriple| #[trigger] self.delst(t) ==> match self.up() { Some(u) => u.hast(t), None => false }
        &&& match self.up() { Some(u) => u.changes_wf(), None => true }
    }
    /// the k-th ancestor
    pub open spec fn anc(&self, k: nat) -> Option<InternalLayer> decreases k {
        if k == 0 { Some(*self) } else { match self.anc((k - 1) as nat) { Some(l) => l.up(), None => None } }
    }
    pub proof fn anc_next(&self, k: nat) ensures self.anc(k + 1) == (match self.anc(k) { Some(l) => l.up(), None => None }) { }
    pub proof fn anc_wf(&self, k: nat)
        ensures match self.anc(k) { Some(l) => (self.triples_wf() ==> l.triples_wf()) && (self.changes_wf() ==> l.changes_wf()) && l.height() + k == self.height(), None => k > self.height() }
        decreases k
    { if k > 0 { self.anc_wf((k - 1) as nat); } }
@@fn layer/internal/mod.rs :: impl InternalLayer :: layer_stack_size
@ret r
@props A12
@spec
    requires self.height() < i64::MAX,
    ensures r == self.height() + 1,
@loop 0
invariant count + l.height() == self.height() + 1, self.height() < i64::MAX,
ensures count == self.height() + 1,
decreases l.height()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), forall|t: IdTriple| #[trigger] r@.contains(t) <==> self.addst(t),
@at start
proof { rest_is_index(self.psub(), self.psp(), self.pspo()); }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals
@ret r
@props A01 A02 A04
@spec
    requires self.triples_wf(),
    ensures r.wf(), r@ == r.all(), forall|t: IdTriple| #[trigger] r@.contains(t) <==> self.delst(t),
@at start
proof { if self.nsp().is_some() { rest_is_index(self.nsub(), self.nsp().unwrap(), self.nspo().unwrap()); } }
@@end
}
/// p and n hold the additions and removals of the layer and its nearest ancestors
pub open spec fn stacked(l: InternalLayer, p: Seq<OptInternalLayerTripleSubjectIterator>, n: Seq<OptInternalLayerTripleSubjectIterator>) -> bool {
    &&& all_wf(p) && all_wf(n) && p.len() == n.len()
    &&& vw(p) == all_of(p) && vw(n) == all_of(n)
    &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] l.anc(k as nat)).is_some()
    &&& forall|k: int, t: IdTriple| #[trigger] inl(vw(p), k, t) <==> 0 <= k < p.len() && l.anc(k as nat).unwrap().addst(t)
    &&& forall|k: int, t: IdTriple| #[trigger] inl(vw(n), k, t) <==> 0 <= k < n.len() && l.anc(k as nat).unwrap().delst(t)
}
pub proof fn stack_push(l: InternalLayer, p: Seq<OptInternalLayerTripleSubjectIterator>, n: Seq<OptInternalLayerTripleSubjectIterator>, p2: Seq<OptInternalLayerTripleSubjectIterator>, n2: Seq<OptInternalLayerTripleSubjectIterator>)
    requires (p.len() == 0 && n.len() == 0) || stacked(l, p, n), p2.len() == p.len() + 1, n2.len() == n.len() + 1, p2 =~= p.push(p2.last()), n2 =~= n.push(n2.last()),
        p2.last().wf(), n2.last().wf(), p2.last()@ == p2.last().all(), n2.last()@ == n2.last().all(), l.anc(p.len()).is_some(),
        forall|t: IdTriple| #[trigger] p2.last()@.contains(t) <==> l.anc(p.len()).unwrap().addst(t),
        forall|t: IdTriple| #[trigger] n2.last()@.contains(t) <==> l.anc(p.len()).unwrap().delst(t),
    ensures stacked(l, p2, n2)
{
    let m = p.len() as int;
    assert forall|k: int| 0 <= k < p2.len() implies (#[trigger] p2[k]).wf() && p2[k]@ == p2[k].all() by { if k < m { assert(p2[k] == p[k]); assert(vw(p)[k] == all_of(p)[k]); } }
    assert forall|k: int| 0 <= k < n2.len() implies (#[trigger] n2[k]).wf() && n2[k]@ == n2[k].all() by { if k < m { assert(n2[k] == n[k]); assert(vw(n)[k] == all_of(n)[k]); } }
    assert(vw(p2) =~= all_of(p2)); assert(vw(n2) =~= all_of(n2));
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(p2), k, t) <==> 0 <= k < p2.len() && l.anc(k as nat).unwrap().addst(t) by { if 0 <= k < m { assert(inl(vw(p), k, t) == inl(vw(p2), k, t)); } else if k == m { assert(p2.last()@.contains(t) == inl(vw(p2), k, t)); } }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(n2), k, t) <==> 0 <= k < n2.len() && l.anc(k as nat).unwrap().delst(t) by { if 0 <= k < m { assert(inl(vw(n), k, t) == inl(vw(n2), k, t)); } else if k == m { assert(n2.last()@.contains(t) == inl(vw(n2), k, t)); } }
}
pub proof fn stack_first_at(l: InternalLayer, p: Seq<OptInternalLayerTripleSubjectIterator>, n: Seq<OptInternalLayerTripleSubjectIterator>, k: nat, t: IdTriple)
    requires stacked(l, p, n), l.anc(p.len()).is_none(), k <= p.len()
    ensures first(vw(p), vw(n), k as int, t) == (match l.anc(k) { Some(a) => a.hast(t), None => false })
    decreases p.len() - k
{
    if k < p.len() {
        stack_first_at(l, p, n, k + 1, t);
        l.anc_next(k);
        assert(l.anc(k).is_some());
        assert(inl(vw(p), k as int, t) == l.anc(k).unwrap().addst(t)); assert(inl(vw(n), k as int, t) == l.anc(k).unwrap().delst(t));
    }
}
pub proof fn stack_first(l: InternalLayer, p: Seq<OptInternalLayerTripleSubjectIterator>, n: Seq<OptInternalLayerTripleSubjectIterator>)
    requires stacked(l, p, n), l.anc(p.len()).is_none(), l.triples_wf(), l.changes_wf(), p.len() > 0,
    ensures layered(vw(p), vw(n)), forall|t: IdTriple| #[trigger] first(vw(p), vw(n), 0, t) == l.hast(t)
{
    reveal(layered);
    assert forall|t: IdTriple| #[trigger] first(vw(p), vw(n), 0, t) == l.hast(t) by { stack_first_at(l, p, n, 0, t); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(p), k, t) implies !inl(vw(n), k, t) && !first(vw(p), vw(n), k + 1, t) by { stack_first_at(l, p, n, (k + 1) as nat, t); l.anc_next(k as nat); l.anc_wf(k as nat); }
    assert forall|k: int, t: IdTriple| #[trigger] inl(vw(n), k, t) implies first(vw(p), vw(n), k + 1, t) by { stack_first_at(l, p, n, (k + 1) as nat, t); l.anc_next(k as nat); l.anc_wf(k as nat); }
}

// ---------------------------------------------------------------------------------
// the net change over a stack
// ---------------------------------------------------------------------------------
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut std::vec::Vec<T, A>) ensures final(v)@ == old(v)@;
pub open spec fn bit(b: bool) -> int { if b { 1 } else { 0 } }
/// how many of the lists hold t
pub open spec fn cnt(p: Seq<Seq<IdTriple>>, t: IdTriple) -> int decreases p.len() { if p.len() == 0 { 0 } else { cnt(p.drop_last(), t) + bit(p.last().contains(t)) } }
pub proof fn cnt_popped(p: Seq<Seq<IdTriple>>, i: int, t: IdTriple)
    requires 0 <= i < p.len(), all_strict(p), p[i].len() > 0
    ensures cnt(popped(p, i), t) == cnt(p, t) - bit(t == p[i][0])
    decreases p.len()
{
    popped_members(p, i);
    let q = popped(p, i);
    assert(inl(q, p.len() - 1, t) <==> inl(p, p.len() - 1, t) && !(p.len() - 1 == i && t == p[i][0]));
    if i == p.len() - 1 { assert(q.drop_last() =~= p.drop_last()); assert(p[i].contains(p[i][0])); }
    else { assert(q.drop_last() =~= popped(p.drop_last(), i)); assert forall|k: int| 0 <= k < p.len() - 1 implies strict(#[trigger] p.drop_last()[k]) by { assert(strict(p[k])); } cnt_popped(p.drop_last(), i, t); }
}
pub proof fn cnt_has(p: Seq<Seq<IdTriple>>, t: IdTriple)
    ensures cnt(p, t) >= 0, cnt(p, t) > 0 <==> exists|k: int| #[trigger] inl(p, k, t)
    decreases p.len()
{
    if p.len() > 0 {
        cnt_has(p.drop_last(), t);
        if cnt(p, t) > 0 { if p.last().contains(t) { assert(inl(p, p.len() - 1, t)); } else { let k = choose|k: int| inl(p.drop_last(), k, t); assert(inl(p, k, t)); } }
        if exists|k: int| #[trigger] inl(p, k, t) { let k = choose|k: int| #[trigger] inl(p, k, t); if k < p.len() - 1 { assert(inl(p.drop_last(), k, t)); } }
    }
}
pub proof fn cnt_least(p: Seq<Seq<IdTriple>>, t: IdTriple)
    requires least(p, t)
    ensures forall|u: IdTriple| #[trigger] cnt(p, u) > 0 ==> !tlt(u, t)
{ assert forall|u: IdTriple| #[trigger] cnt(p, u) > 0 implies !tlt(u, t) by { cnt_has(p, u); let k = choose|k: int| inl(p, k, u); } }
pub proof fn cnt_pop_all(p: Seq<Seq<IdTriple>>, i: int)
    requires 0 <= i < p.len(), all_strict(p), p[i].len() > 0
    ensures forall|t: IdTriple| #[trigger] cnt(popped(p, i), t) == cnt(p, t) - bit(t == p[i][0]), all_strict(popped(p, i)), cnt(p, p[i][0]) > 0, total(popped(p, i)) + 1 == total(p)
{ assert forall|t: IdTriple| #[trigger] cnt(popped(p, i), t) == cnt(p, t) - bit(t == p[i][0]) by { cnt_popped(p, i, t); } popped_members(p, i); assert(p[i].contains(p[i][0])); assert(inl(p, i, p[i][0])); cnt_has(p, p[i][0]); total_popped(p, i); }
pub open spec fn netof(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, t: IdTriple) -> int { cnt(p, t) - cnt(n, t) }
pub proof fn net_pops(p: Seq<Seq<IdTriple>>, n: Seq<Seq<IdTriple>>, i: Option<usize>, j: Option<usize>)
    requires all_strict(p), all_strict(n), i matches Some(a) ==> a < p.len() && p[a as int].len() > 0, j matches Some(a) ==> a < n.len() && n[a as int].len() > 0,
    ensures
        i matches Some(a) ==> forall|t: IdTriple| #[trigger] netof(popped(p, a as int), n, t) == netof(p, n, t) - bit(t == p[a as int][0]),
        j matches Some(b) ==> forall|t: IdTriple| #[trigger] netof(p, popped(n, b as int), t) == netof(p, n, t) + bit(t == n[b as int][0]),
        i matches Some(a) ==> j matches Some(b) ==> forall|t: IdTriple| #[trigger] netof(popped(p, a as int), popped(n, b as int), t) == netof(p, n, t) - bit(t == p[a as int][0]) + bit(t == n[b as int][0]),
{
    if let Some(a) = i { cnt_pop_all(p, a as int); }
    if let Some(b) = j { cnt_pop_all(n, b as int); }
}
pub proof fn cnt_empty(p: Seq<Seq<IdTriple>>)
    requires forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).len() == 0
    ensures forall|t: IdTriple| #[trigger] cnt(p, t) == 0
{ assert forall|t: IdTriple| #[trigger] cnt(p, t) == 0 by { cnt_has(p, t); if cnt(p, t) > 0 { let k = choose|k: int| inl(p, k, t); assert(p[k].len() == 0); } } }
/// what the end of a search for the least head says
pub proof fn min_found(p: Seq<Seq<IdTriple>>, best: Option<IdTriple>, acc: Option<usize>)
    requires all_strict(p), min_so_far(p, p.len() as int, best, acc)
    ensures match acc { None => forall|t: IdTriple| #[trigger] cnt(p, t) == 0, Some(a) => a < p.len() && p[a as int].len() > 0 && best == Some(p[a as int][0]) && least(p, p[a as int][0]) && (forall|u: IdTriple| #[trigger] cnt(p, u) > 0 ==> !tlt(u, p[a as int][0])) }
{ match acc { None => { cnt_empty(p); }, Some(a) => { heads_least(p, p[a as int][0]); cnt_least(p, p[a as int][0]); } } }
@@item layer/internal/subject_iterator.rs :: struct InternalTripleStackIterator
@flag pub
@@end
@@item layer/internal/subject_iterator.rs :: enum TripleChange
@flag pub
@@end
@@item layer/internal/subject_iterator.rs :: enum LayerStackError
@flag pub
@@end
impl InternalTripleStackIterator {
    pub open spec fn p(&self) -> Seq<Seq<IdTriple>> { vw(self.positives@) }
    pub open spec fn n(&self) -> Seq<Seq<IdTriple>> { vw(self.negatives@) }
    pub open spec fn wf(&self) -> bool { all_wf(self.positives@) && all_wf(self.negatives@) }
    /// additions minus removals still to come
    pub open spec fn net(&self, t: IdTriple) -> int { netof(self.p(), self.n(), t) }
@@fn layer/internal/subject_iterator.rs :: impl InternalTripleStackIterator :: from_parts
@ret r
@props A11
@spec ensures r.positives == positives, r.negatives == negatives
@@end
@@fn layer/internal/subject_iterator.rs :: impl Iterator for InternalTripleStackIterator :: next
@ret r
@props A11 A09 A10
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r {
            None => forall|u: IdTriple| #[trigger] old(self).net(u) == 0,
            Some((c, t)) => {
                &&& (c is Addition ==> old(self).net(t) > 0 && final(self).net(t) == old(self).net(t) - 1)
                &&& (c is Removal ==> old(self).net(t) < 0 && final(self).net(t) == old(self).net(t) + 1)
                &&& forall|u: IdTriple| u != t ==> #[trigger] final(self).net(u) == old(self).net(u)
                &&& forall|u: IdTriple| #[trigger] old(self).net(u) != 0 ==> !tlt(u, t)
            },
        },
@loopattr 0 #[verifier::loop_isolation(false)]
@loop 0
invariant
    self.wf(), forall|u: IdTriple| #[trigger] netof(self.p(), self.n(), u) == old(self).net(u),
decreases total(self.p())
@at loopstart 0
let ghost p0 = self.p();
let ghost n0 = self.n();
let ghost __neg0 = self.negatives@;
proof { wf_strict(self.positives@); wf_strict(self.negatives@); }
@loop c0
invariant
    all_wf(self.positives@), self.positives@.len() == p0.len(), forall|k: int| 0 <= k < p0.len() ==> (#[trigger] self.positives@[k])@ == p0[k], self.negatives@ == __neg0,
    __c0_i == __c0_n, 0 <= __c0_i <= p0.len(), min_so_far(p0, __c0_i as int, __c0_best, __c0_acc),
ensures min_so_far(p0, p0.len() as int, __c0_best, __c0_acc),
decreases p0.len() - __c0_i
@at let lowest_pos_index
let ghost __pos1 = self.positives@;
proof { assert(self.p() =~= p0);
    match lowest_pos_index { None => { cnt_empty(p0); }, Some(a) => { heads_least(p0, p0[a as int][0]); cnt_least(p0, p0[a as int][0]); } } }
@loop c1
invariant
    all_wf(self.negatives@), self.negatives@.len() == n0.len(), forall|k: int| 0 <= k < n0.len() ==> (#[trigger] self.negatives@[k])@ == n0[k], self.positives@ == __pos1,
    __c1_i == __c1_n, 0 <= __c1_i <= n0.len(), min_so_far(n0, __c1_i as int, __c1_best, __c1_acc),
decreases n0.len() - __c1_i
@at let lowest_neg_index
let ghost (gp, gn) = (lowest_pos_index, lowest_neg_index);
proof { assert(self.n() =~= n0);
    match lowest_neg_index { None => { cnt_empty(n0); }, Some(a) => { heads_least(n0, n0[a as int][0]); cnt_least(n0, n0[a as int][0]); } }
    match lowest_pos_index { None => { }, Some(a) => { cnt_pop_all(p0, a as int); } }
    match lowest_neg_index { None => { }, Some(a) => { cnt_pop_all(n0, a as int); } }
    assert forall|u: IdTriple| true implies #[trigger] netof(p0, n0, u) <= cnt(p0, u) && netof(p0, n0, u) >= -cnt(n0, u) by { cnt_has(p0, u); cnt_has(n0, u); }
    net_pops(p0, n0, lowest_pos_index, lowest_neg_index);
    assert forall|u: IdTriple| true implies #[trigger] old(self).net(u) == netof(p0, n0, u) by { assert(netof(self.p(), self.n(), u) == old(self).net(u)); }
}
@at ret
proof {
    assert(self.p() =~= p0 || (gp.is_some() && self.p() =~= popped(p0, gp.unwrap() as int)));
    assert(self.n() =~= n0 || (gn.is_some() && self.n() =~= popped(n0, gn.unwrap() as int)));
}
@at continue
proof { assert(self.p() =~= popped(p0, lowest_pos_index as int)); assert(self.n() =~= popped(n0, lowest_neg_index as int)); }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalTripleStackIterator :: from_layer_stack
@ret r
@props A11
@spec
    requires layer.triples_wf(), layer.changes_wf(), layer.height() < i64::MAX,
    ensures match r {
        Ok(it) => it.wf() && exists|k: nat| (#[trigger] layer.anc(k)).is_some() && layer.anc(k).unwrap().lname() == parent_id && forall|t: IdTriple| #[trigger] it.net(t) == bit(layer.hast(t)) - bit(layer.anc(k).unwrap().hast(t)),
        Err(_) => forall|k: nat| (#[trigger] layer.anc(k)).is_some() ==> layer.anc(k).unwrap().lname() != parent_id,
    }
@at start
proof { assert(layer.anc(0) == Some(*layer)); }
@at return
proof { assert(vw(Seq::<OptInternalLayerTripleSubjectIterator>::empty()) =~= Seq::empty()); }
@at let layer_opt
proof { layer.anc_next(0); stack_push(*layer, Seq::empty(), Seq::empty(), positives@, negatives@); assert forall|k: nat| k < 1 implies (#[trigger] layer.anc(k)).unwrap().lname() != parent_id by { assert(k == 0); } }
@loop 0
invariant
    layer.triples_wf(), stacked(*layer, positives@, negatives@), positives@.len() > 0, layer.anc(positives@.len()) == own(layer_opt),
    forall|k: nat| k < positives@.len() ==> (#[trigger] layer.anc(k)).unwrap().lname() != parent_id,
decreases (match layer_opt { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
let ghost (p0, n0) = (positives@, negatives@);
proof { layer.anc_next(p0.len()); layer.anc_wf(p0.len()); }
@at loopend 0
proof { stack_push(*layer, p0, n0, positives@, negatives@); }
@at return#1
proof { assert forall|k: nat| (#[trigger] layer.anc(k)).is_some() implies layer.anc(k).unwrap().lname() != parent_id by {
    layer.anc_wf(k); layer.anc_wf(positives@.len()); 
    if k > positives@.len() { assert(layer_opt.is_some()); } } }
@at tail
proof { stack_net(*layer, positives@, negatives@, positives@.len()); assert(vw(positives@).take(positives@.len() as int) =~= vw(positives@)); assert(vw(negatives@).take(positives@.len() as int) =~= vw(negatives@)); assert(layer.anc(positives@.len()).is_some()); }
@@end
}
pub proof fn stack_net(l: InternalLayer, p: Seq<OptInternalLayerTripleSubjectIterator>, n: Seq<OptInternalLayerTripleSubjectIterator>, m: nat)
    requires stacked(l, p, n), l.triples_wf(), l.changes_wf(), m <= p.len(), l.anc(m).is_some()
    ensures forall|t: IdTriple| #[trigger] cnt(vw(p).take(m as int), t) - cnt(vw(n).take(m as int), t) == bit(l.hast(t)) - bit(l.anc(m).unwrap().hast(t))
    decreases m
{
    if m > 0 {
        let k = (m - 1) as nat;
        assert(l.anc(k).is_some());
        stack_net(l, p, n, k);
        l.anc_next(k); l.anc_wf(k);
        assert(vw(p).take(m as int).drop_last() =~= vw(p).take(k as int)); assert(vw(n).take(m as int).drop_last() =~= vw(n).take(k as int));
        let a = l.anc(k).unwrap();
        assert forall|t: IdTriple| #[trigger] cnt(vw(p).take(m as int), t) - cnt(vw(n).take(m as int), t) == bit(l.hast(t)) - bit(l.anc(m).unwrap().hast(t)) by {
            assert(inl(vw(p), k as int, t) == a.addst(t)); assert(inl(vw(n), k as int, t) == a.delst(t));
            assert(cnt(vw(p).take(k as int), t) - cnt(vw(n).take(k as int), t) == bit(l.hast(t)) - bit(a.hast(t)));
        }
    } else { assert(vw(p).take(0) =~= Seq::empty()); assert(vw(n).take(0) =~= Seq::empty()); }
}

// ---------------------------------------------------------------------------------
// the lists handed out: a lazily filtered iterator as the triples it yields, in order
// ---------------------------------------------------------------------------------
#[verifier::external_body] pub struct Stream { _x: () }
impl Stream { pub uninterp spec fn yields(&self, t: IdTriple) -> bool; }
pub trait Source { spec fn ready(&self) -> bool; spec fn src(&self, t: IdTriple) -> bool; spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool; }
impl Source for Stream { open spec fn ready(&self) -> bool { true } open spec fn src(&self, t: IdTriple) -> bool { self.yields(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { false } }
impl Source for InternalTripleSubjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self.present(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
impl Source for OptInternalLayerTripleSubjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
/// std's TakeWhile: what comes before the first element that fails the condition
#[verifier::external_body] pub fn __take_while<S: Source>(s: S, f: Ghost<spec_fn(IdTriple) -> bool>) -> (r: Stream)
    requires s.ready()
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) && f@(t) && (forall|u: IdTriple| #[trigger] s.src(u) && s.earlier(u, t) ==> f@(u))
{ unimplemented!() }
#[verifier::external_body] pub fn __boxed<S: Source>(s: S) -> (r: Stream) requires s.ready() ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) { unimplemented!() }
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triples
@ret r
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A02
@spec
    requires self.triples_wf(), self.changes_wf(), self.height() < i64::MAX,
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.hast(t),
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triples_s
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A02
@spec
    requires self.triples_wf(), self.changes_wf(), self.height() < i64::MAX,
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.hast(t) && t.subject == subject,
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triples_sp
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A02
@spec
    requires self.triples_wf(), self.changes_wf(), self.height() < i64::MAX,
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.hast(t) && t.subject == subject && t.predicate == predicate,
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions_s
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(), 
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.addst(t) && t.subject == subject,
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals_s
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(), 
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.delst(t) && t.subject == subject,
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_additions_sp
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(), 
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.addst(t) && t.subject == subject && t.predicate == predicate,
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removals_sp
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst Box :: new => __boxed
@props A01 A04
@spec
    requires self.triples_wf(), 
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> self.delst(t) && t.subject == subject && t.predicate == predicate,
@@end
}
}
fn main() {}
