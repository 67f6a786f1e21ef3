// Existence of triples: sp_o_position, layer_triple_exists, the walk over the layer
// stack, and single_triple_sp.
use vstd::prelude::*;
use std::sync::Arc;
use std::collections::HashSet;
use vstd::std_specs::hash::*;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@item layer/layer.rs :: struct IdTriple
@flag pub
@@end

@@fn layer/internal/mod.rs :: fn sp_o_position
@ret r
@props A01 A03 A04
@spec
    requires index_wf(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list),
    ensures match r {
        None => subject == 0 || predicate == 0 || forall|j: int| !sp_at(own(subjects), *s_p_adjacency_list, j, subject, predicate),
        Some(k) => subject != 0 && predicate != 0 && k < sp_o_adjacency_list.len() && (k > 0 ==> sp_o_adjacency_list.bits()[k - 1])
            && sp_at(own(subjects), *s_p_adjacency_list, sp_o_adjacency_list.left(k as int), subject, predicate) },
@at start
proof { index_facts(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list); }
@loop 0
invariant
    index_wf(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list),
    subject != 0, predicate != 0,
    s_p_position < s_p_adjacency_list.len(),
    s_p_adjacency_list.left(s_p_position as int) == s_position,
    subj_at(own(subjects), s_position as int) == subject,
    forall|i: int| 0 <= i < s_p_position && s_p_adjacency_list.left(i) == s_position ==> s_p_adjacency_list.nums()[i] != predicate,
    mono(s_p_adjacency_list.bits()),
ensures
    s_p_position < s_p_adjacency_list.len(), sp_at(own(subjects), *s_p_adjacency_list, s_p_position as int, subject, predicate),
decreases s_p_adjacency_list.len() - s_p_position
@@end

@@fn layer/internal/mod.rs :: fn layer_triple_exists
@ret r
@props A01 A03 A04
@spec
    requires index_wf(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list),
    ensures r == in_index(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list, subject, predicate, object),
@at start
proof { index_facts(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list); }
@at let sp_o_position
let ghost j = sp_o_adjacency_list.left(sp_o_position as int);
@loop 0
invariant
    index_wf(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list),
    subject != 0, predicate != 0, object != 0,
    sp_o_position < sp_o_adjacency_list.len(),
    sp_o_adjacency_list.left(sp_o_position as int) == j,
    sp_at(own(subjects), *s_p_adjacency_list, j, subject, predicate),
    forall|i: int| 0 <= i < sp_o_position && sp_o_adjacency_list.left(i) == j ==> sp_o_adjacency_list.nums()[i] != object,
    mono(sp_o_adjacency_list.bits()),
    unique(own(subjects), *s_p_adjacency_list),
ensures
    !in_index(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list, subject, predicate, object),
decreases sp_o_adjacency_list.len() - sp_o_position
@at loopstart 0
proof { if sp_o_adjacency_list.nums()[sp_o_position as int] == object { assert(at(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list, sp_o_position as int, subject, predicate, object)); } }
@@end

impl InternalLayer {
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_addition_exists
@ret r
@props A01 A03 A04
@spec
    requires self.triples_wf(),
    ensures r == self.adds(subject, predicate, object),
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_removal_exists
@ret r
@props A01 A03 A04
@spec
    requires self.triples_wf(),
    ensures r == self.dels(subject, predicate, object),
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triple_exists
@ret r
@props A01 A03 A10
@spec
    requires self.triples_wf(),
    ensures r == self.has(subject, predicate, object),
@at start
proof { if subject == 0 || predicate == 0 || object == 0 { self.has_zero(subject, predicate, object); } }
@loop 0
invariant
    subject != 0, predicate != 0, object != 0,
    match parent_opt { Some(u) => u.triples_wf(), None => true },
    self.has(subject, predicate, object) == (match parent_opt { Some(u) => u.has(subject, predicate, object), None => false }),
decreases (match parent_opt { Some(u) => u.height() + 1, None => 0 })
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: single_triple_sp
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@props A01
@spec
    requires self.triples_wf(),
    ensures match r {
        Some(t) => t.subject == subject && t.predicate == predicate && self.has(subject, predicate, t.object),
        None => forall|o: u64| !self.has(subject, predicate, o),
    }
@at start
broadcast use vstd::std_specs::hash::group_hash_axioms;
proof {
    index_facts(self.psub(), self.psp(), self.pspo());
    if subject == 0 || predicate == 0 { assert forall|o: u64| !self.has(subject, predicate, o) by { self.has_zero(subject, predicate, o); } }
    assert forall|k: int| 0 <= k < self.pspo().len() && sp_at(self.psub(), self.psp(), self.pspo().left(k), subject, predicate) && subject != 0 && predicate != 0
        implies self.has(subject, predicate, #[trigger] self.pspo().nums()[k]) by { assert(at(self.psub(), self.psp(), self.pspo(), k, subject, predicate, self.pspo().nums()[k])); }
}
@at let exclude
proof {
    assert forall|o: u64| !self.adds(subject, predicate, o) by { }
}
@loop 0
invariant
    l.triples_wf(),
    obeys_key_model::<u64>(), builds_valid_hashers::<std::hash::RandomState>(),
    forall|o: u64| #[trigger] self.has(subject, predicate, o) == (subject != 0 && predicate != 0 && !exclude@.contains(o) && !l.dels(subject, predicate, o) && match l.up() { Some(u) => u.has(subject, predicate, o), None => false }),
ensures
    forall|o: u64| !self.has(subject, predicate, o),
decreases l.height()
@at loopstart 0
let ghost ex0 = exclude@;
proof {
    if l.nsp().is_some() { members(l.nsub(), l.nsp().unwrap(), l.nspo().unwrap(), subject, predicate); index_facts(l.nsub(), l.nsp().unwrap(), l.nspo().unwrap()); }
    if l.up().is_some() { let u = l.up().unwrap(); assert(u.triples_wf()); members(u.psub(), u.psp(), u.pspo(), subject, predicate); index_facts(u.psub(), u.psp(), u.pspo()); }
}
@loop 1
invariant
    index_wf(l.nsub(), l.nsp().unwrap(), *neg_sp_o_adjacency_list),
    obeys_key_model::<u64>(), builds_valid_hashers::<std::hash::RandomState>(),
    mono(neg_sp_o_adjacency_list.bits()), unique(l.nsub(), l.nsp().unwrap()),
    pos < neg_sp_o_adjacency_list.len(),
    sp_at(l.nsub(), l.nsp().unwrap(), neg_sp_o_adjacency_list.left(pos as int), subject, predicate),
    forall|o: u64| #[trigger] exclude@.contains(o) <==> (ex0.contains(o) || at_before(l.nsub(), l.nsp().unwrap(), *neg_sp_o_adjacency_list, pos as int, subject, predicate, o)),
ensures
    forall|o: u64| #[trigger] exclude@.contains(o) <==> (ex0.contains(o) || at_before(l.nsub(), l.nsp().unwrap(), *neg_sp_o_adjacency_list, neg_sp_o_adjacency_list.len() as int, subject, predicate, o)),
decreases neg_sp_o_adjacency_list.len() - pos
@at loopstart 1
proof { at_before_step(l.nsub(), l.nsp().unwrap(), *neg_sp_o_adjacency_list, pos as int, subject, predicate); }
@at let pos_sp_o_adjacency_list
assert(forall|o: u64| #[trigger] exclude@.contains(o) <==> (ex0.contains(o) || (subject != 0 && predicate != 0 && l.dels(subject, predicate, o)) || (exclude@.contains(o) && (subject == 0 || predicate == 0))));
@loop 2
invariant
    l.up() == Some(*parent),
    index_wf(parent.psub(), parent.psp(), *pos_sp_o_adjacency_list),
    obeys_key_model::<u64>(), builds_valid_hashers::<std::hash::RandomState>(),
    mono(pos_sp_o_adjacency_list.bits()), unique(parent.psub(), parent.psp()),
    *pos_sp_o_adjacency_list == parent.pspo(),
    subject != 0, predicate != 0,
    pos < pos_sp_o_adjacency_list.len(),
    sp_at(parent.psub(), parent.psp(), pos_sp_o_adjacency_list.left(pos as int), subject, predicate),
    forall|o: u64| #[trigger] self.has(subject, predicate, o) == (!exclude@.contains(o) && parent.has(subject, predicate, o)),
    forall|o: u64| #[trigger] at_before(parent.psub(), parent.psp(), *pos_sp_o_adjacency_list, pos as int, subject, predicate, o) ==> exclude@.contains(o),
ensures
    forall|o: u64| #[trigger] at_before(parent.psub(), parent.psp(), *pos_sp_o_adjacency_list, pos_sp_o_adjacency_list.len() as int, subject, predicate, o) ==> exclude@.contains(o),
decreases pos_sp_o_adjacency_list.len() - pos
@at loopstart 2
proof {
    at_before_step(parent.psub(), parent.psp(), *pos_sp_o_adjacency_list, pos as int, subject, predicate);
    assert(at(parent.psub(), parent.psp(), *pos_sp_o_adjacency_list, pos as int, subject, predicate, pos_sp_o_adjacency_list.nums()[pos as int]));
}
@@end
}
pub open spec fn at_before(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, n: int, s: u64, p: u64, o: u64) -> bool {
    exists|k: int| k < n && #[trigger] at(subjects, sp, spo, k, s, p, o)
}
pub proof fn members(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, s: u64, p: u64)
    requires index_wf(subjects, sp, spo)
    ensures s != 0 && p != 0 ==> forall|o: u64| #[trigger] in_index(subjects, sp, spo, s, p, o) <==> at_before(subjects, sp, spo, spo.len() as int, s, p, o)
{
    if s != 0 && p != 0 {
        assert forall|o: u64| #[trigger] in_index(subjects, sp, spo, s, p, o) implies at_before(subjects, sp, spo, spo.len() as int, s, p, o) by {
            let k = choose|k: int| at(subjects, sp, spo, k, s, p, o); assert(k < spo.len() && at(subjects, sp, spo, k, s, p, o));
        }
        assert forall|o: u64| at_before(subjects, sp, spo, spo.len() as int, s, p, o) implies #[trigger] in_index(subjects, sp, spo, s, p, o) by {
            let k = choose|k: int| k < spo.len() && at(subjects, sp, spo, k, s, p, o); let ghost j = spo.left(k);
        }
    }
}
/// within the group of (s, p), moving on by one position adds exactly that object; at its end the group is complete
pub proof fn at_before_step(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, n: int, s: u64, p: u64)
    requires index_wf(subjects, sp, spo), 0 <= n < spo.len(), sp_at(subjects, sp, spo.left(n), s, p)
    ensures
        forall|o: u64| #[trigger] at_before(subjects, sp, spo, n + 1, s, p, o) <==> (at_before(subjects, sp, spo, n, s, p, o) || o == spo.nums()[n]),
        spo.bits()[n] ==> forall|o: u64| #[trigger] at_before(subjects, sp, spo, spo.len() as int, s, p, o) <==> at_before(subjects, sp, spo, n + 1, s, p, o),
        !spo.bits()[n] ==> n + 1 < spo.len() && spo.left(n + 1) == spo.left(n),
{
    index_facts(subjects, sp, spo);
    assert(at(subjects, sp, spo, n, s, p, spo.nums()[n]));
    assert forall|o: u64| at_before(subjects, sp, spo, n, s, p, o) || o == spo.nums()[n] implies #[trigger] at_before(subjects, sp, spo, n + 1, s, p, o) by {
        if at_before(subjects, sp, spo, n, s, p, o) { let k = choose|k: int| k < n && at(subjects, sp, spo, k, s, p, o); assert(k < n + 1 && at(subjects, sp, spo, k, s, p, o)); }
    }
    if spo.bits()[n] {
        assert forall|o: u64| #[trigger] at_before(subjects, sp, spo, spo.len() as int, s, p, o) implies at_before(subjects, sp, spo, n + 1, s, p, o) by {
            let k = choose|k: int| k < spo.len() && at(subjects, sp, spo, k, s, p, o);
            assert(spo.left(k) == spo.left(n));
            if k > n { assert(spo.left(n) < spo.left(k)); }
        }
        assert forall|o: u64| at_before(subjects, sp, spo, n + 1, s, p, o) implies #[trigger] at_before(subjects, sp, spo, spo.len() as int, s, p, o) by {
            let k = choose|k: int| k < n + 1 && at(subjects, sp, spo, k, s, p, o); assert(k < spo.len() && at(subjects, sp, spo, k, s, p, o));
        }
    }
}
}
fn main() {}
