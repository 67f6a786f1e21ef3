#![feature(allocator_api)]
// The layer builder: what is added and removed, and what is written when it is committed.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::io;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
@@include ids.inc
@@include lstore.inc
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
#[verifier::external_body] pub fn __panic() -> ! requires false { panic!() }
#[verifier::external_body] pub struct Path { _x: () }
#[verifier::external_body] pub struct OptInternalLayerTripleSubjectIterator { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
#[verifier::external_body] pub fn __io_error<K, T>(k: K, t: T) -> (r: io::Error) { unimplemented!() }
#[verifier::external_type_specification] pub struct ExErrorKind(io::ErrorKind);
@@include stored.inc
@@include steps.inc
@@include parts.inc
@@include builder.inc
@@include builder_decl.inc
pub open spec fn as_name(o: ObjectType) -> Name { match o { ObjectType::Node(s) => Name::Node(s@), ObjectType::Value(v) => Name::Value(v) } }
@@include hashmap.inc
@@include build_seq.inc
impl ObjectType {
@@fn layer/layer.rs :: impl ObjectType :: node_ref
@ret r
@props A03
@spec ensures match r { Some(s) => as_name(*self) == Name::Node(s@), None => as_name(*self) is Value }
@@end
}
@@item layer/layer.rs :: struct ValueTriple
@flag pub
@@end
impl InternalLayer { // proved in u_ids and u_exists
    #[verifier::external_body] pub fn node_and_value_count(&self) -> (r: usize) requires self.names_wf() ensures r == self.nv_count() { unimplemented!() }
    #[verifier::external_body] pub fn predicate_count(&self) -> (r: usize) requires self.names_wf() ensures r == self.p_count() { unimplemented!() }
    #[verifier::external_body] pub fn subject_id(&self, subject: &str) -> (r: Option<u64>) requires self.names_wf()
        ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Node(subject@)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(subject@)) } { unimplemented!() }
    #[verifier::external_body] pub fn object_node_id(&self, node: &str) -> (r: Option<u64>) requires self.names_wf()
        ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Node(node@)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(node@)) } { unimplemented!() }
    #[verifier::external_body] pub fn object_value_id(&self, value: &TypedDictEntry) -> (r: Option<u64>) requires self.names_wf()
        ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Value(*value)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Value(*value)) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_id(&self, predicate: &str) -> (r: Option<u64>) requires self.names_wf()
        ensures match r { Some(id) => self.id_pred(id as int) == Some(predicate@), None => forall|id: int| #[trigger] self.id_pred(id) != Some(predicate@) } { unimplemented!() }
    #[verifier::external_body] pub proof fn ids_are_a_bijection(&self, a: int, b: int)
        requires self.names_wf(), self.fresh_names()
        ensures
            self.id_name(a).is_some() == (1 <= a <= self.nv_count()),
            a != b && self.id_name(a).is_some() ==> self.id_name(a) != self.id_name(b),
            self.id_pred(a).is_some() == (1 <= a <= self.p_count()),
            a != b && self.id_pred(a).is_some() ==> self.id_pred(a) != self.id_pred(b) {}
}
// ---- the builder
@@item storage/file.rs :: enum LayerFiles
@flag pub
@subst F : 'static + FileLoad + FileStore + Clone => F
@@end
impl LayerFiles<File> {
@@fn storage/file.rs :: impl LayerFiles :: into_base
@ret r
@subst < F > => < File >
@props A03
@spec requires self is Base ensures r == self->Base_0
@@end
@@fn storage/file.rs :: impl LayerFiles :: into_child
@ret r
@subst < F > => < File >
@props A03
@spec requires self is Child ensures r == self->Child_0
@@end
}
@@item layer/simple_builder.rs :: struct SimpleLayerBuilder
@flag pub
@subst F : 'static + FileLoad + FileStore + Clone => F
@subst dyn Layer => InternalLayer
@@end
pub type Parent = Option<Arc<InternalLayer>>;
pub open spec fn off(p: Parent) -> int { match p { Some(l) => l.nv_count(), None => 0 } }
pub open spec fn poff(p: Parent) -> int { match p { Some(l) => l.p_count(), None => 0 } }
pub open spec fn pname(p: Parent, id: int) -> Option<Name> { match p { Some(l) => l.id_name(id), None => None } }
pub open spec fn ppred(p: Parent, id: int) -> Option<Seq<char>> { match p { Some(l) => l.id_pred(id), None => None } }
pub open spec fn phas(p: Parent, t: IdTriple) -> bool { match p { Some(l) => has_t(*l, t), None => false } }
pub open spec fn known(p: Parent, n: Name) -> bool { exists|id: int| #[trigger] pname(p, id) == Some(n) }
pub open spec fn known_pred(p: Parent, n: Seq<char>) -> bool { exists|id: int| #[trigger] ppred(p, id) == Some(n) }
pub open spec fn p_ok(p: Parent) -> bool { match p { Some(l) => parent_ok(*l), None => true } }
/// ids of names: those up to the parent's count are the parent's, the rest are given in turn
#[verifier::opaque] pub open spec fn nv_ids(m: Map<Name, u64>, p: Parent, n: int) -> bool {
    &&& 0 <= off(p) <= n
    &&& forall|x: Name| #[trigger] m.contains_key(x) ==> 1 <= m[x] <= n && (m[x] <= off(p) ==> pname(p, m[x] as int) == Some(x)) && (m[x] > off(p) ==> forall|id: int| #[trigger] pname(p, id) != Some(x))
    &&& forall|x: Name, y: Name| #![trigger m[x], m[y]] m.contains_key(x) && m.contains_key(y) && m[x] == m[y] && m[x] > off(p) ==> x == y
    &&& forall|id: int| off(p) < id <= n ==> #[trigger] has_nv(m, id)
}
pub open spec fn has_nv(m: Map<Name, u64>, id: int) -> bool { exists|x: Name| m.contains_key(x) && #[trigger] m[x] == id }
proof fn nv_ids_one_more(m: Map<Name, u64>, p: Parent, n: int, x: Name, id: u64, n2: int)
    requires nv_ids(m, p, n), !m.contains_key(x), (n2 == n && 1 <= id <= off(p) && pname(p, id as int) == Some(x)) || (n2 == n + 1 && id == n2 && forall|i: int| #[trigger] pname(p, i) != Some(x))
    ensures nv_ids(m.insert(x, id), p, n2), same_on(m, m.insert(x, id)),
        m.insert(x, id).contains_key(x) && m.insert(x, id)[x] == id
{
    reveal(nv_ids);
    let m2 = m.insert(x, id);
    assert forall|y: Name| #[trigger] m2.contains_key(y) implies 1 <= m2[y] <= n2 && (m2[y] <= off(p) ==> pname(p, m2[y] as int) == Some(y)) && (m2[y] > off(p) ==> forall|i: int| #[trigger] pname(p, i) != Some(y)) by { if y != x { assert(m.contains_key(y)); } }
    assert forall|y: Name, z: Name| #![trigger m2[y], m2[z]] m2.contains_key(y) && m2.contains_key(z) && m2[y] == m2[z] && m2[y] > off(p) implies y == z by { if y != x { assert(m.contains_key(y)); assert(m[y] == m2[y]); } if z != x { assert(m.contains_key(z)); assert(m[z] == m2[z]); } }
    assert forall|i: int| off(p) < i <= n2 implies #[trigger] has_nv(m2, i) by {
        if i == n + 1 { assert(m2.contains_key(x) && m2[x] == i); } else { assert(has_nv(m, i)); let y = choose|y: Name| m.contains_key(y) && #[trigger] m[y] == i; assert(m2.contains_key(y) && m2[y] == i); }
    }
}
#[verifier::opaque] pub open spec fn p_ids(m: Map<Seq<char>, u64>, p: Parent, n: int) -> bool {
    &&& 0 <= poff(p) <= n
    &&& forall|x: Seq<char>| #[trigger] m.contains_key(x) ==> 1 <= m[x] <= n && (m[x] <= poff(p) ==> ppred(p, m[x] as int) == Some(x)) && (m[x] > poff(p) ==> forall|id: int| #[trigger] ppred(p, id) != Some(x))
    &&& forall|x: Seq<char>, y: Seq<char>| #![trigger m[x], m[y]] m.contains_key(x) && m.contains_key(y) && m[x] == m[y] && m[x] > poff(p) ==> x == y
    &&& forall|id: int| poff(p) < id <= n ==> #[trigger] has_p(m, id)
}
pub open spec fn has_p(m: Map<Seq<char>, u64>, id: int) -> bool { exists|x: Seq<char>| m.contains_key(x) && #[trigger] m[x] == id }
proof fn p_ids_one_more(m: Map<Seq<char>, u64>, p: Parent, n: int, x: Seq<char>, id: u64, n2: int)
    requires p_ids(m, p, n), !m.contains_key(x), (n2 == n && 1 <= id <= poff(p) && ppred(p, id as int) == Some(x)) || (n2 == n + 1 && id == n2 && forall|i: int| #[trigger] ppred(p, i) != Some(x))
    ensures p_ids(m.insert(x, id), p, n2), same_on(m, m.insert(x, id)),
        m.insert(x, id).contains_key(x) && m.insert(x, id)[x] == id
{
    reveal(p_ids);
    let m2 = m.insert(x, id);
    assert forall|y: Seq<char>| #[trigger] m2.contains_key(y) implies 1 <= m2[y] <= n2 && (m2[y] <= poff(p) ==> ppred(p, m2[y] as int) == Some(y)) && (m2[y] > poff(p) ==> forall|i: int| #[trigger] ppred(p, i) != Some(y)) by { if y != x { assert(m.contains_key(y)); } }
    assert forall|y: Seq<char>, z: Seq<char>| #![trigger m2[y], m2[z]] m2.contains_key(y) && m2.contains_key(z) && m2[y] == m2[z] && m2[y] > poff(p) implies y == z by { if y != x { assert(m.contains_key(y)); assert(m[y] == m2[y]); } if z != x { assert(m.contains_key(z)); assert(m[z] == m2[z]); } }
    assert forall|i: int| poff(p) < i <= n2 implies #[trigger] has_p(m2, i) by {
        if i == n + 1 { assert(m2.contains_key(x) && m2[x] == i); } else { assert(has_p(m, i)); let y = choose|y: Seq<char>| m.contains_key(y) && #[trigger] m[y] == i; assert(m2.contains_key(y) && m2[y] == i); }
    }
}
#[verifier::opaque] pub open spec fn all_within(s: Seq<IdTriple>, nv: int, p: int) -> bool { forall|i: int| 0 <= i < s.len() ==> within(#[trigger] s[i], nv, p) }
proof fn within_more(s: Seq<IdTriple>, nv: int, p: int, nv2: int, p2: int) requires all_within(s, nv, p), nv <= nv2, p <= p2 ensures all_within(s, nv2, p2) { reveal(all_within); }
proof fn within_none(nv: int, p: int) ensures all_within(seq![], nv, p) { reveal(all_within); }
proof fn within_push(s: Seq<IdTriple>, t: IdTriple, nv: int, p: int) requires all_within(s, nv, p), within(t, nv, p) ensures all_within(s.push(t), nv, p) { reveal(all_within); }
proof fn p_ok_of(l: Arc<InternalLayer>) requires parent_ok(*l) ensures l.names_wf() {}
pub open spec fn fresh_places(d: Disk, f: LayerFiles<File>) -> bool { match f { LayerFiles::Base(f) => fresh_base(d, f.locs()), LayerFiles::Child(f) => fresh_child(d, f.locs()) } }
pub open spec fn written_to(d: Disk, f: LayerFiles<File>) -> Own { match f { LayerFiles::Base(f) => f.locs().own(d), LayerFiles::Child(f) => f.locs().own(d) } }
proof fn p_names(p: Parent) requires p_ok(p) ensures (p matches Some(l) ==> l.names_wf()) {}
proof fn pids_facts(p: Parent)
    requires p_ok(p)
    ensures forall|id: int| (#[trigger] pname(p, id)) is Some ==> 1 <= id <= off(p), forall|id: int| (#[trigger] ppred(p, id)) is Some ==> 1 <= id <= poff(p), 0 <= off(p) < i64::MAX, 0 <= poff(p) < i64::MAX
{
    if let Some(l) = p {
        l.counts_nonneg();
        assert forall|id: int| (#[trigger] pname(p, id)) is Some implies 1 <= id <= off(p) by { l.ids_are_a_bijection(id, id); }
        assert forall|id: int| (#[trigger] ppred(p, id)) is Some implies 1 <= id <= poff(p) by { l.ids_are_a_bijection(id, id); }
    }
}
pub open spec fn same_on<N>(a: Map<N, u64>, b: Map<N, u64>) -> bool { forall|n: N| #[trigger] a.contains_key(n) ==> b.contains_key(n) && b[n] == a[n] }
proof fn nv_ids_of(m: Map<Name, u64>, p: Parent, n: int, x: Name)
    requires nv_ids(m, p, n)
    ensures off(p) <= n, m.contains_key(x) ==> 1 <= m[x] <= n && (m[x] <= off(p) ==> pname(p, m[x] as int) == Some(x)) && (m[x] > off(p) ==> forall|id: int| #[trigger] pname(p, id) != Some(x))
{ reveal(nv_ids); }
proof fn p_ids_of(m: Map<Seq<char>, u64>, p: Parent, n: int, x: Seq<char>)
    requires p_ids(m, p, n)
    ensures poff(p) <= n, m.contains_key(x) ==> 1 <= m[x] <= n && (m[x] <= poff(p) ==> ppred(p, m[x] as int) == Some(x)) && (m[x] > poff(p) ==> forall|id: int| #[trigger] ppred(p, id) != Some(x))
{ reveal(p_ids); }
impl SimpleLayerBuilder<File> {
    pub open spec fn wf(&self) -> bool {
        &&& p_ok(self.parent) && (self.files is Child <==> self.parent is Some)
        &&& self.nodes_values_map_count == off(self.parent) + self.node_count + self.val_count && self.predicates_map_count == poff(self.parent) + self.pred_count
        &&& nv_ids(self.nodes_values_map@, self.parent, self.nodes_values_map_count as int)
        &&& p_ids(self.predicates_map@, self.parent, self.predicates_map_count as int)
        &&& all_within(self.id_additions@, self.nodes_values_map_count as int, self.predicates_map_count as int)
        &&& all_within(self.id_removals@, self.nodes_values_map_count as int, self.predicates_map_count as int)
    }
    /// room for three more names
    pub open spec fn room(&self) -> bool { self.nodes_values_map_count < i64::MAX - 2 && self.predicates_map_count < i64::MAX - 1 }
    /// what an id means so far
    pub open spec fn named(&self, id: int, n: Name) -> bool { if id <= off(self.parent) { pname(self.parent, id) == Some(n) } else { self.nodes_values_map@.contains_key(n) && self.nodes_values_map@[n] == id } }
    pub open spec fn pred_named(&self, id: int, n: Seq<char>) -> bool { if id <= poff(self.parent) { ppred(self.parent, id) == Some(n) } else { self.predicates_map@.contains_key(n) && self.predicates_map@[n] == id } }
    pub open spec fn says(&self, t: IdTriple, s: Name, p: Seq<char>, o: Name) -> bool { self.named(t.subject as int, s) && self.pred_named(t.predicate as int, p) && self.named(t.object as int, o) }
    /// the list has a triple of these names
    pub open spec fn among(&self, list: Seq<IdTriple>, s: Name, p: Seq<char>, o: Name) -> bool { exists|t: IdTriple| list.contains(t) && #[trigger] self.says(t, s, p, o) }
    pub open spec fn adds(&self, s: Name, p: Seq<char>, o: Name) -> bool { self.among(self.id_additions@, s, p, o) }
    pub open spec fn rems(&self, s: Name, p: Seq<char>, o: Name) -> bool { self.among(self.id_removals@, s, p, o) }
    /// the same builder, perhaps with more names
    pub open spec fn grown(&self, b: Self) -> bool {
        &&& self.name == b.name && self.parent == b.parent && self.files == b.files && self.id_additions@ == b.id_additions@ && self.id_removals@ == b.id_removals@
        &&& same_on(b.nodes_values_map@, self.nodes_values_map@) && same_on(b.predicates_map@, self.predicates_map@)
        &&& self.nodes_values_map_count >= b.nodes_values_map_count && self.predicates_map_count >= b.predicates_map_count
    }
@@fn layer/simple_builder.rs :: impl SimpleLayerBuilder :: new
@ret r
@subst < F > => < File >
@props A03 A04
@spec ensures r.wf(), r.name == name, r.parent is None, r.files == LayerFiles::Base(files), r.id_additions@.len() == 0, r.id_removals@.len() == 0
@at start
proof { reveal(nv_ids); reveal(p_ids); reveal(all_within); pids_facts(None); }
@@end
@@fn layer/simple_builder.rs :: impl SimpleLayerBuilder :: from_parent
@ret r
@subst < F > => < File >
@subst dyn Layer => InternalLayer
@props A03 A04
@spec requires parent_ok(*parent) ensures r.wf(), r.name == name, r.parent == Some(parent), r.files == LayerFiles::Child(files), r.id_additions@.len() == 0, r.id_removals@.len() == 0
@at start
proof { reveal(nv_ids); reveal(p_ids); reveal(all_within); pids_facts(Some(parent)); }
@@end
@@fn layer/simple_builder.rs :: impl SimpleLayerBuilder :: calculate_triple
@ret r
@props A03 A04 A05
@spec requires old(self).wf(), old(self).room() ensures final(self).wf(), final(self).grown(*old(self)), final(self).says(r, Name::Node(triple.subject@), triple.predicate@, as_name(triple.object)), within(r, final(self).nodes_values_map_count as int, final(self).predicates_map_count as int), nonzero(r)
@at start
hide(InternalLayer::id_name); hide(InternalLayer::id_pred); hide(InternalLayer::names_wf); hide(InternalLayer::fresh_names); hide(InternalLayer::nv_count); hide(InternalLayer::p_count); hide(parent_ok); 
let ghost b0 = *self; proof { pids_facts(self.parent); p_names(self.parent); }
@at let object
let ghost sn = as_name(subject); let ghost pn = predicate@; let ghost on = as_name(object);
@at let node_id
let ghost c1 = self.nodes_values_map_count as int; proof { nv_ids_one_more(b0.nodes_values_map@, self.parent, b0.nodes_values_map_count as int, sn, node_id, c1); }
@at let subject_id
let ghost b1 = *self; proof { within_more(b0.id_additions@, b0.nodes_values_map_count as int, b0.predicates_map_count as int, b1.nodes_values_map_count as int, b1.predicates_map_count as int); within_more(b0.id_removals@, b0.nodes_values_map_count as int, b0.predicates_map_count as int, b1.nodes_values_map_count as int, b1.predicates_map_count as int); nv_ids_of(b1.nodes_values_map@, b1.parent, b1.nodes_values_map_count as int, sn); assert(b1.wf()); assert(b1.grown(b0)); assert(b1.nodes_values_map@.contains_key(sn) && b1.nodes_values_map@[sn] == subject_id); }
@at let predicate_id
let ghost c2 = self.predicates_map_count as int; proof { p_ids_one_more(b1.predicates_map@, self.parent, b1.predicates_map_count as int, pn, predicate_id, c2); }
@at let predicate_id#1
let ghost b2 = *self; proof { within_more(b1.id_additions@, b1.nodes_values_map_count as int, b1.predicates_map_count as int, b2.nodes_values_map_count as int, b2.predicates_map_count as int); within_more(b1.id_removals@, b1.nodes_values_map_count as int, b1.predicates_map_count as int, b2.nodes_values_map_count as int, b2.predicates_map_count as int); p_ids_of(b2.predicates_map@, b2.parent, b2.predicates_map_count as int, pn); assert(b2.wf()); assert(b2.grown(b1)); assert(b2.predicates_map@.contains_key(pn) && b2.predicates_map@[pn] == predicate_id); }
@at let node_id#1
let ghost c3 = self.nodes_values_map_count as int; proof { nv_ids_one_more(b2.nodes_values_map@, self.parent, b2.nodes_values_map_count as int, on, node_id, c3); }
@at let value_id
let ghost c3 = self.nodes_values_map_count as int; proof { nv_ids_one_more(b2.nodes_values_map@, self.parent, b2.nodes_values_map_count as int, on, value_id, c3); }
@at let object_id
proof { within_more(b2.id_additions@, b2.nodes_values_map_count as int, b2.predicates_map_count as int, self.nodes_values_map_count as int, self.predicates_map_count as int); within_more(b2.id_removals@, b2.nodes_values_map_count as int, b2.predicates_map_count as int, self.nodes_values_map_count as int, self.predicates_map_count as int); nv_ids_of(self.nodes_values_map@, self.parent, self.nodes_values_map_count as int, on); nv_ids_of(self.nodes_values_map@, self.parent, self.nodes_values_map_count as int, sn); assert(self.wf()); assert(self.grown(b2)); assert(self.nodes_values_map@.contains_key(on) && self.nodes_values_map@[on] == object_id); }
@@end
    pub proof fn named_stays(&self, b: Self, id: int, n: Name)
        requires self.wf(), b.wf(), b.grown(*self), id <= self.nodes_values_map_count
        ensures b.named(id, n) == self.named(id, n)
    {
        reveal(nv_ids);
        if id > off(self.parent) && b.nodes_values_map@.contains_key(n) && b.nodes_values_map@[n] == id {
            assert(has_nv(self.nodes_values_map@, id)); let y = choose|y: Name| self.nodes_values_map@.contains_key(y) && #[trigger] self.nodes_values_map@[y] == id;
            assert(b.nodes_values_map@[y] == b.nodes_values_map@[n]);
        }
    }
    pub proof fn pred_named_stays(&self, b: Self, id: int, n: Seq<char>)
        requires self.wf(), b.wf(), b.grown(*self), id <= self.predicates_map_count
        ensures b.pred_named(id, n) == self.pred_named(id, n)
    {
        reveal(p_ids);
        if id > poff(self.parent) && b.predicates_map@.contains_key(n) && b.predicates_map@[n] == id {
            assert(has_p(self.predicates_map@, id)); let y = choose|y: Seq<char>| self.predicates_map@.contains_key(y) && #[trigger] self.predicates_map@[y] == id;
            assert(b.predicates_map@[y] == b.predicates_map@[n]);
        }
    }
    /// an id has one name
    pub proof fn named_once(&self, id: int, a: Name, b: Name) requires self.wf(), self.named(id, a), self.named(id, b) ensures a == b { reveal(nv_ids); assert(id > off(self.parent) ==> self.nodes_values_map@[a] == self.nodes_values_map@[b]); }
    pub proof fn pred_named_once(&self, id: int, a: Seq<char>, b: Seq<char>) requires self.wf(), self.pred_named(id, a), self.pred_named(id, b) ensures a == b { reveal(p_ids); assert(id > poff(self.parent) ==> self.predicates_map@[a] == self.predicates_map@[b]); }
    /// one more triple in a list: the names it stands for are added to those of the list
    pub proof fn one_more(&self, b: Self, list: Seq<IdTriple>, t: IdTriple)
        requires self.wf(), b.wf(), b.grown(*self), all_within(list, self.nodes_values_map_count as int, self.predicates_map_count as int)
        ensures forall|s: Name, p: Seq<char>, o: Name| #![trigger b.among(list, s, p, o)] b.among(list, s, p, o) == self.among(list, s, p, o),
            forall|s: Name, p: Seq<char>, o: Name| #![trigger b.among(list.push(t), s, p, o)] b.among(list.push(t), s, p, o) == (self.among(list, s, p, o) || b.says(t, s, p, o))
    {
        assert forall|s: Name, p: Seq<char>, o: Name| #![trigger b.among(list, s, p, o)] b.among(list, s, p, o) == self.among(list, s, p, o) by {
            assert forall|x: IdTriple| list.contains(x) implies b.says(x, s, p, o) == self.says(x, s, p, o) by {
                reveal(all_within); let i = choose|i: int| 0 <= i < list.len() && list[i] == x;
                self.named_stays(b, x.subject as int, s); self.pred_named_stays(b, x.predicate as int, p); self.named_stays(b, x.object as int, o);
            }
        }
        assert forall|s: Name, p: Seq<char>, o: Name| #![trigger b.among(list.push(t), s, p, o)] b.among(list.push(t), s, p, o) == (self.among(list, s, p, o) || b.says(t, s, p, o)) by {
            assert(b.among(list, s, p, o) == self.among(list, s, p, o));
            let l2 = list.push(t);
            if b.among(l2, s, p, o) { let x = choose|x: IdTriple| l2.contains(x) && #[trigger] b.says(x, s, p, o); let i = choose|i: int| 0 <= i < l2.len() && l2[i] == x; if i < list.len() { assert(list[i] == x); assert(list.contains(x)); } }
            if b.among(list, s, p, o) { let x = choose|x: IdTriple| list.contains(x) && #[trigger] b.says(x, s, p, o); let i = choose|i: int| 0 <= i < list.len() && list[i] == x; assert(l2[i] == x); assert(l2.contains(x)); }
            if b.says(t, s, p, o) { assert(l2[list.len() as int] == t); assert(l2.contains(t)); }
        }
    }
    pub proof fn says_once(&self, t: IdTriple, s: Name, p: Seq<char>, o: Name)
        requires self.wf(), self.says(t, s, p, o)
        ensures forall|s2: Name, p2: Seq<char>, o2: Name| #[trigger] self.says(t, s2, p2, o2) ==> s2 == s && p2 == p && o2 == o
    {
        assert forall|s2: Name, p2: Seq<char>, o2: Name| #[trigger] self.says(t, s2, p2, o2) implies s2 == s && p2 == p && o2 == o by {
            self.named_once(t.subject as int, s, s2); self.pred_named_once(t.predicate as int, p, p2); self.named_once(t.object as int, o, o2);
        }
    }
    pub proof fn same_among(&self, b: Self, list: Seq<IdTriple>, s: Name, p: Seq<char>, o: Name)
        requires self.parent == b.parent, self.nodes_values_map == b.nodes_values_map, self.predicates_map == b.predicates_map
        ensures self.among(list, s, p, o) == b.among(list, s, p, o)
    { assert forall|t: IdTriple| self.says(t, s, p, o) == b.says(t, s, p, o) by {} }
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: add_value_triple
@props A03 A04
@spec requires old(self).wf(), old(self).room() ensures final(self).wf(), final(self).parent == old(self).parent,
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).adds(s, p, o)] final(self).adds(s, p, o) <==> old(self).adds(s, p, o) || (s == Name::Node(addition.subject@) && p == addition.predicate@ && o == as_name(addition.object)),
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).rems(s, p, o)] final(self).rems(s, p, o) <==> old(self).rems(s, p, o)
@at start
let ghost b0 = *self; let ghost v = (addition.subject@, addition.predicate@, as_name(addition.object));
@at let triple
let ghost b1 = *self; proof { b0.one_more(b1, b0.id_additions@, triple); b0.one_more(b1, b0.id_removals@, triple); b1.says_once(triple, Name::Node(v.0), v.1, v.2); within_push(b1.id_additions@, triple, b1.nodes_values_map_count as int, b1.predicates_map_count as int); }
@at end
proof { assert(self.wf()); assert(b1.id_additions@.push(triple) == self.id_additions@); reveal(nv_ids);
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.adds(s, p, o)] self.adds(s, p, o) <==> b0.adds(s, p, o) || (s == Name::Node(v.0) && p == v.1 && o == v.2) by { assert(b1.among(self.id_additions@, s, p, o) == self.among(self.id_additions@, s, p, o)) by { self.same_among(b1, self.id_additions@, s, p, o); } }
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.rems(s, p, o)] self.rems(s, p, o) <==> b0.rems(s, p, o) by { self.same_among(b1, self.id_removals@, s, p, o); } }
@@end
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: remove_value_triple
@props A03 A04
@spec requires old(self).wf(), old(self).room() ensures final(self).wf(), final(self).parent == old(self).parent,
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).rems(s, p, o)] final(self).rems(s, p, o) <==> old(self).rems(s, p, o) || (s == Name::Node(removal.subject@) && p == removal.predicate@ && o == as_name(removal.object)),
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).adds(s, p, o)] final(self).adds(s, p, o) <==> old(self).adds(s, p, o)
@at start
let ghost b0 = *self; let ghost v = (removal.subject@, removal.predicate@, as_name(removal.object));
@at let triple
let ghost b1 = *self; proof { b0.one_more(b1, b0.id_removals@, triple); b0.one_more(b1, b0.id_additions@, triple); b1.says_once(triple, Name::Node(v.0), v.1, v.2); within_push(b1.id_removals@, triple, b1.nodes_values_map_count as int, b1.predicates_map_count as int); }
@at end
proof { assert(self.wf()); assert(b1.id_removals@.push(triple) == self.id_removals@); reveal(nv_ids);
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.rems(s, p, o)] self.rems(s, p, o) <==> b0.rems(s, p, o) || (s == Name::Node(v.0) && p == v.1 && o == v.2) by { assert(b1.among(self.id_removals@, s, p, o) == self.among(self.id_removals@, s, p, o)) by { self.same_among(b1, self.id_removals@, s, p, o); } }
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.adds(s, p, o)] self.adds(s, p, o) <==> b0.adds(s, p, o) by { self.same_among(b1, self.id_additions@, s, p, o); } }
@@end
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: add_id_triple
@props A03 A04
@spec requires old(self).wf(), within(triple, old(self).nodes_values_map_count as int, old(self).predicates_map_count as int) ensures final(self).wf(), final(self).parent == old(self).parent,
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).adds(s, p, o)] final(self).adds(s, p, o) <==> old(self).adds(s, p, o) || old(self).says(triple, s, p, o),
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).rems(s, p, o)] final(self).rems(s, p, o) <==> old(self).rems(s, p, o)
@at start
let ghost b0 = *self; proof { b0.one_more(b0, b0.id_additions@, triple); within_push(b0.id_additions@, triple, b0.nodes_values_map_count as int, b0.predicates_map_count as int); }
@at end
proof { assert(b0.id_additions@.push(triple) == self.id_additions@);
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.adds(s, p, o)] self.adds(s, p, o) <==> b0.adds(s, p, o) || b0.says(triple, s, p, o) by { self.same_among(b0, self.id_additions@, s, p, o); }
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.rems(s, p, o)] self.rems(s, p, o) <==> b0.rems(s, p, o) by { self.same_among(b0, self.id_removals@, s, p, o); } }
@@end
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: remove_id_triple
@props A03 A04
@spec requires old(self).wf(), within(triple, old(self).nodes_values_map_count as int, old(self).predicates_map_count as int) ensures final(self).wf(), final(self).parent == old(self).parent,
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).rems(s, p, o)] final(self).rems(s, p, o) <==> old(self).rems(s, p, o) || old(self).says(triple, s, p, o),
    forall|s: Name, p: Seq<char>, o: Name| #![trigger final(self).adds(s, p, o)] final(self).adds(s, p, o) <==> old(self).adds(s, p, o)
@at start
let ghost b0 = *self; proof { b0.one_more(b0, b0.id_removals@, triple); within_push(b0.id_removals@, triple, b0.nodes_values_map_count as int, b0.predicates_map_count as int); }
@at end
proof { assert(b0.id_removals@.push(triple) == self.id_removals@);
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.rems(s, p, o)] self.rems(s, p, o) <==> b0.rems(s, p, o) || b0.says(triple, s, p, o) by { self.same_among(b0, self.id_removals@, s, p, o); }
    assert forall|s: Name, p: Seq<char>, o: Name| #![trigger self.adds(s, p, o)] self.adds(s, p, o) <==> b0.adds(s, p, o) by { self.same_among(b0, self.id_additions@, s, p, o); } }
@@end
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: name
@ret r
@props A03
@spec ensures r == self.name
@@end
    proof fn once(&self) requires self.wf() ensures ids_once(Ids::Nv(self.nodes_values_map@), off(self.parent)), ids_once(Ids::P(self.predicates_map@), poff(self.parent)) {
        reveal(ids_once); reveal(nv_ids); reveal(p_ids);
        let m = Ids::P(self.predicates_map@);
        assert forall|x: Name, y: Name| #![trigger m.at(x), m.at(y)] m.has_key(x) && m.has_key(y) && m.at(x) == m.at(y) && m.at(x) > poff(self.parent) implies x == y by { assert(self.predicates_map@[x->Node_0] == self.predicates_map@[y->Node_0]); }
        let m = Ids::Nv(self.nodes_values_map@);
        assert forall|x: Name, y: Name| #![trigger m.at(x), m.at(y)] m.has_key(x) && m.has_key(y) && m.at(x) == m.at(y) && m.at(x) > off(self.parent) implies x == y by { assert(self.nodes_values_map@[x] == self.nodes_values_map@[y]); }
    }
    proof fn sizes(&self, e: Seq<bool>, pe: Seq<bool>, ns: Named, vs: Named, ps: Named)
        requires self.wf(), gathered(Ids::Nv(self.nodes_values_map@), off(self.parent), e, true, ns), gathered(Ids::Nv(self.nodes_values_map@), off(self.parent), e, false, vs), gathered(Ids::P(self.predicates_map@), poff(self.parent), pe, true, ps)
        ensures ids_differ(ns), ids_differ(vs), ids_differ(ps), apart(ns, vs), ids_in(ns, off(self.parent), self.node_count + self.val_count), ids_in(vs, off(self.parent), self.node_count + self.val_count), ids_in(ps, poff(self.parent), self.pred_count as int),
            ns.len() + vs.len() <= self.node_count + self.val_count, ps.len() <= self.pred_count
    {
        self.once(); reveal(gathered); reveal(nv_ids); reveal(p_ids);
        let (m, pm) = (Ids::Nv(self.nodes_values_map@), Ids::P(self.predicates_map@));
        gathered_ids(m, off(self.parent), e, true, ns); gathered_ids(m, off(self.parent), e, false, vs); gathered_ids(pm, poff(self.parent), pe, true, ps); gathered_apart(m, off(self.parent), e, ns, vs);
        assert forall|i: int| 0 <= i < ps.len() implies poff(self.parent) < (#[trigger] ps[i]).1 <= poff(self.parent) + self.pred_count by { assert(self.predicates_map@.contains_key(ps[i].0->Node_0)); }
        assert forall|i: int| 0 <= i < ns.len() implies off(self.parent) < (#[trigger] ns[i]).1 <= off(self.parent) + self.node_count + self.val_count by { assert(self.nodes_values_map@.contains_key(ns[i].0)); }
        assert forall|i: int| 0 <= i < vs.len() implies off(self.parent) < (#[trigger] vs[i]).1 <= off(self.parent) + self.node_count + self.val_count by { assert(self.nodes_values_map@.contains_key(vs[i].0)); }
        pigeons(ns, vs, off(self.parent), self.node_count + self.val_count); pigeons(ps, seq![], poff(self.parent), self.pred_count as int);
    }
@@fn layer/simple_builder.rs :: impl LayerBuilder for SimpleLayerBuilder :: commit
@ret r
@flag eager-args
@pre id_additions . iter_mut ( ) . peekable ( ) => __peek_mut(&mut id_additions)
@pre id_removals . iter_mut ( ) . peekable ( ) => __peek_mut(&mut id_removals)
@thread w : & mut World ; into_phase2 add_id_triples remove_id_triples finalize
@props A03 A04 A05 A07
@spec
    requires self.wf(), self.nodes_values_map_count < i64::MAX, self.predicates_map_count < i64::MAX, fresh_places(old(w).disk(), self.files)
    ensures match r { Ok(_) => exists|c: Content| #[trigger] committed(self, c) && c.stored_in(written_to(final(w).disk(), self.files)), Err(_) => final(w).fault() }
@at start
hide(InternalLayer::id_name); hide(InternalLayer::id_pred); hide(InternalLayer::names_wf); hide(InternalLayer::fresh_names); hide(InternalLayer::nv_count); hide(InternalLayer::p_count); hide(InternalLayer::has); hide(InternalLayer::triples_wf);
let ghost b0 = self; let ghost ncount = self.nodes_values_map_count as int; let ghost pcount = self.predicates_map_count as int; let ghost nvo = off(self.parent); let ghost po = poff(self.parent);
proof { pids_facts(self.parent); p_names(self.parent); }
@at call dedup
let ghost a01 = id_additions@;
@at call shrink_to_fit
let ghost a1 = id_additions@; proof { sort_dedup(b0.id_additions@, a01, a1); }
@at call dedup#1
let ghost r01 = id_removals@;
@at call shrink_to_fit#1
let ghost r1 = id_removals@; proof { sort_dedup(b0.id_removals@, r01, r1); }
@at let removals_it
let ghost fa = additions_it.fin(); let ghost fr = removals_it.fin();
@loop 0
invariant
    additions_it.same(a1, fa), removals_it.same(r1, fr), asc(a1), asc(r1), nvo == parent_node_value_offset, po == parent_predicate_offset,
    forall|k: int| 0 <= k < additions_it.pos() ==> #[trigger] fa[k] == zero_if(r1.contains(a1[k]), a1[k]),
    forall|k: int| 0 <= k < removals_it.pos() ==> #[trigger] fr[k] == zero_if(a1.contains(r1[k]) || !within(r1[k], nvo, po), r1[k]),
    forall|k: int, l: int| #![trigger a1[k], r1[l]] 0 <= k < additions_it.pos() && removals_it.pos() <= l < r1.len() ==> tlt(a1[k], r1[l]),
    forall|k: int, l: int| #![trigger a1[l], r1[k]] 0 <= k < removals_it.pos() && additions_it.pos() <= l < a1.len() ==> tlt(r1[k], a1[l]),
ensures noop_add(a1, r1, fa), noop_rem(a1, r1, nvo, po, fr)
decreases a1.len() - additions_it.pos() + r1.len() - removals_it.pos()
@at loopstart 0
let ghost i0 = additions_it.pos(); let ghost j0 = removals_it.pos();
@at break
proof { assert(j0 == r1.len());
    assert forall|k: int| i0 <= k < a1.len() implies !r1.contains(#[trigger] a1[k]) by { if r1.contains(a1[k]) { let l = choose|l: int| 0 <= l < r1.len() && r1[l] == a1[k]; assert(tlt(r1[l], a1[k])); } } }
additions_it.__done(); removals_it.__done();
proof { reveal(noop_add); reveal(noop_rem); }
@loop 1
invariant
    __f1.same(r1, fr), i0 == a1.len(), nvo == parent_node_value_offset, po == parent_predicate_offset, j0 <= __f1.pos(),
    forall|k: int| 0 <= k < __f1.pos() ==> #[trigger] fr[k] == zero_if(a1.contains(r1[k]) || !within(r1[k], nvo, po), r1[k]),
    forall|l: int| j0 <= l < r1.len() ==> !a1.contains(#[trigger] r1[l]),
ensures __f1.same(r1, fr), forall|k: int| 0 <= k < r1.len() ==> #[trigger] fr[k] == zero_if(a1.contains(r1[k]) || !within(r1[k], nvo, po), r1[k])
decreases r1.len() - __f1.pos()
@at beforeloop 1
proof { assert(i0 == a1.len());
    assert forall|l: int| j0 <= l < r1.len() implies !a1.contains(#[trigger] r1[l]) by { if a1.contains(r1[l]) { let k = choose|k: int| 0 <= k < a1.len() && a1[k] == r1[l]; assert(tlt(a1[k], r1[l])); } } }
@at break#1
additions_it.__done();
proof { reveal(noop_add); reveal(noop_rem); }
@at beforeloop 2
let ghost a2 = id_additions@; let ghost r2 = id_removals@; let ghost al = a2 + r2;
proof { noop_within(a1, r1, b0.id_additions@, b0.id_removals@, ncount, pcount, nvo, po, a2, r2); marks_none(node_value_existences@, al, nvo); marks_none(predicate_existences@, al, po); }
@loop 2
invariant
    0 <= __f2 <= id_additions@.len(), id_additions@ == a2, al == a2 + r2, all_within(a2, ncount, pcount), all_within(r2, ncount, pcount),
    nvo == parent_node_value_offset, po == parent_predicate_offset, ncount == nvo + node_value_existences@.len(), pcount == po + predicate_existences@.len(), ncount < i64::MAX, pcount < i64::MAX,
    node_value_existences@.len() == node_count + val_count, predicate_existences@.len() == pred_count, nvo >= 0, po >= 0,
    marks(node_value_existences@, al, __f2 as int, nvo), pmarks(predicate_existences@, al, __f2 as int, po),
decreases id_additions@.len() - __f2
@at loopstart 2
let ghost e0 = node_value_existences@; let ghost pe0 = predicate_existences@; let ghost q = __f2 - 1;
proof { reveal(all_within); assert(al[q] == *triple); mark_step(e0, al, q, nvo); pmark_step(pe0, al, q, po); }
@at loopend 2
proof { assert(node_value_existences@ =~= mark(mark(e0, al[q].subject, nvo), al[q].object, nvo)); assert(predicate_existences@ =~= mark(pe0, al[q].predicate, po)); }
@loop 3
invariant
    0 <= __f3 <= id_removals@.len(), id_removals@ == r2, al == a2 + r2, all_within(a2, ncount, pcount), all_within(r2, ncount, pcount),
    nvo == parent_node_value_offset, po == parent_predicate_offset, ncount == nvo + node_value_existences@.len(), pcount == po + predicate_existences@.len(), ncount < i64::MAX, pcount < i64::MAX,
    node_value_existences@.len() == node_count + val_count, predicate_existences@.len() == pred_count, nvo >= 0, po >= 0,
    marks(node_value_existences@, al, a2.len() + __f3 as int, nvo), pmarks(predicate_existences@, al, a2.len() + __f3 as int, po),
decreases id_removals@.len() - __f3
@at loopstart 3
let ghost e0 = node_value_existences@; let ghost pe0 = predicate_existences@; let ghost q = a2.len() + __f3 - 1;
proof { reveal(all_within); assert(al[q] == *triple); mark_step(e0, al, q, nvo); pmark_step(pe0, al, q, po); }
@at loopend 3
proof { assert(node_value_existences@ =~= mark(mark(e0, al[q].subject, nvo), al[q].object, nvo)); assert(predicate_existences@ =~= mark(pe0, al[q].predicate, po)); }
@at call with_capacity
let ghost e = node_value_existences@; let ghost pe = predicate_existences@;
@at beforeloop 4
let ghost ents = nodes_values_map.order(); let ghost all = ent_names(ents); let ghost mut q4: int = 0;
proof { nodes_values_map.all_listed(); ent_lists(b0.nodes_values_map@, ents); picks_none(all, nvo, e, true); picks_none(all, nvo, e, false); assert(named_nodes(nodes@) =~= seq![]); assert(named_vals(values@) =~= seq![]); }
@loop 4
invariant
    0 <= q4 <= ents.len(), __f4.left() == ents.skip(q4), all == ent_names(ents), lists(Ids::Nv(b0.nodes_values_map@), all), nv_ids(b0.nodes_values_map@, b0.parent, ncount), nvo == off(b0.parent), nvo == parent_node_value_offset, e == node_value_existences@, ncount == nvo + e.len(), nvo >= 0, ncount < i64::MAX,
    picks(all, q4, nvo, e, true, named_nodes(nodes@)), picks(all, q4, nvo, e, false, named_vals(values@)),
ensures picks(all, all.len() as int, nvo, e, true, named_nodes(nodes@)), picks(all, all.len() as int, nvo, e, false, named_vals(values@))
decreases ents.len() - q4
@at loopstart 4
proof { assert(all[q4] == (as_name(entry), id)); nv_ids_of(b0.nodes_values_map@, b0.parent, ncount, as_name(entry)); assert(Ids::Nv(b0.nodes_values_map@).has_key(all[q4].0));
    pick_step(all, q4, nvo, e, true, named_nodes(nodes@)); pick_step(all, q4, nvo, e, false, named_vals(values@)); named_nodes_push(nodes@); named_vals_push(values@); q4 = q4 + 1; }
@at beforeloop 5
let ghost pents = predicates_map.order(); let ghost pall = named_nodes(pents); let ghost mut q5: int = 0;
proof { picked_all(Ids::Nv(b0.nodes_values_map@), all, nvo, e, true, named_nodes(nodes@)); picked_all(Ids::Nv(b0.nodes_values_map@), all, nvo, e, false, named_vals(values@)); predicates_map.all_listed(); pent_lists(b0.predicates_map@, pents); picks_none(pall, po, pe, true); assert(named_nodes(predicates@) =~= seq![]); }
@loop 5
invariant
    0 <= q5 <= pents.len(), __f5.left() == pents.skip(q5), pall == named_nodes(pents), lists(Ids::P(b0.predicates_map@), pall), p_ids(b0.predicates_map@, b0.parent, pcount), po == poff(b0.parent), po == parent_predicate_offset, pe == predicate_existences@, pcount == po + pe.len(), po >= 0, pcount < i64::MAX,
    picks(pall, q5, po, pe, true, named_nodes(predicates@)),
ensures picks(pall, pall.len() as int, po, pe, true, named_nodes(predicates@))
decreases pents.len() - q5
@at loopstart 5
proof { assert(pall[q5] == (Name::Node(entry@), id)); p_ids_of(b0.predicates_map@, b0.parent, pcount, entry@); assert(Ids::P(b0.predicates_map@).has_key(pall[q5].0));
    pick_step(pall, q5, po, pe, true, named_nodes(predicates@)); named_nodes_push(predicates@); q5 = q5 + 1; }
@at call sort#2
let ghost nodes3 = nodes@; let ghost preds3 = predicates@; let ghost vals3 = values@;
proof { picked_all(Ids::P(b0.predicates_map@), pall, po, pe, true, named_nodes(predicates@)); }
@at let node_value_id_map
let ghost nodes4 = nodes@; let ghost preds4 = predicates@; let ghost vals4 = values@; let ghost ns = named_nodes(nodes4); let ghost vs = named_vals(vals4); let ghost ps = named_nodes(preds4);
proof { nodes_sorted(Ids::Nv(b0.nodes_values_map@), nvo, e, nodes3, nodes4); vals_sorted(Ids::Nv(b0.nodes_values_map@), nvo, e, vals3, vals4); nodes_sorted(Ids::P(b0.predicates_map@), po, pe, preds3, preds4);
    b0.once(); b0.sizes(e, pe, ns, vs, ps); given_none(node_value_id_map@, ns, nvo, nvo); }
@loop 6
invariant
    0 <= __f6 <= nodes@.len(), nodes@ == nodes4, ns == named_nodes(nodes4), ids_differ(ns), ids_in(ns, nvo, ncount - nvo), nvo == parent_node_value_offset, nvo >= 0, ncount < i64::MAX, node_value_id_map@.len() == ncount - nvo, ns.len() <= ncount - nvo,
    given(node_value_id_map@, ns, __f6 as int, nvo, nvo),
decreases nodes@.len() - __f6
@at loopstart 6
proof { assert(ns[new_id as int].1 == *old_id); given_step(node_value_id_map@, ns, new_id as int, nvo, nvo, (new_id + nvo + 1) as u64); }
@at beforeloop 7
proof { given_none(node_value_id_map@, vs, nvo, nvo + ns.len()); }
@loop 7
invariant
    0 <= __f7 <= values@.len(), values@ == vals4, nodes@ == nodes4, ns == named_nodes(nodes4), vs == named_vals(vals4), ids_differ(vs), ids_in(vs, nvo, ncount - nvo), ids_in(ns, nvo, ncount - nvo), apart(ns, vs), nvo == parent_node_value_offset, nvo >= 0, ncount < i64::MAX, node_value_id_map@.len() == ncount - nvo, ns.len() + vs.len() <= ncount - nvo,
    given(node_value_id_map@, ns, ns.len() as int, nvo, nvo), given(node_value_id_map@, vs, __f7 as int, nvo, nvo + ns.len()),
decreases values@.len() - __f7
@at loopstart 7
proof { assert(vs[new_id as int].1 == *old_id); given_step(node_value_id_map@, vs, new_id as int, nvo, nvo + ns.len(), (new_id + nvo + ns.len() + 1) as u64); given_other(node_value_id_map@, ns, vs, new_id as int, nvo, nvo, (new_id + nvo + ns.len() + 1) as u64); }
@at beforeloop 8
proof { given_none(predicate_id_map@, ps, po, po); }
@loop 8
invariant
    0 <= __f8 <= predicates@.len(), predicates@ == preds4, ps == named_nodes(preds4), ids_differ(ps), ids_in(ps, po, pcount - po), po == parent_predicate_offset, po >= 0, pcount < i64::MAX, predicate_id_map@.len() == pcount - po, ps.len() <= pcount - po,
    given(predicate_id_map@, ps, __f8 as int, po, po),
decreases predicates@.len() - __f8
@at loopstart 8
proof { assert(ps[new_id as int].1 == *old_id); given_step(predicate_id_map@, ps, new_id as int, po, po, (new_id + po + 1) as u64); }
@loop 9
invariant
    0 <= __f9 <= id_additions@.len(), id_additions@.len() == a2.len(), all_within(a2, ncount, pcount),
    nvo == parent_node_value_offset, po == parent_predicate_offset, ncount == nvo + node_value_id_map@.len(), pcount == po + predicate_id_map@.len(), ncount < i64::MAX, pcount < i64::MAX, nvo >= 0, po >= 0,
    renames(a2, node_value_id_map@, predicate_id_map@, nvo, po, __f9 as int, id_additions@),
decreases id_additions@.len() - __f9
@at loopend 9
proof { assert(id_additions@ =~= v0.update(q, renamed(a2[q], node_value_id_map@, predicate_id_map@, nvo, po))); }
@at beforeloop 9
proof { renames_none(a2, node_value_id_map@, predicate_id_map@, nvo, po); }
@at looppre 9
let ghost v0 = id_additions@; let ghost q = __f9 as int; proof { reveal(all_within); assert(within(a2[q], ncount, pcount)); renames_step(a2, node_value_id_map@, predicate_id_map@, nvo, po, q, v0); }
@loop 10
invariant
    0 <= __f10 <= id_removals@.len(), id_removals@.len() == r2.len(), all_within(r2, ncount, pcount),
    nvo == parent_node_value_offset, po == parent_predicate_offset, ncount == nvo + node_value_id_map@.len(), pcount == po + predicate_id_map@.len(), ncount < i64::MAX, pcount < i64::MAX, nvo >= 0, po >= 0,
    renames(r2, node_value_id_map@, predicate_id_map@, nvo, po, __f10 as int, id_removals@),
decreases id_removals@.len() - __f10
@at loopend 10
proof { assert(id_removals@ =~= v0.update(q, renamed(r2[q], node_value_id_map@, predicate_id_map@, nvo, po))); }
@at beforeloop 10
proof { renames_none(r2, node_value_id_map@, predicate_id_map@, nvo, po); }
@at looppre 10
let ghost v0 = id_removals@; let ghost q = __f10 as int; proof { reveal(all_within); assert(within(r2[q], ncount, pcount)); renames_step(r2, node_value_id_map@, predicate_id_map@, nvo, po, q, v0); }
@at call sort#5
let ghost a3 = id_additions@; let ghost r3 = id_removals@;
let ghost prep = Prep { b: b0, a1, r1, a2, r2, e, pe, ns, vs, ps, m: node_value_id_map@, pm: predicate_id_map@ };
proof { assert(prep.ok()); }
@at call into_child
let ghost a4 = id_additions@; let ghost r4 = id_removals@;
proof { prep.renamed_ascends(a2, a3, a4); prep.renamed_ascends(r2, r3, r4); prep.names_new(); p_ok_of(parent); prep.unknowns(parent, nodes4, vals4, preds4); }
@at call into_base
let ghost a4 = id_additions@; let ghost r4 = id_removals@;
proof { prep.renamed_ascends(a2, a3, a4); prep.renamed_ascends(r2, r3, r4); prep.names_new(); }
@loop c0
invariant __c0_acc@.len() + __c0_i.left().len() == nodes4.len(), forall|i: int| 0 <= i < __c0_acc@.len() ==> #[trigger] __c0_acc@[i] == nodes4[i].0, forall|i: int| 0 <= i < __c0_i.left().len() ==> #[trigger] __c0_i.left()[i] == nodes4[__c0_acc@.len() + i],
ensures __c0_acc@.len() == nodes4.len(), forall|i: int| 0 <= i < __c0_acc@.len() ==> #[trigger] __c0_acc@[i] == nodes4[i].0
decreases __c0_i.left().len()
@loop c1
invariant __c1_acc@.len() + __c1_i.left().len() == preds4.len(), forall|i: int| 0 <= i < __c1_acc@.len() ==> #[trigger] __c1_acc@[i] == preds4[i].0, forall|i: int| 0 <= i < __c1_i.left().len() ==> #[trigger] __c1_i.left()[i] == preds4[__c1_acc@.len() + i],
ensures __c1_acc@.len() == preds4.len(), forall|i: int| 0 <= i < __c1_acc@.len() ==> #[trigger] __c1_acc@[i] == preds4[i].0
decreases __c1_i.left().len()
@loop c2
invariant __c2_acc@.len() + __c2_i.left().len() == vals4.len(), forall|i: int| 0 <= i < __c2_acc@.len() ==> #[trigger] __c2_acc@[i] == vals4[i].0, forall|i: int| 0 <= i < __c2_i.left().len() ==> #[trigger] __c2_i.left()[i] == vals4[__c2_acc@.len() + i],
ensures __c2_acc@.len() == vals4.len(), forall|i: int| 0 <= i < __c2_acc@.len() ==> #[trigger] __c2_acc@[i] == vals4[i].0
decreases __c2_i.left().len()
@loop c3
invariant __c3_acc@.len() + __c3_i.left().len() == nodes4.len(), forall|i: int| 0 <= i < __c3_acc@.len() ==> #[trigger] __c3_acc@[i] == nodes4[i].0, forall|i: int| 0 <= i < __c3_i.left().len() ==> #[trigger] __c3_i.left()[i] == nodes4[__c3_acc@.len() + i],
ensures __c3_acc@.len() == nodes4.len(), forall|i: int| 0 <= i < __c3_acc@.len() ==> #[trigger] __c3_acc@[i] == nodes4[i].0
decreases __c3_i.left().len()
@loop c4
invariant __c4_acc@.len() + __c4_i.left().len() == preds4.len(), forall|i: int| 0 <= i < __c4_acc@.len() ==> #[trigger] __c4_acc@[i] == preds4[i].0, forall|i: int| 0 <= i < __c4_i.left().len() ==> #[trigger] __c4_i.left()[i] == preds4[__c4_acc@.len() + i],
ensures __c4_acc@.len() == preds4.len(), forall|i: int| 0 <= i < __c4_acc@.len() ==> #[trigger] __c4_acc@[i] == preds4[i].0
decreases __c4_i.left().len()
@loop c5
invariant __c5_acc@.len() + __c5_i.left().len() == vals4.len(), forall|i: int| 0 <= i < __c5_acc@.len() ==> #[trigger] __c5_acc@[i] == vals4[i].0, forall|i: int| 0 <= i < __c5_i.left().len() ==> #[trigger] __c5_i.left()[i] == vals4[__c5_acc@.len() + i],
ensures __c5_acc@.len() == vals4.len(), forall|i: int| 0 <= i < __c5_acc@.len() ==> #[trigger] __c5_acc@[i] == vals4[i].0
decreases __c5_i.left().len()
@at call into_phase2
let ghost c0 = builder.c();
proof { assert(c0.nodes =~= Seq::new(nodes4.len(), |i: int| nodes4[i].0@)); assert(c0.preds =~= Seq::new(preds4.len(), |i: int| preds4[i].0@)); assert(c0.vals =~= Seq::new(vals4.len(), |i: int| vals4[i].0)); }
@at call into_phase2#1
let ghost c0 = builder.c();
proof { assert(c0.nodes =~= Seq::new(nodes4.len(), |i: int| nodes4[i].0@)); assert(c0.preds =~= Seq::new(preds4.len(), |i: int| preds4[i].0@)); assert(c0.vals =~= Seq::new(vals4.len(), |i: int| vals4[i].0)); }
@at call finalize
proof { let c = builder.c(w.disk()); prep.done(a4, r4, c); assert(committed(b0, c)); }
@at call finalize#1
proof { let c = builder.c(w.disk()); prep.done(a4, r4, c); assert(committed(b0, c)); }
@@end
}
@@include build_prep.inc
}
fn main() {}
