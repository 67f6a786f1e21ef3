// The store API: named graphs, layers, builders.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::cmp::*;
use std::io;
verus! {
global size_of usize == 8;
@@include text.inc
@@include label.inc
@@include triple.inc
@@include store.inc

@@item store/mod.rs :: struct Store
@flag pub
@flag derives-clone
@subst Arc < dyn LabelStore > => LabelS
@subst Arc < dyn LayerStore > => LayerS
@@end
impl Clone for Store { #[verifier::external_body] fn clone(&self) -> (r: Store) ensures r == *self { unimplemented!() } }
@@item store/mod.rs :: struct StoreLayer
@flag pub
@flag derives-clone
@subst Arc < dyn Layer > => DynLayer
@@end
@@item store/mod.rs :: struct NamedGraph
@flag pub
@flag derives-clone
@@end

impl StoreLayer {
@@fn store/mod.rs :: impl StoreLayer :: wrap
@subst Arc < dyn Layer > => DynLayer
@ret r
@props L
@spec
    ensures r.layer == layer, r.store == store
@@end
@@fn store/mod.rs :: impl StoreLayer :: parent
@ret r
@props A12
@thread w : &mut World ; get_layer
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(None) => self.layer.par() is None,
        Ok(Some(l)) => (self.layer.par() matches Some(p) && loaded(*old(w), p, l.layer)) && l.store == self.store,
        Err(_) => final(w).fault() || (self.layer.par() matches Some(p) && !old(w).parents().contains_key(p)) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: retrieve_layer_stack_names
@ret r
@props A12
@thread w : &mut World ; retrieve_layer_stack_names
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(v) => is_chain(old(w).parents(), self.layer.nm(), v@),
        Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_additions
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@pre Box :: new ( result ) as Box < dyn Iterator < Item = _ > + Send > => result
@thread w : &mut World ; triple_additions
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == old(w).added(self.layer.nm()), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_additions_s
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_additions_s
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).added(self.layer.nm()), Some(subject), None, None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_additions_sp
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_additions_sp
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).added(self.layer.nm()), Some(subject), Some(predicate), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_additions_p
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_additions_p
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).added(self.layer.nm()), None, Some(predicate), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_additions_o
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_additions_o
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).added(self.layer.nm()), None, None, Some(object)), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_addition_exists
@ret r
@props A04
@thread w : &mut World ; triple_addition_exists
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(b) => b == old(w).added(self.layer.nm()).contains(IdTriple { subject, predicate, object }), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_layer_addition_count
@ret r
@props A07
@thread w : &mut World ; triple_layer_addition_count
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(b) => b == old(w).added(self.layer.nm()).len(), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removals
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@pre Box :: new ( result ) as Box < dyn Iterator < Item = _ > + Send > => result
@thread w : &mut World ; triple_removals
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == old(w).removed(self.layer.nm()), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removals_s
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_removals_s
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).removed(self.layer.nm()), Some(subject), None, None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removals_sp
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_removals_sp
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).removed(self.layer.nm()), Some(subject), Some(predicate), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removals_p
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_removals_p
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).removed(self.layer.nm()), None, Some(predicate), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removals_o
@ret r
@props A04
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@thread w : &mut World ; triple_removals_o
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(i) => i.rest() == sel(old(w).removed(self.layer.nm()), None, None, Some(object)), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_removal_exists
@ret r
@props A04
@thread w : &mut World ; triple_removal_exists
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(b) => b == old(w).removed(self.layer.nm()).contains(IdTriple { subject, predicate, object }), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl StoreLayer :: triple_layer_removal_count
@ret r
@props A07
@thread w : &mut World ; triple_layer_removal_count
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(b) => b == old(w).removed(self.layer.nm()).len(), Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: name
@ret r
@props L
@spec
    ensures r == self.layer.nm()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: parent_name
@ret r
@props A12
@spec
    ensures r == self.layer.par()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: node_and_value_count
@ret r
@props A07
@spec
    ensures r == self.layer.n_nv()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: predicate_count
@ret r
@props A07
@spec
    ensures r == self.layer.n_p()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triple_addition_count
@ret r
@props A07
@spec
    ensures r == self.layer.n_add()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triple_removal_count
@ret r
@props A07
@spec
    ensures r == self.layer.n_rem()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triple_exists
@ret r
@props A01
@spec
    ensures r == self.layer.set().contains(IdTriple { subject, predicate, object })
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triples
@ret r
@props A01
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@spec
    ensures r.rest() == self.layer.set()
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triples_s
@ret r
@props A01
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@spec
    ensures r.rest() == sel(self.layer.set(), Some(subject), None, None)
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triples_sp
@ret r
@props A01
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@spec
    ensures r.rest() == sel(self.layer.set(), Some(subject), Some(predicate), None)
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triples_p
@ret r
@props A01
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@spec
    ensures r.rest() == sel(self.layer.set(), None, Some(predicate), None)
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: triples_o
@ret r
@props A01
@subst Box < dyn Iterator < Item = IdTriple > + Send > => TripleIter
@spec
    ensures r.rest() == sel(self.layer.set(), None, None, Some(object))
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: subject_id
@ret r
@props A05
@spec
    ensures match r { Some(i) => self.layer.sub(i) == Some(subject@) && (forall|j: u64| #[trigger] self.layer.sub(j) == Some(subject@) ==> j == i), None => forall|j: u64| #[trigger] self.layer.sub(j) != Some(subject@) }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: predicate_id
@ret r
@props A05
@spec
    ensures match r { Some(i) => self.layer.pred(i) == Some(predicate@) && (forall|j: u64| #[trigger] self.layer.pred(j) == Some(predicate@) ==> j == i), None => forall|j: u64| #[trigger] self.layer.pred(j) != Some(predicate@) }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: object_node_id
@ret r
@props A05
@spec
    ensures match r { Some(i) => self.layer.obj(i) == Some(VO::Node(object@)) && (forall|j: u64| #[trigger] self.layer.obj(j) == Some(VO::Node(object@)) ==> j == i), None => forall|j: u64| #[trigger] self.layer.obj(j) != Some(VO::Node(object@)) }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: object_value_id
@ret r
@props A05
@spec
    ensures match r { Some(i) => self.layer.obj(i) == Some(VO::Value(*object)) && (forall|j: u64| #[trigger] self.layer.obj(j) == Some(VO::Value(*object)) ==> j == i), None => forall|j: u64| #[trigger] self.layer.obj(j) != Some(VO::Value(*object)) }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: id_subject
@ret r
@props A05
@spec
    ensures match r { Some(x) => self.layer.sub(id) == Some(x@), None => self.layer.sub(id) is None }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: id_predicate
@ret r
@props A05
@spec
    ensures match r { Some(x) => self.layer.pred(id) == Some(x@), None => self.layer.pred(id) is None }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: id_object
@ret r
@props A05
@spec
    ensures match r { Some(x) => self.layer.obj(id) == Some(x@), None => self.layer.obj(id) is None }
@@end
@@fn store/mod.rs :: impl Layer for StoreLayer :: id_object_is_node
@ret r
@props A05
@spec
    ensures match self.layer.obj(id) { Some(VO::Node(_)) => r == Some(true), Some(VO::Value(_)) => r == Some(false), None => r is None }
@@end
@@fn layer/layer.rs :: trait Layer :: id_triple_exists
@ret r
@props A01
@spec
    ensures r == self.layer.set().contains(triple)
@@end
@@fn layer/layer.rs :: trait Layer :: value_triple_to_id
@ret r
@props A05
@spec
    ensures match r { Some(t) => self.layer.named(t) == Some(triple@) && (forall|u: IdTriple| #[trigger] self.layer.named(u) == Some(triple@) ==> u == t), None => forall|u: IdTriple| #[trigger] self.layer.named(u) != Some(triple@) }
@@end
@@fn layer/layer.rs :: trait Layer :: value_triple_exists
@ret r
@props A01 A05 A21
@spec
    ensures r == self.layer.facts().contains(triple@)
@@end
@@fn layer/layer.rs :: trait Layer :: id_triple_to_string
@ret r
@props A05 A21
@spec
    ensures match r { Some(v) => self.layer.named(*triple) == Some(v@), None => self.layer.named(*triple) is None }
@@end
@@fn layer/layer.rs :: trait Layer :: id_object_is_value
@ret r
@props A05
@spec
    ensures match self.layer.obj(id) { Some(VO::Node(_)) => r == Some(false), Some(VO::Value(_)) => r == Some(true), None => r is None }
@@end
@@fn layer/layer.rs :: trait Layer :: triple_count
@ret r
@props A07
@spec
    requires self.layer.n_add() >= self.layer.n_rem()
    ensures r == self.layer.n_add() - self.layer.n_rem()
@@end
@@fn store/mod.rs :: impl StoreLayer :: open_write
@ret r
@props A22
@thread w : &mut World ; create_child_layer
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(b) => b.fresh(*old(w), Some(self.layer.nm())) && b.store == self.store,
        Err(_) => final(w).fault() || !old(w).parents().contains_key(self.layer.nm()) }
@@end
}

impl NamedGraph {
    pub open spec fn exists(&self, w: World) -> bool { w.labels().contains_key(self.label@) }
    pub open spec fn at(&self, w: World) -> (Option<Name>, nat) { w.labels()[self.label@] }
    /// the head becomes `l` and the version grows by one
    pub open spec fn moved(&self, a: World, b: World, l: Name) -> bool { self.exists(a) && label_set(a, b, self.label@, (Some(l), self.at(a).1 + 1)) }

@@fn store/mod.rs :: impl NamedGraph :: new
@ret r
@props L
@spec
    ensures r.label == label, r.store == store
@@end
@@fn store/mod.rs :: impl NamedGraph :: name
@ret r
@props A13
@spec
    ensures r@ == self.label@
@@end
@@fn store/mod.rs :: impl NamedGraph :: head_version
@ret r
@props A15
@thread w : &mut World ; get_label get_layer
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok((l, v)) => self.exists(*old(w)) && v == self.at(*old(w)).1 && match l { None => self.at(*old(w)).0 is None, Some(x) => (self.at(*old(w)).0 matches Some(n) && loaded(*old(w), n, x.layer)) && x.store == self.store },
        Err(_) => final(w).fault() || !self.exists(*old(w)) || (self.at(*old(w)).0 matches Some(n) && !old(w).parents().contains_key(n)) }
@@end
@@fn store/mod.rs :: impl NamedGraph :: head
@ret r
@props A15
@thread w : &mut World ; head_version
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(l) => self.exists(*old(w)) && match l { None => self.at(*old(w)).0 is None, Some(x) => (self.at(*old(w)).0 matches Some(n) && loaded(*old(w), n, x.layer)) && x.store == self.store },
        Err(_) => final(w).fault() || !self.exists(*old(w)) || (self.at(*old(w)).0 matches Some(n) && !old(w).parents().contains_key(n)) }
@@end
@@fn store/mod.rs :: impl NamedGraph :: set_head
@ret r
@props A15
@thread w : &mut World ; get_label set_label layer_is_ancestor_of
@spec
    requires versions_fit(*old(w))
    ensures same_layers(*old(w), *final(w)), match r {
        Ok(b) => self.exists(*old(w)) && b == (self.at(*old(w)).0 is None || descends(old(w).parents(), layer.layer.nm(), self.at(*old(w)).0->0))
            && if b { self.moved(*old(w), *final(w), layer.layer.nm()) } else { final(w).labels() == old(w).labels() },
        Err(_) => final(w).fault() || final(w).labels() == old(w).labels() && (!self.exists(*old(w)) || !old(w).parents().contains_key(layer.layer.nm())) }
@@end
@@fn store/mod.rs :: impl NamedGraph :: force_set_head
@ret r
@props A15
@thread w : &mut World ; get_label set_label
@loop 0
    invariant same_world(*old(w), *w), versions_fit(*w), layer_name == layer.layer.nm(),
    decreases 0nat,
@spec
    requires versions_fit(*old(w))
    ensures same_layers(*old(w), *final(w)), match r {
        Ok(_) => self.moved(*old(w), *final(w), layer.layer.nm()),
        Err(_) => final(w).fault() || !self.exists(*old(w)) && final(w).labels() == old(w).labels() }
@@end
@@fn store/mod.rs :: impl NamedGraph :: force_set_head_version
@ret r
@props A15
@thread w : &mut World ; get_label set_label
@spec
    requires versions_fit(*old(w))
    ensures same_layers(*old(w), *final(w)), match r {
        Ok(b) => self.exists(*old(w)) && b == (self.at(*old(w)).1 == version) && if b { self.moved(*old(w), *final(w), layer.layer.nm()) } else { final(w).labels() == old(w).labels() },
        Err(_) => final(w).fault() || !self.exists(*old(w)) && final(w).labels() == old(w).labels() }
@@end
@@fn store/mod.rs :: impl NamedGraph :: delete
@ret r
@props A13 A15
@thread w : &mut World ; delete
@result map
@spec
    ensures same_layers(*old(w), *final(w)), match r { Ok(_) => final(w).labels() == old(w).labels().remove(self.label@), Err(_) => final(w).fault() }
@@end
}

/// (fixes the element type of a collected vector)
pub open spec fn str_count(v: &Vec<String>) -> nat { v@.len() }
/// every label's name, each once
pub open spec fn lists_names(v: Seq<String>, w: World) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> w.labels().contains_key((#[trigger] v[i])@)
    &&& forall|n: Seq<char>| #[trigger] w.labels().contains_key(n) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
}
impl Store {
@@fn store/mod.rs :: impl Store :: create
@ret r
@props A13
@thread w : &mut World ; create_label
@spec
    ensures same_layers(*old(w), *final(w)), match r {
        Ok(g) => !old(w).labels().contains_key(label@) && label_set(*old(w), *final(w), label@, (None, 0)) && g.label@ == label@ && g.store == *self,
        Err(_) => final(w).fault() || old(w).labels().contains_key(label@) && final(w).labels() == old(w).labels() }
@@end
@@fn store/mod.rs :: impl Store :: open
@ret r
@props A13
@thread w : &mut World ; get_label
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(Some(g)) => old(w).labels().contains_key(label@) && g.label@ == label@ && g.store == *self,
        Ok(None) => !old(w).labels().contains_key(label@),
        Err(_) => final(w).fault() }
@@end
@@fn store/mod.rs :: impl Store :: delete
@ret r
@props A13
@thread w : &mut World ; delete_label
@spec
    ensures same_layers(*old(w), *final(w)), match r { Ok(b) => b == old(w).labels().contains_key(label@) && final(w).labels() == old(w).labels().remove(label@), Err(_) => final(w).fault() }
@@end
@@fn store/mod.rs :: impl Store :: labels
@ret r
@props A13
@thread w : &mut World ; labels
@loop c0
    invariant
        __c0_i <= labels@.len(), str_count(&__c0_acc) == __c0_i,
        forall|k: int| #![trigger __c0_acc@[k]] #![trigger labels@[k]] 0 <= k < __c0_i ==> __c0_acc@[k]@ == labels@[k]@.name,
    decreases labels@.len() - __c0_i,
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(v) => lists_names(v@, *old(w)),
        Err(_) => final(w).fault() }
@@end
@@fn store/mod.rs :: impl Store :: get_layer_from_id
@ret r
@props A12
@thread w : &mut World ; get_layer
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(Some(l)) => loaded(*old(w), layer, l.layer) && l.store == *self,
        Ok(None) => !old(w).parents().contains_key(layer),
        Err(_) => final(w).fault() }
@@end
@@fn store/mod.rs :: impl Store :: create_base_layer
@ret r
@props A22
@thread w : &mut World ; StoreLayerBuilder::new
@spec
    ensures same_world(*old(w), *final(w)), match r {
        Ok(b) => b.fresh(*old(w), None) && b.store == *self,
        Err(_) => final(w).fault() }
@@end
}

// ---- builders
pub struct Guard<'a, T> { pub r: &'a mut T }
impl<'a, T> Guard<'a, T> {
    pub fn expect(self, m: &str) -> (r: &'a mut T) ensures *r == *old(self.r), *final(r) == *final(self.r) { self.r }
}
pub struct ReadGuard<'a, T> { pub r: &'a T }
impl<'a, T> ReadGuard<'a, T> {
    pub fn expect(self, m: &str) -> (r: &'a T) ensures *r == *self.r { self.r }
}
/// std's lock: hands out what it guards to one holder at a time and is not poisoned (assumed)
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> {
    pub fn new(v: T) -> (r: RwLock<T>) ensures r.v == v { RwLock { v } }
    pub fn read(&self) -> (r: ReadGuard<'_, T>) ensures *r.r == self.v { ReadGuard { r: &self.v } }
    pub fn write(&mut self) -> (r: Guard<'_, T>) ensures *r.r == old(self).v, *final(r.r) == final(self).v { Guard { r: &mut self.v } }
}
/// the shared lock of a builder and its clones: making one moves the value in
pub fn __shared<T>(x: RwLock<T>) -> (r: RwLock<T>) ensures r == x { x }

@@item store/mod.rs :: struct StoreLayerBuilder
@flag pub
@flag derives-clone
@subst Arc < dyn Layer > => DynLayer
@subst Arc < RwLock < Option < Box < dyn LayerBuilder > > > > => RwLock<Option<BuilderS>>
@@end
impl StoreLayerBuilder {
    pub open spec fn open(&self) -> bool { self.builder.v is Some }
    pub open spec fn held(&self) -> Held { self.builder.v->0.held() }
    /// what the builder reports is what it commits
    pub open spec fn wf(&self) -> bool { self.open() ==> self.builder.v->0.nm() == self.name && self.builder.v->0.par() == self.parent }
    pub open spec fn same(&self, o: &StoreLayerBuilder) -> bool { self.name == o.name && self.parent == o.parent && self.store == o.store }
    pub open spec fn parent_name(&self) -> Option<Name> { match self.parent { Some(p) => Some(p.nm()), None => None } }
    pub open spec fn fresh(&self, w: World, p: Option<Name>) -> bool {
        &&& self.wf() && self.open() && self.held() == nothing()
        &&& match p { None => self.parent is None, Some(n) => self.parent is Some && loaded(w, n, self.parent->0) }
        &&& !w.parents().contains_key(self.name)
    }
    /// it held `h` more than before
    pub open spec fn step(&self, f: &StoreLayerBuilder, h: Held) -> bool { f.same(self) && f.wf() && f.open() && f.held() == h }
    pub open spec fn unchanged(&self, f: &StoreLayerBuilder) -> bool { *f == *self }

@@fn store/mod.rs :: impl StoreLayerBuilder :: new
@ret r
@props A22
@subst Self => StoreLayerBuilder
@subst Arc :: new => __shared
@thread w : &mut World ; create_base_layer
@spec
    ensures same_world(*old(w), *final(w)), match r { Ok(b) => b.fresh(*old(w), None) && b.store == store, Err(_) => final(w).fault() }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: wrap
@ret r
@props A22
@subst Box < dyn LayerBuilder > => BuilderS
@subst Arc :: new => __shared
@spec
    ensures r.wf(), r.open(), r.builder.v == Some(builder), r.store == store
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: with_builder
@ret r
@props A22
@subst & self => & mut self
@subst Box < dyn LayerBuilder > => BuilderS
@spec
    requires old(self).open() ==> forall|b: &mut BuilderS| *b == old(self).builder.v->0 ==> call_requires(f, (b,)),
    ensures final(self).same(old(self)),
        if old(self).open() { r is Ok && exists|m: &mut BuilderS| *m == old(self).builder.v->0 && call_ensures(f, (m,), r.unwrap()) && final(self).builder.v == Some(*final(m)) }
        else { r is Err && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: name
@ret r
@props A22
@spec
    ensures r == self.name
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: parent
@ret r
@props A22
@subst Arc < dyn Layer > => DynLayer
@spec
    ensures r == self.parent
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: add_value_triple
@ret r
@props A22
@subst & self => & mut self
@closure 0 b: &mut BuilderS
-> (z: ()) ensures final(b).same(old(b)), final(b).held() == (Held { av: old(b).held().av.insert(triple@), ..old(b).held() })
@spec
    requires old(self).wf()
    ensures if old(self).open() { r is Ok && old(self).step(final(self), Held { av: old(self).held().av.insert(triple@), ..old(self).held() }) } else { r is Err && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: add_id_triple
@ret r
@props A22
@subst & self => & mut self
@closure 0 b: &mut BuilderS
-> (z: ()) ensures final(b).same(old(b)), final(b).held() == (Held { ai: old(b).held().ai.insert(triple), ..old(b).held() })
@spec
    requires old(self).wf()
    ensures if old(self).open() { r is Ok && old(self).step(final(self), Held { ai: old(self).held().ai.insert(triple), ..old(self).held() }) } else { r is Err && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: remove_value_triple
@ret r
@props A22
@subst & self => & mut self
@closure 0 b: &mut BuilderS
-> (z: ()) ensures final(b).same(old(b)), final(b).held() == (Held { rv: old(b).held().rv.insert(triple@), ..old(b).held() })
@spec
    requires old(self).wf()
    ensures if old(self).open() { r is Ok && old(self).step(final(self), Held { rv: old(self).held().rv.insert(triple@), ..old(self).held() }) } else { r is Err && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: remove_id_triple
@ret r
@props A22
@subst & self => & mut self
@closure 0 b: &mut BuilderS
-> (z: ()) ensures final(b).same(old(b)), final(b).held() == (Held { ri: old(b).held().ri.insert(triple), ..old(b).held() })
@spec
    requires old(self).wf()
    ensures if old(self).open() { r is Ok && old(self).step(final(self), Held { ri: old(self).held().ri.insert(triple), ..old(self).held() }) } else { r is Err && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: committed
@ret r
@props A22
@spec
    ensures r == !self.open()
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: commit_no_load
@ret r
@props A22
@subst & self => & mut self
@pre & mut guard => guard
@thread w : &mut World ; commit_boxed finalize_layer
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)), final(self).wf(), !final(self).open(), final(w).labels() == old(w).labels(),
        match r {
            Ok(_) => old(self).open() && final(w).written() == old(w).written().insert(old(self).name, (old(self).parent_name(), old(self).held()))
                && final(w).parents() == old(w).parents().insert(old(self).name, old(self).parent_name()) && final(w).fault() == old(w).fault(),
            Err(_) => final(w).fault() || !old(self).open() && *final(w) == *old(w) && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: commit
@ret r
@props A22
@subst & self => & mut self
@thread w : &mut World ; commit_no_load get_layer
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)), final(self).wf(), !final(self).open(), final(w).labels() == old(w).labels(),
        match r {
            Ok(l) => old(self).open() && final(w).written() == old(w).written().insert(old(self).name, (old(self).parent_name(), old(self).held()))
                && final(w).parents() == old(w).parents().insert(old(self).name, old(self).parent_name())
                && l.layer.nm() == old(self).name && l.layer.par() == old(self).parent_name() && l.store == old(self).store,
            Err(_) => final(w).fault() || !old(self).open() && *final(w) == *old(w) && *final(self) == *old(self) }
@@end
@@fn store/mod.rs :: impl StoreLayerBuilder :: apply_delta
@ret r
@props A21 A22
@subst & self => & mut self
@thread w : &mut World ; triple_additions triple_removals
@at start
let ghost a0 = old(w).added(delta.layer.nm());
let ghost r0 = old(w).removed(delta.layer.nm());
let ghost s0 = *self;
@loop c0
    invariant_except_break
        __c0_acc is Ok,
        s0.open() ==> s0.step(self, Held { av: grown(s0.held().av, a0, __c0_i.rest(), delta.layer), ..s0.held() }),
        !s0.open() ==> grown(Set::empty(), a0, __c0_i.rest(), delta.layer) == Set::<VT>::empty(),
    invariant
        s0.wf(), !s0.open() ==> *self == s0,
        forall|t: IdTriple| #[trigger] __c0_i.rest().contains(t) ==> a0.contains(t),
    ensures
        match __c0_acc { Ok(_) => if s0.open() { s0.step(self, Held { av: s0.held().av.union(named_set(a0, delta.layer)), ..s0.held() }) } else { named_set(a0, delta.layer) =~= Set::empty() },
            Err(_) => !s0.open() },
    decreases __c0_i.left(),
@loop c1
    invariant_except_break
        __c1_acc is Ok,
        s0.open() ==> s0.step(self, Held { av: s0.held().av.union(named_set(a0, delta.layer)), rv: grown(s0.held().rv, r0, __c1_i.rest(), delta.layer), ..s0.held() }),
        !s0.open() ==> grown(Set::empty(), r0, __c1_i.rest(), delta.layer) == Set::<VT>::empty(),
    invariant
        s0.wf(), !s0.open() ==> *self == s0,
        forall|t: IdTriple| #[trigger] __c1_i.rest().contains(t) ==> r0.contains(t),
    ensures
        match __c1_acc { Ok(_) => if s0.open() { s0.step(self, Held { av: s0.held().av.union(named_set(a0, delta.layer)), rv: s0.held().rv.union(named_set(r0, delta.layer)), ..s0.held() }) } else { named_set(r0, delta.layer) =~= Set::empty() },
            Err(_) => !s0.open() },
    decreases __c1_i.left(),
@spec
    requires old(self).wf()
    ensures same_world(*old(w), *final(w)), final(self).same(old(self)), final(self).wf(), final(self).open() == old(self).open(),
        match r {
            Ok(_) => if old(self).open() { final(self).held() == (Held { av: old(self).held().av.union(named_set(old(w).added(delta.layer.nm()), delta.layer)), rv: old(self).held().rv.union(named_set(old(w).removed(delta.layer.nm()), delta.layer)), ..old(self).held() }) }
                else { *final(self) == *old(self) && named_set(old(w).added(delta.layer.nm()), delta.layer) =~= Set::empty() && named_set(old(w).removed(delta.layer.nm()), delta.layer) =~= Set::empty() },
            Err(_) => final(w).fault() || !old(w).parents().contains_key(delta.layer.nm()) || !old(self).open() && *final(self) == *old(self) }
@@end
    pub open spec fn parent_facts(&self) -> Set<VT> { match self.parent { Some(p) => p.facts(), None => Set::empty() } }
@@fn store/mod.rs :: impl StoreLayerBuilder :: apply_diff
@ret r
@props A21 A22
@subst & self => & mut self
@at start
let ghost s0 = *self;
let ghost pf = self.parent_facts();
let ghost of = other.layer.facts();
proof { assert(s0.held().rv.union(Set::<VT>::empty().difference(of)) =~= s0.held().rv); if of.difference(pf) == Set::<VT>::empty() && pf.difference(of) == Set::<VT>::empty() { no_difference(of, pf); } }
@loop c0
    invariant_except_break
        __c0_acc is Ok,
        s0.open() ==> s0.step(self, Held { rv: grown_not(s0.held().rv, this.set(), __c0_i.rest(), this, of), ..s0.held() }),
        !s0.open() ==> grown_not(Set::empty(), this.set(), __c0_i.rest(), this, of) == Set::<VT>::empty(),
    invariant
        s0.wf(), !s0.open() ==> *self == s0, of == other.layer.facts(),
        forall|t: IdTriple| #[trigger] __c0_i.rest().contains(t) ==> this.set().contains(t),
    ensures
        match __c0_acc { Ok(_) => if s0.open() { s0.step(self, Held { rv: s0.held().rv.union(this.facts().difference(of)), ..s0.held() }) } else { this.facts().difference(of) =~= Set::<VT>::empty() },
            Err(_) => !s0.open() },
    decreases __c0_i.left(),
@loop c1
    invariant_except_break
        __c1_acc is Ok,
        s0.open() ==> s0.step(self, Held { rv: s0.held().rv.union(pf.difference(of)), av: grown_not(s0.held().av, other.layer.set(), __c1_i.rest(), other.layer, pf), ..s0.held() }),
        !s0.open() ==> grown_not(Set::empty(), other.layer.set(), __c1_i.rest(), other.layer, pf) == Set::<VT>::empty(),
    invariant
        s0.wf(), !s0.open() ==> *self == s0, pf == s0.parent_facts(), of == other.layer.facts(), self.parent == s0.parent,
        forall|t: IdTriple| #[trigger] __c1_i.rest().contains(t) ==> other.layer.set().contains(t),
    ensures
        match __c1_acc { Ok(_) => if s0.open() { s0.step(self, Held { rv: s0.held().rv.union(pf.difference(of)), av: s0.held().av.union(of.difference(pf)), ..s0.held() }) } else { of.difference(pf) =~= Set::<VT>::empty() },
            Err(_) => !s0.open() },
    decreases __c1_i.left(),
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)), final(self).wf(), final(self).open() == old(self).open(),
        match r {
            Ok(_) => if old(self).open() { final(self).held() == (Held { av: old(self).held().av.union(other.layer.facts().difference(old(self).parent_facts())), rv: old(self).held().rv.union(old(self).parent_facts().difference(other.layer.facts())), ..old(self).held() }) }
                else { *final(self) == *old(self) && other.layer.facts() =~= old(self).parent_facts() },
            Err(_) => !old(self).open() && *final(self) == *old(self) }
@@end
}
proof fn no_difference(a: Set<VT>, b: Set<VT>) requires a.difference(b) == Set::<VT>::empty(), b.difference(a) == Set::<VT>::empty() ensures a == b
{
    assert forall|x: VT| a.contains(x) == b.contains(x) by { assert(!a.difference(b).contains(x)); assert(!b.difference(a).contains(x)); }
    assert(a =~= b);
}
/// a diff applied to a fresh builder and committed gives the other layer's triples (a commit gives parent, with
/// what is added, without what is removed and not also added: A03)
pub proof fn diff_reaches(p: Set<VT>, o: Set<VT>)
    ensures p.difference(p.difference(o)).union(o.difference(p)) =~= o, p.union(o.difference(p)).difference(p.difference(o)) =~= o
{ }
fn main() {}
}
