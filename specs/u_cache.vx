// The layer cache: what it holds, and the store that consults it.
use vstd::prelude::*;
use std::sync::Arc;
use std::io;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@item layer/layer.rs :: struct IdTriple
@flag pub
@@end
@@include ids.inc
@@include lstore.inc
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);
#[verifier::external_body] pub struct Path { _x: () }
/// the iterator over one layer's additions or removals (proved in u_iter)
#[verifier::external_body] pub struct OptInternalLayerTripleSubjectIterator { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
impl Clone for StringDict { #[verifier::external_body] fn clone(&self) -> (r: StringDict) ensures r == *self { unimplemented!() } }
impl Clone for TypedDict { #[verifier::external_body] fn clone(&self) -> (r: TypedDict) ensures r == *self { unimplemented!() } }
impl Clone for IdMap { #[verifier::external_body] fn clone(&self) -> (r: IdMap) ensures r == *self { unimplemented!() } }
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
pub fn __boxed(s: Stream) -> (r: Stream) ensures r == s { s }
// ---- queries of a loaded layer: the contracts they are proved against in u_exists, u_iter, u_ids and u_poiter
impl InternalLayer {
    #[verifier::external_body] pub fn internal_triple_addition_exists(&self, subject: u64, predicate: u64, object: u64) -> (r: bool) requires self.triples_wf() ensures r == self.own().adds(subject, predicate, object) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removal_exists(&self, subject: u64, predicate: u64, object: u64) -> (r: bool) requires self.triples_wf() ensures r == self.own().dels(subject, predicate, object) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_additions(&self) -> (r: OptInternalLayerTripleSubjectIterator) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().addst(t)) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removals(&self) -> (r: OptInternalLayerTripleSubjectIterator) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().delst(t)) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_additions_s(&self, subject: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().addst(t) && t.subject == subject) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removals_s(&self, subject: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().delst(t) && t.subject == subject) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_additions_sp(&self, subject: u64, predicate: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().addst(t) && t.subject == subject && t.predicate == predicate) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removals_sp(&self, subject: u64, predicate: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().delst(t) && t.subject == subject && t.predicate == predicate) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_additions_p(&self, predicate: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().addst(t) && t.predicate == predicate) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removals_p(&self, predicate: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().delst(t) && t.predicate == predicate) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_additions_o(&self, object: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().addst(t) && t.object == object) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_removals_o(&self, object: u64) -> (r: Stream) requires self.triples_wf() ensures r.lists(|t: IdTriple| self.own().delst(t) && t.object == object) { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_layer_addition_count(&self) -> (r: usize) requires self.own_counts_wf() ensures r == self.own().n_adds() { unimplemented!() }
    #[verifier::external_body] pub fn internal_triple_layer_removal_count(&self) -> (r: usize) requires self.own_counts_wf() ensures r == self.own().n_dels() { unimplemented!() }
    pub open spec fn own_counts_wf(&self) -> bool { self.own().wf() }
@@fn layer/internal/mod.rs :: impl InternalLayer :: is_rollup
@ret r
@props A20
@spec ensures r == (*self is Rollup)
@@end
}
/// a layer that is no rollup holds what is recorded for its name
pub proof fn plain(l: Lay, n: Name5, x: &InternalLayer) requires ok(Data { lay: l, roll: Map::empty() }), faithful(l, n, *x), !(*x is Rollup) ensures x.own() == l.own[n], x.triples_wf(), x.own_counts_wf(), l.own.contains_key(n)
{ ok_chains(Data { lay: l, roll: Map::empty() }); faithful_answers(l, n, x); reveal(all_wf); }
pub proof fn no_roll(d: Data) requires ok(d) ensures ok(Data { lay: d.lay, roll: Map::empty() })
{ let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk); assert(acyclic(Data { lay: d.lay, roll: Map::empty() }, rk)); }
/// what the cache has is faithful, and what it does is no write
pub proof fn cached<S: LayerStore>(s: &S, c: Option<int>, a: World, b: World, n: Name5)
    requires ready(s.data(a), a), fewer(a, b), b.disk() == a.disk(), b.fault() == a.fault()
    ensures kept(s.data(a), s.data(b), a, b), held(c, a, n) matches Some(x) ==> faithful(s.data(a).lay, n, x) && x.lname() == n && x.lparent_name() == par_of(s.data(a).lay, n)
        && (!(x is Rollup) ==> x.own() == own_of(s.data(a), n) && x.triples_wf() && x.own_counts_wf()) && there(s.data(a), n)
{
    s.data_same(b, a); fewer_ok(s.data(a).lay, a, b); no_roll(s.data(a)); ok_chains(s.data(a));
    if held(c, a, n) is Some {
        let x = held(c, a, n)->0;
        cell_faithful(s.data(a).lay, a, c->0, n);
        faithful_answers(s.data(a).lay, n, &x);
        if !(x is Rollup) { plain(s.data(a).lay, n, &x); }
    }
}
// ---- the caches
@@item storage/cache.rs :: struct NoCache
@flag pub
@@end
impl LayerCache for NoCache {
    open spec fn cell(&self) -> Option<int> { None }
@@fn storage/cache.rs :: impl LayerCache for NoCache :: get_layer_from_cache
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache
@props A20
@@end
@@fn storage/cache.rs :: impl LayerCache for NoCache :: cache_layer
@flag trait-fn
@thread w : & mut World ; cache_layer
@props A20
@@end
@@fn storage/cache.rs :: impl LayerCache for NoCache :: invalidate
@flag trait-fn
@thread w : & mut World ; invalidate
@props A20
@@end
}
/// std::sync::Weak: refers to a layer for as long as somebody else keeps it
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Weak<T> { x: core::marker::PhantomData<T> }
impl<T> Weak<T> {
    pub uninterp spec fn at(&self) -> T;
    #[verifier::external_body] pub fn upgrade(&self) -> (r: Option<Arc<T>>) ensures r matches Some(x) ==> *x == self.at() { unimplemented!() }
    #[verifier::external_body] pub fn to_owned(&self) -> (r: Weak<T>) ensures r.at() == self.at() { unimplemented!() }
}
#[verifier::external_body] pub fn __downgrade<T>(a: &Arc<T>) -> (r: Weak<T>) ensures r.at() == **a { unimplemented!() }
/// the locked table (one holder at a time; never poisoned: assumed). What it refers to is in the world.
#[verifier::external_body] pub struct Table { _x: () }
#[verifier::external_body] pub struct Guard { _x: () }
pub struct Got { pub g: Guard }
impl Got { pub fn expect(self, s: &str) -> (r: Guard) ensures r == self.g { self.g } }
impl Table {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn read(&self) -> (r: Got) ensures r.g.id() == self.id() { unimplemented!() }
    #[verifier::external_body] pub fn write(&self) -> (r: Got) ensures r.g.id() == self.id() { unimplemented!() }
}
pub open spec fn table_set(a: World, b: World, i: int, m: Map<Name5, InternalLayer>) -> bool { b.cell(i) == m && b.disk() == a.disk() && b.fault() == a.fault() && forall|c: int| c != i ==> #[trigger] b.cell(c) == a.cell(c) }
impl Guard {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn get(&self, n: &Name5, w: &mut World) -> (r: Option<&Weak<InternalLayer>>)
        ensures *final(w) == *old(w), match r { Some(x) => old(w).cell(self.id()).contains_key(*n) && x.at() == old(w).cell(self.id())[*n], None => !old(w).cell(self.id()).contains_key(*n) } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, n: &Name5, w: &mut World) ensures final(self).id() == old(self).id(), table_set(*old(w), *final(w), old(self).id(), old(w).cell(old(self).id()).remove(*n)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, n: Name5, x: Weak<InternalLayer>, w: &mut World) ensures final(self).id() == old(self).id(), table_set(*old(w), *final(w), old(self).id(), old(w).cell(old(self).id()).insert(n, x.at())) { unimplemented!() }
}
pub assume_specification<T> [std::mem::drop::<T>](x: T);
@@item storage/cache.rs :: struct LockingHashMapLayerCache
@flag pub
@derive
@subst RwLock < HashMap < [u32 ; 5] , Weak < InternalLayer > > > => Table
@@end
impl LayerCache for LockingHashMapLayerCache {
    open spec fn cell(&self) -> Option<int> { Some(self.cache.id()) }
@@fn storage/cache.rs :: impl LayerCache for LockingHashMapLayerCache :: get_layer_from_cache
@ret r
@flag trait-fn
@thread w : & mut World ; get remove
@props A20
@@end
@@fn storage/cache.rs :: impl LayerCache for LockingHashMapLayerCache :: cache_layer
@flag trait-fn
@thread w : & mut World ; insert
@subst Arc :: downgrade => __downgrade
@props A20
@@end
@@fn storage/cache.rs :: impl LayerCache for LockingHashMapLayerCache :: invalidate
@flag trait-fn
@thread w : & mut World ; remove
@props A20
@@end
}
// ---- the store with a cache
@@item storage/cache.rs :: struct CachedLayerStore
@flag pub
@derive
@subst struct CachedLayerStore => struct CachedLayerStore<S, K>
@subst Arc < dyn LayerStore > => Arc<S>
@subst Arc < dyn LayerCache > => Arc<K>
@@end
impl<S: LayerStore, K: LayerCache> CachedLayerStore<S, K> {
@@fn storage/cache.rs :: impl CachedLayerStore :: invalidate
@thread w : & mut World ; invalidate
@props A20
@spec
    ensures held(self.cache.cell(), *final(w), name) is None, only(self.cache.cell(), *old(w), *final(w), name), final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault()
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_layer
@ret r
@thread w : & mut World ; get_layer_with_cache
@props A20
@spec
    requires ready(self.data(*old(w)), *old(w))
    ensures loads(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), self.cache.cell(), name, r)
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: create_child_layer
@ret r
@thread w : & mut World ; create_child_layer_with_cache
@subst Box < dyn LayerBuilder > => Builder
@props A20
@spec
    requires ready(self.data(*old(w)), *old(w))
    ensures Self::creates_child(*self, *old(w), *final(w), parent, r)
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: perform_rollup_upto
@ret r
@thread w : & mut World ; perform_rollup_upto_with_cache
@props A20
@spec
    requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
    ensures Self::rolls(*self, *old(w), *final(w), *layer, Some(upto), r)
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: perform_imprecise_rollup_upto
@ret r
@thread w : & mut World ; perform_imprecise_rollup_upto_with_cache
@props A20
@spec
    requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
    ensures Self::rolls_roughly(*self, *old(w), *final(w), *layer, upto, r)
@@end
/// a rollup that has been registered is what is loaded next
pub fn __rollup_honoured(&self, layer: Name5, rollup: Name5, w: &mut World) -> (r: Result<Option<Arc<InternalLayer>>, io::Error>)
    requires ready(self.data(*old(w)), *old(w)), may_stand_in(self.data(*old(w)), layer, rollup), layer != rollup
    ensures r matches Ok(Some(x)) ==> x.lname() == layer && (*x matches InternalLayer::Rollup(y) && stands_in(registered(self.data(*old(w)), layer, rollup), layer, y.internal.lname()))
        && (forall|s: u64, p: u64, o: u64| #[trigger] x.has(s, p, o) == truth(self.data(*old(w)).lay, layer, s, p, o))
{
    let ghost w0 = *w;
    match self.register_rollup(layer, rollup, w) {
        Ok(_) => {
            proof { ok_chains(self.data(*w)); }
            let x = self.get_layer(layer, w);
            proof { if let Ok(Some(ref y)) = x { faithful_answers(self.data(w0).lay, layer, &**y); } }
            x
        },
        Err(e) => Err(e),
    }
}
}
impl<S: LayerStore, K: LayerCache> LayerStore for CachedLayerStore<S, K> {
    open spec fn data(&self, w: World) -> Data { self.inner.data(w) }
    proof fn data_same(&self, v: World, w: World) { self.inner.data_same(v, w); }
    open spec fn finalizes(s: Self, a: World, b: World, n: Name5, r: Result<(), io::Error>) -> bool { S::finalizes(*s.inner, a, b, n, r) }
    open spec fn creates_base(s: Self, a: World, b: World, r: Result<Builder, io::Error>) -> bool { S::creates_base(*s.inner, a, b, r) }
    open spec fn creates_child(s: Self, a: World, b: World, p: Name5, r: Result<Builder, io::Error>) -> bool { S::creates_child(*s.inner, a, b, p, r) }
    open spec fn rolls(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool { S::rolls(*s.inner, a, b, l, upto, r) }
    open spec fn rolls_roughly(s: Self, a: World, b: World, l: InternalLayer, upto: Name5, r: Result<Name5, io::Error>) -> bool { S::rolls_roughly(*s.inner, a, b, l, upto, r) }
    open spec fn squashes(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool { S::squashes(*s.inner, a, b, l, upto, r) }
    open spec fn merges(s: Self, a: World, b: World, ls: Seq<Name5>, r: Result<Name5, io::Error>) -> bool { S::merges(*s.inner, a, b, ls, r) }
    open spec fn forgotten(&self, w: World, n: Name5) -> bool { held(self.cache.cell(), w, n) is None }

@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: layers
@ret r
@flag trait-fn
@thread w : & mut World ; layers
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_layer_with_cache
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_with_cache
@subst dyn LayerCache => C
@subst fn get_layer_with_cache => fn get_layer_with_cache<C: LayerCache>
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: finalize_layer
@ret r
@flag trait-fn
@thread w : & mut World ; finalize_layer
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: create_base_layer
@ret r
@flag trait-fn
@thread w : & mut World ; create_base_layer
@subst Box < dyn LayerBuilder > => Builder
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: create_child_layer_with_cache
@ret r
@flag trait-fn
@thread w : & mut World ; create_child_layer_with_cache
@subst dyn LayerCache => C
@subst fn create_child_layer_with_cache => fn create_child_layer_with_cache<C: LayerCache>
@subst Box < dyn LayerBuilder > => Builder
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: perform_rollup
@ret r
@flag trait-fn
@thread w : & mut World ; perform_rollup
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: perform_rollup_upto_with_cache
@ret r
@flag trait-fn
@thread w : & mut World ; perform_rollup_upto_with_cache
@subst dyn LayerCache => C
@subst fn perform_rollup_upto_with_cache => fn perform_rollup_upto_with_cache<C: LayerCache>
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: perform_imprecise_rollup_upto_with_cache
@ret r
@flag trait-fn
@thread w : & mut World ; perform_imprecise_rollup_upto_with_cache
@subst dyn LayerCache => C
@subst fn perform_imprecise_rollup_upto_with_cache => fn perform_imprecise_rollup_upto_with_cache<C: LayerCache>
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: squash
@ret r
@flag trait-fn
@thread w : & mut World ; squash
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: squash_upto
@ret r
@flag trait-fn
@thread w : & mut World ; squash_upto
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: merge_base_layer
@ret r
@flag trait-fn
@thread w : & mut World ; merge_base_layer
@props A20
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: layer_is_ancestor_of
@ret r
@flag trait-fn
@thread w : & mut World ; layer_is_ancestor_of
@props A20 A12
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: retrieve_layer_stack_names
@ret r
@flag trait-fn
@thread w : & mut World ; retrieve_layer_stack_names
@props A20 A12
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: retrieve_layer_stack_names_upto
@ret r
@flag trait-fn
@thread w : & mut World ; retrieve_layer_stack_names_upto
@props A20 A12
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: register_rollup
@ret r
@flag trait-fn
@thread w : & mut World ; register_rollup invalidate
@props A20
@at start
let ghost w0 = *w;
@at tail
proof { dropped(&*self.inner, self.cache.cell(), w0, *w, layer); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_layer_parent_name
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_layer_parent_name
@props A20 A12
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_node_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_node_dictionary
@props A20 A05
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_predicate_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_predicate_dictionary
@props A20 A05
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_value_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_value_dictionary
@props A20 A05
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_node_value_idmap
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_node_value_idmap
@props A20 A05
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_predicate_idmap
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_predicate_idmap
@props A20 A05
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_node_count
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_node_count
@props A20 A07
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_predicate_count
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_predicate_count
@props A20 A07
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: get_value_count
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache get_value_count
@props A20 A07
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, name); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_addition_exists
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_addition_exists
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removal_exists
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removal_exists
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_additions
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_additions
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removals
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removals
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_additions_s
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_additions_s
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removals_s
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removals_s
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_additions_sp
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_additions_sp
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removals_sp
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removals_sp
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_additions_p
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_additions_p
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removals_p
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removals_p
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_additions_o
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_additions_o
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_removals_o
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_removals_o
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@props A20 A04
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_layer_addition_count
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_layer_addition_count
@props A20 A07
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
@@fn storage/cache.rs :: impl LayerStore for CachedLayerStore :: triple_layer_removal_count
@ret r
@flag trait-fn
@thread w : & mut World ; get_layer_from_cache triple_layer_removal_count
@props A20 A07
@at start
let ghost w0 = *w;
proof { cached(&*self.inner, self.cache.cell(), w0, w0, layer); cached_after(&*self.inner, w0); }
@@end
}
/// dropping an entry of a cache is no write
pub proof fn dropped<S: LayerStore>(s: &S, c: Option<int>, a: World, z: World, n: Name5)
    ensures forall|b: World| #[trigger] only(c, b, z, n) && held(c, z, n) is None && z.disk() == b.disk() && fewer(a, b) ==> fewer(a, z) && s.data(z) == s.data(b) && (ready(s.data(b), b) ==> ready(s.data(z), z))
{
    assert forall|b: World| #[trigger] only(c, b, z, n) && held(c, z, n) is None && z.disk() == b.disk() && fewer(a, b) implies fewer(a, z) && s.data(z) == s.data(b) && (ready(s.data(b), b) ==> ready(s.data(z), z)) by {
        only_fewer(c, b, z, n); s.data_same(b, z); if ready(s.data(b), b) { fewer_ok(s.data(b).lay, b, z); }
        assert forall|i: int, m: Name5| #[trigger] z.cell(i).contains_key(m) implies a.cell(i).contains_key(m) && z.cell(i)[m] == a.cell(i)[m] by { assert(b.cell(i).contains_key(m)); }
    }
}
/// the same, for whatever the cache does next
pub proof fn cached_after<S: LayerStore>(s: &S, a: World)
    requires ready(s.data(a), a)
    ensures forall|b: World| #[trigger] fewer(a, b) && b.disk() == a.disk() && b.fault() == a.fault() ==> kept(s.data(a), s.data(b), a, b)
{ assert forall|b: World| #[trigger] fewer(a, b) && b.disk() == a.disk() && b.fault() == a.fault() implies kept(s.data(a), s.data(b), a, b) by { s.data_same(b, a); fewer_ok(s.data(a).lay, a, b); } }
}
fn main() {}
