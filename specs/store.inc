// ---- what a store consists of, as an explicit parameter. The contracts assumed for `dyn LabelStore`, `dyn LayerStore`,
// ---- `dyn Layer` and `dyn LayerBuilder` are those the implementations are held to (u_memlabel, u_dirlabel, u_iter, u_ids ...).
pub type Name = [u32; 5];
#[verifier::external_body]
pub struct World { }
impl World {
    /// every label: the layer it points at and its version
    pub uninterp spec fn labels(&self) -> Map<Seq<char>, (Option<Name>, nat)>;
    /// every layer that can be loaded, with its parent
    pub uninterp spec fn parents(&self) -> Map<Name, Option<Name>>;
    /// every layer a builder has written, with its parent and what the builder held
    pub uninterp spec fn written(&self) -> Map<Name, (Option<Name>, Held)>;
    /// what a layer records as added and removed
    pub uninterp spec fn added(&self, n: Name) -> Set<IdTriple>;
    pub uninterp spec fn removed(&self, n: Name) -> Set<IdTriple>;
    /// storage has failed
    pub uninterp spec fn fault(&self) -> bool;
}
/// what a builder holds
pub struct Held { pub av: Set<VT>, pub rv: Set<VT>, pub ai: Set<IdTriple>, pub ri: Set<IdTriple> }
pub open spec fn same_layers(a: World, b: World) -> bool { a.parents() == b.parents() && a.written() == b.written() && (a.fault() ==> b.fault()) && (forall|n: Name| #[trigger] a.added(n) == b.added(n)) && (forall|n: Name| #[trigger] a.removed(n) == b.removed(n)) }
pub open spec fn same_world(a: World, b: World) -> bool { a.labels() == b.labels() && same_layers(a, b) }
/// the layer `k` steps up from `d`
pub open spec fn up(m: Map<Name, Option<Name>>, d: Name, k: nat) -> Option<Name> decreases k {
    if k == 0 { Some(d) } else if m.contains_key(d) && m[d] is Some { up(m, m[d]->0, (k - 1) as nat) } else { None }
}
/// `a` is on the parent chain of `d`
pub open spec fn descends(m: Map<Name, Option<Name>>, d: Name, a: Name) -> bool { exists|k: nat| #[trigger] up(m, d, k) == Some(a) }
/// the parent chain of `d`, base layer first
pub open spec fn is_chain(m: Map<Name, Option<Name>>, d: Name, c: Seq<Name>) -> bool {
    &&& c.len() > 0 && c.last() == d
    &&& forall|i: int| 0 < i < c.len() ==> m.contains_key(#[trigger] c[i]) && m[c[i]] == Some(c[i - 1])
    &&& m.contains_key(c[0]) && m[c[0]] is None
}
pub open spec fn versions_fit(w: World) -> bool { forall|n: Seq<char>| #[trigger] w.labels().contains_key(n) ==> w.labels()[n].1 < u64::MAX }
pub open spec fn lv(n: Seq<char>, v: (Option<Name>, nat)) -> LV { LV { name: n, layer: v.0, version: v.1 } }
/// only the label `n` differs
pub open spec fn label_set(a: World, b: World, n: Seq<char>, v: (Option<Name>, nat)) -> bool { same_layers(a, b) && b.labels() == a.labels().insert(n, v) }

/// a typed value, by its bytes
#[verifier::external_body]
pub struct TypedDictEntry { }
impl Clone for TypedDictEntry { #[verifier::external_body] fn clone(&self) -> (r: TypedDictEntry) ensures r == *self { unimplemented!() } }
@@item layer/layer.rs :: enum ObjectType
@flag pub
@@end
@@item layer/layer.rs :: struct ValueTriple
@flag pub
@@end
/// a named triple
pub enum VO { Node(Seq<char>), Value(TypedDictEntry) }
pub struct VT { pub s: Seq<char>, pub p: Seq<char>, pub o: VO }
impl View for ObjectType { type V = VO; open spec fn view(&self) -> VO { match self { ObjectType::Node(n) => VO::Node(n@), ObjectType::Value(v) => VO::Value(*v) } } }
impl View for ValueTriple { type V = VT; open spec fn view(&self) -> VT { VT { s: self.subject@, p: self.predicate@, o: self.object@ } } }

#[verifier::external_body]
pub struct LabelS { }
impl Clone for LabelS { #[verifier::external_body] fn clone(&self) -> (r: LabelS) ensures r == *self { unimplemented!() } }
impl LabelS {
    #[verifier::external_body]
    pub fn labels(&self, w: &mut World) -> (r: io::Result<Vec<Label>>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(v) => final(w).fault() == old(w).fault()
                && (forall|i: int| 0 <= i < v@.len() ==> old(w).labels().contains_key((#[trigger] v@[i])@.name) && v@[i]@ == lv(v@[i]@.name, old(w).labels()[v@[i]@.name]))
                && (forall|n: Seq<char>| #[trigger] old(w).labels().contains_key(n) ==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i])@.name == n)
                && (forall|i: int, j: int| 0 <= i < j < v@.len() ==> (#[trigger] v@[i])@.name != (#[trigger] v@[j])@.name),
            Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn create_label(&self, name: &str, w: &mut World) -> (r: io::Result<Label>)
        ensures same_layers(*old(w), *final(w)), match r {
            Ok(l) => final(w).fault() == old(w).fault() && !old(w).labels().contains_key(name@) && l@ == lv(name@, (None, 0)) && label_set(*old(w), *final(w), name@, (None, 0)),
            Err(_) => final(w).fault() || old(w).labels().contains_key(name@) && final(w).labels() == old(w).labels() } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_label(&self, name: &str, w: &mut World) -> (r: io::Result<Option<Label>>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(Some(l)) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(name@) && l@ == lv(name@, old(w).labels()[name@]),
            Ok(None) => final(w).fault() == old(w).fault() && !old(w).labels().contains_key(name@),
            Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn set_label_option(&self, label: &Label, layer: Option<Name>, w: &mut World) -> (r: io::Result<Option<Label>>)
        requires label.version < u64::MAX
        ensures same_layers(*old(w), *final(w)), match r {
            Ok(Some(l)) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && old(w).labels()[label.name@].1 == label.version
                && l@ == lv(label.name@, (layer, label.version as nat + 1)) && label_set(*old(w), *final(w), label.name@, (layer, label.version as nat + 1)),
            Ok(None) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && lv(label.name@, old(w).labels()[label.name@]) != label@ && final(w).labels() == old(w).labels(),
            Err(_) => final(w).fault() || !old(w).labels().contains_key(label.name@) && final(w).labels() == old(w).labels() } { unimplemented!() }
    #[verifier::external_body]
    pub fn delete_label(&self, name: &str, w: &mut World) -> (r: io::Result<bool>)
        ensures same_layers(*old(w), *final(w)), match r {
            Ok(b) => final(w).fault() == old(w).fault() && b == old(w).labels().contains_key(name@) && final(w).labels() == old(w).labels().remove(name@),
            Err(_) => final(w).fault() } { unimplemented!() }
@@fn storage/label.rs :: trait LabelStore :: set_label
@ret r
@props A13 A15
@thread w : &mut World ; set_label_option
@spec
    requires label.version < u64::MAX
    ensures same_layers(*old(w), *final(w)), match r {
            Ok(Some(l)) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && old(w).labels()[label.name@].1 == label.version
                && l@ == lv(label.name@, (Some(layer), label.version as nat + 1)) && label_set(*old(w), *final(w), label.name@, (Some(layer), label.version as nat + 1)),
            Ok(None) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && lv(label.name@, old(w).labels()[label.name@]) != label@ && final(w).labels() == old(w).labels(),
            Err(_) => final(w).fault() || !old(w).labels().contains_key(label.name@) && final(w).labels() == old(w).labels() }
@@end
@@fn storage/label.rs :: trait LabelStore :: clear_label
@ret r
@props A13 A15
@thread w : &mut World ; set_label_option
@spec
    requires label.version < u64::MAX
    ensures same_layers(*old(w), *final(w)), match r {
            Ok(Some(l)) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && old(w).labels()[label.name@].1 == label.version
                && l@ == lv(label.name@, (None, label.version as nat + 1)) && label_set(*old(w), *final(w), label.name@, (None, label.version as nat + 1)),
            Ok(None) => final(w).fault() == old(w).fault() && old(w).labels().contains_key(label.name@) && lv(label.name@, old(w).labels()[label.name@]) != label@ && final(w).labels() == old(w).labels(),
            Err(_) => final(w).fault() || !old(w).labels().contains_key(label.name@) && final(w).labels() == old(w).labels() }
@@end
}

// ---- triples as they come
#[verifier::external_body]
pub struct TripleIter { }
impl TripleIter {
    /// what it has yet to give, each triple once
    pub uninterp spec fn rest(&self) -> Set<IdTriple>;
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<IdTriple>)
        ensures match r { Some(t) => old(self).rest().contains(t) && final(self).rest() == old(self).rest().remove(t) && final(self).left() < old(self).left(), None => old(self).rest() == Set::<IdTriple>::empty() && *final(self) == *old(self) } { unimplemented!() }
}
#[verifier::external_body]
pub fn __par(i: TripleIter) -> (r: TripleIter) ensures r.rest() == i.rest() { unimplemented!() }
pub open spec fn fits(t: IdTriple, s: Option<u64>, p: Option<u64>, o: Option<u64>) -> bool { (s matches Some(x) ==> t.subject == x) && (p matches Some(x) ==> t.predicate == x) && (o matches Some(x) ==> t.object == x) }
pub open spec fn sel(m: Set<IdTriple>, s: Option<u64>, p: Option<u64>, o: Option<u64>) -> Set<IdTriple> { m.filter(|t: IdTriple| fits(t, s, p, o)) }

pub use nmod::*;
pub mod nmod {
use super::*;
/// a loaded layer
#[verifier::external_body]
pub struct DynLayer { }
impl DynLayer {
    /// the names ids stand for (u_ids, A05)
    pub uninterp spec fn sub(&self, id: u64) -> Option<Seq<char>>;
    pub uninterp spec fn pred(&self, id: u64) -> Option<Seq<char>>;
    pub uninterp spec fn obj(&self, id: u64) -> Option<VO>;
    pub open spec fn named(&self, t: IdTriple) -> Option<VT> { match (self.sub(t.subject), self.pred(t.predicate), self.obj(t.object)) { (Some(s), Some(p), Some(o)) => Some(VT { s, p, o }), _ => None } }
}
/// the named forms of id triples
pub closed spec fn named_set(m: Set<IdTriple>, l: DynLayer) -> Set<VT> { m.filter(|t: IdTriple| l.named(t) is Some).map(|t: IdTriple| l.named(t)->0) }
pub broadcast proof fn named_set_contains(m: Set<IdTriple>, l: DynLayer, v: VT)
    ensures #[trigger] named_set(m, l).contains(v) <==> exists|t: IdTriple| m.contains(t) && #[trigger] l.named(t) == Some(v)
{
    let f = m.filter(|t: IdTriple| l.named(t) is Some);
    if exists|t: IdTriple| m.contains(t) && #[trigger] l.named(t) == Some(v) { let t = choose|t: IdTriple| m.contains(t) && #[trigger] l.named(t) == Some(v); assert(f.contains(t)); }
}


/// `base` and the named forms of those of `m` no longer in `rest`
pub closed spec fn grown(base: Set<VT>, m: Set<IdTriple>, rest: Set<IdTriple>, l: DynLayer) -> Set<VT> { base.union(named_set(m.difference(rest), l)) }
pub broadcast proof fn grown_start(base: Set<VT>, m: Set<IdTriple>, l: DynLayer) ensures #[trigger] grown(base, m, m, l) == base
{ broadcast use named_set_contains; assert(named_set(m.difference(m), l) =~= Set::empty()); assert(grown(base, m, m, l) =~= base); }
pub broadcast proof fn grown_end(base: Set<VT>, m: Set<IdTriple>, l: DynLayer) ensures #[trigger] grown(base, m, Set::<IdTriple>::empty(), l) == base.union(named_set(m, l))
{ assert(m.difference(Set::<IdTriple>::empty()) =~= m); }
pub broadcast proof fn grown_step(base: Set<VT>, m: Set<IdTriple>, rest: Set<IdTriple>, t: IdTriple, l: DynLayer) requires m.contains(t), rest.contains(t)
    ensures #[trigger] grown(base, m, rest.remove(t), l) == (match l.named(t) { Some(v) => grown(base, m, rest, l).insert(v), None => grown(base, m, rest, l) })
{
    broadcast use named_set_contains;
    assert(grown(base, m, rest.remove(t), l) =~= (match l.named(t) { Some(v) => grown(base, m, rest, l).insert(v), None => grown(base, m, rest, l) }));
}

/// `base` and the named forms of those of `m` no longer in `rest`, without `f`
pub closed spec fn grown_not(base: Set<VT>, m: Set<IdTriple>, rest: Set<IdTriple>, l: DynLayer, f: Set<VT>) -> Set<VT> { base.union(named_set(m.difference(rest), l).difference(f)) }
pub broadcast proof fn grown_not_start(base: Set<VT>, m: Set<IdTriple>, l: DynLayer, f: Set<VT>) ensures #[trigger] grown_not(base, m, m, l, f) == base
{ broadcast use named_set_contains; assert(grown_not(base, m, m, l, f) =~= base); }
pub broadcast proof fn grown_not_end(base: Set<VT>, m: Set<IdTriple>, l: DynLayer, f: Set<VT>) ensures #[trigger] grown_not(base, m, Set::<IdTriple>::empty(), l, f) == base.union(named_set(m, l).difference(f))
{ assert(m.difference(Set::<IdTriple>::empty()) =~= m); }
pub broadcast proof fn grown_not_step(base: Set<VT>, m: Set<IdTriple>, rest: Set<IdTriple>, t: IdTriple, l: DynLayer, f: Set<VT>) requires m.contains(t), rest.contains(t)
    ensures #[trigger] grown_not(base, m, rest.remove(t), l, f) == (match l.named(t) { Some(v) => if f.contains(v) { grown_not(base, m, rest, l, f) } else { grown_not(base, m, rest, l, f).insert(v) }, None => grown_not(base, m, rest, l, f) })
{
    broadcast use named_set_contains;
    assert(grown_not(base, m, rest.remove(t), l, f) =~= (match l.named(t) { Some(v) => if f.contains(v) { grown_not(base, m, rest, l, f) } else { grown_not(base, m, rest, l, f).insert(v) }, None => grown_not(base, m, rest, l, f) }));
}
}
broadcast use {nmod::named_set_contains, nmod::grown_start, nmod::grown_end, nmod::grown_step, nmod::grown_not_start, nmod::grown_not_end, nmod::grown_not_step, strs::__string_to_string};
impl Clone for DynLayer { #[verifier::external_body] fn clone(&self) -> (r: DynLayer) ensures r == *self { unimplemented!() } }
impl DynLayer {
    pub uninterp spec fn nm(&self) -> Name;
    pub uninterp spec fn par(&self) -> Option<Name>;
    pub uninterp spec fn set(&self) -> Set<IdTriple>;
    pub open spec fn facts(&self) -> Set<VT> { named_set(self.set(), *self) }
    #[verifier::external_body]
    pub fn subject_id(&self, n: &str) -> (r: Option<u64>)
        ensures match r { Some(i) => self.sub(i) == Some(n@) && (forall|j: u64| #[trigger] self.sub(j) == Some(n@) ==> j == i), None => forall|j: u64| #[trigger] self.sub(j) != Some(n@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn predicate_id(&self, n: &str) -> (r: Option<u64>)
        ensures match r { Some(i) => self.pred(i) == Some(n@) && (forall|j: u64| #[trigger] self.pred(j) == Some(n@) ==> j == i), None => forall|j: u64| #[trigger] self.pred(j) != Some(n@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn object_node_id(&self, n: &str) -> (r: Option<u64>)
        ensures match r { Some(i) => self.obj(i) == Some(VO::Node(n@)) && (forall|j: u64| #[trigger] self.obj(j) == Some(VO::Node(n@)) ==> j == i), None => forall|j: u64| #[trigger] self.obj(j) != Some(VO::Node(n@)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn object_value_id(&self, n: &TypedDictEntry) -> (r: Option<u64>)
        ensures match r { Some(i) => self.obj(i) == Some(VO::Value(*n)) && (forall|j: u64| #[trigger] self.obj(j) == Some(VO::Value(*n)) ==> j == i), None => forall|j: u64| #[trigger] self.obj(j) != Some(VO::Value(*n)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn id_subject(&self, id: u64) -> (r: Option<String>) ensures match r { Some(x) => self.sub(id) == Some(x@), None => self.sub(id) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn id_predicate(&self, id: u64) -> (r: Option<String>) ensures match r { Some(x) => self.pred(id) == Some(x@), None => self.pred(id) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn id_object(&self, id: u64) -> (r: Option<ObjectType>) ensures match r { Some(x) => self.obj(id) == Some(x@), None => self.obj(id) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn id_object_is_node(&self, id: u64) -> (r: Option<bool>) ensures match self.obj(id) { Some(VO::Node(_)) => r == Some(true), Some(VO::Value(_)) => r == Some(false), None => r is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: Name) ensures r == self.nm() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_name(&self) -> (r: Option<Name>) ensures r == self.par() { unimplemented!() }
    #[verifier::external_body]
    pub fn triples(&self) -> (r: TripleIter) ensures r.rest() == self.set() { unimplemented!() }
    #[verifier::external_body]
    pub fn triples_s(&self, subject: u64) -> (r: TripleIter) ensures r.rest() == sel(self.set(), Some(subject), None, None) { unimplemented!() }
    #[verifier::external_body]
    pub fn triples_p(&self, predicate: u64) -> (r: TripleIter) ensures r.rest() == sel(self.set(), None, Some(predicate), None) { unimplemented!() }
    #[verifier::external_body]
    pub fn triples_o(&self, object: u64) -> (r: TripleIter) ensures r.rest() == sel(self.set(), None, None, Some(object)) { unimplemented!() }
    #[verifier::external_body]
    pub fn triples_sp(&self, subject: u64, predicate: u64) -> (r: TripleIter) ensures r.rest() == sel(self.set(), Some(subject), Some(predicate), None) { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_exists(&self, subject: u64, predicate: u64, object: u64) -> (r: bool) ensures r == self.set().contains(IdTriple { subject, predicate, object }) { unimplemented!() }
    #[verifier::external_body]
    pub fn id_triple_to_string(&self, t: &IdTriple) -> (r: Option<ValueTriple>) ensures match r { Some(v) => self.named(*t) == Some(v@), None => self.named(*t) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn value_triple_exists(&self, t: &ValueTriple) -> (r: bool) ensures r == self.facts().contains(t@) { unimplemented!() }
    pub uninterp spec fn n_nv(&self) -> usize;
    pub uninterp spec fn n_p(&self) -> usize;
    pub uninterp spec fn n_add(&self) -> usize;
    pub uninterp spec fn n_rem(&self) -> usize;
    #[verifier::external_body]
    pub fn node_and_value_count(&self) -> (r: usize) ensures r == self.n_nv() { unimplemented!() }
    #[verifier::external_body]
    pub fn predicate_count(&self) -> (r: usize) ensures r == self.n_p() { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_addition_count(&self) -> (r: usize) ensures r == self.n_add() { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removal_count(&self) -> (r: usize) ensures r == self.n_rem() { unimplemented!() }
}
/// a layer builder that has not been committed
#[verifier::external_body]
pub struct BuilderS { }
impl BuilderS {
    pub uninterp spec fn nm(&self) -> Name;
    pub uninterp spec fn par(&self) -> Option<DynLayer>;
    pub uninterp spec fn held(&self) -> Held;
    pub open spec fn same(&self, o: &BuilderS) -> bool { self.nm() == o.nm() && self.par() == o.par() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: Name) ensures r == self.nm() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<DynLayer>) ensures r == self.par() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_value_triple(&mut self, t: ValueTriple) ensures final(self).same(old(self)), final(self).held() == (Held { av: old(self).held().av.insert(t@), ..old(self).held() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn add_id_triple(&mut self, t: IdTriple) ensures final(self).same(old(self)), final(self).held() == (Held { ai: old(self).held().ai.insert(t), ..old(self).held() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_value_triple(&mut self, t: ValueTriple) ensures final(self).same(old(self)), final(self).held() == (Held { rv: old(self).held().rv.insert(t@), ..old(self).held() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_id_triple(&mut self, t: IdTriple) ensures final(self).same(old(self)), final(self).held() == (Held { ri: old(self).held().ri.insert(t), ..old(self).held() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn commit_boxed(self, w: &mut World) -> (r: io::Result<()>)
        ensures final(w).labels() == old(w).labels(), final(w).parents() == old(w).parents(), old(w).fault() ==> final(w).fault(), match r {
            Ok(_) => final(w).fault() == old(w).fault() && final(w).written() == old(w).written().insert(self.nm(), (match self.par() { Some(p) => Some(p.nm()), None => None }, self.held())),
            Err(_) => final(w).fault() } { unimplemented!() }
}

#[verifier::external_body]
pub struct LayerS { }
impl Clone for LayerS { #[verifier::external_body] fn clone(&self) -> (r: LayerS) ensures r == *self { unimplemented!() } }
pub open spec fn loaded(w: World, n: Name, l: DynLayer) -> bool { w.parents().contains_key(n) && l.nm() == n && l.par() == w.parents()[n] }
impl LayerS {
    #[verifier::external_body]
    pub fn get_layer(&self, n: Name, w: &mut World) -> (r: io::Result<Option<DynLayer>>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(Some(l)) => final(w).fault() == old(w).fault() && loaded(*old(w), n, l),
            Ok(None) => final(w).fault() == old(w).fault() && !old(w).parents().contains_key(n),
            Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn layer_is_ancestor_of(&self, d: Name, a: Name, w: &mut World) -> (r: io::Result<bool>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(b) => final(w).fault() == old(w).fault() && b == descends(old(w).parents(), d, a),
            Err(_) => final(w).fault() || !old(w).parents().contains_key(d) } { unimplemented!() }
    #[verifier::external_body]
    pub fn retrieve_layer_stack_names(&self, n: Name, w: &mut World) -> (r: io::Result<Vec<Name>>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(v) => final(w).fault() == old(w).fault() && is_chain(old(w).parents(), n, v@),
            Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn create_base_layer(&self, w: &mut World) -> (r: io::Result<BuilderS>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(b) => final(w).fault() == old(w).fault() && b.par() is None && b.held() == nothing() && !old(w).parents().contains_key(b.nm()),
            Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn create_child_layer(&self, p: Name, w: &mut World) -> (r: io::Result<BuilderS>)
        ensures same_world(*old(w), *final(w)), match r {
            Ok(b) => final(w).fault() == old(w).fault() && (b.par() matches Some(l) && loaded(*old(w), p, l)) && b.held() == nothing() && !old(w).parents().contains_key(b.nm()),
            Err(_) => final(w).fault() || !old(w).parents().contains_key(p) } { unimplemented!() }
    /// a written layer becomes loadable
    #[verifier::external_body]
    pub fn finalize_layer(&self, n: Name, w: &mut World) -> (r: io::Result<()>)
        requires old(w).written().contains_key(n)
        ensures final(w).labels() == old(w).labels(), final(w).written() == old(w).written(), old(w).fault() ==> final(w).fault(), match r {
            Ok(_) => final(w).fault() == old(w).fault() && final(w).parents() == old(w).parents().insert(n, old(w).written()[n].0),
            Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_additions(&self, n: Name, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == old(w).added(n), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_additions_s(&self, n: Name, s: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).added(n), Some(s), None, None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_additions_sp(&self, n: Name, s: u64, p: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).added(n), Some(s), Some(p), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_additions_p(&self, n: Name, p: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).added(n), None, Some(p), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_additions_o(&self, n: Name, o: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).added(n), None, None, Some(o)), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_addition_exists(&self, n: Name, s: u64, p: u64, o: u64, w: &mut World) -> (r: io::Result<bool>)
        ensures same_world(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && b == old(w).added(n).contains(IdTriple { subject: s, predicate: p, object: o }), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_layer_addition_count(&self, n: Name, w: &mut World) -> (r: io::Result<usize>)
        ensures same_world(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && b == old(w).added(n).len(), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removals(&self, n: Name, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == old(w).removed(n), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removals_s(&self, n: Name, s: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).removed(n), Some(s), None, None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removals_sp(&self, n: Name, s: u64, p: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).removed(n), Some(s), Some(p), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removals_p(&self, n: Name, p: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).removed(n), None, Some(p), None), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removals_o(&self, n: Name, o: u64, w: &mut World) -> (r: io::Result<TripleIter>)
        ensures same_world(*old(w), *final(w)), match r { Ok(i) => final(w).fault() == old(w).fault() && i.rest() == sel(old(w).removed(n), None, None, Some(o)), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_removal_exists(&self, n: Name, s: u64, p: u64, o: u64, w: &mut World) -> (r: io::Result<bool>)
        ensures same_world(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && b == old(w).removed(n).contains(IdTriple { subject: s, predicate: p, object: o }), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
    #[verifier::external_body]
    pub fn triple_layer_removal_count(&self, n: Name, w: &mut World) -> (r: io::Result<usize>)
        ensures same_world(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && b == old(w).removed(n).len(), Err(_) => final(w).fault() || !old(w).parents().contains_key(n) } { unimplemented!() }
}
pub open spec fn nothing() -> Held { Held { av: Set::empty(), rv: Set::empty(), ai: Set::empty(), ri: Set::empty() } }
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E: core::marker::Destruct, U: core::marker::Destruct> [core::result::Result::<T, E>::and] (a: core::result::Result<T, E>, b: core::result::Result<U, E>) -> (r: core::result::Result<U, E>)
    where T: core::marker::Destruct
    ensures match a { Ok(_) => r == b, Err(e) => r == core::result::Result::<U, E>::Err(e) };
pub mod strs {
use super::*;
pub broadcast axiom fn __string_to_string(s: &String, r: String) ensures #[trigger] to_string_from_display_ensures::<String>(s, r) <==> s@ == r@;
}
