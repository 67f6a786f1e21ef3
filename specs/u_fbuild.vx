// The files of a layer, as they are built: from names and triples in order to dictionaries and lists.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use vstd::string::*;
use vstd::utf8::*;
use std::io;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
@@include ids.inc
@@include lstore.inc
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
#[verifier::external_body] pub fn __panic() -> ! requires false { panic!() }
#[verifier::external_body] pub struct Path { _x: () }
#[verifier::external_body] pub struct OptInternalLayerTripleSubjectIterator { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
#[verifier::external_body] pub fn __io_error<K, T>(k: K, t: T) -> (r: io::Error) { unimplemented!() }
#[verifier::external_type_specification] pub struct ExErrorKind(io::ErrorKind);
@@include stored.inc
@@include steps.inc
@@include parts.inc
@@include builder.inc
@@include write.inc
@@include named.inc
@@include tbuild.inc
@@item layer/builder.rs :: struct TripleFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst Option < F > => Option < File >
@subst AdjacencyListBuilder < F , F :: Write , F :: Write , F :: Write > => AdjacencyListBuilder
@@end
impl TripleFileBuilder {
    pub closed spec fn subs(&self) -> Subs { match self.subjects { Some(v) => Some(v@), None => None } }
    pub closed spec fn sp(&self) -> AdjacencyListBuilder { self.s_p_adjacency_list_builder }
    pub closed spec fn spo(&self) -> AdjacencyListBuilder { self.sp_o_adjacency_list_builder }
    pub closed spec fn file(&self) -> Option<Loc> { match self.subjects_file { Some(f) => Some(f.at()), None => None } }
    pub closed spec fn wf(&self) -> bool { self.subjects is Some == self.subjects_file is Some && lists_ok(self.subs(), self.sp().pairs(), self.spo().pairs(), self.last_subject, self.last_predicate) }
    /// where it writes
    pub open spec fn at(&self, l: Loc) -> bool { self.sp().files().at(l) || self.spo().files().at(l) || self.file() == Some(l) }
    pub open spec fn same(&self, o: &TripleFileBuilder) -> bool { self.sp().same(&o.sp()) && self.spo().same(&o.spo()) && self.file() == o.file() }
    /// the triples given so far
    pub closed spec fn said(&self) -> Set<IdTriple> { said_by(self.subs(), self.sp().pairs(), self.spo().pairs()) }
    pub closed spec fn last(&self) -> IdTriple { last_of(self.last_subject, self.last_predicate, self.spo().pairs()) }
    /// it writes to these places, and takes ids up to these bounds
    pub open spec fn writes(&self, sp: AdjacencyListFiles<Loc>, spo: AdjacencyListFiles<Loc>, subjects: Option<Loc>, nv: int, np: int) -> bool { self.sp().files() == sp && self.spo().files() == spo && self.file() == subjects && self.sp().width() == width_for(np) && self.spo().width() == width_for(nv) }
    pub open spec fn can_take(&self, t: IdTriple) -> bool { fits(self.sp().width(), t.predicate) && fits(self.spo().width(), t.object) }
@@fn layer/builder.rs :: impl TripleFileBuilder :: new
@ret r
@subst AdjacencyListFiles < F > => AdjacencyListFiles < File >
@subst Option < F > => Option < File >
@subst util :: calculate_width => __calculate_width
@thread w : & mut World ; open_write AdjacencyListBuilder::new
@props A03 A04 A08 A09 A10
@spec
    requires num_nodes + num_values <= usize::MAX
    ensures changed(*old(w), *final(w), |l: Loc| s_p_adjacency_list_files.locs().at(l) || sp_o_adjacency_list_files.locs().at(l)), match r { Ok(b) => b.wf() && b.said() == Set::<IdTriple>::empty() && b.last() == tr(0, 0, 0) && b.sp().files() == s_p_adjacency_list_files.locs() && b.spo().files() == sp_o_adjacency_list_files.locs()
        && b.file() == (match subjects_file { Some(f) => Some(f.at()), None => None }) && b.sp().width() == width_for(num_predicates as int) && b.spo().width() == width_for(num_nodes + num_values), Err(_) => final(w).fault() }
@at tail
proof { reveal(lists_ok); assert(said_by(match subjects { Some(v) => Some(v@), None => None }, s_p_adjacency_list_builder.pairs(), sp_o_adjacency_list_builder.pairs()) =~= Set::<IdTriple>::empty()); }
@@end
@@fn layer/builder.rs :: impl TripleFileBuilder :: add_triple
@ret r
@pre s_p_adjacency_list_builder . push => s_p_adjacency_list_builder . __push
@pre sp_o_adjacency_list_builder . push => sp_o_adjacency_list_builder . __push
@thread w : & mut World ; __push
@props A03 A04 A08 A09 A10
@spec
    requires old(self).wf(), nonzero(tr(subject, predicate, object)) ==> tlt(old(self).last(), tr(subject, predicate, object)) && old(self).can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), changed(*old(w), *final(w), |l: Loc| old(self).at(l)),
        match r { Ok(_) => final(self).wf() && final(self).said() == (if nonzero(tr(subject, predicate, object)) { old(self).said().insert(tr(subject, predicate, object)) } else { old(self).said() }) && final(self).last() == (if nonzero(tr(subject, predicate, object)) { tr(subject, predicate, object) } else { old(self).last() }), Err(_) => final(w).fault() }
@at start
let ghost s0 = self.subs(); let ghost a0 = self.sp().pairs(); let ghost b0 = self.spo().pairs(); let ghost ls = self.last_subject; let ghost lp = self.last_predicate;
proof { if nonzero(tr(subject, predicate, object)) { if subject == ls && predicate == lp { push_object(s0, a0, b0, ls, lp, object); } else { push_pair(s0, a0, b0, ls, lp, subject, predicate, object); } } }
@@end
@@fn layer/builder.rs :: impl TripleFileBuilder :: add_id_triples
@ret r
@generic I = Vec<IdTriple>
@thread w : & mut World ; add_triple
@props A03 A04 A08 A09 A10
@spec
    requires old(self).wf(), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() && nonzero(#[trigger] triples@[i]) ==> tlt(old(self).last(), triples@[i]) && old(self).can_take(triples@[i])
    ensures final(self).same(old(self)), changed(*old(w), *final(w), |l: Loc| old(self).at(l)),
        match r { Ok(_) => final(self).wf() && (forall|t: IdTriple| #[trigger] final(self).said().contains(t) <==> old(self).said().contains(t) || (triples@.contains(t) && nonzero(t))), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost b0 = *self; let ghost mut q: int = 0; let ghost ts = triples@;
@loop 0
invariant
    self.same(&b0), b0 == *old(self), w0 == *old(w), changed(w0, *w, |l: Loc| b0.at(l)), self.wf(), 0 <= q <= ts.len(), __f0.left() == ts.skip(q), asc_nz(ts), ts == triples@,
    forall|i: int| q <= i < ts.len() && nonzero(#[trigger] ts[i]) ==> tlt(self.last(), ts[i]) && self.can_take(ts[i]),
    forall|t: IdTriple| #[trigger] self.said().contains(t) <==> b0.said().contains(t) || (ts.take(q).contains(t) && nonzero(t)),
ensures q == ts.len()
decreases ts.len() - q
@at loopstart 0
let ghost s1 = self.said(); proof { assert(triple == ts[q]); assert(ts.take(q + 1) =~= ts.take(q).push(ts[q])); q = q + 1; }
@at loopend 0
proof { assert forall|t: IdTriple| #[trigger] ts.take(q).contains(t) <==> ts.take(q - 1).contains(t) || t == ts[q - 1] by { if ts.take(q - 1).contains(t) { let i = choose|i: int| 0 <= i < q - 1 && #[trigger] ts.take(q - 1)[i] == t; assert(ts.take(q)[i] == t); } assert(ts.take(q)[q - 1] == ts[q - 1]); } }
@at tail
proof { assert(ts.take(q) =~= ts); }
@@end
@@fn layer/builder.rs :: impl TripleFileBuilder :: finalize
@ret r
@subst util :: calculate_width => __calculate_width
@thread w : & mut World ; finalize open_write push_vec
@props A03 A04 A08 A09 A10
@spec
    requires self.wf(), forall|l: Loc| !(self.sp().files().at(l) && self.spo().files().at(l)), self.file() matches Some(f) ==> !self.sp().files().at(f) && !self.spo().files().at(f)
    ensures changed(*old(w), *final(w), |l: Loc| self.at(l)), match r { Ok(_) => self.sp().files().whole(final(w).disk()) && self.spo().files().whole(final(w).disk()) && (self.file() matches Some(f) ==> is_array(final(w).disk(), f))
        && said_in(match self.file() { Some(f) => Some(array_at(final(w).disk(), f)), None => None }, self.sp().files().list(final(w).disk()), self.spo().files().list(final(w).disk()), self.said()), Err(_) => final(w).fault() }
@at start
let ghost b0 = self; let ghost subs = self.subs();
@at let subjects_width
proof { reveal(lists_ok); assert forall|i: int| 0 <= i < subjects@.len() implies fits(subjects_width, #[trigger] subjects@[i]) by { assert(subjects@[i] <= subjects@[subjects@.len() - 1]) by { if i < subjects@.len() - 1 { assert(subjects@[i] < subjects@[subjects@.len() - 1]); } } width_fits(max_subject as int, subjects@[i]); } }
@at tail
proof {
    let d = w.disk();
    let m = match b0.file() { Some(f) => Some(array_at(d, f)), None => None };

    assert(lists_pairs(b0.spo().files().list(d), b0.spo().pairs()));
    assert(lists_pairs(b0.sp().files().list(d), b0.sp().pairs()));
    assert(arr_of(m) == subs);
    stored(subs, b0.sp().pairs(), b0.spo().pairs(), b0.last_subject, b0.last_predicate, m, b0.sp().files().list(d), b0.spo().files().list(d));
}
@@end
}
@@include builder_env.inc
@@include objidx.inc
@@include phase2.inc
@@include phase2_child.inc
@@include phase2_base.inc
@@include dictbuild.inc
@@include phase1.inc
}
fn main() {}
