#![feature(allocator_api)]
// What is asked of one layer without loading it: the triples and counts that its files record.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use std::sync::Arc;
use std::io;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@include triple.inc
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
@@include iter.inc
@@include opt.inc
@@include iterp_one.inc
@@include itero_one.inc
@@include ids.inc
@@include lstore.inc
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);
#[verifier::external_body] pub struct Path { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { self.wf() && forall|t: IdTriple| #[trigger] self@.contains(t) <==> f(t) }
}
#[verifier::external_body] pub fn __io_error<K, T>(k: K, t: T) -> (r: io::Error) { unimplemented!() }
#[verifier::external_type_specification] pub struct ExErrorKind(io::ErrorKind);
@@include stored.inc
@@include layout.inc
// what the names in the small files mean does not matter here
pub uninterp spec fn named(t: Seq<char>) -> Option<Name5>;
/// what a file of bytes says as a text (String::from_utf8_lossy)
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn text_lines(t: Seq<char>) -> Seq<Seq<char>>;
@@include layer_files_decl.inc
@@include good.inc
@@include zeros.inc
// ---- tdb_succinct: what is read of a file without mapping it
pub uninterp spec fn width_in(nums: Seq<u8>) -> u8;
pub uninterp spec fn length_in(bits: Seq<u8>) -> u64;
/// the width of a list's numbers is in the file they are in, the length of a list in the file of its bits
pub broadcast axiom fn list_files(nums: Seq<u8>, bits: Seq<u8>, blocks: Seq<u8>, sblocks: Seq<u8>)
    ensures (#[trigger] adj_list(nums, bits, blocks, sblocks)).nums_array().width_spec() == width_in(nums), adj_list(nums, bits, blocks, sblocks).bits().len() == length_in(bits);
#[verifier::external_body] pub fn logarray_file_get_length_and_width(f: File, w: &mut World) -> (r: Result<(u64, u8), io::Error>)
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => has_bytes(old(w).disk(), f.at()) && x.1 == width_in(by(old(w).disk(), f.at())), Err(_) => final(w).fault() || !has_bytes(old(w).disk(), f.at()) } { unimplemented!() }
#[verifier::external_body] pub fn bitarray_len_from_file(f: File, w: &mut World) -> (r: Result<u64, io::Error>)
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => has_bytes(old(w).disk(), f.at()) && x == length_in(by(old(w).disk(), f.at())), Err(_) => final(w).fault() || !has_bytes(old(w).disk(), f.at()) } { unimplemented!() }
/// what From makes of what was read from files
pub trait __Into<T>: Sized { spec fn made(self, t: T) -> bool; fn __into(self) -> (r: T) ensures self.made(r); }
impl __Into<AdjacencyList> for AdjacencyListMaps { open spec fn made(self, t: AdjacencyList) -> bool { t == adj_list(self.nums_map@, self.bitindex_maps.bits_map@, self.bitindex_maps.blocks_map@, self.bitindex_maps.sblocks_map@) } #[verifier::external_body] fn __into(self) -> (r: AdjacencyList) { unimplemented!() } }
impl __Into<BitIndex> for BitIndexMaps { open spec fn made(self, t: BitIndex) -> bool { t == bit_index(self.bits_map@, self.blocks_map@, self.sblocks_map@) } #[verifier::external_body] fn __into(self) -> (r: BitIndex) { unimplemented!() } }
impl __Into<MonotonicLogArray> for LogArray { open spec fn made(self, t: MonotonicLogArray) -> bool { t == monotonic(self) } #[verifier::external_body] fn __into(self) -> (r: MonotonicLogArray) { unimplemented!() } }
// ---- existence in one index: proved in u_exists
#[verifier::external_body] pub fn layer_triple_exists(subjects: Option<&MonotonicLogArray>, s_p_adjacency_list: &AdjacencyList, sp_o_adjacency_list: &AdjacencyList, subject: u64, predicate: u64, object: u64) -> (r: bool)
    requires index_wf(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list)
    ensures r == in_index(own(subjects), *s_p_adjacency_list, *sp_o_adjacency_list, subject, predicate, object) { unimplemented!() }
// ---- the lists handed out: an iterator as the triples it yields (std's TakeWhile and empty)
pub trait Source { spec fn ready(&self) -> bool; spec fn src(&self, t: IdTriple) -> bool; spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool; }
impl Source for Stream { open spec fn ready(&self) -> bool { true } open spec fn src(&self, t: IdTriple) -> bool { self.yields(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { false } }
impl Source for InternalLayerTripleSubjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
impl Source for OptInternalLayerTriplePredicateIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(t) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(a, b) } }
impl Source for InternalLayerTripleObjectIterator { open spec fn ready(&self) -> bool { self.wf() } open spec fn src(&self, t: IdTriple) -> bool { self@.contains(byo(t)) } open spec fn earlier(&self, a: IdTriple, b: IdTriple) -> bool { tlt(byo(a), byo(b)) } }
#[verifier::external_body] pub fn __take_while<S: Source>(s: S, f: Ghost<spec_fn(IdTriple) -> bool>) -> (r: Stream)
    requires s.ready()
    ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) && f@(t) && (forall|u: IdTriple| #[trigger] s.src(u) && s.earlier(u, t) ==> f@(u))
{ unimplemented!() }
#[verifier::external_body] pub fn __boxed<S: Source>(s: S) -> (r: Stream) requires s.ready() ensures forall|t: IdTriple| #[trigger] r.yields(t) <==> s.src(t) { unimplemented!() }
#[verifier::external_body] pub fn __empty() -> (r: Stream) ensures forall|t: IdTriple| !#[trigger] r.yields(t) { unimplemented!() }
// ---- the files of one index
pub open spec fn inx(d: Disk, sub: Loc, sp: AdjacencyListFiles<Loc>, spo: AdjacencyListFiles<Loc>, t: IdTriple) -> bool { in_index(array_opt(d, sub), sp.list(d), spo.list(d), t.subject, t.predicate, t.object) }
pub open spec fn index_files(d: Disk, sub: Loc, sp: AdjacencyListFiles<Loc>, spo: AdjacencyListFiles<Loc>) -> bool { is_array_opt(d, sub) && sp.whole(d) && spo.whole(d) && index_wf(array_opt(d, sub), sp.list(d), spo.list(d)) }
pub open spec fn wavelet_files(d: Disk, f: BitIndexFiles<Loc>, sp: AdjacencyListFiles<Loc>) -> bool { f.whole(d) && pred_tree(d, f, sp.list(d)).wf() && pred_tree(d, f, sp.list(d))@ == sp.list(d).nums() }
pub open spec fn object_files(d: Disk, sub: Loc, obj: Loc, ops: AdjacencyListFiles<Loc>, sp: AdjacencyListFiles<Loc>, spo: AdjacencyList) -> bool {
    is_array_opt(d, sub) && is_array_opt(d, obj) && ops.whole(d) && sp.whole(d) && index_wf(array_opt(d, sub), sp.list(d), spo) && objects_wf(array_opt(d, sub), array_opt(d, obj), ops.list(d), sp.list(d), spo) }

impl InternalLayerTripleObjectIterator {
    pub open spec fn index(&self, d: Disk, sub: Loc, obj: Loc, ops: AdjacencyListFiles<Loc>, sp: AdjacencyListFiles<Loc>) -> bool {
        self.subjects == array_opt(d, sub) && self.objects == array_opt(d, obj) && self.o_ps_adjacency_list == ops.list(d) && self.s_p_adjacency_list == sp.list(d)
    }
}
pub open spec fn add_spo(d: Disk, n: Name5) -> AdjacencyList { own_at(d, n).pspo }
pub open spec fn del_spo(d: Disk, n: Name5) -> AdjacencyList { own_at(d, n).nspo->0 }
/// the files of a stored layer hold its indexes
pub proof fn parts(d: Disk, n: Name5)
    requires own_at(d, n).wf(), own_at(d, n).nsp is Some == has_parent(d, n)
    ensures
        has_parent(d, n) ==> ({ let c = child_at(n);
            &&& index_files(d, c.pos_subjects_file, c.pos_s_p_adjacency_list_files, c.pos_sp_o_adjacency_list_files) && index_files(d, c.neg_subjects_file, c.neg_s_p_adjacency_list_files, c.neg_sp_o_adjacency_list_files)
            &&& wavelet_files(d, c.pos_predicate_wavelet_tree_files, c.pos_s_p_adjacency_list_files) && wavelet_files(d, c.neg_predicate_wavelet_tree_files, c.neg_s_p_adjacency_list_files)
            &&& object_files(d, c.pos_subjects_file, c.pos_objects_file, c.pos_o_ps_adjacency_list_files, c.pos_s_p_adjacency_list_files, add_spo(d, n))
            &&& object_files(d, c.neg_subjects_file, c.neg_objects_file, c.neg_o_ps_adjacency_list_files, c.neg_s_p_adjacency_list_files, del_spo(d, n))
            &&& forall|t: IdTriple| #[trigger] own_at(d, n).addst(t) == inx(d, c.pos_subjects_file, c.pos_s_p_adjacency_list_files, c.pos_sp_o_adjacency_list_files, t)
            &&& forall|t: IdTriple| #[trigger] own_at(d, n).delst(t) == inx(d, c.neg_subjects_file, c.neg_s_p_adjacency_list_files, c.neg_sp_o_adjacency_list_files, t)
            &&& own_at(d, n).psub == array_opt(d, c.pos_subjects_file) && own_at(d, n).pobj == array_opt(d, c.pos_objects_file) && own_at(d, n).nsub == array_opt(d, c.neg_subjects_file) && own_at(d, n).nobj == array_opt(d, c.neg_objects_file)
            &&& counted(d, c.pos_s_p_adjacency_list_files.nums_file, c.pos_sp_o_adjacency_list_files.bitindex_files.bits_file, c.pos_predicate_wavelet_tree_files, own_at(d, n).n_adds())
            &&& counted(d, c.neg_s_p_adjacency_list_files.nums_file, c.neg_sp_o_adjacency_list_files.bitindex_files.bits_file, c.neg_predicate_wavelet_tree_files, own_at(d, n).n_dels())
        }),
        !has_parent(d, n) ==> ({ let c = base_at(n);
            &&& index_files(d, c.subjects_file, c.s_p_adjacency_list_files, c.sp_o_adjacency_list_files)
            &&& wavelet_files(d, c.predicate_wavelet_tree_files, c.s_p_adjacency_list_files)
            &&& object_files(d, c.subjects_file, c.objects_file, c.o_ps_adjacency_list_files, c.s_p_adjacency_list_files, add_spo(d, n))
            &&& forall|t: IdTriple| #[trigger] own_at(d, n).addst(t) == inx(d, c.subjects_file, c.s_p_adjacency_list_files, c.sp_o_adjacency_list_files, t)
            &&& forall|t: IdTriple| !#[trigger] own_at(d, n).delst(t)
            &&& own_at(d, n).psub == array_opt(d, c.subjects_file) && own_at(d, n).pobj == array_opt(d, c.objects_file)
            &&& counted(d, c.s_p_adjacency_list_files.nums_file, c.sp_o_adjacency_list_files.bitindex_files.bits_file, c.predicate_wavelet_tree_files, own_at(d, n).n_adds())
            &&& own_at(d, n).n_dels() == 0
        }),
{
    broadcast use list_files;
    let o = own_at(d, n);
    same_zeros(o.psub, o.psp, o.pspo); occ_bounds(o.pspo.nums(), 0);
    if has_parent(d, n) { same_zeros(o.nsub, o.nsp->0, o.nspo->0); occ_bounds((o.nspo->0).nums(), 0); }
}
/// the files say how many triples there are
pub open spec fn counted(d: Disk, nums: Loc, bits: Loc, f: BitIndexFiles<Loc>, c: int) -> bool {
    let t = wtree(f.index(d), width_in(by(d, nums)));
    has_bytes(d, nums) && has_bytes(d, bits) && f.whole(d) && t.wf() && occurrences(t@, 0) <= length_in(by(d, bits)) && c == length_in(by(d, bits)) - occurrences(t@, 0)
}
/// of an iterator at an object, what is there of that object
pub broadcast proof fn at_its_object(it: InternalLayerTripleObjectIterator, d: Disk, sub: Loc, obj: Loc, ops: AdjacencyListFiles<Loc>, sp: AdjacencyListFiles<Loc>, spo: AdjacencyList, object: u64)
    requires it.wf(), #[trigger] it.at_object(object), #[trigger] it.index(d, sub, obj, ops, sp), #[trigger] object_files(d, sub, obj, ops, sp, spo)
    ensures forall|t: IdTriple| t.object == object ==> (#[trigger] it@.contains(byo(t)) <==> in_index(array_opt(d, sub), sp.list(d), spo, t.subject, t.predicate, t.object)),
        forall|u: IdTriple| #[trigger] it@.contains(u) ==> u.subject >= object
{
    let (a, b, o, l) = (it.subjects, it.objects, it.o_ps_adjacency_list, it.s_p_adjacency_list);
    let p = it.o_ps_position as int;
    index_listed(a, b, o, l, spo);
    resto_members(a, b, o, l, it.stop_at_boundary, p); resto_members(a, b, o, l, false, 0);
    reveal(tables); mono_holds(o.bits());
    assert forall|i: int, u: IdTriple| #[trigger] listed(a, b, o, l, i, u) implies it.object_of(i) == u.subject by { left_bound(o, i); }
    assert forall|t: IdTriple| t.object == object implies (#[trigger] it@.contains(byo(t)) <==> in_index(a, l, spo, t.subject, t.predicate, t.object)) by {
        let u = byo(t); assert(unbyo(u) == t);
        assert(resto(a, b, o, l, false, 0).contains(u) <==> in_index(a, l, spo, t.subject, t.predicate, t.object));
        if resto(a, b, o, l, false, 0).contains(u) {
            let k = choose|k: int| 0 <= k && #[trigger] listed(a, b, o, l, k, u);
            assert(it.object_of(k) == object);
            assert(k >= p);
            left_bound(o, k); left_bound(o, p);
            assert(o.left(p) <= o.left(k)); assert(it.object_of(p) >= object);
            match b { Some(x) => { if o.left(p) < o.left(k) { assert(x@[o.left(p)] < x@[o.left(k)]); } }, None => {} }
            assert(o.left(p) == o.left(k));
        }
        if it@.contains(u) {
            let k = choose|k: int| p <= k && (it.stop_at_boundary ==> o.left(k) == o.left(p)) && #[trigger] listed(a, b, o, l, k, u);
            assert(0 <= k);
        }
    }
    assert forall|u: IdTriple| #[trigger] it@.contains(u) implies u.subject >= object by {
        let k = choose|k: int| p <= k && (it.stop_at_boundary ==> o.left(k) == o.left(p)) && #[trigger] listed(a, b, o, l, k, u);
        assert(it.object_of(k) >= object);
    }
}
@@fn storage/layer.rs :: fn file_triple_exists
@ret r
@generic F = File
@pre . into ( ) => .__into()
@thread w : & mut World ; map_all map_if_exists logarray_file_get_length_and_width bitarray_len_from_file
@props A01 A04 A07
@spec
    requires index_files(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs())
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x == inx(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs(), tr(subject, predicate, object)), Err(_) => final(w).fault() }
@@end
@@fn storage/layer.rs :: fn file_triple_iterator
@ret r
@generic F = File
@pre . into ( ) => .__into()
@thread w : & mut World ; map_all map_if_exists logarray_file_get_length_and_width bitarray_len_from_file
@props A01 A04 A07
@spec
    requires index_files(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs())
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x.wf() && x@ == x.all() && strict(x@) && forall|t: IdTriple| #[trigger] x@.contains(t) <==> inx(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs(), t), Err(_) => final(w).fault() }
@at start
let ghost (sub, sp, spo) = (array_opt(w.disk(), subjects_file.at()), s_p_adjacency_list_files.locs().list(w.disk()), sp_o_adjacency_list_files.locs().list(w.disk()));
proof { rest_is_index(sub, sp, spo); rest_members(sub, sp, spo, 0); }
@@end
@@fn storage/layer.rs :: fn file_triple_iterator_by_predicate
@ret r
@generic F = File
@pre . into ( ) => .__into()
@pre . nums ( ) => .__nums()
@subst impl Iterator < Item = IdTriple > + Send => OptInternalLayerTriplePredicateIterator
@thread w : & mut World ; map_all map_if_exists logarray_file_get_length_and_width bitarray_len_from_file
@props A01 A04 A07
@spec
    requires index_files(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs()), wavelet_files(old(w).disk(), predicate_wavelet_files.locs(), s_p_adjacency_list_files.locs())
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x.wf() && forall|t: IdTriple| #[trigger] x@.contains(t) <==> inx(old(w).disk(), subjects_file.at(), s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files.locs(), t) && t.predicate == predicate, Err(_) => final(w).fault() }
@at start
let ghost (sub, sp, spo) = (array_opt(w.disk(), subjects_file.at()), s_p_adjacency_list_files.locs().list(w.disk()), sp_o_adjacency_list_files.locs().list(w.disk()));
proof { rest_is_index(sub, sp, spo); rest_members(sub, sp, spo, 0); none_of(sub, sp, spo, predicate); pick_facts(rest(sub, sp, spo, 0), predicate, 0); }
@@end
@@fn storage/layer.rs :: fn file_triple_iterator_by_object
@ret r
@generic F = File
@pre . into ( ) => .__into()
@subst impl Iterator < Item = IdTriple > + Send => InternalLayerTripleObjectIterator
@thread w : & mut World ; map_all map_if_exists logarray_file_get_length_and_width bitarray_len_from_file
@props A01 A04 A07
@spec
    requires exists|spo: AdjacencyList| object_files(old(w).disk(), subjects_file.at(), objects_file.at(), o_ps_adjacency_list_files.locs(), s_p_adjacency_list_files.locs(), spo)
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x.wf() && x.at_object(object) && x.index(old(w).disk(), subjects_file.at(), objects_file.at(), o_ps_adjacency_list_files.locs(), s_p_adjacency_list_files.locs()), Err(_) => final(w).fault() }
@at start
proof { let d = w.disk(); let spo = choose|spo: AdjacencyList| object_files(d, subjects_file.at(), objects_file.at(), o_ps_adjacency_list_files.locs(), s_p_adjacency_list_files.locs(), spo); index_listed(array_opt(d, subjects_file.at()), array_opt(d, objects_file.at()), o_ps_adjacency_list_files.locs().list(d), s_p_adjacency_list_files.locs().list(d), spo); }
@@end
@@fn storage/layer.rs :: fn file_triple_layer_count
@ret r
@generic F = File
@pre . into ( ) => .__into()
@thread w : & mut World ; map_all map_if_exists logarray_file_get_length_and_width bitarray_len_from_file
@props A01 A04 A07
@spec
    requires has_bytes(old(w).disk(), s_p_nums_file.at()), has_bytes(old(w).disk(), sp_o_bits_file.at()), predicate_wavelet_files.locs().whole(old(w).disk()),
        wtree(predicate_wavelet_files.locs().index(old(w).disk()), width_in(by(old(w).disk(), s_p_nums_file.at()))).wf(),
        occurrences(wtree(predicate_wavelet_files.locs().index(old(w).disk()), width_in(by(old(w).disk(), s_p_nums_file.at())))@, 0) <= length_in(by(old(w).disk(), sp_o_bits_file.at())),
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x == length_in(by(old(w).disk(), sp_o_bits_file.at())) - occurrences(wtree(predicate_wavelet_files.locs().index(old(w).disk()), width_in(by(old(w).disk(), s_p_nums_file.at())))@, 0), Err(_) => final(w).fault() }
@at start
proof { let t = wtree(predicate_wavelet_files.locs().index(w.disk()), width_in(by(w.disk(), s_p_nums_file.at())))@; occ_none(t, 0); }
@@end
impl Store {
@@fn storage/layer.rs :: impl LayerStore for T :: triple_addition_exists
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: bool| x == own_of(stored(old(w).disk()), layer).adds(subject, predicate, object))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removal_exists
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: bool| x == own_of(stored(old(w).disk()), layer).dels(subject, predicate, object))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_additions
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: OptInternalLayerTripleSubjectIterator| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).addst(t)))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_additions_s
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).addst(t) && t.subject == subject))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_additions_sp
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).addst(t) && t.subject == subject && t.predicate == predicate))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_additions_p
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).addst(t) && t.predicate == predicate))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_additions_o
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).addst(t) && t.object == object))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_layer_addition_count
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: usize| x == own_of(stored(old(w).disk()), layer).n_adds())
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removals
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: OptInternalLayerTripleSubjectIterator| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).delst(t)))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removals_s
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@pre std :: iter :: empty ( ) => __empty ( )
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).delst(t) && t.subject == subject))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removals_sp
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@pre std :: iter :: empty ( ) => __empty ( )
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).delst(t) && t.subject == subject && t.predicate == predicate))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removals_p
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@pre std :: iter :: empty ( ) => __empty ( )
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).delst(t) && t.predicate == predicate))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_removals_o
@ret r
@flag lazy
@subst Box < dyn Iterator < Item = IdTriple > + Send > => Stream
@subst as Box < dyn Iterator < Item = _ > + Send > => 
@subst Box :: new => __boxed
@pre std :: iter :: empty ( ) => __empty ( )
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(stored(old(w).disk()), layer).delst(t) && t.object == object))
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: triple_layer_removal_count
@ret r
@flag lazy
@thread w : & mut World ; triple_addition_files triple_removal_files predicate_wavelet_addition_files predicate_wavelet_removal_files triple_addition_files_by_object triple_removal_files_by_object triple_layer_addition_count_files triple_layer_removal_count_files file_triple_exists file_triple_iterator file_triple_iterator_by_predicate file_triple_iterator_by_object file_triple_layer_count
@props A01 A04 A07 A20
@spec
    requires ready(stored(old(w).disk()), *old(w))
    ensures answers1(stored(old(w).disk()), stored(final(w).disk()), *old(w), *final(w), layer, r, |x: usize| x == own_of(stored(old(w).disk()), layer).n_dels())
@at start
broadcast use read_keeps, list_files, at_its_object;
proof { if dirs(w.disk()).contains(layer) { of_layer(w.disk(), layer); parts(w.disk(), layer); } }
@@end
}
fn main() {}
} // verus!
