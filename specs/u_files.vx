// The files of a layer: which file holds which part, and that loading a layer puts each
// part where it belongs.
use vstd::prelude::*;
use std::sync::Arc;
use std::io;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@item layer/layer.rs :: struct IdTriple
@flag pub
@@end
@@include ids.inc
@@include lstore.inc
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);
#[verifier::external_body] pub struct Path { _x: () }
#[verifier::external_body] pub struct OptInternalLayerTripleSubjectIterator { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
#[verifier::external_body] pub fn __io_error<K, T>(k: K, t: T) -> (r: io::Error) { unimplemented!() }
#[verifier::external_type_specification] pub struct ExErrorKind(io::ErrorKind);
@@include stored.inc
@@include layout.inc
// what the names in the small files mean does not matter here
pub uninterp spec fn named(t: Seq<char>) -> Option<Name5>;
/// what a file of bytes says as a text (String::from_utf8_lossy)
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn text_lines(t: Seq<char>) -> Seq<Seq<char>>;
impl IdMapFiles<File> {
@@fn storage/file.rs :: impl IdMapFiles :: map_all
@ret r
@thread w : & mut World ; map_all_if_exists
@props A05 A06
@spec ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) }
@@end
}
impl BaseLayerFiles<File> {
@@fn storage/file.rs :: impl BaseLayerFiles :: map_all
@ret r
@thread w : & mut World ; map_all map_if_exists
@props A01 A05 A07
@spec ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) }
@@end
}
impl ChildLayerFiles<File> {
@@fn storage/file.rs :: impl ChildLayerFiles :: map_all
@ret r
@pre . map ( ) => .__map()
@thread w : & mut World ; map_all __map
@props A01 A03 A04 A05 A07
@spec ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) }
@@end
}
// ---- the maps of ids
/// the map of ids that is read
pub open spec fn idmap_of(m: Option<BitIndexMaps>, size: int) -> IdMap {
    IdMap { id_wtree: match m { Some(m) => Some(wtree(bit_index(m.bits_map@, m.blocks_map@, m.sblocks_map@), width_for(size))), None => None } }
}
pub open spec fn tree_of(m: BitIndexMaps, width: u8) -> WaveletTree { wtree(bit_index(m.bits_map@, m.blocks_map@, m.sblocks_map@), width) }
impl IdMap {
@@fn layer/id_map.rs :: impl IdMap :: from_parts
@ret r
@props A05 A06
@spec ensures r.id_wtree == id_wtree
@@end
@@fn layer/id_map.rs :: impl Default for IdMap :: default
@ret r
@props A05 A06
@spec ensures r.id_wtree is None
@@end
@@fn layer/id_map.rs :: impl IdMap :: from_maps
@ret r
@props A05 A06
@spec ensures r.id_wtree == Some(tree_of(maps, width))
@@end
}
impl InternalLayer { // proved in u_ids
    #[verifier::external_body] pub fn node_and_value_count(&self) -> (r: usize) requires self.names_wf() ensures r == self.nv_count() { unimplemented!() }
    #[verifier::external_body] pub fn predicate_count(&self) -> (r: usize) requires self.names_wf() ensures r == self.p_count() { unimplemented!() }
}
// ---- layers as they are read
pub open spec fn base_read(m: BaseLayerMaps) -> bool {
    &&& (m.subjects_map matches Some(b) ==> log_array(b@) is Some) && (m.objects_map matches Some(b) ==> log_array(b@) is Some)
    &&& str_dict(m.node_dictionary_maps.offsets_map@, m.node_dictionary_maps.blocks_map@)@.len() < i64::MAX
    &&& typed_dict(m.value_dictionary_maps.types_present_map@, m.value_dictionary_maps.type_offsets_map@, m.value_dictionary_maps.offsets_map@, m.value_dictionary_maps.blocks_map@)@.len() < i64::MAX
}
pub open spec fn child_read(m: ChildLayerMaps) -> bool {
    &&& log_array(m.pos_subjects_map@) is Some && log_array(m.pos_objects_map@) is Some && log_array(m.neg_subjects_map@) is Some && log_array(m.neg_objects_map@) is Some
    &&& str_dict(m.node_dictionary_maps.offsets_map@, m.node_dictionary_maps.blocks_map@)@.len() < i64::MAX
    &&& typed_dict(m.value_dictionary_maps.types_present_map@, m.value_dictionary_maps.type_offsets_map@, m.value_dictionary_maps.offsets_map@, m.value_dictionary_maps.blocks_map@)@.len() < i64::MAX
}
impl BaseLayer {
@@fn layer/internal/base.rs :: impl BaseLayer :: load
@ret r
@pre util :: calculate_width => __calculate_width
@pre . nums ( ) => .__nums()
@props A01 A05 A06 A07
@spec
    requires base_read(maps)
    ensures r.lname() == name, r is Base, forall|d: Disk, f: BaseLayerFiles<Loc>| #[trigger] f.gives(d, maps) ==> r.own() == f.own(d)
@@end
@@fn layer/internal/base.rs :: impl BaseLayer :: load_from_files
@ret r
@generic F = File
@thread w : & mut World ; map_all
@props A01 A05 A06 A07
@spec
    requires files.locs().own(old(w).disk()).wf()
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x is Base && x.lname() == name && x.own() == files.locs().own(old(w).disk()), Err(_) => final(w).fault() }
@@end
}
impl ChildLayer {
@@fn layer/internal/child.rs :: impl ChildLayer :: load
@ret r
@pre util :: calculate_width => __calculate_width
@pre . nums ( ) => .__nums()
@props A01 A03 A04 A05 A06 A07
@spec
    requires child_read(maps), parent.names_wf()
    ensures r.lname() == name, r is Child, *r->Child_0.parent == *parent, r->Child_0.parent_node_value_count == parent.nv_count(), r->Child_0.parent_predicate_count == parent.p_count(),
        forall|d: Disk, f: ChildLayerFiles<Loc>| #[trigger] f.gives(d, maps) ==> r.own() == f.own(d)
@@end
@@fn layer/internal/child.rs :: impl ChildLayer :: load_from_files
@ret r
@generic F = File
@thread w : & mut World ; map_all
@props A01 A03 A04 A05 A06 A07
@spec
    requires files.locs().own(old(w).disk()).wf(), parent.names_wf()
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => x is Child && x.lname() == name && x.own() == files.locs().own(old(w).disk()) && *x->Child_0.parent == *parent
        && x->Child_0.parent_node_value_count == parent.nv_count() && x->Child_0.parent_predicate_count == parent.p_count(), Err(_) => final(w).fault() }
@@end
}
// ---- the files of a layer
@@include steps.inc
@@include layer_files.inc
}
fn main() {}
