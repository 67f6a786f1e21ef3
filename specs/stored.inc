// ---------------------------------------------------------------------------------
// where the parts of a layer are stored, and what they are when read back.
// tdb_succinct (how the structures are written and parsed) is assumed: parsing is a
// function of the bytes.
// ---------------------------------------------------------------------------------
/// a place where bytes can be stored
#[verifier::external_body] pub struct Loc { _x: () }
/// what is stored there (None: there is no such file)
pub uninterp spec fn bytes(d: Disk, at: Loc) -> Option<Seq<u8>>;
/// the layers that have a place
pub uninterp spec fn dirs(d: Disk) -> Set<Name5>;
/// the place of a layer's file
pub uninterp spec fn loc(n: Name5, file: Seq<char>) -> Loc;
pub open spec fn by(d: Disk, at: Loc) -> Seq<u8> { bytes(d, at)->0 }
pub open spec fn has_bytes(d: Disk, at: Loc) -> bool { bytes(d, at) is Some }
/// nothing has been written, and no cache has changed
pub open spec fn read_only(a: World, b: World) -> bool { b.disk() == a.disk() && (a.fault() ==> b.fault()) && forall|c: int| #[trigger] b.cell(c) == a.cell(c) }
#[verifier::external_body] pub struct Bytes { _x: () }
impl Bytes { pub uninterp spec fn view(&self) -> Seq<u8>; }
/// a file of the store
#[verifier::external_body] pub struct File { _x: () }
impl File {
    pub uninterp spec fn at(&self) -> Loc;
    /// the layer it belongs to
    pub uninterp spec fn dir(&self) -> Name5;
    #[verifier::external_body] pub fn __map(&self, w: &mut World) -> (r: Result<Bytes, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(b) => bytes(old(w).disk(), self.at()) == Some(b@), Err(_) => final(w).fault() || !has_bytes(old(w).disk(), self.at()) } { unimplemented!() }
    #[verifier::external_body] pub fn map_if_exists(&self, w: &mut World) -> (r: Result<Option<Bytes>, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(Some(b)) => bytes(old(w).disk(), self.at()) == Some(b@), Ok(None) => !has_bytes(old(w).disk(), self.at()), Err(_) => final(w).fault() } { unimplemented!() }
}
impl Clone for File { #[verifier::external_body] fn clone(&self) -> (r: File) ensures r == *self { unimplemented!() } }
// ---- tdb_succinct::storage: groups of files and what is read from them
pub struct DictionaryFiles<F> { pub blocks_file: F, pub offsets_file: F }
pub struct TypedDictionaryFiles<F> { pub types_present_file: F, pub type_offsets_file: F, pub blocks_file: F, pub offsets_file: F }
pub struct BitIndexFiles<F> { pub bits_file: F, pub blocks_file: F, pub sblocks_file: F }
pub struct AdjacencyListFiles<F> { pub bitindex_files: BitIndexFiles<F>, pub nums_file: F }
pub struct DictionaryMaps { pub blocks_map: Bytes, pub offsets_map: Bytes }
pub struct TypedDictionaryMaps { pub types_present_map: Bytes, pub type_offsets_map: Bytes, pub blocks_map: Bytes, pub offsets_map: Bytes }
pub struct BitIndexMaps { pub bits_map: Bytes, pub blocks_map: Bytes, pub sblocks_map: Bytes }
pub struct AdjacencyListMaps { pub bitindex_maps: BitIndexMaps, pub nums_map: Bytes }
impl DictionaryFiles<File> {
    pub open spec fn locs(self) -> DictionaryFiles<Loc> { DictionaryFiles { blocks_file: self.blocks_file.at(), offsets_file: self.offsets_file.at() } }
    #[verifier::external_body] pub fn map_all(&self, w: &mut World) -> (r: Result<DictionaryMaps, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) } { unimplemented!() }
}
impl DictionaryFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool { has_bytes(d, self.blocks_file) && has_bytes(d, self.offsets_file) }
    pub open spec fn gives(self, d: Disk, m: DictionaryMaps) -> bool { self.whole(d) && by(d, self.blocks_file) == m.blocks_map@ && by(d, self.offsets_file) == m.offsets_map@ }
    pub open spec fn dict(self, d: Disk) -> StringDict { str_dict(by(d, self.offsets_file), by(d, self.blocks_file)) }
}
impl TypedDictionaryFiles<File> {
    pub open spec fn locs(self) -> TypedDictionaryFiles<Loc> { TypedDictionaryFiles { types_present_file: self.types_present_file.at(), type_offsets_file: self.type_offsets_file.at(), blocks_file: self.blocks_file.at(), offsets_file: self.offsets_file.at() } }
    #[verifier::external_body] pub fn map_all(&self, w: &mut World) -> (r: Result<TypedDictionaryMaps, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) } { unimplemented!() }
}
impl TypedDictionaryFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool { has_bytes(d, self.types_present_file) && has_bytes(d, self.type_offsets_file) && has_bytes(d, self.blocks_file) && has_bytes(d, self.offsets_file) }
    pub open spec fn gives(self, d: Disk, m: TypedDictionaryMaps) -> bool {
        self.whole(d) && by(d, self.types_present_file) == m.types_present_map@ && by(d, self.type_offsets_file) == m.type_offsets_map@ && by(d, self.blocks_file) == m.blocks_map@ && by(d, self.offsets_file) == m.offsets_map@ }
    pub open spec fn dict(self, d: Disk) -> TypedDict { typed_dict(by(d, self.types_present_file), by(d, self.type_offsets_file), by(d, self.offsets_file), by(d, self.blocks_file)) }
}
impl BitIndexFiles<File> {
    pub open spec fn locs(self) -> BitIndexFiles<Loc> { BitIndexFiles { bits_file: self.bits_file.at(), blocks_file: self.blocks_file.at(), sblocks_file: self.sblocks_file.at() } }
    #[verifier::external_body] pub fn map_all(&self, w: &mut World) -> (r: Result<BitIndexMaps, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) } { unimplemented!() }
    #[verifier::external_body] pub fn map_all_if_exists(&self, w: &mut World) -> (r: Result<Option<BitIndexMaps>, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(Some(m)) => self.locs().gives(old(w).disk(), m), Ok(None) => !has_bytes(old(w).disk(), self.bits_file.at()), Err(_) => final(w).fault() || !self.locs().all_or_none(old(w).disk()) } { unimplemented!() }
}
impl BitIndexFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool { has_bytes(d, self.bits_file) && has_bytes(d, self.blocks_file) && has_bytes(d, self.sblocks_file) }
    pub open spec fn all_or_none(self, d: Disk) -> bool { has_bytes(d, self.bits_file) ==> self.whole(d) }
    pub open spec fn gives(self, d: Disk, m: BitIndexMaps) -> bool { self.whole(d) && by(d, self.bits_file) == m.bits_map@ && by(d, self.blocks_file) == m.blocks_map@ && by(d, self.sblocks_file) == m.sblocks_map@ }
    pub open spec fn index(self, d: Disk) -> BitIndex { bit_index(by(d, self.bits_file), by(d, self.blocks_file), by(d, self.sblocks_file)) }
    /// an optional map of ids
    pub open spec fn idmap(self, d: Disk, size: int) -> IdMap { IdMap { id_wtree: if has_bytes(d, self.bits_file) { Some(wtree(self.index(d), width_for(size))) } else { None } } }
}
impl AdjacencyListFiles<File> {
    pub open spec fn locs(self) -> AdjacencyListFiles<Loc> { AdjacencyListFiles { bitindex_files: self.bitindex_files.locs(), nums_file: self.nums_file.at() } }
    #[verifier::external_body] pub fn map_all(&self, w: &mut World) -> (r: Result<AdjacencyListMaps, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(m) => self.locs().gives(old(w).disk(), m), Err(_) => final(w).fault() || !self.locs().whole(old(w).disk()) } { unimplemented!() }
}
impl AdjacencyListFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool { self.bitindex_files.whole(d) && has_bytes(d, self.nums_file) }
    pub open spec fn gives(self, d: Disk, m: AdjacencyListMaps) -> bool { self.whole(d) && self.bitindex_files.gives(d, m.bitindex_maps) && by(d, self.nums_file) == m.nums_map@ }
    pub open spec fn list(self, d: Disk) -> AdjacencyList { adj_list(by(d, self.nums_file), by(d, self.bitindex_files.bits_file), by(d, self.bitindex_files.blocks_file), by(d, self.bitindex_files.sblocks_file)) }
}
// ---- parsing
#[verifier::external_body] pub struct BitIndex { _x: () }
#[verifier::external_body] pub struct LogArray { _x: () }
#[verifier::external_body] pub struct LogArrayError { _x: () }
#[verifier::external] impl core::fmt::Debug for LogArrayError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub uninterp spec fn str_dict(offsets: Seq<u8>, blocks: Seq<u8>) -> StringDict;
pub uninterp spec fn typed_dict(types_present: Seq<u8>, type_offsets: Seq<u8>, offsets: Seq<u8>, blocks: Seq<u8>) -> TypedDict;
pub uninterp spec fn bit_index(bits: Seq<u8>, blocks: Seq<u8>, sblocks: Seq<u8>) -> BitIndex;
pub uninterp spec fn log_array(b: Seq<u8>) -> Option<LogArray>;
pub uninterp spec fn monotonic(l: LogArray) -> MonotonicLogArray;
pub uninterp spec fn adj_list(nums: Seq<u8>, bits: Seq<u8>, blocks: Seq<u8>, sblocks: Seq<u8>) -> AdjacencyList;
pub uninterp spec fn wtree(b: BitIndex, width: u8) -> WaveletTree;
pub uninterp spec fn width_for(size: int) -> u8;
pub open spec fn array_at(d: Disk, at: Loc) -> MonotonicLogArray { monotonic(log_array(by(d, at))->0) }
pub open spec fn is_array(d: Disk, at: Loc) -> bool { has_bytes(d, at) && log_array(by(d, at)) is Some }
pub open spec fn is_array_opt(d: Disk, at: Loc) -> bool { has_bytes(d, at) ==> log_array(by(d, at)) is Some }
pub open spec fn array_opt(d: Disk, at: Loc) -> Option<MonotonicLogArray> { if has_bytes(d, at) { Some(array_at(d, at)) } else { None } }
impl StringDict { #[verifier::external_body] pub fn parse(offsets: Bytes, blocks: Bytes) -> (r: StringDict) ensures r == str_dict(offsets@, blocks@) { unimplemented!() } }
impl TypedDict { #[verifier::external_body] pub fn from_parts(types_present: Bytes, type_offsets: Bytes, offsets: Bytes, blocks: Bytes) -> (r: TypedDict) ensures r == typed_dict(types_present@, type_offsets@, offsets@, blocks@) { unimplemented!() } }
impl BitIndex { #[verifier::external_body] pub fn from_maps(bits: Bytes, blocks: Bytes, sblocks: Bytes) -> (r: BitIndex) ensures r == bit_index(bits@, blocks@, sblocks@) { unimplemented!() } }
impl LogArray {
    pub uninterp spec fn width_spec(&self) -> u8;
    #[verifier::external_body] pub fn parse(b: Bytes) -> (r: Result<LogArray, LogArrayError>) ensures match r { Ok(l) => log_array(b@) == Some(l), Err(_) => log_array(b@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn width(&self) -> (r: u8) ensures r == self.width_spec() { unimplemented!() }
}
impl MonotonicLogArray { #[verifier::external_body] pub fn from_logarray(l: LogArray) -> (r: MonotonicLogArray) ensures r == monotonic(l) { unimplemented!() } }
impl AdjacencyList {
    pub uninterp spec fn nums_array(&self) -> LogArray;
    #[verifier::external_body] pub fn __nums(&self) -> (r: &LogArray) ensures *r == self.nums_array() { unimplemented!() }
    #[verifier::external_body] pub fn parse(nums: Bytes, bits: Bytes, blocks: Bytes, sblocks: Bytes) -> (r: AdjacencyList) ensures r == adj_list(nums@, bits@, blocks@, sblocks@) { unimplemented!() }
}
impl WaveletTree { #[verifier::external_body] pub fn from_parts(b: BitIndex, width: u8) -> (r: WaveletTree) ensures r == wtree(b, width) { unimplemented!() } }
#[verifier::external_body] pub fn __calculate_width(size: u64) -> (r: u8) ensures r == width_for(size as int) { unimplemented!() }
/// an index over the predicates of a subject-predicate list
pub open spec fn pred_tree(d: Disk, f: BitIndexFiles<Loc>, sp: AdjacencyList) -> WaveletTree { wtree(f.index(d), sp.nums_array().width_spec()) }
// ---- the files of a layer
@@item storage/consts.rs :: struct Filenames
@flag pub
@@end
@@item storage/consts.rs :: const FILENAMES
@flag pub
@@end
@@item storage/file.rs :: struct IdMapMaps
@flag pub
@derive
@@end
@@item storage/file.rs :: struct IdMapFiles
@flag pub
@derive
@subst F : 'static + FileLoad + FileStore => F
@@end
@@item storage/file.rs :: struct BaseLayerFiles
@flag pub
@derive
@subst F : 'static + FileLoad + FileStore => F
@@end
@@item storage/file.rs :: struct BaseLayerMaps
@flag pub
@derive
@@end
@@item storage/file.rs :: struct ChildLayerFiles
@flag pub
@derive
@subst F : 'static + FileLoad + FileStore + Clone + Send + Sync => F
@@end
@@item storage/file.rs :: struct ChildLayerMaps
@flag pub
@derive
@@end
impl IdMapFiles<File> { pub open spec fn locs(self) -> IdMapFiles<Loc> { IdMapFiles { node_value_idmap_files: self.node_value_idmap_files.locs(), predicate_idmap_files: self.predicate_idmap_files.locs() } } }
impl IdMapFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool { self.node_value_idmap_files.all_or_none(d) && self.predicate_idmap_files.all_or_none(d) }
    pub open spec fn gives(self, d: Disk, m: IdMapMaps) -> bool { opt_gives(d, self.node_value_idmap_files, m.node_value_idmap_maps) && opt_gives(d, self.predicate_idmap_files, m.predicate_idmap_maps) }
}
pub open spec fn opt_gives(d: Disk, f: BitIndexFiles<Loc>, m: Option<BitIndexMaps>) -> bool { match m { Some(m) => f.gives(d, m), None => !has_bytes(d, f.bits_file) } }
pub open spec fn opt_bytes(d: Disk, at: Loc, m: Option<Bytes>) -> bool { match m { Some(b) => bytes(d, at) == Some(b@), None => !has_bytes(d, at) } }
impl BaseLayerFiles<File> {
    pub open spec fn locs(self) -> BaseLayerFiles<Loc> {
        BaseLayerFiles {
            node_dictionary_files: self.node_dictionary_files.locs(), predicate_dictionary_files: self.predicate_dictionary_files.locs(), value_dictionary_files: self.value_dictionary_files.locs(),
            id_map_files: self.id_map_files.locs(), subjects_file: self.subjects_file.at(), objects_file: self.objects_file.at(),
            s_p_adjacency_list_files: self.s_p_adjacency_list_files.locs(), sp_o_adjacency_list_files: self.sp_o_adjacency_list_files.locs(), o_ps_adjacency_list_files: self.o_ps_adjacency_list_files.locs(),
            predicate_wavelet_tree_files: self.predicate_wavelet_tree_files.locs(),
        }
    }
}
impl BaseLayerFiles<Loc> {
    /// all files that a base layer needs are there
    pub open spec fn whole(self, d: Disk) -> bool {
        &&& self.node_dictionary_files.whole(d) && self.predicate_dictionary_files.whole(d) && self.value_dictionary_files.whole(d) && self.id_map_files.whole(d)
        &&& self.s_p_adjacency_list_files.whole(d) && self.sp_o_adjacency_list_files.whole(d) && self.o_ps_adjacency_list_files.whole(d) && self.predicate_wavelet_tree_files.whole(d)
    }
    pub open spec fn gives(self, d: Disk, m: BaseLayerMaps) -> bool {
        &&& self.node_dictionary_files.gives(d, m.node_dictionary_maps) && self.predicate_dictionary_files.gives(d, m.predicate_dictionary_maps) && self.value_dictionary_files.gives(d, m.value_dictionary_maps) && self.id_map_files.gives(d, m.id_map_maps)
        &&& opt_bytes(d, self.subjects_file, m.subjects_map) && opt_bytes(d, self.objects_file, m.objects_map)
        &&& self.s_p_adjacency_list_files.gives(d, m.s_p_adjacency_list_maps) && self.sp_o_adjacency_list_files.gives(d, m.sp_o_adjacency_list_maps) && self.o_ps_adjacency_list_files.gives(d, m.o_ps_adjacency_list_maps)
        &&& self.predicate_wavelet_tree_files.gives(d, m.predicate_wavelet_tree_maps)
    }
    /// the base layer that is stored in them
    pub open spec fn own(self, d: Disk) -> Own {
        let nd = self.node_dictionary_files.dict(d); let pd = self.predicate_dictionary_files.dict(d); let vd = self.value_dictionary_files.dict(d);
        let sp = self.s_p_adjacency_list_files.list(d);
        Own { whole: self.whole(d) && is_array_opt(d, self.subjects_file) && is_array_opt(d, self.objects_file), nd, pd, vd,
            nvmap: self.id_map_files.node_value_idmap_files.idmap(d, nd@.len() as int + vd@.len()), pmap: self.id_map_files.predicate_idmap_files.idmap(d, pd@.len() as int),
            psub: array_opt(d, self.subjects_file), pobj: array_opt(d, self.objects_file), psp: sp, pspo: self.sp_o_adjacency_list_files.list(d), pops: self.o_ps_adjacency_list_files.list(d),
            pw: pred_tree(d, self.predicate_wavelet_tree_files, sp), nsub: None, nobj: None, nsp: None, nspo: None, nops: None, nw: None }
    }
}
impl ChildLayerFiles<File> {
    pub open spec fn locs(self) -> ChildLayerFiles<Loc> {
        ChildLayerFiles {
            node_dictionary_files: self.node_dictionary_files.locs(), predicate_dictionary_files: self.predicate_dictionary_files.locs(), value_dictionary_files: self.value_dictionary_files.locs(),
            id_map_files: self.id_map_files.locs(),
            pos_subjects_file: self.pos_subjects_file.at(), pos_objects_file: self.pos_objects_file.at(), neg_subjects_file: self.neg_subjects_file.at(), neg_objects_file: self.neg_objects_file.at(),
            pos_s_p_adjacency_list_files: self.pos_s_p_adjacency_list_files.locs(), pos_sp_o_adjacency_list_files: self.pos_sp_o_adjacency_list_files.locs(), pos_o_ps_adjacency_list_files: self.pos_o_ps_adjacency_list_files.locs(),
            neg_s_p_adjacency_list_files: self.neg_s_p_adjacency_list_files.locs(), neg_sp_o_adjacency_list_files: self.neg_sp_o_adjacency_list_files.locs(), neg_o_ps_adjacency_list_files: self.neg_o_ps_adjacency_list_files.locs(),
            pos_predicate_wavelet_tree_files: self.pos_predicate_wavelet_tree_files.locs(), neg_predicate_wavelet_tree_files: self.neg_predicate_wavelet_tree_files.locs(),
        }
    }
}
impl ChildLayerFiles<Loc> {
    pub open spec fn whole(self, d: Disk) -> bool {
        &&& self.node_dictionary_files.whole(d) && self.predicate_dictionary_files.whole(d) && self.value_dictionary_files.whole(d) && self.id_map_files.whole(d)
        &&& has_bytes(d, self.pos_subjects_file) && has_bytes(d, self.pos_objects_file) && has_bytes(d, self.neg_subjects_file) && has_bytes(d, self.neg_objects_file)
        &&& self.pos_s_p_adjacency_list_files.whole(d) && self.pos_sp_o_adjacency_list_files.whole(d) && self.pos_o_ps_adjacency_list_files.whole(d)
        &&& self.neg_s_p_adjacency_list_files.whole(d) && self.neg_sp_o_adjacency_list_files.whole(d) && self.neg_o_ps_adjacency_list_files.whole(d)
        &&& self.pos_predicate_wavelet_tree_files.whole(d) && self.neg_predicate_wavelet_tree_files.whole(d)
    }
    pub open spec fn gives(self, d: Disk, m: ChildLayerMaps) -> bool {
        &&& self.node_dictionary_files.gives(d, m.node_dictionary_maps) && self.predicate_dictionary_files.gives(d, m.predicate_dictionary_maps) && self.value_dictionary_files.gives(d, m.value_dictionary_maps) && self.id_map_files.gives(d, m.id_map_maps)
        &&& bytes(d, self.pos_subjects_file) == Some(m.pos_subjects_map@) && bytes(d, self.pos_objects_file) == Some(m.pos_objects_map@) && bytes(d, self.neg_subjects_file) == Some(m.neg_subjects_map@) && bytes(d, self.neg_objects_file) == Some(m.neg_objects_map@)
        &&& self.pos_s_p_adjacency_list_files.gives(d, m.pos_s_p_adjacency_list_maps) && self.pos_sp_o_adjacency_list_files.gives(d, m.pos_sp_o_adjacency_list_maps) && self.pos_o_ps_adjacency_list_files.gives(d, m.pos_o_ps_adjacency_list_maps)
        &&& self.neg_s_p_adjacency_list_files.gives(d, m.neg_s_p_adjacency_list_maps) && self.neg_sp_o_adjacency_list_files.gives(d, m.neg_sp_o_adjacency_list_maps) && self.neg_o_ps_adjacency_list_files.gives(d, m.neg_o_ps_adjacency_list_maps)
        &&& self.pos_predicate_wavelet_tree_files.gives(d, m.pos_predicate_wavelet_tree_maps) && self.neg_predicate_wavelet_tree_files.gives(d, m.neg_predicate_wavelet_tree_maps)
    }
    /// the child layer that is stored in them
    pub open spec fn own(self, d: Disk) -> Own {
        let nd = self.node_dictionary_files.dict(d); let pd = self.predicate_dictionary_files.dict(d); let vd = self.value_dictionary_files.dict(d);
        let psp = self.pos_s_p_adjacency_list_files.list(d); let nsp = self.neg_s_p_adjacency_list_files.list(d);
        Own { whole: self.whole(d) && is_array(d, self.pos_subjects_file) && is_array(d, self.pos_objects_file) && is_array(d, self.neg_subjects_file) && is_array(d, self.neg_objects_file), nd, pd, vd,
            nvmap: self.id_map_files.node_value_idmap_files.idmap(d, nd@.len() as int + vd@.len()), pmap: self.id_map_files.predicate_idmap_files.idmap(d, pd@.len() as int),
            psub: Some(array_at(d, self.pos_subjects_file)), pobj: Some(array_at(d, self.pos_objects_file)), psp, pspo: self.pos_sp_o_adjacency_list_files.list(d), pops: self.pos_o_ps_adjacency_list_files.list(d),
            pw: pred_tree(d, self.pos_predicate_wavelet_tree_files, psp),
            nsub: Some(array_at(d, self.neg_subjects_file)), nobj: Some(array_at(d, self.neg_objects_file)), nsp: Some(nsp), nspo: Some(self.neg_sp_o_adjacency_list_files.list(d)), nops: Some(self.neg_o_ps_adjacency_list_files.list(d)),
            nw: Some(pred_tree(d, self.neg_predicate_wavelet_tree_files, nsp)) }
    }
}
