/// a store that keeps layers in files
#[verifier::external_body] pub struct Store { _x: () }
pub open spec fn gone(w: World, n: Name5) -> bool { !dirs(w.disk()).contains(n) }
pub open spec fn idx_files(f: (File, AdjacencyListFiles<File>, AdjacencyListFiles<File>), s: Loc, sp: AdjacencyListFiles<Loc>, spo: AdjacencyListFiles<Loc>) -> bool { f.0.at() == s && f.1.locs() == sp && f.2.locs() == spo }
pub open spec fn count_files(f: (File, File, BitIndexFiles<File>), nums: Loc, bits: Loc, w: BitIndexFiles<Loc>) -> bool { f.0.at() == nums && f.1.at() == bits && f.2.locs() == w }
pub open spec fn obj_files(f: (File, File, AdjacencyListFiles<File>, AdjacencyListFiles<File>), s: Loc, o: Loc, ops: AdjacencyListFiles<Loc>, sp: AdjacencyListFiles<Loc>) -> bool { f.0.at() == s && f.1.at() == o && f.2.locs() == ops && f.3.locs() == sp }
/// the files of the first names, and the names that are left
pub open spec fn got(files: Vec<File>, all: Seq<&str>, n: Name5, left: Seq<&str>) -> bool {
    &&& files@.len() + left.len() == all.len() && forall|i: int| 0 <= i < left.len() ==> #[trigger] left[i] == all[files@.len() + i]
    &&& forall|i: int| 0 <= i < files@.len() ==> (#[trigger] files@[i]).at() == loc(n, all[i]@)
}
// ---- the files of a layer: proved in u_files
impl Store {
    #[verifier::external_body] pub fn get_file(&self, directory: Name5, name: &str, w: &mut World) -> (r: Result<File, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.at() == loc(directory, name@) && f.dir() == directory, Err(_) => final(w).fault() || gone(*old(w), directory) } { unimplemented!() }
    #[verifier::external_body] pub fn directory_exists(&self, name: Name5, w: &mut World) -> (r: Result<bool, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(b) => b == !gone(*old(w), name), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn file_exists(&self, directory: Name5, file: &str, w: &mut World) -> (r: Result<bool, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(b) => b == has_bytes(old(w).disk(), loc(directory, file@)), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn layer_has_rollup(& self , name : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < bool >)
        ensures read_only(*old(w), *final(w)), match r { Ok(b) => b == has_rollup(old(w).disk(), name), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn layer_has_parent(& self , name : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < bool >)
        ensures read_only(*old(w), *final(w)), match r { Ok(b) => b == has_parent(old(w).disk(), name), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn base_layer_files(& self , name : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < BaseLayerFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(name), Err(_) => final(w).fault() || gone(*old(w), name) } { unimplemented!() }
    #[verifier::external_body] pub fn child_layer_files(& self , name : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < ChildLayerFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == child_at(name), Err(_) => final(w).fault() || gone(*old(w), name) } { unimplemented!() }
    #[verifier::external_body] pub fn node_dictionary_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < DictionaryFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(layer).node_dictionary_files && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_dictionary_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < DictionaryFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(layer).predicate_dictionary_files && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn value_dictionary_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < TypedDictionaryFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(layer).value_dictionary_files && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn node_value_idmap_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < BitIndexFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(layer).id_map_files.node_value_idmap_files && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_idmap_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < BitIndexFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == base_at(layer).id_map_files.predicate_idmap_files && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_addition_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < ( File , AdjacencyListFiles < File > , AdjacencyListFiles < File > , ) >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (if has_parent(old(w).disk(), layer) { idx_files(f, child_at(layer).pos_subjects_file, child_at(layer).pos_s_p_adjacency_list_files, child_at(layer).pos_sp_o_adjacency_list_files) } else { idx_files(f, base_at(layer).subjects_file, base_at(layer).s_p_adjacency_list_files, base_at(layer).sp_o_adjacency_list_files) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_removal_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < Option < ( File , AdjacencyListFiles < File > , AdjacencyListFiles < File > , ) > , >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (match f { Some(f) => has_parent(old(w).disk(), layer) && idx_files(f, child_at(layer).neg_subjects_file, child_at(layer).neg_s_p_adjacency_list_files, child_at(layer).neg_sp_o_adjacency_list_files), None => !has_parent(old(w).disk(), layer) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_wavelet_addition_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < BitIndexFiles < File > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => f.locs() == (if has_parent(old(w).disk(), layer) { child_at(layer).pos_predicate_wavelet_tree_files } else { base_at(layer).predicate_wavelet_tree_files }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_wavelet_removal_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < Option < BitIndexFiles < File > > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (match f { Some(f) => has_parent(old(w).disk(), layer) && f.locs() == child_at(layer).neg_predicate_wavelet_tree_files, None => !has_parent(old(w).disk(), layer) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_layer_addition_count_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < ( File , File , BitIndexFiles < File > ) >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (if has_parent(old(w).disk(), layer) { count_files(f, child_at(layer).pos_s_p_adjacency_list_files.nums_file, child_at(layer).pos_sp_o_adjacency_list_files.bitindex_files.bits_file, child_at(layer).pos_predicate_wavelet_tree_files) } else { count_files(f, base_at(layer).s_p_adjacency_list_files.nums_file, base_at(layer).sp_o_adjacency_list_files.bitindex_files.bits_file, base_at(layer).predicate_wavelet_tree_files) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_layer_removal_count_files(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < Option < ( File , File , BitIndexFiles < File > ) > >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (match f { Some(f) => has_parent(old(w).disk(), layer) && count_files(f, child_at(layer).neg_s_p_adjacency_list_files.nums_file, child_at(layer).neg_sp_o_adjacency_list_files.bitindex_files.bits_file, child_at(layer).neg_predicate_wavelet_tree_files), None => !has_parent(old(w).disk(), layer) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_addition_files_by_object(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < ( File , File , AdjacencyListFiles < File > , AdjacencyListFiles < File > , ) >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (if has_parent(old(w).disk(), layer) { obj_files(f, child_at(layer).pos_subjects_file, child_at(layer).pos_objects_file, child_at(layer).pos_o_ps_adjacency_list_files, child_at(layer).pos_s_p_adjacency_list_files) } else { obj_files(f, base_at(layer).subjects_file, base_at(layer).objects_file, base_at(layer).o_ps_adjacency_list_files, base_at(layer).s_p_adjacency_list_files) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
    #[verifier::external_body] pub fn triple_removal_files_by_object(& self , layer : [ u32 ; 5 ] , w : & mut World) -> (r: io :: Result < Option < ( File , File , AdjacencyListFiles < File > , AdjacencyListFiles < File > , ) > , >)
        ensures read_only(*old(w), *final(w)), match r { Ok(f) => (match f { Some(f) => has_parent(old(w).disk(), layer) && obj_files(f, child_at(layer).neg_subjects_file, child_at(layer).neg_objects_file, child_at(layer).neg_o_ps_adjacency_list_files, child_at(layer).neg_s_p_adjacency_list_files), None => !has_parent(old(w).disk(), layer) }) && !gone(*old(w), layer), Err(_) => final(w).fault() || gone(*old(w), layer) } { unimplemented!() }
}
