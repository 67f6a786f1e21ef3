// ---- the files of a layer are in different places: each group has its own number
pub open spec fn part<F>(f: BitIndexFiles<F>, g: spec_fn(F) -> int, n: int) -> bool { g(f.bits_file) == n && g(f.blocks_file) == n && g(f.sblocks_file) == n }
pub open spec fn part_list<F>(f: AdjacencyListFiles<F>, g: spec_fn(F) -> int, n: int) -> bool { part(f.bitindex_files, g, n) && g(f.nums_file) == n }
pub open spec fn part_dict<F>(f: DictionaryFiles<F>, g: spec_fn(F) -> int, n: int) -> bool { g(f.blocks_file) == n && g(f.offsets_file) == n }
pub open spec fn part_typed<F>(f: TypedDictionaryFiles<F>, g: spec_fn(F) -> int, n: int) -> bool { g(f.types_present_file) == n && g(f.type_offsets_file) == n && g(f.blocks_file) == n && g(f.offsets_file) == n }
pub open spec fn child_parts(f: ChildLayerFiles<Loc>, g: spec_fn(Loc) -> int) -> bool {
    &&& part_dict(f.node_dictionary_files, g, 1) && part_dict(f.predicate_dictionary_files, g, 2) && part_typed(f.value_dictionary_files, g, 3)
    &&& g(f.id_map_files.node_value_idmap_files.bits_file) == 4 && g(f.id_map_files.predicate_idmap_files.bits_file) == 4
    &&& g(f.pos_subjects_file) == 5 && g(f.pos_objects_file) == 6 && part_list(f.pos_s_p_adjacency_list_files, g, 7) && part_list(f.pos_sp_o_adjacency_list_files, g, 8) && part_list(f.pos_o_ps_adjacency_list_files, g, 9) && part(f.pos_predicate_wavelet_tree_files, g, 10)
    &&& g(f.neg_subjects_file) == 15 && g(f.neg_objects_file) == 16 && part_list(f.neg_s_p_adjacency_list_files, g, 17) && part_list(f.neg_sp_o_adjacency_list_files, g, 18) && part_list(f.neg_o_ps_adjacency_list_files, g, 19) && part(f.neg_predicate_wavelet_tree_files, g, 20)
}
pub open spec fn apart_child(f: ChildLayerFiles<Loc>) -> bool { exists|g: spec_fn(Loc) -> int| child_parts(f, g) }
pub open spec fn base_parts(f: BaseLayerFiles<Loc>, g: spec_fn(Loc) -> int) -> bool {
    &&& part_dict(f.node_dictionary_files, g, 1) && part_dict(f.predicate_dictionary_files, g, 2) && part_typed(f.value_dictionary_files, g, 3)
    &&& g(f.id_map_files.node_value_idmap_files.bits_file) == 4 && g(f.id_map_files.predicate_idmap_files.bits_file) == 4
    &&& g(f.subjects_file) == 5 && g(f.objects_file) == 6 && part_list(f.s_p_adjacency_list_files, g, 7) && part_list(f.sp_o_adjacency_list_files, g, 8) && part_list(f.o_ps_adjacency_list_files, g, 9) && part(f.predicate_wavelet_tree_files, g, 10)
}
pub open spec fn apart_base(f: BaseLayerFiles<Loc>) -> bool { exists|g: spec_fn(Loc) -> int| base_parts(f, g) }
