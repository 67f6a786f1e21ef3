// ---- which file holds what
pub open spec fn base_at(n: Name5) -> BaseLayerFiles<Loc> {
    BaseLayerFiles {
        node_dictionary_files: DictionaryFiles { blocks_file: loc(n, FILENAMES.node_dictionary_blocks@), offsets_file: loc(n, FILENAMES.node_dictionary_offsets@) },
        predicate_dictionary_files: DictionaryFiles { blocks_file: loc(n, FILENAMES.predicate_dictionary_blocks@), offsets_file: loc(n, FILENAMES.predicate_dictionary_offsets@) },
        value_dictionary_files: TypedDictionaryFiles { types_present_file: loc(n, FILENAMES.value_dictionary_types_present@), type_offsets_file: loc(n, FILENAMES.value_dictionary_type_offsets@), blocks_file: loc(n, FILENAMES.value_dictionary_blocks@), offsets_file: loc(n, FILENAMES.value_dictionary_offsets@) },
        id_map_files: IdMapFiles { node_value_idmap_files: BitIndexFiles { bits_file: loc(n, FILENAMES.node_value_idmap_bits@), blocks_file: loc(n, FILENAMES.node_value_idmap_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.node_value_idmap_bit_index_sblocks@) }, predicate_idmap_files: BitIndexFiles { bits_file: loc(n, FILENAMES.predicate_idmap_bits@), blocks_file: loc(n, FILENAMES.predicate_idmap_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.predicate_idmap_bit_index_sblocks@) } },
        subjects_file: loc(n, FILENAMES.base_subjects@),
        objects_file: loc(n, FILENAMES.base_objects@),
        s_p_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.base_s_p_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.base_s_p_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.base_s_p_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.base_s_p_adjacency_list_nums@) },
        sp_o_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.base_sp_o_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.base_sp_o_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.base_sp_o_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.base_sp_o_adjacency_list_nums@) },
        o_ps_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.base_o_ps_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.base_o_ps_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.base_o_ps_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.base_o_ps_adjacency_list_nums@) },
        predicate_wavelet_tree_files: BitIndexFiles { bits_file: loc(n, FILENAMES.base_predicate_wavelet_tree_bits@), blocks_file: loc(n, FILENAMES.base_predicate_wavelet_tree_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.base_predicate_wavelet_tree_bit_index_sblocks@) },
    }
}
pub open spec fn child_at(n: Name5) -> ChildLayerFiles<Loc> {
    ChildLayerFiles {
        node_dictionary_files: DictionaryFiles { blocks_file: loc(n, FILENAMES.node_dictionary_blocks@), offsets_file: loc(n, FILENAMES.node_dictionary_offsets@) },
        predicate_dictionary_files: DictionaryFiles { blocks_file: loc(n, FILENAMES.predicate_dictionary_blocks@), offsets_file: loc(n, FILENAMES.predicate_dictionary_offsets@) },
        value_dictionary_files: TypedDictionaryFiles { types_present_file: loc(n, FILENAMES.value_dictionary_types_present@), type_offsets_file: loc(n, FILENAMES.value_dictionary_type_offsets@), blocks_file: loc(n, FILENAMES.value_dictionary_blocks@), offsets_file: loc(n, FILENAMES.value_dictionary_offsets@) },
        id_map_files: IdMapFiles { node_value_idmap_files: BitIndexFiles { bits_file: loc(n, FILENAMES.node_value_idmap_bits@), blocks_file: loc(n, FILENAMES.node_value_idmap_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.node_value_idmap_bit_index_sblocks@) }, predicate_idmap_files: BitIndexFiles { bits_file: loc(n, FILENAMES.predicate_idmap_bits@), blocks_file: loc(n, FILENAMES.predicate_idmap_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.predicate_idmap_bit_index_sblocks@) } },
        pos_subjects_file: loc(n, FILENAMES.pos_subjects@),
        pos_objects_file: loc(n, FILENAMES.pos_objects@),
        pos_s_p_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.pos_s_p_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.pos_s_p_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.pos_s_p_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.pos_s_p_adjacency_list_nums@) },
        pos_sp_o_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.pos_sp_o_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.pos_sp_o_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.pos_sp_o_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.pos_sp_o_adjacency_list_nums@) },
        pos_o_ps_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.pos_o_ps_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.pos_o_ps_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.pos_o_ps_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.pos_o_ps_adjacency_list_nums@) },
        pos_predicate_wavelet_tree_files: BitIndexFiles { bits_file: loc(n, FILENAMES.pos_predicate_wavelet_tree_bits@), blocks_file: loc(n, FILENAMES.pos_predicate_wavelet_tree_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.pos_predicate_wavelet_tree_bit_index_sblocks@) },
        neg_subjects_file: loc(n, FILENAMES.neg_subjects@),
        neg_objects_file: loc(n, FILENAMES.neg_objects@),
        neg_s_p_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.neg_s_p_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.neg_s_p_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.neg_s_p_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.neg_s_p_adjacency_list_nums@) },
        neg_sp_o_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.neg_sp_o_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.neg_sp_o_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.neg_sp_o_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.neg_sp_o_adjacency_list_nums@) },
        neg_o_ps_adjacency_list_files: AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: loc(n, FILENAMES.neg_o_ps_adjacency_list_bits@), blocks_file: loc(n, FILENAMES.neg_o_ps_adjacency_list_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.neg_o_ps_adjacency_list_bit_index_sblocks@) }, nums_file: loc(n, FILENAMES.neg_o_ps_adjacency_list_nums@) },
        neg_predicate_wavelet_tree_files: BitIndexFiles { bits_file: loc(n, FILENAMES.neg_predicate_wavelet_tree_bits@), blocks_file: loc(n, FILENAMES.neg_predicate_wavelet_tree_bit_index_blocks@), sblocks_file: loc(n, FILENAMES.neg_predicate_wavelet_tree_bit_index_sblocks@) },
    }
}
pub open spec fn has_parent(d: Disk, n: Name5) -> bool { has_bytes(d, loc(n, FILENAMES.parent@)) }
pub open spec fn has_rollup(d: Disk, n: Name5) -> bool { has_bytes(d, loc(n, FILENAMES.rollup@)) }
/// the first 40 bytes of the parent file are the parent's name
pub open spec fn parent_in(d: Disk, n: Name5) -> Option<Name5> { let b = by(d, loc(n, FILENAMES.parent@)); if b.len() < 40 { None } else { named(lossy(b.subrange(0, 40))) } }
/// the rollup file has two lines; the second is the name of the layer to use instead (a file that says nothing counts as naming the layer itself, which no valid store has)
pub open spec fn rollup_in(d: Disk, n: Name5) -> Option<Name5> { let l = text_lines(lossy(by(d, loc(n, FILENAMES.rollup@)))); if l.len() != 2 { None } else { named(l[1]) } }
pub open spec fn own_at(d: Disk, n: Name5) -> Own {
    if has_parent(d, n) { let o = child_at(n).own(d); Own { whole: o.whole && parent_in(d, n) is Some, ..o } } else { base_at(n).own(d) }
}
/// all layers that are stored
pub open spec fn stored(d: Disk) -> Data {
    Data {
        lay: Lay {
            own: Map::new(dirs(d), |n: Name5| own_at(d, n)),
            par: Map::new(dirs(d).filter(|n: Name5| has_parent(d, n)), |n: Name5| parent_in(d, n)->0),
        },
        roll: Map::new(dirs(d).filter(|n: Name5| has_rollup(d, n)), |n: Name5| match rollup_in(d, n) { Some(x) => x, None => n }),
    }
}
