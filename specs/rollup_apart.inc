// ---- the rollup file is no other file of a layer
pub open spec fn not_rollup(s: Seq<char>) -> bool { s != FILENAMES.rollup@ }
pub proof fn rollup_apart_0()
    ensures not_rollup(FILENAMES.node_dictionary_blocks@), not_rollup(FILENAMES.node_dictionary_offsets@), not_rollup(FILENAMES.predicate_dictionary_blocks@), not_rollup(FILENAMES.predicate_dictionary_offsets@), not_rollup(FILENAMES.value_dictionary_types_present@), not_rollup(FILENAMES.value_dictionary_type_offsets@), not_rollup(FILENAMES.value_dictionary_blocks@), not_rollup(FILENAMES.value_dictionary_offsets@), not_rollup(FILENAMES.node_value_idmap_bits@), not_rollup(FILENAMES.node_value_idmap_bit_index_blocks@), not_rollup(FILENAMES.node_value_idmap_bit_index_sblocks@), not_rollup(FILENAMES.predicate_idmap_bits@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("node_dictionary_blocks.tfc"); assert(FILENAMES.node_dictionary_blocks@[0] == "node_dictionary_blocks.tfc"@[0]); reveal_strlit("node_dictionary_offsets.logarray"); assert(FILENAMES.node_dictionary_offsets@[0] == "node_dictionary_offsets.logarray"@[0]); reveal_strlit("predicate_dictionary_blocks.tfc"); assert(FILENAMES.predicate_dictionary_blocks@[0] == "predicate_dictionary_blocks.tfc"@[0]); reveal_strlit("predicate_dictionary_offsets.logarray"); assert(FILENAMES.predicate_dictionary_offsets@[0] == "predicate_dictionary_offsets.logarray"@[0]); reveal_strlit("value_dictionary_types.logarray"); assert(FILENAMES.value_dictionary_types_present@[0] == "value_dictionary_types.logarray"@[0]); reveal_strlit("value_dictionary_type_offsets.logarray"); assert(FILENAMES.value_dictionary_type_offsets@[0] == "value_dictionary_type_offsets.logarray"@[0]); reveal_strlit("value_dictionary_blocks.tfc"); assert(FILENAMES.value_dictionary_blocks@[0] == "value_dictionary_blocks.tfc"@[0]); reveal_strlit("value_dictionary_offsets.logarray"); assert(FILENAMES.value_dictionary_offsets@[0] == "value_dictionary_offsets.logarray"@[0]); reveal_strlit("node_value_idmap_bits.bitarray"); assert(FILENAMES.node_value_idmap_bits@[0] == "node_value_idmap_bits.bitarray"@[0]); reveal_strlit("node_value_idmap_bit_index_blocks.bitarray"); assert(FILENAMES.node_value_idmap_bit_index_blocks@[0] == "node_value_idmap_bit_index_blocks.bitarray"@[0]); reveal_strlit("node_value_idmap_bit_index_sblocks.bitarray"); assert(FILENAMES.node_value_idmap_bit_index_sblocks@[0] == "node_value_idmap_bit_index_sblocks.bitarray"@[0]); reveal_strlit("predicate_idmap_bits.bitarray"); assert(FILENAMES.predicate_idmap_bits@[0] == "predicate_idmap_bits.bitarray"@[0]);
}
pub proof fn rollup_apart_1()
    ensures not_rollup(FILENAMES.predicate_idmap_bit_index_blocks@), not_rollup(FILENAMES.predicate_idmap_bit_index_sblocks@), not_rollup(FILENAMES.base_subjects@), not_rollup(FILENAMES.base_objects@), not_rollup(FILENAMES.base_s_p_adjacency_list_nums@), not_rollup(FILENAMES.base_s_p_adjacency_list_bits@), not_rollup(FILENAMES.base_s_p_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.base_s_p_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.base_sp_o_adjacency_list_nums@), not_rollup(FILENAMES.base_sp_o_adjacency_list_bits@), not_rollup(FILENAMES.base_sp_o_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.base_sp_o_adjacency_list_bit_index_sblocks@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("predicate_idmap_bit_index_blocks.bitarray"); assert(FILENAMES.predicate_idmap_bit_index_blocks@[0] == "predicate_idmap_bit_index_blocks.bitarray"@[0]); reveal_strlit("predicate_idmap_bit_index_sblocks.bitarray"); assert(FILENAMES.predicate_idmap_bit_index_sblocks@[0] == "predicate_idmap_bit_index_sblocks.bitarray"@[0]); reveal_strlit("base_subjects.logarray"); assert(FILENAMES.base_subjects@[0] == "base_subjects.logarray"@[0]); reveal_strlit("base_objects.logarray"); assert(FILENAMES.base_objects@[0] == "base_objects.logarray"@[0]); reveal_strlit("base_s_p_adjacency_list_nums.logarray"); assert(FILENAMES.base_s_p_adjacency_list_nums@[0] == "base_s_p_adjacency_list_nums.logarray"@[0]); reveal_strlit("base_s_p_adjacency_list_bits.bitarray"); assert(FILENAMES.base_s_p_adjacency_list_bits@[0] == "base_s_p_adjacency_list_bits.bitarray"@[0]); reveal_strlit("base_s_p_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.base_s_p_adjacency_list_bit_index_blocks@[0] == "base_s_p_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("base_s_p_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.base_s_p_adjacency_list_bit_index_sblocks@[0] == "base_s_p_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("base_sp_o_adjacency_list_nums.logarray"); assert(FILENAMES.base_sp_o_adjacency_list_nums@[0] == "base_sp_o_adjacency_list_nums.logarray"@[0]); reveal_strlit("base_sp_o_adjacency_list_bits.bitarray"); assert(FILENAMES.base_sp_o_adjacency_list_bits@[0] == "base_sp_o_adjacency_list_bits.bitarray"@[0]); reveal_strlit("base_sp_o_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.base_sp_o_adjacency_list_bit_index_blocks@[0] == "base_sp_o_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("base_sp_o_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.base_sp_o_adjacency_list_bit_index_sblocks@[0] == "base_sp_o_adjacency_list_bit_index_sblocks.logarray"@[0]);
}
pub proof fn rollup_apart_2()
    ensures not_rollup(FILENAMES.base_o_ps_adjacency_list_nums@), not_rollup(FILENAMES.base_o_ps_adjacency_list_bits@), not_rollup(FILENAMES.base_o_ps_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.base_o_ps_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.pos_subjects@), not_rollup(FILENAMES.pos_objects@), not_rollup(FILENAMES.pos_s_p_adjacency_list_nums@), not_rollup(FILENAMES.pos_s_p_adjacency_list_bits@), not_rollup(FILENAMES.pos_s_p_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.pos_s_p_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.pos_sp_o_adjacency_list_nums@), not_rollup(FILENAMES.pos_sp_o_adjacency_list_bits@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("base_o_ps_adjacency_list_nums.logarray"); assert(FILENAMES.base_o_ps_adjacency_list_nums@[0] == "base_o_ps_adjacency_list_nums.logarray"@[0]); reveal_strlit("base_o_ps_adjacency_list_bits.bitarray"); assert(FILENAMES.base_o_ps_adjacency_list_bits@[0] == "base_o_ps_adjacency_list_bits.bitarray"@[0]); reveal_strlit("base_o_ps_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.base_o_ps_adjacency_list_bit_index_blocks@[0] == "base_o_ps_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("base_o_ps_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.base_o_ps_adjacency_list_bit_index_sblocks@[0] == "base_o_ps_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("child_pos_subjects.logarray"); assert(FILENAMES.pos_subjects@[0] == "child_pos_subjects.logarray"@[0]); reveal_strlit("child_pos_objects.logarray"); assert(FILENAMES.pos_objects@[0] == "child_pos_objects.logarray"@[0]); reveal_strlit("pos_s_p_adjacency_list_nums.logarray"); assert(FILENAMES.pos_s_p_adjacency_list_nums@[0] == "pos_s_p_adjacency_list_nums.logarray"@[0]); reveal_strlit("pos_s_p_adjacency_list_bits.bitarray"); assert(FILENAMES.pos_s_p_adjacency_list_bits@[0] == "pos_s_p_adjacency_list_bits.bitarray"@[0]); reveal_strlit("pos_s_p_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.pos_s_p_adjacency_list_bit_index_blocks@[0] == "pos_s_p_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("pos_s_p_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.pos_s_p_adjacency_list_bit_index_sblocks@[0] == "pos_s_p_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("pos_sp_o_adjacency_list_nums.logarray"); assert(FILENAMES.pos_sp_o_adjacency_list_nums@[0] == "pos_sp_o_adjacency_list_nums.logarray"@[0]); reveal_strlit("pos_sp_o_adjacency_list_bits.bitarray"); assert(FILENAMES.pos_sp_o_adjacency_list_bits@[0] == "pos_sp_o_adjacency_list_bits.bitarray"@[0]);
}
pub proof fn rollup_apart_3()
    ensures not_rollup(FILENAMES.pos_sp_o_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.pos_sp_o_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.pos_o_ps_adjacency_list_nums@), not_rollup(FILENAMES.pos_o_ps_adjacency_list_bits@), not_rollup(FILENAMES.pos_o_ps_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.pos_o_ps_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.neg_subjects@), not_rollup(FILENAMES.neg_objects@), not_rollup(FILENAMES.neg_s_p_adjacency_list_nums@), not_rollup(FILENAMES.neg_s_p_adjacency_list_bits@), not_rollup(FILENAMES.neg_s_p_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.neg_s_p_adjacency_list_bit_index_sblocks@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("pos_sp_o_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.pos_sp_o_adjacency_list_bit_index_blocks@[0] == "pos_sp_o_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("pos_sp_o_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.pos_sp_o_adjacency_list_bit_index_sblocks@[0] == "pos_sp_o_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("pos_o_ps_adjacency_list_nums.logarray"); assert(FILENAMES.pos_o_ps_adjacency_list_nums@[0] == "pos_o_ps_adjacency_list_nums.logarray"@[0]); reveal_strlit("pos_o_ps_adjacency_list_bits.bitarray"); assert(FILENAMES.pos_o_ps_adjacency_list_bits@[0] == "pos_o_ps_adjacency_list_bits.bitarray"@[0]); reveal_strlit("pos_o_ps_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.pos_o_ps_adjacency_list_bit_index_blocks@[0] == "pos_o_ps_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("pos_o_ps_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.pos_o_ps_adjacency_list_bit_index_sblocks@[0] == "pos_o_ps_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("child_neg_subjects.logarray"); assert(FILENAMES.neg_subjects@[0] == "child_neg_subjects.logarray"@[0]); reveal_strlit("child_neg_objects.logarray"); assert(FILENAMES.neg_objects@[0] == "child_neg_objects.logarray"@[0]); reveal_strlit("neg_s_p_adjacency_list_nums.logarray"); assert(FILENAMES.neg_s_p_adjacency_list_nums@[0] == "neg_s_p_adjacency_list_nums.logarray"@[0]); reveal_strlit("neg_s_p_adjacency_list_bits.bitarray"); assert(FILENAMES.neg_s_p_adjacency_list_bits@[0] == "neg_s_p_adjacency_list_bits.bitarray"@[0]); reveal_strlit("neg_s_p_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.neg_s_p_adjacency_list_bit_index_blocks@[0] == "neg_s_p_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("neg_s_p_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.neg_s_p_adjacency_list_bit_index_sblocks@[0] == "neg_s_p_adjacency_list_bit_index_sblocks.logarray"@[0]);
}
pub proof fn rollup_apart_4()
    ensures not_rollup(FILENAMES.neg_sp_o_adjacency_list_nums@), not_rollup(FILENAMES.neg_sp_o_adjacency_list_bits@), not_rollup(FILENAMES.neg_sp_o_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.neg_sp_o_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.neg_o_ps_adjacency_list_nums@), not_rollup(FILENAMES.neg_o_ps_adjacency_list_bits@), not_rollup(FILENAMES.neg_o_ps_adjacency_list_bit_index_blocks@), not_rollup(FILENAMES.neg_o_ps_adjacency_list_bit_index_sblocks@), not_rollup(FILENAMES.base_predicate_wavelet_tree_bits@), not_rollup(FILENAMES.base_predicate_wavelet_tree_bit_index_blocks@), not_rollup(FILENAMES.base_predicate_wavelet_tree_bit_index_sblocks@), not_rollup(FILENAMES.pos_predicate_wavelet_tree_bits@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("neg_sp_o_adjacency_list_nums.logarray"); assert(FILENAMES.neg_sp_o_adjacency_list_nums@[0] == "neg_sp_o_adjacency_list_nums.logarray"@[0]); reveal_strlit("neg_sp_o_adjacency_list_bits.bitarray"); assert(FILENAMES.neg_sp_o_adjacency_list_bits@[0] == "neg_sp_o_adjacency_list_bits.bitarray"@[0]); reveal_strlit("neg_sp_o_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.neg_sp_o_adjacency_list_bit_index_blocks@[0] == "neg_sp_o_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("neg_sp_o_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.neg_sp_o_adjacency_list_bit_index_sblocks@[0] == "neg_sp_o_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("neg_o_ps_adjacency_list_nums.logarray"); assert(FILENAMES.neg_o_ps_adjacency_list_nums@[0] == "neg_o_ps_adjacency_list_nums.logarray"@[0]); reveal_strlit("neg_o_ps_adjacency_list_bits.bitarray"); assert(FILENAMES.neg_o_ps_adjacency_list_bits@[0] == "neg_o_ps_adjacency_list_bits.bitarray"@[0]); reveal_strlit("neg_o_ps_adjacency_list_bit_index_blocks.logarray"); assert(FILENAMES.neg_o_ps_adjacency_list_bit_index_blocks@[0] == "neg_o_ps_adjacency_list_bit_index_blocks.logarray"@[0]); reveal_strlit("neg_o_ps_adjacency_list_bit_index_sblocks.logarray"); assert(FILENAMES.neg_o_ps_adjacency_list_bit_index_sblocks@[0] == "neg_o_ps_adjacency_list_bit_index_sblocks.logarray"@[0]); reveal_strlit("base_predicate_wavelet_tree_bits.bitarray"); assert(FILENAMES.base_predicate_wavelet_tree_bits@[0] == "base_predicate_wavelet_tree_bits.bitarray"@[0]); reveal_strlit("base_predicate_wavelet_tree_bit_index_blocks.logarray"); assert(FILENAMES.base_predicate_wavelet_tree_bit_index_blocks@[0] == "base_predicate_wavelet_tree_bit_index_blocks.logarray"@[0]); reveal_strlit("base_predicate_wavelet_tree_bit_index_sblocks.logarray"); assert(FILENAMES.base_predicate_wavelet_tree_bit_index_sblocks@[0] == "base_predicate_wavelet_tree_bit_index_sblocks.logarray"@[0]); reveal_strlit("pos_predicate_wavelet_tree_bits.bitarray"); assert(FILENAMES.pos_predicate_wavelet_tree_bits@[0] == "pos_predicate_wavelet_tree_bits.bitarray"@[0]);
}
pub proof fn rollup_apart_5()
    ensures not_rollup(FILENAMES.pos_predicate_wavelet_tree_bit_index_blocks@), not_rollup(FILENAMES.pos_predicate_wavelet_tree_bit_index_sblocks@), not_rollup(FILENAMES.neg_predicate_wavelet_tree_bits@), not_rollup(FILENAMES.neg_predicate_wavelet_tree_bit_index_blocks@), not_rollup(FILENAMES.neg_predicate_wavelet_tree_bit_index_sblocks@), not_rollup(FILENAMES.parent@)
{
    reveal_strlit("rollup.hex"); reveal_strlit("pos_predicate_wavelet_tree_bit_index_blocks.logarray"); assert(FILENAMES.pos_predicate_wavelet_tree_bit_index_blocks@[0] == "pos_predicate_wavelet_tree_bit_index_blocks.logarray"@[0]); reveal_strlit("pos_predicate_wavelet_tree_bit_index_sblocks.logarray"); assert(FILENAMES.pos_predicate_wavelet_tree_bit_index_sblocks@[0] == "pos_predicate_wavelet_tree_bit_index_sblocks.logarray"@[0]); reveal_strlit("neg_predicate_wavelet_tree_bits.bitarray"); assert(FILENAMES.neg_predicate_wavelet_tree_bits@[0] == "neg_predicate_wavelet_tree_bits.bitarray"@[0]); reveal_strlit("neg_predicate_wavelet_tree_bit_index_blocks.logarray"); assert(FILENAMES.neg_predicate_wavelet_tree_bit_index_blocks@[0] == "neg_predicate_wavelet_tree_bit_index_blocks.logarray"@[0]); reveal_strlit("neg_predicate_wavelet_tree_bit_index_sblocks.logarray"); assert(FILENAMES.neg_predicate_wavelet_tree_bit_index_sblocks@[0] == "neg_predicate_wavelet_tree_bit_index_sblocks.logarray"@[0]); reveal_strlit("parent.hex"); assert(FILENAMES.parent@[0] == "parent.hex"@[0]);
}
/// a write to a layer's rollup file leaves what layers record as it is
#[verifier::rlimit(200)]
pub proof fn own_kept(a: Disk, b: Disk, n: Name5, m: Name5)
    requires touched(a, b, loc(n, FILENAMES.rollup@))
    ensures own_at(b, m) == own_at(a, m), has_parent(b, m) == has_parent(a, m), parent_in(b, m) == parent_in(a, m), m != n ==> has_rollup(b, m) == has_rollup(a, m) && rollup_in(b, m) == rollup_in(a, m)
{
    broadcast use loc_distinct;
    rollup_apart_0(); rollup_apart_1(); rollup_apart_2(); rollup_apart_3(); rollup_apart_4(); rollup_apart_5();
    assert(bytes(b, loc(m, FILENAMES.node_dictionary_blocks@)) == bytes(a, loc(m, FILENAMES.node_dictionary_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.node_dictionary_offsets@)) == bytes(a, loc(m, FILENAMES.node_dictionary_offsets@)));
    assert(bytes(b, loc(m, FILENAMES.predicate_dictionary_blocks@)) == bytes(a, loc(m, FILENAMES.predicate_dictionary_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.predicate_dictionary_offsets@)) == bytes(a, loc(m, FILENAMES.predicate_dictionary_offsets@)));
    assert(bytes(b, loc(m, FILENAMES.value_dictionary_types_present@)) == bytes(a, loc(m, FILENAMES.value_dictionary_types_present@)));
    assert(bytes(b, loc(m, FILENAMES.value_dictionary_type_offsets@)) == bytes(a, loc(m, FILENAMES.value_dictionary_type_offsets@)));
    assert(bytes(b, loc(m, FILENAMES.value_dictionary_blocks@)) == bytes(a, loc(m, FILENAMES.value_dictionary_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.value_dictionary_offsets@)) == bytes(a, loc(m, FILENAMES.value_dictionary_offsets@)));
    assert(bytes(b, loc(m, FILENAMES.node_value_idmap_bits@)) == bytes(a, loc(m, FILENAMES.node_value_idmap_bits@)));
    assert(bytes(b, loc(m, FILENAMES.node_value_idmap_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.node_value_idmap_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.node_value_idmap_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.node_value_idmap_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.predicate_idmap_bits@)) == bytes(a, loc(m, FILENAMES.predicate_idmap_bits@)));
    assert(bytes(b, loc(m, FILENAMES.predicate_idmap_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.predicate_idmap_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.predicate_idmap_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.predicate_idmap_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_subjects@)) == bytes(a, loc(m, FILENAMES.base_subjects@)));
    assert(bytes(b, loc(m, FILENAMES.base_objects@)) == bytes(a, loc(m, FILENAMES.base_objects@)));
    assert(bytes(b, loc(m, FILENAMES.base_s_p_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.base_s_p_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.base_s_p_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.base_s_p_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.base_s_p_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.base_s_p_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_s_p_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.base_s_p_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_sp_o_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.base_sp_o_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.base_sp_o_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.base_sp_o_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.base_sp_o_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.base_sp_o_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_sp_o_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.base_sp_o_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_o_ps_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.base_o_ps_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.base_o_ps_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.base_o_ps_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.base_o_ps_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.base_o_ps_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_o_ps_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.base_o_ps_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_subjects@)) == bytes(a, loc(m, FILENAMES.pos_subjects@)));
    assert(bytes(b, loc(m, FILENAMES.pos_objects@)) == bytes(a, loc(m, FILENAMES.pos_objects@)));
    assert(bytes(b, loc(m, FILENAMES.pos_s_p_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.pos_s_p_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.pos_s_p_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.pos_s_p_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.pos_s_p_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.pos_s_p_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_s_p_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.pos_s_p_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_sp_o_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.pos_sp_o_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.pos_sp_o_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.pos_sp_o_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.pos_sp_o_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.pos_sp_o_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_sp_o_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.pos_sp_o_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_o_ps_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.pos_o_ps_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.pos_o_ps_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.pos_o_ps_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.pos_o_ps_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.pos_o_ps_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_o_ps_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.pos_o_ps_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_subjects@)) == bytes(a, loc(m, FILENAMES.neg_subjects@)));
    assert(bytes(b, loc(m, FILENAMES.neg_objects@)) == bytes(a, loc(m, FILENAMES.neg_objects@)));
    assert(bytes(b, loc(m, FILENAMES.neg_s_p_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.neg_s_p_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.neg_s_p_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.neg_s_p_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.neg_s_p_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.neg_s_p_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_s_p_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.neg_s_p_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_sp_o_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.neg_sp_o_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.neg_sp_o_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.neg_sp_o_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.neg_sp_o_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.neg_sp_o_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_sp_o_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.neg_sp_o_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_o_ps_adjacency_list_nums@)) == bytes(a, loc(m, FILENAMES.neg_o_ps_adjacency_list_nums@)));
    assert(bytes(b, loc(m, FILENAMES.neg_o_ps_adjacency_list_bits@)) == bytes(a, loc(m, FILENAMES.neg_o_ps_adjacency_list_bits@)));
    assert(bytes(b, loc(m, FILENAMES.neg_o_ps_adjacency_list_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.neg_o_ps_adjacency_list_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_o_ps_adjacency_list_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.neg_o_ps_adjacency_list_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_predicate_wavelet_tree_bits@)) == bytes(a, loc(m, FILENAMES.base_predicate_wavelet_tree_bits@)));
    assert(bytes(b, loc(m, FILENAMES.base_predicate_wavelet_tree_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.base_predicate_wavelet_tree_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.base_predicate_wavelet_tree_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.base_predicate_wavelet_tree_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_predicate_wavelet_tree_bits@)) == bytes(a, loc(m, FILENAMES.pos_predicate_wavelet_tree_bits@)));
    assert(bytes(b, loc(m, FILENAMES.pos_predicate_wavelet_tree_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.pos_predicate_wavelet_tree_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.pos_predicate_wavelet_tree_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.pos_predicate_wavelet_tree_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_predicate_wavelet_tree_bits@)) == bytes(a, loc(m, FILENAMES.neg_predicate_wavelet_tree_bits@)));
    assert(bytes(b, loc(m, FILENAMES.neg_predicate_wavelet_tree_bit_index_blocks@)) == bytes(a, loc(m, FILENAMES.neg_predicate_wavelet_tree_bit_index_blocks@)));
    assert(bytes(b, loc(m, FILENAMES.neg_predicate_wavelet_tree_bit_index_sblocks@)) == bytes(a, loc(m, FILENAMES.neg_predicate_wavelet_tree_bit_index_sblocks@)));
    assert(bytes(b, loc(m, FILENAMES.parent@)) == bytes(a, loc(m, FILENAMES.parent@)));
    assert(base_at(m).own(b) == base_at(m).own(a));
    assert(child_at(m).own(b) == child_at(m).own(a));
}
