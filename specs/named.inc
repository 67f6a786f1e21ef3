impl ChildLayerFiles<Loc> {
    /// the dictionaries are there
    pub open spec fn names_ok(self, d: Disk) -> bool { self.node_dictionary_files.whole(d) && self.predicate_dictionary_files.whole(d) && self.value_dictionary_files.whole(d) && self.node_dictionary_files.dict(d).wf() && self.predicate_dictionary_files.dict(d).wf() && self.value_dictionary_files.dict(d).wf() }
    /// where the names are
    pub open spec fn named_at(self, l: Loc) -> bool { self.node_dictionary_files.at(l) || self.predicate_dictionary_files.at(l) || self.value_dictionary_files.at(l) || l == self.id_map_files.node_value_idmap_files.bits_file || l == self.id_map_files.predicate_idmap_files.bits_file }
}
impl BaseLayerFiles<Loc> {
    pub open spec fn names_ok(self, d: Disk) -> bool { self.node_dictionary_files.whole(d) && self.predicate_dictionary_files.whole(d) && self.value_dictionary_files.whole(d) && self.node_dictionary_files.dict(d).wf() && self.predicate_dictionary_files.dict(d).wf() && self.value_dictionary_files.dict(d).wf() }
    pub open spec fn named_at(self, l: Loc) -> bool { self.node_dictionary_files.at(l) || self.predicate_dictionary_files.at(l) || self.value_dictionary_files.at(l) || l == self.id_map_files.node_value_idmap_files.bits_file || l == self.id_map_files.predicate_idmap_files.bits_file || l == self.subjects_file || l == self.objects_file }
}
