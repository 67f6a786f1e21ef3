// ---- loading a layer from its files: proved in u_files
impl BaseLayer {
    #[verifier::external_body] pub fn load_from_files(name: Name5, files: &BaseLayerFiles<File>, w: &mut World) -> (r: Result<InternalLayer, io::Error>)
        requires files.locs().own(old(w).disk()).wf()
        ensures read_only(*old(w), *final(w)), match r { Ok(x) => x is Base && x.lname() == name && x.own() == files.locs().own(old(w).disk()), Err(_) => final(w).fault() } { unimplemented!() }
}
impl ChildLayer {
    #[verifier::external_body] pub fn load_from_files(name: Name5, parent: Arc<InternalLayer>, files: &ChildLayerFiles<File>, w: &mut World) -> (r: Result<InternalLayer, io::Error>)
        requires files.locs().own(old(w).disk()).wf(), parent.names_wf()
        ensures read_only(*old(w), *final(w)), match r { Ok(x) => x is Child && x.lname() == name && x.own() == files.locs().own(old(w).disk()) && *x->Child_0.parent == *parent
            && x->Child_0.parent_node_value_count == parent.nv_count() && x->Child_0.parent_predicate_count == parent.p_count(), Err(_) => final(w).fault() } { unimplemented!() }
}
