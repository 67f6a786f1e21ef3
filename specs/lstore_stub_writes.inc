    // not under contract here
    #[verifier::external_body] fn finalize_layer(&self, name: Name5, w: &mut World) -> (r: Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn create_base_layer(&self, w: &mut World) -> (r: Result<Builder, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn create_child_layer_with_cache<C: LayerCache>(&self, parent: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Builder, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn perform_rollup(&self, layer: Arc<InternalLayer>, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn perform_rollup_upto_with_cache<C: LayerCache>(&self, layer: Arc<InternalLayer>, upto: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn perform_imprecise_rollup_upto_with_cache<C: LayerCache>(&self, layer: Arc<InternalLayer>, upto: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn squash(&self, layer: Arc<InternalLayer>, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn squash_upto(&self, layer: Arc<InternalLayer>, upto: Name5, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn merge_base_layer(&self, layers: &[Name5], temp_dir: &Path, w: &mut World) -> (r: Result<Name5, io::Error>) { unimplemented!() }
