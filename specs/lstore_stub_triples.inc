    // proved in u_fquery
    #[verifier::external_body] fn triple_addition_exists(&self, layer: Name5, subject: u64, predicate: u64, object: u64, w: &mut World) -> (r: Result<bool, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removal_exists(&self, layer: Name5, subject: u64, predicate: u64, object: u64, w: &mut World) -> (r: Result<bool, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_additions(&self, layer: Name5, w: &mut World) -> (r: Result<OptInternalLayerTripleSubjectIterator, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removals(&self, layer: Name5, w: &mut World) -> (r: Result<OptInternalLayerTripleSubjectIterator, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_additions_s(&self, layer: Name5, subject: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removals_s(&self, layer: Name5, subject: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_additions_sp(&self, layer: Name5, subject: u64, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removals_sp(&self, layer: Name5, subject: u64, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_additions_p(&self, layer: Name5, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removals_p(&self, layer: Name5, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_additions_o(&self, layer: Name5, object: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_removals_o(&self, layer: Name5, object: u64, w: &mut World) -> (r: Result<Stream, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_layer_addition_count(&self, layer: Name5, w: &mut World) -> (r: Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn triple_layer_removal_count(&self, layer: Name5, w: &mut World) -> (r: Result<usize, io::Error>) { unimplemented!() }
