// ---- used by the builders: groups of files can be copied, and what the parent answers (proved in u_ids, u_exists)
impl Clone for DictionaryFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: DictionaryFiles<File>) ensures r == *self { unimplemented!() } }
impl Clone for TypedDictionaryFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: TypedDictionaryFiles<File>) ensures r == *self { unimplemented!() } }
impl Clone for BitIndexFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: BitIndexFiles<File>) ensures r == *self { unimplemented!() } }
impl Clone for AdjacencyListFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: AdjacencyListFiles<File>) ensures r == *self { unimplemented!() } }
impl Clone for BaseLayerFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: BaseLayerFiles<File>) ensures r == *self { unimplemented!() } }
impl Clone for ChildLayerFiles<File> { #[verifier::external_body] fn clone(&self) -> (r: ChildLayerFiles<File>) ensures r == *self { unimplemented!() } }
@@item layer/layer.rs :: struct LayerCounts
@flag pub
@@end
impl InternalLayer {
    #[verifier::external_body] pub fn all_counts(&self) -> (r: LayerCounts) requires self.names_wf() ensures r.node_count == self.n_total(), r.value_count == self.v_total(), r.predicate_count == self.p_count() { unimplemented!() }
    #[verifier::external_body] pub fn triple_exists(&self, subject: u64, predicate: u64, object: u64) -> (r: bool) requires self.triples_wf() ensures r == self.has(subject, predicate, object) { unimplemented!() }
    #[verifier::external_body] pub fn subject_id(&self, subject: &str) -> (r: Option<u64>) requires self.names_wf() ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Node(subject@)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(subject@)) } { unimplemented!() }
    #[verifier::external_body] pub fn predicate_id(&self, predicate: &str) -> (r: Option<u64>) requires self.names_wf() ensures match r { Some(id) => self.id_pred(id as int) == Some(predicate@), None => forall|id: int| #[trigger] self.id_pred(id) != Some(predicate@) } { unimplemented!() }
    #[verifier::external_body] pub fn object_value_id(&self, object: &TypedDictEntry) -> (r: Option<u64>) requires self.names_wf() ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Value(*object)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Value(*object)) } { unimplemented!() }
}
