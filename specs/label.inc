@@include names.inc
// ---- labels and their text
@@item storage/label.rs :: struct Label
@flag pub
@flag derives-eq-clone
@@end
pub struct LV { pub name: Seq<char>, pub layer: Option<[u32; 5]>, pub version: nat }
impl View for Label { type V = LV; open spec fn view(&self) -> LV { LV { name: self.name@, layer: self.layer, version: self.version as nat } } }
// what #[derive(Clone, PartialEq)] gives (checked by the extractor to be derived)
impl Clone for Label { #[verifier::external_body] fn clone(&self) -> (r: Label) ensures r@ == self@ { unimplemented!() } }
impl PartialEq for Label { #[verifier::external_body] fn eq(&self, o: &Label) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Label { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Label) -> bool { self@ == o@ } }

impl Label {
@@fn storage/label.rs :: impl Label :: new_empty
@ret r
@props A13 A14
@spec
    ensures r@ == (LV { name: name@, layer: None, version: 0 })
@@end
@@fn storage/label.rs :: impl Label :: new
@ret r
@spec
    ensures r@ == (LV { name: name@, layer: Some(layer), version: 0 })
@@end
@@fn storage/label.rs :: impl Label :: with_updated_layer
@ret r
@props A13 A14
@spec
    requires self.version < u64::MAX
    ensures r@ == (LV { name: self.name@, layer: layer, version: self.version as nat + 1 })
@@end
}
