// ---------------------------------------------------------------------------------
// IdTriple and its derived order (derived_lt is generated from the field order in the source; what
// #[derive] makes of it is assumed)
// ---------------------------------------------------------------------------------
@@item layer/layer.rs :: struct IdTriple
@flag pub
@flag lexorder
@derive Clone, Copy, PartialEq, Eq, PartialOrd, Ord
@props L
@spec
pub proof fn declared_order_is_triple_order(a: IdTriple, b: IdTriple) ensures derived_lt(a, b) == tlt(a, b) { }
@@end
impl IdTriple {
@@fn layer/layer.rs :: impl IdTriple :: new
@ret r
@props L
@spec ensures r.subject == subject, r.predicate == predicate, r.object == object
@@end
}
pub open spec fn tr(s: u64, p: u64, o: u64) -> IdTriple { IdTriple { subject: s, predicate: p, object: o } }
pub open spec fn tlt(a: IdTriple, b: IdTriple) -> bool {
    a.subject < b.subject || (a.subject == b.subject && (a.predicate < b.predicate || (a.predicate == b.predicate && a.object < b.object)))
}
pub open spec fn tcmp(a: IdTriple, b: IdTriple) -> core::cmp::Ordering {
    if tlt(a, b) { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
}
impl PartialEqSpecImpl for IdTriple { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &IdTriple) -> bool { *self == *o } }
impl PartialOrdSpecImpl for IdTriple { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &IdTriple) -> Option<core::cmp::Ordering> { Some(tcmp(*self, *o)) } }
impl OrdSpecImpl for IdTriple { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &IdTriple) -> core::cmp::Ordering { tcmp(*self, *o) } }
pub assume_specification [<IdTriple as PartialEq>::eq] (a: &IdTriple, b: &IdTriple) -> (r: bool);
pub assume_specification [<IdTriple as PartialOrd>::partial_cmp] (a: &IdTriple, b: &IdTriple) -> (r: Option<core::cmp::Ordering>);
pub assume_specification [<IdTriple as Ord>::cmp] (a: &IdTriple, b: &IdTriple) -> (r: core::cmp::Ordering);
