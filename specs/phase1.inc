// ---- first phase: names
@@item layer/builder.rs :: struct DictionarySetFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst TypedDictBufBuilder < BytesMut , BytesMut , BytesMut , BytesMut > => TypedDictBufBuilder
@subst StringDictBufBuilder < BytesMut , BytesMut > => StringDictBufBuilder
@subst TypedDictionaryFiles < F > => TypedDictionaryFiles < File >
@subst DictionaryFiles < F > => DictionaryFiles < File >
@@end
/// names, in the order that the dictionaries need
pub struct Names { pub nodes: Seq<Seq<char>>, pub preds: Seq<Seq<char>>, pub vals: Seq<TypedDictEntry> }
pub open spec fn content(n: Names) -> Content { Content { nodes: n.nodes, preds: n.preds, vals: n.vals, pos: Set::empty(), neg: Set::empty() } }
pub struct NamePlaces { pub n: DictionaryFiles<Loc>, pub p: DictionaryFiles<Loc>, pub v: TypedDictionaryFiles<Loc> }
pub open spec fn after(s: Seq<Seq<char>>, x: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> str_lt(#[trigger] s[i], x) }
pub open spec fn after_val(s: Seq<TypedDictEntry>, x: TypedDictEntry) -> bool { forall|i: int| 0 <= i < s.len() ==> val_lt(#[trigger] s[i], x) }
pub open spec fn nodes_pushed(n: Names, x: Seq<char>) -> Names { Names { nodes: n.nodes.push(x), ..n } }
pub open spec fn preds_pushed(n: Names, x: Seq<char>) -> Names { Names { preds: n.preds.push(x), ..n } }
pub open spec fn vals_pushed(n: Names, x: TypedDictEntry) -> Names { Names { vals: n.vals.push(x), ..n } }
pub open spec fn nodes_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { nodes: n.nodes + x, ..n } }
pub open spec fn preds_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { preds: n.preds + x, ..n } }
pub open spec fn vals_added(n: Names, x: Seq<TypedDictEntry>) -> Names { Names { vals: n.vals + x, ..n } }
pub open spec fn btexts(s: Seq<Bytes>) -> Seq<Seq<char>> { s.map_values(|x: Bytes| text_of(x@)) }
impl DictionarySetFileBuilder {
    pub closed spec fn names(&self) -> Names { Names { nodes: self.node_dictionary_builder.entries(), preds: self.predicate_dictionary_builder.entries(), vals: self.value_dictionary_builder.entries() } }
    pub closed spec fn places(&self) -> NamePlaces { NamePlaces { n: self.node_files.locs(), p: self.predicate_files.locs(), v: self.value_files.locs() } }
    pub open spec fn at(&self, l: Loc) -> bool { self.places().n.at(l) || self.places().p.at(l) || self.places().v.at(l) }
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: from_files
@ret r
@subst TypedDictionaryFiles < F > => TypedDictionaryFiles < File >
@subst DictionaryFiles < F > => DictionaryFiles < File >
@props A03 A05 A08
@spec
    ensures match r { Ok(b) => b.names() == (Names { nodes: seq![], preds: seq![], vals: seq![] }) && b.places() == (NamePlaces { n: node_files.locs(), p: predicate_files.locs(), v: value_files.locs() }), Err(_) => false }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_node
@ret r
@props A03 A05 A08
@spec
    requires after(old(self).names().nodes, node@)
    ensures final(self).places() == old(self).places(), final(self).names() == nodes_pushed(old(self).names(), node@), r == final(self).names().nodes.len()
@at start
broadcast use text_of_utf8;
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_node_bytes
@ret r
@props A08 A09
@spec
    requires after(old(self).names().nodes, text_of(node@))
    ensures final(self).places() == old(self).places(), final(self).names() == nodes_pushed(old(self).names(), text_of(node@)), r == final(self).names().nodes.len()
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_predicate
@ret r
@props A03 A05 A08
@spec
    requires after(old(self).names().preds, predicate@)
    ensures final(self).places() == old(self).places(), final(self).names() == preds_pushed(old(self).names(), predicate@), r == final(self).names().preds.len()
@at start
broadcast use text_of_utf8;
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_predicate_bytes
@ret r
@props A08 A09
@spec
    requires after(old(self).names().preds, text_of(predicate@))
    ensures final(self).places() == old(self).places(), final(self).names() == preds_pushed(old(self).names(), text_of(predicate@)), r == final(self).names().preds.len()
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_value
@ret r
@props A03 A05 A08
@spec
    requires after_val(old(self).names().vals, value)
    ensures final(self).places() == old(self).places(), final(self).names() == vals_pushed(old(self).names(), value), r == final(self).names().vals.len()
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_nodes
@ret r
@generic I = Vec<String>
@props A03 A05 A08
@spec
    requires texts_after(old(self).names().nodes, views(nodes@))
    ensures final(self).places() == old(self).places(), final(self).names() == nodes_added(old(self).names(), views(nodes@))
@at start
let ghost b0 = *self; let ghost xs = nodes@; let ghost ns = views(nodes@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().nodes, ns), ns == views(xs), self.places() == b0.places(), self.names() == nodes_added(b0.names(), ns.take(q)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(node == xs[q]); assert(ns[q] == xs[q]@); let m = self.names().nodes; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().nodes.len() { assert(m[i] == b0.names().nodes[i]); } else { assert(m[i] == ns[i - b0.names().nodes.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().nodes =~= b0.names().nodes + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_nodes_bytes
@ret r
@generic I = Vec<Bytes>
@props A08 A09
@spec
    requires texts_after(old(self).names().nodes, btexts(nodes@))
    ensures final(self).places() == old(self).places(), final(self).names() == nodes_added(old(self).names(), btexts(nodes@))
@at start
let ghost b0 = *self; let ghost xs = nodes@; let ghost ns = btexts(nodes@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().nodes, ns), ns == btexts(xs), self.places() == b0.places(), self.names() == nodes_added(b0.names(), ns.take(q)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(node == xs[q]); assert(ns[q] == text_of(xs[q]@)); let m = self.names().nodes; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().nodes.len() { assert(m[i] == b0.names().nodes[i]); } else { assert(m[i] == ns[i - b0.names().nodes.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().nodes =~= b0.names().nodes + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_predicates
@ret r
@generic I = Vec<String>
@props A03 A05 A08
@spec
    requires texts_after(old(self).names().preds, views(predicates@))
    ensures final(self).places() == old(self).places(), final(self).names() == preds_added(old(self).names(), views(predicates@))
@at start
let ghost b0 = *self; let ghost xs = predicates@; let ghost ns = views(predicates@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().preds, ns), ns == views(xs), self.places() == b0.places(), self.names() == preds_added(b0.names(), ns.take(q)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(predicate == xs[q]); assert(ns[q] == xs[q]@); let m = self.names().preds; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().preds.len() { assert(m[i] == b0.names().preds[i]); } else { assert(m[i] == ns[i - b0.names().preds.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().preds =~= b0.names().preds + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_predicates_bytes
@ret r
@generic I = Vec<Bytes>
@props A08 A09
@spec
    requires texts_after(old(self).names().preds, btexts(predicates@))
    ensures final(self).places() == old(self).places(), final(self).names() == preds_added(old(self).names(), btexts(predicates@))
@at start
let ghost b0 = *self; let ghost xs = predicates@; let ghost ns = btexts(predicates@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().preds, ns), ns == btexts(xs), self.places() == b0.places(), self.names() == preds_added(b0.names(), ns.take(q)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(predicate == xs[q]); assert(ns[q] == text_of(xs[q]@)); let m = self.names().preds; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().preds.len() { assert(m[i] == b0.names().preds[i]); } else { assert(m[i] == ns[i - b0.names().preds.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().preds =~= b0.names().preds + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: add_values
@ret r
@generic I = Vec<TypedDictEntry>
@props A03 A05 A08
@spec
    requires val_more(old(self).names().vals, values@)
    ensures final(self).places() == old(self).places(), final(self).names() == vals_added(old(self).names(), values@)
@at start
let ghost b0 = *self; let ghost xs = values@; let ghost ns = values@; let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), val_more(b0.names().vals, ns), ns == xs, self.places() == b0.places(), self.names() == vals_added(b0.names(), ns.take(q)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(value == xs[q]);  let m = self.names().vals; assert forall|i: int| 0 <= i < m.len() implies val_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().vals.len() { assert(m[i] == b0.names().vals[i]); } else { assert(m[i] == ns[i - b0.names().vals.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().vals =~= b0.names().vals + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/builder.rs :: impl DictionarySetFileBuilder :: finalize
@ret r
@thread w : & mut World ; write_all_from_bufs
@props A03 A05 A08
@spec
    requires forall|l: Loc| #![all_triggers] !(self.places().n.at(l) && self.places().p.at(l)) && !(self.places().n.at(l) && self.places().v.at(l)) && !(self.places().p.at(l) && self.places().v.at(l))
    ensures changed(*old(w), *final(w), |l: Loc| self.at(l)), match r { Ok(_) => self.written(final(w).disk()), Err(_) => final(w).fault() }
@@end
    /// the dictionaries hold the names
    pub open spec fn written(&self, d: Disk) -> bool {
        let p = self.places();
        p.n.whole(d) && p.p.whole(d) && p.v.whole(d) && p.n.dict(d).wf() && p.p.dict(d).wf() && p.v.dict(d).wf() && p.n.dict(d)@ == self.names().nodes && p.p.dict(d)@ == self.names().preds && p.v.dict(d)@ == self.names().vals
    }
}
@@item layer/internal/child.rs :: struct ChildLayerFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore + Clone + Send + Sync > => 
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@subst DictionarySetFileBuilder < F > => DictionarySetFileBuilder
@@end
impl ChildLayerFileBuilder {
    pub closed spec fn parent(&self) -> InternalLayer { *self.parent }
    pub closed spec fn files(&self) -> ChildLayerFiles<Loc> { self.files.locs() }
    pub closed spec fn names(&self) -> Names { self.builder.names() }
    pub closed spec fn wf(&self) -> bool { let f = self.files.locs(); self.builder.places() == (NamePlaces { n: f.node_dictionary_files, p: f.predicate_dictionary_files, v: f.value_dictionary_files }) }
    pub open spec fn c(&self) -> Content { content(self.names()) }
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: from_files
@ret r
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@props A03 A05
@spec
    ensures match r { Ok(b) => b.parent() == *parent && b.files() == files.locs() && b.c() == (Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }) && b.wf(), Err(_) => false }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_node
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), old(self).parent().names_wf(), unknown(old(self).parent(), Name::Node(node@)) ==> after(old(self).names().nodes, node@)
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), unknown(old(self).parent(), Name::Node(node@)) ==> final(self).names() == nodes_pushed(old(self).names(), node@) && r == final(self).names().nodes.len(), !(unknown(old(self).parent(), Name::Node(node@))) ==> final(self).names() == old(self).names() && old(self).parent().id_name(r as int) == Some(Name::Node(node@))
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_predicate
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), old(self).parent().names_wf(), unknown_pred(old(self).parent(), predicate@) ==> after(old(self).names().preds, predicate@)
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), unknown_pred(old(self).parent(), predicate@) ==> final(self).names() == preds_pushed(old(self).names(), predicate@) && r == final(self).names().preds.len(), !(unknown_pred(old(self).parent(), predicate@)) ==> final(self).names() == old(self).names() && old(self).parent().id_pred(r as int) == Some(predicate@)
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_value
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), old(self).parent().names_wf(), unknown(old(self).parent(), Name::Value(value)) ==> after_val(old(self).names().vals, value)
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), unknown(old(self).parent(), Name::Value(value)) ==> final(self).names() == vals_pushed(old(self).names(), value) && r == final(self).names().vals.len(), !(unknown(old(self).parent(), Name::Value(value))) ==> final(self).names() == old(self).names() && old(self).parent().id_name(r as int) == Some(Name::Value(value))
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_nodes
@ret r
@generic I = Vec<String>
@props A03 A05 A08
@spec
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < nodes@.len() ==> unknown(old(self).parent(), Name::Node((#[trigger] nodes@[i])@)), texts_after(old(self).names().nodes, views(nodes@))
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_added(old(self).names(), views(nodes@))
@at start
let ghost b0 = *self; let ghost xs = nodes@; let ghost ns = views(nodes@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().nodes, ns), ns == views(xs), self.parent() == b0.parent(), self.files() == b0.files(), self.wf(), self.names() == nodes_added(b0.names(), ns.take(q)),
    self.parent().names_wf(),
    forall|i: int| 0 <= i < xs.len() ==> unknown(b0.parent(), Name::Node((#[trigger] xs[i])@)),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(node == xs[q]); assert(ns[q] == xs[q]@); let m = self.names().nodes; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().nodes.len() { assert(m[i] == b0.names().nodes[i]); } else { assert(m[i] == ns[i - b0.names().nodes.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().nodes =~= b0.names().nodes + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_predicates
@ret r
@generic I = Vec<String>
@props A03 A05 A08
@spec
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < predicates@.len() ==> unknown_pred(old(self).parent(), (#[trigger] predicates@[i])@), texts_after(old(self).names().preds, views(predicates@))
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_added(old(self).names(), views(predicates@))
@at start
let ghost b0 = *self; let ghost xs = predicates@; let ghost ns = views(predicates@); let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), texts_after(b0.names().preds, ns), ns == views(xs), self.parent() == b0.parent(), self.files() == b0.files(), self.wf(), self.names() == preds_added(b0.names(), ns.take(q)),
    self.parent().names_wf(),
    forall|i: int| 0 <= i < xs.len() ==> unknown_pred(b0.parent(), (#[trigger] xs[i])@),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(predicate == xs[q]); assert(ns[q] == xs[q]@); let m = self.names().preds; assert forall|i: int| 0 <= i < m.len() implies str_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().preds.len() { assert(m[i] == b0.names().preds[i]); } else { assert(m[i] == ns[i - b0.names().preds.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().preds =~= b0.names().preds + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: add_values
@ret r
@generic I = Vec<TypedDictEntry>
@props A03 A05 A08
@spec
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < values@.len() ==> unknown(old(self).parent(), Name::Value(#[trigger] values@[i])), val_more(old(self).names().vals, values@)
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == vals_added(old(self).names(), values@)
@at start
let ghost b0 = *self; let ghost xs = values@; let ghost ns = values@; let ghost mut q: int = 0;
@loop 0
invariant
    0 <= q <= xs.len(), __f0.left() == xs.skip(q), val_more(b0.names().vals, ns), ns == xs, self.parent() == b0.parent(), self.files() == b0.files(), self.wf(), self.names() == vals_added(b0.names(), ns.take(q)),
    self.parent().names_wf(),
    forall|i: int| 0 <= i < xs.len() ==> unknown(b0.parent(), Name::Value(#[trigger] xs[i])),
ensures q == xs.len()
decreases xs.len() - q
@at loopstart 0
proof { assert(value == xs[q]);  let m = self.names().vals; assert forall|i: int| 0 <= i < m.len() implies val_lt(#[trigger] m[i], ns[q]) by { if i < b0.names().vals.len() { assert(m[i] == b0.names().vals[i]); } else { assert(m[i] == ns[i - b0.names().vals.len()]); } } assert(ns.take(q + 1) =~= ns.take(q).push(ns[q])); q = q + 1; }
@at loopend 0
proof { assert(self.names().vals =~= b0.names().vals + ns.take(q)); }
@at tail
proof { assert(ns.take(q) =~= ns); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilder :: into_phase2
@ret r
@subst ChildLayerFileBuilderPhase2 < F > => ChildLayerFileBuilderPhase2
@pre . map ( ) => .__map()
@thread w : & mut World ; finalize __map ChildLayerFileBuilderPhase2::new
@props A03 A05
@spec
    requires self.wf(), parent_ok(self.parent()), fresh_child(old(w).disk(), self.files()), self.parent().nv_count() + self.c().nv() < i64::MAX, self.parent().p_count() + self.c().preds.len() < i64::MAX
    ensures match r { Ok(b) => b.parent() == self.parent() && b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0) && b.neg().last() == tr(0, 0, 0), Err(_) => final(w).fault() }
@at start
let ghost b0 = self; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| child_parts(f, g);
proof { assert(child_parts(f, g)); }
@@end
}
@@item layer/internal/base.rs :: struct BaseLayerFileBuilder
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@subst DictionarySetFileBuilder < F > => DictionarySetFileBuilder
@@end
impl BaseLayerFileBuilder {
    pub closed spec fn files(&self) -> BaseLayerFiles<Loc> { self.files.locs() }
    pub closed spec fn names(&self) -> Names { self.builder.names() }
    pub closed spec fn wf(&self) -> bool { let f = self.files.locs(); self.builder.places() == (NamePlaces { n: f.node_dictionary_files, p: f.predicate_dictionary_files, v: f.value_dictionary_files }) }
    pub open spec fn c(&self) -> Content { content(self.names()) }
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: from_files
@ret r
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@props A03 A05
@spec
    ensures match r { Ok(b) => b.files() == files.locs() && b.c() == (Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }) && b.wf(), Err(_) => false }
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_node
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), after(old(self).names().nodes, node@)
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_pushed(old(self).names(), node@), r == final(self).names().nodes.len()
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_nodes
@ret r
@generic I = Vec<String>
@props A03 A05 A06
@spec
    requires old(self).wf(), texts_after(old(self).names().nodes, views(nodes@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_added(old(self).names(), views(nodes@))
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_nodes_bytes
@ret r
@generic I = Vec<Bytes>
@props A08 A09
@spec
    requires old(self).wf(), texts_after(old(self).names().nodes, btexts(nodes@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_added(old(self).names(), btexts(nodes@))
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_predicate
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), after(old(self).names().preds, predicate@)
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_pushed(old(self).names(), predicate@), r == final(self).names().preds.len()
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_predicates
@ret r
@generic I = Vec<String>
@props A03 A05 A06
@spec
    requires old(self).wf(), texts_after(old(self).names().preds, views(predicates@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_added(old(self).names(), views(predicates@))
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_predicates_bytes
@ret r
@generic I = Vec<Bytes>
@props A08 A09
@spec
    requires old(self).wf(), texts_after(old(self).names().preds, btexts(predicates@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_added(old(self).names(), btexts(predicates@))
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_value
@ret r
@props A03 A05 A06
@spec
    requires old(self).wf(), after_val(old(self).names().vals, value)
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == vals_pushed(old(self).names(), value), r == final(self).names().vals.len()
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: add_values
@ret r
@generic I = Vec<TypedDictEntry>
@props A03 A05 A06
@spec
    requires old(self).wf(), val_more(old(self).names().vals, values@)
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == vals_added(old(self).names(), values@)
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilder :: into_phase2
@ret r
@subst BaseLayerFileBuilderPhase2 < F > => BaseLayerFileBuilderPhase2
@pre . map ( ) => .__map()
@thread w : & mut World ; finalize __map BaseLayerFileBuilderPhase2::new
@props A03 A05
@spec
    requires self.wf(), fresh_base(old(w).disk(), self.files()), self.c().nv() < i64::MAX, self.c().preds.len() < i64::MAX
    ensures match r { Ok(b) => b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0), Err(_) => final(w).fault() }
@at start
let ghost b0 = self; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| base_parts(f, g);
proof { assert(base_parts(f, g)); }
@@end
}
