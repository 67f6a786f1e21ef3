// ---- the builders of a layer's files: proved in u_fbuild (generated by tools/dev/gen_decl.py from its blocks)
#[verifier::external_body] pub struct TripleFileBuilder { _x: () }
impl TripleFileBuilder {
    pub uninterp spec fn said(&self) -> Set<IdTriple>;
    pub uninterp spec fn last(&self) -> IdTriple;
    pub uninterp spec fn same(&self, o: &TripleFileBuilder) -> bool;
}
pub struct Names { pub nodes: Seq<Seq<char>>, pub preds: Seq<Seq<char>>, pub vals: Seq<TypedDictEntry> }
pub open spec fn content(n: Names) -> Content { Content { nodes: n.nodes, preds: n.preds, vals: n.vals, pos: Set::empty(), neg: Set::empty() } }
pub open spec fn nodes_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { nodes: n.nodes + x, ..n } }
pub open spec fn preds_added(n: Names, x: Seq<Seq<char>>) -> Names { Names { preds: n.preds + x, ..n } }
pub open spec fn vals_added(n: Names, x: Seq<TypedDictEntry>) -> Names { Names { vals: n.vals + x, ..n } }
#[verifier::external_body] pub struct ChildLayerFileBuilder { _x: () }
#[verifier::external_body] pub struct ChildLayerFileBuilderPhase2 { _x: () }
impl ChildLayerFileBuilder {
    pub uninterp spec fn parent(&self) -> InternalLayer;
    pub uninterp spec fn files(&self) -> ChildLayerFiles<Loc>;
    pub uninterp spec fn names(&self) -> Names;
    pub uninterp spec fn wf(&self) -> bool;
    pub open spec fn c(&self) -> Content { content(self.names()) }
    #[verifier::external_body] pub fn from_files(parent: Arc<InternalLayer>, files: &ChildLayerFiles<File>) -> (r: Result<ChildLayerFileBuilder, io::Error>)
    ensures match r { Ok(b) => b.parent() == *parent && b.files() == files.locs() && b.c() == (Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }) && b.wf(), Err(_) => false } { unimplemented!() }
    #[verifier::external_body] pub fn add_nodes(&mut self, nodes: Vec<String>) -> (r: Vec<u64>)
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < nodes@.len() ==> unknown(old(self).parent(), Name::Node((#[trigger] nodes@[i])@)), texts_after(old(self).names().nodes, views(nodes@))
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_added(old(self).names(), views(nodes@)) { unimplemented!() }
    #[verifier::external_body] pub fn add_predicates(&mut self, predicates: Vec<String>) -> (r: Vec<u64>)
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < predicates@.len() ==> unknown_pred(old(self).parent(), (#[trigger] predicates@[i])@), texts_after(old(self).names().preds, views(predicates@))
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_added(old(self).names(), views(predicates@)) { unimplemented!() }
    #[verifier::external_body] pub fn add_values(&mut self, values: Vec<TypedDictEntry>) -> (r: Vec<u64>)
    requires old(self).wf(), old(self).parent().names_wf(), forall|i: int| 0 <= i < values@.len() ==> unknown(old(self).parent(), Name::Value(#[trigger] values@[i])), val_more(old(self).names().vals, values@)
    ensures final(self).parent() == old(self).parent(), final(self).files() == old(self).files(), final(self).wf(), final(self).names() == vals_added(old(self).names(), values@) { unimplemented!() }
    #[verifier::external_body] pub fn into_phase2(self, w: &mut World) -> (r: Result<ChildLayerFileBuilderPhase2, io::Error>)
    requires self.wf(), parent_ok(self.parent()), fresh_child(old(w).disk(), self.files()), self.parent().nv_count() + self.c().nv() < i64::MAX, self.parent().p_count() + self.c().preds.len() < i64::MAX
    ensures match r { Ok(b) => b.parent() == self.parent() && b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0) && b.neg().last() == tr(0, 0, 0), Err(_) => final(w).fault() } { unimplemented!() }
}
impl ChildLayerFileBuilderPhase2 {
    pub uninterp spec fn parent(&self) -> InternalLayer;
    pub uninterp spec fn files(&self) -> ChildLayerFiles<Loc>;
    pub uninterp spec fn pos(&self) -> TripleFileBuilder;
    /// the dictionaries are written
    pub uninterp spec fn ready(&self, d: Disk) -> bool;
    pub uninterp spec fn neg(&self) -> TripleFileBuilder;
    pub open spec fn c(&self, d: Disk) -> Content { Content { nodes: self.files().node_dictionary_files.dict(d)@, preds: self.files().predicate_dictionary_files.dict(d)@, vals: self.files().value_dictionary_files.dict(d)@, pos: self.pos().said(), neg: self.neg().said() } }
    pub open spec fn nv(&self, d: Disk) -> int { self.parent().nv_count() + self.c(d).nv() }
    pub open spec fn np(&self, d: Disk) -> int { self.parent().p_count() + self.c(d).preds.len() }
    pub open spec fn next_ok(&self, t: IdTriple, d: Disk) -> bool { within(t, self.nv(d), self.np(d)) }
    pub open spec fn same(&self, o: &ChildLayerFileBuilderPhase2) -> bool { self.parent() == o.parent() && self.files() == o.files() && self.pos().same(&o.pos()) && self.neg().same(&o.neg()) }
    #[verifier::external_body] pub fn add_id_triples(&mut self, triples: Vec<IdTriple>, w: &mut World) -> (r: Result<(), io::Error>)
    requires old(self).ready(old(w).disk()), parent_ok(old(self).parent()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).pos().last(), triples@[i]))
    ensures final(self).same(old(self)), final(self).neg() == old(self).neg(),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { pos: final(self).pos().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).pos().said().contains(t) <==> old(self).pos().said().contains(t) || (triples@.contains(t) && nonzero(t) && !has_t(old(self).parent(), t))), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn remove_id_triples(&mut self, triples: Vec<IdTriple>, w: &mut World) -> (r: Result<(), io::Error>)
    requires old(self).ready(old(w).disk()), parent_ok(old(self).parent()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).neg().last(), triples@[i]))
    ensures final(self).same(old(self)), final(self).pos() == old(self).pos(),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { neg: final(self).neg().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).neg().said().contains(t) <==> old(self).neg().said().contains(t) || (triples@.contains(t) && nonzero(t) && has_t(old(self).parent(), t))), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self, w: &mut World) -> (r: Result<(), io::Error>)
    requires self.ready(old(w).disk())
    ensures match r { Ok(_) => self.c(old(w).disk()).stored_in(self.files().own(final(w).disk())), Err(_) => final(w).fault() } { unimplemented!() }
}
#[verifier::external_body] pub struct BaseLayerFileBuilder { _x: () }
#[verifier::external_body] pub struct BaseLayerFileBuilderPhase2 { _x: () }
impl BaseLayerFileBuilder {
    pub uninterp spec fn files(&self) -> BaseLayerFiles<Loc>;
    pub uninterp spec fn names(&self) -> Names;
    pub uninterp spec fn wf(&self) -> bool;
    pub open spec fn c(&self) -> Content { content(self.names()) }
    #[verifier::external_body] pub fn from_files(files: &BaseLayerFiles<File>) -> (r: Result<BaseLayerFileBuilder, io::Error>)
    ensures match r { Ok(b) => b.files() == files.locs() && b.c() == (Content { nodes: seq![], preds: seq![], vals: seq![], pos: Set::empty(), neg: Set::empty() }) && b.wf(), Err(_) => false } { unimplemented!() }
    #[verifier::external_body] pub fn add_nodes(&mut self, nodes: Vec<String>) -> (r: Vec<u64>)
    requires old(self).wf(), texts_after(old(self).names().nodes, views(nodes@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == nodes_added(old(self).names(), views(nodes@)) { unimplemented!() }
    #[verifier::external_body] pub fn add_predicates(&mut self, predicates: Vec<String>) -> (r: Vec<u64>)
    requires old(self).wf(), texts_after(old(self).names().preds, views(predicates@))
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == preds_added(old(self).names(), views(predicates@)) { unimplemented!() }
    #[verifier::external_body] pub fn add_values(&mut self, values: Vec<TypedDictEntry>) -> (r: Vec<u64>)
    requires old(self).wf(), val_more(old(self).names().vals, values@)
    ensures final(self).files() == old(self).files(), final(self).wf(), final(self).names() == vals_added(old(self).names(), values@) { unimplemented!() }
    #[verifier::external_body] pub fn into_phase2(self, w: &mut World) -> (r: Result<BaseLayerFileBuilderPhase2, io::Error>)
    requires self.wf(), fresh_base(old(w).disk(), self.files()), self.c().nv() < i64::MAX, self.c().preds.len() < i64::MAX
    ensures match r { Ok(b) => b.files() == self.files() && b.c(final(w).disk()) == self.c() && b.ready(final(w).disk()) && b.pos().last() == tr(0, 0, 0), Err(_) => final(w).fault() } { unimplemented!() }
}
impl BaseLayerFileBuilderPhase2 {
    pub uninterp spec fn files(&self) -> BaseLayerFiles<Loc>;
    pub uninterp spec fn pos(&self) -> TripleFileBuilder;
    /// the dictionaries are written
    pub uninterp spec fn ready(&self, d: Disk) -> bool;
    pub open spec fn c(&self, d: Disk) -> Content { Content { nodes: self.files().node_dictionary_files.dict(d)@, preds: self.files().predicate_dictionary_files.dict(d)@, vals: self.files().value_dictionary_files.dict(d)@, pos: self.pos().said(), neg: Set::empty() } }
    pub open spec fn nv(&self, d: Disk) -> int { self.c(d).nv() }
    pub open spec fn np(&self, d: Disk) -> int { self.c(d).preds.len() as int }
    pub open spec fn next_ok(&self, t: IdTriple, d: Disk) -> bool { within(t, self.nv(d), self.np(d)) }
    pub open spec fn same(&self, o: &BaseLayerFileBuilderPhase2) -> bool { self.files() == o.files() && self.pos().same(&o.pos()) }
    #[verifier::external_body] pub fn add_id_triples(&mut self, triples: Vec<IdTriple>, w: &mut World) -> (r: Result<(), io::Error>)
    requires old(self).ready(old(w).disk()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).pos().last(), triples@[i]))
    ensures final(self).same(old(self)),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { pos: final(self).pos().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).pos().said().contains(t) <==> old(self).pos().said().contains(t) || (triples@.contains(t) && nonzero(t))), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self, w: &mut World) -> (r: Result<(), io::Error>)
    requires self.ready(old(w).disk())
    ensures match r { Ok(_) => self.c(old(w).disk()).stored_in(self.files().own(final(w).disk())), Err(_) => final(w).fault() } { unimplemented!() }
}
