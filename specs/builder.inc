// ---- building the files of one layer: what is written, as the names and triples given
pub open spec fn nonzero(t: IdTriple) -> bool { t.subject != 0 && t.predicate != 0 && t.object != 0 }
/// triples with a zero id stand for nothing, the others ascend
pub open spec fn asc_nz(s: Seq<IdTriple>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && nonzero(#[trigger] s[i]) && nonzero(#[trigger] s[j]) ==> tlt(s[i], s[j]) }
/// the order of texts, and of typed values, that the dictionaries need
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub uninterp spec fn val_lt(a: TypedDictEntry, b: TypedDictEntry) -> bool;
pub broadcast axiom fn str_lt_order(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #![trigger str_lt(a, b), str_lt(b, c)] !str_lt(a, a), str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c);
pub broadcast axiom fn val_lt_order(a: TypedDictEntry, b: TypedDictEntry, c: TypedDictEntry) ensures #![trigger val_lt(a, b), val_lt(b, c)] !val_lt(a, a), val_lt(a, b) && val_lt(b, c) ==> val_lt(a, c);
pub axiom fn str_lt_irreflexive(a: Seq<char>) ensures !str_lt(a, a);
pub axiom fn val_lt_irreflexive(a: TypedDictEntry) ensures !val_lt(a, a);
pub open spec fn str_asc(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn val_asc(s: Seq<TypedDictEntry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> val_lt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn texts_after(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { (forall|i: int, j: int| 0 <= i < j < b.len() ==> str_lt(#[trigger] b[i], #[trigger] b[j])) && (forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> str_lt(#[trigger] a[i], #[trigger] b[j])) }
pub open spec fn val_more(a: Seq<TypedDictEntry>, b: Seq<TypedDictEntry>) -> bool { (forall|i: int, j: int| 0 <= i < j < b.len() ==> val_lt(#[trigger] b[i], #[trigger] b[j])) && (forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> val_lt(#[trigger] a[i], #[trigger] b[j])) }
pub axiom fn str_lt_total(a: Seq<char>, b: Seq<char>) ensures str_lt(a, b) || a == b || str_lt(b, a);
pub axiom fn val_lt_total(a: TypedDictEntry, b: TypedDictEntry) ensures val_lt(a, b) || a == b || val_lt(b, a);
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// what a layer is to store
pub struct Content { pub nodes: Seq<Seq<char>>, pub preds: Seq<Seq<char>>, pub vals: Seq<TypedDictEntry>, pub pos: Set<IdTriple>, pub neg: Set<IdTriple> }
impl Content {
    pub open spec fn nv(self) -> int { (self.nodes.len() + self.vals.len()) as int }
    pub open spec fn stored_in(self, o: Own) -> bool {
        &&& o.wf() && o.nd@ == self.nodes && o.pd@ == self.preds && o.vd@ == self.vals && o.nvmap.id_wtree is None && o.pmap.id_wtree is None
        &&& forall|t: IdTriple| #[trigger] o.addst(t) <==> self.pos.contains(t)
        &&& forall|t: IdTriple| #[trigger] o.delst(t) <==> self.neg.contains(t)
    }
}
/// the places are new: nothing that would be taken for a map of ids, and for a base layer no lists of subjects and objects
pub open spec fn fresh_base(d: Disk, f: BaseLayerFiles<Loc>) -> bool { apart_base(f) && !has_bytes(d, f.id_map_files.node_value_idmap_files.bits_file) && !has_bytes(d, f.id_map_files.predicate_idmap_files.bits_file) && !has_bytes(d, f.subjects_file) && !has_bytes(d, f.objects_file) }
pub open spec fn fresh_child(d: Disk, f: ChildLayerFiles<Loc>) -> bool { apart_child(f) && !has_bytes(d, f.id_map_files.node_value_idmap_files.bits_file) && !has_bytes(d, f.id_map_files.predicate_idmap_files.bits_file) }
/// the ids of a triple are those of known names, or zero
pub open spec fn within(t: IdTriple, nv: int, p: int) -> bool { t.subject <= nv && t.predicate <= p && t.object <= nv }
pub open spec fn parent_ok(l: InternalLayer) -> bool {
    l.names_wf() && l.fresh_names() && l.triples_wf() && (forall|s: u64, p: u64, o: u64| #[trigger] l.has(s, p, o) ==> within(tr(s, p, o), l.nv_count(), l.p_count()))
}
pub open spec fn has_t(l: InternalLayer, t: IdTriple) -> bool { l.has(t.subject, t.predicate, t.object) }
pub open spec fn unknown(l: InternalLayer, n: Name) -> bool { forall|id: int| #[trigger] l.id_name(id) != Some(n) }
pub open spec fn unknown_pred(l: InternalLayer, n: Seq<char>) -> bool { forall|id: int| #[trigger] l.id_pred(id) != Some(n) }
