impl BaseLayerFileBuilderPhase2 {
    pub closed spec fn files(&self) -> BaseLayerFiles<Loc> { self.files.locs() }
    pub closed spec fn pos(&self) -> TripleFileBuilder { self.builder }
    pub open spec fn c(&self, d: Disk) -> Content { Content { nodes: self.files().node_dictionary_files.dict(d)@, preds: self.files().predicate_dictionary_files.dict(d)@, vals: self.files().value_dictionary_files.dict(d)@, pos: self.pos().said(), neg: Set::empty() } }
    pub open spec fn ready(&self, d: Disk) -> bool {
        let f = self.files();
        &&& apart_base(f) && f.names_ok(d) && fresh_base(d, f)
        &&& self.pos().wf() && self.pos().writes(f.s_p_adjacency_list_files, f.sp_o_adjacency_list_files, None, self.nv(d), self.np(d))
    }
    pub open spec fn nv(&self, d: Disk) -> int { self.c(d).nv() }
    pub open spec fn np(&self, d: Disk) -> int { self.c(d).preds.len() as int }
    pub open spec fn next_ok(&self, t: IdTriple, d: Disk) -> bool { within(t, self.nv(d), self.np(d)) }
    pub open spec fn same(&self, o: &BaseLayerFileBuilderPhase2) -> bool { self.files() == o.files() && self.pos().same(&o.pos()) }
    /// the lists are written, the indexes are not
    pub open spec fn lists_in(&self, f: BaseLayerFiles<Loc>, a: Disk, d: Disk) -> bool {
        f == self.files() && f.names_ok(d) && fresh_base(d, f) && self.c(d) == self.c(a) && f.s_p_adjacency_list_files.whole(d) && f.sp_o_adjacency_list_files.whole(d) && said_in(None, f.s_p_adjacency_list_files.list(d), f.sp_o_adjacency_list_files.list(d), self.pos().said())
    }
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilderPhase2 :: new
@ret r
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@thread w : & mut World ; TripleFileBuilder::new
@props A03 A04 A08 A09 A10
@spec
    requires apart_base(files.locs()), files.locs().names_ok(old(w).disk()), fresh_base(old(w).disk(), files.locs()),
        num_nodes == files.locs().node_dictionary_files.dict(old(w).disk())@.len(), num_predicates == files.locs().predicate_dictionary_files.dict(old(w).disk())@.len(), num_values == files.locs().value_dictionary_files.dict(old(w).disk())@.len(),
        num_nodes + num_values < i64::MAX
    ensures changed(*old(w), *final(w), |l: Loc| !files.locs().named_at(l)), match r { Ok(b) => b.ready(final(w).disk()) && b.files() == files.locs() && b.c(final(w).disk()).pos == Set::<IdTriple>::empty() && b.pos().last() == tr(0, 0, 0), Err(_) => final(w).fault() }
@at start
let ghost g = choose|g: spec_fn(Loc) -> int| base_parts(files.locs(), g);
proof { assert(base_parts(files.locs(), g)); }
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilderPhase2 :: add_triple
@ret r
@thread w : & mut World ; add_triple
@props A03 A04 A08
@spec
    requires old(self).pos().wf(), nonzero(tr(subject, predicate, object)) ==> tlt(old(self).pos().last(), tr(subject, predicate, object)) && old(self).pos().can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), changed(*old(w), *final(w), |l: Loc| old(self).pos().at(l)),
        match r { Ok(_) => final(self).pos().wf() && final(self).pos().said() == (if nonzero(tr(subject, predicate, object)) { old(self).pos().said().insert(tr(subject, predicate, object)) } else { old(self).pos().said() }) && final(self).pos().last() == (if nonzero(tr(subject, predicate, object)) { tr(subject, predicate, object) } else { old(self).pos().last() }), Err(_) => final(w).fault() }
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilderPhase2 :: add_id_triples
@ret r
@generic I = Vec<IdTriple>
@thread w : & mut World ; add_id_triples
@props A03 A04
@spec
    requires old(self).ready(old(w).disk()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).pos().last(), triples@[i]))
    ensures final(self).same(old(self)),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { pos: final(self).pos().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).pos().said().contains(t) <==> old(self).pos().said().contains(t) || (triples@.contains(t) && nonzero(t))), Err(_) => final(w).fault() }
@at start
let ghost b0 = *self; let ghost d0 = w.disk(); let ghost ts = triples@; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| base_parts(f, g);
proof { assert(base_parts(f, g)); assert forall|i: int| 0 <= i < ts.len() && nonzero(#[trigger] ts[i]) implies tlt(b0.pos().last(), ts[i]) && b0.pos().can_take(ts[i]) by { assert(b0.next_ok(ts[i], d0)); width_fits(b0.nv(d0), ts[i].object); width_fits(b0.np(d0), ts[i].predicate); } }
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilderPhase2 :: partial_finalize
@ret r
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@thread w : & mut World ; finalize
@props A08
@spec
    requires self.ready(old(w).disk())
    ensures match r { Ok(f) => self.lists_in(f.locs(), old(w).disk(), final(w).disk()), Err(_) => final(w).fault() }
@at start
let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| base_parts(f, g);
proof { assert(base_parts(f, g)); }
@@end
@@fn layer/internal/base.rs :: impl BaseLayerFileBuilderPhase2 :: finalize
@ret r
@thread w : & mut World ; finalize build_indexes
@props A03 A04
@spec
    requires self.ready(old(w).disk())
    ensures match r { Ok(_) => self.c(old(w).disk()).stored_in(self.files().own(final(w).disk())), Err(_) => final(w).fault() }
@at start
let ghost b0 = self; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| base_parts(f, g); let ghost w0 = *w;
proof { assert(base_parts(f, g)); }
@at let s_p_adjacency_list_files
let ghost w1 = *w;
proof { assert(b0.lists_in(f, w0.disk(), w1.disk())); reveal(said_in); }
@at tail
proof { base_stored(b0, w0.disk(), w1.disk(), w.disk()); }
@@end
}
/// lists and indexes together are the layer
pub proof fn base_stored(b: BaseLayerFileBuilderPhase2, a: Disk, d: Disk, e: Disk)
    requires ({ let f = b.files(); let sp = f.s_p_adjacency_list_files.list(d); let spo = f.sp_o_adjacency_list_files.list(d);
        &&& apart_base(f) && b.lists_in(f, a, d)
        &&& f.o_ps_adjacency_list_files.whole(e) && f.predicate_wavelet_tree_files.whole(e)
        &&& forall|l: Loc| !(f.o_ps_adjacency_list_files.at(l) || f.predicate_wavelet_tree_files.at(l)) ==> #[trigger] bytes(e, l) == bytes(d, l)
        &&& by_object(None, f.o_ps_adjacency_list_files.list(e), spo) && wavelet_wf(pred_tree(e, f.predicate_wavelet_tree_files, sp), sp) })
    ensures b.c(a).stored_in(b.files().own(e))
{
    let f = b.files(); let g = choose|g: spec_fn(Loc) -> int| base_parts(f, g); assert(base_parts(f, g));
    reveal(said_in);
    index_by_object(None, None, f.o_ps_adjacency_list_files.list(e), f.s_p_adjacency_list_files.list(e), f.sp_o_adjacency_list_files.list(e));
    let o = f.own(e); let c = b.c(a);
    assert(o.whole);
    assert(o.nd@ == c.nodes && o.pd@ == c.preds && o.vd@ == c.vals);
    assert(o.psub is None && o.pobj is None);
    assert(o.nvmap.id_wtree is None && o.pmap.id_wtree is None);
    assert(o.wf());
}
