// ---- second phase: triples
@@item layer/internal/child.rs :: struct ChildLayerFileBuilderPhase2
@flag pub
@subst < F : 'static + FileLoad + FileStore + Clone + Send + Sync > => 
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@subst TripleFileBuilder < F > => TripleFileBuilder
@@end
@@item layer/internal/base.rs :: struct BaseLayerFileBuilderPhase2
@flag pub
@subst < F : 'static + FileLoad + FileStore > => 
@subst BaseLayerFiles < F > => BaseLayerFiles < File >
@subst TripleFileBuilder < F > => TripleFileBuilder
@@end
impl ChildLayerFileBuilderPhase2 {
    pub closed spec fn parent(&self) -> InternalLayer { *self.parent }
    pub closed spec fn files(&self) -> ChildLayerFiles<Loc> { self.files.locs() }
    pub closed spec fn pos(&self) -> TripleFileBuilder { self.pos_builder }
    pub closed spec fn neg(&self) -> TripleFileBuilder { self.neg_builder }
    pub open spec fn c(&self, d: Disk) -> Content { Content { nodes: self.files().node_dictionary_files.dict(d)@, preds: self.files().predicate_dictionary_files.dict(d)@, vals: self.files().value_dictionary_files.dict(d)@, pos: self.pos().said(), neg: self.neg().said() } }
    /// the dictionaries are written, and the builders write to the right places
    pub open spec fn ready(&self, d: Disk) -> bool {
        let f = self.files();
        &&& apart_child(f) && f.names_ok(d) && fresh_child(d, f)
        &&& self.pos().wf() && self.pos().writes(f.pos_s_p_adjacency_list_files, f.pos_sp_o_adjacency_list_files, Some(f.pos_subjects_file), self.nv(d), self.np(d))
        &&& self.neg().wf() && self.neg().writes(f.neg_s_p_adjacency_list_files, f.neg_sp_o_adjacency_list_files, Some(f.neg_subjects_file), self.nv(d), self.np(d))
    }
    pub open spec fn nv(&self, d: Disk) -> int { self.parent().nv_count() + self.c(d).nv() }
    pub open spec fn np(&self, d: Disk) -> int { self.parent().p_count() + self.c(d).preds.len() }
    pub open spec fn next_ok(&self, t: IdTriple, d: Disk) -> bool { within(t, self.nv(d), self.np(d)) }
    pub open spec fn same(&self, o: &ChildLayerFileBuilderPhase2) -> bool { self.parent() == o.parent() && self.files() == o.files() && self.pos().same(&o.pos()) && self.neg().same(&o.neg()) }
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: new
@ret r
@subst Arc < dyn Layer > => Arc < InternalLayer >
@subst ChildLayerFiles < F > => ChildLayerFiles < File >
@thread w : & mut World ; TripleFileBuilder::new
@props A03 A04 A08 A09 A10
@spec
    requires parent.names_wf(), apart_child(files.locs()), files.locs().names_ok(old(w).disk()), fresh_child(old(w).disk(), files.locs()),
        num_nodes == files.locs().node_dictionary_files.dict(old(w).disk())@.len(), num_predicates == files.locs().predicate_dictionary_files.dict(old(w).disk())@.len(), num_values == files.locs().value_dictionary_files.dict(old(w).disk())@.len(),
        parent.nv_count() + num_nodes + num_values < i64::MAX, parent.p_count() + num_predicates < i64::MAX
    ensures changed(*old(w), *final(w), |l: Loc| !files.locs().named_at(l)), match r { Ok(b) => b.ready(final(w).disk()) && b.parent() == *parent && b.files() == files.locs() && b.c(final(w).disk()).pos == Set::<IdTriple>::empty() && b.c(final(w).disk()).neg == Set::<IdTriple>::empty() && b.pos().last() == tr(0, 0, 0) && b.neg().last() == tr(0, 0, 0), Err(_) => final(w).fault() }
@at start
proof { parent.counts_nonneg(); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: add_triple_unchecked
@ret r
@thread w : & mut World ; add_triple
@props A03 A04 A08 A09 A10
@spec
    requires old(self).pos().wf(), nonzero(tr(subject, predicate, object)) ==> tlt(old(self).pos().last(), tr(subject, predicate, object)) && old(self).pos().can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), final(self).neg() == old(self).neg(), changed(*old(w), *final(w), |l: Loc| old(self).pos().at(l)),
        match r { Ok(_) => final(self).pos().wf() && final(self).pos().said() == (if nonzero(tr(subject, predicate, object)) { old(self).pos().said().insert(tr(subject, predicate, object)) } else { old(self).pos().said() }) && final(self).pos().last() == (if nonzero(tr(subject, predicate, object)) { tr(subject, predicate, object) } else { old(self).pos().last() }), Err(_) => final(w).fault() }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: remove_triple_unchecked
@ret r
@thread w : & mut World ; add_triple
@props A03 A04 A08 A09 A10
@spec
    requires old(self).neg().wf(), nonzero(tr(subject, predicate, object)) ==> tlt(old(self).neg().last(), tr(subject, predicate, object)) && old(self).neg().can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), final(self).pos() == old(self).pos(), changed(*old(w), *final(w), |l: Loc| old(self).neg().at(l)),
        match r { Ok(_) => final(self).neg().wf() && final(self).neg().said() == (if nonzero(tr(subject, predicate, object)) { old(self).neg().said().insert(tr(subject, predicate, object)) } else { old(self).neg().said() }) && final(self).neg().last() == (if nonzero(tr(subject, predicate, object)) { tr(subject, predicate, object) } else { old(self).neg().last() }), Err(_) => final(w).fault() }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: add_triple
@ret r
@thread w : & mut World ; add_triple_unchecked
@props A03 A04
@spec
    requires old(self).pos().wf(), parent_ok(old(self).parent()), nonzero(tr(subject, predicate, object)) && !old(self).parent().has(subject, predicate, object) ==> tlt(old(self).pos().last(), tr(subject, predicate, object)) && old(self).pos().can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), final(self).neg() == old(self).neg(), changed(*old(w), *final(w), |l: Loc| old(self).pos().at(l)),
        match r { Ok(_) => final(self).pos().wf() && final(self).pos().said() == (if nonzero(tr(subject, predicate, object)) && !old(self).parent().has(subject, predicate, object) { old(self).pos().said().insert(tr(subject, predicate, object)) } else { old(self).pos().said() }), Err(_) => final(w).fault() }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: remove_triple
@ret r
@thread w : & mut World ; remove_triple_unchecked
@props A03 A04
@spec
    requires old(self).neg().wf(), parent_ok(old(self).parent()), nonzero(tr(subject, predicate, object)) && old(self).parent().has(subject, predicate, object) ==> tlt(old(self).neg().last(), tr(subject, predicate, object)) && old(self).neg().can_take(tr(subject, predicate, object))
    ensures final(self).same(old(self)), final(self).pos() == old(self).pos(), changed(*old(w), *final(w), |l: Loc| old(self).neg().at(l)),
        match r { Ok(_) => final(self).neg().wf() && final(self).neg().said() == (if nonzero(tr(subject, predicate, object)) && old(self).parent().has(subject, predicate, object) { old(self).neg().said().insert(tr(subject, predicate, object)) } else { old(self).neg().said() }), Err(_) => final(w).fault() }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: add_id_triples
@ret r
@thread w : & mut World ; add_triple_unchecked
@props A03 A04
@spec
    requires old(self).ready(old(w).disk()), parent_ok(old(self).parent()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).pos().last(), triples@[i]))
    ensures final(self).same(old(self)), final(self).neg() == old(self).neg(),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { pos: final(self).pos().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).pos().said().contains(t) <==> old(self).pos().said().contains(t) || (triples@.contains(t) && nonzero(t) && !has_t(old(self).parent(), t))), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost b0 = *self; let ghost ts = triples@; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| child_parts(f, g);
proof { assert(child_parts(f, g)); }
let ghost mut pos: Seq<int> = seq![]; let ghost mut k: int = 0; let ghost mut n: int = 0;
@loop c0
invariant
    0 <= k <= ts.len(), __c0_i.left() == ts.skip(k), pos.len() == __c0_acc@.len(), *parent == b0.parent(), b0.parent().triples_wf(),
    forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < k && __c0_acc@[i] == ts[pos[i]] && !has_t(b0.parent(), ts[pos[i]]),
    forall|i: int, j: int| 0 <= i < j < pos.len() ==> pos[i] < pos[j],
    forall|m: int| 0 <= m < k && !has_t(b0.parent(), #[trigger] ts[m]) ==> pos.contains(m),
ensures k == ts.len()
decreases ts.len() - k
@at loopstart c0
proof { k = k + 1; n = __c0_acc@.len() as int; }
@at loopend c0
proof { let p0 = pos; if __c0_acc@.len() > n { pos = pos.push(k - 1); assert(pos[pos.len() - 1] == k - 1); assert forall|m: int| p0.contains(m) implies #[trigger] pos.contains(m) by { let i = choose|i: int| 0 <= i < p0.len() && p0[i] == m; assert(pos[i] == m); } } }
@at let filtered
let ghost fs = filtered@; let ghost mut q: int = 0;
proof {
    assert forall|i: int, j: int| 0 <= i < j < fs.len() && nonzero(#[trigger] fs[i]) && nonzero(#[trigger] fs[j]) implies tlt(fs[i], fs[j]) by { assert(ts[pos[i]] == fs[i] && ts[pos[j]] == fs[j]); }
    assert forall|i: int| 0 <= i < fs.len() implies b0.next_ok(#[trigger] fs[i], w0.disk()) && (nonzero(fs[i]) ==> tlt(b0.pos().last(), fs[i])) && !has_t(b0.parent(), fs[i]) && ts.contains(fs[i]) by { assert(ts[pos[i]] == fs[i]); }
    assert forall|t: IdTriple| ts.contains(t) && !has_t(b0.parent(), t) implies #[trigger] fs.contains(t) by { let m = choose|m: int| 0 <= m < ts.len() && ts[m] == t; assert(pos.contains(m)); let i = choose|i: int| 0 <= i < pos.len() && pos[i] == m; assert(fs[i] == t); }
}
let ghost al: spec_fn(IdTriple) -> bool = |t: IdTriple| ts.contains(t) && !has_t(b0.parent(), t); proof { assert(forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t)); }
@loop 0
invariant
    self.same(&b0), self.neg() == b0.neg(), b0 == *old(self), w0 == *old(w), changed(w0, *w, |l: Loc| b0.pos().at(l)), self.pos().wf(), 0 <= q <= fs.len(), __f0.left() == fs.skip(q), asc_nz(fs), fs == filtered@,
    b0.ready(w0.disk()), forall|i: int| 0 <= i < fs.len() ==> b0.next_ok(#[trigger] fs[i], w0.disk()),
    forall|i: int| q <= i < fs.len() && nonzero(#[trigger] fs[i]) ==> tlt(self.pos().last(), fs[i]),
    forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t),
    forall|t: IdTriple| #[trigger] self.pos().said().contains(t) <==> b0.pos().said().contains(t) || (fs.take(q).contains(t) && nonzero(t)),
ensures q == fs.len()
decreases fs.len() - q
@at loopstart 0
let ghost s1 = self.pos().said(); proof { assert(triple == fs[q]); assert(b0.next_ok(fs[q], w0.disk())); width_fits(b0.nv(w0.disk()), triple.object); width_fits(b0.np(w0.disk()), triple.predicate); q = q + 1; }
@at loopend 0
proof { assert forall|t: IdTriple| #[trigger] fs.take(q).contains(t) <==> fs.take(q - 1).contains(t) || t == fs[q - 1] by { if fs.take(q - 1).contains(t) { let i = choose|i: int| 0 <= i < q - 1 && #[trigger] fs.take(q - 1)[i] == t; assert(fs.take(q)[i] == t); } assert(fs.take(q)[q - 1] == fs[q - 1]); } }
@at tail
proof { assert(fs.take(q) =~= fs); assert(changed(w0, *w, |l: Loc| b0.pos().at(l))); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: remove_id_triples
@ret r
@thread w : & mut World ; remove_triple_unchecked
@props A03 A04
@spec
    requires old(self).ready(old(w).disk()), parent_ok(old(self).parent()), asc_nz(triples@), forall|i: int| 0 <= i < triples@.len() ==> old(self).next_ok(#[trigger] triples@[i], old(w).disk()) && (nonzero(triples@[i]) ==> tlt(old(self).neg().last(), triples@[i]))
    ensures final(self).same(old(self)), final(self).pos() == old(self).pos(),
        match r { Ok(_) => final(self).ready(final(w).disk()) && final(self).c(final(w).disk()) == (Content { neg: final(self).neg().said(), ..old(self).c(old(w).disk()) }) && (forall|t: IdTriple| #[trigger] final(self).neg().said().contains(t) <==> old(self).neg().said().contains(t) || (triples@.contains(t) && nonzero(t) && has_t(old(self).parent(), t))), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost b0 = *self; let ghost ts = triples@; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| child_parts(f, g);
proof { assert(child_parts(f, g)); }
let ghost mut pos: Seq<int> = seq![]; let ghost mut k: int = 0; let ghost mut n: int = 0;
@loop c0
invariant
    0 <= k <= ts.len(), __c0_i.left() == ts.skip(k), pos.len() == __c0_acc@.len(), *parent == b0.parent(), b0.parent().triples_wf(),
    forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < k && __c0_acc@[i] == ts[pos[i]] && has_t(b0.parent(), ts[pos[i]]),
    forall|i: int, j: int| 0 <= i < j < pos.len() ==> pos[i] < pos[j],
    forall|m: int| 0 <= m < k && has_t(b0.parent(), #[trigger] ts[m]) ==> pos.contains(m),
ensures k == ts.len()
decreases ts.len() - k
@at loopstart c0
proof { k = k + 1; n = __c0_acc@.len() as int; }
@at loopend c0
proof { let p0 = pos; if __c0_acc@.len() > n { pos = pos.push(k - 1); assert(pos[pos.len() - 1] == k - 1); assert forall|m: int| p0.contains(m) implies #[trigger] pos.contains(m) by { let i = choose|i: int| 0 <= i < p0.len() && p0[i] == m; assert(pos[i] == m); } } }
@at let filtered
let ghost fs = filtered@; let ghost mut q: int = 0;
proof {
    assert forall|i: int, j: int| 0 <= i < j < fs.len() && nonzero(#[trigger] fs[i]) && nonzero(#[trigger] fs[j]) implies tlt(fs[i], fs[j]) by { assert(ts[pos[i]] == fs[i] && ts[pos[j]] == fs[j]); }
    assert forall|i: int| 0 <= i < fs.len() implies b0.next_ok(#[trigger] fs[i], w0.disk()) && (nonzero(fs[i]) ==> tlt(b0.neg().last(), fs[i])) && has_t(b0.parent(), fs[i]) && ts.contains(fs[i]) by { assert(ts[pos[i]] == fs[i]); }
    assert forall|t: IdTriple| ts.contains(t) && has_t(b0.parent(), t) implies #[trigger] fs.contains(t) by { let m = choose|m: int| 0 <= m < ts.len() && ts[m] == t; assert(pos.contains(m)); let i = choose|i: int| 0 <= i < pos.len() && pos[i] == m; assert(fs[i] == t); }
}
let ghost al: spec_fn(IdTriple) -> bool = |t: IdTriple| ts.contains(t) && has_t(b0.parent(), t); proof { assert(forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t)); }
@loop 0
invariant
    self.same(&b0), self.pos() == b0.pos(), b0 == *old(self), w0 == *old(w), changed(w0, *w, |l: Loc| b0.neg().at(l)), self.neg().wf(), 0 <= q <= fs.len(), __f0.left() == fs.skip(q), asc_nz(fs), fs == filtered@,
    b0.ready(w0.disk()), forall|i: int| 0 <= i < fs.len() ==> b0.next_ok(#[trigger] fs[i], w0.disk()),
    forall|i: int| q <= i < fs.len() && nonzero(#[trigger] fs[i]) ==> tlt(self.neg().last(), fs[i]),
    forall|t: IdTriple| #[trigger] fs.contains(t) <==> al(t),
    forall|t: IdTriple| #[trigger] self.neg().said().contains(t) <==> b0.neg().said().contains(t) || (fs.take(q).contains(t) && nonzero(t)),
ensures q == fs.len()
decreases fs.len() - q
@at loopstart 0
let ghost s1 = self.neg().said(); proof { assert(triple == fs[q]); assert(b0.next_ok(fs[q], w0.disk())); width_fits(b0.nv(w0.disk()), triple.object); width_fits(b0.np(w0.disk()), triple.predicate); q = q + 1; }
@at loopend 0
proof { assert forall|t: IdTriple| #[trigger] fs.take(q).contains(t) <==> fs.take(q - 1).contains(t) || t == fs[q - 1] by { if fs.take(q - 1).contains(t) { let i = choose|i: int| 0 <= i < q - 1 && #[trigger] fs.take(q - 1)[i] == t; assert(fs.take(q)[i] == t); } assert(fs.take(q)[q - 1] == fs[q - 1]); } }
@at tail
proof { assert(fs.take(q) =~= fs); assert(changed(w0, *w, |l: Loc| b0.neg().at(l))); }
@@end
@@fn layer/internal/child.rs :: impl ChildLayerFileBuilderPhase2 :: finalize
@ret r
@pre tokio :: spawn => __spawn
@thread w : & mut World ; __spawn finalize build_indexes
@props A03 A04 A08 A09 A10
@spec
    requires self.ready(old(w).disk())
    ensures match r { Ok(_) => self.c(old(w).disk()).stored_in(self.files().own(final(w).disk())), Err(_) => final(w).fault() }
@at start
let ghost b0 = self; let ghost f = self.files(); let ghost g = choose|g: spec_fn(Loc) -> int| child_parts(f, g); let ghost w0 = *w; let ghost mut w1 = *w;
proof { assert(child_parts(f, g)); }
@at let neg_task
proof { w1 = *w; reveal(said_in); }
@at tail
proof {
    let d = w1.disk(); let e = w.disk();
    assert(list_of(e, Some(f.pos_subjects_file)) == list_of(d, Some(f.pos_subjects_file)));
    index_by_object(list_of(e, Some(f.pos_subjects_file)), list_of(e, Some(f.pos_objects_file)), f.pos_o_ps_adjacency_list_files.list(e), f.pos_s_p_adjacency_list_files.list(e), f.pos_sp_o_adjacency_list_files.list(e));
    index_by_object(list_of(e, Some(f.neg_subjects_file)), list_of(e, Some(f.neg_objects_file)), f.neg_o_ps_adjacency_list_files.list(e), f.neg_s_p_adjacency_list_files.list(e), f.neg_sp_o_adjacency_list_files.list(e));
    let o = f.own(e); let c = b0.c(w0.disk());
    assert(o.whole);
    assert(o.nd@ == c.nodes && o.pd@ == c.preds && o.vd@ == c.vals);
    assert(o.nvmap.id_wtree is None && o.pmap.id_wtree is None);
    assert(o.wf());
}
@@end
}
