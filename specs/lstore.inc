// ---------------------------------------------------------------------------------
// the layer store as such: what is recorded for each layer, which layers stand in for
// others, and what a loaded layer has to be
// ---------------------------------------------------------------------------------
pub type Name5 = [u32; 5];
/// everything a layer records itself (`whole`: and all of it is there and can be read)
pub struct Own {
    pub whole: bool,
    pub nd: StringDict, pub pd: StringDict, pub vd: TypedDict, pub nvmap: IdMap, pub pmap: IdMap,
    pub psub: Option<MonotonicLogArray>, pub pobj: Option<MonotonicLogArray>, pub psp: AdjacencyList, pub pspo: AdjacencyList, pub pops: AdjacencyList, pub pw: WaveletTree,
    pub nsub: Option<MonotonicLogArray>, pub nobj: Option<MonotonicLogArray>, pub nsp: Option<AdjacencyList>, pub nspo: Option<AdjacencyList>, pub nops: Option<AdjacencyList>, pub nw: Option<WaveletTree>,
}
impl Own {
    pub open spec fn adds(self, s: u64, p: u64, o: u64) -> bool { in_index(self.psub, self.psp, self.pspo, s, p, o) }
    pub open spec fn dels(self, s: u64, p: u64, o: u64) -> bool { match (self.nsp, self.nspo) { (Some(sp), Some(spo)) => in_index(self.nsub, sp, spo, s, p, o), _ => false } }
    pub open spec fn addst(self, t: IdTriple) -> bool { self.adds(t.subject, t.predicate, t.object) }
    pub open spec fn delst(self, t: IdTriple) -> bool { self.dels(t.subject, t.predicate, t.object) }
    pub open spec fn n_adds(self) -> int { self.pspo.len() - occurrences(self.pspo.nums(), 0) }
    pub open spec fn n_dels(self) -> int { match self.nspo { Some(a) => a.len() - occurrences(a.nums(), 0), None => 0 } }
    pub open spec fn nv(self) -> int { (self.nd@.len() + self.vd@.len()) as int }
    pub open spec fn inner_name(self, inner: int) -> Option<Name> {
        if 1 <= inner <= self.nd@.len() { Some(Name::Node(self.nd@[inner - 1])) }
        else if self.nd@.len() < inner <= self.nv() { Some(Name::Value(self.vd@[inner - self.nd@.len() - 1])) }
        else { None }
    }
    pub open spec fn wf(self) -> bool {
        &&& self.whole
        &&& index_wf(self.psub, self.psp, self.pspo)
        &&& self.nsp.is_some() == self.nspo.is_some()
        &&& (self.nsp.is_some() ==> index_wf(self.nsub, self.nsp.unwrap(), self.nspo.unwrap()))
        &&& self.pw.wf() && self.pw@ == self.psp.nums()
        &&& self.nw.is_some() == self.nspo.is_some()
        &&& (self.nw.is_some() ==> self.nw.unwrap().wf() && self.nw.unwrap()@ == self.nsp.unwrap().nums())
        &&& objects_wf(self.psub, self.pobj, self.pops, self.psp, self.pspo)
        &&& self.nops.is_some() == self.nsp.is_some()
        &&& (self.nsp.is_some() ==> objects_wf(self.nsub, self.nobj, self.nops.unwrap(), self.nsp.unwrap(), self.nspo.unwrap()))
        &&& self.nd.wf() && self.pd.wf() && self.vd.wf() && self.nvmap.wf() && self.pmap.wf()
        &&& self.nvmap.size() <= self.nv() && self.pmap.size() <= self.pd@.len()
    }
}
impl InternalLayer {
    pub open spec fn own(&self) -> Own {
        Own { whole: true, nd: self.nd(), pd: self.pd(), vd: self.vd(), nvmap: self.nvmap(), pmap: self.pmap(),
            psub: self.psub(), pobj: self.pobj(), psp: self.psp(), pspo: self.pspo(), pops: self.pops(), pw: self.pw(),
            nsub: self.nsub(), nobj: self.nobj(), nsp: self.nsp(), nspo: self.nspo(), nops: self.nops(), nw: self.nw() }
    }
}
/// what is recorded for the layers, and their parents
pub struct Lay { pub own: Map<Name5, Own>, pub par: Map<Name5, Name5> }
/// the same, with the rollups that stand in for layers
pub struct Data { pub lay: Lay, pub roll: Map<Name5, Name5> }
/// parents and stand-ins exist, and come before the layers that need them
pub open spec fn acyclic(d: Data, rk: spec_fn(Name5) -> nat) -> bool {
    &&& forall|n: Name5| #[trigger] d.lay.par.contains_key(n) ==> d.lay.own.contains_key(n) && d.lay.own.contains_key(d.lay.par[n]) && rk(d.lay.par[n]) < rk(n)
    &&& forall|n: Name5| #[trigger] d.roll.contains_key(n) ==> d.lay.own.contains_key(n) && d.lay.own.contains_key(d.roll[n]) && rk(d.roll[n]) < rk(n)
}
pub open spec fn par_ok(l: Lay, rk: spec_fn(Name5) -> nat) -> bool { forall|n: Name5| #[trigger] l.par.contains_key(n) ==> rk(l.par[n]) < rk(n) }
pub open spec fn rank(l: Lay, n: Name5) -> nat { (choose|rk: spec_fn(Name5) -> nat| par_ok(l, rk))(n) }
pub open spec fn finite_chains(l: Lay) -> bool { exists|rk: spec_fn(Name5) -> nat| par_ok(l, rk) }
/// the triples of a stored layer: its parent's, minus its removals, plus its additions
pub open spec fn truth(l: Lay, n: Name5, s: u64, p: u64, o: u64) -> bool decreases rank(l, n) when finite_chains(l) {
    if l.own[n].adds(s, p, o) { true } else if l.own[n].dels(s, p, o) { false } else { l.par.contains_key(n) && truth(l, l.par[n], s, p, o) }
}
pub open spec fn nv_count(l: Lay, n: Name5) -> int decreases rank(l, n) when finite_chains(l) { l.own[n].nv() + if l.par.contains_key(n) { nv_count(l, l.par[n]) } else { 0 } }
pub open spec fn p_count(l: Lay, n: Name5) -> int decreases rank(l, n) when finite_chains(l) { l.own[n].pd@.len() as int + if l.par.contains_key(n) { p_count(l, l.par[n]) } else { 0 } }
pub open spec fn base_nv(l: Lay, n: Name5) -> int { if l.par.contains_key(n) { nv_count(l, l.par[n]) } else { 0 } }
pub open spec fn base_p(l: Lay, n: Name5) -> int { if l.par.contains_key(n) { p_count(l, l.par[n]) } else { 0 } }
/// what an id of a stored layer means: ids of the parent keep their meaning
pub open spec fn id_name(l: Lay, n: Name5, id: int) -> Option<Name> decreases rank(l, n) when finite_chains(l) {
    if id < 1 { None } else if l.par.contains_key(n) && id <= base_nv(l, n) { id_name(l, l.par[n], id) } else { l.own[n].inner_name(l.own[n].nvmap.to_inner(id - base_nv(l, n))) }
}
pub open spec fn id_pred(l: Lay, n: Name5, id: int) -> Option<Seq<char>> decreases rank(l, n) when finite_chains(l) {
    if id < 1 { None } else if l.par.contains_key(n) && id <= base_p(l, n) { id_pred(l, l.par[n], id) }
    else { let i = l.own[n].pmap.to_inner(id - base_p(l, n)); if 1 <= i <= l.own[n].pd@.len() { Some(l.own[n].pd@[i - 1]) } else { None } }
}
/// `x` answers in every respect as `n` does
pub open spec fn represents(l: Lay, n: Name5, x: Name5) -> bool {
    &&& l.own.contains_key(x)
    &&& forall|s: u64, p: u64, o: u64| #[trigger] truth(l, n, s, p, o) == truth(l, x, s, p, o)
    &&& forall|id: int| #[trigger] id_name(l, n, id) == id_name(l, x, id)
    &&& forall|id: int| #[trigger] id_pred(l, n, id) == id_pred(l, x, id)
    &&& nv_count(l, n) == nv_count(l, x) && p_count(l, n) == p_count(l, x)
    &&& (l.par.contains_key(x) ==> l.par.contains_key(n))
}
pub open spec fn par_of(l: Lay, n: Name5) -> Option<Name5> { if l.par.contains_key(n) { Some(l.par[n]) } else { None } }
/// a loaded layer holds what is recorded for its name, on top of such a layer for its parent;
/// a rollup holds a layer that answers as it does
pub open spec fn faithful(l: Lay, n: Name5, x: InternalLayer) -> bool decreases x {
    &&& l.own.contains_key(n)
    &&& match x {
        InternalLayer::Base(b) => b.name == n && !l.par.contains_key(n) && x.own() == l.own[n],
        InternalLayer::Child(c) => c.name == n && l.par.contains_key(n) && x.own() == l.own[n] && faithful(l, l.par[n], *c.parent)
            && c.parent_node_value_count == nv_count(l, l.par[n]) && c.parent_predicate_count == p_count(l, l.par[n]),
        InternalLayer::Rollup(r) => r.original == n && r.original_parent == par_of(l, n) && faithful(l, r.internal.lname(), *r.internal) && represents(l, n, r.internal.lname()),
    }
}
#[verifier::opaque]
pub open spec fn all_wf(l: Lay) -> bool {
    forall|n: Name5| #[trigger] l.own.contains_key(n) ==> l.own[n].wf() && (l.own[n].nsp is Some) == l.par.contains_key(n) && nv_count(l, n) < i64::MAX && p_count(l, n) < i64::MAX
}
pub open spec fn ok(d: Data) -> bool {
    &&& exists|rk: spec_fn(Name5) -> nat| acyclic(d, rk)
    &&& all_wf(d.lay)
    &&& forall|n: Name5| #[trigger] d.roll.contains_key(n) ==> represents(d.lay, n, d.roll[n])
}
pub proof fn ok_chains(d: Data) requires ok(d) ensures finite_chains(d.lay)
{ let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk); assert(par_ok(d.lay, rk)); }
/// a faithful layer answers as the store's records say, whatever it was put together from
pub proof fn faithful_answers(l: Lay, n: Name5, x: &InternalLayer)
    requires finite_chains(l), all_wf(l), faithful(l, n, *x)
    ensures x.lname() == n, x.lparent_name() == par_of(l, n), x.triples_wf(), x.names_wf(), x.nv_count() == nv_count(l, n), x.p_count() == p_count(l, n),
        forall|s: u64, p: u64, o: u64| #[trigger] x.has(s, p, o) == truth(l, n, s, p, o),
        forall|id: int| #[trigger] x.id_name(id) == id_name(l, n, id),
        forall|id: int| #[trigger] x.id_pred(id) == id_pred(l, n, id),
    decreases *x
{
    assert(l.own[n].wf() && nv_count(l, n) < i64::MAX && p_count(l, n) < i64::MAX) by { reveal(all_wf); }
    match *x {
        InternalLayer::Base(b) => { assert(x.own() == l.own[n]); assert(x.up() is None); },
        InternalLayer::Child(c) => {
            faithful_answers(l, l.par[n], &*c.parent);
            assert(x.own() == l.own[n]); assert(x.up() == Some(*c.parent));
        },
        InternalLayer::Rollup(r) => {
            let i = &*r.internal;
            faithful_answers(l, i.lname(), i);
            assert(x.up() == i.up()); assert(x.own() == i.own());
            assert(x.pnv() == i.pnv() && x.pp() == i.pp());
        },
    }
    assert forall|s: u64, p: u64, o: u64| #[trigger] x.has(s, p, o) == truth(l, n, s, p, o) by {
        match *x { InternalLayer::Rollup(r) => { assert(x.has(s, p, o) == r.internal.has(s, p, o)); assert(truth(l, n, s, p, o) == truth(l, r.internal.lname(), s, p, o)); }, InternalLayer::Child(c) => { assert(c.parent.has(s, p, o) == truth(l, l.par[n], s, p, o)); }, _ => {} }
    }
    assert forall|id: int| #[trigger] x.id_name(id) == id_name(l, n, id) by {
        match *x { InternalLayer::Rollup(r) => { assert(x.id_name(id) == r.internal.id_name(id)); assert(id_name(l, n, id) == id_name(l, r.internal.lname(), id)); },
            InternalLayer::Child(c) => { assert(c.parent.id_name(id) == id_name(l, l.par[n], id)); assert(x.inner_name(x.nvmap().to_inner(id - x.base_nv())) == l.own[n].inner_name(l.own[n].nvmap.to_inner(id - base_nv(l, n)))); },
            _ => { assert(x.inner_name(x.nvmap().to_inner(id)) == l.own[n].inner_name(l.own[n].nvmap.to_inner(id))); } }
    }
    assert forall|id: int| #[trigger] x.id_pred(id) == id_pred(l, n, id) by {
        match *x { InternalLayer::Rollup(r) => { assert(x.id_pred(id) == r.internal.id_pred(id)); assert(id_pred(l, n, id) == id_pred(l, r.internal.lname(), id)); },
            InternalLayer::Child(c) => { assert(c.parent.id_pred(id) == id_pred(l, l.par[n], id)); }, _ => {} }
    }
}
// ---- the world: what is stored (as the store sees it), and what caches hold
#[verifier::external_body] pub struct Disk { _x: () }
#[verifier::external_body] pub struct World { _x: () }
impl World {
    /// the entries of a cache
    pub uninterp spec fn cell(&self, id: int) -> Map<Name5, InternalLayer>;
    /// everything that is stored
    pub uninterp spec fn disk(&self) -> Disk;
    /// storage has failed
    pub uninterp spec fn fault(&self) -> bool;
}
/// every cached layer is faithful
#[verifier::opaque]
pub open spec fn cells_ok(l: Lay, w: World) -> bool { forall|c: int, n: Name5| #[trigger] w.cell(c).contains_key(n) ==> faithful(l, n, w.cell(c)[n]) }
pub open spec fn ready(d: Data, w: World) -> bool { ok(d) && cells_ok(d.lay, w) }
pub proof fn cell_faithful(l: Lay, w: World, c: int, n: Name5) requires cells_ok(l, w), w.cell(c).contains_key(n) ensures faithful(l, n, w.cell(c)[n]) { reveal(cells_ok); }
/// caches only lost entries
pub open spec fn fewer(a: World, b: World) -> bool { forall|c: int, n: Name5| #[trigger] b.cell(c).contains_key(n) ==> a.cell(c).contains_key(n) && b.cell(c)[n] == a.cell(c)[n] }
pub proof fn fewer_ok(l: Lay, a: World, b: World) requires cells_ok(l, a), fewer(a, b) ensures cells_ok(l, b) { reveal(cells_ok); }
pub open spec fn same_cells(a: World, b: World) -> bool { forall|c: int| #[trigger] b.cell(c) == a.cell(c) }
// ---- caches
pub trait LayerCache: Sized {
    /// where it keeps its entries, if anywhere
    spec fn cell(&self) -> Option<int>;
    fn get_layer_from_cache(&self, name: Name5, w: &mut World) -> (r: Option<Arc<InternalLayer>>)
        ensures final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault(), fewer(*old(w), *final(w)), forall|c: int| Some(c) != self.cell() ==> #[trigger] final(w).cell(c) == old(w).cell(c),
            match r {
                Some(l) => held(self.cell(), *old(w), name) == Some(*l) && same_cells(*old(w), *final(w)),
                None => held(self.cell(), *final(w), name) is None && only(self.cell(), *old(w), *final(w), name) };
    fn cache_layer(&self, layer: Arc<InternalLayer>, w: &mut World)
        ensures final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault(), only(self.cell(), *old(w), *final(w), layer.lname()),
            held(self.cell(), *final(w), layer.lname()) is None || held(self.cell(), *final(w), layer.lname()) == Some(*layer);
    fn invalidate(&self, name: Name5, w: &mut World)
        ensures final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault(), only(self.cell(), *old(w), *final(w), name), held(self.cell(), *final(w), name) is None;
}
/// what a cache has for a name
pub open spec fn held(c: Option<int>, w: World, n: Name5) -> Option<InternalLayer> { match c { Some(i) => if w.cell(i).contains_key(n) { Some(w.cell(i)[n]) } else { None }, None => None } }
/// no other cache, and no other entry of this one, has changed
pub open spec fn only(c: Option<int>, a: World, b: World, n: Name5) -> bool {
    &&& forall|i: int| Some(i) != c ==> #[trigger] b.cell(i) == a.cell(i)
    &&& forall|o: Name5| o != n ==> #[trigger] held(c, b, o) == held(c, a, o)
}
pub proof fn only_fewer(c: Option<int>, a: World, b: World, n: Name5) requires only(c, a, b, n), held(c, b, n) is None || held(c, b, n) == held(c, a, n) ensures fewer(a, b)
{
    assert forall|i: int, o: Name5| #[trigger] b.cell(i).contains_key(o) implies a.cell(i).contains_key(o) && b.cell(i)[o] == a.cell(i)[o] by { if Some(i) == c { assert(held(c, b, o) == held(c, a, o)); } }
}
pub proof fn only_added(l: Lay, c: Option<int>, a: World, b: World, x: &InternalLayer)
    requires cells_ok(l, a), only(c, a, b, x.lname()), faithful(l, x.lname(), *x), held(c, b, x.lname()) is None || held(c, b, x.lname()) == Some(*x)
    ensures cells_ok(l, b)
{
    reveal(cells_ok);
    assert forall|i: int, o: Name5| #[trigger] b.cell(i).contains_key(o) implies faithful(l, o, b.cell(i)[o]) by { if Some(i) == c { if o != x.lname() { assert(held(c, b, o) == held(c, a, o)); } else { assert(held(c, b, o) == Some(*x)); } } }
}
// ---- layer stores
/// no write: the store answers as before
pub open spec fn kept(d: Data, e: Data, a: World, b: World) -> bool { e == d && ready(e, b) && (a.fault() ==> b.fault()) }
pub open spec fn there(d: Data, n: Name5) -> bool { d.lay.own.contains_key(n) }
pub open spec fn own_of(d: Data, n: Name5) -> Own { d.lay.own[n] }
pub open spec fn opt_is<T>(r: Result<Option<T>, io::Error>, x: T) -> bool { r matches Ok(Some(y)) ==> y == x }
/// an answer about a layer: right if the layer is there, and no answer only if it is not there or storage has failed
pub open spec fn answers<T>(d: Data, e: Data, a: World, b: World, n: Name5, r: Result<Option<T>, io::Error>, x: spec_fn(T) -> bool) -> bool {
    &&& kept(d, e, a, b)
    &&& match r { Ok(Some(y)) => there(d, n) && x(y), Ok(None) => !there(d, n), Err(_) => b.fault() }
}
pub open spec fn answers1<T>(d: Data, e: Data, a: World, b: World, n: Name5, r: Result<T, io::Error>, x: spec_fn(T) -> bool) -> bool {
    &&& kept(d, e, a, b)
    &&& match r { Ok(y) => there(d, n) && x(y), Err(_) => b.fault() || !there(d, n) }
}
pub trait LayerStore: Sized {
    spec fn data(&self, w: World) -> Data;
    /// caches play no part in what is stored
    proof fn data_same(&self, v: World, w: World) requires v.disk() == w.disk() ensures self.data(v) == self.data(w);
    fn layers(&self, w: &mut World) -> (r: Result<Vec<Name5>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures kept(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w)), match r { Ok(v) => forall|n: Name5| #[trigger] v@.contains(n) <==> there(self.data(*old(w)), n), Err(_) => final(w).fault() };
    fn get_layer_with_cache<C: LayerCache>(&self, name: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Option<Arc<InternalLayer>>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures loads(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), cache.cell(), name, r);
    fn finalize_layer(&self, name: Name5, w: &mut World) -> (r: Result<(), io::Error>)
        ensures Self::finalizes(*self, *old(w), *final(w), name, r);
    spec fn finalizes(s: Self, a: World, b: World, n: Name5, r: Result<(), io::Error>) -> bool;
    fn get_layer_parent_name(&self, name: Name5, w: &mut World) -> (r: Result<Option<Name5>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: Option<Name5>| x == par_of(self.data(*old(w)).lay, name));
    fn get_node_dictionary(&self, name: Name5, w: &mut World) -> (r: Result<Option<StringDict>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: StringDict| x == own_of(self.data(*old(w)), name).nd);
    fn get_predicate_dictionary(&self, name: Name5, w: &mut World) -> (r: Result<Option<StringDict>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: StringDict| x == own_of(self.data(*old(w)), name).pd);
    fn get_value_dictionary(&self, name: Name5, w: &mut World) -> (r: Result<Option<TypedDict>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: TypedDict| x == own_of(self.data(*old(w)), name).vd);
    fn get_node_count(&self, name: Name5, w: &mut World) -> (r: Result<Option<u64>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: u64| x == own_of(self.data(*old(w)), name).nd@.len());
    fn get_predicate_count(&self, name: Name5, w: &mut World) -> (r: Result<Option<u64>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: u64| x == own_of(self.data(*old(w)), name).pd@.len());
    fn get_value_count(&self, name: Name5, w: &mut World) -> (r: Result<Option<u64>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: u64| x == own_of(self.data(*old(w)), name).vd@.len());
    fn get_node_value_idmap(&self, name: Name5, w: &mut World) -> (r: Result<Option<IdMap>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: IdMap| x == own_of(self.data(*old(w)), name).nvmap);
    fn get_predicate_idmap(&self, name: Name5, w: &mut World) -> (r: Result<Option<IdMap>, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), name, r, |x: IdMap| x == own_of(self.data(*old(w)), name).pmap);
    fn triple_addition_exists(&self, layer: Name5, subject: u64, predicate: u64, object: u64, w: &mut World) -> (r: Result<bool, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: bool| x == own_of(self.data(*old(w)), layer).adds(subject, predicate, object));
    fn triple_removal_exists(&self, layer: Name5, subject: u64, predicate: u64, object: u64, w: &mut World) -> (r: Result<bool, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: bool| x == own_of(self.data(*old(w)), layer).dels(subject, predicate, object));
    fn triple_additions(&self, layer: Name5, w: &mut World) -> (r: Result<OptInternalLayerTripleSubjectIterator, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: OptInternalLayerTripleSubjectIterator| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).addst(t)));
    fn triple_removals(&self, layer: Name5, w: &mut World) -> (r: Result<OptInternalLayerTripleSubjectIterator, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: OptInternalLayerTripleSubjectIterator| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).delst(t)));
    fn triple_additions_s(&self, layer: Name5, subject: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).addst(t) && t.subject == subject));
    fn triple_removals_s(&self, layer: Name5, subject: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).delst(t) && t.subject == subject));
    fn triple_additions_sp(&self, layer: Name5, subject: u64, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).addst(t) && t.subject == subject && t.predicate == predicate));
    fn triple_removals_sp(&self, layer: Name5, subject: u64, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).delst(t) && t.subject == subject && t.predicate == predicate));
    fn triple_additions_p(&self, layer: Name5, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).addst(t) && t.predicate == predicate));
    fn triple_removals_p(&self, layer: Name5, predicate: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).delst(t) && t.predicate == predicate));
    fn triple_additions_o(&self, layer: Name5, object: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).addst(t) && t.object == object));
    fn triple_removals_o(&self, layer: Name5, object: u64, w: &mut World) -> (r: Result<Stream, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: Stream| x.lists(|t: IdTriple| own_of(self.data(*old(w)), layer).delst(t) && t.object == object));
    fn triple_layer_addition_count(&self, layer: Name5, w: &mut World) -> (r: Result<usize, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: usize| x == own_of(self.data(*old(w)), layer).n_adds());
    fn triple_layer_removal_count(&self, layer: Name5, w: &mut World) -> (r: Result<usize, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures answers1(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w), layer, r, |x: usize| x == own_of(self.data(*old(w)), layer).n_dels());
    fn layer_is_ancestor_of(&self, descendant: Name5, ancestor: Name5, w: &mut World) -> (r: Result<bool, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), there(self.data(*old(w)), descendant)
        ensures kept(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w)), match r { Ok(x) => x == descends(self.data(*old(w)).lay.par, descendant, ancestor), Err(_) => final(w).fault() };
    fn retrieve_layer_stack_names(&self, name: Name5, w: &mut World) -> (r: Result<Vec<Name5>, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), there(self.data(*old(w)), name)
        ensures kept(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w)), match r { Ok(v) => is_chain(self.data(*old(w)).lay.par, name, v@), Err(_) => final(w).fault() };
    fn retrieve_layer_stack_names_upto(&self, name: Name5, upto: Name5, w: &mut World) -> (r: Result<Vec<Name5>, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), there(self.data(*old(w)), name)
        ensures kept(self.data(*old(w)), self.data(*final(w)), *old(w), *final(w)), match r {
            Ok(v) => is_chain_upto(self.data(*old(w)).lay.par, name, upto, v@),
            Err(_) => final(w).fault() || !properly_descends(self.data(*old(w)).lay.par, name, upto) };
    // ---- writing: what the store does with it is said where it does it; here it only matters that nothing else happens
    fn create_base_layer(&self, w: &mut World) -> (r: Result<Builder, io::Error>) ensures Self::creates_base(*self, *old(w), *final(w), r);
    spec fn creates_base(s: Self, a: World, b: World, r: Result<Builder, io::Error>) -> bool;
    fn create_child_layer_with_cache<C: LayerCache>(&self, parent: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Builder, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures Self::creates_child(*self, *old(w), *final(w), parent, r);
    spec fn creates_child(s: Self, a: World, b: World, p: Name5, r: Result<Builder, io::Error>) -> bool;
    fn perform_rollup(&self, layer: Arc<InternalLayer>, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
        ensures Self::rolls(*self, *old(w), *final(w), *layer, None, r);
    fn perform_rollup_upto_with_cache<C: LayerCache>(&self, layer: Arc<InternalLayer>, upto: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
        ensures Self::rolls(*self, *old(w), *final(w), *layer, Some(upto), r);
    fn perform_imprecise_rollup_upto_with_cache<C: LayerCache>(&self, layer: Arc<InternalLayer>, upto: Name5, cache: Arc<C>, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
        ensures Self::rolls_roughly(*self, *old(w), *final(w), *layer, upto, r);
    spec fn rolls(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool;
    spec fn rolls_roughly(s: Self, a: World, b: World, l: InternalLayer, upto: Name5, r: Result<Name5, io::Error>) -> bool;
    fn squash(&self, layer: Arc<InternalLayer>, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
        ensures Self::squashes(*self, *old(w), *final(w), *layer, None, r);
    fn squash_upto(&self, layer: Arc<InternalLayer>, upto: Name5, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w)), faithful(self.data(*old(w)).lay, layer.lname(), *layer)
        ensures Self::squashes(*self, *old(w), *final(w), *layer, Some(upto), r);
    spec fn squashes(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool;
    fn merge_base_layer(&self, layers: &[Name5], temp_dir: &Path, w: &mut World) -> (r: Result<Name5, io::Error>)
        requires ready(self.data(*old(w)), *old(w))
        ensures Self::merges(*self, *old(w), *final(w), layers@, r);
    spec fn merges(s: Self, a: World, b: World, ls: Seq<Name5>, r: Result<Name5, io::Error>) -> bool;
    /// from now on, and for every cache the store knows of, `rollup` is loaded for `layer`
    fn register_rollup(&self, layer: Name5, rollup: Name5, w: &mut World) -> (r: Result<(), io::Error>)
        requires ready(self.data(*old(w)), *old(w)), may_stand_in(self.data(*old(w)), layer, rollup)
        ensures fewer(*old(w), *final(w)), old(w).fault() ==> final(w).fault(), self.data(*final(w)).lay == self.data(*old(w)).lay, match r {
            Ok(_) => ready(self.data(*final(w)), *final(w)) && self.data(*final(w)) == registered(self.data(*old(w)), layer, rollup) && (layer != rollup ==> self.forgotten(*final(w), layer)),
            Err(_) => final(w).fault() };
    /// the store's own cache, if it has one, has nothing for the layer
    spec fn forgotten(&self, w: World, n: Name5) -> bool;
}
/// what loading a layer means
pub open spec fn loads(d: Data, e: Data, a: World, b: World, c: Option<int>, n: Name5, r: Result<Option<Arc<InternalLayer>>, io::Error>) -> bool {
    &&& e == d && ready(e, b) && (a.fault() ==> b.fault())
    &&& match r {
        Ok(Some(x)) => faithful(d.lay, n, *x)
            // unless it came from the cache, a stand-in that is registered is used
            && (held(c, a, n) is None && d.roll.contains_key(n) ==> (*x matches InternalLayer::Rollup(y) && stands_in(d, n, y.internal.lname()))),
        Ok(None) => !there(d, n),
        Err(_) => b.fault() }
}
/// `x` is what is loaded for `n`
pub open spec fn stands_in(d: Data, n: Name5, x: Name5) -> bool { properly_descends(d.roll, n, x) }
pub open spec fn registered(d: Data, n: Name5, x: Name5) -> Data { if n == x { d } else { Data { lay: d.lay, roll: d.roll.insert(n, x) } } }
pub open spec fn may_stand_in(d: Data, n: Name5, x: Name5) -> bool {
    d.lay.own.contains_key(n) && (n != x ==> represents(d.lay, n, x) && exists|rk: spec_fn(Name5) -> nat| acyclic(d, rk) && #[trigger] rk(x) < rk(n))
}
pub proof fn registered_ok(d: Data, n: Name5, x: Name5) requires ok(d), may_stand_in(d, n, x) ensures ok(registered(d, n, x))
{
    if n != x {
        let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk) && #[trigger] rk(x) < rk(n);
        assert(acyclic(registered(d, n, x), rk));
    }
}
/// the layer `k` steps up from `d`
pub open spec fn up(m: Map<Name5, Name5>, d: Name5, k: nat) -> Option<Name5> decreases k { if k == 0 { Some(d) } else if m.contains_key(d) { up(m, m[d], (k - 1) as nat) } else { None } }
/// `a` is on the parent chain of `d`
pub open spec fn descends(m: Map<Name5, Name5>, d: Name5, a: Name5) -> bool { exists|k: nat| #[trigger] up(m, d, k) == Some(a) }
pub open spec fn properly_descends(m: Map<Name5, Name5>, d: Name5, a: Name5) -> bool { exists|k: nat| k > 0 && #[trigger] up(m, d, k) == Some(a) }
/// the parent chain of `d`, base layer first
pub open spec fn is_chain(m: Map<Name5, Name5>, d: Name5, c: Seq<Name5>) -> bool {
    &&& c.len() > 0 && c.last() == d
    &&& forall|i: int| 0 < i < c.len() ==> m.contains_key(#[trigger] c[i]) && m[c[i]] == c[i - 1]
    &&& !m.contains_key(c[0])
}
/// the parent chain of `d` after `u`
pub open spec fn is_chain_upto(m: Map<Name5, Name5>, d: Name5, u: Name5, c: Seq<Name5>) -> bool {
    &&& c.len() > 0 && c.last() == d
    &&& forall|i: int| 0 < i < c.len() ==> m.contains_key(#[trigger] c[i]) && m[c[i]] == c[i - 1] && c[i - 1] != u
    &&& m.contains_key(c[0]) && m[c[0]] == u
}
/// a layer builder
#[verifier::external_body] pub struct Builder { _x: () }
/// a sequence of triples to come
#[verifier::external_body] pub struct Stream { _x: () }
impl Stream {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
