// ---------------------------------------------------------------------------------
// names and ids
// ---------------------------------------------------------------------------------
@@item layer/layer.rs :: enum ObjectType
@flag pub
@@end
impl IdMap {
    /// a permutation of 1..=n, the identity above
    pub open spec fn wf(&self) -> bool {
        match self.id_wtree { Some(w) => w.wf() && distinct(w@) && (forall|i: int| 0 <= i < w@.len() ==> #[trigger] w@[i] < w@.len()) && (forall|x: u64| x < w@.len() ==> #[trigger] w@.contains(x)), None => true }
    }
    pub open spec fn to_outer(&self, id: int) -> int { match self.id_wtree { Some(w) => if 1 <= id <= w@.len() { w@[id - 1] + 1 } else { id }, None => id } }
    pub open spec fn is_inner(&self, outer: int, inner: int) -> bool { self.to_outer(inner) == outer && (1 <= inner || outer < 1) }
    /// the inner id of an outer id
    pub open spec fn to_inner(&self, id: int) -> int { match self.id_wtree { Some(w) => if 1 <= id <= w@.len() { choose|i: int| #![trigger w@[i - 1]] 1 <= i <= w@.len() && w@[i - 1] + 1 == id } else { id }, None => id } }
    pub proof fn inverse(&self, id: int)
        requires self.wf(), id >= 1
        ensures self.to_outer(self.to_inner(id)) == id, self.to_inner(self.to_outer(id)) == id, self.to_inner(id) >= 1, self.to_outer(id) >= 1,
            self.size() >= id ==> self.to_inner(id) <= self.size() && self.to_outer(id) <= self.size(),
            self.size() < id ==> self.to_inner(id) == id && self.to_outer(id) == id,
    {
        if let Some(w) = self.id_wtree {
            if id <= w@.len() {
                let x = (id - 1) as u64;
                assert(w@.contains(x)); let k = choose|k: int| 0 <= k < w@.len() && w@[k] == x;
                assert(w@[(k + 1) - 1] + 1 == id);
                let i = self.to_inner(id);
                assert(1 <= i <= w@.len() && w@[i - 1] + 1 == id);
                let o = self.to_outer(id);
                assert(1 <= o <= w@.len()) by { assert(w@[id - 1] < w@.len()); }
                let j = self.to_inner(o);
                assert(w@[id - 1] + 1 == o);
                assert(1 <= j <= w@.len() && w@[j - 1] + 1 == o);
                if j != id { if j < id { assert(w@[j - 1] != w@[id - 1]); } else { assert(w@[id - 1] != w@[j - 1]); } }
            }
        }
    }
    pub open spec fn size(&self) -> nat { match self.id_wtree { Some(w) => w@.len(), None => 0 } }
@@fn layer/id_map.rs :: impl IdMap :: outer_to_inner
@ret r
@props A05 A06 A08 A09 A10
@spec
    requires self.wf(), id >= 1
    ensures r == self.to_inner(id as int), r >= 1
@at start
proof { self.inverse(id as int); }
@@end
@@fn layer/id_map.rs :: impl IdMap :: inner_to_outer
@ret r
@props A05 A06 A08 A09 A10
@spec
    requires self.wf(), id >= 1
    ensures r == self.to_outer(id as int), r >= 1
@at start
proof { self.inverse(id as int); }
@@end
}
pub enum Name { Node(Seq<char>), Value(TypedDictEntry) }
impl InternalLayer {
    pub open spec fn own_nv(&self) -> int { (self.nd()@.len() + self.vd()@.len()) as int }
    pub open spec fn nv_count(&self) -> int decreases self.height() { self.own_nv() + match self.up() { Some(u) => u.nv_count(), None => 0 } }
    pub open spec fn p_count(&self) -> int decreases self.height() { self.pd()@.len() as int + match self.up() { Some(u) => u.p_count(), None => 0 } }
    pub open spec fn n_total(&self) -> int decreases self.height() { self.nd()@.len() as int + match self.up() { Some(u) => u.n_total(), None => 0 } }
    pub open spec fn v_total(&self) -> int decreases self.height() { self.vd()@.len() as int + match self.up() { Some(u) => u.v_total(), None => 0 } }
    /// what the layer itself calls its `inner`th name
    pub open spec fn inner_name(&self, inner: int) -> Option<Name> {
        if 1 <= inner <= self.nd()@.len() { Some(Name::Node(self.nd()@[inner - 1])) }
        else if self.nd()@.len() < inner <= self.own_nv() { Some(Name::Value(self.vd()@[inner - self.nd()@.len() - 1])) }
        else { None }
    }
    pub open spec fn base_nv(&self) -> int { match self.up() { Some(u) => u.nv_count(), None => 0 } }
    pub open spec fn base_p(&self) -> int { match self.up() { Some(u) => u.p_count(), None => 0 } }
    /// the name an id stands for: ids of the parent keep their meaning, higher ones are the layer's own
    pub open spec fn id_name(&self, id: int) -> Option<Name> decreases self.height() {
        if id < 1 { None } else if self.up().is_some() && id <= self.base_nv() { self.up().unwrap().id_name(id) }
        else { self.inner_name(self.nvmap().to_inner(id - self.base_nv())) }
    }
    pub open spec fn id_pred(&self, id: int) -> Option<Seq<char>> decreases self.height() {
        if id < 1 { None } else if self.up().is_some() && id <= self.base_p() { self.up().unwrap().id_pred(id) }
        else { let i = self.pmap().to_inner(id - self.base_p()); if 1 <= i <= self.pd()@.len() { Some(self.pd()@[i - 1]) } else { None } }
    }
    pub open spec fn names_wf(&self) -> bool decreases self.height() {
        &&& self.nd().wf() && self.pd().wf() && self.vd().wf() && self.nvmap().wf() && self.pmap().wf()
        &&& self.nvmap().size() <= self.own_nv() && self.pmap().size() <= self.pd()@.len()
        &&& self.nv_count() < i64::MAX && self.p_count() < i64::MAX
        &&& self.pnv() == self.base_nv() && self.pp() == self.base_p()
        &&& match self.up() { Some(u) => u.names_wf(), None => true }
    }
    /// a child does not repeat names of its parent
    pub open spec fn fresh_names(&self) -> bool decreases self.height() {
        match self.up() { Some(u) =>
            u.fresh_names()
            && (forall|i: int, j: int| #![trigger self.inner_name(i), u.id_name(j)] self.inner_name(i).is_some() ==> self.inner_name(i) != u.id_name(j))
            && (forall|i: int, j: int| #![trigger self.pd()@[i], u.id_pred(j)] 0 <= i < self.pd()@.len() ==> Some(self.pd()@[i]) != u.id_pred(j)),
            None => true }
    }
    pub proof fn counts_nonneg(&self) ensures self.nv_count() >= self.base_nv() >= 0, self.p_count() >= self.base_p() >= 0, self.n_total() >= 0, self.v_total() >= 0, self.n_total() + self.v_total() == self.nv_count()
        decreases self.height()
    { if let Some(u) = self.up() { u.counts_nonneg(); } }
}
