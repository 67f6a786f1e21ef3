// Names and ids over the layer stack, and the counts.
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
@@include succinct.inc
@@include layer.inc
@@include ids.inc
@@include index.inc
@@item layer/layer.rs :: struct LayerCounts
@flag pub
@@end
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
pub open spec fn found(r: IdLookupResult) -> Option<u64> { match r { IdLookupResult::Found(i) => Some(i), _ => None } }
pub open spec fn as_name(o: ObjectType) -> Name { match o { ObjectType::Node(s) => Name::Node(s@), ObjectType::Value(v) => Name::Value(v) } }

impl InternalLayer {
    /// the layer's own dictionaries decide about the ids above the parent's
    pub proof fn own_node(&self, s: Seq<char>)
        requires self.names_wf()
        ensures
            forall|i: int| 1 <= i <= self.nd()@.len() && #[trigger] self.nd()@[i - 1] == s ==> self.id_name(self.base_nv() + self.nvmap().to_outer(i)) == Some(Name::Node(s)) && 1 <= self.nvmap().to_outer(i) <= self.own_nv(),
            (forall|i: int| 0 <= i < self.nd()@.len() ==> #[trigger] self.nd()@[i] != s) ==> forall|id: int| id > self.base_nv() ==> #[trigger] self.id_name(id) != Some(Name::Node(s)),
    {
        self.counts_nonneg();
        assert forall|i: int| 1 <= i <= self.nd()@.len() && #[trigger] self.nd()@[i - 1] == s implies self.id_name(self.base_nv() + self.nvmap().to_outer(i)) == Some(Name::Node(s)) && 1 <= self.nvmap().to_outer(i) <= self.own_nv() by { self.nvmap().inverse(i); }
    }
    pub proof fn own_value(&self, v: TypedDictEntry)
        requires self.names_wf()
        ensures
            forall|i: int| 1 <= i <= self.vd()@.len() && #[trigger] self.vd()@[i - 1] == v ==> self.id_name(self.base_nv() + self.nvmap().to_outer(i + self.nd()@.len())) == Some(Name::Value(v)) && 1 <= self.nvmap().to_outer(i + self.nd()@.len()) <= self.own_nv(),
            (forall|i: int| 0 <= i < self.vd()@.len() ==> #[trigger] self.vd()@[i] != v) ==> forall|id: int| id > self.base_nv() ==> #[trigger] self.id_name(id) != Some(Name::Value(v)),
    {
        self.counts_nonneg();
        assert forall|i: int| 1 <= i <= self.vd()@.len() && #[trigger] self.vd()@[i - 1] == v implies self.id_name(self.base_nv() + self.nvmap().to_outer(i + self.nd()@.len())) == Some(Name::Value(v)) && 1 <= self.nvmap().to_outer(i + self.nd()@.len()) <= self.own_nv() by { self.nvmap().inverse(i + self.nd()@.len()); }
    }
    pub proof fn own_pred(&self, s: Seq<char>)
        requires self.names_wf()
        ensures
            forall|i: int| 1 <= i <= self.pd()@.len() && #[trigger] self.pd()@[i - 1] == s ==> self.id_pred(self.base_p() + self.pmap().to_outer(i)) == Some(s) && 1 <= self.pmap().to_outer(i) <= self.pd()@.len(),
            (forall|i: int| 0 <= i < self.pd()@.len() ==> #[trigger] self.pd()@[i] != s) ==> forall|id: int| id > self.base_p() ==> #[trigger] self.id_pred(id) != Some(s),
    {
        self.counts_nonneg();
        assert forall|i: int| 1 <= i <= self.pd()@.len() && #[trigger] self.pd()@[i - 1] == s implies self.id_pred(self.base_p() + self.pmap().to_outer(i)) == Some(s) && 1 <= self.pmap().to_outer(i) <= self.pd()@.len() by { self.pmap().inverse(i); }
    }
    /// A05/A06: ids are without gaps, distinct ids have distinct names, and a parent's ids keep their names
    pub proof fn ids_are_a_bijection(&self, a: int, b: int)
        requires self.names_wf(), self.fresh_names()
        ensures
            self.id_name(a).is_some() == (1 <= a <= self.nv_count()),
            a != b && self.id_name(a).is_some() ==> self.id_name(a) != self.id_name(b),
            self.id_pred(a).is_some() == (1 <= a <= self.p_count()),
            a != b && self.id_pred(a).is_some() ==> self.id_pred(a) != self.id_pred(b),
            self.up().is_some() && 1 <= a <= self.base_nv() ==> self.id_name(a) == self.up().unwrap().id_name(a),
            self.up().is_some() && 1 <= a <= self.base_p() ==> self.id_pred(a) == self.up().unwrap().id_pred(a),
        decreases self.height()
    {
        self.counts_nonneg();
        if let Some(u) = self.up() { u.ids_are_a_bijection(a, b); }
        let (x, y) = (a - self.base_nv(), b - self.base_nv());
        let (px, py) = (a - self.base_p(), b - self.base_p());
        if x >= 1 { self.nvmap().inverse(x); }
        if y >= 1 { self.nvmap().inverse(y); }
        if px >= 1 { self.pmap().inverse(px); }
        if py >= 1 { self.pmap().inverse(py); }
        if x >= 1 && y >= 1 && x != y { assert(self.nvmap().to_inner(x) != self.nvmap().to_inner(y)); }
        if px >= 1 && py >= 1 && px != py { assert(self.pmap().to_inner(px) != self.pmap().to_inner(py)); }
        if let Some(u) = self.up() {
            if x >= 1 && y < 1 && b >= 1 { let i = self.nvmap().to_inner(x); assert(self.id_name(a) == self.inner_name(i)); assert(u.id_name(b) == self.id_name(b)); }
            if y >= 1 && x < 1 && a >= 1 { let i = self.nvmap().to_inner(y); assert(self.id_name(b) == self.inner_name(i)); assert(u.id_name(a) == self.id_name(a)); }
            if px >= 1 && py < 1 && b >= 1 { let i = self.pmap().to_inner(px); if 1 <= i <= self.pd()@.len() { assert(self.id_pred(a) == Some(self.pd()@[i - 1])); } assert(u.id_pred(b) == self.id_pred(b)); }
            if py >= 1 && px < 1 && a >= 1 { let i = self.pmap().to_inner(py); if 1 <= i <= self.pd()@.len() { assert(self.id_pred(b) == Some(self.pd()@[i - 1])); } assert(u.id_pred(a) == self.id_pred(a)); }
        }
    }
@@fn layer/internal/mod.rs :: impl InternalLayer :: node_dict_id
@ret r
@props A05 A06
@spec
    requires self.nd().wf()
    ensures match found(r) { Some(i) => 1 <= i <= self.nd()@.len() && self.nd()@[i - 1] == subject@, None => forall|i: int| 0 <= i < self.nd()@.len() ==> self.nd()@[i] != subject@ }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: predicate_dict_id
@ret r
@props A05 A06
@spec
    requires self.pd().wf()
    ensures match found(r) { Some(i) => 1 <= i <= self.pd()@.len() && self.pd()@[i - 1] == predicate@, None => forall|i: int| 0 <= i < self.pd()@.len() ==> self.pd()@[i] != predicate@ }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: value_dict_id
@ret r
@props A05 A06
@spec
    requires self.vd().wf()
    ensures match found(r) { Some(i) => 1 <= i <= self.vd()@.len() && self.vd()@[i - 1] == *value, None => forall|i: int| 0 <= i < self.vd()@.len() ==> self.vd()@[i] != *value }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: node_dict_len
@ret r
@props A05 A06 A07
@spec
    ensures r == self.nd()@.len()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: predicate_dict_len
@ret r
@props A05 A06 A07
@spec
    ensures r == self.pd()@.len()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: value_dict_len
@ret r
@props A05 A06 A07
@spec
    ensures r == self.vd()@.len()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: node_dict_get
@ret r
@props A05 A06
@spec
    requires self.nd().wf(), id > 0
    ensures match r { Some(s) => id <= self.nd()@.len() && s@ == self.nd()@[id - 1], None => id > self.nd()@.len() }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: predicate_dict_get
@ret r
@props A05 A06
@spec
    requires self.pd().wf(), id > 0
    ensures match r { Some(s) => id <= self.pd()@.len() && s@ == self.pd()@[id - 1], None => id > self.pd()@.len() }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: value_dict_get
@ret r
@props A05 A06
@spec
    requires self.vd().wf(), id > 0
    ensures match r { Some(s) => id <= self.vd()@.len() && s == self.vd()@[id - 1], None => id > self.vd()@.len() }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: node_and_value_count
@ret r
@props A05 A06 A07
@spec
    requires self.names_wf()
    ensures r == self.nv_count()
@at start
proof { self.counts_nonneg(); }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: predicate_count
@ret r
@props A05 A06 A07
@spec
    requires self.names_wf()
    ensures r == self.p_count()
@at start
proof { self.counts_nonneg(); }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: subject_id
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Node(subject@)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(subject@)) }
@at start
proof { self.own_node(subject@); self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(),
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX && (forall|id: int| id <= u.nv_count() ==> #[trigger] self.id_name(id) == u.id_name(id)), None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Node(subject@)),
        None => forall|id: int| id > (match result.1 { Some(u) => u.nv_count(), None => 0 }) ==> #[trigger] self.id_name(id) != Some(Name::Node(subject@)),
    },
ensures
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX, None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Node(subject@)),
        None => result.1.is_none() && forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(subject@)),
    },
decreases (match result.1 { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { layer.own_node(subject@); layer.counts_nonneg(); if let Some(u) = layer.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: object_node_id
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Node(object@)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(object@)) }
@at start
proof { self.own_node(object@); self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(),
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX && (forall|id: int| id <= u.nv_count() ==> #[trigger] self.id_name(id) == u.id_name(id)), None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Node(object@)),
        None => forall|id: int| id > (match result.1 { Some(u) => u.nv_count(), None => 0 }) ==> #[trigger] self.id_name(id) != Some(Name::Node(object@)),
    },
ensures
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX, None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Node(object@)),
        None => result.1.is_none() && forall|id: int| #[trigger] self.id_name(id) != Some(Name::Node(object@)),
    },
decreases (match result.1 { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { layer.own_node(object@); layer.counts_nonneg(); if let Some(u) = layer.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: object_value_id
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(id) => self.id_name(id as int) == Some(Name::Value(*object)), None => forall|id: int| #[trigger] self.id_name(id) != Some(Name::Value(*object)) }
@at start
proof { self.own_value(*object); self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(),
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX && (forall|id: int| id <= u.nv_count() ==> #[trigger] self.id_name(id) == u.id_name(id)), None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Value(*object)),
        None => forall|id: int| id > (match result.1 { Some(u) => u.nv_count(), None => 0 }) ==> #[trigger] self.id_name(id) != Some(Name::Value(*object)),
    },
ensures
    match result.1 { Some(u) => u.names_wf() && 0 <= u.nv_count() < i64::MAX, None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_name(x + (match result.1 { Some(u) => u.nv_count(), None => 0 })) == Some(Name::Value(*object)),
        None => result.1.is_none() && forall|id: int| #[trigger] self.id_name(id) != Some(Name::Value(*object)),
    },
decreases (match result.1 { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { layer.own_value(*object); layer.counts_nonneg(); if let Some(u) = layer.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: predicate_id
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(id) => self.id_pred(id as int) == Some(predicate@), None => forall|id: int| #[trigger] self.id_pred(id) != Some(predicate@) }
@at start
proof { self.own_pred(predicate@); self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(),
    match result.1 { Some(u) => u.names_wf() && 0 <= u.p_count() < i64::MAX && (forall|id: int| id <= u.p_count() ==> #[trigger] self.id_pred(id) == u.id_pred(id)), None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_pred(x + (match result.1 { Some(u) => u.p_count(), None => 0 })) == Some(predicate@),
        None => forall|id: int| id > (match result.1 { Some(u) => u.p_count(), None => 0 }) ==> #[trigger] self.id_pred(id) != Some(predicate@),
    },
ensures
    match result.1 { Some(u) => u.names_wf() && 0 <= u.p_count() < i64::MAX, None => true },
    match result.0 {
        Some(x) => x < i64::MAX && self.id_pred(x + (match result.1 { Some(u) => u.p_count(), None => 0 })) == Some(predicate@),
        None => result.1.is_none() && forall|id: int| #[trigger] self.id_pred(id) != Some(predicate@),
    },
decreases (match result.1 { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { layer.own_pred(predicate@); layer.counts_nonneg(); if let Some(u) = layer.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: id_subject
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(s) => self.id_name(id as int) == Some(Name::Node(s@)), None => !(self.id_name(id as int) matches Some(Name::Node(_))) }
@at start
proof { self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(), id >= 1, corrected_id == id, 
    match current_option { Some(u) => u.names_wf() && parent_count == u.nv_count() && self.id_name(id as int) == u.id_name(id as int), None => false },
ensures false,
decreases (match current_option { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = current_layer; l.counts_nonneg(); let k = id - l.base_nv(); if k >= 1 { l.nvmap().inverse(k); } if let Some(u) = l.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: id_predicate
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(s) => self.id_pred(id as int) == Some(s@), None => self.id_pred(id as int).is_none() }
@at start
proof { self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(), id >= 1, 
    match current_option { Some(u) => u.names_wf() && parent_count == u.p_count() && self.id_pred(id as int) == u.id_pred(id as int), None => false },
ensures false,
decreases (match current_option { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = current_layer; l.counts_nonneg(); let k = id - l.base_p(); if k >= 1 { l.pmap().inverse(k); } if let Some(u) = l.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: id_object
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match r { Some(o) => self.id_name(id as int) == Some(as_name(o)), None => self.id_name(id as int).is_none() }
@at start
proof { self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(), id >= 1, corrected_id == id, 
    match current_option { Some(u) => u.names_wf() && parent_count == u.nv_count() && self.id_name(id as int) == u.id_name(id as int), None => false },
ensures false,
decreases (match current_option { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = current_layer; l.counts_nonneg(); let k = id - l.base_nv(); if k >= 1 { l.nvmap().inverse(k); } if let Some(u) = l.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: id_object_is_node
@ret r
@props A05 A06
@spec
    requires self.names_wf()
    ensures match self.id_name(id as int) { Some(Name::Node(_)) => r == Some(true), Some(Name::Value(_)) => r == Some(false), None => r.is_none() }
@at start
proof { self.counts_nonneg(); }
@loop 0
invariant
    self.names_wf(), id >= 1, corrected_id == id, 
    match current_option { Some(u) => u.names_wf() && parent_count == u.nv_count() && self.id_name(id as int) == u.id_name(id as int), None => false },
ensures false,
decreases (match current_option { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = current_layer; l.counts_nonneg(); let k = id - l.base_nv(); if k >= 1 { l.nvmap().inverse(k); } if let Some(u) = l.up() { assert(u.names_wf()); u.counts_nonneg(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: all_counts
@ret r
@props A05 A07
@spec
    requires self.names_wf()
    ensures r.node_count == self.n_total(), r.value_count == self.v_total(), r.predicate_count == self.p_count()
@at start
proof { self.counts_nonneg(); if let Some(u) = self.up() { u.counts_nonneg(); } }
@loop 0
invariant
    self.names_wf(), 0 <= self.n_total() < i64::MAX, 0 <= self.v_total() < i64::MAX, 0 <= self.p_count() < i64::MAX,
    match parent_option { Some(u) => u.names_wf() && u.n_total() >= 0 && u.v_total() >= 0 && u.p_count() >= 0
            && node_count + u.n_total() == self.n_total() && value_count + u.v_total() == self.v_total() && predicate_count + u.p_count() == self.p_count(),
        None => node_count == self.n_total() && value_count == self.v_total() && predicate_count == self.p_count() },
ensures node_count == self.n_total(), value_count == self.v_total(), predicate_count == self.p_count(),
decreases (match parent_option { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { parent.counts_nonneg(); if let Some(u) = parent.up() { u.counts_nonneg(); } }
@@end

    /// the number of positions of an index that stand for a triple
    pub open spec fn n_adds(&self) -> int { self.pspo().len() - occurrences(self.pspo().nums(), 0) }
    pub open spec fn n_dels(&self) -> int { match self.nspo() { Some(a) => a.len() - occurrences(a.nums(), 0), None => 0 } }
    pub open spec fn adds_total(&self) -> int decreases self.height() { self.n_adds() + match self.up() { Some(u) => u.adds_total(), None => 0 } }
    pub open spec fn dels_total(&self) -> int decreases self.height() { self.n_dels() + match self.up() { Some(u) => u.dels_total(), None => 0 } }
    /// the wavelet trees index the predicates of the pairs
    pub open spec fn own_counts_wf(&self) -> bool {
        &&& index_wf(self.psub(), self.psp(), self.pspo())
        &&& self.nsp().is_some() == self.nspo().is_some()
        &&& (self.nsp().is_some() ==> index_wf(self.nsub(), self.nsp().unwrap(), self.nspo().unwrap()))
        &&& self.pw().wf() && self.pw()@ == self.psp().nums()
        &&& self.nw().is_some() == self.nspo().is_some()
        &&& (self.nw().is_some() ==> self.nw().unwrap().wf() && self.nw().unwrap()@ == self.nsp().unwrap().nums())
    }
    pub open spec fn counts_wf(&self) -> bool decreases self.height() {
        &&& self.own_counts_wf()
        &&& self.adds_total() < usize::MAX && self.dels_total() < usize::MAX
        &&& match self.up() { Some(u) => u.counts_wf(), None => true }
    }
    pub proof fn own_bounds(&self)
        requires self.own_counts_wf()
        ensures 0 <= self.n_adds() <= self.pspo().len(), 0 <= self.n_dels(),
            occurrences(self.pspo().nums(), 0) == occurrences(self.pw()@, 0), occurrences(self.pw()@, 0) >= 0,
            self.nspo().is_some() ==> occurrences(self.nspo().unwrap().nums(), 0) == occurrences(self.nw().unwrap()@, 0) && occurrences(self.nw().unwrap()@, 0) >= 0 && occurrences(self.nspo().unwrap().nums(), 0) <= self.nspo().unwrap().len(),
    {
        same_zeros(self.psub(), self.psp(), self.pspo());
        occ_bounds(self.pspo().nums(), 0); occ_bounds(self.pw()@, 0);
        if self.nspo().is_some() { same_zeros(self.nsub(), self.nsp().unwrap(), self.nspo().unwrap()); occ_bounds(self.nspo().unwrap().nums(), 0); occ_bounds(self.nw().unwrap()@, 0); }
    }
    pub proof fn count_bounds(&self)
        requires self.counts_wf()
        ensures 0 <= self.n_adds() <= self.pspo().len(), 0 <= self.n_dels(), self.adds_total() >= 0, self.dels_total() >= 0,
        decreases self.height()
    { self.own_bounds(); if let Some(u) = self.up() { u.count_bounds(); } }
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_layer_addition_count
@ret r
@props A07 A04
@spec
    requires self.own_counts_wf()
    ensures r == self.n_adds()
@at start
proof { self.own_bounds(); occ_none(self.pw()@, 0); }
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: internal_triple_layer_removal_count
@ret r
@props A07 A04
@spec
    requires self.own_counts_wf()
    ensures r == self.n_dels()
@at start
proof { self.own_bounds(); if self.nw().is_some() { occ_none(self.nw().unwrap()@, 0); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triple_addition_count
@ret r
@props A07
@spec
    requires self.counts_wf()
    ensures r == self.adds_total()
@at start
proof { self.count_bounds(); if let Some(u) = self.up() { assert(u.counts_wf()); u.count_bounds(); } }
@loop 0
invariant
    self.counts_wf(), self.adds_total() < usize::MAX, additions >= 0,
    match parent { Some(u) => u.counts_wf() && u.adds_total() >= 0 && additions + u.adds_total() == self.adds_total(), None => additions == self.adds_total() },
decreases (match parent { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = parent.unwrap(); l.count_bounds(); if let Some(u) = l.up() { assert(u.counts_wf()); u.count_bounds(); } }
@@end
@@fn layer/internal/mod.rs :: impl Layer for InternalLayer :: triple_removal_count
@ret r
@props A07
@spec
    requires self.counts_wf()
    ensures r == self.dels_total()
@at start
proof { self.count_bounds(); if let Some(u) = self.up() { assert(u.counts_wf()); u.count_bounds(); } }
@loop 0
invariant
    self.counts_wf(), self.dels_total() < usize::MAX, removals >= 0,
    match parent { Some(u) => u.counts_wf() && u.dels_total() >= 0 && removals + u.dels_total() == self.dels_total(), None => removals == self.dels_total() },
decreases (match parent { Some(u) => u.height() + 1, None => 0 })
@at loopstart 0
proof { let l = parent.unwrap(); l.count_bounds(); if let Some(u) = l.up() { assert(u.counts_wf()); u.count_bounds(); } }
@@end
}
@@include zeros.inc
/// no two positions stand for the same triple, so counting positions counts triples
pub proof fn positions_are_triples(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, j: int, k: int, s: u64, p: u64, o: u64)
    requires index_wf(subjects, sp, spo), at(subjects, sp, spo, j, s, p, o), at(subjects, sp, spo, k, s, p, o)
    ensures j == k
{
    index_facts(subjects, sp, spo);
    assert(spo.left(j) == spo.left(k));
    if j < k { assert(spo.nums()[j] < spo.nums()[k]); } else if k < j { assert(spo.nums()[k] < spo.nums()[j]); }
}
}
fn main() {}
