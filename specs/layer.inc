// ---------------------------------------------------------------------------------
// layers: the structures and their accessors, as in the code
// (every item and body is extracted from the source)
// ---------------------------------------------------------------------------------
@@item layer/id_map.rs :: struct IdMap
@flag pub
@@end
@@item layer/internal/base.rs :: struct BaseLayer
@flag pub
@@end
@@item layer/internal/child.rs :: struct ChildLayer
@flag pub
@@end
@@item layer/internal/rollup.rs :: struct RollupLayer
@flag pub
@@end
@@item layer/internal/mod.rs :: enum InternalLayer
@flag pub
@@end
pub use InternalLayer::*;

pub open spec fn some_eq<T>(r: Option<&T>, x: Option<T>) -> bool { match (r, x) { (Some(a), Some(b)) => *a == b, (None, None) => true, _ => false } }

impl InternalLayer {
    pub open spec fn ndown(&self) -> InternalLayer decreases self { match self { InternalLayer::Rollup(r) => r.internal.ndown(), _ => *self } }
    pub open spec fn nd(&self) -> StringDict decreases self { match self { InternalLayer::Base(b) => b.node_dictionary, InternalLayer::Child(c) => c.node_dictionary, InternalLayer::Rollup(r) => r.internal.nd() } }
    pub open spec fn pd(&self) -> StringDict decreases self { match self { InternalLayer::Base(b) => b.predicate_dictionary, InternalLayer::Child(c) => c.predicate_dictionary, InternalLayer::Rollup(r) => r.internal.pd() } }
    pub open spec fn vd(&self) -> TypedDict decreases self { match self { InternalLayer::Base(b) => b.value_dictionary, InternalLayer::Child(c) => c.value_dictionary, InternalLayer::Rollup(r) => r.internal.vd() } }
    pub open spec fn nvmap(&self) -> IdMap decreases self { match self { InternalLayer::Base(b) => b.node_value_idmap, InternalLayer::Child(c) => c.node_value_idmap, InternalLayer::Rollup(r) => r.internal.nvmap() } }
    pub open spec fn pmap(&self) -> IdMap decreases self { match self { InternalLayer::Base(b) => b.predicate_idmap, InternalLayer::Child(c) => c.predicate_idmap, InternalLayer::Rollup(r) => r.internal.pmap() } }
    pub open spec fn pnv(&self) -> usize decreases self { match self { InternalLayer::Base(b) => 0, InternalLayer::Child(c) => c.parent_node_value_count, InternalLayer::Rollup(r) => r.internal.pnv() } }
    pub open spec fn pp(&self) -> usize decreases self { match self { InternalLayer::Base(b) => 0, InternalLayer::Child(c) => c.parent_predicate_count, InternalLayer::Rollup(r) => r.internal.pp() } }
    pub open spec fn psp(&self) -> AdjacencyList decreases self { match self { InternalLayer::Base(b) => b.s_p_adjacency_list, InternalLayer::Child(c) => c.pos_s_p_adjacency_list, InternalLayer::Rollup(r) => r.internal.psp() } }
    pub open spec fn pspo(&self) -> AdjacencyList decreases self { match self { InternalLayer::Base(b) => b.sp_o_adjacency_list, InternalLayer::Child(c) => c.pos_sp_o_adjacency_list, InternalLayer::Rollup(r) => r.internal.pspo() } }
    pub open spec fn pops(&self) -> AdjacencyList decreases self { match self { InternalLayer::Base(b) => b.o_ps_adjacency_list, InternalLayer::Child(c) => c.pos_o_ps_adjacency_list, InternalLayer::Rollup(r) => r.internal.pops() } }
    pub open spec fn pw(&self) -> WaveletTree decreases self { match self { InternalLayer::Base(b) => b.predicate_wavelet_tree, InternalLayer::Child(c) => c.pos_predicate_wavelet_tree, InternalLayer::Rollup(r) => r.internal.pw() } }
    pub open spec fn nsp(&self) -> Option<AdjacencyList> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_s_p_adjacency_list), InternalLayer::Rollup(r) => r.internal.nsp() } }
    pub open spec fn nspo(&self) -> Option<AdjacencyList> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_sp_o_adjacency_list), InternalLayer::Rollup(r) => r.internal.nspo() } }
    pub open spec fn nops(&self) -> Option<AdjacencyList> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_o_ps_adjacency_list), InternalLayer::Rollup(r) => r.internal.nops() } }
    pub open spec fn nw(&self) -> Option<WaveletTree> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_predicate_wavelet_tree), InternalLayer::Rollup(r) => r.internal.nw() } }
    pub open spec fn psub(&self) -> Option<MonotonicLogArray> decreases self { match self { InternalLayer::Base(b) => b.subjects, InternalLayer::Child(c) => Some(c.pos_subjects), InternalLayer::Rollup(r) => r.internal.psub() } }
    pub open spec fn pobj(&self) -> Option<MonotonicLogArray> decreases self { match self { InternalLayer::Base(b) => b.objects, InternalLayer::Child(c) => Some(c.pos_objects), InternalLayer::Rollup(r) => r.internal.pobj() } }
    pub open spec fn nsub(&self) -> Option<MonotonicLogArray> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_subjects), InternalLayer::Rollup(r) => r.internal.nsub() } }
    pub open spec fn nobj(&self) -> Option<MonotonicLogArray> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.neg_objects), InternalLayer::Rollup(r) => r.internal.nobj() } }
    pub open spec fn up(&self) -> Option<InternalLayer> decreases self { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(*c.parent), InternalLayer::Rollup(r) => r.internal.up() } }
    pub open spec fn lname(&self) -> [u32; 5] { match self { InternalLayer::Base(b) => b.name, InternalLayer::Child(c) => c.name, InternalLayer::Rollup(r) => r.original } }
    pub open spec fn lparent_name(&self) -> Option<[u32; 5]> { match self { InternalLayer::Base(b) => None, InternalLayer::Child(c) => Some(c.parent.lname()), InternalLayer::Rollup(r) => r.original_parent } }
    pub proof fn up_decreases(&self) ensures self.up().is_some() ==> decreases_to!(*self => self.up().unwrap())
        decreases self
    { match self { InternalLayer::Rollup(r) => { r.internal.up_decreases(); }, _ => {} } }
    /// height in the parent chain, used to show that walks end
    pub open spec fn height(&self) -> nat decreases self via Self::height_dec { match self.up() { Some(p) => p.height() + 1, None => 0 } }
    #[via_fn] proof fn height_dec(&self) { self.up_decreases(); }

@@fn layer/internal/mod.rs :: impl InternalLayer :: node_dictionary
@ret r
@props L
@spec ensures *r == self.nd() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: predicate_dictionary
@ret r
@props L
@spec ensures *r == self.pd() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: value_dictionary
@ret r
@props L
@spec ensures *r == self.vd() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: node_value_id_map
@ret r
@props L
@spec ensures *r == self.nvmap() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: predicate_id_map
@ret r
@props L
@spec ensures *r == self.pmap() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: parent_node_value_count
@ret r
@props L
@spec ensures r == self.pnv() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: parent_predicate_count
@ret r
@props L
@spec ensures r == self.pp() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_s_p_adjacency_list
@ret r
@props L
@spec ensures *r == self.psp() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_sp_o_adjacency_list
@ret r
@props L
@spec ensures *r == self.pspo() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_o_ps_adjacency_list
@ret r
@props L
@spec ensures *r == self.pops() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_s_p_adjacency_list
@ret r
@props L
@spec ensures some_eq(r, self.nsp()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_sp_o_adjacency_list
@ret r
@props L
@spec ensures some_eq(r, self.nspo()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_o_ps_adjacency_list
@ret r
@props L
@spec ensures some_eq(r, self.nops()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_predicate_wavelet_tree
@ret r
@props L
@spec ensures *r == self.pw() decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_predicate_wavelet_tree
@ret r
@props L
@spec ensures some_eq(r, self.nw()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_subjects
@ret r
@props L
@spec ensures some_eq(r, self.psub()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: pos_objects
@ret r
@props L
@spec ensures some_eq(r, self.pobj()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_subjects
@ret r
@props L
@spec ensures some_eq(r, self.nsub()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: neg_objects
@ret r
@props L
@spec ensures some_eq(r, self.nobj()) decreases self
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: name
@ret r
@props L
@spec ensures r == self.lname()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: parent_name
@ret r
@props L
@spec ensures r == self.lparent_name()
@@end
@@fn layer/internal/mod.rs :: impl InternalLayer :: immediate_parent
@ret r
@props L
@spec ensures some_eq(r, self.up()) decreases self
@@end
}
