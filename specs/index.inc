// ---------------------------------------------------------------------------------
// the triple index of one layer: (subjects?, s_p, sp_o) as a set of triples
// ---------------------------------------------------------------------------------
pub open spec fn subj_at(subjects: Option<MonotonicLogArray>, i: int) -> int { match subjects { Some(s) => s@[i] as int, None => i + 1 } }
pub open spec fn own<T>(r: Option<&T>) -> Option<T> { match r { Some(a) => Some(*a), None => None } }
pub open spec fn index_wf(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList) -> bool {
    &&& sp.wf() && spo.wf()
    &&& spo.lefts() == sp.len()
    &&& match subjects { Some(s) => s.wf() && s@.len() == sp.lefts() && (forall|i: int| 0 <= i < s@.len() ==> s@[i] > 0), None => true }
    // an entry for predicate 0 has object 0 and the other way around: it stands for no triple
    &&& forall|k: int| 0 <= k < spo.len() ==> (spo.nums()[k] == 0) == (sp.nums()[#[trigger] spo.left(k)] == 0)
    // within a subject predicates ascend strictly; within a pair objects do
    &&& forall|i: int, j: int| 0 <= i < j < sp.len() && sp.left(i) == sp.left(j) ==> sp.nums()[i] < sp.nums()[j]
    &&& forall|i: int, j: int| 0 <= i < j < spo.len() && spo.left(i) == spo.left(j) ==> spo.nums()[i] < spo.nums()[j]
}
pub open spec fn sp_at(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, j: int, s: u64, p: u64) -> bool {
    0 <= j < sp.len() && sp.nums()[j] == p && subj_at(subjects, sp.left(j)) == s
}
/// position k of the index stands for the triple (s, p, o)
pub open spec fn at(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, k: int, s: u64, p: u64, o: u64) -> bool {
    0 <= k < spo.len() && spo.nums()[k] == o && sp_at(subjects, sp, spo.left(k), s, p)
}
pub open spec fn in_index(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, s: u64, p: u64, o: u64) -> bool {
    s != 0 && p != 0 && o != 0 && exists|k: int| at(subjects, sp, spo, k, s, p, o)
}
impl InternalLayer {
    /// what the layer records as added and removed
    pub open spec fn adds(&self, s: u64, p: u64, o: u64) -> bool { in_index(self.psub(), self.psp(), self.pspo(), s, p, o) }
    pub open spec fn dels(&self, s: u64, p: u64, o: u64) -> bool {
        match (self.nsp(), self.nspo()) { (Some(sp), Some(spo)) => in_index(self.nsub(), sp, spo, s, p, o), _ => false }
    }
    /// the triples of the layer: the parent's, minus the removals, plus the additions
    pub open spec fn has(&self, s: u64, p: u64, o: u64) -> bool decreases self.height() {
        if self.adds(s, p, o) { true } else if self.dels(s, p, o) { false } else { match self.up() { Some(u) => u.has(s, p, o), None => false } }
    }
    pub open spec fn triples_wf(&self) -> bool decreases self.height() {
        &&& index_wf(self.psub(), self.psp(), self.pspo())
        &&& (self.nsp().is_some() == self.nspo().is_some())
        &&& (self.nsp().is_some() ==> index_wf(self.nsub(), self.nsp().unwrap(), self.nspo().unwrap()))
        &&& wavelet_wf(self.pw(), self.psp()) && objects_wf(self.psub(), self.pobj(), self.pops(), self.psp(), self.pspo())
        &&& (self.nsp().is_some() == self.nw().is_some()) && (self.nsp().is_some() == self.nops().is_some())
        &&& (self.nsp().is_some() ==> wavelet_wf(self.nw().unwrap(), self.nsp().unwrap()) && objects_wf(self.nsub(), self.nobj(), self.nops().unwrap(), self.nsp().unwrap(), self.nspo().unwrap()))
        &&& match self.up() { Some(u) => u.triples_wf(), None => true }
    }
}
/// the index by predicate: the predicates of the pairs, searchable
pub open spec fn wavelet_wf(w: WaveletTree, sp: AdjacencyList) -> bool { w.wf() && w@ == sp.nums() }
/// the index by object: per object the numbers of its (subject, predicate) pairs, 0 where there is none
#[verifier::opaque]
pub open spec fn objects_wf(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList) -> bool {
    &&& ops.wf()
    &&& match objects { Some(o) => o.wf() && o@.len() == ops.lefts() && (forall|i: int| 0 <= i < o@.len() ==> o@[i] > 0), None => true }
    &&& forall|k: int| 0 <= k < ops.len() ==> #[trigger] ops.nums()[k] <= sp.len()
    &&& forall|i: int, j: int| 0 <= i < j < ops.len() && ops.left(i) == ops.left(j) ==> ops.nums()[i] < ops.nums()[j]
    // a pair is listed for an object exactly if the index holds the triple
    &&& forall|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] != 0 ==> obj_in(subjects, objects, ops, sp, spo, k)
    &&& forall|s: u64, p: u64, o: u64| #[trigger] in_index(subjects, sp, spo, s, p, o) ==> exists|k: int| 0 <= k < ops.len() && ops.nums()[k] != 0 && #[trigger] otrip(subjects, objects, ops, sp, k) == (s as int, p, o as int)
}
/// the triple at position k of the index by object
pub open spec fn otrip(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, k: int) -> (int, u64, int) {
    (subj_at(subjects, sp.left(ops.nums()[k] - 1)), sp.nums()[ops.nums()[k] - 1], subj_at(objects, ops.left(k)))
}
pub open spec fn obj_in(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList, k: int) -> bool {
    let t = otrip(subjects, objects, ops, sp, k);
    0 <= t.0 <= u64::MAX && 0 <= t.2 <= u64::MAX && in_index(subjects, sp, spo, t.0 as u64, t.1, t.2 as u64)
}
pub proof fn sp_unique(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures forall|i: int, j: int, s: u64, p: u64| #[trigger] sp_at(subjects, sp, i, s, p) && #[trigger] sp_at(subjects, sp, j, s, p) ==> i == j
{
    rank1_facts(sp.bits());
    assert forall|i: int, j: int, s: u64, p: u64| #[trigger] sp_at(subjects, sp, i, s, p) && #[trigger] sp_at(subjects, sp, j, s, p) implies i == j by {
        left_bound(sp, i); left_bound(sp, j);
        match subjects { Some(x) => { if sp.left(i) < sp.left(j) { } else if sp.left(j) < sp.left(i) { } }, None => {} }
        assert(sp.left(i) == sp.left(j));
    }
}
/// the left hand side of an existing position is an existing left hand side
pub proof fn left_bound(a: AdjacencyList, k: int)
    requires a.wf(), 0 <= k < a.len()
    ensures 0 <= a.left(k) < a.lefts()
{
    rank1_facts(a.bits());
    rank1_bit(a.bits(), a.len() - 1, a.len() as int);
}

pub open spec fn mono(b: Seq<bool>) -> bool {
    &&& forall|i: int, j: int| 0 <= i <= j <= b.len() ==> #[trigger] rank1(b, i) <= #[trigger] rank1(b, j)
    &&& forall|i: int, j: int| 0 <= i < j <= b.len() && b[i] ==> #[trigger] rank1(b, i) < #[trigger] rank1(b, j)
    &&& forall|i: int, j: int| 0 <= i < j <= b.len() && b[j - 1] ==> #[trigger] rank1(b, i) < #[trigger] rank1(b, j)
    &&& b.len() > 0 && b.last() ==> forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] rank1(b, i) < rank1(b, b.len() as int)
}
pub proof fn mono_holds(b: Seq<bool>) ensures mono(b)
{
    rank1_facts(b);
    assert forall|i: int, j: int| 0 <= i < j <= b.len() && b[j - 1] implies #[trigger] rank1(b, i) < #[trigger] rank1(b, j) by { rank1_mono(b, i, j - 1); rank1_bit(b, j - 1, j); }
    if b.len() > 0 && b.last() { rank1_bit(b, b.len() - 1, b.len() as int); }
    assert forall|i: int| b.len() > 0 && b.last() && 0 <= i < b.len() implies 0 <= #[trigger] rank1(b, i) < rank1(b, b.len() as int) by { rank1_mono(b, i, b.len() - 1); }
}
pub open spec fn unique(subjects: Option<MonotonicLogArray>, sp: AdjacencyList) -> bool {
    forall|i: int, j: int, s: u64, p: u64| #[trigger] sp_at(subjects, sp, i, s, p) && #[trigger] sp_at(subjects, sp, j, s, p) ==> i == j
}
pub proof fn index_facts(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures mono(sp.bits()), mono(spo.bits()), unique(subjects, sp)
{ mono_holds(sp.bits()); mono_holds(spo.bits()); sp_unique(subjects, sp, spo); }
impl InternalLayer {
    pub proof fn has_zero(&self, s: u64, p: u64, o: u64)
        requires s == 0 || p == 0 || o == 0
        ensures !self.has(s, p, o)
        decreases self.height()
    { match self.up() { Some(u) => u.has_zero(s, p, o), None => {} } }
}
