// ---------------------------------------------------------------------------------
// iteration over one layer in subject order
// ---------------------------------------------------------------------------------
pub open spec fn trip(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, k: int) -> IdTriple {
    tr(subj_at(subjects, sp.left(spo.left(k))) as u64, sp.nums()[spo.left(k)], spo.nums()[k])
}
/// the triples at positions k and later (entries with object 0 stand for no triple)
pub open spec fn rest(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, k: int) -> Seq<IdTriple> decreases spo.len() - k {
    if k < 0 || k >= spo.len() { Seq::empty() }
    else if spo.nums()[k] == 0 { rest(subjects, sp, spo, k + 1) }
    else { seq![trip(subjects, sp, spo, k)] + rest(subjects, sp, spo, k + 1) }
}
pub open spec fn ascending(s: Seq<IdTriple>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tlt(s[i], s[j]) }
pub open spec fn strict(s: Seq<IdTriple>) -> bool { ascending(s) && forall|i: int| 0 <= i < s.len() ==> s[i].subject != 0 && s[i].predicate != 0 && s[i].object != 0 }

/// a position of the index, its triple, and the order of the positions
pub proof fn positions_ascend(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures
        forall|k: int| 0 <= k < spo.len() ==> (spo.nums()[k] != 0 ==> (#[trigger] trip(subjects, sp, spo, k)).subject != 0 && trip(subjects, sp, spo, k).predicate != 0),
        forall|i: int, j: int| 0 <= i < j < spo.len() && spo.nums()[i] != 0 && spo.nums()[j] != 0 ==> tlt(#[trigger] trip(subjects, sp, spo, i), #[trigger] trip(subjects, sp, spo, j)),
        forall|k: int| 0 <= k < spo.len() ==> #[trigger] subj_at(subjects, sp.left(spo.left(k))) <= u64::MAX && subj_at(subjects, sp.left(spo.left(k))) > 0,
{
    mono_holds(sp.bits()); mono_holds(spo.bits());
    assert forall|k: int| 0 <= k < spo.len() implies #[trigger] subj_at(subjects, sp.left(spo.left(k))) <= u64::MAX && subj_at(subjects, sp.left(spo.left(k))) > 0 by { left_bound(spo, k); left_bound(sp, spo.left(k)); mono_holds(sp.bits()); assert(sp.lefts() <= sp.len()) by { rank1_mono(sp.bits(), 0, sp.len() as int); } }
    assert forall|k: int| 0 <= k < spo.len() implies ((#[trigger] trip(subjects, sp, spo, k)).subject != 0 && (spo.nums()[k] != 0 ==> trip(subjects, sp, spo, k).predicate != 0)) by { assert(subj_at(subjects, sp.left(spo.left(k))) > 0); }
    assert forall|i: int, j: int| 0 <= i < j < spo.len() && spo.nums()[i] != 0 && spo.nums()[j] != 0 implies tlt(#[trigger] trip(subjects, sp, spo, i), #[trigger] trip(subjects, sp, spo, j)) by {
        let a = spo.left(i); let b = spo.left(j);
        left_bound(spo, i); left_bound(spo, j);
        assert(a <= b);
        if a < b {
            left_bound(sp, a); left_bound(sp, b);
            assert(sp.left(a) <= sp.left(b));
            assert(subj_at(subjects, sp.left(spo.left(i))) <= u64::MAX); assert(subj_at(subjects, sp.left(spo.left(j))) <= u64::MAX);
            if sp.left(a) == sp.left(b) { } else { match subjects { Some(s) => { assert(s@[sp.left(a)] < s@[sp.left(b)]); }, None => {} } }
        }
    }
}
pub proof fn rest_members(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, k: int)
    requires index_wf(subjects, sp, spo), 0 <= k <= spo.len()
    ensures
        strict(rest(subjects, sp, spo, k)),
        forall|t: IdTriple| #[trigger] rest(subjects, sp, spo, k).contains(t) <==> exists|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t,
    decreases spo.len() - k
{
    positions_ascend(subjects, sp, spo);
    let r = rest(subjects, sp, spo, k);
    if k < spo.len() {
        rest_members(subjects, sp, spo, k + 1);
        let q = rest(subjects, sp, spo, k + 1);
        if spo.nums()[k] != 0 {
            let t0 = trip(subjects, sp, spo, k);
            assert(r =~= seq![t0] + q);
            assert forall|i: int| 0 <= i < q.len() implies tlt(t0, #[trigger] q[i]) by {
                assert(q.contains(q[i]));
                let m = choose|m: int| k + 1 <= m < spo.len() && spo.nums()[m] != 0 && #[trigger] trip(subjects, sp, spo, m) == q[i];
                assert(tlt(trip(subjects, sp, spo, k), trip(subjects, sp, spo, m)));
            }
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies tlt(r[i], r[j]) by { assert(r[j] == q[j - 1]); if i > 0 { assert(r[i] == q[i - 1]); } }
            assert forall|i: int| 0 <= i < r.len() implies r[i].subject != 0 && r[i].predicate != 0 && r[i].object != 0 by { if i > 0 { assert(r[i] == q[i - 1]); } }
            assert forall|t: IdTriple| #[trigger] r.contains(t) <==> (t == t0 || q.contains(t)) by {
                if r.contains(t) { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; if i > 0 { assert(q[i - 1] == t); } }
                if t == t0 { assert(r[0] == t); }
                if q.contains(t) { let i = choose|i: int| 0 <= i < q.len() && q[i] == t; assert(r[i + 1] == t); }
            }
            assert forall|t: IdTriple| #[trigger] r.contains(t) <==> exists|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t by {
                if r.contains(t) { if t == t0 { assert(trip(subjects, sp, spo, k) == t); } else { assert(q.contains(t)); } }
                if exists|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t {
                    let i = choose|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t;
                    if i > k { assert(q.contains(t)); }
                }
            }
        } else {
            assert forall|t: IdTriple| #[trigger] r.contains(t) <==> exists|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t by {
                if exists|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t {
                    let i = choose|i: int| k <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t;
                    assert(i != k); assert(q.contains(t));
                }
            }
        }
    }
}
/// all triples of an index are exactly those the existence check knows
pub proof fn rest_is_index(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures forall|t: IdTriple| #[trigger] rest(subjects, sp, spo, 0).contains(t) <==> in_index(subjects, sp, spo, t.subject, t.predicate, t.object)
{
    rest_members(subjects, sp, spo, 0); positions_ascend(subjects, sp, spo);
    assert forall|t: IdTriple| #[trigger] rest(subjects, sp, spo, 0).contains(t) <==> in_index(subjects, sp, spo, t.subject, t.predicate, t.object) by {
        if rest(subjects, sp, spo, 0).contains(t) {
            let i = choose|i: int| 0 <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t;
            left_bound(spo, i);
            assert(at(subjects, sp, spo, i, t.subject, t.predicate, t.object));
        }
        if in_index(subjects, sp, spo, t.subject, t.predicate, t.object) {
            let k = choose|k: int| at(subjects, sp, spo, k, t.subject, t.predicate, t.object);
            assert(trip(subjects, sp, spo, k) == t);
        }
    }
}

@@item layer/internal/subject_iterator.rs :: struct InternalLayerTripleSubjectIterator
@flag pub
@@end
impl InternalLayerTripleSubjectIterator {
    pub open spec fn from(&self, k: int) -> Seq<IdTriple> { rest(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k) }
    pub open spec fn base_wf(&self) -> bool { index_wf(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list) }
    pub open spec fn pos(&self) -> int { if self.peeked.is_some() { self.sp_o_position - 1 } else { self.sp_o_position as int } }
    pub open spec fn wf(&self) -> bool {
        &&& self.base_wf()
        &&& self.sp_o_position <= self.sp_o_adjacency_list.len()
        &&& self.sp_o_position < self.sp_o_adjacency_list.len() ==> self.s_p_position == self.sp_o_adjacency_list.left(self.sp_o_position as int) && self.s_position == self.s_p_adjacency_list.left(self.s_p_position as int)
        &&& self.peeked.is_some() ==> self.sp_o_position > 0 && self.sp_o_adjacency_list.nums()[self.pos()] != 0 && self.peeked == Some(trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, self.pos()))
    }
    /// what is still to come
    pub open spec fn view(&self) -> Seq<IdTriple> { self.from(self.pos()) }
    pub open spec fn all(&self) -> Seq<IdTriple> { self.from(0) }
    pub open spec fn same_index(&self, o: &Self) -> bool { self.subjects == o.subjects && self.s_p_adjacency_list == o.s_p_adjacency_list && self.sp_o_adjacency_list == o.sp_o_adjacency_list }
    /// positioned at the first triple with (subject, predicate) >= (s, p)
    pub open spec fn sought(&self, s: u64, p: u64) -> bool {
        forall|t: IdTriple| #[trigger] self.view().contains(t) <==> self.all().contains(t) && (t.subject > s || (t.subject == s && t.predicate >= p))
    }
    pub proof fn sought_by_position(&self, s: u64, p: u64)
        requires self.wf(), self.peeked.is_none(),
            forall|k: int| 0 <= k < self.sp_o_position && self.sp_o_adjacency_list.nums()[k] != 0 ==> { let t = #[trigger] trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k); !(t.subject > s || (t.subject == s && t.predicate >= p)) },
            forall|k: int| self.sp_o_position <= k < self.sp_o_adjacency_list.len() && self.sp_o_adjacency_list.nums()[k] != 0 ==> { let t = #[trigger] trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k); t.subject > s || (t.subject == s && t.predicate >= p) },
        ensures self.sought(s, p)
    {
        rest_members(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, 0);
        rest_members(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, self.pos());
    }
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: new
@ret r
@props A01 A02 A03 A04
@spec
    requires index_wf(subjects, s_p_adjacency_list, sp_o_adjacency_list),
    ensures r.wf(), r@ == rest(subjects, s_p_adjacency_list, sp_o_adjacency_list, 0), r.all() == r@,
        r.subjects == subjects, r.s_p_adjacency_list == s_p_adjacency_list, r.sp_o_adjacency_list == sp_o_adjacency_list,
@at start
proof { assert(rank1(s_p_adjacency_list.bits(), 0) == 0); assert(rank1(sp_o_adjacency_list.bits(), 0) == 0); }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: seek_subject_ref
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_index(old(self)), final(self).sought(subject, 0),
@at start
proof { mono_holds(self.s_p_adjacency_list.bits()); mono_holds(self.sp_o_adjacency_list.bits()); assert(rank1(self.s_p_adjacency_list.bits(), 0) == 0); assert(rank1(self.sp_o_adjacency_list.bits(), 0) == 0);
    positions_ascend(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list); 
    assert forall|k: int| 0 <= k < self.sp_o_adjacency_list.len() implies 0 <= #[trigger] self.sp_o_adjacency_list.left(k) < self.s_p_adjacency_list.len() && 0 <= self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k)) < self.s_p_adjacency_list.lefts() by { left_bound(self.sp_o_adjacency_list, k); left_bound(self.s_p_adjacency_list, self.sp_o_adjacency_list.left(k)); } }
@at return
proof { self.sought_by_position(subject, 0); }
@at end
proof { 
    if self.sp_o_position < self.sp_o_adjacency_list.len() {
        assert forall|k: int| 0 <= k < self.sp_o_position implies (#[trigger] trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k)).subject < subject by {
            let a = self.sp_o_adjacency_list.left(k); let b = self.sp_o_adjacency_list.left(self.sp_o_position as int);
            assert(a < b); assert(self.s_p_adjacency_list.left(a) < self.s_p_adjacency_list.left(b));
            assert(subj_at(self.subjects, self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k))) <= u64::MAX);
        }
        assert forall|k: int| self.sp_o_position <= k < self.sp_o_adjacency_list.len() implies (#[trigger] trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k)).subject >= subject by {
            let a = self.sp_o_adjacency_list.left(self.sp_o_position as int); let b = self.sp_o_adjacency_list.left(k);
            assert(a <= b); assert(self.s_p_adjacency_list.left(a) <= self.s_p_adjacency_list.left(b));
            assert(subj_at(self.subjects, self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k))) <= u64::MAX);
        }
    } else {
        assert forall|k: int| 0 <= k < self.sp_o_position implies (#[trigger] trip(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, k)).subject < subject by {
            assert(subj_at(self.subjects, self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k))) <= u64::MAX);
        }
    }
    self.sought_by_position(subject, 0); }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: seek_subject
@ret r
@props A01 A02
@spec
    requires self.wf(),
    ensures r.wf(), r.same_index(&self), r.sought(subject, 0),
@@end
@@fn layer/internal/subject_iterator.rs :: impl Iterator for InternalLayerTripleSubjectIterator :: next
@attr #[verifier::loop_isolation(false)]
@ret r
@props A01 A02 A03 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_index(old(self)), final(self).peeked.is_none(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first() && final(self).sp_o_position > 0 && t.object != 0 && t == trip(final(self).subjects, final(self).s_p_adjacency_list, final(self).sp_o_adjacency_list, final(self).sp_o_position - 1) }
@at start
proof { mono_holds(self.s_p_adjacency_list.bits()); mono_holds(self.sp_o_adjacency_list.bits());
    positions_ascend(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list);
    assert forall|k: int| 0 <= k < self.sp_o_adjacency_list.len() implies 0 <= #[trigger] self.sp_o_adjacency_list.left(k) < self.s_p_adjacency_list.len() && 0 <= self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k)) < self.s_p_adjacency_list.lefts() by { left_bound(self.sp_o_adjacency_list, k); left_bound(self.s_p_adjacency_list, self.sp_o_adjacency_list.left(k)); }
    assert(self.s_p_adjacency_list.lefts() <= self.s_p_adjacency_list.len()) by { rank1_mono(self.s_p_adjacency_list.bits(), 0, self.s_p_adjacency_list.len() as int); }
    assert(old(self).peeked.is_some() ==> old(self)@.drop_first() =~= old(self).from(old(self).pos() + 1));
}
@loop 0
invariant
    self.wf(), self.same_index(old(self)), self.peeked.is_none(), old(self).peeked.is_none(),
    old(self)@ == self@,
decreases self.sp_o_adjacency_list.len() - self.sp_o_position
@at loopstart 0
let ghost k0 = self.sp_o_position as int;
proof { if k0 < self.sp_o_adjacency_list.len() { assert(self.from(k0).drop_first() =~= self.from(k0 + 1) || self.sp_o_adjacency_list.nums()[k0] == 0); } }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: peek
@ret r
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_index(old(self)), final(self)@ == old(self)@,
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && *t == old(self)@[0] },
@at start
proof { }
@at set self.peeked
proof { if self.peeked.is_some() { assert(self@ =~= old(self)@); } else { assert(self@ =~= old(self)@); } }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: seek_s_p_pos
@props A01 A02
@spec
    requires old(self).wf(), pos < old(self).s_p_adjacency_list.len(),
    ensures final(self).wf(), final(self).same_index(old(self)), final(self).peeked.is_none(), final(self).s_p_position == pos,
        final(self).sp_o_adjacency_list.left(final(self).sp_o_position as int) == pos,
        final(self).sp_o_position > 0 ==> final(self).sp_o_adjacency_list.bits()[final(self).sp_o_position - 1],
@at start
proof { mono_holds(self.s_p_adjacency_list.bits()); mono_holds(self.sp_o_adjacency_list.bits()); assert(rank1(self.s_p_adjacency_list.bits(), 0) == 0); assert(rank1(self.sp_o_adjacency_list.bits(), 0) == 0);
    positions_ascend(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list); 
    assert forall|k: int| 0 <= k < self.sp_o_adjacency_list.len() implies 0 <= #[trigger] self.sp_o_adjacency_list.left(k) < self.s_p_adjacency_list.len() && 0 <= self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k)) < self.s_p_adjacency_list.lefts() by { left_bound(self.sp_o_adjacency_list, k); left_bound(self.s_p_adjacency_list, self.sp_o_adjacency_list.left(k)); } }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: seek_subject_predicate_ref
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_index(old(self)), final(self).sought(subject, predicate),
@at start
proof { mono_holds(self.s_p_adjacency_list.bits()); mono_holds(self.sp_o_adjacency_list.bits()); assert(rank1(self.s_p_adjacency_list.bits(), 0) == 0); assert(rank1(self.sp_o_adjacency_list.bits(), 0) == 0);
    positions_ascend(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list); 
    assert forall|k: int| 0 <= k < self.sp_o_adjacency_list.len() implies 0 <= #[trigger] self.sp_o_adjacency_list.left(k) < self.s_p_adjacency_list.len() && 0 <= self.s_p_adjacency_list.left(self.sp_o_adjacency_list.left(k)) < self.s_p_adjacency_list.lefts() by { left_bound(self.sp_o_adjacency_list, k); left_bound(self.s_p_adjacency_list, self.sp_o_adjacency_list.left(k)); } }
@at return#1
proof { self.sought_by_position(subject, predicate); }
@at return#2
proof { sought_sp_hint(*self, subject, predicate); }
@loop 0
invariant
    self.subjects == old(self).subjects, self.s_p_adjacency_list == old(self).s_p_adjacency_list, self.sp_o_adjacency_list == old(self).sp_o_adjacency_list, self.peeked.is_none(),
    s_p_position < self.s_p_adjacency_list.len(),
    self.s_p_adjacency_list.left(s_p_position as int) == self.s_position,
    subj_at(self.subjects, self.s_position as int) == subject,
    forall|j: int| 0 <= j < s_p_position && self.s_p_adjacency_list.left(j) == self.s_position ==> self.s_p_adjacency_list.nums()[j] < predicate,
ensures
    s_p_position <= self.s_p_adjacency_list.len(),
    s_p_position < self.s_p_adjacency_list.len() ==> self.s_p_adjacency_list.left(s_p_position as int) == self.s_position,
    forall|j: int| 0 <= j < s_p_position ==> subj_at(self.subjects, #[trigger] self.s_p_adjacency_list.left(j)) < subject || (subj_at(self.subjects, self.s_p_adjacency_list.left(j)) == subject && self.s_p_adjacency_list.nums()[j] < predicate),
    forall|j: int| s_p_position <= j < self.s_p_adjacency_list.len() ==> subj_at(self.subjects, #[trigger] self.s_p_adjacency_list.left(j)) > subject || (subj_at(self.subjects, self.s_p_adjacency_list.left(j)) == subject && self.s_p_adjacency_list.nums()[j] >= predicate),
decreases self.s_p_adjacency_list.len() - s_p_position
@at end
proof { sought_sp_hint(*self, subject, predicate); }
@@end
@@fn layer/internal/subject_iterator.rs :: impl InternalLayerTripleSubjectIterator :: seek_subject_predicate
@ret r
@props A01 A02
@spec
    requires self.wf(),
    ensures r.wf(), r.same_index(&self), r.sought(subject, predicate),
@@end
}
pub proof fn sought_sp_hint(it: InternalLayerTripleSubjectIterator, subject: u64, predicate: u64)
    requires it.wf(), it.peeked.is_none(),
        it.sp_o_position > 0 ==> it.sp_o_adjacency_list.bits()[it.sp_o_position - 1],
        ({ let b = if it.sp_o_position < it.sp_o_adjacency_list.len() { it.s_p_position as int } else { it.s_p_adjacency_list.len() as int };
        &&& forall|j: int| 0 <= j < b ==> subj_at(it.subjects, #[trigger] it.s_p_adjacency_list.left(j)) < subject || (subj_at(it.subjects, it.s_p_adjacency_list.left(j)) == subject && it.s_p_adjacency_list.nums()[j] < predicate)
        &&& forall|j: int| b <= j < it.s_p_adjacency_list.len() ==> subj_at(it.subjects, #[trigger] it.s_p_adjacency_list.left(j)) > subject || (subj_at(it.subjects, it.s_p_adjacency_list.left(j)) == subject && it.s_p_adjacency_list.nums()[j] >= predicate) }),
    ensures it.sought(subject, predicate)
{
    let (sp, spo) = (it.s_p_adjacency_list, it.sp_o_adjacency_list);
    mono_holds(spo.bits()); positions_ascend(it.subjects, sp, spo);
    assert forall|k: int| 0 <= k < it.sp_o_position && spo.nums()[k] != 0 implies { let t = #[trigger] trip(it.subjects, sp, spo, k); !(t.subject > subject || (t.subject == subject && t.predicate >= predicate)) } by {
        left_bound(spo, k); let j = spo.left(k); assert(subj_at(it.subjects, sp.left(spo.left(k))) <= u64::MAX);
        assert(subj_at(it.subjects, sp.left(j)) <= u64::MAX);
    }
    assert forall|k: int| it.sp_o_position <= k < spo.len() && spo.nums()[k] != 0 implies { let t = #[trigger] trip(it.subjects, sp, spo, k); t.subject > subject || (t.subject == subject && t.predicate >= predicate) } by {
        left_bound(spo, k); let j = spo.left(k); assert(subj_at(it.subjects, sp.left(spo.left(k))) <= u64::MAX);
        assert(j >= spo.left(it.sp_o_position as int));
    }
    it.sought_by_position(subject, predicate);
}
