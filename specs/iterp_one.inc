// ---------------------------------------------------------------------------------
// the triples of one predicate
// ---------------------------------------------------------------------------------
pub open spec fn picks(t: IdTriple, q: u64, f: int) -> bool { t.predicate == q && t.subject >= f }
/// those of s with predicate q and a subject of at least f
pub open spec fn pick(s: Seq<IdTriple>, q: u64, f: int) -> Seq<IdTriple> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let r = pick(s.drop_first(), q, f); if picks(s[0], q, f) { seq![s[0]] + r } else { r } }
}
pub proof fn cons_members(h: IdTriple, r: Seq<IdTriple>)
    ensures forall|t: IdTriple| #[trigger] (seq![h] + r).contains(t) <==> t == h || r.contains(t), (seq![h] + r).drop_first() == r, (seq![h] + r)[0] == h
{
    let s = seq![h] + r;
    assert(s.drop_first() =~= r);
    assert forall|t: IdTriple| #[trigger] s.contains(t) <==> t == h || r.contains(t) by {
        if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; if i > 0 { assert(r[i - 1] == t); } }
        if t == h { assert(s[0] == t); }
        if r.contains(t) { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; assert(s[i + 1] == t); }
    }
}
pub proof fn strict_tail(s: Seq<IdTriple>)
    requires strict(s), s.len() > 0
    ensures strict(s.drop_first()), forall|t: IdTriple| #[trigger] s.drop_first().contains(t) <==> s.contains(t) && t != s[0], forall|t: IdTriple| #[trigger] s.drop_first().contains(t) ==> tlt(s[0], t)
{
    let r = s.drop_first();
    assert(s =~= seq![s[0]] + r); cons_members(s[0], r);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies tlt(r[i], r[j]) by { assert(tlt(s[i + 1], s[j + 1])); }
    assert forall|t: IdTriple| #[trigger] r.contains(t) implies tlt(s[0], t) by { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; assert(tlt(s[0], s[i + 1])); }
}
pub proof fn strict_cons(h: IdTriple, r: Seq<IdTriple>)
    requires strict(r), forall|t: IdTriple| #[trigger] r.contains(t) ==> tlt(h, t), h.subject != 0 && h.predicate != 0 && h.object != 0
    ensures strict(seq![h] + r)
{
    let s = seq![h] + r;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies tlt(s[i], s[j]) by { assert(s[j] == r[j - 1]); assert(r.contains(r[j - 1])); if i > 0 { assert(tlt(r[i - 1], r[j - 1])); } }
    assert forall|i: int| 0 <= i < s.len() implies s[i].subject != 0 && s[i].predicate != 0 && s[i].object != 0 by { if i > 0 { assert(s[i] == r[i - 1]); } }
}
pub proof fn pick_facts(s: Seq<IdTriple>, q: u64, f: int)
    requires strict(s)
    ensures strict(pick(s, q, f)), forall|t: IdTriple| #[trigger] pick(s, q, f).contains(t) <==> s.contains(t) && picks(t, q, f)
    decreases s.len()
{
    if s.len() > 0 {
        strict_tail(s); pick_facts(s.drop_first(), q, f);
        let r = pick(s.drop_first(), q, f);
        cons_members(s[0], r);
        if picks(s[0], q, f) { strict_cons(s[0], r); }
        assert(s.contains(s[0]));
    }
}
/// an ascending list is determined by what it contains
pub proof fn strict_eq(a: Seq<IdTriple>, b: Seq<IdTriple>)
    requires strict(a), strict(b), forall|t: IdTriple| #[trigger] a.contains(t) <==> b.contains(t)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a[0])); assert(b.contains(a[0]));
        assert(b.len() > 0);
        assert(b.contains(b[0])); assert(a.contains(b[0]));
        strict_tail(a); strict_tail(b);
        if a[0] != b[0] { assert(b.drop_first().contains(a[0])); assert(a.drop_first().contains(b[0])); assert(tlt(b[0], a[0])); assert(tlt(a[0], b[0])); }
        strict_eq(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first());
    }
}
pub open spec fn pair_subject(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, j: int) -> int { subj_at(subjects, sp.left(j)) }
/// the triples of predicate q, and the pairs they belong to
pub open spec fn of_pair(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, j: int, t: IdTriple) -> bool { 0 <= j < sp.len() && sp.nums()[j] == t.predicate && pair_subject(subjects, sp, j) == t.subject }
pub proof fn pairs_of(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures
        forall|t: IdTriple| #[trigger] rest(subjects, sp, spo, 0).contains(t) ==> exists|j: int| #[trigger] of_pair(subjects, sp, j, t),
        forall|j: int| 0 <= j < sp.len() ==> 0 < #[trigger] pair_subject(subjects, sp, j) <= u64::MAX,
        forall|i: int, j: int| 0 <= i < j < sp.len() ==> #[trigger] pair_subject(subjects, sp, i) <= #[trigger] pair_subject(subjects, sp, j),
        forall|i: int, j: int| 0 <= i < j < sp.len() && sp.nums()[i] == sp.nums()[j] ==> #[trigger] pair_subject(subjects, sp, i) < #[trigger] pair_subject(subjects, sp, j),
{
    let all = rest(subjects, sp, spo, 0);
    rest_members(subjects, sp, spo, 0); positions_ascend(subjects, sp, spo); mono_holds(sp.bits()); mono_holds(spo.bits());
    assert forall|t: IdTriple| #[trigger] all.contains(t) implies exists|j: int| #[trigger] of_pair(subjects, sp, j, t) by {
        let i = choose|i: int| 0 <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(subjects, sp, spo, i) == t;
        left_bound(spo, i);
        assert(subj_at(subjects, sp.left(spo.left(i))) <= u64::MAX);
        assert(of_pair(subjects, sp, spo.left(i), t));
    }
    assert forall|j: int| 0 <= j < sp.len() implies 0 < #[trigger] pair_subject(subjects, sp, j) <= u64::MAX && exists|k: int| 0 <= k < spo.len() && #[trigger] spo.left(k) == j by {
        block_of(spo, j);
        let k = choose|k: int| 0 <= k < spo.len() && #[trigger] spo.left(k) == j;
        assert(subj_at(subjects, sp.left(spo.left(k))) <= u64::MAX);
    }
    assert forall|i: int, j: int| 0 <= i < j < sp.len() implies #[trigger] pair_subject(subjects, sp, i) <= #[trigger] pair_subject(subjects, sp, j) && (sp.nums()[i] == sp.nums()[j] ==> pair_subject(subjects, sp, i) < pair_subject(subjects, sp, j)) by {
        left_bound(sp, i); left_bound(sp, j);
        assert(sp.left(i) <= sp.left(j));
        if sp.left(i) < sp.left(j) { match subjects { Some(s) => { assert(s@[sp.left(i)] < s@[sp.left(j)]); }, None => {} } }
    }
}
pub proof fn triple_of_pair(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, j: int) -> (t: IdTriple)
    requires index_wf(subjects, sp, spo), 0 <= j < sp.len(), sp.nums()[j] != 0
    ensures rest(subjects, sp, spo, 0).contains(t), t.predicate == sp.nums()[j], t.subject == pair_subject(subjects, sp, j)
{
    rest_members(subjects, sp, spo, 0); positions_ascend(subjects, sp, spo);
    block_of(spo, j);
    let k = choose|k: int| 0 <= k < spo.len() && #[trigger] spo.left(k) == j;
    assert(subj_at(subjects, sp.left(spo.left(k))) <= u64::MAX);
    trip(subjects, sp, spo, k)
}
/// every left hand side has a position
pub proof fn block_of(a: AdjacencyList, j: int)
    requires a.wf(), 0 <= j < a.lefts()
    ensures exists|k: int| 0 <= k < a.len() && #[trigger] a.left(k) == j
{ block_within(a, j, a.len() as int); }
pub proof fn block_within(a: AdjacencyList, j: int, n: int)
    requires 0 <= n <= a.len(), 0 <= j < rank1(a.bits(), n)
    ensures exists|k: int| 0 <= k < n && #[trigger] a.left(k) == j
    decreases n
{
    if j < rank1(a.bits(), n - 1) { block_within(a, j, n - 1); let k = choose|k: int| 0 <= k < n - 1 && #[trigger] a.left(k) == j; }
    else { assert(a.left(n - 1) == j); }
}
impl InternalLayerTripleSubjectIterator {
    /// what has not been left behind is what is ahead of the head
    pub proof fn ahead(&self)
        requires self.wf(), self@.len() > 0
        ensures strict(self@), strict(self.all()), forall|t: IdTriple| #[trigger] self.all().contains(t) && !tlt(t, self@[0]) ==> self@.contains(t), forall|t: IdTriple| #[trigger] self@.contains(t) ==> self.all().contains(t)
    {
        let (sub, sp, spo) = (self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list);
        rest_members(sub, sp, spo, 0); rest_members(sub, sp, spo, self.pos()); positions_ascend(sub, sp, spo);
        let h = self@[0]; assert(self@.contains(h));
        let m = choose|i: int| self.pos() <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(sub, sp, spo, i) == h;
        assert forall|t: IdTriple| #[trigger] self.all().contains(t) && !tlt(t, h) implies self@.contains(t) by {
            let i = choose|i: int| 0 <= i < spo.len() && spo.nums()[i] != 0 && #[trigger] trip(sub, sp, spo, i) == t;
            if i < self.pos() { assert(tlt(trip(sub, sp, spo, i), trip(sub, sp, spo, m))); }
        }
    }
    pub proof fn strict_views(&self) requires self.wf() ensures strict(self@), strict(self.all()), forall|t: IdTriple| #[trigger] self@.contains(t) ==> self.all().contains(t)
    { rest_members(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, self.pos()); rest_members(self.subjects, self.s_p_adjacency_list, self.sp_o_adjacency_list, 0); }
}
@@item layer/internal/predicate_iterator.rs :: struct InternalLayerTriplePredicateIterator
@flag pub
@@end
impl InternalLayerTriplePredicateIterator {
    pub open spec fn q(&self) -> u64 { self.predicate_wavelet_lookup.what() }
    pub open spec fn places(&self) -> Seq<u64> { self.predicate_wavelet_lookup.positions() }
    pub open spec fn psubj(&self, i: int) -> int { pair_subject(self.subject_iterator.subjects, self.subject_iterator.s_p_adjacency_list, self.places()[i] as int) }
    /// all triples of the predicate
    pub open spec fn all(&self) -> Seq<IdTriple> { pick(self.subject_iterator.all(), self.q(), 0) }
    pub open spec fn onward(&self) -> Seq<IdTriple> {
        if self.sp_boundary { if self.predicate_pos < self.len { pick(self.subject_iterator.all(), self.q(), self.psubj(self.predicate_pos as int)) } else { Seq::empty() } }
        else { pick(self.subject_iterator@, self.q(), 0) }
    }
    /// what is still to come
    pub open spec fn view(&self) -> Seq<IdTriple> { match self.peeked { Some(t) => seq![t] + self.onward(), None => self.onward() } }
    pub open spec fn core(&self) -> bool {
        &&& self.subject_iterator.wf() && self.predicate_wavelet_lookup.wf() && self.q() != 0
        &&& self.predicate_wavelet_lookup.of() == self.subject_iterator.s_p_adjacency_list.nums()
        &&& self.len == self.places().len() && self.predicate_pos <= self.len
    }
    pub open spec fn on_pair(&self) -> bool {
        1 <= self.predicate_pos && self.subject_iterator@.len() > 0 && self.subject_iterator@[0].predicate == self.q() && self.subject_iterator@[0].subject == self.psubj(self.predicate_pos - 1)
    }
    pub open spec fn wf(&self) -> bool { self.core() && (!self.sp_boundary ==> self.on_pair()) && strict(self@) }
    pub open spec fn same(&self, o: &Self) -> bool { self.predicate_wavelet_lookup == o.predicate_wavelet_lookup && self.len == o.len && self.subject_iterator.same_index(&o.subject_iterator) }
    pub proof fn all_facts(&self)
        requires self.core()
        ensures strict(self.all()), forall|t: IdTriple| #[trigger] self.all().contains(t) <==> self.subject_iterator.all().contains(t) && t.predicate == self.q()
    { self.subject_iterator.strict_views(); pick_facts(self.subject_iterator.all(), self.q(), 0); }
    /// at the start: everything
    pub proof fn starts(&self)
        requires self.core(), self.sp_boundary, self.predicate_pos == 0
        ensures self.onward() == self.all(), strict(self.onward())
    {
        let it = self.subject_iterator; let all = it.all();
        it.strict_views(); pairs_of(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list);
        pick_facts(all, self.q(), 0); 
        if self.len > 0 { pick_facts(all, self.q(), self.psubj(0)); }
        assert forall|t: IdTriple| #[trigger] self.all().contains(t) <==> self.onward().contains(t) by {
            if self.all().contains(t) { self.place_of(t); }
        }
        strict_eq(self.all(), self.onward());
    }
    /// a triple of the predicate is in one of the places
    pub proof fn place_of(&self, t: IdTriple)
        requires self.core(), self.subject_iterator.all().contains(t), t.predicate == self.q()
        ensures exists|i: int| 0 <= i < self.places().len() && #[trigger] self.psubj(i) == t.subject, self.len > 0, self.psubj(0) <= t.subject
    {
        let it = self.subject_iterator;
        pairs_of(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list);
        let j = choose|j: int| #[trigger] of_pair(it.subjects, it.s_p_adjacency_list, j, t);
        let i = choose|i: int| 0 <= i < self.places().len() && self.places()[i] == j;
        assert(self.psubj(i) == t.subject);
        assert(pair_subject(it.subjects, it.s_p_adjacency_list, self.places()[0] as int) <= pair_subject(it.subjects, it.s_p_adjacency_list, self.places()[i] as int));
    }
    /// subjects of the places ascend strictly
    pub proof fn places_ascend(&self)
        requires self.core()
        ensures forall|i: int, j: int| 0 <= i < j < self.places().len() ==> #[trigger] self.psubj(i) < #[trigger] self.psubj(j), forall|i: int| 0 <= i < self.places().len() ==> 0 < #[trigger] self.psubj(i) <= u64::MAX
    {
        let it = self.subject_iterator;
        pairs_of(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list);
        assert forall|i: int, j: int| 0 <= i < j < self.places().len() implies #[trigger] self.psubj(i) < #[trigger] self.psubj(j) by {
            assert(self.places()[i] < self.places()[j]);
            assert(pair_subject(it.subjects, it.s_p_adjacency_list, self.places()[i] as int) < pair_subject(it.subjects, it.s_p_adjacency_list, self.places()[j] as int));
        }
        assert forall|i: int| 0 <= i < self.places().len() implies 0 < #[trigger] self.psubj(i) <= u64::MAX by { assert(pair_subject(it.subjects, it.s_p_adjacency_list, self.places()[i] as int) > 0); }
    }
    /// arriving at a pair: its first triple is next
    pub proof fn arrive(&self, o: &Self)
        requires self.core(), o.core(), o.sp_boundary, self.same(o), o.predicate_pos < o.len, self.predicate_pos == o.predicate_pos + 1, self.subject_iterator.sought(o.psubj(o.predicate_pos as int) as u64, o.q()),
        ensures self.on_pair(), pick(self.subject_iterator@, self.q(), 0) == o.onward(), strict(o.onward())
    {
        let it = self.subject_iterator; let q = self.q(); let i = o.predicate_pos as int; let f = self.psubj(i);
        assert(f == o.psubj(i));
        pairs_of(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list);
        it.strict_views(); self.places_ascend();
        assert(self.places()[i] < self.predicate_wavelet_lookup.of().len());
        let j = self.places()[i] as int;
        assert(pair_subject(it.subjects, it.s_p_adjacency_list, j) == f);
        let t = triple_of_pair(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list, j);
        assert(it@.contains(t));
        let h = it@[0]; assert(it@.contains(h));
        if t != h { strict_tail(it@); assert(it@.drop_first().contains(t)); assert(tlt(h, t)); }
        pick_facts(it@, q, 0); pick_facts(it.all(), q, f);
        assert forall|u: IdTriple| #[trigger] pick(it@, q, 0).contains(u) <==> pick(it.all(), q, f).contains(u) by { }
        strict_eq(pick(it@, q, 0), pick(it.all(), q, f));
        assert(self.subject_iterator.all() == o.subject_iterator.all());
    }
    /// taking the head of a pair; if the next triple is of another pair, what is left starts at the next place
    pub proof fn depart(&self, o: &Self, r: IdTriple)
        requires o.core(), o.on_pair(), self.core(), self.same(o), self.predicate_pos == o.predicate_pos, r == o.subject_iterator@[0], self.subject_iterator@ == o.subject_iterator@.drop_first(),
            self.sp_boundary == (self.subject_iterator@.len() == 0 || self.subject_iterator@[0].subject != r.subject || self.subject_iterator@[0].predicate != r.predicate),
        ensures ({ let v = pick(o.subject_iterator@, o.q(), 0); v.len() > 0 && v[0] == r && self.onward() == v.drop_first() && strict(v) }), !self.sp_boundary ==> self.on_pair(), strict(self.onward()),
    {
        let it = self.subject_iterator; let ot = o.subject_iterator; let q = self.q(); let all = it.all();
        assert(all == ot.all());
        let v = pick(ot@, q, 0); let v2 = pick(it@, q, 0);
        assert(ot@ =~= seq![r] + it@);
        ot.ahead(); strict_tail(ot@); it.strict_views();
        pick_facts(ot@, q, 0); pick_facts(it@, q, 0); cons_members(r, v2);
        assert(v == seq![r] + v2);
        if self.sp_boundary {
            self.places_ascend();
            let c = self.predicate_pos as int;
            assert(r.subject == self.psubj(c - 1)) by { assert(o.psubj(c - 1) == self.psubj(c - 1)); }
            // whatever is left of the predicate has a larger subject
            assert forall|t: IdTriple| #[trigger] it@.contains(t) && t.predicate == q implies t.subject > r.subject by {
                assert(tlt(r, t));
                let h = it@[0]; assert(it@.contains(h)); assert(tlt(r, h));
                if t != h { strict_tail(it@); assert(it@.drop_first().contains(t)); assert(tlt(h, t)); }
            }
            if c < self.len {
                pick_facts(all, q, self.psubj(c));
                assert(self.psubj(c - 1) < self.psubj(c));
                let w = pick(all, q, self.psubj(c));
                assert forall|t: IdTriple| #[trigger] v2.contains(t) <==> w.contains(t) by {
                    if v2.contains(t) { assert(it@.contains(t)); assert(all.contains(t)); self.place_of(t); let i = choose|i: int| 0 <= i < self.places().len() && #[trigger] self.psubj(i) == t.subject; if i < c { if i < c - 1 { assert(self.psubj(i) < self.psubj(c - 1)); } } else if i > c { assert(self.psubj(c) < self.psubj(i)); } }
                    if w.contains(t) { assert(all.contains(t)); assert(tlt(r, t)); assert(ot@.contains(t)); assert(t != r); }
                }
                strict_eq(v2, w);
            } else {
                assert forall|t: IdTriple| !#[trigger] v2.contains(t) by {
                    if v2.contains(t) { assert(it@.contains(t)); assert(all.contains(t)); self.place_of(t); let i = choose|i: int| 0 <= i < self.places().len() && #[trigger] self.psubj(i) == t.subject; if i < c - 1 { assert(self.psubj(i) < self.psubj(c - 1)); } }
                }
                if v2.len() > 0 { assert(v2.contains(v2[0])); }
                assert(v2 =~= Seq::empty());
            }
        } else {
            assert(self.psubj(self.predicate_pos - 1) == o.psubj(o.predicate_pos - 1));
        }
    }
@@fn layer/internal/predicate_iterator.rs :: impl InternalLayerTriplePredicateIterator :: new
@ret r
@props A01 A02 A04
@spec
    requires index_wf(subjects, s_p_adjacency_list, sp_o_adjacency_list), predicate_wavelet_lookup.wf(), predicate_wavelet_lookup.of() == s_p_adjacency_list.nums(), predicate_wavelet_lookup.what() != 0,
    ensures r.wf(), r@ == r.all(), r.all() == pick(rest(subjects, s_p_adjacency_list, sp_o_adjacency_list, 0), predicate_wavelet_lookup.what(), 0),
@at tail
proof { let it = InternalLayerTriplePredicateIterator { len, predicate_wavelet_lookup, subject_iterator, predicate_pos: 0, sp_boundary: true, peeked: None }; it.starts(); }
@@end
@@fn layer/internal/predicate_iterator.rs :: impl InternalLayerTriplePredicateIterator :: next_pos
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(), old(self).sp_boundary, old(self).peeked.is_none(),
    ensures final(self).core(), final(self).same(old(self)), final(self).peeked == old(self).peeked,
        !r ==> *final(self) == *old(self) && old(self)@.len() == 0,
        r ==> final(self).on_pair() && pick(final(self).subject_iterator@, final(self).q(), 0) == old(self)@ && strict(old(self)@),
@at start
proof { let it = self.subject_iterator; pairs_of(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list); index_facts(it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list); }
@at tail
proof { if old(self).predicate_pos < old(self).len {
    let it = self.subject_iterator; let i = old(self).predicate_pos as int; let j = self.places()[i] as int;
    sought_pair(it, j);
    self.arrive(old(self)); } }
@@end
@@fn layer/internal/predicate_iterator.rs :: impl Iterator for InternalLayerTriplePredicateIterator :: next
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), final(self).all() == old(self).all(), final(self).peeked.is_none(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first() }
@at return#0
proof { cons_members(peeked.unwrap(), old(self).onward()); strict_tail(old(self)@); }
@at call next
let ghost mid = *self;
proof { if !old(self).sp_boundary { self.subject_iterator.strict_views(); pick_facts(self.subject_iterator@, self.q(), 0); } }
@at tail
proof { self.depart(&mid, result.unwrap()); strict_tail(old(self)@); }
@@end
@@fn layer/internal/predicate_iterator.rs :: impl InternalLayerTriplePredicateIterator :: peek
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), final(self).all() == old(self).all(), final(self)@ == old(self)@,
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && *t == old(self)@[0] }
@@end
}
/// seeking a pair by its number is seeking its subject and predicate
pub proof fn sought_pair(it: InternalLayerTripleSubjectIterator, j: int)
    requires it.wf(), it.peeked.is_none(), 0 <= j < it.s_p_adjacency_list.len(), it.s_p_position == j, it.sp_o_adjacency_list.left(it.sp_o_position as int) == j, it.sp_o_position > 0 ==> it.sp_o_adjacency_list.bits()[it.sp_o_position - 1],
        it.s_p_adjacency_list.nums()[j] != 0,
    ensures it.sought(pair_subject(it.subjects, it.s_p_adjacency_list, j) as u64, it.s_p_adjacency_list.nums()[j])
{
    let (sub, sp, spo) = (it.subjects, it.s_p_adjacency_list, it.sp_o_adjacency_list);
    index_facts(sub, sp, spo); pairs_of(sub, sp, spo); positions_ascend(sub, sp, spo);
    let s = pair_subject(sub, sp, j) as u64; let p = sp.nums()[j];
    assert(pair_subject(sub, sp, j) > 0);
    assert(it.sp_o_position < spo.len());
    assert forall|i: int| 0 <= i < j implies subj_at(sub, #[trigger] sp.left(i)) < s || (subj_at(sub, sp.left(i)) == s && sp.nums()[i] < p) by { let a = pair_subject(sub, sp, i); assert(a <= pair_subject(sub, sp, j)); if a == s { left_bound(sp, i); left_bound(sp, j); same_left(sub, sp, spo, i, j); } }
    assert forall|i: int| j <= i < sp.len() implies subj_at(sub, #[trigger] sp.left(i)) > s || (subj_at(sub, sp.left(i)) == s && sp.nums()[i] >= p) by { let a = pair_subject(sub, sp, i); if i > j { assert(a >= pair_subject(sub, sp, j)); if a == s { same_left(sub, sp, spo, j, i); } } }
    sought_sp_hint(it, s, p);
}
pub proof fn same_left(sub: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, i: int, j: int)
    requires index_wf(sub, sp, spo), 0 <= i < j < sp.len(), pair_subject(sub, sp, i) == pair_subject(sub, sp, j)
    ensures sp.left(i) == sp.left(j)
{ mono_holds(sp.bits()); left_bound(sp, i); left_bound(sp, j); match sub { Some(s) => { if sp.left(i) < sp.left(j) { assert(s@[sp.left(i)] < s@[sp.left(j)]); } }, None => {} } }
// ==== the stack
@@item layer/internal/predicate_iterator.rs :: struct OptInternalLayerTriplePredicateIterator
@flag pub
@@end
impl OptInternalLayerTriplePredicateIterator {
    pub open spec fn wf(&self) -> bool { match self.0 { Some(i) => i.wf(), None => true } }
    pub open spec fn view(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i@, None => Seq::empty() } }
    pub open spec fn all(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i.all(), None => Seq::empty() } }
    pub proof fn strict_view(&self) requires self.wf() ensures strict(self@), strict(self.all())
    { match self.0 { Some(i) => { i.all_facts(); }, None => {} } }
@@fn layer/internal/predicate_iterator.rs :: impl OptInternalLayerTriplePredicateIterator :: peek
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).all() == old(self).all(),
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && *t == old(self)@[0] },
@@end
@@fn layer/internal/predicate_iterator.rs :: impl Iterator for OptInternalLayerTriplePredicateIterator :: next
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).all() == old(self).all(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first() },
@@end
}
pub proof fn none_of(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, q: u64)
    requires index_wf(subjects, sp, spo)
    ensures (forall|i: int| 0 <= i < sp.len() ==> sp.nums()[i] != q) ==> forall|t: IdTriple| #[trigger] rest(subjects, sp, spo, 0).contains(t) ==> t.predicate != q
{ pairs_of(subjects, sp, spo);
  assert forall|t: IdTriple| (forall|i: int| 0 <= i < sp.len() ==> sp.nums()[i] != q) && #[trigger] rest(subjects, sp, spo, 0).contains(t) implies t.predicate != q by { let j = choose|j: int| #[trigger] of_pair(subjects, sp, j, t); } }
