/// a triple as it is ordered here: (object, subject, predicate)
pub open spec fn byo(t: IdTriple) -> IdTriple { tr(t.object, t.subject, t.predicate) }
pub open spec fn unbyo(u: IdTriple) -> IdTriple { tr(u.predicate, u.object, u.subject) }
pub open spec fn ptrip(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, k: int) -> IdTriple {
    let t = otrip(subjects, objects, ops, sp, k); tr(t.2 as u64, t.0 as u64, t.1)
}
/// the triples at positions k and later, up to the end of the object if so desired
pub open spec fn resto(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, stop: bool, k: int) -> Seq<IdTriple> decreases ops.len() - k {
    if k < 0 || k >= ops.len() { Seq::empty() } else {
        let r = if stop && ops.bits()[k] { Seq::empty() } else { resto(subjects, objects, ops, sp, stop, k + 1) };
        if ops.nums()[k] == 0 { r } else { seq![ptrip(subjects, objects, ops, sp, k)] + r }
    }
}
pub open spec fn listed(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, k: int, u: IdTriple) -> bool {
    0 <= k < ops.len() && ops.nums()[k] != 0 && ptrip(subjects, objects, ops, sp, k) == u
}
/// what enumerating needs of the index by object
#[verifier::opaque]
pub open spec fn ordered(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList) -> bool {
    &&& forall|k: int, u: IdTriple| #[trigger] listed(subjects, objects, ops, sp, k, u) ==> u.subject != 0 && u.predicate != 0 && u.object != 0
    &&& forall|i: int, j: int, u: IdTriple, v: IdTriple| #[trigger] listed(subjects, objects, ops, sp, i, u) && #[trigger] listed(subjects, objects, ops, sp, j, v) && i < j ==> tlt(u, v)
}
#[verifier::opaque]
pub open spec fn tables(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList) -> bool {
    &&& ops.wf() && sp.wf()
    &&& match objects { Some(o) => o.wf() && o@.len() == ops.lefts(), None => true }
    &&& match subjects { Some(o) => o.wf() && o@.len() == sp.lefts(), None => true }
    &&& forall|k: int| 0 <= k < ops.len() ==> #[trigger] ops.nums()[k] <= sp.len()
    &&& forall|k: int, u: IdTriple| #[trigger] listed(subjects, objects, ops, sp, k, u) ==> otrip(subjects, objects, ops, sp, k).0 <= u64::MAX && otrip(subjects, objects, ops, sp, k).2 <= u64::MAX
}
pub proof fn wf_ordered(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo), objects_wf(subjects, objects, ops, sp, spo)
    ensures tables(subjects, objects, ops, sp), ordered(subjects, objects, ops, sp),
        forall|t: IdTriple| (exists|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t))) <==> #[trigger] in_index(subjects, sp, spo, t.subject, t.predicate, t.object)
{
    reveal(objects_wf); reveal(ordered); reveal(tables);
    mono_holds(ops.bits()); mono_holds(sp.bits());
    assert forall|k: int, u: IdTriple| #[trigger] listed(subjects, objects, ops, sp, k, u) implies obj_in(subjects, objects, ops, sp, spo, k) && u.subject != 0 && u.predicate != 0 && u.object != 0 && otrip(subjects, objects, ops, sp, k).0 <= u64::MAX && otrip(subjects, objects, ops, sp, k).2 <= u64::MAX
        && u == tr(otrip(subjects, objects, ops, sp, k).2 as u64, otrip(subjects, objects, ops, sp, k).0 as u64, otrip(subjects, objects, ops, sp, k).1) by { assert(ops.nums()[k] != 0); }
    assert forall|i: int, j: int, u: IdTriple, v: IdTriple| #[trigger] listed(subjects, objects, ops, sp, i, u) && #[trigger] listed(subjects, objects, ops, sp, j, v) && i < j implies tlt(u, v) by {
        left_bound(ops, i); left_bound(ops, j);
        assert(ops.left(i) <= ops.left(j));
        if ops.left(i) < ops.left(j) { match objects { Some(o) => { assert(o@[ops.left(i)] < o@[ops.left(j)]); }, None => {} } }
        else {
            let a = ops.nums()[i] - 1; let b = ops.nums()[j] - 1;
            assert(0 <= a < b < sp.len());
            left_bound(sp, a); left_bound(sp, b);
            assert(sp.left(a) <= sp.left(b));
            if sp.left(a) < sp.left(b) { match subjects { Some(o) => { assert(o@[sp.left(a)] < o@[sp.left(b)]); }, None => {} } } else { assert(sp.nums()[a] < sp.nums()[b]); }
        }
    }
    assert forall|t: IdTriple| (exists|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t))) <==> #[trigger] in_index(subjects, sp, spo, t.subject, t.predicate, t.object) by {
        if exists|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t)) {
            let k = choose|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t));
            assert(obj_in(subjects, objects, ops, sp, spo, k));
        }
        if in_index(subjects, sp, spo, t.subject, t.predicate, t.object) {
            let k = choose|k: int| 0 <= k < ops.len() && ops.nums()[k] != 0 && #[trigger] otrip(subjects, objects, ops, sp, k) == (t.subject as int, t.predicate, t.object as int);
            assert(listed(subjects, objects, ops, sp, k, byo(t)));
        }
    }
}
pub proof fn consed(h: IdTriple, r: Seq<IdTriple>)
    ensures forall|t: IdTriple| #[trigger] (seq![h] + r).contains(t) <==> t == h || r.contains(t), (seq![h] + r).drop_first() == r, (seq![h] + r)[0] == h,
        strict(r) && (forall|t: IdTriple| #[trigger] r.contains(t) ==> tlt(h, t)) && h.subject != 0 && h.predicate != 0 && h.object != 0 ==> strict(seq![h] + r)
{
    let s = seq![h] + r;
    assert(s.drop_first() =~= r);
    assert forall|t: IdTriple| #[trigger] s.contains(t) <==> t == h || r.contains(t) by {
        if s.contains(t) { let i = choose|i: int| 0 <= i < s.len() && s[i] == t; if i > 0 { assert(r[i - 1] == t); } }
        if t == h { assert(s[0] == t); }
        if r.contains(t) { let i = choose|i: int| 0 <= i < r.len() && r[i] == t; assert(s[i + 1] == t); }
    }
    if strict(r) && (forall|t: IdTriple| #[trigger] r.contains(t) ==> tlt(h, t)) && h.subject != 0 && h.predicate != 0 && h.object != 0 {
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies tlt(s[i], s[j]) by { assert(s[j] == r[j - 1]); assert(r.contains(r[j - 1])); if i > 0 { assert(tlt(r[i - 1], r[j - 1])); } }
        assert forall|i: int| 0 <= i < s.len() implies s[i].subject != 0 && s[i].predicate != 0 && s[i].object != 0 by { if i > 0 { assert(s[i] == r[i - 1]); } }
    }
}
pub proof fn resto_members(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, stop: bool, k: int)
    requires ordered(subjects, objects, ops, sp), 0 <= k <= ops.len()
    ensures strict(resto(subjects, objects, ops, sp, stop, k)),
        forall|u: IdTriple| #[trigger] resto(subjects, objects, ops, sp, stop, k).contains(u) <==> exists|i: int| k <= i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u)
    decreases ops.len() - k
{
    let r = resto(subjects, objects, ops, sp, stop, k);
    rank1_facts(ops.bits());
    if k < ops.len() {
        let q = if stop && ops.bits()[k] { Seq::empty() } else { resto(subjects, objects, ops, sp, stop, k + 1) };
        resto_members(subjects, objects, ops, sp, stop, k + 1);
        let h = ptrip(subjects, objects, ops, sp, k);
        consed(h, q);
        assert forall|u: IdTriple| #[trigger] q.contains(u) implies exists|i: int| k < i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u) by { }
        assert forall|i: int, u: IdTriple| k < i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u) implies q.contains(u) by {
            if stop { assert(ops.left(k) <= ops.left(k + 1) <= ops.left(i)); }
        }
        if ops.nums()[k] != 0 {
            assert(listed(subjects, objects, ops, sp, k, h));
            reveal(ordered);
            assert forall|u: IdTriple| #[trigger] q.contains(u) implies tlt(h, u) by { let i = choose|i: int| k < i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u); }
        }
        assert forall|u: IdTriple| #[trigger] r.contains(u) <==> exists|i: int| k <= i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u) by {
            if r.contains(u) { if q.contains(u) { } else { assert(listed(subjects, objects, ops, sp, k, u)); } }
            if exists|i: int| k <= i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u) {
                let i = choose|i: int| k <= i && (stop ==> ops.left(i) == ops.left(k)) && #[trigger] listed(subjects, objects, ops, sp, i, u);
                if i > k { assert(q.contains(u)); }
            }
        }
    }
}
@@item layer/internal/object_iterator.rs :: struct InternalLayerTripleObjectIterator
@flag pub
@@end
impl InternalLayerTripleObjectIterator {
    pub open spec fn from(&self, stop: bool, k: int) -> Seq<IdTriple> { resto(self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list, stop, k) }
    pub open spec fn lists(&self, k: int, u: IdTriple) -> bool { listed(self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list, k, u) }
    pub open spec fn tables(&self) -> bool { tables(self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list) && ordered(self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list) }
    pub open spec fn all(&self) -> Seq<IdTriple> { self.from(false, 0) }
    pub open spec fn wf(&self) -> bool {
        &&& self.tables()
        &&& self.o_ps_position <= self.o_ps_adjacency_list.len()
        &&& self.o_ps_position < self.o_ps_adjacency_list.len() ==> self.o_position == self.o_ps_adjacency_list.left(self.o_ps_position as int)
        &&& self.peeked matches Some(t) ==> self.o_ps_position > 0 && self.lists(self.o_ps_position - 1, byo(t))
    }
    pub open spec fn onward(&self) -> Seq<IdTriple> { if self.stop_at_boundary && self.hit_boundary { Seq::empty() } else { self.from(self.stop_at_boundary, self.o_ps_position as int) } }
    /// what is still to come
    pub open spec fn view(&self) -> Seq<IdTriple> { match self.peeked { Some(t) => seq![byo(t)] + self.onward(), None => self.onward() } }
    pub open spec fn same(&self, o: &Self) -> bool { self.subjects == o.subjects && self.objects == o.objects && self.o_ps_adjacency_list == o.o_ps_adjacency_list && self.s_p_adjacency_list == o.s_p_adjacency_list && self.stop_at_boundary == o.stop_at_boundary }
    pub open spec fn object_of(&self, k: int) -> int { subj_at(self.objects, self.o_ps_adjacency_list.left(k)) }
    /// positioned at the first entry for an object not below `object`
    pub open spec fn at_object(&self, object: u64) -> bool {
        &&& self.peeked.is_none() && !self.hit_boundary
        &&& forall|k: int| 0 <= k < self.o_ps_position ==> #[trigger] self.object_of(k) < object
        &&& forall|k: int| self.o_ps_position <= k < self.o_ps_adjacency_list.len() ==> #[trigger] self.object_of(k) >= object
    }
    pub proof fn strict_views(&self)
        requires self.wf()
        ensures strict(self@), strict(self.all()), forall|u: IdTriple| #[trigger] self@.contains(u) ==> self.all().contains(u)
    {
        let (sub, obj, ops, sp) = (self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list);
        resto_members(sub, obj, ops, sp, false, 0); resto_members(sub, obj, ops, sp, self.stop_at_boundary, self.o_ps_position as int);
        reveal(ordered); reveal(tables);
        match self.peeked { Some(t) => { consed(byo(t), self.onward());
            assert(self.lists(self.o_ps_position - 1, byo(t)));
            assert forall|u: IdTriple| #[trigger] self.onward().contains(u) implies tlt(byo(t), u) by { let i = choose|i: int| self.o_ps_position <= i && (self.stop_at_boundary ==> ops.left(i) == ops.left(self.o_ps_position as int)) && #[trigger] listed(sub, obj, ops, sp, i, u); }
        }, None => {} }
    }
    /// what follows a position sought for
    pub proof fn sought(&self, object: u64)
        requires self.wf(), self.at_object(object)
        ensures !self.stop_at_boundary ==> forall|u: IdTriple| #[trigger] self@.contains(u) <==> self.all().contains(u) && u.subject >= object,
            forall|u: IdTriple| #[trigger] self@.contains(u) && u.subject == object <==> self.all().contains(u) && u.subject == object,
            forall|u: IdTriple| #[trigger] self@.contains(u) ==> u.subject >= object,
    {
        let (sub, obj, ops, sp) = (self.subjects, self.objects, self.o_ps_adjacency_list, self.s_p_adjacency_list);
        let p = self.o_ps_position as int;
        resto_members(sub, obj, ops, sp, false, 0); resto_members(sub, obj, ops, sp, self.stop_at_boundary, p);
        reveal(tables); mono_holds(ops.bits());
        assert forall|k: int, u: IdTriple| #[trigger] self.lists(k, u) implies u.subject == self.object_of(k) by { assert(listed(sub, obj, ops, sp, k, u)); left_bound(ops, k); }
        assert forall|u: IdTriple| self.all().contains(u) && u.subject >= object implies exists|i: int| p <= i && #[trigger] self.lists(i, u) by {
            let i = choose|i: int| 0 <= i && #[trigger] listed(sub, obj, ops, sp, i, u); assert(self.lists(i, u)); if i < p { assert(self.object_of(i) < object); }
        }
        assert forall|u: IdTriple| #[trigger] self@.contains(u) implies self.all().contains(u) && u.subject >= object by {
            let i = choose|i: int| p <= i && (self.stop_at_boundary ==> ops.left(i) == ops.left(p)) && #[trigger] listed(sub, obj, ops, sp, i, u);
            assert(self.lists(i, u)); assert(self.object_of(i) >= object);
        }
        assert forall|u: IdTriple| self.all().contains(u) && u.subject == object implies #[trigger] self@.contains(u) by {
            let i = choose|i: int| p <= i && #[trigger] self.lists(i, u);
            assert(self.object_of(i) == object); assert(self.object_of(p) >= object);
            left_bound(ops, i); left_bound(ops, p);
            assert(ops.left(p) <= ops.left(i));
            match obj { Some(o) => { if ops.left(p) < ops.left(i) { assert(o@[ops.left(p)] < o@[ops.left(i)]); } }, None => {} }
        }
        if !self.stop_at_boundary { assert forall|u: IdTriple| self.all().contains(u) && u.subject >= object implies #[trigger] self@.contains(u) by { let i = choose|i: int| p <= i && #[trigger] self.lists(i, u); } }
    }
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: new
@ret r
@props A01 A02 A04
@spec
    requires tables(subjects, objects, o_ps_adjacency_list, s_p_adjacency_list), ordered(subjects, objects, o_ps_adjacency_list, s_p_adjacency_list),
    ensures r.wf(), !stop_at_boundary ==> r@ == r.all(), r.stop_at_boundary == stop_at_boundary, r.all() == resto(subjects, objects, o_ps_adjacency_list, s_p_adjacency_list, false, 0),
        r.subjects == subjects, r.objects == objects, r.o_ps_adjacency_list == o_ps_adjacency_list, r.s_p_adjacency_list == s_p_adjacency_list,
@at start
proof { assert(rank1(o_ps_adjacency_list.bits(), 0) == 0); }
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: seek_object_ref
@props A01 A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), final(self).at_object(object),
@at start
proof { reveal(tables); mono_holds(self.o_ps_adjacency_list.bits()); assert(rank1(self.o_ps_adjacency_list.bits(), 0) == 0);
    assert forall|k: int| 0 <= k < self.o_ps_adjacency_list.len() implies 0 <= #[trigger] self.o_ps_adjacency_list.left(k) < self.o_ps_adjacency_list.lefts() by { left_bound(self.o_ps_adjacency_list, k); }
    assert forall|k: int| 0 <= k < self.o_ps_adjacency_list.len() implies 0 <= #[trigger] self.object_of(k) by { left_bound(self.o_ps_adjacency_list, k); } }
@at end
proof {
    let ops = self.o_ps_adjacency_list;
    if object != 0 {
        assert forall|k: int| 0 <= k < self.o_ps_position implies #[trigger] self.object_of(k) < object by { let a = ops.left(k); if self.o_ps_position < ops.len() { assert(a < ops.left(self.o_ps_position as int)); } }
        assert forall|k: int| self.o_ps_position <= k < ops.len() implies #[trigger] self.object_of(k) >= object by { let a = ops.left(k); assert(ops.left(self.o_ps_position as int) <= a); }
    }
}
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: seek_object
@ret r
@props A01 A02
@spec
    requires self.wf(),
    ensures r.wf(), r.same(&self), r.at_object(object),
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: stop_at_boundary
@ret r
@props A01 A04
@spec
    requires self.wf(),
    ensures r == (InternalLayerTripleObjectIterator { stop_at_boundary: stop, ..self }),
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: stop_at_boundary_ref
@props A01 A04
@spec
    requires old(self).wf(),
    ensures *final(self) == (InternalLayerTripleObjectIterator { stop_at_boundary: stop, ..*old(self) }),
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: continue_from_boundary
@props A02
@spec
    requires old(self).wf(),
    ensures final(self).wf(), *final(self) == (InternalLayerTripleObjectIterator { hit_boundary: false, ..*old(self) }),
@@end
@@fn layer/internal/object_iterator.rs :: impl Iterator for InternalLayerTripleObjectIterator :: next
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), final(self).all() == old(self).all(), final(self).peeked.is_none(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && byo(t) == old(self)@[0] && final(self)@ == old(self)@.drop_first() && final(self).o_ps_position > 0 && final(self).lists(final(self).o_ps_position - 1, byo(t)) }
@at return#0
proof { consed(byo(peeked.unwrap()), old(self).onward()); }
@loop 0
invariant
    self.wf(), self.same(old(self)), self.peeked.is_none(), old(self).peeked.is_none(),
    old(self)@ == self@,
decreases self.o_ps_adjacency_list.len() - self.o_ps_position
@at loopstart 0
let ghost k0 = self.o_ps_position as int; let ghost b0 = self.onward();
proof { reveal(tables); let ops = self.o_ps_adjacency_list; rank1_facts(ops.bits());
    if k0 < ops.len() { left_bound(ops, k0); if ops.nums()[k0] != 0 { let u = ptrip(self.subjects, self.objects, ops, self.s_p_adjacency_list, k0); assert(self.lists(k0, u)); left_bound(self.s_p_adjacency_list, ops.nums()[k0] - 1); } 
        consed(ptrip(self.subjects, self.objects, ops, self.s_p_adjacency_list, k0), self.from(self.stop_at_boundary, k0 + 1)); consed(ptrip(self.subjects, self.objects, ops, self.s_p_adjacency_list, k0), Seq::empty()); } }
@@end
@@fn layer/internal/object_iterator.rs :: impl InternalLayerTripleObjectIterator :: peek
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same(old(self)), final(self)@ == old(self)@, final(self).all() == old(self).all(),
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && byo(*t) == old(self)@[0] },
@at set self.peeked
proof { assert(self@ =~= old(self)@); }
@@end
}
@@item layer/internal/object_iterator.rs :: struct OptInternalLayerTripleObjectIterator
@flag pub
@@end
impl OptInternalLayerTripleObjectIterator {
    pub open spec fn wf(&self) -> bool { match self.0 { Some(i) => i.wf(), None => true } }
    pub open spec fn view(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i@, None => Seq::empty() } }
    pub open spec fn all(&self) -> Seq<IdTriple> { match self.0 { Some(i) => i.all(), None => Seq::empty() } }
    pub open spec fn open_end(&self) -> bool { match self.0 { Some(i) => !i.stop_at_boundary, None => true } }
    pub open spec fn at_object(&self, object: u64) -> bool { match self.0 { Some(i) => i.at_object(object), None => true } }
    pub open spec fn same(&self, o: &Self) -> bool { self.0.is_some() == o.0.is_some() && (self.0.is_some() ==> self.0.unwrap().same(&o.0.unwrap())) }
    pub open spec fn with_stop(&self, stop: bool) -> Self { match self.0 { Some(i) => OptInternalLayerTripleObjectIterator(Some(InternalLayerTripleObjectIterator { stop_at_boundary: stop, ..i })), None => *self } }
    pub proof fn strict_view(&self) requires self.wf() ensures strict(self@), strict(self.all())
    { match self.0 { Some(i) => { i.strict_views(); }, None => {} } }
    pub proof fn sought(&self, object: u64)
        requires self.wf(), self.at_object(object)
        ensures self.open_end() ==> forall|u: IdTriple| #[trigger] self@.contains(u) <==> self.all().contains(u) && u.subject >= object,
            forall|u: IdTriple| #[trigger] self@.contains(u) && u.subject == object <==> self.all().contains(u) && u.subject == object,
            forall|u: IdTriple| #[trigger] self@.contains(u) ==> u.subject >= object,
    { match self.0 { Some(i) => { i.sought(object); }, None => {} } }
@@fn layer/internal/object_iterator.rs :: impl OptInternalLayerTripleObjectIterator :: seek_object
@ret r
@props A01 A02
@spec requires self.wf() ensures r.wf(), r.same(&self), r.at_object(object), r.all() == self.all()
@@end
@@fn layer/internal/object_iterator.rs :: impl OptInternalLayerTripleObjectIterator :: seek_object_ref
@props A01 A02
@spec requires old(self).wf() ensures final(self).wf(), final(self).same(old(self)), final(self).at_object(object), final(self).all() == old(self).all()
@@end
@@fn layer/internal/object_iterator.rs :: impl OptInternalLayerTripleObjectIterator :: stop_at_boundary
@ret r
@props A01 A04
@spec requires self.wf() ensures r == self.with_stop(stop)
@@end
@@fn layer/internal/object_iterator.rs :: impl OptInternalLayerTripleObjectIterator :: stop_at_boundary_ref
@props A01 A04
@spec requires old(self).wf() ensures *final(self) == old(self).with_stop(stop)
@@end
@@fn layer/internal/object_iterator.rs :: impl OptInternalLayerTripleObjectIterator :: peek
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self)@ == old(self)@, final(self).all() == old(self).all(), final(self).open_end() == old(self).open_end(),
        match r { None => old(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && byo(*t) == old(self)@[0] },
@@end
@@fn layer/internal/object_iterator.rs :: impl Iterator for OptInternalLayerTripleObjectIterator :: next
@ret r
@props A01 A02 A04
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).all() == old(self).all(), final(self).open_end() == old(self).open_end(),
        match r { None => old(self)@.len() == 0 && final(self)@.len() == 0, Some(t) => old(self)@.len() > 0 && byo(t) == old(self)@[0] && final(self)@ == old(self)@.drop_first() },
@@end
}
pub proof fn index_listed(subjects: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo), objects_wf(subjects, objects, ops, sp, spo)
    ensures tables(subjects, objects, ops, sp), ordered(subjects, objects, ops, sp),
        forall|u: IdTriple| #[trigger] resto(subjects, objects, ops, sp, false, 0).contains(u) <==> in_index(subjects, sp, spo, unbyo(u).subject, unbyo(u).predicate, unbyo(u).object)
{
    wf_ordered(subjects, objects, ops, sp, spo); resto_members(subjects, objects, ops, sp, false, 0);
    assert forall|u: IdTriple| #[trigger] resto(subjects, objects, ops, sp, false, 0).contains(u) <==> in_index(subjects, sp, spo, unbyo(u).subject, unbyo(u).predicate, unbyo(u).object) by {
        let t = unbyo(u); assert(byo(t) == u);
        assert((exists|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t))) <==> in_index(subjects, sp, spo, t.subject, t.predicate, t.object));
        if in_index(subjects, sp, spo, t.subject, t.predicate, t.object) { let k = choose|k: int| #[trigger] listed(subjects, objects, ops, sp, k, byo(t)); assert(0 <= k); }
    }
}
