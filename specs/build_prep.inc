/// what a commit works out before it writes
pub ghost struct Prep { pub b: SimpleLayerBuilder<File>, pub a1: Seq<IdTriple>, pub r1: Seq<IdTriple>, pub a2: Seq<IdTriple>, pub r2: Seq<IdTriple>, pub e: Seq<bool>, pub pe: Seq<bool>, pub ns: Named, pub vs: Named, pub ps: Named, pub m: Seq<u64>, pub pm: Seq<u64> }
impl Prep {
    pub open spec fn p(self) -> Parent { self.b.parent }
    pub open spec fn al(self) -> Seq<IdTriple> { self.a2 + self.r2 }
    pub open spec fn ok(self) -> bool {
        &&& self.b.wf() && asc(self.a1) && asc(self.r1) && same_set(self.b.id_additions@, self.a1) && same_set(self.b.id_removals@, self.r1)
        &&& noop_add(self.a1, self.r1, self.a2) && noop_rem(self.a1, self.r1, off(self.p()), poff(self.p()), self.r2)
        &&& self.e.len() == self.b.node_count + self.b.val_count && marks(self.e, self.al(), self.al().len() as int, off(self.p()))
        &&& self.pe.len() == self.b.pred_count && pmarks(self.pe, self.al(), self.al().len() as int, poff(self.p()))
        &&& gathered(Ids::Nv(self.b.nodes_values_map@), off(self.p()), self.e, true, self.ns) && gathered(Ids::Nv(self.b.nodes_values_map@), off(self.p()), self.e, false, self.vs)
        &&& gathered(Ids::P(self.b.predicates_map@), poff(self.p()), self.pe, true, self.ps)
        &&& given(self.m, self.ns, self.ns.len() as int, off(self.p()), off(self.p())) && given(self.m, self.vs, self.vs.len() as int, off(self.p()), off(self.p()) + self.ns.len())
        &&& given(self.pm, self.ps, self.ps.len() as int, poff(self.p()), poff(self.p()))
    }
    /// what the ids will mean
    pub open spec fn nname(self, id: int) -> Option<Name> { { let k = id - off(self.p()); if k < 1 { pname(self.p(), id) } else if k <= self.ns.len() { Some(self.ns[k - 1].0) } else if k <= self.ns.len() + self.vs.len() { Some(self.vs[k - self.ns.len() - 1].0) } else { None } } }
    pub open spec fn npred(self, id: int) -> Option<Seq<char>> { let k = id - poff(self.p()); if k < 1 { ppred(self.p(), id) } else if k <= self.ps.len() { Some(self.ps[k - 1].0->Node_0) } else { None } }
    pub open spec fn nsays(self, t: IdTriple, s: Name, p: Seq<char>, o: Name) -> bool { self.nname(t.subject as int) == Some(s) && self.npred(t.predicate as int) == Some(p) && self.nname(t.object as int) == Some(o) }
    pub open spec fn ren(self, t: IdTriple) -> IdTriple { renamed(t, self.m, self.pm, off(self.p()), poff(self.p())) }
    pub open spec fn in_use(self, id: int) -> bool { 1 <= id <= self.b.nodes_values_map_count && (id > off(self.p()) ==> self.e[id - off(self.p()) - 1]) }
    pub open spec fn pin_use(self, id: int) -> bool { 1 <= id <= self.b.predicates_map_count && (id > poff(self.p()) ==> self.pe[id - poff(self.p()) - 1]) }
    pub open spec fn t_use(self, t: IdTriple) -> bool { self.in_use(t.subject as int) && self.pin_use(t.predicate as int) && self.in_use(t.object as int) }
    proof fn id_kept(self, id: u64) -> (n: Name)
        requires self.ok(), self.in_use(id as int)
        ensures self.b.named(id as int, n), self.nname(rid(id, self.m, off(self.p())) as int) == Some(n), (id > off(self.p())) == (rid(id, self.m, off(self.p())) > off(self.p())), 1 <= rid(id, self.m, off(self.p())) <= off(self.p()) + self.ns.len() + self.vs.len()
    {
        let base = off(self.p()); let mm = self.b.nodes_values_map@;
        pids_facts(self.p());
        if id > base {
            reveal(nv_ids); reveal(gathered); reveal(given);
            assert(has_nv(mm, id as int)); let n = choose|x: Name| mm.contains_key(x) && #[trigger] mm[x] == id;
            if n is Node { assert(Ids::Nv(mm).has_key(n)); assert(picked((n, mm[n]), base, self.e, true)); assert(self.ns.contains((n, mm[n]))); let i = choose|i: int| 0 <= i < self.ns.len() && self.ns[i] == (n, mm[n]); assert(self.m[self.ns[i].1 - base - 1] == base + i + 1); }
            else { assert(Ids::Nv(mm).has_key(n)); assert(picked((n, mm[n]), base, self.e, false)); assert(self.vs.contains((n, mm[n]))); let i = choose|i: int| 0 <= i < self.vs.len() && self.vs[i] == (n, mm[n]); assert(self.m[self.vs[i].1 - base - 1] == base + self.ns.len() + i + 1); }
            n
        } else {
            if let Some(l) = self.p() { l.ids_are_a_bijection(id as int, id as int); }
            pname(self.p(), id as int)->0
        }
    }
    proof fn pid_kept(self, id: u64) -> (n: Seq<char>)
        requires self.ok(), self.pin_use(id as int)
        ensures self.b.pred_named(id as int, n), self.npred(rid(id, self.pm, poff(self.p())) as int) == Some(n), (id > poff(self.p())) == (rid(id, self.pm, poff(self.p())) > poff(self.p())), 1 <= rid(id, self.pm, poff(self.p())) <= poff(self.p()) + self.ps.len()
    {
        let base = poff(self.p()); let mm = self.b.predicates_map@; let m2 = Ids::P(mm);
        pids_facts(self.p());
        if id > base {
            reveal(p_ids); reveal(gathered); reveal(given);
            assert(has_p(mm, id as int)); let n = choose|x: Seq<char>| mm.contains_key(x) && #[trigger] mm[x] == id;
            let nn = Name::Node(n); assert(m2.has_key(nn) && m2.at(nn) == mm[n]);
            assert(picked((nn, m2.at(nn)), base, self.pe, true)); assert(self.ps.contains((nn, m2.at(nn)))); let i = choose|i: int| 0 <= i < self.ps.len() && self.ps[i] == (nn, m2.at(nn)); assert(self.pm[self.ps[i].1 - base - 1] == base + i + 1);
            n
        } else {
            if let Some(l) = self.p() { l.ids_are_a_bijection(id as int, id as int); }
            ppred(self.p(), id as int)->0
        }
    }
    /// the new names are unknown to the parent
    proof fn names_new(self)
        requires self.ok()
        ensures forall|i: int, id: int| #![trigger self.ns[i], pname(self.p(), id)] 0 <= i < self.ns.len() ==> self.ns[i].0 is Node && pname(self.p(), id) != Some(self.ns[i].0),
            forall|i: int, id: int| #![trigger self.vs[i], pname(self.p(), id)] 0 <= i < self.vs.len() ==> self.vs[i].0 is Value && pname(self.p(), id) != Some(self.vs[i].0),
            forall|i: int, id: int| #![trigger self.ps[i], ppred(self.p(), id)] 0 <= i < self.ps.len() ==> self.ps[i].0 is Node && ppred(self.p(), id) != Some(self.ps[i].0->Node_0),
    { reveal(gathered); reveal(nv_ids); reveal(p_ids); }
    /// the parent knows none of the names that are to be written
    proof fn unknowns(self, l: Arc<InternalLayer>, nodes: Seq<(String, u64)>, vals: Seq<(TypedDictEntry, u64)>, preds: Seq<(String, u64)>)
        requires self.ok(), self.p() == Some(l), self.ns == named_nodes(nodes), self.vs == named_vals(vals), self.ps == named_nodes(preds)
        ensures forall|i: int| 0 <= i < nodes.len() ==> unknown(*l, Name::Node((#[trigger] nodes[i]).0@)), forall|i: int| 0 <= i < vals.len() ==> unknown(*l, Name::Value((#[trigger] vals[i]).0)), forall|i: int| 0 <= i < preds.len() ==> unknown_pred(*l, (#[trigger] preds[i]).0@)
    {
        self.names_new();
        assert forall|i: int| 0 <= i < nodes.len() implies unknown(*l, Name::Node((#[trigger] nodes[i]).0@)) by { assert(self.ns[i].0 == Name::Node(nodes[i].0@)); assert forall|id: int| #[trigger] l.id_name(id) != Some(Name::Node(nodes[i].0@)) by { assert(pname(self.p(), id) == l.id_name(id)); } }
        assert forall|i: int| 0 <= i < vals.len() implies unknown(*l, Name::Value((#[trigger] vals[i]).0)) by { assert(self.vs[i].0 == Name::Value(vals[i].0)); assert forall|id: int| #[trigger] l.id_name(id) != Some(Name::Value(vals[i].0)) by { assert(pname(self.p(), id) == l.id_name(id)); } }
        assert forall|i: int| 0 <= i < preds.len() implies unknown_pred(*l, (#[trigger] preds[i]).0@) by { assert(self.ps[i].0 == Name::Node(preds[i].0@)); assert forall|id: int| #[trigger] l.id_pred(id) != Some(preds[i].0@) by { assert(ppred(self.p(), id) == l.id_pred(id)); } }
    }
    /// an id means one thing, and nothing else means it
    proof fn nname_inj(self, a: int, b: int)
        requires self.ok(), self.nname(a) is Some, self.nname(a) == self.nname(b)
        ensures a == b
    {
        self.names_new(); reveal(gathered);
        let base = off(self.p());
        if a <= base && b <= base { if let Some(l) = self.p() { l.ids_are_a_bijection(a, b); } }
        let n = self.ns.len(); let (i, j) = (a - base - 1, b - base - 1);
        if i >= 0 && j >= 0 && i != j {
            if i < n && j < n { if i < j { assert(self.ns[i].0 != self.ns[j].0); } else { assert(self.ns[j].0 != self.ns[i].0); } }
            else if i >= n && j >= n { let (x, y) = (i - n, j - n); if x < y { assert(self.vs[x].0 != self.vs[y].0); } else { assert(self.vs[y].0 != self.vs[x].0); } }
        }
    }
    proof fn npred_inj(self, a: int, b: int)
        requires self.ok(), self.npred(a) is Some, self.npred(a) == self.npred(b)
        ensures a == b
    {
        self.names_new(); reveal(gathered);
        let base = poff(self.p());
        if a <= base && b <= base { if let Some(l) = self.p() { l.ids_are_a_bijection(a, b); } }
        let (i, j) = (a - base - 1, b - base - 1);
        if i >= 0 && j >= 0 && i != j { if i < j { assert(self.ps[i].0 != self.ps[j].0); } else { assert(self.ps[j].0 != self.ps[i].0); } }
    }
    /// a name has one id
    proof fn named_inj(self, a: int, b: int, n: Name) requires self.ok(), self.b.named(a, n), self.b.named(b, n) ensures a == b
    { reveal(nv_ids); if let Some(l) = self.p() { if a <= off(self.p()) && b <= off(self.p()) { l.ids_are_a_bijection(a, b); } else { if a <= off(self.p()) { assert(pname(self.p(), a) == Some(n)); } if b <= off(self.p()) { assert(pname(self.p(), b) == Some(n)); } } } }
    proof fn pnamed_inj(self, a: int, b: int, n: Seq<char>) requires self.ok(), self.b.pred_named(a, n), self.b.pred_named(b, n) ensures a == b
    { reveal(p_ids); if let Some(l) = self.p() { if a <= poff(self.p()) && b <= poff(self.p()) { l.ids_are_a_bijection(a, b); } else { if a <= poff(self.p()) { assert(ppred(self.p(), a) == Some(n)); } if b <= poff(self.p()) { assert(ppred(self.p(), b) == Some(n)); } } } }
    proof fn says_inj(self, x: IdTriple, y: IdTriple, s: Name, p: Seq<char>, o: Name) requires self.ok(), self.b.says(x, s, p, o), self.b.says(y, s, p, o) ensures x == y
    { self.named_inj(x.subject as int, y.subject as int, s); self.pnamed_inj(x.predicate as int, y.predicate as int, p); self.named_inj(x.object as int, y.object as int, o); }
    /// renaming keeps what a triple says
    proof fn ren_says(self, x: IdTriple, s: Name, p: Seq<char>, o: Name)
        requires self.ok(), self.t_use(x)
        ensures self.b.says(x, s, p, o) == self.nsays(self.ren(x), s, p, o), nonzero(self.ren(x)), within(self.ren(x), off(self.p()) + self.ns.len() + self.vs.len(), poff(self.p()) + self.ps.len()),
            within(x, off(self.p()), poff(self.p())) == within(self.ren(x), off(self.p()), poff(self.p())), within(x, off(self.p()), poff(self.p())) ==> self.ren(x) == x
    {
        let s1 = self.id_kept(x.subject); let p1 = self.pid_kept(x.predicate); let o1 = self.id_kept(x.object);
        if self.b.says(x, s, p, o) { self.b.named_once(x.subject as int, s, s1); self.b.pred_named_once(x.predicate as int, p, p1); self.b.named_once(x.object as int, o, o1); }
    }
    proof fn ren_inj(self, x: IdTriple, y: IdTriple) requires self.ok(), self.t_use(x), self.t_use(y), self.ren(x) == self.ren(y) ensures x == y
    {
        let s = self.id_kept(x.subject); let p = self.pid_kept(x.predicate); let o = self.id_kept(x.object);
        let s2 = self.id_kept(y.subject); let p2 = self.pid_kept(y.predicate); let o2 = self.id_kept(y.object);
        self.says_inj(x, y, s, p, o);
    }
    /// what is left to add and remove is in use
    proof fn left_in_use(self, x: IdTriple)
        requires self.ok(), self.a2.contains(x) || self.r2.contains(x), nonzero(x)
        ensures self.t_use(x), self.a2.contains(x) ==> self.b.id_additions@.contains(x) && !self.b.id_removals@.contains(x),
            self.r2.contains(x) ==> self.b.id_removals@.contains(x) && !self.b.id_additions@.contains(x) && within(x, off(self.p()), poff(self.p()))
    {
        reveal(noop_add); reveal(noop_rem); reveal(all_within); reveal(marks); reveal(pmarks);
        let q = if self.a2.contains(x) { choose|i: int| 0 <= i < self.a2.len() && self.a2[i] == x } else { self.a2.len() + choose|i: int| 0 <= i < self.r2.len() && self.r2[i] == x };
        assert(self.al()[q] == x);
        if self.a2.contains(x) { let i = choose|i: int| 0 <= i < self.a2.len() && self.a2[i] == x; assert(self.a1.contains(self.a1[i])); assert(self.a1[i] == x); assert(self.b.id_additions@.contains(x)); let j = choose|j: int| 0 <= j < self.b.id_additions@.len() && self.b.id_additions@[j] == x; assert(within(self.b.id_additions@[j], self.b.nodes_values_map_count as int, self.b.predicates_map_count as int)); }
        if self.r2.contains(x) { let i = choose|i: int| 0 <= i < self.r2.len() && self.r2[i] == x; assert(self.r1.contains(self.r1[i])); assert(self.r1[i] == x); assert(self.b.id_removals@.contains(x)); let j = choose|j: int| 0 <= j < self.b.id_removals@.len() && self.b.id_removals@[j] == x; assert(within(self.b.id_removals@[j], self.b.nodes_values_map_count as int, self.b.predicates_map_count as int)); }
        let n = self.al().len() as int;
        if x.subject > off(self.p()) { assert(mentions(self.al(), n, x.subject as int)); assert(self.e[x.subject - off(self.p()) - 1]); }
        if x.object > off(self.p()) { assert(mentions(self.al(), n, x.object as int)); assert(self.e[x.object - off(self.p()) - 1]); }
        if x.predicate > poff(self.p()) { assert(pmentions(self.al(), n, x.predicate as int)); assert(self.pe[x.predicate - poff(self.p()) - 1]); }
    }
    /// what was asked for, and is not undone by the other list, is left
    proof fn asked_is_left(self, x: IdTriple)
        requires self.ok()
        ensures self.b.id_additions@.contains(x) && !self.b.id_removals@.contains(x) ==> self.a2.contains(x),
            self.b.id_removals@.contains(x) && !self.b.id_additions@.contains(x) && within(x, off(self.p()), poff(self.p())) ==> self.r2.contains(x)
    {
        reveal(noop_add); reveal(noop_rem);
        if self.b.id_additions@.contains(x) && !self.b.id_removals@.contains(x) { assert(self.a1.contains(x)); let i = choose|i: int| 0 <= i < self.a1.len() && self.a1[i] == x; assert(!self.r1.contains(x)); assert(self.a2[i] == x); }
        if self.b.id_removals@.contains(x) && !self.b.id_additions@.contains(x) && within(x, off(self.p()), poff(self.p())) { assert(self.r1.contains(x)); let i = choose|i: int| 0 <= i < self.r1.len() && self.r1[i] == x; assert(!self.a1.contains(x)); assert(self.r2[i] == x); }
    }
    /// renamed and sorted again, nothing is there twice
    proof fn renamed_ascends(self, a: Seq<IdTriple>, b: Seq<IdTriple>, c: Seq<IdTriple>)
        requires self.ok(), a == self.a2 || a == self.r2, renames(a, self.m, self.pm, off(self.p()), poff(self.p()), a.len() as int, b), rearranged(b, c), sorted(c)
        ensures asc_nz(c), forall|i: int| 0 <= i < c.len() ==> within(#[trigger] c[i], off(self.p()) + self.ns.len() + self.vs.len(), poff(self.p()) + self.ps.len()),
            forall|t: IdTriple| #[trigger] c.contains(t) && nonzero(t) ==> exists|x: IdTriple| a.contains(x) && nonzero(x) && #[trigger] self.ren(x) == t,
            forall|x: IdTriple| a.contains(x) ==> c.contains(#[trigger] self.ren(x)),
    {
        reveal(renames); reveal(rearranged); reveal(sorted);
        pids_facts(self.p());
        let f = choose|f: Seq<int>| moved(b, c, f);
        let (nv, p) = (off(self.p()), poff(self.p()));
        // every triple there is the zero triple or a triple without a zero, or has an id that is zero
        assert forall|i: int| 0 <= i < a.len() implies nonzero(#[trigger] a[i]) == nonzero(self.ren(a[i])) && within(self.ren(a[i]), nv + self.ns.len() + self.vs.len(), p + self.ps.len()) && (nonzero(a[i]) ==> self.t_use(a[i])) by {
            assert(a.contains(a[i]));
            if nonzero(a[i]) { self.left_in_use(a[i]); let s = arbitrary(); let q = arbitrary(); let o = arbitrary(); self.ren_says(a[i], s, q, o); }
            else { self.zero_stays(a[i]); }
        }
        assert forall|i: int| 0 <= i < c.len() implies within(#[trigger] c[i], nv + self.ns.len() + self.vs.len(), p + self.ps.len()) by { assert(c[i] == b[f[i]]); assert(b[f[i]] == self.ren(a[f[i]])); }
        assert forall|i: int, j: int| 0 <= i < j < c.len() && nonzero(#[trigger] c[i]) && nonzero(#[trigger] c[j]) implies tlt(c[i], c[j]) by {
            assert(!c[j].before(c[i])); assert(f[i] != f[j]);
            let (x, y) = (a[f[i]], a[f[j]]); assert(b[f[i]] == self.ren(x) && b[f[j]] == self.ren(y));
            assert(nonzero(x) && nonzero(y));
            if c[i] == c[j] { self.ren_inj(x, y); self.twice(a, f[i], f[j]); }
        }
        assert forall|t: IdTriple| #[trigger] c.contains(t) && nonzero(t) implies exists|x: IdTriple| a.contains(x) && nonzero(x) && #[trigger] self.ren(x) == t by {
            let i = choose|i: int| 0 <= i < c.len() && c[i] == t; assert(b[f[i]] == self.ren(a[f[i]])); assert(a.contains(a[f[i]])); assert(nonzero(a[f[i]])); }
        assert forall|x: IdTriple| a.contains(x) implies c.contains(#[trigger] self.ren(x)) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == self.ren(x)); assert(b.contains(self.ren(x))); }
    }
    /// a nonzero triple is left once
    proof fn twice(self, a: Seq<IdTriple>, i: int, j: int)
        requires self.ok(), a == self.a2 || a == self.r2, 0 <= i < a.len(), 0 <= j < a.len(), a[i] == a[j], nonzero(a[i])
        ensures i == j
    { reveal(noop_add); reveal(noop_rem); if a == self.a2 { assert(self.a1[i] == self.a1[j]); if i < j { assert(tlt(self.a1[i], self.a1[j])); } else if j < i { assert(tlt(self.a1[j], self.a1[i])); } } else { assert(self.r1[i] == self.r1[j]); if i < j { assert(tlt(self.r1[i], self.r1[j])); } else if j < i { assert(tlt(self.r1[j], self.r1[i])); } } }
    /// a triple with an id that is zero keeps it
    proof fn zero_stays(self, x: IdTriple)
        requires self.ok(), self.a2.contains(x) || self.r2.contains(x), !nonzero(x)
        ensures !nonzero(self.ren(x)), within(self.ren(x), off(self.p()) + self.ns.len() + self.vs.len(), poff(self.p()) + self.ps.len())
    {
        self.ids_in_use(x);
        pids_facts(self.p());
        if x.subject >= 1 { let n = self.id_kept(x.subject); } if x.predicate >= 1 { let n = self.pid_kept(x.predicate); } if x.object >= 1 { let n = self.id_kept(x.object); }
    }
    proof fn ids_in_use(self, x: IdTriple)
        requires self.ok(), self.a2.contains(x) || self.r2.contains(x)
        ensures x.subject >= 1 ==> self.in_use(x.subject as int), x.predicate >= 1 ==> self.pin_use(x.predicate as int), x.object >= 1 ==> self.in_use(x.object as int)
    {
        reveal(noop_add); reveal(noop_rem); reveal(all_within); reveal(marks); reveal(pmarks);
        pids_facts(self.p());
        let q = if self.a2.contains(x) { choose|i: int| 0 <= i < self.a2.len() && self.a2[i] == x } else { self.a2.len() + choose|i: int| 0 <= i < self.r2.len() && self.r2[i] == x };
        assert(self.al()[q] == x);
        if self.a2.contains(x) { let i = choose|i: int| 0 <= i < self.a2.len() && self.a2[i] == x; assert(self.a1.contains(self.a1[i])); if x != zt() { assert(self.b.id_additions@.contains(x)); let j = choose|j: int| 0 <= j < self.b.id_additions@.len() && self.b.id_additions@[j] == x; assert(within(self.b.id_additions@[j], self.b.nodes_values_map_count as int, self.b.predicates_map_count as int)); } }
        else { let i = choose|i: int| 0 <= i < self.r2.len() && self.r2[i] == x; assert(self.r1.contains(self.r1[i])); if x != zt() { assert(self.b.id_removals@.contains(x)); let j = choose|j: int| 0 <= j < self.b.id_removals@.len() && self.b.id_removals@[j] == x; assert(within(self.b.id_removals@[j], self.b.nodes_values_map_count as int, self.b.predicates_map_count as int)); } }
        let n = self.al().len() as int;
        if x.subject > off(self.p()) { assert(mentions(self.al(), n, x.subject as int)); assert(self.e[x.subject - off(self.p()) - 1]); }
        if x.object > off(self.p()) { assert(mentions(self.al(), n, x.object as int)); assert(self.e[x.object - off(self.p()) - 1]); }
        if x.predicate > poff(self.p()) { assert(pmentions(self.al(), n, x.predicate as int)); assert(self.pe[x.predicate - poff(self.p()) - 1]); }
    }
    /// all together: what is written is what was asked for
    proof fn done(self, a: Seq<IdTriple>, r: Seq<IdTriple>, c: Content)
        requires self.ok(), self.carries(self.a2, a), self.carries(self.r2, r),
            forall|t: IdTriple| #[trigger] c.pos.contains(t) <==> a.contains(t) && nonzero(t) && !phas(self.p(), t),
            forall|t: IdTriple| #[trigger] c.neg.contains(t) <==> r.contains(t) && nonzero(t) && phas(self.p(), t),
            self.names(c)
        ensures committed(self.b, c)
    {
        reveal(committed);
        let b = self.b;
        self.names_new();
        pids_facts(self.p());
        assert forall|s: Name, p: Seq<char>, o: Name| #![trigger c_adds(b.parent, c, s, p, o)] c_adds(b.parent, c, s, p, o) <==> b.adds(s, p, o) && !b.rems(s, p, o) && !parent_says(b.parent, s, p, o) by { self.done_adds(a, c, s, p, o); }
        assert forall|s: Name, p: Seq<char>, o: Name| #![trigger c_dels(b.parent, c, s, p, o)] c_dels(b.parent, c, s, p, o) <==> b.rems(s, p, o) && !b.adds(s, p, o) && parent_says(b.parent, s, p, o) by { self.done_dels(r, c, s, p, o); }
        assert forall|t: IdTriple| #[trigger] c.pos.contains(t) implies within(t, off(b.parent) + c.nv(), poff(b.parent) + c.preds.len()) && nonzero(t) && !phas(b.parent, t) by { let x = self.origin(self.a2, a, t); }
        assert forall|i: int, id: int| #![trigger c.nodes[i], pname(b.parent, id)] 0 <= i < c.nodes.len() implies pname(b.parent, id) != Some(Name::Node(c.nodes[i])) by { assert(self.ns[i].0 == Name::Node(c.nodes[i])); }
        assert forall|i: int, id: int| #![trigger c.vals[i], pname(b.parent, id)] 0 <= i < c.vals.len() implies pname(b.parent, id) != Some(Name::Value(c.vals[i])) by { assert(self.vs[i].0 == Name::Value(c.vals[i])); }
        assert forall|i: int, id: int| #![trigger c.preds[i], ppred(b.parent, id)] 0 <= i < c.preds.len() implies ppred(b.parent, id) != Some(c.preds[i]) by { assert(self.ps[i].0 == Name::Node(c.preds[i])); }
    }
    pub open spec fn names(self, c: Content) -> bool {
        &&& c.nodes.len() == self.ns.len() && c.vals.len() == self.vs.len() && c.preds.len() == self.ps.len()
        &&& forall|i: int| 0 <= i < self.ns.len() ==> (#[trigger] self.ns[i]).0 == Name::Node(c.nodes[i])
        &&& forall|i: int| 0 <= i < self.vs.len() ==> (#[trigger] self.vs[i]).0 == Name::Value(c.vals[i])
        &&& forall|i: int| 0 <= i < self.ps.len() ==> (#[trigger] self.ps[i]).0 == Name::Node(c.preds[i])
    }
    pub open spec fn carries(self, a: Seq<IdTriple>, c: Seq<IdTriple>) -> bool {
        &&& forall|t: IdTriple| #[trigger] c.contains(t) && nonzero(t) ==> exists|x: IdTriple| a.contains(x) && nonzero(x) && #[trigger] self.ren(x) == t
        &&& forall|x: IdTriple| a.contains(x) ==> c.contains(#[trigger] self.ren(x))
    }
    proof fn says_same(self, c: Content, t: IdTriple, s: Name, p: Seq<char>, o: Name) requires self.names(c) ensures c_says(self.p(), c, t, s, p, o) == self.nsays(t, s, p, o) {}
    proof fn origin(self, a: Seq<IdTriple>, c: Seq<IdTriple>, t: IdTriple) -> (x: IdTriple)
        requires self.ok(), self.carries(a, c), a == self.a2 || a == self.r2, c.contains(t), nonzero(t)
        ensures a.contains(x), self.t_use(x), nonzero(x), self.ren(x) == t, within(t, off(self.p()) + self.ns.len() + self.vs.len(), poff(self.p()) + self.ps.len())
    { let x = choose|x: IdTriple| a.contains(x) && nonzero(x) && #[trigger] self.ren(x) == t; self.left_in_use(x); self.ren_says(x, arbitrary(), arbitrary(), arbitrary()); x }
    /// a triple of the parent has ids of the parent
    proof fn in_parent(self, t: IdTriple) requires self.ok(), phas(self.p(), t) ensures within(t, off(self.p()), poff(self.p()))
    { if let Some(l) = self.p() { assert(l.has(t.subject, t.predicate, t.object)); } }
    proof fn done_adds(self, a: Seq<IdTriple>, c: Content, s: Name, p: Seq<char>, o: Name)
        requires self.ok(), self.carries(self.a2, a), forall|t: IdTriple| #[trigger] c.pos.contains(t) <==> a.contains(t) && nonzero(t) && !phas(self.p(), t), self.names(c)
        ensures c_adds(self.p(), c, s, p, o) <==> self.b.adds(s, p, o) && !self.b.rems(s, p, o) && !parent_says(self.p(), s, p, o)
    {
        let b = self.b;
        if c_adds(self.p(), c, s, p, o) {
            let t = choose|t: IdTriple| c.pos.contains(t) && #[trigger] c_says(self.p(), c, t, s, p, o);
            let x = self.origin(self.a2, a, t); self.left_in_use(x); self.ren_says(x, s, p, o); self.says_same(c, t, s, p, o);
            assert(b.says(x, s, p, o)); assert(b.adds(s, p, o));
            if b.rems(s, p, o) { let y = choose|y: IdTriple| b.id_removals@.contains(y) && #[trigger] b.says(y, s, p, o); self.says_inj(x, y, s, p, o); }
            if parent_says(self.p(), s, p, o) { let u = choose|u: IdTriple| phas(self.p(), u) && #[trigger] p_says(self.p(), u, s, p, o); self.in_parent(u); assert(b.says(u, s, p, o)); self.says_inj(x, u, s, p, o); }
        }
        if b.adds(s, p, o) && !b.rems(s, p, o) && !parent_says(self.p(), s, p, o) {
            let x = choose|x: IdTriple| b.id_additions@.contains(x) && #[trigger] b.says(x, s, p, o);
            assert(!b.id_removals@.contains(x)); self.asked_is_left(x); self.says_nonzero(x, s, p, o); self.left_in_use(x); self.ren_says(x, s, p, o);
            let t = self.ren(x); assert(a.contains(t)); self.says_same(c, t, s, p, o);
            if phas(self.p(), t) { self.in_parent(t); assert(p_says(self.p(), t, s, p, o)); }
            assert(c.pos.contains(t) && c_says(self.p(), c, t, s, p, o));
        }
    }
    proof fn says_nonzero(self, x: IdTriple, s: Name, p: Seq<char>, o: Name) requires self.ok(), self.b.says(x, s, p, o) ensures nonzero(x) { pids_facts(self.p()); reveal(nv_ids); reveal(p_ids); }
    proof fn done_dels(self, r: Seq<IdTriple>, c: Content, s: Name, p: Seq<char>, o: Name)
        requires self.ok(), self.carries(self.r2, r), forall|t: IdTriple| #[trigger] c.neg.contains(t) <==> r.contains(t) && nonzero(t) && phas(self.p(), t), self.names(c)
        ensures c_dels(self.p(), c, s, p, o) <==> self.b.rems(s, p, o) && !self.b.adds(s, p, o) && parent_says(self.p(), s, p, o)
    {
        let b = self.b;
        if c_dels(self.p(), c, s, p, o) {
            let t = choose|t: IdTriple| c.neg.contains(t) && #[trigger] c_says(self.p(), c, t, s, p, o);
            let x = self.origin(self.r2, r, t); self.left_in_use(x); self.ren_says(x, s, p, o); self.says_same(c, t, s, p, o);
            assert(b.says(x, s, p, o)); assert(b.rems(s, p, o));
            if b.adds(s, p, o) { let y = choose|y: IdTriple| b.id_additions@.contains(y) && #[trigger] b.says(y, s, p, o); self.says_inj(x, y, s, p, o); }
            self.in_parent(t); assert(p_says(self.p(), t, s, p, o));
        }
        if b.rems(s, p, o) && !b.adds(s, p, o) && parent_says(self.p(), s, p, o) {
            let x = choose|x: IdTriple| b.id_removals@.contains(x) && #[trigger] b.says(x, s, p, o);
            let u = choose|u: IdTriple| phas(self.p(), u) && #[trigger] p_says(self.p(), u, s, p, o); self.in_parent(u); assert(b.says(u, s, p, o)); self.says_inj(x, u, s, p, o);
            assert(!b.id_additions@.contains(x)); self.asked_is_left(x); self.says_nonzero(x, s, p, o); self.left_in_use(x); self.ren_says(x, s, p, o);
            let t = self.ren(x); assert(t == x); assert(r.contains(t)); self.says_same(c, t, s, p, o);
            assert(c.neg.contains(t) && c_says(self.p(), c, t, s, p, o));
        }
    }
}
// ---- what a commit is to do, in names
/// what the ids of the new layer mean
pub open spec fn c_name(p: Parent, c: Content, id: int) -> Option<Name> { let k = id - off(p); if k < 1 { pname(p, id) } else if k <= c.nodes.len() { Some(Name::Node(c.nodes[k - 1])) } else if k <= c.nodes.len() + c.vals.len() { Some(Name::Value(c.vals[k - c.nodes.len() - 1])) } else { None } }
pub open spec fn c_pred(p: Parent, c: Content, id: int) -> Option<Seq<char>> { let k = id - poff(p); if k < 1 { ppred(p, id) } else if k <= c.preds.len() { Some(c.preds[k - 1]) } else { None } }
pub open spec fn c_says(p: Parent, c: Content, t: IdTriple, s: Name, q: Seq<char>, o: Name) -> bool { c_name(p, c, t.subject as int) == Some(s) && c_pred(p, c, t.predicate as int) == Some(q) && c_name(p, c, t.object as int) == Some(o) }
pub open spec fn p_says(p: Parent, t: IdTriple, s: Name, q: Seq<char>, o: Name) -> bool { pname(p, t.subject as int) == Some(s) && ppred(p, t.predicate as int) == Some(q) && pname(p, t.object as int) == Some(o) }
pub open spec fn c_adds(p: Parent, c: Content, s: Name, q: Seq<char>, o: Name) -> bool { exists|t: IdTriple| c.pos.contains(t) && #[trigger] c_says(p, c, t, s, q, o) }
pub open spec fn c_dels(p: Parent, c: Content, s: Name, q: Seq<char>, o: Name) -> bool { exists|t: IdTriple| c.neg.contains(t) && #[trigger] c_says(p, c, t, s, q, o) }
pub open spec fn parent_says(p: Parent, s: Name, q: Seq<char>, o: Name) -> bool { exists|t: IdTriple| phas(p, t) && #[trigger] p_says(p, t, s, q, o) }
#[verifier::opaque] pub open spec fn committed(b: SimpleLayerBuilder<File>, c: Content) -> bool {
    &&& forall|s: Name, p: Seq<char>, o: Name| #![trigger c_adds(b.parent, c, s, p, o)] c_adds(b.parent, c, s, p, o) <==> b.adds(s, p, o) && !b.rems(s, p, o) && !parent_says(b.parent, s, p, o)
    &&& forall|s: Name, p: Seq<char>, o: Name| #![trigger c_dels(b.parent, c, s, p, o)] c_dels(b.parent, c, s, p, o) <==> b.rems(s, p, o) && !b.adds(s, p, o) && parent_says(b.parent, s, p, o)
    &&& forall|t: IdTriple| #[trigger] c.pos.contains(t) ==> within(t, off(b.parent) + c.nv(), poff(b.parent) + c.preds.len()) && nonzero(t) && !phas(b.parent, t)
    &&& forall|t: IdTriple| #[trigger] c.neg.contains(t) ==> phas(b.parent, t)
    &&& forall|i: int, id: int| #![trigger c.nodes[i], pname(b.parent, id)] 0 <= i < c.nodes.len() ==> pname(b.parent, id) != Some(Name::Node(c.nodes[i]))
    &&& forall|i: int, id: int| #![trigger c.vals[i], pname(b.parent, id)] 0 <= i < c.vals.len() ==> pname(b.parent, id) != Some(Name::Value(c.vals[i]))
    &&& forall|i: int, id: int| #![trigger c.preds[i], ppred(b.parent, id)] 0 <= i < c.preds.len() ==> ppred(b.parent, id) != Some(c.preds[i])
}
