// ---- std: sorting and deduplicating a list, a list stepped through and changed with a look ahead
pub trait Before: Sized { spec fn before(self, o: Self) -> bool; }
impl Before for IdTriple { open spec fn before(self, o: IdTriple) -> bool { tlt(self, o) } }
impl Before for (String, u64) { open spec fn before(self, o: (String, u64)) -> bool { str_lt(self.0@, o.0@) || (self.0@ == o.0@ && self.1 < o.1) } }
impl Before for (TypedDictEntry, u64) { open spec fn before(self, o: (TypedDictEntry, u64)) -> bool { val_lt(self.0, o.0) || (self.0 == o.0 && self.1 < o.1) } }
/// places[i]: where the ith was
pub open spec fn moved<T>(a: Seq<T>, b: Seq<T>, places: Seq<int>) -> bool {
    &&& places.len() == a.len() && b.len() == a.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] places[i] < a.len() && b[i] == a[places[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] places[i] != #[trigger] places[j]
}
#[verifier::opaque] pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>) -> bool { (exists|f: Seq<int>| moved(a, b, f)) && forall|x: T| #[trigger] a.contains(x) ==> b.contains(x) }
#[verifier::opaque] pub open spec fn sorted<T: Before>(b: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> !(#[trigger] b[j]).before(#[trigger] b[i]) }
pub trait SortVec<T: Before> { spec fn contents(self) -> Seq<T>; fn sort(&mut self) where Self: Sized ensures rearranged(old(self).contents(), final(self).contents()), sorted(final(self).contents()); }
impl<T: Before> SortVec<T> for Vec<T> { open spec fn contents(self) -> Seq<T> { self@ } #[verifier::external_body] fn sort(&mut self) { unimplemented!() } }
/// places[i]: where the ith was, in the same order
pub open spec fn kept_of<T>(a: Seq<T>, b: Seq<T>, places: Seq<int>) -> bool {
    &&& places.len() == b.len()
    &&& forall|i: int| 0 <= i < b.len() ==> 0 <= #[trigger] places[i] < a.len() && b[i] == a[places[i]]
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] places[i] < #[trigger] places[j]
}
#[verifier::opaque] pub open spec fn deduped<T>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& exists|f: Seq<int>| kept_of(a, b, f)
    &&& forall|i: int| 0 <= i < b.len() - 1 ==> #[trigger] b[i] != b[i + 1]
    &&& forall|x: T| #[trigger] a.contains(x) ==> b.contains(x)
}
pub assume_specification<T: PartialEq, A: core::alloc::Allocator> [Vec::<T, A>::dedup] (v: &mut Vec<T, A>) ensures deduped(old(v)@, final(v)@);
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit] (v: &mut Vec<T, A>) ensures final(v)@ == old(v)@;
/// bitvec: a list of bits
#[verifier::external_body] pub fn __bitvec_of(x: u8, n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == (x != 0) { unimplemented!() }
/// `v.iter_mut().peekable()`: `all` is what the list is, `fin` what it will be
#[verifier::external_body] pub struct PeekMut<'a> { _v: &'a mut Vec<IdTriple>, _p: usize }
#[derive(Clone, Copy)] pub struct Head { pub t: Option<IdTriple> }
impl Head { pub fn is_none(&self) -> (r: bool) ensures r == (self.t is None) { self.t.is_none() } pub fn is_some(&self) -> (r: bool) ensures r == (self.t is Some) { self.t.is_some() } }
pub open spec fn hcmp(a: Option<IdTriple>, b: Option<IdTriple>) -> core::cmp::Ordering { match (a, b) { (Some(x), Some(y)) => tcmp(x, y), (None, None) => core::cmp::Ordering::Equal, (None, Some(_)) => core::cmp::Ordering::Less, (Some(_), None) => core::cmp::Ordering::Greater } }
impl PartialEq for Head { #[verifier::external_body] fn eq(&self, o: &Head) -> (r: bool) { unimplemented!() } }
impl PartialEqSpecImpl for Head { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Head) -> bool { self.t == o.t } }
impl PartialOrd for Head { #[verifier::external_body] fn partial_cmp(&self, o: &Head) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
impl PartialOrdSpecImpl for Head { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Head) -> Option<core::cmp::Ordering> { Some(hcmp(self.t, o.t)) } }
impl<'a> PeekMut<'a> {
    pub uninterp spec fn all(&self) -> Seq<IdTriple>;
    pub uninterp spec fn fin(&self) -> Seq<IdTriple>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn head(&self) -> Option<IdTriple> { if self.pos() < self.all().len() { Some(self.all()[self.pos()]) } else { None } }
    pub open spec fn same(&self, a: Seq<IdTriple>, f: Seq<IdTriple>) -> bool { self.all() == a && self.fin() == f && 0 <= self.pos() <= a.len() && f.len() == a.len() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Head)
        ensures final(self).same(old(self).all(), old(self).fin()) == old(self).same(old(self).all(), old(self).fin()), final(self).pos() == old(self).pos(), r.t == old(self).head() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a mut IdTriple>)
        requires 0 <= old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), final(self).fin() == old(self).fin(),
            match r { Some(x) => old(self).pos() < old(self).all().len() && final(self).pos() == old(self).pos() + 1 && *x == old(self).all()[old(self).pos()] && *final(x) == old(self).fin()[old(self).pos()],
             None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos() }
    { unimplemented!() }
    /// what was not stepped to stays
    #[verifier::external_body] pub fn __done(self) ensures forall|i: int| self.pos() <= i < self.all().len() ==> #[trigger] self.fin()[i] == self.all()[i] { }
}
#[verifier::external_body] pub fn __peek_mut<'a>(v: &'a mut Vec<IdTriple>) -> (r: PeekMut<'a>)
    ensures r.all() == old(v)@, final(v)@ == r.fin(), r.fin().len() == r.all().len(), r.pos() == 0 { unimplemented!() }
impl<'a> Src for PeekMut<'a> { type It = PeekMut<'a>; open spec fn gives(self, i: PeekMut<'a>) -> bool { i == self } fn steps(self) -> (r: PeekMut<'a>) { self } }
// ---- the steps of a commit
pub open spec fn zt() -> IdTriple { tr(0, 0, 0) }
pub open spec fn asc(s: Seq<IdTriple>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> tlt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn same_set<T>(a: Seq<T>, b: Seq<T>) -> bool { forall|t: T| #[trigger] a.contains(t) <==> b.contains(t) }
pub proof fn sort_dedup(a: Seq<IdTriple>, b: Seq<IdTriple>, c: Seq<IdTriple>)
    requires rearranged(a, b), sorted(b), deduped(b, c)
    ensures asc(c), same_set(a, c)
{
    reveal(rearranged); reveal(sorted); reveal(deduped);
    let f = choose|f: Seq<int>| moved(a, b, f); let g = choose|g: Seq<int>| kept_of(b, c, g);
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies tlt(#[trigger] c[i], #[trigger] c[j]) by {
        assert(c[i] != c[i + 1]); assert(g[i] < g[i + 1]); assert(c[i] == b[g[i]] && c[i + 1] == b[g[i + 1]]);
        assert(!b[g[i + 1]].before(b[g[i]]));
        if i + 1 < j { assert(g[i + 1] < g[j]); assert(!b[g[j]].before(b[g[i + 1]])); assert(c[j] == b[g[j]]); }
    }
    assert forall|t: IdTriple| #[trigger] a.contains(t) <==> c.contains(t) by {
        if a.contains(t) { assert(b.contains(t)); }
        if c.contains(t) { let i = choose|i: int| 0 <= i < c.len() && c[i] == t; assert(b[g[i]] == t); assert(a[f[g[i]]] == t); }
    }
}
pub open spec fn zero_if(z: bool, t: IdTriple) -> IdTriple { if z { zt() } else { t } }
#[verifier::opaque] pub open spec fn noop_add(a: Seq<IdTriple>, r: Seq<IdTriple>, f: Seq<IdTriple>) -> bool { f.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] f[i] == zero_if(r.contains(a[i]), a[i]) }
#[verifier::opaque] pub open spec fn noop_rem(a: Seq<IdTriple>, r: Seq<IdTriple>, nv: int, p: int, f: Seq<IdTriple>) -> bool { f.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] f[i] == zero_if(a.contains(r[i]) || !within(r[i], nv, p), r[i]) }
pub open spec fn mentions(s: Seq<IdTriple>, n: int, id: int) -> bool { exists|q: int| 0 <= q < n && ((#[trigger] s[q]).subject == id || s[q].object == id) }
pub open spec fn pmentions(s: Seq<IdTriple>, n: int, id: int) -> bool { exists|q: int| 0 <= q < n && (#[trigger] s[q]).predicate == id }
#[verifier::opaque] pub open spec fn marks(e: Seq<bool>, s: Seq<IdTriple>, n: int, base: int) -> bool { forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k] <==> mentions(s, n, base + 1 + k)) }
#[verifier::opaque] pub open spec fn pmarks(e: Seq<bool>, s: Seq<IdTriple>, n: int, base: int) -> bool { forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k] <==> pmentions(s, n, base + 1 + k)) }
pub open spec fn mark(e: Seq<bool>, id: u64, base: int) -> Seq<bool> { if id > base { e.update(id - base - 1, true) } else { e } }
pub proof fn mark_step(e: Seq<bool>, s: Seq<IdTriple>, n: int, base: int)
    requires marks(e, s, n, base), 0 <= n < s.len(), base >= 0, s[n].subject <= base + e.len(), s[n].object <= base + e.len()
    ensures marks(mark(mark(e, s[n].subject, base), s[n].object, base), s, n + 1, base)
{
    reveal(marks); let e2 = mark(mark(e, s[n].subject, base), s[n].object, base);
    assert forall|k: int| 0 <= k < e2.len() implies (#[trigger] e2[k] <==> mentions(s, n + 1, base + 1 + k)) by {
        let id = base + 1 + k;
        assert(e2[k] == (e[k] || s[n].subject == id || s[n].object == id));
        if mentions(s, n, id) { let q = choose|q: int| 0 <= q < n && ((#[trigger] s[q]).subject == id || s[q].object == id); assert(mentions(s, n + 1, id)); }
        if s[n].subject == id || s[n].object == id { assert(mentions(s, n + 1, id)); }
        if mentions(s, n + 1, id) { let q = choose|q: int| 0 <= q < n + 1 && ((#[trigger] s[q]).subject == id || s[q].object == id); if q < n { assert(mentions(s, n, id)); } }
    }
}
pub proof fn pmark_step(e: Seq<bool>, s: Seq<IdTriple>, n: int, base: int)
    requires pmarks(e, s, n, base), 0 <= n < s.len(), base >= 0, s[n].predicate <= base + e.len()
    ensures pmarks(mark(e, s[n].predicate, base), s, n + 1, base)
{
    reveal(pmarks); let e2 = mark(e, s[n].predicate, base);
    assert forall|k: int| 0 <= k < e2.len() implies (#[trigger] e2[k] <==> pmentions(s, n + 1, base + 1 + k)) by {
        let id = base + 1 + k;
        assert(e2[k] == (e[k] || s[n].predicate == id));
        if pmentions(s, n, id) { let q = choose|q: int| 0 <= q < n && (#[trigger] s[q]).predicate == id; assert(pmentions(s, n + 1, id)); }
        if s[n].predicate == id { assert(pmentions(s, n + 1, id)); }
        if pmentions(s, n + 1, id) { let q = choose|q: int| 0 <= q < n + 1 && (#[trigger] s[q]).predicate == id; if q < n { assert(pmentions(s, n, id)); } }
    }
}
/// names with the ids they were given
pub type Named = Seq<(Name, u64)>;
pub open spec fn picked(x: (Name, u64), base: int, e: Seq<bool>, node: bool) -> bool { x.1 > base && e[x.1 - base - 1] && (x.0 is Node == node) }
pub open spec fn is_from(all: Named, n: int, base: int, e: Seq<bool>, node: bool, x: (Name, u64)) -> bool { exists|k: int| 0 <= k < n && #[trigger] all[k] == x && picked(all[k], base, e, node) }
/// the names of one kind among the first n entries that are new and in use
#[verifier::opaque] pub open spec fn picks(all: Named, n: int, base: int, e: Seq<bool>, node: bool, out: Named) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> is_from(all, n, base, e, node, #[trigger] out[i])
    &&& forall|k: int| 0 <= k < n && picked(#[trigger] all[k], base, e, node) ==> out.contains(all[k])
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).0 != (#[trigger] out[j]).0
}
pub open spec fn distinct_names(all: Named) -> bool { forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 != (#[trigger] all[j]).0 }
pub proof fn pick_step(all: Named, n: int, base: int, e: Seq<bool>, node: bool, out: Named)
    requires picks(all, n, base, e, node, out), 0 <= n < all.len(), distinct_names(all)
    ensures picked(all[n], base, e, node) ==> picks(all, n + 1, base, e, node, out.push(all[n])), !picked(all[n], base, e, node) ==> picks(all, n + 1, base, e, node, out)
{
    reveal(picks);
    let o2 = out.push(all[n]);
    assert forall|i: int| 0 <= i < out.len() implies is_from(all, n + 1, base, e, node, #[trigger] out[i]) by { assert(is_from(all, n, base, e, node, out[i])); let k = choose|k: int| 0 <= k < n && #[trigger] all[k] == out[i] && picked(all[k], base, e, node); assert(all[k] == out[i]); }
    if picked(all[n], base, e, node) {
        assert forall|i: int| 0 <= i < o2.len() implies is_from(all, n + 1, base, e, node, #[trigger] o2[i]) by {
            if i == out.len() { assert(all[n] == o2[i]); } else { assert(is_from(all, n, base, e, node, out[i])); let k = choose|k: int| 0 <= k < n && #[trigger] all[k] == out[i] && picked(all[k], base, e, node); assert(all[k] == o2[i]); } }
        assert forall|k: int| 0 <= k < n + 1 && picked(#[trigger] all[k], base, e, node) implies o2.contains(all[k]) by {
            if k == n { assert(o2[out.len() as int] == all[k]); } else { assert(out.contains(all[k])); let i = choose|i: int| 0 <= i < out.len() && out[i] == all[k]; assert(o2[i] == all[k]); } }
        assert forall|i: int, j: int| 0 <= i < j < o2.len() implies (#[trigger] o2[i]).0 != (#[trigger] o2[j]).0 by {
            if j == out.len() { assert(is_from(all, n, base, e, node, out[i])); let k = choose|k: int| 0 <= k < n && #[trigger] all[k] == out[i] && picked(all[k], base, e, node); assert(all[k].0 != all[n].0); } else { assert(o2[i] == out[i] && o2[j] == out[j]); } }
    } else {
        assert forall|k: int| 0 <= k < n + 1 && picked(#[trigger] all[k], base, e, node) implies out.contains(all[k]) by { assert(k < n); }
        assert(picks(all, n + 1, base, e, node, out));
    }
}
/// ids by name
pub ghost enum Ids { Nv(Map<Name, u64>), P(Map<Seq<char>, u64>) }
impl Ids {
    pub open spec fn has_key(self, n: Name) -> bool { match self { Ids::Nv(m) => m.contains_key(n), Ids::P(m) => n is Node && m.contains_key(n->Node_0) } }
    pub open spec fn at(self, n: Name) -> u64 { match self { Ids::Nv(m) => m[n], Ids::P(m) => m[n->Node_0] } }
}
/// the same, of a map from names to ids
#[verifier::opaque] pub open spec fn gathered(m: Ids, base: int, e: Seq<bool>, node: bool, out: Named) -> bool {
    &&& forall|i: int| 0 <= i < out.len() ==> m.has_key((#[trigger] out[i]).0) && m.at(out[i].0) == out[i].1 && picked(out[i], base, e, node)
    &&& forall|n: Name| #[trigger] m.has_key(n) && picked((n, m.at(n)), base, e, node) ==> out.contains((n, m.at(n)))
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).0 != (#[trigger] out[j]).0
}
pub open spec fn lists(m: Ids, all: Named) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> m.has_key((#[trigger] all[i]).0) && m.at(all[i].0) == all[i].1
    &&& forall|n: Name| #[trigger] m.has_key(n) ==> all.contains((n, m.at(n)))
    &&& distinct_names(all)
}
pub proof fn picked_all(m: Ids, all: Named, base: int, e: Seq<bool>, node: bool, out: Named)
    requires lists(m, all), picks(all, all.len() as int, base, e, node, out)
    ensures gathered(m, base, e, node, out)
{
    reveal(picks); reveal(gathered);
    assert forall|i: int| 0 <= i < out.len() implies m.has_key((#[trigger] out[i]).0) && m.at(out[i].0) == out[i].1 && picked(out[i], base, e, node) by { assert(is_from(all, all.len() as int, base, e, node, out[i])); let k = choose|k: int| 0 <= k < all.len() && #[trigger] all[k] == out[i] && picked(all[k], base, e, node); assert(m.has_key(all[k].0)); }
    assert forall|n: Name| #[trigger] m.has_key(n) && picked((n, m.at(n)), base, e, node) implies out.contains((n, m.at(n))) by { assert(all.contains((n, m.at(n)))); let k = choose|k: int| 0 <= k < all.len() && all[k] == (n, m.at(n)); assert(picked(all[k], base, e, node)); }
}
pub proof fn gathered_moved(m: Ids, base: int, e: Seq<bool>, node: bool, out: Named, o2: Named, f: Seq<int>)
    requires gathered(m, base, e, node, out), moved(out, o2, f), forall|x: (Name, u64)| #[trigger] out.contains(x) ==> o2.contains(x)
    ensures gathered(m, base, e, node, o2)
{
    reveal(gathered);
    assert forall|i: int| 0 <= i < o2.len() implies m.has_key((#[trigger] o2[i]).0) && m.at(o2[i].0) == o2[i].1 && picked(o2[i], base, e, node) by { assert(o2[i] == out[f[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < o2.len() implies (#[trigger] o2[i]).0 != (#[trigger] o2[j]).0 by { assert(f[i] != f[j]); assert(o2[i] == out[f[i]] && o2[j] == out[f[j]]); if f[i] < f[j] { } else { assert(out[f[j]].0 != out[f[i]].0); } }
}
/// the new ids
#[verifier::opaque] pub open spec fn given(m: Seq<u64>, out: Named, n: int, base: int, first: int) -> bool { forall|i: int| 0 <= i < n ==> m[(#[trigger] out[i]).1 - base - 1] == first + i + 1 }
pub open spec fn rid(id: u64, m: Seq<u64>, base: int) -> u64 { if id > base { m[id - base - 1] } else { id } }
pub open spec fn renamed(t: IdTriple, m: Seq<u64>, pm: Seq<u64>, nv: int, p: int) -> IdTriple { tr(rid(t.subject, m, nv), rid(t.predicate, pm, p), rid(t.object, m, nv)) }
#[verifier::opaque] pub open spec fn renames(a: Seq<IdTriple>, m: Seq<u64>, pm: Seq<u64>, nv: int, p: int, n: int, b: Seq<IdTriple>) -> bool {
    b.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == (if i < n { renamed(a[i], m, pm, nv, p) } else { a[i] }) }
pub open spec fn named_nodes(s: Seq<(String, u64)>) -> Named { Seq::new(s.len(), |i: int| (Name::Node(s[i].0@), s[i].1)) }
pub open spec fn named_vals(s: Seq<(TypedDictEntry, u64)>) -> Named { Seq::new(s.len(), |i: int| (Name::Value(s[i].0), s[i].1)) }

pub proof fn named_nodes_push(s: Seq<(String, u64)>) ensures forall|x: (String, u64)| #[trigger] named_nodes(s.push(x)) == named_nodes(s).push((Name::Node(x.0@), x.1)) { assert forall|x: (String, u64)| #[trigger] named_nodes(s.push(x)) == named_nodes(s).push((Name::Node(x.0@), x.1)) by { assert(named_nodes(s.push(x)) =~= named_nodes(s).push((Name::Node(x.0@), x.1))); } }
pub proof fn named_vals_push(s: Seq<(TypedDictEntry, u64)>) ensures forall|x: (TypedDictEntry, u64)| #[trigger] named_vals(s.push(x)) == named_vals(s).push((Name::Value(x.0), x.1)) { assert forall|x: (TypedDictEntry, u64)| #[trigger] named_vals(s.push(x)) == named_vals(s).push((Name::Value(x.0), x.1)) by { assert(named_vals(s.push(x)) =~= named_vals(s).push((Name::Value(x.0), x.1))); } }
pub open spec fn ent_names(s: Seq<(ObjectType, u64)>) -> Named { Seq::new(s.len(), |i: int| (as_name(s[i].0), s[i].1)) }
pub proof fn ent_lists(m: Map<Name, u64>, s: Seq<(ObjectType, u64)>) requires entries::<ObjectType, u64>(m, s) ensures lists(Ids::Nv(m), ent_names(s))
{
    let all = ent_names(s);
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).0 != (#[trigger] all[j]).0 by { assert(s[i].0.key() != s[j].0.key()); }
    assert forall|i: int| 0 <= i < all.len() implies Ids::Nv(m).has_key((#[trigger] all[i]).0) && Ids::Nv(m).at(all[i].0) == all[i].1 by { assert(m.contains_key(s[i].0.key())); }
    assert forall|n: Name| #[trigger] Ids::Nv(m).has_key(n) implies all.contains((n, Ids::Nv(m).at(n))) by { assert(m.contains_key(n)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == n; assert(all[i] == (n, m[n])); }
}
pub proof fn pent_lists(m: Map<Seq<char>, u64>, s: Seq<(String, u64)>) requires entries::<String, u64>(m, s) ensures lists(Ids::P(m), named_nodes(s))
{
    let all = named_nodes(s);
    assert forall|i: int, j: int| 0 <= i < j < all.len() implies (#[trigger] all[i]).0 != (#[trigger] all[j]).0 by { assert(s[i].0.key() != s[j].0.key()); }
    assert forall|i: int| 0 <= i < all.len() implies Ids::P(m).has_key((#[trigger] all[i]).0) && Ids::P(m).at(all[i].0) == all[i].1 by { assert(m.contains_key(s[i].0.key())); }
    assert forall|n: Name| #[trigger] Ids::P(m).has_key(n) implies all.contains((n, Ids::P(m).at(n))) by { assert(m.contains_key(n->Node_0)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == n->Node_0; assert(all[i] == (n, m[n->Node_0])); }
}
/// nothing is picked of nothing
pub proof fn picks_none(all: Named, base: int, e: Seq<bool>, node: bool) ensures picks(all, 0, base, e, node, seq![]) { reveal(picks); }
pub proof fn nodes_sorted(m: Ids, base: int, e: Seq<bool>, a: Seq<(String, u64)>, b: Seq<(String, u64)>)
    requires gathered(m, base, e, true, named_nodes(a)), rearranged(a, b), sorted(b)
    ensures gathered(m, base, e, true, named_nodes(b)), forall|i: int, j: int| 0 <= i < j < b.len() ==> str_lt((#[trigger] b[i]).0@, (#[trigger] b[j]).0@)
{
    reveal(rearranged); let f = choose|f: Seq<int>| moved(a, b, f);
    let (x, y) = (named_nodes(a), named_nodes(b));
    assert(moved(x, y, f));
    assert forall|t: (Name, u64)| #[trigger] x.contains(t) implies y.contains(t) by { let i = choose|i: int| 0 <= i < x.len() && x[i] == t; assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(y[j] == t); }
    gathered_moved(m, base, e, true, x, y, f);
    reveal(gathered); reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies str_lt((#[trigger] b[i]).0@, (#[trigger] b[j]).0@) by { assert(y[i].0 != y[j].0); assert(!b[j].before(b[i])); str_lt_total(b[i].0@, b[j].0@); }
}
pub proof fn vals_sorted(m: Ids, base: int, e: Seq<bool>, a: Seq<(TypedDictEntry, u64)>, b: Seq<(TypedDictEntry, u64)>)
    requires gathered(m, base, e, false, named_vals(a)), rearranged(a, b), sorted(b)
    ensures gathered(m, base, e, false, named_vals(b)), forall|i: int, j: int| 0 <= i < j < b.len() ==> val_lt((#[trigger] b[i]).0, (#[trigger] b[j]).0)
{
    reveal(rearranged); let f = choose|f: Seq<int>| moved(a, b, f);
    let (x, y) = (named_vals(a), named_vals(b));
    assert(moved(x, y, f));
    assert forall|t: (Name, u64)| #[trigger] x.contains(t) implies y.contains(t) by { let i = choose|i: int| 0 <= i < x.len() && x[i] == t; assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(y[j] == t); }
    gathered_moved(m, base, e, false, x, y, f);
    reveal(gathered); reveal(sorted);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies val_lt((#[trigger] b[i]).0, (#[trigger] b[j]).0) by { assert(y[i].0 != y[j].0); assert(!b[j].before(b[i])); val_lt_total(b[i].0, b[j].0); }
}
/// ids that are given out are given once
#[verifier::opaque] pub open spec fn ids_once(m: Ids, base: int) -> bool { forall|x: Name, y: Name| #![trigger m.at(x), m.at(y)] m.has_key(x) && m.has_key(y) && m.at(x) == m.at(y) && m.at(x) > base ==> x == y }
pub open spec fn apart(a: Named, b: Named) -> bool { forall|i: int, j: int| #![trigger a[i], b[j]] 0 <= i < a.len() && 0 <= j < b.len() ==> a[i].1 != b[j].1 }
pub open spec fn ids_differ(a: Named) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).1 != (#[trigger] a[j]).1 }
pub open spec fn ids_in(a: Named, base: int, n: int) -> bool { forall|i: int| 0 <= i < a.len() ==> base < (#[trigger] a[i]).1 <= base + n }
pub proof fn gathered_ids(m: Ids, base: int, e: Seq<bool>, node: bool, a: Named)
    requires gathered(m, base, e, node, a), ids_once(m, base)
    ensures ids_differ(a)
{ reveal(gathered); reveal(ids_once);
  assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).1 != (#[trigger] a[j]).1 by { if a[i].1 == a[j].1 { assert(m.at(a[i].0) == m.at(a[j].0)); } } }
pub proof fn gathered_apart(m: Ids, base: int, e: Seq<bool>, a: Named, b: Named)
    requires gathered(m, base, e, true, a), gathered(m, base, e, false, b), ids_once(m, base)
    ensures apart(a, b)
{ reveal(gathered); reveal(ids_once);
  assert forall|i: int, j: int| #![trigger a[i], b[j]] 0 <= i < a.len() && 0 <= j < b.len() implies a[i].1 != b[j].1 by { if a[i].1 == b[j].1 { assert(m.at(a[i].0) == m.at(b[j].0)); } } }
pub proof fn given_none(m: Seq<u64>, out: Named, base: int, first: int) ensures given(m, out, 0, base, first) { reveal(given); }
pub proof fn given_step(m: Seq<u64>, out: Named, n: int, base: int, first: int, x: u64)
    requires given(m, out, n, base, first), ids_differ(out), ids_in(out, base, m.len() as int), 0 <= n < out.len(), x == first + n + 1
    ensures given(m.update(out[n].1 - base - 1, x), out, n + 1, base, first)
{ reveal(given); let m2 = m.update(out[n].1 - base - 1, x); assert forall|i: int| 0 <= i < n + 1 implies m2[(#[trigger] out[i]).1 - base - 1] == first + i + 1 by { if i < n { assert(out[i].1 != out[n].1); assert(m[out[i].1 - base - 1] == first + i + 1); } } }
pub proof fn given_other(m: Seq<u64>, a: Named, out: Named, n: int, base: int, first: int, x: u64)
    requires given(m, a, a.len() as int, base, first), apart(a, out), ids_in(a, base, m.len() as int), ids_in(out, base, m.len() as int), 0 <= n < out.len()
    ensures given(m.update(out[n].1 - base - 1, x), a, a.len() as int, base, first)
{ reveal(given); let m2 = m.update(out[n].1 - base - 1, x); assert forall|i: int| 0 <= i < a.len() implies m2[(#[trigger] a[i]).1 - base - 1] == first + i + 1 by { assert(a[i].1 != out[n].1); assert(m[a[i].1 - base - 1] == first + i + 1); } }
/// no more names than ids
pub proof fn pigeons(a: Named, b: Named, base: int, n: int)
    requires ids_differ(a), ids_differ(b), apart(a, b), ids_in(a, base, n), ids_in(b, base, n), n >= 0
    ensures a.len() + b.len() <= n
{
    let s = Seq::new(a.len() + b.len(), |i: int| if i < a.len() { a[i].1 as int } else { b[i - a.len()].1 as int });
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            let k = a.len() as int; let (x, y) = if i < j { (i, j) } else { (j, i) };
            if y < k { assert(a[x].1 != a[y].1); } else if x >= k { assert(b[x - k].1 != b[y - k].1); } else { assert(a[x].1 != b[y - k].1); }
        }
    }
    s.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(base + 1, base + n + 1);
    vstd::set_lib::lemma_int_range(base + 1, base + n + 1);
    assert(s.to_set().subset_of(r)) by { assert forall|x: int| s.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; } }
    vstd::set_lib::lemma_len_subset(s.to_set(), r);
}
pub proof fn noop_within(a: Seq<IdTriple>, r: Seq<IdTriple>, a0: Seq<IdTriple>, r0: Seq<IdTriple>, nv: int, p: int, onv: int, op: int, a2: Seq<IdTriple>, r2: Seq<IdTriple>)
    requires noop_add(a, r, a2), noop_rem(a, r, onv, op, r2), same_set(a0, a), same_set(r0, r), all_within(a0, nv, p), all_within(r0, nv, p), nv >= 0, p >= 0
    ensures all_within(a2, nv, p), all_within(r2, nv, p)
{
    reveal(noop_add); reveal(noop_rem); reveal(all_within);
    assert forall|i: int| 0 <= i < a2.len() implies within(#[trigger] a2[i], nv, p) by { assert(a.contains(a[i])); assert(a0.contains(a[i])); let j = choose|j: int| 0 <= j < a0.len() && a0[j] == a[i]; assert(within(a0[j], nv, p)); }
    assert forall|i: int| 0 <= i < r2.len() implies within(#[trigger] r2[i], nv, p) by { assert(r.contains(r[i])); assert(r0.contains(r[i])); let j = choose|j: int| 0 <= j < r0.len() && r0[j] == r[i]; assert(within(r0[j], nv, p)); }
}
pub proof fn marks_none(e: Seq<bool>, s: Seq<IdTriple>, base: int) requires forall|i: int| 0 <= i < e.len() ==> !(#[trigger] e[i]) ensures marks(e, s, 0, base), pmarks(e, s, 0, base) { reveal(marks); reveal(pmarks); }
pub proof fn renames_none(a: Seq<IdTriple>, m: Seq<u64>, pm: Seq<u64>, nv: int, p: int) ensures renames(a, m, pm, nv, p, 0, a) { reveal(renames); }
pub proof fn renames_step(a: Seq<IdTriple>, m: Seq<u64>, pm: Seq<u64>, nv: int, p: int, n: int, b: Seq<IdTriple>)
    requires renames(a, m, pm, nv, p, n, b), 0 <= n < a.len()
    ensures b.len() == a.len(), b[n] == a[n], renames(a, m, pm, nv, p, n + 1, b.update(n, renamed(a[n], m, pm, nv, p)))
{ reveal(renames); }
