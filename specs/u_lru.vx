#![feature(allocator_api)]
// The read cache in front of an archive backend. The cache is shared between tasks: whoever holds its lock must leave it within its
// limit, with only stored bytes in it, and with the unfinished lookups of other tasks still there; whoever takes the lock finds it so.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::io;
use std::ops::Range;
use std::io::ErrorKind;
verus! {
global size_of usize == 8;
broadcast use {codec::axiom_be8, codec::axiom_la_enc, codec::axiom_la_len, frame::lemma_same_but};
@@include text.inc
@@include fs.inc
@@include lines.inc
@@include names.inc
@@include names_decl.inc
@@include archive.inc
@@include archive_trait.inc
#[verifier::external_body]
pub fn __panic() -> ! requires false { unimplemented!() }
pub fn __assert(b: bool) requires b { }

// ---- one task's lookup that others wait for
#[verifier::external_body]
pub struct Barrier { }
/// the layer a lookup is for
pub uninterp spec fn sought(b: int) -> [u32; 5];
/// a lookup another task had under way for this layer failed
pub uninterp spec fn failed_elsewhere(id: [u32; 5]) -> bool;
impl Barrier {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(of: Ghost<[u32; 5]>, b: &mut Bars) -> (r: Barrier)
        ensures !old(b).own().contains(r.id()), sought(r.id()) == of@, final(b).own() == old(b).own().insert(r.id()), final(b).outcome() == old(b).outcome().insert(r.id(), None) { unimplemented!() }
    /// only its task writes the outcome; everyone else waits until that task is done
    #[verifier::external_body]
    pub fn write(&self, b: &mut Bars) -> (r: &mut Option<Result<Bytes, ErrorKind>>)
        requires old(b).own().contains(self.id()), old(b).outcome()[self.id()] is None
        ensures *r == old(b).outcome()[self.id()], final(b).own() == old(b).own(), final(b).outcome() == old(b).outcome().insert(self.id(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn read<M: ArchiveMetadataBackend, D: ArchiveBackend>(&self, b: &Bars, w: &mut World, o: Ghost<(M, D)>) -> (r: &Option<Result<Bytes, ErrorKind>>)
        requires !b.own().contains(self.id())
        ensures later(o@.0, o@.1, *old(w), *final(w)), old(w).fault() ==> final(w).fault(), *r is Some, ((*r)->0 matches Ok(x) ==> o@.1.stored(*final(w), sought(self.id())) == Some(x@)), (*r)->0 is Err ==> failed_elsewhere(sought(self.id())) { unimplemented!() }
}
impl Clone for Barrier { #[verifier::external_body] fn clone(&self) -> (r: Barrier) ensures r.id() == self.id() { unimplemented!() } }
/// the lookups of this task
#[verifier::external_body]
pub struct Bars { }
impl Bars {
    pub uninterp spec fn own(&self) -> Set<int>;
    pub uninterp spec fn outcome(&self) -> Map<int, Option<Result<Bytes, ErrorKind>>>;
    /// each has an outcome, and found bytes are stored bytes
    pub open spec fn told<D: ArchiveBackend>(&self, o: D, w: World) -> bool {
        forall|b: int| #[trigger] self.own().contains(b) ==> (self.outcome()[b] matches Some(x) && (x matches Ok(v) ==> o.stored(w, sought(b)) == Some(v@)))
    }
}
/// what other tasks may do meanwhile: store layers that were not there
pub open spec fn later<M: ArchiveMetadataBackend, D: ArchiveBackend>(m: M, d: D, v: World, w: World) -> bool { later_data(d, v, w) && (m.mok(v) ==> m.mok(w)) }
pub open spec fn later_data<D: ArchiveBackend>(d: D, v: World, w: World) -> bool {
    &&& forall|id: [u32; 5]| (#[trigger] d.stored(v, id)) is Some ==> d.stored(w, id) == d.stored(v, id)
    &&& forall|id: [u32; 5]| d.stored(v, id) is None && (#[trigger] d.stored(w, id)) is Some ==> parent_ok(d.stored(w, id)->0)
    &&& d.ok(v) ==> d.ok(w)
}
pub proof fn lemma_same<M: ArchiveMetadataBackend, D: ArchiveBackend>(m: M, d: D, a: World, b: World, c: World) requires later(m, d, a, b), later(m, d, b, c) ensures later(m, d, a, c)
{
    assert forall|id: [u32; 5]| (#[trigger] d.stored(a, id)) is Some implies d.stored(c, id) == d.stored(a, id) by { assert(d.stored(b, id) is Some); }
    assert forall|id: [u32; 5]| d.stored(a, id) is None && (#[trigger] d.stored(c, id)) is Some implies parent_ok(d.stored(c, id)->0) by { if d.stored(b, id) is Some { assert(parent_ok(d.stored(b, id)->0)); assert(d.stored(c, id) == d.stored(b, id)); } }
}

pub proof fn lemma_disk<M: ArchiveMetadataBackend, D: ArchiveBackend>(m: M, d: D, v: World, w: World) requires same_disk(v, w) ensures later(m, d, v, w) { m.mstored_same(v, w); d.stored_same(v, w); }
// ---- the cache: entries from least to most recently used
pub type E = ([u32; 5], CacheEntry);
@@item storage/archive.rs :: enum CacheEntry
@flag pub
@derive
@subst Arc < tokio :: sync :: RwLock < Option < Result < Bytes , io :: ErrorKind >> >> => Barrier
@@end
pub open spec fn bar(e: CacheEntry) -> Option<int> { match e { CacheEntry::Resolving(b) => Some(b.id()), _ => None } }
pub open spec fn same_entry(a: CacheEntry, b: CacheEntry) -> bool { match (a, b) { (CacheEntry::Resolving(x), CacheEntry::Resolving(y)) => x.id() == y.id(), (CacheEntry::Resolved(x), CacheEntry::Resolved(y)) => x@ == y@, _ => false } }
pub trait Cl: Sized { spec fn src(self) -> Option<CacheEntry>; fn __cl(self) -> (r: Option<CacheEntry>) ensures match r { Some(e) => self.src() matches Some(y) && same_entry(e, y), None => self.src() is None }; }
impl<'a> Cl for Option<&'a CacheEntry> {
    open spec fn src(self) -> Option<CacheEntry> { match self { Some(e) => Some(*e), None => None } }
    fn __cl(self) -> (r: Option<CacheEntry>)
    { match self { Some(CacheEntry::Resolving(b)) => Some(CacheEntry::Resolving(b.clone())), Some(CacheEntry::Resolved(b)) => Some(CacheEntry::Resolved(b.clone())), None => None } }
}
impl CacheEntry {
@@fn storage/archive.rs :: impl CacheEntry :: is_resolving
@ret r
@props A23
@spec
    ensures r == (self is Resolving)
@@end
}
pub open spec fn distinct(s: Seq<E>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn knows(s: Seq<E>, k: [u32; 5]) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn ix(s: Seq<E>, k: [u32; 5]) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn to_end(s: Seq<E>, i: int) -> Seq<E> { s.remove(i).push(s[i]) }
pub open spec fn size(e: CacheEntry) -> nat { match e { CacheEntry::Resolved(b) => b@.len(), _ => 0 } }
pub open spec fn used(s: Seq<E>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { used(s.drop_last()) + size(s.last().1) } }
/// the layers held, except x
pub open spec fn sel(s: Seq<E>, x: Option<[u32; 5]>) -> Seq<E> decreases s.len() { if s.len() == 0 { seq![] } else { let t = sel(s.drop_last(), x); if s.last().1 is Resolved && Some(s.last().0) != x { t.push(s.last()) } else { t } } }
pub open spec fn suffix(a: Seq<E>, b: Seq<E>) -> bool { b.len() <= a.len() && b == a.subrange(a.len() - b.len(), a.len() as int) }
/// an unfinished lookup of a layer
pub open spec fn held(s: Seq<E>, k: [u32; 5], b: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && bar(s[i].1) == Some(b) }
pub open spec fn good<D: ArchiveBackend>(s: Seq<E>, o: D, w: World, lim: int) -> bool {
    &&& distinct(s) && used(s) <= lim
    &&& forall|i: int| 0 <= i < s.len() ==> entry_good(#[trigger] s[i], o, w)
}
pub open spec fn entry_good<D: ArchiveBackend>(e: E, o: D, w: World) -> bool { match e.1 { CacheEntry::Resolved(b) => o.stored(w, e.0) == Some(b@), CacheEntry::Resolving(b) => sought(b.id()) == e.0 } }
/// unfinished lookups of other tasks are left alone, and apart from one layer the least recently used ones go first
pub open spec fn fair(s: Seq<E>, t: Seq<E>, own: Set<int>) -> bool { forall|k: [u32; 5], b: int| !own.contains(b) && #[trigger] held(s, k, b) ==> held(t, k, b) }
pub open spec fn ordered_but(s: Seq<E>, t: Seq<E>, k: [u32; 5]) -> bool { suffix(sel(s, Some(k)), sel(t, Some(k))) }
pub open spec fn ordered(s: Seq<E>, t: Seq<E>) -> bool { exists|k: [u32; 5]| #[trigger] ordered_but(s, t, k) }
pub open spec fn keeps(s: Seq<E>, t: Seq<E>, own: Set<int>) -> bool { forall|k: [u32; 5], b: int| own.contains(b) && #[trigger] held(s, k, b) ==> held(t, k, b) }

pub proof fn lemma_add(a: Seq<E>, b: Seq<E>, x: Option<[u32; 5]>) ensures used(a + b) == used(a) + used(b), sel(a + b, x) == sel(a, x) + sel(b, x) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(sel(a, x) + sel(b, x) =~= sel(a, x)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_add(a, b.drop_last(), x);
        assert((a + b).last() == b.last());
        assert(sel(a + b, x) =~= sel(a, x) + sel(b, x));
    }
}
pub proof fn lemma_one(e: E, x: Option<[u32; 5]>) ensures used(seq![e]) == size(e.1), sel(seq![e], x) == (if e.1 is Resolved && Some(e.0) != x { seq![e] } else { seq![] })
{
    assert(seq![e].drop_last() =~= seq![]);
    assert(used(seq![e].drop_last()) == 0); assert(sel(seq![e].drop_last(), x) =~= seq![]);
    assert(sel(seq![e], x) =~= (if e.1 is Resolved && Some(e.0) != x { seq![e] } else { seq![] }));
}
/// around entry i
pub proof fn lemma_at(s: Seq<E>, i: int, x: Option<[u32; 5]>) requires 0 <= i < s.len()
    ensures used(s.remove(i)) == used(s) - size(s[i].1),
        sel(s, x) == sel(s.subrange(0, i), x) + sel(seq![s[i]], x) + sel(s.subrange(i + 1, s.len() as int), x), sel(s.remove(i), x) == sel(s.subrange(0, i), x) + sel(s.subrange(i + 1, s.len() as int), x)
{
    let a = s.subrange(0, i); let e = seq![s[i]]; let b = s.subrange(i + 1, s.len() as int);
    assert(s =~= a + e + b); assert(s.remove(i) =~= a + b);
    lemma_add(a + e, b, x); lemma_add(a, e, x); lemma_add(a, b, x); lemma_one(s[i], x);
}
pub proof fn lemma_push(s: Seq<E>, e: E, x: Option<[u32; 5]>) ensures used(s.push(e)) == used(s) + size(e.1), sel(s.push(e), x) == sel(s, x) + sel(seq![e], x)
{ assert(s.push(e) =~= s + seq![e]); lemma_add(s, seq![e], x); lemma_one(e, x); }
pub proof fn lemma_first(s: Seq<E>, x: Option<[u32; 5]>) requires s.len() > 0 ensures used(s.drop_first()) == used(s) - size(s[0].1), sel(s, x) == sel(seq![s[0]], x) + sel(s.drop_first(), x)
{ assert(s =~= seq![s[0]] + s.drop_first()); lemma_add(seq![s[0]], s.drop_first(), x); lemma_one(s[0], x); }
/// moving an entry to the end changes nothing but the place of that entry
pub proof fn lemma_to_end(s: Seq<E>, i: int) requires distinct(s), 0 <= i < s.len()
    ensures distinct(to_end(s, i)), used(to_end(s, i)) == used(s), to_end(s, i).len() == s.len(), forall|k: [u32; 5], b: int| #[trigger] held(to_end(s, i), k, b) == held(s, k, b),
        forall|k: [u32; 5]| knows(to_end(s, i), k) == #[trigger] knows(s, k), sel(to_end(s, i), Some(s[i].0)) == sel(s, Some(s[i].0)), forall|e: E| #[trigger] to_end(s, i).contains(e) == s.contains(e),
        !(s[i].1 is Resolved) ==> sel(to_end(s, i), None) == sel(s, None),
{
    let t = to_end(s, i);
    lemma_at(s, i, Some(s[i].0)); lemma_push(s.remove(i), s[i], Some(s[i].0)); lemma_at(s, i, None); lemma_push(s.remove(i), s[i], None);
    lemma_one(s[i], Some(s[i].0)); lemma_one(s[i], None);
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == (if j < i { s[j] } else if j < s.len() - 1 { s[j + 1] } else { s[i] }) by { }
    assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] == (if j < i { t[j] } else if j == i { t[s.len() - 1] } else { t[j - 1] }) by { }
    assert(sel(t, Some(s[i].0)) =~= sel(s, Some(s[i].0)));
    if !(s[i].1 is Resolved) { assert(sel(t, None) =~= sel(s, None)); }
    assert forall|k: [u32; 5], b: int| #[trigger] held(t, k, b) == held(s, k, b) by {
        if held(t, k, b) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && bar(t[j].1) == Some(b); let q = if j < i { j } else if j < s.len() - 1 { j + 1 } else { i }; assert(s[q] == t[j]); }
        if held(s, k, b) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k && bar(s[j].1) == Some(b); let q = if j < i { j } else if j == i { s.len() - 1 } else { j - 1 }; assert(t[q] == s[j]); }
    }
    assert forall|k: [u32; 5]| knows(t, k) == #[trigger] knows(s, k) by {
        if knows(t, k) { let j = ix(t, k); let q = if j < i { j } else if j < s.len() - 1 { j + 1 } else { i }; assert(s[q] == t[j]); }
        if knows(s, k) { let j = ix(s, k); let q = if j < i { j } else if j == i { s.len() - 1 } else { j - 1 }; assert(t[q] == s[j]); }
    }
    assert forall|e: E| #[trigger] t.contains(e) == s.contains(e) by {
        if t.contains(e) { let j = choose|j: int| 0 <= j < t.len() && t[j] == e; let q = if j < i { j } else if j < s.len() - 1 { j + 1 } else { i }; assert(s[q] == e); }
        if s.contains(e) { let j = choose|j: int| 0 <= j < s.len() && s[j] == e; let q = if j < i { j } else if j == i { s.len() - 1 } else { j - 1 }; assert(t[q] == e); }
    }
}
/// taking an entry away
pub proof fn lemma_drop(s: Seq<E>, i: int) requires distinct(s), 0 <= i < s.len()
    ensures distinct(s.remove(i)), !knows(s.remove(i), s[i].0), used(s.remove(i)) == used(s) - size(s[i].1), sel(s.remove(i), Some(s[i].0)) == sel(s, Some(s[i].0)),
        forall|k: [u32; 5], b: int| k != s[i].0 || s[i].1 is Resolved ==> #[trigger] held(s.remove(i), k, b) == held(s, k, b), forall|e: E| #[trigger] s.remove(i).contains(e) ==> s.contains(e),
        !(s[i].1 is Resolved) ==> sel(s.remove(i), None) == sel(s, None),
{
    let t = s.remove(i);
    lemma_at(s, i, Some(s[i].0)); lemma_one(s[i], Some(s[i].0)); lemma_at(s, i, None); lemma_one(s[i], None);
    assert(sel(t, Some(s[i].0)) =~= sel(s, Some(s[i].0)));
    if !(s[i].1 is Resolved) { assert(sel(t, None) =~= sel(s, None)); }
    assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == (if j < i { s[j] } else { s[j + 1] }) by { }
    assert forall|k: [u32; 5], b: int| k != s[i].0 || s[i].1 is Resolved implies #[trigger] held(t, k, b) == held(s, k, b) by {
        if held(t, k, b) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && bar(t[j].1) == Some(b); let q = if j < i { j } else { j + 1 }; assert(s[q] == t[j]); }
        if held(s, k, b) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k && bar(s[j].1) == Some(b); let q = if j < i { j } else { j - 1 }; assert(t[q] == s[j]); }
    }
    assert forall|e: E| #[trigger] t.contains(e) implies s.contains(e) by { let j = choose|j: int| 0 <= j < t.len() && t[j] == e; let q = if j < i { j } else { j + 1 }; assert(s[q] == e); }
}
/// adding an entry
pub proof fn lemma_new(s: Seq<E>, e: E) requires distinct(s), !knows(s, e.0)
    ensures distinct(s.push(e)), used(s.push(e)) == used(s) + size(e.1), sel(s.push(e), Some(e.0)) == sel(s, Some(e.0)), forall|k: [u32; 5], b: int| k != e.0 ==> #[trigger] held(s.push(e), k, b) == held(s, k, b),
        bar(e.1) is Some ==> held(s.push(e), e.0, bar(e.1)->0)
{
    let t = s.push(e);
    lemma_push(s, e, Some(e.0)); lemma_one(e, Some(e.0));
    assert(sel(t, Some(e.0)) =~= sel(s, Some(e.0)));
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { if j == s.len() { assert(s[i].0 != e.0); } }
    assert forall|k: [u32; 5], b: int| k != e.0 implies #[trigger] held(t, k, b) == held(s, k, b) by {
        if held(t, k, b) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k && bar(t[j].1) == Some(b); assert(s[j] == t[j]); }
        if held(s, k, b) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k && bar(s[j].1) == Some(b); assert(t[j] == s[j]); }
    }
    assert(t[s.len() as int] == e);
}
pub proof fn lemma_other(s: Seq<E>, k: [u32; 5]) requires forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k ==> !(s[i].1 is Resolved) ensures sel(s, Some(k)) == sel(s, None) decreases s.len()
{ if s.len() > 0 { assert(s.drop_last() =~= s.subrange(0, s.len() - 1)); assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).0 == k implies !(s.drop_last()[i].1 is Resolved) by { assert(s[i].0 == k); } lemma_other(s.drop_last(), k); } }
pub proof fn lemma_suffix(a: Seq<E>, b: Seq<E>, c: Seq<E>) requires suffix(a, b), suffix(b, c) ensures suffix(a, c) { assert(c =~= a.subrange(a.len() - c.len(), a.len() as int)); }
pub proof fn lemma_suffix_refl(a: Seq<E>) ensures suffix(a, a) { assert(a =~= a.subrange(0, a.len() as int)); }
/// how far the first held layer is
pub open spec fn first(s: Seq<E>) -> nat decreases s.len() { if s.len() == 0 { 0 } else if s[0].1 is Resolved { 0 } else { 1 + first(s.drop_first()) } }
pub proof fn lemma_first_moves(s: Seq<E>, e: E) requires sel(s, None).len() > 0 ensures first(s.push(e)) == first(s) decreases s.len()
{
    if s.len() > 0 { assert(s.push(e)[0] == s[0]); assert(s.push(e).drop_first() =~= s.drop_first().push(e)); if !(s[0].1 is Resolved) { lemma_first(s, None); lemma_one(s[0], None); assert(sel(s, None) =~= sel(s.drop_first(), None)); lemma_first_moves(s.drop_first(), e); } }
}
pub proof fn lemma_nonempty(s: Seq<E>) requires used(s) > 0 ensures sel(s, None).len() > 0 decreases s.len() { if s.len() > 0 { if !(s.last().1 is Resolved) { lemma_nonempty(s.drop_last()); } } }

// the lru crate's map (assumed)
#[verifier::external_body]
pub struct LruCache { }
impl LruCache {
    pub uninterp spec fn s(&self) -> Seq<E>;
    #[verifier::external_body]
    pub fn peek_lru(&self) -> (r: Option<(&[u32; 5], &CacheEntry)>) ensures match r { Some(e) => self.s().len() > 0 && *e.0 == self.s()[0].0 && *e.1 == self.s()[0].1, None => self.s().len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_lru(&mut self) -> (r: Option<([u32; 5], CacheEntry)>) ensures match r { Some(e) => old(self).s().len() > 0 && e == old(self).s()[0] && final(self).s() == old(self).s().drop_first(), None => old(self).s().len() == 0 && final(self).s() == old(self).s() } { unimplemented!() }
    #[verifier::external_body]
    pub fn promote(&mut self, k: &[u32; 5]) ensures final(self).s() == (if knows(old(self).s(), *k) { to_end(old(self).s(), ix(old(self).s(), *k)) } else { old(self).s() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn demote(&mut self, k: &[u32; 5]) ensures final(self).s() == (if knows(old(self).s(), *k) { seq![old(self).s()[ix(old(self).s(), *k)]] + old(self).s().remove(ix(old(self).s(), *k)) } else { old(self).s() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &[u32; 5]) -> (r: bool) ensures r == knows(self.s(), *k) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self, k: &[u32; 5]) -> (r: Option<&CacheEntry>) ensures match r { Some(e) => knows(self.s(), *k) && *e == self.s()[ix(self.s(), *k)].1, None => !knows(self.s(), *k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&mut self, k: &[u32; 5]) -> (r: Option<&CacheEntry>)
        ensures match r { Some(e) => knows(old(self).s(), *k) && *e == old(self).s()[ix(old(self).s(), *k)].1 && final(self).s() == to_end(old(self).s(), ix(old(self).s(), *k)), None => !knows(old(self).s(), *k) && final(self).s() == old(self).s() } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &[u32; 5]) -> (r: Option<&mut CacheEntry>)
        ensures match r { Some(e) => knows(old(self).s(), *k) && *e == old(self).s()[ix(old(self).s(), *k)].1 && final(self).s() == old(self).s().remove(ix(old(self).s(), *k)).push((*k, *final(e))), None => !knows(old(self).s(), *k) && final(self).s() == old(self).s() } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, k: &[u32; 5]) -> (r: Option<CacheEntry>)
        ensures match r { Some(e) => knows(old(self).s(), *k) && e == old(self).s()[ix(old(self).s(), *k)].1 && final(self).s() == old(self).s().remove(ix(old(self).s(), *k)), None => !knows(old(self).s(), *k) && final(self).s() == old(self).s() } { unimplemented!() }
    #[verifier::external_body]
    pub fn __get_or_insert(&mut self, k: [u32; 5], v: CacheEntry)
        ensures final(self).s() == (if knows(old(self).s(), k) { to_end(old(self).s(), ix(old(self).s(), k)) } else { old(self).s().push((k, v)) }) { unimplemented!() }
    /// most recently used first
    #[verifier::external_body]
    pub fn iter(&self) -> (r: LruIter<'_>) ensures r.left() == self.s().reverse() { unimplemented!() }
}
#[verifier::external_body]
pub struct LruIter<'a> { c: core::marker::PhantomData<&'a u8> }
impl<'a> LruIter<'a> {
    pub uninterp spec fn left(&self) -> Seq<E>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a [u32; 5], &'a CacheEntry)>)
        ensures match r { Some(e) => old(self).left().len() > 0 && *e.0 == old(self).left()[0].0 && *e.1 == old(self).left()[0].1 && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
pub fn __into_iter<'a>(x: LruIter<'a>) -> (r: LruIter<'a>) ensures r == x { x }

// ---- room in the cache
@@fn storage/archive.rs :: fn ensure_additional_cache_space
@props A23
@attr #[verifier::loop_isolation(false)]
@subst LruCache < [ u32 ; 5 ] , CacheEntry > => LruCache
@pre peek . 0 . clone ( ) => *peek.0
@spec
    requires distinct(old(cache).s()), used(old(cache).s()) >= required
    ensures ({ let s = old(cache).s(); let t = final(cache).s();
        distinct(t) && used(t) <= used(s) - required && suffix(sel(s, None), sel(t, None)) && (forall|k: [u32; 5], b: int| #[trigger] held(t, k, b) == held(s, k, b)) && (forall|e: E| #[trigger] t.contains(e) ==> s.contains(e)) })
@at start
let ghost s0 = cache.s();
let ghost req = required as int;
proof { lemma_suffix_refl(sel(s0, None)); }
@loop 0
invariant
    required > 0, distinct(cache.s()), used(cache.s()) >= required, used(s0) - used(cache.s()) == req - required, suffix(sel(s0, None), sel(cache.s(), None)),
    forall|k: [u32; 5], b: int| #[trigger] held(cache.s(), k, b) == held(s0, k, b), forall|e: E| #[trigger] cache.s().contains(e) ==> s0.contains(e),
decreases sel(cache.s(), None).len(), first(cache.s())
@at loopstart 0
let ghost s = cache.s();
proof { lemma_nonempty(s); lemma_first(s, None); lemma_one(s[0], None); lemma_drop(s, 0); lemma_to_end(s, 0); assert(s.remove(0) =~= s.drop_first());
    if s[0].1 is Resolving {
        let id = s[0].0;
        assert(ix(s, id) == 0) by { assert(knows(s, id)); if ix(s, id) > 0 { assert(s[0].0 != s[ix(s, id)].0); } }
        assert(sel(s, None) =~= sel(s.drop_first(), None));
        lemma_first_moves(s.drop_first(), s[0]);
    }
}
@at return#1
proof {
    assert(sel(s.drop_first(), None) =~= sel(s, None).subrange(1, sel(s, None).len() as int));
    lemma_suffix(sel(s0, None), sel(s, None), sel(s.drop_first(), None));
}
@at loopend 0
proof {
    assert(sel(s.drop_first(), None) =~= sel(s, None).subrange(1, sel(s, None).len() as int));
    lemma_suffix(sel(s0, None), sel(s, None), sel(s.drop_first(), None));
}
@@end
@@fn storage/archive.rs :: fn ensure_enough_cache_space
@ret r
@props A23
@subst LruCache < [ u32 ; 5 ] , CacheEntry > => LruCache
@spec
    requires distinct(old(cache).s()), used(old(cache).s()) == current, current <= limit
    ensures ({ let s = old(cache).s(); let t = final(cache).s();
        r == (required <= limit) && distinct(t) && (r ==> used(t) + required <= limit) && (!r ==> t == s)
        && suffix(sel(s, None), sel(t, None)) && (forall|k: [u32; 5], b: int| #[trigger] held(t, k, b) == held(s, k, b)) && (forall|e: E| #[trigger] t.contains(e) ==> s.contains(e)) })
@at start
proof { lemma_suffix_refl(sel(cache.s(), None)); }
@@end
@@fn storage/archive.rs :: fn current_cache_size
@ret r
@props A23
@flag opaque-iter
@subst LruCache < [ u32 ; 5 ] , CacheEntry > => LruCache
@spec
    requires used(cache.s()) <= usize::MAX
    ensures r == used(cache.s())
@at start
let ghost mut n = cache.s().len() as int;
proof { assert(cache.s().reverse().len() == n); assert(cache.s().subrange(0, n) =~= cache.s()); }
@loop c0
invariant
    0 <= n <= cache.s().len(), __c0_i.left() == cache.s().subrange(0, n).reverse(), __c0_acc + used(cache.s().subrange(0, n)) == used(cache.s()), used(cache.s()) <= usize::MAX,
ensures n == 0
decreases n
@at loopstart c0
proof {
    let a = cache.s().subrange(0, n); let b = cache.s().subrange(0, n - 1);
    assert(a.drop_last() =~= b); assert(a.last() == cache.s()[n - 1]); assert(a.reverse().drop_first() =~= b.reverse());
    assert(used(a) == used(b) + size(a.last().1));
    n = n - 1;
}
@@end
@@fn storage/archive.rs :: fn drop_from_cache
@props A23
@subst LruCache < [ u32 ; 5 ] , CacheEntry > => LruCache
@spec
    requires distinct(old(cache).s()), knows(old(cache).s(), id)
    ensures final(cache).s() == old(cache).s().remove(ix(old(cache).s(), id))
@at call pop_lru
proof { let s = old(cache).s(); let i = ix(s, id); assert((seq![s[i]] + s.remove(i)).drop_first() =~= s.remove(i)); }
@@end

// ---- the lock on the cache: a task that takes it finds the cache as other tasks must leave it, and must leave it so itself
pub struct Shared { pub cache: LruCache, pub snap: Ghost<Seq<E>> }
impl Shared {
    pub open spec fn left(&self, own: Set<int>) -> bool { fair(self.snap@, self.cache.s(), own) && ordered(self.snap@, self.cache.s()) }
}
pub struct CacheLock { }
impl CacheLock {
    #[verifier::external_body]
    pub fn __lock<M: ArchiveMetadataBackend, D: ArchiveBackend>(&self, c: &mut Shared, b: &Bars, w: &mut World, o: Ghost<(M, D)>, lim: Ghost<int>) -> (r: &mut LruCache)
        requires old(c).left(b.own()), good(old(c).cache.s(), o@.1, *old(w), lim@)
        ensures later(o@.0, o@.1, *old(w), *final(w)), old(w).fault() ==> final(w).fault(), good(r.s(), o@.1, *final(w), lim@), keeps(old(c).cache.s(), r.s(), b.own()),
            final(c).snap@ == r.s(), final(c).cache == *final(r) { unimplemented!() }
    pub fn lock<M: ArchiveMetadataBackend, D: ArchiveBackend>(&self, c: &mut Shared, b: &Bars, w: &mut World, o: Ghost<(M, D)>, lim: Ghost<int>) -> (r: &mut LruCache)
        requires old(c).left(b.own()), good(old(c).cache.s(), o@.1, *old(w), lim@), o@.1.ok(*old(w))
        ensures later(o@.0, o@.1, *old(w), *final(w)), old(w).fault() ==> final(w).fault(), good(r.s(), o@.1, *final(w), lim@), keeps(old(c).cache.s(), r.s(), b.own()),
            final(c).snap@ == r.s(), final(c).cache == *final(r),
            // what follows from that
            ordered(r.s(), r.s()), forall|i: int| 0 <= i < r.s().len() && (#[trigger] r.s()[i]).1 is Resolved ==> arch_ok(r.s()[i].1->Resolved_0@), ahead(o@.0, o@.1, r.s(), lim@, *old(w), *final(w))
    {
        let r = self.__lock::<M, D>(c, b, w, o, lim);
        proof {
            let s = r.s();
            let k: [u32; 5] = arbitrary();
            lemma_suffix_refl(sel(s, Some(k))); assert(ordered_but(s, s, k));
            assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1 is Resolved implies arch_ok(s[i].1->Resolved_0@) by { assert(entry_good(s[i], o@.1, *w)); o@.1.stored_ok(*w, s[i].0); }
            lemma_ahead(o@.0, o@.1, s, lim@, *old(w), *w);
        }
        r
    }
}
/// looking at the disk afterwards keeps all that
pub open spec fn ahead<M: ArchiveMetadataBackend, D: ArchiveBackend>(m: M, d: D, s: Seq<E>, lim: int, u: World, v: World) -> bool {
    &&& forall|w: World| #[trigger] same_disk(v, w) ==> later(m, d, u, w) && good(s, d, w, lim) && m.mok(v) == m.mok(w)
    &&& forall|w: World, id: [u32; 5]| #![trigger same_disk(v, w), d.stored(w, id)] same_disk(v, w) ==> d.stored(v, id) == d.stored(w, id)
}
pub proof fn lemma_ahead<M: ArchiveMetadataBackend, D: ArchiveBackend>(m: M, d: D, s: Seq<E>, lim: int, u: World, v: World) requires later(m, d, u, v), good(s, d, v, lim) ensures ahead(m, d, s, lim, u, v)
{
    assert forall|w: World| #[trigger] same_disk(v, w) implies later(m, d, u, w) && good(s, d, w, lim) && m.mok(v) == m.mok(w) by {
        lemma_disk(m, d, v, w); lemma_same(m, d, u, v, w); d.stored_same(v, w); m.mstored_same(v, w);
        assert forall|i: int| 0 <= i < s.len() implies entry_good(#[trigger] s[i], d, w) by { assert(entry_good(s[i], d, v)); }
    }
    assert forall|w: World, id: [u32; 5]| #![trigger same_disk(v, w), d.stored(w, id)] same_disk(v, w) implies d.stored(v, id) == d.stored(w, id) by { d.stored_same(v, w); }
}
/// giving the lock back
pub fn __release(c: &mut LruCache) ensures *final(c) == *old(c) { }
pub enum Either<L, R> { Left(L), Right(R) }
#[verifier::external_body]
pub fn __outcome(x: &Result<Bytes, io::Error>) -> (r: Result<Bytes, ErrorKind>) ensures match r { Ok(b) => *x matches Ok(y) && b@ == y@, Err(_) => *x is Err } { unimplemented!() }
pub proof fn lemma_good_part<D: ArchiveBackend>(s: Seq<E>, t: Seq<E>, o: D, w: World)
    requires forall|i: int| 0 <= i < s.len() ==> entry_good(#[trigger] s[i], o, w), forall|e: E| #[trigger] t.contains(e) ==> s.contains(e)
    ensures forall|i: int| 0 <= i < t.len() ==> entry_good(#[trigger] t[i], o, w)
{
    assert forall|i: int| 0 <= i < t.len() implies entry_good(#[trigger] t[i], o, w) by { assert(t.contains(t[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[i]; assert(entry_good(s[j], o, w)); }
}
/// the place of an unfinished lookup
pub proof fn lemma_mine(s: Seq<E>, id: [u32; 5], bid: int)
    requires distinct(s), held(s, id, bid)
    ensures knows(s, id), 0 <= ix(s, id) < s.len(), s[ix(s, id)].0 == id, bar(s[ix(s, id)].1) == Some(bid), sel(s, Some(id)) == sel(s, None), forall|x: int| #[trigger] held(s, id, x) ==> x == bid
{
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == id && bar(s[j].1) == Some(bid);
    assert(s[j].0 == id);
    assert(knows(s, id));
    let i = ix(s, id);
    if i < j { assert(s[i].0 != s[j].0); } if j < i { assert(s[j].0 != s[i].0); }
    assert forall|q: int| 0 <= q < s.len() && (#[trigger] s[q]).0 == id implies !(s[q].1 is Resolved) by { if q < j { assert(s[q].0 != s[j].0); } if j < q { assert(s[j].0 != s[q].0); } }
    lemma_other(s, id);
    assert forall|x: int| #[trigger] held(s, id, x) implies x == bid by { let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).0 == id && bar(s[q].1) == Some(x); if q < j { assert(s[q].0 != s[j].0); } if j < q { assert(s[j].0 != s[q].0); } }
}
pub open spec fn closed(s: Seq<E>, t: Seq<E>, id: [u32; 5], bid: int) -> bool {
    ordered_but(s, t, id) && (forall|k: [u32; 5], x: int| x != bid && #[trigger] held(s, k, x) ==> held(t, k, x)) && (forall|k: [u32; 5]| !#[trigger] held(t, k, bid))
}
pub proof fn lemma_gone<D: ArchiveBackend>(s: Seq<E>, id: [u32; 5], bid: int, o: D, w: World, lim: int)
    requires good(s, o, w, lim), held(s, id, bid), sought(bid) == id
    ensures ({ let t = s.remove(ix(s, id)); good(t, o, w, lim) && closed(s, t, id, bid) })
{
    lemma_mine(s, id, bid); let i = ix(s, id); let t = s.remove(i);
    lemma_drop(s, i); lemma_good_part(s, t, o, w); lemma_suffix_refl(sel(s, Some(id)));
    assert forall|k: [u32; 5]| !#[trigger] held(t, k, bid) by { if held(t, k, bid) { let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).0 == k && bar(t[q].1) == Some(bid); assert(entry_good(t[q], o, w)); assert(k == id); assert(knows(t, id)); } }
}
pub proof fn lemma_found<D: ArchiveBackend>(s: Seq<E>, u: Seq<E>, t: Seq<E>, id: [u32; 5], bid: int, o: D, w: World, lim: int)
    requires good(s, o, w, lim), held(s, id, bid), sought(bid) == id, distinct(u), suffix(sel(s, None), sel(u, None)), forall|k: [u32; 5], b: int| #[trigger] held(u, k, b) == held(s, k, b), forall|e: E| #[trigger] u.contains(e) ==> s.contains(e),
        t.len() > 0, t == u.remove(ix(u, id)).push(t.last()), t.last().0 == id, t.last().1 is Resolved, o.stored(w, id) == Some(t.last().1->Resolved_0@), used(u) + size(t.last().1) <= lim
    ensures good(t, o, w, lim), closed(s, t, id, bid)
{
    lemma_mine(s, id, bid);
    assert(held(u, id, bid)); lemma_mine(u, id, bid);
    let i = ix(u, id); let v = u.remove(i);
    lemma_drop(u, i); lemma_new(v, t.last()); lemma_good_part(s, u, o, w); lemma_good_part(u, v, o, w);
    assert forall|q: int| 0 <= q < t.len() implies entry_good(#[trigger] t[q], o, w) by { if q < v.len() { assert(t[q] == v[q]); assert(entry_good(v[q], o, w)); } }
    assert forall|k: [u32; 5], x: int| x != bid && #[trigger] held(s, k, x) implies held(t, k, x) by { assert(held(u, k, x)); assert(k != id); assert(held(v, k, x)); }
    assert forall|k: [u32; 5]| !#[trigger] held(t, k, bid) by { if held(t, k, bid) { let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).0 == k && bar(t[q].1) == Some(bid); assert(entry_good(t[q], o, w)); assert(k == id); assert(q < v.len()); assert(v[q].0 == id); assert(knows(v, id)); } }
}
@@item storage/archive.rs :: struct BytesAsyncReader
@flag pub
@@end
@@item storage/archive.rs :: struct LruArchiveBackend
@flag pub
@derive
@subst Arc < tokio :: sync :: Mutex < LruCache < [ u32 ; 5 ] , CacheEntry >> > => CacheLock
@@end
impl<M: ArchiveMetadataBackend, D: ArchiveBackend> LruArchiveBackend<M, D> {
    pub open spec fn lim(&self) -> int { self.limit * 1048576 }
    pub open spec fn o(&self) -> (M, D) { (self.metadata_origin, self.data_origin) }
    /// both origins see the same layers
    pub open spec fn linked(&self) -> bool { forall|w: World, id: [u32; 5]| #[trigger] self.metadata_origin.mstored(w, id) == self.data_origin.stored(w, id) }
    /// as every task finds and leaves it
    pub open spec fn wf(&self, c: Shared, b: Bars, w: World) -> bool {
        self.lim() <= usize::MAX && self.linked() && self.data_origin.ok(w) && c.left(b.own()) && good(c.cache.s(), self.data_origin, w, self.lim())
    }
    pub open spec fn at(&self, w: World, id: [u32; 5]) -> Option<Seq<u8>> { self.data_origin.stored(w, id) }
    pub open spec fn moved(&self, v: World, w: World) -> bool { later(self.metadata_origin, self.data_origin, v, w) }
    /// this task leaves no lookup unfinished
    pub open spec fn over(&self, c: Shared, b: Bars, w: World) -> bool { b.told(self.data_origin, w) && forall|k: [u32; 5], x: int| b.own().contains(x) ==> !#[trigger] held(c.cache.s(), k, x) }
    pub proof fn lemma_step(&self, c: Shared, b: Bars, v: World, w: World) requires self.wf(c, b, v), same_disk(v, w) ensures self.wf(c, b, w), self.moved(v, w), self.metadata_origin.mok(v) == self.metadata_origin.mok(w), forall|id: [u32; 5]| #[trigger] self.at(v, id) == self.at(w, id)
    {
        lemma_disk(self.metadata_origin, self.data_origin, v, w); self.data_origin.stored_same(v, w); self.metadata_origin.mstored_same(v, w);
        let s = c.cache.s();
        assert forall|i: int| 0 <= i < s.len() implies entry_good(#[trigger] s[i], self.data_origin, w) by { assert(entry_good(s[i], self.data_origin, v)); }
    }
    pub proof fn lemma_then(&self, a: World, b: World, c: World) requires self.moved(a, b), self.moved(b, c) ensures self.moved(a, c) { lemma_same(self.metadata_origin, self.data_origin, a, b, c); }
@@fn storage/archive.rs :: impl LruArchiveBackend :: new
@ret r
@props A16 A23
@pre Arc :: new ( tokio :: sync :: Mutex :: new ( LruCache :: unbounded ( ) ) ) => CacheLock { }
@spec
    ensures r.metadata_origin == metadata_origin && r.data_origin == data_origin && r.limit == limit
@@end
@@fn storage/archive.rs :: impl LruArchiveBackend :: limit_bytes
@ret r
@props A23
@spec
    requires self.lim() <= usize::MAX
    ensures r == self.lim()
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for LruArchiveBackend :: get_layer_bytes
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre std :: mem :: drop ( cache ) => __release(cache)
@pre barrier . read ( ) => barrier.read::<M, D>(b, w, Ghost(self.o()))
@pre barrier . write ( ) => barrier.write(b)
@pre Arc :: new ( tokio :: sync :: RwLock :: new ( None ) ) => Barrier::new(Ghost(id), b)
@pre cache . get_or_insert ( id , || CacheEntry :: Resolving ( barrier . clone ( ) ) ) => cache.__get_or_insert(id, CacheEntry::Resolving(barrier.clone()))
@pre lookup . as_ref ( ) . map_err ( | e | e . kind ( ) ) . cloned ( ) => __outcome(&lookup)
@pre . cloned ( ) => .__cl()
@pre self . data_origin . get_layer_bytes ( id ) => self.data_origin.get_layer_bytes(id, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty()
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), self.over(*final(c), *final(b), *final(w)), knows(final(c).cache.s(), id) ==> final(c).cache.s().last().0 == id, match r {
        Ok(x) => self.at(*final(w), id) == Some(x@),
        Err(_) => final(w).fault() || self.at(*old(w), id) is None || failed_elsewhere(id) }
@at let cache#1
let ghost s1 = cache.s();
let ghost w1 = *w;
@at let cached#1
let ghost t1 = cache.s();
proof {
    if knows(s1, id) { lemma_to_end(s1, ix(s1, id)); assert(entry_good(s1[ix(s1, id)], self.data_origin, w1)); }
    lemma_good_part(s1, t1, self.data_origin, w1);
    lemma_suffix_refl(sel(s1, Some(id)));
    assert(ordered_but(s1, t1, id));
}
@at let barrier
let ghost own = b.own();
@at let guard
proof { lemma_same(self.metadata_origin, self.data_origin, *old(w), w1, *w); }
@at call __release#1
let ghost t2 = cache.s();
proof {
    lemma_new(s1, t2.last());
    assert(t2.last().0 == id && bar(t2.last().1) == Some(barrier.id()));
    assert forall|i: int| 0 <= i < t2.len() implies entry_good(#[trigger] t2[i], self.data_origin, w1) by { if i < s1.len() { assert(t2[i] == s1[i]); assert(entry_good(s1[i], self.data_origin, w1)); } }
    assert(fair(s1, t2, own)) by { assert forall|k: [u32; 5], x: int| #[trigger] held(s1, k, x) implies held(t2, k, x) by { if k == id { assert(knows(s1, id)); } } }
    assert(ordered_but(s1, t2, id));
}
let ghost bid = barrier.id();
@at let lookup
proof { lemma_disk(self.metadata_origin, self.data_origin, w1, *w); self.data_origin.stored_same(w1, *w); lemma_same(self.metadata_origin, self.data_origin, *old(w), w1, *w); }
let ghost w3 = *w;
@at let cache#0
proof { lemma_same(self.metadata_origin, self.data_origin, *old(w), w3, *w); }
let ghost s2 = cache.s();
let ghost w2 = *w;
proof { assert(held(t2, id, bid)); assert(held(s2, id, bid)); lemma_mine(s2, id, bid); }
let ghost mut s3 = s2;
let ghost mut fits = false;
@at call get_mut
proof { s3 = cache.s(); fits = true; lemma_mine(s3, id, bid); }
@at call Ok#0
proof { if fits { lemma_found(s2, s3, cache.s(), id, bid, self.data_origin, w2, self.lim()); } else { lemma_gone(s2, id, bid, self.data_origin, w2, self.lim()); } }
@at call Err#0
proof { lemma_gone(s2, id, bid, self.data_origin, w2, self.lim()); }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: layer_exists
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre self . metadata_origin . layer_exists ( id ) => self.metadata_origin.layer_exists(id, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), *final(b) == *old(b), match r {
        Ok(x) => x == self.at(*final(w), id) is Some, Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: layer_size
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre self . metadata_origin . layer_size ( id ) => self.metadata_origin.layer_size(id, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), *final(b) == *old(b), match r {
        Ok(n) => self.at(*final(w), id) is Some && n == self.at(*final(w), id)->0.len(), Err(_) => final(w).fault() || self.at(*old(w), id) is None }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: layer_file_exists
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre self . metadata_origin . layer_file_exists ( id , file_type ) => self.metadata_origin.layer_file_exists(id,file_type, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), *final(b) == *old(b), match r {
        Ok(x) => x == (self.at(*final(w), id) is Some && arch_file(self.at(*final(w), id)->0, file_type) is Some), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: get_layer_structure_size
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre self . metadata_origin . get_layer_structure_size ( id , file_type ) => self.metadata_origin.get_layer_structure_size(id,file_type, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), *final(b) == *old(b), match r {
        Ok(n) => self.at(*final(w), id) is Some && (arch_file(self.at(*final(w), id)->0, file_type) matches Some(f) && n == f.len()), Err(_) => final(w).fault() || self.at(*old(w), id) is None || arch_file(self.at(*final(w), id)->0, file_type) is None }
@at call size_of
proof { if bit(header.p(), file_type as int) { part_in_range(header.p(), header.e(), file_type as int); } }
@@end
@@fn storage/archive.rs :: impl LruArchiveBackend :: layer_fits_in_cache
@ret r
@props A23
@pre self . layer_size ( id ) => self.layer_size(id, c, b, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), *final(b) == *old(b), r is Err ==> final(w).fault() || self.at(*old(w), id) is None
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for LruArchiveBackend :: get_layer_structure_bytes
@ret r
@props A16 A23
@pre self . layer_fits_in_cache ( id ) => self.layer_fits_in_cache(id, c, b, w)
@pre self . get_layer_bytes ( id ) => self.get_layer_bytes(id, c, b, w)
@pre self . data_origin . get_layer_structure_bytes ( id , file_type ) => self.data_origin.get_layer_structure_bytes(id, file_type, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w))
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), self.over(*final(c), *final(b), *final(w)), match r {
        Ok(x) => self.at(*final(w), id) is Some && arch_file(self.at(*final(w), id)->0, file_type) == opt_bytes(x),
        Err(_) => final(w).fault() || self.at(*old(w), id) is None || failed_elsewhere(id) }
@at call get_layer_bytes
let ghost w1 = *w;
@at let bytes
proof { self.lemma_then(*old(w), w1, *w); self.data_origin.stored_ok(*w, id); }
@at call get_layer_structure_bytes
proof { lemma_ahead(self.metadata_origin, self.data_origin, c.cache.s(), self.lim(), *old(w), *w); }
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for LruArchiveBackend :: read_layer_structure_bytes_from
@ret r
@props A16 A23
@subst Self :: Read => Either<BytesAsyncReader, D::Read>
@pre self . layer_fits_in_cache ( id ) => self.layer_fits_in_cache(id, c, b, w)
@pre self . get_layer_structure_bytes ( id , file_type ) => self.get_layer_structure_bytes(id, file_type, c, b, w)
@pre self . data_origin . read_layer_structure_bytes_from ( id , file_type , read_from ) => self.data_origin.read_layer_structure_bytes_from(id, file_type, read_from, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w)), self.at(*old(w), id) is Some, (arch_file(self.at(*old(w), id)->0, file_type) matches Some(f) && read_from > f.len()) ==> false
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), self.over(*final(c), *final(b), *final(w)), match r {
        Ok(Either::Left(x)) => arch_file(self.at(*old(w), id)->0, file_type) matches Some(f) && x.0@ == f.subrange(read_from as int, f.len() as int),
        Ok(Either::Right(x)) => arch_file(self.at(*old(w), id)->0, file_type) matches Some(f) && D::unread(x, *final(w)) == f.subrange(read_from as int, f.len() as int),
        Err(_) => final(w).fault() || arch_file(self.at(*old(w), id)->0, file_type) is None || failed_elsewhere(id) }
@at call get_layer_structure_bytes
let ghost w1 = *w;
@at let bytes
proof { self.lemma_then(*old(w), w1, *w); }
@at call read_layer_structure_bytes_from
proof { lemma_ahead(self.metadata_origin, self.data_origin, c.cache.s(), self.lim(), *old(w), *w); }
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for LruArchiveBackend :: store_layer_file
@ret r
@props A16 A23
@pre self . cache . lock ( ) . await => self.cache.lock::<M, D>(c, b, w, Ghost(self.o()), Ghost(self.lim()))
@pre self . data_origin . store_layer_file ( id , bytes . clone ( ) ) => self.data_origin.store_layer_file(id, bytes.clone(), w)
@pre cache . get_or_insert ( id , move || CacheEntry :: Resolved ( bytes ) ) => cache.__get_or_insert(id, CacheEntry::Resolved(bytes))
@pre & mut cache => &mut *cache
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.at(*old(w), id) is None, arch_ok(bytes@), parent_ok(bytes@)
    ensures *final(b) == *old(b), r is Ok ==> self.wf(*final(c), *final(b), *final(w)) && later_data(self.data_origin, *old(w), *final(w)), match r {
        Ok(_) => self.at(*final(w), id) == Some(bytes@), Err(_) => final(w).fault() || self.data_origin.blocked(*old(w)) }
@at call lock
let ghost w1 = *w;
proof {
    let s = c.cache.s();
    assert forall|i: int| 0 <= i < s.len() implies entry_good(#[trigger] s[i], self.data_origin, w1) by { assert(entry_good(s[i], self.data_origin, *old(w))); }
    assert(later_data(self.data_origin, *old(w), w1));
}
@at let cache
let ghost s1 = cache.s();
proof {
    assert(later_data(self.data_origin, *old(w), *w)) by {
        assert forall|o: [u32; 5]| (#[trigger] self.data_origin.stored(*old(w), o)) is Some implies self.data_origin.stored(*w, o) == self.data_origin.stored(*old(w), o) by { assert(self.data_origin.stored(w1, o) is Some); }
        assert forall|o: [u32; 5]| self.data_origin.stored(*old(w), o) is None && (#[trigger] self.data_origin.stored(*w, o)) is Some implies parent_ok(self.data_origin.stored(*w, o)->0) by { if self.data_origin.stored(w1, o) is Some { assert(parent_ok(self.data_origin.stored(w1, o)->0)); assert(self.data_origin.stored(*w, o) == self.data_origin.stored(w1, o)); } }
    }
    if !knows(s1, id) { lemma_other(s1, id); }
}
@at call __get_or_insert
let ghost s2 = cache.s();
proof {
    assert(!knows(s2, id)) by { if knows(s2, id) { assert(s2.contains(s2[ix(s2, id)])); let q = choose|q: int| 0 <= q < s1.len() && s1[q] == s2[ix(s2, id)]; assert(s1[q].0 == id); } }
    lemma_good_part(s1, s2, self.data_origin, *w);
    lemma_other(s2, id);
    assert forall|e: CacheEntry| true implies (#[trigger] s2.push((id, e)))[s2.len() as int] == (id, e) by { }
    let t = s2.push((id, CacheEntry::Resolved(bytes)));
    lemma_new(s2, (id, CacheEntry::Resolved(bytes)));
    assert forall|i: int| 0 <= i < t.len() implies entry_good(#[trigger] t[i], self.data_origin, *w) by { if i < s2.len() { assert(t[i] == s2[i]); assert(entry_good(s2[i], self.data_origin, *w)); } }
    assert(fair(s1, t, b.own())) by { assert forall|k: [u32; 5], x: int| #[trigger] held(s1, k, x) implies held(t, k, x) by { assert(held(s2, k, x)); if k == id { assert(knows(s2, id)); } } }
    assert(ordered_but(s1, t, id));
}
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: get_rollup
@ret r
@props A08 A16
@thread w : &mut World ; get_rollup
@spec
    requires self.metadata_origin.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(x) => final(w).fault() || x == (if self.metadata_origin.mstored(*old(w), id) is Some { self.metadata_origin.rollup(*old(w), id) } else { None }), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: set_rollup
@ret r
@props A08 A16
@thread w : &mut World ; set_rollup
@spec
    requires self.metadata_origin.mok(*old(w))
    ensures match r { Ok(_) => self.metadata_origin.mok(*final(w)) && self.metadata_origin.rollup(*final(w), id) == Some(rollup)
            && (forall|o: [u32; 5]| #[trigger] self.metadata_origin.mstored(*final(w), o) == self.metadata_origin.mstored(*old(w), o)) && (forall|o: [u32; 5]| o != id ==> #[trigger] self.metadata_origin.rollup(*final(w), o) == self.metadata_origin.rollup(*old(w), o)),
        Err(_) => final(w).fault() || self.metadata_origin.mstored(*old(w), id) is None }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for LruArchiveBackend :: get_parent
@ret r
@props A12 A16
@pre std :: str :: from_utf8 ( & parent_bytes [ .. 40 ] ) . unwrap ( ) => __utf8(parent_bytes.__head(40))
@pre self . get_layer_structure_bytes ( id , LayerFileEnum :: Parent ) => self.get_layer_structure_bytes(id, LayerFileEnum::Parent, c, b, w)
@param c : &mut Shared
@param b : &mut Bars
@param w : &mut World
@spec
    requires self.wf(*old(c), *old(b), *old(w)), old(b).own() == Set::<int>::empty(), self.metadata_origin.mok(*old(w)), self.at(*old(w), id) is Some ==> parent_ok(self.at(*old(w), id)->0)
    ensures self.wf(*final(c), *final(b), *final(w)), self.moved(*old(w), *final(w)), self.over(*final(c), *final(b), *final(w)), match r {
        Ok(x) => self.at(*final(w), id) is Some && x == parent_of(self.at(*final(w), id)->0),
        Err(_) => final(w).fault() || self.at(*old(w), id) is None || failed_elsewhere(id) }
@@end
}
} fn main() {}
