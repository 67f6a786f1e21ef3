// Loading layers, parents and rollups, and what is asked about a layer without loading it.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::sync::Arc;
use std::io;
verus! {
global size_of usize == 8;
@@include text.inc
@@include names.inc
@@include names_decl.inc
@@include lines.inc
@@include label_text.inc
@@include succinct.inc
@@include layer.inc
@@include index.inc
@@item layer/layer.rs :: struct IdTriple
@flag pub
@@end
@@include ids.inc
@@include lstore.inc
#[verifier::external_body] pub struct Path { _x: () }
#[verifier::external_body] pub struct OptInternalLayerTripleSubjectIterator { _x: () }
impl OptInternalLayerTripleSubjectIterator {
    pub uninterp spec fn yields(&self, t: IdTriple) -> bool;
    pub open spec fn lists(&self, f: spec_fn(IdTriple) -> bool) -> bool { forall|t: IdTriple| #[trigger] self.yields(t) <==> f(t) }
}
pub fn __try_into(x: u64) -> (r: usize) ensures r == x { x as usize }
@@include stored.inc
@@include layout.inc
pub open spec fn named(t: Seq<char>) -> Option<Name5> { text_name(t) }
pub open spec fn text_lines(t: Seq<char>) -> Seq<Seq<char>> { lines(t) }
@@include steps.inc
@@include layer_files_decl.inc
@@include stored_io.inc
@@include load_decl.inc
pub assume_specification [String::as_bytes](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
// ---- names in files
@@fn storage/layer.rs :: fn bytes_to_name
@ret r
@pre String :: from_utf8_lossy => __lossy
@props A17
@spec ensures match r { Ok(n) => bytes@.len() == 40 && text_name(lossy(bytes@)) == Some(n), Err(_) => bytes@.len() != 40 || text_name(lossy(bytes@)) is None }
@@end
pub open spec fn rollup_text(x: Name5) -> Seq<char> { label_text(Some(x), 1) }
/// what is written for a rollup reads back
pub proof fn rollup_text_reads(x: Name5)
    ensures ({ let l = lines(lossy(encode_utf8(rollup_text(x)))); l.len() == 2 && text_name(l[1]) == Some(x) })
{
    let s = rollup_text(x);
    lemma_label_text(Some(x), 1);
    encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); axiom_lossy(encode_utf8(s));
    let l = lines(s);
    assert(l.len() == 2 && l[1].len() != 0 && text_name(l[1]) == Some(x));
}
pub proof fn rollup_fmt()
    ensures forall|v: nat, n: [u32; 5], x: [FArg; 2]| x@[0]@ == FA::N(v) && x@[1]@ == FA::S(name_text(n)) ==> fmt("{}\n{}\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(Some(n), v),
{
    assert forall|v: nat, n: [u32; 5], x: [FArg; 2]| x@[0]@ == FA::N(v) && x@[1]@ == FA::S(name_text(n)) implies fmt("{}\n{}\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(Some(n), v) by { lemma_text_some(v, n, fargs(x@)); }
}
/// what is written for a parent reads back
pub proof fn parent_text_reads(x: Name5)
    ensures encode_utf8(name_text(x)).len() == 40, text_name(lossy(encode_utf8(name_text(x)))) == Some(x)
{
    let s = name_text(x);
    lemma_name_text(x);
    assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\u{7f}' by { assert(plainc(s[i])); }
    lemma_ascii(s);
    encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s); axiom_lossy(encode_utf8(s));
}
@@include good.inc
impl Store {
    /// the layers that are there
    #[verifier::external_body] pub fn directories(&self, w: &mut World) -> (r: Result<Vec<Name5>, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(v) => forall|n: Name5| #[trigger] v@.contains(n) <==> dirs(old(w).disk()).contains(n), Err(_) => final(w).fault() } { unimplemented!() }
@@fn storage/layer.rs :: trait PersistentLayerStore :: read_parent_file
@ret r
@thread w : & mut World ; get_file open_read read_exact
@props A08 A12
@spec ensures read_only(*old(w), *final(w)), match r { Ok(x) => has_parent(old(w).disk(), dir_name) && parent_in(old(w).disk(), dir_name) == Some(x),
    Err(_) => final(w).fault() || gone(*old(w), dir_name) || !has_parent(old(w).disk(), dir_name) || parent_in(old(w).disk(), dir_name) is None }
@@end
@@fn storage/layer.rs :: trait PersistentLayerStore :: read_rollup_file
@ret r
@flag fmt
@pre String :: from_utf8_lossy => __lossy
@pre s . lines ( ) . collect ( ) => __lines ( & s )
@thread w : & mut World ; get_file open_read read_to_end
@props A08
@spec ensures read_only(*old(w), *final(w)), match r { Ok(x) => has_rollup(old(w).disk(), dir_name) && rollup_in(old(w).disk(), dir_name) == Some(x),
    Err(_) => final(w).fault() || gone(*old(w), dir_name) || !has_rollup(old(w).disk(), dir_name) || rollup_in(old(w).disk(), dir_name) is None }
@at call read_to_end
let ghost all = reader.left();
proof { assert(data@ + all =~= all); }
@@end
@@fn storage/layer.rs :: trait PersistentLayerStore :: write_parent_file
@ret r
@thread w : & mut World ; get_file open_write write_all flush sync_all
@props A12
@spec ensures wrote(*old(w), *final(w), loc(dir_name, FILENAMES.parent@)), match r { Ok(_) => has_parent(final(w).disk(), dir_name) && parent_in(final(w).disk(), dir_name) == Some(parent_name),
    Err(_) => final(w).fault() || gone(*old(w), dir_name) }
@at start
proof { parent_text_reads(parent_name); }
@at call flush
proof { assert(Seq::<u8>::empty() + encode_utf8(name_text(parent_name)) =~= encode_utf8(name_text(parent_name))); assert(encode_utf8(name_text(parent_name)).subrange(0, 40) =~= encode_utf8(name_text(parent_name))); }
@@end
@@fn storage/layer.rs :: trait PersistentLayerStore :: write_rollup_file
@ret r
@flag fmt
@thread w : & mut World ; get_file open_write write_all flush sync_all
@props A08
@spec ensures wrote(*old(w), *final(w), loc(dir_name, FILENAMES.rollup@)), match r { Ok(_) => has_rollup(final(w).disk(), dir_name) && rollup_in(final(w).disk(), dir_name) == Some(rollup_name),
    Err(_) => final(w).fault() || gone(*old(w), dir_name) }
@at start
broadcast use fmt_args;
proof { rollup_fmt(); rollup_text_reads(rollup_name); }
@at call flush
proof { assert(Seq::<u8>::empty() + encode_utf8(rollup_text(rollup_name)) =~= encode_utf8(rollup_text(rollup_name))); }
@@end
@@fn storage/layer.rs :: trait PersistentLayerStore :: layer_parent
@ret r
@thread w : & mut World ; directory_exists layer_has_parent read_parent_file
@props A12
@spec
    requires good(old(w).disk())
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => dirs(old(w).disk()).contains(name) && x == par_of(stored(old(w).disk()).lay, name), Err(_) => final(w).fault() || gone(*old(w), name) }
@at start
proof { if dirs(w.disk()).contains(name) { of_layer(w.disk(), name); } }
@@end
}
@@include rollup_apart.inc
pub proof fn rollup_written(a: Disk, b: Disk, n: Name5)
    requires touched(a, b, loc(n, FILENAMES.rollup@)), good(a), dirs(a).contains(n)
    ensures stored(b).lay == stored(a).lay, has_rollup(b, n) && (rollup_in(b, n) matches Some(x) && x != n) ==> stored(b) == registered(stored(a), n, rollup_in(b, n)->0)
{
    let (s, t) = (stored(a), stored(b));
    assert forall|m: Name5| true implies #[trigger] own_at(b, m) == own_at(a, m) && has_parent(b, m) == has_parent(a, m) && parent_in(b, m) == parent_in(a, m) by { own_kept(a, b, n, m); }
    assert forall|m: Name5| m != n implies #[trigger] has_rollup(b, m) == has_rollup(a, m) && rollup_in(b, m) == rollup_in(a, m) by { own_kept(a, b, n, m); }
    assert forall|m: Name5| true implies #[trigger] has_parent(b, m) == has_parent(a, m) && parent_in(b, m) == parent_in(a, m) by { own_kept(a, b, n, m); }
    assert(t.lay.own =~= s.lay.own);
    assert(t.lay.par =~= s.lay.par);
    if has_rollup(b, n) && (rollup_in(b, n) matches Some(x) && x != n) {
        assert(t.roll =~= s.roll.insert(n, rollup_in(b, n)->0));
    }
}
// ---- loading
impl RollupLayer {
@@fn layer/internal/rollup.rs :: impl RollupLayer :: from_base_layer
@ret r
@props A08
@spec ensures *r.internal == *layer, r.original == original, r.original_parent == original_parent
@@end
@@fn layer/internal/rollup.rs :: impl RollupLayer :: from_child_layer
@ret r
@props A08
@spec ensures *r.internal == *layer, r.original == original, r.original_parent == Some(original_parent)
@@end
}
pub trait __Into: Sized { spec fn layer(self) -> InternalLayer; fn __into(self) -> (r: InternalLayer) ensures r == self.layer(); }
impl __Into for InternalLayer { open spec fn layer(self) -> InternalLayer { self } fn __into(self) -> (r: InternalLayer) { self } }
impl __Into for RollupLayer { open spec fn layer(self) -> InternalLayer { InternalLayer::Rollup(self) } fn __into(self) -> (r: InternalLayer) { InternalLayer::from_rollup(self) } }
impl InternalLayer {
@@fn layer/internal/mod.rs :: impl From < RollupLayer > for InternalLayer :: from
@ret r
@name from_rollup
@props A08
@spec ensures r == InternalLayer::Rollup(layer)
@@end
}
// ---- loading: what is still to be loaded
pub type Entry = (Name5, Option<(Name5, Option<Name5>)>);
/// the layer whose files an entry is about
pub open spec fn cur(e: Entry) -> Name5 { match e.1 { Some(x) => x.0, None => e.0 } }
/// an entry's stand-in, if it has one, is one that is registered
pub open spec fn entry_ok(d: Data, e: Entry) -> bool {
    &&& there(d, e.0)
    &&& match e.1 { Some(x) => there(d, x.0) && represents(d.lay, e.0, x.0) && x.1 == par_of(d.lay, e.0) && properly_descends(d.roll, e.0, x.0), None => true }
}
pub open spec fn follows(d: Data, s: Seq<Entry>, i: int) -> bool { d.lay.par.contains_key(cur(s[i - 1])) && d.lay.par[cur(s[i - 1])] == s[i].0 }
/// the first entry is about `n`, each next one about the parent of the files of the one before
#[verifier::opaque]
pub open spec fn pile(d: Data, n: Name5, s: Seq<Entry>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> entry_ok(d, #[trigger] s[i])
    &&& forall|i: int| 0 < i < s.len() ==> #[trigger] follows(d, s, i)
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> ((#[trigger] s[i]).1 is None ==> !d.roll.contains_key(s[i].0))
    &&& (s.len() > 0 ==> s[0].0 == n)
}
/// all entries of the pile are settled and about children, and `b` is what the last one is on top of
pub open spec fn on_top(d: Data, n: Name5, s: Seq<Entry>, b: Name5) -> bool {
    &&& pile(d, n, s)
    &&& (s.len() > 0 ==> (s.last().1 is None ==> !d.roll.contains_key(s.last().0)) && d.lay.par.contains_key(cur(s.last())) && d.lay.par[cur(s.last())] == b)
    &&& (s.len() == 0 ==> b == n)
}
/// what is to be loaded has been: it is faithful, and a stand-in if one is registered
pub open spec fn settled(d: Data, n: Name5, x: &InternalLayer) -> bool {
    faithful(d.lay, n, *x) && (d.roll.contains_key(n) ==> (*x matches InternalLayer::Rollup(y) && stands_in(d, n, y.internal.lname())))
}
pub proof fn pile_first(d: Data, n: Name5, s: Seq<Entry>) requires s.len() == 1, s[0] == ((n, None)), there(d, n) ensures pile(d, n, s) { reveal(pile); }
pub proof fn pile_last(d: Data, n: Name5, s: Seq<Entry>) requires pile(d, n, s), s.len() > 0 ensures entry_ok(d, s.last()), s.len() == 1 ==> s.last().0 == n { reveal(pile); }
pub proof fn pile_pop(d: Data, n: Name5, s: Seq<Entry>) requires pile(d, n, s), s.len() > 0 ensures on_top(d, n, s.drop_last(), s.last().0), entry_ok(d, s.last()) {
    reveal(pile);
    let t = s.drop_last();
    assert forall|i: int| 0 <= i < t.len() implies entry_ok(d, #[trigger] t[i]) by { assert(t[i] == s[i]); }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] follows(d, t, i) by { assert(follows(d, s, i)); assert(t[i - 1] == s[i - 1] && t[i] == s[i]); }
    assert forall|i: int| 0 <= i < t.len() - 1 && (#[trigger] t[i]).1 is None implies !d.roll.contains_key(t[i].0) by { assert(t[i] == s[i]); }
    if s.len() > 1 { assert(follows(d, s, s.len() - 1)); assert(s[s.len() - 2] == t.last()); assert(s[s.len() - 1] == s.last()); }
}
/// a stand-in of the last entry is used in its place
pub proof fn pile_roll(d: Data, n: Name5, s: Seq<Entry>, e: Entry)
    requires ok(d), pile(d, n, s), s.len() > 0, d.roll.contains_key(cur(s.last())), e.0 == s.last().0, (e.1 matches Some(x) && x.0 == d.roll[cur(s.last())] && x.1 == par_of(d.lay, e.0))
    ensures pile(d, n, s.drop_last().push(e)), entry_ok(d, e)
{
    let l = s.last();
    let c = cur(l);
    assert(entry_ok(d, l)) by { reveal(pile); }
    let r = d.roll[c];
    let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
    assert(there(d, r));
    assert(represents(d.lay, c, r));
    if l.1 is Some {
        through(d.lay, e.0, c, r);
        let k = choose|k: nat| k > 0 && #[trigger] up(d.roll, e.0, k) == Some(c);
        up_more(d.roll, e.0, k, c);
        assert(up(d.roll, e.0, (k + 1) as nat) == Some(r));
    } else {
        assert(c == e.0);
        assert(up(d.roll, r, 0) == Some(r));
        assert(up(d.roll, e.0, 1) == Some(r));
    }
    assert(properly_descends(d.roll, e.0, r));
    reveal(pile);
    let t = s.drop_last().push(e);
    assert forall|i: int| 0 <= i < t.len() implies entry_ok(d, #[trigger] t[i]) by { if i < s.len() - 1 { assert(t[i] == s[i]); } }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] follows(d, t, i) by { assert(follows(d, s, i)); assert(t[i - 1] == s[i - 1]); assert(t[i].0 == s[i].0); }
    assert forall|i: int| 0 <= i < t.len() - 1 && (#[trigger] t[i]).1 is None implies !d.roll.contains_key(t[i].0) by { assert(t[i] == s[i]); }
}
/// a layer that answers as one does that answers as a third
pub proof fn through(l: Lay, a: Name5, b: Name5, c: Name5) requires represents(l, a, b), represents(l, b, c) ensures represents(l, a, c)
{
    assert forall|s: u64, p: u64, o: u64| #[trigger] truth(l, a, s, p, o) == truth(l, c, s, p, o) by { assert(truth(l, a, s, p, o) == truth(l, b, s, p, o)); }
    assert forall|id: int| #[trigger] id_name(l, a, id) == id_name(l, c, id) by { assert(id_name(l, a, id) == id_name(l, b, id)); }
    assert forall|id: int| #[trigger] id_pred(l, a, id) == id_pred(l, c, id) by { assert(id_pred(l, a, id) == id_pred(l, b, id)); }
}
pub proof fn up_more(m: Map<Name5, Name5>, d: Name5, k: nat, c: Name5) requires up(m, d, k) == Some(c), m.contains_key(c) ensures up(m, d, (k + 1) as nat) == Some(m[c]) decreases k
{ if k > 0 { up_more(m, m[d], (k - 1) as nat, c); assert(up(m, d, (k + 1) as nat) == up(m, m[d], k)); } else { assert(up(m, m[d], 0) == Some(m[d])); } }
/// the parent of the last entry's files comes next
pub proof fn pile_parent(d: Data, n: Name5, s: Seq<Entry>, e: Entry)
    requires ok(d), pile(d, n, s), s.len() > 0, !d.roll.contains_key(cur(s.last())), d.lay.par.contains_key(cur(s.last())), e == ((d.lay.par[cur(s.last())], None::<(Name5, Option<Name5>)>))
    ensures pile(d, n, s.push(e)), entry_ok(d, e)
{
    let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
    assert(there(d, e.0));
    reveal(pile);
    let t = s.push(e);
    assert forall|i: int| 0 <= i < t.len() implies entry_ok(d, #[trigger] t[i]) by { if i < s.len() { assert(t[i] == s[i]); } }
    assert forall|i: int| 0 < i < t.len() implies #[trigger] follows(d, t, i) by { assert(t[i - 1] == s[i - 1]); if i < s.len() { assert(follows(d, s, i)); assert(t[i] == s[i]); } }
    assert forall|i: int| 0 <= i < t.len() - 1 && (#[trigger] t[i]).1 is None implies !d.roll.contains_key(t[i].0) by { assert(t[i] == s[i]); }
}
/// a layer that is put together from another's files has a parent only if the layer it is for has one
pub proof fn roll_parent(l: Lay, n: Name5, x: &InternalLayer) requires faithful(l, n, *x), x.up() is Some ensures l.par.contains_key(n) decreases *x
{ match *x { InternalLayer::Rollup(r) => { roll_parent(l, r.internal.lname(), &*r.internal); }, _ => {} } }
/// a rollup is faithful to the layer it stands in for
pub proof fn roll_faithful(d: Data, e: Entry, i: &InternalLayer, x: &InternalLayer)
    requires entry_ok(d, e), e.1 is Some, faithful(d.lay, cur(e), *i), i.lname() == cur(e), (*x matches InternalLayer::Rollup(r) && *r.internal == *i && r.original == e.0 && r.original_parent == par_of(d.lay, e.0))
    ensures settled(d, e.0, x), x.lname() == e.0
{ }
pub proof fn only_world(c: Option<int>, a: World, b: World, x: &InternalLayer)
    requires good_world(a), b.disk() == a.disk(), only(c, a, b, x.lname()), faithful(stored(a.disk()).lay, x.lname(), *x), held(c, b, x.lname()) is None || held(c, b, x.lname()) == Some(*x)
    ensures good_world(b)
{ only_added(stored(a.disk()).lay, c, a, b, x); }
pub proof fn fewer_world(a: World, b: World) requires good_world(a), b.disk() == a.disk(), fewer(a, b) ensures good_world(b) { fewer_ok(stored(a.disk()).lay, a, b); }
pub broadcast proof fn same_name(a: Name5, b: Name5) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) ==> a == b { if a@ == b@ { assert(a =~= b); } }
pub broadcast proof fn registers(a: World, b: World, n: Name5)
    requires #[trigger] wrote(a, b, loc(n, FILENAMES.rollup@)), good_world(a), dirs(a.disk()).contains(n)
    ensures fewer(a, b), stored(b.disk()).lay == stored(a.disk()).lay, cells_ok(stored(a.disk()).lay, b),
        has_rollup(b.disk(), n) && (rollup_in(b.disk(), n) matches Some(x) && x != n) ==> stored(b.disk()) == registered(stored(a.disk()), n, rollup_in(b.disk(), n)->0)
{
    rollup_written(a.disk(), b.disk(), n);
    assert forall|c: int, m: Name5| #[trigger] b.cell(c).contains_key(m) implies a.cell(c).contains_key(m) && b.cell(c)[m] == a.cell(c)[m] by { assert(b.cell(c) == a.cell(c)); }
    fewer_ok(stored(a.disk()).lay, a, b);
}
/// what is loaded from a layer's own files is faithful
pub broadcast proof fn base_faithful(d: Disk, n: Name5, x: InternalLayer)
    requires good(d), dirs(d).contains(n), !has_parent(d, n), x is Base, x.lname() == n, x.own() == base_at(n).own(d)
    ensures #[trigger] faithful(stored(d).lay, n, x)
{ of_layer(d, n); }
pub broadcast proof fn child_faithful(d: Disk, n: Name5, x: InternalLayer)
    requires good(d), dirs(d).contains(n), has_parent(d, n), x is Child, x.lname() == n, x.own() == child_at(n).own(d),
        faithful(stored(d).lay, stored(d).lay.par[n], *x->Child_0.parent), x->Child_0.parent_node_value_count == x->Child_0.parent.nv_count(), x->Child_0.parent_predicate_count == x->Child_0.parent.p_count(),
    ensures #[trigger] faithful(stored(d).lay, n, x)
{ of_layer(d, n); ok_chains(stored(d)); faithful_answers(stored(d).lay, stored(d).lay.par[n], &*x->Child_0.parent); }
/// either a loaded layer to put the rest on top of, or a base layer to load first
pub open spec fn found(d: Data, n: Name5, s: Seq<Entry>, x: Option<Arc<InternalLayer>>) -> bool {
    match x {
        Some(x) => on_top(d, n, s, x.lname()) && faithful(d.lay, x.lname(), *x) && (s.len() == 0 ==> settled(d, n, &*x)),
        None => pile(d, n, s) && s.len() > 0 && !d.roll.contains_key(cur(s.last())) && !d.lay.par.contains_key(cur(s.last())) }
}
pub open spec fn layer_of(x: Option<Arc<InternalLayer>>) -> InternalLayer { match *(x->0) { InternalLayer::Rollup(r) => *r.internal, _ => *(x->0) } }
pub open spec fn flip<T>(s: Seq<T>) -> Seq<T> { s.reverse() }
pub trait __Rev<T> { spec fn items(&self) -> Seq<T>; fn __reverse(&mut self) ensures final(self).items() == old(self).items().reverse(); }
impl<T> __Rev<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ } #[verifier::external_body] fn __reverse(&mut self) { unimplemented!() } }
pub fn __assert(b: bool) requires b { }
#[verifier::external_body] pub fn __panic() -> ! requires false { panic!() }
/// the cache as it is used in loading: only what is faithful goes in
pub trait __Caching: Sized {
    spec fn at(&self) -> Option<int>;
    fn __get_layer_from_cache(&self, name: Name5, w: &mut World) -> (r: Option<Arc<InternalLayer>>)
        requires good_world(*old(w))
        ensures good_world(*final(w)), final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault(), forall|n: Name5| held(self.at(), *old(w), n) is None ==> held(self.at(), *final(w), n) is None,
            match r { Some(l) => held(self.at(), *old(w), name) == Some(*l) && faithful(stored(old(w).disk()).lay, name, *l) && l.lname() == name, None => held(self.at(), *final(w), name) is None };
    fn __cache_layer(&self, layer: Arc<InternalLayer>, w: &mut World)
        requires good_world(*old(w)), faithful(stored(old(w).disk()).lay, layer.lname(), *layer)
        ensures good_world(*final(w)), final(w).disk() == old(w).disk(), final(w).fault() == old(w).fault();
}
impl<C: LayerCache> __Caching for Arc<C> {
    open spec fn at(&self) -> Option<int> { (**self).cell() }
    fn __get_layer_from_cache(&self, name: Name5, w: &mut World) -> (r: Option<Arc<InternalLayer>>) {
        let ghost a = *w;
        let r = self.get_layer_from_cache(name, w);
        proof {
            fewer_world(a, *w);
            let c = (**self).cell();
            assert forall|n: Name5| held(c, a, n) is None implies held(c, *w, n) is None by { if c is Some { if w.cell(c->0).contains_key(n) { assert(a.cell(c->0).contains_key(n)); } } }
            if r is Some { cell_faithful(stored(a.disk()).lay, a, c->0, name); ok_chains(stored(a.disk())); faithful_answers(stored(a.disk()).lay, name, &*r->0); }
        }
        r
    }
    fn __cache_layer(&self, layer: Arc<InternalLayer>, w: &mut World) {
        let ghost a = *w;
        let ghost x = layer;
        self.cache_layer(layer, w);
        proof { only_world((**self).cell(), a, *w, &*x); }
    }
}
// ---- counts
pub uninterp spec fn dict_count(blocks: Seq<u8>) -> nat;
/// the number of entries of a stored dictionary is in its blocks file
pub broadcast axiom fn count_str(offsets: Seq<u8>, blocks: Seq<u8>) ensures #[trigger] str_dict(offsets, blocks)@.len() == dict_count(blocks);
pub broadcast axiom fn count_typed(a: Seq<u8>, b: Seq<u8>, offsets: Seq<u8>, blocks: Seq<u8>) ensures #[trigger] typed_dict(a, b, offsets, blocks)@.len() == dict_count(blocks);
#[verifier::external_body] pub fn dict_file_get_count(file: File, w: &mut World) -> (r: Result<u64, io::Error>)
    ensures read_only(*old(w), *final(w)), match r { Ok(x) => has_bytes(old(w).disk(), file.at()) && x == dict_count(by(old(w).disk(), file.at())), Err(_) => final(w).fault() || !has_bytes(old(w).disk(), file.at()) } { unimplemented!() }
pub proof fn nv_pos(l: Lay, n: Name5) requires finite_chains(l) ensures nv_count(l, n) >= l.own[n].nv(), l.own[n].nv() >= 0 decreases rank(l, n) { if l.par.contains_key(n) { nv_pos(l, l.par[n]); } }
pub broadcast proof fn layer_facts(d: Disk, n: Name5)
    requires good(d), #[trigger] dirs(d).contains(n)
    ensures there(stored(d), n), stored(d).lay.own[n] == own_at(d, n), own_at(d, n).wf(), own_at(d, n).whole, own_at(d, n).nd@.len() + own_at(d, n).vd@.len() < u64::MAX
{ of_layer(d, n); ok_chains(stored(d)); nv_pos(stored(d).lay, n); }
impl IdMap {
@@fn layer/id_map.rs :: impl IdMap :: from_parts
@ret r
@props A06
@spec ensures r.id_wtree == id_wtree
@@end
}
// ---- ancestry
pub proof fn desc_self(m: Map<Name5, Name5>, a: Name5) ensures descends(m, a, a) { assert(up(m, a, 0) == Some(a)); }
pub proof fn desc_step(m: Map<Name5, Name5>, x: Name5, a: Name5) requires m.contains_key(x), x != a ensures descends(m, x, a) == descends(m, m[x], a), properly_descends(m, x, a) == descends(m, m[x], a)
{
    if descends(m, x, a) { let k = choose|k: nat| #[trigger] up(m, x, k) == Some(a); assert(k > 0); assert(up(m, m[x], (k - 1) as nat) == Some(a)); }
    if descends(m, m[x], a) { let k = choose|k: nat| #[trigger] up(m, m[x], k) == Some(a); assert(up(m, x, (k + 1) as nat) == Some(a)); }
}
pub proof fn prop_step(m: Map<Name5, Name5>, x: Name5, u: Name5) requires m.contains_key(x), m[x] != u, properly_descends(m, x, u) ensures properly_descends(m, m[x], u)
{ let k = choose|k: nat| k > 0 && #[trigger] up(m, x, k) == Some(u); assert(up(m, m[x], (k - 1) as nat) == Some(u)); assert(k - 1 > 0); }
pub proof fn desc_end(m: Map<Name5, Name5>, x: Name5, a: Name5) requires !m.contains_key(x) ensures !properly_descends(m, x, a), x != a ==> !descends(m, x, a)
{ if descends(m, x, a) { let k = choose|k: nat| #[trigger] up(m, x, k) == Some(a); } }
pub open spec fn runs(m: Map<Name5, Name5>, s: Seq<Name5>, i: int) -> bool { m.contains_key(s[i - 1]) && m[s[i - 1]] == s[i] }
/// a parent chain, newest layer first
pub open spec fn run_up(m: Map<Name5, Name5>, n: Name5, s: Seq<Name5>) -> bool { s.len() > 0 && s[0] == n && forall|i: int| 0 < i < s.len() ==> #[trigger] runs(m, s, i) }
pub proof fn run_more(m: Map<Name5, Name5>, n: Name5, s: Seq<Name5>) requires run_up(m, n, s), m.contains_key(s.last()) ensures run_up(m, n, s.push(m[s.last()]))
{ let t = s.push(m[s.last()]); assert forall|i: int| 0 < i < t.len() implies #[trigger] runs(m, t, i) by { if i < s.len() { assert(runs(m, s, i)); } } }
pub proof fn run_chain(m: Map<Name5, Name5>, n: Name5, s: Seq<Name5>) requires run_up(m, n, s)
    ensures !m.contains_key(s.last()) ==> is_chain(m, n, s.reverse()),
        forall|u: Name5| m.contains_key(s.last()) && #[trigger] m[s.last()] == u && (forall|i: int| 0 <= i < s.len() - 1 ==> m[#[trigger] s[i]] != u) ==> is_chain_upto(m, n, u, s.reverse())
{
    let c = s.reverse();
    let k = s.len() as int;
    assert forall|i: int| 0 < i < c.len() implies m.contains_key(#[trigger] c[i]) && m[c[i]] == c[i - 1] by { assert(runs(m, s, k - i)); assert(c[i] == s[k - 1 - i]); assert(c[i - 1] == s[k - i]); }
    assert forall|u: Name5| m.contains_key(s.last()) && #[trigger] m[s.last()] == u && (forall|i: int| 0 <= i < s.len() - 1 ==> m[#[trigger] s[i]] != u) implies is_chain_upto(m, n, u, s.reverse()) by {
        assert forall|i: int| 0 < i < c.len() implies m.contains_key(#[trigger] c[i]) && m[c[i]] == c[i - 1] && c[i - 1] != u by { assert(m[c[i]] == c[i - 1]); assert(c[i] == s[k - 1 - i]); assert(k - 1 - i < k - 1); }
    }
}
impl LayerStore for Store {
    open spec fn data(&self, w: World) -> Data { stored(w.disk()) }
    proof fn data_same(&self, v: World, w: World) { }
    open spec fn forgotten(&self, w: World, n: Name5) -> bool { true }
    uninterp spec fn finalizes(s: Self, a: World, b: World, n: Name5, r: Result<(), io::Error>) -> bool;
    uninterp spec fn creates_base(s: Self, a: World, b: World, r: Result<Builder, io::Error>) -> bool;
    uninterp spec fn creates_child(s: Self, a: World, b: World, p: Name5, r: Result<Builder, io::Error>) -> bool;
    uninterp spec fn rolls(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool;
    uninterp spec fn rolls_roughly(s: Self, a: World, b: World, l: InternalLayer, upto: Name5, r: Result<Name5, io::Error>) -> bool;
    uninterp spec fn squashes(s: Self, a: World, b: World, l: InternalLayer, upto: Option<Name5>, r: Result<Name5, io::Error>) -> bool;
    uninterp spec fn merges(s: Self, a: World, b: World, ls: Seq<Name5>, r: Result<Name5, io::Error>) -> bool;
@@include lstore_stub_triples.inc
@@include lstore_stub_writes.inc
@@fn storage/layer.rs :: impl LayerStore for T :: layers
@ret r
@flag trait-fn
@thread w : & mut World ; directories
@props A19
@at start
broadcast use read_keeps;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_layer_with_cache
@ret r
@flag trait-fn
@thread w : & mut World ; __get_layer_from_cache directory_exists layer_has_rollup read_rollup_file layer_has_parent read_parent_file base_layer_files child_layer_files load_from_files __cache_layer
@pre . into ( ) => .__into()
@pre . reverse ( ) => .__reverse()
@subst dyn LayerCache => C
@subst fn get_layer_with_cache => fn get_layer_with_cache<C: LayerCache>
@pre . get_layer_from_cache => .__get_layer_from_cache
@pre . cache_layer => .__cache_layer
@props A08 A03 A05 A07 A20
@at start
broadcast use read_keeps, base_faithful;
let ghost d = stored(w.disk());
let ghost w0 = *w;
let ghost rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
@at beforeloop 0
proof { pile_first(d, name, layers_to_load@); }
@loop 0
invariant_except_break
    pile(d, name, layers_to_load@), layers_to_load@.len() > 0, ancestor is None,
invariant
    w0 == *old(w), d == stored(w0.disk()), ok(d), acyclic(d, rk), good_world(*w), w.disk() == w0.disk(), w0.fault() ==> w.fault(), there(d, name), held(cache.at(), *w, name) is None,
ensures
    good_world(*w), w.disk() == w0.disk(), w0.fault() ==> w.fault(),
    found(d, name, layers_to_load@, ancestor),
decreases rk(cur(layers_to_load@.last()))
@at loopstart 0
broadcast use read_keeps, same_name;
let ghost s0 = layers_to_load@;
let ghost e = s0.last();
proof { pile_last(d, name, s0); of_layer(w.disk(), cur(e)); of_layer(w.disk(), e.0); assert(d.roll.contains_key(cur(e)) ==> d.roll[cur(e)] != cur(e) && rollup_in(w.disk(), cur(e)) == Some(d.roll[cur(e)])); }
@at call pop
proof {
    pile_pop(d, name, s0);
    if layer.up() is Some { roll_parent(d.lay, cur(e), &*layer); }
}
@at break#0
proof { if e.1 is Some { let i = layer_of(ancestor); roll_faithful(d, e, &i, &*(ancestor->0)); } }
@at loopend 0
proof {
    let s1 = layers_to_load@;
    if d.roll.contains_key(cur(e)) { pile_roll(d, name, s0, s1.last()); assert(s1 =~= s0.drop_last().push(s1.last())); } else { pile_parent(d, name, s0, s1.last()); assert(s1 =~= s0.push(s1.last())); }
}
@at call is_none
let ghost s2 = layers_to_load@;
let ghost c2 = cur(s2.last());
let ghost fresh = ancestor is None;
proof { if fresh { pile_last(d, name, s2); pile_pop(d, name, s2); of_layer(w.disk(), c2); of_layer(w.disk(), s2.last().0); } }
@at call __cache_layer#1
proof { if s2.last().1 is Some { let i = layer_of(Some(layer)); roll_faithful(d, s2.last(), &i, &*layer); } }
@at call __cache_layer#3
proof { if e.1 is Some { let i = layer_of(Some(layer)); roll_faithful(d, e, &i, &*layer); } }
@at let ancestor#1
let ghost s3 = layers_to_load@;
proof { if fresh { assert(s3 =~= s2.drop_last()); if s2.last().1 is Some { let i = layer_of(Some(ancestor)); roll_faithful(d, s2.last(), &i, &*ancestor); } } }
@at beforeloop 1
let ghost mut left0 = layers_to_load@;
proof { assert(flip(left0) =~= s3); }
@loop 1
invariant
    w0 == *old(w), d == stored(w0.disk()), ok(d), good_world(*w), w.disk() == w0.disk(), w0.fault() ==> w.fault(), left0 == __f1.left(),
    on_top(d, name, flip(left0), ancestor.lname()), faithful(d.lay, ancestor.lname(), *ancestor), left0.len() == 0 ==> settled(d, name, &*ancestor),
ensures settled(d, name, &*ancestor), good_world(*w), w.disk() == w0.disk(), w0.fault() ==> w.fault(),
decreases left0.len()
@at loopstart 1
broadcast use read_keeps, child_faithful;
let ghost fl = flip(left0);
let ghost e = fl.last();
proof {
    assert(e == left0[0]);
    pile_last(d, name, fl); pile_pop(d, name, fl); of_layer(w.disk(), cur(e)); of_layer(w.disk(), e.0);
    ok_chains(d); faithful_answers(d.lay, ancestor.lname(), &*ancestor);
}
@at loopend 1
proof { if e.1 is Some { let i = layer_of(Some(ancestor)); roll_faithful(d, e, &i, &*ancestor); } assert(flip(__f1.left()) =~= fl.drop_last()); left0 = __f1.left(); }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: register_rollup
@ret r
@flag trait-fn
@thread w : & mut World ; write_rollup_file
@props A08
@at start
broadcast use registers, same_name;
proof { registered_ok(stored(w.disk()), layer, rollup); }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_layer_parent_name
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A12
@at start
broadcast use read_keeps;
proof { if dirs(w.disk()).contains(name) { of_layer(w.disk(), name); } }
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_node_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A05 A06
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_predicate_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A05 A06
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_value_dictionary
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A05 A06
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_node_count
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A07
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_predicate_count
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A07
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_value_count
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A07
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_node_value_idmap
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@pre util :: calculate_width => __calculate_width
@props A05 A06
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: get_predicate_idmap
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@pre util :: calculate_width => __calculate_width
@props A05 A06
@at start
broadcast use read_keeps, layer_facts, count_str, count_typed;
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: layer_is_ancestor_of
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@props A12
@at start
broadcast use read_keeps;
let ghost d = stored(w.disk());
let ghost d0 = descendant;
let ghost rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
@loopattr 0 #[verifier::loop_isolation(false)]
@loop 0
invariant
    d == stored(old(w).disk()), ok(d), acyclic(d, rk), good_world(*w), w.disk() == old(w).disk(), old(w).fault() ==> w.fault(),
    there(d, descendant), descends(d.lay.par, d0, ancestor) == descends(d.lay.par, descendant, ancestor),
decreases rk(descendant)
@at loopstart 0
broadcast use read_keeps, same_name;
let ghost at = descendant;
proof {
    of_layer(w.disk(), at); desc_self(d.lay.par, ancestor);
    if d.lay.par.contains_key(at) { if at != ancestor { desc_step(d.lay.par, at, ancestor); } } else { desc_end(d.lay.par, at, ancestor); }
}
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: retrieve_layer_stack_names
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@pre . reverse ( ) => .__reverse()
@props A12
@at start
broadcast use read_keeps;
let ghost d = stored(w.disk());
let ghost rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
@loop 0
invariant
    d == stored(old(w).disk()), ok(d), acyclic(d, rk), good_world(*w), w.disk() == old(w).disk(), old(w).fault() ==> w.fault(),
    result@.len() > 0, there(d, result@.last()), run_up(d.lay.par, name, result@),
decreases rk(result@.last())
@at loopstart 0
broadcast use read_keeps, same_name;
let ghost at = result@.last();
proof {
    of_layer(w.disk(), at);
    if d.lay.par.contains_key(at) { run_more(d.lay.par, name, result@); } run_chain(d.lay.par, name, result@);
}
@@end
@@fn storage/layer.rs :: impl LayerStore for T :: retrieve_layer_stack_names_upto
@ret r
@flag trait-fn
@thread w : & mut World ; directory_exists node_dictionary_files predicate_dictionary_files value_dictionary_files node_value_idmap_files predicate_idmap_files map_all map_all_if_exists dict_file_get_count get_node_count get_predicate_count get_value_count layer_has_parent read_parent_file layer_parent layer_has_rollup read_rollup_file
@pre . reverse ( ) => .__reverse()
@props A12 A08
@at start
broadcast use read_keeps;
let ghost d = stored(w.disk());
let ghost rk = choose|rk: spec_fn(Name5) -> nat| acyclic(d, rk);
@loop 0
invariant
    d == stored(old(w).disk()), ok(d), acyclic(d, rk), good_world(*w), w.disk() == old(w).disk(), old(w).fault() ==> w.fault(),
    result@.len() > 0, there(d, result@.last()), run_up(d.lay.par, name, result@),
    properly_descends(d.lay.par, name, upto) ==> properly_descends(d.lay.par, result@.last(), upto), forall|i: int| 0 <= i < result@.len() - 1 ==> d.lay.par[#[trigger] result@[i]] != upto,
ensures is_chain_upto(d.lay.par, name, upto, result@.reverse()), good_world(*w), w.disk() == old(w).disk(), old(w).fault() ==> w.fault(), d == stored(old(w).disk())
decreases rk(result@.last())
@at loopstart 0
broadcast use read_keeps, same_name;
let ghost at = result@.last();
proof {
    of_layer(w.disk(), at);
    if d.lay.par.contains_key(at) { run_more(d.lay.par, name, result@); } run_chain(d.lay.par, name, result@);
    if d.lay.par.contains_key(at) { if d.lay.par[at] != upto && properly_descends(d.lay.par, at, upto) { prop_step(d.lay.par, at, upto); } } else { desc_end(d.lay.par, at, upto); }
}
@@end
}
}
fn main() {}
