#![feature(allocator_api)]
// Archived layers: the layout, finalizing a layer into it, and reading it back.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::io;
use std::ops::Range;
use std::io::ErrorKind;
verus! {
global size_of usize == 8;
broadcast use {codec::axiom_be8, codec::axiom_la_enc, codec::axiom_la_len, frame::lemma_same_but};
@@include text.inc
@@include fs.inc
@@include lines.inc
@@include names.inc
@@include names_decl.inc
@@include locked_decl.inc
@@include archive.inc
@@include archive_trait.inc
pub mod tokio { pub use super::fs; }

// ---- the presence word
pub proof fn lemma_set_bit(v: u64, f: u32, w: u64)
    requires f < 63, w == v | (1u64 << (sub(63u32, f) as u64))
    ensures v & 1 == 0 ==> w & 1 == 0, forall|j: int| bit(w, j) == (bit(v, j) || j == f)
{
    assert(v & 1 == 0 ==> w & 1 == 0) by (bit_vector) requires w == v | (1u64 << (sub(63u32, f) as u64)), f < 63;
    assert forall|j: int| bit(w, j) == (bit(v, j) || j == f) by {
        if 0 <= j < 63 {
            let k = j as u64;
            assert((w >> sub(63u64, k)) & 1 == if k == f as u64 { 1u64 } else { (v >> sub(63u64, k)) & 1 }) by (bit_vector) requires w == v | (1u64 << (sub(63u32, f) as u64)), f < 63, k < 63;
        }
    }
}
pub proof fn lemma_no_bits() ensures 0u64 & 1 == 0, forall|j: int| !bit(0, j)
{
    assert(0u64 & 1 == 0) by (bit_vector);
    assert forall|j: int| !bit(0, j) by { if 0 <= j < 63 { let k = (63 - j) as u64; assert((0u64 >> k) & 1 == 0) by (bit_vector); } }
}
/// the files of a listing
#[verifier::external_body]
pub struct Kinds { }
impl Kinds {
    pub uninterp spec fn left(&self) -> Seq<LayerFileEnum>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<LayerFileEnum>)
        ensures match r { Some(k) => old(self).left().len() > 0 && k == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
pub open spec fn has_kind(s: Seq<LayerFileEnum>, j: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) as int == j }
impl ArchiveFilePresenceHeader {
@@fn storage/archive.rs :: impl ArchiveFilePresenceHeader :: from_present
@ret r
@props A16
@generic I = Kinds
@spec
    ensures r.present_files.val() & 1 == 0, forall|j: int| bit(r.present_files.val(), j) == has_kind(present_files.left(), j)
@at start
proof { lemma_no_bits(); }
let ghost all = present_files.left();
let ghost mut n = 0int;
@loop 0
invariant
    0 <= n <= all.len(), __f0.left() == all.subrange(n, all.len() as int), val & 1 == 0,
    forall|j: int| bit(val, j) == has_kind(all.subrange(0, n), j),
ensures n == all.len()
decreases all.len() - n
@at loopstart 0
let ghost v0 = val;
@at loopend 0
proof {
    let f = file as u32;
    assert(val == v0 | (1u64 << (sub(63u32, f) as u64))) by { let q = (63 - f) as u32; assert(q == sub(63u32, f)); }
    lemma_set_bit(v0, f, val);
    assert forall|j: int| bit(val, j) == has_kind(all.subrange(0, n + 1), j) by {
        let s = all.subrange(0, n); let t = all.subrange(0, n + 1);
        assert(t[n] == file);
        if has_kind(s, j) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]) as int == j; assert(t[i] == s[i]); }
        if has_kind(t, j) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]) as int == j; if i < n { assert(s[i] == t[i]); } }
    }
    n = n + 1;
}
@@end
}
#[verifier::external_body]
pub fn __panic() -> ! requires false { unimplemented!() }
/// what a loop steps through
pub trait Src: Sized { type It; spec fn gives(self, i: Self::It) -> bool; fn steps(self) -> (r: Self::It) ensures self.gives(r); }
fn __into_iter<T: Src>(x: T) -> (r: T::It) ensures x.gives(r) { x.steps() }
impl Src for Kinds { type It = Kinds; open spec fn gives(self, i: Kinds) -> bool { i == self } fn steps(self) -> (r: Kinds) { self } }
impl<K, V> Src for HashMap<K, V> { type It = Steps<(K, V)>; open spec fn gives(self, i: Steps<(K, V)>) -> bool { i.left() == order(self) && pairs(i.left(), self@) } #[verifier::external_body] fn steps(self) -> (r: Steps<(K, V)>) { unimplemented!() } }
impl<T> Src for Vec<T> { type It = Steps<T>; open spec fn gives(self, i: Steps<T>) -> bool { i.left() == self@ } #[verifier::external_body] fn steps(self) -> (r: Steps<T>) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Steps<T> { t: core::marker::PhantomData<T> }
impl<T> Steps<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(k) => old(self).left().len() > 0 && k == old(self).left()[0] && final(self).left() == old(self).left().drop_first(), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
/// the order a map lists its entries in
pub uninterp spec fn order<K, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
/// every entry of the map, once
pub open spec fn pairs<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
// std's hash maps (assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), match r { Some(v) => old(self)@.contains_key(*k) && v == old(self)@[*k], None => !old(self)@.contains_key(*k) } { unimplemented!() }
}

// ---- files under construction: handles that share a locked state kept in a heap (one holder of a lock at a time: assumed)
pub enum CF { Building(Seq<u8>), Finalizing, Done(Seq<u8>) }
#[verifier::external_body]
pub struct Heap { }
impl Heap { pub uninterp spec fn at(&self) -> Map<int, CF>; }
@@item storage/archive.rs :: enum ConstructionFileState
@flag pub
@@end
impl View for ConstructionFileState {
    type V = CF;
    open spec fn view(&self) -> CF { match self { ConstructionFileState::UnderConstruction(b) => CF::Building(b@), ConstructionFileState::Finalizing => CF::Finalizing, ConstructionFileState::Finalized(b) => CF::Done(b@) } }
}
pub enum Poll<T> { Ready(T), Pending }
/// the unfilled rest of a caller's buffer (tokio's contract, assumed)
#[verifier::external_body]
pub struct ReadBuf { }
impl ReadBuf {
    pub uninterp spec fn got(&self) -> Seq<u8>;
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self.room() { unimplemented!() }
    #[verifier::external_body]
    pub fn filled(&self) -> (r: &[u8]) ensures r@ == self.got() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, b: &[u8]) requires b@.len() <= old(self).room() ensures final(self).got() == old(self).got() + b@, final(self).room() == old(self).room() - b@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_filled(&mut self, n: usize) requires n <= old(self).got().len() ensures final(self).got() == old(self).got().subrange(0, n as int), final(self).room() == old(self).room() + old(self).got().len() - n { unimplemented!() }
}
/// what reading moved from `src` to the buffer: a prefix, empty only if there is nothing left or no room
pub open spec fn moved(src0: Seq<u8>, src1: Seq<u8>, b0: ReadBuf, b1: ReadBuf) -> bool {
    exists|n: int| #![trigger src0.subrange(0, n)] 0 <= n <= src0.len() && n <= b0.room() && b1.got() == b0.got() + src0.subrange(0, n) && src1 == src0.subrange(n, src0.len() as int) && (n > 0 || src0.len() == 0 || b0.room() == 0)
}
impl fs::File {
    /// tokio: some of what the file holds from its position, nothing only at its end or without room
    #[verifier::external_body]
    pub fn __poll_read(&mut self, buf: &mut ReadBuf, w: &mut World) -> (r: Poll<Result<(), io::Error>>)
        requires old(self).valid(old(w))
        ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(), final(self).pos() <= final(self).content().len(),
            final(buf).got().len() + final(buf).room() == old(buf).got().len() + old(buf).room(),
            match r {
                Poll::Ready(Ok(_)) => final(self).pos() >= old(self).pos() && moved(old(self).content().subrange(old(self).pos() as int, old(self).content().len() as int), final(self).content().subrange(final(self).pos() as int, final(self).content().len() as int), *old(buf), *final(buf)),
                Poll::Ready(Err(_)) => final(w).fault(),
                Poll::Pending => final(self).pos() == old(self).pos() && *final(buf) == *old(buf) } { unimplemented!() }
}
#[verifier::external_body]
pub struct Cell { }
impl Clone for Cell { #[verifier::external_body] fn clone(&self) -> (r: Cell) ensures r.id() == self.id() { unimplemented!() } }
impl Cell {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn read(&self, h: &mut Heap) -> (r: Result<&ConstructionFileState, ()>)
        requires old(h).at().contains_key(self.id())
        ensures *final(h) == *old(h), r is Ok && r.unwrap()@ == old(h).at()[self.id()] { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'a>(&self, h: &'a mut Heap) -> (r: Result<&'a mut ConstructionFileState, ()>)
        requires old(h).at().contains_key(self.id())
        ensures r is Ok, (*r.unwrap())@ == old(h).at()[self.id()], final(h).at() == old(h).at().insert(self.id(), (*final(r.unwrap()))@) { unimplemented!() }
}
pub struct RwLock<T> { pub v: T }
impl<T> RwLock<T> {
    pub fn new(v: T) -> (r: RwLock<T>) ensures r.v == v { RwLock { v } }
    pub fn read(&self) -> (r: Result<&T, ()>) ensures r is Ok && *r.unwrap() == self.v { Ok(&self.v) }
    #[verifier::external_body]
    pub fn write(&mut self) -> (r: Result<&mut T, ()>) ensures r is Ok, *r.unwrap() == old(self).v, *final(r.unwrap()) == final(self).v { unimplemented!() }
}
pub struct Arc { }
impl Arc {
    #[verifier::external_body]
    pub fn new(l: RwLock<ConstructionFileState>, h: &mut Heap) -> (r: Cell)
        ensures !old(h).at().contains_key(r.id()), final(h).at() == old(h).at().insert(r.id(), l.v@) { unimplemented!() }
}
@@item storage/archive.rs :: struct ConstructionFile
@flag pub
@subst Arc < RwLock < ConstructionFileState > > => Cell
@@end
impl Clone for ConstructionFile { #[verifier::external_body] fn clone(&self) -> (r: ConstructionFile) ensures r.0.id() == self.0.id() { unimplemented!() } }
impl ConstructionFile {
    pub open spec fn has(&self, h: Heap) -> bool { h.at().contains_key(self.0.id()) }
    pub open spec fn st(&self, h: Heap) -> CF { h.at()[self.0.id()] }
@@fn storage/archive.rs :: impl ConstructionFile :: new
@ret r
@props A16
@thread h : &mut Heap ; Arc::new
@spec
    ensures !r.has(*old(h)), final(h).at() == old(h).at().insert(r.0.id(), CF::Building(seq![]))
@@end
@@fn storage/archive.rs :: impl ConstructionFile :: new_finalized
@ret r
@props A16
@thread h : &mut Heap ; Arc::new
@spec
    ensures !r.has(*old(h)), final(h).at() == old(h).at().insert(r.0.id(), CF::Done(bytes@))
@@end
@@fn storage/archive.rs :: impl ConstructionFile :: is_finalized
@ret r
@props A16
@thread h : &mut Heap ; read
@spec
    requires self.has(*old(h))
    ensures *final(h) == *old(h), r == self.st(*old(h)) is Done
@@end
@@fn storage/archive.rs :: impl ConstructionFile :: finalized_buf
@ret r
@props A16
@thread h : &mut Heap ; read
@spec
    requires self.has(*old(h)), self.st(*old(h)) is Done
    ensures *final(h) == *old(h), self.st(*old(h)) == CF::Done(r@)
@@end
@@fn storage/archive.rs :: impl SyncableFile for ConstructionFile :: sync_all
@ret r
@props A16
@thread h : &mut Heap ; write
@spec
    requires self.has(*old(h))
    ensures final(h).at() == old(h).at().insert(self.0.id(), self.st(*final(h))), match self.st(*old(h)) { CF::Building(b) => r is Ok && self.st(*final(h)) == CF::Done(b), s => r is Err && self.st(*final(h)) == s }
@@end
@@fn storage/archive.rs :: impl FileLoad for ConstructionFile :: exists
@ret r
@props A16 A19
@thread h : &mut Heap ; read
@spec
    requires self.has(*old(h))
    ensures *final(h) == *old(h), r == Ok::<bool, io::Error>(self.st(*old(h)) is Done)
@@end
@@fn storage/archive.rs :: impl FileLoad for ConstructionFile :: size
@ret r
@props A16 A19
@thread h : &mut Heap ; read
@spec
    requires self.has(*old(h))
    ensures *final(h) == *old(h), match self.st(*old(h)) { CF::Done(b) => r is Ok && r.unwrap() == b.len(), _ => r is Err }
@@end
@@fn storage/archive.rs :: impl FileLoad for ConstructionFile :: open_read_from
@ret r
@props A16 A19
@subst Self :: Read => Self
@thread h : &mut Heap ; read Arc::new
@spec
    requires self.has(*old(h))
    ensures match self.st(*old(h)) {
        CF::Done(b) => if offset <= b.len() { r is Ok && !r.unwrap().has(*old(h)) && final(h).at() == old(h).at().insert(r.unwrap().0.id(), CF::Done(b.subrange(offset as int, b.len() as int))) } else { r is Err && *final(h) == *old(h) },
        _ => r is Err && *final(h) == *old(h) }
@@end
@@fn storage/archive.rs :: impl AsyncWrite for ConstructionFile :: poll_write
@ret r
@props A16
@subst self : std :: pin :: Pin < & mut Self > => &mut self
@subst _cx : & mut std :: task :: Context < '_ > , =>
@thread h : &mut Heap ; write
@spec
    requires old(self).has(*old(h))
    ensures *final(self) == *old(self), final(h).at() == old(h).at().insert(old(self).0.id(), final(self).st(*final(h))),
        match old(self).st(*old(h)) {
            CF::Building(b) => (r matches Poll::Ready(Ok(n)) && n == buf@.len()) && final(self).st(*final(h)) == CF::Building(b + buf@),
            s => (r matches Poll::Ready(Err(_))) && final(self).st(*final(h)) == s }
@@end
@@fn storage/archive.rs :: impl AsyncRead for ConstructionFile :: poll_read
@ret r
@props A16 A19
@subst self : Pin < & mut Self > => &mut self
@subst _cx : & mut std :: task :: Context < '_ > , =>
@subst tokio :: io :: ReadBuf < '_ > => ReadBuf
@thread h : &mut Heap ; write
@spec
    requires old(self).has(*old(h))
    ensures *final(self) == *old(self), final(h).at() == old(h).at().insert(old(self).0.id(), final(self).st(*final(h))),
        match old(self).st(*old(h)) {
            CF::Done(b) => (r matches Poll::Ready(Ok(_))) && (final(self).st(*final(h)) matches CF::Done(c) && moved(b, c, *old(buf), *final(buf))),
            s => (r matches Poll::Ready(Err(_))) && final(self).st(*final(h)) == s && *final(buf) == *old(buf) }
@@end
@@fn storage/archive.rs :: impl FileLoad for ConstructionFile :: map
@name __map
@ret r
@props A16 A19
@thread h : &mut Heap ; read
@spec
    requires self.has(*old(h))
    ensures *final(h) == *old(h), match self.st(*old(h)) { CF::Done(b) => r is Ok && r.unwrap()@ == b, _ => r is Err }
@@end
}

@@item storage/archive.rs :: struct BytesAsyncReader
@flag pub
@@end
impl BytesAsyncReader {
@@fn storage/archive.rs :: impl AsyncRead for BytesAsyncReader :: poll_read
@ret r
@props A16 A19
@subst self : Pin < & mut Self > => &mut self
@subst _cx : & mut std :: task :: Context < '_ > , =>
@subst tokio :: io :: ReadBuf < '_ > => ReadBuf
@subst self . get_mut ( ) . 0 => self . 0
@spec
    ensures r matches Poll::Ready(Ok(_)), moved(old(self).0@, final(self).0@, *old(buf), *final(buf))
@@end
}

// ---- archives read from a file
impl ArchiveHeader {
@@fn storage/archive.rs :: impl ArchiveHeader :: parse_from_reader
@ret r
@props A16
@generic R = fs::File
@pre reader . read_exact ( & mut logarray_bytes [ 0 .. 8 ] ) => reader.__read_into(&mut logarray_bytes, 0, 8)
@pre reader . read_exact ( & mut logarray_bytes [ 8 .. ] ) => reader.__read_into(&mut logarray_bytes, 8, 8 + len)
@pre & logarray_bytes [ 0 .. 8 ] => logarray_bytes.__part(0, 8)
@thread w : &mut World ; read_u64 __read_into
@spec
    requires old(reader).valid(old(w)), old(reader).pos() == 0, arch_ok(old(reader).content())
    ensures same_disk(*old(w), *final(w)), final(reader).path() == old(reader).path(), final(reader).content() == old(reader).content(), final(reader).pos() <= final(reader).content().len(),
        match r { Ok(h) => final(w).fault() == old(w).fault() && h.is(arch(old(reader).content())->0) && final(reader).pos() + arch(old(reader).content())->0.d.len() == old(reader).content().len()
                && arch(old(reader).content())->0.d == old(reader).content().subrange(final(reader).pos() as int, old(reader).content().len() as int),
            Err(_) => final(w).fault() }
@at start
let ghost c = reader.content();
let ghost x = c.subrange(8, c.len() as int);
proof { axiom_la_dec(x); }
@at call logarray_length_from_control_word
assert(logarray_bytes@ =~= x.subrange(0, 8));
assert(logarray_bytes@.subrange(0, 8) =~= x.subrange(0, 8));
@at call freeze
proof {
    assert(logarray_bytes@.subrange(0, 8) =~= x.subrange(0, 8));
    let b = logarray_bytes@; let y = x.subrange(0, 8 + la_len(x.subrange(0, 8)));
    assert(b.subrange(8, b.len() as int) =~= y.subrange(8, y.len() as int));
    assert(b =~= b.subrange(0, 8) + b.subrange(8, b.len() as int));
    assert(y =~= y.subrange(0, 8) + y.subrange(8, y.len() as int));
    assert(y.subrange(0, 8) =~= x.subrange(0, 8));
    assert(la_rest(x) =~= c.subrange(reader.pos() as int, c.len() as int));
}
@@end
}

@@item storage/archive.rs :: struct DirectoryArchiveBackend
@flag pub
@@end
@@item storage/archive.rs :: const PREFIX_DIR_SIZE
@@end
#[verifier::external_body]
pub fn __subs(s: &String, lo: usize, hi: usize) -> (r: &str) requires is_ascii_chars(s@), lo <= hi <= s@.len() ensures r@ == s@.subrange(lo as int, hi as int) { unimplemented!() }
#[verifier::external_body]
pub fn __cfg(x: usize) -> (r: bool) { unimplemented!() }
/// a failed result here ends in a panic, which is not excluded
#[verifier::external_body]
pub fn __must<T, E>(x: Result<T, E>) -> (r: T) ensures (x matches Ok(y) && r == y) { unimplemented!() }
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit](v: &mut Vec<T, A>) ensures final(v)@ == old(v)@;
pub fn __range_len(g: &Range<usize>) -> (r: usize) requires g.start <= g.end ensures r == g.end - g.start { g.end - g.start }
#[verifier::external_body]
pub fn __string(b: Vec<u8>) -> (r: Result<String, ()>) ensures valid_utf8(b@) ==> (r matches Ok(s) && s@ == decode_utf8(b@)) { unimplemented!() }
#[verifier::external_body]
pub fn __second_line<'a>(s: &'a String) -> (r: Option<&'a str>) ensures match r { Some(l) => lines(s@).len() > 1 && l@ == lines(s@)[1], None => lines(s@).len() < 2 } { unimplemented!() }

pub open spec fn dir_of(base: Seq<char>, id: [u32; 5]) -> Seq<char> { join(base, name_text(id).subrange(0, 3)) }
pub open spec fn lpath(base: Seq<char>, id: [u32; 5]) -> Seq<char> { join(dir_of(base, id), name_text(id) + ".larch"@) }
pub open spec fn rpath(base: Seq<char>, id: [u32; 5]) -> Seq<char> { join(dir_of(base, id), name_text(id) + ".rollup.hex"@) }
pub proof fn lemma_paths(base: Seq<char>, a: [u32; 5], b: [u32; 5])
    ensures a != b ==> lpath(base, a) != lpath(base, b) && rpath(base, a) != rpath(base, b), lpath(base, a) != rpath(base, b),
        parent(lpath(base, a)) == dir_of(base, a), dir_of(base, a).len() <= base.len() + 4, lpath(base, a).len() > base.len() + 4, rpath(base, a).len() > base.len() + 4,
{
    reveal_strlit(".larch"); reveal_strlit(".rollup.hex");
    lemma_name_text(a); lemma_name_text(b);
    assert(name_text(a) != name_text(b) || a == b);
    lemma_good(base, a); lemma_good(base, b);
    let (x, y) = (name_text(a) + ".larch"@, name_text(b) + ".larch"@);
    assert(x.subrange(0, 40) =~= name_text(a)); assert(y.subrange(0, 40) =~= name_text(b));
    let (x, y) = (name_text(a) + ".rollup.hex"@, name_text(b) + ".rollup.hex"@);
    assert(x.subrange(0, 40) =~= name_text(a)); assert(y.subrange(0, 40) =~= name_text(b));
}
pub proof fn lemma_good(base: Seq<char>, a: [u32; 5])
    ensures ({ let (d, l, r) = (dir_of(base, a), name_text(a) + ".larch"@, name_text(a) + ".rollup.hex"@);
        d.len() <= base.len() + 4 && base.len() + 3 <= d.len() && parent(join(d, l)) == d && fname(join(d, l)) == l && fname(join(d, r)) == r && l.len() == 46 && r.len() == 51
        && join(d, l).len() >= d.len() + 46 && join(d, r).len() >= d.len() + 51 })
{
    reveal_strlit(".larch"); reveal_strlit(".rollup.hex");
    lemma_name_text(a);
    let n = name_text(a);
    let (p, l, r) = (n.subrange(0, 3), n + ".larch"@, n + ".rollup.hex"@);
    assert forall|i: int| 0 <= i < 40 implies n[i] != '/' && n[i] != '\0' && n[i] != '.' by { assert(plainc(n[i])); }
    assert(!p.contains('/') && !p.contains('\0')) by { assert(forall|i: int| 0 <= i < 3 ==> p[i] == n[i]); }
    assert(!l.contains('/') && !l.contains('\0')) by { assert forall|i: int| 0 <= i < l.len() implies l[i] != '/' && l[i] != '\0' by { if i < 40 { assert(l[i] == n[i]); } else { assert(l[i] == ".larch"@[i - 40]); } } }
    assert(!r.contains('/') && !r.contains('\0')) by { assert forall|i: int| 0 <= i < r.len() implies r[i] != '/' && r[i] != '\0' by { if i < 40 { assert(r[i] == n[i]); } else { assert(r[i] == ".rollup.hex"@[i - 40]); } } }
    assert(p[0] == n[0]);
    axiom_join(base, p); axiom_join(dir_of(base, a), l); axiom_join(dir_of(base, a), r);
}
pub proof fn lemma_larch(n: Seq<char>, a: Seq<FA>) requires a.len() == 1, a[0] == FA::S(n) ensures fmt("{}.larch"@, a) == n + ".larch"@
{ reveal_strlit("{}.larch"); reveal_strlit(".larch"); lemma_fmt_one("{}.larch"@, ".larch"@, a); lemma_fmt_lit(".larch"@, a.subrange(1, 1)); }
pub proof fn lemma_rolluphex(n: Seq<char>, a: Seq<FA>) requires a.len() == 1, a[0] == FA::S(n) ensures fmt("{}.rollup.hex"@, a) == n + ".rollup.hex"@
{ reveal_strlit("{}.rollup.hex"); reveal_strlit(".rollup.hex"); lemma_fmt_one("{}.rollup.hex"@, ".rollup.hex"@, a); lemma_fmt_lit(".rollup.hex"@, a.subrange(1, 1)); }
pub proof fn lemma_fmts()
    ensures
        forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) ==> fmt("{}.larch"@, #[trigger] fargs(x@)) == #[trigger] (n + ".larch"@),
        forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) ==> fmt("{}.rollup.hex"@, #[trigger] fargs(x@)) == #[trigger] (n + ".rollup.hex"@),
{
    assert forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) implies fmt("{}.larch"@, #[trigger] fargs(x@)) == #[trigger] (n + ".larch"@) by { lemma_larch(n, fargs(x@)); }
    assert forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) implies fmt("{}.rollup.hex"@, #[trigger] fargs(x@)) == #[trigger] (n + ".rollup.hex"@) by { lemma_rolluphex(n, fargs(x@)); }
}
impl DirectoryArchiveBackend {
@@fn storage/archive.rs :: impl DirectoryArchiveBackend :: path_for_layer
@ret r
@flag fmt
@props A16
@pre & name_str [ 0 .. PREFIX_DIR_SIZE ] => __subs(&name_str, 0, PREFIX_DIR_SIZE)
@spec
    ensures r@ == lpath(self.path@, name)
@at start
broadcast use fmt_args;
proof { lemma_fmts(); lemma_name_text(name); assert(is_ascii_chars(name_text(name))) by { assert(forall|i: int| 0 <= i < 40 ==> plainc(#[trigger] name_text(name)[i])); } }
let ghost x = name_text(name) + ".larch"@;
@@end
@@fn storage/archive.rs :: impl DirectoryArchiveBackend :: path_for_rollup
@ret r
@flag fmt
@props A16
@pre & name_str [ 0 .. PREFIX_DIR_SIZE ] => __subs(&name_str, 0, PREFIX_DIR_SIZE)
@spec
    ensures r@ == rpath(self.path@, name)
@at start
broadcast use fmt_args;
proof { lemma_fmts(); lemma_name_text(name); assert(is_ascii_chars(name_text(name))) by { assert(forall|i: int| 0 <= i < 40 ==> plainc(#[trigger] name_text(name)[i])); } }
let ghost x = name_text(name) + ".rollup.hex"@;
@@end
}
pub open spec fn file_at(w: World, p: Seq<char>) -> Option<Seq<u8>> { if w.files().contains_key(p) { Some(w.files()[p]) } else { None } }
pub open spec fn layers_ok(w: World, base: Seq<char>) -> bool {
    forall|id: [u32; 5]| !w.dirs().contains(#[trigger] lpath(base, id)) && !w.dirs().contains(rpath(base, id)) && (w.files().contains_key(lpath(base, id)) ==> arch_ok(w.files()[lpath(base, id)]))
}
/// directories were added up to `d`, and only file `p` differs
pub open spec fn grown(a: World, b: World, d: Seq<char>, p: Seq<char>) -> bool {
    &&& b.dirs().contains(d) && forall|q: Seq<char>| q.len() > d.len() ==> #[trigger] b.dirs().contains(q) == a.dirs().contains(q)
    &&& forall|q: Seq<char>| q != p ==> (#[trigger] b.files().contains_key(q) == a.files().contains_key(q)) && (a.files().contains_key(q) ==> b.files()[q] == a.files()[q])
}
@@item storage/archive.rs :: struct ArchiveSliceReader
@flag pub
@subst File => fs::File
@@end
impl ArchiveSliceReader {
    /// what is still to be read
    pub open spec fn rest(&self) -> Seq<u8> { self.file.content().subrange(self.file.pos() as int, self.file.pos() as int + self.remaining) }
    pub open spec fn wf(&self) -> bool { self.file.pos() + self.remaining <= self.file.content().len() }
@@fn storage/archive.rs :: impl ArchiveSliceReader :: new
@ret r
@props A16
@subst File => fs::File
@spec
    ensures r.file == file, r.remaining == remaining
@@end
@@fn storage/archive.rs :: impl AsyncRead for ArchiveSliceReader :: poll_read
@ret r
@props A16
@subst self : Pin < & mut Self > => &mut self
@subst cx : & mut std :: task :: Context < '_ > , =>
@subst tokio :: io :: ReadBuf < '_ > => ReadBuf
@pre AsyncRead :: poll_read ( Pin :: new ( & mut self . file ) , cx , buf ) => self.file.__poll_read(buf)
@thread w : &mut World ; __poll_read
@spec
    requires old(self).wf(), old(self).file.valid(old(w)), old(buf).got().len() + old(buf).room() <= usize::MAX
    ensures same_disk(*old(w), *final(w)), final(self).file.path() == old(self).file.path(), final(self).file.content() == old(self).file.content(),
        match r {
            Poll::Ready(Ok(_)) => moved(old(self).rest(), final(self).rest(), *old(buf), *final(buf)),
            Poll::Ready(Err(_)) => final(w).fault(),
            Poll::Pending => final(self).rest() == old(self).rest() && *final(buf) == *old(buf) }
@at start
let ghost (r0, b0) = (old(self).rest(), *old(buf));
proof { assert(r0.subrange(0, 0) =~= Seq::<u8>::empty()); assert(b0.got() + Seq::<u8>::empty() =~= b0.got()); if old(self).remaining == 0 { assert(r0 =~= Seq::<u8>::empty()); assert(r0.subrange(0, 0) =~= r0.subrange(0, r0.len() as int)); } }
let ghost (c0, p0) = (old(self).file.content(), old(self).file.pos() as int);
let ghost s0 = c0.subrange(p0, c0.len() as int);
@at let read
let ghost g1 = buf.got();
let ghost s1 = c0.subrange(__self.file.pos() as int, c0.len() as int);
@at tail
proof {
    let k = choose|n: int| #![trigger s0.subrange(0, n)] 0 <= n <= s0.len() && n <= b0.room() && g1 == b0.got() + s0.subrange(0, n) && s1 == s0.subrange(n, s0.len() as int) && (n > 0 || s0.len() == 0 || b0.room() == 0);
    let n = if k <= r0.len() { k } else { r0.len() as int };
    assert(s0.subrange(0, n) =~= r0.subrange(0, n));
    assert(s1.len() == s0.len() - k);
    assert(__self.file.pos() == p0 + k);
    assert(buf.got() =~= b0.got() + r0.subrange(0, n));
    assert(__self.rest() =~= r0.subrange(n, r0.len() as int));
}
@@end
}
impl ArchiveBackend for DirectoryArchiveBackend {
    open spec fn stored(&self, w: World, id: [u32; 5]) -> Option<Seq<u8>> { file_at(w, lpath(self.path@, id)) }
    open spec fn ok(&self, w: World) -> bool { layers_ok(w, self.path@) }
    proof fn stored_ok(&self, w: World, id: [u32; 5]) { }
    proof fn stored_same(&self, v: World, w: World) { }
    type Read = ArchiveSliceReader;
    open spec fn unread(r: ArchiveSliceReader, w: World) -> Seq<u8> { r.rest() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
@@fn storage/archive.rs :: impl ArchiveBackend for DirectoryArchiveBackend :: read_layer_structure_bytes_from
@ret r
@flag trait-fn
@props A16
@pre range . len ( ) => __range_len(&range)
@thread w : &mut World ; open ArchiveHeader::parse_from_reader seek
@subst Self :: Read => ArchiveSliceReader
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); }
@at call range_for
proof { if bit(header.p(), file_type as int) { part_in_range(header.p(), header.e(), file_type as int); } }
@at tail
proof {
    let b = old(w).files()[lpath(self.path@, id)]; let f = arch_file(b, file_type)->0;
    assert(file.content().subrange(file.pos() as int, file.pos() as int + remaining) =~= f.subrange(read_from as int, f.len() as int));
}
@@end
    open spec fn blocked(&self, w: World) -> bool { exists|q: Seq<char>| q.len() <= self.path@.len() + 4 && w.files().contains_key(q) }
@@fn storage/archive.rs :: impl ArchiveBackend for DirectoryArchiveBackend :: get_layer_bytes
@ret r
@flag trait-fn
@props A16
@pre buf . into ( ) => Bytes::from(buf)
@thread w : &mut World ; open metadata read_to_end
@spec
@at call shrink_to_fit
assert(buf@ =~= old(w).files()[lpath(self.path@, id)]);
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for DirectoryArchiveBackend :: get_layer_structure_bytes
@ret r
@flag trait-fn
@props A16
@pre range . len ( ) => __range_len(&range)
@thread w : &mut World ; open ArchiveHeader::parse_from_reader seek read_exact
@spec
@at call range_for
proof { if bit(header.p(), file_type as int) { part_in_range(header.p(), header.e(), file_type as int); } }
@at call from
assert(data@ =~= arch_file(old(w).files()[lpath(self.path@, id)], file_type)->0);
@@end
@@fn storage/archive.rs :: impl ArchiveBackend for DirectoryArchiveBackend :: store_layer_file
@ret r
@flag trait-fn
@props A16
@pre open ( directory_path ) => __open_dir(directory_path)
@pre file . write => file.__write
@macro cfg => __cfg
@subst __cfg ( unix ) => __cfg(0)
@subst mut bytes : Bytes => bytes: Bytes
@thread w : &mut World ; create_dir_all open __open_dir __write write_all flush sync_all sync_data
@spec
@at start
let mut bytes = bytes;
let ghost all = bytes@;
let ghost p = lpath(self.path@, id);
let ghost w0 = *w;
proof { lemma_paths(self.path@, id, id); }
@loop 0
invariant
    file.path() == p, file.valid(w), file.pos() + bytes@.len() == all.len(), file.content() == all.subrange(0, file.pos() as int), bytes@ == all.subrange(file.pos() as int, all.len() as int),
    grown(w0, *w, dir_of(self.path@, id), p), w.fault() == w0.fault(),
decreases bytes@.len()
@at tail
proof {
    assert(bytes@.len() == 0 && all.subrange(0, all.len() as int) =~= all);
    assert forall|o: [u32; 5]| #[trigger] self.stored(*w, o) == (if o == id { Some(all) } else { self.stored(w0, o) }) by { lemma_paths(self.path@, id, o); let q = lpath(self.path@, o); assert(q != p ==> w.files().contains_key(q) == w0.files().contains_key(q)); }
    assert forall|o: [u32; 5]| !w.dirs().contains(#[trigger] lpath(self.path@, o)) && !w.dirs().contains(rpath(self.path@, o)) && (w.files().contains_key(lpath(self.path@, o)) ==> arch_ok(w.files()[lpath(self.path@, o)])) by {
        lemma_paths(self.path@, o, o); lemma_good(self.path@, o); lemma_good(self.path@, id);
        assert(self.stored(*w, o) == (if o == id { Some(all) } else { self.stored(w0, o) }));
        assert(!w0.dirs().contains(lpath(self.path@, o)));
    }
}
@@end
}

// ---- what is known about the layers in a directory
pub assume_specification [String::as_bytes](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification [<io::ErrorKind as PartialEq>::eq](a: &io::ErrorKind, b: &io::ErrorKind) -> (r: bool) ensures r == (*a == *b);
pub open spec fn rollup_ok(b: Seq<u8>) -> bool { valid_utf8(b) && lines(decode_utf8(b)).len() >= 2 && text_name(lines(decode_utf8(b))[1]) is Some }
pub open spec fn rollup_in(b: Seq<u8>) -> Option<[u32; 5]> { text_name(lines(decode_utf8(b))[1]) }
/// the text of a rollup file
pub open spec fn rollup_text(n: [u32; 5]) -> Seq<char> { seq!['1', '\n'] + name_text(n) + seq!['\n'] }
pub proof fn lemma_rollup_text(n: [u32; 5], b: Seq<u8>)
    requires b == seq![49u8, 10u8] + encode_utf8(name_text(n)) + seq![10u8]
    ensures rollup_ok(b), rollup_in(b) == Some(n)
{
    let t = name_text(n); let s = rollup_text(n);
    lemma_name_text(n);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '\n' && '\0' <= t[i] <= '\u{7f}' by { assert(plainc(t[i])); }
    assert(is_ascii_chars(t));
    lemma_ascii(t);
    assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\u{7f}' by { if 2 <= i < 42 { assert(s[i] == t[i - 2]); } }
    assert(is_ascii_chars(s));
    lemma_ascii(s);
    assert(b =~= encode_utf8(s)) by {
        assert forall|i: int| 0 <= i < b.len() implies b[i] == encode_utf8(s)[i] by { assert(encode_utf8(s)[i] == s[i] as u8); if 2 <= i < 42 { assert(encode_utf8(t)[i - 2] == t[i - 2] as u8); } }
    }
    encode_utf8_valid_utf8(s); encode_utf8_decode_utf8(s);
    let rest = t + seq!['\n'];
    assert(s =~= seq!['1'] + seq!['\n'] + rest);
    lemma_eol(seq!['1'], rest);
    lemma_eol(t, Seq::empty());
    assert(rest =~= t + seq!['\n'] + Seq::<char>::empty());
    assert(s.subrange(0, 1) =~= seq!['1']);
    assert(s.subrange(2, s.len() as int) =~= rest);
    assert(rest.subrange(0, 40) =~= t);
    assert(plainc(t.last()));
    assert(strip_cr(t) == t);
    assert(rest.subrange(41, 41) =~= Seq::<char>::empty());
    assert(lines(Seq::<char>::empty()) =~= seq![]);
    assert(lines(rest) =~= seq![t]);
    assert(lines(s) =~= seq![seq!['1'], t]);
}
pub open spec fn rollups_ok(w: World, base: Seq<char>) -> bool { forall|id: [u32; 5]| w.files().contains_key(#[trigger] rpath(base, id)) ==> rollup_ok(w.files()[rpath(base, id)]) }
impl ArchiveMetadataBackend for DirectoryArchiveBackend {
    open spec fn mstored(&self, w: World, id: [u32; 5]) -> Option<Seq<u8>> { file_at(w, lpath(self.path@, id)) }
    open spec fn rollup(&self, w: World, id: [u32; 5]) -> Option<[u32; 5]> { if w.files().contains_key(rpath(self.path@, id)) { rollup_in(w.files()[rpath(self.path@, id)]) } else { None } }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
    open spec fn mok(&self, w: World) -> bool { layers_ok(w, self.path@) && rollups_ok(w, self.path@) }
    proof fn mstored_same(&self, v: World, w: World) { }
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: layer_exists
@ret r
@flag trait-fn
@props A16 A19
@subst tokio :: fs :: => fs ::
@thread w : &mut World ; metadata
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: layer_size
@ret r
@flag trait-fn
@props A16 A19
@subst tokio :: fs :: => fs ::
@thread w : &mut World ; metadata
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: layer_file_exists
@ret r
@flag trait-fn
@props A16 A19
@thread w : &mut World ; metadata open read_u64
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: get_layer_structure_size
@ret r
@flag trait-fn
@props A16 A19
@thread w : &mut World ; open ArchiveHeader::parse_from_reader
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); }
@at call size_of
proof { if bit(header.p(), file_type as int) { part_in_range(header.p(), header.e(), file_type as int); } }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: get_rollup
@ret r
@flag trait-fn
@props A16 A08
@pre layer_lock . unwrap ( ) => __must(layer_lock)
@pre data . lines ( ) . skip ( 1 ) . next ( ) => __second_line(&data)
@thread w : &mut World ; LockedFile::open read_to_string
@spec
@at start
proof { assert(!w.dirs().contains(lpath(self.path@, id))); assert(!w.dirs().contains(rpath(self.path@, id))); }
@at call __second_line
proof { encode_utf8_decode_utf8(data@); encode_utf8_valid_utf8(data@); }
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: set_rollup
@ret r
@flag trait-fn
@props A16 A08
@thread w : &mut World ; ExclusiveLockedFile::open create write_all flush sync_all
@spec
@at start
let ghost w0 = *w;
proof { assert(!w.dirs().contains(lpath(self.path@, id))); assert(!w.dirs().contains(rpath(self.path@, id))); }
@at call create
proof { assert(data@ =~= seq![49u8, 10u8] + encode_utf8(name_text(rollup)) + seq![10u8]); lemma_rollup_text(rollup, data@); }
@at call flush
proof { assert(file.content() =~= data@); }
@at tail
proof {
    assert(same_but(w0, *w, rpath(self.path@, id)));
    assert forall|o: [u32; 5]| #[trigger] self.mstored(*w, o) == self.mstored(w0, o) by { lemma_paths(self.path@, o, id); assert(w.files().contains_key(lpath(self.path@, o)) == w0.files().contains_key(lpath(self.path@, o))); }
    assert forall|o: [u32; 5]| o != id implies #[trigger] self.rollup(*w, o) == self.rollup(w0, o) by { lemma_paths(self.path@, o, id); assert(w.files().contains_key(rpath(self.path@, o)) == w0.files().contains_key(rpath(self.path@, o))); }
    assert forall|o: [u32; 5]| w.files().contains_key(#[trigger] rpath(self.path@, o)) implies rollup_ok(w.files()[rpath(self.path@, o)]) by { if o != id { lemma_paths(self.path@, o, id); assert(self.rollup(*w, o) == self.rollup(w0, o)); } }
    assert forall|o: [u32; 5]| !w.dirs().contains(#[trigger] lpath(self.path@, o)) && !w.dirs().contains(rpath(self.path@, o)) && (w.files().contains_key(lpath(self.path@, o)) ==> arch_ok(w.files()[lpath(self.path@, o)])) by {
        assert(self.mstored(*w, o) == self.mstored(w0, o)); assert(!w0.dirs().contains(lpath(self.path@, o)));
    }
}
@@end
@@fn storage/archive.rs :: impl ArchiveMetadataBackend for DirectoryArchiveBackend :: get_parent
@ret r
@flag trait-fn
@props A16 A12
@pre std :: str :: from_utf8 ( & parent_bytes [ .. 40 ] ) . unwrap ( ) => __utf8(parent_bytes.__head(40))
@thread w : &mut World ; get_layer_structure_bytes
@spec
@@end
}

impl Archive {
@@fn storage/archive.rs :: impl Archive :: parse_from_reader
@ret r
@props A16
@generic R = fs::File
@pre reader . read_exact ( & mut data [ .. ] ) => reader.__read_into(&mut data, 0, data_len)
@thread w : &mut World ; ArchiveHeader::parse_from_reader __read_into
@spec
    requires old(reader).valid(old(w)), old(reader).pos() == 0, arch_ok(old(reader).content()), arch(old(reader).content())->0.e.len() > 0
    ensures same_disk(*old(w), *final(w)),
        match r { Ok(x) => final(w).fault() == old(w).fault() && x.a() == arch(old(reader).content())->0, Err(_) => final(w).fault() }
@at call freeze
assert(data@ =~= data@.subrange(0, data_len as int));
@@end
}

// ---- a file of a stored layer
@@item storage/archive.rs :: struct PersistentFileSlice
@flag pub
@@end
impl<M: ArchiveMetadataBackend, D: ArchiveBackend> PersistentFileSlice<M, D> {
    pub open spec fn known(&self, w: World) -> Option<Seq<u8>> { if self.metadata_backend.mstored(w, self.layer_id) is Some { arch_file(self.metadata_backend.mstored(w, self.layer_id)->0, self.file_type) } else { None } }
    pub open spec fn content(&self, w: World) -> Option<Seq<u8>> { if self.data_backend.stored(w, self.layer_id) is Some { arch_file(self.data_backend.stored(w, self.layer_id)->0, self.file_type) } else { None } }
@@fn storage/archive.rs :: impl PersistentFileSlice :: new
@ret r
@props A16
@spec
    ensures r.metadata_backend == metadata_backend, r.data_backend == data_backend, r.layer_id == layer_id, r.file_type == file_type
@@end
@@fn storage/archive.rs :: impl FileLoad for PersistentFileSlice :: exists
@ret r
@props A16 A19
@thread w : &mut World ; layer_file_exists
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && b == (self.known(*old(w)) is Some), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl FileLoad for PersistentFileSlice :: size
@ret r
@props A16 A19
@thread w : &mut World ; get_layer_structure_size
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(n) => final(w).fault() == old(w).fault() && (self.known(*old(w)) matches Some(f) && n == f.len()), Err(_) => final(w).fault() || self.known(*old(w)) is None }
@@end
@@fn storage/archive.rs :: impl FileLoad for PersistentFileSlice :: open_read_from
@ret r
@props A16 A19
@subst Self :: Read => D::Read
@thread w : &mut World ; read_layer_structure_bytes_from
@spec
    requires self.data_backend.ok(*old(w)), self.content(*old(w)) matches Some(f) && offset > f.len() ==> false
    ensures same_disk(*old(w), *final(w)), match r { Ok(x) => final(w).fault() == old(w).fault() && (self.content(*old(w)) matches Some(f) && D::unread(x, *final(w)) == f.subrange(offset as int, f.len() as int)), Err(_) => final(w).fault() || self.content(*old(w)) is None }
@@end
@@fn storage/archive.rs :: impl FileLoad for PersistentFileSlice :: map
@name __map
@ret r
@props A16 A19
@thread w : &mut World ; get_layer_structure_bytes
@spec
    requires self.data_backend.ok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && self.content(*old(w)) == Some(b@), Err(_) => final(w).fault() || self.content(*old(w)) is None }
@@end
@@fn storage/archive.rs :: impl FileLoad for PersistentFileSlice :: map_if_exists
@ret r
@props A16 A19
@thread w : &mut World ; get_layer_structure_bytes
@spec
    requires self.data_backend.ok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => final(w).fault() == old(w).fault() && self.content(*old(w)) == opt_bytes(b), Err(_) => final(w).fault() || self.data_backend.stored(*old(w), self.layer_id) is None }
@@end
}

// ---- the name of a rollup as a file of its layer
@@item storage/archive.rs :: struct ArchiveRollupFile
@flag pub
@@end
@@item storage/archive.rs :: struct ArchiveRollupFileWriter
@flag pub
@@end
pub open spec fn rollup_file(n: [u32; 5]) -> Seq<u8> { seq![49u8, 10u8] + encode_utf8(name_text(n)) }
impl<M: ArchiveMetadataBackend> ArchiveRollupFile<M> {
    pub open spec fn content(&self, w: World) -> Option<Seq<u8>> { if self.metadata_backend.mstored(w, self.layer_id) is Some && self.metadata_backend.rollup(w, self.layer_id) is Some { Some(rollup_file(self.metadata_backend.rollup(w, self.layer_id)->0)) } else { None } }
@@fn storage/archive.rs :: impl FileLoad for ArchiveRollupFile :: exists
@ret r
@props A08 A16 A19
@thread w : &mut World ; get_rollup
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => final(w).fault() || b == (self.content(*old(w)) is Some), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl FileLoad for ArchiveRollupFile :: size
@ret r
@props A08 A16 A19
@thread w : &mut World ; get_rollup
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(n) => final(w).fault() || (self.content(*old(w)) matches Some(f) && n == f.len()), Err(_) => final(w).fault() || self.content(*old(w)) is None }
@at start
proof { if self.metadata_backend.rollup(*w, self.layer_id) is Some { lemma_rollup_len(self.metadata_backend.rollup(*w, self.layer_id)->0); } }
@@end
@@fn storage/archive.rs :: impl FileLoad for ArchiveRollupFile :: map
@name __map
@ret r
@props A08 A16 A19
@pre bytes . into ( ) => Bytes::from(bytes)
@thread w : &mut World ; get_rollup
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => final(w).fault() || self.content(*old(w)) == Some(b@), Err(_) => final(w).fault() || self.content(*old(w)) is None }
@at call from
assert(bytes@ =~= rollup_file(id));
@@end
@@fn storage/archive.rs :: impl FileLoad for ArchiveRollupFile :: open_read_from
@ret r
@props A08 A16 A19
@subst Self :: Read => BytesAsyncReader
@pre self . map ( ) => self.__map()
@thread w : &mut World ; __map
@spec
    requires self.metadata_backend.mok(*old(w)), offset == 0
    ensures same_disk(*old(w), *final(w)), match r { Ok(x) => final(w).fault() || (self.content(*old(w)) matches Some(f) && x.0@ == f.subrange(offset as int, f.len() as int)), Err(_) => final(w).fault() || self.content(*old(w)) is None }
@@end
@@fn storage/archive.rs :: impl FileStore for ArchiveRollupFile :: open_write
@ret r
@props A08 A16
@subst Self :: Write => ArchiveRollupFileWriter<M>
@spec
    ensures r matches Ok(x) && x.layer_id == self.layer_id && x.metadata_backend == self.metadata_backend && x.data@ == Seq::<u8>::empty()
@@end
}
pub proof fn lemma_rollup_len(n: [u32; 5]) ensures rollup_file(n).len() == 42
{
    let t = name_text(n);
    lemma_name_text(n);
    assert forall|i: int| 0 <= i < t.len() implies '\0' <= #[trigger] t[i] <= '\u{7f}' by { assert(plainc(t[i])); }
    lemma_ascii(t);
}
impl<M: ArchiveMetadataBackend> ArchiveRollupFileWriter<M> {
@@fn storage/archive.rs :: impl AsyncWrite for ArchiveRollupFileWriter :: poll_write
@ret r
@props A08 A16
@subst self : std :: pin :: Pin < & mut Self > => &mut self
@subst _cx : & mut std :: task :: Context < '_ > , =>
@subst self . get_mut ( ) . data => self . data
@spec
    ensures r matches Poll::Ready(Ok(n)) && n == buf@.len(), final(self).data@ == old(self).data@ + buf@, final(self).layer_id == old(self).layer_id, final(self).metadata_backend == old(self).metadata_backend
@@end
@@fn storage/archive.rs :: impl SyncableFile for ArchiveRollupFileWriter :: sync_all
@ret r
@props A08 A16
@pre String :: from_utf8 ( self . data . to_vec ( ) ) . expect => __string(self.data.to_vec()).expect
@pre rollup_string . lines ( ) . skip ( 1 ) . next ( ) => __second_line(&rollup_string)
@thread w : &mut World ; set_rollup
@spec
    requires self.metadata_backend.mok(*old(w)), rollup_ok(self.data@)
    ensures match r { Ok(_) => self.metadata_backend.mok(*final(w)) && self.metadata_backend.mstored(*old(w), self.layer_id) is Some && self.metadata_backend.rollup(*final(w), self.layer_id) == rollup_in(self.data@)
            && (forall|o: [u32; 5]| o != self.layer_id ==> #[trigger] self.metadata_backend.rollup(*final(w), o) == self.metadata_backend.rollup(*old(w), o)),
        Err(_) => final(w).fault() || self.metadata_backend.mstored(*old(w), self.layer_id) is None }
@@end
}

// ---- the three kinds of file a layer hands out
@@item storage/archive.rs :: enum ArchiveLayerHandle
@flag pub
@@end
@@item storage/archive.rs :: enum ArchiveLayerHandleReader
@flag pub
@@end
impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveLayerHandle<M, D> {
    pub open spec fn ready(&self, h: Heap, w: World) -> bool { match self { ArchiveLayerHandle::Construction(c) => c.has(h), ArchiveLayerHandle::Persistent(p) => p.metadata_backend.mok(w) && p.data_backend.ok(w), ArchiveLayerHandle::Rollup(r) => r.metadata_backend.mok(w) } }
    /// what the file holds, if it is there
    pub open spec fn content(&self, h: Heap, w: World) -> Option<Seq<u8>> { match self { ArchiveLayerHandle::Construction(c) => match c.st(h) { CF::Done(b) => Some(b), _ => None }, ArchiveLayerHandle::Persistent(p) => p.content(w), ArchiveLayerHandle::Rollup(r) => r.content(w) } }
    pub open spec fn linked(&self, w: World) -> bool { self matches ArchiveLayerHandle::Persistent(p) ==> p.known(w) == p.content(w) }
@@fn storage/archive.rs :: impl FileLoad for ArchiveLayerHandle :: exists
@ret r
@props A16 A19
@param h : &mut Heap
@param w : &mut World
@pre c . exists ( ) => c.exists(h)
@pre p . exists ( ) => p.exists(w)
@pre r . exists ( ) => r.exists(w)
@spec
    requires self.ready(*old(h), *old(w)), self.linked(*old(w))
    ensures same_disk(*old(w), *final(w)), *final(h) == *old(h), match r { Ok(b) => final(w).fault() || b == (self.content(*old(h), *old(w)) is Some), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl FileLoad for ArchiveLayerHandle :: size
@ret r
@props A16 A19
@param h : &mut Heap
@param w : &mut World
@pre c . size ( ) => c.size(h)
@pre p . size ( ) => p.size(w)
@pre r . size ( ) => r.size(w)
@spec
    requires self.ready(*old(h), *old(w)), self.linked(*old(w))
    ensures same_disk(*old(w), *final(w)), *final(h) == *old(h), match r { Ok(n) => final(w).fault() || (self.content(*old(h), *old(w)) matches Some(f) && n == f.len()), Err(_) => final(w).fault() || self.content(*old(h), *old(w)) is None }
@@end
@@fn storage/archive.rs :: impl FileLoad for ArchiveLayerHandle :: map
@name __map
@ret r
@props A16 A19
@param h : &mut Heap
@param w : &mut World
@pre c . map ( ) => c.__map(h)
@pre p . map ( ) => p.__map(w)
@pre r . map ( ) => r.__map(w)
@spec
    requires self.ready(*old(h), *old(w))
    ensures same_disk(*old(w), *final(w)), *final(h) == *old(h), match r { Ok(b) => final(w).fault() || self.content(*old(h), *old(w)) == Some(b@), Err(_) => final(w).fault() || self.content(*old(h), *old(w)) is None }
@@end
}

// ---- layers under construction, and finalizing them
pub assume_specification<T> [std::mem::drop::<T>](x: T);
/// the kind a file name stands for (the table in storage/consts.rs, not under contract)
pub uninterp spec fn kind_of(n: Seq<char>) -> Option<LayerFileEnum>;
#[verifier::external_body]
pub fn __kind_of(n: &str) -> (r: LayerFileEnum) requires kind_of(n@) is Some ensures kind_of(n@) == Some(r) { unimplemented!() }
/// declines by panicking
#[verifier::external_body]
pub fn __refuse() -> ! { unimplemented!() }
#[verifier::external_body]
pub fn __sort(v: &mut Vec<(LayerFileEnum, Bytes)>)
    requires forall|i: int, j: int| 0 <= i < j < old(v)@.len() ==> (#[trigger] old(v)@[i]).0 != (#[trigger] old(v)@[j]).0
    ensures final(v)@.len() == old(v)@.len(), forall|x: (LayerFileEnum, Bytes)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> ((#[trigger] final(v)@[i]).0 as int) < ((#[trigger] final(v)@[j]).0 as int) { unimplemented!() }
#[verifier::external_body]
pub fn __kinds(v: &Vec<(LayerFileEnum, Bytes)>) -> (r: Kinds) ensures r.left() == kinds(v@) { unimplemented!() }
pub open spec fn kinds(s: Seq<(LayerFileEnum, Bytes)>) -> Seq<LayerFileEnum> { s.map_values(|x: (LayerFileEnum, Bytes)| x.0) }
#[verifier::external_body]
pub struct LateLogArrayBufBuilder { }
impl LateLogArrayBufBuilder {
    pub uninterp spec fn vals(&self) -> Seq<u64>;
    #[verifier::external_body]
    pub fn new(b: BytesMut) -> (r: LateLogArrayBufBuilder) requires b@.len() == 0 ensures r.vals() == Seq::<u64>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: u64) ensures final(self).vals() == old(self).vals().push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize_header_first(self) -> (r: BytesMut) ensures r@ == la_enc(self.vals()) { unimplemented!() }
}
pub open spec fn rising(s: Seq<(LayerFileEnum, Bytes)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ((#[trigger] s[i]).0 as int) < ((#[trigger] s[j]).0 as int) }
/// the first n files one after another
pub open spec fn concat(s: Seq<(LayerFileEnum, Bytes)>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { concat(s, n - 1) + s[n - 1].1@ } }
pub open spec fn ends(s: Seq<(LayerFileEnum, Bytes)>, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| concat(s, i + 1).len() as u64) }
pub open spec fn small(s: Seq<(LayerFileEnum, Bytes)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@.len() <= 0x100_0000_0000_0000 }
pub proof fn lemma_rising_bound(s: Seq<(LayerFileEnum, Bytes)>, j: int) requires rising(s), 0 <= j < s.len() ensures s[j].0 as int >= j decreases j { if j > 0 { lemma_rising_bound(s, j - 1); assert((s[j - 1].0 as int) < (s[j].0 as int)); } }
pub proof fn lemma_rising_len(s: Seq<(LayerFileEnum, Bytes)>) requires rising(s) ensures s.len() <= 63 { if s.len() > 0 { lemma_rising_bound(s, s.len() - 1); let t = s[s.len() - 1].0; assert((t as int) < 63); } }
pub proof fn lemma_concat_len(s: Seq<(LayerFileEnum, Bytes)>, n: int) requires small(s), 0 <= n <= s.len() ensures concat(s, n).len() <= n * 0x100_0000_0000_0000 decreases n { if n > 0 { lemma_concat_len(s, n - 1); assert(s[n - 1].1@.len() <= 0x100_0000_0000_0000); } }
pub proof fn lemma_concat_mono(s: Seq<(LayerFileEnum, Bytes)>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures concat(s, a).len() <= concat(s, b).len(), concat(s, b).subrange(0, concat(s, a).len() as int) == concat(s, a) decreases b - a
{
    if a < b { lemma_concat_mono(s, a, b - 1); assert(concat(s, b).subrange(0, concat(s, a).len() as int) =~= concat(s, b - 1).subrange(0, concat(s, a).len() as int)); }
    else { assert(concat(s, b).subrange(0, concat(s, a).len() as int) =~= concat(s, a)); }
}
/// the presence word counts the files below a kind
pub proof fn lemma_cnt(s: Seq<(LayerFileEnum, Bytes)>, p: u64, n: int)
    requires rising(s), forall|j: int| bit(p, j) == has_kind(kinds(s), j), 0 <= n <= 63
    ensures ({ let k = cnt(p, n); 0 <= k <= s.len() && (k == 0 || (s[k - 1].0 as int) < n) && (k == s.len() || s[k].0 as int >= n) })
    decreases n
{
    if n > 0 {
        lemma_cnt(s, p, n - 1);
        let k = cnt(p, n - 1);
        if bit(p, n - 1) {
            let i = choose|i: int| 0 <= i < kinds(s).len() && (#[trigger] kinds(s)[i]) as int == n - 1;
            assert(s[i].0 as int == n - 1);
            if i < k { if i < k - 1 { assert((s[i].0 as int) < (s[k - 1].0 as int)); } assert(false); }
            if i > k { assert((s[k].0 as int) < (s[i].0 as int)); assert(false); }
            if k + 1 < s.len() { assert((s[k].0 as int) < (s[k + 1].0 as int)); }
        } else if k < s.len() && s[k].0 as int == n - 1 { assert(kinds(s)[k] as int == n - 1); assert(has_kind(kinds(s), n - 1)); }
    }
}
/// what finalizing writes
pub open spec fn archive_bytes(s: Seq<(LayerFileEnum, Bytes)>, p: u64) -> Seq<u8> { be8(p) + la_enc(ends(s, s.len() as int)) + concat(s, s.len() as int) }
/// what the bytes written parse as
pub proof fn lemma_parse(s: Seq<(LayerFileEnum, Bytes)>, p: u64)
    requires s.len() <= 63
    ensures arch(archive_bytes(s, p)) == Some(Arc3 { p: p, e: ends(s, s.len() as int), d: concat(s, s.len() as int) })
{
    let n = s.len() as int; let e = ends(s, n); let d = concat(s, n); let b = archive_bytes(s, p);
    assert(b.subrange(0, 8) =~= be8(p));
    assert(b.subrange(8, b.len() as int) =~= la_enc(e) + d);
}
pub proof fn lemma_head(s: Seq<(LayerFileEnum, Bytes)>, p: u64)
    requires rising(s), small(s), s.len() <= 63, p & 1 == 0, forall|j: int| bit(p, j) == has_kind(kinds(s), j)
    ensures head_ok(p, ends(s, s.len() as int)), s.len() > 0 ==> ends(s, s.len() as int)[s.len() - 1] == concat(s, s.len() as int).len(), concat(s, s.len() as int).len() <= i64::MAX
{
    let n = s.len() as int; let e = ends(s, n);
    lemma_cnt(s, p, 63);
    if n > 0 { let c = cnt(p, 63); if c < n { let t = s[c].0; assert((t as int) < 63); } }
    assert(e.len() == cnt(p, 63));
    lemma_concat_len(s, n);
    assert(n * 0x100_0000_0000_0000 <= 63 * 0x100_0000_0000_0000) by (nonlinear_arith) requires n <= 63;
    assert forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i <= j < e.len() implies e[i] <= e[j] by { lemma_concat_mono(s, i + 1, j + 1); lemma_concat_mono(s, j + 1, n); }
}
pub proof fn lemma_span(s: Seq<(LayerFileEnum, Bytes)>, p: u64, k: int)
    requires rising(s), small(s), s.len() <= 63, p & 1 == 0, forall|j: int| bit(p, j) == has_kind(kinds(s), j), 0 <= k < s.len(), concat(s, s.len() as int).len() <= i64::MAX
    ensures ({ let e = ends(s, s.len() as int); let t = s[k].0 as int; bit(p, t) && part_from(p, e, t) == concat(s, k).len() && part_to(p, e, t) == concat(s, k + 1).len() })
{
    let n = s.len() as int; let t = s[k].0; let e = ends(s, n);
    assert(kinds(s)[k] == t);
    assert(has_kind(kinds(s), t as int));
    assert((t as int) < 63);
    lemma_cnt(s, p, t as int);
    let c = cnt(p, t as int);
    if c < k { assert((s[c].0 as int) < (s[k].0 as int)); }
    if c > k { if k < c - 1 { assert((s[k].0 as int) < (s[c - 1].0 as int)); } }
    assert(c == k);
    lemma_concat_mono(s, k + 1, n); lemma_concat_mono(s, k, n);
    assert(e[k] == concat(s, k + 1).len());
    if k > 0 { assert(e[k - 1] == concat(s, k).len()); }
}
pub proof fn lemma_cut(s: Seq<(LayerFileEnum, Bytes)>, k: int)
    requires 0 <= k < s.len()
    ensures concat(s, k).len() <= concat(s, k + 1).len() <= concat(s, s.len() as int).len(), concat(s, s.len() as int).subrange(concat(s, k).len() as int, concat(s, k + 1).len() as int) == s[k].1@
{
    let n = s.len() as int; let d = concat(s, n); let a = concat(s, k).len() as int; let z = concat(s, k + 1).len() as int;
    lemma_concat_mono(s, k + 1, n); lemma_concat_mono(s, k, k + 1);
    assert(d.subrange(a, z) =~= d.subrange(0, z).subrange(a, z));
    assert(concat(s, k + 1).subrange(a, z) =~= s[k].1@);
}
pub open spec fn packs(s: Seq<(LayerFileEnum, Bytes)>, p: u64) -> bool { rising(s) && small(s) && p & 1 == 0 && forall|j: int| bit(p, j) == has_kind(kinds(s), j) }
pub proof fn lemma_holds(s: Seq<(LayerFileEnum, Bytes)>, p: u64, k: int)
    requires packs(s, p), 0 <= k < s.len()
    ensures arch_file(archive_bytes(s, p), s[k].0) == Some(s[k].1@)
{
    lemma_rising_len(s); lemma_parse(s, p); lemma_head(s, p); lemma_span(s, p, k); lemma_cut(s, k);
}
pub proof fn lemma_only(s: Seq<(LayerFileEnum, Bytes)>, p: u64, t: LayerFileEnum) -> (k: int)
    requires packs(s, p), arch_file(archive_bytes(s, p), t) is Some
    ensures 0 <= k < s.len(), s[k].0 == t
{
    lemma_rising_len(s); lemma_parse(s, p);
    assert(has_kind(kinds(s), t as int));
    let k = choose|i: int| 0 <= i < kinds(s).len() && (#[trigger] kinds(s)[i]) as int == t as int;
    assert(s[k].0 as int == t as int); assert(s[k].0 == t);
    k
}
/// the archive holds exactly those files
pub proof fn lemma_archive(s: Seq<(LayerFileEnum, Bytes)>, p: u64)
    requires packs(s, p)
    ensures arch_ok(archive_bytes(s, p))
{
    lemma_rising_len(s); lemma_parse(s, p); lemma_head(s, p);
    assert(arch(archive_bytes(s, p))->0.wf());
}
pub type Files = HashMap<LayerFileEnum, ConstructionFile>;
pub open spec fn built(m: Map<LayerFileEnum, ConstructionFile>, h: Heap, t: LayerFileEnum) -> Option<Seq<u8>> { if m.contains_key(t) { match m[t].st(h) { CF::Done(b) => Some(b), _ => None } } else { None } }
pub open spec fn same_files(b: Seq<u8>, m: Map<LayerFileEnum, ConstructionFile>, h: Heap) -> bool { arch_ok(b) && forall|t: LayerFileEnum| #[trigger] arch_file(b, t) == built(m, h, t) }
/// those of the first n files that are finished
pub open spec fn gathered(acc: Seq<(LayerFileEnum, Bytes)>, all: Seq<(LayerFileEnum, ConstructionFile)>, n: int, h: Heap) -> bool {
    &&& forall|j: int| 0 <= j < acc.len() ==> exists|i: int| 0 <= i < n && (#[trigger] all[i]).0 == (#[trigger] acc[j]).0 && all[i].1.st(h) == CF::Done(acc[j].1@)
    &&& forall|i: int| 0 <= i < n && (#[trigger] all[i]).1.st(h) is Done ==> exists|j: int| 0 <= j < acc.len() && (#[trigger] acc[j]).0 == all[i].0
    &&& forall|i: int, j: int| 0 <= i < j < acc.len() ==> (#[trigger] acc[i]).0 != (#[trigger] acc[j]).0
}
pub proof fn lemma_gathered_step(acc: Seq<(LayerFileEnum, Bytes)>, all: Seq<(LayerFileEnum, ConstructionFile)>, n: int, h: Heap, x: (LayerFileEnum, Bytes))
    requires gathered(acc, all, n, h), 0 <= n < all.len(), forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0 != (#[trigger] all[j]).0
    ensures !(all[n].1.st(h) is Done) ==> gathered(acc, all, n + 1, h), all[n].1.st(h) == CF::Done(x.1@) && x.0 == all[n].0 ==> gathered(acc.push(x), all, n + 1, h)
{
    if !(all[n].1.st(h) is Done) {
        assert forall|j: int| 0 <= j < acc.len() implies exists|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0 == (#[trigger] acc[j]).0 && all[i].1.st(h) == CF::Done(acc[j].1@) by { let i = choose|i: int| 0 <= i < n && (#[trigger] all[i]).0 == acc[j].0 && all[i].1.st(h) == CF::Done(acc[j].1@); assert(all[i].0 == acc[j].0); }
    }
    if all[n].1.st(h) == CF::Done(x.1@) && x.0 == all[n].0 {
        let a2 = acc.push(x);
        assert forall|j: int| 0 <= j < a2.len() implies exists|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).0 == (#[trigger] a2[j]).0 && all[i].1.st(h) == CF::Done(a2[j].1@) by {
            if j < acc.len() { assert(a2[j] == acc[j]); let i = choose|i: int| 0 <= i < n && (#[trigger] all[i]).0 == acc[j].0 && all[i].1.st(h) == CF::Done(acc[j].1@); assert(all[i].0 == a2[j].0); } else { assert(all[n].0 == a2[j].0); }
        }
        assert forall|i: int| 0 <= i < n + 1 && (#[trigger] all[i]).1.st(h) is Done implies exists|j: int| 0 <= j < a2.len() && (#[trigger] a2[j]).0 == all[i].0 by {
            if i < n { let j = choose|j: int| 0 <= j < acc.len() && (#[trigger] acc[j]).0 == all[i].0; assert(a2[j].0 == all[i].0); } else { assert(a2[acc.len() as int].0 == all[i].0); }
        }
        assert forall|i: int, j: int| 0 <= i < j < a2.len() implies (#[trigger] a2[i]).0 != (#[trigger] a2[j]).0 by {
            if j == acc.len() { assert(a2[i] == acc[i]); let q = choose|q: int| 0 <= q < n && (#[trigger] all[q]).0 == acc[i].0 && all[q].1.st(h) == CF::Done(acc[i].1@); assert(all[q].0 != all[n].0); } else { assert(a2[i] == acc[i] && a2[j] == acc[j]); }
        }
    }
}
pub proof fn lemma_small(acc: Seq<(LayerFileEnum, Bytes)>, s: Seq<(LayerFileEnum, Bytes)>, all: Seq<(LayerFileEnum, ConstructionFile)>, m: Map<LayerFileEnum, ConstructionFile>, h: Heap)
    requires gathered(acc, all, all.len() as int, h), pairs(all, m), forall|x: (LayerFileEnum, Bytes)| #[trigger] s.contains(x) == acc.contains(x),
        forall|t: LayerFileEnum| (#[trigger] built(m, h, t) matches Some(b) && b.len() > 0x100_0000_0000_0000) ==> false
    ensures small(s)
{
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).1@.len() <= 0x100_0000_0000_0000 by {
        assert(s.contains(s[k]));
        let j = choose|j: int| 0 <= j < acc.len() && acc[j] == s[k];
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == acc[j].0 && all[i].1.st(h) == CF::Done(acc[j].1@);
        assert(m[all[i].0] == all[i].1);
        assert(built(m, h, all[i].0) is Some);
    }
}
/// sorted and written out, they are the finished files
pub proof fn lemma_final(acc: Seq<(LayerFileEnum, Bytes)>, s: Seq<(LayerFileEnum, Bytes)>, all: Seq<(LayerFileEnum, ConstructionFile)>, m: Map<LayerFileEnum, ConstructionFile>, h: Heap, p: u64)
    requires gathered(acc, all, all.len() as int, h), pairs(all, m), s.len() == acc.len(), forall|x: (LayerFileEnum, Bytes)| #[trigger] s.contains(x) == acc.contains(x), rising(s),
        small(s), p & 1 == 0, forall|j: int| bit(p, j) == has_kind(kinds(s), j)
    ensures same_files(archive_bytes(s, p), m, h)
{
    lemma_archive(s, p);
    let b = archive_bytes(s, p);
    assert forall|t: LayerFileEnum| #[trigger] arch_file(b, t) == built(m, h, t) by {
        if arch_file(b, t) is Some {
            let k = lemma_only(s, p, t);
            lemma_holds(s, p, k);
            assert(s.contains(s[k]));
            let j = choose|j: int| 0 <= j < acc.len() && acc[j] == s[k];
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == acc[j].0 && all[i].1.st(h) == CF::Done(acc[j].1@);
            assert(m[all[i].0] == all[i].1);
        } else if built(m, h, t) is Some {
            let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0 == t;
            assert(m[all[i].0] == all[i].1);
            let j = choose|j: int| 0 <= j < acc.len() && (#[trigger] acc[j]).0 == all[i].0;
            assert(acc.contains(acc[j]));
            assert(s.contains(acc[j]) == acc.contains(acc[j]));
            let k = choose|k: int| 0 <= k < s.len() && s[k] == acc[j];
            lemma_holds(s, p, k);
        }
    }
}

@@item storage/archive.rs :: struct ArchiveLayerStore
@flag pub
@subst ArchiveLayerConstructionMap => RwLock<HashMap<[u32; 5], HashMap<LayerFileEnum, ConstructionFile>>>
@@end
impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveLayerStore<M, D> {
    pub open spec fn making(&self) -> Map<[u32; 5], HashMap<LayerFileEnum, ConstructionFile>> { self.construction.v@ }
    /// every file under construction has its state
    pub open spec fn wf(&self, h: Heap) -> bool { forall|d: [u32; 5], t: LayerFileEnum| #![trigger self.making()[d]@[t]] self.making().contains_key(d) && self.making()[d]@.contains_key(t) ==> self.making()[d]@[t].has(h) }
    pub open spec fn same_backends(&self, o: &Self) -> bool { self.metadata_backend == o.metadata_backend && self.data_backend == o.data_backend }
@@fn storage/archive.rs :: impl ArchiveLayerStore :: write_bytes
@ret r
@props A16 A18
@subst & self => & mut self
@param h : &mut Heap
@pre ConstructionFile :: new_finalized ( bytes ) => ConstructionFile::new_finalized(bytes, h)
@spec
    requires old(self).wf(*old(h)), old(self).making().contains_key(name), !old(self).making()[name]@.contains_key(file)
    ensures final(self).wf(*final(h)), final(self).same_backends(old(self)),
        final(self).making().contains_key(name), final(self).making() == old(self).making().insert(name, final(self).making()[name]),
        forall|t: LayerFileEnum| #[trigger] built(final(self).making()[name]@, *final(h), t) == (if t == file { Some(bytes@) } else { built(old(self).making()[name]@, *old(h), t) })
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: create_named_directory
@ret r
@props A16 A19
@subst & self => & mut self
@subst __panic ( ) => __refuse()
@thread w : &mut World ; layer_exists
@spec
    requires old(self).metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), final(self).same_backends(old(self)), match r {
        Ok(n) => n == name && old(self).metadata_backend.mstored(*old(w), name) is None && !old(self).making().contains_key(name) && final(self).making().contains_key(name)
            && final(self).making() == old(self).making().insert(name, final(self).making()[name]) && final(self).making()[name]@ == Map::<LayerFileEnum, ConstructionFile>::empty(),
        Err(_) => final(w).fault() && final(self).making() == old(self).making() }
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: directory_exists
@ret r
@props A16 A19
@thread w : &mut World ; layer_exists
@spec
    requires self.metadata_backend.mok(*old(w))
    ensures same_disk(*old(w), *final(w)), match r { Ok(b) => b == (self.making().contains_key(name) || self.metadata_backend.mstored(*old(w), name) is Some), Err(_) => final(w).fault() }
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: get_file
@ret r
@props A16 A19
@subst & self => & mut self
@subst Self :: File => ArchiveLayerHandle<M, D>
@pre FILENAME_ENUM_MAP [ name ] => __kind_of(name)
@param h : &mut Heap
@pre ConstructionFile :: new ( ) => ConstructionFile::new(h)
@spec
    requires old(self).wf(*old(h)), kind_of(name@) is Some
    ensures final(self).wf(*final(h)), final(self).same_backends(old(self)), ({
        let t = kind_of(name@)->0;
        let m = old(self).making();
        match r {
            Ok(ArchiveLayerHandle::Rollup(f)) => t == LayerFileEnum::Rollup && f.layer_id == directory && f.metadata_backend == old(self).metadata_backend && final(self).making() == m,
            Ok(ArchiveLayerHandle::Persistent(p)) => t != LayerFileEnum::Rollup && !m.contains_key(directory) && p.layer_id == directory && p.file_type == t && p.metadata_backend == old(self).metadata_backend && p.data_backend == old(self).data_backend && final(self).making() == m,
            Ok(ArchiveLayerHandle::Construction(c)) => t != LayerFileEnum::Rollup && m.contains_key(directory) && if m[directory]@.contains_key(t) { c.0.id() == m[directory]@[t].0.id() && final(self).making() == m && *final(h) == *old(h) }
                else { c.st(*final(h)) == CF::Building(seq![]) && final(self).making().contains_key(directory) && final(self).making() == m.insert(directory, final(self).making()[directory]) && final(self).making()[directory]@ == m[directory]@.insert(t, final(self).making()[directory]@[t])
                    && final(self).making()[directory]@[t].0.id() == c.0.id() && !c.has(*old(h)) && final(h).at() == old(h).at().insert(c.0.id(), CF::Building(seq![])) },
            Err(_) => false } })
@at call Construction#1
proof {
    let m2 = self.making();
    assert forall|d: [u32; 5], t: LayerFileEnum| #![trigger m2[d]@[t]] m2.contains_key(d) && m2[d]@.contains_key(t) implies m2[d]@[t].has(*h) by {
        let m = old(self).making();
        if d == directory && t == file_type { } else if d == directory { assert(m2[d]@[t] == m[d]@[t]); assert(m[d]@.contains_key(t)); } else { assert(m2[d] == m[d]); }
        assert(m[d]@[t] == m[d]@[t]);
    }
}
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: file_exists
@ret r
@props A16 A19
@pre FILENAME_ENUM_MAP [ file ] => __kind_of(file)
@thread w : &mut World ; get_rollup layer_file_exists
@spec
    requires self.metadata_backend.mok(*old(w)), kind_of(file@) is Some
    ensures same_disk(*old(w), *final(w)), ({
        let t = kind_of(file@)->0; let b = self.metadata_backend.mstored(*old(w), directory);
        match r { Ok(x) => final(w).fault() || x == (if t == LayerFileEnum::Rollup { b is Some && self.metadata_backend.rollup(*old(w), directory) is Some } else if self.making().contains_key(directory) { self.making()[directory]@.contains_key(t) } else { b is Some && arch_file(b->0, t) is Some }),
            Err(_) => final(w).fault() } })
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: layer_parent
@ret r
@props A12 A16
@thread w : &mut World ; get_parent
@spec
    requires self.metadata_backend.mok(*old(w)), self.metadata_backend.mstored(*old(w), name) is Some ==> parent_ok(self.metadata_backend.mstored(*old(w), name)->0)
    ensures same_disk(*old(w), *final(w)), match r { Ok(x) => self.metadata_backend.mstored(*old(w), name) is Some && x == parent_of(self.metadata_backend.mstored(*old(w), name)->0),
            Err(_) => final(w).fault() || self.metadata_backend.mstored(*old(w), name) is None }
@@end
@@fn storage/archive.rs :: impl PersistentLayerStore for ArchiveLayerStore :: finalize
@ret r
@props A16
@subst & self => & mut self
@param h : &mut Heap
@param w : &mut World
@pre file . is_finalized ( ) => file.is_finalized(h)
@pre file . finalized_buf ( ) => file.finalized_buf(h)
@pre files . sort ( ) => __sort(&mut files)
@pre files . iter ( ) . map ( | ( t , _ ) | t ) . cloned ( ) => __kinds(&files)
@pre store_layer_file ( directory , data_buf . freeze ( ) ) => store_layer_file(directory, data_buf.freeze(), w)
@spec
    requires old(self).wf(*old(h)), old(self).making().contains_key(directory), old(self).data_backend.ok(*old(w)), old(self).data_backend.stored(*old(w), directory) is None,
        forall|t: LayerFileEnum| (#[trigger] built(old(self).making()[directory]@, *old(h), t) matches Some(b) && b.len() > 0x100_0000_0000_0000) ==> false
    ensures final(self).same_backends(old(self)), final(self).making() == old(self).making().remove(directory), *final(h) == *old(h), match r {
        Ok(_) => old(self).data_backend.ok(*final(w)) && (old(self).data_backend.stored(*final(w), directory) matches Some(b) && same_files(b, old(self).making()[directory]@, *old(h)))
            && (forall|o: [u32; 5]| o != directory ==> #[trigger] old(self).data_backend.stored(*final(w), o) == old(self).data_backend.stored(*old(w), o)),
        Err(_) => final(w).fault() || old(self).data_backend.blocked(*old(w)) }
@at start
let ghost m = old(self).making()[directory]@;
let ghost h0 = *h;
let ghost mut n = 0int;
@at let files
let ghost all = order(files);
@loop c0
invariant
    *h == h0, pairs(all, m), 0 <= n <= all.len(), __c0_i.left() == all.subrange(n, all.len() as int), gathered(__c0_acc@, all, n, h0),
    forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).1.has(h0),
ensures n == all.len()
decreases all.len() - n
@at loopstart c0
proof {
    assert forall|x: (LayerFileEnum, Bytes)| all[n].1.st(h0) == CF::Done(x.1@) && x.0 == all[n].0 implies gathered(#[trigger] __c0_acc@.push(x), all, n + 1, h0) by { lemma_gathered_step(__c0_acc@, all, n, h0, x); }
    lemma_gathered_step(__c0_acc@, all, n, h0, arbitrary());
    assert(all.subrange(n, all.len() as int).drop_first() =~= all.subrange(n + 1, all.len() as int));
    n = n + 1;
}
@at call __sort
let ghost acc1 = files@;
@at call from_present
let ghost s = files@;
proof { lemma_small(acc1, s, all, m, h0); lemma_rising_len(s); }
@loop 0
invariant
    0 <= __f0 <= s.len(), files@ == s, rising(s), small(s), s.len() <= 63, tally == concat(s, __f0 as int).len(), offsets.vals() == ends(s, __f0 as int),
decreases s.len() - __f0
@at loopstart 0
let ghost v0 = offsets.vals();
proof { lemma_concat_len(s, __f0 as int); }
@at loopend 0
proof { lemma_concat_len(s, __f0 as int); assert(offsets.vals() =~= ends(s, __f0 as int)); }
@at call with_capacity
let ghost mut k = 0int;
let ghost p = presence_header.present_files.val();
proof { lemma_concat_len(s, s.len() as int); assert(offsets_buf@.len() <= 16 + 8 * 63); }
@loop 1
invariant
    0 <= k <= s.len(), __f1.left() == s.subrange(k, s.len() as int), data_buf@ == be8(p) + la_enc(ends(s, s.len() as int)) + concat(s, k),
ensures k == s.len()
decreases s.len() - k
@at loopend 1
proof { k = k + 1; assert(data_buf@ =~= be8(p) + la_enc(ends(s, s.len() as int)) + concat(s, k)); }
@at call store_layer_file
proof { assert(data_buf@ == archive_bytes(s, p)); lemma_final(acc1, s, all, m, h0, p); }
@@end
}

fn main() {}
}
