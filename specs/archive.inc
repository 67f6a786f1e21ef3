// ---------------------------------------------------------------------------------
// the layout of an archived layer: a word of presence bits, the ends of the stored files, the files one after another.
// Assumed: Bytes/BytesMut, SmallBitArray (a word read from its top bit) and how tdb_succinct writes and reads a log array.
// ---------------------------------------------------------------------------------
pub open spec fn bit(v: u64, i: int) -> bool { 0 <= i < 63 && (v >> ((63 - i) as u64)) & 1 == 1 }
/// how many of the first n bits are set
pub open spec fn cnt(v: u64, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(v, n - 1) + (if bit(v, n - 1) { 1int } else { 0 }) } }
pub proof fn cnt_bounds(v: u64, n: int) ensures 0 <= cnt(v, n), n >= 0 ==> cnt(v, n) <= n decreases n { if n > 0 { cnt_bounds(v, n - 1); } }
pub proof fn cnt_mono(v: u64, a: int, b: int) requires a <= b ensures cnt(v, a) <= cnt(v, b) decreases b - a { if a < b { cnt_mono(v, a, b - 1); cnt_bounds(v, b); } }

#[verifier::external_body]
pub struct SmallBitArray { }
impl SmallBitArray {
    pub uninterp spec fn val(&self) -> u64;
    #[verifier::external_body]
    pub fn new(v: u64) -> (r: SmallBitArray) requires v & 1 == 0 ensures r.val() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: bool) requires i < 63 ensures r == bit(self.val(), i as int) { unimplemented!() }
    /// set bits up to and including i
    #[verifier::external_body]
    pub fn rank1(&self, i: usize) -> (r: usize) requires i < 63 ensures r == cnt(self.val(), i + 1) { unimplemented!() }
    #[verifier::external_body]
    pub fn inner(&self) -> (r: u64) ensures r == self.val() { unimplemented!() }
}

#[verifier::external_body]
pub struct Bytes { }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u64(&mut self) -> (r: u64) requires old(self)@.len() >= 8 ensures r == be8_val(old(self)@.subrange(0, 8)), final(self)@ == old(self)@.subrange(8, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.subrange(0, n as int), final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self, g: Range<usize>) -> (r: Bytes) requires g.start <= g.end <= self@.len() ensures r@ == self@.subrange(g.start as int, g.end as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    /// the 40 characters of a name kept in a file
    #[verifier::external_body]
    pub fn __head(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.subrange(0, n as int) { unimplemented!() }
}
pub trait HasBytes { spec fn bytes(&self) -> Seq<u8>; }
impl HasBytes for Bytes { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl HasBytes for BytesMut { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl ByteBuf for BytesMut { open spec fn data(&self) -> Seq<u8> { self@ } open spec fn room(&self) -> nat { self.cap() } }
#[verifier::external_body]
pub struct BytesMut { }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl BytesMut {
    /// memory set aside
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body]
    pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty(), r.cap() >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u64(&mut self, v: u64) ensures final(self)@ == old(self)@ + be8(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<B: HasBytes>(&mut self, b: B) ensures final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: u8) ensures final(self)@.len() == n, n >= old(self)@.len() ==> final(self)@.subrange(0, old(self)@.len() as int) == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@, final(self).cap() >= old(self)@.len() + n { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn set_len(&mut self, n: usize) requires n <= old(self).cap() ensures final(self)@.len() == n, final(self).cap() == old(self).cap(), n >= old(self)@.len() ==> final(self)@.subrange(0, old(self)@.len() as int) == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn __part(&self, lo: usize, hi: usize) -> (r: &[u8]) requires lo <= hi <= self@.len() ensures r@ == self@.subrange(lo as int, hi as int) { unimplemented!() }
}

// ---- log arrays with their control word first
pub mod codec {
    use super::*;
    verus! {
pub uninterp spec fn be8(v: u64) -> Seq<u8>;
pub broadcast axiom fn axiom_be8(v: u64) ensures (#[trigger] be8(v)).len() == 8, be8_val(be8(v)) == v;
pub uninterp spec fn la_enc(v: Seq<u64>) -> Seq<u8>;
/// what a control word says about the bytes that follow it
pub uninterp spec fn la_len(word: Seq<u8>) -> int;
/// values, and the bytes behind them
pub uninterp spec fn la_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn la_vals(b: Seq<u8>) -> Seq<u64>;
pub uninterp spec fn la_rest(b: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn axiom_la_enc(v: Seq<u64>, x: Seq<u8>) requires v.len() <= 63
    ensures ({ let b = #[trigger] (la_enc(v) + x); la_ok(b) && la_vals(b) == v && la_rest(b) == x });
pub broadcast axiom fn axiom_la_len(v: Seq<u64>) requires v.len() <= 63 ensures 8 <= #[trigger] la_enc(v).len() <= 16 + 8 * v.len();
pub axiom fn axiom_la_dec(b: Seq<u8>) requires la_ok(b)
    ensures b.len() >= 8, 0 <= la_len(b.subrange(0, 8)), 8 + la_len(b.subrange(0, 8)) <= b.len(), 8 + la_len(b.subrange(0, 8)) <= usize::MAX, la_vals(b).len() <= usize::MAX,
        la_rest(b) == b.subrange(8 + la_len(b.subrange(0, 8)), b.len() as int),
        la_ok(b.subrange(0, 8 + la_len(b.subrange(0, 8)))), la_vals(b.subrange(0, 8 + la_len(b.subrange(0, 8)))) == la_vals(b);
    }
}
pub use codec::*;
#[verifier::external_body]
pub fn logarray_length_from_control_word(b: &[u8]) -> (r: usize) requires b@.len() == 8 ensures 0 <= la_len(b@) <= usize::MAX ==> r == la_len(b@) { unimplemented!() }
#[verifier::external_body]
pub struct MonotonicLogArray { }
#[verifier::external_body]
pub struct LogArrayError { }
impl core::fmt::Debug for LogArrayError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl View for MonotonicLogArray { type V = Seq<u64>; uninterp spec fn view(&self) -> Seq<u64>; }
impl MonotonicLogArray {
    #[verifier::external_body]
    pub fn parse_header_first(b: Bytes) -> (r: Result<(MonotonicLogArray, Bytes), LogArrayError>)
        ensures la_ok(b@) ==> (match r { Ok((a, x)) => a@ == la_vals(b@) && x@ == la_rest(b@), Err(_) => false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&self, i: usize) -> (r: u64) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

// ---- archives
/// the presence word, the ends of the files, the files
pub struct Arc3 { pub p: u64, pub e: Seq<u64>, pub d: Seq<u8> }
pub open spec fn arch(b: Seq<u8>) -> Option<Arc3> {
    let x = b.subrange(8, b.len() as int);
    if b.len() < 8 || !la_ok(x) { None } else { Some(Arc3 { p: be8_val(b.subrange(0, 8)), e: la_vals(x), d: la_rest(x) }) }
}
/// a header: as many ends as files, ascending
pub open spec fn head_ok(p: u64, e: Seq<u64>) -> bool {
    &&& p & 1 == 0 && e.len() == cnt(p, 63)
    &&& forall|i: int, j: int| #![trigger e[i], e[j]] 0 <= i <= j < e.len() ==> e[i] <= e[j]
}
pub open spec fn part_from(p: u64, e: Seq<u64>, i: int) -> int { let k = cnt(p, i); if k == 0 { 0 } else { e[k - 1] as int } }
pub open spec fn part_to(p: u64, e: Seq<u64>, i: int) -> int { e[cnt(p, i)] as int }
pub proof fn part_in_range(p: u64, e: Seq<u64>, i: int) requires head_ok(p, e), bit(p, i) ensures 0 <= cnt(p, i) < e.len(), 0 <= part_from(p, e, i) <= part_to(p, e, i) <= e[e.len() - 1], cnt(p, i + 1) == cnt(p, i) + 1
{
    cnt_bounds(p, i); cnt_mono(p, i + 1, 63);
    let k = cnt(p, i);
    assert(k < e.len());
    assert(e[k] <= e[e.len() - 1]);
    if k > 0 { assert(e[k - 1] <= e[k]); }
}
impl Arc3 {
    pub open spec fn wf(&self) -> bool { head_ok(self.p, self.e) && (self.e.len() > 0 ==> self.e[self.e.len() - 1] == self.d.len()) && self.d.len() <= i64::MAX }
    pub open spec fn file(&self, i: int) -> Option<Seq<u8>> { if bit(self.p, i) { Some(self.d.subrange(part_from(self.p, self.e, i), part_to(self.p, self.e, i))) } else { None } }
}
pub open spec fn arch_ok(b: Seq<u8>) -> bool { arch(b) is Some && arch(b)->0.wf() }
pub open spec fn arch_file(b: Seq<u8>, t: LayerFileEnum) -> Option<Seq<u8>> { arch(b)->0.file(t as int) }

@@item storage/consts.rs :: enum LayerFileEnum
@derive Clone, Copy, PartialEq, Eq, Structural
@@end
@@item storage/archive.rs :: struct ArchiveFilePresenceHeader
@flag pub
@@end
@@item storage/archive.rs :: struct ArchiveHeader
@flag pub
@@end
@@item storage/archive.rs :: struct Archive
@flag pub
@@end
impl ArchiveFilePresenceHeader {
@@fn storage/archive.rs :: impl ArchiveFilePresenceHeader :: new
@ret r
@props A16
@spec
    requires val & 1 == 0
    ensures r.present_files.val() == val
@@end
@@fn storage/archive.rs :: impl ArchiveFilePresenceHeader :: is_present
@ret r
@props A16
@spec
    ensures r == bit(self.present_files.val(), file as int)
@@end
@@fn storage/archive.rs :: impl ArchiveFilePresenceHeader :: inner
@ret r
@props A16
@spec
    ensures r == self.present_files.val()
@@end
@@fn storage/archive.rs :: impl ArchiveFilePresenceHeader :: file_index
@ret r
@props A16
@spec
    ensures match r { Some(k) => bit(self.present_files.val(), file as int) && k == cnt(self.present_files.val(), file as int), None => !bit(self.present_files.val(), file as int) }
@at start
proof { cnt_bounds(self.present_files.val(), file as int); }
@@end
}
impl ArchiveHeader {
    pub open spec fn p(&self) -> u64 { self.file_presence.present_files.val() }
    pub open spec fn e(&self) -> Seq<u64> { self.file_offsets@ }
    pub open spec fn is(&self, a: Arc3) -> bool { self.file_presence.present_files.val() == a.p && self.file_offsets@ == a.e }
@@fn storage/archive.rs :: impl ArchiveHeader :: parse
@ret r
@props A16
@spec
    requires arch_ok(bytes@)
    ensures r.0.is(arch(bytes@)->0), r.1@ == arch(bytes@)->0.d
@@end
@@fn storage/archive.rs :: impl ArchiveHeader :: range_for
@ret r
@props A16
@spec
    requires head_ok(self.p(), self.e())
    ensures match r { Some(g) => bit(self.p(), file as int) && g.start == part_from(self.p(), self.e(), file as int) && g.end == part_to(self.p(), self.e(), file as int) && g.start <= g.end <= self.e()[self.e().len() - 1], None => !bit(self.p(), file as int) }
@at start
proof { if bit(self.p(), file as int) { part_in_range(self.p(), self.e(), file as int); } }
@@end
@@fn storage/archive.rs :: impl ArchiveHeader :: size_of
@ret r
@props A16
@spec
    requires head_ok(self.p(), self.e())
    ensures match r { Some(n) => bit(self.p(), file as int) && n == part_to(self.p(), self.e(), file as int) - part_from(self.p(), self.e(), file as int), None => !bit(self.p(), file as int) }
@@end
}
impl Archive {
    pub open spec fn a(&self) -> Arc3 { Arc3 { p: self.header.p(), e: self.header.e(), d: self.data@ } }
@@fn storage/archive.rs :: impl Archive :: parse
@ret r
@props A16
@spec
    requires arch_ok(bytes@)
    ensures r.a() == arch(bytes@)->0, r.a().wf()
@@end
@@fn storage/archive.rs :: impl Archive :: slice_for
@ret r
@props A16
@spec
    requires self.a().wf()
    ensures match r { Some(x) => self.a().file(file as int) == Some(x@), None => self.a().file(file as int) is None }
@at start
proof { if bit(self.a().p, file as int) { part_in_range(self.a().p, self.a().e, file as int); } }
@@end
@@fn storage/archive.rs :: impl Archive :: size_of
@ret r
@props A16
@spec
    requires self.a().wf()
    ensures match r { Some(n) => self.a().file(file as int) is Some && n == self.a().file(file as int)->0.len(), None => self.a().file(file as int) is None }
@at start
proof { if bit(self.a().p, file as int) { part_in_range(self.a().p, self.a().e, file as int); } }
@@end
}
