// ---------------------------------------------------------------------------------
// tdb_succinct (an external dependency): assumed contracts.
// ---------------------------------------------------------------------------------
pub open spec fn rank1(b: Seq<bool>, n: int) -> int decreases n
{ if n <= 0 { 0 } else { rank1(b, n - 1) + (if b[n - 1] { 1int } else { 0int }) } }

pub proof fn rank1_mono(b: Seq<bool>, i: int, j: int)
    requires 0 <= i <= j <= b.len()
    ensures rank1(b, i) <= rank1(b, j) <= rank1(b, i) + (j - i), 0 <= rank1(b, i) <= i
    decreases j
{ if i < j { rank1_mono(b, i, j - 1); } else if i > 0 { rank1_mono(b, i - 1, i - 1); } }

pub proof fn rank1_bit(b: Seq<bool>, i: int, j: int)
    requires 0 <= i < j <= b.len(), b[i]
    ensures rank1(b, i) < rank1(b, j)
{ rank1_mono(b, i + 1, j); assert(rank1(b, i + 1) == rank1(b, i) + 1); }

pub proof fn rank1_facts(b: Seq<bool>)
    ensures
        forall|i: int, j: int| 0 <= i <= j <= b.len() ==> #[trigger] rank1(b, i) <= #[trigger] rank1(b, j),
        forall|i: int, j: int| 0 <= i < j <= b.len() && b[i] ==> #[trigger] rank1(b, i) < #[trigger] rank1(b, j),
        forall|i: int| 0 <= i <= b.len() ==> 0 <= #[trigger] rank1(b, i) <= i,
{
    assert forall|i: int, j: int| 0 <= i <= j <= b.len() implies #[trigger] rank1(b, i) <= #[trigger] rank1(b, j) by { rank1_mono(b, i, j); }
    assert forall|i: int, j: int| 0 <= i < j <= b.len() && b[i] implies #[trigger] rank1(b, i) < #[trigger] rank1(b, j) by { rank1_bit(b, i, j); }
    assert forall|i: int| 0 <= i <= b.len() implies 0 <= #[trigger] rank1(b, i) <= i by { rank1_mono(b, i, i); }
}

#[verifier::external_body] pub struct AdjacencyList { _x: () }
impl AdjacencyList {
    pub uninterp spec fn nums(&self) -> Seq<u64>;
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    pub open spec fn len(&self) -> nat { self.bits().len() }
    pub open spec fn wf(&self) -> bool { self.nums().len() == self.bits().len() && self.bits().len() < i64::MAX && (self.bits().len() > 0 ==> self.bits().last()) }
    pub open spec fn lefts(&self) -> int { rank1(self.bits(), self.bits().len() as int) }
    /// 0-based left hand side of position k
    pub open spec fn left(&self, k: int) -> int { rank1(self.bits(), k) }
    #[verifier::external_body] pub fn left_count(&self) -> (r: usize) requires self.wf() ensures r == self.lefts() { unimplemented!() }
    #[verifier::external_body] pub fn right_count(&self) -> (r: usize) requires self.wf() ensures r == self.bits().len() { unimplemented!() }
    #[verifier::external_body] pub fn offset_for(&self, index: u64) -> (r: u64)
        requires self.wf(), 1 <= index <= self.lefts() + 1
        ensures r <= self.bits().len(), rank1(self.bits(), r as int) == index - 1, r > 0 ==> self.bits()[r - 1] { unimplemented!() }
    #[verifier::external_body] pub fn bit_at_pos(&self, pos: u64) -> (r: bool) requires self.wf(), pos < self.bits().len() ensures r == self.bits()[pos as int] { unimplemented!() }
    #[verifier::external_body] pub fn num_at_pos(&self, pos: u64) -> (r: u64) requires self.wf(), pos < self.bits().len() ensures r == self.nums()[pos as int] { unimplemented!() }
    #[verifier::external_body] pub fn left_at_pos(&self, pos: u64) -> (r: u64) requires self.wf(), pos < self.bits().len() ensures r == rank1(self.bits(), pos as int) + 1 { unimplemented!() }
    #[verifier::external_body] pub fn pair_at_pos(&self, pos: u64) -> (r: (u64, u64)) requires self.wf(), pos < self.bits().len()
        ensures r.0 == rank1(self.bits(), pos as int) + 1, r.1 == self.nums()[pos as int] { unimplemented!() }
}
impl Clone for AdjacencyList { #[verifier::external_body] fn clone(&self) -> (r: AdjacencyList) ensures r == *self { unimplemented!() } }

#[verifier::external_body] pub struct MonotonicLogArray { _x: () }
impl MonotonicLogArray {
    pub uninterp spec fn view(&self) -> Seq<u64>;
    pub open spec fn wf(&self) -> bool { self@.len() < i64::MAX && forall|i: int, j: int| 0 <= i < j < self@.len() ==> self@[i] < self@[j] }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn entry(&self, i: usize) -> (r: u64) requires self.wf(), i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn index_of(&self, x: u64) -> (r: Option<usize>) requires self.wf()
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == x, None => forall|i: int| 0 <= i < self@.len() ==> self@[i] != x } { unimplemented!() }
    /// the index of the first element >= x
    #[verifier::external_body] pub fn nearest_index_of(&self, x: u64) -> (r: usize) requires self.wf()
        ensures r <= self@.len(), forall|i: int| 0 <= i < r ==> self@[i] < x, forall|i: int| r <= i < self@.len() ==> self@[i] >= x { unimplemented!() }
}
impl Clone for MonotonicLogArray { #[verifier::external_body] fn clone(&self) -> (r: MonotonicLogArray) ensures r == *self { unimplemented!() } }

pub open spec fn occurrences(s: Seq<u64>, x: u64) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { occurrences(s.drop_last(), x) + (if s.last() == x { 1int } else { 0int }) } }

#[verifier::external_body] pub struct WaveletTree { _x: () }
impl WaveletTree {
    pub uninterp spec fn view(&self) -> Seq<u64>;
    pub open spec fn wf(&self) -> bool { self@.len() < i64::MAX }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn lookup_one(&self, x: u64) -> (r: Option<u64>) requires self.wf()
        ensures match r { Some(i) => i < self@.len() && self@[i as int] == x, None => forall|i: int| 0 <= i < self@.len() ==> self@[i] != x } { unimplemented!() }
    #[verifier::external_body] pub fn decode_one(&self, i: usize) -> (r: u64) requires self.wf(), i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn lookup(&self, x: u64) -> (r: Option<WaveletLookup>) requires self.wf()
        ensures match r { Some(l) => l.of() == self@ && l.what() == x && l.wf(), None => forall|i: int| 0 <= i < self@.len() ==> self@[i] != x } { unimplemented!() }
}
#[verifier::external_body] pub struct WaveletLookup { _x: () }
impl WaveletLookup {
    pub uninterp spec fn of(&self) -> Seq<u64>;
    pub uninterp spec fn what(&self) -> u64;
    pub uninterp spec fn positions(&self) -> Seq<u64>;
    pub open spec fn wf(&self) -> bool {
        &&& self.positions().len() < i64::MAX
        &&& self.positions().len() == occurrences(self.of(), self.what())
        &&& forall|i: int, j: int| 0 <= i < j < self.positions().len() ==> self.positions()[i] < self.positions()[j]
        &&& forall|i: int| 0 <= i < self.positions().len() ==> self.positions()[i] < self.of().len() && self.of()[self.positions()[i] as int] == self.what()
        &&& forall|k: int| 0 <= k < self.of().len() && self.of()[k] == self.what() ==> exists|i: int| 0 <= i < self.positions().len() && self.positions()[i] == k
    }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.positions().len() { unimplemented!() }
    #[verifier::external_body] pub fn entry(&self, i: usize) -> (r: u64) requires self.wf(), i < self.positions().len() ensures r == self.positions()[i as int] { unimplemented!() }
}

pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }

// tfc::block::IdLookupResult
pub enum IdLookupResult { Found(u64), Closest(u64), NotFound }
impl IdLookupResult {
    #[verifier::external_body] pub fn into_option(self) -> (r: Option<u64>)
        ensures r == (match self { IdLookupResult::Found(i) => Some(i), _ => None }) { unimplemented!() }
}
#[verifier::external_body] pub struct StringDict { _x: () }
impl StringDict {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    pub open spec fn wf(&self) -> bool { self@.len() < i64::MAX && distinct(self@) }
    #[verifier::external_body] pub fn num_entries(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// ids start at 1
    #[verifier::external_body] pub fn get(&self, id: usize) -> (r: Option<String>) requires self.wf(), id > 0
        ensures match r { Some(s) => id <= self@.len() && s@ == self@[id - 1], None => id > self@.len() } { unimplemented!() }
    #[verifier::external_body] pub fn id(&self, s: &&str) -> (r: IdLookupResult) requires self.wf()
        ensures match r { IdLookupResult::Found(i) => 1 <= i <= self@.len() && self@[i - 1] == s@, _ => forall|i: int| 0 <= i < self@.len() ==> self@[i] != s@ } { unimplemented!() }
}
#[verifier::external_body] pub struct TypedDictEntry { _x: () }
#[verifier::external_body] pub struct TypedDict { _x: () }
impl TypedDict {
    pub uninterp spec fn view(&self) -> Seq<TypedDictEntry>;
    pub open spec fn wf(&self) -> bool { self@.len() < i64::MAX && distinct(self@) }
    #[verifier::external_body] pub fn num_entries(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn entry(&self, id: usize) -> (r: Option<TypedDictEntry>) requires self.wf(), id > 0
        ensures match r { Some(s) => id <= self@.len() && s == self@[id - 1], None => id > self@.len() } { unimplemented!() }
    #[verifier::external_body] pub fn id_entry(&self, s: &TypedDictEntry) -> (r: IdLookupResult) requires self.wf()
        ensures match r { IdLookupResult::Found(i) => 1 <= i <= self@.len() && self@[i - 1] == *s, _ => forall|i: int| 0 <= i < self@.len() ==> self@[i] != *s } { unimplemented!() }
}
