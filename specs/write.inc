// ---------------------------------------------------------------------------------
// writing the parts of a layer: tdb_succinct's builders (assumed)
// ---------------------------------------------------------------------------------
/// nothing but what is at `mine` may have changed
pub open spec fn changed(a: World, b: World, mine: spec_fn(Loc) -> bool) -> bool {
    dirs(b.disk()) == dirs(a.disk()) && (a.fault() ==> b.fault()) && (forall|c: int| #[trigger] b.cell(c) == a.cell(c)) && forall|l: Loc| !mine(l) ==> #[trigger] bytes(b.disk(), l) == bytes(a.disk(), l)
}
#[verifier::external_body] pub struct Writer { _x: () }
impl Writer { pub uninterp spec fn at(&self) -> Loc; }
impl File {
    #[verifier::external_body] pub fn open_write(&self, w: &mut World) -> (r: Result<Writer, io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| l == self.at()), match r { Ok(x) => x.at() == self.at(), Err(_) => final(w).fault() } { unimplemented!() }
}
impl<F> BitIndexFiles<F> { pub open spec fn at(self, l: F) -> bool { l == self.bits_file || l == self.blocks_file || l == self.sblocks_file } }
impl<F> AdjacencyListFiles<F> { pub open spec fn at(self, l: F) -> bool { self.bitindex_files.at(l) || l == self.nums_file } }
impl<F> DictionaryFiles<F> { pub open spec fn at(self, l: F) -> bool { l == self.blocks_file || l == self.offsets_file } }
impl<F> TypedDictionaryFiles<F> { pub open spec fn at(self, l: F) -> bool { l == self.types_present_file || l == self.type_offsets_file || l == self.blocks_file || l == self.offsets_file } }
/// the entries of a list: a left hand side and what it has (0: nothing)
pub type Pairs = Seq<(int, u64)>;
pub open spec fn last_l(a: Pairs) -> int { if a.len() == 0 { 0 } else { a.last().0 } }
pub open spec fn last_r(a: Pairs) -> u64 { if a.len() == 0 { 0 } else { a.last().1 } }
/// the left hand sides strictly between have nothing
pub open spec fn gap(from: int, to: int) -> Pairs { Seq::new(if to - from - 1 > 0 { (to - from - 1) as nat } else { 0 }, |i: int| (from + 1 + i, 0u64)) }
pub open spec fn with_pair(a: Pairs, l: int, r: u64) -> Pairs { (a + gap(last_l(a), l)).push((l, r)) }
pub open spec fn lists_pairs(x: AdjacencyList, a: Pairs) -> bool {
    x.wf() && x.len() == a.len() && x.lefts() == last_l(a) && forall|k: int| 0 <= k < a.len() ==> x.nums()[k] == (#[trigger] a[k]).1 && x.left(k) + 1 == a[k].0
}
/// a number can be stored in that many bits
pub uninterp spec fn fits(width: u8, x: u64) -> bool;
pub axiom fn width_fits(n: int, x: u64) requires x <= n ensures fits(width_for(n), x);
#[verifier::external_body] pub struct AdjacencyListBuilder { _x: () }
impl AdjacencyListBuilder {
    pub uninterp spec fn files(&self) -> AdjacencyListFiles<Loc>;
    pub uninterp spec fn width(&self) -> u8;
    pub uninterp spec fn pairs(&self) -> Pairs;
    pub open spec fn same(&self, o: &AdjacencyListBuilder) -> bool { self.files() == o.files() && self.width() == o.width() }
    #[verifier::external_body] pub fn new(bitfile: File, bitindex_blocks: Writer, bitindex_sblocks: Writer, nums_writer: Writer, width: u8, w: &mut World) -> (r: Result<AdjacencyListBuilder, io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| l == bitfile.at()),
            match r { Ok(b) => b.files() == (AdjacencyListFiles { bitindex_files: BitIndexFiles { bits_file: bitfile.at(), blocks_file: bitindex_blocks.at(), sblocks_file: bitindex_sblocks.at() }, nums_file: nums_writer.at() }) && b.width() == width && b.pairs().len() == 0, Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn __push(&mut self, left: u64, right: u64, w: &mut World) -> (r: Result<(), io::Error>)
        requires left >= 1, left > last_l(old(self).pairs()) || (left == last_l(old(self).pairs()) && right > last_r(old(self).pairs())), fits(old(self).width(), right)
        ensures final(self).same(old(self)), changed(*old(w), *final(w), |l: Loc| old(self).files().at(l)),
            match r { Ok(_) => final(self).pairs() == with_pair(old(self).pairs(), left as int, right), Err(_) => final(w).fault() } { unimplemented!() }
    /// the bits lag one behind
    #[verifier::external_body] pub fn count(&self) -> (r: u64) ensures r < i64::MAX, r == (if self.pairs().len() == 0 { 0 } else { self.pairs().len() - 1 }) { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self, w: &mut World) -> (r: Result<(), io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| self.files().at(l)),
            match r { Ok(_) => self.files().whole(final(w).disk()) && lists_pairs(self.files().list(final(w).disk()), self.pairs()), Err(_) => final(w).fault() } { unimplemented!() }
}
#[verifier::external_body] pub struct LogArrayFileBuilder { _x: () }
impl LogArrayFileBuilder {
    pub uninterp spec fn at(&self) -> Loc;
    pub uninterp spec fn width(&self) -> u8;
    pub uninterp spec fn entries(&self) -> Seq<u64>;
    #[verifier::external_body] pub fn new(dest: Writer, width: u8) -> (r: LogArrayFileBuilder) ensures r.at() == dest.at(), r.width() == width, r.entries().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn push_vec(&mut self, vals: Vec<u64>, w: &mut World) -> (r: Result<(), io::Error>)
        requires forall|i: int| 0 <= i < vals@.len() ==> fits(old(self).width(), #[trigger] vals@[i])
        ensures final(self).at() == old(self).at(), final(self).width() == old(self).width(), changed(*old(w), *final(w), |l: Loc| l == old(self).at()),
            match r { Ok(_) => final(self).entries() == old(self).entries() + vals@, Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self, w: &mut World) -> (r: Result<(), io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| l == self.at()),
            match r { Ok(_) => is_array(final(w).disk(), self.at()) && array_at(final(w).disk(), self.at())@ == self.entries() && self.entries().len() < i64::MAX, Err(_) => final(w).fault() } { unimplemented!() }
}
