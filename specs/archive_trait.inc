// ---- what an archive backend promises
/// layers as they are stored
pub trait ArchiveBackend: Sized {
    /// the bytes stored for a layer
    spec fn stored(&self, w: World, id: [u32; 5]) -> Option<Seq<u8>>;
    /// every stored layer is an archive
    spec fn ok(&self, w: World) -> bool;
    proof fn stored_ok(&self, w: World, id: [u32; 5]) requires self.ok(w), self.stored(w, id) is Some ensures arch_ok(self.stored(w, id)->0);
    /// only the disk decides
    proof fn stored_same(&self, v: World, w: World) requires same_disk(v, w) ensures forall|id: [u32; 5]| #[trigger] self.stored(v, id) == self.stored(w, id), self.ok(v) == self.ok(w);
    fn get_layer_bytes(&self, id: [u32; 5], w: &mut World) -> (r: Result<Bytes, io::Error>)
        requires self.ok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r { Ok(b) => self.stored(*old(w), id) == Some(b@) && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() || self.stored(*old(w), id) is None };
    fn get_layer_structure_bytes(&self, id: [u32; 5], file_type: LayerFileEnum, w: &mut World) -> (r: Result<Option<Bytes>, io::Error>)
        requires self.ok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r {
            Ok(x) => final(w).fault() == old(w).fault() && self.stored(*old(w), id) is Some && arch_file(self.stored(*old(w), id)->0, file_type) == opt_bytes(x),
            Err(_) => final(w).fault() || self.stored(*old(w), id) is None };
    fn store_layer_file(&self, id: [u32; 5], bytes: Bytes, w: &mut World) -> (r: Result<(), io::Error>)
        requires self.ok(*old(w)), self.stored(*old(w), id) is None, arch_ok(bytes@)
        ensures match r { Ok(_) => self.ok(*final(w)) && final(w).fault() == old(w).fault() && self.stored(*final(w), id) == Some(bytes@)
                && (forall|o: [u32; 5]| o != id ==> #[trigger] self.stored(*final(w), o) == self.stored(*old(w), o)),
            Err(_) => final(w).fault() || self.blocked(*old(w)) };
    /// plain files are in the way of its directories
    spec fn blocked(&self, w: World) -> bool;
    /// what a reader has still to give
    type Read: Sized;
    spec fn unread(r: Self::Read, w: World) -> Seq<u8>;
    fn read_layer_structure_bytes_from(&self, id: [u32; 5], file_type: LayerFileEnum, read_from: usize, w: &mut World) -> (r: Result<Self::Read, io::Error>)
        requires self.ok(*old(w)), self.stored(*old(w), id) matches Some(b) && (arch_file(b, file_type) matches Some(f) && read_from > f.len()) ==> false
        ensures same_disk(*old(w), *final(w)), match r {
            Ok(x) => final(w).fault() == old(w).fault() && (self.stored(*old(w), id) matches Some(b) && (arch_file(b, file_type) matches Some(f) && Self::unread(x, *final(w)) == f.subrange(read_from as int, f.len() as int))),
            Err(_) => final(w).fault() || self.stored(*old(w), id) is None || arch_file(self.stored(*old(w), id)->0, file_type) is None };
    /// derived or shared: the same backend
    fn clone(&self) -> (r: Self) ensures r == *self;
}
pub open spec fn opt_bytes(x: Option<Bytes>) -> Option<Seq<u8>> { match x { Some(b) => Some(b@), None => None } }
/// what is known about stored layers
pub trait ArchiveMetadataBackend: Sized {
    spec fn mstored(&self, w: World, id: [u32; 5]) -> Option<Seq<u8>>;
    spec fn rollup(&self, w: World, id: [u32; 5]) -> Option<[u32; 5]>;
    spec fn mok(&self, w: World) -> bool;
    proof fn mstored_same(&self, v: World, w: World) requires same_disk(v, w) ensures forall|id: [u32; 5]| #[trigger] self.mstored(v, id) == self.mstored(w, id), self.mok(v) == self.mok(w);
    fn clone(&self) -> (r: Self) ensures r == *self;
    fn layer_exists(&self, id: [u32; 5], w: &mut World) -> (r: Result<bool, io::Error>)
        requires self.mok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r { Ok(x) => x == self.mstored(*old(w), id) is Some && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() };
    fn layer_size(&self, id: [u32; 5], w: &mut World) -> (r: Result<u64, io::Error>)
        requires self.mok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r { Ok(n) => self.mstored(*old(w), id) is Some && n == self.mstored(*old(w), id)->0.len() && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() || self.mstored(*old(w), id) is None };
    fn layer_file_exists(&self, id: [u32; 5], file_type: LayerFileEnum, w: &mut World) -> (r: Result<bool, io::Error>)
        requires self.mok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r {
            Ok(x) => final(w).fault() == old(w).fault() && x == (self.mstored(*old(w), id) is Some && arch_file(self.mstored(*old(w), id)->0, file_type) is Some),
            Err(_) => final(w).fault() };
    fn get_layer_structure_size(&self, id: [u32; 5], file_type: LayerFileEnum, w: &mut World) -> (r: Result<usize, io::Error>)
        requires self.mok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r {
            Ok(n) => final(w).fault() == old(w).fault() && self.mstored(*old(w), id) is Some && (arch_file(self.mstored(*old(w), id)->0, file_type) matches Some(f) && n == f.len()),
            Err(_) => final(w).fault() || self.mstored(*old(w), id) is None || arch_file(self.mstored(*old(w), id)->0, file_type) is None };
    fn get_rollup(&self, id: [u32; 5], w: &mut World) -> (r: Result<Option<[u32; 5]>, io::Error>)
        requires self.mok(*old(w))
        ensures same_disk(*old(w), *final(w)), match r { Ok(x) => final(w).fault() || x == (if self.mstored(*old(w), id) is Some { self.rollup(*old(w), id) } else { None }), Err(_) => final(w).fault() };
    fn set_rollup(&self, id: [u32; 5], rollup: [u32; 5], w: &mut World) -> (r: Result<(), io::Error>)
        requires self.mok(*old(w))
        ensures match r { Ok(_) => self.mok(*final(w)) && final(w).fault() == old(w).fault() && self.mstored(*old(w), id) is Some && self.rollup(*final(w), id) == Some(rollup)
                && (forall|o: [u32; 5]| #[trigger] self.mstored(*final(w), o) == self.mstored(*old(w), o)) && (forall|o: [u32; 5]| o != id ==> #[trigger] self.rollup(*final(w), o) == self.rollup(*old(w), o)),
            Err(_) => final(w).fault() || self.mstored(*old(w), id) is None };
    fn get_parent(&self, id: [u32; 5], w: &mut World) -> (r: Result<Option<[u32; 5]>, io::Error>)
        requires self.mok(*old(w)), self.mstored(*old(w), id) is Some ==> parent_ok(self.mstored(*old(w), id)->0)
        ensures same_disk(*old(w), *final(w)), match r { Ok(x) => final(w).fault() == old(w).fault() && self.mstored(*old(w), id) is Some && x == parent_of(self.mstored(*old(w), id)->0),
            Err(_) => final(w).fault() || self.mstored(*old(w), id) is None };
}
/// the parent named in an archive: the first 40 bytes of its parent file
pub open spec fn parent_ok(b: Seq<u8>) -> bool {
    match arch_file(b, LayerFileEnum::Parent) { Some(f) => f.len() >= 40 && valid_utf8(f.subrange(0, 40)) && text_name(decode_utf8(f.subrange(0, 40))) is Some, None => true }
}
pub open spec fn parent_of(b: Seq<u8>) -> Option<[u32; 5]> {
    match arch_file(b, LayerFileEnum::Parent) { Some(f) => text_name(decode_utf8(f.subrange(0, 40))), None => None }
}
#[verifier::external_body]
pub fn __utf8(b: &[u8]) -> (r: &str) requires valid_utf8(b@) ensures r@ == decode_utf8(b@) { unimplemented!() }
