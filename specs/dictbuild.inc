// ---- writing dictionaries: tdb_succinct's builders (assumed)
#[verifier::external_body] pub struct BytesMut { _x: () }
impl BytesMut {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
impl Bytes { #[verifier::external_body] pub fn copy_from_slice(b: &[u8]) -> (r: Bytes) ensures r@ == b@ { unimplemented!() } }
/// the text that bytes stand for
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn text_of_utf8(s: Seq<char>) ensures #[trigger] text_of(encode_utf8(s)) == s;
#[verifier::external_body] pub struct StringDictBufBuilder { _x: () }
impl StringDictBufBuilder {
    pub uninterp spec fn entries(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn new(offsets: BytesMut, data: BytesMut) -> (r: StringDictBufBuilder) requires offsets@.len() == 0, data@.len() == 0 ensures r.entries() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, value: Bytes) -> (r: u64)
        requires forall|i: int| 0 <= i < old(self).entries().len() ==> str_lt(#[trigger] old(self).entries()[i], text_of(value@))
        ensures final(self).entries() == old(self).entries().push(text_of(value@)), r == final(self).entries().len() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: (BytesMut, BytesMut)) ensures str_dict(r.0@, r.1@)@ == self.entries(), str_dict(r.0@, r.1@).wf() { unimplemented!() }
}
#[verifier::external_body] pub struct TypedDictBufBuilder { _x: () }
impl TypedDictBufBuilder {
    pub uninterp spec fn entries(&self) -> Seq<TypedDictEntry>;
    #[verifier::external_body] pub fn new(types_present: BytesMut, type_offsets: BytesMut, offsets: BytesMut, data: BytesMut) -> (r: TypedDictBufBuilder) requires types_present@.len() == 0, type_offsets@.len() == 0, offsets@.len() == 0, data@.len() == 0 ensures r.entries() == Seq::<TypedDictEntry>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, value: TypedDictEntry) -> (r: u64)
        requires forall|i: int| 0 <= i < old(self).entries().len() ==> val_lt(#[trigger] old(self).entries()[i], value)
        ensures final(self).entries() == old(self).entries().push(value), r == final(self).entries().len() { unimplemented!() }
    #[verifier::external_body] pub fn finalize(self) -> (r: (BytesMut, BytesMut, BytesMut, BytesMut)) ensures typed_dict(r.0@, r.1@, r.2@, r.3@)@ == self.entries(), typed_dict(r.0@, r.1@, r.2@, r.3@).wf() { unimplemented!() }
}
impl DictionaryFiles<File> {
    #[verifier::external_body] pub fn write_all_from_bufs(&self, blocks_buf: &mut BytesMut, offsets_buf: &mut BytesMut, w: &mut World) -> (r: Result<(), io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| self.locs().at(l)), match r { Ok(_) => bytes(final(w).disk(), self.blocks_file.at()) == Some(old(blocks_buf)@) && bytes(final(w).disk(), self.offsets_file.at()) == Some(old(offsets_buf)@), Err(_) => final(w).fault() } { unimplemented!() }
}
impl TypedDictionaryFiles<File> {
    #[verifier::external_body] pub fn write_all_from_bufs(&self, types_present_buf: &mut BytesMut, type_offsets_buf: &mut BytesMut, offsets_buf: &mut BytesMut, blocks_buf: &mut BytesMut, w: &mut World) -> (r: Result<(), io::Error>)
        ensures changed(*old(w), *final(w), |l: Loc| self.locs().at(l)), match r { Ok(_) => bytes(final(w).disk(), self.types_present_file.at()) == Some(old(types_present_buf)@) && bytes(final(w).disk(), self.type_offsets_file.at()) == Some(old(type_offsets_buf)@)
            && bytes(final(w).disk(), self.offsets_file.at()) == Some(old(offsets_buf)@) && bytes(final(w).disk(), self.blocks_file.at()) == Some(old(blocks_buf)@), Err(_) => final(w).fault() } { unimplemented!() }
}
