// ---- reading and writing the small files (assumed: what the file operations do)
/// nothing but what is at `at` may have changed
pub open spec fn touched(a: Disk, b: Disk, at: Loc) -> bool { dirs(b) == dirs(a) && forall|l: Loc| l != at ==> #[trigger] bytes(b, l) == bytes(a, l) }
pub open spec fn wrote(a: World, b: World, at: Loc) -> bool { touched(a.disk(), b.disk(), at) && (a.fault() ==> b.fault()) && forall|c: int| #[trigger] b.cell(c) == a.cell(c) }
/// files of different layers, and different files of a layer, are in different places
pub broadcast axiom fn loc_distinct(n: Name5, f: Seq<char>, m: Name5, g: Seq<char>) ensures #[trigger] loc(n, f) == #[trigger] loc(m, g) ==> n == m && f == g;
#[verifier::external_body] pub struct Reader { _x: () }
#[verifier::external_body] pub struct Writer { _x: () }
impl Reader {
    /// what is still to be read
    pub uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn read_exact<const N: usize>(&mut self, buf: &mut [u8; N], w: &mut World) -> (r: Result<usize, io::Error>)
        ensures read_only(*old(w), *final(w)), match r {
            Ok(_) => old(self).left().len() >= N && final(buf)@ == old(self).left().subrange(0, N as int) && final(self).left() == old(self).left().subrange(N as int, old(self).left().len() as int),
            Err(_) => final(w).fault() || old(self).left().len() < N } { unimplemented!() }
    #[verifier::external_body] pub fn read_to_end(&mut self, data: &mut Vec<u8>, w: &mut World) -> (r: Result<usize, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(_) => final(data)@ == old(data)@ + old(self).left(), Err(_) => final(w).fault() } { unimplemented!() }
}
impl Writer {
    pub uninterp spec fn at(&self) -> Loc;
    /// everything that has been written to it
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn write_all(&mut self, b: &[u8], w: &mut World) -> (r: Result<(), io::Error>)
        ensures wrote(*old(w), *final(w), old(self).at()), final(self).at() == old(self).at(), match r { Ok(_) => final(self).content() == old(self).content() + b@, Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self, w: &mut World) -> (r: Result<(), io::Error>)
        ensures wrote(*old(w), *final(w), old(self).at()), final(self).at() == old(self).at(), final(self).content() == old(self).content(), r is Err ==> final(w).fault() { unimplemented!() }
    /// from now on it is there
    #[verifier::external_body] pub fn sync_all(self, w: &mut World) -> (r: Result<(), io::Error>)
        ensures wrote(*old(w), *final(w), self.at()), match r { Ok(_) => bytes(final(w).disk(), self.at()) == Some(self.content()), Err(_) => final(w).fault() } { unimplemented!() }
}
impl File {
    #[verifier::external_body] pub fn open_read(&self, w: &mut World) -> (r: Result<Reader, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(x) => bytes(old(w).disk(), self.at()) == Some(x.left()), Err(_) => final(w).fault() || !has_bytes(old(w).disk(), self.at()) } { unimplemented!() }
    #[verifier::external_body] pub fn open_write(&self, w: &mut World) -> (r: Result<Writer, io::Error>)
        ensures wrote(*old(w), *final(w), self.at()), match r { Ok(x) => x.at() == self.at() && x.content() == Seq::<u8>::empty(), Err(_) => final(w).fault() || gone(*old(w), self.dir()) } { unimplemented!() }
}
