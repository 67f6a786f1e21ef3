// ---- the file system as an explicit parameter (assumed contracts of tokio::fs and of file locking, which is taken to be exclusive)
pub mod frame {
    use super::*;
    verus! {
#[verifier::external_body]
pub struct World { }
impl World {
    /// contents of every regular file
    pub uninterp spec fn files(&self) -> Map<Seq<char>, Seq<u8>>;
    pub uninterp spec fn dirs(&self) -> Set<Seq<char>>;
    /// some operation of the operating system has failed
    pub uninterp spec fn fault(&self) -> bool;
}
pub open spec fn same_dirs(a: World, b: World) -> bool { a.dirs() == b.dirs() && (a.fault() ==> b.fault()) }
pub open spec fn same_disk(a: World, b: World) -> bool { a.files() == b.files() && same_dirs(a, b) }
    /// only the file at `p` may differ
    pub open spec fn same_but(a: World, b: World, p: Seq<char>) -> bool { same_dirs(a, b) && a.files().remove(p) == b.files().remove(p) }
    pub broadcast proof fn lemma_same_but(a: World, b: World, p: Seq<char>, q: Seq<char>)
        requires #[trigger] same_but(a, b, p), q != p
        ensures (#[trigger] b.files().contains_key(q)) == a.files().contains_key(q), a.files().contains_key(q) ==> b.files()[q] == a.files()[q]
    { assert(a.files().remove(p).contains_key(q) == b.files().remove(p).contains_key(q)); assert(a.files().contains_key(q) ==> a.files().remove(p)[q] == b.files().remove(p)[q]); }
    }
}
pub use frame::*;
pub uninterp spec fn join(d: Seq<char>, n: Seq<char>) -> Seq<char>;
pub uninterp spec fn parent(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn fname(p: Seq<char>) -> Seq<char>;
/// DIR/NAME is in DIR, is called NAME, and is as long as both with at most a separator between
pub axiom fn axiom_join(d: Seq<char>, n: Seq<char>) requires good_name(n), n != seq!['.'], n != seq!['.', '.'] ensures parent(join(d, n)) == d, fname(join(d, n)) == n, d.len() + n.len() <= join(d, n).len() <= d.len() + n.len() + 1;
pub mod be {
    use super::*;
    verus! {
    pub uninterp spec fn be8_val(b: Seq<u8>) -> u64;
    }
}
pub use be::*;
pub trait ByteBuf { spec fn data(&self) -> Seq<u8>; spec fn room(&self) -> nat; }
impl ByteBuf for Vec<u8> { open spec fn data(&self) -> Seq<u8> { self@ } open spec fn room(&self) -> nat { 0 } }
pub uninterp spec fn stem(p: Seq<char>) -> Seq<char>;
pub open spec fn good_name(n: Seq<char>) -> bool { n.len() > 0 && !n.contains('/') && !n.contains('\0') }
/// the file stem of DIR/NAME.EXT is NAME
pub axiom fn axiom_stem(d: Seq<char>, n: Seq<char>) requires good_name(n) ensures stem(join(d, n + ".label"@)) == n;

pub trait AsText { spec fn text(&self) -> Seq<char>; }
impl AsText for String { open spec fn text(&self) -> Seq<char> { self@ } }
impl AsText for &String { open spec fn text(&self) -> Seq<char> { self@ } }
impl AsText for &str { open spec fn text(&self) -> Seq<char> { self@ } }

#[verifier::external_body]
pub struct PathBuf { }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PathBuf {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push<S: AsText>(&mut self, s: S) ensures final(self)@ == join(old(self)@, s.text()) { unimplemented!() }
    /// back to the path something was joined to
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool) ensures final(self)@ == parent(old(self)@) { unimplemented!() }
}
pub trait AsPath { spec fn path(&self) -> Seq<char>; }
impl AsPath for PathBuf { open spec fn path(&self) -> Seq<char> { self@ } }
impl AsPath for &PathBuf { open spec fn path(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn __stem(p: &PathBuf) -> (r: String) ensures r@ == stem(p@) { unimplemented!() }

pub open spec fn splice(c: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
    if pos + b.len() >= c.len() { c.subrange(0, pos) + b } else { c.subrange(0, pos) + b + c.subrange(pos + b.len(), c.len() as int) }
}
pub open spec fn resized(c: Seq<u8>, n: int) -> Seq<u8> { if n <= c.len() { c.subrange(0, n) } else { c + Seq::new((n - c.len()) as nat, |i: int| 0u8) } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

pub mod fs {
    use super::*;
    verus! {
    /// an open file; what was written becomes visible at the next flush
    #[verifier::external_body]
    pub struct File { }
    impl File {
        pub uninterp spec fn path(&self) -> Seq<char>;
        pub uninterp spec fn pos(&self) -> nat;
        pub uninterp spec fn content(&self) -> Seq<u8>;
        pub open spec fn same(&self, f: &File) -> bool { self.path() == f.path() && self.pos() == f.pos() && self.content() == f.content() }
        /// the handle is where the file is, and nothing is pending
        pub open spec fn synced(&self, w: &World) -> bool { w.files().contains_key(self.path()) && w.files()[self.path()] == self.content() && self.pos() <= self.content().len() }
        pub open spec fn valid(&self, w: &World) -> bool { w.files().contains_key(self.path()) && self.pos() <= self.content().len() }
        #[verifier::external_body]
        pub fn into_std(self) -> (r: File) ensures r.same(&self) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_std(f: File) -> (r: File) ensures r.same(&f) { unimplemented!() }
        #[verifier::external_body]
        pub fn try_lock_exclusive(&self) -> (r: Result<(), std::io::Error>) { unimplemented!() }
        #[verifier::external_body]
        pub fn try_lock_shared(&self) -> (r: Result<(), std::io::Error>) { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, p: SeekFrom, w: &mut World) -> (r: Result<u64, std::io::Error>)
            requires old(self).valid(old(w)), p matches SeekFrom::Current(d) ==> 0 <= old(self).pos() + d <= old(self).content().len(),
            ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(),
                match r { Ok(n) => n == final(self).pos() && (p matches SeekFrom::Start(k) ==> n == k) && (p matches SeekFrom::Current(d) ==> n == old(self).pos() + d) && (final(w).fault() == old(w).fault()),
                    Err(_) => final(w).fault() && final(self).pos() == old(self).pos() } { unimplemented!() }
        #[verifier::external_body]
        pub fn set_len(&mut self, n: u64, w: &mut World) -> (r: Result<(), std::io::Error>)
            requires old(self).valid(old(w)),
            ensures final(self).path() == old(self).path(), final(self).pos() == old(self).pos(), same_but(*old(w), *final(w), old(self).path()), final(w).files().contains_key(old(self).path()),
                match r { Ok(_) => final(self).content() == resized(old(self).content(), n as int) && final(w).files()[old(self).path()] == final(self).content() && (final(w).fault() == old(w).fault()),
                    Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8], w: &mut World) -> (r: Result<(), std::io::Error>)
            requires old(self).valid(old(w)),
            ensures final(self).path() == old(self).path(), same_but(*old(w), *final(w), old(self).path()), final(w).files().contains_key(old(self).path()),
                match r { Ok(_) => final(self).content() == splice(old(self).content(), old(self).pos() as int, b@) && final(self).pos() == old(self).pos() + b@.len() && (final(w).fault() == old(w).fault()),
                    Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn flush(&mut self, w: &mut World) -> (r: Result<(), std::io::Error>)
            requires old(self).valid(old(w)),
            ensures final(self).same(old(self)), same_but(*old(w), *final(w), old(self).path()), final(w).files().contains_key(old(self).path()),
                match r { Ok(_) => final(w).files()[old(self).path()] == old(self).content() && (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_all(&mut self, w: &mut World) -> (r: Result<(), std::io::Error>)
            requires old(self).synced(old(w)),
            ensures final(self).same(old(self)), same_disk(*old(w), *final(w)), match r { Ok(_) => (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_data(&mut self, w: &mut World) -> (r: Result<(), std::io::Error>)
            requires old(self).synced(old(w)),
            ensures final(self).same(old(self)), same_disk(*old(w), *final(w)), match r { Ok(_) => (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn read_to_end(&mut self, b: &mut Vec<u8>, w: &mut World) -> (r: Result<usize, std::io::Error>)
            requires old(self).valid(old(w)),
            ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(), final(self).pos() <= final(self).content().len(),
                match r { Ok(_) => final(b)@ == old(b)@ + old(self).content().subrange(old(self).pos() as int, old(self).content().len() as int) && (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn read_u64(&mut self, w: &mut World) -> (r: Result<u64, std::io::Error>)
            requires old(self).valid(old(w)),
            ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(), final(self).pos() <= final(self).content().len(),
                match r { Ok(n) => old(self).pos() + 8 <= old(self).content().len() && final(self).pos() == old(self).pos() + 8 && n == be8_val(old(self).content().subrange(old(self).pos() as int, old(self).pos() as int + 8)) && final(w).fault() == old(w).fault(),
                    Err(_) => final(w).fault() || old(self).pos() + 8 > old(self).content().len() } { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact(&mut self, b: &mut Vec<u8>, w: &mut World) -> (r: Result<usize, std::io::Error>)
            requires old(self).valid(old(w))
            ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(), final(self).pos() <= final(self).content().len(),
                match r { Ok(_) => old(self).pos() + old(b)@.len() <= old(self).content().len() && final(b)@ == old(self).content().subrange(old(self).pos() as int, old(self).pos() as int + old(b)@.len()) && final(w).fault() == old(w).fault(),
                    Err(_) => final(w).fault() || old(self).pos() + old(b)@.len() > old(self).content().len() } { unimplemented!() }
        /// fills bytes lo..hi of the buffer
        #[verifier::external_body]
        pub fn __read_into<B: ByteBuf>(&mut self, b: &mut B, lo: usize, hi: usize, w: &mut World) -> (r: Result<usize, std::io::Error>)
            requires old(self).valid(old(w)), lo <= hi <= old(b).data().len()
            ensures same_disk(*old(w), *final(w)), final(self).path() == old(self).path(), final(self).content() == old(self).content(), final(self).pos() <= final(self).content().len(),
                final(b).data().len() == old(b).data().len(), final(b).room() == old(b).room(), final(b).data().subrange(0, lo as int) == old(b).data().subrange(0, lo as int),
                match r { Ok(_) => old(self).pos() + (hi - lo) <= old(self).content().len() && final(self).pos() == old(self).pos() + (hi - lo) && final(b).data().subrange(lo as int, hi as int) == old(self).content().subrange(old(self).pos() as int, old(self).pos() + (hi - lo)) && final(w).fault() == old(w).fault(),
                    Err(_) => final(w).fault() || old(self).pos() + (hi - lo) > old(self).content().len() } { unimplemented!() }
        /// writes some of the bytes, at least one
        #[verifier::external_body]
        pub fn __write(&mut self, b: &[u8], w: &mut World) -> (r: Result<usize, std::io::Error>)
            requires old(self).valid(old(w)), b@.len() > 0
            ensures final(self).path() == old(self).path(), same_but(*old(w), *final(w), old(self).path()), final(w).files().contains_key(old(self).path()),
                match r { Ok(n) => 0 < n <= b@.len() && final(self).content() == splice(old(self).content(), old(self).pos() as int, b@.subrange(0, n as int)) && final(self).pos() == old(self).pos() + n && (final(w).fault() == old(w).fault()),
                    Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self, w: &mut World) -> (r: Result<Metadata, std::io::Error>)
            requires self.valid(old(w))
            ensures same_disk(*old(w), *final(w)), match r { Ok(m) => m.bytes() == self.content().len() && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn create(p: PathBuf, w: &mut World) -> (r: Result<File, std::io::Error>)
            requires !old(w).dirs().contains(p@)
            ensures same_but(*old(w), *final(w), p@),
                match r { Ok(f) => final(w).fault() == old(w).fault() && f.path() == p@ && f.pos() == 0 && f.synced(final(w)) && f.content() == Seq::<u8>::empty(), Err(_) => final(w).fault() } { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Metadata { }
    impl Metadata {
        pub uninterp spec fn bytes(&self) -> nat;
        #[verifier::external_body]
        pub fn len(&self) -> (r: u64) ensures r == self.bytes() { unimplemented!() }
        #[verifier::external_body]
        pub fn size(&self) -> (r: u64) ensures r == self.bytes() { unimplemented!() }
    }
    /// an open directory, kept open to write out its entries
    #[verifier::external_body]
    pub struct DirFile { }
    impl DirFile {
        #[verifier::external_body]
        pub fn sync_all(&self, w: &mut World) -> (r: Result<(), std::io::Error>)
            ensures same_disk(*old(w), *final(w)), match r { Ok(_) => final(w).fault() == old(w).fault(), Err(_) => final(w).fault() } { unimplemented!() }
    }
    /// makes a directory and those above it; a path above or at `p` is no longer than `p`
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf, w: &mut World) -> (r: Result<(), std::io::Error>)
        ensures final(w).files() == old(w).files(), forall|q: Seq<char>| q.len() > p@.len() ==> #[trigger] final(w).dirs().contains(q) == old(w).dirs().contains(q), forall|q: Seq<char>| #[trigger] old(w).dirs().contains(q) ==> final(w).dirs().contains(q),
            match r { Ok(_) => final(w).fault() == old(w).fault() && final(w).dirs().contains(p@), Err(_) => final(w).fault() || exists|q: Seq<char>| q.len() <= p@.len() && old(w).files().contains_key(q) } { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(p: PathBuf, w: &mut World) -> (r: Result<String, std::io::Error>)
        requires !old(w).dirs().contains(p@)
        ensures same_disk(*old(w), *final(w)),
            match r { Ok(s) => old(w).files().contains_key(p@) && old(w).files()[p@] == encode_utf8(s@) && final(w).fault() == old(w).fault(),
                Err(e) => if err_kind(e) == std::io::ErrorKind::NotFound { final(w).fault() == old(w).fault() && !old(w).files().contains_key(p@) } else { final(w).fault() || old(w).files().contains_key(p@) && !valid_utf8(old(w).files()[p@]) } } { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata<P: AsPath>(p: P, w: &mut World) -> (r: Result<Metadata, std::io::Error>)
        ensures same_disk(*old(w), *final(w)),
            match r { Ok(m) => (final(w).fault() == old(w).fault()) && (old(w).files().contains_key(p.path()) || old(w).dirs().contains(p.path())) && (old(w).files().contains_key(p.path()) ==> m.bytes() == old(w).files()[p.path()].len()),
                Err(e) => if err_kind(e) == std::io::ErrorKind::NotFound { (final(w).fault() == old(w).fault()) && !old(w).files().contains_key(p.path()) && !old(w).dirs().contains(p.path()) } else { final(w).fault() } } { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: PathBuf, w: &mut World) -> (r: Result<(), std::io::Error>)
        ensures same_dirs(*old(w), *final(w)),
            match r { Ok(_) => (final(w).fault() == old(w).fault()) && old(w).files().contains_key(p@) && final(w).files() == old(w).files().remove(p@) && same_but(*old(w), *final(w), p@),
                Err(e) => final(w).files() == old(w).files() && if err_kind(e) == std::io::ErrorKind::NotFound { (final(w).fault() == old(w).fault()) && !old(w).files().contains_key(p@) } else { final(w).fault() || old(w).dirs().contains(p@) } } { unimplemented!() }
    pub struct OpenOptions { pub read: bool, pub write: bool, pub create: bool, pub create_new: bool, pub truncate: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { read: false, write: false, create: false, create_new: false, truncate: false }) { OpenOptions { read: false, write: false, create: false, create_new: false, truncate: false } }
        pub fn read(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { read: b, ..*old(self) }), *final(self) == *final(r) { self.read = b; self }
        pub fn write(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { write: b, ..*old(self) }), *final(self) == *final(r) { self.write = b; self }
        pub fn create(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { create: b, ..*old(self) }), *final(self) == *final(r) { self.create = b; self }
        pub fn create_new(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { create_new: b, ..*old(self) }), *final(self) == *final(r) { self.create_new = b; self }
        pub fn truncate(&mut self, b: bool) -> (r: &mut OpenOptions) ensures *r == (OpenOptions { truncate: b, ..*old(self) }), *final(self) == *final(r) { self.truncate = b; self }
        #[verifier::external_body]
        pub fn __open_dir(&self, p: PathBuf, w: &mut World) -> (r: Result<DirFile, std::io::Error>)
            requires old(w).dirs().contains(p@), self.read, !self.write, !self.create, !self.create_new, !self.truncate
            ensures same_disk(*old(w), *final(w)), match r { Ok(_) => final(w).fault() == old(w).fault(), Err(_) => final(w).fault() } { unimplemented!() }
        #[verifier::external_body]
        pub fn open(&self, p: PathBuf, w: &mut World) -> (r: Result<File, std::io::Error>)
            ensures same_but(*old(w), *final(w), p@),
                match r {
                    Ok(f) => {
                        let was = old(w).files().contains_key(p@);
                        &&& (final(w).fault() == old(w).fault()) && f.path() == p@ && f.pos() == 0 && f.synced(final(w))
                        &&& self.create_new ==> !was
                        &&& was && !self.truncate ==> final(w).files() == old(w).files()
                        &&& !was ==> self.create_new || self.create
                        &&& f.content() == (if was && !self.truncate { old(w).files()[p@] } else { Seq::empty() })
                    },
                    Err(e) => final(w).files() == old(w).files() && if err_kind(e) == std::io::ErrorKind::NotFound { final(w).fault() || !old(w).files().contains_key(p@) && !self.create && !self.create_new }
                        else { final(w).fault() || old(w).dirs().contains(p@) || (self.create_new && old(w).files().contains_key(p@)) } } { unimplemented!() }
    }
    }
}
