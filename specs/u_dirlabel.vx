// Labels in files: parsing, locked files, and the two directory label stores.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use std::io;
verus! {
global size_of usize == 8;
broadcast use frame::lemma_same_but;
@@include text.inc
@@include label.inc
@@include lock.inc
@@include fs.inc
@@include lines.inc

@@include label_text.inc

@@include names_fn.inc

@@fn storage/directory.rs :: fn get_label_from_data
@ret r
@props A14
@pre String :: from_utf8_lossy => __lossy
@pre s . lines ( ) . collect ( ) => __lines ( & s )
@subst layer :: string_to_name => string_to_name
@spec
    ensures match file_label(data@) {
        Some(v) => r is Ok && r.unwrap()@ == (LV { name: name@, layer: v.0, version: v.1 }),
        None => r is Err && err_kind(r->Err_0) != io::ErrorKind::NotFound }
@@end


// ---- locked files
pub struct LockedFileLockFuture { }
impl LockedFileLockFuture {
    /// waiting for the lock gives back the same file, whose contents are read afterwards
    #[verifier::external_body]
    pub fn new_exclusive(f: fs::File, w: &mut World) -> (r: Result<fs::File, io::Error>)
        ensures same_disk(*old(w), *final(w)), match r { Ok(x) => x.same(&f) && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn new_shared(f: fs::File, w: &mut World) -> (r: Result<fs::File, io::Error>)
        ensures same_disk(*old(w), *final(w)), match r { Ok(x) => x.same(&f) && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() } { unimplemented!() }
}
@@item storage/locking.rs :: struct ExclusiveLockedFile
@flag pub
@@end
@@item storage/locking.rs :: struct LockedFile
@flag pub
@@end
impl ExclusiveLockedFile {
    pub open spec fn valid(&self, w: &World) -> bool { self.file is Some && self.file->0.valid(w) }
    pub open spec fn synced(&self, w: &World) -> bool { self.file is Some && self.file->0.synced(w) }
    pub open spec fn f(&self) -> fs::File { self.file->0 }
    // the poll functions hand over to the inner file (assumed)
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], w: &mut World) -> (r: Result<(), std::io::Error>)
        requires old(self).valid(old(w)),
        ensures final(self).file is Some, final(self).f().path() == old(self).f().path(), same_but(*old(w), *final(w), old(self).f().path()), final(w).files().contains_key(old(self).f().path()),
            match r { Ok(_) => final(self).f().content() == splice(old(self).f().content(), old(self).f().pos() as int, b@) && final(self).f().pos() == old(self).f().pos() + b@.len() && (final(w).fault() == old(w).fault()),
                Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: Result<(), std::io::Error>)
        requires old(self).valid(old(w)),
        ensures final(self).file is Some, final(self).f().same(&old(self).f()), same_but(*old(w), *final(w), old(self).f().path()), final(w).files().contains_key(old(self).f().path()),
            match r { Ok(_) => final(w).files()[old(self).f().path()] == old(self).f().content() && (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, b: &mut Vec<u8>, w: &mut World) -> (r: Result<usize, std::io::Error>)
        requires old(self).valid(old(w)),
        ensures same_disk(*old(w), *final(w)), final(self).file is Some, final(self).f().path() == old(self).f().path(), final(self).f().content() == old(self).f().content(), final(self).f().pos() <= final(self).f().content().len(),
            match r { Ok(_) => final(b)@ == old(b)@ + old(self).f().content().subrange(old(self).f().pos() as int, old(self).f().content().len() as int) && (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }

@@fn storage/locking.rs :: impl ExclusiveLockedFile :: create_and_open
@ret r
@props A13
@generic P = PathBuf
@subst Self => ExclusiveLockedFile
@thread w : &mut World ; open new_exclusive
@spec
    ensures same_but(*old(w), *final(w), path@),
        match r { Ok(x) => x.synced(final(w)) && x.f().path() == path@ && x.f().pos() == 0 && x.f().content() == Seq::<u8>::empty() && final(w).fault() == old(w).fault() && !old(w).files().contains_key(path@),
            Err(_) => final(w).fault() || final(w).files() == old(w).files() && (old(w).files().contains_key(path@) || old(w).dirs().contains(path@)) }
@@end
@@fn storage/locking.rs :: impl ExclusiveLockedFile :: open
@ret r
@props A13
@generic P = PathBuf
@subst Self => ExclusiveLockedFile
@thread w : &mut World ; open new_exclusive
@spec
    ensures same_disk(*old(w), *final(w)),
        match r { Ok(x) => x.synced(final(w)) && x.f().path() == path@ && x.f().pos() == 0 && x.f().content() == old(w).files()[path@] && final(w).fault() == old(w).fault() && old(w).files().contains_key(path@),
            Err(_) => final(w).fault() || old(w).dirs().contains(path@) || !old(w).files().contains_key(path@) }
@@end
@@fn storage/locking.rs :: impl ExclusiveLockedFile :: seek
@ret r
@props A13
@thread w : &mut World ; seek
@spec
    requires old(self).valid(old(w)), pos matches SeekFrom::Current(d) ==> d == 0,
    ensures same_disk(*old(w), *final(w)), final(self).file is Some, final(self).f().path() == old(self).f().path(), final(self).f().content() == old(self).f().content(),
        match r { Ok(n) => n == final(self).f().pos() && (pos matches SeekFrom::Start(k) ==> n == k) && (pos matches SeekFrom::Current(d) ==> n == old(self).f().pos()) && (final(w).fault() == old(w).fault()),
            Err(_) => final(w).fault() && final(self).f().pos() == old(self).f().pos() }
@@end
@@fn storage/locking.rs :: impl ExclusiveLockedFile :: truncate
@ret r
@props A13 A14
@thread w : &mut World ; seek set_len
@spec
    requires old(self).synced(old(w)),
    ensures same_but(*old(w), *final(w), old(self).f().path()), final(w).files().contains_key(old(self).f().path()), final(self).file is Some, final(self).f().path() == old(self).f().path(), final(self).f().pos() == old(self).f().pos(),
        match r { Ok(_) => final(self).synced(final(w)) && final(self).f().content() == old(self).f().content().subrange(0, old(self).f().pos() as int) && final(w).fault() == old(w).fault(), Err(_) => final(w).fault() }
@at tail
assert(resized(old(self).f().content(), old(self).f().pos() as int) =~= old(self).f().content().subrange(0, old(self).f().pos() as int));
@@end
@@fn storage/locking.rs :: impl ExclusiveLockedFile :: sync_all
@ret r
@props A13
@thread w : &mut World ; sync_data sync_all
@spec
    requires old(self).synced(old(w)),
    ensures final(self).file is Some, final(self).f().same(&old(self).f()), same_disk(*old(w), *final(w)), match r { Ok(_) => (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() }
@@end
}

impl LockedFile {
    pub open spec fn valid(&self, w: &World) -> bool { self.file is Some && self.file->0.valid(w) }
    pub open spec fn synced(&self, w: &World) -> bool { self.file is Some && self.file->0.synced(w) }
    pub open spec fn f(&self) -> fs::File { self.file->0 }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, b: &mut Vec<u8>, w: &mut World) -> (r: Result<usize, std::io::Error>)
        requires old(self).valid(old(w)),
        ensures same_disk(*old(w), *final(w)), final(self).file is Some,
            match r { Ok(_) => final(b)@ == old(b)@ + old(self).f().content().subrange(old(self).f().pos() as int, old(self).f().content().len() as int) && (final(w).fault() == old(w).fault()), Err(_) => final(w).fault() } { unimplemented!() }
@@fn storage/locking.rs :: impl LockedFile :: open
@ret r
@props A13
@generic P = PathBuf
@subst Self => LockedFile
@thread w : &mut World ; open new_shared
@macro cfg => __cfg_feature
@subst feature = "noreadlock" => 0
@spec
    ensures same_disk(*old(w), *final(w)),
        match r { Ok(x) => x.synced(final(w)) && x.f().path() == path@ && x.f().pos() == 0 && x.f().content() == old(w).files()[path@] && final(w).fault() == old(w).fault() && old(w).files().contains_key(path@),
            Err(e) => if err_kind(e) == io::ErrorKind::NotFound { final(w).fault() || !old(w).files().contains_key(path@) } else { final(w).fault() || old(w).dirs().contains(path@) } }
@@end
}
#[verifier::external_body]
pub fn __cfg_feature(x: usize) -> (r: bool) { unimplemented!() }

@@fn storage/directory.rs :: fn get_label_from_file
@ret r
@props A13 A14
@generic P = PathBuf
@pre path . into ( ) => path
@pre path . file_stem ( ) . unwrap ( ) . to_str ( ) . unwrap ( ) . to_owned ( ) => __stem ( & path )
@thread w : &mut World ; LockedFile::open read_to_end
@spec
    ensures same_disk(*old(w), *final(w)),
        match r {
            Ok(l) => old(w).files().contains_key(path@) && final(w).fault() == old(w).fault()
                && (match file_label(old(w).files()[path@]) { Some(v) => l@ == (LV { name: stem(path@), layer: v.0, version: v.1 }), None => false }),
            Err(e) => final(w).fault() || if err_kind(e) == io::ErrorKind::NotFound { !old(w).files().contains_key(path@) }
                else { old(w).dirs().contains(path@) || old(w).files().contains_key(path@) && file_label(old(w).files()[path@]) is None } }
@at call get_label_from_data
assert(data@ =~= old(w).files()[path@]);
@@end

@@fn storage/directory.rs :: fn get_label_from_exclusive_locked_file
@ret r
@props A13 A14
@generic P = PathBuf
@pre path . into ( ) => path
@pre path . file_stem ( ) . unwrap ( ) . to_str ( ) . unwrap ( ) . to_owned ( ) => __stem ( & path )
@thread w : &mut World ; ExclusiveLockedFile::open read_to_end seek
@spec
    ensures same_disk(*old(w), *final(w)),
        match r {
            Ok((l, f)) => old(w).files().contains_key(path@) && final(w).fault() == old(w).fault()
                && (match file_label(old(w).files()[path@]) { Some(v) => l@ == (LV { name: stem(path@), layer: v.0, version: v.1 }), None => false })
                && f.synced(final(w)) && f.f().path() == path@ && f.f().pos() == 0,
            Err(e) => final(w).fault() || old(w).dirs().contains(path@) || !old(w).files().contains_key(path@) || file_label(old(w).files()[path@]) is None }
@at call get_label_from_data
assert(data@ =~= old(w).files()[path@]);
@@end

// ---- label files in a directory
pub open spec fn lp(d: Seq<char>, n: Seq<char>) -> Seq<char> { join(d, n + ".label"@) }
/// what the label file of `n` says: no file, a file that is no label, or a label
pub open spec fn on_disk(w: World, d: Seq<char>, n: Seq<char>) -> Option<Option<(Option<[u32; 5]>, nat)>> {
    if w.files().contains_key(lp(d, n)) { Some(file_label(w.files()[lp(d, n)])) } else { None }
}
pub open spec fn is_dir(w: World, d: Seq<char>, n: Seq<char>) -> bool { w.dirs().contains(lp(d, n)) }
/// nothing but the file of label `n` differs
pub open spec fn only(a: World, b: World, d: Seq<char>, n: Seq<char>) -> bool { same_but(a, b, lp(d, n)) }
/// labels of other names are untouched then
pub proof fn lemma_only(a: World, b: World, d: Seq<char>, n: Seq<char>, m: Seq<char>)
    requires only(a, b, d, n), good_name(n), good_name(m), m != n
    ensures on_disk(b, d, m) == on_disk(a, d, m)
{ axiom_stem(d, n); axiom_stem(d, m); assert(lp(d, m) != lp(d, n)); assert(b.files().contains_key(lp(d, m)) == a.files().contains_key(lp(d, m))); }

pub proof fn lemma_path_text(n: Seq<char>, a: Seq<FA>)
    requires a.len() == 1, a[0] == FA::S(n)
    ensures fmt("{}.label"@, a) == n + ".label"@
{
    reveal_strlit("{}.label"); reveal_strlit(".label");
    lemma_fmt_one("{}.label"@, ".label"@, a);
    lemma_fmt_lit(".label"@, a.subrange(1, 1));
}
pub proof fn lemma_fmts()
    ensures
        forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) ==> fmt("{}.label"@, #[trigger] fargs(x@)) == #[trigger] (n + ".label"@),
        forall|v: nat, x: [FArg; 1]| x@[0]@ == FA::N(v) ==> fmt("{}\n\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(None, v),
        forall|v: nat, n: [u32; 5], x: [FArg; 2]| x@[0]@ == FA::N(v) && x@[1]@ == FA::S(name_text(n)) ==> fmt("{}\n{}\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(Some(n), v),
{
    assert forall|n: Seq<char>, x: [FArg; 1]| x@[0]@ == FA::S(n) implies fmt("{}.label"@, #[trigger] fargs(x@)) == #[trigger] (n + ".label"@) by { lemma_path_text(n, fargs(x@)); }
    assert forall|v: nat, x: [FArg; 1]| x@[0]@ == FA::N(v) implies fmt("{}\n\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(None, v) by { lemma_text_none(v, fargs(x@)); }
    assert forall|v: nat, n: [u32; 5], x: [FArg; 2]| x@[0]@ == FA::N(v) && x@[1]@ == FA::S(name_text(n)) implies fmt("{}\n{}\n"@, #[trigger] fargs(x@)) == #[trigger] label_text(Some(n), v) by { lemma_text_some(v, n, fargs(x@)); }
}

@@item storage/directory.rs :: struct DirectoryLabelStore
@flag pub
@@end
impl DirectoryLabelStore {
@@fn storage/directory.rs :: impl LabelStore for DirectoryLabelStore :: get_label
@ret r
@flag fmt
@props A13 A14
@thread w : &mut World ; get_label_from_file
@spec
    requires good_name(label@)
    ensures same_disk(*old(w), *final(w)),
        match r {
            Ok(Some(l)) => on_disk(*old(w), self.path@, label@) matches Some(Some(v)) && l@ == (LV { name: label@, layer: v.0, version: v.1 }),
            Ok(None) => final(w).fault() || on_disk(*old(w), self.path@, label@) is None,
            Err(_) => final(w).fault() || is_dir(*old(w), self.path@, label@) || on_disk(*old(w), self.path@, label@) == Some(None::<(Option<[u32; 5]>, nat)>) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, label@); }
@@end
@@fn storage/directory.rs :: impl LabelStore for DirectoryLabelStore :: set_label_option
@ret r
@flag fmt
@props A13 A14
@subst layer :: name_to_string => name_to_string
@thread w : &mut World ; get_label_from_exclusive_locked_file truncate write_all flush sync_all sync_data
@spec
    requires good_name(label.name@), label.version < u64::MAX
    ensures only(*old(w), *final(w), self.path@, label.name@),
        match r {
            Ok(Some(l)) => l@ == (LV { name: label.name@, layer: layer, version: label.version as nat + 1 })
                && on_disk(*old(w), self.path@, label.name@) == Some(Some((label.layer, label.version as nat)))
                && on_disk(*final(w), self.path@, label.name@) == Some(Some((layer, label.version as nat + 1))),
            Ok(None) => final(w).files() == old(w).files() && (on_disk(*old(w), self.path@, label.name@) matches Some(Some(v)) && v != (label.layer, label.version as nat)),
            Err(_) => final(w).fault() || final(w).files() == old(w).files() && (is_dir(*old(w), self.path@, label.name@) || !(on_disk(*old(w), self.path@, label.name@) matches Some(Some(_)))) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, label.name@); }
@at let contents
proof { lemma_label_bytes(layer, label.version as nat + 1); assert(contents@ == encode_utf8(label_text(layer, label.version as nat + 1))); }
@at call flush
proof { assert(file.f().content() =~= contents@); }
@@end
@@fn storage/directory.rs :: impl LabelStore for DirectoryLabelStore :: create_label
@ret r
@flag fmt
@props A13 A14
@thread w : &mut World ; metadata ExclusiveLockedFile::create_and_open write_all flush sync_all sync_data
@spec
    requires good_name(label@)
    ensures only(*old(w), *final(w), self.path@, label@),
        match r {
            Ok(l) => l@ == (LV { name: label@, layer: None, version: 0 }) && on_disk(*old(w), self.path@, label@) is None
                && on_disk(*final(w), self.path@, label@) == Some(Some((None::<[u32; 5]>, 0nat))),
            Err(_) => final(w).fault() || final(w).files() == old(w).files() && (is_dir(*old(w), self.path@, label@) || on_disk(*old(w), self.path@, label@) is Some) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, label@); lemma_label_bytes(None, 0); lemma_zero_text(); }
@at call flush
proof { assert(file.f().content() =~= contents@); assert(only(*old(w), *w, self.path@, label@)); }
@at call sync_all
proof { assert(only(*old(w), *w, self.path@, label@)); }
@at tail
proof { assert(only(*old(w), *w, self.path@, label@)); }
@@end
@@fn storage/directory.rs :: impl LabelStore for DirectoryLabelStore :: delete_label
@ret r
@flag fmt
@props A13
@subst tokio :: fs :: => fs ::
@thread w : &mut World ; remove_file
@spec
    requires good_name(name@)
    ensures only(*old(w), *final(w), self.path@, name@),
        match r {
            Ok(b) => on_disk(*final(w), self.path@, name@) is None && b == (on_disk(*old(w), self.path@, name@) is Some),
            Err(_) => final(w).files() == old(w).files() && (final(w).fault() || is_dir(*old(w), self.path@, name@)) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); }
@@end
}
@@item storage/directory.rs :: struct CachedDirectoryLabelStore
@flag pub
@subst Arc < RwLock < HashMap < String , Label > > > => RwLock<HashMap<String, Label>>
@@end
/// what memory says about a label, in the terms of the disk
pub open spec fn in_memory(m: Map<Seq<char>, Label>, n: Seq<char>) -> Option<Option<(Option<[u32; 5]>, nat)>> {
    if m.contains_key(n) { Some(Some((m[n].layer, m[n].version as nat))) } else { None }
}
/// memory and disk say the same about every label
#[verifier::opaque]
pub open spec fn agree(m: Map<Seq<char>, Label>, w: World, d: Seq<char>) -> bool { forall|n: Seq<char>| good_name(n) ==> #[trigger] in_memory(m, n) == on_disk(w, d, n) }
/// a change of one label on both sides keeps them in agreement
pub proof fn lemma_agree(m: Map<Seq<char>, Label>, w: World, d: Seq<char>, n: Seq<char>)
    requires agree(m, w, d), good_name(n)
    ensures in_memory(m, n) == on_disk(w, d, n),
        forall|m1: Map<Seq<char>, Label>, w1: World| (#[trigger] agree(m1, w1, d)) ||
            !(only(w, w1, d, n) && in_memory(m1, n) == on_disk(w1, d, n) && (forall|k: Seq<char>| k != n ==> #[trigger] in_memory(m1, k) == in_memory(m, k)))
{
    reveal(agree);
    assert(in_memory(m, n) == on_disk(w, d, n));
    assert forall|m1: Map<Seq<char>, Label>, w1: World| only(w, w1, d, n) && in_memory(m1, n) == on_disk(w1, d, n) && (forall|k: Seq<char>| k != n ==> #[trigger] in_memory(m1, k) == in_memory(m, k)) implies #[trigger] agree(m1, w1, d) by {
        assert forall|k: Seq<char>| good_name(k) implies #[trigger] in_memory(m1, k) == on_disk(w1, d, k) by {
            if k != n { lemma_only(w, w1, d, n, k); assert(in_memory(m, k) == on_disk(w, d, k)); }
        }
    }
}
impl CachedDirectoryLabelStore {
    pub open spec fn m(&self) -> Map<Seq<char>, Label> { self.labels.v@ }
    pub open spec fn wf(&self) -> bool { keyed(self.m()) }
    pub open spec fn coherent(&self, w: World) -> bool { agree(self.m(), w, self.path@) }

@@fn storage/directory.rs :: impl LabelStore for CachedDirectoryLabelStore :: labels
@ret r
@props A13
@spec
    requires self.wf()
    ensures r is Ok, lists(r.unwrap()@, self.m())
@@end
@@fn storage/directory.rs :: impl LabelStore for CachedDirectoryLabelStore :: create_label
@ret r
@flag fmt
@props A13 A14
@subst & self => & mut self
@thread w : &mut World ; metadata open write_all flush sync_all sync_data
@spec
    requires good_name(label@), old(self).wf(), old(self).coherent(*old(w))
    ensures only(*old(w), *final(w), old(self).path@, label@), final(self).wf(), final(self).path@ == old(self).path@,
        !final(w).fault() ==> final(self).coherent(*final(w)),
        match r {
            Ok(l) => l@ == (LV { name: label@, layer: None, version: 0 }) && !old(self).m().contains_key(label@) && view_insert(old(self).m(), final(self).m(), l@)
                && on_disk(*final(w), old(self).path@, label@) == Some(Some((None::<[u32; 5]>, 0nat))),
            Err(_) => final(w).fault() || final(w).files() == old(w).files() && final(self).m() == old(self).m() && (is_dir(*old(w), old(self).path@, label@) || old(self).m().contains_key(label@)) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, label@); lemma_label_bytes(None, 0); lemma_zero_text(); lemma_zero_bytes(); lemma_agree(self.m(), *w, self.path@, label@); }
@at call flush
proof { assert(file.content() =~= contents@); assert(contents@ =~= seq![48u8, 10u8, 10u8]); assert(only(*old(w), *w, old(self).path@, label@)); }
@at call sync_all
proof { assert(only(*old(w), *w, old(self).path@, label@)); }
@at tail
proof { assert(only(*old(w), *w, old(self).path@, label@)); }
@@end
@@fn storage/directory.rs :: impl LabelStore for CachedDirectoryLabelStore :: get_label
@ret r
@props A13
@spec
    requires self.wf()
    ensures opt_view(r) == get_view(self.m(), label@)
@@end
@@fn storage/directory.rs :: impl LabelStore for CachedDirectoryLabelStore :: set_label_option
@ret r
@flag fmt
@props A13 A14
@subst & self => & mut self
@subst layer :: name_to_string => name_to_string
@thread w : &mut World ; open write_all flush sync_all sync_data
@spec
    requires good_name(label.name@), label.version < u64::MAX, old(self).wf(), old(self).coherent(*old(w))
    ensures only(*old(w), *final(w), old(self).path@, label.name@), final(self).wf(), final(self).path@ == old(self).path@,
        !final(w).fault() ==> final(self).coherent(*final(w)),
        match r {
            Ok(Some(l)) => l@ == (LV { name: label.name@, layer: layer, version: label.version as nat + 1 })
                && get_view(old(self).m(), label.name@) == Some(label@) && view_insert(old(self).m(), final(self).m(), l@)
                && on_disk(*final(w), old(self).path@, label.name@) == Some(Some((layer, label.version as nat + 1))),
            Ok(None) => final(w).files() == old(w).files() && final(self).m() == old(self).m() && old(self).m().contains_key(label.name@) && get_view(old(self).m(), label.name@) != Some(label@),
            Err(_) => final(w).fault() || final(w).files() == old(w).files() && final(self).m() == old(self).m() && (is_dir(*old(w), old(self).path@, label.name@) || !old(self).m().contains_key(label.name@)) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, label.name@); lemma_agree(self.m(), *w, self.path@, label.name@); }
@at let contents
proof { lemma_label_bytes(layer, label.version as nat + 1); assert(contents@ == encode_utf8(label_text(layer, label.version as nat + 1))); }
@at call flush
proof { assert(file.content() =~= contents@); }
@@end
@@fn storage/directory.rs :: impl LabelStore for CachedDirectoryLabelStore :: delete_label
@ret r
@flag fmt
@props A13
@subst & self => & mut self
@subst tokio :: fs :: => fs ::
@thread w : &mut World ; remove_file
@spec
    requires good_name(name@), old(self).wf(), old(self).coherent(*old(w))
    ensures only(*old(w), *final(w), old(self).path@, name@), final(self).wf(), final(self).path@ == old(self).path@,
        match r {
            Ok(b) => final(self).coherent(*final(w)) && b == old(self).m().contains_key(name@) && final(self).m() == old(self).m().remove(name@) && on_disk(*final(w), old(self).path@, name@) is None,
            Err(_) => final(w).files() == old(w).files() && (final(w).fault() || is_dir(*old(w), old(self).path@, name@)) }
@at start
broadcast use fmt_args;
proof { lemma_fmts(); axiom_stem(self.path@, name@); lemma_agree(self.m(), *w, self.path@, name@); }
@@end
}
/// the file of a new label
pub proof fn lemma_zero_bytes() ensures encode_utf8(label_text(None, 0)) == seq![48u8, 10u8, 10u8] {
    lemma_zero_text(); reveal_strlit("0\n\n");
    is_ascii_chars_encode_utf8("0\n\n"@);
    assert(encode_utf8("0\n\n"@) =~= seq![48u8, 10u8, 10u8]);
}
pub proof fn lemma_zero_text() ensures "0\n\n"@ == label_text(None, 0) {
    reveal_strlit("0\n\n");
    assert(digits(0, 10) =~= seq!['0']);
    assert("0\n\n"@ =~= label_text(None, 0));
}

fn main() {}
}
