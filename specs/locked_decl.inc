// ---- locked files (proved in unit u_dirlabel)
@@item storage/locking.rs :: struct ExclusiveLockedFile
@flag pub
@@end
@@item storage/locking.rs :: struct LockedFile
@flag pub
@@end
impl ExclusiveLockedFile {
    #[verifier::external_body]
    pub fn open(path: PathBuf, w: &mut World) -> (r: Result<ExclusiveLockedFile, io::Error>)
        ensures same_disk(*old(w), *final(w)),
            match r { Ok(x) => final(w).fault() == old(w).fault() && old(w).files().contains_key(path@), Err(_) => final(w).fault() || old(w).dirs().contains(path@) || !old(w).files().contains_key(path@) } { unimplemented!() }
}
impl LockedFile {
    #[verifier::external_body]
    pub fn open(path: PathBuf, w: &mut World) -> (r: Result<LockedFile, io::Error>)
        ensures same_disk(*old(w), *final(w)),
            match r { Ok(x) => final(w).fault() == old(w).fault() && old(w).files().contains_key(path@),
                Err(e) => if err_kind(e) == io::ErrorKind::NotFound { final(w).fault() || !old(w).files().contains_key(path@) } else { final(w).fault() || old(w).dirs().contains(path@) } } { unimplemented!() }
}
