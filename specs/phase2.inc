// ---- the indexes made from the lists
/// an object is listed with a pair
pub open spec fn pair_in(spo: AdjacencyList, j: int, o: int) -> bool { o != 0 && exists|i: int| 0 <= i < spo.len() && #[trigger] spo.left(i) == j && spo.nums()[i] == o }
/// the index by object says the same as the list of objects by pair
#[verifier::opaque] pub open spec fn by_object(objects: Option<MonotonicLogArray>, ops: AdjacencyList, spo: AdjacencyList) -> bool {
    &&& ops.wf()
    &&& match objects { Some(o) => o.wf() && o@.len() == ops.lefts() && (forall|i: int| 0 <= i < o@.len() ==> o@[i] > 0), None => true }
    &&& forall|k: int| 0 <= k < ops.len() ==> #[trigger] ops.nums()[k] <= spo.lefts()
    &&& forall|i: int, j: int| 0 <= i < j < ops.len() && ops.left(i) == ops.left(j) ==> ops.nums()[i] < ops.nums()[j]
    &&& forall|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] != 0 ==> pair_in(spo, ops.nums()[k] - 1, subj_at(objects, ops.left(k)))
    &&& forall|i: int| 0 <= i < spo.len() && spo.nums()[i] != 0 ==> exists|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] == spo.left(i) + 1 && subj_at(objects, ops.left(k)) == #[trigger] spo.nums()[i]
}
proof fn listed(objects: Option<MonotonicLogArray>, ops: AdjacencyList, spo: AdjacencyList, k: int) -> (i: int)
    requires by_object(objects, ops, spo), 0 <= k < ops.len(), ops.nums()[k] != 0
    ensures 0 <= i < spo.len(), spo.left(i) == ops.nums()[k] - 1, spo.nums()[i] == subj_at(objects, ops.left(k)), spo.nums()[i] != 0, ops.nums()[k] <= spo.lefts()
{
    reveal(by_object); assert(pair_in(spo, ops.nums()[k] - 1, subj_at(objects, ops.left(k))));
    choose|i: int| 0 <= i < spo.len() && #[trigger] spo.left(i) == ops.nums()[k] - 1 && spo.nums()[i] == subj_at(objects, ops.left(k))
}
proof fn inverse(objects: Option<MonotonicLogArray>, ops: AdjacencyList, spo: AdjacencyList, i: int) -> (k: int)
    requires by_object(objects, ops, spo), 0 <= i < spo.len(), spo.nums()[i] != 0
    ensures 0 <= k < ops.len(), ops.nums()[k] == spo.left(i) + 1, subj_at(objects, ops.left(k)) == spo.nums()[i]
{
    reveal(by_object);
    choose|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] == spo.left(i) + 1 && subj_at(objects, ops.left(k)) == spo.nums()[i]
}
#[verifier::spinoff_prover] proof fn object_sound(m: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList, k: int)
    requires index_wf(m, sp, spo), by_object(objects, ops, spo), 0 <= k < ops.len(), ops.nums()[k] != 0
    ensures obj_in(m, objects, ops, sp, spo, k)
{
    mono_holds(sp.bits()); mono_holds(spo.bits());
    let j = ops.nums()[k] - 1; let o = subj_at(objects, ops.left(k));
    let i = listed(objects, ops, spo, k);
    left_bound(spo, i); left_bound(sp, j);
    let t = otrip(m, objects, ops, sp, k);
    rank1_facts(sp.bits()); assert(0 <= sp.left(j) <= j); assert(t.0 == subj_at(m, sp.left(j)));
    match m { Some(x) => { assert(x@[sp.left(j)] > 0); }, None => {} }
    match objects { Some(x) => {}, None => {} }
    assert(spo.nums()[i] != 0 && sp.nums()[j] != 0);
    assert(t.0 > 0 && t.0 <= u64::MAX);
    assert(at(m, sp, spo, i, t.0 as u64, t.1, t.2 as u64));
}
#[verifier::spinoff_prover] proof fn object_complete(m: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList, s: u64, p: u64, o: u64) -> (k: int)
    requires index_wf(m, sp, spo), by_object(objects, ops, spo), in_index(m, sp, spo, s, p, o)
    ensures 0 <= k < ops.len(), ops.nums()[k] != 0, otrip(m, objects, ops, sp, k) == (s as int, p, o as int)
{
    mono_holds(sp.bits()); mono_holds(spo.bits());
    let i = choose|i: int| at(m, sp, spo, i, s, p, o);
    assert(spo.nums()[i] == o);
    let k = inverse(objects, ops, spo, i);
    left_bound(spo, i);
    assert(otrip(m, objects, ops, sp, k) == (s as int, p, o as int));
    k
}
#[verifier::spinoff_prover] pub proof fn index_by_object(m: Option<MonotonicLogArray>, objects: Option<MonotonicLogArray>, ops: AdjacencyList, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(m, sp, spo), by_object(objects, ops, spo)
    ensures objects_wf(m, objects, ops, sp, spo)
{
    assert forall|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] != 0 implies obj_in(m, objects, ops, sp, spo, k) by { object_sound(m, objects, ops, sp, spo, k); }
    assert forall|s: u64, p: u64, o: u64| #[trigger] in_index(m, sp, spo, s, p, o) implies exists|k: int| 0 <= k < ops.len() && ops.nums()[k] != 0 && #[trigger] otrip(m, objects, ops, sp, k) == (s as int, p, o as int) by { let k = object_complete(m, objects, ops, sp, spo, s, p, o); }
    reveal(by_object); reveal(objects_wf);
}
/// what the list of objects by pair looks like
pub open spec fn pairs_wf(spo: AdjacencyList) -> bool { spo.wf() && forall|i: int, j: int| 0 <= i < j < spo.len() && spo.left(i) == spo.left(j) ==> spo.nums()[i] < spo.nums()[j] }
pub open spec fn list_of(d: Disk, at: Option<Loc>) -> Option<MonotonicLogArray> { match at { Some(f) => Some(array_at(d, f)), None => None } }
pub open spec fn at_opt(f: Option<File>) -> Option<Loc> { match f { Some(f) => Some(f.at()), None => None } }
/// tdb_succinct: the numbers of a list, searchable
#[verifier::external_body] pub fn build_wavelet_tree_from_logarray(source: File, destination_bits: File, destination_blocks: File, destination_sblocks: File, w: &mut World) -> (r: Result<(), io::Error>)
    requires has_bytes(old(w).disk(), source.at())
    ensures ({ let f = BitIndexFiles::<Loc> { bits_file: destination_bits.at(), blocks_file: destination_blocks.at(), sblocks_file: destination_sblocks.at() };
        &&& changed(*old(w), *final(w), |l: Loc| f.at(l))
        &&& match r { Ok(_) => f.whole(final(w).disk()) && forall|x: AdjacencyListFiles<Loc>| x.nums_file == source.at() && (#[trigger] x.list(old(w).disk())).wf() ==> wavelet_wf(pred_tree(final(w).disk(), f, x.list(old(w).disk())), x.list(old(w).disk())), Err(_) => final(w).fault() } }) { unimplemented!() }
/// a task that is waited for: what it does is independent of what runs beside it, so it is as if it ran here
#[verifier::external_body] pub fn __spawn<T>(x: T, w: &mut World) -> (r: Result<T, io::Error>) ensures final(w).disk() == old(w).disk(), changed(*old(w), *final(w), |l: Loc| false), match r { Ok(y) => y == x, Err(_) => final(w).fault() } { unimplemented!() }
@@fn layer/builder.rs :: fn build_predicate_index
@ret r
@generic FLoad = File
@generic F = File
@thread w : & mut World ; build_wavelet_tree_from_logarray
@props A01 A03 A04 A08 A09 A10
@spec
    requires has_bytes(old(w).disk(), source.at())
    ensures ({ let f = BitIndexFiles::<Loc> { bits_file: destination_bits.at(), blocks_file: destination_blocks.at(), sblocks_file: destination_sblocks.at() };
        &&& changed(*old(w), *final(w), |l: Loc| f.at(l))
        &&& match r { Ok(_) => f.whole(final(w).disk()) && forall|x: AdjacencyListFiles<Loc>| x.nums_file == source.at() && (#[trigger] x.list(old(w).disk())).wf() ==> wavelet_wf(pred_tree(final(w).disk(), f, x.list(old(w).disk())), x.list(old(w).disk())), Err(_) => final(w).fault() } })
@@end
@@fn layer/builder.rs :: fn build_object_index
@ret r
@generic FLoad = File
@generic F = File
@thread w : & mut World ; build_object_index_from_direct_files
@props A01 A03 A04 A08 A09 A10
@spec
    requires sp_o_files.locs().whole(old(w).disk()), pairs_wf(sp_o_files.locs().list(old(w).disk())), objects_file matches Some(o) ==> !o_ps_files.locs().at(o.at())
    ensures changed(*old(w), *final(w), |l: Loc| o_ps_files.locs().at(l) || at_opt(objects_file) == Some(l)), match r { Ok(_) => o_ps_files.locs().whole(final(w).disk()) && (objects_file matches Some(f) ==> is_array(final(w).disk(), f.at()))
        && by_object(list_of(final(w).disk(), at_opt(objects_file)), o_ps_files.locs().list(final(w).disk()), sp_o_files.locs().list(old(w).disk())), Err(_) => final(w).fault() }
@at start
proof { assert(list_in(w.disk(), sp_o_files.locs().nums_file, sp_o_files.locs().bitindex_files.bits_file, sp_o_files.locs())); }
@@end
@@fn layer/builder.rs :: fn build_indexes
@ret r
@generic FLoad = File
@generic F = File
@pre tokio :: spawn => __spawn
@thread w : & mut World ; build_object_index build_predicate_index __spawn
@props A01 A03 A04 A08 A09 A10
@spec
    requires sp_o_files.locs().whole(old(w).disk()), s_p_files.locs().whole(old(w).disk()), s_p_files.locs().list(old(w).disk()).wf(), pairs_wf(sp_o_files.locs().list(old(w).disk())), objects_file matches Some(o) ==> !o_ps_files.locs().at(o.at()),
        forall|l: Loc| #[trigger] s_p_files.locs().at(l) ==> !o_ps_files.locs().at(l) && at_opt(objects_file) != Some(l), forall|l: Loc| #[trigger] wavelet_files.locs().at(l) ==> !o_ps_files.locs().at(l) && at_opt(objects_file) != Some(l)
    ensures changed(*old(w), *final(w), |l: Loc| o_ps_files.locs().at(l) || at_opt(objects_file) == Some(l) || wavelet_files.locs().at(l)), match r { Ok(_) => o_ps_files.locs().whole(final(w).disk()) && wavelet_files.locs().whole(final(w).disk()) && (objects_file matches Some(f) ==> is_array(final(w).disk(), f.at()))
        && by_object(list_of(final(w).disk(), at_opt(objects_file)), o_ps_files.locs().list(final(w).disk()), sp_o_files.locs().list(old(w).disk()))
        && wavelet_wf(pred_tree(final(w).disk(), wavelet_files.locs(), s_p_files.locs().list(old(w).disk())), s_p_files.locs().list(old(w).disk())), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost spf = s_p_files.locs();
proof { let f = s_p_files.locs(); assert(f.at(f.nums_file)); assert(f.at(f.bitindex_files.bits_file)); assert(f.at(f.bitindex_files.blocks_file)); assert(f.at(f.bitindex_files.sblocks_file)); }
@at let object_index_task
proof { assert(spf.list(w.disk()) == spf.list(w0.disk())); }
@@end
