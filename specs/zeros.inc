// positions of an index with predicate 0 are the ones with object 0
pub proof fn occ_bounds(s: Seq<u64>, x: u64) ensures 0 <= occurrences(s, x) <= s.len() decreases s.len() { if s.len() > 0 { occ_bounds(s.drop_last(), x); } }
pub proof fn occ_none(s: Seq<u64>, x: u64) ensures (forall|i: int| 0 <= i < s.len() ==> s[i] != x) ==> occurrences(s, x) == 0 decreases s.len()
{ if s.len() > 0 { occ_none(s.drop_last(), x); if forall|i: int| 0 <= i < s.len() ==> s[i] != x { assert forall|i: int| 0 <= i < s.drop_last().len() implies s.drop_last()[i] != x by { assert(s[i] != x); } } } }
pub proof fn same_zeros_upto(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, k: int)
    requires index_wf(subjects, sp, spo), 0 <= k <= spo.len()
    ensures 0 <= spo.left(k) <= sp.len(), occurrences(spo.nums().take(k), 0) == occurrences(sp.nums().take(spo.left(k)), 0)
    decreases k
{
    index_facts(subjects, sp, spo);
    if k == 0 { assert(spo.nums().take(0) =~= Seq::<u64>::empty()); assert(sp.nums().take(0) =~= Seq::<u64>::empty()); return; }
    let i = k - 1;
    same_zeros_upto(subjects, sp, spo, i);
    let l = spo.left(i);
    assert(0 <= l < sp.len());
    assert(spo.nums().take(k).drop_last() =~= spo.nums().take(i));
    assert(spo.nums().take(k).last() == spo.nums()[i]);
    if spo.bits()[i] {
        assert(spo.left(k) == l + 1);
        assert(sp.nums().take(l + 1).drop_last() =~= sp.nums().take(l));
        assert(sp.nums().take(l + 1).last() == sp.nums()[l]);
    } else {
        assert(spo.left(k) == l);
        if spo.nums()[i] == 0 { assert(k < spo.len()); assert(spo.left(k) == spo.left(i)); assert(spo.nums()[i] < spo.nums()[k]); assert(sp.nums()[spo.left(k)] == 0); }
    }
}
pub proof fn same_zeros(subjects: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires index_wf(subjects, sp, spo)
    ensures occurrences(spo.nums(), 0) == occurrences(sp.nums(), 0)
{
    same_zeros_upto(subjects, sp, spo, spo.len() as int);
    assert(spo.nums().take(spo.len() as int) =~= spo.nums());
    assert(sp.nums().take(sp.len() as int) =~= sp.nums());
}
