// ---- the index by object, made from the list of objects by pair
@@item layer/builder.rs :: const SINGLE_SORT_LIMIT
@@end
pub type Pair = (u64, u64);
pub open spec fn pair_lt(a: Pair, b: Pair) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn pair_le(a: Pair, b: Pair) -> bool { a == b || pair_lt(a, b) }
pub open spec fn swapped(s: Seq<Pair>) -> Seq<Pair> { s.map_values(|x: Pair| (x.1, x.0)) }
pub open spec fn firsts(s: Seq<Pair>) -> Seq<u64> { s.map_values(|x: Pair| x.0) }
pub open spec fn seconds(s: Seq<Pair>) -> Seq<u64> { s.map_values(|x: Pair| x.1) }
#[verifier::opaque] pub open spec fn sorted_pairs(s: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> pair_le(#[trigger] s[i], #[trigger] s[j]) }
#[verifier::opaque] pub open spec fn asc_pairs(s: Seq<Pair>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> pair_lt(#[trigger] s[i], #[trigger] s[j]) }
/// the entries of a list that stand for something, in order, each with the number (from 1) of its left hand side
pub open spec fn streamed(s: Seq<Pair>, x: AdjacencyList, pos: Seq<int>) -> bool {
    &&& s.len() == pos.len() && s.len() <= x.len()
    &&& forall|i: int, j: int| 0 <= i < j < pos.len() ==> pos[i] < pos[j]
    &&& forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < x.len() && x.nums()[pos[i]] != 0 && s[i] == ((x.left(pos[i]) + 1) as u64, x.nums()[pos[i]])
    &&& forall|k: int| 0 <= k < x.len() && #[trigger] x.nums()[k] != 0 ==> pos.contains(k)
}
#[verifier::opaque] pub open spec fn stream_of(s: Seq<Pair>, x: AdjacencyList) -> bool { exists|pos: Seq<int>| streamed(s, x, pos) }
/// the list that is in these files
pub open spec fn list_in(d: Disk, nums: Loc, bits: Loc, x: AdjacencyListFiles<Loc>) -> bool { x.nums_file == nums && x.bitindex_files.bits_file == bits && pairs_wf(x.list(d)) }
#[verifier::external_body] pub fn logarray_file_get_length_and_width(f: File, w: &mut World) -> (r: Result<(u64, u8), io::Error>)
    requires has_bytes(old(w).disk(), f.at())
    ensures read_only(*old(w), *final(w)), match r { Ok((n, wd)) => forall|x: AdjacencyListFiles<Loc>, k: int| x.nums_file == f.at() && x.list(old(w).disk()).wf() && 0 <= k < x.list(old(w).disk()).len() ==> fits(wd, #[trigger] x.list(old(w).disk()).nums()[k]), Err(_) => final(w).fault() } { unimplemented!() }
#[verifier::external_body] pub struct PairStream { _x: () }
impl PairStream {
    pub uninterp spec fn left(&self) -> Seq<Pair>;
    #[verifier::external_body] pub fn try_next(&mut self, w: &mut World) -> (r: Result<Option<Pair>, io::Error>)
        ensures read_only(*old(w), *final(w)), match r { Ok(Some(p)) => old(self).left().len() > 0 && p == old(self).left()[0] && final(self).left() == old(self).left().skip(1), Ok(None) => old(self).left().len() == 0 && final(self).left() == old(self).left(), Err(_) => final(w).fault() } { unimplemented!() }
}
#[verifier::external_body] pub fn adjacency_list_stream_pairs(bits: File, nums: File, w: &mut World) -> (r: Result<PairStream, io::Error>)
    requires has_bytes(old(w).disk(), bits.at()), has_bytes(old(w).disk(), nums.at())
    ensures read_only(*old(w), *final(w)), match r { Ok(s) => forall|x: AdjacencyListFiles<Loc>| #[trigger] list_in(old(w).disk(), nums.at(), bits.at(), x) ==> stream_of(s.left(), x.list(old(w).disk())), Err(_) => final(w).fault() } { unimplemented!() }
#[verifier::external_body] pub fn __min(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { unimplemented!() }
#[verifier::external_body] pub fn __sort_unstable(v: &mut Vec<Pair>) ensures sorted_pairs(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
pub fn __sort(v: &mut Vec<Pair>) ensures sorted_pairs(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|w: u8, g: u64| #[trigger] pairs_fit(old(v)@, w, g) ==> pairs_fit(final(v)@, w, g)
{
    let ghost p0 = v@; __sort_unstable(v);
    proof { p0.to_multiset_ensures(); v@.to_multiset_ensures(); assert forall|w: u8, g: u64| #[trigger] pairs_fit(p0, w, g) implies pairs_fit(v@, w, g) by { fit_same(p0, v@, w, g); } }
}
#[verifier::external_body] pub fn __sort_slice(v: &mut Vec<Pair>, from: usize, to: usize) requires from <= to <= old(v)@.len() ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
impl BytesMut {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
}
/// the numbers of an array
impl LogArray {
    pub uninterp spec fn nums(&self) -> Seq<u64>;
    #[verifier::external_body] pub fn iter(&self) -> (r: Nums) ensures r.left() == self.nums() { unimplemented!() }
}
#[verifier::external_body] pub struct LogArrayBufBuilder<'a> { _x: &'a mut () }
impl<'a> LogArrayBufBuilder<'a> {
    pub uninterp spec fn width(&self) -> u8;
    pub uninterp spec fn entries(&self) -> Seq<u64>;
    /// what its buffer will hold
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new(dest: &'a mut BytesMut, width: u8) -> (r: LogArrayBufBuilder<'a>) requires old(dest)@.len() == 0 ensures r.width() == width, r.entries().len() == 0, r.out() == final(dest)@ { unimplemented!() }
    #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self).width() == old(self).width(), final(self).entries() == old(self).entries(), final(self).out() == old(self).out() { unimplemented!() }
    #[verifier::external_body] pub fn __add(&mut self, x: u64) requires fits(old(self).width(), x) ensures final(self).width() == old(self).width(), final(self).entries() == old(self).entries().push(x), final(self).out() == old(self).out() { unimplemented!() }
    #[verifier::external_body] pub fn __done(self) ensures log_array(self.out()) is Some, (log_array(self.out())->0).nums() == self.entries() { unimplemented!() }
}
#[verifier::external_body] pub struct Nums { _x: () }
impl Nums {
    pub uninterp spec fn left(&self) -> Seq<u64>;
    #[verifier::external_body] pub fn zip(self, o: Nums) -> (r: Zipped) ensures forall|s: Seq<Pair>| #![trigger firsts(s)] firsts(s) == self.left() && seconds(s) == o.left() ==> r.left() == s { unimplemented!() }
}
#[verifier::external_body] pub struct Zipped { _x: () }
impl Zipped { pub uninterp spec fn left(&self) -> Seq<Pair>; }
#[verifier::external_body] pub struct Given { _x: () }
impl Given { pub uninterp spec fn left(&self) -> Seq<Pair>; }
#[verifier::external_body] pub fn __given(v: Vec<Pair>) -> (r: Given) ensures r.left() == v@ { unimplemented!() }
pub enum Either { Left(Zipped), Right(Given) }
pub open spec fn left_of(e: Either) -> Seq<Pair> { match e { Either::Left(a) => a.left(), Either::Right(b) => b.left() } }
pub open spec fn all_of(v: Seq<Either>) -> vstd::multiset::Multiset<Pair> decreases v.len() { if v.len() == 0 { vstd::multiset::Multiset::empty() } else { all_of(v.drop_last()).add(left_of(v.last()).to_multiset()) } }
#[verifier::external_body] pub struct Merged { _x: () }
impl Merged {
    pub uninterp spec fn left(&self) -> Seq<Pair>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Pair>)
        ensures match r { Some(k) => old(self).left().len() > 0 && k == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() } { unimplemented!() }
}
#[verifier::external_body] pub fn heap_sorted_iter(v: Vec<Either>) -> (r: Merged)
    requires forall|i: int| 0 <= i < v@.len() ==> sorted_pairs(left_of(#[trigger] v@[i]))
    ensures sorted_pairs(r.left()), r.left().to_multiset() == all_of(v@) { unimplemented!() }
impl Merged { pub fn __ok(self) -> (r: Merged) ensures r == self { self } }
pub open spec fn pushed_all(a: Pairs, s: Seq<Pair>) -> Pairs decreases s.len() { if s.len() == 0 { a } else { let b = pushed_all(a, s.drop_last()); with_pair(b, s.last().0 as int, s.last().1) } }
impl AdjacencyListBuilder {
    #[verifier::external_body] pub fn push_all(&mut self, s: Merged, w: &mut World) -> (r: Result<(), io::Error>)
        requires old(self).pairs().len() == 0, asc_pairs(s.left()), forall|i: int| 0 <= i < s.left().len() ==> (#[trigger] s.left()[i]).0 >= 1 && s.left()[i].1 >= 1 && fits(old(self).width(), s.left()[i].1)
        ensures final(self).same(old(self)), changed(*old(w), *final(w), |l: Loc| old(self).files().at(l)),
            match r { Ok(_) => final(self).pairs() == pushed_all(old(self).pairs(), s.left()), Err(_) => final(w).fault() } { unimplemented!() }
}
/// what was put aside while gathering
pub open spec fn aside(v: Seq<(LogArray, LogArray)>) -> vstd::multiset::Multiset<Pair> decreases v.len() { if v.len() == 0 { vstd::multiset::Multiset::empty() } else { aside(v.drop_last()).add(both(v.last()).to_multiset()) } }
/// pairs as two arrays: second halves, and first halves
pub open spec fn both(x: (LogArray, LogArray)) -> Seq<Pair> { Seq::new(x.1.nums().len(), |i: int| (x.1.nums()[i], x.0.nums()[i])) }
pub open spec fn aside_ok(v: Seq<(LogArray, LogArray)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.nums().len() == v[i].1.nums().len() && sorted_pairs(both(v[i])) }
proof fn both_is(x: (LogArray, LogArray), s: Seq<Pair>) requires x.0.nums() == seconds(s), x.1.nums() == firsts(s) ensures both(x) == s { assert(both(x) =~= s); }
proof fn both_back(x: (LogArray, LogArray)) requires x.0.nums().len() == x.1.nums().len() ensures firsts(both(x)) == x.1.nums(), seconds(both(x)) == x.0.nums() { assert(firsts(both(x)) =~= x.1.nums()); assert(seconds(both(x)) =~= x.0.nums()); }
pub open spec fn said_pair(o: Subs, a: Pairs, k: int, p: Pair) -> bool { 0 <= k < a.len() && a[k].1 == p.1 && sub_of(o, a[k].0) == p.0 }
pub open spec fn said_in_a(o: Subs, a: Pairs, p: Pair) -> bool { exists|k: int| #[trigger] said_pair(o, a, k, p) }
pub open spec fn said_in_s(o: Subs, a: Pairs, k: int, s: Seq<Pair>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] said_pair(o, a, k, s[i]) }
/// the list built so far stands for exactly these pairs
#[verifier::opaque] pub open spec fn stands_for(o: Subs, a: Pairs, s: Seq<Pair>) -> bool {
    &&& pairs_ok(a)
    &&& match o { Some(v) => v.len() == last_l(a) && (forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j]) && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] > 0), None => true }
    &&& forall|k: int| 0 <= k < a.len() && (#[trigger] a[k]).1 != 0 ==> said_in_s(o, a, k, s)
    &&& forall|i: int| 0 <= i < s.len() ==> said_in_a(o, a, #[trigger] s[i])
    &&& (s.len() > 0 ==> a.len() > 0 && sub_of(o, last_l(a)) == s.last().0 && last_r(a) == s.last().1) && (s.len() == 0 ==> a.len() == 0)
}
pub open spec fn ended(o: Subs, x: u64, a: Pairs) -> Subs { match o { Some(v) => if a.len() == 0 || v.len() == 0 || x > v.last() { Some(v.push(x)) } else { o }, None => None } }
pub open spec fn next_l(o: Subs, p: Pair) -> int { match o { Some(v) => v.len() as int, None => p.0 as int } }
#[verifier::spinoff_prover] proof fn one_more_l(o: Subs, a: Pairs, s: Seq<Pair>, p: Pair)
    requires stands_for(o, a, s), p.0 > 0, p.1 > 0, s.len() > 0 ==> pair_lt(s.last(), p)
    ensures ({ let o2 = ended(o, p.0, a); let m = next_l(o2, p);
        &&& m >= 1 && (m > last_l(a) || (m == last_l(a) && p.1 > last_r(a))) && sub_of(o2, m) == p.0 && (forall|l: int| 1 <= l <= last_l(a) ==> #[trigger] sub_of(o2, l) == sub_of(o, l))
        &&& match o2 { Some(v) => v.len() == m && (forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j]) && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] > 0), None => true } })
{
    reveal(stands_for);
    let o2 = ended(o, p.0, a); let m = next_l(o2, p);
    if a.len() > 0 { assert(a[a.len() - 1] == a.last()); assert(1 <= a[a.len() - 1].0 <= last_l(a)); }
    match o { Some(v) => { if v.len() > 0 { assert(v.last() == v[v.len() - 1]); } match o2 { Some(v2) => { if v2.len() > v.len() { assert forall|i: int| 0 <= i < v.len() implies v2[i] == v[i] by {} } }, None => {} } }, None => {} }
}
/// one more entry
#[verifier::spinoff_prover] proof fn one_more_e(o: Subs, a: Pairs, s: Seq<Pair>, p: Pair, o2: Subs, b: Pairs, m: int)
    requires stands_for(o, a, s), p.0 > 0, p.1 > 0, sub_of(o2, m) == p.0, forall|l: int| 1 <= l <= last_l(a) ==> #[trigger] sub_of(o2, l) == sub_of(o, l),
        pairs_ok(b), last_l(b) == m, b.len() > a.len(), b.last() == (m, p.1), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i], forall|i: int| a.len() <= i < b.len() - 1 ==> (#[trigger] b[i]).1 == 0,
        match o2 { Some(v) => v.len() == m && (forall|i: int, j: int| 0 <= i < j < v.len() ==> v[i] < v[j]) && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] > 0), None => true }
    ensures stands_for(o2, b, s.push(p))
{
    reveal(stands_for);
    let s2 = s.push(p);
    assert(b[b.len() - 1] == (m, p.1));
    assert forall|k: int, x: Pair| said_pair(o, a, k, x) implies said_pair(o2, b, k, x) by { assert(b[k] == a[k]); assert(1 <= a[k].0 <= last_l(a)); }
    assert(said_pair(o2, b, b.len() - 1, p));
    assert forall|k: int| 0 <= k < b.len() && (#[trigger] b[k]).1 != 0 implies said_in_s(o2, b, k, s2) by {
        if k < a.len() { assert(b[k] == a[k]); assert(said_in_s(o, a, k, s)); let i = choose|i: int| 0 <= i < s.len() && #[trigger] said_pair(o, a, k, s[i]); assert(s2[i] == s[i]); assert(said_pair(o2, b, k, s2[i])); }
        else { assert(k == b.len() - 1); assert(s2[s.len() as int] == p); assert(said_pair(o2, b, k, s2[s.len() as int])); }
    }
    assert forall|i: int| 0 <= i < s2.len() implies said_in_a(o2, b, #[trigger] s2[i]) by {
        if i < s.len() { assert(s2[i] == s[i]); assert(said_in_a(o, a, s[i])); let k = choose|k: int| #[trigger] said_pair(o, a, k, s[i]); assert(said_pair(o2, b, k, s2[i])); } else { assert(s2[i] == p); }
    }
    assert(s2.last() == p);
}
/// one more pair
#[verifier::spinoff_prover] proof fn one_more(o: Subs, a: Pairs, s: Seq<Pair>, p: Pair)
    requires stands_for(o, a, s), p.0 > 0, p.1 > 0, s.len() > 0 ==> pair_lt(s.last(), p)
    ensures ({ let o2 = ended(o, p.0, a); let m = next_l(o2, p);
        m >= 1 && (m > last_l(a) || (m == last_l(a) && p.1 > last_r(a))) && stands_for(o2, with_pair(a, m, p.1), s.push(p)) })
{
    let o2 = ended(o, p.0, a); let m = next_l(o2, p);
    one_more_l(o, a, s, p);
    assert(pairs_ok(a)) by { reveal(stands_for); }
    pairs_pushed(a, m, p.1);
    let b = with_pair(a, m, p.1);
    assert(b.last() == (m, p.1));
    assert forall|i: int| a.len() <= i < b.len() - 1 implies (#[trigger] b[i]).1 == 0 by { assert(b[i] == gap(last_l(a), m)[i - a.len()]); }
    one_more_e(o, a, s, p, o2, b, m);
}
proof fn stands_none(o: Subs) requires o matches Some(v) ==> v.len() == 0 ensures stands_for(o, seq![], seq![]) { reveal(stands_for); }
proof fn all_pushed(s: Seq<Pair>)
    requires asc_pairs(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 >= 1 && s[i].1 >= 1
    ensures stands_for(None, pushed_all(seq![], s), s)
    decreases s.len()
{
    reveal(asc_pairs); if s.len() == 0 { stands_none(None); assert(s =~= seq![]); } else {
        let t = s.drop_last(); all_pushed(t);
        assert(s.last() == s[s.len() - 1]); if t.len() > 0 { assert(t.last() == s[t.len() - 1]); assert(pair_lt(s[t.len() - 1], s[s.len() - 1])); }
        one_more(None, pushed_all(seq![], t), t, s.last()); assert(t.push(s.last()) =~= s);
    }
}
pub open spec fn listed_at(x: AdjacencyList, k: int, p: Pair) -> bool { 0 <= k < x.len() && x.left(k) == p.0 - 1 && x.nums()[k] == p.1 }
pub open spec fn listed_in(x: AdjacencyList, p: Pair) -> bool { exists|k: int| #[trigger] listed_at(x, k, p) }
/// what is read is in order
proof fn stream_asc(s: Seq<Pair>, x: AdjacencyList)
    requires stream_of(s, x), pairs_wf(x)
    ensures asc_pairs(s), s.len() <= x.len(), forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).0 <= x.lefts() && s[i].1 > 0,
        forall|i: int| 0 <= i < s.len() ==> listed_in(x, #[trigger] s[i]),
        forall|k: int| 0 <= k < x.len() && #[trigger] x.nums()[k] != 0 ==> s.contains(((x.left(k) + 1) as u64, x.nums()[k]))
{
    reveal(stream_of); reveal(asc_pairs);
    let pos = choose|pos: Seq<int>| streamed(s, x, pos);
    rank1_facts(x.bits()); mono_holds(x.bits());
    assert forall|i: int| 0 <= i < s.len() implies 1 <= (#[trigger] s[i]).0 <= x.lefts() && s[i].1 > 0 && s[i].0 == x.left(pos[i]) + 1 by { left_bound(x, pos[i]); rank1_facts(x.bits()); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies pair_lt(#[trigger] s[i], #[trigger] s[j]) by { assert(pos[i] < pos[j]); assert(x.left(pos[i]) <= x.left(pos[j])); }
    assert forall|i: int| 0 <= i < s.len() implies listed_in(x, #[trigger] s[i]) by { assert(listed_at(x, pos[i], s[i])); }
    assert forall|k: int| 0 <= k < x.len() && #[trigger] x.nums()[k] != 0 implies s.contains(((x.left(k) + 1) as u64, x.nums()[k])) by { let i = choose|i: int| 0 <= i < pos.len() && pos[i] == k; assert(s[i] == ((x.left(k) + 1) as u64, x.nums()[k])); }
}
/// sorting what differs gives an ascending list of the same
proof fn sorted_same(s: Seq<Pair>, m: Seq<Pair>)
    requires asc_pairs(s), sorted_pairs(m), m.to_multiset() == swapped(s).to_multiset()
    ensures asc_pairs(m), m.len() == s.len(), forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0))
{
    let t = swapped(s); reveal(asc_pairs); reveal(sorted_pairs);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(pair_lt(s[i], s[j])); } else { assert(pair_lt(s[j], s[i])); } } }
    m.to_multiset_ensures(); t.to_multiset_ensures();
    t.lemma_multiset_has_no_duplicates();
    m.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies pair_lt(#[trigger] m[i], #[trigger] m[j]) by { assert(m[i] != m[j]); }
    assert forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0)) by {
        assert(m.contains(p) <==> m.to_multiset().count(p) > 0); assert(t.contains(p) <==> t.to_multiset().count(p) > 0);
        if t.contains(p) { let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(s[i] == (p.1, p.0)); }
        if s.contains((p.1, p.0)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (p.1, p.0); assert(t[i] == p); }
    }
}
/// the index that was built is the one by object
#[verifier::spinoff_prover] proof fn built_sound(objects: Option<MonotonicLogArray>, ops: AdjacencyList, a: Pairs, s: Seq<Pair>, m: Seq<Pair>, spo: AdjacencyList, k: int)
    requires stream_of(s, spo), pairs_wf(spo), forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0)), stands_for(arr_of(objects), a, m), lists_pairs(ops, a), 0 <= k < ops.len(), ops.nums()[k] != 0
    ensures ops.nums()[k] <= spo.lefts(), pair_in(spo, ops.nums()[k] - 1, subj_at(objects, ops.left(k)))
{
    let o = arr_of(objects);
    assert(a[k].1 == ops.nums()[k] && ops.left(k) + 1 == a[k].0);
    assert(said_in_s(o, a, k, m)) by { reveal(stands_for); }
    let i = choose|i: int| 0 <= i < m.len() && #[trigger] said_pair(o, a, k, m[i]);
    assert(m.contains(m[i])); let p = (m[i].1, m[i].0); assert(s.contains(p)); let q = choose|q: int| 0 <= q < s.len() && s[q] == p;
    stream_asc(s, spo);
    assert(listed_in(spo, s[q]));
    let z = choose|z: int| #[trigger] listed_at(spo, z, s[q]);
    assert(spo.left(z) == ops.nums()[k] - 1);
}
#[verifier::spinoff_prover] proof fn built_whole(objects: Option<MonotonicLogArray>, ops: AdjacencyList, a: Pairs, s: Seq<Pair>, m: Seq<Pair>, spo: AdjacencyList, i: int) -> (k: int)
    requires stream_of(s, spo), pairs_wf(spo), forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0)), stands_for(arr_of(objects), a, m), lists_pairs(ops, a), 0 <= i < spo.len(), spo.nums()[i] != 0
    ensures 0 <= k < ops.len(), ops.nums()[k] == spo.left(i) + 1, subj_at(objects, ops.left(k)) == spo.nums()[i]
{
    let o = arr_of(objects);
    stream_asc(s, spo); left_bound(spo, i); rank1_facts(spo.bits());
    let p = ((spo.left(i) + 1) as u64, spo.nums()[i]); assert(s.contains(p));
    let mp = (p.1, p.0); assert(m.contains(mp)); let z = choose|z: int| 0 <= z < m.len() && m[z] == mp;
    assert(said_in_a(o, a, m[z])) by { reveal(stands_for); }
    let k = choose|k: int| #[trigger] said_pair(o, a, k, m[z]);
    assert(ops.nums()[k] == a[k].1 && ops.left(k) + 1 == a[k].0);
    k
}
#[verifier::spinoff_prover] proof fn built_index(objects: Option<MonotonicLogArray>, ops: AdjacencyList, a: Pairs, s: Seq<Pair>, m: Seq<Pair>, spo: AdjacencyList)
    requires stream_of(s, spo), pairs_wf(spo), forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0)), stands_for(arr_of(objects), a, m), lists_pairs(ops, a), objects matches Some(o) ==> o@.len() < i64::MAX
    ensures by_object(objects, ops, spo)
{
    assert forall|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] != 0 implies ops.nums()[k] <= spo.lefts() && pair_in(spo, ops.nums()[k] - 1, subj_at(objects, ops.left(k))) by { built_sound(objects, ops, a, s, m, spo, k); }
    assert forall|i: int| 0 <= i < spo.len() && spo.nums()[i] != 0 implies exists|k: int| 0 <= k < ops.len() && #[trigger] ops.nums()[k] == spo.left(i) + 1 && subj_at(objects, ops.left(k)) == #[trigger] spo.nums()[i] by { let k = built_whole(objects, ops, a, s, m, spo, i); assert(ops.nums()[k] == spo.left(i) + 1); }
    assert forall|i: int, j: int| 0 <= i < j < ops.len() && ops.left(i) == ops.left(j) implies ops.nums()[i] < ops.nums()[j] by { reveal(stands_for); assert(a[i].0 == a[j].0); }
    assert(objects matches Some(o) ==> o@.len() == ops.lefts() && (forall|i: int| 0 <= i < o@.len() ==> o@[i] > 0) && (forall|i: int, j: int| 0 <= i < j < o@.len() ==> o@[i] < o@[j])) by { reveal(stands_for); }
    assert(spo.lefts() >= 0) by { rank1_facts(spo.bits()); }
    assert forall|k: int| 0 <= k < ops.len() implies #[trigger] ops.nums()[k] <= spo.lefts() by { if ops.nums()[k] != 0 { } }
    reveal(by_object);
}
proof fn same_ok(a: Seq<Pair>, b: Seq<Pair>, ok: spec_fn(Pair) -> bool)
    requires a.to_multiset() == b.to_multiset(), forall|i: int| 0 <= i < a.len() ==> ok(#[trigger] a[i])
    ensures forall|i: int| 0 <= i < b.len() ==> ok(#[trigger] b[i]), a.len() == b.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies ok(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(ok(a[j])); }
}
/// one more is gathered
proof fn gathered(t: vstd::multiset::Multiset<Pair>, v: Seq<Pair>, s: Seq<Pair>, n: int)
    requires 0 <= n < s.len(), t.add(v.to_multiset()) == swapped(s.take(n)).to_multiset()
    ensures t.add(v.push((s[n].1, s[n].0)).to_multiset()) == swapped(s.take(n + 1)).to_multiset()
{
    let p = (s[n].1, s[n].0);
    v.to_multiset_ensures(); swapped(s.take(n)).to_multiset_ensures();
    assert(swapped(s.take(n + 1)) =~= swapped(s.take(n)).push(p));
    assert(t.add(v.push(p).to_multiset()) =~= t.add(v.to_multiset()).insert(p));
}
proof fn put_aside(v: Seq<(LogArray, LogArray)>, x: (LogArray, LogArray), s: Seq<Pair>)
    requires aside_ok(v), x.0.nums() == seconds(s), x.1.nums() == firsts(s), sorted_pairs(s)
    ensures aside_ok(v.push(x)), aside(v.push(x)).add(Seq::<Pair>::empty().to_multiset()) == aside(v).add(s.to_multiset())
{
    both_is(x, s); assert(v.push(x).drop_last() =~= v); assert(v.push(x).last() == x);
    Seq::<Pair>::empty().to_multiset_ensures();
    assert(Seq::<Pair>::empty().to_multiset() =~= vstd::multiset::Multiset::<Pair>::empty());
    assert(aside(v.push(x)).add(Seq::<Pair>::empty().to_multiset()) =~= aside(v).add(s.to_multiset()));
}
#[verifier::opaque] pub open spec fn pairs_fit(v: Seq<Pair>, w: u8, g: u64) -> bool { forall|i: int| 0 <= i < v.len() ==> fits(w, (#[trigger] v[i]).0) && v[i].1 <= g }
proof fn fit_more(v: Seq<Pair>, w: u8, g: u64, p: Pair) requires pairs_fit(v, w, g), p.1 >= g, fits(w, p.0) ensures pairs_fit(v.push(p), w, p.1) { reveal(pairs_fit); }
proof fn fit_same(a: Seq<Pair>, b: Seq<Pair>, w: u8, g: u64) requires pairs_fit(a, w, g), a.to_multiset() == b.to_multiset() ensures pairs_fit(b, w, g), a.len() == b.len() { reveal(pairs_fit); same_ok(a, b, |p: Pair| fits(w, p.0) && p.1 <= g); }
proof fn asc_at(s: Seq<Pair>, i: int) requires asc_pairs(s), 0 <= i < s.len() - 1 ensures pair_lt(s[i], s[i + 1]) { reveal(asc_pairs); }
proof fn none_aside() ensures aside(seq![]) == vstd::multiset::Multiset::<Pair>::empty(), aside(seq![]).add(Seq::<Pair>::empty().to_multiset()) == swapped(seq![]).to_multiset(), aside_ok(seq![])
{
    Seq::<Pair>::empty().to_multiset_ensures(); assert(swapped(seq![]) =~= Seq::<Pair>::empty());
    assert(aside(seq![]).add(Seq::<Pair>::empty().to_multiset()) =~= Seq::<Pair>::empty().to_multiset());
}

proof fn so_far(v: Seq<u64>, a: Pairs, s: Seq<Pair>)
    requires stands_for(Some(v), a, s)
    ensures v.len() == last_l(a), (s.len() == 0) == (a.len() == 0), s.len() > 0 ==> v.len() > 0 && v.last() == s.last().0, s.len() == 0 ==> v.len() == 0, forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] <= s.last().0
{
    reveal(stands_for);
    if a.len() > 0 { assert(a[a.len() - 1] == a.last()); assert(1 <= a[a.len() - 1].0 <= last_l(a)); assert(sub_of(Some(v), last_l(a)) == v[last_l(a) - 1]); }
}
/// each pair that is merged was read
proof fn merged_ok(s: Seq<Pair>, m: Seq<Pair>, lefts: int)
    requires asc_pairs(s), forall|p: Pair| #[trigger] m.contains(p) <==> s.contains((p.1, p.0)), forall|i: int| 0 <= i < s.len() ==> 1 <= (#[trigger] s[i]).0 && s[i].1 > 0
    ensures forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 >= 1 && m[i].1 >= 1 && m[i].1 <= s.last().0
{
    reveal(asc_pairs); assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0 >= 1 && m[i].1 >= 1 && m[i].1 <= s.last().0 by {
        assert(m.contains(m[i])); let p = (m[i].1, m[i].0); assert(s.contains(p)); let j = choose|j: int| 0 <= j < s.len() && s[j] == p; if j < s.len() - 1 { assert(pair_lt(s[j], s[s.len() - 1])); }
    }
}
@@fn layer/builder.rs :: fn build_object_index_from_direct_files
@ret r
@generic FLoad = File
@generic F = File
@pre pairs . par_sort_unstable ( ) => __sort ( & mut pairs )
@pre pairs . sort ( ) => __sort ( & mut pairs )
@pre let slice = & mut pairs [ tally as usize .. end ] ; slice . par_sort_unstable ( ) ; => __sort_slice ( & mut pairs , tally as usize , end ) ;
@pre std :: cmp :: min => __min
@pre __min ( count as usize , ( tally + SINGLE_SORT_LIMIT ) as usize ) => __min ( count , tally + SINGLE_SORT_LIMIT ) as usize
@pre pairs . iter_mut ( ) => pairs . iter ( )
@pre sp_logarray . push => sp_logarray . __add
@pre o_logarray . push => o_logarray . __add
@pre sp_logarray . finalize ( ) => sp_logarray . __done ( )
@pre o_logarray . finalize ( ) => o_logarray . __done ( )
@pre o_ps_adjacency_list_builder . push => o_ps_adjacency_list_builder . __push
@pre itertools :: Either :: => Either ::
@pre pairs . into_iter ( ) => __given ( pairs )
@pre stream_iter_ok :: < _ , io :: Error , _ > ( merged_iters ) => merged_iters
@pre util :: calculate_width => __calculate_width
@thread w : & mut World ; logarray_file_get_length_and_width adjacency_list_stream_pairs try_next open_write AdjacencyListBuilder::new __push push_all push_vec finalize
@attr #[verifier::spinoff_prover]
@props A01 A03 A04 A08 A09 A10
@spec
    requires has_bytes(old(w).disk(), sp_o_nums_file.at()), has_bytes(old(w).disk(), sp_o_bits_file.at()), objects_file matches Some(o) ==> !o_ps_files.locs().at(o.at()),
        exists|x: AdjacencyListFiles<Loc>| list_in(old(w).disk(), sp_o_nums_file.at(), sp_o_bits_file.at(), x)
    ensures changed(*old(w), *final(w), |l: Loc| o_ps_files.locs().at(l) || at_opt(objects_file) == Some(l)), match r { Ok(_) => o_ps_files.locs().whole(final(w).disk()) && (objects_file matches Some(f) ==> is_array(final(w).disk(), f.at()))
        && forall|x: AdjacencyListFiles<Loc>| #[trigger] list_in(old(w).disk(), sp_o_nums_file.at(), sp_o_bits_file.at(), x) ==> by_object(list_of(final(w).disk(), at_opt(objects_file)), o_ps_files.locs().list(final(w).disk()), x.list(old(w).disk())), Err(_) => final(w).fault() }
@at start
let ghost w0 = *w; let ghost nums0 = sp_o_nums_file.at(); let ghost bits0 = sp_o_bits_file.at(); let ghost ops0 = o_ps_files.locs(); let ghost obj0 = at_opt(objects_file);
let ghost xf = choose|x: AdjacencyListFiles<Loc>| list_in(w.disk(), nums0, bits0, x); let ghost xl = xf.list(w.disk());
@at let aj_stream
let ghost items = aj_stream.left(); let ghost mut n: int = 0;
proof { assert(list_in(w0.disk(), nums0, bits0, xf)); stream_asc(items, xl); none_aside(); assert(items.take(0) =~= seq![]); assert(items.skip(0) =~= items); assert forall|i: int| 0 <= i < items.len() implies fits(spo_width, (#[trigger] items[i]).1) by { let k = choose|k: int| #[trigger] listed_at(xl, k, items[i]); assert(fits(spo_width, xl.nums()[k])); } assert(xl.len() < i64::MAX); assert(pairs_fit(seq![], spo_width, 0)) by { reveal(pairs_fit); } }
@loop 0
invariant
    w0 == *old(w), read_only(w0, *w), w.disk() == w0.disk(), 0 <= n <= items.len(), items.len() < i64::MAX, aj_stream.left() == items.skip(n), tally == n, pairs@.len() == n % (SINGLE_SORT_LIMIT as int), asc_pairs(items),
    forall|i: int| 0 <= i < items.len() ==> fits(spo_width, (#[trigger] items[i]).1),
    aside(temp_arrays@).add(pairs@.to_multiset()) == swapped(items.take(n)).to_multiset(), aside_ok(temp_arrays@), temp_arrays@.len() <= n,
    greatest_sp == (if n > 0 { items[n - 1].0 } else { 0 }),
    pairs_fit(pairs@, spo_width, greatest_sp),
ensures n == items.len()
decreases items.len() - n
@at loopstart 0
let ghost mut p1 = pairs@; let ghost ta0 = temp_arrays@;
proof { assert((sp, object) == items[n]); assert(items.skip(n).skip(1) =~= items.skip(n + 1)); if n > 0 { asc_at(items, n - 1); } fit_more(pairs@, spo_width, greatest_sp, (items[n].1, items[n].0)); gathered(aside(temp_arrays@), pairs@, items, n); n = n + 1; }
@at beforeloop 1
let ghost ps = pairs@;
proof { assert(ps.take(0) =~= seq![]); assert(seconds(ps.take(0)) =~= seq![]); assert(firsts(ps.take(0)) =~= seq![]); }
@at call reserve#0
let ghost so = sp_logarray.out();
@at call reserve#1
let ghost oo = o_logarray.out();
@loop 1
invariant
    ps == pairs@, 0 <= __f1 <= ps.len(), sp_logarray.entries() == seconds(ps.take(__f1 as int)), o_logarray.entries() == firsts(ps.take(__f1 as int)), sp_logarray.width() == sp_width, o_logarray.width() == spo_width,
    sp_logarray.out() == so, o_logarray.out() == oo, sp_width == width_for(greatest_sp as int),
    pairs_fit(ps, spo_width, greatest_sp),
decreases ps.len() - __f1
@at loopend 0
proof { if temp_arrays@.len() > ta0.len() { put_aside(ta0, temp_arrays@.last(), p1); assert(temp_arrays@ =~= ta0.push(temp_arrays@.last())); assert(pairs@ =~= seq![]); } assert(pairs@.len() == 0 ==> pairs_fit(pairs@, spo_width, greatest_sp)) by { reveal(pairs_fit); } }
@at loopstart 1
proof { let g = __f1 - 1; reveal(pairs_fit); width_fits(greatest_sp as int, ps[g].1); assert(ps.take(g + 1) =~= ps.take(g).push(ps[g])); assert(seconds(ps.take(g + 1)) =~= seconds(ps.take(g)).push(ps[g].1)); assert(firsts(ps.take(g + 1)) =~= firsts(ps.take(g)).push(ps[g].0)); }
@at afterloop 1
proof { assert(ps.take(ps.len() as int) =~= ps); p1 = ps; }
@loop 2
invariant false,
decreases 0int
@loop 3
invariant
    0 <= q <= ta.len(), __f3.left() == ta.skip(q), iters@.len() == q, aside_ok(ta), all_of(iters@) == aside(ta.take(q)), forall|i: int| 0 <= i < q ==> sorted_pairs(left_of(#[trigger] iters@[i])),
ensures q == ta.len()
decreases ta.len() - q
@loop 4
invariant
    0 <= k <= m.len(), merged_iters.left() == m.skip(k), stands_for(Some(objects@), o_ps_adjacency_list_builder.pairs(), m.take(k)), object_ix == objects@.len(), objects@.len() <= k, asc_pairs(m), m.len() < i64::MAX,
    last_object == (if k > 0 { m[k - 1].0 } else { 0 }), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 >= 1 && m[i].1 >= 1 && fits(aj_width, m[i].1), b1.width() == aj_width, b1.files() == ops0, o_ps_adjacency_list_builder.same(&b1),
    w0 == *old(w), changed(w0, *w, |l: Loc| ops0.at(l)), ops0 == o_ps_files.locs(), obj0 == at_opt(objects_file),
ensures k == m.len()
decreases m.len() - k
@at let aj_width
proof { assert(items.take(n) =~= items); assert(aside(temp_arrays@).add(pairs@.to_multiset()) == swapped(items).to_multiset()); }
@at beforeloop 3
let ghost ta = temp_arrays@; let ghost mut q: int = 0;
proof { assert(ta.skip(0) =~= ta); assert(ta.take(0) =~= seq![]); assert(iters@ =~= seq![]); }
@at loopstart 3
let ghost i0 = iters@;
proof { assert((sp_file, o_file) == ta[q]); both_back(ta[q]); assert(ta.skip(q).drop_first() =~= ta.skip(q + 1)); assert(ta.take(q + 1).drop_last() =~= ta.take(q)); assert(ta.take(q + 1).last() == ta[q]); q = q + 1; }
@at loopend 3
proof { assert(iters@.drop_last() =~= i0); assert(left_of(iters@.last()) == both(ta[q - 1])); }
@at afterloop 3
let ghost i1 = iters@;
@at call heap_sorted_iter
proof { assert(ta.take(q) =~= ta); assert(iters@.drop_last() =~= i1); assert(all_of(iters@) == swapped(items).to_multiset()); }
@at let merged_iters
let ghost m = merged_iters.left(); let ghost b1 = o_ps_adjacency_list_builder;
proof { sorted_same(items, m); merged_ok(items, m, 0); assert forall|i: int| 0 <= i < m.len() implies fits(aj_width, (#[trigger] m[i]).1) by { width_fits(greatest_sp as int, m[i].1); } }
@at beforeloop 4
let ghost mut k: int = 0;
proof { assert(m.skip(0) =~= m); assert(m.take(0) =~= seq![]); assert(objects@ =~= seq![]); assert(b1.pairs() =~= seq![]); stands_none(Some(objects@)); }
@at loopstart 4
proof { assert((object, sp) == m[k]); assert(m.skip(k).skip(1) =~= m.skip(k + 1)); so_far(objects@, o_ps_adjacency_list_builder.pairs(), m.take(k)); if k > 0 { assert(m.take(k).last() == m[k - 1]); asc_at(m, k - 1); }
    one_more(Some(objects@), o_ps_adjacency_list_builder.pairs(), m.take(k), m[k]); assert(m.take(k + 1) =~= m.take(k).push(m[k])); k = k + 1; }
@at let objects_width
proof { assert(m.take(k) =~= m); so_far(objects@, o_ps_adjacency_list_builder.pairs(), m); assert forall|i: int| 0 <= i < objects@.len() implies fits(objects_width, #[trigger] objects@[i]) by { width_fits(last_object as int, objects@[i]); } }
let ghost objs = objects@;
@at call push_all
proof { all_pushed(m); assert(b1.pairs() =~= seq![]); }
@at call finalize#1
let ghost ap = o_ps_adjacency_list_builder.pairs();
@at tail
proof { assert forall|x: AdjacencyListFiles<Loc>| #[trigger] list_in(w0.disk(), nums0, bits0, x) implies by_object(list_of(w.disk(), obj0), ops0.list(w.disk()), x.list(w0.disk())) by {
    built_index(list_of(w.disk(), obj0), ops0.list(w.disk()), ap, items, m, x.list(w0.disk())); } }
@@end
