// ---- the triples that two lists stand for
pub type Subs = Option<Seq<u64>>;
pub open spec fn sub_of(s: Subs, l: int) -> int { match s { Some(s) => s[l - 1] as int, None => l } }
pub open spec fn entry_of(s: Subs, a: Pairs, b: Pairs, k: int) -> IdTriple { tr(sub_of(s, a[b[k].0 - 1].0) as u64, a[b[k].0 - 1].1, b[k].1) }
pub open spec fn entries_of(s: Subs, a: Pairs, b: Pairs) -> Seq<IdTriple> { Seq::new(b.len(), |k: int| entry_of(s, a, b, k)) }
pub open spec fn said_by(s: Subs, a: Pairs, b: Pairs) -> Set<IdTriple> { entries_of(s, a, b).to_set().filter(|t: IdTriple| nonzero(t)) }
pub open spec fn nat_seq(n: int, s: Seq<u64>) -> bool { s.len() == n }
/// a list under construction: left hand sides ascend from 1, and what each has ascends
pub open spec fn pairs_ok(a: Pairs) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 <= (#[trigger] a[j]).0 && (a[i].0 == a[j].0 ==> a[i].1 < a[j].1)
    &&& forall|i: int| 0 <= i < a.len() ==> 1 <= (#[trigger] a[i]).0 <= last_l(a)
}
#[verifier::opaque] pub open spec fn lists_ok(s: Subs, a: Pairs, b: Pairs, ls: u64, lp: u64) -> bool {
    &&& pairs_ok(a) && pairs_ok(b)
    &&& last_l(b) == a.len() && last_r(a) == lp && (a.len() == 0 <==> ls == 0) && (a.len() > 0 ==> lp > 0 && last_r(b) > 0)
    &&& match s { Some(s) => s.len() == last_l(a) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j]) && (forall|i: int| 0 <= i < s.len() ==> 0 < #[trigger] s[i] <= ls) && (s.len() > 0 ==> s.last() == ls), None => last_l(a) == ls }
    &&& forall|k: int| 0 <= k < b.len() ==> ((#[trigger] b[k]).1 == 0) == (a[b[k].0 - 1].1 == 0)
}
pub proof fn said(s: Subs, a: Pairs, b: Pairs, t: IdTriple)
    ensures said_by(s, a, b).contains(t) <==> nonzero(t) && exists|k: int| 0 <= k < b.len() && #[trigger] entry_of(s, a, b, k) == t
{
    let e = entries_of(s, a, b);
    e.to_set_ensures();
    if said_by(s, a, b).contains(t) { let k = choose|k: int| 0 <= k < e.len() && e[k] == t; assert(entry_of(s, a, b, k) == t); }
    if nonzero(t) && exists|k: int| 0 <= k < b.len() && #[trigger] entry_of(s, a, b, k) == t { let k = choose|k: int| 0 <= k < b.len() && #[trigger] entry_of(s, a, b, k) == t; assert(e[k] == t); assert(e.contains(t)); }
}
pub proof fn pairs_pushed(a: Pairs, l: int, r: u64)
    requires pairs_ok(a), l >= 1, l > last_l(a) || (l == last_l(a) && r > last_r(a))
    ensures pairs_ok(with_pair(a, l, r)), last_l(with_pair(a, l, r)) == l, last_r(with_pair(a, l, r)) == r, with_pair(a, l, r).len() == a.len() + gap(last_l(a), l).len() + 1,
        forall|i: int| 0 <= i < a.len() ==> #[trigger] with_pair(a, l, r)[i] == a[i],
        forall|i: int| a.len() <= i < a.len() + gap(last_l(a), l).len() ==> #[trigger] with_pair(a, l, r)[i] == (last_l(a) + 1 + i - a.len(), 0u64),
        with_pair(a, l, r)[with_pair(a, l, r).len() - 1] == (l, r)
{
    let c = with_pair(a, l, r); let g = gap(last_l(a), l); let ll = last_l(a);
    assert(last_l(c) == l);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by {}
    assert forall|i: int| a.len() <= i < a.len() + g.len() implies #[trigger] c[i] == (ll + 1 + i - a.len(), 0u64) by { assert(c[i] == g[i - a.len()]); }
    assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 <= (#[trigger] c[j]).0 && (c[i].0 == c[j].0 ==> c[i].1 < c[j].1) by {
        if j == c.len() - 1 && i == a.len() - 1 { assert(a[i] == a.last()); }
        if j == c.len() - 1 && i < a.len() - 1 { assert(a[i].0 <= a[a.len() - 1].0); }
    }
}
pub open spec fn last_of(ls: u64, lp: u64, b: Pairs) -> IdTriple { tr(ls, lp, last_r(b)) }
proof fn said_grows(s: Subs, a: Pairs, b: Pairs, s2: Subs, a2: Pairs, b2: Pairs, t: IdTriple)
    requires b.len() < b2.len(), nonzero(t), entry_of(s2, a2, b2, b2.len() - 1) == t, forall|k: int| 0 <= k < b.len() ==> #[trigger] entry_of(s2, a2, b2, k) == entry_of(s, a, b, k), forall|k: int| b.len() <= k < b2.len() - 1 ==> (#[trigger] entry_of(s2, a2, b2, k)).object == 0
    ensures said_by(s2, a2, b2) == said_by(s, a, b).insert(t)
{
    assert forall|y: IdTriple| said_by(s2, a2, b2).contains(y) <==> #[trigger] said_by(s, a, b).insert(t).contains(y) by {
        said(s2, a2, b2, y); said(s, a, b, y);
        if said_by(s2, a2, b2).contains(y) { let k = choose|k: int| 0 <= k < b2.len() && #[trigger] entry_of(s2, a2, b2, k) == y; if k < b.len() { assert(entry_of(s, a, b, k) == y); } }
        if said_by(s, a, b).contains(y) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] entry_of(s, a, b, k) == y; assert(entry_of(s2, a2, b2, k) == y); }
    }
    assert(said_by(s2, a2, b2) =~= said_by(s, a, b).insert(t));
}
pub proof fn push_object(s: Subs, a: Pairs, b: Pairs, ls: u64, lp: u64, o: u64)
    requires lists_ok(s, a, b, ls, lp), ls != 0, o > last_r(b)
    ensures a.len() > 0, last_l(b) == a.len(), lists_ok(s, a, with_pair(b, a.len() as int, o), ls, lp), last_r(with_pair(b, a.len() as int, o)) == o, said_by(s, a, with_pair(b, a.len() as int, o)) == said_by(s, a, b).insert(tr(ls, lp, o))
{
    reveal(lists_ok);
    let n = a.len() as int; let c = with_pair(b, n, o);
    pairs_pushed(b, n, o);
    assert(a[n - 1] == a.last()); assert(b[b.len() - 1] == b.last());
    let t = tr(ls, lp, o);
    assert(entry_of(s, a, c, b.len() as int) == t) by { match s { Some(s) => { assert(s.last() == s[s.len() - 1]); }, None => {} } }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] entry_of(s, a, c, k) == entry_of(s, a, b, k) by { assert(c[k] == b[k]); }
    said_grows(s, a, b, s, a, c, t);
}
pub open spec fn with_sub(s: Subs, ls: u64, x: u64) -> Subs { match s { Some(v) => if x != ls { Some(v.push(x)) } else { s }, None => None } }
pub open spec fn mapped(s: Subs, x: u64) -> int { match s { Some(v) => v.len() as int, None => x as int } }
spec fn subs_ok(s: Subs, a: Pairs, ls: u64) -> bool { match s { Some(s) => s.len() == last_l(a) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] < s[j]) && (forall|i: int| 0 <= i < s.len() ==> 0 < #[trigger] s[i] <= ls) && (s.len() > 0 ==> s.last() == ls), None => last_l(a) == ls } }
proof fn sub_pushed(s: Subs, a: Pairs, b: Pairs, ls: u64, lp: u64, x: u64, p: u64)
    requires lists_ok(s, a, b, ls, lp), x > 0, p > 0, x > ls || (x == ls && p > lp)
    ensures ({ let s2 = with_sub(s, ls, x); let m = mapped(s2, x); let a2 = with_pair(a, m, p);
        m >= 1 && (m > last_l(a) || (m == last_l(a) && p > last_r(a))) && subs_ok(s2, a2, x) && sub_of(s2, m) == x && forall|l: int| 1 <= l <= last_l(a) ==> #[trigger] sub_of(s2, l) == sub_of(s, l) })
{
    reveal(lists_ok);
    let s2 = with_sub(s, ls, x); let m = mapped(s2, x);
    if a.len() > 0 { assert(a[a.len() - 1] == a.last()); assert(1 <= a[a.len() - 1].0); }
    match s { Some(v) => { if x != ls { let v2 = v.push(x); assert(s2 == Some(v2)); assert(m == last_l(a) + 1); assert forall|i: int| 0 <= i < v2.len() implies 0 < #[trigger] v2[i] <= x by { if i < v.len() { assert(v[i] == v2[i]); } } }
        else { assert(v.last() == v[v.len() - 1]); } }, None => {} }
    assert(m >= 1 && (m > last_l(a) || (m == last_l(a) && p > last_r(a))));
    pairs_pushed(a, m, p);
}
pub proof fn push_pair(s: Subs, a: Pairs, b: Pairs, ls: u64, lp: u64, x: u64, p: u64, o: u64)
    requires lists_ok(s, a, b, ls, lp), x > 0, p > 0, o > 0, x > ls || (x == ls && p > lp)
    ensures ({ let s2 = with_sub(s, ls, x); let m = mapped(s2, x); let a2 = with_pair(a, m, p); let b2 = with_pair(b, a2.len() as int, o);
        &&& m >= 1 && (m > last_l(a) || (m == last_l(a) && p > last_r(a))) && a2.len() > last_l(b)
        &&& lists_ok(s2, a2, b2, x, p) && last_r(b2) == o && said_by(s2, a2, b2) == said_by(s, a, b).insert(tr(x, p, o)) })
{
    let s2 = with_sub(s, ls, x); let m = mapped(s2, x); let a2 = with_pair(a, m, p); let n2 = a2.len() as int; let b2 = with_pair(b, n2, o);
    sub_pushed(s, a, b, ls, lp, x, p);
    assert(pairs_ok(a) && pairs_ok(b) && last_l(b) == a.len()) by { reveal(lists_ok); }
    pairs_pushed(a, m, p); pairs_pushed(b, n2, o);
    let t = tr(x, p, o);
    assert(forall|k: int| 0 <= k < b.len() ==> ((#[trigger] b[k]).1 == 0) == (a[b[k].0 - 1].1 == 0)) by { reveal(lists_ok); }
    assert forall|k: int| 0 <= k < b2.len() implies ((#[trigger] b2[k]).1 == 0) == (a2[b2[k].0 - 1].1 == 0) by {
        if k < b.len() { assert(b2[k] == b[k]); assert(a2[b[k].0 - 1] == a[b[k].0 - 1]); }
        else if k < b2.len() - 1 { assert(b2[k] == (a.len() + 1 + k - b.len(), 0u64)); assert(a2[b2[k].0 - 1].1 == 0); }
    }
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] entry_of(s2, a2, b2, k) == entry_of(s, a, b, k) by { assert(b2[k] == b[k]); let l = b[k].0 - 1; assert(a2[l] == a[l]); assert(1 <= a[l].0 <= last_l(a)); }
    said_grows(s, a, b, s2, a2, b2, t);
    reveal(lists_ok);
}
/// what is stored in the end
#[verifier::opaque] pub open spec fn said_in(m: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList, t: Set<IdTriple>) -> bool { index_wf(m, sp, spo) && forall|x: u64, p: u64, o: u64| #[trigger] in_index(m, sp, spo, x, p, o) <==> t.contains(tr(x, p, o)) }
pub open spec fn arr_of(s: Option<MonotonicLogArray>) -> Subs { match s { Some(m) => Some(m@), None => None } }
pub proof fn stored(s: Subs, a: Pairs, b: Pairs, ls: u64, lp: u64, m: Option<MonotonicLogArray>, sp: AdjacencyList, spo: AdjacencyList)
    requires lists_ok(s, a, b, ls, lp), lists_pairs(sp, a), lists_pairs(spo, b), arr_of(m) == s, s matches Some(v) ==> v.len() < i64::MAX
    ensures said_in(m, sp, spo, said_by(s, a, b))
{
    reveal(lists_ok); reveal(said_in);
    assert forall|k: int| 0 <= k < spo.len() implies (spo.nums()[k] == 0) == (sp.nums()[#[trigger] spo.left(k)] == 0) by { assert(b[k].0 == spo.left(k) + 1); let j = spo.left(k); assert(a[j].1 == sp.nums()[j]); }
    assert forall|i: int, j: int| 0 <= i < j < sp.len() && sp.left(i) == sp.left(j) implies sp.nums()[i] < sp.nums()[j] by { assert(a[i].0 == a[j].0); }
    assert forall|i: int, j: int| 0 <= i < j < spo.len() && spo.left(i) == spo.left(j) implies spo.nums()[i] < spo.nums()[j] by { assert(b[i].0 == b[j].0); }
    assert forall|x: u64, p: u64, o: u64| #[trigger] in_index(m, sp, spo, x, p, o) <==> said_by(s, a, b).contains(tr(x, p, o)) by {
        let t = tr(x, p, o); said(s, a, b, t);
        if in_index(m, sp, spo, x, p, o) { let k = choose|k: int| at(m, sp, spo, k, x, p, o); let j = spo.left(k); assert(b[k].0 == j + 1); assert(a[j].0 == sp.left(j) + 1); assert(entry_of(s, a, b, k) == t); }
        if said_by(s, a, b).contains(t) { let k = choose|k: int| 0 <= k < b.len() && #[trigger] entry_of(s, a, b, k) == t; let j = b[k].0 - 1; assert(1 <= b[k].0 <= last_l(b)); assert(a[j].1 == p); assert(1 <= a[j].0 <= last_l(a));
            assert(subj_at(m, sp.left(j)) == x) by { match s { Some(v) => {}, None => { assert(a[j].0 <= ls); } } }
            assert(at(m, sp, spo, k, x, p, o)); }
    }
}
