// ---- what the stored data says of the files
pub open spec fn good(d: Disk) -> bool { ok(stored(d)) }
pub proof fn of_layer(d: Disk, n: Name5)
    requires good(d), dirs(d).contains(n)
    ensures ({ let s = stored(d);
        &&& there(s, n) && s.lay.own[n] == own_at(d, n) && own_at(d, n).wf() && nv_count(s.lay, n) < i64::MAX && p_count(s.lay, n) < i64::MAX
        &&& s.lay.par.contains_key(n) == has_parent(d, n)
        &&& has_parent(d, n) ==> parent_in(d, n) == Some(s.lay.par[n]) && dirs(d).contains(s.lay.par[n]) && there(s, s.lay.par[n])
        &&& s.roll.contains_key(n) == has_rollup(d, n)
        &&& has_rollup(d, n) ==> rollup_in(d, n) == Some(s.roll[n]) && s.roll[n] != n && dirs(d).contains(s.roll[n]) && represents(s.lay, n, s.roll[n]) && there(s, s.roll[n]) })
{
    reveal(all_wf);
    let s = stored(d);
    let rk = choose|rk: spec_fn(Name5) -> nat| acyclic(s, rk);
    assert(s.lay.own.contains_key(n));
    if has_parent(d, n) { assert(s.lay.par.contains_key(n)); }
    if has_rollup(d, n) { assert(s.roll.contains_key(n)); }
}
pub open spec fn good_world(w: World) -> bool { good(w.disk()) && cells_ok(stored(w.disk()).lay, w) }
pub broadcast proof fn read_keeps(a: World, b: World, l: Lay) requires #[trigger] read_only(a, b), cells_ok(l, a) ensures #[trigger] cells_ok(l, b)
{ reveal(cells_ok); assert forall|c: int, n: Name5| #[trigger] b.cell(c).contains_key(n) implies faithful(l, n, b.cell(c)[n]) by { assert(b.cell(c) == a.cell(c)); } }
pub proof fn read_kept(a: World, b: World) requires good_world(a), read_only(a, b) ensures good_world(b)
{ reveal(cells_ok); assert forall|c: int, n: Name5| #[trigger] b.cell(c).contains_key(n) implies faithful(stored(b.disk()).lay, n, b.cell(c)[n]) by { assert(b.cell(c) == a.cell(c)); } }
