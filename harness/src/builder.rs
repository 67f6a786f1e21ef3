//! Builder life cycle, apply_delta and apply_diff.
use crate::ctx::*;
use crate::history::*;
use crate::model::*;
use crate::util::*;
use crate::Fam;
use std::sync::{Arc, Mutex};
use terminus_store::layer::*;
use terminus_store::store::sync::SyncStore;

pub const FAM: Fam = Fam { name: "builder", run, quick: 300, thorough: 20000,
    bound: "random interleavings of 6-20 additions, removals, commits, clones and probes over up to 3 clones of one builder, base and child, async and sync API; concurrent double commit" };
pub const FAM_DELTA: Fam = Fam { name: "delta", run: run_delta, quick: 250, thorough: 15000,
    bound: "histories of 2-6 layers (with rollups), apply_delta and apply_diff between arbitrary pairs and on parentless builders, on every storage kind" };

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 16_000_000 + i);
    let kind = if i < 5 { KINDS[i as usize] } else { kind_for(&mut r) };
    let t = ["A22"];
    block(async {
        cx.log.push(format!("{:?} store", kind));
        let mut h = H::new(cx, r, kind, 3, 2, 2);
        store_commit(&mut h, None).await;
        store_commit(&mut h, Some(0)).await;
        let parent = if h.r.chance(1, 4) { None } else { Some(h.r.below(2)) };
        let b0 = match parent {
            None => ok!(h.cx, t, "create", h.w.store.create_base_layer().await),
            Some(p) => { let l = sget(&mut h, p).await; ok!(h.cx, t, "open_write", l.open_write().await) }
        };
        let pset = parent.map(|p| h.ls[p].triples.clone()).unwrap_or_default();
        let name = b0.name();
        let mut clones = vec![b0];
        let mut committed = false;
        let (mut adds, mut rems) = (TSet::new(), TSet::new());
        h.cx.nontrivial = true;
        h.cx.ph(&t, format!("builder on {:?}", parent));
        let n = 6 + h.r.below(14);
        for step in 0..n {
            let b = clones[h.r.below(clones.len())].clone();
            chk!(h.cx, t, "committed", b.committed() == committed, "committed() = {} although the builder is {}committed", b.committed(), if committed { "" } else { "not " });
            chk!(h.cx, t, "name", b.name() == name, "builder changed its name");
            chk!(h.cx, t, "parent", b.parent().map(|p| p.name()) == parent.map(|p| h.ls[p].name), "builder reports a wrong parent");
            let tr = h.rt();
            let op = if step + 3 == n && !committed { 7 } else { h.r.below(10) };
            match op {
                0..=2 => {
                    h.cx.ph(&t, format!("add {}", show(&tr)));
                    let res = b.add_value_triple(tr.clone());
                    chk!(h.cx, t, "add", res.is_err() == committed, "adding to a {}committed builder gave {:?}", if committed { "" } else { "not yet " }, res);
                    if !committed { adds.insert(tr); }
                }
                3 | 4 => {
                    let ex: Vec<VT> = pset.iter().cloned().collect();
                    let tr = if ex.is_empty() || h.r.chance(1, 4) { tr } else { h.r.pick(&ex).clone() };
                    let id = b.parent().and_then(|p| p.value_triple_to_id(&tr));
                    h.cx.ph(&t, format!("remove {}", show(&tr)));
                    let res = match id { Some(i) if h.r.chance(1, 2) => b.remove_id_triple(i), _ => b.remove_value_triple(tr.clone()) };
                    chk!(h.cx, t, "remove", res.is_err() == committed, "removing on a {}committed builder gave {:?}", if committed { "" } else { "not yet " }, res);
                    if !committed { rems.insert(tr); }
                }
                5 => { clones.push(b.clone()); }
                6 => {
                    h.cx.ph(&t, "with_builder".into());
                    let called = Arc::new(Mutex::new(false));
                    let c2 = called.clone();
                    let t2 = tr.clone();
                    let res = b.with_builder(move |b| { *c2.lock().unwrap() = true; b.add_value_triple(t2) });
                    chk!(h.cx, t, "with_builder", res.is_err() == committed && *called.lock().unwrap() == !committed, "with_builder on a {}committed builder gave {:?}", if committed { "" } else { "not yet " }, res);
                    if !committed { adds.insert(tr); }
                }
                7 => {
                    h.cx.ph(&t, format!("commit (already committed: {})", committed));
                    let res = match h.r.below(3) {
                        0 => b.commit_no_load().await,
                        1 => b.commit().await.map(|l| { assert!(l.name() == name); }),
                        _ => {
                            // two commits at once: exactly one may succeed
                            let (b1, b2) = (b.clone(), clones[h.r.below(clones.len())].clone());
                            let x = tokio::spawn(async move { b1.commit_no_load().await });
                            let y = tokio::spawn(async move { b2.commit_no_load().await });
                            let (x, y) = (x.await.unwrap(), y.await.unwrap());
                            chk!(h.cx, t, "double", [&x, &y].iter().filter(|r| r.is_ok()).count() == if committed { 0 } else { 1 }, "two simultaneous commits gave {:?} and {:?}", x, y);
                            if x.is_ok() { x } else { y }
                        }
                    };
                    chk!(h.cx, t, "commit", res.is_err() == committed, "commit of a {}committed builder gave {:?}", if committed { "" } else { "not yet " }, res);
                    committed = true;
                }
                8 => {
                    if let Some(p) = parent {
                        if committed && h.r.chance(1, 2) {
                            let l = sget(&mut h, p).await;
                            h.cx.ph(&t, format!("apply_delta(L{}) on the committed builder", p));
                            let nonempty = !pset.is_empty();
                            let res = b.apply_delta(&l).await;
                            chk!(h.cx, t, "apply_delta.committed", res.is_err() || !nonempty || delta_empty(&h, p), "apply_delta on a committed builder reported success");
                            let q = h.r.below(h.ls.len());
                            let l = sget(&mut h, q).await;
                            h.cx.ph(&t, format!("apply_diff(L{}) on the committed builder", q));
                            let same = h.ls[q].triples == pset;
                            let res = b.apply_diff(&l);
                            chk!(h.cx, t, "apply_diff.committed", res.is_err() || same, "apply_diff on a committed builder reported success");
                        }
                    }
                }
                _ => {
                    let sb = SyncStore::wrap(h.w.store.clone());
                    let n0 = h.ls[0].name;
                    let res = tokio::task::spawn_blocking(move || sb.get_layer_from_id(n0).map(|l| l.is_some())).await.unwrap();
                    chk!(h.cx, t, "sync", ok!(h.cx, t, "sync", res), "layer not found through the sync API");
                }
            }
        }
        for b in &clones { chk!(h.cx, t, "committed", b.committed() == committed, "committed() differs between clones"); }
        if committed {
            let mut res = pset;
            for x in adds.difference(&rems) { res.insert(x.clone()); }
            for x in rems.difference(&adds) { res.remove(x); }
            h.push(name, parent, res, &["A22"]);
            let k = h.ls.len() - 1;
            let l = sget(&mut h, k).await;
            chk!(h.cx, t, "layer.parent", l.parent_name() == parent.map(|p| h.ls[p].name), "committed layer has another parent than its builder reported");
            saudit(&mut h, l, false).await;
            let listed = ok!(h.cx, t, "layers", h.w.cached.layers().await);
            let _ = listed;
        } else {
            let o = ok!(h.cx, t, "get", h.w.cached.get_layer(name).await.or_else(|_| Ok::<_, std::io::Error>(None)));
            chk!(h.cx, t, "uncommitted", o.is_none(), "an uncommitted builder's layer can be loaded");
        }
    })
}
fn delta_empty(h: &H<'_>, p: usize) -> bool {
    match h.ls[p].parent { None => h.ls[p].triples.is_empty(), Some(q) => h.ls[p].triples == h.ls[q].triples }
}

fn run_delta(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 17_000_000 + i);
    let kind = if i < 5 { KINDS[i as usize] } else { kind_for(&mut r) };
    block(async {
        cx.log.push(format!("{:?} store", kind));
        let mut h = H::new(cx, r, kind, 3, 2, 3);
        store_commit(&mut h, None).await;
        let n = 1 + h.r.below(5);
        for _ in 0..n {
            let p = if h.r.chance(1, 4) { None } else { Some(h.r.below(h.ls.len())) };
            store_commit(&mut h, p).await;
        }
        if h.r.chance(1, 2) {
            let j = h.r.below(h.ls.len());
            let l = sget(&mut h, j).await;
            h.cx.ph(&["A08"], format!("rollup(L{})", j));
            ok!(h.cx, ["A08"], "rollup", l.rollup().await);
            h.ls[j].rolled = true;
        }
        h.cx.nontrivial = true;
        for _ in 0..4 {
            let other = h.r.below(h.ls.len());
            let diff = h.r.chance(1, 2);
            let p = if diff && h.r.chance(1, 4) || h.r.chance(1, 8) { None } else { Some(h.r.below(h.ls.len())) };
            store_delta(&mut h, p, other, diff).await;
        }
    })
}
