//! Named graph heads against a model, async and sync API.
use crate::ctx::*;
use crate::history::*;
use crate::model::*;
use crate::util::*;
use crate::Fam;
use terminus_store::store::sync::SyncStore;
use terminus_store::store::{NamedGraph, StoreLayer};

pub const FAM: Fam = Fam { name: "heads", run, quick: 300, thorough: 20000,
    bound: "random sequences of 10-30 head operations on 3 graphs over a forest of up to 8 layers (with rollups), on memory/directory/archive stores, through the async or sync API" };

struct M { exists: bool, head: Option<usize>, version: u64 }

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 8_000_000 + i);
    let kind = KINDS[r.below(KINDS.len())];
    let kind = if i < 5 { KINDS[i as usize] } else { kind };
    let sync = i % 2 == 1;
    cx.log.push(format!("{:?} store{}", kind, if sync { ", sync API" } else { "" }));
    let mut h = H::new(cx, r, kind, 4, 2, 2);
    let store = h.w.store.clone();
    let ss = SyncStore::wrap(store.clone());
    let t = ["A15"];
    block(async { store_commit(&mut h, None).await; });
    let k = 3 + h.r.below(5);
    for _ in 0..k {
        let p = if h.r.chance(1, 6) { None } else { Some(h.r.below(h.ls.len())) };
        block(async { store_commit(&mut h, p).await; });
    }
    for j in 0..h.ls.len() {
        if h.r.chance(1, 4) {
            let l = block(sget(&mut h, j));
            h.cx.ph(&["A08"], format!("rollup(L{})", j));
            ok!(h.cx, ["A08"], "rollup", block(l.rollup()));
            h.ls[j].rolled = true;
        }
    }
    let names = ["main", "dev", "x.y"];
    let mut ms: Vec<M> = names.iter().map(|_| M { exists: false, head: None, version: 0 }).collect();
    let mut graphs: Vec<Option<NamedGraph>> = names.iter().map(|_| None).collect();
    h.cx.nontrivial = true;
    let n = 10 + h.r.below(20);
    for _ in 0..n {
        let g = h.r.below(3);
        let op = h.r.below(12);
        if !ms[g].exists {
            h.cx.ph(&t, format!("create {:?}", names[g]));
            let o = ok!(h.cx, t, "open", block(store.open(names[g])));
            chk!(h.cx, t, "open.none", o.is_none(), "open of a graph that was not created");
            let gr = ok!(h.cx, t, "create", block(store.create(names[g])));
            chk!(h.cx, t, "name", gr.name() == names[g], "graph name {:?}", gr.name());
            graphs[g] = Some(gr);
            ms[g] = M { exists: true, head: None, version: 0 };
        } else if op == 0 {
            h.cx.ph(&t, format!("delete {:?}", names[g]));
            if h.r.chance(1, 2) { ok!(h.cx, t, "delete", block(graphs[g].as_ref().unwrap().delete())); }
            else { let d = ok!(h.cx, t, "delete", block(store.delete(names[g]))); chk!(h.cx, t, "delete", d, "delete of an existing graph reported false"); }
            ms[g].exists = false;
            graphs[g] = None;
        } else if op == 1 {
            h.cx.ph(&t, format!("create existing {:?}", names[g]));
            chk!(h.cx, t, "create.existing", block(store.create(names[g])).is_err(), "creating an existing graph succeeded");
        } else {
            let j = h.r.below(h.ls.len());
            let l = block(sget(&mut h, j));
            if h.r.chance(1, 3) {
                let o = ok!(h.cx, t, "open", block(store.open(names[g])));
                chk!(h.cx, t, "open", o.is_some(), "existing graph not found");
                graphs[g] = o;
            }
            match op {
                2..=7 => {
                    let exp = match ms[g].head { None => true, Some(c) => h.chain(j).contains(&c) };
                    h.cx.ph(&t, format!("set_head({:?}, L{}) head {:?}", names[g], j, ms[g].head));
                    let res = ok!(h.cx, t, "set_head", set_head(sync, &ss, graphs[g].as_ref().unwrap(), names[g], &l));
                    chk!(h.cx, t, "set_head", res == exp, "set_head({:?}, L{}) with head {:?} gave {}", names[g], j, ms[g].head, res);
                    if exp { ms[g].head = Some(j); ms[g].version += 1; }
                }
                8 | 9 => {
                    h.cx.ph(&t, format!("force_set_head({:?}, L{})", names[g], j));
                    if sync {
                        let sg = ok!(h.cx, t, "open", ss.open(names[g])).unwrap();
                        let sl = ok!(h.cx, t, "get", ss.get_layer_from_id(h.ls[j].name)).unwrap();
                        ok!(h.cx, t, "force", sg.force_set_head(&sl));
                    } else { ok!(h.cx, t, "force", block(graphs[g].as_ref().unwrap().force_set_head(&l))); }
                    ms[g].head = Some(j);
                    ms[g].version += 1;
                }
                _ => {
                    let v = match h.r.below(4) { 0 => ms[g].version + 1, 1 => ms[g].version.saturating_sub(1), _ => ms[g].version };
                    let exp = v == ms[g].version;
                    h.cx.ph(&t, format!("force_set_head_version({:?}, L{}, {}) at {}", names[g], j, v, ms[g].version));
                    let res = if sync {
                        let sg = ok!(h.cx, t, "open", ss.open(names[g])).unwrap();
                        let sl = ok!(h.cx, t, "get", ss.get_layer_from_id(h.ls[j].name)).unwrap();
                        ok!(h.cx, t, "force_version", sg.force_set_head_version(&sl, v))
                    } else { ok!(h.cx, t, "force_version", block(graphs[g].as_ref().unwrap().force_set_head_version(&l, v))) };
                    chk!(h.cx, t, "force_version", res == exp, "force_set_head_version at version {} with {} gave {}", ms[g].version, v, res);
                    if exp { ms[g].head = Some(j); ms[g].version += 1; }
                }
            }
        }
        for (x, m) in ms.iter().enumerate() {
            if !m.exists { continue }
            let gr = graphs[x].as_ref().unwrap();
            let (hd, v) = ok!(h.cx, t, "head_version", block(gr.head_version()));
            chk!(h.cx, t, "head_version", v == m.version && hd.as_ref().map(|l| l.name()) == m.head.map(|j| h.ls[j].name),
                "graph {:?}: head {:?} version {}, expected head {:?} version {}", names[x], hd.map(|l| nm(l.name())), v, m.head, m.version);
            let hd = ok!(h.cx, t, "head", block(gr.head()));
            chk!(h.cx, t, "head", hd.map(|l| l.name()) == m.head.map(|j| h.ls[j].name), "graph {:?}: head() differs", names[x]);
        }
        let mut g1 = ok!(h.cx, t, "labels", block(store.labels()));
        g1.sort();
        let mut e: Vec<String> = ms.iter().zip(names).filter(|(m, _)| m.exists).map(|(_, n)| n.to_string()).collect();
        e.sort();
        chk!(h.cx, t, "labels", g1 == e, "labels() = {:?} expected {:?}", g1, e);
    }
    if kind != Kind::Mem {
        h.op_reopen();
        let store = h.w.store.clone();
        for (x, m) in ms.iter().enumerate() {
            h.cx.ph(&t, String::new());
            let o = ok!(h.cx, t, "reopen", block(store.open(names[x])));
            chk!(h.cx, t, "reopen", o.is_some() == m.exists, "graph {:?} after reopening", names[x]);
            if let Some(gr) = o {
                let (hd, v) = ok!(h.cx, t, "reopen.head", block(gr.head_version()));
                chk!(h.cx, t, "reopen.head", v == m.version && hd.map(|l| l.name()) == m.head.map(|j| h.ls[j].name), "graph {:?} after reopening: version {} expected {}", names[x], v, m.version);
            }
        }
    }
    let _ = diff_msg;
}
fn set_head(sync: bool, ss: &SyncStore, g: &NamedGraph, name: &str, l: &StoreLayer) -> std::io::Result<bool> {
    if sync {
        let sg = ss.open(name)?.unwrap();
        let sl = ss.get_layer_from_id(l.name())?.unwrap();
        sg.set_head(&sl)
    } else { block(g.set_head(l)) }
}
use terminus_store::layer::Layer;
