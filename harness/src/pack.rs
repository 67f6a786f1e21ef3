//! Packs: export from one store, import into another.
use crate::ctx::*;
use crate::history::*;
use crate::util::*;
use crate::Fam;
use std::collections::{BTreeMap, BTreeSet};
use terminus_store::storage::*;

pub const FAM: Fam = Fam { name: "pack", run, quick: 250, thorough: 15000,
    bound: "histories of up to 8 layers (with rollups and squashes) on every storage kind, random exported and imported subsets including ids absent from the pack, imported into every storage kind" };

type Name = [u32; 5];
fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 15_000_000 + i);
    let k1 = if i < 25 { KINDS[(i / 5) as usize] } else { kind_for(&mut r) };
    let k2 = if i < 25 { KINDS[(i % 5) as usize] } else { kind_for(&mut r) };
    let t = ["A18"];
    let want = cx.want.clone();
    block(async {
        cx.log.push(format!("export from a {:?} store, import into a {:?} store", k1, k2));
        let mut h = H::new(cx, r, k1, 4, 2, 3);
        h.op_commit(None).await;
        let n = 1 + h.r.below(7);
        for _ in 0..n {
            match h.r.below(8) {
                0 => h.op_commit(None).await,
                1 => h.op_rollup().await,
                2 => h.op_squash().await,
                _ => { let p = if h.r.chance(2, 3) { h.ls.len() - 1 } else { h.r.below(h.ls.len()) }; h.op_commit(Some(p)).await }
            }
        }
        for j in 0..h.ls.len() { if h.ls[j].ids.is_none() { let raw = h.w.raw.clone(); h.audit_with(j, &raw, "uncached", false).await; } }
        // exported: all, or the chain of some layers, or an arbitrary subset
        let mode = h.r.below(4);
        let mut exp: Vec<usize> = match mode {
            0 => (0..h.ls.len()).collect(),
            1 => { let j = h.r.below(h.ls.len()); h.chain(j) }
            _ => (0..h.ls.len()).filter(|_| h.r.chance(2, 3)).collect(),
        };
        h.r.shuffle(&mut exp);
        let names: Vec<Name> = exp.iter().map(|&j| h.ls[j].name).collect();
        let (ls, hn) = h.handle();
        h.cx.ph(&t, format!("export {:?} via {}", exp, hn));
        let pack = ok!(h.cx, t, "export", ls.export_layers(Box::new(names.clone().into_iter())).await);
        let g: BTreeMap<Name, Option<Name>> = match pack_layer_parents(std::io::Cursor::new(&pack)) {
            Ok(m) => m.into_iter().collect(),
            Err(e) => { chk!(h.cx, t, "parents", false, "pack_layer_parents: {:?}", e); Default::default() }
        };
        let e: BTreeMap<Name, Option<Name>> = exp.iter().map(|&j| (h.ls[j].name, h.ls[j].parent.map(|p| h.ls[p].name))).collect();
        chk!(h.cx, t, "parents", g == e, "pack_layer_parents lists {:?}, expected {:?}", show(&g), show(&e));
        // requested: a subset closed under parents
        let mut req: BTreeSet<usize> = BTreeSet::new();
        let es: BTreeSet<usize> = exp.iter().cloned().collect();
        for &j in &exp {
            let c = h.chain(j);
            if c.iter().all(|x| es.contains(x)) && h.r.chance(2, 3) { req.extend(c); }
        }
        let mut ids: Vec<Name> = req.iter().map(|&j| h.ls[j].name).collect();
        let mut absent: Vec<Name> = vec![];
        if h.r.chance(1, 2) { absent.push([h.r.next() as u32, 1, 2, 3, 4]); }
        for j in 0..h.ls.len() { if !es.contains(&j) && h.r.chance(1, 3) { absent.push(h.ls[j].name); } }
        ids.extend(absent.iter().cloned());
        h.r.shuffle(&mut ids);
        h.cx.nontrivial = !req.is_empty();
        let mut w2 = World::new(k2);
        std::mem::swap(&mut h.w, &mut w2);
        let (ls, hn) = h.handle();
        h.cx.ph(&t, format!("import {:?} and {} absent ids via {}", req, absent.len(), hn));
        ok!(h.cx, t, "import", ls.import_layers(&pack, Box::new(ids.into_iter())).await);
        if h.r.chance(1, 2) && k2 != Kind::Mem { h.w.reopen(); }
        let handles = [(h.w.cached.clone(), "cached target"), (h.w.raw.clone(), "uncached target")];
        h.rollups.clear();
        h.held.clear();
        for m in h.ls.iter_mut() { m.origin = &["A18"]; m.rolled = false; m.reopened = false; }
        for (ls, hn) in handles.iter() {
            if hn.starts_with("uncached") && k2 != Kind::Mem || hn.starts_with("cached") || k2 == Kind::Mem {
                h.cx.ph(&t, String::new());
                let mut l = ok!(h.cx, t, "layers", ls.layers().await);
                l.sort();
                let mut e: Vec<Name> = req.iter().map(|&j| h.ls[j].name).collect();
                e.sort();
                chk!(h.cx, t, "imported", l == e, "{} lists {:?}, expected exactly the requested layers {:?}", hn, l.iter().map(|n| nm(*n)).collect::<Vec<_>>(), e.iter().map(|n| nm(*n)).collect::<Vec<_>>());
                for a in &absent {
                    let g = ls.get_layer(*a).await;
                    chk!(h.cx, t, "absent", matches!(g, Ok(None)), "{}: layer {} is not in the pack but is present after the import", hn, nm(*a));
                }
                for j in 0..h.ls.len() {
                    if req.contains(&j) || absent.contains(&h.ls[j].name) { continue }
                    let g = ls.get_layer(h.ls[j].name).await;
                    chk!(h.cx, t, "unrequested", matches!(g, Ok(None)), "{}: layer L{} was not requested but was imported", hn, j);
                }
            }
        }
        // everything about the imported layers is as in the source
        if want == "A18" { h.cx.want = String::new(); }
        for (ls, hn) in handles.iter() {
            for &j in &req { h.audit_with(j, ls, hn, false).await; }
        }
        for &j in &req {
            let chain: Vec<Name> = h.chain(j).iter().map(|&x| h.ls[x].name).collect();
            h.cx.ph(&t, String::new());
            let g = ok!(h.cx, t, "stack", h.w.raw.retrieve_layer_stack_names(h.ls[j].name).await);
            chk!(h.cx, t, "stack", g == chain, "history of imported L{} is wrong", j);
        }
        // the source is unchanged
        h.cx.want = want;
    })
}
fn show(m: &BTreeMap<Name, Option<Name>>) -> Vec<String> { m.iter().map(|(k, v)| format!("{}<-{}", nm(*k), v.map(nm).unwrap_or_default())).collect() }
