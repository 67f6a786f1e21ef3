//! A stack of layers whose triples run through every membership pattern.
use crate::ctx::*;
use crate::history::*;
use crate::model::*;
use crate::util::*;
use crate::Fam;
use terminus_store::layer::*;

pub const FAM: Fam = Fam { name: "pattern", run, quick: 24, thorough: 2000,
    bound: "stacks of 2-6 layers holding one triple for each of the 2^depth membership patterns; every (layer, ancestor) pair: net change, rollup, rollup up to, squash up to" };

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 14_000_000 + i);
    let depth = [2usize, 3, 4, 5, 3, 4, 5, 6][(i % 8) as usize];
    let kind = if i % 6 == 5 { KINDS[1 + r.below(4)] } else { Kind::Mem };
    block(async {
        cx.log.push(format!("{:?} store, {} layers", kind, depth));
        let mut h = H::new(cx, r, kind, 1, 1, 1);
        let np = 1usize << depth;
        let ls = h.w.cached.clone();
        let trip = |x: usize| -> VT {
            let s = format!("n{:02}", x % 7);
            let p = format!("p{}", x % 3);
            if x % 2 == 0 { vt(&s, &p, sval(&format!("v{:03}", x))) } else { vt(&s, &p, node(&format!("m{:03}", x))) }
        };
        let t = ["A03"];
        for d in 0..depth {
            let mut b = if d == 0 { ok!(h.cx, t, "create", ls.create_base_layer().await) } else { ok!(h.cx, t, "create", ls.create_child_layer(h.ls[d - 1].name).await) };
            let mut set = TSet::new();
            let mut changed = 0;
            for x in 0..np {
                let now = x >> d & 1 == 1;
                let before = d > 0 && x >> (d - 1) & 1 == 1;
                if now { set.insert(trip(x)); }
                if now && !before { b.add_value_triple(trip(x)); changed += 1; }
                if !now && before { b.remove_value_triple(trip(x)); changed += 1; }
            }
            let name = b.name();
            h.cx.ph(&t, format!("layer {}: {} changes", d, changed));
            ok!(h.cx, t, "commit", b.commit_boxed().await);
            ok!(h.cx, t, "finalize", ls.finalize_layer(name).await);
            h.push(name, if d == 0 { None } else { Some(d - 1) }, set, &["A03"]);
        }
        h.cx.nontrivial = true;
        h.audit_changes(true).await;
        for d in 0..depth { h.audit_with(d, &ls, "cached", d + 1 == depth).await; }
        // squash up to every ancestor of the top layer and of one other layer
        let top = depth - 1;
        for u in 0..top {
            let l = h.get(top, &ls).await;
            h.cx.ph(&["A09"], format!("squash_upto(L{}, L{})", top, u));
            let n = ok!(h.cx, ["A09"], "squash_upto", ls.squash_upto(l, h.ls[u].name).await);
            let t = h.ls[top].triples.clone();
            let k = h.push(n, Some(u), t, &["A09"]);
            h.audit(k, true).await;
        }
        // a rollup of every layer, in random order and of random extent, then everything again
        let mut order: Vec<usize> = (0..depth).collect();
        h.r.shuffle(&mut order);
        for j in order {
            let l = h.get(j, &ls).await;
            if j == 0 || h.r.chance(1, 3) {
                h.cx.ph(&["A08"], format!("rollup(L{})", j));
                ok!(h.cx, ["A08"], "rollup", ls.clone().rollup(l).await);
            } else {
                let u = h.r.below(j);
                h.cx.ph(&["A08"], format!("rollup_upto(L{}, L{})", j, u));
                ok!(h.cx, ["A08"], "rollup_upto", ls.rollup_upto(l, h.ls[u].name).await);
            }
            h.ls[j].rolled = true;
        }
        for d in 0..h.ls.len() { h.audit_with(d, &ls, "cached", false).await; }
        h.audit_changes(true).await;
        let raw = h.w.raw.clone();
        h.audit_with(top, &raw, "uncached", true).await;
    })
}
