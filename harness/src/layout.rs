//! Low-level layer layouts (ids that occur in no triple, empty change lists, ...), enumerated.
use crate::ctx::*;
use crate::memfiles::*;
use crate::model::*;
use crate::util::*;
use crate::Fam;
use std::collections::BTreeSet;
use std::sync::Arc;
use terminus_store::layer::*;
use terminus_store::storage::memory::*;

pub const FAM: Fam = Fam { name: "layout", run, quick: 4096 + 1500, thorough: 4096 + 150000,
    bound: "exhaustive: all 4096 base layers over 2 nodes, 2 predicates, 1 value; then random base layers up to 12 nodes, 6 predicates, 8 values, sparse and dense" };
pub const FAM_CHILD: Fam = Fam { name: "layout_child", run: run_child, quick: 2500, thorough: 200000,
    bound: "random 2-4 layer stacks written with the file builders (up to 5 nodes, 3 predicates, 3 values per layer), any additions and removals, including empty ones" };

fn nname(l: usize, i: usize) -> String { format!("{}n{}", ["a", "b", "c", "d"][l], (b'a' + i as u8) as char) }
fn pname(l: usize, i: usize) -> String { format!("{}p{}", ["a", "b", "c", "d"][l], (b'a' + i as u8) as char) }
fn vname(l: usize, i: usize) -> String { format!("{}v{}", ["a", "b", "c", "d"][l], (b'a' + i as u8) as char) }

async fn base(cx: &mut Cx, n: usize, p: usize, v: usize, set: &BTreeSet<(u64, u64, u64)>) -> Arc<InternalLayer> {
    let t = ["A01", "A02", "A03", "A05"];
    let files = base_layer_memory_files();
    let mut b = ok!(cx, t, "builder", BaseLayerFileBuilder::from_files(&files).await);
    b.add_nodes((0..n).map(|i| nname(0, i)).collect::<Vec<_>>());
    b.add_predicates((0..p).map(|i| pname(0, i)).collect::<Vec<_>>());
    b.add_values((0..v).map(|i| match sval(&vname(0, i)) { ObjectType::Value(v) => v, _ => unreachable!() }).collect::<Vec<_>>());
    let mut b = ok!(cx, t, "phase2", b.into_phase2().await);
    for (s, p, o) in set { ok!(cx, t, "add_triple", b.add_triple(*s, *p, *o).await); }
    ok!(cx, t, "finalize", b.finalize().await);
    Arc::new(ok!(cx, t, "load", BaseLayer::load_from_files([0, 0, 0, 0, 1], &files).await))
}

fn ids_of(set: &BTreeSet<IdTriple>) -> String { tids(&set.iter().cloned().collect::<Vec<_>>()) }

fn seeks(cx: &mut Cx, set: &BTreeSet<IdTriple>, n: u64, p: u64, what: &str, mk: &dyn Fn() -> Box<dyn SeekIt>) {
    let t = ["A02"];
    if !cx.wants(&t) { return }
    cx.ph(&t, String::new());
    let mut ss: Vec<u64> = (0..=n + 2).collect();
    ss.push(1 << 40);
    let mut ps: Vec<u64> = (0..=p + 2).collect();
    ps.push(1 << 40);
    for &s in &ss {
        let e: Vec<IdTriple> = set.iter().filter(|x| x.subject >= s).cloned().collect();
        let g = mk().seek_s(s);
        chk!(cx, t, "seek_subject", g == e, "{}: seek_subject({}) continues with {} expected {}", what, s, tids(&g), tids(&e));
        for &pp in &ps {
            let e: Vec<IdTriple> = set.iter().filter(|x| (x.subject, x.predicate) >= (s, pp)).cloned().collect();
            let g = mk().seek_sp(s, pp);
            chk!(cx, t, "seek_subject_predicate", g == e, "{}: seek_subject_predicate({},{}) continues with {} expected {}", what, s, pp, tids(&g), tids(&e));
        }
    }
    // seeking again from the middle
    for &s in &ss {
        let k = (s as usize) % 4;
        let e: Vec<IdTriple> = set.iter().filter(|x| x.subject >= s).cloned().collect();
        if let Some(g) = mk().reseek(k, s) {
            chk!(cx, t, "reseek", g == e, "{}: seek_subject_ref({}) after {} steps continues with {} expected {}", what, s, k, tids(&g), tids(&e));
        }
    }
}
trait SeekIt { fn seek_s(self: Box<Self>, s: u64) -> Vec<IdTriple>; fn seek_sp(self: Box<Self>, s: u64, p: u64) -> Vec<IdTriple>; fn reseek(self: Box<Self>, k: usize, s: u64) -> Option<Vec<IdTriple>>; }
impl SeekIt for OptInternalLayerTripleSubjectIterator {
    fn seek_s(self: Box<Self>, s: u64) -> Vec<IdTriple> { self.seek_subject(s).collect() }
    fn seek_sp(self: Box<Self>, s: u64, p: u64) -> Vec<IdTriple> { self.seek_subject_predicate(s, p).collect() }
    fn reseek(mut self: Box<Self>, k: usize, s: u64) -> Option<Vec<IdTriple>> {
        for _ in 0..k { self.next(); }
        self.peek();
        self.seek_subject_ref(s);
        Some(self.collect())
    }
}
impl SeekIt for InternalTripleSubjectIterator {
    fn seek_s(self: Box<Self>, s: u64) -> Vec<IdTriple> { (*self).seek_subject(s).collect() }
    fn seek_sp(self: Box<Self>, s: u64, p: u64) -> Vec<IdTriple> { (*self).seek_subject_predicate(s, p).collect() }
    fn reseek(self: Box<Self>, _: usize, _: u64) -> Option<Vec<IdTriple>> { None }
}

fn full_audit(cx: &mut Cx, l: &InternalLayer, set: &BTreeSet<IdTriple>, add: &BTreeSet<IdTriple>, rem: &BTreeSet<IdTriple>, content: &[&str], what: &str) {
    let n = l.node_and_value_count() as u64;
    let p = l.predicate_count() as u64;
    let ids = audit_ids(cx, l, what);
    let nm = |s: &BTreeSet<IdTriple>| -> TSet { s.iter().filter_map(|t| named(&ids, t)).collect() };
    let exp = nm(set);
    audit_layer(cx, l, &exp, content, what);
    let (ea, er) = (nm(add), nm(rem));
    block(async { audit_delta(cx, &Delta::Il(l), &ids, &ea, &er, &["A04"], what).await; });
    seeks(cx, add, n, p, &format!("{}: additions", what), &|| Box::new(l.internal_triple_additions()));
    seeks(cx, rem, n, p, &format!("{}: removals", what), &|| Box::new(l.internal_triple_removals()));
    seeks(cx, set, n, p, &format!("{}: triples", what), &|| Box::new(InternalTripleSubjectIterator::from_layer(l)));
    // additions and removals by object: sorted by (object, subject, predicate)
    if cx.wants(&["A04"]) {
        cx.ph(&["A04"], String::new());
        for (k, it, e) in [("additions", l.internal_triple_additions_by_object(), add), ("removals", l.internal_triple_removals_by_object(), rem)] {
            let mut g: Vec<IdTriple> = it.collect();
            g.sort();
            let e: Vec<IdTriple> = e.iter().cloned().collect();
            chk!(cx, ["A04"], "by_object", g == e, "{}: {} by object = {} expected {}", what, k, tids(&g), tids(&e));
        }
    }
}

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let (n, p, v);
    let mut set: BTreeSet<(u64, u64, u64)> = BTreeSet::new();
    if i < 4096 {
        n = 2; p = 2; v = 1;
        let mut bit = 0;
        for s in 1..=2 { for pp in 1..=2 { for o in 1..=3 { if i >> bit & 1 == 1 { set.insert((s, pp, o)); } bit += 1; } } }
    } else {
        let mut r = Rng::new(seed, 12_000_000 + i);
        n = 1 + r.below(12); p = 1 + r.below(6); v = r.below(9);
        let k = r.below(2 + n * p * 2);
        let full = r.chance(1, 10);
        if full { for s in 1..=n { for pp in 1..=p { for o in 1..=(n + v) { if r.chance(9, 10) { set.insert((s as u64, pp as u64, o as u64)); } } } } }
        else { for _ in 0..k { set.insert((1 + r.below(n) as u64, 1 + r.below(p) as u64, 1 + r.below(n + v) as u64)); } }
    }
    let s: BTreeSet<IdTriple> = set.iter().map(|t| IdTriple::new(t.0, t.1, t.2)).collect();
    cx.nontrivial = !s.is_empty();
    cx.ph(&["A01", "A02", "A05"], format!("base layer with {} nodes, {} predicates, {} values and triples {}", n, p, v, ids_of(&s)));
    let l = block(base(cx, n, p, v, &set));
    full_audit(cx, &l, &s, &s, &BTreeSet::new(), &["A01", "A03"], "base");
}

fn run_child(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 13_000_000 + i);
    let tiny = i < 1000;
    let (n, p, v) = if tiny { (1 + r.below(2), 1 + r.below(2), r.below(2)) } else { (1 + r.below(5), 1 + r.below(3), r.below(4)) };
    let mut set: BTreeSet<(u64, u64, u64)> = BTreeSet::new();
    for _ in 0..r.below(2 + n * p * 2) { set.insert((1 + r.below(n) as u64, 1 + r.below(p) as u64, 1 + r.below(n + v) as u64)); }
    let to = |s: &BTreeSet<(u64, u64, u64)>| -> BTreeSet<IdTriple> { s.iter().map(|t| IdTriple::new(t.0, t.1, t.2)).collect() };
    cx.ph(&["A01", "A02", "A05"], format!("base layer with {} nodes, {} predicates, {} values and triples {}", n, p, v, ids_of(&to(&set))));
    let mut layers = vec![(block(base(cx, n, p, v, &set)), set.clone(), set.clone(), BTreeSet::new())];
    let depth = 1 + r.below(3);
    let t = ["A01", "A02", "A03", "A04", "A05"];
    cx.nontrivial = true;
    for d in 1..=depth {
        let (parent, cur, _, _) = layers.last().unwrap().clone();
        // ids that are subjects or objects of nothing stay possible: new names need not be used
        let (nn, np, nv) = (r.below(if tiny { 2 } else { 4 }), r.below(2), r.below(if tiny { 2 } else { 3 }));
        let files = child_layer_memory_files();
        let pl: Arc<dyn Layer> = parent.clone();
        let mut b = ok!(cx, t, "builder", block(ChildLayerFileBuilder::from_files(pl, &files)));
        // known names are skipped by the builder
        let mut nn_names: Vec<String> = (0..nn).map(|i| nname(d, i)).collect();
        if r.chance(1, 3) { nn_names.insert(0, nname(0, 0)); }
        b.add_nodes(nn_names);
        b.add_predicates((0..np).map(|i| pname(d, i)).collect::<Vec<_>>());
        b.add_values((0..nv).map(|i| match sval(&vname(d, i)) { ObjectType::Value(v) => v, _ => unreachable!() }).collect::<Vec<_>>());
        let mut b = ok!(cx, t, "phase2", block(b.into_phase2()));
        let pn = parent.node_and_value_count();
        let pp = parent.predicate_count();
        let tn = pn + nn + nv;
        let tp = pp + np;
        let is_node = |o: u64| -> bool { if o as usize <= pn { parent.id_object_is_node(o) == Some(true) } else { (o as usize) <= pn + nn } };
        let mut add: BTreeSet<(u64, u64, u64)> = BTreeSet::new();
        for _ in 0..r.below(if tiny { 4 } else { 12 }) {
            let c = (1 + r.below(tn) as u64, 1 + r.below(tp) as u64, 1 + r.below(tn) as u64);
            if is_node(c.0) { add.insert(c); }
        }
        let mut rem: BTreeSet<(u64, u64, u64)> = BTreeSet::new();
        let d10 = r.below(7);
        for c in &cur { if r.chance(d10, 8) { rem.insert(*c); } }
        if r.chance(1, 3) { let c = (1 + r.below(tn) as u64, 1 + r.below(tp) as u64, 1 + r.below(tn) as u64); rem.insert(c); }
        for c in &rem { add.remove(c); }
        cx.ph(&t, format!("layer {}: {} new nodes, {} new predicates, {} new values, add {} remove {}", d, nn, np, nv, ids_of(&to(&add)), ids_of(&to(&rem))));
        if r.chance(1, 2) {
            for (s, p, o) in &add { ok!(cx, t, "add_triple", block(b.add_triple(*s, *p, *o))); }
            for (s, p, o) in &rem { ok!(cx, t, "remove_triple", block(b.remove_triple(*s, *p, *o))); }
        } else {
            ok!(cx, t, "add_id_triples", block(b.add_id_triples(to(&add).into_iter().collect())));
            ok!(cx, t, "remove_id_triples", block(b.remove_id_triples(to(&rem).into_iter().collect())));
        }
        ok!(cx, t, "finalize", block(b.finalize()));
        let l = Arc::new(ok!(cx, t, "load", block(ChildLayer::load_from_files([0, 0, 0, 0, d as u32 + 1], parent.clone(), &files))));
        let ea: BTreeSet<(u64, u64, u64)> = add.difference(&cur).cloned().collect();
        let er: BTreeSet<(u64, u64, u64)> = rem.intersection(&cur).cloned().collect();
        let ns: BTreeSet<(u64, u64, u64)> = cur.union(&ea).cloned().collect::<BTreeSet<_>>().difference(&er).cloned().collect();
        chk!(cx, ["A07"], "counts", l.node_and_value_count() == tn && l.predicate_count() == tp, "layer {}: {} nodes and values, {} predicates; expected {}, {}", d, l.node_and_value_count(), l.predicate_count(), tn, tp);
        layers.push((l, ns, ea, er));
    }
    let deep = layers.len() - 1;
    for (d, (l, s, a, m)) in layers.iter().enumerate() {
        if d != deep && d + 1 != deep { continue }
        let prefix = if d == 0 { vec!["A01"] } else { vec!["A01", "A03"] };
        full_audit(cx, l, &to(s), &to(a), &to(m), &prefix, &format!("layer {}", d));
    }
}
