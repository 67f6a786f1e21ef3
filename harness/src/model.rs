//! Reference model (sets of named triples) and the full audit of a layer.
use crate::ctx::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use tdb_succinct::{TdbDataType, TypedDictEntry};
use terminus_store::layer::*;
use terminus_store::storage::*;
use terminus_store::store::StoreLayer;

pub type VT = ValueTriple;
pub type TSet = BTreeSet<VT>;
pub type Name = [u32; 5];

pub const FAR: [u64; 4] = [1 << 33, 1 << 62, u64::MAX - 1, u64::MAX];

pub fn sval(s: &str) -> ObjectType { ObjectType::Value(String::make_entry(&s)) }
pub fn node(s: &str) -> ObjectType { ObjectType::Node(s.to_string()) }
pub fn ival(n: u32) -> ObjectType { ObjectType::Value(u32::make_entry(&n)) }
pub fn vt(s: &str, p: &str, o: ObjectType) -> VT { VT { subject: s.into(), predicate: p.into(), object: o } }
pub fn show(t: &VT) -> String {
    format!("{}-{}-{}", t.subject, t.predicate, match &t.object { ObjectType::Node(n) => format!("n:{}", n), ObjectType::Value(v) => format!("v:{:?}", v.as_val_str()) })
}
pub trait AsValStr { fn as_val_str(&self) -> String; }
impl AsValStr for TypedDictEntry { fn as_val_str(&self) -> String { format!("{:?}:{:?}", self.datatype(), self.to_bytes().to_vec()).chars().take(40).collect() } }
pub fn shows(t: &TSet) -> String { t.iter().map(show).collect::<Vec<_>>().join(" ") }

pub fn diff_msg(got: &TSet, exp: &TSet) -> String {
    let missing: TSet = exp.difference(got).cloned().collect();
    let extra: TSet = got.difference(exp).cloned().collect();
    format!("missing [{}] unexpected [{}]", shows(&missing), shows(&extra))
}

/// id -> name snapshot of a layer
#[derive(Clone, PartialEq, Debug)]
pub struct Ids { pub nv: Vec<ObjectType>, pub p: Vec<String> }

pub fn tids(v: &[IdTriple]) -> String { v.iter().map(|t| format!("({},{},{})", t.subject, t.predicate, t.object)).collect::<Vec<_>>().join(" ") }

fn ascending(v: &[IdTriple]) -> bool { v.windows(2).all(|w| w[0] < w[1]) }

/// A05: ids and names are inverse; returns the id -> name snapshot
pub fn audit_ids(cx: &mut Cx, l: &dyn Layer, what: &str) -> Ids {
    cx.ph(&["A05"], String::new());
    let n = l.node_and_value_count() as u64;
    let p = l.predicate_count() as u64;
    let t = ["A05"];
    let mut nv = vec![];
    let mut ps = vec![];
    let mut seen: HashMap<ObjectType, u64> = HashMap::new();
    for id in 1..=n {
        match l.id_object(id) {
            None => { chk!(cx, t, "ids.nv.none", false, "{}: node/value id {} of {} has no name", what, id, n); }
            Some(o) => {
                chk!(cx, t, "ids.nv.dup", seen.insert(o.clone(), id).is_none(), "{}: node/value {:?} has two ids", what, o);
                match &o {
                    ObjectType::Node(s) => {
                        chk!(cx, t, "ids.subject_id", l.subject_id(s) == Some(id), "{}: subject_id({:?}) = {:?}, expected {}", what, s, l.subject_id(s), id);
                        chk!(cx, t, "ids.object_node_id", l.object_node_id(s) == Some(id), "{}: object_node_id({:?}) = {:?}, expected {}", what, s, l.object_node_id(s), id);
                        chk!(cx, t, "ids.id_subject", l.id_subject(id).as_ref() == Some(s), "{}: id_subject({}) = {:?}, expected {:?}", what, id, l.id_subject(id), s);
                        chk!(cx, t, "ids.is_node", l.id_object_is_node(id) == Some(true) && l.id_object_is_value(id) == Some(false), "{}: id {} is node {:?} but is_node says {:?}", what, id, s, l.id_object_is_node(id));
                        chk!(cx, t, "ids.id_object_node", l.id_object_node(id).as_ref() == Some(s), "{}: id_object_node({})", what, id);
                    }
                    ObjectType::Value(v) => {
                        chk!(cx, t, "ids.object_value_id", l.object_value_id(v) == Some(id), "{}: object_value_id({:?}) = {:?}, expected {}", what, v, l.object_value_id(v), id);
                        chk!(cx, t, "ids.id_subject_value", l.id_subject(id).is_none(), "{}: id_subject({}) = {:?} for a value", what, id, l.id_subject(id));
                        chk!(cx, t, "ids.is_value", l.id_object_is_node(id) == Some(false) && l.id_object_is_value(id) == Some(true), "{}: id {} is a value but is_node says {:?}", what, id, l.id_object_is_node(id));
                        chk!(cx, t, "ids.id_object_value", l.id_object_value(id).as_ref() == Some(v), "{}: id_object_value({})", what, id);
                    }
                }
                nv.push(o);
            }
        }
    }
    let mut seenp: HashMap<String, u64> = HashMap::new();
    for id in 1..=p {
        match l.id_predicate(id) {
            None => { chk!(cx, t, "ids.p.none", false, "{}: predicate id {} of {} has no name", what, id, p); }
            Some(s) => {
                chk!(cx, t, "ids.p.dup", seenp.insert(s.clone(), id).is_none(), "{}: predicate {:?} has two ids", what, s);
                chk!(cx, t, "ids.predicate_id", l.predicate_id(&s) == Some(id), "{}: predicate_id({:?}) = {:?}, expected {}", what, s, l.predicate_id(&s), id);
                ps.push(s);
            }
        }
    }
    let mut out = vec![0, n + 1, n + 2, 2 * n + 7];
    out.extend(FAR);
    for id in out {
        chk!(cx, t, "ids.nv.out", l.id_object(id).is_none() && l.id_subject(id).is_none() && l.id_object_is_node(id).is_none(),
            "{}: id {} is out of range 1..={} but has a name: {:?} {:?} {:?}", what, id, n, l.id_object(id), l.id_subject(id), l.id_object_is_node(id));
    }
    let mut out = vec![0, p + 1, p + 2, 2 * p + 7];
    out.extend(FAR);
    for id in out {
        chk!(cx, t, "ids.p.out", l.id_predicate(id).is_none(), "{}: predicate id {} is out of range 1..={} but has name {:?}", what, id, p, l.id_predicate(id));
    }
    for probe in ["", "never", "zzz", "a ", "A", "\u{0}", "s", "n1", "p1", "p", "a", "b"] {
        if !seen.contains_key(&node(probe)) {
            chk!(cx, t, "ids.unknown_node", l.subject_id(probe).is_none() && l.object_node_id(probe).is_none(), "{}: unknown node {:?} has id {:?}", what, probe, l.subject_id(probe));
        }
        if !seen.contains_key(&sval(probe)) {
            chk!(cx, t, "ids.unknown_value", l.object_value_id(&String::make_entry(&probe)).is_none(), "{}: unknown value {:?} has an id", what, probe);
        }
        if !seenp.contains_key(probe) {
            chk!(cx, t, "ids.unknown_predicate", l.predicate_id(probe).is_none(), "{}: unknown predicate {:?} has id {:?}", what, probe, l.predicate_id(probe));
        }
    }
    Ids { nv, p: ps }
}

pub fn named(ids: &Ids, t: &IdTriple) -> Option<VT> {
    let s = match ids.nv.get((t.subject as usize).checked_sub(1)?)? { ObjectType::Node(s) => s.clone(), _ => return None };
    let p = ids.p.get((t.predicate as usize).checked_sub(1)?)?.clone();
    let o = ids.nv.get((t.object as usize).checked_sub(1)?)?.clone();
    Some(VT { subject: s, predicate: p, object: o })
}

/// the complete set of triples of a layer vs. the expected one (tags `content`), and
/// agreement of all query modes (A01), order (A02) and count (A07).
pub fn audit_layer(cx: &mut Cx, l: &dyn Layer, exp: &TSet, content: &[&str], what: &str) -> Ids {
    let ids = audit_ids(cx, l, what);
    cx.ph(&["A01", "A02", "A07"], String::new());
    let all: Vec<IdTriple> = l.triples().collect();
    chk!(cx, ["A02"], "triples.order", ascending(&all), "{}: triples() not strictly ascending: {}", what, tids(&all));
    let set: BTreeSet<IdTriple> = all.iter().cloned().collect();
    let mut got = TSet::new();
    for t in set.iter() {
        let v = named(&ids, t);
        chk!(cx, content, "content.named", v.is_some(), "{}: listed triple ({},{},{}) has no proper names", what, t.subject, t.predicate, t.object);
        chk!(cx, ["A05"], "id_triple_to_string", l.id_triple_to_string(t) == v, "{}: id_triple_to_string({:?})", what, t);
        if let Some(v) = v {
            chk!(cx, ["A05", "A01"], "value_triple_to_id", l.value_triple_to_id(&v) == Some(*t), "{}: value_triple_to_id({})", what, show(&v));
            got.insert(v);
        }
    }
    chk!(cx, content, "content", &got == exp, "{}: wrong triples: {}", what, diff_msg(&got, exp));
    if !(content.iter().any(|x| *x == "A01")) {
        // a layer that answers all() wrongly is a query failure too only if other modes disagree: below
    }
    chk!(cx, ["A07"], "triple_count", l.triple_count() == set.len(), "{}: triple_count() = {} but {} triples listed", what, l.triple_count(), set.len());
    audit_modes(cx, l, &set, what);
    // by value
    for t in exp.iter().take(12) {
        chk!(cx, content, "value_triple_exists", l.value_triple_exists(t), "{}: value_triple_exists({}) is false", what, show(t));
    }
    ids
}

pub fn audit_modes(cx: &mut Cx, l: &dyn Layer, set: &BTreeSet<IdTriple>, what: &str) {
    if !cx.wants(&["A01", "A02"]) { return }
    cx.ph(&["A01", "A02"], String::new());
    let n = l.node_and_value_count() as u64;
    let p = l.predicate_count() as u64;
    let t1 = ["A01"];
    let mut nids: Vec<u64> = (0..=n + 2).collect();
    nids.extend(FAR);
    let mut pids: Vec<u64> = (0..=p + 2).collect();
    pids.extend(FAR);
    for &s in &nids {
        let e: Vec<IdTriple> = set.iter().filter(|t| t.subject == s).cloned().collect();
        let g: Vec<IdTriple> = l.triples_s(s).collect();
        chk!(cx, t1, "triples_s", g == e, "{}: triples_s({}) = {} expected {}", what, s, tids(&g), tids(&e));
        for &pp in &pids {
            let e2: Vec<IdTriple> = e.iter().filter(|t| t.predicate == pp).cloned().collect();
            let g: Vec<IdTriple> = l.triples_sp(s, pp).collect();
            chk!(cx, t1, "triples_sp", g == e2, "{}: triples_sp({},{}) = {} expected {}", what, s, pp, tids(&g), tids(&e2));
            let g1 = l.single_triple_sp(s, pp);
            let okk = match g1 { None => e2.is_empty(), Some(t) => e2.contains(&t) };
            chk!(cx, t1, "single_triple_sp", okk, "{}: single_triple_sp({},{}) = {:?} expected one of {}", what, s, pp, g1, tids(&e2));
        }
    }
    for &pp in &pids {
        let e: Vec<IdTriple> = set.iter().filter(|t| t.predicate == pp).cloned().collect();
        let mut g: Vec<IdTriple> = l.triples_p(pp).collect();
        g.sort();
        chk!(cx, t1, "triples_p", g == e, "{}: triples_p({}) = {} expected {}", what, pp, tids(&g), tids(&e));
    }
    for &o in &nids {
        let e: Vec<IdTriple> = set.iter().filter(|t| t.object == o).cloned().collect();
        let mut g: Vec<IdTriple> = l.triples_o(o).collect();
        g.sort();
        chk!(cx, t1, "triples_o", g == e, "{}: triples_o({}) = {} expected {}", what, o, tids(&g), tids(&e));
    }
    let full = (n + 3) * (n + 3) * (p + 3) < 4000;
    let mut probes: Vec<IdTriple> = vec![];
    if full {
        for &s in &nids { for &pp in &pids { for &o in &nids { probes.push(IdTriple::new(s, pp, o)) } } }
    } else {
        for t in set.iter() {
            probes.push(*t);
            for d in [0u64, 1, 2] {
                probes.push(IdTriple::new(t.subject + d, t.predicate, t.object));
                probes.push(IdTriple::new(t.subject, t.predicate + d, t.object));
                probes.push(IdTriple::new(t.subject, t.predicate, t.object + d));
                probes.push(IdTriple::new(t.subject.saturating_sub(d), t.predicate, t.object));
                probes.push(IdTriple::new(t.subject, t.predicate.saturating_sub(d), t.object));
                probes.push(IdTriple::new(t.subject, t.predicate, t.object.saturating_sub(d)));
            }
        }
        for &f in FAR.iter().chain(&[0u64]) { probes.push(IdTriple::new(f, 1, 1)); probes.push(IdTriple::new(1, f, 1)); probes.push(IdTriple::new(1, 1, f)); }
    }
    for t in probes {
        let e = set.contains(&t);
        chk!(cx, t1, "triple_exists", l.triple_exists(t.subject, t.predicate, t.object) == e && l.id_triple_exists(t) == e, "{}: triple_exists({},{},{}) = {} expected {}", what, t.subject, t.predicate, t.object, !e, e);
    }
}

pub enum Delta<'a> { Ls(&'a Arc<dyn LayerStore>, Name), Sl(&'a StoreLayer), Il(&'a InternalLayer) }
type R<T> = std::io::Result<T>;
impl<'a> Delta<'a> {
    async fn all(&self, add: bool) -> R<Vec<IdTriple>> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_additions(*n).await?.collect(),
            (Delta::Ls(l, n), false) => l.triple_removals(*n).await?.collect(),
            (Delta::Sl(l), true) => l.triple_additions().await?.collect(),
            (Delta::Sl(l), false) => l.triple_removals().await?.collect(),
            (Delta::Il(l), true) => l.internal_triple_additions().collect(),
            (Delta::Il(l), false) => l.internal_triple_removals().collect(),
        })
    }
    async fn s(&self, add: bool, s: u64) -> R<Vec<IdTriple>> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_additions_s(*n, s).await?.collect(),
            (Delta::Ls(l, n), false) => l.triple_removals_s(*n, s).await?.collect(),
            (Delta::Sl(l), true) => l.triple_additions_s(s).await?.collect(),
            (Delta::Sl(l), false) => l.triple_removals_s(s).await?.collect(),
            (Delta::Il(l), true) => l.internal_triple_additions_s(s).collect(),
            (Delta::Il(l), false) => l.internal_triple_removals_s(s).collect(),
        })
    }
    async fn sp(&self, add: bool, s: u64, p: u64) -> R<Vec<IdTriple>> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_additions_sp(*n, s, p).await?.collect(),
            (Delta::Ls(l, n), false) => l.triple_removals_sp(*n, s, p).await?.collect(),
            (Delta::Sl(l), true) => l.triple_additions_sp(s, p).await?.collect(),
            (Delta::Sl(l), false) => l.triple_removals_sp(s, p).await?.collect(),
            (Delta::Il(l), true) => l.internal_triple_additions_sp(s, p).collect(),
            (Delta::Il(l), false) => l.internal_triple_removals_sp(s, p).collect(),
        })
    }
    async fn p(&self, add: bool, p: u64) -> R<Vec<IdTriple>> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_additions_p(*n, p).await?.collect(),
            (Delta::Ls(l, n), false) => l.triple_removals_p(*n, p).await?.collect(),
            (Delta::Sl(l), true) => l.triple_additions_p(p).await?.collect(),
            (Delta::Sl(l), false) => l.triple_removals_p(p).await?.collect(),
            (Delta::Il(l), true) => l.internal_triple_additions_p(p).collect(),
            (Delta::Il(l), false) => l.internal_triple_removals_p(p).collect(),
        })
    }
    async fn o(&self, add: bool, o: u64) -> R<Vec<IdTriple>> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_additions_o(*n, o).await?.collect(),
            (Delta::Ls(l, n), false) => l.triple_removals_o(*n, o).await?.collect(),
            (Delta::Sl(l), true) => l.triple_additions_o(o).await?.collect(),
            (Delta::Sl(l), false) => l.triple_removals_o(o).await?.collect(),
            (Delta::Il(l), true) => l.internal_triple_additions_o(o).collect(),
            (Delta::Il(l), false) => l.internal_triple_removals_o(o).collect(),
        })
    }
    async fn count(&self, add: bool) -> R<usize> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_layer_addition_count(*n).await?,
            (Delta::Ls(l, n), false) => l.triple_layer_removal_count(*n).await?,
            (Delta::Sl(l), true) => l.triple_layer_addition_count().await?,
            (Delta::Sl(l), false) => l.triple_layer_removal_count().await?,
            (Delta::Il(l), true) => l.internal_triple_layer_addition_count(),
            (Delta::Il(l), false) => l.internal_triple_layer_removal_count(),
        })
    }
    async fn exists(&self, add: bool, s: u64, p: u64, o: u64) -> R<bool> {
        Ok(match (self, add) {
            (Delta::Ls(l, n), true) => l.triple_addition_exists(*n, s, p, o).await?,
            (Delta::Ls(l, n), false) => l.triple_removal_exists(*n, s, p, o).await?,
            (Delta::Sl(l), true) => l.triple_addition_exists(s, p, o).await?,
            (Delta::Sl(l), false) => l.triple_removal_exists(s, p, o).await?,
            (Delta::Il(l), true) => l.internal_triple_addition_exists(s, p, o),
            (Delta::Il(l), false) => l.internal_triple_removal_exists(s, p, o),
        })
    }
}

/// the recorded change of a layer: contents (tags `content`), agreement of all modes (A04), order (A02), counts (A07)
pub async fn audit_delta(cx: &mut Cx, d: &Delta<'_>, ids: &Ids, exp_add: &TSet, exp_rem: &TSet, content: &[&str], what: &str) {
    cx.ph(&["A04"], String::new());
    let n = ids.nv.len() as u64;
    let p = ids.p.len() as u64;
    let mut t4: Vec<&str> = content.to_vec();
    if !t4.contains(&"A04") { t4.push("A04"); }
    for add in [true, false] {
        let kind = if add { "additions" } else { "removals" };
        let exp = if add { exp_add } else { exp_rem };
        let all = ok!(cx, content, "delta.all", d.all(add).await);
        chk!(cx, ["A02"], "delta.order", ascending(&all), "{}: {} not strictly ascending: {}", what, kind, tids(&all));
        let set: BTreeSet<IdTriple> = all.iter().cloned().collect();
        let mut got = TSet::new();
        for t in &set {
            let v = named(ids, t);
            chk!(cx, content, "delta.named", v.is_some(), "{}: {} list ({},{},{}) which has no proper names", what, kind, t.subject, t.predicate, t.object);
            if let Some(v) = v { got.insert(v); }
        }
        chk!(cx, content, "delta.content", &got == exp, "{}: wrong {}: {}", what, kind, diff_msg(&got, exp));
        let c = ok!(cx, t4, "delta.count", d.count(add).await);
        chk!(cx, ["A04", "A07"], "delta.count", c == set.len(), "{}: {} count {} but {} listed", what, kind, c, set.len());
        if !cx.wants(&t4) { continue }
        let mut nids: Vec<u64> = (0..=n + 2).collect();
        nids.extend(FAR);
        let mut pids: Vec<u64> = (0..=p + 2).collect();
        pids.extend(FAR);
        if cx.lite {
            let near: BTreeSet<u64> = set.iter().take(6).flat_map(|t| [t.subject, t.object, t.object + 1]).chain([0, n + 1]).collect();
            nids = near.into_iter().collect();
            let near: BTreeSet<u64> = set.iter().take(6).map(|t| t.predicate).chain([0, p + 1]).collect();
            pids = near.into_iter().collect();
        }
        for &s in &nids {
            let e: Vec<IdTriple> = set.iter().filter(|t| t.subject == s).cloned().collect();
            let g = ok!(cx, t4, "delta.s", d.s(add, s).await);
            chk!(cx, t4, "delta.s", g == e, "{}: {}_s({}) = {} expected {}", what, kind, s, tids(&g), tids(&e));
            for &pp in &pids {
                if e.is_empty() && (s > 2 && s < n || pp != 1) { continue }
                let e2: Vec<IdTriple> = e.iter().filter(|t| t.predicate == pp).cloned().collect();
                let g = ok!(cx, t4, "delta.sp", d.sp(add, s, pp).await);
                chk!(cx, t4, "delta.sp", g == e2, "{}: {}_sp({},{}) = {} expected {}", what, kind, s, pp, tids(&g), tids(&e2));
            }
        }
        for &pp in &pids {
            let e: Vec<IdTriple> = set.iter().filter(|t| t.predicate == pp).cloned().collect();
            let mut g = ok!(cx, t4, "delta.p", d.p(add, pp).await);
            g.sort();
            chk!(cx, t4, "delta.p", g == e, "{}: {}_p({}) = {} expected {}", what, kind, pp, tids(&g), tids(&e));
        }
        for &o in &nids {
            let e: Vec<IdTriple> = set.iter().filter(|t| t.object == o).cloned().collect();
            let mut g = ok!(cx, t4, "delta.o", d.o(add, o).await);
            g.sort();
            chk!(cx, t4, "delta.o", g == e, "{}: {}_o({}) = {} expected {}", what, kind, o, tids(&g), tids(&e));
        }
        let mut probes: BTreeSet<(u64, u64, u64)> = BTreeSet::new();
        for t in set.iter().take(10) {
            probes.insert((t.subject, t.predicate, t.object));
            probes.insert((t.subject + 1, t.predicate, t.object));
            probes.insert((t.subject, t.predicate + 1, t.object));
            probes.insert((t.subject, t.predicate, t.object + 1));
            probes.insert((t.subject - 1, t.predicate, t.object));
            probes.insert((t.subject, t.predicate - 1, t.object));
            probes.insert((t.subject, t.predicate, t.object - 1));
        }
        for f in FAR { probes.insert((f, 1, 1)); probes.insert((1, f, 1)); probes.insert((1, 1, f)); }
        for (s, pp, o) in probes {
            let g = ok!(cx, t4, "delta.exists", d.exists(add, s, pp, o).await);
            chk!(cx, t4, "delta.exists", g == set.contains(&IdTriple::new(s, pp, o)), "{}: {} exists({},{},{}) = {}", what, kind, s, pp, o, g);
        }
    }
}

/// names used by a set of triples
pub fn used(t: &TSet) -> (BTreeSet<ObjectType>, BTreeSet<String>) {
    let mut nv = BTreeSet::new();
    let mut p = BTreeSet::new();
    for x in t {
        nv.insert(node(&x.subject));
        nv.insert(x.object.clone());
        p.insert(x.predicate.clone());
    }
    (nv, p)
}

pub fn changes(v: Vec<(TripleChange, IdTriple)>) -> BTreeMap<IdTriple, TripleChange> { v.into_iter().map(|(c, t)| (t, c)).collect() }
