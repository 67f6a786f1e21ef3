//! Random histories of commits, rollups, squashes, merges, imports, reopenings on every
//! storage kind, audited against the set model through cached, uncached and Store handles.
use crate::ctx::*;
use crate::model::*;
use crate::util::*;
use crate::Fam;
use std::collections::BTreeSet;
use std::sync::Arc;
use terminus_store::layer::*;
use terminus_store::storage::archive::*;
use terminus_store::storage::directory::*;
use terminus_store::storage::memory::*;
use terminus_store::storage::*;
use terminus_store::store::{Store, StoreLayer, StoreLayerBuilder};

pub const FAM: Fam = Fam { name: "history", run: run_big, quick: 600, thorough: 60000,
    bound: "random histories of 6-16 operations over 6 node names, 3 predicates, 5 values, stacks up to 9 layers, on memory/directory/archive/raw-archive stores" };
pub const FAM_SMALL: Fam = Fam { name: "history_small", run: run_small, quick: 1500, thorough: 120000,
    bound: "random histories of 2-6 operations over 3 node names, 2 predicates, 2 values, on memory/directory/archive/raw-archive stores" };
pub const FAM_MERGE: Fam = Fam { name: "merge", run: run_merge, quick: 400, thorough: 30000,
    bound: "1-5 base layers of up to 30 random triples over 12 node names, 5 predicates, 10 values merged, plus child layers and missing layers in the list" };
pub const FAM_STORE: Fam = Fam { name: "store", run: run_store, quick: 400, thorough: 30000,
    bound: "random histories of 3-8 operations driven through Store/StoreLayer on the four store constructors" };

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Mem, Dir, Arch, ArchTiny, Raw }
pub const KINDS: [Kind; 5] = [Kind::Mem, Kind::Dir, Kind::Arch, Kind::ArchTiny, Kind::Raw];

pub struct World {
    pub kind: Kind,
    pub mem: MemoryLayerStore,
    pub dir: Scratch,
    pub cached: Arc<dyn LayerStore>,
    pub cache: Arc<CachedLayerStore>,
    pub raw: Arc<dyn LayerStore>,
    pub store: Store,
}

fn mk_raw(kind: Kind, mem: &MemoryLayerStore, dir: &Scratch) -> Arc<dyn LayerStore> {
    match kind {
        Kind::Mem => Arc::new(mem.clone()),
        Kind::Dir => Arc::new(DirectoryLayerStore::new(&dir.0)),
        Kind::Arch | Kind::ArchTiny => {
            let b = DirectoryArchiveBackend::new(dir.0.clone());
            let l = LruArchiveBackend::new(b.clone(), b, if kind == Kind::Arch { 8 } else { 0 });
            Arc::new(ArchiveLayerStore::new(l.clone(), l))
        }
        Kind::Raw => { let b = DirectoryArchiveBackend::new(dir.0.clone()); Arc::new(ArchiveLayerStore::new(b.clone(), b)) }
    }
}
fn mk_cached(kind: Kind, mem: &MemoryLayerStore, dir: &Scratch) -> Arc<CachedLayerStore> {
    let c = LockingHashMapLayerCache::new();
    Arc::new(match kind {
        Kind::Mem => CachedLayerStore::new(mem.clone(), c),
        Kind::Dir => CachedLayerStore::new(DirectoryLayerStore::new(&dir.0), c),
        Kind::Arch | Kind::ArchTiny => {
            let b = DirectoryArchiveBackend::new(dir.0.clone());
            let l = LruArchiveBackend::new(b.clone(), b, if kind == Kind::Arch { 8 } else { 0 });
            CachedLayerStore::new(ArchiveLayerStore::new(l.clone(), l), c)
        }
        Kind::Raw => { let b = DirectoryArchiveBackend::new(dir.0.clone()); CachedLayerStore::new(ArchiveLayerStore::new(b.clone(), b), c) }
    })
}
pub fn mk_store(kind: Kind, mem: &MemoryLayerStore, dir: &Scratch) -> Store {
    match kind {
        Kind::Mem => Store::new(MemoryLabelStore::new(), CachedLayerStore::new(mem.clone(), LockingHashMapLayerCache::new())),
        Kind::Dir => terminus_store::open_directory_store(&dir.0),
        Kind::Arch => terminus_store::open_archive_store(&dir.0, 8),
        Kind::ArchTiny => terminus_store::open_archive_store(&dir.0, 0),
        Kind::Raw => terminus_store::store::open_raw_archive_store(&dir.0),
    }
}
impl World {
    pub fn new(kind: Kind) -> World {
        let mem = MemoryLayerStore::new();
        let dir = scratch();
        let cache = mk_cached(kind, &mem, &dir);
        World { kind, cached: cache.clone(), raw: mk_raw(kind, &mem, &dir), store: mk_store(kind, &mem, &dir), cache, mem, dir }
    }
    pub fn reopen(&mut self) {
        self.cache = mk_cached(self.kind, &self.mem, &self.dir);
        self.cached = self.cache.clone();
        self.raw = mk_raw(self.kind, &self.mem, &self.dir);
        self.store = mk_store(self.kind, &self.mem, &self.dir);
    }
}

pub struct ML {
    pub name: Name,
    pub parent: Option<usize>,
    pub triples: TSet,
    pub origin: &'static [&'static str],
    pub rolled: bool,
    pub reopened: bool,
    pub ids: Option<Ids>,
}

pub struct H<'a> {
    pub cx: &'a mut Cx,
    pub r: Rng,
    pub w: World,
    pub ls: Vec<ML>,
    pub rollups: BTreeSet<Name>,
    pub held: Vec<(usize, Arc<InternalLayer>)>,
    pub nodes: Vec<String>,
    pub preds: Vec<String>,
    pub vals: Vec<ObjectType>,
}

impl<'a> H<'a> {
    pub fn new(cx: &'a mut Cx, r: Rng, kind: Kind, nn: usize, np: usize, nv: usize) -> H<'a> {
        let nodes: Vec<String> = ["a", "b", "n1", "aa", "é", "long node name with some text in it", "zz", "b0", "ab", "a\u{1}", "q", "r"].iter().take(nn).map(|s| s.to_string()).collect();
        let preds: Vec<String> = ["p", "a", "p2", "rdf:type", "zz"].iter().take(np).map(|s| s.to_string()).collect();
        let vals: Vec<ObjectType> = vec![sval("a"), ival(7), sval("b"), sval("a longer string value to be stored"), ival(0), sval("zz"), ival(4000000000), sval("é"), sval("aa"), ival(8)].into_iter().take(nv).collect();
        H { cx, r, w: World::new(kind), ls: vec![], rollups: BTreeSet::new(), held: vec![], nodes, preds, vals }
    }
    pub fn rt(&mut self) -> VT {
        let s = self.r.pick(&self.nodes).clone();
        let p = self.r.pick(&self.preds).clone();
        let o = if self.r.chance(1, 2) { node(&self.r.pick(&self.nodes).clone()) } else { self.r.pick(&self.vals).clone() };
        VT { subject: s, predicate: p, object: o }
    }
    pub fn handle(&mut self) -> (Arc<dyn LayerStore>, &'static str) {
        if self.r.chance(1, 2) { (self.w.cached.clone(), "cached") } else { (self.w.raw.clone(), "uncached") }
    }
    pub fn chain(&self, mut i: usize) -> Vec<usize> {
        let mut v = vec![i];
        while let Some(p) = self.ls[i].parent { v.push(p); i = p; }
        v.reverse();
        v
    }
    pub fn tags(&self, i: usize) -> Vec<&'static str> {
        let mut t: Vec<&'static str> = if self.chain(i).iter().any(|&j| self.ls[j].rolled) { vec!["A08"] } else { self.ls[i].origin.to_vec() };
        if self.ls[i].reopened { t.push("A19"); }
        t
    }
    fn expected_delta(&self, i: usize) -> (TSet, TSet) {
        match self.ls[i].parent {
            None => (self.ls[i].triples.clone(), TSet::new()),
            Some(p) => (self.ls[i].triples.difference(&self.ls[p].triples).cloned().collect(), self.ls[p].triples.difference(&self.ls[i].triples).cloned().collect()),
        }
    }
    fn d(&self, i: usize) -> String { format!("L{}", i) }

    /// commit a builder on `parent` with random requests
    pub async fn op_commit(&mut self, parent: Option<usize>) {
        let (ls, hn) = self.handle();
        let pset = parent.map(|p| self.ls[p].triples.clone()).unwrap_or_default();
        self.cx.ph(&["A03"], String::new());
        let mut b = match parent {
            None => ok!(self.cx, ["A03"], "commit.create", ls.create_base_layer().await),
            Some(p) => ok!(self.cx, ["A03"], "commit.create", ls.create_child_layer(self.ls[p].name).await),
        };
        let name = b.name();
        let mut adds = TSet::new();
        let mut rems = TSet::new();
        let mut desc = vec![];
        let n = 1 + self.r.below(7);
        let pl = parent.map(|_| b.parent().unwrap());
        let mut reqs: Vec<(bool, VT)> = vec![];
        for _ in 0..n {
            let existing: Vec<VT> = pset.iter().cloned().collect();
            let t = if !existing.is_empty() && self.r.chance(2, 5) { self.r.pick(&existing).clone() } else { self.rt() };
            let add = if pset.contains(&t) { self.r.chance(1, 4) } else { self.r.chance(4, 5) };
            reqs.push((add, t.clone()));
            if self.r.chance(1, 8) { reqs.push((!add, t.clone())); }
            if self.r.chance(1, 10) { reqs.push((add, t)); }
        }
        if self.r.chance(1, 8) && parent.is_some() { reqs = vec![]; }
        if self.r.chance(1, 5) && parent.is_some() { reqs = pset.iter().filter(|_| self.r.chance(2, 3)).map(|t| (false, t.clone())).collect(); }
        if self.r.chance(1, 6) && parent.is_some() {
            // mostly removals, many of triples that use names the parent does not know
            reqs.retain(|(a, t)| !*a || pset.contains(t));
            for _ in 0..1 + self.r.below(3) {
                let mut t = if pset.is_empty() { self.rt() } else { let e: Vec<VT> = pset.iter().cloned().collect(); self.r.pick(&e).clone() };
                if self.r.chance(1, 3) { t.subject = ["zzz unknown", "0", "m"][self.r.below(3)].to_string(); }
                if self.r.chance(1, 2) { t.predicate = ["zzz unknown", "0", "pp"][self.r.below(3)].to_string(); }
                if self.r.chance(1, 3) { t.object = if self.r.chance(1, 2) { node("zzz unknown") } else { sval("zzz unknown") }; }
                reqs.push((false, t));
            }
        }
        self.r.shuffle(&mut reqs);
        for (add, t) in reqs {
            let byid = match &pl {
                Some(l) if self.r.chance(1, 3) => l.value_triple_to_id(&t),
                _ => None,
            };
            desc.push(format!("{}{}{}", if add { "+" } else { "-" }, show(&t), if byid.is_some() { "#" } else { "" }));
            match (add, byid) {
                (true, None) => b.add_value_triple(t.clone()),
                (true, Some(i)) => b.add_id_triple(i),
                (false, None) => b.remove_value_triple(t.clone()),
                (false, Some(i)) => b.remove_id_triple(i),
            }
            if add { adds.insert(t); } else { rems.insert(t); }
        }
        drop(pl);
        self.cx.ph(&["A03"], format!("L{} = commit on {:?} via {}: {}", self.ls.len(), parent, hn, desc.join(" ")));
        ok!(self.cx, ["A03"], "commit", b.commit_boxed().await);
        ok!(self.cx, ["A03"], "finalize", ls.finalize_layer(name).await);
        let both: TSet = adds.intersection(&rems).cloned().collect();
        let mut res = pset.clone();
        for t in &adds { if !both.contains(t) { res.insert(t.clone()); } }
        for t in &rems { if !both.contains(t) { res.remove(t); } }
        self.push(name, parent, res, &["A03"]);
        let i = self.ls.len() - 1;
        self.audit(i, false).await;
        // only additions that were not taken back introduce names
        let eff: TSet = adds.difference(&both).cloned().collect();
        let (un, up) = used(&eff);
        let ids = self.ls[i].ids.clone().unwrap();
        let (pn, pp) = match parent { None => (0, 0), Some(p) => { let x = self.ls[p].ids.as_ref().unwrap(); (x.nv.len(), x.p.len()) } };
        for n in ids.nv.iter().skip(pn) { chk!(self.cx, ["A03"], "commit.names", un.contains(n), "L{} introduces {:?}, which no effective addition uses", i, n); }
        for n in ids.p.iter().skip(pp) { chk!(self.cx, ["A03"], "commit.names", up.contains(n), "L{} introduces predicate {:?}, which no effective addition uses", i, n); }
    }
    pub fn push(&mut self, name: Name, parent: Option<usize>, triples: TSet, origin: &'static [&'static str]) -> usize {
        self.ls.push(ML { name, parent, triples, origin, rolled: false, reopened: false, ids: None });
        self.ls.len() - 1
    }
    pub async fn get(&mut self, i: usize, ls: &Arc<dyn LayerStore>) -> Arc<InternalLayer> {
        let mut tags = self.tags(i);
        tags.push("A20");
        let t2: Vec<&str> = tags.clone();
        self.cx.ph(&t2, String::new());
        let o = ok!(self.cx, tags, "get_layer", ls.get_layer(self.ls[i].name).await);
        chk!(self.cx, tags, "get_layer.none", o.is_some(), "committed layer L{} not found", i);
        o.unwrap()
    }
    pub async fn op_rollup(&mut self) {
        let i = self.r.below(self.ls.len());
        let (ls, hn) = self.handle();
        let l = self.get(i, &ls).await;
        let chain = self.chain(i);
        let which = self.r.below(3);
        let before = l.is_rollup();
        let res;
        if which == 0 || chain.len() < 2 {
            self.cx.ph(&["A08"], format!("rollup(L{}) via {}", i, hn));
            res = ls.clone().rollup(l).await;
        } else {
            let u = chain[self.r.below(chain.len() - 1)];
            let un = self.ls[u].name;
            if which == 1 {
                self.cx.ph(&["A08"], format!("rollup_upto(L{}, L{}) via {}", i, u, hn));
                res = ls.rollup_upto(l, un).await;
            } else {
                self.cx.ph(&["A08"], format!("imprecise_rollup_upto(L{}, L{}) via {}", i, u, hn));
                res = ls.imprecise_rollup_upto(l, un).await;
            }
        }
        let _ = before;
        let n = ok!(self.cx, ["A08"], "rollup.err", res);
        self.rollups.insert(n);
        self.ls[i].rolled = true;
        if hn == "cached" {
            // a rollup registered through the cached store is honoured for later loads
            let l = self.get(i, &ls).await;
            if n != self.ls[i].name {
                chk!(self.cx, ["A20"], "rollup.honoured", l.is_rollup(), "L{} loaded after its rollup was registered is not the rollup", i);
            }
            if which == 0 && self.ls[i].parent.is_some() {
                chk!(self.cx, ["A20"], "rollup.full.depth", l.immediate_parent().is_none() , "L{} loaded after a full rollup still has {} layers loaded", i, l.layer_stack_size());
            }
        }
        self.audit(i, false).await;
    }
    pub async fn op_squash(&mut self) {
        let i = self.r.below(self.ls.len());
        let (ls, hn) = self.handle();
        let l = self.get(i, &ls).await;
        let chain = self.chain(i);
        if self.r.chance(1, 2) || chain.len() < 2 {
            self.cx.ph(&["A09"], format!("L{} = squash(L{}) via {}", self.ls.len(), i, hn));
            let n = ok!(self.cx, ["A09"], "squash.err", ls.squash(l).await);
            let t = self.ls[i].triples.clone();
            let k = self.push(n, None, t, &["A09"]);
            self.audit(k, true).await;
        } else {
            let u = chain[self.r.below(chain.len() - 1)];
            self.cx.ph(&["A09"], format!("L{} = squash_upto(L{}, L{}) via {}", self.ls.len(), i, u, hn));
            let n = ok!(self.cx, ["A09"], "squash_upto.err", ls.squash_upto(l, self.ls[u].name).await);
            let t = self.ls[i].triples.clone();
            let k = self.push(n, Some(u), t, &["A09"]);
            self.audit(k, true).await;
        }
    }
    pub async fn op_merge(&mut self) {
        let k = self.r.below(4);
        let mut v = vec![];
        let bases: Vec<usize> = (0..self.ls.len()).filter(|&i| self.ls[i].parent.is_none()).collect();
        let childs: Vec<usize> = (0..self.ls.len()).filter(|&i| self.ls[i].parent.is_some()).collect();
        for _ in 0..k { v.push(*self.r.pick(&bases)); }
        let bad = !childs.is_empty() && self.r.chance(1, 6);
        if bad { let at = self.r.below(v.len() + 1); let c = *self.r.pick(&childs); v.insert(at, c); }
        let (ls, hn) = self.handle();
        self.merge_these(v, bad, ls, hn).await;
    }
    pub async fn merge_these(&mut self, v: Vec<usize>, bad: bool, ls: Arc<dyn LayerStore>, hn: &str) {
        let names: Vec<Name> = v.iter().map(|&i| self.ls[i].name).collect();
        self.cx.ph(&["A10"], format!("L{} = merge_base_layer({:?}) via {}", self.ls.len(), v, hn));
        let tmp = scratch();
        let res = ls.merge_base_layer(&names, &tmp.0).await;
        if bad {
            chk!(self.cx, ["A10"], "merge.nonbase", res.is_err(), "merging {:?}, which contains a non-base layer, was accepted", v);
            return;
        }
        let n = ok!(self.cx, ["A10"], "merge.err", res);
        let mut t = TSet::new();
        let mut nv = BTreeSet::new();
        let mut ps = BTreeSet::new();
        for &i in &v {
            t.extend(self.ls[i].triples.iter().cloned());
            if let Some(ids) = &self.ls[i].ids { nv.extend(ids.nv.iter().cloned()); ps.extend(ids.p.iter().cloned()); }
        }
        let k = self.push(n, None, t, &["A10"]);
        self.audit(k, false).await;
        let ids = self.ls[k].ids.clone().unwrap();
        let gn: BTreeSet<ObjectType> = ids.nv.iter().cloned().collect();
        let gp: BTreeSet<String> = ids.p.iter().cloned().collect();
        chk!(self.cx, ["A10"], "merge.names", gn == nv && gp == ps, "merge of {:?} has names {:?} {:?}, expected {:?} {:?}", v, gn, gp, nv, ps);
    }

    /// audit one layer through one random handle (or all of them)
    pub async fn audit(&mut self, i: usize, squash: bool) {
        let (ls, hn) = self.handle();
        self.audit_with(i, &ls, hn, false).await;
        if squash {
            let ids = self.ls[i].ids.clone().unwrap();
            let (un, up) = match self.ls[i].parent { None => used(&self.ls[i].triples), Some(_) => used(&self.expected_delta(i).0) };
            let (pn, pp) = match self.ls[i].parent { None => (0, 0), Some(p) => { let x = self.ls[p].ids.as_ref().unwrap(); (x.nv.len(), x.p.len()) } };
            for n in &ids.nv[pn.min(ids.nv.len())..] { chk!(self.cx, ["A09"], "squash.unused", un.contains(n), "squashed layer L{} carries unused name {:?}", i, n); }
            for n in &ids.p[pp.min(ids.p.len())..] { chk!(self.cx, ["A09"], "squash.unused", up.contains(n), "squashed layer L{} carries unused predicate {:?}", i, n); }
        }
        if self.r.chance(1, 2) {
            let l = self.get(i, &ls).await;
            self.held.push((i, l));
        }
    }
    pub async fn audit_with(&mut self, i: usize, ls: &Arc<dyn LayerStore>, hn: &str, deep: bool) {
        let what = format!("{} via {}", self.d(i), hn);
        let l = self.get(i, ls).await;
        let exp = self.ls[i].triples.clone();
        let mut tags = self.tags(i);
        if deep && hn == "cached" { tags.push("A20"); }
        chk!(self.cx, tags, "name", l.name() == self.ls[i].name, "{}: reports a wrong name", what);
        let ids = audit_layer(self.cx, &*l, &exp, &tags, &what);
        self.check_ids(i, &ids, &what);
        let pn = self.ls[i].parent.map(|p| self.ls[p].name);
        let t12 = if self.chain(i).iter().any(|&j| self.ls[j].rolled) { ["A12", "A08"] } else { ["A12", self.ls[i].origin[0]] };
        chk!(self.cx, t12, "parent_name", l.parent_name() == pn, "{}: parent_name() is wrong", what);
        self.cx.ph(&["A12"], String::new());
        let g = ok!(self.cx, ["A12"], "get_layer_parent_name", ls.get_layer_parent_name(self.ls[i].name).await);
        chk!(self.cx, ["A12", "A20"], "get_layer_parent_name", g == pn, "{}: get_layer_parent_name is wrong", what);
        // recorded change
        let (ea, er) = self.expected_delta(i);
        let mut t4: Vec<&str> = if self.ls[i].origin[0] == "A09" && !self.ls[i].rolled { vec!["A04", "A09"] } else if self.ls[i].rolled { vec!["A04", "A08"] } else { vec!["A04"] };
        if deep && hn == "cached" { t4.push("A20"); }
        let n = self.ls[i].name;
        self.cx.lite = if deep { hn != "cached" } else { self.r.chance(5, 6) };
        audit_delta(self.cx, &Delta::Ls(ls, n), &ids, &ea, &er, &t4, &what).await;
        if !l.is_rollup() {
            audit_delta(self.cx, &Delta::Il(&l), &ids, &ea, &er, &["A04"], &format!("{} (internal)", what)).await;
        }
        self.cx.lite = false;
        // per layer counts
        self.cx.ph(&["A07"], String::new());
        if let Some(p) = self.ls[i].parent {
            if self.ls[p].ids.is_none() { Box::pin(self.audit_with(p, ls, hn, false)).await; }
        }
        let (pn, pp) = match self.ls[i].parent { None => (0, 0), Some(p) => { let x = self.ls[p].ids.as_ref().unwrap(); (x.nv.len(), x.p.len()) } };
        let own = &ids.nv[pn.min(ids.nv.len())..];
        let en = own.iter().filter(|o| matches!(o, ObjectType::Node(_))).count() as u64;
        let ev = own.len() as u64 - en;
        let ep = (ids.p.len() - pp.min(ids.p.len())) as u64;
        let tc = ["A07", "A20"];
        let gn = ok!(self.cx, tc, "get_node_count", ls.get_node_count(n).await);
        let gv = ok!(self.cx, tc, "get_value_count", ls.get_value_count(n).await);
        let gp = ok!(self.cx, tc, "get_predicate_count", ls.get_predicate_count(n).await);
        chk!(self.cx, tc, "get_node_count", gn == Some(en), "{}: get_node_count = {:?}, introduced {}", what, gn, en);
        chk!(self.cx, tc, "get_value_count", gv == Some(ev), "{}: get_value_count = {:?}, introduced {}", what, gv, ev);
        chk!(self.cx, tc, "get_predicate_count", gp == Some(ep), "{}: get_predicate_count = {:?}, introduced {}", what, gp, ep);
        let c = l.all_counts();
        let nn = ids.nv.iter().filter(|o| matches!(o, ObjectType::Node(_))).count();
        chk!(self.cx, ["A07"], "all_counts", c.node_count == nn && c.value_count == ids.nv.len() - nn && c.predicate_count == ids.p.len(), "{}: all_counts = {} {} {} expected {} {} {}", what, c.node_count, c.predicate_count, c.value_count, nn, ids.p.len(), ids.nv.len() - nn);
        let mut ea: BTreeSet<ObjectType> = BTreeSet::new();
        // names used by the triples must be known
        let (un, up) = used(&exp);
        for o in ids.nv.iter() { ea.insert(o.clone()); }
        chk!(self.cx, ["A05", "A07"], "names.used", un.is_subset(&ea) && up.iter().all(|p| ids.p.contains(p)), "{}: a used name has no id", what);
        let dn = ok!(self.cx, tc, "get_node_dictionary", ls.get_node_dictionary(n).await).map(|d| d.num_entries() as u64);
        let dv = ok!(self.cx, tc, "get_value_dictionary", ls.get_value_dictionary(n).await).map(|d| d.num_entries() as u64);
        let dp = ok!(self.cx, tc, "get_predicate_dictionary", ls.get_predicate_dictionary(n).await).map(|d| d.num_entries() as u64);
        if !l.is_rollup() {
            chk!(self.cx, tc, "dictionaries", dn == Some(en) && dv == Some(ev) && dp == Some(ep), "{}: own dictionaries have sizes {:?} {:?} {:?}, introduced {} {} {}", what, dn, dv, dp, en, ev, ep);
        }
    }
    fn check_ids(&mut self, i: usize, ids: &Ids, what: &str) {
        let rolled = self.chain(i).iter().any(|&j| self.ls[j].rolled);
        let t: &[&str] = if rolled { &["A06", "A08"] } else { &["A06"] };
        if let Some(old) = &self.ls[i].ids {
            chk!(self.cx, t, "ids.changed", old == ids, "{}: ids changed: {:?} -> {:?}", what, old, ids);
        } else {
            self.ls[i].ids = Some(ids.clone());
        }
        if let Some(p) = self.ls[i].parent {
            if let Some(pi) = &self.ls[p].ids {
                let okk = ids.nv.len() >= pi.nv.len() && ids.p.len() >= pi.p.len() && ids.nv[..pi.nv.len()] == pi.nv[..] && ids.p[..pi.p.len()] == pi.p[..];
                chk!(self.cx, t, "ids.prefix", okk, "{}: ids of parent L{} changed meaning: {:?} -> {:?}", what, p, pi, ids);
            }
        }
    }
    /// ancestry of every layer and every pair (A12)
    pub async fn audit_ancestry(&mut self) {
        for which in 0..2 {
            let (ls, hn) = if which == 0 { (self.w.cached.clone(), "cached") } else { (self.w.raw.clone(), "uncached") };
            for i in 0..self.ls.len() {
                let chain = self.chain(i);
                let names: Vec<Name> = chain.iter().map(|&j| self.ls[j].name).collect();
                let n = self.ls[i].name;
                self.cx.ph(&["A12"], String::new());
                let t = ["A12"];
                let g = ok!(self.cx, t, "stack_names", ls.retrieve_layer_stack_names(n).await);
                chk!(self.cx, t, "stack_names", g == names, "history of L{} via {} is wrong: {} layers, expected {}", i, hn, g.len(), names.len());
                for j in 0..self.ls.len() {
                    let anc = chain.contains(&j);
                    let jn = self.ls[j].name;
                    let g = ok!(self.cx, t, "is_ancestor", ls.layer_is_ancestor_of(n, jn).await);
                    chk!(self.cx, t, "is_ancestor", g == anc, "layer_is_ancestor_of(L{}, L{}) via {} = {}", i, j, hn, g);
                    if i == j { continue }
                    let g = ls.retrieve_layer_stack_names_upto(n, jn).await;
                    if anc {
                        let pos = chain.iter().position(|&x| x == j).unwrap();
                        let g = ok!(self.cx, t, "stack_names_upto", g);
                        chk!(self.cx, t, "stack_names_upto", g == names[pos + 1..], "history of L{} up to L{} via {} has {} layers, expected {}", i, j, hn, g.len(), names.len() - pos - 1);
                    } else {
                        chk!(self.cx, t, "stack_names_upto.err", g.is_err(), "history of L{} up to non-ancestor L{} via {} is not an error", i, j, hn);
                    }
                }
            }
        }
    }
    /// net changes between ancestors and descendants (A11)
    pub async fn audit_changes(&mut self, all: bool) {
        for i in 0..self.ls.len() {
            let chain = self.chain(i);
            let (ls, hn) = self.handle();
            let n = self.ls[i].name;
            let t = ["A11"];
            self.cx.ph(&t, String::new());
            let ids = match &self.ls[i].ids { Some(x) => x.clone(), None => continue };
            let g: Vec<(TripleChange, IdTriple)> = ok!(self.cx, t, "layer_changes", ls.layer_changes(n).await).collect();
            let e = TSet::new();
            let cur = self.ls[i].triples.clone();
            self.chk_changes(&g, &ids, &e, &cur, &format!("layer_changes(L{}) via {}", i, hn));
            for (k, &j) in chain.iter().enumerate() {
                if k + 1 == chain.len() || (!all && self.r.chance(1, 2)) { continue }
                self.cx.ph(&t, String::new());
                let g: Vec<(TripleChange, IdTriple)> = ok!(self.cx, t, "layer_changes_upto", ls.layer_changes_upto(n, self.ls[j].name).await).collect();
                let old = self.ls[j].triples.clone();
                self.chk_changes(&g, &ids, &old, &cur, &format!("layer_changes_upto(L{}, L{}) via {}", i, j, hn));
                let l = self.get(i, &ls).await;
                // the in-memory variant applies when the ancestor is loaded in the stack
                if l.immediate_layers().iter().rev().skip(1).any(|x| x.name() == self.ls[j].name) || l.immediate_layers().iter().any(|x| x.name() == self.ls[j].name && self.ls[j].name != n) {
                    self.cx.ph(&t, String::new());
                    match InternalTripleStackIterator::from_layer_stack(&l, self.ls[j].name) {
                        Ok(it) => { let g: Vec<_> = it.collect(); self.chk_changes(&g, &ids, &old, &cur, &format!("from_layer_stack(L{}, L{}) via {}", i, j, hn)); }
                        Err(e) => { chk!(self.cx, t, "from_layer_stack", false, "from_layer_stack(L{}, L{}): {:?}", i, j, e); }
                    }
                }
            }
        }
    }
    fn chk_changes(&mut self, g: &[(TripleChange, IdTriple)], ids: &Ids, old: &TSet, new: &TSet, what: &str) {
        let t = ["A11"];
        chk!(self.cx, t, "changes.order", g.windows(2).all(|w| w[0].1 < w[1].1), "{}: not strictly ascending", what);
        let mut a = TSet::new();
        let mut r = TSet::new();
        for (c, t0) in g {
            let v = named(ids, t0);
            chk!(self.cx, t, "changes.named", v.is_some(), "{}: unnamed triple {:?}", what, t0);
            if let Some(v) = v { if *c == TripleChange::Addition { a.insert(v); } else { r.insert(v); } }
        }
        let ea: TSet = new.difference(old).cloned().collect();
        let er: TSet = old.difference(new).cloned().collect();
        chk!(self.cx, t, "changes.additions", a == ea, "{}: wrong additions: {}", what, diff_msg(&a, &ea));
        chk!(self.cx, t, "changes.removals", r == er, "{}: wrong removals: {}", what, diff_msg(&r, &er));
    }
    pub async fn audit_listing(&mut self) {
        for which in 0..2 {
            let (ls, hn) = if which == 0 { (self.w.cached.clone(), "cached") } else { (self.w.raw.clone(), "uncached") };
            self.cx.ph(&["A19"], String::new());
            let t = ["A19"];
            let g = ok!(self.cx, t, "layers", ls.layers().await);
            let gs: BTreeSet<Name> = g.iter().cloned().collect();
            chk!(self.cx, t, "layers.dup", g.len() == gs.len(), "layers() via {} lists a layer twice", hn);
            for i in 0..self.ls.len() {
                chk!(self.cx, t, "layers.missing", gs.contains(&self.ls[i].name), "layers() via {} does not list committed layer L{} ({:?})", hn, i, self.w.kind);
            }
            let known: BTreeSet<Name> = self.ls.iter().map(|l| l.name).chain(self.rollups.iter().cloned()).collect();
            for n in gs { chk!(self.cx, t, "layers.extra", known.contains(&n), "layers() via {} lists {} which was never committed", hn, nm(n)); }
        }
    }
    pub async fn finish(&mut self) {
        self.cx.nontrivial = self.ls.len() >= 2;
        if self.r.chance(1, 2) { self.op_reopen(); }
        let (c, r) = (self.w.cached.clone(), self.w.raw.clone());
        for i in 0..self.ls.len() {
            self.audit_with(i, &c, "cached", true).await;
            self.audit_with(i, &r, "uncached", true).await;
        }
        self.audit_ancestry().await;
        self.audit_changes(false).await;
        self.audit_listing().await;
        let held: Vec<(usize, Arc<InternalLayer>)> = self.held.drain(..).collect();
        for (i, l) in held {
            let exp = self.ls[i].triples.clone();
            let ids = audit_layer(self.cx, &*l, &exp, &["A06"], &format!("L{} as loaded earlier", i));
            self.check_ids(i, &ids, &format!("L{} as loaded earlier", i));
        }
    }
    pub fn op_reopen(&mut self) {
        if self.w.kind == Kind::Mem { return }
        self.cx.ph(&["A19"], format!("reopen {:?} store", self.w.kind));
        self.held.clear();
        self.w.reopen();
        for l in self.ls.iter_mut() { l.reopened = true; }
    }
    pub async fn op_drop(&mut self) {
        let keep = self.r.chance(1, 3);
        if !keep { self.held.clear(); }
        let i = self.r.below(self.ls.len());
        self.cx.ph(&["A20"], format!("invalidate L{}", i));
        self.w.cache.invalidate(self.ls[i].name);
    }
    pub async fn random_op(&mut self, merges: bool) {
        match self.r.below(20) {
            0 => self.op_commit(None).await,
            1..=9 => {
                // prefer deepening
                let p = if self.r.chance(3, 4) { self.ls.len() - 1 } else { self.r.below(self.ls.len()) };
                self.op_commit(Some(p)).await
            }
            10..=13 => self.op_rollup().await,
            14..=15 => self.op_squash().await,
            16 => if merges { self.op_merge().await } else { self.op_rollup().await },
            17 => self.op_reopen(),
            _ => self.op_drop().await,
        }
    }
}

pub fn kind_for(r: &mut Rng) -> Kind {
    match r.below(16) { 0..=11 => Kind::Mem, 12 => Kind::Dir, 13 => Kind::Arch, 14 => Kind::ArchTiny, _ => Kind::Raw }
}

fn run_hist(cx: &mut Cx, mut r: Rng, kind: Kind, nn: usize, np: usize, nv: usize, ops: usize) {
    block(async {
        cx.log.push(format!("{:?} store", kind));
        r.next();
        let mut h = H::new(cx, r, kind, nn, np, nv);
        h.op_commit(None).await;
        for _ in 0..ops { h.random_op(true).await; }
        h.finish().await;
    })
}
fn run_small(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 1_000_000 + i);
    let kind = if i % 5 == 0 { kind_for(&mut r) } else { Kind::Mem };
    let kind = if i < 5 { KINDS[i as usize] } else { kind };
    let ops = 1 + (i as usize).min(5 + r.below(1)) .min(1 + r.below(5));
    run_hist(cx, r, kind, 3, 2, 2, ops)
}
fn run_big(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 2_000_000 + i);
    let kind = kind_for(&mut r);
    let ops = 6 + r.below(11);
    run_hist(cx, r, kind, 6, 3, 5, ops)
}

fn run_merge(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 3_000_000 + i);
    let kind = if i % 4 == 0 { kind_for(&mut r) } else { Kind::Mem };
    block(async {
        cx.log.push(format!("{:?} store", kind));
        let mut h = H::new(cx, r, kind, 12, 5, 10);
        let k = 1 + h.r.below(5);
        for _ in 0..k {
            let ls = h.w.raw.clone();
            let mut b = ok!(h.cx, ["A10"], "merge.setup", ls.create_base_layer().await);
            let name = b.name();
            let n = if h.r.chance(1, 8) { 0 } else { h.r.below(30) };
            let mut set = TSet::new();
            for _ in 0..n { let t = h.rt(); set.insert(t.clone()); b.add_value_triple(t); }
            h.cx.ph(&["A03"], format!("L{} = base {}", h.ls.len(), shows(&set)));
            ok!(h.cx, ["A03"], "merge.setup", b.commit_boxed().await);
            ok!(h.cx, ["A03"], "merge.setup", ls.finalize_layer(name).await);
            h.push(name, None, set, &["A03"]);
            let j = h.ls.len() - 1;
            let l = h.get(j, &ls).await;
            let ids = audit_ids(h.cx, &*l, "input");
            h.ls[j].ids = Some(ids);
        }
        h.cx.nontrivial = k >= 2;
        let mut v: Vec<usize> = vec![];
        for j in 0..k { if h.r.chance(5, 6) { v.push(j); } }
        if h.r.chance(1, 4) && !v.is_empty() { let d = *h.r.pick(&v); v.push(d); }
        h.r.shuffle(&mut v);
        let (ls, hn) = h.handle();
        h.merge_these(v.clone(), false, ls.clone(), hn).await;
        // a child layer in the list is refused, whatever its position, rolled up or not
        let p = h.r.below(k);
        h.op_commit(Some(p)).await;
        let c = h.ls.len() - 1;
        if h.r.chance(1, 2) {
            let l = h.get(c, &ls).await;
            h.cx.ph(&["A08"], format!("rollup(L{})", c));
            let n = ok!(h.cx, ["A08"], "rollup.err", ls.clone().rollup(l).await);
            // the rollup is a base layer of its own, which numbers names in the order of its history
            let t = h.ls[c].triples.clone();
            h.cx.ph(&["A10"], format!("L{} = that rollup, by its own name", h.ls.len()));
            let q = h.push(n, None, t, &["A08"]);
            let l = h.get(q, &ls).await;
            let ids = audit_ids(h.cx, &*l, "input");
            h.ls[q].ids = Some(ids);
            let mut v2 = v.clone();
            let at = h.r.below(v2.len() + 1);
            v2.insert(at, q);
            h.merge_these(v2, false, ls.clone(), hn).await;
            h.audit_with(q, &ls, hn, false).await;
        }
        let at = h.r.below(v.len() + 1);
        v.insert(at, c);
        h.merge_these(v, true, ls.clone(), hn).await;
        // inputs unaffected
        for j in 0..k { h.audit_with(j, &ls, hn, false).await; }
    })
}

/// the same through Store / StoreLayer / NamedGraph-facing API
fn run_store(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 4_000_000 + i);
    let kind = if i < 10 { KINDS[(i % 5) as usize] } else { kind_for(&mut r) };
    block(async {
        cx.log.push(format!("{:?} store", kind));
        r.next();
        let mut h = H::new(cx, r, kind, 4, 3, 3);
        let ops = 3 + h.r.below(6);
        store_commit(&mut h, None).await;
        for _ in 0..ops {
            let i = h.r.below(h.ls.len());
            match h.r.below(12) {
                0 => store_commit(&mut h, None).await,
                1..=4 => { let p = h.ls.len() - 1; store_commit(&mut h, Some(p)).await }
                5 => store_commit(&mut h, Some(i)).await,
                6 => {
                    let l = sget(&mut h, i).await;
                    h.cx.ph(&["A08"], format!("StoreLayer::rollup(L{})", i));
                    ok!(h.cx, ["A08"], "rollup.err", l.rollup().await);
                    h.ls[i].rolled = true;
                }
                7 => {
                    let c = h.chain(i);
                    if c.len() < 2 { continue }
                    let u = c[h.r.below(c.len() - 1)];
                    let l = sget(&mut h, i).await;
                    let ul = sget(&mut h, u).await;
                    let imp = h.r.chance(1, 2);
                    h.cx.ph(&["A08"], format!("StoreLayer::{}rollup_upto(L{}, L{})", if imp { "imprecise_" } else { "" }, i, u));
                    if imp { ok!(h.cx, ["A08"], "rollup.err", l.imprecise_rollup_upto(&ul).await); } else { ok!(h.cx, ["A08"], "rollup.err", l.rollup_upto(&ul).await); }
                    h.ls[i].rolled = true;
                }
                8 => {
                    let l = sget(&mut h, i).await;
                    let c = h.chain(i);
                    let up = if c.len() >= 2 && h.r.chance(1, 2) { Some(c[h.r.below(c.len() - 1)]) } else { None };
                    h.cx.ph(&["A09"], format!("L{} = StoreLayer::squash(L{}, {:?})", h.ls.len(), i, up));
                    let s = match up {
                        None => ok!(h.cx, ["A09"], "squash.err", l.squash().await),
                        Some(u) => { let ul = sget(&mut h, u).await; ok!(h.cx, ["A09"], "squash.err", l.squash_upto(&ul).await) }
                    };
                    let t = h.ls[i].triples.clone();
                    h.push(s.name(), up, t, &["A09"]);
                    saudit(&mut h, s, false).await;
                }
                9 => {
                    let other = h.r.below(h.ls.len());
                    let diff = h.r.chance(1, 2);
                    let base = !diff && h.r.chance(0, 4);
                    let p = if diff && h.r.chance(1, 4) { None } else { Some(i) };
                    let _ = base;
                    store_delta(&mut h, p, other, diff).await;
                }
                10 => h.op_reopen(),
                _ => { let l = sget(&mut h, i).await; saudit(&mut h, l, true).await; }
            }
        }
        h.cx.nontrivial = h.ls.len() >= 2;
        if h.r.chance(1, 2) { h.op_reopen(); }
        for i in 0..h.ls.len() {
            let l = sget(&mut h, i).await;
            saudit(&mut h, l, true).await;
        }
    })
}
pub async fn sget(h: &mut H<'_>, i: usize) -> StoreLayer {
    let tags = h.tags(i);
    h.cx.ph(&tags, String::new());
    let l = ok!(h.cx, tags, "get_layer_from_id", h.w.store.get_layer_from_id(h.ls[i].name).await);
    chk!(h.cx, tags, "get_layer_from_id", l.is_some(), "committed layer L{} not found", i);
    l.unwrap()
}
async fn sbuilder(h: &mut H<'_>, parent: Option<usize>) -> StoreLayerBuilder {
    match parent {
        None => ok!(h.cx, ["A03", "A22"], "create_base_layer", h.w.store.create_base_layer().await),
        Some(p) => { let l = sget(h, p).await; ok!(h.cx, ["A03", "A22"], "open_write", l.open_write().await) }
    }
}
pub async fn store_commit(h: &mut H<'_>, parent: Option<usize>) {
    let b = sbuilder(h, parent).await;
    chk!(h.cx, ["A22"], "builder.parent", b.parent().map(|p| p.name()) == parent.map(|p| h.ls[p].name), "builder reports a wrong parent");
    let pset = parent.map(|p| h.ls[p].triples.clone()).unwrap_or_default();
    let mut adds = TSet::new();
    let mut rems = TSet::new();
    let n = if parent.is_none() { 2 + h.r.below(6) } else { h.r.below(6) };
    let mut desc = vec![];
    for _ in 0..n {
        let ex: Vec<VT> = pset.iter().cloned().collect();
        let t = if !ex.is_empty() && h.r.chance(2, 5) { h.r.pick(&ex).clone() } else { h.rt() };
        let add = if pset.contains(&t) { h.r.chance(1, 5) } else { h.r.chance(5, 6) };
        desc.push(format!("{}{}", if add { "+" } else { "-" }, show(&t)));
        let id = if h.r.chance(1, 3) { b.parent().and_then(|p| p.value_triple_to_id(&t)) } else { None };
        h.cx.ph(&["A03", "A22"], String::new());
        match (add, id) {
            (true, None) => ok!(h.cx, ["A03", "A22"], "add_value_triple", b.add_value_triple(t.clone())),
            (true, Some(i)) => ok!(h.cx, ["A03", "A22"], "add_id_triple", b.add_id_triple(i)),
            (false, None) => ok!(h.cx, ["A03", "A22"], "remove_value_triple", b.remove_value_triple(t.clone())),
            (false, Some(i)) => ok!(h.cx, ["A03", "A22"], "remove_id_triple", b.remove_id_triple(i)),
        }
        if add { adds.insert(t); } else { rems.insert(t); }
    }
    h.cx.ph(&["A03"], format!("L{} = Store commit on {:?}: {}", h.ls.len(), parent, desc.join(" ")));
    let l = if h.r.chance(1, 3) {
        ok!(h.cx, ["A03"], "commit", b.commit_no_load().await);
        let o = ok!(h.cx, ["A03"], "commit", h.w.store.get_layer_from_id(b.name()).await);
        chk!(h.cx, ["A03"], "commit.none", o.is_some(), "committed layer not found");
        o.unwrap()
    } else { ok!(h.cx, ["A03"], "commit", b.commit().await) };
    chk!(h.cx, ["A22"], "builder.name", l.name() == b.name(), "committed layer has another name than its builder reported");
    let mut res = pset;
    for t in adds.difference(&rems) { res.insert(t.clone()); }
    for t in rems.difference(&adds) { res.remove(t); }
    h.push(l.name(), parent, res, &["A03"]);
    saudit(h, l, false).await;
}
pub async fn store_delta(h: &mut H<'_>, parent: Option<usize>, other: usize, diff: bool) {
    let ol = sget(h, other).await;
    let b = sbuilder(h, parent).await;
    let pset = parent.map(|p| h.ls[p].triples.clone()).unwrap_or_default();
    let t = ["A21"];
    let res;
    if diff {
        h.cx.ph(&t, format!("L{} = apply_diff(L{}) on {:?}", h.ls.len(), other, parent));
        ok!(h.cx, t, "apply_diff", b.apply_diff(&ol));
        res = h.ls[other].triples.clone();
    } else {
        h.cx.ph(&t, format!("L{} = apply_delta(L{}) on {:?}", h.ls.len(), other, parent));
        ok!(h.cx, t, "apply_delta", b.apply_delta(&ol).await);
        let (a, r) = h.expected_delta(other);
        let mut x = pset.clone();
        x.extend(a);
        for y in r { x.remove(&y); }
        res = x;
    }
    let l = ok!(h.cx, t, "apply.commit", b.commit().await);
    h.push(l.name(), parent, res, &["A21"]);
    saudit(h, l, false).await;
}
pub async fn saudit(h: &mut H<'_>, l: StoreLayer, deep: bool) {
    let i = h.ls.iter().position(|m| m.name == l.name()).expect("known layer");
    let what = format!("StoreLayer L{}", i);
    let exp = h.ls[i].triples.clone();
    let tags = h.tags(i);
    let ids = audit_layer(h.cx, &l, &exp, &tags, &what);
    h.check_ids(i, &ids, &what);
    let (ea, er) = h.expected_delta(i);
    let t4: Vec<&str> = if h.ls[i].rolled { vec!["A04", "A08"] } else if h.ls[i].origin[0] == "A09" { vec!["A04", "A09"] } else { vec!["A04"] };
    audit_delta(h.cx, &Delta::Sl(&l), &ids, &ea, &er, &t4, &what).await;
    let chain = h.chain(i);
    let names: Vec<Name> = chain.iter().map(|&j| h.ls[j].name).collect();
    h.cx.ph(&["A12"], String::new());
    let g = ok!(h.cx, ["A12"], "stack_names", l.retrieve_layer_stack_names().await);
    chk!(h.cx, ["A12"], "stack_names", g == names, "history of StoreLayer L{} is wrong", i);
    let p = ok!(h.cx, ["A12"], "parent", l.parent().await);
    chk!(h.cx, ["A12"], "parent", p.as_ref().map(|p| p.name()) == h.ls[i].parent.map(|p| h.ls[p].name), "parent() of StoreLayer L{} is wrong", i);
    chk!(h.cx, ["A12"], "parent_name", l.parent_name() == h.ls[i].parent.map(|p| h.ls[p].name), "parent_name() of StoreLayer L{} is wrong", i);
    let c = l.all_counts();
    let nn = ids.nv.iter().filter(|o| matches!(o, ObjectType::Node(_))).count();
    chk!(h.cx, ["A07"], "all_counts", c.node_count == nn && c.value_count == ids.nv.len() - nn && c.predicate_count == ids.p.len(), "{}: all_counts wrong", what);
    if deep {
        // the uncached view of the same directory agrees
        let raw = h.w.raw.clone();
        let o = ok!(h.cx, ["A20", "A19"], "raw.get", raw.get_layer(l.name()).await);
        chk!(h.cx, ["A20", "A19"], "raw.none", o.is_some(), "L{} is not visible to an uncached store on the same data", i);
        let o = o.unwrap();
        let a: Vec<IdTriple> = o.triples().collect();
        let b: Vec<IdTriple> = l.triples().collect();
        chk!(h.cx, ["A20"], "raw.triples", a == b, "L{}: cached and uncached stores list different triples", i);
    }
}
