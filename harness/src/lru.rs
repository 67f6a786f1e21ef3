//! The archive read cache against a reference LRU of limited size.
use crate::ctx::*;
use crate::util::*;
use crate::Fam;
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::BTreeMap;
use std::io;
use std::sync::{Arc, Mutex};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::LayerFileEnum;

pub const FAM: Fam = Fam { name: "lru", run, quick: 300, thorough: 20000,
    bound: "random sequences of 20-60 whole-layer stores and reads of 6 layers of 0 to 1.3 MiB, cache limits 0, 1 and 2 MiB, against a reference LRU observing every read of the origin" };

type Name = [u32; 5];
#[derive(Clone, Default)]
struct Origin(Arc<Mutex<(BTreeMap<Name, Bytes>, Vec<Name>)>>);
pub struct Empty;
impl tokio::io::AsyncRead for Empty {
    fn poll_read(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, _: &mut tokio::io::ReadBuf<'_>) -> std::task::Poll<io::Result<()>> { std::task::Poll::Ready(Ok(())) }
}
fn nf() -> io::Error { io::Error::new(io::ErrorKind::NotFound, "no such layer") }
#[async_trait]
impl ArchiveBackend for Origin {
    type Read = Empty;
    async fn get_layer_bytes(&self, id: Name) -> io::Result<Bytes> {
        let mut g = self.0.lock().unwrap();
        g.1.push(id);
        g.0.get(&id).cloned().ok_or_else(nf)
    }
    async fn get_layer_structure_bytes(&self, _: Name, _: LayerFileEnum) -> io::Result<Option<Bytes>> { Ok(None) }
    async fn store_layer_file(&self, id: Name, bytes: Bytes) -> io::Result<()> { self.0.lock().unwrap().0.insert(id, bytes); Ok(()) }
    async fn read_layer_structure_bytes_from(&self, _: Name, _: LayerFileEnum, _: usize) -> io::Result<Empty> { Ok(Empty) }
}
#[async_trait]
impl ArchiveMetadataBackend for Origin {
    async fn get_layer_names(&self) -> io::Result<Vec<Name>> { Ok(self.0.lock().unwrap().0.keys().cloned().collect()) }
    async fn layer_exists(&self, id: Name) -> io::Result<bool> { Ok(self.0.lock().unwrap().0.contains_key(&id)) }
    async fn layer_size(&self, id: Name) -> io::Result<u64> { self.0.lock().unwrap().0.get(&id).map(|b| b.len() as u64).ok_or_else(nf) }
    async fn layer_file_exists(&self, _: Name, _: LayerFileEnum) -> io::Result<bool> { Ok(false) }
    async fn get_layer_structure_size(&self, _: Name, _: LayerFileEnum) -> io::Result<usize> { Err(nf()) }
    async fn get_rollup(&self, _: Name) -> io::Result<Option<Name>> { Ok(None) }
    async fn set_rollup(&self, _: Name, _: Name) -> io::Result<()> { Ok(()) }
    async fn get_parent(&self, _: Name) -> io::Result<Option<Name>> { Ok(None) }
}

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 9_000_000 + i);
    let mib = [1usize, 2, 1, 0][(i % 4) as usize];
    let limit = mib << 20;
    let o = Origin::default();
    let c = LruArchiveBackend::new(o.clone(), o.clone(), mib);
    // the backing buffers are shared, so that a case stays cheap
    let sizes = [0usize, 1, limit / 3, limit / 2, limit / 2 + 1, limit, limit + 1, limit / 4, limit / 3 + 7];
    let mut data: BTreeMap<Name, Bytes> = BTreeMap::new();
    let mut lru: Vec<(Name, usize)> = vec![]; // most recent last
    let t = ["A23"];
    cx.log.push(format!("cache limit {} bytes", limit));
    cx.nontrivial = limit > 0;
    let n = 20 + r.below(40);
    let id = |k: usize| -> Name { [k as u32, 0, 1, 2, 3] };
    let mut next = 0usize;
    for _ in 0..n {
        let store = next < 3 || r.chance(1, 5);
        if store {
            if next >= 10 { continue }
            let k = next;
            next += 1;
            let len = *r.pick(&sizes);
            let b = Bytes::from(vec![k as u8 + 1; len]);
            // some layers are put in place by another process
            if r.chance(1, 3) {
                cx.ph(&t, format!("layer {} of {} bytes appears in the origin", k, len));
                o.0.lock().unwrap().0.insert(id(k), b.clone());
            } else {
                cx.ph(&t, format!("store layer {} of {} bytes", k, len));
                ok!(cx, t, "store", block(c.store_layer_file(id(k), b.clone())));
                chk!(cx, t, "store.through", o.0.lock().unwrap().0.get(&id(k)) == Some(&b), "stored layer did not reach the origin");
                insert(&mut lru, limit, id(k), len);
            }
            data.insert(id(k), b);
        } else {
            let extra = if r.chance(1, 8) { 1 } else { 0 };
            let k = r.below(next + extra);
            let cached = lru.iter().any(|(n, _)| *n == id(k));
            cx.ph(&t, format!("read layer {} (reference: {})", k, if cached { "cached" } else { "not cached" }));
            o.0.lock().unwrap().1.clear();
            let res = block(c.get_layer_bytes(id(k)));
            let misses = o.0.lock().unwrap().1.len();
            match data.get(&id(k)) {
                None => { chk!(cx, t, "missing", res.is_err(), "reading a missing layer succeeded"); }
                Some(b) => {
                    let g = ok!(cx, t, "read", res);
                    chk!(cx, t, "bytes", g == *b, "layer {} reads back {} bytes, expected {}", k, g.len(), b.len());
                    // zero-size entries occupy nothing: whether they stay is not observable in the limit
                    if b.len() > 0 {
                        chk!(cx, t, "residency", (misses == 0) == cached, "layer {} ({} bytes) was {} although the least-recently-used cache of {} bytes {} it; resident in the reference: {:?}", k, b.len(),
                            if misses == 0 { "served from the cache" } else { "read from the origin" }, limit, if cached { "keeps" } else { "has evicted" }, lru.iter().map(|(n, s)| (n[0], *s)).collect::<Vec<_>>());
                    }
                    if cached {
                        let p = lru.iter().position(|(n, _)| *n == id(k)).unwrap();
                        let e = lru.remove(p);
                        lru.push(e);
                    } else { insert(&mut lru, limit, id(k), b.len()); }
                }
            }
        }
    }
}
fn insert(lru: &mut Vec<(Name, usize)>, limit: usize, n: Name, len: usize) {
    if len > limit || len == 0 { return }
    while lru.iter().map(|e| e.1).sum::<usize>() + len > limit { lru.remove(0); }
    lru.push((n, len));
}
