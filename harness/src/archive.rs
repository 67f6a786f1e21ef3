//! Archive files: presence header, offsets, slices, through every backend.
use crate::ctx::*;
use crate::util::*;
use crate::Fam;
use bytes::Bytes;
use std::collections::BTreeMap;
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::*;
use terminus_store::storage::*;
use tokio::io::AsyncReadExt;

pub const FAM: Fam = Fam { name: "archive", run, quick: 400, thorough: 40000,
    bound: "random subsets (and all singletons and complements) of the archivable files with contents of 0-3000 bytes, read whole, sliced and by size through no cache, a large and a zero-size cache, fresh and warm" };
pub const FAM_HEADER: Fam = Fam { name: "archive_header", run: run_header, quick: 3000, thorough: 200000,
    bound: "presence headers of all singletons, pairs and random subsets of the file kinds: every member's presence and index" };

fn files() -> Vec<(&'static str, LayerFileEnum)> {
    let mut v: Vec<(&'static str, LayerFileEnum)> = FILENAME_ENUM_MAP.iter().map(|(k, v)| (*k, *v)).collect();
    v.sort_by(|a, b| (a.1, a.0).cmp(&(b.1, b.0)));
    v
}
fn kinds() -> Vec<LayerFileEnum> { let mut v: Vec<LayerFileEnum> = files().into_iter().map(|x| x.1).collect(); v.sort(); v.dedup(); v }

fn run_header(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 10_000_000 + i);
    let ks = kinds();
    let n = ks.len() as u64;
    let t = ["A16"];
    let set: Vec<LayerFileEnum> = if i < n { vec![ks[i as usize]] }
        else if i < n + n * n { let j = i - n; let mut v = vec![ks[(j / n) as usize], ks[(j % n) as usize]]; v.dedup(); v }
        else { let d = 1 + r.below(9); ks.iter().filter(|_| r.chance(d, 10)).cloned().collect() };
    cx.nontrivial = !set.is_empty();
    cx.ph(&t, format!("presence header of {} files", set.len()));
    let mut shuffled = set.clone();
    r.shuffle(&mut shuffled);
    let h = ArchiveFilePresenceHeader::from_present(shuffled.iter().cloned());
    let h2 = ArchiveFilePresenceHeader::new(h.inner());
    let mut sorted = set.clone();
    sorted.sort();
    sorted.dedup();
    for k in &ks {
        let e = sorted.iter().position(|x| x == k);
        chk!(cx, t, "present", h.is_present(*k) == e.is_some() && h2.is_present(*k) == e.is_some(), "header of {:?}: is_present({:?}) = {}", sorted, k, h.is_present(*k));
        chk!(cx, t, "index", h.file_index(*k) == e && h2.file_index(*k) == e, "header of {:?}: file_index({:?}) = {:?}, expected {:?}", sorted, k, h.file_index(*k), e);
    }
}

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 11_000_000 + i);
    let t = ["A16"];
    // one filename per kind: either the base or the child name, both are tried
    let fs = files();
    let ks: Vec<LayerFileEnum> = kinds().into_iter().filter(|k| *k != LayerFileEnum::Rollup).collect();
    let dir = scratch();
    let n = ks.len() as u64;
    let chosen: Vec<LayerFileEnum> = if i == 0 { vec![] } else if i <= n { vec![ks[(i - 1) as usize]] }
        else if i <= 2 * n { let s = ks[(i - n - 1) as usize]; ks.iter().filter(|k| **k != s).cloned().collect() }
        else { let d = 1 + r.below(9); ks.iter().filter(|_| r.chance(d, 10)).cloned().collect() };
    let mut content: BTreeMap<LayerFileEnum, Bytes> = BTreeMap::new();
    for k in &chosen {
        let len = match r.below(6) { 0 => 0, 1 => 1, 2 => 40, 3 => r.below(3000), _ => r.below(60) };
        let b: Vec<u8> = if *k == LayerFileEnum::Parent { nm([r.next() as u32, 0, 7, r.next() as u32, 1]).into_bytes() } else { (0..len).map(|_| r.next() as u8).collect() };
        content.insert(*k, Bytes::from(b));
    }
    cx.nontrivial = !content.is_empty();
    let name = [i as u32, r.next() as u32, 3, 4, 5];
    block(async {
        let b = DirectoryArchiveBackend::new(dir.0.clone());
        let lru = LruArchiveBackend::new(b.clone(), b.clone(), if r.chance(1, 3) { 0 } else { 4 });
        cx.ph(&t, format!("archive {} with {} files: {}", nm(name), content.len(), content.iter().map(|(k, v)| format!("{:?}:{}", k, v.len())).collect::<Vec<_>>().join(" ")));
        let st = ArchiveLayerStore::new(lru.clone(), lru.clone());
        ok!(cx, t, "create", st.create_named_directory(name).await);
        let mut order: Vec<LayerFileEnum> = content.keys().cloned().collect();
        r.shuffle(&mut order);
        for k in order {
            if r.chance(1, 2) { st.write_bytes(name, k, content[&k].clone()); continue }
            let fname = names_of(&fs, k);
            let f = ok!(cx, t, "get_file", st.get_file(name, r.pick(&fname)).await);
            let mut w = ok!(cx, t, "open_write", f.open_write().await);
            use tokio::io::AsyncWriteExt;
            let c = content[&k].clone();
            let cut = r.below(c.len() + 1);
            ok!(cx, t, "write", w.write_all(&c[..cut]).await);
            ok!(cx, t, "write", w.write_all(&c[cut..]).await);
            ok!(cx, t, "flush", w.flush().await);
            ok!(cx, t, "sync", w.sync_all().await);
            // a file under construction already reads back
            let f = ok!(cx, t, "get_file", st.get_file(name, fname[0]).await);
            let m = ok!(cx, t, "map.construction", f.map().await);
            chk!(cx, t, "map.construction", m == c, "{:?} under construction reads {} bytes instead of {}", k, m.len(), c.len());
        }
        ok!(cx, t, "finalize", st.finalize(name).await);
        // warm, fresh cached, fresh zero cache, no cache
        let l0 = LruArchiveBackend::new(b.clone(), b.clone(), 0);
        let l4 = LruArchiveBackend::new(b.clone(), b.clone(), 4);
        verify(cx, &st, name, &fs, &content, "warm cache", &mut r).await;
        verify(cx, &ArchiveLayerStore::new(l4.clone(), l4), name, &fs, &content, "fresh cache", &mut r).await;
        verify(cx, &ArchiveLayerStore::new(l0.clone(), l0), name, &fs, &content, "zero-size cache", &mut r).await;
        verify(cx, &ArchiveLayerStore::new(b.clone(), b.clone()), name, &fs, &content, "no cache", &mut r).await;
        // whole archive
        if !content.is_empty() {
            let all = ok!(cx, t, "bytes", b.get_layer_bytes(name).await);
            let a = Archive::parse(all.clone());
            let mut rd: &[u8] = &all;
            let a2 = ok!(cx, t, "parse_from_reader", Archive::parse_from_reader(&mut rd).await);
            for k in kinds() {
                chk!(cx, t, "slice", a.slice_for(k).as_ref() == content.get(&k), "Archive::slice_for({:?}) is wrong", k);
                chk!(cx, t, "slice2", a2.slice_for(k).as_ref() == content.get(&k), "Archive::parse_from_reader slice_for({:?}) is wrong", k);
                chk!(cx, t, "size_of", a.size_of(k) == content.get(&k).map(|c| c.len()), "Archive::size_of({:?}) = {:?}", k, a.size_of(k));
            }
        }
        // the registered rollup, which lives outside the archive
        let target = [9, 8, 7, r.next() as u32, 5];
        ok!(cx, t, "set_rollup", lru.set_rollup(name, target).await);
        let st = ArchiveLayerStore::new(b.clone(), b.clone());
        let f = ok!(cx, t, "rollup", st.get_file(name, "rollup.hex").await);
        let m = ok!(cx, t, "rollup.map", f.map().await);
        chk!(cx, t, "rollup.map", String::from_utf8_lossy(&m).lines().collect::<Vec<_>>() == vec!["1".to_string(), nm(target)], "rollup file reads {:?}", m);
        let s = ok!(cx, t, "rollup.size", f.size().await);
        chk!(cx, t, "rollup.size", s == m.len(), "rollup file has size {} but {} bytes", s, m.len());
    })
}
fn names_of(fs: &[(&'static str, LayerFileEnum)], k: LayerFileEnum) -> Vec<&'static str> { fs.iter().filter(|x| x.1 == k).map(|x| x.0).collect() }

async fn verify<S: PersistentLayerStore>(cx: &mut Cx, st: &S, name: [u32; 5], fs: &[(&'static str, LayerFileEnum)], content: &BTreeMap<LayerFileEnum, Bytes>, what: &str, r: &mut Rng) {
    let t = ["A16"];
    for (fname, k) in fs {
        if *k == LayerFileEnum::Rollup { continue }
        cx.ph(&t, String::new());
        let e = ok!(cx, t, "file_exists", st.file_exists(name, fname).await);
        let f = ok!(cx, t, "get_file", st.get_file(name, fname).await);
        let e2 = ok!(cx, t, "exists", f.exists().await);
        chk!(cx, t, "exists", e == content.contains_key(k) && e2 == e, "{}: {} exists: {} {}, expected {}", what, fname, e, e2, content.contains_key(k));
        // an archive without any file cannot be sliced further
        if content.is_empty() { continue }
        let m = ok!(cx, t, "map_if_exists", f.map_if_exists().await);
        chk!(cx, t, "map_if_exists", m.as_ref() == content.get(k), "{}: {} maps to {:?} bytes, expected {:?}", what, fname, m.map(|m| m.len()), content.get(k).map(|m| m.len()));
        match content.get(k) {
            None => {
                chk!(cx, t, "absent", f.map().await.is_err() && f.size().await.is_err(), "{}: absent file {} has contents", what, fname);
            }
            Some(c) => {
                let m = ok!(cx, t, "map", f.map().await);
                chk!(cx, t, "map", m == *c, "{}: {} reads {} bytes, expected {}; first difference at {:?}", what, fname, m.len(), c.len(), m.iter().zip(c.iter()).position(|(a, b)| a != b));
                let s = ok!(cx, t, "size", f.size().await);
                chk!(cx, t, "size", s == c.len(), "{}: {} has size {}, expected {}", what, fname, s, c.len());
                for off in [0, r.below(c.len() + 1), c.len()] {
                    let mut rd = ok!(cx, t, "open_read_from", f.open_read_from(off).await);
                    let mut buf = vec![];
                    if r.chance(1, 2) { ok!(cx, t, "read", rd.read_to_end(&mut buf).await); }
                    else {
                        let mut small = [0u8; 7];
                        loop { let n = ok!(cx, t, "read", rd.read(&mut small).await); if n == 0 { break } buf.extend_from_slice(&small[..n]); }
                    }
                    chk!(cx, t, "open_read_from", buf[..] == c[off..], "{}: {} read from {} gives {} bytes, expected {}", what, fname, off, buf.len(), c.len() - off);
                }
            }
        }
    }
}
