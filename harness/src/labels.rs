//! Label stores against a map model; label files on disk; malformed label files.
use crate::ctx::*;
use crate::util::*;
use crate::Fam;
use std::collections::BTreeMap;
use std::sync::Arc;
use terminus_store::storage::directory::*;
use terminus_store::storage::memory::*;
use terminus_store::storage::*;

pub const FAM: Fam = Fam { name: "labels", run: run, quick: 400, thorough: 40000,
    bound: "random sequences of 12-40 label operations over 5 names on the memory, directory and cached directory label stores, with reopening" };
pub const FAM_TEXT: Fam = Fam { name: "label_text", run: run_text, quick: 300, thorough: 20000,
    bound: "label files of every valid form over boundary versions and layers, and malformed files of 20 shapes with random content" };

type Name = [u32; 5];
fn rname(r: &mut Rng) -> Name {
    match r.below(5) {
        0 => [0; 5],
        1 => [u32::MAX; 5],
        2 => [1, 0x10, 0x100, 0xabcdef, 0xdeadbeef],
        _ => [r.next() as u32, r.next() as u32, (r.next() as u32) >> 20, r.next() as u32, r.next() as u32],
    }
}

fn open(kind: usize, dir: &Scratch, mem: &Arc<MemoryLabelStore>, cx: &mut Cx) -> Arc<dyn LabelStore> {
    match kind {
        0 => mem.clone(),
        1 => Arc::new(DirectoryLabelStore::new(&dir.0)),
        _ => Arc::new(ok!(cx, ["A14"], "open", block(CachedDirectoryLabelStore::open(&dir.0)))),
    }
}

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 5_000_000 + i);
    let kind = (i % 3) as usize;
    let dir = scratch();
    let mem = Arc::new(MemoryLabelStore::new());
    let mut ls = open(kind, &dir, &mem, cx);
    let names = ["main", "a.b", "\u{e9}t\u{e9}", "x label", "main2"];
    let mut model: BTreeMap<String, Label> = BTreeMap::new();
    // labels a caller still holds from earlier reads
    let mut held: Vec<Label> = vec![];
    cx.log.push(format!("label store {}", ["memory", "directory", "cached directory"][kind]));
    let n = 12 + r.below(28);
    cx.nontrivial = true;
    for _ in 0..n {
        let name = names[r.below(names.len())].to_string();
        match r.below(12) {
            0 | 1 => {
                cx.ph(&["A13"], format!("create {:?}", name));
                let res = block(ls.create_label(&name));
                if model.contains_key(&name) {
                    chk!(cx, ["A13"], "create.existing", res.is_err(), "creating existing label {:?} succeeded", name);
                } else {
                    let l = ok!(cx, ["A13"], "create", res);
                    chk!(cx, ["A13"], "create.value", l.name == name && l.layer.is_none() && l.version == 0, "created label is {:?}", l);
                    held.retain(|h| h.name != name);
                    held.push(l.clone());
                    model.insert(name, l);
                }
            }
            2 => {
                cx.ph(&["A13"], format!("delete {:?}", name));
                let res = ok!(cx, ["A13"], "delete", block(ls.delete_label(&name)));
                chk!(cx, ["A13"], "delete.result", res == model.contains_key(&name), "delete of {:?} reported {}", name, res);
                model.remove(&name);
                // version numbers start again after a deletion: forget labels read before it
                held.retain(|h| h.name != name);
            }
            3 => {
                cx.ph(&["A13"], format!("set missing {:?}", name));
                if !model.contains_key(&name) {
                    let l = Label { name: name.clone(), layer: None, version: 0 };
                    let res = block(ls.set_label(&l, rname(&mut r)));
                    chk!(cx, ["A13"], "set.missing", res.is_err(), "setting the missing label {:?} gave {:?}", name, res);
                }
            }
            4..=9 => {
                if held.is_empty() { continue }
                // current, stale, or a version the label never had
                let cur = r.chance(2, 3);
                let mut l = if cur { match model.get(&name) { Some(l) => l.clone(), None => continue } } else { held[r.below(held.len())].clone() };
                if r.chance(1, 12) { l.version += 1 + r.below(3) as u64; }
                // a made-up label that happens to carry the current version is nothing a caller can hold
                if model.get(&l.name).map_or(false, |m| m.version == l.version && m.layer != l.layer) { continue }
                let target = if r.chance(1, 4) { None } else { Some(rname(&mut r)) };
                cx.ph(&["A13"], format!("set {:?} v{} -> {:?}", l.name, l.version, target.map(nm)));
                let res = match (target, r.chance(1, 2)) {
                    (Some(t), true) => block(ls.set_label(&l, t)),
                    (None, true) => block(ls.clear_label(&l)),
                    (t, _) => block(ls.set_label_option(&l, t)),
                };
                match model.get(&l.name).cloned() {
                    None => { chk!(cx, ["A13"], "set.missing", res.is_err(), "setting missing label gave {:?}", res); }
                    Some(m) => {
                        let res = ok!(cx, ["A13"], "set", res);
                        if m.version == l.version {
                            let exp = Label { name: l.name.clone(), layer: target, version: l.version + 1 };
                            chk!(cx, ["A13"], "set.accepted", res.as_ref() == Some(&exp), "setting {:?} at its current version {} gave {:?}", l.name, l.version, res);
                            model.insert(l.name.clone(), exp.clone());
                            if r.chance(1, 2) { held.push(exp); }
                        } else {
                            chk!(cx, ["A13"], "set.stale", res.is_none(), "setting {:?} from version {} succeeded although it is at {}", l.name, l.version, m.version);
                        }
                    }
                }
            }
            10 => {
                if kind == 0 { continue }
                cx.ph(&["A14"], "reopen".into());
                ls = open(kind, &dir, &mem, cx);
            }
            _ => {}
        }
        check(cx, &ls, &model, &["A13"], "after the operation", &names);
        if kind > 0 {
            cx.ph(&["A14"], String::new());
            let other = open(if r.chance(1, 2) { 1 } else { 2 }, &dir, &mem, cx);
            check(cx, &other, &model, &["A14"], "reopened", &names);
        }
    }
}
fn check(cx: &mut Cx, ls: &Arc<dyn LabelStore>, model: &BTreeMap<String, Label>, tags: &[&str], what: &str, names: &[&str]) {
    cx.ph(tags, String::new());
    for n in names {
        let g = ok!(cx, tags, "get", block(ls.get_label(n)));
        chk!(cx, tags, "get", g.as_ref() == model.get(*n), "{}: label {:?} reads {:?}, expected {:?}", what, n, g, model.get(*n));
    }
    let mut all = ok!(cx, tags, "labels", block(ls.labels()));
    all.sort_by(|a, b| a.name.cmp(&b.name));
    let exp: Vec<Label> = model.values().cloned().collect();
    chk!(cx, tags, "labels", all == exp, "{}: labels() = {:?} expected {:?}", what, all, exp);
}

fn run_text(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 6_000_000 + i);
    let dir = scratch();
    let vers = [0u64, 1, 9, 10, 99, 100, 12345678901234567, u64::MAX - 1, u64::MAX];
    let v = if r.chance(1, 4) { r.next() } else { *r.pick(&vers) };
    let n = rname(&mut r);
    let hex = nm(n);
    let mut bad_hex = hex.clone().into_bytes();
    let p = r.below(40);
    bad_hex[p] = *r.pick(b"gGzZ +-\t\0/:`@");
    let bad_hex = String::from_utf8(bad_hex).unwrap();
    // 40 bytes containing a multi-byte character at an arbitrary position
    let p = r.below(39);
    let multi: String = format!("{}\u{e9}{}", &hex[..p], &hex[p + 2..]);
    let (text, valid): (Vec<u8>, Option<Label>) = match i % 22 {
        0 => (format!("{}\n\n", v).into(), Some(Label { name: "l".into(), layer: None, version: v })),
        1 => (format!("{}\n{}\n", v, hex).into(), Some(Label { name: "l".into(), layer: Some(n), version: v })),
        2 => (format!("{}\n{}", v, hex).into(), Some(Label { name: "l".into(), layer: Some(n), version: v })),
        3 => (vec![], None),
        4 => (format!("{}", v).into(), None),
        5 => (format!("{}\n", v).into(), None),
        6 => (format!("{}\n{}\n{}\n", v, hex, hex).into(), None),
        7 => (format!("{}\n\n\n", v).into(), None),
        8 => (format!("x{}\n{}\n", v, hex).into(), None),
        9 => (format!("-{}\n\n", v).into(), None),
        10 => (format!("{}\n{}\n", v, &hex[..39]).into(), None),
        11 => (format!("{}\n{}0\n", v, hex).into(), None),
        12 => (format!("{}\n{}\n", v, bad_hex).into(), None),
        13 => (format!("{}\n{}\n", v, multi).into(), None),
        14 => (format!("\n{}\n", hex).into(), None),
        15 => (format!("{} \n{}\n", v, hex).into(), None),
        16 => (format!("99999999999999999999999\n{}\n", hex).into(), None),
        17 => { let mut b: Vec<u8> = format!("{}\n{}\n", v, hex).into(); let k = r.below(b.len() - 1); b[k] = 0xff; (b, None) }
        18 => (format!("{}\n{}\n", hex, v).into(), None),
        19 => (format!("{}\n \n", v).into(), None),
        20 => { let k = 1 + r.below(39); (format!("{}\n{}\n", v, &hex[..k]).into(), None) }
        _ => { let k = r.below(60); ((0..k).map(|_| *r.pick(b"0123456789abcdef\n \xc3\xa9gz")).collect::<Vec<u8>>(), None) }
    };
    // the fully random shape may by chance be valid
    let random_valid = i % 22 == 21;
    cx.nontrivial = true;
    cx.ph(&["A14"], format!("label file {:?}", String::from_utf8_lossy(&text)));
    std::fs::write(dir.0.join("l.label"), &text).unwrap();
    let ds = DirectoryLabelStore::new(&dir.0);
    let g1 = block(ds.get_label("l"));
    let g2 = block(ds.labels());
    let g3 = block(CachedDirectoryLabelStore::open(&dir.0));
    match valid {
        Some(l) => {
            let g1 = ok!(cx, ["A14"], "text.valid", g1);
            chk!(cx, ["A14"], "text.valid", g1.as_ref() == Some(&l), "label file {:?} reads {:?}", String::from_utf8_lossy(&text), g1);
            let g2 = ok!(cx, ["A14"], "text.valid", g2);
            chk!(cx, ["A14"], "text.valid", g2 == vec![l.clone()], "labels() = {:?}", g2);
            let s = ok!(cx, ["A14"], "text.valid", g3);
            let g = ok!(cx, ["A14"], "text.valid", block(s.get_label("l")));
            chk!(cx, ["A14"], "text.valid", g.as_ref() == Some(&l), "cached: {:?}", g);
        }
        None => {
            if random_valid {
                if let Ok(Some(l)) = &g1 {
                    // must then be one of the valid forms
                    let t = String::from_utf8_lossy(&text).to_string();
                    let forms = [format!("{}\n\n", l.version), format!("{}\n{}\n", l.version, l.layer.map(nm).unwrap_or_default()), format!("{}\n{}", l.version, l.layer.map(nm).unwrap_or_default())];
                    let z = t.trim_start_matches('0').to_string();
                    chk!(cx, ["A14"], "text.random", forms.iter().any(|f| f.trim_start_matches('0') == z), "label file {:?} was read as {:?}", t, l);
                }
                return;
            }
            chk!(cx, ["A14"], "text.invalid", g1.is_err(), "malformed label file {:?} was read as {:?}", String::from_utf8_lossy(&text), g1);
            chk!(cx, ["A14"], "text.invalid", g2.is_err(), "malformed label file {:?}: labels() = {:?}", String::from_utf8_lossy(&text), g2);
            chk!(cx, ["A14"], "text.invalid", g3.is_err(), "malformed label file {:?}: cached label store opened", String::from_utf8_lossy(&text));
        }
    }
}
