//! Bounded companion of the deductive checks: executes the real crate (path
//! dependency on /repo) against reference models.  It never counts as proof;
//! it supplies failing inputs for obligations the verifier rejects, and is
//! the labelled bounded stand-in for functions outside the verifier's reach.
#[macro_use]
mod ctx;
mod util;
mod memfiles;
mod model;
mod history;
mod pattern;
mod layout;
mod labels;
mod heads;
mod archive;
mod names;
mod pack;
mod builder;
mod lru;

use ctx::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Fam {
    pub name: &'static str,
    /// run case number `i` with the given seed; `i` orders cases from small to large
    pub run: fn(cx: &mut Cx, seed: u64, i: u64),
    /// number of cases at the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub bound: &'static str,
}

fn fams() -> Vec<Fam> {
    vec![
        history::FAM, history::FAM_SMALL, pattern::FAM, layout::FAM, layout::FAM_CHILD, labels::FAM, labels::FAM_TEXT,
        heads::FAM, archive::FAM, archive::FAM_HEADER, names::FAM, pack::FAM, builder::FAM, builder::FAM_DELTA, lru::FAM, history::FAM_MERGE,
        history::FAM_STORE,
    ]
}

fn fam_for(prop: &str) -> Vec<&'static str> {
    match prop {
        "A01" | "A02" => vec!["layout", "layout_child", "history_small", "history", "pattern", "store"],
        "A03" => vec!["history_small", "history", "layout_child", "store"],
        "A04" => vec!["history_small", "history", "pattern", "layout_child", "store"],
        "A05" | "A06" | "A07" => vec!["history_small", "history", "layout", "layout_child", "store"],
        "A08" => vec!["history_small", "history", "pattern", "store"],
        "A09" => vec!["history_small", "history", "pattern", "store"],
        "A10" => vec!["merge", "history"],
        "A11" => vec!["pattern", "history_small", "history"],
        "A12" => vec!["history_small", "history", "store"],
        "A13" => vec!["labels"],
        "A14" => vec!["label_text", "labels"],
        "A15" => vec!["heads"],
        "A16" => vec!["archive_header", "archive"],
        "A17" => vec!["names"],
        "A18" => vec!["pack"],
        "A19" => vec!["history_small", "history", "store", "archive"],
        "A20" => vec!["history_small", "history", "store"],
        "A21" => vec!["delta", "store"],
        "A22" => vec!["builder"],
        "A23" => vec!["lru"],
        _ => vec![],
    }
}

fn main() {
    let mut prop = None;
    let mut fam = None;
    let mut seed = 1u64;
    let mut tier = "quick".to_string();
    let mut seconds = 60u64;
    let mut case = None;
    let mut out = None;
    let mut verbose = false;
    let mut scale = 1.0f64;
    let mut known: Vec<String> = vec![];
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "--property" => prop = a.next(),
            "--family" => fam = a.next(),
            "--seed" => seed = a.next().unwrap().parse().unwrap(),
            "--tier" => tier = a.next().unwrap(),
            "--seconds" => seconds = a.next().unwrap().parse().unwrap(),
            "--case" => case = Some(a.next().unwrap().parse::<u64>().unwrap()),
            "--out" => out = a.next(),
            "--scale" => scale = a.next().unwrap().parse().unwrap(),
            "--known" => known.push(a.next().unwrap()),
            "-v" => verbose = true,
            _ => panic!("unknown argument {}", x),
        }
    }
    let prop = prop.unwrap_or_default();
    let names: Vec<String> = match &fam {
        Some(f) => f.split(',').map(|s| s.to_string()).collect(),
        None => fam_for(&prop).into_iter().map(|s| s.to_string()).collect(),
    };
    util::init();
    let all = fams();
    let start = Instant::now();
    let mut report: Vec<(String, u64, u64, BTreeMap<String, u64>, &'static str, Vec<String>)> = vec![];
    let fails: Arc<Mutex<Vec<(String, u64, Fail, Vec<String>)>>> = Default::default();
    let nf = names.len().max(1) as u64;
    for (fi, n) in names.iter().enumerate() {
        let f = all.iter().find(|f| f.name == n).expect("family");
        let mut total = if tier == "quick" { f.quick } else { f.thorough };
        total = ((total as f64) * scale).ceil() as u64;
        let left = Duration::from_secs(seconds).saturating_sub(start.elapsed());
        let deadline = Instant::now() + left / (nf as u32 - fi as u32);
        let next = Arc::new(AtomicU64::new(0));
        let done = Arc::new(AtomicU64::new(0));
        let nontrivial = Arc::new(AtomicU64::new(0));
        let counts: Arc<Mutex<BTreeMap<String, u64>>> = Default::default();
        let samples: Arc<Mutex<Vec<String>>> = Default::default();
        let threads = if case.is_some() { 1 } else { 8 };
        let mut hs = vec![];
        for _ in 0..threads {
            let (next, done, nontrivial, counts, fails, prop, run, fname, samples, known) = (
                next.clone(), done.clone(), nontrivial.clone(), counts.clone(), fails.clone(), prop.clone(), f.run, f.name, samples.clone(), known.clone());
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
                let i = match case { Some(c) => { if next.fetch_add(1, Ordering::SeqCst) > 0 { break } c } None => next.fetch_add(1, Ordering::SeqCst) };
                if case.is_none() && (i >= total || Instant::now() > deadline) { break }
                if case.is_none() && fails.lock().unwrap().iter().any(|(f, c, _, _)| f == fname && *c < i) { break }
                let mut cx = Cx::new(&prop, verbose, known.clone());
                run_case(&mut cx, run, seed, i);
                done.fetch_add(1, Ordering::SeqCst);
                if cx.nontrivial { nontrivial.fetch_add(1, Ordering::SeqCst); }
                {
                    let mut c = counts.lock().unwrap();
                    for (k, v) in cx.checks.iter() { *c.entry(k.to_string()).or_default() += v; }
                }
                if cx.nontrivial {
                    let mut s = samples.lock().unwrap();
                    if s.len() < 2 { s.push(format!("case {}: {}", i, cx.log.iter().take(12).cloned().collect::<Vec<_>>().join("; ").chars().take(700).collect::<String>())); }
                }
                for fl in cx.fails.drain(..) {
                    fails.lock().unwrap().push((fname.to_string(), i, fl, cx.log.clone()));
                }
            }).unwrap());
        }
        for h in hs { h.join().unwrap(); }
        let c = counts.lock().unwrap().clone();
        let s = samples.lock().unwrap().clone();
        report.push((f.name.to_string(), done.load(Ordering::SeqCst), nontrivial.load(Ordering::SeqCst), c, f.bound, s));
    }
    util::cleanup();
    let mut fl = fails.lock().unwrap().clone();
    fl.sort_by_key(|(f, i, _, _)| (f.clone(), *i));
    let mut js = String::from("{\"families\":[");
    for (k, (n, d, nt, c, b, s)) in report.iter().enumerate() {
        if k > 0 { js.push(',') }
        js.push_str(&format!("{{\"family\":{},\"cases\":{},\"nontrivial\":{},\"bound\":{},\"samples\":[{}],\"checks\":{{{}}}}}", q(n), d, nt, q(b),
            s.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
            c.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",")));
    }
    js.push_str("],\"fails\":[");
    for (k, (f, i, fl, log)) in fl.iter().enumerate() {
        if k >= 20 { break }
        if k > 0 { js.push(',') }
        js.push_str(&format!("{{\"family\":{},\"case\":{},\"seed\":{},\"tags\":{},\"site\":{},\"known\":{},\"msg\":{},\"log\":[{}]}}", q(f), i, seed, q(&fl.tags), q(&fl.site), fl.known, q(&fl.msg),
            log.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")));
    }
    js.push_str(&format!("],\"wall_s\":{:.2}}}", start.elapsed().as_secs_f64()));
    if let Some(o) = out { std::fs::write(o, &js).unwrap(); }
    for (n, d, nt, c, _, _) in &report {
        println!("family {} cases {} nontrivial {} checks {:?}", n, d, nt, c);
    }
    for (f, i, x, log) in fl.iter().take(if verbose { 50 } else { 3 }) {
        println!("FAIL family={} case={} tags={} site={} known={} {}", f, i, x.tags, x.site, x.known, x.msg);
        if verbose { for l in log { println!("    {}", l) } }
    }
    println!("wall {:.2}", start.elapsed().as_secs_f64());
    std::process::exit(if fl.iter().any(|x| !x.2.known) { 1 } else { 0 });
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run_case(cx: &mut Cx, run: fn(&mut Cx, u64, u64), seed: u64, i: u64) {
    util::take_panic();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(cx, seed, i)));
    if let Err(e) = r {
        if e.downcast_ref::<Stop>().is_some() { return }
        let m = util::take_panic().unwrap_or_else(|| "panic".into());
        let tags = cx.phase.clone();
        let t: Vec<&str> = tags.split(',').collect();
        cx.fail(&t, "panic", format!("panic in the code under test during phase {}: {}", tags, m));
    }
}
