//! Layer names as text.
use crate::ctx::*;
use crate::util::*;
use crate::Fam;
use terminus_store::storage::{name_to_string, string_to_name};

pub const FAM: Fam = Fam { name: "names", run, quick: 4000, thorough: 400000,
    bound: "per case one random or boundary name, all 40 single-character mutations of its text for a random character, and texts of every length 0-90 and multi-byte texts" };

fn run(cx: &mut Cx, seed: u64, i: u64) {
    let mut r = Rng::new(seed, 7_000_000 + i);
    let n: [u32; 5] = match i % 7 {
        0 => [0; 5],
        1 => [u32::MAX; 5],
        2 => { let mut n = [0; 5]; n[r.below(5)] = 1 << r.below(32); n }
        3 => { let mut n = [u32::MAX; 5]; n[r.below(5)] = r.next() as u32 & 0xfff; n }
        _ => [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32],
    };
    cx.nontrivial = true;
    cx.ph(&["A17"], format!("name {:?}", n));
    let t = name_to_string(n);
    chk!(cx, ["A17"], "to_string", t == nm(n), "name {:?} converts to {:?}", n, t);
    chk!(cx, ["A17"], "to_string", t.len() == 40 && t.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)), "text {:?} is not 40 lower-case hex digits", t);
    let back = string_to_name(&t);
    chk!(cx, ["A17"], "round", matches!(&back, Ok(b) if *b == n), "text {:?} of {:?} converts back to {:?}", t, n, back);
    let mut m = n;
    m[r.below(5)] ^= 1 << r.below(32);
    chk!(cx, ["A17"], "distinct", name_to_string(m) != t, "names {:?} and {:?} share a text", n, m);
    let bad = *r.pick(&["g", "G", "z", "+", "-", " ", "/", ":", "@", "`", "\n", "\0", "x", "_", "\u{7f}"]);
    for p in 0..40 {
        let s = format!("{}{}{}", &t[..p], bad, &t[p + 1..]);
        cx.ph(&["A17"], String::new());
        let g = string_to_name(&s);
        chk!(cx, ["A17"], "malformed", g.is_err(), "text {:?} was accepted as {:?}", s, g);
    }
    let multi = *r.pick(&["\u{e9}", "\u{20ac}", "\u{1f600}", "\u{660}", "\u{ff11}"]);
    for p in 0..=(40 - multi.len()) {
        let s = format!("{}{}{}", &t[..p], multi, &t[p + multi.len()..]);
        cx.ph(&["A17"], format!("multi-byte {:?}", s));
        let g = string_to_name(&s);
        cx.log.pop();
        chk!(cx, ["A17"], "malformed", g.is_err(), "text {:?} was accepted as {:?}", s, g);
        let s = format!("{}{}{}", &t[..p], multi, &t[p + 1..]);
        chk!(cx, ["A17"], "malformed", string_to_name(&s).is_err(), "text {:?} was accepted", s);
    }
    let tt = format!("{}{}{}", t, t, t);
    for k in 0..=90 {
        if k == 40 { continue }
        let s = &tt[..k];
        let g = string_to_name(s);
        chk!(cx, ["A17"], "length", g.is_err(), "text {:?} of length {} was accepted as {:?}", s, k, g);
    }
    // upper case hex digits are hex digits too: either refused or read as the same name
    let u = t.to_uppercase();
    if let Ok(g) = string_to_name(&u) { chk!(cx, ["A17"], "upper", g == n, "text {:?} read as {:?}", u, g); }
}
