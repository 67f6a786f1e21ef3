//! vx: mechanical extraction of functions from the code under test into a Verus file.
//!
//! usage: vx REPO_SRC UNIT.vx OUT.rs OUT.json
//!
//! A unit file is Verus source (prelude, external stubs, lemmas) with blocks
//!
//!   @@fn FILE :: SELECTOR          or    @@item FILE :: struct NAME
//!   @directive ...
//!   @@end
//!
//! that are replaced by the text of that item of the code under test, taken from
//! the current source on every run.  Contracts and invariants are inserted; the
//! executable tokens are the source's, except for the rewritings listed in
//! DESIGN.md ("What the extraction changes"), each of which is counted in OUT.json.
mod desugar;
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::VisitMut;

pub fn die(m: String) -> ! {
    eprintln!("vx: {}", m);
    println!("UNDECIDED {}", m);
    std::process::exit(2);
}

/// prints tokens, starting a new line whenever the source did
struct Printer { out: String, line: usize, map: Vec<(usize, usize)>, cur: usize, after_word: bool, indent: usize, joint: bool }
impl Printer {
    fn new() -> Self { Printer { out: String::new(), line: 0, map: vec![], cur: 0, after_word: false, indent: 0, joint: false } }
    fn nl(&mut self) {
        self.out.push('\n');
        for _ in 0..self.indent { self.out.push_str("    "); }
        self.cur += 1;
        self.after_word = false;
    }
    fn put(&mut self, s: &str, line: usize, glue: bool) {
        if line > 1 && line != self.line {
            self.line = line;
            self.nl();
            self.map.push((self.cur, line));
        }
        if self.after_word && !glue { self.out.push(' '); }
        self.out.push_str(s);
        self.after_word = true;
    }
    fn print(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    let l = g.span_open().start().line;
                    self.put(o, l, self.joint);
                    self.joint = false;
                    self.indent += 1;
                    self.print(g.stream());
                    self.indent -= 1;
                    if o == "{" { self.nl(); }
                    self.put(c, 0, false);
                    if o == "{" { self.nl(); }
                }
                TokenTree::Punct(p) => {
                    let l = p.span().start().line;
                    let s = p.as_char().to_string();
                    self.put(&s, l, self.joint);
                    self.joint = p.spacing() == proc_macro2::Spacing::Joint;
                    if s == "'" { self.after_word = false; }
                    if s == ";" { self.nl(); }
                }
                TokenTree::Ident(i) => { let l = i.span().start().line; let j = self.joint; self.joint = false; self.put(&i.to_string(), l, j); }
                TokenTree::Literal(i) => { let l = i.span().start().line; let j = self.joint; self.joint = false; self.put(&i.to_string(), l, j); }
            }
        }
    }
}
pub fn text<T: ToTokens>(t: &T) -> String {
    let mut p = Printer::new();
    p.print(t.to_token_stream());
    p.out
}

#[derive(Default, Clone)]
pub struct Block {
    pub kind: String,
    pub file: String,
    pub sel: String,
    pub spec: String,
    pub ret: Option<String>,
    pub attr: String,
    pub name: Option<String>,
    pub loops: BTreeMap<String, String>,
    pub closures: BTreeMap<String, (String, String)>,
    pub loopattrs: BTreeMap<String, String>,
    pub ats: Vec<(String, String)>,
    pub subst: Vec<(String, String)>,
    pub pre: Vec<(String, String)>,
    pub thread: Vec<(String, String, Vec<String>)>,
    pub params: Vec<String>,
    pub generic: Vec<(String, String)>,
    pub result: Vec<String>,
    pub macros: Vec<(String, String)>,
    pub derive: Option<String>,
    pub flags: Vec<String>,
    pub props: Vec<String>,
}

fn parse_block(head: &str, lines: &[&str]) -> Block {
    let mut b = Block::default();
    let (kind, rest) = head.trim_start_matches("@@").split_once(' ').unwrap();
    b.kind = kind.to_string();
    let (f, s) = rest.split_once("::").unwrap_or_else(|| die(format!("bad block head {}", head)));
    b.file = f.trim().to_string();
    b.sel = s.trim().to_string();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with('@') { if l.trim().is_empty() { i += 1; continue } die(format!("stray line in block {}: {}", head, l)) }
        let (d, first) = match l[1..].split_once(' ') { Some((d, f)) => (d.to_string(), f.to_string()), None => (l[1..].to_string(), String::new()) };
        let mut body = vec![];
        i += 1;
        while i < lines.len() && !lines[i].starts_with('@') { body.push(lines[i]); i += 1; }
        let body = body.join("\n");
        match d.as_str() {
            "ret" => b.ret = Some(first.trim().to_string()),
            "spec" => b.spec = format!("{}\n{}", first, body),
            "attr" => b.attr = format!("{}{}\n", b.attr, first),
            "name" => b.name = Some(first.trim().to_string()),
            "loop" => { b.loops.insert(first.trim().to_string(), body); }
            "loopattr" => { let (k, t) = first.trim().split_once(' ').unwrap(); b.loopattrs.insert(k.to_string(), t.to_string()); }
            // @closure K PARAMS   types and contract for the K-th closure of the body
            "closure" => { let (k, ps) = first.trim().split_once(' ').unwrap(); b.closures.insert(k.to_string(), (ps.to_string(), body)); }
            "at" => b.ats.push((first.trim().to_string(), body)),
            "subst" => { let (a, c) = first.split_once("=>").unwrap(); b.subst.push((a.trim().to_string(), c.trim().to_string())); }
            // @thread w : TYPE ; f g h   adds the parameter w and hands it to the calls of f, g and h
            "thread" => {
                let (p, fs) = first.split_once(';').unwrap();
                let (n, t) = p.split_once(':').unwrap();
                b.thread.push((n.trim().to_string(), t.trim().to_string(), fs.split_whitespace().map(|s| s.to_string()).collect()));
            }
            // @generic P = TYPE   the instance of a generic function at TYPE
            "generic" => { let (a, c) = first.split_once('=').unwrap(); b.generic.push((a.trim().to_string(), c.trim().to_string())); }
            "param" => b.params.push(first.trim().to_string()),
            "pre" => { let (a, c) = first.split_once("=>").unwrap(); b.pre.push((a.trim().to_string(), c.trim().to_string())); }
            "result" => b.result = first.split_whitespace().map(|s| s.to_string()).collect(),
            "macro" => { let (a, c) = first.split_once("=>").unwrap(); b.macros.push((a.trim().to_string(), c.trim().to_string())); }
            "derive" => b.derive = Some(first.trim().to_string()),
            "props" => b.props = first.split_whitespace().map(|s| s.to_string()).collect(),
            "flag" => b.flags.push(first.trim().to_string()),
            _ => die(format!("unknown directive @{} in {}", d, head)),
        }
    }
    b
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => text(t).replace(' ', ""),
    }
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| { let s = a.to_token_stream().to_string().replace(' ', ""); s.contains("cfg(test)") || s.contains("tokio::test") || s == "#[test]" })
}
fn has_cfg(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") || a.path().is_ident("cfg_attr")) }

pub enum Found { Fn(syn::Signature, syn::Block, usize), Item(syn::Item, usize) }

fn find(file: &syn::File, sel: &str) -> Vec<Found> {
    let mut res = vec![];
    let items: Vec<&syn::Item> = file.items.iter().collect();
    let parts: Vec<&str> = sel.split("::").map(|s| s.trim()).collect();
    for it in items {
        match it {
            syn::Item::Fn(f) if !is_test(&f.attrs) && parts.len() == 1 && sel == format!("fn {}", f.sig.ident) => {
                if has_cfg(&f.attrs) { die(format!("{} is conditionally compiled", sel)) }
                res.push(Found::Fn(f.sig.clone(), (*f.block).clone(), f.sig.ident.span().start().line));
            }
            syn::Item::Impl(im) if parts.len() == 2 && parts[0].starts_with("impl ") => {
                let ty = last_ident(&im.self_ty);
                let h = match &im.trait_ { Some((_, p, _)) => format!("impl {} for {}", p.segments.last().unwrap().ident, ty), None => format!("impl {}", ty) };
                // with the trait's arguments, where several impls of a trait have to be told apart
                let full = match &im.trait_ { Some((_, p, _)) => format!("impl{}for{}", p.segments.last().unwrap().to_token_stream(), ty).replace(' ', ""), None => String::new() };
                if h != parts[0] && full != parts[0].replace(' ', "") { continue }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == parts[1].trim_start_matches("fn ") && !is_test(&f.attrs) {
                            if has_cfg(&f.attrs) { die(format!("{} is conditionally compiled", sel)) }
                            res.push(Found::Fn(f.sig.clone(), f.block.clone(), f.sig.ident.span().start().line));
                        }
                    }
                }
            }
            syn::Item::Trait(t) if parts.len() == 2 && parts[0] == format!("trait {}", t.ident) => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == parts[1].trim_start_matches("fn ") {
                            if let Some(b) = &f.default { res.push(Found::Fn(f.sig.clone(), b.clone(), f.sig.ident.span().start().line)); }
                        }
                    }
                }
            }
            syn::Item::Struct(s) if sel == format!("struct {}", s.ident) => res.push(Found::Item(it.clone(), s.ident.span().start().line)),
            syn::Item::Enum(s) if sel == format!("enum {}", s.ident) => res.push(Found::Item(it.clone(), s.ident.span().start().line)),
            syn::Item::Const(s) if sel == format!("const {}", s.ident) => res.push(Found::Item(it.clone(), s.ident.span().start().line)),
            syn::Item::Static(s) if sel == format!("static {}", s.ident) => res.push(Found::Item(it.clone(), s.ident.span().start().line)),
            _ => {}
        }
    }
    res
}

/// statements compiled on another platform only; other conditions are refused by Strip
struct Platform;
fn platform(a: &mut Vec<syn::Attribute>) -> bool {
    let mut keep = true;
    a.retain(|x| {
        if !x.path().is_ident("cfg") { return true }
        let s: String = flat(x.to_token_stream()).join("");
        match s.as_str() {
            "#[cfg(target_os=\"windows\")]" | "#[cfg(windows)]" | "#[cfg(not(unix))]" => { keep = false; false }
            "#[cfg(not(target_os=\"windows\"))]" | "#[cfg(not(windows))]" | "#[cfg(unix)]" => false,
            _ => true,
        }
    });
    keep
}
impl VisitMut for Platform {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain_mut(|s| match s { syn::Stmt::Local(l) => platform(&mut l.attrs), syn::Stmt::Expr(syn::Expr::Block(x), _) => platform(&mut x.attrs), _ => true });
        syn::visit_mut::visit_block_mut(self, b);
    }
}
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        for x in a.iter() { if x.path().is_ident("cfg") { die("conditionally compiled code inside an extracted item".into()) } }
        a.clear();
    }
}

/// token-wise replacement on printed text (whitespace-insensitive)
fn subst(s: &str, from: &str, to: &str) -> (String, usize) {
    let norm = |x: &str| -> Vec<String> { x.parse::<TokenStream>().map(flat).unwrap_or_else(|_| die(format!("bad @subst {}", x))) };
    let pat = norm(from);
    // scan the text for the token sequence
    let mut out = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    let mut n = 0;
    'o: while i < b.len() {
        let mut j = i;
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if !(i > 0 && word(b[i - 1]) && word(b[i])) {
            let mut ok = true;
            for (k, t) in pat.iter().enumerate() {
                if k > 0 { while j < b.len() && (b[j] as char).is_whitespace() { j += 1; } }
                if !s[j..].starts_with(t.as_str()) { ok = false; break }
                let e = j + t.len();
                if word(*t.as_bytes().last().unwrap()) && e < b.len() && word(b[e]) { ok = false; break }
                j = e;
            }
            if ok && !pat.is_empty() { out.push_str(to); i = j; n += 1; continue 'o }
        }
        let c = s[i..].chars().next().unwrap();
        out.push(c);
        i += c.len_utf8();
    }
    (out, n)
}
fn flat(ts: TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                v.push(o.into()); v.extend(flat(g.stream())); v.push(c.into());
            }
            t => v.push(t.to_string()),
        }
    }
    v.retain(|x| !x.is_empty());
    v
}

fn replace_marker(s: String, mark: &str, with: &str, brace: bool) -> (String, bool) {
    // mark is e.g. __vx_loop ! (c0) ;   (printed by Printer, so whitespace varies)
    let pat: Vec<String> = flat(mark.parse().unwrap());
    let b = s.as_bytes();
    for i in 0..b.len() {
        if !s.is_char_boundary(i) { continue }
        let mut j = i;
        let mut ok = true;
        for (k, t) in pat.iter().enumerate() {
            if k > 0 { while j < b.len() && (b[j] as char).is_whitespace() { j += 1; } }
            if !s[j..].starts_with(t.as_str()) { ok = false; break }
            j += t.len();
        }
        if !ok { continue }
        if brace {
            let o = s[..i].rfind('{').unwrap();
            if !s[o + 1..i].trim().is_empty() { die(format!("marker {} is not at the start of its block", mark)) }
            return (format!("{}\n{}\n{{{}", &s[..o], with, &s[j..]), true);
        }
        return (format!("{}\n{}\n{}", &s[..i], with, &s[j..]), true);
    }
    (s, false)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, unit, out, js) = (&a[1], &a[2], &a[3], &a[4]);
    let dir = std::path::Path::new(unit).parent().unwrap().to_path_buf();
    let mut utext = std::fs::read_to_string(unit).unwrap();
    // @@include FILE
    loop {
        let Some(p) = utext.find("@@include ") else { break };
        let e = utext[p..].find('\n').unwrap() + p;
        let f = utext[p + 10..e].trim().to_string();
        let inc = std::fs::read_to_string(dir.join(&f)).unwrap_or_else(|_| die(format!("include {}", f)));
        utext = format!("{}{}{}", &utext[..p], inc, &utext[e + 1..]);
    }
    let lines: Vec<&str> = utext.lines().collect();
    let mut res = String::new();
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    let mut report = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if !l.starts_with("@@") { res.push_str(l); res.push('\n'); i += 1; continue }
        let mut j = i + 1;
        while j < lines.len() && lines[j] != "@@end" { j += 1; }
        if j == lines.len() { die(format!("block without @@end: {}", l)) }
        let b = parse_block(l, &lines[i + 1..j]);
        i = j + 1;
        if !files.contains_key(&b.file) {
            let p = format!("{}/{}", src, b.file);
            let t = std::fs::read_to_string(&p).unwrap_or_else(|_| die(format!("no file {}", p)));
            files.insert(b.file.clone(), syn::parse_file(&t).unwrap_or_else(|e| die(format!("cannot parse {}: {}", p, e))));
        }
        let mut f = find(&files[&b.file], &b.sel);
        if f.len() != 1 { die(format!("{} :: {} found {} times", b.file, b.sel, f.len())) }
        let mut notes: BTreeMap<String, usize> = BTreeMap::new();
        let start = res.matches('\n').count() + 1;
        let line;
        let mut srcmap = vec![];
        match f.remove(0) {
            Found::Item(mut it, l) => {
                line = l;
                let mut derives: Vec<String> = vec![];
                if let syn::Item::Struct(st) = &it { for a in &st.attrs { if a.path().is_ident("derive") { derives.extend(flat(a.to_token_stream()).into_iter().filter(|t| t.chars().next().unwrap().is_alphabetic())); } } }
                Strip.visit_item_mut(&mut it);
                if b.flags.iter().any(|f| f == "pub") { pub_fields(&mut it); }
                let mut t = text(&it);
                for (x, y) in &b.subst { let (r, n) = subst(&t, x, y); if n == 0 { die(format!("@subst {} does not apply to {}", x, b.sel)) } t = r; *notes.entry(format!("subst {} => {}", x, y)).or_default() += n; }
                res.push_str(&b.attr);
                if let Some(d) = &b.derive { res.push_str(&format!("#[derive({})]\n", d)); }
                res.push_str(&t);
                res.push('\n');
                // the equality #[derive(PartialEq)] gives, and a Clone that copies
                if b.flags.iter().any(|f| f == "derives-eq-clone") && !["PartialEq", "Eq", "Clone"].iter().all(|d| derives.iter().any(|x| x == d)) { die(format!("{} does not derive PartialEq and Clone", b.sel)) }
                if b.flags.iter().any(|f| f == "derives-clone") && !derives.iter().any(|x| x == "Clone") { die(format!("{} does not derive Clone", b.sel)) }
                // the order #[derive(PartialOrd, Ord)] gives: lexicographic over the fields as declared
                if b.flags.iter().any(|f| f == "lexorder") {
                    if !["PartialEq", "Eq", "PartialOrd", "Ord"].iter().all(|d| derives.iter().any(|x| x == d)) { die(format!("{} does not derive its order", b.sel)) }
                    let syn::Item::Struct(st) = &it else { die("lexorder".into()) };
                    let n = &st.ident;
                    let mut e = "false".to_string();
                    for f in st.fields.iter().collect::<Vec<_>>().into_iter().rev() { let f = f.ident.as_ref().unwrap(); e = format!("(a.{f} < b.{f} || (a.{f} == b.{f} && {e}))"); }
                    res.push_str(&format!("pub open spec fn derived_lt(a: {n}, b: {n}) -> bool {{ {e} }}\n"));
                    res.push_str(&format!("{}\n", b.spec));
                }
            }
            Found::Fn(mut sig, mut block, l) => {
                line = l;
                Platform.visit_block_mut(&mut block);
                Strip.visit_signature_mut(&mut sig);
                Strip.visit_block_mut(&mut block);
                let is_async = sig.asyncness.take().is_some();
                if is_async { *notes.entry("async".into()).or_default() += 1; }
                if let Some(n) = &b.name { sig.ident = syn::Ident::new(n, sig.ident.span()); }
                // substitutions on the body as written, before any rewriting
                for (x, y) in &b.pre {
                    let t = block.to_token_stream().to_string();
                    let (r, n) = subst(&t, x, y);
                    if n == 0 { die(format!("@pre {} does not apply to {}", x, b.sel)) }
                    block = syn::parse_str(&r).unwrap_or_else(|e| die(format!("@pre {}: {}", x, e)));
                    *notes.entry(format!("subst {} => {}", x, y)).or_default() += n;
                }
                for (g, t) in &b.generic {
                    let n = sig.generics.params.len();
                    sig.generics.params = sig.generics.params.into_iter().filter(|p| !matches!(p, syn::GenericParam::Type(x) if x.ident == g)).collect();
                    if sig.generics.params.len() == n { die(format!("{} has no type parameter {}", b.sel, g)) }
                    let ty: syn::Type = syn::parse_str(t).unwrap_or_else(|e| die(format!("@generic: {}", e)));
                    let mut v = Inst { g: g.clone(), ty };
                    v.visit_signature_mut(&mut sig);
                    v.visit_block_mut(&mut block);
                    *notes.entry(format!("type parameter {} = {}", g, t)).or_default() += 1;
                }
                // with every type parameter instantiated, the bounds are facts about concrete types, which rustc checks
                if !b.generic.is_empty() && sig.generics.type_params().next().is_none() && sig.generics.where_clause.take().is_some() {
                    *notes.entry("where clause of an instantiated function".into()).or_default() += 1;
                }
                for (n, t, fs) in &b.thread {
                    sig.inputs.push(syn::parse_str(&format!("{}: {}", n, t)).unwrap_or_else(|e| die(format!("@thread: {}", e))));
                    let k = desugar::thread(&mut block, n, fs);
                    *notes.entry(format!("parameter {} made explicit", n)).or_default() += k + 1;
                }
                for p in &b.params { sig.inputs.push(syn::parse_str(p).unwrap_or_else(|e| die(format!("@param: {}", e)))); }
                desugar::async_tail(&mut block, &mut sig.output, &mut notes);
                desugar::split_chains(&mut block, &mut notes);
                let nloops = desugar::mark(&mut block, &b);
                desugar::run(&mut block, &b, &mut notes);
                // `mut self` is not supported: move it into a local of its own
                if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
                    if r.reference.is_none() && r.mutability.take().is_some() {
                        RenameSelf.visit_block_mut(&mut block);
                        block.stmts.insert(0, syn::parse_quote!(let mut __self = self;));
                        *notes.entry("mut self => local".into()).or_default() += 1;
                    }
                }
                let output = std::mem::replace(&mut sig.output, syn::ReturnType::Default);
                let wh = sig.generics.where_clause.take();
                let mut s = format!("{}{}{}", b.attr, if b.flags.iter().any(|f| f == "trait-fn") { "" } else { "pub " }, text(&sig).trim());
                if let syn::ReturnType::Type(_, t) = output {
                    match &b.ret { Some(r) => s.push_str(&format!(" -> ({}: {})", r, text(&*t).trim())), None => s.push_str(&format!(" -> {}", text(&*t).trim())) }
                }
                if let Some(w) = wh { s.push_str(&format!(" {}", text(&w).trim())); }
                let mut p = Printer::new();
                p.cur = 0;
                p.print(block.to_token_stream());
                let mut t = format!("{}\n{}\n{}", s, b.spec, p.out);
                for (x, y) in &b.subst { let (r, n) = subst(&t, x, y); if n == 0 { die(format!("@subst {} does not apply to {}", x, b.sel)) } t = r; *notes.entry(format!("subst {} => {}", x, y)).or_default() += n; }
                for (k, v) in &b.loops {
                    let (r, ok) = replace_marker(t, &format!("__vx_loop!({});", k), v, true);
                    if !ok { die(format!("{} has no loop {}", b.sel, k)) }
                    t = r;
                }
                for (k, (_, v)) in &b.closures {
                    let (r, ok) = replace_marker(t, &format!("__vx_clo!({});", k), v, true);
                    if !ok { die(format!("{} has no closure {}", b.sel, k)) }
                    t = r;
                }
                for (k, (anchor, v)) in b.ats.iter().enumerate() {
                    if anchor == "ret" || anchor.starts_with("ret#") {
                        let mut hits = 0;
                        loop { let (r, ok) = replace_marker(t, &format!("__vx_ret!({});", k), v, false); t = r; if !ok { break } hits += 1; }
                        if hits == 0 { die(format!("{} has no place '{}'", b.sel, anchor)) }
                        continue;
                    }
                    let m = if anchor.starts_with("looppre ") { "__vx_pre" } else { "__vx_at" };
                    let (r, ok) = replace_marker(t, &format!("{}!({});", m, k), v, false);
                    if !ok { die(format!("{} has no place '{}'", b.sel, anchor)) }
                    t = r;
                }
                // remaining loop markers have no annotation
                if t.contains("__vx_loop") { die(format!("{} has a loop without invariant ({} loops)", b.sel, nloops)) }
                srcmap = p.map;
                res.push_str(&t);
                res.push('\n');
            }
        }
        let _ = srcmap;
        let end = res.matches('\n').count();
        report.push(format!("{{\"file\":{:?},\"item\":{:?},\"line\":{},\"out\":[{},{}],\"props\":{:?},\"rewritten\":{{{}}}}}", b.file, b.sel, line, start, end, b.props,
            notes.iter().map(|(k, v)| format!("{:?}:{}", k, v)).collect::<Vec<_>>().join(",")));
    }
    std::fs::write(out, res).unwrap();
    std::fs::write(js, format!("[{}]", report.join(",\n"))).unwrap();
}

struct Inst { g: String, ty: syn::Type }
impl VisitMut for Inst {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        syn::visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t { if p.path.is_ident(&self.g) { *t = self.ty.clone(); } }
    }
}
struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) { if p.path.is_ident("self") { *p = syn::parse_quote!(__self); } }
}
fn pub_fields(it: &mut syn::Item) {
    if let syn::Item::Struct(s) = it {
        s.vis = syn::parse_quote!(pub);
        for f in s.fields.iter_mut() { f.vis = syn::parse_quote!(pub); }
    }
    if let syn::Item::Enum(s) = it { s.vis = syn::parse_quote!(pub); }
    if let syn::Item::Const(s) = it { s.vis = syn::parse_quote!(pub); }
}
