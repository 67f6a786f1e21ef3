//! The rewritings that bring a function body into Verus' subset of Rust.
use crate::{die, Block};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn id(s: &str) -> Ident { Ident::new(s, proc_macro2::Span::call_site()) }
fn marker(name: &str, arg: &str) -> Stmt {
    let n = id(name);
    let a: proc_macro2::TokenStream = arg.parse().unwrap();
    parse_quote!(#n!(#a);)
}

// ---------------------------------------------------------------- markers

struct Marks<'a> { loops: usize, b: &'a Block, seen: BTreeMap<String, usize> }
impl<'a> Marks<'a> {
    fn attrs(&mut self, a: &mut Vec<Attribute>) {
        if let Some(t) = self.b.loopattrs.get(&self.loops.to_string()) {
            let t: proc_macro2::TokenStream = t.parse().unwrap();
            let e: Attribute = parse_quote!(#t);
            a.push(e);
        }
    }
    fn body(&mut self, b: &mut syn::Block) {
        let k = self.loops;
        self.loops += 1;
        visit_mut::visit_block_mut(self, b);
        self.fix(b);
        for (n, (a, _)) in self.b.ats.iter().enumerate() {
            if *a == format!("loopstart {}", k) { b.stmts.insert(0, marker("__vx_at", &n.to_string())); }
            if *a == format!("loopend {}", k) { b.stmts.push(marker("__vx_at", &n.to_string())); }
        }
        for (n, (a, _)) in self.b.ats.iter().enumerate() {
            if *a == format!("looppre {}", k) { b.stmts.insert(0, marker("__vx_pre", &n.to_string())); }
        }
        b.stmts.insert(0, marker("__vx_loop", &k.to_string()));
    }
    fn hit(&mut self, what: String) -> Vec<usize> {
        let c = self.seen.entry(what.clone()).or_default();
        let k = *c;
        *c += 1;
        let full = format!("{}#{}", what, k);
        self.b.ats.iter().enumerate().filter(|(_, (a, _))| *a == full || (k == 0 && *a == what)).map(|(n, _)| n).collect()
    }
    fn fix(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let mut before = vec![];
            let mut after = vec![];
            if let Stmt::Local(l) = &s {
                let mut ps = vec![];
                names(&l.pat, &mut ps);
                for p in ps { after.extend(self.hit(format!("let {}", p))); }
            }
            // calls directly in this statement, outside of nested blocks
            let mut c = Calls(vec![]);
            c.visit_stmt_mut(&mut s.clone());
            for p in c.0 { before.extend(self.hit(format!("call {}", p))); }
            if let Stmt::Expr(Expr::Return(_), _) = &s { before.extend(self.hit("return".into())); }
            if let Stmt::Expr(Expr::Continue(_), _) = &s { before.extend(self.hit("continue".into())); }
            if let Stmt::Expr(Expr::Break(_), _) = &s { before.extend(self.hit("break".into())); }
            if let Stmt::Expr(Expr::Assign(a), _) = &s {
                let t = a.left.to_token_stream().to_string().replace(' ', "");
                after.extend(self.hit(format!("set {}", t)));
            }
            if let Some(k) = loop_of(&s) { for (n, (a, _)) in self.b.ats.iter().enumerate() { if *a == format!("beforeloop {}", k) { before.push(n); } } }
            if let Some(k) = loop_of(&s) { for (n, (a, _)) in self.b.ats.iter().enumerate() { if *a == format!("afterloop {}", k) { after.push(n); } } }
            for n in before { out.push(marker("__vx_at", &n.to_string())); }
            out.push(s);
            for n in after { out.push(marker("__vx_at", &n.to_string())); }
        }
        b.stmts = out;
    }
}
fn loop_of(s: &Stmt) -> Option<String> {
    let Stmt::Expr(e, _) = s else { return None };
    let b = match e { Expr::Loop(l) => &l.body, Expr::While(l) => &l.body, Expr::ForLoop(l) => &l.body, _ => return None };
    for s in &b.stmts { let t = s.to_token_stream().to_string(); if t.starts_with("__vx_loop") { return Some(t.chars().filter(|c| c.is_ascii_digit()).collect()) } }
    None
}
fn names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Type(t) => names(&t.pat, out),
        Pat::Tuple(t) => for e in &t.elems { names(e, out) },
        Pat::TupleStruct(t) => for e in &t.elems { names(e, out) },
        _ => {}
    }
}
/// `return E` as `{ let __ret = E; HINT return __ret; }` where a hint is wanted
struct Rets<'a> { b: &'a Block, k: usize }
impl<'a> VisitMut for Rets<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let k = self.k;
            self.k += 1;
            let hits: Vec<Stmt> = self.b.ats.iter().enumerate().filter(|(_, (a, _))| *a == format!("ret#{}", k) || *a == "ret").map(|(n, _)| marker("__vx_ret", &n.to_string())).collect();
            if !hits.is_empty() {
                let v = r.expr.clone().unwrap_or_else(|| parse_quote!(()));
                *e = parse_quote!({ let __ret = #v; #(#hits)* return __ret; });
            }
        }
    }
}
struct Calls(Vec<String>);
impl VisitMut for Calls {
    fn visit_block_mut(&mut self, _: &mut syn::Block) {}
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) { self.visit_expr_mut(&mut m.expr); }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        if let Expr::Path(p) = &*c.func { self.0.push(p.path.segments.last().unwrap().ident.to_string()); }
        visit_mut::visit_expr_call_mut(self, c);
    }
    fn visit_expr_method_call_mut(&mut self, c: &mut ExprMethodCall) {
        self.0.push(c.method.to_string());
        visit_mut::visit_expr_method_call_mut(self, c);
    }
}
impl<'a> VisitMut for Marks<'a> {
    fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) { self.attrs(&mut e.attrs); self.body(&mut e.body); }
    fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) { self.attrs(&mut e.attrs); self.body(&mut e.body); }
    fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) { self.attrs(&mut e.attrs); self.body(&mut e.body); }
    fn visit_block_mut(&mut self, b: &mut syn::Block) { visit_mut::visit_block_mut(self, b); self.fix(b); }
}
/// contracts for closures that stay closures
struct Clos<'a> { b: &'a Block, k: usize }
impl<'a> VisitMut for Clos<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.k.to_string();
        self.k += 1;
        if let Some((ps, _)) = self.b.closures.get(&k) {
            let t: ExprClosure = parse_str(&format!("|{}| ()", ps)).unwrap_or_else(|e| die(format!("@closure: {}", e)));
            if t.inputs.len() != c.inputs.len() { die("@closure: wrong number of parameters".into()) }
            c.inputs = t.inputs;
            let (m, body) = (marker("__vx_clo", &k), &c.body);
            c.body = Box::new(parse_quote!({ #m #body }));
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
}
pub fn mark(b: &mut syn::Block, blk: &Block) -> usize {
    Clos { b: blk, k: 0 }.visit_block_mut(b);
    let mut m = Marks { loops: 0, b: blk, seen: BTreeMap::new() };
    m.visit_block_mut(b);
    Rets { b: blk, k: 0 }.visit_block_mut(b);
    for (n, (a, _)) in blk.ats.iter().enumerate() {
        if a == "start" { b.stmts.insert(0, marker("__vx_at", &n.to_string())); }
        if a == "end" { b.stmts.push(marker("__vx_at", &n.to_string())); }
        if a == "tail" {
            match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => { let k = b.stmts.len() - 1; b.stmts.insert(k, marker("__vx_at", &n.to_string())) }
                _ => b.stmts.push(marker("__vx_at", &n.to_string())),
            }
        }
    }
    m.loops
}

// ---------------------------------------------------------------- explicit world parameter

struct Thread<'a> { n: Ident, fs: &'a [String], hits: usize }
impl<'a> VisitMut for Thread<'a> {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        visit_mut::visit_expr_method_call_mut(self, m);
        if self.fs.iter().any(|f| m.method == f) { let n = &self.n; m.args.push(parse_quote!(#n)); self.hits += 1; }
    }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if let Expr::Path(p) = &*c.func {
            // a path counts under its last segment, or its last two
            let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let two = if s.len() > 1 { s[s.len() - 2..].join("::") } else { s[0].clone() };
            if self.fs.iter().any(|f| *f == two || f == s.last().unwrap()) { let n = &self.n; c.args.push(parse_quote!(#n)); self.hits += 1; }
        }
    }
}
pub fn thread(b: &mut syn::Block, n: &str, fs: &[String]) -> usize {
    let mut t = Thread { n: id(n), fs, hits: 0 };
    t.visit_block_mut(b);
    t.hits
}

// ---------------------------------------------------------------- desugaring

pub struct D<'a> { b: &'a Block, notes: &'a mut BTreeMap<String, usize>, chains: usize, fresh: usize, closures: Vec<(String, ExprClosure)> }

struct HasRet(bool);
impl VisitMut for HasRet {
    fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) { self.0 = true }
    fn visit_expr_try_mut(&mut self, _: &mut ExprTry) { self.0 = true }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
fn has_ret(e: &Expr) -> bool { let mut h = HasRet(false); h.visit_expr_mut(&mut e.clone()); h.0 }

fn method<'e>(e: &'e Expr) -> Option<&'e ExprMethodCall> { if let Expr::MethodCall(m) = e { Some(m) } else { None } }
fn is_iter_source(m: &str) -> bool { matches!(m, "iter" | "iter_mut" | "into_iter" | "keys" | "values" | "drain" | "bytes" | "chars" | "par_bridge" | "entries" | "into_par_iter" | "lines") }
fn chain_root_is_iter(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if is_iter_source(&n) { return true }
            if matches!(n.as_str(), "map" | "filter" | "enumerate" | "take_while" | "chain" | "filter_map" | "cloned" | "rev" | "skip" | "zip" | "flat_map" | "take" | "skip_while") { return chain_root_is_iter(&m.receiver) }
            false
        }
        Expr::Paren(p) => chain_root_is_iter(&p.expr),
        _ => false,
    }
}

enum F<'e> { C(&'e ExprClosure), P(&'e Expr) }
fn func(e: &Expr) -> Option<F<'_>> {
    match e { Expr::Closure(c) => Some(F::C(c)), Expr::Path(_) => Some(F::P(e)), _ => None }
}

impl<'a> D<'a> {
    fn note(&mut self, s: &str) { *self.notes.entry(s.to_string()).or_default() += 1; }
    fn var(&mut self, s: &str) -> Ident { self.fresh += 1; id(&format!("__{}{}", s, self.fresh)) }
    /// bind the argument `arg` to the parameters of the closure and give its body
    fn apply(&mut self, f: &F<'_>, arg: Expr) -> Expr {
        match f {
            F::C(c) => {
                if has_ret(&c.body) { die("closure containing return or ?".into()) }
                let body = &c.body;
                match c.inputs.len() {
                    0 => (**body).clone(),
                    1 => { let p = &c.inputs[0]; parse_quote!({ let #p = #arg; #body }) }
                    _ => die("closure with several parameters".into()),
                }
            }
            F::P(p) => parse_quote!(#p(#arg)),
        }
    }
    /// pattern and body for a match arm `Some(PAT) => BODY`
    fn arm(&mut self, f: &F<'_>) -> (Pat, Expr) {
        match f {
            F::C(c) => {
                if has_ret(&c.body) { die("closure containing return or ?".into()) }
                if c.inputs.len() != 1 { die("closure with several parameters".into()) }
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                (p, (*c.body).clone())
            }
            F::P(p) => { let v = self.var("v"); (parse_quote!(#v), parse_quote!(#p(#v))) }
        }
    }
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let r = &m.receiver;
        let is_res = self.b.result.iter().any(|x| *x == n);
        let args: Vec<&Expr> = m.args.iter().collect();
        let res: Expr = match (n.as_str(), args.len()) {
            // a lazy take_while keeps its condition as a specification closure
            ("take_while", 1) if self.b.flags.iter().any(|f| f == "lazy") => {
                let F::C(c) = func(args[0])? else { return None };
                if has_ret(&c.body) || c.inputs.len() != 1 { die("take_while condition".into()) }
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let body = &c.body;
                parse_quote!(__take_while(#r, Ghost(|#p: IdTriple| #body)))
            }
            ("map", 1) if !chain_root_is_iter(r) => {
                let f = func(args[0])?;
                let (p, e) = self.arm(&f);
                if is_res { let v = self.var("e"); parse_quote!(match #r { Ok(#p) => Ok(#e), Err(#v) => Err(#v) }) } else { parse_quote!(match #r { Some(#p) => Some(#e), None => None }) }
            }
            ("and_then", 1) => {
                let f = func(args[0])?;
                let (p, e) = self.arm(&f);
                if is_res { let v = self.var("e"); parse_quote!(match #r { Ok(#p) => #e, Err(#v) => Err(#v) }) } else { parse_quote!(match #r { Some(#p) => #e, None => None }) }
            }
            ("map_or", 2) => {
                let f = func(args[1])?;
                let (p, e) = self.arm(&f);
                let d = args[0];
                if has_ret(d) { die("map_or default".into()) }
                parse_quote!(match #r { Some(#p) => #e, None => #d })
            }
            ("ok_or_else", 1) => {
                let f = func(args[0])?;
                let F::C(c) = f else { return None };
                if has_ret(&c.body) { die("closure containing return or ?".into()) }
                let e = &c.body;
                let v = self.var("v");
                parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#e) })
            }
            ("unwrap_or_else", 1) if !is_res => {
                let F::C(c) = func(args[0])? else { return None };
                if has_ret(&c.body) || !c.inputs.is_empty() { return None }
                let e = &c.body;
                let v = self.var("v");
                parse_quote!(match #r { Some(#v) => #v, None => #e })
            }
            ("map_err", 1) => {
                let f = func(args[0])?;
                let (p, e) = self.arm(&f);
                let v = self.var("v");
                parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#e) })
            }
            ("filter", 1) if !chain_root_is_iter(r) && self.b.flags.iter().any(|f| f == "option-filter") => {
                let F::C(c) = func(args[0])? else { return None };
                let v = self.var("v");
                let c2 = self.apply(&F::C(c), parse_quote!(&#v));
                parse_quote!(match #r { Some(#v) => if #c2 { Some(#v) } else { None }, None => None })
            }
            _ => return None,
        };
        self.note(&format!("combinator {}", n));
        Some(res)
    }
    /// iterator chains become loops
    fn chain(&mut self, e: &Expr) -> Option<Expr> {
        let top = method(e)?;
        // collect the stages
        let mut stages: Vec<(String, Vec<Expr>)> = vec![];
        let mut cur: &Expr = e;
        let src: Expr;
        let kind: String;
        let mut post: Option<Expr> = None;
        loop {
            let m = method(cur)?;
            let n = m.method.to_string();
            if is_iter_source(&n) && m.args.is_empty() { kind = n; src = (*m.receiver).clone(); break }
            stages.push((n, m.args.iter().cloned().collect()));
            cur = &m.receiver;
        }
        stages.reverse();
        // MIN.map(f): the map applies to the Option
        let terms = ["collect", "sum", "min_by_key", "position", "any", "all", "for_each", "try_for_each", "find", "count"];
        let tpos = stages.iter().position(|(n, _)| terms.contains(&n.as_str()))?;
        if tpos + 1 < stages.len() {
            if stages[tpos].0 == "min_by_key" && stages[tpos + 1].0 == "map" && stages.len() == tpos + 2 {
                post = Some(stages[tpos + 1].1[0].clone());
                stages.pop();
            } else { return None }
        }
        let _ = top;
        let (term, targs) = stages.pop().unwrap();
        let ck = self.chains;
        self.chains += 1;
        self.note(&format!("iterator chain ending in {}", term));
        let mk = vec![marker("__vx_loop", &format!("c{}", ck))];
        let mut starts = vec![];
        let mut last = vec![];
        for (n, (a, _)) in self.b.ats.iter().enumerate() {
            if *a == format!("loopstart c{}", ck) { starts.push(marker("__vx_at", &n.to_string())); }
            if *a == format!("loopend c{}", ck) { last.push(marker("__vx_at", &n.to_string())); }
        }
        let x = self.var("x");
        let acc = id(&format!("__c{}_acc", ck));
        let mut body: Vec<Stmt> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        let mut val: Expr = parse_quote!(#x);
        for (n, args) in &stages {
            let y = self.var("y");
            match n.as_str() {
                "map" => { let f = func(&args[0])?; let v = self.apply(&f, val); body.push(parse_quote!(let #y = #v;)); }
                "cloned" => { body.push(parse_quote!(let #y = #val.clone();)); }
                "enumerate" => {
                    let c = id(&format!("__c{}_n", ck));
                    pre.push(parse_quote!(let mut #c = 0usize;));
                    body.push(parse_quote!(let #y = (#c, #val);));
                    body.push(parse_quote!(#c = #c + 1;));
                }
                "filter" => {
                    let f = func(&args[0])?;
                    body.push(parse_quote!(let #y = #val;));
                    let c = self.apply(&f, parse_quote!(&#y));
                    body.push(parse_quote!(if !(#c) { continue; }));
                }
                "take_while" => {
                    let f = func(&args[0])?;
                    body.push(parse_quote!(let #y = #val;));
                    let c = self.apply(&f, parse_quote!(&#y));
                    body.push(parse_quote!(if !(#c) { break; }));
                }
                _ => return None,
            }
            val = parse_quote!(#y);
        }
        body.splice(0..0, starts);
        let result: Expr;
        match term.as_str() {
            "collect" => {
                pre.push(parse_quote!(let mut #acc = Vec::new();));
                body.push(parse_quote!(#acc.push(#val);));
                result = parse_quote!(#acc);
            }
            "count" => {
                pre.push(parse_quote!(let mut #acc = 0usize;));
                body.push(parse_quote!(#acc = #acc + 1;));
                result = parse_quote!(#acc);
            }
            "sum" => {
                pre.push(parse_quote!(let mut #acc = 0;));
                body.push(parse_quote!(#acc = #acc + #val;));
                result = parse_quote!(#acc);
            }
            "for_each" => {
                let f = func(&targs[0])?;
                let v = self.apply(&f, val);
                body.push(parse_quote!(let _ = #v;));
                result = parse_quote!(());
            }
            "try_for_each" => {
                pre.push(parse_quote!(let mut #acc = Ok(());));
                let f = func(&targs[0])?;
                let v = self.apply(&f, val);
                let z = self.var("e");
                body.push(parse_quote!(match #v { Ok(_) => {}, Err(#z) => { #acc = Err(#z); break; } }));
                result = parse_quote!(#acc);
            }
            "position" => {
                let c = id(&format!("__c{}_p", ck));
                pre.push(parse_quote!(let mut #acc: Option<usize> = None;));
                pre.push(parse_quote!(let mut #c = 0usize;));
                let f = func(&targs[0])?;
                let v = self.apply(&f, val);
                body.push(parse_quote!(if #v { #acc = Some(#c); break; }));
                body.push(parse_quote!(#c = #c + 1;));
                result = parse_quote!(#acc);
            }
            "any" | "all" => {
                let (init, stop): (Expr, Expr) = if term == "any" { (parse_quote!(false), parse_quote!(true)) } else { (parse_quote!(true), parse_quote!(false)) };
                pre.push(parse_quote!(let mut #acc = #init;));
                let f = func(&targs[0])?;
                let v = self.apply(&f, val);
                if term == "any" { body.push(parse_quote!(if #v { #acc = #stop; break; })); } else { body.push(parse_quote!(if !(#v) { #acc = #stop; break; })); }
                result = parse_quote!(#acc);
            }
            "min_by_key" => {
                let best = id(&format!("__c{}_best", ck));
                let f = func(&targs[0])?;
                let t = self.var("t");
                let key = self.apply(&f, parse_quote!(&#t));
                let kv = self.var("k");
                let out: Expr = match &post { Some(p) => { let f = func(p)?; self.apply(&f, parse_quote!(#t)) } None => parse_quote!(#t) };
                pre.push(parse_quote!(let mut #acc = None;));
                pre.push(parse_quote!(let mut #best = None;));
                body.push(parse_quote!(let #t = #val;));
                body.push(parse_quote!(let #kv = __key(#key);));
                body.push(parse_quote!(let __better = match &#best { None => true, Some(b) => __key_lt(&#kv, b) };));
                body.push(parse_quote!(if __better { #best = Some(#kv); #acc = Some(#out); }));
                result = parse_quote!(#acc);
            }
            _ => return None,
        }
        body.extend(last);
        let i = id(&format!("__c{}_i", ck));
        let expr: Expr = match kind.as_str() {
            "bytes" => {
                let bs = id(&format!("__c{}_b", ck));
                parse_quote!({
                    #(#pre)*
                    let #bs = #src.as_bytes();
                    let mut #i: usize = 0;
                    while #i < #bs.len() {
                        #(#mk)*
                        let #x = #bs[#i];
                        #i = #i + 1;
                        #(#body)*
                    }
                    #result
                })
            }
            "iter" | "iter_mut" if self.b.flags.iter().any(|f| f == "opaque-iter") => {
                let k = id(&kind);
                parse_quote!({
                    #(#pre)*
                    let mut #i = __into_iter(#src.#k());
                    while let Some(#x) = #i.next() {
                        #(#mk)*
                        #(#body)*
                    }
                    #result
                })
            }
            "iter" | "iter_mut" => {
                let (base, lo, hi) = slice_of(&src);
                let item: Expr = if kind == "iter" { parse_quote!(&#base[#i]) } else { parse_quote!(&mut #base[#i]) };
                parse_quote!({
                    #(#pre)*
                    let mut #i: usize = #lo;
                    while #i < #hi {
                        #(#mk)*
                        let #x = #item;
                        #i = #i + 1;
                        #(#body)*
                    }
                    #result
                })
            }
            // a parallel iterator handles the elements in any order
            "par_bridge" => parse_quote!({
                #(#pre)*
                let mut #i = __par(#src);
                while let Some(#x) = #i.next() {
                    #(#mk)*
                    #(#body)*
                }
                #result
            }),
            _ => parse_quote!({
                #(#pre)*
                let mut #i = __into_iter(#src);
                while let Some(#x) = #i.next() {
                    #(#mk)*
                    #(#body)*
                }
                #result
            }),
        };
        Some(expr)
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Expr {
        let label = &f.label;
        let at = &f.attrs;
        let pat = &f.pat;
        let stmts = &f.body.stmts;
        // range loops stay
        if matches!(&*f.expr, Expr::Range(_)) { return Expr::ForLoop(f.clone()) }
        let np = 1 + stmts[1..].iter().take_while(|s| s.to_token_stream().to_string().starts_with("__vx_pre")).count();
        let (firsts, rest) = stmts.split_at(np);
        let first = &firsts[0];
        self.note("for loop");
        let lk: String = first.to_token_stream().to_string().chars().filter(|c| c.is_ascii_digit()).collect();
        let i = id(&format!("__f{}", lk));
        if let Some(m) = method(&f.expr) {
            let n = m.method.to_string();
            if (n == "iter" || n == "iter_mut") && m.args.is_empty() && !self.b.flags.iter().any(|f| f == "opaque-iter") {
                let (base, lo, hi) = slice_of(&m.receiver);
                let item: Expr = if n == "iter" { parse_quote!(&#base[#i]) } else { parse_quote!(&mut #base[#i]) };
                return parse_quote!({
                    let mut #i: usize = #lo;
                    #(#at)* #label while #i < #hi {
                        #(#firsts)*
                        let #pat = #item;
                        #i = #i + 1;
                        #(#rest)*
                    }
                });
            }
        }
        if let Some(m) = method(&f.expr) {
            if m.method == "enumerate" && m.args.is_empty() {
                if let Some(m2) = method(&m.receiver) {
                    if m2.method == "iter" && m2.args.is_empty() && !self.b.flags.iter().any(|f| f == "opaque-iter") {
                        let base = &m2.receiver;
                        return parse_quote!({
                            let mut #i: usize = 0;
                            #(#at)* #label while #i < #base.len() {
                                #(#firsts)*
                                let #pat = (#i, &#base[#i]);
                                #i = #i + 1;
                                #(#rest)*
                            }
                        });
                    }
                }
            }
        }
        let e = &f.expr;
        parse_quote!({
            let mut #i = __into_iter(#e);
            #(#at)* #label while let Some(#pat) = #i.next() {
                #(#firsts)*
                #(#rest)*
            }
        })
    }
}
fn slice_of(e: &Expr) -> (Expr, Expr, Expr) {
    if let Expr::Index(ix) = e {
        if let Expr::Range(r) = &*ix.index {
            let b = (*ix.expr).clone();
            let lo: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or_else(|| parse_quote!(0));
            let hi: Expr = match &r.end { Some(x) => (**x).clone(), None => parse_quote!(#b.len()) };
            if !matches!(r.limits, RangeLimits::HalfOpen(_)) { die("inclusive slice".into()) }
            return (b, lo, hi);
        }
    }
    (e.clone(), parse_quote!(0), parse_quote!(#e.len()))
}

impl<'a> VisitMut for D<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // closures bound to a name are inlined where they are called
        let mut out = vec![];
        let depth = self.closures.len();
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s { if m.mac.path.segments.last().map_or(false, |x| x.ident == "chrono_log") { self.note("chrono_log! dropped (logging, compiled out)"); continue } }
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        if p.mutability.is_none() { self.closures.push((p.ident.to_string(), c.clone())); self.note("local closure inlined"); continue }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        self.closures.truncate(depth);
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(n) = m.mac.path.get_ident() {
                let n = n.to_string();
                if n.starts_with("__vx") { return }
                let semi = m.semi_token;
                let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                self.visit_expr_mut(&mut e);
                *s = Stmt::Expr(e, semi.or(Some(Default::default())));
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        // a block produced for a `for` loop is a statement
        if let Stmt::Expr(Expr::Block(_), semi) = s { let _ = semi; }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a lazy chain without effects, given as an argument, is collected first
        if self.b.flags.iter().any(|f| f == "eager-args") {
            if let Expr::MethodCall(m) = e {
                for a in m.args.iter_mut() {
                    let lazy = match method(a) { Some(c) => matches!(c.method.to_string().as_str(), "map" | "filter" | "cloned") && chain_root_is_iter(a), None => false };
                    if lazy { let x = a.clone(); *a = parse_quote!(#x.collect()); self.note("iterator argument => collected first"); }
                }
            }
        }
        // chains are recognised before their parts are rewritten
        if let Expr::MethodCall(_) = e {
            if chain_has_closure(e) {
                if let Some(n) = self.chain(e) { *e = n; visit_mut::visit_expr_mut(self, e); return }
            }
        }
        // rayon::join(|| A, || B) as (A, B): each side is taken to be made of operations that do not depend on the interleaving
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), 2) = (&*c.func, c.args.len()) {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s == ["rayon", "join"] {
                    if let (Expr::Closure(a), Expr::Closure(b)) = (&c.args[0], &c.args[1]) {
                        if has_ret(&a.body) || has_ret(&b.body) { die("closure containing return or ?".into()) }
                        let (x, y) = (&a.body, &b.body);
                        let new: Expr = parse_quote!((#x, #y));
                        self.note("rayon::join => both sides in turn");
                        *e = new;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(n) = p.path.get_ident() {
                    if let Some((_, cl)) = self.closures.iter().rev().find(|(k, _)| n == k).cloned() {
                        if has_ret(&cl.body) { die("closure containing return or ?".into()) }
                        if cl.inputs.len() != c.args.len() { die("closure arity".into()) }
                        let ps: Vec<_> = cl.inputs.iter().collect();
                        let asg: Vec<_> = c.args.iter().collect();
                        let body = &cl.body;
                        *e = parse_quote!({ #(let #ps = #asg;)* #body });
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if let Some((_, to)) = self.b.macros.iter().find(|(a, _)| *a == n).cloned() {
                let f = id(&to);
                let t = m.mac.tokens.clone();
                self.note(&format!("macro {}! => {}", n, to));
                *e = parse_quote!(#f(#t));
                self.visit_expr_mut(e);
                return;
            }
            match n.as_str() {
                "format" if self.b.flags.iter().any(|f| f == "fmt") => {
                    let args: punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap_or_else(|_| die("format! arguments".into()));
                    let Expr::Lit(ExprLit { lit: Lit::Str(t), .. }) = &args[0] else { die("format! template".into()) };
                    let mut xs: Vec<Expr> = vec![];
                    let mut pos = args.iter().skip(1);
                    // captured names become positional arguments
                    let t = t.value();
                    let mut o = String::new();
                    let cs: Vec<char> = t.chars().collect();
                    let mut k = 0;
                    while k < cs.len() {
                        o.push(cs[k]);
                        if cs[k] == '{' {
                            if k + 1 < cs.len() && cs[k + 1] == '{' { o.push('{'); k += 2; continue }
                            let mut n = String::new();
                            k += 1;
                            while k < cs.len() && cs[k] != '}' && cs[k] != ':' { n.push(cs[k]); k += 1; }
                            if n.is_empty() { match pos.next() { Some(x) => xs.push(x.clone()), None => die("format! arguments".into()) } }
                            else if n.chars().next().unwrap().is_alphabetic() || n.starts_with('_') { let i = id(&n); xs.push(parse_quote!(#i)); }
                            else { die("format! argument by number".into()) }
                            continue;
                        }
                        k += 1;
                    }
                    if pos.next().is_some() { die("format! named argument".into()) }
                    self.note("format! => __fmt");
                    *e = parse_quote!(__fmt(#o, [#(__a(&#xs)),*]));
                    visit_mut::visit_expr_mut(self, e);
                }
                "format" => { self.note("format! text dropped"); *e = parse_quote!(__format()); }
                "panic" | "unreachable" | "todo" | "unimplemented" => { self.note("panic! => unreachable obligation"); *e = parse_quote!(__panic()); }
                "assert" | "debug_assert" => {
                    let args: punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap_or_else(|_| die("assert! arguments".into()));
                    let c = &args[0];
                    self.note("assert! => obligation");
                    *e = parse_quote!(__assert(#c));
                    visit_mut::visit_expr_mut(self, e);
                }
                "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                    let args: punctuated::Punctuated<Expr, Token![,]> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).unwrap_or_else(|_| die("assert_eq! arguments".into()));
                    let (a, b) = (&args[0], &args[1]);
                    self.note("assert_eq! => obligation");
                    *e = if n.ends_with("_ne") { parse_quote!(__assert(!(#a == #b))) } else { parse_quote!(__assert(#a == #b)) };
                    visit_mut::visit_expr_mut(self, e);
                }
                "bitvec" if m.mac.parse_body_with(|i: parse::ParseStream| { let a: Expr = i.parse()?; i.parse::<Token![;]>()?; let b: Expr = i.parse()?; Ok((a, b)) }).is_ok() => {
                    let (a, c) = m.mac.parse_body_with(|i: parse::ParseStream| { let a: Expr = i.parse()?; i.parse::<Token![;]>()?; let b: Expr = i.parse()?; Ok((a, b)) }).unwrap();
                    let f = id(&format!("__{}_of", n));
                    self.note(&format!("{}![x; n] => __{}_of(x, n)", n, n));
                    *e = parse_quote!(#f(#a, #c));
                    visit_mut::visit_expr_mut(self, e);
                }
                "vec" => {
                    if m.mac.tokens.is_empty() { *e = parse_quote!(Vec::new()); }
                    else {
                        let args: Option<punctuated::Punctuated<Expr, Token![,]>> = m.mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok();
                        if let Some(args) = args {
                            let v = self.var("vec");
                            let xs: Vec<_> = args.iter().collect();
                            *e = parse_quote!({ let mut #v = Vec::new(); #(#v.push(#xs);)* #v });
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                }
                _ => {}
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) if { let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect(); n.ends_with(&["io".into(), "Error".into(), "new".into()]) } => {
                self.note("io::Error::new => __io_error");
                *e = parse_quote!(__io_error);
            }
            // b"..." as the array it denotes
            Expr::Lit(ExprLit { lit: Lit::ByteStr(t), .. }) => {
                let bs: Vec<u8> = t.value();
                self.note("byte string => array");
                *e = parse_quote!(&[#(#bs),*]);
            }
            // &X[a..b] on text
            Expr::Reference(r) if self.b.flags.iter().any(|f| f == "str-slice") && matches!(&*r.expr, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) => {
                let (b, lo, hi) = slice_of(&r.expr);
                self.note("text slice => __sub");
                *e = parse_quote!(__sub(&#b, #lo, #hi));
            }
            Expr::Await(a) => { let b = (*a.base).clone(); self.note(".await"); *e = b; }
            Expr::MethodCall(m) => {
                // x.try_into().unwrap() between integer types
                if m.method == "unwrap" {
                    if let Some(r) = method(&m.receiver) {
                        if r.method == "try_into" { let x = &r.receiver; self.note("try_into().unwrap() => checked cast"); *e = parse_quote!(__try_into(#x)); return }
                    }
                }
                if let Some(n) = self.combinator(m) { *e = n; }
            }
            Expr::ForLoop(f) => { let n = self.for_loop(&f.clone()); *e = n; }
            _ => {}
        }
    }
}
fn chain_has_closure(e: &Expr) -> bool {
    let mut cur = e;
    let mut c = false;
    let mut src = false;
    while let Expr::MethodCall(m) = cur {
        if m.args.iter().any(|a| matches!(a, Expr::Closure(_) | Expr::Path(_))) { c = true }
        if is_iter_source(&m.method.to_string()) { src = true; break }
        cur = &m.receiver;
    }
    c && src
}
/// `for P in A.chain(B) { .. }` as one loop after the other
struct Split<'a>(&'a mut BTreeMap<String, usize>);
struct HasBreak(bool);
impl VisitMut for HasBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e { Expr::Break(_) => self.0 = true, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {} _ => visit_mut::visit_expr_mut(self, e) }
    }
}
impl<'a> VisitMut for Split<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::ForLoop(f), semi) = &s {
                if let Some(m) = method(&f.expr) {
                    if m.method == "chain" && m.args.len() == 1 {
                        let mut h = HasBreak(false);
                        h.visit_block_mut(&mut f.body.clone());
                        if h.0 || f.label.is_some() { die("break out of a chained loop".into()) }
                        let (mut x, mut y) = (f.clone(), f.clone());
                        x.expr = m.receiver.clone();
                        y.expr = Box::new(m.args[0].clone());
                        *self.0.entry("loop over a chain => two loops".into()).or_default() += 1;
                        out.push(Stmt::Expr(Expr::ForLoop(x), *semi));
                        out.push(Stmt::Expr(Expr::ForLoop(y), *semi));
                        continue;
                    }
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
}
pub fn split_chains(b: &mut syn::Block, notes: &mut BTreeMap<String, usize>) { Split(notes).visit_block_mut(b); }
/// a function that ends in `Box::pin(async { .. })` does what the block does
pub fn async_tail(b: &mut syn::Block, out: &mut ReturnType, notes: &mut BTreeMap<String, usize>) {
    let Some(Stmt::Expr(Expr::Call(c), None)) = b.stmts.last() else { return };
    let Expr::Path(p) = &*c.func else { return };
    let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
    if n != ["Box", "pin"] || c.args.len() != 1 { return }
    let Expr::Async(a) = &c.args[0] else { return };
    // the result is what the future gives
    let ReturnType::Type(_, t) = &*out else { return };
    struct Out(Option<Type>);
    impl<'x> syn::visit::Visit<'x> for Out {
        fn visit_assoc_type(&mut self, t: &'x AssocType) { if t.ident == "Output" { self.0 = Some(t.ty.clone()); } }
    }
    let mut o = Out(None);
    syn::visit::Visit::visit_type(&mut o, t);
    let Some(t) = o.0 else { return };
    *out = parse_quote!(-> #t);
    let blk = a.block.clone();
    let k = b.stmts.len() - 1;
    b.stmts.truncate(k);
    b.stmts.extend(blk.stmts);
    *notes.entry("Box::pin(async ..) at the end => its block".into()).or_default() += 1;
}
pub fn run(b: &mut syn::Block, blk: &Block, notes: &mut BTreeMap<String, usize>) {
    let mut d = D { b: blk, notes, chains: 0, fresh: 0, closures: vec![] };
    d.visit_block_mut(b);
}
