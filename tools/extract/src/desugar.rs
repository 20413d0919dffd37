//! Mechanical rewriting of Rust constructs outside Verus' subset. Every rule is the
//! language's or the standard library's own definition of the construct (see DESIGN.md).
use crate::contracts::Contract;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar<'a> {
    pub c: &'a Contract,
    pub iter_fns: &'a BTreeSet<String>,
    pub result_fns: &'a BTreeSet<String>,
    pub loops: usize,
    pub tmp: usize,
    pub unsupported: Vec<String>,
    pub used_at: BTreeSet<usize>,
    refvars: Vec<BTreeSet<String>>,
    calls: std::collections::BTreeMap<String, usize>,
    /// which ghost logs of terminal events this function keeps
    out: bool,
    yes: bool,
    pw: bool,
    lines: bool,
    pub ret_ty: Option<Type>,
    depth: usize,
    /// what each loop changes
    pub muts: Vec<(usize, Vec<String>)>,
}

enum Op { Enumerate, Copied, Map(ExprClosure), Filter(ExprClosure), FilterMap(ExprClosure), Skip(Expr), Take(Expr), Rev }

enum Sink { For(Pat, Block), CollectVec(Option<TokenStream>), CollectString, Iter, Fold(Expr, ExprClosure), Any(ExprClosure), All(ExprClosure), Count, First, Find(ExprClosure), Position(ExprClosure), ForEach(ExprClosure), Last }

const ADAPTORS: &[&str] = &["enumerate", "copied", "cloned", "map", "filter", "filter_map", "skip", "take", "rev"];
const CONSUMERS: &[&str] = &["collect", "fold", "any", "all", "count", "next", "find", "position", "for_each", "last"];
const ROOTS: &[&str] = &["iter", "chunks", "chars", "into_iter", "split", "bytes", "values", "lines"];

pub fn raw_stmt(text: &str) -> Stmt { parse_quote!(__raw! { #text };) }

fn is_true_tail(b: &Block) -> bool { matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) }

/// Closure body as an expression: a trailing `return e` is `e`; other returns and `?` are not supported.
struct Escapes(bool, bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, t: &'a ExprTry) { self.1 = true; visit::visit_expr_try(self, t); }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
}
pub fn escapes(e: &Expr) -> (bool, bool) { let mut v = Escapes(false, false); v.visit_expr(e); (v.0, v.1) }

fn tail_return(e: Expr) -> Expr {
    match e {
        Expr::Block(mut b) if b.label.is_none() => {
            if let Some(Stmt::Expr(Expr::Return(r), _)) = b.block.stmts.last() {
                if let Some(x) = &r.expr { let x = (**x).clone(); b.block.stmts.pop(); b.block.stmts.push(Stmt::Expr(tail_return(x), None)); }
            } else if let Some(Stmt::Expr(x, None)) = b.block.stmts.last().cloned() {
                b.block.stmts.pop(); b.block.stmts.push(Stmt::Expr(tail_return(x), None));
            }
            Expr::Block(b)
        }
        Expr::Return(r) if r.expr.is_some() => *r.expr.unwrap(),
        Expr::If(mut i) => {
            if let Some((_, el)) = &mut i.else_branch {
                let th = tail_return(Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }));
                if let Expr::Block(b) = th { i.then_branch = b.block; }
                **el = tail_return((**el).clone());
            }
            Expr::If(i)
        }
        e => e,
    }
}

struct ShallowCalls<'n>(&'n str, usize);
impl<'a, 'n> Visit<'a> for ShallowCalls<'n> {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { visit::visit_expr_method_call(self, m); if m.method == self.0 { self.1 += 1; } }
    fn visit_expr_call(&mut self, m: &'a ExprCall) {
        visit::visit_expr_call(self, m);
        if let Expr::Path(p) = &*m.func { if p.path.segments.last().unwrap().ident == self.0 { self.1 += 1; } }
    }
}

impl<'a> Desugar<'a> {
    pub fn new(c: &'a Contract, iter_fns: &'a BTreeSet<String>, result_fns: &'a BTreeSet<String>) -> Self {
        Desugar { c, iter_fns, result_fns, loops: 0, tmp: 0, unsupported: vec![], used_at: BTreeSet::new(), refvars: vec![BTreeSet::new()], calls: Default::default(), out: c.mentions("__out"), yes: c.mentions("__yes"), pw: c.mentions("__pw"), lines: c.mentions("__lines"), ret_ty: None, depth: 0, muts: vec![] }
    }

    pub fn post_stmts(&self) -> Vec<Stmt> {
        self.c.posts.iter().enumerate().map(|(n, q)| raw_stmt(&format!("proof {{ /*POST {n}*/\nassert(\n{}\n);\n/*END {n}*/ }}", if q.text.starts_with("&&&") { format!("{{ {} }}", q.text) } else { q.text.clone() }))).collect()
    }

    /// Text pieces of a format string: literal bytes, or an argument.
    fn format_pieces(&mut self, args: Vec<Expr>) -> Option<Vec<std::result::Result<Vec<u8>, Expr>>> {
        let mut it = args.into_iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = it.next() else { return None };
        let mut pos: Vec<Expr> = vec![];
        let mut named: Vec<(String, Expr)> = vec![];
        for x in it { if let Expr::Assign(a) = &x { named.push((a.left.to_token_stream().to_string(), (*a.right).clone())); } else { pos.push(x); } }
        let f = f.value();
        let c: Vec<char> = f.chars().collect();
        let mut out: Vec<std::result::Result<Vec<u8>, Expr>> = vec![];
        let mut lit = String::new();
        let (mut i, mut next) = (0, 0);
        while i < c.len() {
            if (c[i] == '{' || c[i] == '}') && i + 1 < c.len() && c[i + 1] == c[i] { lit.push(c[i]); i += 2; continue; }
            if c[i] == '{' {
                let mut j = i + 1;
                while j < c.len() && c[j] != '}' { j += 1; }
                let name: String = c[i + 1..j].iter().collect();
                if name.contains(':') { return None; }
                let e = if name.is_empty() { next += 1; pos.get(next - 1)?.clone() }
                    else if let Ok(n) = name.parse::<usize>() { pos.get(n)?.clone() }
                    else if let Some((_, e)) = named.iter().find(|(n, _)| *n == name) { e.clone() }
                    else { syn::parse_str(&name).ok()? };
                if !lit.is_empty() { out.push(Ok(std::mem::take(&mut lit).into_bytes())); }
                out.push(Err(e));
                i = j + 1;
                continue;
            }
            lit.push(c[i]);
            i += 1;
        }
        if !lit.is_empty() { out.push(Ok(lit.into_bytes())); }
        Some(out)
    }

    fn hints(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        let isolated = anchor.strip_prefix("loop ").and_then(|a| a.strip_suffix(" start")).and_then(|k| k.parse().ok()).and_then(|k: usize| self.c.loops.get(&k)).is_some_and(|l| l.isolate);
        if isolated { v.push(raw_stmt("broadcast use crate::shim::eqs::strings;")); }
        for (i, (a, t)) in self.c.at.iter().enumerate() { if a == anchor { self.used_at.insert(i); if !t.is_empty() { v.push(raw_stmt(t)); } } }
        v
    }

    /// Text between a loop's condition and its body.
    fn head(&self, n: usize, auto_inv: &str, auto_dec: &str) -> String {
        let d = Default::default();
        let l = self.c.loops.get(&n).unwrap_or(&d);
        let mut s = String::new();
        let fix = |t: &str| { let t = t.trim(); if t.is_empty() || t.ends_with(',') || t.ends_with("*/") { t.to_string() } else { format!("{t},") } };
        if !l.inv_eb.trim().is_empty() { s += &format!("invariant_except_break\n{}\n", fix(&l.inv_eb)); }
        if !auto_inv.is_empty() || !l.inv.trim().is_empty() { s += &format!("invariant\n{}\n{}\n", fix(auto_inv), fix(&l.inv)); }
        if !l.ens.trim().is_empty() { s += &format!("ensures\n{}\n", fix(&l.ens)); }
        let dec = if l.dec.trim().is_empty() { auto_dec.to_string() } else { l.dec.clone() };
        if !dec.is_empty() { s += &format!("decreases {dec}\n"); }
        s
    }

    fn strip_refs(&mut self, p: &mut Pat, lets: &mut Vec<Stmt>) {
        struct S<'x> { lets: &'x mut Vec<Stmt>, tmp: &'x mut usize, bad: bool }
        impl<'x> VisitMut for S<'x> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    let mut depth = 1;
                    let mut inner = (*r.pat).clone();
                    while let Pat::Reference(q) = inner { inner = *q.pat; depth += 1; }
                    match inner {
                        Pat::Ident(i) => {
                            let t = format_ident!("__r_{}", i.ident);
                            let mut e: Expr = parse_quote!(#t);
                            for _ in 0..depth { e = parse_quote!(*#e); }
                            let id = &i.ident; let m = &i.mutability;
                            self.lets.push(parse_quote!(let #m #id = #e;));
                            *p = parse_quote!(#t);
                        }
                        Pat::Wild(_) => { *self.tmp += 1; *p = parse_quote!(_); }
                        other => {
                            *self.tmp += 1;
                            let t = format_ident!("__rt{}", *self.tmp);
                            let mut e: Expr = parse_quote!(#t);
                            for _ in 0..depth { e = parse_quote!(*#e); }
                            let mut o = other;
                            let mut more = vec![];
                            { let mut s2 = S { lets: &mut more, tmp: self.tmp, bad: false }; s2.visit_pat_mut(&mut o); if s2.bad { self.bad = true; } }
                            self.lets.push(parse_quote!(let #o = #e;));
                            self.lets.extend(more);
                            *p = parse_quote!(#t);
                        }
                    }
                } else { visit_mut::visit_pat_mut(self, p); }
            }
        }
        let mut s = S { lets, tmp: &mut self.tmp, bad: false };
        s.visit_pat_mut(p);
        if s.bad { self.unsupported.push("reference pattern".into()); }
    }

    fn bind(&mut self, pat: &Pat, value: Expr, out: &mut Vec<Stmt>) {
        let mut p = match pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
        if let Pat::Wild(_) = p { out.push(parse_quote!(let _ = #value;)); return; }
        let mut lets = vec![];
        self.strip_refs(&mut p, &mut lets);
        out.push(parse_quote!(let #p = #value;));
        out.extend(lets);
    }

    fn peel(&self, e: &Expr) -> (Expr, Vec<Op>) {
        let mut ops = vec![];
        let mut cur = strip_paren(e);
        loop {
            let Expr::MethodCall(m) = &cur else { break };
            let name = m.method.to_string();
            if !ADAPTORS.contains(&name.as_str()) { break; }
            let clo = || match m.args.first() { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
            let op = match (name.as_str(), m.args.len()) {
                ("enumerate", 0) => Op::Enumerate,
                ("copied", 0) | ("cloned", 0) => Op::Copied,
                ("rev", 0) => Op::Rev,
                ("map", 1) => match clo() { Some(c) => Op::Map(c), None => break },
                ("filter", 1) => match clo() { Some(c) => Op::Filter(c), None => break },
                ("filter_map", 1) => match clo() { Some(c) => Op::FilterMap(c), None => break },
                ("skip", 1) => Op::Skip(m.args[0].clone()),
                ("take", 1) => Op::Take(m.args[0].clone()),
                _ => break,
            };
            ops.push(op);
            let r = (*m.receiver).clone();
            cur = strip_paren(&r);
        }
        ops.reverse();
        (cur, ops)
    }

    fn is_root(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) if m.method == "step_by" => self.is_root(&strip_paren(&m.receiver)),
            Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "zip" || m.method == "chain") => self.is_root(&strip_paren(&m.receiver)),
            Expr::MethodCall(m) => { let n = m.method.to_string(); ROOTS.contains(&n.as_str()) || self.iter_fns.contains(&n) }
            Expr::Call(c) => if let Expr::Path(p) = &*c.func { self.iter_fns.contains(&p.path.segments.last().unwrap().ident.to_string()) } else { false },
            Expr::Range(_) => true,
            _ => false,
        }
    }

    fn is_string(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => ["to_string", "to_owned", "join", "x_join"].contains(&m.method.to_string().as_str()),
            Expr::Call(c) => { let t = c.func.to_token_stream().to_string().replace(' ', ""); t == "String::from" || t.starts_with("crate::shim::x_concat") || t == "crate::shim::x_string" || t == "String::new" }
            Expr::Macro(m) => m.mac.path.is_ident("format"),
            Expr::Binary(b) => matches!(b.op, BinOp::Add(_)) && self.is_string(&b.left),
            _ => false,
        }
    }

    /// `sort_by_key`, `dedup_by_key` and `retain`: the closure is run once per element, in order.
    fn keyed(&mut self, m: ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["sort_by_key", "dedup_by_key", "retain", "sort_by_cached_key", "sort_unstable_by_key"].contains(&name.as_str()) { return None; }
        let Some(Expr::Closure(c)) = m.args.first() else { return None };
        let v = (*m.receiver).clone();
        let k = self.loops;
        self.loops += 1;
        let (s, i, acc, it) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__acc{}", k), format_ident!("__it{}", k));
        let mut body: Vec<Stmt> = vec![];
        let hs = self.hints(&format!("loop {k} start"));
        let he = self.hints(&format!("loop {k} end"));
        let before = self.hints(&format!("loop {k} before"));
        let after = self.hints(&format!("loop {k} after"));
        let head = self.head(k, &format!("__i{k} <= __s{k}.xlen(),"), &format!("__s{k}.xlen() - __i{k}"));
        let b = {
            let mut b = tail_return((*c.body).clone());
            let (r, t) = escapes(&b);
            if r || t { self.unsupported.push("early exit inside a closure".into()); }
            // already visited with the arguments
            if let Expr::Block(x) = &mut b { if x.block.stmts.is_empty() { self.unsupported.push("closure".into()); } }
            b
        };
        let cx = self.complex(k);
        if name == "retain" {
            body.push(parse_quote!(let #it = #s.x_at(#i);));
            body.push(parse_quote!(#i = #i + 1;));
            let mut binds = vec![];
            self.bind(&c.inputs[0], parse_quote!(&#it), &mut binds);
            let keep = format_ident!("__keep{}", k);
            let p = quote!({ #(#binds)* #b });
            return Some(parse_quote!({
                let #s = crate::shim::x_take_vec(&mut #v);
                let mut #acc = Vec::new();
                let mut #i: usize = 0;
                #(#before)*
                #cx while #i < #s.x_len() { __head!{#head}; #(#body)* #(#hs)* let #keep: bool = #p; if #keep { #acc.push(#it); } #(#he)* }
                #(#after)*
                #v = #acc;
            }));
        }
        body.push(parse_quote!(let #it = #s.x_at(#i);));
        body.push(parse_quote!(#i = #i + 1;));
        let mut binds = vec![];
        self.bind(&c.inputs[0], parse_quote!(#it), &mut binds);
        let f = format_ident!("{}", if name == "dedup_by_key" { "x_dedup_keys" } else { "x_sort_keys" });
        Some(parse_quote!({
            let mut #acc = Vec::new();
            let #s = #v.x_iter();
            let mut #i: usize = 0;
            #(#before)*
            #cx while #i < #s.x_len() { __head!{#head}; #(#body)* #(#hs)* #acc.push({ #(#binds)* #b }); #(#he)* }
            #(#after)*
            #v.#f(#acc);
        }))
    }

    /// `for x in v.iter_mut()` (also with `enumerate`) over a local variable: an index loop, `*x` being `v[i]`.
    fn by_index(&mut self, f: &ExprForLoop) -> Option<ExprForLoop> {
        let (root, ops) = self.peel(&f.expr);
        let v: Expr = match &root {
            Expr::MethodCall(m) if m.method == "iter_mut" => strip_paren(&m.receiver),
            Expr::Reference(r) if r.mutability.is_some() => strip_paren(&r.expr),
            _ => return None,
        };
        if !matches!(v, Expr::Path(_)) { return None; }
        let k = format_ident!("__n{}", self.loops);
        let (index, x) = match (ops.as_slice(), &*f.pat) {
            ([], Pat::Ident(x)) => (k, x.ident.clone()),
            ([Op::Enumerate], Pat::Tuple(t)) if t.elems.len() == 2 => match (&t.elems[0], &t.elems[1]) {
                (Pat::Ident(i), Pat::Ident(x)) => (i.ident.clone(), x.ident.clone()),
                (Pat::Wild(_), Pat::Ident(x)) => (k, x.ident.clone()),
                _ => return None,
            },
            _ => return None,
        };
        struct R { x: Ident, v: Expr, i: Ident, bad: bool }
        impl VisitMut for R {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                let is = |e: &Expr, x: &Ident| matches!(strip_paren(e), Expr::Path(p) if p.path.is_ident(x));
                let (v, i) = (self.v.clone(), self.i.clone());
                match e {
                    Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is(&u.expr, &self.x) => { *e = parse_quote!(#v[#i]); return; }
                    Expr::Path(p) if p.path.is_ident(&self.x) => { self.bad = true; return; }
                    _ => {}
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut r = R { x, v: v.clone(), i: index.clone(), bad: false };
        let mut body = f.body.clone();
        r.visit_block_mut(&mut body);
        if r.bad { return None; }
        let mut f = f.clone();
        f.pat = parse_quote!(#index);
        f.expr = parse_quote!((0..#v.len()));
        f.body = body;
        Some(f)
    }

    fn root_src(&mut self, e: Expr) -> Expr {
        let mut e = e;
        if let Expr::MethodCall(m) = &e { if m.method == "step_by" {
            let r = self.root_src(strip_paren(&m.receiver));
            let mut n = m.args[0].clone();
            self.visit_expr_mut(&mut n);
            return parse_quote!(#r.x_step_by(#n));
        } }
        if let Expr::MethodCall(m) = &e { if m.args.len() == 1 && (m.method == "zip" || m.method == "chain") && self.is_root(&strip_paren(&m.receiver)) {
            let f = format_ident!("x_{}", m.method);
            let (a, b) = (strip_paren(&m.receiver), strip_paren(&m.args[0]));
            let (a, b) = (self.root_src(a), self.root_src(b));
            return parse_quote!(crate::shim::#f(#a, #b));
        } }
        if let Expr::MethodCall(m) = &mut e {
            let n = m.method.to_string();
            if ROOTS.contains(&n.as_str()) {
                m.method = if n == "into_iter" { format_ident!("x_src") } else { format_ident!("x_{}", n) };
                if n == "into_iter" { self.visit_expr_mut(&mut m.receiver); return e; }
            }
        }
        self.visit_expr_mut(&mut e);
        let e = match e { Expr::Range(r) => parse_quote!((#r)), e => e };
        parse_quote!(#e.x_src())
    }

    fn chain(&mut self, root: Expr, ops: Vec<Op>, sink: Sink, always_src: bool) -> Expr {
        let _ = always_src;
        let by_ref = ops.iter().all(|o| !matches!(o, Op::Copied));
        let k = self.loops;
        self.loops += 1;
        let (s, i, acc, it) = (format_ident!("__s{}", k), format_ident!("__i{}", k), format_ident!("__acc{}", k), format_ident!("__it{}", k));
        let mut src = self.root_src(root);
        // what a `?` in the head yields lives as long as the loop
        fn take_try(e: &mut Expr, n: &Ident) -> Option<Expr> {
            match e {
                Expr::MethodCall(m) => {
                    if matches!(&*m.receiver, Expr::Try(_)) { let t = (*m.receiver).clone(); m.receiver = Box::new(parse_quote!(#n)); Some(t) } else { take_try(&mut m.receiver, n) }
                }
                Expr::Paren(p) => take_try(&mut p.expr, n),
                Expr::Reference(p) => take_try(&mut p.expr, n),
                _ => None,
            }
        }
        let rn = format_ident!("__r{}", k);
        let mut pre: Vec<Stmt> = vec![];
        if let Some(t) = take_try(&mut src, &rn) { pre.push(parse_quote!(let #rn = #t;)); }
        pre.push(parse_quote!(let #s = #src;));
        let mut start: Expr = parse_quote!(0);
        let mut cond: Expr = parse_quote!(#i < #s.x_len());
        let mut rev = false;
        let mut rest: Vec<Op> = vec![];
        let mut skipped = false;
        for o in ops {
            match o {
                Op::Skip(mut e) if rest.is_empty() && !skipped && !rev => { self.visit_expr_mut(&mut e); start = parse_quote!(crate::shim::x_min(#e, #s.x_len())); skipped = true; }
                Op::Take(mut e) if rest.is_empty() && !rev && !skipped => {
                    self.visit_expr_mut(&mut e);
                    let t = format_ident!("__take{}", k);
                    pre.push(parse_quote!(let #t: usize = #e;));
                    cond = parse_quote!(#i < #s.x_len() && #i < #t);
                }
                Op::Rev if rest.is_empty() && !skipped => rev = !rev,
                Op::Skip(_) | Op::Take(_) | Op::Rev => { self.unsupported.push("iterator adaptor order".into()); }
                o => rest.push(o),
            }
        }
        // sinks: declarations before the loop
        let mut result: Option<Expr> = None;
        match &sink {
            Sink::CollectVec(ty) => {
                match ty { Some(t) => pre.push(parse_quote!(let mut #acc: #t = Vec::new();)), None => pre.push(parse_quote!(let mut #acc = Vec::new();)) }
                result = Some(parse_quote!(#acc));
            }
            Sink::Iter => { pre.push(parse_quote!(let mut #acc = Vec::new();)); result = Some(parse_quote!(crate::shim::x_from_vec(#acc))); }
            Sink::CollectString => { pre.push(parse_quote!(let mut #acc = String::new();)); result = Some(parse_quote!(#acc)); }
            Sink::Fold(init, _) => { let mut e = init.clone(); self.visit_expr_mut(&mut e); pre.push(parse_quote!(let mut #acc = #e;)); result = Some(parse_quote!(#acc)); }
            Sink::Any(_) => { pre.push(parse_quote!(let mut #acc = false;)); cond = parse_quote!(!#acc && #cond); result = Some(parse_quote!(#acc)); }
            Sink::All(_) => { pre.push(parse_quote!(let mut #acc = true;)); cond = parse_quote!(#acc && #cond); result = Some(parse_quote!(#acc)); }
            Sink::Count => { pre.push(parse_quote!(let mut #acc: usize = 0;)); result = Some(parse_quote!(#acc)); }
            Sink::First | Sink::Find(_) | Sink::Position(_) => { pre.push(parse_quote!(let mut #acc = None;)); cond = parse_quote!(#acc.is_none() && #cond); result = Some(parse_quote!(#acc)); }
            Sink::Last => { pre.push(parse_quote!(let mut #acc = None;)); result = Some(parse_quote!(#acc)); }
            Sink::For(..) | Sink::ForEach(_) => {}
        }
        pre.push(parse_quote!(let mut #i: usize = #start;));
        // body
        let mut body: Vec<Stmt> = vec![];
        if rev { body.push(parse_quote!(let #it = #s.x_at(#s.x_len() - 1 - #i);)); } else { body.push(parse_quote!(let #it = #s.x_at(#i);)); }
        body.push(parse_quote!(#i = #i + 1;));
        if by_ref { self.refvars.push(BTreeSet::new()); }
        let cur: Expr = parse_quote!(#it);
        let tail_hints = self.hints(&format!("loop {k} end"));
        let mut stmts = self.pipeline(k, rest.into_iter().collect(), cur, &sink, &acc, by_ref, 0, true);
        if by_ref { self.refvars.pop(); }
        body.extend(self.hints(&format!("loop {k} start")));
        body.append(&mut stmts);
        body.extend(tail_hints);
        let auto_inv = format!("__i{k} <= __s{k}.xlen(),");
        let head = self.head(k, &auto_inv, &format!("__s{k}.xlen() - __i{k}"));
        let mut all = pre;
        all.extend(self.hints(&format!("loop {k} before")));
        let cx = self.complex(k);
        all.push(parse_quote!(#cx while #cond { __head!{#head}; #(#body)* }));
        all.extend(self.hints(&format!("loop {k} after")));
        match result { Some(r) => parse_quote!({ #(#all)* #r }), None => parse_quote!({ #(#all)* }) }
    }

    fn complex(&self, k: usize) -> proc_macro2::TokenStream {
        match self.c.loops.get(&k) {
            Some(l) if l.isolate => quote::quote!(#[verifier::loop_isolation(true)]),
            Some(l) if !l.inv_eb.trim().is_empty() || !l.ens.trim().is_empty() => quote::quote!(#[verifier::allow_complex_invariants]),
            _ => quote::quote!(),
        }
    }

    fn closure_body(&mut self, c: &ExprClosure) -> Expr {
        let mut b = tail_return((*c.body).clone());
        let (r, t) = escapes(&b);
        if r || t { self.unsupported.push("early exit inside a closure".into()); }
        self.visit_expr_mut(&mut b);
        b
    }

    fn pipeline(&mut self, k: usize, mut ops: std::collections::VecDeque<Op>, cur: Expr, sink: &Sink, acc: &Ident, by_ref: bool, n: usize, one_to_one: bool) -> Vec<Stmt> {
        let i = format_ident!("__i{}", k);
        let mut out = vec![];
        let note = |me: &mut Self, p: &Pat| { if by_ref { for d in pat_idents(p) { me.refvars.last_mut().unwrap().insert(d); } } };
        match ops.pop_front() {
            Some(Op::Enumerate) => {
                if !one_to_one { self.unsupported.push("enumerate after a filter".into()); }
                return self.pipeline(k, ops, parse_quote!((#i - 1, #cur)), sink, acc, by_ref, n + 1, one_to_one);
            }
            Some(Op::Copied) => { return self.pipeline(k, ops, parse_quote!(*#cur), sink, acc, by_ref, n + 1, one_to_one); }
            Some(Op::Map(c)) => {
                let p = c.inputs[0].clone();
                note(self, &p);
                self.bind(&p, cur, &mut out);
                let b = self.closure_body(&c);
                let m = format_ident!("__m{}_{}", k, n);
                out.push(parse_quote!(let #m = #b;));
                out.extend(self.pipeline(k, ops, parse_quote!(#m), sink, acc, by_ref, n + 1, one_to_one));
            }
            Some(Op::Filter(c)) => {
                let m = format_ident!("__f{}_{}", k, n);
                out.push(parse_quote!(let #m = #cur;));
                let p = c.inputs[0].clone();
                note(self, &p);
                self.bind(&p, parse_quote!(&#m), &mut out);
                let b = self.closure_body(&c);
                let b = paren_block(b);
                let inner = self.pipeline(k, ops, parse_quote!(#m), sink, acc, by_ref, n + 1, false);
                let keep = format_ident!("__keep{}_{}", k, n);
                out.push(parse_quote!(let #keep: bool = #b;));
                out.push(parse_quote!(if #keep { #(#inner)* }));
            }
            Some(Op::FilterMap(c)) => {
                let p = c.inputs[0].clone();
                note(self, &p);
                self.bind(&p, cur, &mut out);
                let b = self.closure_body(&c);
                let m = format_ident!("__m{}_{}", k, n);
                let o = format_ident!("__o{}_{}", k, n);
                out.push(parse_quote!(let #o = #b;));
                let inner = self.pipeline(k, ops, parse_quote!(#m), sink, acc, by_ref, n + 1, false);
                out.push(parse_quote!(if let Some(#m) = #o { #(#inner)* }));
            }
            Some(_) => unreachable!(),
            None => match sink {
                Sink::For(p, b) => {
                    note(self, p);
                    self.bind(p, cur, &mut out);
                    let mut b = b.clone();
                    self.visit_block_mut(&mut b);
                    if is_true_tail(&b) { if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() { *semi = Some(Default::default()); } }
                    out.extend(b.stmts);
                }
                Sink::CollectVec(_) | Sink::Iter | Sink::CollectString => out.push(parse_quote!(#acc.push(#cur);)),
                Sink::Count => { out.push(parse_quote!(#acc = #acc + 1;)); }
                Sink::First | Sink::Last => out.push(parse_quote!(#acc = Some(#cur);)),
                Sink::Fold(_, c) => {
                    let p = c.inputs[1].clone();
                    note(self, &p);
                    self.bind(&c.inputs[0], parse_quote!(#acc), &mut out);
                    self.bind(&p, cur, &mut out);
                    let b = self.closure_body(c);
                    out.push(parse_quote!(#acc = #b;));
                }
                Sink::Any(c) | Sink::All(c) => {
                    let p = c.inputs[0].clone();
                    note(self, &p);
                    self.bind(&p, cur, &mut out);
                    let b = self.closure_body(c);
                    out.push(parse_quote!(#acc = #b;));
                }
                Sink::ForEach(c) => {
                    let p = c.inputs[0].clone();
                    note(self, &p);
                    self.bind(&p, cur, &mut out);
                    let b = self.closure_body(c);
                    out.push(Stmt::Expr(b, Some(Default::default())));
                }
                Sink::Find(c) => {
                    let m = format_ident!("__f{}_{}", k, n);
                    out.push(parse_quote!(let #m = #cur;));
                    self.bind(&c.inputs[0], parse_quote!(&#m), &mut out);
                    let b = paren_block(self.closure_body(c));
                    out.push(parse_quote!(if #b { #acc = Some(#m); }));
                }
                Sink::Position(c) => {
                    self.bind(&c.inputs[0], cur, &mut out);
                    let b = paren_block(self.closure_body(c));
                    out.push(parse_quote!(if #b { #acc = Some(#i - 1); }));
                }
            },
        }
        out
    }

    /// Tries to treat a method call as the end of an iterator chain.
    fn try_chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if CONSUMERS.contains(&name.as_str()) {
            let (root, ops) = self.peel(&m.receiver);
            if !self.is_root(&root) { return None; }
            let clo = |i: usize| match m.args.iter().nth(i) { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
            let target: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None });
            let tname = target.as_ref().map(type_name).unwrap_or_default();
            let is_iter_fn = match &root { Expr::MethodCall(r) => self.iter_fns.contains(&r.method.to_string()) || r.method == "split" || r.method == "lines", Expr::Call(_) => true, _ => false };
            if ops.is_empty() && is_iter_fn {
                if name == "collect" && (tname == "Vec" || tname.is_empty()) { let src = self.root_src(root); return Some(parse_quote!(#src.x_collect())); }
                if name == "next" { let src = self.root_src(root); return Some(parse_quote!(#src.x_first())); }
                if name == "count" { let src = self.root_src(root); return Some(parse_quote!(#src.x_len())); }
            }
            let sink = match name.as_str() {
                "collect" if tname == "Vec" || tname.is_empty() => Sink::CollectVec(target.filter(|_| tname == "Vec").map(|t| t.to_token_stream())),
                "collect" if tname == "String" => Sink::CollectString,
                "fold" => Sink::Fold(m.args[0].clone(), clo(1)?),
                "any" => Sink::Any(clo(0)?),
                "all" => Sink::All(clo(0)?),
                "count" => Sink::Count,
                "next" => Sink::First,
                "last" if !ops.is_empty() => Sink::Last,
                "last" => return None,
                "find" => Sink::Find(clo(0)?),
                "position" => Sink::Position(clo(0)?),
                "for_each" => Sink::ForEach(clo(0)?),
                _ => { self.unsupported.push(format!("iterator consumer {name} into {tname}")); return None; }
            };
            return Some(self.chain(root, ops, sink, true));
        }
        if ADAPTORS.contains(&name.as_str()) {
            let (root, ops) = self.peel(&Expr::MethodCall(m.clone()));
            if ops.is_empty() || !self.is_root(&root) { return None; }
            return Some(self.chain(root, ops, Sink::Iter, true));
        }
        None
    }

    fn is_result(&self, e: &Expr) -> bool {
        match strip_paren(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if ["map_err", "or", "or_else", "convert_error", "parse"].contains(&n.as_str()) { return true; }
                if n == "map" || n == "and_then" { return self.is_result(&m.receiver); }
                // Option-returning std methods which share a name with nothing here
                if n == "get" { let r = m.receiver.to_token_stream().to_string(); return !(r.ends_with("data") || r.contains("expose_secret")); }
                if n == "remove" { let r = m.receiver.to_token_stream().to_string(); return !r.ends_with("data"); }
                self.result_fns.contains(&n)
            }
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                ["decode", "from_slice", "from_str", "to_vec", "to_string", "from_utf8", "read_to_string", "write", "create_dir_all", "Err", "Ok"].contains(&n.as_str()) || self.result_fns.contains(&n)
            } else { false },
            _ => false,
        }
    }

    /// `Option` and `Result` combinators with a closure, replaced by their definition.
    fn try_option(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["map", "map_err", "and_then", "or_else", "unwrap_or_else", "filter", "ok_or_else", "map_or", "is_some_and", "is_none_or", "is_ok_and"].contains(&name.as_str()) { return None; }
        let mut recv = (*m.receiver).clone();
        let res = name == "map_err" || name == "is_ok_and" || self.is_result(&recv);
        let owned;
        let c = match m.args.last() {
            Some(Expr::Closure(c)) => c,
            // a function by its name
            Some(Expr::Path(p)) if p.path.segments.last().map_or(false, |s| s.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase())) => {
                owned = if !res && ["or_else", "unwrap_or_else", "ok_or_else"].contains(&name.as_str()) { parse_quote!(|| #p()) } else { parse_quote!(|__x| #p(__x)) };
                &owned
            }
            _ => return None,
        };
        self.visit_expr_mut(&mut recv);
        self.tmp += 1;
        let t = format_ident!("__v{}", self.tmp);
        let e2 = format_ident!("__e{}", self.tmp);
        let mut binds = vec![];
        let arg: Expr = if name == "map_err" || (res && (name == "unwrap_or_else" || name == "or_else")) { parse_quote!(#e2) } else if name == "filter" { parse_quote!(&#t) } else { parse_quote!(#t) };
        if let Some(p) = c.inputs.first() { self.bind(p, arg, &mut binds); }
        let b = self.closure_body(c);
        let b: Expr = parse_quote!({ #(#binds)* #b });
        Some(match (name.as_str(), res) {
            ("map", false) => parse_quote!(match #recv { Some(#t) => Some(#b), None => None }),
            ("map", true) => parse_quote!(match #recv { Ok(#t) => Ok(#b), Err(#e2) => Err(#e2) }),
            ("map_err", _) => parse_quote!(match #recv { Ok(#t) => Ok(#t), Err(#e2) => Err(#b) }),
            ("and_then", false) => parse_quote!(match #recv { Some(#t) => #b, None => None }),
            ("and_then", true) => parse_quote!(match #recv { Ok(#t) => #b, Err(#e2) => Err(#e2) }),
            ("or_else", true) => parse_quote!(match #recv { Ok(#t) => Ok(#t), Err(#e2) => #b }),
            ("or_else", false) => parse_quote!(match #recv { Some(#t) => Some(#t), None => #b }),
            ("unwrap_or_else", true) => parse_quote!(match #recv { Ok(#t) => #t, Err(#e2) => #b }),
            ("unwrap_or_else", false) => parse_quote!(match #recv { Some(#t) => #t, None => #b }),
            ("ok_or_else", _) => parse_quote!(match #recv { Some(#t) => Ok(#t), None => Err(#b) }),
            ("filter", _) => parse_quote!(match #recv { Some(#t) => { if #b { Some(#t) } else { None } }, None => None }),
            ("is_some_and", _) => parse_quote!(match #recv { Some(#t) => #b, None => false }),
            ("is_none_or", _) => parse_quote!(match #recv { Some(#t) => #b, None => true }),
            ("is_ok_and", _) => parse_quote!(match #recv { Ok(#t) => #b, Err(_) => false }),
            ("map_or", false) => { let mut d = m.args[0].clone(); self.visit_expr_mut(&mut d); parse_quote!(match #recv { Some(#t) => #b, None => #d }) }
            ("map_or", true) => { let mut d = m.args[0].clone(); self.visit_expr_mut(&mut d); parse_quote!(match #recv { Ok(#t) => #b, Err(_) => #d }) }
            _ => return None,
        })
    }

    fn macro_expr(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let args = || -> Vec<Expr> {
            use syn::parse::Parser;
            punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(mac.tokens.clone()).map(|p| p.into_iter().collect()).unwrap_or_default()
        };
        match name.as_str() {
            "format" if self.format_pieces(args()).is_some() => {
                let pieces = self.format_pieces(args())?;
                let mut out: Vec<Stmt> = vec![raw_stmt("let ghost mut __text: Seq<u8> = Seq::<u8>::empty(); let ghost mut __chars: Seq<char> = Seq::<char>::empty();")];
                for p in pieces {
                    match p {
                        Ok(l) => {
                            let t = String::from_utf8(l.clone()).ok()?;
                            out.push(raw_stmt(&format!("proof {{ __text = __text + seq![{}]; __chars = __chars + seq![{}]; }}", l.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "), t.chars().map(|x| format!("'\\u{{{:x}}}'", x as u32)).collect::<Vec<_>>().join(", "))));
                        }
                        Err(mut x) => { self.visit_expr_mut(&mut x); let h = raw_stmt("proof { __text = __text + crate::shim::XDisp::xdisp(__a); __chars = __chars + crate::shim::XDisp::xchars(__a); }"); out.push(parse_quote!(match &(#x) { __a => { #h } })); }
                    }
                }
                Some(parse_quote!({ #(#out)* crate::shim::x_format_as(__raw!{"Ghost(__text), Ghost(__chars)"}) }))
            }
            "println" | "print" if self.out => {
                let a = args();
                let mut pieces = if a.is_empty() { vec![] } else { match self.format_pieces(a) { Some(p) => p, None => { self.unsupported.push("format string".into()); return None; } } };
                if name == "println" { match pieces.last_mut() { Some(Ok(l)) => l.push(10), _ => pieces.push(Ok(vec![10])) } }
                let mut out: Vec<Stmt> = vec![];
                for p in pieces {
                    match p {
                        Ok(l) => out.push(raw_stmt(&format!("proof {{ __out = __out + {}; }}", crate::contracts::byte_seq(&l)))),
                        Err(mut x) => { self.visit_expr_mut(&mut x); let h = raw_stmt("proof { __out = __out + crate::shim::XDisp::xdisp(__a); }"); out.push(parse_quote!(match &(#x) { __a => { #h } })); }
                    }
                }
                Some(parse_quote!({ #(#out)* crate::shim::x_print(); }))
            }
            "println" | "eprintln" | "print" | "eprint" | "format" => {
                let mut a = args();
                let mut out: Vec<Stmt> = vec![];
                for (n, x) in a.iter_mut().enumerate() {
                    if n == 0 && matches!(x, Expr::Lit(_)) { continue; }
                    if let Expr::Assign(asg) = x { *x = (*asg.right).clone(); }
                    self.visit_expr_mut(x);
                    out.push(parse_quote!(crate::shim::x_use(&(#x));));
                }
                Some(if name == "format" { parse_quote!({ #(#out)* crate::shim::x_format() }) } else { parse_quote!({ #(#out)* crate::shim::x_print(); }) })
            }
            "assert" | "debug_assert" => { let mut a = args(); if a.is_empty() { return None; } self.visit_expr_mut(&mut a[0]); let c = &a[0]; Some(parse_quote!({ if !(#c) { crate::shim::x_panic(); } })) }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(parse_quote!(crate::shim::x_panic())),
            "matches" => {
                use syn::parse::Parser;
                let p = |i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                    let _ = i.parse::<Token![,]>();
                    Ok((e, p, g))
                };
                let (mut e, mut pat, g) = p.parse2(mac.tokens.clone()).ok()?;
                self.visit_expr_mut(&mut e);
                let mut lets = vec![];
                self.strip_refs(&mut pat, &mut lets);
                let mut g: Expr = g.unwrap_or_else(|| parse_quote!(true));
                self.tmp += 100;
                for x in crate::module::TextPats(self.tmp).pat(&mut pat).into_iter().rev() { g = parse_quote!(#x && #g); }
                self.visit_expr_mut(&mut g);
                Some(parse_quote!(match #e { #pat => { #(#lets)* #g }, _ => false }))
            }
            _ => None,
        }
    }

    fn is_refvar(&self, e: &Expr) -> bool {
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { return self.refvars.iter().any(|s| s.contains(&i.to_string())); } }
        false
    }
}

fn paren_block(e: Expr) -> Expr { match e { Expr::Block(_) => parse_quote!((#e)), e => e } }

pub fn strip_paren(e: &Expr) -> Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), e => e.clone() } }

fn type_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::from("?") } }

pub fn pat_idents(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.0.push(p.ident.to_string()); } fn visit_pat_reference(&mut self, _: &'a PatReference) {} }
    let mut v = V(vec![]); v.visit_pat(p); v.0
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_item_mut(&mut self, _: &mut Item) {}

    fn visit_local_mut(&mut self, l: &mut Local) {
        // `let else`: handled by Verus natively; reference patterns are handled per block
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out: Vec<Stmt> = vec![];
        for mut s in stmts {
            let mut befores = vec![];
            let mut afters = vec![];
            let mut names: BTreeSet<String> = BTreeSet::new();
            for (a, _) in &self.c.at { let w: Vec<&str> = a.split_whitespace().collect(); if w[0] == "call" { names.insert(w[1].to_string()); } }
            let letname = if let Stmt::Local(l) = &s { pat_idents(&l.pat).first().cloned() } else { None };
            let mut found = vec![];
            for n in &names {
                let mut v = ShallowCalls(n, 0);
                v.visit_stmt(&s);
                for _ in 0..v.1 { found.push(n.clone()); }
            }
            // reference patterns in `let`
            let mut lets = vec![];
            if let Stmt::Local(l) = &mut s { let mut p = l.pat.clone(); self.strip_refs(&mut p, &mut lets); l.pat = p; }
            // macros in statement position
            if let Stmt::Macro(m) = &s {
                if m.mac.path.is_ident("__raw") { out.push(s); continue; }
                if let Some(e) = self.macro_expr(&m.mac) { out.push(Stmt::Expr(e, m.semi_token)); continue; }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            for n in found {
                let k = self.calls.entry(n.clone()).or_insert(0);
                let idx = *k; *k += 1;
                befores.extend(self.hints(&format!("call {n} {idx} before")));
                afters.extend(self.hints(&format!("call {n} {idx} after")));
            }
            if let Some(n) = letname { befores.extend(self.hints(&format!("let {n} before"))); afters.extend(self.hints(&format!("let {n} after"))); }
            out.extend(befores);
            out.push(s);
            out.extend(lets);
            out.extend(afters);
        }
        b.stmts = out;
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let mut lets = vec![];
        self.strip_refs(&mut a.pat, &mut lets);
        if let Some((_, g)) = &mut a.guard { if !lets.is_empty() { self.unsupported.push("guard after reference pattern".into()); } self.visit_expr_mut(g); }
        self.visit_expr_mut(&mut a.body);
        if !lets.is_empty() { let b = &a.body; *a.body = parse_quote!({ #(#lets)* #b }); }
    }

    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let mut lets = vec![];
        if let Expr::Let(l) = &mut *i.cond { self.strip_refs(&mut l.pat, &mut lets); }
        else {
            struct HasLet(bool);
            impl<'a> Visit<'a> for HasLet { fn visit_expr_let(&mut self, l: &'a ExprLet) { if l.pat.to_token_stream().to_string().contains('&') { self.0 = true; } } fn visit_block(&mut self, _: &'a Block) {} }
            let mut h = HasLet(false); h.visit_expr(&i.cond); if h.0 { self.unsupported.push("reference pattern in let chain".into()); }
        }
        self.visit_expr_mut(&mut i.cond);
        self.visit_block_mut(&mut i.then_branch);
        if !lets.is_empty() { let mut v = lets; v.append(&mut i.then_branch.stmts); i.then_branch.stmts = v; }
        if let Some((_, e)) = &mut i.else_branch { self.visit_expr_mut(e); }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) if matches!(strip_paren(&f.expr), Expr::MethodCall(m) if m.method == "get_subcommands_mut") => {
                let (p, s, b) = (&f.pat, &f.expr, &f.body);
                *e = parse_quote!({ let mut __subs = #s; while let Some(#p) = __subs.next() #b });
                self.visit_expr_mut(e);
            }
            Expr::ForLoop(f) => {
                if let Some(x) = self.by_index(f) { *f = x; }
                self.muts.push((self.loops, changed_in(&f.body)));
                let (root, ops) = self.peel(&f.expr);
                let x = self.chain(root, ops, Sink::For((*f.pat).clone(), f.body.clone()), true);
                *e = x;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.muts.push((k, changed_in(&w.body)));
                self.loops += 1;
                let mut lets = vec![];
                if let Expr::Let(l) = &mut *w.cond { self.strip_refs(&mut l.pat, &mut lets); }
                self.visit_expr_mut(&mut w.cond);
                let s = self.hints(&format!("loop {k} start"));
                self.visit_block_mut(&mut w.body);
                let mut t = self.hints(&format!("loop {k} end"));
                if !t.is_empty() { if let Some(Stmt::Expr(_, semi)) = w.body.stmts.last_mut() { if semi.is_none() { *semi = Some(Default::default()); } } }
                let head = self.head(k, "", "");
                let mut v: Vec<Stmt> = vec![parse_quote!(__head!{#head};)];
                v.extend(lets); v.extend(s); v.append(&mut w.body.stmts); v.append(&mut t);
                w.body.stmts = v;
                let a = self.complex(k);
                if !a.is_empty() { let e: syn::ExprWhile = parse_quote!(#a while x {}); w.attrs.extend(e.attrs); }
                let before = self.hints(&format!("loop {k} before"));
                let after = self.hints(&format!("loop {k} after"));
                if !before.is_empty() || !after.is_empty() { let w2 = w.clone(); *e = parse_quote!({ #(#before)* #w2 #(#after)* }); }
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.muts.push((k, changed_in(&w.body)));
                self.loops += 1;
                let s = self.hints(&format!("loop {k} start"));
                self.visit_block_mut(&mut w.body);
                let mut t = self.hints(&format!("loop {k} end"));
                let head = self.head(k, "", "");
                let mut v: Vec<Stmt> = vec![parse_quote!(__head!{#head};)];
                v.extend(s); v.append(&mut w.body.stmts); v.append(&mut t);
                w.body.stmts = v;
                let a = self.complex(k);
                if !a.is_empty() { let e: syn::ExprWhile = parse_quote!(#a while x {}); w.attrs.extend(e.attrs); }
                let before = self.hints(&format!("loop {k} before"));
                let after = self.hints(&format!("loop {k} after"));
                if !before.is_empty() || !after.is_empty() { let w2 = w.clone(); *e = parse_quote!({ #(#before)* #w2 #(#after)* }); }
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(x) = self.try_chain(&m) { *e = x; return; }
                if let Some(x) = self.try_option(&m) { *e = x; return; }
                let Expr::MethodCall(m) = e else { unreachable!() };
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() { self.visit_expr_mut(a); }
                let name = m.method.to_string();
                if self.out && name == "write_all" && m.args.len() == 1 {
                    let (r, a) = (m.receiver.clone(), m.args[0].clone());
                    let h = raw_stmt("proof { __out = __out + __b.xsrc_bytes(); }");
                    *e = parse_quote!(match #a { __b => { #h #r.write_all(__b) } });
                    return;
                }
                if self.yes && name == "confirm" && m.args.is_empty() {
                    let r = m.receiver.clone();
                    let h = raw_stmt("proof { __yes = __yes.push(__c is YES); }");
                    *e = parse_quote!(match #r.confirm() { __c => { #h __c } });
                    return;
                }
                if self.lines && name == "ask" && m.args.is_empty() {
                    let r = m.receiver.clone();
                    let h = raw_stmt("proof { __lines = crate::spec::with_line(__lines, __q); }");
                    *e = parse_quote!(match #r.ask() { __q => { #h __q } });
                    return;
                }
                if self.lines && name == "readline" {
                    let m = m.clone();
                    let h = raw_stmt("proof { __lines = crate::spec::with_read(__lines, __q); }");
                    *e = parse_quote!(match #m { __q => { #h __q } });
                    return;
                }
                if self.c.mayabort && (name == "unwrap" || name == "expect") { m.args.clear(); m.method = format_ident!("x_unwrap"); return; }
                if let Some(x) = self.keyed(m.clone()) { *e = x; return; }
                let Expr::MethodCall(m) = e else { unreachable!() };
                let rename = match name.as_str() {
                    "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "trim_start_matches" | "find" | "split_once" | "trim" | "split" | "capacity" | "extend_from_slice" | "to_ascii_uppercase" | "last" | "or" | "join" | "parse" | "trim_start" | "trim_end" | "trim_end_matches" | "trim_matches" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "eq_ignore_ascii_case" | "repeat" | "rsplit_once" | "copied" | "get_mut" | "as_mut_slice" | "unwrap_or" | "to_vec" | "as_deref" => true,
                    "pop" => m.args.is_empty(),
                    "replace" => m.args.len() == 2,
                    "contains" => matches!(m.args.first(), Some(Expr::Reference(_))) && !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")),
                    "next" => true,
                    _ => false,
                };
                if rename { m.method = format_ident!("x_{}", name); }
            }
            Expr::Call(c) => {
                // String::from_iter(chain)
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 2 && segs[segs.len() - 1] == "from_iter" {
                        let (root, ops) = self.peel(&c.args[0]);
                        if self.is_root(&root) {
                            let sink = if segs[segs.len() - 2] == "String" { Sink::CollectString } else { Sink::CollectVec(None) };
                            *e = self.chain(root, ops, sink, true);
                            return;
                        }
                    }
                    if segs == ["Vec", "with_capacity"] {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        let seg = p.path.segments.iter().rev().nth(1).unwrap();
                        *e = if let PathArguments::AngleBracketed(ab) = &seg.arguments { let t = &ab.args; parse_quote!(crate::shim::x_with_capacity::<#t>(#a)) } else { parse_quote!(crate::shim::x_with_capacity(#a)) };
                        return;
                    }
                    if segs == ["String", "from"] { let mut a = c.args[0].clone(); self.visit_expr_mut(&mut a); *e = parse_quote!(crate::shim::x_string(#a)); return; }
                    if segs == ["Box", "new"] { let mut a = c.args[0].clone(); self.visit_expr_mut(&mut a); *e = a; return; }
                }
                visit_mut::visit_expr_mut(self, e);
                if self.pw {
                    if let Expr::Call(c) = &*e { if let Expr::Path(p) = &*c.func { if p.path.segments.last().unwrap().ident == "prompt_password" {
                        let h = raw_stmt("proof { __pw = __pw.push(__v.inner@); }");
                        let c = c.clone();
                        *e = parse_quote!(match #c { __v => { #h __v } });
                    } } }
                }
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr { self.visit_expr_mut(x); }
                let posts = self.post_stmts();
                if self.depth == 0 && !posts.is_empty() {
                    if let Some(x) = &r.expr { let (n, x) = (format_ident!("{}", self.c.ret), x.clone()); let l: Stmt = match &self.ret_ty { Some(t) => parse_quote!(let #n: #t = #x;), None => parse_quote!(let #n = #x;) }; r.expr = Some(Box::new(parse_quote!({ #l #(#posts)* #n }))); }
                }
            }
            Expr::Macro(m) => { if let Some(x) = self.macro_expr(&m.mac) { *e = x; } }
            Expr::Cast(_) => {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Cast(c) = e {
                    let t = c.ty.to_token_stream().to_string();
                    if ["u8", "u16", "u32", "i32", "usize"].contains(&t.as_str()) { *e = parse_quote!((#[verifier::truncate] (#c))); }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && self.is_string(&b.left) => {
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                *e = parse_quote!(crate::shim::x_concat(#l, #r));
            }
            Expr::Binary(b) => {
                let bit = matches!(b.op, BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::Shl(_) | BinOp::Shr(_) | BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Rem(_) | BinOp::Div(_));
                let (l, r) = (self.is_refvar(&b.left), self.is_refvar(&b.right));
                visit_mut::visit_expr_binary_mut(self, b);
                if bit {
                    if l { let x = &b.left; *b.left = parse_quote!(#x.x_d()); }
                    if r { let x = &b.right; *b.right = parse_quote!(#x.x_d()); }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(ix) = &mut *r.expr {
                    if let Some(x) = self.range_index(ix) { *e = x; return; }
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Index(ix) => {
                if let Some(x) = self.range_index(ix) { *e = x; return; }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Lit(l) => match &l.lit {
                Lit::ByteStr(b) => { let v: Vec<_> = b.value().iter().map(|x| LitInt::new(&format!("{x}u8"), b.span())).collect(); *e = parse_quote!(&[#(#v),*]); }
                Lit::Byte(b) => { let v = LitInt::new(&format!("{}u8", b.value()), b.span()); *e = parse_quote!(#v); }
                _ => {}
            },
            Expr::Closure(c) => {
                for p in c.inputs.iter_mut() { if let Pat::Wild(_) = p { self.tmp += 1; let t = format_ident!("__w{}", self.tmp); *p = parse_quote!(#t); } }
                self.depth += 1;
                self.visit_expr_mut(&mut c.body);
                self.depth -= 1;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

impl<'a> Desugar<'a> {
    fn range_index(&mut self, ix: &mut ExprIndex) -> Option<Expr> {
        let Expr::Range(r) = strip_paren(&ix.index) else { return None };
        let mut base = (*ix.expr).clone();
        self.visit_expr_mut(&mut base);
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        let mut lo = r.start.map(|x| *x);
        let mut hi = r.end.map(|x| *x);
        if let Some(x) = &mut lo { self.visit_expr_mut(x); }
        if let Some(x) = &mut hi { self.visit_expr_mut(x); if incl { *x = parse_quote!((#x) + 1); } }
        Some(match (lo, hi) {
            (Some(a), Some(b)) => parse_quote!(#base.x_range(#a, #b)),
            (Some(a), None) => parse_quote!(#base.x_range_from(#a)),
            (None, Some(b)) => parse_quote!(#base.x_range_to(#b)),
            (None, None) => parse_quote!(#base.x_range_from(0)),
        })
    }
}

pub fn quote_str<T: ToTokens>(t: &T) -> String { quote!(#t).to_string() }

/// Variables a block assigns to or calls methods on
pub fn changed_in(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl V { fn add(&mut self, e: &Expr) { match e { Expr::Path(p) => if let Some(i) = p.path.get_ident() { if !self.0.contains(&i.to_string()) { self.0.push(i.to_string()); } }, Expr::Field(f) => self.add(&f.base), Expr::Index(f) => self.add(&f.expr), Expr::Unary(u) => self.add(&u.expr), Expr::Paren(p) => self.add(&p.expr), _ => {} } } }
    impl<'a> Visit<'a> for V {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.add(&a.left); syn::visit::visit_expr_assign(self, a) }
        fn visit_expr_binary(&mut self, a: &'a ExprBinary) {
            if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::BitXorAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_)) { self.add(&a.left); }
            syn::visit::visit_expr_binary(self, a)
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { if m.method == "push" || m.method == "insert" || m.method == "push_str" || m.method == "extend_from_slice" || m.method == "extend" { self.add(&m.receiver); } syn::visit::visit_expr_method_call(self, m) }
    }
    let mut v = V(vec![]);
    v.visit_block(b);
    v.0
}
