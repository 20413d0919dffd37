//! Expands `macro_rules!` macros of the code itself (without repetitions), as the
//! language defines it: fragments are matched up to the next separator, expressions
//! stay one expression, names bound in the macro stay apart from those in its arguments.
use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

enum Part { Var(String, String), Tok(TokenTree) }
struct Rule { pat: Vec<Part>, body: TokenStream }
#[derive(Default)]
pub struct Macros(BTreeMap<String, Vec<Rule>>);

fn punct(t: Option<&TokenTree>, c: char) -> bool { matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c) }

fn pattern(ts: TokenStream) -> Option<Vec<Part>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') {
            let (Some(TokenTree::Ident(n)), true, Some(TokenTree::Ident(f))) = (v.get(i + 1), punct(v.get(i + 2), ':'), v.get(i + 3)) else { return None };
            out.push(Part::Var(n.to_string(), f.to_string()));
            i += 4;
        } else { if matches!(v[i], TokenTree::Group(_)) { return None; } out.push(Part::Tok(v[i].clone())); i += 1; }
    }
    Some(out)
}

fn rules(ts: TokenStream) -> Option<Vec<Rule>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        let (Some(TokenTree::Group(p)), true, true, Some(TokenTree::Group(b))) = (v.get(i), punct(v.get(i + 1), '='), punct(v.get(i + 2), '>'), v.get(i + 3)) else { return None };
        out.push(Rule { pat: pattern(p.stream())?, body: b.stream() });
        i += 4;
        if punct(v.get(i), ';') { i += 1; }
    }
    Some(out)
}

fn same(a: &TokenTree, b: &TokenTree) -> bool { a.to_string() == b.to_string() }

fn matching(r: &Rule, args: &[TokenTree]) -> Option<BTreeMap<String, TokenStream>> {
    let mut out = BTreeMap::new();
    let mut i = 0;
    for (n, p) in r.pat.iter().enumerate() {
        match p {
            Part::Tok(t) => {
                // a trailing separator may be left out by neither, but is often optional in practice
                if i < args.len() && same(t, &args[i]) { i += 1; } else { return None; }
            }
            Part::Var(name, frag) => {
                let from = i;
                if ["ident", "tt", "lifetime", "literal"].contains(&frag.as_str()) { i += 1; }
                else {
                    let stop = match r.pat.get(n + 1) { Some(Part::Tok(t)) => Some(t.to_string()), Some(_) => return None, None => None };
                    while i < args.len() && stop.as_ref().map_or(true, |s| args[i].to_string() != *s) { i += 1; }
                }
                if i > args.len() || from == i { return None; }
                let ts: TokenStream = args[from..i].iter().cloned().collect();
                let ok = match frag.as_str() { "expr" => parse2::<Expr>(ts.clone()).is_ok(), "ident" => parse2::<syn::Ident>(ts.clone()).is_ok(), "ty" => parse2::<Type>(ts.clone()).is_ok(), "literal" => parse2::<Lit>(ts.clone()).is_ok(), _ => true };
                if !ok { return None; }
                let ts = if frag == "expr" && i - from > 1 { TokenTree::Group(Group::new(Delimiter::Parenthesis, ts)).into() } else { ts };
                out.insert(name.clone(), ts);
            }
        }
    }
    if i == args.len() { Some(out) } else { None }
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}

fn rename(ts: TokenStream, names: &BTreeSet<String>) -> TokenStream {
    let mut dot = false;
    let mut dollar = false;
    ts.into_iter().map(|t| {
        let r = match &t {
            TokenTree::Ident(i) if !dot && !dollar && names.contains(&i.to_string()) => TokenTree::Ident(Ident::new(&format!("__m_{i}"), Span::call_site())),
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename(g.stream(), names))),
            _ => t.clone(),
        };
        dot = punct(Some(&t), '.'); dollar = punct(Some(&t), '$');
        r
    }).collect()
}

fn subst(ts: TokenStream, vars: &BTreeMap<String, TokenStream>) -> Option<TokenStream> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if punct(v.get(i), '$') {
            let Some(TokenTree::Ident(n)) = v.get(i + 1) else { return None };
            if n == "crate" { out.push(TokenTree::Ident(Ident::new("crate", Span::call_site()))); }
            else { out.extend(vars.get(&n.to_string())?.clone()); }
            i += 2;
            continue;
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), vars)?)),
            TokenTree::Punct(p) => TokenTree::Punct(Punct::new(p.as_char(), if p.spacing() == Spacing::Joint { Spacing::Joint } else { Spacing::Alone })),
            t => t.clone(),
        });
        i += 1;
    }
    Some(out.into_iter().collect())
}

struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { let s = p.ident.to_string(); if !s.chars().next().unwrap().is_uppercase() { self.0.insert(s); } visit::visit_pat_ident(self, p); }
}

impl Macros {
    pub fn collect(&mut self, items: &[Item]) {
        for it in items { if let Item::Macro(m) = it { self.add(m); } }
    }
    fn add(&mut self, m: &ItemMacro) {
        let (Some(n), true) = (&m.ident, m.mac.path.is_ident("macro_rules")) else { return };
        if let Some(r) = rules(m.mac.tokens.clone()) { self.0.insert(n.to_string(), r); }
    }
    fn expand(&self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.get_ident().or_else(|| m.path.segments.last().map(|s| &s.ident))?.to_string();
        let args: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
        for r in self.0.get(&name)? {
            let Some(vars) = matching(r, &args).or_else(|| if punct(args.last(), ',') { matching(r, &args[..args.len() - 1]) } else { None }) else { continue };
            let mut used = BTreeSet::new();
            for v in vars.values() { idents(v.clone(), &mut used); }
            let holes: BTreeMap<String, TokenStream> = vars.keys().map(|k| (k.clone(), TokenTree::Ident(Ident::new(&format!("__hole_{k}"), Span::call_site())).into())).collect();
            let mut bound = Bound(BTreeSet::new());
            let shape = subst(r.body.clone(), &holes)?;
            if let Ok(b) = parse2::<Block>(TokenTree::Group(Group::new(Delimiter::Brace, shape)).into()) { bound.visit_block(&b); }
            let clash: BTreeSet<String> = bound.0.intersection(&used).cloned().collect();
            return subst(rename(r.body.clone(), &clash), &vars);
        }
        None
    }
    fn expr(&self, m: &Macro) -> Option<Expr> {
        let ts = self.expand(m)?;
        if let Ok(e) = parse2::<Expr>(ts.clone()) { return Some(match e { e @ (Expr::Block(_) | Expr::If(_) | Expr::Match(_) | Expr::Path(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Lit(_)) => e, e => parse_quote!((#e)) }); }
        let b: Block = parse2(TokenTree::Group(Group::new(Delimiter::Brace, ts)).into()).ok()?;
        Some(parse_quote!(#b))
    }
    pub fn items(&mut self, items: &mut Vec<Item>) {
        for _ in 0..3 {
            let old = std::mem::take(items);
            for it in old {
                if let Item::Macro(m) = &it { if m.ident.is_none() { if let Some(ts) = self.expand(&m.mac) { if let Ok(f) = parse2::<File>(ts) { items.extend(f.items); continue; } } } }
                items.push(it);
            }
        }
        for it in items.iter_mut() { self.visit_item_mut(it); }
    }
}

impl VisitMut for Macros {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut own = vec![];
        for s in &b.stmts { if let Stmt::Item(Item::Macro(m)) = s { if let Some(n) = &m.ident { own.push((n.to_string(), self.0.remove(&n.to_string()))); self.add(m); } } }
        for s in b.stmts.iter_mut() {
            for _ in 0..8 {
                let Stmt::Macro(m) = &*s else { break };
                let Some(e) = self.expr(&m.mac) else { break };
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_block_mut(self, b);
        for (n, o) in own {
            if self.0.remove(&n).is_some() { b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(m)) if m.ident.as_ref().is_some_and(|i| *i == n))); }
            if let Some(o) = o { self.0.insert(n, o); }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            let Expr::Macro(m) = &*e else { break };
            let Some(x) = self.expr(&m.mac) else { break };
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
