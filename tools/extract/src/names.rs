//! Alpha-renaming: locals of the current source are mapped back to the names the
//! contracts were written with, by aligning the declaration order.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

struct Decls(Vec<String>);
impl<'a> Visit<'a> for Decls {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        let s = p.ident.to_string();
        // upper-case identifiers in patterns are constants or variants
        if !s.chars().next().unwrap().is_uppercase() { self.0.push(s); }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
        if f.colon_token.is_none() {
            // shorthand: bound by field name, cannot be renamed independently
            if let syn::Member::Named(n) = &f.member { self.0.push(format!("={n}")); }
            return;
        }
        syn::visit::visit_field_pat(self, f);
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

pub fn decls(sig: &syn::Signature, block: &syn::Block) -> Vec<String> {
    let mut d = Decls(vec![]);
    for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { d.visit_pat(&t.pat); } }
    d.visit_block(block);
    d.0
}

pub fn mapping(cur: &[String], base: &[String]) -> BTreeMap<String, String> {
    // LCS alignment
    let (n, m) = (cur.len(), base.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() { for j in (0..m).rev() {
        t[i][j] = if cur[i] == base[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
    } }
    let mut pairs: Vec<(String, String)> = vec![];
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (0, 0);
    let flush = |pairs: &mut Vec<(String, String)>, a: &[String], b: &[String]| {
        if a.len() == b.len() { for (x, y) in a.iter().zip(b) { pairs.push((x.clone(), y.clone())); } }
    };
    {
        while i < n && j < m {
            if cur[i] == base[j] { flush(&mut pairs, &cur[gi..i], &base[gj..j]); pairs.push((cur[i].clone(), base[j].clone())); i += 1; j += 1; gi = i; gj = j; }
            else if t[i + 1][j] >= t[i][j + 1] { i += 1 } else { j += 1 }
        }
        flush(&mut pairs, &cur[gi..], &base[gj..]);
    }
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let mut used: BTreeMap<String, String> = BTreeMap::new();
    for (c, b) in pairs {
        if c.starts_with('=') || b.starts_with('=') { continue; }
        if let Some(x) = map.get(&c) { if *x != b { return BTreeMap::new(); } }
        if let Some(x) = used.get(&b) { if *x != c { return BTreeMap::new(); } }
        map.insert(c.clone(), b.clone());
        used.insert(b, c);
    }
    // do not capture names which keep being used
    let keep: BTreeSet<String> = cur.iter().filter(|c| !map.contains_key(*c)).map(|c| c.trim_start_matches('=').to_string()).collect();
    if map.iter().any(|(c, b)| c != b && keep.contains(b)) { return BTreeMap::new(); }
    map.retain(|c, b| c != b);
    map
}

pub struct Rename(pub BTreeMap<String, String>);
impl Rename {
    fn id(&self, i: &mut syn::Ident) { if let Some(n) = self.0.get(&i.to_string()) { *i = syn::Ident::new(n, i.span()); } }
    fn tokens(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::*;
        let mut prev_dot = false;
        ts.into_iter().map(|t| match t {
            TokenTree::Ident(mut i) => { if !prev_dot { if let Some(n) = self.0.get(&i.to_string()) { i = Ident::new(n, i.span()); } } prev_dot = false; TokenTree::Ident(i) }
            TokenTree::Group(g) => { prev_dot = false; let mut n = Group::new(g.delimiter(), self.tokens(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
            TokenTree::Punct(p) => { prev_dot = p.as_char() == '.'; TokenTree::Punct(p) }
            t => { prev_dot = false; t }
        }).collect()
    }
}
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) { self.id(&mut p.ident); syn::visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        if e.qself.is_none() && e.path.segments.len() == 1 && e.path.leading_colon.is_none() && e.path.segments[0].arguments.is_empty() {
            self.id(&mut e.path.segments[0].ident);
        }
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        for f in &mut s.fields {
            if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
            self.visit_expr_mut(&mut f.expr);
        }
        if let Some(r) = &mut s.rest { self.visit_expr_mut(r); }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) { m.tokens = self.tokens(std::mem::take(&mut m.tokens)); }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}
