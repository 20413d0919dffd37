//! Walks the module tree of the two crates and emits the Verus file.
use crate::contracts::{Contract, Contracts};
use crate::desugar::{raw_stmt, strip_paren, Desugar};
use crate::{emit, names};
use quote::{format_ident, quote, ToTokens};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, Default)]
pub struct Baseline { pub hash: String, pub locals: Vec<String>, pub loops: usize }

pub fn load_baseline(p: &str) -> BTreeMap<String, Baseline> {
    let Ok(t) = std::fs::read_to_string(p) else { return BTreeMap::new() };
    let v: serde_json::Value = serde_json::from_str(&t).unwrap();
    v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), Baseline {
        hash: v["hash"].as_str().unwrap().into(),
        locals: v["locals"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(),
        loops: v["loops"].as_u64().unwrap() as usize,
    })).collect()
}
pub fn save_baseline(p: &str, b: &BTreeMap<String, Baseline>) {
    let m: serde_json::Map<String, serde_json::Value> = b.iter().map(|(k, v)| (k.clone(), json!({"hash": v.hash, "locals": v.locals, "loops": v.loops}))).collect();
    std::fs::write(p, serde_json::to_string_pretty(&m).unwrap() + "\n").unwrap();
}

#[derive(Clone)]
struct FnInfo { sig: Signature, block: Block }

struct Module { path: Vec<String>, file: String, items: Vec<Item>, cli: bool }

pub struct Extractor {
    repo: String,
    cdir: String,
    contracts: Contracts,
    baseline: BTreeMap<String, Baseline>,
    degrade: BTreeSet<String>,
    probe: Option<String>,
    pub recorded: BTreeMap<String, Baseline>,
    iter_fns: BTreeSet<String>,
    result_fns: BTreeSet<String>,
    fns: BTreeMap<String, FnInfo>,
    consts: BTreeMap<String, Expr>,
    report_fns: Vec<serde_json::Value>,
    dropped: Vec<String>,
    out: String,
    line: usize,
    inlined: BTreeSet<String>,
    inline_count: usize,
    extra: Option<Vec<String>>,
    muts: Vec<(usize, Vec<String>)>,
    hoisted: Vec<(String, Item, String)>,
    macros: crate::macros::Macros,
}

const EXT: &[&str] = &["aes_gcm", "hmac", "rand", "scrypt", "secrecy", "base64", "enumset", "wildmatch", "sha2", "serde", "serde_json", "question", "io_streams", "qrcodegen", "rpassword", "app_dirs2", "clap", "rustyline", "shellwords", "std", "core", "alloc", "getrandom"];

fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && {
        let t = a.meta.to_token_stream().to_string().replace(' ', "");
        t == "cfg(test)" || t == "cfg(pfp_verif)" || t == "cfg(logging_alloc)" || t == "cfg(leaking_alloc)"
    })
}

fn skip_mod(path: &str) -> bool { ["json", "cli::leaking_allocator", "cli::logging_allocator"].contains(&path) }

impl Extractor {
    pub fn new(repo: String, cdir: String, contracts: Contracts, baseline: BTreeMap<String, Baseline>, degrade: BTreeSet<String>, probe: Option<String>) -> Self {
        Extractor { repo, cdir, contracts, baseline, degrade, probe, recorded: BTreeMap::new(), iter_fns: ["keys"].iter().map(|s| s.to_string()).collect(), result_fns: BTreeSet::new(), fns: BTreeMap::new(), consts: BTreeMap::new(), report_fns: vec![], dropped: vec![], out: String::new(), line: 1, inlined: BTreeSet::new(), inline_count: 0, extra: None, muts: vec![], hoisted: vec![], macros: Default::default() }
    }

    fn load(&mut self, file: String, path: Vec<String>, dir: String, cli: bool, out: &mut Vec<Module>) {
        let text = std::fs::read_to_string(&file).unwrap_or_else(|e| panic!("{file}: {e}"));
        let mut ast = parse_file(&text).unwrap_or_else(|e| panic!("{file}: {e}"));
        self.macros.collect(&ast.items);
        self.macros.items(&mut ast.items);
        let mut items = vec![];
        for it in ast.items {
            if let Item::Mod(m) = &it {
                if cfg_off(&m.attrs) { continue; }
                let mut p = path.clone();
                p.push(m.ident.to_string());
                if skip_mod(&p.join("::")) { self.dropped.push(format!("module {}", p.join("::"))); continue; }
                if let Some((_, inner)) = &m.content { out.push(Module { path: p, file: file.clone(), items: inner.clone(), cli }); continue; }
                let a = format!("{dir}/{}.rs", m.ident);
                let b = format!("{dir}/{}/mod.rs", m.ident);
                let f = if std::path::Path::new(&a).exists() { a } else { b };
                self.load(f, p, format!("{dir}/{}", m.ident), cli, out);
                continue;
            }
            items.push(it);
        }
        out.push(Module { path, file, items, cli });
    }

    fn put(&mut self, s: &str) { self.out.push_str(s); if !s.ends_with('\n') { self.out.push('\n'); } self.line = self.out.matches('\n').count() + 1; }

    pub fn run(&mut self) -> String {
        let mut mods = vec![];
        self.load(format!("{}/pfp/src/lib.rs", self.repo), vec![], format!("{}/pfp/src", self.repo), false, &mut mods);
        self.load(format!("{}/cli/src/main.rs", self.repo), vec!["cli".into()], format!("{}/cli/src", self.repo), true, &mut mods);
        // tables
        for m in &mods {
            let base = m.path.join("::");
            let q = |n: &str| if base.is_empty() { n.to_string() } else { format!("{base}::{n}") };
            for it in &m.items {
                match it {
                    Item::Fn(f) if !cfg_off(&f.attrs) => { self.fns.insert(q(&f.sig.ident.to_string()), FnInfo { sig: f.sig.clone(), block: (*f.block).clone() }); }
                    Item::Impl(i) if !cfg_off(&i.attrs) => {
                        let t = self_name(&i.self_ty);
                        for x in &i.items { if let ImplItem::Fn(f) = x { if !cfg_off(&f.attrs) { self.fns.insert(q(&format!("{t}::{}", f.sig.ident)), FnInfo { sig: f.sig.clone(), block: f.block.clone() }); } } }
                    }
                    Item::Const(c) => { self.consts.insert(c.ident.to_string(), (*c.expr).clone()); }
                    _ => {}
                }
            }
        }
        let sigs: Vec<(String, Signature)> = self.fns.iter().map(|(k, f)| (k.clone(), f.sig.clone())).collect();
        for (_, s) in sigs {
            let o = s.output.to_token_stream().to_string();
            if o.contains("impl Iterator") || o.contains("dyn Iterator") { self.iter_fns.insert(s.ident.to_string()); }
            if o.trim_start_matches("-> ").starts_with("Result") { self.result_fns.insert(s.ident.to_string()); }
        }
        // names which are both (Passwords::get and HashMap::get) are resolved in desugar::is_result
        let shim = std::fs::read_to_string(format!("{}/shim.rs", self.cdir)).unwrap();
        let spec = crate::contracts::byte_texts(&std::fs::read_to_string(format!("{}/spec.rs", self.cdir)).unwrap());
        self.put("// Generated by /verif/tools/extract from /repo. Do not edit.\n#![allow(warnings)]\n#![feature(pattern)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
        self.put(&shim);
        self.put(&spec);
        self.put("pub mod json { pub use crate::shim::json::*; }\n");
        // tree emission
        let tree: Vec<Module> = mods;
        self.emit_tree(&tree, &[]);
        self.put(&crate::contracts::literals());
        self.put("} // verus!\nfn main() {}\n");
        self.out.clone()
    }

    fn emit_tree(&mut self, all: &[Module], at: &[String]) {
        if let Some(m) = all.iter().find(|m| m.path == at) { self.emit_items(m); }
        let mut kids: BTreeSet<String> = BTreeSet::new();
        for m in all { if m.path.len() > at.len() && m.path[..at.len()] == *at { kids.insert(m.path[at.len()].clone()); } }
        for k in kids {
            self.put(&format!("pub mod {k} {{\n#[allow(unused_imports)] use vstd::prelude::*; use crate::spec::*; use crate::shim::*;"));
            let mut p = at.to_vec();
            p.push(k.clone());
            self.emit_tree(all, &p);
            if let Some(t) = self.contracts.inject.get(&format!("mod {}", p.join("::"))).cloned() { self.put(&t); }
            self.put(&format!("}} // mod {k}"));
        }
    }

    fn emit_items(&mut self, m: &Module) {
        let base = m.path.join("::");
        let q = |n: &str| if base.is_empty() { n.to_string() } else { format!("{base}::{n}") };
        if base == "cli" {
            // only the command dispatch of main.rs; process setup and shutdown stay outside
            for it in &m.items { if let Item::Fn(f) = it { if f.sig.ident != "main_inner" { self.dropped.push(format!("fn cli::{}", f.sig.ident)); } } }
        }
        for it in &m.items {
            match it {
                Item::Use(u) => {
                    if cfg_off(&u.attrs) { continue; }
                    let mut u = u.clone();
                    u.attrs.clear();
                    let mut t = u.tree.clone();
                    rewrite_use(&mut t, m.cli);
                    u.tree = t;
                    if let Visibility::Inherited = u.vis { u.vis = parse_quote!(pub); }
                    let s = emit::print(u.to_token_stream());
                    if s.contains("SubsecX") { continue; }
                    self.put(&s);
                }
                Item::Const(c) => self.emit_const(&c.ident.to_string(), &c.ty, &c.expr, m.cli),
                Item::Static(s) => { let key = q(&s.ident.to_string()); self.emit_static(&key, &s.ident.to_string(), &s.ty, &s.expr, m.cli); }
                Item::Struct(s) => {
                    if cfg_off(&s.attrs) { continue; }
                    let mut s = s.clone();
                    s.attrs.clear();
                    s.vis = parse_quote!(pub);
                    for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                    for (n, t, _) in self.contracts.ghost.get(&q(&s.ident.to_string())).cloned().unwrap_or_default() {
                        let (n, t): (Ident, Type) = (format_ident!("{}", n), syn::parse_str(&t).unwrap());
                        if let Fields::Named(f) = &mut s.fields { f.named.push(syn::parse::Parser::parse2(syn::Field::parse_named, quote!(pub #n: #t)).unwrap()); }
                    }
                    let mut i = Item::Struct(s.clone());
                    Paths { cli: m.cli }.visit_item_mut(&mut i);
                    if let Some(d) = self.contracts.derive.get(&q(&s.ident.to_string())).cloned() { self.put(&format!("#[derive({d})]")); }
                    self.put(&emit::print(i.to_token_stream()));
                    self.inject(&q(&s.ident.to_string()));
                }
                Item::Enum(e) => {
                    if cfg_off(&e.attrs) { continue; }
                    let mut e = e.clone();
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in e.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                    let mut i = Item::Enum(e.clone());
                    Paths { cli: m.cli }.visit_item_mut(&mut i);
                    if let Some(d) = self.contracts.derive.get(&q(&e.ident.to_string())).cloned() { self.put(&format!("#[derive({d})]")); }
                    self.put(&emit::print(i.to_token_stream()));
                    self.inject(&q(&e.ident.to_string()));
                }
                Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); let mut i = Item::Type(t); Paths { cli: m.cli }.visit_item_mut(&mut i); self.put(&emit::print(i.to_token_stream())); }
                Item::Fn(f) => {
                    if cfg_off(&f.attrs) { continue; }
                    if base == "cli" && f.sig.ident != "main_inner" { continue; }
                    let key = q(&f.sig.ident.to_string());
                    self.emit_fn(&key, f.sig.clone(), Some((*f.block).clone()), true, m, false);
                }
                Item::Trait(t) => {
                    let name = t.ident.to_string();
                    let g = &t.generics;
                    let st = &t.supertraits;
                    let colon = if st.is_empty() { quote!() } else { quote!(:) };
                    let w = &g.where_clause;
                    self.put(&format!("pub trait {name} {} {{", emit::print(quote!(#g #colon #st #w))));
                    self.inject(&format!("trait {}", q(&name)));
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x { let key = q(&format!("{name}::{}", f.sig.ident)); self.emit_fn(&key, f.sig.clone(), f.default.clone(), false, m, false); }
                    }
                    self.put("}");
                }
                Item::Impl(i) => {
                    if cfg_off(&i.attrs) { continue; }
                    if base == "cli" { self.dropped.push(format!("impl in cli: {}", self_name(&i.self_ty))); continue; }
                    let t = self_name(&i.self_ty);
                    if let Some((_, p, _)) = &i.trait_ {
                        let tn = p.segments.last().unwrap().ident.to_string();
                        if tn == "Drop" || tn == "Debug" || tn == "Display" { self.dropped.push(format!("impl {tn} for {}", q(&t))); continue; }
                    }
                    let mut hd = i.clone();
                    hd.attrs.clear();
                    hd.items.clear();
                    let mut hi = Item::Impl(hd);
                    Paths { cli: m.cli }.visit_item_mut(&mut hi);
                    let s = emit::print(hi.to_token_stream());
                    let s = s.trim_end().trim_end_matches('}').trim_end().to_string();
                    self.put(&s);
                    let tname = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    self.inject(&match &tname { Some(tn) => format!("impl {tn} for {}", q(&t)), None => format!("impl {}", q(&t)) });
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if cfg_off(&f.attrs) { continue; }
                            let key = q(&format!("{t}::{}", f.sig.ident));
                            let mut block = f.block.clone();
                            if let Some(g) = self.contracts.ghost.get(&q(&t)) { GhostInit { name: t.clone(), fields: g.clone() }.visit_block_mut(&mut block); }
                            self.emit_fn(&key, f.sig.clone(), Some(block), tname.is_none(), m, tname.is_some());
                        }
                    }
                    self.put("}");
                    let h = std::mem::take(&mut self.hoisted);
                    for (key, it, name) in h { self.emit_hoisted(key, it, name, m.cli); }
                }
                Item::Macro(_) => self.dropped.push(format!("macro item in {base}")),
                _ => self.dropped.push(format!("item in {base}")),
            }
            let h = std::mem::take(&mut self.hoisted);
            if !matches!(it, Item::Impl(_)) { for (key, it, name) in h { self.emit_hoisted(key, it, name, m.cli); } }
        }
    }

    fn emit_hoisted(&mut self, key: String, it: Item, name: String, cli: bool) {
        match it {
            Item::Static(s) => self.emit_static(&key, &name, &s.ty, &s.expr, cli),
            Item::Const(c) => self.emit_const(&name, &c.ty, &c.expr, cli),
            _ => {}
        }
    }

    fn inject(&mut self, k: &str) { if let Some(t) = self.contracts.inject.get(k).cloned() { self.put(&t); } }

    fn fold(&self, e: &Expr) -> Option<u128> {
        match strip_paren(e) {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
            Expr::Path(p) => self.consts.get(&p.path.segments.last()?.ident.to_string()).and_then(|e| self.fold(e)),
            Expr::Binary(b) => { let (x, y) = (self.fold(&b.left)?, self.fold(&b.right)?); match b.op { BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y), BinOp::Div(_) => x.checked_div(y), BinOp::Rem(_) => x.checked_rem(y), _ => None } }
            _ => None,
        }
    }

    fn val_ensures(&self, p: &str, e: &Expr, out: &mut Vec<String>) {
        match strip_paren(e) {
            Expr::Reference(r) => self.val_ensures(p, &r.expr, out),
            Expr::Lit(l) => match &l.lit {
                Lit::ByteStr(b) => out.push(format!("{p}@ =~= seq![{}]", b.value().iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "))),
                Lit::Str(s) => out.push(format!("{p}@ == {}@", s.to_token_stream())),
                Lit::Byte(b) => out.push(format!("{p} == {}u8", b.value())),
                o => out.push(format!("{p} == {}", o.to_token_stream())),
            },
            Expr::Array(a) => { out.push(format!("{p}@.len() == {}", a.elems.len())); for (i, x) in a.elems.iter().enumerate() { self.val_ensures(&format!("{p}@[{i}]"), x, out); } }
            Expr::Tuple(t) => for (i, x) in t.elems.iter().enumerate() { self.val_ensures(&format!("{p}.{i}"), x, out); },
            Expr::Path(q) => {
                let n = q.path.segments.last().unwrap().ident.to_string();
                if let Some(e) = self.consts.get(&n) { let e = e.clone(); self.val_ensures(p, &e, out); } else { out.push(format!("{p} == {}", emit::print(q.to_token_stream()))); }
            }
            _ => {}
        }
    }

    fn emit_const(&mut self, name: &str, ty: &Type, e: &Expr, cli: bool) {
        let mut ty = ty.clone();
        struct St;
        impl VisitMut for St { fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } visit_mut::visit_type_reference_mut(self, r); } }
        St.visit_type_mut(&mut ty);
        Paths { cli }.visit_type_mut(&mut ty);
        let t = emit::print(ty.to_token_stream());
        let simple = matches!(&ty, Type::Path(_)) || matches!(&ty, Type::Reference(r) if emit::print(r.elem.to_token_stream()).trim() == "str");
        let mut ex = e.clone();
        let c = Contract::default();
        let (a, b) = (self.iter_fns.clone(), self.result_fns.clone());
        Desugar::new(&c, &a, &b).visit_expr_mut(&mut ex);
        Paths { cli }.visit_expr_mut(&mut ex);
        let v = emit::print(ex.to_token_stream());
        if simple {
            let v = match self.fold(e) { Some(n) => n.to_string(), None => v };
            self.put(&format!("pub const {name}: {t} = {v};"));
        } else {
            let mut ens = vec![];
            self.val_ensures(name, e, &mut ens);
            self.put(&format!("pub exec const {name}: {t}\n ensures {}\n{{ {v} }}", ens.join(",\n   ")));
        }
    }

    fn emit_static(&mut self, key: &str, name: &str, ty: &Type, e: &Expr, cli: bool) {
        let block: Block = match strip_paren(e) { Expr::Block(b) => b.block, x => parse_quote!({ #x }) };
        let c = self.contracts.fns.get(key).cloned().unwrap_or_default();
        let (a, b) = (self.iter_fns.clone(), self.result_fns.clone());
        let mut block2 = self.alpha(key, None, block);
        let mut d = Desugar::new(&c, &a, &b);
        d.visit_block_mut(&mut block2);
        let loops = d.loops;
        let lost: Vec<String> = c.at.iter().enumerate().filter(|(i, (x, _))| !d.used_at.contains(i) && x != "start" && x != "end").map(|(_, (x, _))| x.clone()).collect();
        let unsupported = d.unsupported.clone();
        Paths { cli }.visit_block_mut(&mut block2);
        let mut ty = ty.clone();
        Paths { cli }.visit_type_mut(&mut ty);
        let start = self.line;
        let mut clauses = vec![];
        let deg = self.degrade.contains(key) || !unsupported.is_empty();
        if loops > 0 && !deg { self.put("#[verifier::exec_allows_no_decreases_clause]"); }
        self.put(&format!("pub exec static {name}: {}", emit::print(ty.to_token_stream())));
        if c.ensures.is_empty() { self.put("  ensures true"); }
        self.clauses(&c, &mut clauses, false);
        let start_stmts = c.at.iter().filter(|(x, t)| x == "start" && !t.is_empty()).map(|(_, t)| raw_stmt(t)).collect::<Vec<_>>();
        let mut v = start_stmts; v.append(&mut block2.stmts); block2.stmts = v;
        if deg { self.put("{ crate::shim::x_any() }"); } else { let s = emit::print(block2.to_token_stream()); self.put(&s); }
        self.finish(key, start, clauses, &c, deg, unsupported, lost, loops);
    }

    fn clauses(&mut self, c: &Contract, out: &mut Vec<serde_json::Value>, no_requires: bool) {
        if !c.requires.is_empty() && !no_requires {
            self.put("  requires");
            for q in &c.requires { let l = self.line; self.put(&if q.text.starts_with("&&&") { format!("    ({{ {} }}),", q.text) } else { format!("    ({}),", q.text) }); out.push(json!({"kind": "requires", "from": l, "to": self.line - 1, "label": q.label, "tags": []})); }
        }
        if !c.ensures.is_empty() {
            self.put("  ensures");
            for q in &c.ensures { let l = self.line; self.put(&if q.text.starts_with("&&&") { format!("    ({{ {} }}),", q.text) } else { format!("    ({}),", q.text) }); out.push(json!({"kind": "ensures", "from": l, "to": self.line - 1, "label": q.label, "tags": q.tags})); }
        }
    }

    fn alpha(&mut self, key: &str, sig: Option<&mut Signature>, mut block: Block) -> Block {
        let empty: Signature = parse_quote!(fn x());
        let cur = names::decls(sig.as_deref().unwrap_or(&empty), &block);
        if let Some(b) = self.baseline.get(key) {
            let map = names::mapping(&cur, &b.locals);
            if !map.is_empty() {
                let mut r = names::Rename(map);
                r.visit_block_mut(&mut block);
                if let Some(s) = sig { for i in s.inputs.iter_mut() { if let FnArg::Typed(t) = i { r.visit_pat_mut(&mut t.pat); } } }
            }
        }
        block
    }

    fn emit_fn(&mut self, key: &str, sig: Signature, block: Option<Block>, vis: bool, m: &Module, in_trait_impl: bool) {
        let contracted = self.contracts.fns.contains_key(key);
        let c = self.contracts.fns.get(key).cloned().unwrap_or_else(|| Contract { key: key.into(), ret: "r".into(), ..Default::default() });
        let mut sig = sig;
        // record / compare
        let norm = |s: &Signature, b: &Option<Block>| quote!(#s #b).to_string();
        let mut block = block;
        let mut c = c;
        let locals = block.as_ref().map(|b| names::decls(&sig, b)).unwrap_or_default();
        if let Some(b) = block.take() { block = Some(self.alpha(key, Some(&mut sig), b)); }
        let hash = norm(&sig, &block);
        // Parameters shadowed by new locals: hints keep meaning the parameter.
        let mut shadowed: Vec<String> = vec![];
        if let (Some(b), Some(base)) = (&block, self.baseline.get(key)) {
            let empty: Signature = parse_quote!(fn x());
            let inner = names::decls(&empty, b);
            let params = names::decls(&sig, &parse_quote!({}));
            for p in params {
                let n = p.trim_start_matches('=').to_string();
                if inner.iter().any(|x| x.trim_start_matches('=') == n) && base.locals.iter().filter(|x| x.trim_start_matches('=') == n).count() == 1 { shadowed.push(n); }
            }
        }
        for n in &shadowed { c.rename_hints(n, &format!("__p_{n}")); }
        // inline helpers without a contract
        if let Some(b) = &mut block {
            if contracted {
                for _ in 0..4 {
                    let mut inl = Inline { ex: self, key: key.to_string(), modpath: m.path.join("::"), n: 0, done: false };
                    inl.run(b);
                    if !inl.done { break; }
                }
                flatten(&sig, b);
            }
        }
        // hoist inner statics and consts
        let mut hoist: Vec<(Ident, Ident, Item)> = vec![];
        if let Some(b) = &mut block {
            let fname = sig.ident.to_string().to_uppercase();
            struct Hoist<'x> { fname: String, out: &'x mut Vec<(Ident, Ident, Item)> }
            impl<'x> VisitMut for Hoist<'x> {
                fn visit_item_mut(&mut self, _: &mut Item) {}
                fn visit_block_mut(&mut self, b: &mut Block) {
                    b.stmts.retain(|s| match s {
                        Stmt::Item(it @ (Item::Static(_) | Item::Const(_))) => {
                            let id = match it { Item::Static(s) => s.ident.clone(), Item::Const(c) => c.ident.clone(), _ => unreachable!() };
                            if self.out.iter().any(|(x, _, _)| *x == id) { return true; }
                            self.out.push((id.clone(), format_ident!("{}_{}", self.fname, id), it.clone()));
                            false
                        }
                        _ => true,
                    });
                    visit_mut::visit_block_mut(self, b);
                }
            }
            Hoist { fname, out: &mut hoist }.visit_block_mut(b);
            let map: BTreeMap<String, String> = hoist.iter().map(|(a, b, _)| (a.to_string(), b.to_string())).collect();
            if !map.is_empty() { names::Rename(map).visit_block_mut(b); }
        }
        for (a, b, it) in &hoist { self.hoisted.push((format!("{key}::{a}"), it.clone(), b.to_string())); }
        let mut unsupported = vec![];
        if let Some(b) = &mut block { if contracted { normalise(b); } }
        if let Some(b) = &block {
            let base: BTreeSet<String> = self.baseline.get(key).map(|b| b.locals.iter().map(|x| x.trim_start_matches('=').to_string()).collect()).unwrap_or_default();
            let all: Vec<String> = names::decls(&sig, b).into_iter().map(|x| x.trim_start_matches('=').to_string()).collect();
            let mut v: Vec<String> = all.iter().filter(|x| !base.contains(*x)).cloned().collect();
            v.push("|".into());
            for x in all { if !v.contains(&x) { v.push(x); } }
            self.extra = Some(v);
        }
        let (ia, ra) = (self.iter_fns.clone(), self.result_fns.clone());
        let mut lost = vec![];
        let mut loops = 0;
        let mut body_text = String::new();
        if let Some(b) = &mut block {
            let strings = compares_strings(b);
            let mut d = Desugar::new(&c, &ia, &ra);
            let rty: Option<Type> = match &sig.output { ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl ") => Some((**t).clone()), _ => None };
            d.ret_ty = rty.clone();
            d.visit_block_mut(b);
            let posts = d.post_stmts();
            loops = d.loops;
            self.muts = std::mem::take(&mut d.muts);
            unsupported = d.unsupported.clone();
            lost = c.at.iter().enumerate().filter(|(i, (x, _))| !d.used_at.contains(i) && x != "start" && x != "end").map(|(_, (x, _))| x.clone()).collect();
            // a loop the contract does not know has no invariant
            if let Some(base) = self.baseline.get(key) { if loops > base.loops { lost.push("new loop".into()); } }
            for n in c.loops.keys() { if *n >= loops { lost.push(format!("loop {n}")); } }
            let end: Vec<Stmt> = c.at.iter().filter(|(x, t)| x == "end" && !t.is_empty()).map(|(_, t)| raw_stmt(t)).collect();
            let end: Vec<Stmt> = end.into_iter().chain(posts).collect();
            if !end.is_empty() {
                if matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    // ends with `return`: the assertions are already there, hints go before it
                    let last = b.stmts.pop().unwrap();
                    if let Stmt::Expr(Expr::Return(rt), semi) = last {
                        let mut rt = rt;
                        if let Some(e) = &rt.expr { let r = format_ident!("{}", c.ret); let e = e.clone(); let hints: Vec<Stmt> = c.at.iter().filter(|(x, t)| x == "end" && !t.is_empty()).map(|(_, t)| raw_stmt(t)).collect(); rt.expr = Some(Box::new(parse_quote!({ let #r = #e; #(#hints)* #r }))); }
                        b.stmts.push(Stmt::Expr(Expr::Return(rt), semi));
                    }
                } else if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    b.stmts.pop();
                    let r = format_ident!("{}", c.ret);
                    b.stmts.push(match &rty { Some(t) => parse_quote!(let #r: #t = #e;), None => parse_quote!(let #r = #e;) });
                    b.stmts.extend(end);
                    b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
                } else { b.stmts.extend(end); }
            }
            let hides: Vec<Stmt> = c.hide.split_whitespace().map(|h| raw_stmt(&format!("hide({});", h.trim_end_matches(',')))).collect();
            let strings: Option<Stmt> = if strings { Some(raw_stmt("broadcast use crate::shim::eqs::strings;")) } else { None };
            let mut st: Vec<Stmt> = hides.into_iter().chain(strings).chain(shadowed.iter().map(|n| raw_stmt(&format!("let ghost __p_{n} = {n};")))).collect();
            for (w, t) in [("__out", "u8"), ("__yes", "bool"), ("__pw", "Seq<char>"), ("__lines", "Seq<char>")] { if c.mentions(w) { st.push(raw_stmt(&format!("let ghost mut {w}: Seq<{t}> = Seq::<{t}>::empty();"))); } }
            st.extend(c.at.iter().filter(|(x, t)| x == "start" && !t.is_empty()).map(|(_, t)| raw_stmt(t)));
            if self.probe.is_some() { st.push(raw_stmt("assert(false);")); }
            st.append(&mut b.stmts);
            b.stmts = st;
            Paths { cli: m.cli }.visit_block_mut(b);
            self.fold_arrays(b);
            body_text = emit::print(b.to_token_stream());
        }
        // signature
        Paths { cli: m.cli }.visit_signature_mut(&mut sig);
        SigFix.visit_signature_mut(&mut sig);
        let deg = self.degrade.contains(key) || !unsupported.is_empty() || c.trusted;
        let skip_inlined = !contracted && self.inlinable(key);
        if skip_inlined && block.is_some() && self.fns.contains_key(key) && !in_trait_impl {
            // Its body is verified where it is used.
            self.dropped.push(format!("fn {key} (inlined at its uses)"));
            self.put("#[verifier::external_body]");
        } else if deg && block.is_some() { self.put("#[verifier::external_body]"); }
        let start = self.line;
        if !c.attrs.is_empty() { self.put(&c.attrs); }
        if loops > 0 && body_text.contains("while ") || body_text.contains("loop ") { self.put("#[verifier::exec_allows_no_decreases_clause]"); }
        let (name, gen, inputs, wher) = (&sig.ident, &sig.generics, &sig.inputs, &sig.generics.where_clause);
        let mut g2 = gen.clone();
        g2.where_clause = None;
        let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!(" -> ({}: {})", c.ret, emit::print(t.to_token_stream())) };
        self.put(&format!("{}fn {name}{}({}){ret} {}", if vis { "pub " } else { "" }, emit::print(g2.to_token_stream()), emit::print(inputs.to_token_stream()), emit::print(wher.to_token_stream())));
        let mut clauses = vec![];
        self.clauses(&c, &mut clauses, in_trait_impl);
        match &block {
            None => self.put(";"),
            Some(_) if deg || (skip_inlined && !in_trait_impl) => self.put("{ unimplemented!() }"),
            Some(_) => {
                let first = self.line;
                for (n, q) in c.posts.iter().enumerate() {
                    let (mut from, mark, end) = (0, format!("/*POST {n}*/"), format!("/*END {n}*/"));
                    for (i, l) in body_text.lines().enumerate() {
                        if l.contains(&mark) { from = first + i; }
                        if l.contains(&end) { clauses.push(json!({"kind": "post", "from": from, "to": first + i, "label": q.label, "tags": q.tags})); }
                    }
                }
                self.put(&body_text.clone())
            }
        }
        self.recorded.insert(key.to_string(), Baseline { hash: hash.clone(), locals, loops });
        if block.is_some() && !(skip_inlined && !in_trait_impl) { self.finish(key, start, clauses, &c, deg, unsupported, lost, loops); }
        let changed = self.baseline.get(key).map_or(true, |b| b.hash != hash);
        if let Some(l) = self.report_fns.last_mut() { if l["key"] == key { l["changed"] = json!(changed); l["contracted"] = json!(contracted); l["file"] = json!(m.file); } }
    }

    fn fold_arrays(&self, b: &mut Block) {
        struct F<'a>(&'a Extractor);
        impl<'a> VisitMut for F<'a> {
            fn visit_type_array_mut(&mut self, t: &mut TypeArray) { if let Some(n) = self.0.fold(&t.len) { let l = LitInt::new(&n.to_string(), proc_macro2::Span::call_site()); t.len = parse_quote!(#l); } visit_mut::visit_type_array_mut(self, t); }
        }
        F(self).visit_block_mut(b);
    }

    fn marks(&self, start: usize) -> Vec<serde_json::Value> {
        let mut open: BTreeMap<String, usize> = BTreeMap::new();
        let mut out = vec![];
        for (i, l) in self.out.lines().enumerate().skip(start - 1) {
            let mut rest = l;
            while let Some(p) = rest.find("/*") {
                let t = &rest[p..];
                let Some(e) = t.find("*/") else { break };
                let body = &t[2..e];
                if let Some(id) = body.strip_prefix("H ") { open.insert(id.into(), i + 1); }
                if let Some(id) = body.strip_prefix("E ") { if let Some(f) = open.remove(id) { out.push(json!({"id": id, "from": f, "to": i + 1})); } }
                rest = &t[e + 2..];
            }
        }
        out
    }

    fn finish(&mut self, key: &str, start: usize, clauses: Vec<serde_json::Value>, c: &Contract, deg: bool, unsupported: Vec<String>, lost: Vec<String>, loops: usize) {
        let mut tags: BTreeSet<String> = c.tags.iter().cloned().collect();
        for q in c.ensures.iter().chain(&c.posts) { tags.extend(q.tags.iter().cloned()); }
        let mut lost = lost;
        if c.edited { lost.push("hints that do not apply any more".into()); }
        let hints = self.marks(start);
        let extra = self.extra.take().unwrap_or_default();
        let base: Vec<String> = self.baseline.get(key).map(|b| b.locals.iter().map(|x| x.trim_start_matches('=').to_string()).collect()).unwrap_or_default();
        self.report_fns.push(json!({"hints": hints, "base_locals": base, "new_locals": extra, "loop_muts": std::mem::take(&mut self.muts), "key": key, "from": start, "to": self.line - 1, "clauses": clauses, "tags": tags, "status": if c.trusted { "trusted" } else if deg { "degraded" } else { "verified" }, "unsupported": unsupported, "lost": lost, "loops": loops, "changed": false, "contracted": true}));
    }

    /// A function which the unchanged tree does not have and no contract speaks of
    fn inlinable(&self, key: &str) -> bool {
        !self.baseline.is_empty() && !self.contracts.fns.contains_key(key) && !self.baseline.contains_key(key) && self.fns.contains_key(key)
    }

    pub fn known(&self) -> BTreeMap<String, Baseline> {
        let mut all = self.recorded.clone();
        for k in self.fns.keys() { all.entry(k.clone()).or_default(); }
        all
    }

    pub fn report(&self) -> serde_json::Value {
        let present: BTreeSet<&str> = self.report_fns.iter().map(|f| f["key"].as_str().unwrap()).collect();
        let missing: Vec<&String> = self.contracts.fns.keys().filter(|k| !present.contains(k.as_str()) && !self.recorded.contains_key(*k)).collect();
        json!({"functions": self.report_fns, "dropped": self.dropped, "missing": missing, "inlined": self.inlined})
    }
}

/// Replaces calls of helpers that have no contract by their bodies.
struct Inline<'a> { ex: &'a mut Extractor, key: String, modpath: String, n: usize, done: bool }
fn upper(s: &str) -> bool { s.chars().next().map_or(false, |c| c.is_uppercase()) }
/// (module, type, function)
fn parts(key: &str) -> (String, Option<String>, String) {
    let mut v: Vec<&str> = key.split("::").collect();
    let f = v.pop().unwrap_or("").to_string();
    let t = if v.last().map_or(false, |x| upper(x)) { v.pop().map(|x| x.to_string()) } else { None };
    (v.join("::"), t, f)
}
#[derive(Clone, Copy, PartialEq)]
enum Pos { Plain, Question, Tail }
struct Rets { any: bool, ok: bool }
impl<'a> visit::Visit<'a> for Rets {
    fn visit_expr_return(&mut self, r: &'a ExprReturn) {
        self.any = true;
        let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string() == "Err");
        if !err { self.ok = true; }
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn rets(b: &Block) -> Rets { let mut r = Rets { any: false, ok: false }; visit::Visit::visit_block(&mut r, b); r }

/// Turns early returns at statement level into nested branches.
fn unreturn(b: &Block) -> Block {
    fn returns(b: &Block) -> Option<Block> {
        let mut b = b.clone();
        match b.stmts.pop() {
            Some(Stmt::Expr(Expr::Return(r), _)) => {
                if let Some(e) = r.expr { b.stmts.push(Stmt::Expr(*e, None)); }
                if rets(&b).any { return None; }
                Some(b)
            }
            _ => None,
        }
    }
    fn go(stmts: &[Stmt]) -> Vec<Stmt> {
        let mut out = vec![];
        for (i, s) in stmts.iter().enumerate() {
            let rest = &stmts[i + 1..];
            match s {
                Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && !rest.is_empty() => if let Some(t) = returns(&x.then_branch) {
                    let (c, r) = (&x.cond, go(rest));
                    let st = &t.stmts;
                    out.push(Stmt::Expr(parse_quote!(if #c { #(#st)* } else { #(#r)* }), None));
                    return out;
                },
                Stmt::Local(l) => if let Some(init) = &l.init {
                    let pat = &l.pat;
                    if let Some((_, d)) = &init.diverge {
                        if let Expr::Block(d) = &**d { if let Some(t) = returns(&d.block) {
                            let (e, r, st) = (&init.expr, go(rest), &t.stmts);
                            out.push(Stmt::Expr(parse_quote!(match #e { #pat => { #(#r)* } _ => { #(#st)* } }), None));
                            return out;
                        } }
                    } else if let Expr::Match(m) = &*init.expr {
                        let is_ret = |a: &Arm| match &*a.body { Expr::Return(_) => true, Expr::Block(b) => returns(&b.block).is_some(), _ => false };
                        if m.arms.iter().filter(|a| !is_ret(a)).count() == 1 && m.arms.iter().any(is_ret) {
                            let mut m = m.clone();
                            for a in &mut m.arms {
                                if is_ret(a) {
                                    let t = match &*a.body { Expr::Return(r) => r.expr.clone().map(|e| *e).unwrap_or(parse_quote!(())), Expr::Block(b) => Expr::Block(ExprBlock { attrs: vec![], label: None, block: returns(&b.block).unwrap() }), _ => unreachable!() };
                                    *a.body = parse_quote!({ #t });
                                } else {
                                    let (v, r) = (a.body.clone(), go(rest));
                                    *a.body = parse_quote!({ let #pat = #v; #(#r)* });
                                }
                            }
                            out.push(Stmt::Expr(Expr::Match(m), None));
                            return out;
                        }
                    }
                },
                Stmt::Expr(Expr::Return(r), _) if rest.is_empty() => { if let Some(e) = &r.expr { out.push(Stmt::Expr((**e).clone(), None)); } return out; }
                _ => {}
            }
            out.push(s.clone());
        }
        out
    }
    Block { brace_token: b.brace_token, stmts: go(&b.stmts) }
}
impl<'a> Inline<'a> {
    /// The helper meant by a call: `path` are the segments of the called path, or the method's name alone.
    fn target(&self, path: &[String], method: Option<&Expr>) -> Option<String> {
        let name = path.last()?;
        let (_, own, _) = parts(&self.key);
        let fits = |k: &String| -> bool {
            let (m, t, f) = parts(k);
            if f != *name { return false; }
            let has_self = self.ex.fns[k].sig.receiver().is_some();
            if let Some(r) = method {
                if !has_self || t.is_none() { return false; }
                if strip_paren(r).to_token_stream().to_string() == "self" { return t == own && m == self.modpath; }
                return true;
            }
            match path.len() {
                1 => t.is_none(),
                _ => {
                    let q = &path[path.len() - 2];
                    if q == "Self" { t == own && m == self.modpath }
                    else if upper(q) { t.as_deref() == Some(q) }
                    else { t.is_none() && (["self", "super", "crate"].contains(&q.as_str()) || m.rsplit("::").next() == Some(q.as_str())) }
                }
            }
        };
        let all: Vec<&String> = self.ex.fns.keys().filter(|k| fits(k)).collect();
        let same: Vec<&String> = all.iter().filter(|k| parts(k).0 == self.modpath).cloned().collect();
        let k = if same.len() == 1 { same[0] } else if all.len() == 1 { all[0] } else { return None };
        // a method's name that means something else elsewhere cannot be resolved without types
        if method.is_some() && strip_paren(method?).to_token_stream().to_string() != "self" && ["new", "get", "set", "len", "clone", "insert", "remove", "push", "iter", "next"].contains(&name.as_str()) { return None; }
        if *k == self.key || !self.ex.inlinable(k) { return None; }
        Some(k.clone())
    }
    fn try_inline(&mut self, path: Vec<String>, recv: Option<Expr>, args: Vec<Expr>, pos: Pos) -> Option<Expr> {
        let key = self.target(&path, recv.as_ref())?;
        let f = self.ex.fns.get(&key)?.clone();
        let (module, owner, _) = parts(&key);
        let b = &if pos == Pos::Tail { f.block.clone() } else { unreturn(&f.block) };
        let has_q = crate::desugar::escapes(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: b.clone() })).1;
        if has_q && pos == Pos::Plain { return None; }
        let r = rets(b);
        if r.any && (pos == Pos::Plain || (pos == Pos::Question && r.ok)) { return None; }
        let mut stmts: Vec<Stmt> = vec![];
        let mut names_: Vec<Stmt> = vec![];
        self.n += 1;
        self.ex.inline_count += 1;
        let n = self.ex.inline_count;
        let mut ai = args.into_iter();
        let mut self_map: Option<Ident> = None;
        let generic = !f.sig.generics.params.is_empty();
        let mut same_names: BTreeSet<String> = BTreeSet::new();
        for (i, inp) in f.sig.inputs.iter().enumerate() {
            match inp {
                FnArg::Receiver(rc) => {
                    let r = recv.clone().or_else(|| ai.next())?;
                    if strip_paren(&r).to_token_stream().to_string() != "self" {
                        let id = format_ident!("__self{}", n);
                        if rc.mutability.is_some() && rc.reference.is_some() { stmts.push(parse_quote!(let #id = &mut #r;)); }
                        else if rc.reference.is_some() { stmts.push(parse_quote!(let #id = &#r;)); }
                        else { stmts.push(parse_quote!(let #id = #r;)); }
                        self_map = Some(id);
                    }
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let p = &t.pat;
                    // an argument handed on under its own name needs no binding (and a `&mut` no reborrow)
                    if let (Pat::Ident(pi), Expr::Path(ap)) = (&**p, strip_paren(&a)) { if pi.mutability.is_none() && ap.path.is_ident(&pi.ident) { same_names.insert(pi.ident.to_string()); continue; } }
                    let tmp = format_ident!("__arg{}_{}", n, i);
                    let ty = &t.ty;
                    let written = ty.to_token_stream().to_string();
                    if generic || written.contains("impl ") || written.contains("Self") || module != self.modpath { stmts.push(parse_quote!(let #tmp = #a;)); } else { stmts.push(parse_quote!(let #tmp: #ty = #a;)); }
                    names_.push(parse_quote!(let #p = #tmp;));
                }
            }
        }
        stmts.extend(names_);
        let mut body = b.clone();
        struct S(Option<Ident>, Option<Path>);
        impl VisitMut for S {
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident("self") { if let Some(i) = &self.0 { *p = parse_quote!(#i); } } visit_mut::visit_expr_path_mut(self, p); }
            fn visit_path_mut(&mut self, p: &mut Path) {
                visit_mut::visit_path_mut(self, p);
                if p.leading_colon.is_none() && p.segments[0].ident == "Self" { if let Some(o) = &self.1 {
                    let mut q = o.clone();
                    q.segments.extend(p.segments.iter().skip(1).cloned());
                    *p = q;
                } }
            }
        }
        let (_, own, _) = parts(&self.key);
        let ty: Option<Path> = match &owner { Some(o) if own.as_ref() != Some(o) || module != self.modpath => syn::parse_str(&if module.is_empty() { format!("crate::{o}") } else if module.starts_with("cli") || module == self.modpath { o.clone() } else { format!("crate::{module}::{o}") }).ok(), _ => None };
        S(self_map, ty).visit_block_mut(&mut body);
        if body.stmts.iter().any(|s| matches!(s, Stmt::Item(i) if !matches!(i, Item::Const(_) | Item::Static(_)))) { return None; }
        stmts.extend(body.stmts);
        self.done = true;
        self.ex.inlined.insert(format!("{key} into {}", self.key));
        Some(parse_quote!(#[inlined] { #(#stmts)* }))
    }
    fn call(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        match e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                if p.qself.is_some() { return None; }
                let path: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.try_inline(path, None, args, pos)
            } else { None },
            Expr::MethodCall(m) => self.try_inline(vec![m.method.to_string()], Some((*m.receiver).clone()), m.args.iter().cloned().collect(), pos),
            _ => None,
        }
    }
    /// The function's result: early returns and `?` of a helper called here are the caller's own.
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => { self.tail_block(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { self.tail(x); } }
            Expr::Match(m) => for a in &mut m.arms { self.tail(&mut a.body); },
            Expr::Return(r) => if let Some(x) = &mut r.expr { self.tail(x); },
            _ => if let Some(x) = self.call(&e.clone(), Pos::Tail) { *e = x; },
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() { if semi.is_none() || matches!(e, Expr::Return(_)) { self.tail(e); } }
    }
    fn run(&mut self, b: &mut Block) {
        self.tail_block(b);
        self.visit_block_mut(b);
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e { if let Some(x) = &mut r.expr { self.tail(x); } }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            if let Some(x) = self.call(&t.expr, Pos::Question) { *t.expr = x; }
        } else if let Some(x) = self.call(e, Pos::Plain) { *e = x; }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        // a closure's own returns are not the function's
        struct Plain<'b, 'a>(&'b mut Inline<'a>);
        impl<'b, 'a> VisitMut for Plain<'b, 'a> {
            fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Some(x) = self.0.call(e, Pos::Plain) { *e = x; } }
        }
        Plain(self).visit_expr_mut(&mut c.body);
    }
}

/// Blocks that came from inlining are merged into the block around them where no name would change its meaning.
fn flatten(sig: &Signature, b: &mut Block) {
    fn inl(e: &Expr) -> Option<&ExprBlock> { match e { Expr::Block(b) if b.attrs.iter().any(|a| a.path().is_ident("inlined")) => Some(b), Expr::Paren(p) => inl(&p.expr), _ => None } }
    struct F(BTreeMap<String, usize>);
    impl F {
        fn unique(&self, b: &Block) -> bool {
            let e: Signature = parse_quote!(fn x());
            b.stmts.iter().all(|s| !matches!(s, Stmt::Item(_))) && names::decls(&e, b).iter().all(|n| self.0.get(n.trim_start_matches('=')) == Some(&1))
        }
    }
    impl VisitMut for F {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out: Vec<Stmt> = vec![];
            let n = b.stmts.len();
            for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
                let slot: Option<&mut Expr> = match &mut s {
                    Stmt::Local(l) => l.init.as_mut().filter(|x| x.diverge.is_none()).map(|x| &mut *x.expr),
                    Stmt::Expr(e, semi) if semi.is_some() || i + 1 == n => Some(e),
                    _ => None,
                };
                if let Some(e) = slot {
                    let slot: &mut Expr = match e { Expr::Try(t) => &mut *t.expr, e => e };
                    if let Some(x) = inl(slot).cloned() {
                        if self.unique(&x.block) {
                            let mut st = x.block.stmts;
                            match st.pop() {
                                Some(Stmt::Expr(t, None)) => { out.append(&mut st); *slot = t; }
                                Some(l) => { st.push(l); out.append(&mut st); *slot = parse_quote!(()); }
                                None => *slot = parse_quote!(()),
                            }
                        }
                    }
                }
                if let Stmt::Expr(e, Some(_)) = &s { let t = e.to_token_stream().to_string().replace(' ', ""); if t == "()" || t == "Ok(())?" { continue; } }
                out.push(s);
            }
            b.stmts = out;
        }
    }
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for n in names::decls(sig, b) { *count.entry(n.trim_start_matches('=').to_string()).or_default() += 1; }
    F(count).visit_block_mut(b);
    struct Strip;
    impl VisitMut for Strip { fn visit_expr_block_mut(&mut self, b: &mut ExprBlock) { b.attrs.retain(|a| !a.path().is_ident("inlined")); visit_mut::visit_expr_block_mut(self, b); } }
    Strip.visit_block_mut(b);
}

/// `X?; Ok(())` at the end is `X` with its value dropped; `P if g => A, .., _ => B` becomes `P => if g { A } else { B }`.
/// Patterns with texts become bindings with a guard.
pub struct TextPats(pub usize);
impl TextPats {
    pub fn pat(&mut self, p: &mut Pat) -> Vec<Expr> {
        struct V<'x>(&'x mut usize, Vec<Expr>);
        impl<'x> VisitMut for V<'x> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Lit(l) = p { if let Lit::Str(s) = &l.lit {
                    let (n, s) = (format_ident!("__t{}", *self.0), s.clone());
                    *self.0 += 1;
                    self.1.push(parse_quote!(crate::shim::x_is_text(&#n, #s)));
                    *p = parse_quote!(#n);
                    return;
                } }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut v = V(&mut self.0, vec![]);
        v.visit_pat_mut(p);
        v.1
    }
    /// Alternatives with texts, of a pattern that is nothing else
    fn split(p: &Pat) -> Option<Vec<Pat>> { match p { Pat::Or(o) if o.cases.iter().any(has_text) => Some(o.cases.iter().cloned().collect()), _ => None } }
}
fn has_text(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V { fn visit_pat(&mut self, p: &'a Pat) { if let Pat::Lit(l) = p { if matches!(l.lit, Lit::Str(_)) { self.0 = true; } } visit::visit_pat(self, p); } }
    let mut v = V(false); visit::Visit::visit_pat(&mut v, p); v.0
}
impl VisitMut for TextPats {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::If(i) = e { if let Expr::Let(l) = &*i.cond { if has_text(&l.pat) {
            let (p, s, a) = (&l.pat, &l.expr, &i.then_branch);
            let b: Expr = match &i.else_branch { Some((_, b)) => (**b).clone(), None => parse_quote!({}) };
            *e = parse_quote!(match #s { #p => #a, _ => #b });
        } } }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        let arms = std::mem::take(&mut m.arms);
        for a in arms { match Self::split(&a.pat) { Some(ps) => for p in ps { let mut x = a.clone(); x.pat = p; m.arms.push(x); }, None => m.arms.push(a) } }
        for a in &mut m.arms {
            let g = self.pat(&mut a.pat);
            if g.is_empty() { continue; }
            let all = match a.guard.take() { Some((_, o)) => { let o = *o; quote!(#(#g)&&* && (#o)) } None => quote!(#(#g)&&*) };
            let all: Expr = parse_quote!(#all);
            a.guard = Some((Default::default(), Box::new(all)));
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
}

fn normalise(b: &mut Block) {
    TextPats(0).visit_block_mut(b);
    struct G;
    impl VisitMut for G {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            fn head(p: &Pat) -> Option<String> { match p { Pat::TupleStruct(t) => Some(t.path.segments.last()?.ident.to_string()), Pat::Struct(t) => Some(t.path.segments.last()?.ident.to_string()), Pat::Path(t) => Some(t.path.segments.last()?.ident.to_string()), _ => None } }
            let Some(last) = m.arms.last().cloned() else { return };
            if !matches!(last.pat, Pat::Wild(_)) || last.guard.is_some() { return; }
            for i in 0..m.arms.len() - 1 {
                if m.arms[i].guard.is_none() { continue; }
                let Some(h) = head(&m.arms[i].pat) else { continue };
                if m.arms[i + 1..m.arms.len() - 1].iter().any(|a| head(&a.pat).map_or(true, |x| x == h)) { continue; }
                // only a pattern that binds everything below its constructor
                if let Pat::TupleStruct(t) = &m.arms[i].pat { if !t.elems.iter().all(|p| matches!(p, Pat::Wild(_)) || matches!(p, Pat::Ident(i) if i.subpat.is_none())) { continue; } } else if !matches!(m.arms[i].pat, Pat::Path(_)) { continue; }
                let (_, g) = m.arms[i].guard.take().unwrap();
                let (a, b) = (m.arms[i].body.clone(), last.body.clone());
                m.arms[i].body = Box::new(parse_quote!(if #g { #a } else { #b }));
            }
        }
    }
    G.visit_block_mut(b);
    if b.stmts.len() >= 2 {
        let ok = matches!(b.stmts.last(), Some(Stmt::Expr(e, None)) if e.to_token_stream().to_string().replace(' ', "") == "Ok(())");
        if ok {
            if let Stmt::Expr(Expr::Try(t), Some(_)) = &b.stmts[b.stmts.len() - 2] {
                let e = &t.expr;
                let x: Expr = parse_quote!(match #e { Ok(_) => Ok(()), Err(e) => Err(e) });
                b.stmts.pop(); b.stmts.pop();
                b.stmts.push(Stmt::Expr(x, None));
            }
        }
    }
}

fn self_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => "?".into() } }

fn rewrite_use(t: &mut UseTree, cli: bool) {
    if let UseTree::Path(p) = t {
        let s = p.ident.to_string();
        if s == "crate" && cli { let inner = (*p.tree).clone(); *p.tree = UseTree::Path(UsePath { ident: format_ident!("cli"), colon2_token: Default::default(), tree: Box::new(inner) }); }
        else if s == "pfp" { p.ident = format_ident!("crate"); }
        else if EXT.contains(&s.as_str()) {
            let inner = UseTree::Path(p.clone());
            *t = UseTree::Path(UsePath { ident: format_ident!("crate"), colon2_token: Default::default(), tree: Box::new(UseTree::Path(UsePath { ident: format_ident!("ext"), colon2_token: Default::default(), tree: Box::new(inner) })) });
        } else if cli && ["args", "processor"].contains(&s.as_str()) {
            // relative to the crate root of the binary
        }
    }
}

pub struct Paths { pub cli: bool }
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() { return; }
        if p.segments.len() < 2 { return; }
        let s = p.segments[0].ident.to_string();
        let prefix: Vec<&str> = if s == "crate" && self.cli {
            if ["shim","ext","spec"].contains(&p.segments[1].ident.to_string().as_str()) { return; }
            p.segments = p.segments.iter().skip(1).cloned().collect();
            vec!["crate", "cli"]
        } else if s == "pfp" { p.segments = p.segments.iter().skip(1).cloned().collect(); vec!["crate"] }
        else if EXT.contains(&s.as_str()) { vec!["crate", "ext"] } else { return };
        let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = prefix.iter().map(|x| PathSegment::from(Ident::new(x, proc_macro2::Span::call_site()))).collect();
        segs.extend(p.segments.iter().cloned());
        p.segments = segs;
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
    fn visit_attribute_mut(&mut self, _: &mut Attribute) {}
}

/// `impl Iterator` and boxed iterators become `XIter`, higher-ranked bounds lose their lifetime.
struct SigFix;
impl VisitMut for SigFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let item = |b: &punctuated::Punctuated<TypeParamBound, Token![+]>| -> Option<Type> {
            for x in b { if let TypeParamBound::Trait(tb) = x { let s = tb.path.segments.last()?; if s.ident == "Iterator" { if let PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let GenericArgument::AssocType(at) = g { return Some(at.ty.clone()); } } } } } }
            None
        };
        if let Type::ImplTrait(i) = t { if let Some(x) = item(&i.bounds) { *t = parse_quote!(crate::shim::XIter<#x>); return; } }
        if let Type::Path(p) = t {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Box" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() { if let Some(x) = item(&o.bounds) { *t = parse_quote!(crate::shim::XIter<#x>); } } } }
        }
    }
    fn visit_trait_bound_mut(&mut self, b: &mut TraitBound) {
        if b.lifetimes.take().is_some() { if let Some(s) = b.path.segments.last_mut() { s.arguments = PathArguments::None; } }
        visit_mut::visit_trait_bound_mut(self, b);
    }
}

/// Adds the ghost fields of a struct to the places where it is built.
struct GhostInit { name: String, fields: Vec<(String, String, String)> }
impl VisitMut for GhostInit {
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        visit_mut::visit_expr_struct_mut(self, s);
        let n = s.path.segments.last().unwrap().ident.to_string();
        if (n == "Self" || n == self.name) && s.path.segments.len() == 1 && s.rest.is_none() {
            for (n, _, v) in &self.fields {
                let (n, v): (Ident, Expr) = (format_ident!("{}", n), syn::parse_str(v).unwrap());
                s.fields.push(parse_quote!(#n: #v));
            }
        }
    }
}

/// Something that is not obviously a number or a variant is compared with == or !=
fn compares_strings(b: &Block) -> bool {
    struct C(bool);
    impl<'a> visit::Visit<'a> for C {
        fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
            fn plain(e: &Expr) -> bool {
                match e {
                    Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
                    Expr::Path(p) => p.path.segments.len() > 1 || p.path.segments.last().map_or(false, |s| s.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase())),
                    Expr::Binary(b) => matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)),
                    Expr::MethodCall(m) => m.method == "len",
                    Expr::Paren(p) => plain(&p.expr),
                    Expr::Unary(u) => plain(&u.expr),
                    _ => false,
                }
            }
            if matches!(e.op, BinOp::Eq(_) | BinOp::Ne(_)) && !plain(&e.left) && !plain(&e.right) { self.0 = true; }
            visit::visit_expr_binary(self, e);
        }
    }
    let mut c = C(false);
    visit::Visit::visit_block(&mut c, b);
    c.0
}
