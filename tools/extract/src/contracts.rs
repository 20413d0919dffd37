//! The contract files: one directive per line, raw Verus text below it.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct Clause { pub tags: Vec<String>, pub label: String, pub text: String }

#[derive(Default, Debug, Clone)]
pub struct LoopC { pub inv: String, pub inv_eb: String, pub ens: String, pub dec: String, pub isolate: bool }

#[derive(Default, Debug, Clone)]
pub struct Contract {
    pub key: String,
    pub ret: String,
    pub attrs: String,
    pub trusted: bool,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    /// assertions about the function's own terminal events, at its end and at every `return`
    pub posts: Vec<Clause>,
    pub mayabort: bool,
    pub hide: String,
    pub tags: Vec<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub at: Vec<(String, String)>,
    pub nounwind: bool,
    pub edited: bool,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: BTreeMap<String, Contract>,
    pub inject: BTreeMap<String, String>,
    pub derive: BTreeMap<String, String>,
    /// type key -> ghost fields (name, type, initial value)
    pub ghost: BTreeMap<String, Vec<(String, String, String)>>,
}

/// Adjustments to the proof hints of one function (never to its contract): see check.py, "repair".
#[derive(Default, Debug, Clone)]
pub struct Edit { pub drop: Vec<String>, pub sub: Vec<(String, String, String)> }

/// Splits at top-level separators, treating the bars of binders as brackets.
fn split_top(t: &str, sep: char) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let (mut depth, mut out, mut cur) = (0i32, vec![], String::new());
    let mut i = 0;
    let word_before = |i: usize| -> String { let mut j = i; while j > 0 && c[j - 1].is_whitespace() { j -= 1; } let e = j; while j > 0 && (c[j - 1].is_alphanumeric() || c[j - 1] == '_') { j -= 1; } c[j..e].iter().collect() };
    while i < c.len() {
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        if c[i] == '\'' && i + 2 < c.len() && (c[i + 2] == '\'' || c[i + 1] == '\\') {
            let mut j = i + 2;
            while j < c.len() && c[j] != '\'' { j += 1; }
            cur.extend(&c[i..=j]);
            i = j + 1;
            continue;
        }
        if c[i] == '"' {
            let mut j = i + 1;
            while j < c.len() && c[j] != '"' { if c[j] == '\\' { j += 1; } j += 1; }
            cur.extend(&c[i..=j.min(c.len() - 1)]);
            i = j + 1;
            continue;
        }
        if c[i] == '|' && (["forall", "exists", "choose", "fn_spec"].contains(&word_before(i).as_str()) || { let mut j = i; while j > 0 && c[j - 1].is_whitespace() { j -= 1; } j > 0 && (c[j - 1] == '(' || c[j - 1] == ',') && !(i + 1 < c.len() && c[i + 1] == '|') }) {
            cur.push('|');
            i += 1;
            while i < c.len() && c[i] != '|' { cur.push(c[i]); i += 1; }
            if i < c.len() { cur.push('|'); i += 1; }
            continue;
        }
        match c[i] { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => depth -= 1, _ => {} }
        // generics only matter right after `::`
        if c[i] == '<' && i >= 2 && c[i - 1] == ':' && c[i - 2] == ':' {
            let mut d = 0;
            while i < c.len() { if c[i] == '<' { d += 1; } if c[i] == '>' { d -= 1; } cur.push(c[i]); i += 1; if d == 0 { break; } }
            continue;
        }
        if depth == 0 && c[i] == sep { if sep == ';' { cur.push(';'); } if !cur.trim().is_empty() { out.push(cur.trim().to_string()); } cur = String::new(); i += 1; continue; }
        cur.push(c[i]);
        i += 1;
        if sep == ';' && depth == 0 && i > 0 && c[i - 1] == '}' && ended(&cur, &c[i..]) { out.push(cur.trim().to_string()); cur = String::new(); }
    }
    if !cur.trim().is_empty() { out.push(cur.trim().to_string()); }
    out
}
/// a block statement is over at its closing brace
fn ended(cur: &str, rest: &[char]) -> bool {
    let t = cur.trim_start();
    let rest: String = rest.iter().collect();
    let rest = rest.trim_start();
    if rest.starts_with("else") || rest.starts_with('.') || rest.starts_with(';') { return false; }
    let first: String = t.chars().take_while(|ch| ch.is_alphanumeric() || *ch == '_').collect();
    ["proof", "if", "match", "assert", "while"].contains(&first.as_str()) && !rest.starts_with(')') && !(first == "assert" && !t.trim_end().ends_with('}'))
}
fn split_hint(t: &str) -> Vec<String> {
    let mut out = vec![];
    for s in split_top(t, ';') {
        let inner = s.strip_prefix("proof").map(|x| x.trim()).and_then(|x| x.strip_prefix('{')).and_then(|x| x.trim_end_matches(';').trim_end().strip_suffix('}'));
        match inner {
            Some(b) => {
                let parts = split_top(b, ';');
                if parts.iter().any(|p| p.starts_with("let ") || p.starts_with("//")) || parts.is_empty() { out.push(s); } else { for p in parts { out.push(format!("proof {{ {p} }}")); } }
            }
            None => out.push(s),
        }
    }
    out
}

impl Contract {
    /// Gives every hint and every invariant clause a name of its own, and applies the edits.
    pub fn mark(&mut self, e: Option<&Edit>) {
        let fix = |id: &str, t: &str| -> Option<String> {
            let mut t = t.to_string();
            if let Some(e) = e {
                if e.drop.iter().any(|d| d == id) { return None; }
                for (i, a, b) in &e.sub { if i == id { t = rename(&t, a, b); } }
            }
            Some(format!("/*H {id}*/ {t} /*E {id}*/"))
        };
        let mut at = vec![];
        for (a, t) in &self.at { for s in split_hint(t) { at.push((a.clone(), s)); } }
        self.at = at.into_iter().enumerate().map(|(i, (a, t))| { let u = fix(&format!("h{i}"), &t).unwrap_or_default(); (a, u) }).collect();
        for (n, l) in self.loops.iter_mut() {
            for (w, t) in [("i", &mut l.inv), ("b", &mut l.inv_eb), ("e", &mut l.ens)] {
                let cl: Vec<String> = split_top(t, ',').iter().enumerate().filter_map(|(j, c)| fix(&format!("l{n}{w}{j}"), c)).collect();
                // the separator goes before the end mark
                *t = cl.iter().map(|c| { let k = c.rfind(" /*E ").unwrap(); format!("{},{}", &c[..k], &c[k..]) }).collect::<Vec<_>>().join("\n");
            }
            if let Some(e) = e { for (i, a, b) in &e.sub { if *i == format!("l{n}d0") { l.dec = rename(&l.dec, a, b); } } if e.drop.iter().any(|d| *d == format!("l{n}d0")) { l.dec = String::new(); } }
            if !l.dec.trim().is_empty() { l.dec = format!("/*H l{n}d0*/ {} /*E l{n}d0*/", l.dec); }
        }
    }
    pub fn mentions(&self, word: &str) -> bool {
        self.posts.iter().any(|c| c.text.contains(word)) || self.at.iter().any(|(_, t)| t.contains(word)) || self.loops.values().any(|l| l.inv.contains(word) || l.inv_eb.contains(word) || l.ens.contains(word))
    }
    /// Replaces an identifier in everything that is placed inside the body.
    pub fn rename_hints(&mut self, from: &str, to: &str) {
        for (_, t) in self.at.iter_mut() { *t = rename(t, from, to); }
        for c in self.posts.iter_mut() { c.text = rename(&c.text, from, to); }
        for l in self.loops.values_mut() { for t in [&mut l.inv, &mut l.inv_eb, &mut l.ens, &mut l.dec] { *t = rename(t, from, to); } }
    }
}
fn rename(t: &str, from: &str, to: &str) -> String {
    let c: Vec<char> = t.chars().collect();
    let word = |ch: char| ch.is_alphanumeric() || ch == '_';
    let mut out = String::new();
    let mut i = 0;
    while i < c.len() {
        if word(c[i]) {
            let mut j = i;
            while j < c.len() && word(c[j]) { j += 1; }
            let w: String = c[i..j].iter().collect();
            let field = i > 0 && c[i - 1] == '.' && !(i > 1 && c[i - 2] == '.');
            // `name:` in a struct expression or pattern, but not `name::`
            let label = j < c.len() && c[j] == ':' && !(j + 1 < c.len() && c[j + 1] == ':');
            if w == from && !field && !label { out.push_str(to) } else { out.push_str(&w) }
            i = j;
        } else { out.push(c[i]); i += 1; }
    }
    out
}

thread_local! { pub static LITS: std::cell::RefCell<std::collections::BTreeMap<String, Vec<u8>>> = Default::default(); }
/// The bytes of a literal; longer ones have a name, which is all the solver needs to know of them.
pub fn byte_seq(b: &[u8]) -> String {
    if b.len() <= 2 { return format!("seq![{}]", b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", ")); }
    let n = format!("l{}", b.iter().map(|x| if x.is_ascii_alphanumeric() { (*x as char).to_string() } else { format!("_{x:x}") }).collect::<String>());
    LITS.with(|m| m.borrow_mut().insert(n.clone(), b.to_vec()));
    format!("crate::lits::{n}()")
}
pub fn literals() -> String {
    let mut s = String::from("pub mod lits {\nuse vstd::prelude::*;\n");
    LITS.with(|m| for (n, b) in m.borrow().iter() { s.push_str(&format!("pub closed spec fn {n}() -> Seq<u8> {{ seq![{}] }}\n", b.iter().map(|x| format!("{x}u8")).collect::<Vec<_>>().join(", "))); });
    s + "}\n"
}

/// `B!("text")` stands for the bytes of the text.
pub fn byte_texts(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("B!(\"") {
        out.push_str(&rest[..i]);
        let b = rest.as_bytes();
        let mut end = i + 4;
        while b[end] != b'"' { end += if b[end] == b'\\' { 2 } else { 1 }; }
        let l: syn::LitStr = syn::parse_str(&rest[i + 3..end + 1]).unwrap();
        out.push_str(&byte_seq(l.value().as_bytes()));
        rest = &rest[end + 2..];
    }
    out + rest
}

pub fn load(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |e| e == "vc")).collect();
    files.sort();
    for f in files { parse(&byte_texts(&std::fs::read_to_string(&f).unwrap()), &mut c, &f.display().to_string()); }
    c
}

fn parse(text: &str, c: &mut Contracts, file: &str) {
    let mut cur: Option<String> = None;
    // (directive, args, raw)
    let mut items: Vec<(String, String, String)> = Vec::new();
    for line in text.lines() {
        if line.starts_with("##") { continue; }
        if let Some(rest) = line.strip_prefix('@') {
            let (d, a) = rest.split_once(' ').unwrap_or((rest, ""));
            items.push((d.to_string(), a.trim().to_string(), String::new()));
        } else if let Some(l) = items.last_mut() {
            l.2.push_str(line);
            l.2.push('\n');
        }
    }
    for (d, a, raw) in items {
        let raw = raw.trim_end().to_string();
        if d == "fn" {
            let mut it = a.split_whitespace();
            let key = it.next().unwrap().to_string();
            let mut k = Contract { key: key.clone(), ret: "r".into(), ..Default::default() };
            for o in it {
                if o == "trusted" { k.trusted = true }
                else if o == "nounwind" { k.nounwind = true }
                else if o == "mayabort" { k.mayabort = true }
                else if let Some(r) = o.strip_prefix("ret=") { k.ret = r.into() }
                else if let Some(r) = o.strip_prefix("tags=") { k.tags = r.split(',').map(|s| s.to_string()).collect() }
                else { panic!("{file}: bad fn option {o}") }
            }
            if c.fns.insert(key.clone(), k).is_some() { panic!("{file}: duplicate contract {key}") }
            cur = Some(key);
            continue;
        }
        if d == "inject" { c.inject.entry(a).or_default().push_str(&(raw + "\n")); continue; }
        if d == "ghost" {
            let (k, v) = a.split_once(' ').unwrap();
            let (n, v) = v.split_once(": ").unwrap();
            let (t, v) = v.split_once(" = ").unwrap();
            c.ghost.entry(k.into()).or_default().push((n.into(), t.into(), v.into()));
            continue;
        }
        if d == "derive" { let (k, v) = a.split_once(' ').unwrap(); c.derive.insert(k.into(), v.into()); continue; }
        let f = c.fns.get_mut(cur.as_ref().expect("directive outside @fn")).unwrap();
        match d.as_str() {
            "requires" => f.requires.push(Clause { tags: vec![], label: a, text: raw.trim().trim_end_matches(',').to_string() }),
            "ensures" | "post" => {
                let mut it = a.split_whitespace();
                let tags: Vec<String> = it.next().unwrap_or("").split(',').filter(|t| !t.is_empty() && *t != "-").map(|s| s.to_string()).collect();
                let label = it.collect::<Vec<_>>().join(" ");
                let cl = Clause { tags, label, text: raw.trim().trim_end_matches(',').to_string() };
                if d == "post" { f.posts.push(cl) } else { f.ensures.push(cl) }
            }
            "hide" => f.hide.push_str(&format!("{a} ")),
            "attr" => f.attrs.push_str(&format!("{a}\n")),
            "inv" => { let n: usize = a.parse().unwrap(); f.loops.entry(n).or_default().inv.push_str(&raw) }
            "inveb" => { let n: usize = a.parse().unwrap(); f.loops.entry(n).or_default().inv_eb.push_str(&raw) }
            "lens" => { let n: usize = a.parse().unwrap(); f.loops.entry(n).or_default().ens.push_str(&raw) }
            "isolate" => { let n: usize = a.parse().unwrap(); f.loops.entry(n).or_default().isolate = true }
            "dec" => { let n: usize = a.parse().unwrap(); f.loops.entry(n).or_default().dec = raw }
            "at" => f.at.push((a, raw)),
            other => panic!("{file}: unknown directive @{other}"),
        }
    }
}
