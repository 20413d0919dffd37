//! Token stream to text, one statement per line; `__raw!{"..."}` is printed verbatim and
//! `__head!{"..."}` at the start of a block is printed before its opening brace.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn lit(s: &str) -> String {
    let l: syn::LitStr = syn::parse_str(s).expect("raw literal");
    l.value()
}

pub fn print(ts: TokenStream) -> String {
    let mut out = String::new();
    go(ts, &mut out, false);
    out
}

fn go(ts: TokenStream, out: &mut String, in_brace: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let s = id.to_string();
            if s == "__raw" && i + 2 < v.len() {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let text = lit(&g.stream().to_string());
                    if in_brace { out.push('\n'); }
                    out.push_str(&text);
                    if in_brace { out.push('\n'); } else { out.push(' '); }
                    i += 3;
                    if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1; } } }
                    continue;
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                match g.delimiter() {
                    Delimiter::Brace => {
                        // loop heads
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        if inner.len() >= 3 {
                            if let (TokenTree::Ident(id), TokenTree::Group(h)) = (&inner[0], &inner[2]) {
                                if id == "__head" {
                                    out.push('\n');
                                    out.push_str(&lit(&h.stream().to_string()));
                                    skip = 3;
                                    if inner.len() > 3 { if let TokenTree::Punct(p) = &inner[3] { if p.as_char() == ';' { skip = 4; } } }
                                }
                            }
                        }
                        let rest: TokenStream = inner.into_iter().skip(skip).collect();
                        out.push_str("{\n");
                        go(rest, out, true);
                        out.push_str("\n} ");
                    }
                    Delimiter::Parenthesis => { out.push('('); go(g.stream(), out, false); out.push_str(") "); }
                    Delimiter::Bracket => { out.push('['); go(g.stream(), out, false); out.push_str("] "); }
                    Delimiter::None => go(g.stream(), out, in_brace),
                }
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                if p.as_char() == ';' && in_brace { out.push('\n'); }
                else if p.spacing() == Spacing::Alone { out.push(' '); }
            }
            t => { out.push_str(&t.to_string()); out.push(' '); }
        }
        i += 1;
    }
}
