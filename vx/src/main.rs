//! vx: mechanical extraction of functions from /repo/src into the subset Verus accepts.
//!
//! usage: vx <repo/src> <config>      (prints one JSON object per line)
//!
//! config lines:
//!   fn <key> [as <inherent owner>]
//!   hint <key> <id> <start|end|before|after|loopstart|loopend> <nth> <pattern>
//!
//! Every rewriting step is listed in REWRITES (printed with the result) and is local and syntactic.

mod rewrite;

use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::{visit_mut::VisitMut, *};

pub fn norm(t: &TokenStream) -> String {
    t.to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

pub struct Hint {
    pub id: String,
    pub wher: String,
    pub nth: usize,
    pub pat: String,
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Clone)]
pub struct Found {
    pub sig: Signature,
    pub block: Block,
    pub generics: String, // of the surrounding impl
    pub owner: String,
    pub src: String,
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn collect(items: &[Item], module: &str, out: &mut BTreeMap<String, Found>, consts: &mut BTreeMap<String, (String, String)>) {
    for it in items {
        match it {
            Item::Fn(f) => {
                let key = if module.is_empty() { f.sig.ident.to_string() } else { format!("{}::{}", module, f.sig.ident) };
                out.insert(key, Found { sig: f.sig.clone(), block: (*f.block).clone(), generics: String::new(), owner: module.into(), src: norm(&f.to_token_stream()) });
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    let name = if module.is_empty() { m.ident.to_string() } else { format!("{}::{}", module, m.ident) };
                    if m.ident != "tests" {
                        collect(its, &name, out, consts);
                    }
                }
            }
            Item::Impl(im) => {
                let owner = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let mut key = format!("{}::{}", owner, f.sig.ident);
                            if out.contains_key(&key) {
                                key = format!("{}::{}@{}", owner, f.sig.ident, tr.clone().unwrap_or_default());
                            }
                            out.insert(key, Found { sig: f.sig.clone(), block: f.block.clone(), generics: norm(&im.generics.to_token_stream()), owner: owner.clone(), src: norm(&f.to_token_stream()) });
                        }
                        ImplItem::Const(c) => {
                            consts.insert(format!("{}::{}", owner, c.ident), (c.ty.to_token_stream().to_string(), c.expr.to_token_stream().to_string()));
                        }
                        _ => {}
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    match ti {
                        TraitItem::Fn(f) => {
                            if let Some(b) = &f.default {
                                out.insert(format!("{}::{}", t.ident, f.sig.ident), Found { sig: f.sig.clone(), block: b.clone(), generics: String::new(), owner: t.ident.to_string(), src: norm(&f.to_token_stream()) });
                            }
                        }
                        TraitItem::Const(c) => {
                            if let Some((_, e)) = &c.default {
                                consts.insert(format!("{}::{}", t.ident, c.ident), (c.ty.to_token_stream().to_string(), e.to_token_stream().to_string()));
                            }
                        }
                        _ => {}
                    }
                }
            }
            Item::Const(c) => {
                consts.insert(if module.is_empty() { c.ident.to_string() } else { format!("{}::{}", module, c.ident) }, (c.ty.to_token_stream().to_string(), c.expr.to_token_stream().to_string()));
            }
            // `impl $t` items inside the shared-impl macro of lib.rs and the format table of ieee.rs
            Item::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                let id = m.ident.as_ref().map(|i| i.to_string()).unwrap_or_default();
                let text = m.mac.tokens.to_string();
                // the shared operator impls: `float_common_impls!(IeeeFloat<S>)` is expanded by substituting its two parameters, for both types
                if id == "float_common_impls" {
                    let body = m.mac.tokens.clone().into_iter().filter_map(|t| match t {
                        proc_macro2::TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => Some(g.stream().to_string()),
                        _ => None,
                    }).last().unwrap_or_default();
                    for (ty, t) in [("IeeeFloat", "S"), ("DoubleFloat", "F")] {
                        let body = body.replace("$ ty", ty).replace("$ty", ty).replace("$ t", t).replace("$t", t);
                        if let Ok(f) = parse_file(&body) {
                            collect(&f.items, "", out, consts);
                        }
                    }
                }
                consts.insert(format!("macro:{}:{}", name, id), (String::new(), text));
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut fns = BTreeMap::new();
    let mut consts = BTreeMap::new();
    let mut enums = BTreeMap::new();
    for f in ["lib.rs", "ieee.rs", "ppc.rs"] {
        let text = std::fs::read_to_string(format!("{}/{}", a[1], f)).expect("source");
        let file = parse_file(&text).expect("parse");
        collect(&file.items, "", &mut fns, &mut consts);
        for it in &file.items {
            match it {
                Item::Enum(e) => {
                    let mut e = e.clone();
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in &mut e.variants {
                        v.attrs.clear();
                    }
                    enums.insert(e.ident.to_string(), e.to_token_stream().to_string());
                }
                Item::Struct(e) => {
                    let mut e = e.clone();
                    if e.ident == "DoubleFloat" {
                        let d = e.attrs.iter().map(|a| norm(&a.to_token_stream())).collect::<Vec<_>>().join(" ");
                        // what these derives generate for a struct of two fields
                        let mut text = String::new();
                        if d.contains("PartialEq") {
                            text += "impl<F> PartialEq for DoubleFloat<F> { fn eq(&self, rhs: &Self) -> bool { self.0.eq(&rhs.0) && self.1.eq(&rhs.1) } }";
                        }
                        if d.contains("PartialOrd") {
                            text += "impl<F> PartialOrd for DoubleFloat<F> { fn partial_cmp(&self, rhs: &Self) -> Option<Ordering> { match self.0.partial_cmp(&rhs.0) { Some(Ordering::Equal) => self.1.partial_cmp(&rhs.1), c => c } } }";
                        }
                        collect(&parse_file(&text).unwrap().items, "", &mut fns, &mut consts);
                    }
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    for v in &mut e.fields {
                        v.attrs.clear();
                        v.vis = parse_quote!(pub);
                    }
                    enums.insert(e.ident.to_string(), e.to_token_stream().to_string());
                }
                Item::Type(e) => {
                    enums.insert(e.ident.to_string(), e.to_token_stream().to_string());
                }
                _ => {}
            }
        }
    }
    for (k, v) in &enums {
        println!("{{\"kind\":\"type\",\"name\":{},\"text\":{}}}", json(k), json(v));
    }
    for (k, (t, e)) in &consts {
        println!("{{\"kind\":\"const\",\"name\":{},\"type\":{},\"text\":{}}}", json(k), json(t), json(e));
    }

    let keys: Vec<String> = fns.keys().cloned().collect();
    for k in keys {
        rewrite::lift_closures(&k, &mut fns);
    }
    println!("{{\"kind\":\"have\",\"names\":[{}]}}", fns.keys().map(|k| json(k)).collect::<Vec<_>>().join(","));
    let cfg = std::fs::read_to_string(&a[2]).expect("config");
    let mut want: Vec<String> = vec![];
    let mut hints: BTreeMap<String, Vec<Hint>> = BTreeMap::new();
    for l in cfg.lines() {
        let t: Vec<&str> = l.splitn(6, ' ').collect();
        match t[0] {
            "fn" => want.push(t[1].to_string()),
            "hint" => hints.entry(t[1].into()).or_default().push(Hint {
                id: t[2].into(),
                wher: t[3].into(),
                nth: t[4].parse().unwrap(),
                pat: t.get(5).unwrap_or(&"").chars().filter(|c| !c.is_whitespace()).collect(),
            }),
            _ => {}
        }
    }
    for k in want {
        let Some(f) = fns.get(&k) else {
            println!("{{\"kind\":\"missing\",\"name\":{}}}", json(&k));
            continue;
        };
        let mut r = rewrite::Rewriter::new(&fns);
        let e: Vec<Hint> = vec![];
        let hs = hints.get(&k).unwrap_or(&e);
        let (text, missing) = r.function(&k, f.clone(), hs);
        let notes: Vec<String> = r.notes.iter().map(|s| json(s)).collect();
        let miss: Vec<String> = missing.iter().map(|s| json(s)).collect();
        println!(
            "{{\"kind\":\"fn\",\"name\":{},\"owner\":{},\"generics\":{},\"text\":{},\"loops\":{},\"missing\":[{}],\"notes\":[{}],\"src\":{}}}",
            json(&k), json(&f.owner), json(&f.generics), json(&text), r.loops, miss.join(","), notes.join(","), json(&f.src)
        );
    }
}

#[allow(dead_code)]
fn unused(_: &mut dyn VisitMut) {}
