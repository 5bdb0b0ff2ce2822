use crate::{norm, Found, Hint};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Float,
    StatFloat,
    Round,
    Status,
    Ordering,
    Bool,
    Int,
    Str,
    Chars,
    OptStr,
    Opt,
    Res,
    Vec,
    Other,
}

const FLOAT_M: &[&str] = &["copy_sign", "abs", "with_sign", "scalbn", "scalbn_r", "frexp", "frexp_r", "neg", "min", "max", "minimum", "maximum"];
const STAT_M: &[&str] = &[
    "add_r", "sub_r", "mul_r", "div_r", "normalize", "c_fmod", "ieee_rem", "round_to_integral", "next_up", "next_down", "mul_add_r",
    "from_u128_r", "from_u128", "from_i128_r", "from_i128", "convert_r", "overflow_result",
];
const BOOL_M: &[&str] = &["is_negative", "is_nan", "is_zero", "is_finite", "is_denormal", "is_infinite", "is_signaling", "is_all_zeros", "get_bit"];
const FCONST: &[&str] = &["ZERO", "NAN", "INFINITY", "SMALLEST"];

pub struct Rewriter<'a> {
    fns: &'a BTreeMap<String, Found>,
    pub loops: usize,
    pub notes: Vec<String>,
    tmp: usize,
    env: HashMap<String, Ty>,
    closures: HashMap<String, ExprClosure>,
    macros: HashMap<String, (Vec<String>, TokenStream)>,
    nested: HashMap<String, (Vec<String>, Block)>,
    float_self: bool,
    in_float_impl: bool,
    arrays: HashMap<String, usize>,
    float_path: Option<TokenStream>,
    dd: bool, // the function is one of the pair of doubles
    disp: bool, // the function writes to a Formatter
}

fn subst_idents(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    t.into_iter()
        .flat_map(|tt| -> Vec<TokenTree> {
            match tt {
                TokenTree::Ident(ref i) => match m.get(&i.to_string()) {
                    Some(r) => r.clone().into_iter().collect(),
                    None => vec![tt],
                },
                TokenTree::Group(g) => {
                    let mut n = Group::new(g.delimiter(), subst_idents(g.stream(), m));
                    n.set_span(g.span());
                    vec![TokenTree::Group(n)]
                }
                t => vec![t],
            }
        })
        .collect()
}

/// `$name` in a macro body
fn subst_dollar(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' && i + 1 < v.len() => {
                if let TokenTree::Ident(id) = &v[i + 1] {
                    if let Some(r) = m.get(&id.to_string()) {
                        out.extend(r.clone());
                        i += 2;
                        continue;
                    }
                }
                out.push(v[i].clone());
            }
            TokenTree::Group(g) => out.push(TokenTree::Group(Group::new(g.delimiter(), subst_dollar(g.stream(), m)))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn split_commas(t: TokenStream) -> Vec<TokenStream> {
    let mut r = vec![];
    let mut cur = TokenStream::new();
    for tt in t {
        match &tt {
            TokenTree::Punct(p) if p.as_char() == ',' => {
                r.push(std::mem::take(&mut cur));
            }
            _ => cur.extend([tt]),
        }
    }
    if !cur.is_empty() {
        r.push(cur);
    }
    r
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = Ident::new("this", Span::call_site());
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let mut h = HashMap::new();
        h.insert("self".to_string(), quote!(this));
        m.tokens = subst_idents(m.tokens.clone(), &h);
    }
}

struct DerefSubst {
    name: String,
    with: Expr,
}
impl VisitMut for DerefSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                if p.path.is_ident(&self.name) {
                    *e = self.with.clone();
                    return;
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                *e = self.with.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn pat_ident(p: &Pat) -> Option<String> {
    match p {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => pat_ident(&t.pat),
        _ => None,
    }
}

fn is_path(e: &Expr, s: &str) -> bool {
    matches!(e, Expr::Path(p) if p.path.is_ident(s))
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

struct HasTry(bool);
impl<'ast> syn::visit::Visit<'ast> for HasTry {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true;
    }
}
fn has_try(e: &Expr) -> bool {
    let mut h = HasTry(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}
fn stmt_has_try(s: &Stmt) -> bool {
    let mut h = HasTry(false);
    syn::visit::Visit::visit_stmt(&mut h, s);
    h.0
}

struct Idents(Vec<String>);
impl<'ast> syn::visit::Visit<'ast> for Idents {
    fn visit_ident(&mut self, i: &'ast Ident) {
        self.0.push(i.to_string());
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        fn go(t: TokenStream, o: &mut Vec<String>) {
            for x in t {
                match x {
                    TokenTree::Ident(i) => o.push(i.to_string()),
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.0);
    }
}

/// take the first `e?` out of an expression
struct TakeTry(Option<Expr>);
impl VisitMut for TakeTry {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.0.is_some() {
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if self.0.is_some() {
            return;
        }
        if let Expr::Try(t) = e {
            self.0 = Some((*t.expr).clone());
            *e = parse_quote!(vx_try);
        }
    }
}

/// `e?` in the body of a closure that returns an Option: the rest of the body goes into the `Some` arm
fn cps(e: &Expr) -> Option<Expr> {
    let stmts = match e {
        Expr::Block(b) => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    };
    let out = cps_stmts(stmts)?;
    Some(parse_quote!({ #(#out)* }))
}

fn cps_stmts(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let Some(i) = stmts.iter().position(stmt_has_try) else { return Some(stmts) };
    let (pre, rest) = (stmts[..i].to_vec(), stmts[i + 1..].to_vec());
    let mut out = pre;
    // let P = if c { a } else { b };
    if let Stmt::Local(l) = &stmts[i] {
        let init = l.init.as_ref()?;
        if init.diverge.is_some() {
            return None;
        }
        if let Expr::If(x) = unparen(&init.expr) {
            if has_try(&x.cond) {
                return None;
            }
            let mut used = Idents(vec![]);
            for s in &rest {
                syn::visit::Visit::visit_stmt(&mut used, s);
            }
            let branch = |b: Vec<Stmt>| -> Option<Vec<Stmt>> {
                let mut b = b;
                let Some(Stmt::Expr(t, None)) = b.pop() else { return None };
                for s in &b {
                    // what the branch binds must not be what the rest reads
                    if let Stmt::Local(l) = s {
                        let mut names = Idents(vec![]);
                        syn::visit::Visit::visit_pat(&mut names, &l.pat);
                        if names.0.iter().any(|n| used.0.contains(n)) {
                            return None;
                        }
                    }
                }
                let (p, r) = (&l.pat, &rest);
                b.push(parse_quote!(let #p = #t;));
                b.extend(r.iter().cloned());
                cps_stmts(b)
            };
            let c = &x.cond;
            let a = branch(x.then_branch.stmts.clone())?;
            let b = match unparen(&x.else_branch.as_ref()?.1) {
                Expr::Block(b) => branch(b.block.stmts.clone())?,
                e => branch(vec![Stmt::Expr(e.clone(), None)])?,
            };
            out.push(Stmt::Expr(parse_quote!(if #c { #(#a)* } else { #(#b)* }), None));
            return Some(out);
        }
    }
    let mut s = stmts[i].clone();
    let mut tk = TakeTry(None);
    tk.visit_stmt_mut(&mut s);
    let x = tk.0?;
    if has_try(&x) {
        return None;
    }
    let mut b = vec![s];
    b.extend(rest);
    let b = cps_stmts(b)?;
    out.push(Stmt::Expr(parse_quote!(match #x { Some(vx_try) => { #(#b)* }, None => None }), None));
    Some(out)
}

/// `return` in a closure (not in one inside it)
struct HasReturn(bool);
impl<'ast> syn::visit::Visit<'ast> for HasReturn {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true;
    }
}

/// the types of the simple immutable locals a lifted closure may capture
struct Locals(HashMap<String, TokenStream>);
impl<'ast> syn::visit::Visit<'ast> for Locals {
    fn visit_local(&mut self, l: &'ast Local) {
        if let Pat::Ident(i) = &l.pat {
            let e = l.init.as_ref().map(|x| norm(&x.expr.to_token_stream())).unwrap_or_default();
            let ty = if i.mutability.is_some() { None } else if e.contains("LIMB_BITS") || e.contains("S::PRECISION") || e.ends_with(".len()") { Some(quote!(usize)) } else { None };
            self.0.insert(i.ident.to_string(), ty.unwrap_or_default());
        }
        if let Pat::Tuple(t) = &l.pat {
            for p in &t.elems {
                if let Some(n) = pat_ident(p) {
                    self.0.insert(n, TokenStream::new());
                }
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}

struct LiftCalls {
    name: String,
    extra: Vec<Ident>,
}
impl VisitMut for LiftCalls {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if is_path(&c.func, &self.name) {
            let n = format_ident!("{}", self.name);
            *c.func = parse_quote!(Self::#n);
            for x in &self.extra {
                c.args.push(parse_quote!(#x));
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // `unpack!(status=, f(..))`
        let n = format_ident!("{}", self.name);
        let x = &self.extra;
        fn go(t: TokenStream, n: &Ident, x: &[Ident]) -> TokenStream {
            let v: Vec<TokenTree> = t.into_iter().collect();
            let mut o: Vec<TokenTree> = vec![];
            let mut i = 0;
            while i < v.len() {
                match (&v[i], v.get(i + 1)) {
                    (TokenTree::Ident(id), Some(TokenTree::Group(g))) if id == n && g.delimiter() == Delimiter::Parenthesis => {
                        let a = go(g.stream(), n, x);
                        o.extend(quote!(Self::#n(#a #(, #x)*)));
                        i += 1;
                    }
                    (TokenTree::Group(g), _) => o.push(TokenTree::Group(Group::new(g.delimiter(), go(g.stream(), n, x)))),
                    (t, _) => o.push(t.clone()),
                }
                i += 1;
            }
            o.into_iter().collect()
        }
        m.tokens = go(m.tokens.clone(), &n, x);
    }
}

struct TakeClosure {
    found: Option<(String, ExprClosure)>,
}
impl VisitMut for TakeClosure {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let (None, Stmt::Local(l)) = (&self.found, &s) {
                if let (Some(n), Some(Expr::Closure(c))) = (pat_ident(&l.pat), l.init.as_ref().map(|i| unparen(&i.expr))) {
                    let mut h = HasReturn(false);
                    syn::visit::Visit::visit_expr(&mut h, &c.body);
                    let typed = c.inputs.iter().all(|p| matches!(p, Pat::Type(_))) && matches!(c.output, ReturnType::Type(..));
                    if h.0 && typed {
                        self.found = Some((n, c.clone()));
                        continue;
                    }
                }
            }
            keep.push(s);
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
    }
}

/// a local closure that returns early becomes a function; the immutable locals it captures become parameters
pub fn lift_closures(key: &str, fns: &mut BTreeMap<String, Found>) {
    let f = fns[key].clone();
    let mut body = f.block.clone();
    let mut t = TakeClosure { found: None };
    t.visit_block_mut(&mut body);
    let Some((name, c)) = t.found else { return };
    let mut loc = Locals(HashMap::new());
    syn::visit::Visit::visit_block(&mut loc, &f.block);
    for a in &f.sig.inputs {
        if let FnArg::Typed(pt) = a {
            if let Some(n) = pat_ident(&pt.pat) {
                let ty = &pt.ty;
                loc.0.insert(n, if matches!(&*pt.pat, Pat::Ident(i) if i.mutability.is_none()) { quote!(#ty) } else { quote!() });
            }
        }
    }
    // what the closure binds itself is not captured
    let mut own = Locals(HashMap::new());
    if let Expr::Block(b) = &*c.body {
        syn::visit::Visit::visit_block(&mut own, &b.block);
    }
    let mut ids = Idents(vec![]);
    syn::visit::Visit::visit_expr(&mut ids, &c.body);
    let mut params: Vec<String> = c.inputs.iter().filter_map(|p| match p { Pat::Type(t) => pat_ident(&t.pat), _ => None }).collect();
    if params.len() != c.inputs.len() {
        return;
    }
    let mut extra = vec![];
    let mut inputs: Vec<TokenStream> = c.inputs.iter().map(|p| p.to_token_stream()).collect();
    let out = c.output.clone();
    for i in ids.0 {
        if params.contains(&i) || own.0.contains_key(&i) {
            continue;
        }
        if let Some(ty) = loc.0.get(&i) {
            if ty.is_empty() {
                // captured by reference, or of unknown type
                return;
            }
            params.push(i.clone());
            let id = format_ident!("{}", i);
            inputs.push(quote!(#id: #ty));
            extra.push(id);
        }
    }
    let b = &c.body;
    let n = format_ident!("{}", name);
    let block: Block = match &**b { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
    let ps = inputs.iter();
    let lf: ItemFn = parse_quote!(fn #n(#(#ps),*) #out #block);
    LiftCalls { name: name.clone(), extra }.visit_block_mut(&mut body);
    fns.insert(format!("{}::{}", f.owner, name), Found { sig: lf.sig.clone(), block: (*lf.block).clone(), generics: "lifted".into(), owner: f.owner.clone(), src: norm(&lf.to_token_stream()) });
    fns.insert(key.to_string(), Found { block: body, ..f });
}

impl<'a> Rewriter<'a> {
    pub fn new(fns: &'a BTreeMap<String, Found>) -> Self {
        Rewriter {
            fns,
            loops: 0,
            notes: vec![],
            tmp: 0,
            env: HashMap::new(),
            closures: HashMap::new(),
            macros: HashMap::new(),
            nested: HashMap::new(),
            float_self: false,
            in_float_impl: false,
            arrays: HashMap::new(),
            float_path: None,
            dd: false,
            disp: false,
        }
    }

    fn note(&mut self, s: &str) {
        if !self.notes.iter().any(|x| x == s) {
            self.notes.push(s.to_string());
        }
    }

    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("vx_{}{}", p, self.tmp - 1)
    }

    fn loop_marker(&mut self) -> (usize, Stmt) {
        let k = self.loops;
        self.loops += 1;
        let l = LitInt::new(&k.to_string(), Span::call_site());
        (k, parse_quote!(vx_loop_marker!(#l);))
    }

    fn ty_of_type(&self, t: &Type) -> Ty {
        match norm(&t.to_token_stream()).as_str() {
            "Self" if self.in_float_impl => Ty::Float,
            "&Self" if self.in_float_impl => Ty::Float,
            s if s.starts_with("IeeeFloat<") => Ty::Float,
            s if self.dd && ["F", "Fallback<F>", "FallbackExtended<F>", "DoubleFloat<F>"].contains(&s) => Ty::Float,
            "Round" => Ty::Round,
            "Status" => Ty::Status,
            "bool" => Ty::Bool,
            "&str" => Ty::Str,
            "DynPrecisionLimbVec" | "&mutDynPrecisionLimbVec" => Ty::Vec,
            "usize" | "ExpInt" | "Limb" | "u128" | "i128" | "i32" => Ty::Int,
            _ => Ty::Other,
        }
    }

    fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Reference(r) => self.ty(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.ty(&u.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(t, None)) => {
                    // a local declared with its type in the block
                    if let Expr::Path(p) = t {
                        for s in &b.block.stmts {
                            if let Stmt::Local(l) = s {
                                if let Pat::Type(pt) = &l.pat {
                                    if let Pat::Ident(i) = &*pt.pat {
                                        if p.path.is_ident(&i.ident) {
                                            return self.ty_of_type(&pt.ty);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    self.ty(t)
                }
                _ => Ty::Other,
            },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let i = i.to_string();
                    if (i == "self" || i == "this") && self.float_self {
                        return Ty::Float;
                    }
                    return *self.env.get(&i).unwrap_or(&Ty::Other);
                }
                let n = p.path.segments.len();
                let last = p.path.segments[n - 1].ident.to_string();
                let prev = p.path.segments[n - 2].ident.to_string();
                match prev.as_str() {
                    "Status" => Ty::Status,
                    "Round" => Ty::Round,
                    "Ordering" => Ty::Ordering,
                    _ if FCONST.contains(&last.as_str()) => Ty::Float,
                    _ => Ty::Other,
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let rt = self.ty(&m.receiver);
                if n == "get_exact_inverse" {
                    return Ty::Opt;
                }
                if n == "convert" && self.dd {
                    return Ty::StatFloat;
                }
                if self.disp && (n == "precision" || n == "width") && m.args.is_empty() {
                    return Ty::Opt;
                }
                if (n == "chars" && rt == Ty::Str) || (n == "peekable" && rt == Ty::Chars) {
                    return Ty::Chars;
                }
                if rt == Ty::Str && (n == "strip_prefix" || n == "strip_suffix") {
                    return Ty::OptStr;
                }
                if rt == Ty::OptStr || rt == Ty::Opt {
                    match n.as_str() {
                        "filter" | "or_else" => return rt,
                        "map" => return Ty::Opt,
                        "and_then" => {
                            if let Some(Expr::Closure(c)) = m.args.first().map(unparen) {
                                return if self.ty(&c.body) == Ty::OptStr { Ty::OptStr } else { Ty::Opt };
                            }
                        }
                        "unwrap_or" => return if rt == Ty::OptStr { Ty::Str } else { self.ty(&m.args[0]) },
                        "map_or" => return self.ty(&m.args[0]),
                        _ => {}
                    }
                }
                if n == "negate_if" {
                    return rt;
                }
                if FLOAT_M.contains(&n.as_str()) && rt != Ty::Int {
                    return if rt == Ty::Round { Ty::Round } else { Ty::Float };
                }
                if STAT_M.contains(&n.as_str()) {
                    return Ty::StatFloat;
                }
                if BOOL_M.contains(&n.as_str()) {
                    return Ty::Bool;
                }
                if n == "bitor" || n == "status_sub" {
                    return Ty::Status;
                }
                if n == "add" || n == "sub" || n == "mul" || n == "div" || n == "rem" {
                    if rt == Ty::Float {
                        return Ty::StatFloat;
                    }
                }
                if n == "map" || n == "and" {
                    if rt == Ty::StatFloat || rt == Ty::Status {
                        return Ty::StatFloat;
                    }
                }
                Ty::Other
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(cl) = p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())) {
                        if let ReturnType::Type(_, t) = &cl.output {
                            return self.ty_of_type(t);
                        }
                        let tail = match &*cl.body {
                            Expr::Block(b) => match b.block.stmts.last() { Some(Stmt::Expr(t, None)) => norm(&t.to_token_stream()), _ => String::new() },
                            x => norm(&x.to_token_stream()),
                        };
                        for i in &cl.inputs {
                            if let Pat::Type(pt) = i {
                                if let Pat::Ident(i) = &*pt.pat {
                                    if tail == i.ident.to_string() {
                                        return self.ty_of_type(&pt.ty);
                                    }
                                }
                            }
                        }
                    }
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let full = norm(&p.path.to_token_stream());
                    if last == "from_str_r" {
                        return Ty::Res;
                    }
                    if self.dd && (last == "from" || last == "DoubleFloat" || last == "from_bits") {
                        return Ty::Float;
                    }
                    if full.starts_with("DynPrecisionLimbVec::") || full == "vx_vec1" {
                        return Ty::Vec;
                    }
                    if last == "vx_str_from" || last == "vx_str_slice" {
                        return Ty::Str;
                    }
                    if last == "vx_chars" {
                        return Ty::Chars;
                    }
                    if ["largest", "smallest_normalized", "qnan", "snan"].contains(&last.as_str()) || FCONST.contains(&last.as_str()) {
                        return Ty::Float;
                    }
                    if STAT_M.contains(&last.as_str()) {
                        return Ty::StatFloat;
                    }
                    if BOOL_M.contains(&last.as_str()) {
                        return Ty::Bool;
                    }
                }
                Ty::Other
            }
            Expr::Lit(l) => match l.lit {
                Lit::Bool(_) => Ty::Bool,
                Lit::Int(_) => Ty::Int,
                _ => Ty::Other,
            },
            Expr::Index(ix) if self.ty(&ix.expr) == Ty::Str => Ty::Str,
            Expr::Field(f) => {
                if self.dd && matches!(f.member, Member::Unnamed(_)) && self.ty(&f.base) == Ty::Float {
                    return Ty::Float;
                }
                if let Member::Named(n) = &f.member {
                    if n == "value" && self.ty(&f.base) == Ty::StatFloat {
                        return Ty::Float;
                    }
                    if n == "status" {
                        return Ty::Status;
                    }
                }
                Ty::Other
            }
            Expr::Binary(b) => match b.op {
                BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) => {
                    if self.ty(&b.left) == Ty::Float {
                        Ty::StatFloat
                    } else if self.ty(&b.left) == Ty::Status {
                        Ty::Status
                    } else {
                        Ty::Other
                    }
                }
                BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::BitAnd(_) => self.ty(&b.left),
                BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_) => Ty::Bool,
                _ => Ty::Other,
            },
            Expr::Unary(u) => self.ty(&u.expr),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.ty(e),
                _ => Ty::Other,
            },
            Expr::Struct(s) => {
                let l = s.path.segments.last().unwrap().ident.to_string();
                if l == "IeeeFloat" {
                    Ty::Float
                } else {
                    Ty::Other
                }
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    let t = self.ty(&a.body);
                    if t != Ty::Other {
                        return t;
                    }
                }
                Ty::Other
            }
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.ty(e),
                _ => Ty::Other,
            },
            Expr::Macro(m) if m.mac.path.is_ident("unpack") => {
                let parts = split_commas(m.mac.tokens.clone());
                if parts.len() >= 2 {
                    let mut t = TokenStream::new();
                    for (i, p) in parts[1..].iter().enumerate() {
                        if i > 0 {
                            t.extend(quote!(,));
                        }
                        t.extend(p.clone());
                    }
                    if let Ok(e) = parse2::<Expr>(t) {
                        if self.ty(&e) == Ty::StatFloat {
                            return Ty::Float;
                        }
                    }
                }
                Ty::Other
            }
            _ => Ty::Other,
        }
    }

    /// types of the components of a tuple
    fn ty_tuple(&self, e: &Expr) -> Vec<Ty> {
        match unparen(e) {
            Expr::Tuple(t) => t.elems.iter().map(|x| self.ty(x)).collect(),
            Expr::MethodCall(m) if (m.method == "unwrap_or" || m.method == "map_or") && !m.args.is_empty() => self.ty_tuple(&m.args[0]),
            _ => vec![],
        }
    }

    /// the function argument of a combinator: a closure, or the name of one
    fn closure_arg(&self, e: &Expr) -> Option<ExprClosure> {
        match unparen(e) {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(p) if p.path.segments.len() == 2 && self.dd => Some(parse_quote!(|vx_x| #p(vx_x))),
            Expr::Path(p) => self.closures.get(&p.path.get_ident()?.to_string()).cloned(),
            _ => None,
        }
    }

    /// combinators of Option, by their definitions
    fn option(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        let rt = self.ty(&m.receiver);
        let s = &m.receiver;
        if rt == Ty::Str && (n == "strip_prefix" || n == "strip_suffix") && m.args.len() == 1 {
            self.note("strip_prefix/strip_suffix become calls of vx_ functions");
            return match (unparen(&m.args[0]), n.as_str()) {
                (Expr::Lit(l), "strip_prefix") if matches!(l.lit, Lit::Str(_)) => Some(parse_quote!(vx_strip_prefix(#s, #l))),
                (Expr::Lit(l), "strip_suffix") if matches!(l.lit, Lit::Str(_)) => Some(parse_quote!(vx_strip_suffix(#s, #l))),
                (Expr::Lit(l), "strip_prefix") if matches!(l.lit, Lit::Char(_)) => Some(parse_quote!(vx_strip_char(#s, #l, #l))),
                (Expr::Array(a), "strip_prefix") if a.elems.len() == 2 => {
                    let (x, y) = (&a.elems[0], &a.elems[1]);
                    Some(parse_quote!(vx_strip_char(#s, #x, #y)))
                }
                _ => None,
            };
        }
        if rt != Ty::OptStr && rt != Ty::Opt {
            return None;
        }
        self.note("combinators of Option are replaced by their definitions");
        let it = if rt == Ty::OptStr { Ty::Str } else { Ty::Other };
        let v = self.fresh("o");
        match n.as_str() {
            "unwrap_or" => {
                let d = &m.args[0];
                Some(parse_quote!((match #s { Some(#v) => #v, None => #d })))
            }
            "or_else" => {
                let c = self.closure_arg(&m.args[0])?;
                let b = &c.body;
                Some(parse_quote!((match #s { Some(#v) => Some(#v), None => #b })))
            }
            "map" | "map_or" | "and_then" | "filter" => {
                let c = self.closure_arg(m.args.last()?)?;
                let (p, b) = (&c.inputs[0], &c.body);
                self.bind(p, it);
                let b = if has_try(b) { cps(b)? } else { (**b).clone() };
                Some(match n.as_str() {
                    "map" => parse_quote!((match #s { Some(#p) => Some(#b), None => None })),
                    "and_then" => parse_quote!((match #s { Some(#p) => #b, None => None })),
                    "map_or" => {
                        let d = &m.args[0];
                        parse_quote!((match #s { Some(#p) => #b, None => #d }))
                    }
                    _ => match p {
                        // the predicate gets a reference; only strings and `_` are handled
                        Pat::Wild(_) => parse_quote!((match #s { Some(#v) => { if #b { Some(#v) } else { None } }, None => None })),
                        Pat::Reference(r) if pat_ident(&r.pat).is_some() => {
                            let i = &r.pat;
                            parse_quote!((match #s { Some(#i) => { if #b { Some(#i) } else { None } }, None => None }))
                        }
                        Pat::Ident(i) if it == Ty::Str => parse_quote!((match #s { Some(#i) => { if #b { Some(#i) } else { None } }, None => None })),
                        _ => return None,
                    },
                })
            }
            _ => None,
        }
    }

    /// `match s { "a" | "b" if c => x, _ if d => y, _ => z }` on a string
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        let s = &m.expr;
        let mut acc: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let mut lits: Vec<Expr> = vec![];
            let pats: Vec<&Pat> = match &a.pat {
                Pat::Or(o) => o.cases.iter().collect(),
                p => vec![p],
            };
            let mut wild = false;
            for p in pats {
                match p {
                    Pat::Lit(l) => lits.push(parse_quote!(vx_str_eq(#s, #l))),
                    Pat::Wild(_) => wild = true,
                    _ => return None,
                }
            }
            let b = &a.body;
            let c: Option<Expr> = if wild { None } else { Some(parse_quote!((#(#lits)||*))) };
            let g = a.guard.as_ref().map(|(_, g)| g.clone());
            let cond: Option<Expr> = match (c, g) {
                (None, None) => None,
                (Some(c), None) => Some(c),
                (None, Some(g)) => Some(parse_quote!((#g))),
                (Some(c), Some(g)) => Some(parse_quote!(#c && (#g))),
            };
            acc = Some(match (cond, acc) {
                (None, _) => parse_quote!({ #b }),
                (Some(c), Some(x)) => parse_quote!(if #c { #b } else { #x }),
                (Some(_), None) => return None,
            });
        }
        self.note("match on string literals becomes if/else on equality");
        acc
    }

    fn bind(&mut self, p: &Pat, t: Ty) {
        match p {
            Pat::Type(pt) => {
                let t2 = self.ty_of_type(&pt.ty);
                self.bind(&pt.pat, if t2 != Ty::Other { t2 } else { t })
            }
            Pat::Ident(i) => {
                self.env.insert(i.ident.to_string(), t);
            }
            _ => {}
        }
    }

    /// beta-reduction of a closure call: `{ let (x, y) = (e1, e2); body }`
    fn inline_closure(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        self.note("closure calls are replaced by the closure's body");
        let body = &c.body;
        let mut lets: Vec<Stmt> = vec![];
        if args.len() == 1 {
            let p = &c.inputs[0];
            let a = &args[0];
            lets.push(match p {
                Pat::Type(t) => {
                    let (p, ty) = (&t.pat, &t.ty);
                    parse_quote!(let #p : #ty = #a;)
                }
                p => parse_quote!(let #p = #a;),
            });
        } else if !args.is_empty() {
            let mut ids = vec![];
            for a in &args {
                let t = self.fresh("a");
                lets.push(parse_quote!(let #t = #a;));
                ids.push(t);
            }
            for (p, t) in c.inputs.iter().zip(&ids) {
                lets.push(match p {
                    Pat::Type(pt) => {
                        let (p, ty) = (&pt.pat, &pt.ty);
                        parse_quote!(let #p : #ty = #t;)
                    }
                    p => parse_quote!(let #p = #t;),
                });
            }
        }
        match &**body {
            Expr::Block(b) => {
                let ss = &b.block.stmts;
                parse_quote!({ #(#lets)* #(#ss)* })
            }
            e => parse_quote!({ #(#lets)* #e }),
        }
    }

    /// the elements and the closure of `ARRAY.into_iter().find_map(f)`
    fn find_map(&mut self, e: &Expr) -> Option<(Vec<Expr>, ExprClosure)> {
        let Expr::MethodCall(m) = e else { return None };
        if m.method != "find_map" || m.args.len() != 1 {
            return None;
        }
        let Expr::MethodCall(im) = unparen(&m.receiver) else { return None };
        if im.method != "into_iter" {
            return None;
        }
        let cl = match unparen(&m.args[0]) {
            Expr::Closure(c) => c.clone(),
            Expr::Path(p) => self.closures.get(&p.path.get_ident()?.to_string())?.clone(),
            _ => return None,
        };
        let elems = match unparen(&im.receiver) {
            Expr::Array(a) => a.elems.iter().cloned().collect(),
            Expr::Path(p) => {
                let n = p.path.get_ident()?;
                (0..*self.arrays.get(&n.to_string())?).map(|i| {
                    let i = LitInt::new(&i.to_string(), Span::call_site());
                    parse_quote!(#n[#i])
                }).collect()
            }
            _ => return None,
        };
        Some((elems, cl))
    }

    /// `for PAT in ITER BODY` -> while loop over an index
    fn for_loop(&mut self, f: ExprForLoop) -> Option<Vec<Stmt>> {
        let label = f.label.clone();
        if label.is_some() {
            return None;
        }
        let body = f.body.stmts.clone();
        let mut it = unparen(&f.expr).clone();
        // `&mut iterator` used up at once is the iterator
        if let Expr::Reference(r) = &it {
            if r.mutability.is_some() && matches!(&*r.expr, Expr::MethodCall(m) if m.method == "rev") {
                it = (*r.expr).clone();
            }
        }
        // ranges
        let (range, rev) = match &it {
            Expr::Range(r) => (Some(r.clone()), false),
            Expr::MethodCall(m) if m.method == "rev" => match unparen(&m.receiver) {
                Expr::Range(r) => (Some(r.clone()), true),
                _ => (None, true),
            },
            _ => (None, false),
        };
        let (k, marker) = self.loop_marker();
        let i = format_ident!("vx_i{}", k);
        let e = format_ident!("vx_e{}", k);
        if let Some(r) = range {
            if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
                return None;
            }
            self.note("`for` over an integer range becomes `while` with an explicit index");
            let (lo, hi) = (r.start?, r.end?);
            let pat = &f.pat;
            if pat_ident(pat).is_none() && !matches!(&**pat, Pat::Wild(_)) {
                return None;
            }
            if self.disp && !rev && matches!(&**pat, Pat::Wild(_)) {
                return Some(parse_stmts(quote!(
                    let #e = #hi; let mut #i = #lo;
                    while #i < #e { #marker #i = #i + 1; #(#body)* }
                )));
            }
            return Some(if rev {
                parse_stmts(quote!(
                    let #e: usize = #lo; let mut #i: usize = #hi;
                    while #i > #e { #marker #i = #i - 1; let #pat = #i; #(#body)* }
                ))
            } else {
                parse_stmts(quote!(
                    let #e: usize = #hi; let mut #i: usize = #lo;
                    while #i < #e { #marker let #pat = #i; #i = #i + 1; #(#body)* }
                ))
            });
        }
        // characters of a string
        if let Expr::MethodCall(m) = &it {
            if m.method == "char_indices" && self.ty(&m.receiver) == Ty::Str && matches!(unparen(&m.receiver), Expr::Path(_)) {
                self.note("`for` over char_indices() becomes a `while` over the index of the character");
                let (s, pat) = (&m.receiver, &f.pat);
                return Some(parse_stmts(quote!(
                    let mut #i: usize = 0;
                    while #i < vx_nchars(#s) { #marker let #pat = vx_char_at(#s, #i); #i = #i + 1; #(#body)* }
                )));
            }
        }
        if self.ty(&it) == Ty::Chars {
            self.note("`for` over chars() becomes a `while` over the index of the character");
            let (t, pat) = (self.fresh("c"), &f.pat);
            return Some(parse_stmts(quote!(
                let mut #t = #it;
                while #t.i < vx_nchars(#t.s) { #marker let #pat = vx_char_at(#t.s, #t.i).1; #t.i = #t.i + 1; #(#body)* }
            )));
        }
        // zip
        let inner = match &it {
            Expr::MethodCall(m) if m.method == "rev" => unparen(&m.receiver).clone(),
            e => e.clone(),
        };
        let rev = matches!(&it, Expr::MethodCall(m) if m.method == "rev");
        if let Expr::MethodCall(m) = &inner {
            if m.method == "zip" {
                if let (Pat::Tuple(pt), Expr::MethodCall(im)) = (&*f.pat, unparen(&m.receiver)) {
                    let a = im.receiver.clone();
                    let b = m.args[0].clone();
                    if im.method == "iter_mut" && !rev {
                        self.note("`for` over zipped slices becomes an indexed `while`");
                        let pa = pat_ident(&pt.elems[0])?;
                        let pb = &pt.elems[1];
                        let pb: Pat = match pb {
                            Pat::Reference(r) => (*r.pat).clone(),
                            _ => return None,
                        };
                        let ix: Expr = parse_quote!(#a[#i - 1]);
                        let mut d = DerefSubst { name: pa, with: ix };
                        let mut nb = body.clone();
                        for s in &mut nb {
                            d.visit_stmt_mut(s);
                        }
                        return Some(parse_stmts(quote!(
                            let mut #i: usize = 0;
                            while #i < #a.len() && #i < #b.len() { #marker let #pb = #b[#i]; #i = #i + 1; #(#nb)* }
                        )));
                    }
                    if im.method == "iter" && rev {
                        self.note("`for` over zipped slices becomes an indexed `while`");
                        let (pa, pb) = (&pt.elems[0], &pt.elems[1]);
                        return Some(parse_stmts(quote!(
                            let mut #i: usize = if #a.len() < #b.len() { #a.len() } else { #b.len() };
                            while #i > 0 { #marker #i = #i - 1; let (#pa, #pb) = (&#a[#i], &#b[#i]); #(#body)* }
                        )));
                    }
                }
                return None;
            }
            // for &d in v[a..b].iter().rev()
            if m.method == "iter" && rev {
                if let Pat::Reference(p) = &*f.pat {
                    pat_ident(&p.pat)?;
                    let d = &p.pat;
                    let (b, lo, hi): (Expr, Expr, Expr) = match unparen(&m.receiver) {
                        Expr::Path(p) => (parse_quote!(#p), parse_quote!(0), parse_quote!(#p.len())),
                        Expr::Index(ix) => match unparen(&ix.index) {
                            Expr::Range(rg) if matches!(rg.limits, RangeLimits::HalfOpen(_)) => {
                                let b = (*ix.expr).clone();
                                let lo = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                                let hi = rg.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(#b.len()));
                                (b, lo, hi)
                            }
                            _ => return None,
                        },
                        _ => return None,
                    };
                    self.note("`for` over a reversed slice becomes an indexed `while`");
                    return Some(parse_stmts(quote!(
                        let #e: usize = #lo; let mut #i: usize = #hi;
                        vx_assert(#e <= #i && #i <= #b.len());
                        while #i > #e { #marker #i = #i - 1; let #d = #b[#i]; #(#body)* }
                    )));
                }
                return None;
            }
            // limbs.iter_mut().rev()
            if m.method == "iter_mut" {
                self.note("`for` over a mutable slice becomes an indexed `while`");
                let a = m.receiver.clone();
                let pa = pat_ident(&f.pat)?;
                let nb = |ix: Expr| {
                    let mut d = DerefSubst { name: pa.clone(), with: ix };
                    let mut nb = body.clone();
                    for s in &mut nb {
                        d.visit_stmt_mut(s);
                    }
                    nb
                };
                return Some(if rev {
                    let nb = nb(parse_quote!(#a[#i]));
                    parse_stmts(quote!(
                        let mut #i: usize = #a.len();
                        while #i > 0 { #marker #i = #i - 1; #(#nb)* }
                    ))
                } else {
                    let nb = nb(parse_quote!(#a[#i - 1]));
                    parse_stmts(quote!(
                        let mut #i: usize = 0;
                        while #i < #a.len() { #marker #i = #i + 1; #(#nb)* }
                    ))
                });
            }
            return None;
        }
        if rev {
            return None;
        }
        // `for x in dst` (dst: &mut [Limb]) and `for x in &mut dst[lo..hi]`
        let pa = pat_ident(&f.pat)?;
        let (base, lo, hi): (Expr, Expr, Expr) = match &inner {
            Expr::Path(p) => (inner.clone(), parse_quote!(0), parse_quote!(#p.len())),
            Expr::Reference(r) if r.mutability.is_some() => match &*r.expr {
                Expr::Index(ix) => match &*ix.index {
                    Expr::Range(rg) => {
                        let b = (*ix.expr).clone();
                        let lo = rg.start.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(0));
                        let hi = rg.end.as_ref().map(|e| (**e).clone()).unwrap_or(parse_quote!(#b.len()));
                        (b, lo, hi)
                    }
                    _ => return None,
                },
                Expr::Path(p) if self.ty(&r.expr) == Ty::Vec => ((*r.expr).clone(), parse_quote!(0), parse_quote!(#p.len())),
                _ => return None,
            },
            _ => return None,
        };
        self.note("`for` over a mutable slice becomes an indexed `while`");
        let ix: Expr = parse_quote!(#base[#i - 1]);
        let mut d = DerefSubst { name: pa, with: ix };
        let mut nb = body;
        for s in &mut nb {
            d.visit_stmt_mut(s);
        }
        Some(parse_stmts(quote!(
            let #e: usize = #hi; let mut #i: usize = #lo;
            while #i < #e { #marker #i = #i + 1; #(#nb)* }
        )))
    }

    fn expand_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = split_commas(m.tokens.clone());
                // `<` etc. contain no commas here; the message is dropped
                let c: Expr = parse2(a[0].clone()).ok()?;
                self.note("assert!/assert_eq!/assert_ne! become calls of vx_assert, whose precondition is the condition");
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                let a = split_commas(m.tokens.clone());
                let (x, y): (Expr, Expr) = (parse2(a[0].clone()).ok()?, parse2(a[1].clone()).ok()?);
                self.note("assert!/assert_eq!/assert_ne! become calls of vx_assert, whose precondition is the condition");
                if let (Expr::Tuple(p), Expr::Tuple(q)) = (&x, &y) {
                    if p.elems.len() == 2 && q.elems.len() == 2 && name.ends_with("eq") {
                        let (a, b, c, d) = (&p.elems[0], &p.elems[1], &q.elems[0], &q.elems[1]);
                        self.note("equality of pairs becomes equality of the components");
                        return Some(parse_quote!(vx_assert(#a == #c && #b == #d)));
                    }
                }
                Some(if name.ends_with("eq") { parse_quote!(vx_assert(#x == #y)) } else { parse_quote!(vx_assert(#x != #y)) })
            }
            "unreachable" | "panic" => {
                self.note("unreachable!()/panic!() become calls of vx_unreachable, whose precondition is false");
                Some(parse_quote!(vx_unreachable()))
            }
            "matches" => {
                let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let p = t.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ','))?;
                let e: TokenStream = t[..p].iter().cloned().collect();
                let pt: TokenStream = t[p + 1..].iter().cloned().collect();
                self.note("matches! is expanded");
                parse2(quote!((match #e { #pt => true, _ => false }))).ok()
            }
            "unpack" => {
                let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
                let p = t.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ','))?;
                let TokenTree::Ident(st) = &t[0] else { return None };
                let or = matches!(&t[1], TokenTree::Punct(p) if p.as_char() == '|');
                let e: TokenStream = t[p + 1..].iter().cloned().collect();
                let v = self.fresh("u");
                self.note("unpack! is expanded");
                self.env.insert(st.to_string(), Ty::Status);
                parse2(if or {
                    quote!({ let #v = #e; #st = #st.bitor(#v.status); #v.value })
                } else {
                    quote!({ let #v = #e; #st = #v.status; #v.value })
                })
                .ok()
            }
            "write" if self.disp => {
                // write!(f, "{:+}", x) and write!(f, "{:+0N}", x)
                let a = split_commas(m.tokens.clone());
                if a.len() != 3 {
                    return None;
                }
                let (d, x): (Expr, Expr) = (parse2(a[0].clone()).ok()?, parse2(a[2].clone()).ok()?);
                let s: LitStr = parse2(a[1].clone()).ok()?;
                let w: usize = match s.value().strip_prefix("{:+")?.strip_suffix('}')? {
                    "" => 0,
                    n => n.strip_prefix('0')?.parse().ok()?,
                };
                self.note("write!(f, \"{:+0N}\", x) becomes a call of write_signed(x, N)");
                Some(parse_quote!(#d.write_signed(#x, #w)))
            }
            n => {
                let (params, body) = self.macros.get(n)?.clone();
                let args = split_commas(m.tokens.clone());
                let mut h = HashMap::new();
                for (p, a) in params.iter().zip(args) {
                    h.insert(p.clone(), a);
                }
                self.note("local macros are expanded");
                parse2(TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, subst_dollar(body, &h))))).ok()
            }
        }
    }

    /// hoist `&mut <not a place>` out of a statement
    fn hoist(&mut self, s: &mut Stmt) -> Vec<Stmt> {
        struct H<'b, 'a> {
            r: &'b mut Rewriter<'a>,
            out: Vec<Stmt>,
        }
        impl VisitMut for H<'_, '_> {
            fn visit_block_mut(&mut self, _: &mut Block) {}
            fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Reference(r) = e {
                    if r.mutability.is_some() && matches!(&*r.expr, Expr::Array(_)) {
                        let t = self.r.fresh("t");
                        let x = &r.expr;
                        self.out.push(parse_quote!(let mut #t = #x;));
                        *r.expr = parse_quote!(#t);
                        self.r.note("temporaries borrowed mutably get a name");
                    }
                }
            }
        }
        let mut h = H { r: self, out: vec![] };
        match s {
            Stmt::Expr(Expr::While(_) | Expr::Loop(_), _) => {}
            s => h.visit_stmt_mut(s),
        }
        h.out
    }

    fn stmts(&mut self, input: Vec<Stmt>, out: &mut Vec<Stmt>) {
        let mut queue: std::collections::VecDeque<Stmt> = input.into();
        while let Some(mut s) = queue.pop_front() {
            match &s {
                Stmt::Item(Item::Const(c)) => {
                    let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                    queue.push_front(parse_quote!(let #n: #t = #e;));
                    self.note("constants local to a function become `let`");
                    continue;
                }
                Stmt::Item(Item::Macro(m)) if m.mac.path.is_ident("macro_rules") => {
                    let t: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    if let (TokenTree::Group(p), Some(TokenTree::Group(b))) = (&t[0], t.iter().skip(1).find(|x| matches!(x, TokenTree::Group(_)))) {
                        let mut ps = vec![];
                        let pv: Vec<TokenTree> = p.stream().into_iter().collect();
                        for w in pv.windows(2) {
                            if let (TokenTree::Punct(d), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                                if d.as_char() == '$' {
                                    ps.push(i.to_string());
                                }
                            }
                        }
                        self.macros.insert(m.ident.as_ref().unwrap().to_string(), (ps, b.stream()));
                    }
                    continue;
                }
                Stmt::Item(Item::Fn(f)) if f.sig.inputs.is_empty() => {
                    let gs = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
                    self.nested.insert(f.sig.ident.to_string(), (gs, (*f.block).clone()));
                    self.note("nested functions are replaced by their bodies");
                    continue;
                }
                Stmt::Item(Item::Use(_)) => continue,
                Stmt::Local(l) => {
                    if let Some(init) = &l.init {
                        if let (Expr::Closure(c), Some(n)) = (unparen(&init.expr), pat_ident(&l.pat)) {
                            self.closures.insert(n, c.clone());
                            continue;
                        }
                        if let (Expr::Array(a), Some(n)) = (unparen(&init.expr), pat_ident(&l.pat)) {
                            self.arrays.insert(n, a.elems.len());
                        }
                        // array patterns
                        let pat = match &l.pat {
                            Pat::Type(t) => &*t.pat,
                            p => p,
                        };
                        if let Pat::Slice(ps) = pat {
                            self.note("array patterns become indexing");
                            if let Expr::Reference(r) = unparen(&init.expr) {
                                // let [sig] = &mut PLACE;
                                if let (Some(n), Some(_)) = (pat_ident(&ps.elems[0]), r.mutability) {
                                    let place = (*r.expr).clone();
                                    let mut d = DerefSubst { name: n, with: parse_quote!(#place[0]) };
                                    for q in queue.iter_mut() {
                                        d.visit_stmt_mut(q);
                                    }
                                    continue;
                                }
                            }
                            let t = self.fresh("arr");
                            let e = &init.expr;
                            let mut ns: Vec<Stmt> = vec![parse_quote!(let #t = #e;)];
                            for (i, p) in ps.elems.iter().enumerate() {
                                let ix = LitInt::new(&i.to_string(), Span::call_site());
                                ns.push(parse_quote!(let #p = #t[#ix];));
                            }
                            for n in ns.into_iter().rev() {
                                queue.push_front(n);
                            }
                            continue;
                        }
                        // (x, overflow) of overflowing_*
                        if let (Pat::Tuple(t), Expr::MethodCall(m)) = (pat, unparen(&init.expr)) {
                            if m.method.to_string().starts_with("overflowing_") {
                                if let Some(n) = pat_ident(&t.elems[1]) {
                                    self.env.insert(n, Ty::Bool);
                                }
                            }
                        }
                    }
                }
                Stmt::Expr(Expr::ForLoop(f), _) => {
                    if let Some(ns) = self.for_loop(f.clone()) {
                        for n in ns.into_iter().rev() {
                            queue.push_front(n);
                        }
                        continue;
                    }
                    self.note("UNSUPPORTED for loop");
                }
                Stmt::Expr(Expr::While(w), _) => {
                    let first = w.body.stmts.first().map(|s| norm(&s.to_token_stream())).unwrap_or_default();
                    if !first.starts_with("vx_loop_marker!") {
                        let (_, mk) = self.loop_marker();
                        let mut w = w.clone();
                        w.body.stmts.insert(0, mk);
                        queue.push_front(Stmt::Expr(Expr::While(w), None));
                        continue;
                    }
                }
                Stmt::Expr(Expr::Loop(w), semi) => {
                    let first = w.body.stmts.first().map(|s| norm(&s.to_token_stream())).unwrap_or_default();
                    if !first.starts_with("vx_loop_marker!") {
                        let (_, mk) = self.loop_marker();
                        let mut w = w.clone();
                        w.body.stmts.insert(0, mk);
                        queue.push_front(Stmt::Expr(Expr::Loop(w), *semi));
                        continue;
                    }
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if !n.starts_with("vx_") {
                        if let Some(e) = self.expand_macro(&m.mac) {
                            let semi = m.semi_token;
                            let is_tail = queue.is_empty() && semi.is_none();
                            queue.push_front(Stmt::Expr(e, if is_tail { None } else { Some(Default::default()) }));
                            continue;
                        }
                        self.note(&format!("UNSUPPORTED macro {}", n));
                    }
                }
                // destructuring assignment `IeeeFloat { sig: [a], exp: b, .. } = e;`
                Stmt::Expr(Expr::Assign(a), _) => {
                    if let Expr::Struct(st) = &*a.left {
                        let t = self.fresh("d");
                        let r = &a.right;
                        let mut ns: Vec<Stmt> = vec![parse_quote!(let #t = #r;)];
                        for f in &st.fields {
                            let m = &f.member;
                            ns.push(match &f.expr {
                                Expr::Array(ar) => {
                                    let x = &ar.elems[0];
                                    parse_quote!(#x = #t.#m[0];)
                                }
                                x => parse_quote!(#x = #t.#m;),
                            });
                        }
                        self.note("destructuring assignment becomes field assignments");
                        for n in ns.into_iter().rev() {
                            queue.push_front(n);
                        }
                        continue;
                    }
                }
                _ => {}
            }
            // `vx` recursion on the contents
            let h = self.hoist(&mut s);
            for x in h {
                out.push(x);
            }
            let (mut pre, mut tup) = (Ty::Other, vec![]);
            if let Stmt::Local(l) = &s {
                if let Some(i) = &l.init {
                    pre = self.ty(&i.expr);
                    tup = self.ty_tuple(&i.expr);
                }
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Local(l) = &s {
                if let Pat::Tuple(pt) = &l.pat {
                    for (p, t) in pt.elems.iter().zip(&tup) {
                        self.bind(p, *t);
                    }
                    out.push(s);
                    continue;
                }
                if pre == Ty::Str {
                    let p = l.pat.clone();
                    self.bind(&p, pre);
                    out.push(s);
                    continue;
                }
                let t = l.init.as_ref().map(|i| self.ty(&i.expr)).unwrap_or(Ty::Other);
                let p = l.pat.clone();
                self.bind(&p, t);
            }
            out.push(s);
        }
    }

    pub fn function(&mut self, key: &str, f: Found, hints: &[Hint]) -> (String, Vec<String>) {
        let mut f = f;
        if f.owner == "Semantics" || f.owner == "X87DoubleExtendedS" {
            // a function of the format: the format is a type parameter, or the struct with the format's constants
            let generic = f.owner == "Semantics";
            let s: TokenStream = if generic { quote!(S) } else { quote!(FmtX87DoubleExtendedS) };
            let mut h = HashMap::new();
            h.insert("Self".to_string(), s.clone());
            f.sig = parse2(subst_idents(f.sig.to_token_stream(), &h)).expect("signature");
            f.block = parse2(subst_idents(f.block.to_token_stream(), &h)).expect("body");
            if generic {
                f.sig.generics.params.push(parse_quote!(S: Semantics));
            }
            self.float_path = Some(quote!(IeeeFloat::<#s>));
            self.note("functions of `Semantics` become free functions; the format is their type parameter");
        }
        if f.owner == "DoubleFloat" && (key.ends_with("::eq") || key.ends_with("::partial_cmp")) {
            self.note("derived PartialEq and PartialOrd are written out");
        }
        if f.generics == "lifted" {
            self.note("a closure that returns early becomes a function; the immutable locals it captures become parameters");
        }
        let mut sig = f.sig.clone();
        let mut block = f.block.clone();
        self.disp = norm(&f.sig.to_token_stream()).contains("fmt::Formatter");
        self.dd = f.owner == "DoubleFloat" || f.owner == "Fallback";
        self.in_float_impl = self.dd || ["IeeeFloat", "Float", "NegExt", "IeeeDefaultExceptionHandling"].contains(&f.owner.as_str());
        self.float_self = self.in_float_impl;
        sig.constness = None;
        if sig.generics.where_clause.is_some() {
            sig.generics.where_clause = None;
            self.note("where clauses of trait methods are dropped");
        }
        let mut pre: Vec<Stmt> = vec![];
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Receiver(r) => {
                    if r.reference.is_none() && r.mutability.is_some() {
                        r.mutability = None;
                        pre.push(parse_quote!(let mut this = self;));
                        RenameSelf.visit_block_mut(&mut block);
                        self.note("`mut self` becomes `let mut this = self`");
                    }
                }
                FnArg::Typed(t) => {
                    let ty = self.ty_of_type(&t.ty);
                    if let Pat::TupleStruct(p) = &*t.pat {
                        for q in &p.elems {
                            if let Some(n) = pat_ident(q) {
                                self.env.insert(n, Ty::Float);
                            }
                        }
                        pre.push(parse_quote!(let #p = vx_p;));
                        *t.pat = parse_quote!(vx_p);
                        self.note("a pattern as parameter becomes a `let`");
                    }
                    if let Pat::Ident(p) = &mut *t.pat {
                        self.env.insert(p.ident.to_string(), ty);
                        if p.mutability.is_some() {
                            p.mutability = None;
                            let n = &p.ident;
                            pre.push(parse_quote!(let mut #n = #n;));
                            self.note("`mut` parameters become `let mut` copies");
                        }
                    }
                }
            }
        }
        let body = std::mem::take(&mut block.stmts);
        let mut all = pre;
        let mut out = vec![];
        all.extend(body);
        self.stmts(all, &mut out);
        block.stmts = out;
        let mut missing = vec![];
        for h in hints {
            if !place(&mut block, h) {
                missing.push(h.id.clone());
            }
        }
        let name: String = key.replace("::", "__").replace('@', "__");
        let nl = LitStr::new(&name, Span::call_site());
        block.stmts.insert(0, parse_quote!(vx_fn_marker!(#nl);));
        let ret = match &sig.output {
            ReturnType::Default => quote!(),
            ReturnType::Type(_, t) => quote!(-> VxRet<#t>),
        };
        sig.output = ReturnType::Default;
        (quote!(pub #sig #ret #block).to_string(), missing)
    }
}

fn parse_stmts(t: TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(TokenStream::from(TokenTree::Group(Group::new(Delimiter::Brace, t)))).expect("stmts");
    b.stmts
}

impl VisitMut for Rewriter<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let input = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        self.stmts(input, &mut out);
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.disp {
            if let Expr::Try(t) = e {
                let x = &t.expr;
                self.note("`?` on a Result is replaced by its definition");
                *e = parse_quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_e) }));
                self.visit_expr_mut(e);
                return;
            }
            if let Expr::MethodCall(m) = e {
                if m.method == "drain" && m.args.len() == 1 {
                    if let Expr::Range(r) = unparen(&m.args[0]) {
                        if let (None, Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                            let v = &m.receiver;
                            self.note("drain(..n) becomes a call of vx_drain_front");
                            *e = parse_quote!(vx_drain_front(&mut #v, #hi));
                            return;
                        }
                    }
                }
            }
        }
        // macros in expression position
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if let Some(x) = self.expand_macro(&m.mac) {
                *e = x;
                self.visit_expr_mut(e);
            } else {
                self.note(&format!("UNSUPPORTED macro {}", n));
            }
            return;
        }
        // calls of local closures and nested functions; calls taking a closure
        if let Expr::Call(c) = &e.clone() {
            if let Expr::Path(p) = &*c.func {
                if let Some(i) = p.path.get_ident() {
                    if let Some(cl) = self.closures.get(&i.to_string()).cloned() {
                        let args = c.args.iter().cloned().collect();
                        *e = self.inline_closure(&cl, args);
                        let mut tys = vec![];
                        if let Expr::Block(_) = e {
                            for p in &cl.inputs {
                                tys.push(p.clone());
                            }
                        }
                        for p in tys {
                            self.bind(&p, Ty::Other);
                        }
                        self.visit_expr_mut(e);
                        return;
                    }
                }
                let full = norm(&p.path.to_token_stream());
                if (full == "cmp::min" || full == "cmp::max") && c.args.len() == 2 {
                    self.note("cmp::min and cmp::max are replaced by their definition");
                    let (x, y) = (self.fresh("m"), self.fresh("m"));
                    let (a, b) = (&c.args[0], &c.args[1]);
                    *e = if full == "cmp::min" {
                        parse_quote!({ let #x = #a; let #y = #b; if #y < #x { #y } else { #x } })
                    } else {
                        parse_quote!({ let #x = #a; let #y = #b; if #y < #x { #x } else { #y } })
                    };
                    self.visit_expr_mut(e);
                    return;
                }
                let last = p.path.segments.last().unwrap().clone();
                if let Some((gs, b)) = self.nested.get(&last.ident.to_string()).cloned() {
                    let mut h = HashMap::new();
                    if let PathArguments::AngleBracketed(a) = &last.arguments {
                        for (g, x) in gs.iter().zip(&a.args) {
                            h.insert(g.clone(), x.to_token_stream());
                        }
                    }
                    let t = subst_idents(b.to_token_stream(), &h);
                    *e = parse2(t).expect("nested fn");
                    self.visit_expr_mut(e);
                    return;
                }
                if let Some(k) = c.args.iter().position(|a| matches!(unparen(a), Expr::Closure(_))) {
                    let key1 = format!("sig::{}", last.ident);
                    if let Some(f) = self.fns.get(&key1).cloned() {
                        self.note(&format!("the call of {} with a closure is replaced by its body", key1));
                        let Expr::Closure(cl) = unparen(&c.args[k]).clone() else { unreachable!() };
                        let mut lets: Vec<Stmt> = vec![];
                        for (j, (param, arg)) in f.sig.inputs.iter().zip(c.args.iter()).enumerate() {
                            let FnArg::Typed(t) = param else { continue };
                            let n = pat_ident(&t.pat).unwrap();
                            if j == k {
                                self.closures.insert(n, cl.clone());
                            } else {
                                let (id, ty) = (format_ident!("{}", n), &t.ty);
                                if norm(&ty.to_token_stream()).starts_with("&mut") {
                                    // the argument is itself a mutable reference variable: substitute the name
                                    let mut h = HashMap::new();
                                    h.insert(n.clone(), arg.to_token_stream());
                                    let t = subst_idents(f.block.to_token_stream(), &h);
                                    let mut ff = f.clone();
                                    ff.block = parse2(t).unwrap();
                                    let ss = ff.block.stmts;
                                    *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: ss } });
                                } else {
                                    lets.push(parse_quote!(let #id: #ty = #arg;));
                                }
                            }
                        }
                        if let Expr::Block(b) = e {
                            let old = std::mem::take(&mut b.block.stmts);
                            b.block.stmts = lets;
                            b.block.stmts.extend(old);
                        }
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = &e.clone() {
            if let Some(x) = self.option(m) {
                *e = x;
                self.visit_expr_mut(e);
                return;
            }
            if m.method == "ok" {
                if let Expr::Call(c) = unparen(&m.receiver) {
                    if norm(&c.func.to_token_stream()) == "u128::from_str_radix" {
                        let (a, b) = (&c.args[0], &c.args[1]);
                        self.note("u128::from_str_radix(..).ok() becomes a call of vx_from_str_radix");
                        *e = parse_quote!(vx_from_str_radix(#a, #b));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // `[x].into_iter().collect()` (a vector of limbs), `v.last() == Some(&x)`
        if let Expr::MethodCall(m) = &e.clone() {
            if m.method == "collect" {
                if let Expr::MethodCall(i) = unparen(&m.receiver) {
                    if let (true, Expr::Array(a)) = (i.method == "into_iter", unparen(&i.receiver)) {
                        if a.elems.len() == 1 {
                            let x = &a.elems[0];
                            self.note("[x].into_iter().collect() becomes a call of vx_vec1");
                            *e = parse_quote!(vx_vec1(#x));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::Binary(b) = &e.clone() {
            if let (BinOp::Eq(_), Expr::MethodCall(m), Expr::Call(c)) = (&b.op, unparen(&b.left), unparen(&b.right)) {
                if m.method == "last" && m.args.is_empty() && is_path(&c.func, "Some") {
                    if let Expr::Reference(r) = unparen(&c.args[0]) {
                        let (v, x) = (&m.receiver, &r.expr);
                        self.note("last() == Some(&x) becomes a call of vx_last_is");
                        *e = parse_quote!(vx_last_is(&#v, #x));
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Match(m) = &e.clone() {
            if self.ty(&m.expr) == Ty::Str {
                if let Some(x) = self.str_match(m) {
                    *e = x;
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::Match(m) = e {
            if self.ty(&m.expr) == Ty::Res {
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    match &a.pat {
                        Pat::TupleStruct(p) if p.path.is_ident("Ok") && p.elems.len() == 1 => self.bind(&p.elems[0].clone(), Ty::StatFloat),
                        Pat::Ident(_) => self.bind(&a.pat.clone(), Ty::Res),
                        _ => {}
                    }
                    self.visit_arm_mut(a);
                }
                return;
            }
        }
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            // StatusAnd::map(|r| ...) and Ordering::then_with(|| ...)
            if n == "map" && m.args.len() == 1 {
                if let Some(c) = self.closure_arg(&m.args[0]) {
                    let t = self.fresh("m");
                    let rty = self.ty(&m.receiver);
                    let p = &c.inputs[0];
                    if rty == Ty::StatFloat {
                        self.bind(p, Ty::Float);
                    }
                    let (r, b) = (&m.receiver, &c.body);
                    if rty == Ty::Res {
                        self.bind(p, Ty::StatFloat);
                        self.note("Result::map with a closure is replaced by its definition");
                        *e = parse_quote!((match #r { Ok(#p) => Ok(#b), Err(#t) => Err(#t) }));
                        self.visit_expr_mut(e);
                        return;
                    }
                    self.note("StatusAnd::map with a closure is replaced by its definition");
                    *e = parse_quote!({ let #t = #r; let #p = #t.value; StatusAnd { status: #t.status, value: #b } });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if n == "then_with" && m.args.len() == 1 {
                if let Expr::Closure(c) = unparen(&m.args[0]).clone() {
                    let (r, b) = (&m.receiver, &c.body);
                    self.note("Ordering::then_with with a closure is replaced by its definition");
                    *e = parse_quote!((match #r { Ordering::Equal => #b, vx_o => vx_o }));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // ARRAY.into_iter().find_map(f).unwrap_or_else(|| ...), the array's length being known
            if (n == "unwrap_or_else" || n == "unwrap_or") && m.args.len() == 1 {
                if let Some((elems, cl)) = self.find_map(unparen(&m.receiver)) {
                    let mut acc: Expr = match unparen(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => (*c.body).clone(),
                        x => parse_quote!(#x),
                    };
                    for x in elems.into_iter().rev() {
                        let v = self.fresh("f");
                        let b = self.inline_closure(&cl, vec![x]);
                        acc = parse_quote!({ let #v = #b; match #v { Some(vx_x) => vx_x, None => #acc } });
                    }
                    self.note("find_map over an array literal becomes nested matches, in the array's order");
                    *e = acc;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // limbs.iter().all(|&l| ...)
            if n == "all" || n == "any" {
                if let (Expr::MethodCall(im), Expr::Closure(c)) = (unparen(&m.receiver), unparen(&m.args[0])) {
                    if im.method == "iter" {
                        let (k, mk) = self.loop_marker();
                        let (i, r) = (format_ident!("vx_i{}", k), format_ident!("vx_r{}", k));
                        let (a, b) = (&im.receiver, &c.body);
                        self.note("iter().all/any becomes a loop");
                        let bind: Stmt = match &c.inputs[0] {
                            Pat::Reference(p) => {
                                let p = &p.pat;
                                parse_quote!(let #p = #a[#i];)
                            }
                            p => parse_quote!(let #p = &#a[#i];),
                        };
                        *e = if n == "all" {
                            parse_quote!({ let mut #r = true; let mut #i: usize = 0;
                                while #i < #a.len() { #mk #bind #i = #i + 1; if !(#b) { #r = false; break; } } #r })
                        } else {
                            parse_quote!({ let mut #r = false; let mut #i: usize = 0;
                                while #i < #a.len() { #mk #bind #i = #i + 1; if #b { #r = true; break; } } #r })
                        };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = &e.clone() {
            let (rt, s) = (self.ty(&m.receiver), &m.receiver);
            let n = m.method.to_string();
            if rt == Ty::Str && m.args.is_empty() && ["len", "is_empty", "chars"].contains(&n.as_str()) {
                self.note("len(), is_empty() and chars() of strings become calls of vx_ functions");
                *e = match n.as_str() {
                    "len" => parse_quote!(vx_str_len(#s)),
                    "is_empty" => parse_quote!(vx_str_is_empty(#s)),
                    _ => parse_quote!(vx_chars(#s)),
                };
                self.visit_expr_mut(e);
                return;
            }
            if rt == Ty::Chars && n == "peekable" {
                *e = (**s).clone();
                self.visit_expr_mut(e);
                return;
            }
            if m.method == "cmp" && m.args.len() == 1 && self.ty(&m.receiver) == Ty::Bool {
                if let Expr::Reference(r) = &m.args[0] {
                    self.note("cmp on bool becomes a call of vx_bool_cmp (false < true)");
                    let (a, b) = (&m.receiver, &r.expr);
                    *e = parse_quote!(vx_bool_cmp(#a, #b));
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // strings
        if let Expr::Reference(r) = &e.clone() {
            if let Expr::Index(ix) = unparen(&r.expr) {
                if self.ty(&ix.expr) == Ty::Str {
                    *e = (*r.expr).clone();
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::Index(ix) = &e.clone() {
            if self.ty(&ix.expr) == Ty::Str {
                if let Expr::Range(rg) = unparen(&ix.index) {
                    if matches!(rg.limits, RangeLimits::HalfOpen(_)) {
                        let s = &ix.expr;
                        self.note("slices of strings become calls of vx_str_from/vx_str_slice");
                        *e = match (&rg.start, &rg.end) {
                            (Some(lo), None) => parse_quote!(vx_str_from(#s, #lo)),
                            (Some(lo), Some(hi)) => parse_quote!(vx_str_slice(#s, #lo, #hi)),
                            (None, Some(hi)) => parse_quote!(vx_str_slice(#s, 0, #hi)),
                            (None, None) => (**s).clone(),
                        };
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // comparison with an array literal
        if let Expr::Binary(b) = &e.clone() {
            if let (BinOp::Eq(_) | BinOp::Ne(_), Expr::Array(a)) = (&b.op, unparen(&b.right)) {
                if a.elems.len() == 1 {
                    let (l, op, x) = (&b.left, &b.op, &a.elems[0]);
                    self.note("comparisons with a one-element array literal compare the element");
                    *e = parse_quote!((#l[0] #op #x));
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // PEEKABLE.peek() == Some(&'c')
        if let Expr::Binary(b) = &e.clone() {
            if let (BinOp::Eq(_) | BinOp::Ne(_), Expr::MethodCall(m)) = (&b.op, unparen(&b.left)) {
                if m.method == "peek" && self.ty(&m.receiver) == Ty::Chars {
                    if let Expr::Call(c) = unparen(&b.right) {
                        if let (true, Some(Expr::Reference(r))) = (is_path(&c.func, "Some"), c.args.first()) {
                            let (s, x) = (&m.receiver, &r.expr);
                            self.note("peek() == Some(&c) becomes a match");
                            let q: Expr = parse_quote!((match #s.vx_peek() { Some(vx_c) => vx_c == #x, None => false }));
                            *e = if matches!(b.op, BinOp::Eq(_)) { q } else { parse_quote!(!#q) };
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
        }
        // operators on types the extraction knows
        if let Expr::Binary(b) = e {
            let (lt, rt) = (self.ty(&b.left), self.ty(&b.right));
            let (l, r) = (&b.left, &b.right);
            let lp: Box<Expr> = if matches!(**l, Expr::Unary(_)) { Box::new(parse_quote!((#l))) } else { l.clone() };
            let l = if lt == Ty::Float { &lp } else { l };
            let new: Option<Expr> = match b.op {
                BinOp::Eq(_) | BinOp::Ne(_) => {
                    let ne = matches!(b.op, BinOp::Ne(_));
                    let rs = norm(&r.to_token_stream());
                    if lt == Ty::Float && rt == Ty::Float {
                        self.note("operators on floats become method calls");
                        let q: Expr = parse_quote!(#l.eq(&#r));
                        *e = if ne { parse_quote!(!#q) } else { q };
                        self.visit_expr_mut(e);
                        return;
                    }
                    if rt == Ty::Ordering || rs.starts_with("Some(Ordering::") {
                        self.note("== on Ordering becomes a match");
                        let x: Expr = parse_quote!((match #l { #r => true, _ => false }));
                        Some(if ne { parse_quote!(!#x) } else { x })
                    } else {
                        None
                    }
                }
                BinOp::BitOr(_) if lt == Ty::Bool && rt == Ty::Bool => {
                    self.note("| and & on bool become || and && on evaluated operands");
                    Some(parse_quote!({ let vx_bl = #l; let vx_br = #r; vx_bl || vx_br }))
                }
                BinOp::BitAnd(_) if lt == Ty::Bool && rt == Ty::Bool => {
                    self.note("| and & on bool become || and && on evaluated operands");
                    Some(parse_quote!({ let vx_bl = #l; let vx_br = #r; vx_bl && vx_br }))
                }
                BinOp::BitOrAssign(_) if rt == Ty::Bool => {
                    self.note("| and & on bool become || and && on evaluated operands");
                    Some(parse_quote!(#l = { let vx_br = #r; let vx_bl = #l; vx_bl || vx_br }))
                }
                BinOp::BitAndAssign(_) if rt == Ty::Bool => {
                    self.note("| and & on bool become || and && on evaluated operands");
                    Some(parse_quote!(#l = { let vx_br = #r; let vx_bl = #l; vx_bl && vx_br }))
                }
                BinOp::BitOr(_) if lt == Ty::Status || rt == Ty::Status => Some(parse_quote!(#l.bitor(#r))),
                BinOp::Sub(_) if lt == Ty::Status => Some(parse_quote!(#l.status_sub(#r))),
                BinOp::BitOrAssign(_) if lt == Ty::Status => Some(parse_quote!(#l = #l.bitor(#r))),
                BinOp::Add(_) if lt == Ty::Float => Some(parse_quote!(#l.add(#r))),
                BinOp::Sub(_) if lt == Ty::Float => Some(parse_quote!(#l.sub(#r))),
                BinOp::Mul(_) if lt == Ty::Float => Some(parse_quote!(#l.mul(#r))),
                BinOp::Div(_) if lt == Ty::Float => Some(parse_quote!(#l.div(#r))),
                BinOp::Rem(_) if lt == Ty::Float => Some(parse_quote!(#l.rem(#r))),
                BinOp::Lt(_) if lt == Ty::Float => Some(parse_quote!(#l.vx_lt(#r))),
                BinOp::Gt(_) if lt == Ty::Float => Some(parse_quote!(#l.vx_gt(#r))),
                BinOp::Le(_) if lt == Ty::Float => Some(parse_quote!(#l.vx_le(#r))),
                BinOp::Ge(_) if lt == Ty::Float => Some(parse_quote!(#l.vx_ge(#r))),
                BinOp::BitOrAssign(_) if !matches!(unparen(l), Expr::Path(_)) => Some(parse_quote!(#l = #l | (#r))),
                BinOp::BitAndAssign(_) if !matches!(unparen(l), Expr::Path(_)) => Some(parse_quote!(#l = #l & (#r))),
                BinOp::AddAssign(_) if !matches!(unparen(l), Expr::Path(_)) => Some(parse_quote!(#l = #l + (#r))),
                BinOp::SubAssign(_) if !matches!(unparen(l), Expr::Path(_)) => Some(parse_quote!(#l = #l - (#r))),
                _ => None,
            };
            if let Some(n) = new {
                if lt == Ty::Float && !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    self.note("operators on floats become method calls");
                }
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Unary(u) = e {
            if let UnOp::Neg(_) = u.op {
                let t = self.ty(&u.expr);
                if t == Ty::Float || t == Ty::Round {
                    let x = &u.expr;
                    self.note("unary minus on floats and rounding modes becomes .neg()");
                    *e = parse_quote!((#x).neg());
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        // float constants are functions here
        if let Expr::Path(p) = e {
            let n = p.path.segments.len();
            if n >= 2 || p.qself.is_some() {
                let last = p.path.segments[n - 1].ident.to_string();
                if FCONST.contains(&last.as_str()) {
                    let mut p2 = p.clone();
                    if norm(&p.path.to_token_stream()).starts_with("Float::") {
                        let l = format_ident!("{}", last);
                        p2 = match &self.float_path {
                            Some(t) => parse2(quote!(#t::#l)).unwrap(),
                            None => parse_quote!(Self::#l),
                        };
                    }
                    self.note("the constants ZERO, INFINITY, NAN and SMALLEST become functions with the same body");
                    *e = parse_quote!(#p2());
                    return;
                }
                if self.in_float_impl && norm(&p.path.to_token_stream()).starts_with("Self::") && ["MAX_EXP", "MIN_EXP", "PRECISION", "BITS"].contains(&last.as_str()) {
                    let l = format_ident!("{}", last);
                    *e = parse_quote!(S::#l);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---- hints ---------------------------------------------------------------------------------------

fn hint_stmt(h: &Hint) -> Stmt {
    let l = LitStr::new(&h.id, Span::call_site());
    parse_quote!(vx_hint!(#l);)
}

struct Blocks<'a> {
    f: &'a mut dyn FnMut(&mut Block) -> bool,
    done: bool,
}
impl VisitMut for Blocks<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        if self.done {
            return;
        }
        visit_mut::visit_block_mut(self, b);
        if !self.done && (self.f)(b) {
            self.done = true;
        }
    }
}

struct HasBlockMatch<'a> {
    pat: &'a str,
    found: bool,
}
impl<'ast> syn::visit::Visit<'ast> for HasBlockMatch<'_> {
    fn visit_block(&mut self, b: &'ast Block) {
        for s in &b.stmts {
            if norm(&s.to_token_stream()).contains(self.pat) {
                self.found = true;
            }
        }
        syn::visit::visit_block(self, b);
    }
}

fn place(block: &mut Block, h: &Hint) -> bool {
    let hs = hint_stmt(h);
    match h.wher.as_str() {
        "top" => {
            block.stmts.insert(0, hs);
            true
        }
        "start" => {
            // after the `let mut this = self` copies
            let mut i = 0;
            while i < block.stmts.len() {
                let n = norm(&block.stmts[i].to_token_stream());
                if n == "letmutthis=self;" || n.starts_with("vx_hint!") {
                    i += 1;
                } else if let Some(r) = n.strip_prefix("letmut") {
                    let v = r.trim_end_matches(';');
                    let p: Vec<&str> = v.split('=').collect();
                    if p.len() == 2 && p[0] == p[1] {
                        i += 1;
                    } else {
                        break;
                    }
                } else {
                    break;
                }
            }
            block.stmts.insert(i, hs);
            true
        }
        "end" => {
            match block.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    if matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
                        block.stmts.push(Stmt::Expr(e, None));
                        block.stmts.push(hs);
                    } else {
                        block.stmts.push(parse_quote!(let vx_ret = #e;));
                        block.stmts.push(hs);
                        block.stmts.push(Stmt::Expr(parse_quote!(vx_ret), None));
                    }
                }
                Some(s) => {
                    block.stmts.push(s);
                    block.stmts.push(hs);
                }
                None => block.stmts.push(hs),
            }
            true
        }
        "loopstart" | "loopend" => {
            let want = format!("vx_loop_marker!({})", h.nth);
            let end = h.wher == "loopend";
            let mut f = |b: &mut Block| {
                if b.stmts.first().map(|s| norm(&s.to_token_stream()).starts_with(&want)).unwrap_or(false) {
                    if end {
                        // keep a value-less body
                        if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                            let n = b.stmts.len();
                            b.stmts[n - 1] = Stmt::Expr(e, Some(Default::default()));
                        }
                        b.stmts.push(hs.clone());
                    } else {
                        b.stmts.insert(1, hs.clone());
                    }
                    return true;
                }
                false
            };
            let mut v = Blocks { f: &mut f, done: false };
            v.visit_block_mut(block);
            v.done
        }
        "before" | "after" | "tail" => {
            let mut n = 0;
            let after = h.wher == "after";
            let tail = h.wher == "tail";
            let (nth, pat) = (h.nth, h.pat.clone());
            let mut f = |b: &mut Block| {
                for i in 0..b.stmts.len() {
                    let s = norm(&b.stmts[i].to_token_stream());
                    if !s.contains(&pat) || s.starts_with("vx_hint!") {
                        continue;
                    }
                    let mut hb = HasBlockMatch { pat: &pat, found: false };
                    syn::visit::Visit::visit_stmt(&mut hb, &b.stmts[i]);
                    if hb.found {
                        continue;
                    }
                    if n == nth {
                        if tail {
                            // expression statement without semicolon: name its value
                            if let Stmt::Expr(e, None) = b.stmts[i].clone() {
                                b.stmts[i] = parse_quote!(let vx_ret = #e;);
                                b.stmts.insert(i + 1, hs.clone());
                                b.stmts.insert(i + 2, Stmt::Expr(parse_quote!(vx_ret), None));
                                return true;
                            }
                            if let Stmt::Expr(Expr::Return(r), _) = b.stmts[i].clone() {
                                let e = r.expr;
                                b.stmts[i] = parse_quote!(let vx_ret = #e;);
                                b.stmts.insert(i + 1, hs.clone());
                                b.stmts.insert(i + 2, parse_quote!(return vx_ret;));
                                return true;
                            }
                            return false;
                        }
                        b.stmts.insert(if after { i + 1 } else { i }, hs.clone());
                        return true;
                    }
                    n += 1;
                }
                false
            };
            let mut v = Blocks { f: &mut f, done: false };
            v.visit_block_mut(block);
            v.done
        }
        _ => false,
    }
}
