//! vx: mechanical extraction of functions from /repo into one Verus file.
//!
//! Every run re-reads the Rust sources, takes the functions/types/consts that the contract files
//! (`*.vspec`) name, applies the rewrite rules documented in DESIGN.md ("What the extraction
//! changes"), attaches the contracts and writes a Verus source file plus a JSON map from output
//! lines to functions. It contains no code of its own for any function body.

use proc_macro2::{Delimiter, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone, Debug)]
struct LoopAnn {
    label: String,
    inv: String,
    begin: String,
    end: String,
    before: String,
    after: String,
}

#[derive(Default, Clone, Debug)]
struct FnSpec {
    key: String,
    file: String,
    ret: Option<String>,
    rename: Option<String>,
    attrs: String,
    spec: String,
    entry: String,
    exit: String,
    loops: BTreeMap<usize, LoopAnn>,
    opts: Vec<Vec<String>>,
    keep_trait: bool,
    /// proof text put before the n-th statement that contains the given token text
    befores: Vec<(String, String)>,
    afters: Vec<(String, String)>,
}

#[derive(Clone, Debug)]
enum Entry {
    Global(String),
    Type { file: String, name: String, attrs: String },
    Consts { file: String, names: Vec<String> },
    Encoded { file: String, names: Vec<String> },
    Fn(FnSpec),
}

fn parse_spec(path: &str, entries: &mut Vec<Entry>) {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut file = String::new();
    let mut cur: Option<FnSpec> = None;
    // which text buffer lines go to
    #[derive(Clone, PartialEq)]
    enum Buf { None, Global, Spec, Entry, Exit, Attr, LoopInv(usize), LoopBegin(usize), LoopEnd(usize), LoopBefore(usize), LoopAfter(usize), Before, After }
    let mut buf = Buf::None;
    let mut global = String::new();
    let flush_fn = |cur: &mut Option<FnSpec>, entries: &mut Vec<Entry>| {
        if let Some(f) = cur.take() { entries.push(Entry::Fn(f)); }
    };
    for line in text.lines() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let words: Vec<String> = d.split_whitespace().map(|s| s.to_string()).collect();
            if words.is_empty() { continue; }
            if !matches!(buf, Buf::Global) || words[0] != "global" {
                if !global.is_empty() { entries.push(Entry::Global(std::mem::take(&mut global))); }
            }
            match words[0].as_str() {
                "file" => { flush_fn(&mut cur, entries); file = words[1].clone(); buf = Buf::None; }
                "global" => { flush_fn(&mut cur, entries); buf = Buf::Global; }
                "type" => { flush_fn(&mut cur, entries); buf = Buf::None;
                    entries.push(Entry::Type { file: file.clone(), name: words[1].clone(), attrs: words[2..].join(" ") }); }
                "consts" => { flush_fn(&mut cur, entries); buf = Buf::None; entries.push(Entry::Consts { file: file.clone(), names: words[1..].to_vec() }); }
                "encoded" => { flush_fn(&mut cur, entries); buf = Buf::None; entries.push(Entry::Encoded { file: file.clone(), names: words[1..].to_vec() }); }
                "fn" => {
                    flush_fn(&mut cur, entries);
                    let mut f = FnSpec { key: words[1..].join(" "), file: file.clone(), ..Default::default() };
                    f.opts = vec![];
                    cur = Some(f);
                    buf = Buf::None;
                }
                "ret" => { cur.as_mut().unwrap().ret = Some(words[1].clone()); buf = Buf::None; }
                "rename" => { cur.as_mut().unwrap().rename = Some(words[1].clone()); buf = Buf::None; }
                "keep_trait" => { cur.as_mut().unwrap().keep_trait = true; buf = Buf::None; }
                "opt" => { cur.as_mut().unwrap().opts.push(words[1..].to_vec()); buf = Buf::None; }
                "attr" => buf = Buf::Attr,
                "spec" => buf = Buf::Spec,
                "entry" => buf = Buf::Entry,
                "exit" => buf = Buf::Exit,
                "before" => { cur.as_mut().unwrap().befores.push((words[1..].join(" "), String::new())); buf = Buf::Before; }
                "after" => { cur.as_mut().unwrap().afters.push((words[1..].join(" "), String::new())); buf = Buf::After; }
                "loop" => {
                    let id: usize = words[1].parse().unwrap();
                    let l = cur.as_mut().unwrap().loops.entry(id).or_default();
                    buf = match words.get(2).map(|s| s.as_str()) {
                        None => Buf::LoopInv(id),
                        Some("begin") => Buf::LoopBegin(id),
                        Some("end") => Buf::LoopEnd(id),
                        Some("before") => Buf::LoopBefore(id),
                        Some("after") => Buf::LoopAfter(id),
                        Some("label") => { l.label = words[3].clone(); Buf::LoopInv(id) }
                        Some(x) => panic!("bad loop directive {x}"),
                    };
                }
                x => panic!("{path}: unknown directive {x}"),
            }
            continue;
        }
        let dst: Option<&mut String> = match buf {
            Buf::None => { if !t.is_empty() && !t.starts_with("//") { panic!("{path}: stray text: {line}"); } None }
            Buf::Global => Some(&mut global),
            _ => {
                let f = cur.as_mut().unwrap();
                Some(match buf {
                    Buf::Spec => &mut f.spec,
                    Buf::Entry => &mut f.entry,
                    Buf::Exit => &mut f.exit,
                    Buf::Attr => &mut f.attrs,
                    Buf::Before => &mut f.befores.last_mut().unwrap().1,
                    Buf::After => &mut f.afters.last_mut().unwrap().1,
                    Buf::LoopInv(i) => &mut f.loops.get_mut(&i).unwrap().inv,
                    Buf::LoopBegin(i) => &mut f.loops.get_mut(&i).unwrap().begin,
                    Buf::LoopEnd(i) => &mut f.loops.get_mut(&i).unwrap().end,
                    Buf::LoopBefore(i) => &mut f.loops.get_mut(&i).unwrap().before,
                    Buf::LoopAfter(i) => &mut f.loops.get_mut(&i).unwrap().after,
                    _ => unreachable!(),
                })
            }
        };
        if let Some(d) = dst { d.push_str(line); d.push('\n'); }
    }
    if !global.is_empty() { entries.push(Entry::Global(global)); }
    flush_fn(&mut cur, entries);
}

// ---------------------------------------------------------------- source lookup

#[derive(Clone)]
struct Found {
    imp: Option<ItemImpl>,
    sig: Signature,
    block: Block,
    file: String,
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        _ => t.to_token_stream().to_string(),
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string();
        s.contains("cfg") && s.contains("test") || s.contains("# [test]")
    })
}

fn index_file(file: &str, ast: &File, fns: &mut BTreeMap<String, Found>, alts: &mut BTreeMap<String, Found>) {
    for it in &ast.items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                fns.insert(f.sig.ident.to_string(), Found { imp: None, sig: f.sig.clone(), block: (*f.block).clone(), file: file.into() });
            }
            Item::Impl(im) => {
                let ty = ty_name(&im.self_ty);
                for ii in &im.items {
                    if let ImplItem::Fn(m) = ii {
                        let key = match &im.trait_ {
                            None => format!("{}::{}", ty, m.sig.ident),
                            Some((_, p, _)) => format!("{} as {}::{}", ty, p.segments.last().unwrap().ident, m.sig.ident),
                        };
                        if let Some((_, p, _)) = &im.trait_ {
                            // several implementations of one generic trait: a key with the arguments tells them apart
                            let full = format!("{} as {}::{}", ty, p.segments.last().unwrap().to_token_stream().to_string().replace(' ', ""), m.sig.ident);
                            if full != key { alts.insert(full, Found { imp: Some(im.clone()), sig: m.sig.clone(), block: m.block.clone(), file: file.into() }); }
                        }
                        fns.insert(key, Found { imp: Some(im.clone()), sig: m.sig.clone(), block: m.block.clone(), file: file.into() });
                    }
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- rewriting

/// R1: attributes inside bodies and debug printing are dropped
struct Strip;
impl VisitMut for Strip {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::While(x) => x.attrs.clear(),
            Expr::ForLoop(x) => x.attrs.clear(),
            Expr::Loop(x) => x.attrs.clear(),
            Expr::If(x) => x.attrs.clear(),
            Expr::Block(x) => x.attrs.clear(),
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                !matches!(n.as_str(), "println" | "print" | "eprintln" | "eprint" | "dbg")
            }
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

/// R2..R9: std combinators replaced by their definitions
struct Desugar<'a> {
    opts: &'a [Vec<String>],
    index_impls: &'a HashMap<String, (Ident, Expr)>, // var name -> (param, body place expr)
    fresh: usize, floats: std::collections::BTreeSet<String> }
impl<'a> Desugar<'a> {
    fn has(&self, o: &str) -> bool { self.opts.iter().any(|x| x[0] == o) }
    fn for_rules(&self, e: &mut Expr) {
        // R18 for (P, Q) in V.iter_mut().zip(G) {B}, G endless ==> for i in 0..V.len() { let P = &mut V[i]; let Q = next item of G; B }  (by directive)
        if let Expr::ForLoop(f) = e {
            for o in self.opts.iter().filter(|o| o[0] == "endless") {
                let txt = o[1..].join(" ");
                let Some((g, call)) = txt.split_once("=>") else { continue };
                let Ok(call) = parse_str::<Expr>(call) else { continue };
                if let (Expr::MethodCall(z), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                    if z.method == "zip" && z.args.len() == 1 && t.elems.len() == 2 && norm(&z.args[0].to_token_stream().to_string()) == norm(g) {
                        if let Expr::MethodCall(m) = &*z.receiver {
                            if m.method == "iter_mut" {
                                let (v, p, q, b) = (&m.receiver, &t.elems[0], &t.elems[1], &f.body.stmts);
                                *e = parse_quote!(for __vx_k in 0..#v.len() { let #p = &mut #v[__vx_k]; let #q = #call; #(#b)* });
                                break;
                            }
                        }
                    }
                }
            }
        }
        // R18b for (P, Q) in V.iter_mut().zip(W.iter()) {B} ==> for i in 0..min(V.len(), W.len()) { let P = &mut V[i]; let Q = &W[i]; B }
        if let Expr::ForLoop(f) = e {
            if let (Expr::MethodCall(z), Pat::Tuple(t)) = (&*f.expr, &*f.pat) {
                if z.method == "zip" && z.args.len() == 1 && t.elems.len() == 2 {
                    if let (Expr::MethodCall(m), Expr::MethodCall(w)) = (&*z.receiver, &z.args[0]) {
                        if m.method == "iter_mut" && m.args.is_empty() && w.method == "iter" && w.args.is_empty() {
                            let (v, w, p, b) = (&m.receiver, &w.receiver, &t.elems[0], &f.body.stmts);
                            let (q, x): (Pat, TokenStream) = match &t.elems[1] {
                                Pat::Reference(r) => ((*r.pat).clone(), quote!(__vx_w[__vx_k])),
                                q => (q.clone(), quote!(&__vx_w[__vx_k])),
                            };
                            *e = parse_quote!({ let __vx_w = &#w; let __vx_n = if #v.len() < __vx_w.len() { #v.len() } else { __vx_w.len() };
                                for __vx_k in 0..__vx_n { let #p = &mut #v[__vx_k]; let #q = #x; #(#b)* } });
                            return;
                        }
                    }
                }
            }
        }
        // R28 for k in (A..B).rev() {X} ==> { let lo = A; let mut r = B; while r > lo { r -= 1; let k = r; X } }
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "rev" && m.args.is_empty() {
                    let mut base = &*m.receiver;
                    while let Expr::Paren(p) = base { base = &p.expr; }
                    if let Expr::Range(ExprRange { start: Some(a), end: Some(z), limits: RangeLimits::HalfOpen(_), .. }) = base {
                        let (p, b) = (&f.pat, &f.body.stmts);
                        *e = parse_quote!({ let mut __vx_r = #z; while __vx_r > #a { __vx_r -= 1; let #p = __vx_r; #(#b)* } });
                        return;
                    }
                }
            }
        }
        // R17 for P in &mut V[..N] {B} ==> for i in 0..N { let P = &mut V[i]; B }
        if let Expr::ForLoop(f) = e {
            if let Expr::Reference(r) = &*f.expr {
                if let (Some(_), Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                    if let Expr::Range(ExprRange { start: None, end: Some(n), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
                        let (p, v, b) = (&f.pat, &ix.expr, &f.body.stmts);
                        *e = parse_quote!(for __vx_k in 0..#n { let #p = &mut #v[__vx_k]; #(#b)* });
                    }
                }
            }
        }
    }
    fn windows(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let find = match m.method.to_string().as_str() { "find" => true, "position" => false, _ => return None };
        let c = closure_of(m.args.first()?)?;
        if c.inputs.len() != 1 || m.args.len() != 1 { return None; }
        let Expr::MethodCall(mut w) = (*m.receiver).clone() else { return None };
        if find {
            if w.method != "enumerate" || !w.args.is_empty() { return None; }
            let Expr::MethodCall(i) = &*w.receiver else { return None };
            w = i.clone();
        }
        if w.method != "windows" || w.args.len() != 1 { return None; }
        let Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) = &w.args[0] else { return None };
        if k.base10_parse::<u64>().ok()? == 0 { return None; }
        // R27 w == B on a window w ==> a function with a contract
        struct WinEq(String);
        impl VisitMut for WinEq {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Binary(b) = e {
                    let is = |mut x: &Expr| loop { match x { Expr::Paren(p) => x = &p.expr, Expr::Reference(r) => x = &r.expr, Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => x = expr,
                        Expr::Path(p) => break p.path.get_ident().map_or(false, |i| *i == self.0), _ => break false } };
                    if is(&b.left) || is(&b.right) {
                        let (l, r) = (&b.left, &b.right);
                        match b.op { BinOp::Eq(_) => *e = parse_quote!(vx_bytes_eq(&#l, &#r)), BinOp::Ne(_) => *e = parse_quote!(!vx_bytes_eq(&#l, &#r)), _ => {} }
                    }
                }
            }
        }
        let mut c = c.clone();
        { let mut p = &c.inputs[0]; if find { if let Pat::Reference(r) = p { p = &r.pat; } if let Pat::Tuple(t) = p { if t.elems.len() == 2 { p = &t.elems[1]; } } }
          if let Pat::Ident(i) = p { let mut w = WinEq(i.ident.to_string()); w.visit_expr_mut(&mut c.body); } }
        let (v, body) = (&w.receiver, &c.body);
        self.fresh += 1;
        let f = Ident::new(&format!("__vx_found{}", self.fresh), Span::call_site());
        let (lets, hit): (TokenStream, TokenStream) = if find {
            let mut p = &c.inputs[0];
            let byref = if let Pat::Reference(r) = p { p = &r.pat; true } else { false };
            let Pat::Tuple(t) = p else { return None };
            if t.elems.len() != 2 { return None; }
            let one = |p: &Pat, x: TokenStream| if matches!(p, Pat::Wild(_)) { quote!() } else if byref { quote!(let #p = #x;) } else { quote!(let #p = &#x;) };
            (one(&t.elems[0], quote!(__vx_i)) .into_iter().chain(one(&t.elems[1], quote!(__vx_x))).collect(), quote!((__vx_i, __vx_x)))
        } else { let p = &c.inputs[0]; (quote!(let #p = __vx_x;), quote!(__vx_i)) };
        let ty: TokenStream = if find { quote!(Option<(usize, &[_])>) } else { quote!(Option<usize>) };
        parse2(quote!({ let mut #f: #ty = None; let mut __vx_i: usize = 0;
            while __vx_i + #k <= #v.len() { let __vx_x = &#v[__vx_i..__vx_i + #k]; #lets let __vx_hit = #body; if __vx_hit { #f = Some(#hit); break; } __vx_i += 1; }
            #f })).ok()
    }
    /// is this a floating point expression, as far as can be seen from its text
    fn is_float(&self, e: &Expr) -> bool {
        match e {
            Expr::Lit(l) => matches!(l.lit, Lit::Float(_)),
            Expr::Paren(p) => self.is_float(&p.expr),
            Expr::Group(p) => self.is_float(&p.expr),
            Expr::Unary(u) => self.is_float(&u.expr),
            Expr::Binary(b) => self.is_float(&b.left) || self.is_float(&b.right),
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.floats.contains(&i.to_string())),
            Expr::Field(f) => match &f.member { Member::Named(i) => self.floats.contains(&i.to_string()), _ => false },
            Expr::Call(c) => c.func.to_token_stream().to_string() == "vx_as_f32",
            _ => false,
        }
    }
}
/// R21 BASE.map(|p| ..).filter_map(|q| ..).sum::<T>() ==> { let mut s: T = 0; for p in BASE { .. s += ..; } s }
fn sum_chain(m: &ExprMethodCall) -> Option<Expr> {
    if m.method != "sum" || !m.args.is_empty() { return None; }
    let t = match m.turbofish.as_ref()?.args.first()? { GenericArgument::Type(t) => t.clone(), _ => return None };
    let mut stages: Vec<(String, ExprClosure)> = vec![];
    let mut base: &Expr = &m.receiver;
    while let Expr::MethodCall(x) = base {
        let n = x.method.to_string();
        if !matches!(n.as_str(), "map" | "filter_map" | "filter") { break; }
        let c = closure_of(x.args.first()?)?;
        if c.inputs.len() != 1 { return None; }
        stages.insert(0, (n, c.clone()));
        base = &x.receiver;
    }
    if stages.is_empty() { return None; }
    fn go(st: &[(String, ExprClosure)], cur: TokenStream) -> TokenStream {
        let Some((n, c)) = st.first() else { return quote!(__vx_sum += #cur;) };
        let (p, b) = (&c.inputs[0], &c.body);
        match n.as_str() {
            "map" => { let next = go(&st[1..], quote!(__vx_v)); quote!(let #p = #cur; let __vx_v = #b; #next) }
            "filter_map" => { let next = go(&st[1..], quote!(__vx_v)); quote!(let #p = #cur; if let Some(__vx_v) = #b { #next }) }
            _ => { let next = go(&st[1..], cur.clone()); quote!(if { let #p = &#cur; #b } { #next }) }
        }
    }
    let body = go(&stages, quote!(__vx_it));
    let text = quote!({ let mut __vx_sum: #t = 0; for __vx_it in #base { #body } __vx_sum });
    parse2(text).ok()
}
fn deref_pattern(e: &mut Expr) {
    if let Expr::ForLoop(f) = e {
        if let Pat::Reference(r) = &*f.pat {
            if let Pat::Ident(i) = &*r.pat {
                let id = i.ident.clone();
                f.pat = Box::new(parse_quote!(#id));
                f.body.stmts.insert(0, parse_quote!(let #id = *#id;));
            }
        }
    }
}
/// a closure that may be inlined: it does not leave through `return` or `?`
fn closure_of(e: &Expr) -> Option<&ExprClosure> { if let Expr::Closure(c) = e { if escapes(&c.body) { None } else { Some(c) } } else { None } }
fn escapes(e: &Expr) -> bool {
    struct E(bool);
    impl VisitMut for E {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => return, _ => {} }
            visit_mut::visit_expr_mut(self, e);
        }
        fn visit_item_mut(&mut self, _: &mut Item) {}
    }
    let mut v = E(false);
    v.visit_expr_mut(&mut e.clone());
    v.0
}
/// R22 structs declared inside a body are moved in front of the function, without their attributes; when all they have is
/// derived (de)serialisation, the sequence of their fields in order stands for their encoding
fn hoist_structs(block: &mut Block, fname: &str) -> String {
    let mut out = String::new();
    let mut k = 0;
    block.stmts.retain(|st| {
        let Stmt::Item(Item::Struct(s)) = st else { return true };
        let serde = serde_kind(&s.attrs, &s.fields);
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
        out.push_str(&render(s.to_token_stream(), &AnnStore { texts: vec![] }));
        out.push('\n');
        if serde == "derived" && matches!(s.fields, Fields::Named(_)) {
            let (name, g) = (&s.ident, &s.generics);
            let d = Ident::new(&format!("vx_derive_{}_{}", fname, k), Span::call_site());
            let fs = Ident::new(&format!("vx_fields_{}_{}", fname, k), Span::call_site());
            let of = Ident::new(&format!("vx_of_{}_{}", fname, k), Span::call_site());
            let tys: Vec<Type> = s.fields.iter().map(|f| match &f.ty { Type::Reference(r) => (*r.elem).clone(), t => t.clone() }).collect();
            let vals: Vec<TokenStream> = s.fields.iter().map(|f| { let i = &f.ident; if matches!(f.ty, Type::Reference(_)) { quote!(*v.#i) } else { quote!(v.#i) } }).collect();
            let idx: Vec<syn::Index> = (0..tys.len()).map(syn::Index::from).collect();
            let ids: Vec<&Ident> = s.fields.iter().map(|f| f.ident.as_ref().unwrap()).collect();
            if let Some(ls) = s.fields.iter().zip(idx.iter()).map(|(f, i)| bin_len(match &f.ty { Type::Reference(r) => &r.elem, t => t }, quote!(t.#i))).collect::<Option<Vec<_>>>() {
                let ln = Ident::new(&format!("vx_len_{}_{}", fname, k), Span::call_site());
                let t = quote!(pub open spec fn #ln(t: (#(#tys,)*)) -> int { 0 #(+ #ls)* });
                out.push_str(&render(t, &AnnStore { texts: vec![] }));
                out.push_str(&format!("\n#[verifier::external_body]\npub proof fn vx_size_{}_{}(t: {}) ensures enc_fields(t).len() == {}(t) {{}}\n", fname, k, render(quote!((#(#tys,)*)), &AnnStore { texts: vec![] }), ln));
            }
            let refs = s.fields.iter().any(|f| matches!(f.ty, Type::Reference(_)));
            let mut t = quote!(pub open spec fn #fs #g (v: #name #g) -> (#(#tys,)*) { (#(#vals,)*) });
            if !refs { t.extend(quote!(pub open spec fn #of #g (t: (#(#tys,)*)) -> #name #g { #name { #(#ids: t.#idx),* } })); }
            out.push_str(&render(t, &AnnStore { texts: vec![] }));
            out.push_str(&format!("\n#[verifier::external_body]\npub broadcast proof fn {d}{}(v: {name}{}) ensures #[trigger] enc(v) == enc_fields({fs}(v)) {{}}\n", g.to_token_stream(), g.to_token_stream()));
        }
        k += 1;
        false
    });
    out
}
/// the number of bytes bincode writes for a value of a type: fixed width integers, 64 bit lengths, a tag byte for options, fields in order
fn bin_len(t: &Type, v: TokenStream) -> Option<TokenStream> {
    match t {
        Type::Reference(r) => bin_len(&r.elem, quote!((*#v))),
        Type::Array(a) => { let n = fixed_len(&a.elem)?; let l = &a.len; Some(quote!((#l as int) * #n)) }
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if let Some(n) = fixed_len(t) { return Some(quote!(#n)); }
            let arg = if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(t)) = a.args.first() { Some(t.clone()) } else { None } } else { None };
            match (s.ident.to_string().as_str(), arg) {
                ("Vec", Some(t)) => { let n = match &t { Type::Array(a) => { let n = fixed_len(&a.elem)?; let l = &a.len; quote!((#l as int) * #n) } t => { let n = fixed_len(t)?; quote!(#n) } }; Some(quote!((8 + (#v)@.len() * (#n)))) }
                ("Option", Some(t)) => { let n = bin_len(&t, quote!(__vx_x))?; Some(quote!((match #v { Some(__vx_x) => 1 + #n, None => 1int }))) }
                (_, None) => { let f = Ident::new(&format!("vx_len_{}", s.ident), Span::call_site()); Some(quote!(#f(#v))) }
                _ => None,
            }
        }
        _ => None,
    }
}
fn fixed_len(t: &Type) -> Option<TokenStream> {
    Some(match t.to_token_stream().to_string().as_str() { "u8" | "i8" | "bool" => quote!(1int), "u16" | "i16" => quote!(2int), "u32" | "i32" | "f32" => quote!(4int), "u64" | "i64" | "f64" | "usize" | "isize" => quote!(8int), "u128" | "i128" => quote!(16int), _ => return None })
}
/// derived: the type's (de)serialisation is the derived one of all of its fields; custom: something else; none: no derives
fn serde_kind(attrs: &[Attribute], fields: &Fields) -> &'static str {
    let mut derived = false;
    for a in attrs.iter().chain(fields.iter().flat_map(|f| f.attrs.iter())) {
        let t = a.to_token_stream().to_string();
        if a.path().is_ident("serde") { return "custom"; }
        if a.path().is_ident("derive") && (t.contains("Serialize") || t.contains("Deserialize")) { derived = true; }
    }
    if derived { "derived" } else { "none" }
}
/// the Item of `-> impl Iterator<Item = ..>`
fn item_type(sig: &Signature) -> Option<Type> {
    match &sig.output {
        ReturnType::Type(_, t) => match &**t {
            Type::ImplTrait(t) => t.bounds.iter().find_map(|b| if let TypeParamBound::Trait(tb) = b {
                if let PathArguments::AngleBracketed(a) = &tb.path.segments.last()?.arguments {
                    a.args.iter().find_map(|g| if let GenericArgument::AssocType(at) = g { if at.ident == "Item" { Some(at.ty.clone()) } else { None } } else { None })
                } else { None } } else { None }),
            _ => None },
        _ => None,
    }
}
/// `keep_derives` in a type directive: the derives among Copy, Clone, PartialEq and Eq that the source has are kept
/// `copy_clone`: a type that derives Copy and Clone is copied by `clone`; without both derives nothing is said
fn copy_clone(s: &ItemStruct, directive: &str) -> String {
    if !directive.contains("copy_clone") { return String::new(); }
    let mut d: Vec<String> = vec![];
    for a in s.attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| { if let Some(i) = m.path.get_ident() { d.push(i.to_string()); } Ok(()) });
    }
    if !["Copy", "Clone"].iter().all(|x| d.iter().any(|y| y == x)) { return String::new(); }
    let p: Vec<String> = s.generics.type_params().map(|t| t.ident.to_string()).collect();
    let (l, r) = if p.is_empty() { (String::new(), String::new()) } else { (format!("<{}>", p.iter().map(|x| format!("{}: Copy", x)).collect::<Vec<_>>().join(", ")), format!("<{}>", p.join(", "))) };
    format!("impl{l} Copy for {n}{r} {{}}\nimpl{l} Clone for {n}{r} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ *self }} }}\n", n = s.ident)
}
fn kept_derives(attrs: &[Attribute], directive: &str) -> String {
    let directive = &directive.replace("copy_clone", "");
    if !directive.contains("keep_derives") { return directive.to_string(); }
    let mut d: Vec<String> = vec![];
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| { if let Some(i) = m.path.get_ident() { if ["Copy", "Clone", "PartialEq", "Eq"].contains(&i.to_string().as_str()) { d.push(i.to_string()); } } Ok(()) });
    }
    if d.iter().any(|x| x == "PartialEq") { if !d.iter().any(|x| x == "Eq") { d.push("Eq".into()); } d.push("Structural".into()); }
    format!("{}\n#[derive({})]", directive.replace("keep_derives", ""), d.join(", "))
}
fn body_block(e: &Expr) -> TokenStream {
    match e { Expr::Block(b) => b.block.to_token_stream(), x => quote!({ #x }) }
}
struct SubstIdent<'a> { from: &'a Ident, to: &'a Expr }
impl<'a> VisitMut for SubstIdent<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident(self.from) { *e = self.to.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// R32 the pattern `&x` ==> `r`, with `let x = *r;` in front of what the pattern binds for
struct RefPats { fresh: usize, lets: Vec<Stmt> }
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                if i.subpat.is_none() && i.by_ref.is_none() {
                    let n = Ident::new(&format!("__vx_ref{}", self.fresh), Span::call_site());
                    self.fresh += 1;
                    let (m, i) = (&i.mutability, &i.ident);
                    self.lets.push(parse_quote!(let #m #i = *#n;));
                    *p = parse_quote!(#n);
                }
            }
        }
    }
}
struct RefArms { fresh: usize }
impl RefArms {
    fn take(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = RefPats { fresh: self.fresh, lets: vec![] };
        r.visit_pat_mut(p);
        self.fresh = r.fresh;
        r.lets
    }
}
impl VisitMut for RefArms {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Match(m) => for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                let lets = self.take(&mut a.pat);
                if !lets.is_empty() { let b = &a.body; a.body = parse_quote!({ #(#lets)* #b }); }
            },
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond {
                let lets = self.take(&mut l.pat);
                i.then_branch.stmts.splice(0..0, lets);
            },
            _ => {}
        }
    }
}
impl<'a> VisitMut for Desugar<'a> {
    fn visit_stmt_mut(&mut self, st: &mut Stmt) {
        // R16 a constant declared inside a body ==> a let of the same value
        if let Stmt::Item(Item::Const(c)) = st {
            let (i, t, x) = (&c.ident, &c.ty, &c.expr);
            *st = parse_quote!(let #i: #t = #x;);
        }
        visit_mut::visit_stmt_mut(self, st);
        if let Stmt::Local(l) = st {
            let (name, f) = match &l.pat {
                Pat::Ident(i) => (Some(i.ident.to_string()), false),
                Pat::Type(t) => (if let Pat::Ident(i) = &*t.pat { Some(i.ident.to_string()) } else { None }, t.ty.to_token_stream().to_string() == "f32"),
                _ => (None, false),
            };
            if let (Some(n), Some(init)) = (name, &l.init) { if f || self.is_float(&init.expr) { self.floats.insert(n); } }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // R23 A.map(|p| X).collect::<Vec<..>>() ==> { let mut v: Vec<..> = Vec::new(); for p in A { v.push(X); } v }
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() {
                let t = m.turbofish.as_ref().and_then(|t| if let Some(GenericArgument::Type(Type::Path(p))) = t.args.first() { (p.path.segments.last()?.ident == "Vec").then(|| p.clone()) } else { None });
                if let (Some(t), Expr::MethodCall(i)) = (t, &*m.receiver) {
                    if i.method == "map" && i.args.len() == 1 {
                        if let Some(c) = closure_of(&i.args[0]) {
                            if c.inputs.len() == 1 {
                                let t: Type = if t.to_token_stream().to_string().replace(' ', "") == "Vec<_>" { parse_quote!(Vec<_>) } else { Type::Path(t) };
                                let (r, b, p) = (&i.receiver, &c.body, &c.inputs[0]);
                                *e = parse_quote!({ let mut __vx_v: #t = Vec::new(); for #p in #r { __vx_v.push(#b); } __vx_v });
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e { if let Some(x) = sum_chain(m) { *e = x; return; } }
        // R2  b.then(|| X)  ==>  if b { Some(X) } else { None }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "then" && m.args.len() == 1 {
                if let Some(c) = closure_of(&m.args[0]) {
                    if c.inputs.is_empty() {
                        let (r, b) = (&m.receiver, &c.body);
                        *e = parse_quote!(if #r { Some(#b) } else { None });
                        return;
                    }
                }
            }
            // R3  o.map(|P| X)  ==>  match o { Some(P) => Some(X), None => None }   (Option receivers, by directive)
            if name == "map" && m.args.len() == 1 && self.has("opt_map") {
                if let Some(c) = closure_of(&m.args[0]) {
                    if c.inputs.len() == 1 {
                        let (r, b, p) = (&m.receiver, &c.body, &c.inputs[0]);
                        *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                        return;
                    }
                }
            }
            // R3b o.and_then(|P| X) ==> match o { Some(P) => X, None => None }
            if name == "and_then" && m.args.len() == 1 && self.has("opt_map") {
                if let Some(c) = closure_of(&m.args[0]) {
                    if c.inputs.len() == 1 {
                        let (r, b, p) = (&m.receiver, &c.body, &c.inputs[0]);
                        *e = parse_quote!(match #r { Some(#p) => #b, None => None });
                        return;
                    }
                }
            }
            // R3c o.unwrap_or(X) ==> match o { Some(v) => v, None => X }
            if name == "unwrap_or" && m.args.len() == 1 && self.has("opt_map") {
                let (r, d) = (&m.receiver, &m.args[0]);
                *e = parse_quote!(match #r { Some(__vx_v) => __vx_v, None => #d });
                return;
            }
            // R4  it.for_each(|P| X)  ==>  for P in it { X; }
            if name == "for_each" && m.args.len() == 1 {
                if let Some(c) = closure_of(&m.args[0]) {
                    let (r, b, p) = (&m.receiver, &c.body, &c.inputs[0]);
                    let bb: TokenStream = match &**b { Expr::Block(b) => b.block.to_token_stream(), x => quote!({ #x; }) };
                    let mut f: Expr = parse_quote!(for #p in #r #bb);
                    deref_pattern(&mut f);
                    self.for_rules(&mut f);
                    *e = parse_quote!(({ #f }));
                    return;
                }
            }
            // R5  it.all(|p| X)  ==>  loop over the definition
            if name == "all" && m.args.len() == 1 {
                if let Some(c) = closure_of(&m.args[0]) {
                    let (r, b, p) = (&m.receiver, &c.body, &c.inputs[0]);
                    self.fresh += 1;
                    let v = Ident::new(&format!("__vx_all{}", self.fresh), Span::call_site());
                    let mut f: Expr = parse_quote!(for #p in #r { if !(#b) { #v = false; break; } });
                    deref_pattern(&mut f);
                    *e = parse_quote!({ let mut #v = true; #f #v });
                    return;
                }
            }
        }
        // R6  a op= b  ==>  a = a op (b)   (float places, by directive `floats`)
        // R15 e as f32, e as u64 (e a float)  ==>  a named function of the operand
        if self.has("floats") {
            if let Expr::Binary(b) = e {
                let op: Option<TokenStream> = match b.op {
                    BinOp::AddAssign(_) => Some(quote!(+)),
                    BinOp::SubAssign(_) => Some(quote!(-)),
                    BinOp::MulAssign(_) => Some(quote!(*)),
                    BinOp::DivAssign(_) => Some(quote!(/)),
                    _ => None,
                };
                if let Some(op) = op {
                    if (self.is_float(&b.left) || self.is_float(&b.right)) && matches!(&*b.left, Expr::Unary(_) | Expr::Path(_) | Expr::Field(_)) {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!(#l = #l #op (#r));
                        return;
                    }
                }
            }
            if let Expr::Cast(c) = e {
                let t = c.ty.to_token_stream().to_string();
                let x = &c.expr;
                if t == "f32" { *e = parse_quote!(vx_as_f32(#x)); return; }
                if self.is_float(x) {
                    let f = Ident::new(&format!("vx_f32_as_{t}"), Span::call_site());
                    *e = parse_quote!(#f(#x));
                    return;
                }
            }
        }
        // R29 &mut x[..] ==> &mut x   (the compiler takes the whole as a slice either way)
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(g) = &*ix.index {
                        if g.start.is_none() && g.end.is_none() {
                            let x = &ix.expr;
                            *e = parse_quote!(&mut #x);
                            return;
                        }
                    }
                }
            }
        }
        // R34 x[A..B].copy_from_slice(E) ==> x.vx_put_slice(A, B, E)
        if let Expr::MethodCall(m) = e {
            if m.method == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(ix) = &*m.receiver {
                    if let Expr::Range(ExprRange { start, limits: RangeLimits::HalfOpen(_), end, .. }) = &*ix.index {
                        let (x, src) = (&ix.expr, &m.args[0]);
                        match (start, end) {
                            (a, Some(b)) => { let a: Expr = a.as_ref().map(|a| (**a).clone()).unwrap_or(parse_quote!(0)); *e = parse_quote!(#x.vx_put_slice(#a, #b, #src)); return; }
                            (Some(a), None) => { *e = parse_quote!(#x.vx_put_slice_from(#a, #src)); return; }
                            _ => {}
                        }
                    }
                }
            }
        }
        // R30 x.NAME(..) ==> x.NAME2(..): the method of a trait under the name its contract is given (by directive)
        if let Expr::MethodCall(m) = e {
            for o in self.opts.iter().filter(|o| o[0] == "methods") {
                for p in &o[1..] {
                    if let Some((a, b)) = p.split_once('=') { if m.method == a { m.method = Ident::new(b, Span::call_site()); break; } }
                }
            }
        }
        // R7  self[i] ==> body of the type's own Index impl, inlined
        if let Expr::Index(ix) = e {
            let base = ix.expr.to_token_stream().to_string();
            if let Some((param, body)) = self.index_impls.get(&base) {
                let mut body = body.clone();
                let idx: Expr = { let i = &ix.index; parse_quote!((#i)) };
                SubstIdent { from: param, to: &idx }.visit_expr_mut(&mut body);
                if base != "self" {
                    let to: Expr = parse_str(&base).unwrap();
                    SubstIdent { from: &Ident::new("self", Span::call_site()), to: &to }.visit_expr_mut(&mut body);
                }
                *e = body;
                return;
            }
        }
        // R25 i16::from_le_bytes(b), x.to_le_bytes()  ==>  functions with a contract
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &mut *c.func {
                let n = p.path.segments.len();
                if n >= 2 && p.path.segments[n - 1].ident == "from_le_bytes" {
                    let f = Ident::new(&format!("vx_{}_from_le_bytes", p.path.segments[n - 2].ident), Span::call_site());
                    *c.func = parse_quote!(#f);
                }
            }
        }
        if let Expr::MethodCall(m) = e { if m.method == "to_le_bytes" && m.args.is_empty() { m.method = Ident::new("vx_to_le_bytes", Span::call_site()); } }
        // R26 V.windows(K).position(|w| X), V.windows(K).enumerate().find(|(i, w)| X) ==> the loop over the windows
        if let Expr::MethodCall(m) = e { if let Some(x) = self.windows(m) { *e = x; return; } }
        // R24 a parameter that is not named gets a name
        if let Expr::Closure(c) = e {
            for (i, p) in c.inputs.iter_mut().enumerate() { if matches!(p, Pat::Wild(_)) { let n = Ident::new(&format!("__vx_arg{i}"), Span::call_site()); *p = parse_quote!(#n); } }
        }
        // R8  for &x in it { B }  ==>  for x in it { let x = *x; B }
        deref_pattern(e);
        // R10 while {block} {B} ==> loop { if !{block} {break;} B }, also behind `A &&`
        if let Expr::While(w) = e {
            let (first, c) = match &*w.cond {
                Expr::Binary(ExprBinary { left, op: BinOp::And(_), right, .. }) if matches!(&**right, Expr::Block(_)) => (Some((**left).clone()), (**right).clone()),
                c => (None, c.clone()),
            };
            if let Expr::Block(c) = c {
                let stmts = &w.body.stmts;
                let cb = c.block.clone();
                let n = cb.stmts.len();
                let (pre, last) = cb.stmts.split_at(n - 1);
                let last = if let Stmt::Expr(x, None) = &last[0] { x } else { return };
                let f: TokenStream = match first { Some(a) => quote!(if !(#a) { break; }), None => quote!() };
                *e = parse_quote!(loop { #f #(#pre)* if !(#last) { break; } #(#stmts)* });
            }
        }
        self.for_rules(e);
    }
}

/// R9: `let mut f = |a, b| body;` that is only ever called directly is inlined at its calls
struct InlineClosure { name: Ident, params: Vec<Pat>, body: Expr }
impl VisitMut for InlineClosure {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(&self.name) {
                    let mut lets = TokenStream::new();
                    for (p, a) in self.params.iter().zip(c.args.iter()) {
                        let (pat, ann): (&Pat, TokenStream) = match p {
                            Pat::Type(t) => (&*t.pat, { let ty = &t.ty; quote!(: #ty) }),
                            x => (x, quote!()),
                        };
                        // passing a variable to a parameter of the same name needs no binding
                        if pat.to_token_stream().to_string() == a.to_token_stream().to_string() { continue; }
                        lets.extend(quote!(let #pat #ann = #a;));
                    }
                    let b = &self.body;
                    *e = match b {
                        Expr::Block(bb) => { let st = &bb.block.stmts; parse_quote!({ #lets #(#st)* }) }
                        b => parse_quote!({ #lets #b }),
                    };
                }
            }
        }
    }
}
fn inline_closures(block: &mut Block, names: &[String]) -> std::result::Result<(), String> {
    for n in names {
        let mut found = None;
        for (i, s) in block.stmts.iter().enumerate() {
            if let Stmt::Local(l) = s {
                if let Pat::Ident(p) = &l.pat {
                    if p.ident == n.as_str() {
                        if let Some(init) = &l.init {
                            if let Expr::Closure(c) = &*init.expr { found = Some((i, c.clone())); }
                        }
                    }
                }
            }
        }
        let Some((i, c)) = found else { return Err(format!("closure {n} not found")) };
        struct Ret(bool);
        impl<'a> Visit<'a> for Ret { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } }
        let mut r = Ret(false);
        r.visit_expr(&c.body);
        if r.0 { return Err(format!("closure {n} returns early")); }
        block.stmts.remove(i);
        let mut ic = InlineClosure { name: Ident::new(n, Span::call_site()), params: c.inputs.iter().cloned().collect(), body: (*c.body).clone() };
        ic.visit_block_mut(block);
    }
    Ok(())
}

struct LetType { name: String, ty: Type }
impl VisitMut for LetType {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(p) = &l.pat {
            if p.ident == self.name.as_str() {
                let (pat, ty) = (l.pat.clone(), self.ty.clone());
                l.pat = Pat::Type(PatType { attrs: vec![], pat: Box::new(pat), colon_token: Default::default(), ty: Box::new(ty) });
            }
        }
    }
}

/// R11: outline an expression into a function of its own (by directive)
/// `outline tail NAME(params) -> T` replaces the tail expression by NAME(args)
struct AnnStore { texts: Vec<String> }
impl AnnStore {
    fn ph(&mut self, t: &str) -> TokenStream {
        if t.trim().is_empty() { return quote!(); }
        self.texts.push(t.to_string());
        let id = Ident::new(&format!("__VXANN{}__", self.texts.len() - 1), Span::call_site());
        quote!(#id)
    }
}

struct ExitAtReturn<'a> { exit: &'a TokenStream }
impl<'a> VisitMut for ExitAtReturn<'a> {
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            let exit = self.exit;
            let t = match &r.expr { Some(v) => quote!({ let __vx_r = #v; #exit return __vx_r; }), None => quote!({ #exit return; }) };
            *e = Expr::Verbatim(t);
        }
    }
}
struct NumberLoops { n: usize }
impl NumberLoops {
    fn mark(&mut self, attrs: &mut Vec<Attribute>) {
        let s = format!("{}", self.n);
        attrs.push(parse_quote!(#[vx_loop(#s)]));
        self.n += 1;
    }
}
impl VisitMut for NumberLoops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => self.mark(&mut w.attrs),
            Expr::ForLoop(w) => self.mark(&mut w.attrs),
            Expr::Loop(w) => self.mark(&mut w.attrs),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn loop_id(attrs: &mut Vec<Attribute>) -> usize {
    let a = attrs.pop().unwrap();
    let l: LitStr = a.parse_args().unwrap();
    l.value().parse().unwrap()
}
struct Annotate<'a> { spec: &'a FnSpec, store: &'a mut AnnStore }
impl<'a> Annotate<'a> {
    fn wrap(&mut self, id: usize, head: TokenStream, body: &Block) -> Expr {
        let empty = LoopAnn::default();
        let l = self.spec.loops.get(&id).unwrap_or(&empty);
        let (inv, begin, end) = (self.store.ph(&l.inv), self.store.ph(&l.begin), self.store.ph(&l.end));
        let (before, after) = (self.store.ph(&l.before), self.store.ph(&l.after));
        let stmts = &body.stmts;
        // a body that ends in an expression of type () needs a semicolon before what follows
        let sep = match stmts.last() { Some(Stmt::Expr(_, None)) if !l.end.trim().is_empty() => quote!(;), _ => quote!() };
        let lp = quote!(#head #inv { #begin #(#stmts)* #sep #end });
        let ts = quote!(#before #lp #after);
        Expr::Verbatim(ts)
    }
}
impl<'a> VisitMut for Annotate<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::While(w) => {
                let id = loop_id(&mut w.attrs);
                let (c, lab) = (&w.cond, &w.label);
                *e = self.wrap(id, quote!(#lab while #c), &w.body.clone());
            }
            Expr::Loop(w) => {
                let id = loop_id(&mut w.attrs);
                let lab = &w.label;
                *e = self.wrap(id, quote!(#lab loop), &w.body.clone());
            }
            Expr::ForLoop(w) => {
                let id = loop_id(&mut w.attrs);
                let (p, x, lab) = (&w.pat, &w.expr, &w.label);
                let itl = self.spec.loops.get(&id).map(|l| l.label.clone()).unwrap_or_default();
                let it = if itl.is_empty() { quote!() } else { let i = Ident::new(&itl, Span::call_site()); quote!(#i :) };
                *e = self.wrap(id, quote!(#lab for #p in #it #x), &w.body.clone());
            }
            _ => {}
        }
    }
}

/// proof text before / after the statements that mention a token text
struct AtStmt<'a> { spec: &'a FnSpec, store: &'a mut AnnStore, hits: BTreeMap<String, usize> }
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
impl<'a> VisitMut for AtStmt<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let txt = norm(&s.to_token_stream().to_string());
            // only the innermost statement counts
            let compound = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::If(_) | Expr::Match(_) | Expr::Block(_), _));
            let mut pre = vec![];
            let mut post = vec![];
            if !compound {
                for (pat, t) in &self.spec.befores { if txt.starts_with(&norm(pat)) { *self.hits.entry(pat.clone()).or_default() += 1; pre.push(self.store.ph(t)); } }
                for (pat, t) in &self.spec.afters { if txt.starts_with(&norm(pat)) { *self.hits.entry(pat.clone()).or_default() += 1; post.push(self.store.ph(t)); } }
            }
            for p in pre { out.push(Stmt::Expr(Expr::Verbatim(p), None)); }
            out.push(s);
            for p in post { out.push(Stmt::Expr(Expr::Verbatim(p), None)); }
        }
        b.stmts = out;
    }
}

struct SubstSelfAssoc { map: HashMap<String, Type> }
impl VisitMut for SubstSelfAssoc {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(r) = self.map.get(&p.path.segments[1].ident.to_string()) { *t = r.clone(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

// ---------------------------------------------------------------- printing

fn print_ts(ts: TokenStream, out: &mut String) {
    let mut joint = true;
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => (" {\n", "\n}\n"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push_str(o);
                print_ts(g.stream(), out);
                out.push_str(c);
                joint = false;
            }
            TokenTree::Punct(p) => {
                if !joint { out.push(' '); }
                out.push(p.as_char());
                joint = p.spacing() == proc_macro2::Spacing::Joint;
                if p.as_char() == ';' { out.push('\n'); }
            }
            x => {
                if !joint || !out.ends_with(|c: char| c == '\'') { out.push(' '); }
                let _ = write!(out, "{}", x);
                joint = false;
            }
        }
    }
}
fn render(ts: TokenStream, store: &AnnStore) -> String {
    let mut s = String::new();
    print_ts(ts, &mut s);
    for (i, t) in store.texts.iter().enumerate().rev() {
        s = s.replace(&format!("__VXANN{}__", i), &format!("\n{}\n", t.trim_end()));
    }
    s
}

// ---------------------------------------------------------------- main

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c => o.push(c) }
    }
    o.push('"');
    o
}

struct Ctx {
    repo: String,
    asts: BTreeMap<String, File>,
    fns: BTreeMap<String, BTreeMap<String, Found>>, // file -> key -> fn
    alts: BTreeMap<String, BTreeMap<String, Found>>, // the same with the arguments of the trait in the key
}
impl Ctx {
    fn find(&self, file: &str, key: &str) -> Option<&Found> { self.fns[file].get(key).or_else(|| self.alts[file].get(key)) }
    fn load(&mut self, file: &str) {
        if self.asts.contains_key(file) { return; }
        let p = format!("{}/{}", self.repo, file);
        let ast = std::fs::read_to_string(&p).ok().and_then(|t| parse_file(&t).ok()).unwrap_or(File { shebang: None, attrs: vec![], items: vec![] });
        let (mut m, mut alts) = (BTreeMap::new(), BTreeMap::new());
        index_file(file, &ast, &mut m, &mut alts);
        self.fns.insert(file.into(), m);
        self.alts.insert(file.into(), alts);
        self.asts.insert(file.into(), ast);
    }
}

fn index_impl_of(ast: &File, ty: &str) -> Option<(Ident, Expr)> {
    let (mut a, mut b) = (None, None);
    for it in &ast.items {
        if let Item::Impl(im) = it {
            if ty_name(&im.self_ty) != ty { continue; }
            let Some((_, p, _)) = &im.trait_ else { continue };
            let tn = p.segments.last().unwrap().ident.to_string();
            if tn != "Index" && tn != "IndexMut" { continue; }
            for ii in &im.items {
                if let ImplItem::Fn(m) = ii {
                    let param = match m.sig.inputs.iter().nth(1) { Some(FnArg::Typed(t)) => match &*t.pat { Pat::Ident(i) => i.ident.clone(), _ => return None }, _ => return None };
                    if m.block.stmts.len() != 1 { return None; }
                    if let Stmt::Expr(Expr::Reference(r), None) = &m.block.stmts[0] {
                        if tn == "Index" { a = Some((param, (*r.expr).clone())); } else { b = Some((param, (*r.expr).clone())); }
                    } else { return None; }
                }
            }
        }
    }
    match (a, b) {
        (Some(x), Some(y)) if x.0 == y.0 && x.1 == y.1 => Some(x),
        (Some(x), None) => Some(x),
        _ => None,
    }
}

/// R14: a type parameter of an impl is instantiated (by directive): `inst BACKING Vec<T>`
struct Inst { param: String, ty: Type }
impl VisitMut for Inst {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.path.is_ident(&self.param) { *t = self.ty.clone(); return; } }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        let param = self.param.clone();
        g.params = g.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == param)).cloned().collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if t.bounded_ty.to_token_stream().to_string() == param)).cloned().collect();
            if w.predicates.is_empty() { g.where_clause = None; }
        }
        visit_mut::visit_generics_mut(self, g);
    }
}

fn emit_fn(ctx: &Ctx, spec: &FnSpec, found: &Found, assume: bool, vacuity: bool) -> std::result::Result<String, String> {
    let mut inst = found.clone();
    for o in spec.opts.iter().filter(|o| o[0] == "inst") {
        let mut i = Inst { param: o[1].clone(), ty: parse_str(&o[2..].join(" ")).map_err(|e| e.to_string())? };
        if let Some(im) = &mut inst.imp { i.visit_generics_mut(&mut im.generics); i.visit_type_mut(&mut im.self_ty); }
        i.visit_signature_mut(&mut inst.sig);
        i.visit_block_mut(&mut inst.block);
    }
    let found = &inst;
    let mut store = AnnStore { texts: vec![] };
    let mut block = found.block.clone();
    let mut sig = found.sig.clone();
    let mut assoc = HashMap::new();
    if let Some(im) = &found.imp {
        for ii in &im.items { if let ImplItem::Type(t) = ii { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
    }
    if !spec.keep_trait {
        let mut s = SubstSelfAssoc { map: assoc };
        s.visit_signature_mut(&mut sig);
        s.visit_block_mut(&mut block);
    }
    let hoisted = hoist_structs(&mut block, &sig.ident.to_string());
    Strip.visit_block_mut(&mut block);
    // R3d as R3b where the expression is the value of the function: a `return` or `?` in the closure has the same effect
    if spec.opts.iter().any(|o| o[0] == "opt_map") {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            if let Expr::MethodCall(m) = e {
                if m.method == "and_then" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        if c.inputs.len() == 1 {
                            let (r, b, p) = (&m.receiver, &c.body, &c.inputs[0]);
                            *e = parse_quote!(match #r { Some(#p) => #b, None => None });
                        }
                    }
                }
            }
        }
    }
    // R31 a function that returns RECV.map(|p| B) ==> the function from the item p of RECV to B (by directive)
    if let Some(o) = spec.opts.iter().find(|o| o[0] == "map_of") {
        let txt = o[1..].join(" ");
        let (recv, ty) = txt.split_once("=>").ok_or("map_of: no type")?;
        let ty: Type = parse_str(ty).map_err(|e| e.to_string())?;
        let found = match &block.stmts[..] {
            [Stmt::Expr(Expr::MethodCall(m), None)] if m.method == "map" && norm(&m.receiver.to_token_stream().to_string()) == norm(recv) && m.args.len() == 1 =>
                match &m.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => if let Pat::Ident(p) = &c.inputs[0] { Some((p.ident.clone(), (*c.body).clone())) } else { None }, _ => None },
            _ => None,
        };
        let (p, body) = found.ok_or("map_of: not the expected iterator")?;
        let item = item_type(&sig).ok_or("map_of: no item type")?;
        sig.output = parse_quote!(-> #item);
        sig.inputs.push(parse_quote!(vx_p: #ty));
        block = match body { Expr::Block(b) => b.block, x => parse_quote!({ #x }) };
        block.stmts.insert(0, parse_quote!(let #p = vx_p;));
    }
    // R33 a function that ends in (A..B).map(|p| X) ==> the function from p to Some(X) where A <= p < B, to None elsewhere (by directive)
    if let Some(o) = spec.opts.iter().find(|o| o[0] == "map_range") {
        let ty: Type = parse_str(&o[1..].join(" ")).map_err(|e| e.to_string())?;
        let found = match block.stmts.last() {
            Some(Stmt::Expr(Expr::MethodCall(m), None)) if m.method == "map" && m.args.len() == 1 => {
                let mut r = &*m.receiver;
                while let Expr::Paren(x) = r { r = &x.expr; }
                match (r, &m.args[0]) {
                    (Expr::Range(g), Expr::Closure(c)) if c.inputs.len() == 1 && matches!(g.limits, RangeLimits::HalfOpen(_)) => match (&g.start, &g.end, &c.inputs[0]) {
                        (Some(a), Some(b), Pat::Ident(p)) => Some(((**a).clone(), (**b).clone(), p.ident.clone(), (*c.body).clone())),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        };
        let (a, b, p, x) = found.ok_or("map_range: not the expected iterator")?;
        if block.stmts[..block.stmts.len() - 1].iter().any(|s| !matches!(s, Stmt::Local(_))) { return Err("map_range: more than bindings before the iterator".into()); }
        let item = item_type(&sig).ok_or("map_range: no item type")?;
        sig.output = parse_quote!(-> Option<#item>);
        sig.inputs.push(parse_quote!(vx_p: #ty));
        block.stmts.pop();
        block.stmts.push(Stmt::Expr(parse_quote!(if #a <= vx_p && vx_p < #b { let #p = vx_p; Some(#x) } else { None }), None));
    }
    // R19 a function that returns the endless iterator (0u64..).map(|_| B) ==> the function that computes one item B (by directive)
    if spec.opts.iter().any(|o| o[0] == "generator") {
        let body = match &block.stmts[..] {
            [Stmt::Expr(Expr::MethodCall(m), None)] if m.method == "map" && norm(&m.receiver.to_token_stream().to_string()) == "(0u64..)" && m.args.len() == 1 =>
                match closure_of(&m.args[0]) { Some(c) if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Wild(_)) => (*c.body).clone(), _ => return Err("generator: closure".into()) },
            _ => return Err("generator: form".into()),
        };
        let item = item_type(&sig).ok_or("generator: no item type")?;
        sig.output = parse_quote!(-> #item);
        block = match body { Expr::Block(b) => b.block, x => parse_quote!({ #x }) };
    }
    // R12 `let x = e` ==> `let x: T = e` with the type that inference would find (by directive; rustc checks it)
    for o in spec.opts.iter().filter(|o| o[0] == "let_type") {
        LetType { name: o[1].clone(), ty: parse_str(&o[2..].join(" ")).map_err(|e| e.to_string())? }.visit_block_mut(&mut block);
    }
    // R13 a minimum over a slice written as an iterator chain ==> the loop that the adaptors stand for
    if spec.opts.iter().any(|o| o[0] == "min_chain") {
        let mut m = MinChain { hits: 0 };
        m.visit_block_mut(&mut block);
        if m.hits != 1 { return Err(format!("min_chain: {} matches", m.hits)); }
    }
    let inl: Vec<String> = spec.opts.iter().filter(|o| o[0] == "inline_closure").flat_map(|o| o[1..].to_vec()).collect();
    // directives of the form `outline_closure NAME fn(params)`: closure body moved to a function of its own
    inline_closures(&mut block, &inl)?;
    let mut index_impls = HashMap::new();
    for o in spec.opts.iter().filter(|o| o[0] == "index_inline") {
        // index_inline <Type> <base>...
        let r = index_impl_of(&ctx.asts[&found.file], &o[1]).or_else(|| ctx.asts.values().find_map(|a| index_impl_of(a, &o[1])))
            .ok_or(format!("no plain Index impl for {}", o[1]))?;
        for b in &o[2..] { index_impls.insert(parse_str::<Expr>(b).map(|e| e.to_token_stream().to_string()).unwrap_or(b.clone()), r.clone()); }
    }
    Desugar { opts: &spec.opts, index_impls: &index_impls, fresh: 0, floats: spec.opts.iter().filter(|o| o[0] == "floats").flat_map(|o| o[1..].to_vec()).collect() }.visit_block_mut(&mut block);
    RefArms { fresh: 0 }.visit_block_mut(&mut block);
    // replace directives: `replace_stmt PREFIX => CALL` outlines a statement / expression
    for o in spec.opts.iter().filter(|o| o[0] == "outline") {
        apply_outline(&mut block, o)?;
    }
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a { if matches!(*t.pat, Pat::Wild(_)) { let n = Ident::new(&format!("__vx_arg{i}"), Span::call_site()); t.pat = Box::new(parse_quote!(#n)); } }
    }
    // R20 fn f(mut self, ..) {B} ==> fn f(self, ..) { let mut s = self; B with s for self }
    if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
        if r.reference.is_none() && r.mutability.is_some() {
            r.mutability = None;
            struct S;
            impl VisitMut for S { fn visit_ident_mut(&mut self, i: &mut Ident) { if i == "self" { *i = Ident::new("__vx_self", Span::call_site()); } } }
            S.visit_block_mut(&mut block);
            block.stmts.insert(0, parse_quote!(let mut __vx_self = self;));
        }
    }
    let mut nl = NumberLoops { n: 0 };
    nl.visit_block_mut(&mut block);
    let want = spec.loops.keys().max().map(|m| m + 1).unwrap_or(0);
    if !assume && nl.n != want { return Err(format!("expected {} loops, found {}", want, nl.n)); }
    if !assume {
        let mut at = AtStmt { spec, store: &mut store, hits: BTreeMap::new() };
        at.visit_block_mut(&mut block);
        let hits = at.hits;
        for (p, _) in spec.befores.iter().chain(spec.afters.iter()) {
            if !hits.contains_key(p) { return Err(format!("no statement starts with `{p}`")); }
        }
    }
    Annotate { spec, store: &mut store }.visit_block_mut(&mut block);
    if let Some(r) = &spec.rename { sig.ident = Ident::new(r, Span::call_site()); }
    let output = match (&sig.output, &spec.ret) {
        (ReturnType::Default, _) => quote!(),
        (ReturnType::Type(_, t), Some(r)) => { let r = Ident::new(r, Span::call_site()); quote!(-> (#r : #t)) }
        (ReturnType::Type(_, t), None) => quote!(-> #t),
    };
    let (ident, inputs, wc) = (&sig.ident, &sig.inputs, &sig.generics.where_clause);
    let gp = &sig.generics;
    let vis = if spec.keep_trait { quote!() } else { quote!(pub) };
    let spec_ph = store.ph(&spec.spec);
    let entry_txt = if vacuity { format!("proof {{ assert(false); }}\n{}", spec.entry) } else { spec.entry.clone() };
    let entry_ph = store.ph(&entry_txt);
    let exit_ph = store.ph(&spec.exit);
    let body: TokenStream = if assume {
        quote!({ unimplemented!() })
    } else if spec.exit.trim().is_empty() {
        let st = &block.stmts;
        quote!({ #entry_ph #(#st)* })
    } else {
        //returns behind the last binding leave the function where its end would: the exit proof holds for them too
        let all = spec.opts.iter().any(|o| o[0] == "exit_all"); // the exit proof uses no binding of the body
        let from = if all { 0 } else { block.stmts.iter().rposition(|s| matches!(s, Stmt::Local(_))).map(|k| k + 1).unwrap_or(0) };
        let mut x = ExitAtReturn { exit: &exit_ph };
        let last = block.stmts.len();
        for s in block.stmts[from..last].iter_mut() { x.visit_stmt_mut(s); }
        let n = block.stmts.len();
        if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
            if !matches!(sig.output, ReturnType::Default) {
                let st = &block.stmts[..n - 1];
                quote!({ #entry_ph #(#st)* let __vx_r = #e; #exit_ph __vx_r })
            } else { let st = &block.stmts; quote!({ #entry_ph #(#st)* ; #exit_ph }) }
        } else { let st = &block.stmts; quote!({ #entry_ph #(#st)* #exit_ph }) }
    };
    let attr_txt = if assume { format!("#[verifier::external_body]\n{}", spec.attrs.replace("#[verifier::external_body]", "")) } else { spec.attrs.clone() };
    let f = quote!(#vis fn #ident #gp (#inputs) #output #wc #spec_ph #body);
    let fs = render(f, &store);
    Ok(hoisted + &match &found.imp {
        None => format!("{attr_txt}\n{fs}\n"),
        Some(im) => {
            let (ig, _, iw) = im.generics.split_for_impl();
            let st = &im.self_ty;
            let types: TokenStream = if spec.keep_trait { im.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { let mut t = t.clone(); t.attrs.clear(); Some(quote!(#t)) } else { None }).collect() } else { quote!() };
            let tr = if spec.keep_trait { let p = &im.trait_.as_ref().unwrap().1; quote!(#p for) } else { quote!() };
            let head = render(quote!(impl #ig #tr #st #iw), &store);
            let types = render(types, &store);
            format!("{head} {{\n{types}\n{attr_txt}\n{fs}\n}}\n")
        }
    })
}

/// R13: `B.iter().enumerate().skip(N).filter(|&(..)| P).min_by(|(_, a), (_, b)| a.cmp(b)).map(|(i, _)| E).unwrap_or(D)`
/// becomes a loop over the indices of B that keeps the index of the first smallest element (which is what
/// Iterator::min_by returns). skip and filter may be missing.
struct MinChain { hits: usize }
impl MinChain {
    fn bind(p: &Pat, idx: &Expr, val: &Expr, out: &mut Vec<Stmt>) -> Option<()> {
        match p {
            Pat::Wild(_) => {}
            Pat::Ident(i) => out.push(parse_quote!(let #i = #idx;)),
            Pat::Reference(r) => match &*r.pat { Pat::Ident(i) => out.push(parse_quote!(let #i = #val;)), _ => return None },
            _ => return None,
        }
        Some(())
    }
    fn pair(p: &Pat) -> Option<(&Pat, &Pat)> {
        let t = match p { Pat::Tuple(t) => t, Pat::Reference(r) => match &*r.pat { Pat::Tuple(t) => t, _ => return None }, Pat::Type(t) => return Self::pair(&t.pat), _ => return None };
        if t.elems.len() != 2 { return None; }
        Some((&t.elems[0], &t.elems[1]))
    }
    fn name(p: &Pat) -> Option<String> { match p { Pat::Ident(i) => Some(i.ident.to_string()), Pat::Reference(r) => Self::name(&r.pat), _ => None } }
    fn rewrite(e: &Expr) -> Option<Expr> {
        let mut chain: Vec<ExprMethodCall> = vec![];
        let mut cur = e.clone();
        while let Expr::MethodCall(m) = cur { cur = (*m.receiver).clone(); chain.push(m); }
        let base = match &cur { Expr::Path(_) => cur, _ => return None };
        chain.reverse();
        let names: Vec<String> = chain.iter().map(|m| m.method.to_string()).collect();
        let n = names.len();
        if n < 5 || names[0] != "iter" || names[1] != "enumerate" || names[n - 3..] != ["min_by", "map", "unwrap_or"] { return None; }
        let clo = |m: &ExprMethodCall| match m.args.first() { Some(Expr::Closure(c)) => Some(c.clone()), _ => None };
        let i: Expr = parse_quote!(__vx_i);
        let mut tests: Vec<(Vec<Stmt>, Expr)> = vec![];
        for m in &chain[2..n - 3] {
            match m.method.to_string().as_str() {
                "skip" => { let a = &m.args[0]; tests.push((vec![], parse_quote!(__vx_i >= #a))); }
                "filter" => {
                    let c = clo(m)?;
                    let (a, b) = Self::pair(&c.inputs[0])?;
                    let mut st = vec![];
                    if !matches!(a, Pat::Wild(_)) { Self::bind(a, &i, &i, &mut st)?; }
                    let val: Expr = parse_quote!(#base[__vx_i]);
                    if !matches!(b, Pat::Wild(_) | Pat::Reference(_)) { return None; }
                    Self::bind(b, &i, &val, &mut st)?;
                    tests.push((st, (*c.body).clone()));
                }
                _ => return None,
            }
        }
        let c = clo(&chain[n - 3])?;
        let a = Self::name(Self::pair(&c.inputs[0])?.1)?;
        let b = Self::name(Self::pair(&c.inputs[1])?.1)?;
        let (recv, arg) = match &*c.body { Expr::MethodCall(m) if m.method == "cmp" && m.args.len() == 1 => (norm(&m.receiver.to_token_stream().to_string()), norm(&m.args[0].to_token_stream().to_string())), _ => return None };
        let better: Expr = if recv == a && arg == b { parse_quote!(#base[__vx_j] > #base[__vx_i]) } else if recv == b && arg == a { parse_quote!(#base[__vx_i] > #base[__vx_j]) } else { return None };
        let c = clo(&chain[n - 2])?;
        let (pi, pv) = Self::pair(&c.inputs[0])?;
        let j: Expr = parse_quote!(__vx_j);
        let mut st = vec![];
        if !matches!(pi, Pat::Wild(_) | Pat::Ident(_)) || !matches!(pv, Pat::Wild(_) | Pat::Reference(_)) { return None; }
        Self::bind(pi, &j, &j, &mut st)?;
        let val: Expr = parse_quote!(#base[__vx_j]);
        Self::bind(pv, &j, &val, &mut st)?;
        let body = &c.body;
        let default = &chain[n - 1].args[0];
        let mut step: Vec<Stmt> = vec![parse_quote!(__vx_min = match __vx_min { None => Some(__vx_i), Some(__vx_j) => if #better { Some(__vx_i) } else { Some(__vx_j) } };)];
        for (st, cond) in tests.into_iter().rev() {
            let inner = step;
            step = st;
            step.push(parse_quote!(if #cond { #(#inner)* }));
        }
        Some(parse_quote!({
            let mut __vx_min: Option<usize> = None;
            let mut __vx_i: usize = 0;
            while __vx_i < #base.len() { #(#step)* __vx_i += 1; }
            match __vx_min { Some(__vx_j) => { #(#st)* #body } None => #default }
        }))
    }
}
impl VisitMut for MinChain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(r) = Self::rewrite(e) { self.hits += 1; *e = r; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// outline PREFIX... => REPLACEMENT...
/// The statement (or the initializer / tail expression) whose text starts with PREFIX is replaced
/// by REPLACEMENT; the original tokens are emitted separately by `--outlined` for the other back end.
fn apply_outline(block: &mut Block, o: &[String]) -> std::result::Result<(), String> {
    let txt = o[1..].join(" ");
    let (pre, rep) = txt.split_once("=>").ok_or("bad outline directive")?;
    let pre = norm(pre);
    struct V { pre: String, rep: Expr, hits: usize, orig: Option<TokenStream> }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if norm(&e.to_token_stream().to_string()).starts_with(&self.pre) {
                self.hits += 1;
                self.orig = Some(e.to_token_stream());
                *e = self.rep.clone();
                return;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let rep: Expr = parse_str(rep).map_err(|e| format!("outline replacement: {e}"))?;
    let mut v = V { pre, rep, hits: 0, orig: None };
    v.visit_block_mut(block);
    if v.hits != 1 { return Err(format!("outline `{}`: {} matches", v.pre, v.hits)); }
    Ok(())
}

/// the original tokens of an outlined expression (before desugaring)
fn outlined_source(found: &Found, prefix: &str) -> Option<String> {
    struct V { pre: String, hit: Option<String> }
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            if self.hit.is_none() && norm(&e.to_token_stream().to_string()).starts_with(&self.pre) {
                self.hit = Some(e.to_token_stream().to_string());
                return;
            }
            visit::visit_expr(self, e);
        }
    }
    let mut v = V { pre: norm(prefix), hit: None };
    v.visit_block(&found.block);
    v.hit
}

/// the locals that a loop of the body changes from one round to the next
fn carried_in(b: &Block) -> BTreeSet<String> {
    struct A { set: BTreeSet<String>, recv: BTreeSet<String>, own: BTreeSet<String> }
    struct M(BTreeSet<String>);
    impl<'a> Visit<'a> for M {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { if p.mutability.is_some() { self.0.insert(p.ident.to_string()); } visit::visit_pat_ident(self, p); }
    }
    let mut muts = M(BTreeSet::new());
    muts.visit_block(b);
    impl A {
        fn lhs(&mut self, e: &Expr) {
            match e {
                Expr::Path(p) => if let Some(i) = p.path.get_ident() { self.set.insert(i.to_string()); },
                Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.lhs(expr),
                Expr::Paren(p) => self.lhs(&p.expr),
                Expr::Tuple(t) => for x in &t.elems { self.lhs(x) },
                _ => {}
            }
        }
    }
    impl<'a> Visit<'a> for A {
        fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.lhs(&a.left); visit::visit_expr_assign(self, a); }
        fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
            let s = b.op.to_token_stream().to_string();
            if s.ends_with('=') && !matches!(s.as_str(), "==" | "<=" | ">=" | "!=") { self.lhs(&b.left); }
            visit::visit_expr_binary(self, b);
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if let Expr::Path(p) = &*m.receiver { if let Some(i) = p.path.get_ident() { self.recv.insert(i.to_string()); } }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.own.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
    }
    struct L(BTreeSet<String>, BTreeSet<String>);
    impl L { fn body(&mut self, b: &Block) {
        let mut a = A { set: BTreeSet::new(), recv: BTreeSet::new(), own: BTreeSet::new() };
        a.visit_block(b);
        a.set.extend(a.recv.intersection(&self.1).cloned());
        self.0.extend(a.set.difference(&a.own).cloned());
    } }
    impl<'a> Visit<'a> for L {
        fn visit_expr_while(&mut self, w: &'a ExprWhile) { self.body(&w.body); visit::visit_expr_while(self, w); }
        fn visit_expr_for_loop(&mut self, w: &'a ExprForLoop) { self.body(&w.body); visit::visit_expr_for_loop(self, w); }
        fn visit_expr_loop(&mut self, w: &'a ExprLoop) { self.body(&w.body); visit::visit_expr_loop(self, w); }
    }
    let mut l = L(BTreeSet::new(), muts.0);
    l.visit_block(b);
    l.0
}

fn calls_in(b: &Block) -> BTreeSet<String> {
    struct C(BTreeSet<String>);
    impl<'a> Visit<'a> for C {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) { self.0.insert(m.method.to_string()); visit::visit_expr_method_call(self, m); }
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if let Expr::Path(p) = &*c.func { self.0.insert(p.path.segments.last().unwrap().ident.to_string()); }
            visit::visit_expr_call(self, c);
        }
    }
    let mut c = C(BTreeSet::new());
    c.visit_block(b);
    c.0
}

fn main() {
    let mut repo = "/repo".to_string();
    let mut out = String::new();
    let mut map = String::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut assumed: BTreeSet<String> = BTreeSet::new();
    let mut opened: BTreeSet<String> = BTreeSet::new();
    let mut dropped: BTreeSet<String> = BTreeSet::new();
    let mut only_vac: Option<String> = None;
    let mut vacuity = false;
    let mut specs = vec![];
    let mut list = false;
    let mut outlined: Option<(String, String, String)> = None;
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--repo" => repo = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--map" => map = args.next().unwrap(),
            "--known" => known = std::fs::read_to_string(args.next().unwrap()).unwrap_or_default().lines().map(|s| s.to_string()).collect(),
            "--assume" => { assumed.insert(args.next().unwrap()); }
            "--open-loops" => { opened.insert(args.next().unwrap()); }
            "--drop" => { dropped.insert(args.next().unwrap()); }
            "--vacuity" => vacuity = true,
            "--vacuity-fn" => only_vac = args.next(),
            "--list-fns" => list = true,
            "--outlined" => outlined = Some((args.next().unwrap(), args.next().unwrap(), args.next().unwrap())),
            x => specs.push(x.to_string()),
        }
    }
    let mut ctx = Ctx { repo: repo.clone(), asts: BTreeMap::new(), fns: BTreeMap::new(), alts: BTreeMap::new() };
    if let Some((file, key, prefix)) = outlined {
        ctx.load(&file);
        match ctx.find(&file, &key).and_then(|f| outlined_source(f, &prefix)) {
            Some(s) => println!("{s}"),
            None => { eprintln!("outlined expression not found"); std::process::exit(3); }
        }
        return;
    }
    if list {
        fn walk(d: &std::path::Path, v: &mut Vec<String>, root: &std::path::Path) {
            let mut es: Vec<_> = std::fs::read_dir(d).unwrap().flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() { walk(&p, v, root) } else if p.extension().map(|e| e == "rs").unwrap_or(false) { v.push(p.strip_prefix(root).unwrap().to_str().unwrap().into()) }
            }
        }
        let mut v = vec![];
        let root = std::path::PathBuf::from(&repo);
        walk(&root.join("src"), &mut v, &root);
        for f in v { ctx.load(&f); for k in ctx.fns[&f].keys() { println!("{f} {k}"); } }
        return;
    }
    let mut entries = vec![];
    for s in &specs { parse_spec(s, &mut entries); }
    let mut contracted: BTreeSet<(String, String)> = BTreeSet::new();
    let trusted: BTreeSet<String> = entries.iter().filter_map(|e| if let Entry::Fn(f) = e { f.attrs.contains("external_body").then(|| f.key.clone()) } else { None }).collect();
    for e in &entries {
        match e {
            Entry::Fn(f) => { ctx.load(&f.file); contracted.insert((f.file.clone(), f.key.clone())); }
            Entry::Type { file, .. } | Entry::Consts { file, .. } | Entry::Encoded { file, .. } => ctx.load(file),
            _ => {}
        }
    }
    let mut o = String::from("// GENERATED by vx from the sources in /repo/src - do not edit\n#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, unused_parens, unused_braces, non_upper_case_globals)]\nuse vstd::prelude::*;\nuse std::collections::VecDeque;\nuse std::mem;\nuse std::ops::{Deref, DerefMut};\nverus! {\n");
    let mut recs: Vec<String> = vec![];
    let lines = |s: &String| s.matches('\n').count() + 1;
    // helpers that the contracts do not know about
    let mut extra: Vec<(String, String)> = vec![];
    {
        let mut work: Vec<(String, BTreeSet<String>)> = vec![];
        for (f, k) in &contracted {
            if assumed.contains(k) || trusted.contains(k) { continue; }
            if let Some(x) = ctx.find(f, k) { work.push((k.clone(), calls_in(&x.block))); }
        }
        let mut seen = BTreeSet::new();
        while let Some((_, cs)) = work.pop() {
            for c in cs {
                for (f, m) in &ctx.fns {
                    for (k, x) in m {
                        let last = k.rsplit("::").next().unwrap();
                        if last == c && !known.is_empty() && !known.contains(&format!("{f} {k}")) && !contracted.contains(&(f.clone(), k.clone())) && !dropped.contains(k) && seen.insert((f.clone(), k.clone())) {
                            extra.push((f.clone(), k.clone()));
                            work.push((k.clone(), calls_in(&x.block)));
                        }
                    }
                }
            }
        }
    }
    let mut extra_entries: Vec<Entry> = extra.iter().map(|(f, k)| Entry::Fn(FnSpec { key: k.clone(), file: f.clone(), ..Default::default() })).collect();
    let extra_set: BTreeSet<_> = extra.iter().cloned().collect();
    entries.append(&mut extra_entries);
    for e in &entries {
        match e {
            Entry::Global(g) => {
                let b = lines(&o);
                o.push_str(g);
                o.push('\n');
                recs.push(format!("{{\"key\":\"(global)\",\"file\":\"\",\"begin\":{},\"end\":{},\"status\":\"global\",\"reason\":\"\"}}", b, lines(&o)));
            }
            Entry::Type { file, name, attrs } => {
                let mut ok = false;
                for it in &ctx.asts[file].items {
                    match it {
                        Item::Struct(s) if s.ident == name => {
                            recs.push(format!("{{\"key\":{},\"file\":{},\"begin\":0,\"end\":0,\"status\":\"type\",\"reason\":\"{}\"}}", json_str(name), json_str(file), serde_kind(&s.attrs, &s.fields)));
                            let mut s = s.clone();
                            let cc = copy_clone(&s, attrs);
                            let attrs = kept_derives(&s.attrs, attrs);
                            s.attrs.clear();
                            s.vis = parse_quote!(pub);
                            for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); }
                            let _ = write!(o, "{}\n{}\n{}", attrs, render(s.to_token_stream(), &AnnStore { texts: vec![] }), cc);
                            ok = true;
                        }
                        Item::Enum(s) if s.ident == name => {
                            let mut s = s.clone();
                            let attrs = kept_derives(&s.attrs, attrs);
                            s.attrs.clear();
                            s.vis = parse_quote!(pub);
                            let _ = write!(o, "{}\n{}\n", attrs, render(s.to_token_stream(), &AnnStore { texts: vec![] }));
                            ok = true;
                        }
                        Item::Type(s) if s.ident == name => {
                            let mut s = s.clone();
                            s.attrs.clear();
                            s.vis = parse_quote!(pub);
                            o.push_str(&render(s.to_token_stream(), &AnnStore { texts: vec![] }));
                            ok = true;
                        }
                        _ => {}
                    }
                }
                if !ok { recs.push(format!("{{\"key\":{},\"file\":{},\"begin\":0,\"end\":0,\"status\":\"lost\",\"reason\":\"type not found\"}}", json_str(name), json_str(file))); }
            }
            Entry::Encoded { file, names } => {
                for n in names {
                    let it = ctx.asts.get(file).into_iter().flat_map(|a| a.items.iter()).find_map(|i| if let Item::Struct(s) = i { (s.ident == n).then(|| s.clone()) } else { None });
                    let ok = it.and_then(|s| {
                        if serde_kind(&s.attrs, &s.fields) != "derived" { return None; }
                        let ls = s.fields.iter().map(|f| { let i = f.ident.as_ref()?; bin_len(&f.ty, quote!(v.#i)) }).collect::<Option<Vec<_>>>()?;
                        let (name, ln) = (&s.ident, Ident::new(&format!("vx_len_{}", s.ident), Span::call_site()));
                        Some(render(quote!(pub open spec fn #ln(v: #name) -> int { 0 #(+ #ls)* }), &AnnStore { texts: vec![] }))
                    });
                    match ok {
                        Some(t) => { o.push_str(&t); o.push('\n'); }
                        None => {
                            let _ = writeln!(o, "pub uninterp spec fn vx_len_{n}(v: {n}) -> int;");
                            recs.push(format!("{{\"key\":{},\"file\":{},\"begin\":0,\"end\":0,\"status\":\"encoding\",\"reason\":\"not the derived encoding of its fields\"}}", json_str(n), json_str(file)));
                        }
                    }
                }
            }
            Entry::Consts { file, names } => {
                for it in &ctx.asts[file].items {
                    if let Item::Const(c) = it {
                        if is_test(&c.attrs) || (!names.is_empty() && !names.contains(&c.ident.to_string())) { continue; }
                        let ty = c.ty.to_token_stream().to_string();
                        if ty.contains('f') { continue; } // float constants stay behind the leaf functions
                        let mut c = c.clone();
                        c.attrs.clear();
                        c.vis = parse_quote!(pub);
                        o.push_str(&render(c.to_token_stream(), &AnnStore { texts: vec![] }));
                        o.push('\n');
                    }
                }
            }
            Entry::Fn(f) => {
                let mut f = f.clone();
                if opened.contains(&f.key) { f.attrs = format!("#[verifier::loop_isolation(false)]\n{}", f.attrs); }
                let f = &f;
                let b = lines(&o);
                let (txt, mut status, reason) = match ctx.find(&f.file, &f.key) {
                    None => (String::new(), "lost", "function not found".to_string()),
                    Some(found) => {
                        let vac = vacuity && (only_vac.is_none() || only_vac.as_deref() == Some(&f.key));
                        let force = assumed.contains(&f.key);
                        match emit_fn(&ctx, f, found, force || f.attrs.contains("external_body"), vac) {
                            Ok(t) => (t, if force { "assumed" } else if f.attrs.contains("external_body") { "trusted" } else { "contracted" }, String::new()),
                            Err(e) => match emit_fn(&ctx, f, found, true, false) {
                                Ok(t) => (t, "lost", e),
                                Err(e2) => (String::new(), "lost", format!("{e}; {e2}")),
                            },
                        }
                    }
                };
                if extra_set.contains(&(f.file.clone(), f.key.clone())) { status = "uncontracted"; }
                o.push_str(&txt);
                let has_req = f.spec.contains("requires");
                recs.push(format!("{{\"key\":{},\"file\":{},\"begin\":{},\"end\":{},\"status\":\"{}\",\"reason\":{},\"requires\":{},\"calls\":[{}],\"carried\":[{}]}}", json_str(&f.key), json_str(&f.file), b, lines(&o), status, json_str(&reason), has_req, ctx.find(&f.file, &f.key).map(|x| calls_in(&x.block).iter().map(|c| json_str(c)).collect::<Vec<_>>().join(",")).unwrap_or_default(),
                    ctx.find(&f.file, &f.key).map(|x| carried_in(&x.block).iter().map(|c| json_str(c)).collect::<Vec<_>>().join(",")).unwrap_or_default()));
            }
        }
    }
    o.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(&out, o).unwrap();
    std::fs::write(&map, format!("[\n{}\n]\n", recs.join(",\n"))).unwrap();
}
