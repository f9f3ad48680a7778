//! The desugarings (documented one by one in DESIGN.md, section "What the extraction drops").
use crate::db::Entry;
use crate::print;
use crate::repo::{squeeze, Func};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Out {
    /// the `impl ... for ...` header the item belongs in, if any
    pub head: Option<String>,
    pub is_trait: bool,
    pub text: String,
    pub calls: BTreeSet<String>,
    pub loop_kinds: Vec<String>,
    pub missing: Vec<String>,
    /// known findings whose text was replaced, and those whose text is not there
    pub known: Vec<String>,
    pub known_gone: Vec<String>,
}

const PRIM: &[&str] = &[
    "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "str", "char", "Self",
];

fn is_const_name(s: &str) -> bool {
    s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')
}

/// Rewrites paths and types: module prefixes are dropped, names of std and of dependencies are mapped to the prelude.
pub struct Paths;

fn map_path(full: &str) -> Option<&'static str> {
    Some(match full {
        "crc32fast::hash" => "crc32_hash",
        "std::cmp::max" | "cmp::max" => "vx_max",
        "std::cmp::min" | "cmp::min" => "vx_min",
        "std::mem::take" | "mem::take" => "vx_mem_take",
        "std::mem::replace" | "mem::replace" => "vx_mem_replace",
        "std::str::from_utf8" | "str::from_utf8" => "vx_from_utf8",
        "std::str::from_utf8_unchecked" | "str::from_utf8_unchecked" => "vx_from_utf8_unchecked",
        "u16::from_le_bytes" => "vx_u16_from_le",
        "u32::from_le_bytes" => "vx_u32_from_le",
        "u64::from_le_bytes" => "vx_u64_from_le",
        "Cow::Borrowed" => "CowBytes::Borrowed",
        "Cow::Owned" => "CowBytes::Owned",
        _ => return None,
    })
}

impl VisitMut for Paths {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        if let syn::Type::Path(p) = t {
            if p.qself.is_none() {
                let n = squeeze(&p.path);
                if n.starts_with("Cow<") {
                    let lt = match &p.path.segments.last().unwrap().arguments {
                        syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|a| match a {
                            syn::GenericArgument::Lifetime(l) => Some(l.clone()),
                            _ => None,
                        }),
                        _ => None,
                    };
                    *t = match lt {
                        Some(l) => parse_quote!(CowBytes<#l>),
                        None => parse_quote!(CowBytes<'_>),
                    };
                } else if n == "str" {
                    *t = parse_quote!(VStr);
                } else if n == "Error" {
                    *t = parse_quote!(IoError);
                }
            }
        }
        // Context<'_> has no meaning once polling is a plain call
        if let syn::Type::Path(p) = t {
            if p.path.segments.last().map(|s| s.ident == "Context").unwrap_or(false) {
                *t = parse_quote!(Context);
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let full = names.join("::");
        if let Some(m) = map_path(&full) {
            *p = syn::parse_str(m).unwrap();
            return;
        }
        if names.len() > 1 {
            let first = names
                .iter()
                .position(|n| n.chars().next().unwrap().is_uppercase() || PRIM.contains(&n.as_str()))
                .unwrap_or(names.len() - 1);
            let io_result = names.len() >= 2 && names[names.len() - 2] == "io" && names[names.len() - 1] == "Result";
            let mut segs: Vec<syn::PathSegment> = p.segments.iter().skip(first).cloned().collect();
            if io_result {
                segs.last_mut().unwrap().ident = format_ident!("IoResult");
            }
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
        for s in p.segments.iter_mut() {
            if s.ident == "String" {
                s.ident = format_ident!("VString");
            }
            if s.ident.to_string().ends_with("Proj") {
                let n = s.ident.to_string();
                s.ident = format_ident!("{}", &n[..n.len() - 4]);
            }
        }
        if p.segments.len() == 1 {
            let s = p.segments.last_mut().unwrap();
            if s.ident == "Result" || s.ident == "ZipResult" {
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    if a.args.len() == 1 {
                        s.ident = format_ident!("ZResult");
                    } else {
                        s.ident = format_ident!("Result");
                    }
                }
            }
        }
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut syn::TypeParamBound) {
        visit_mut::visit_type_param_bound_mut(self, b);
    }
    fn visit_type_param_mut(&mut self, t: &mut syn::TypeParam) {
        t.bounds = strip_bounds(&t.bounds);
        visit_mut::visit_type_param_mut(self, t);
    }
    fn visit_predicate_type_mut(&mut self, t: &mut syn::PredicateType) {
        t.bounds = strip_bounds(&t.bounds);
        visit_mut::visit_predicate_type_mut(self, t);
    }
}

type Bounds = syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>;
fn strip_bounds(b: &Bounds) -> Bounds {
    b.iter()
        .filter(|b| match b {
            syn::TypeParamBound::Trait(t) => !t.path.segments.last().map(|s| s.ident == "Unpin").unwrap_or(false),
            _ => true,
        })
        .cloned()
        .collect()
}

fn bound_names(b: &Bounds) -> Vec<String> {
    b.iter()
        .filter_map(|b| match b {
            syn::TypeParamBound::Trait(t) => t.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        })
        .collect()
}

struct Rw {
    counter: usize,
    kinds: Vec<String>,
    /// generic reader parameters that became `&mut R`
    readers: Vec<String>,
    cows: Vec<String>,
    /// parameters of type `&mut [T]` / `&mut Vec<T>` and array parameters, for `for x in PARAM`
    mut_params: Vec<String>,
    arr_params: Vec<String>,
    /// names bound to `self.project()`
    proj: Vec<String>,
    pin: bool,
}

fn closure(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match e {
        Expr::Closure(c) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(g) => strip_paren(&g.expr),
        e => e,
    }
}

fn method<'a>(e: &'a Expr, name: &str) -> Option<(&'a Expr, Vec<&'a Expr>)> {
    match strip_paren(e) {
        Expr::MethodCall(m) if m.method == name => Some((&m.receiver, m.args.iter().collect())),
        _ => None,
    }
}

fn path_ident(e: &Expr) -> Option<String> {
    match strip_paren(e) {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

fn lifted_block(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: syn::Block { brace_token: Default::default(), stmts } })
}

fn inv(k: usize) -> Stmt {
    let k = proc_macro2::Literal::usize_unsuffixed(k);
    parse_quote!(vx_inv!(#k);)
}

fn body_stmts(b: &syn::Block) -> Vec<Stmt> {
    let mut v = b.stmts.clone();
    // a loop body is (): make a trailing expression a statement so that text can follow it
    if let Some(Stmt::Expr(e, semi @ None)) = v.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)) {
            *semi = Some(Default::default());
        }
    }
    v
}

impl Rw {
    fn kind(&mut self, k: usize, s: &str) {
        while self.kinds.len() <= k {
            self.kinds.push(String::new());
        }
        self.kinds[k] = s.to_string();
    }

    fn for_loop(&mut self, f: syn::ExprForLoop, k: usize) -> Expr {
        let (i, s, end) = (format_ident!("vx_i{k}"), format_ident!("vx_s{k}"), format_ident!("vx_end{k}"));
        let pat = (*f.pat).clone();
        let label = f.label.clone();
        let body = body_stmts(&f.body);
        let m = inv(k);
        let it = strip_paren(&f.expr).clone();
        // a..b
        if let Expr::Range(r) = &it {
            if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                self.kind(k, "for-range");
                return parse_quote!({
                    let mut #i = #a;
                    let #end = #b;
                    #label while #i < #end { #m let #pat = #i; #i += 1; #(#body)* }
                });
            }
        }
        if let Some((r, _)) = method(&it, "rev") {
            if let Expr::Range(r) = strip_paren(r) {
                if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                    self.kind(k, "for-rev-range");
                    return parse_quote!({
                        let #s = #a;
                        let mut #i = #b;
                        #label while #i > #s { #m #i -= 1; let #pat = #i; #(#body)* }
                    });
                }
            }
        }
        if let Some((r, _)) = method(&it, "enumerate") {
            if let Pat::Tuple(t) = &pat {
                if t.elems.len() == 2 {
                    let (p0, p1) = (&t.elems[0], &t.elems[1]);
                    if let Some((r2, _)) = method(r, "rev") {
                        if let Some((x, _)) = method(r2, "iter") {
                            self.kind(k, "for-rev-enum");
                            return parse_quote!({
                                let #s = &#x;
                                let mut #i: usize = 0;
                                #label while #i < #s.len() { #m let #p0 = #i; let #p1 = &#s[#s.len() - 1 - #i]; #i += 1; #(#body)* }
                            });
                        }
                    }
                    if let Some((x, _)) = method(r, "iter") {
                        self.kind(k, "for-enum");
                        return parse_quote!({
                            let #s = &#x;
                            let mut #i: usize = 0;
                            #label while #i < #s.len() { #m let #p0 = #i; let #p1 = &#s[#i]; #i += 1; #(#body)* }
                        });
                    }
                }
            }
        }
        let mut slice = |this: &mut Rw, x: Expr| -> Expr {
            this.kind(k, "for-slice");
            parse_quote!({
                let #s = #x;
                let mut #i: usize = 0;
                #label while #i < #s.len() { #m let #pat = &#s[#i]; #i += 1; #(#body)* }
            })
        };
        if let Some((x, _)) = method(&it, "iter") {
            return slice(self, parse_quote!(&#x));
        }
        let is_mut = method(&it, "iter_mut").map(|(x, _)| x.clone()).or_else(|| match &it {
            Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
            e => match path_ident(e) {
                Some(n) if self.mut_params.contains(&n) => Some(e.clone()),
                _ => None,
            },
        });
        if let Some(x) = is_mut {
            self.kind(k, "for-mut");
            let cur = format_ident!("vx_cur{k}");
            let tl = format_ident!("vx_tail{k}");
            let gi = format_ident!("vx_g{k}");
            let gi_step: Stmt = parse_quote!(vx_ghost_inc!(#gi););
            let gi_decl: Stmt = parse_quote!(vx_ghost_decl!(#gi););
            let kk = proc_macro2::Literal::usize_unsuffixed(k);
            let seqs: Stmt = parse_quote!(vx_ghost_seqs!(#kk););
            let firsts: Stmt = parse_quote!(vx_ghost_first!(#kk););
            return parse_quote!({
                #gi_decl
                let mut #s = vx_as_mut_slice(#x);
                #seqs
                #label loop { #m
                    let #cur = #s;
                    match vx_split_first_mut(#cur) {
                        None => { break; }
                        Some((vx_first, #tl)) => { #s = #tl; #firsts let #pat = vx_first; #(#body)* #gi_step }
                    }
                }
            });
        }
        if let Expr::Reference(r) = &it {
            let x = &r.expr;
            return slice(self, parse_quote!(&#x));
        }
        if let Some(n) = path_ident(&it) {
            if self.arr_params.contains(&n) {
                self.kind(k, "for-array");
                return parse_quote!({
                    let mut #i: usize = 0;
                    #label while #i < #it.len() { #m let #pat = #it[#i]; #i += 1; #(#body)* }
                });
            }
            return slice(self, it.clone());
        }
        self.kind(k, "for-other");
        Expr::ForLoop(f)
    }

    fn loop_combinator(&mut self, m: &syn::ExprMethodCall, k: usize) -> Option<Expr> {
        let (i, s, o) = (format_ident!("vx_i{k}"), format_ident!("vx_s{k}"), format_ident!("vx_o{k}"));
        let name = m.method.to_string();
        let iv = inv(k);
        if name == "sum" {
            let (r, args) = method(&m.receiver, "map")?;
            let (x, _) = method(r, "iter")?;
            let (p, b) = closure(args.first()?)?;
            let p = p.into_iter().next()?;
            self.kind(k, "sum");
            return Some(parse_quote!({
                let #s = &#x; let mut #i: usize = 0; let mut #o = 0;
                while #i < #s.len() { #iv let #p = &#s[#i]; #o = #o + #b; #i += 1; }
                #o
            }));
        }
        let (p, b) = closure(m.args.first()?)?;
        let p = p.into_iter().next()?;
        if name == "retain" {
            let x = &m.receiver;
            self.kind(k, "retain");
            return Some(parse_quote!({
                let mut #i: usize = 0;
                while #i < #x.len() { #iv let #o = { let #p = &#x[#i]; #b }; if #o { #i += 1; } else { #x.remove(#i); } }
            }));
        }
        let (x, _) = method(&m.receiver, "iter")?;
        match name.as_str() {
            "any" => {
                self.kind(k, "any");
                Some(parse_quote!({
                    let #s = &#x; let mut #i: usize = 0; let mut #o = false;
                    while #i < #s.len() && !#o { #iv let #p = &#s[#i]; if #b { #o = true; } #i += 1; }
                    #o
                }))
            }
            "find_map" => {
                self.kind(k, "find_map");
                Some(parse_quote!({
                    let #s = &#x; let mut #i: usize = 0; let mut #o = None;
                    while #i < #s.len() && #o.is_none() { #iv let #p = &#s[#i]; #o = #b; #i += 1; }
                    #o
                }))
            }
            _ => None,
        }
    }

    fn is_loop_combinator(m: &syn::ExprMethodCall) -> bool {
        match m.method.to_string().as_str() {
            "sum" => true,
            "retain" => true,
            "any" | "find_map" => method(&m.receiver, "iter").is_some(),
            _ => false,
        }
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "matches" => {
                let (e, p, g) = m
                    .parse_body_with(|i: syn::parse::ParseStream| {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok((e, p, g))
                    })
                    .ok()?;
                Some(match g {
                    None => parse_quote!((match #e { #p => true, _ => false })),
                    Some(g) => parse_quote!((match #e { #p if #g => true, _ => false })),
                })
            }
            "vec" => {
                if m.tokens.is_empty() {
                    Some(parse_quote!(Vec::new()))
                } else {
                    None
                }
            }
            "array_push" => {
                let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                if a.len() != 3 {
                    return None;
                }
                let (x, y, z) = (&a[0], &a[1], &a[2]);
                Some(parse_quote!(array_push_(&mut #x, &mut #y, #z)))
            }
            "ready" => {
                let e: Expr = m.parse_body().ok()?;
                Some(parse_quote!((match #e { Poll::Ready(vx_v) => vx_v, Poll::Pending => return Poll::Pending })))
            }
            "poll_result_ok" => {
                let e: Expr = m.parse_body().ok()?;
                Some(parse_quote!((match #e { Ok(vx_v) => vx_v, Err(vx_e) => return Poll::Ready(Err(vx_e)) })))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(vx_panic())),
            "assert" | "debug_assert" => {
                let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> =
                    m.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let e = a.first()?;
                Some(parse_quote!(vx_assert(#e)))
            }
            _ => None,
        }
    }
}

const RENAME: &[(&str, &str)] = &[
    ("to_le_bytes", "vx_to_le"),
    ("try_into", "vx_try_into"),
    ("to_vec", "vx_to_vec"),
    ("clone", "vx_clone"),
    ("as_mut", "vx_as_mut"),
    ("as_ref", "vx_as_ref"),
    ("is_ascii", "vx_is_ascii"),
    ("as_deref", "vx_as_deref"),
    ("ends_with", "vx_ends_with"),
];

fn uses_q(b: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, b);
    v.0
}

impl VisitMut for Rw {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.macro_expr(&m.mac) {
                *s = Stmt::Expr(e, Some(Default::default()));
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        if self.pin {
            // let this = self.project();
            let proj = &mut self.proj;
            b.stmts.retain(|s| {
                if let Stmt::Local(l) = s {
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Some((r, _)) = method(&init.expr, "project") {
                            if path_ident(r).as_deref() == Some("self") {
                                proj.push(p.ident.to_string());
                                return false;
                            }
                        }
                    }
                }
                true
            });
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order: expand macros, number loops
        if let Expr::Macro(m) = e {
            if let Some(x) = self.macro_expr(&m.mac) {
                *e = x;
            }
        }
        match e {
            Expr::ForLoop(_) => {
                let k = self.counter;
                self.counter += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::ForLoop(f) = e.clone() {
                    *e = self.for_loop(f, k);
                }
                return;
            }
            Expr::While(_) | Expr::Loop(_) => {
                let k = self.counter;
                self.counter += 1;
                visit_mut::visit_expr_mut(self, e);
                match e {
                    Expr::While(w) => {
                        self.kind(k, "while");
                        w.body.stmts = body_stmts(&w.body);
                        w.body.stmts.insert(0, inv(k));
                    }
                    Expr::Loop(w) => {
                        self.kind(k, "loop");
                        w.body.stmts = body_stmts(&w.body);
                        w.body.stmts.insert(0, inv(k));
                    }
                    _ => {}
                }
                return;
            }
            Expr::MethodCall(m) if Rw::is_loop_combinator(m) => {
                let k = self.counter;
                self.counter += 1;
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e.clone() {
                    if let Some(x) = self.loop_combinator(&m, k) {
                        *e = x;
                    } else {
                        self.kind(k, &format!("call-{}", m.method));
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- post-order
        let new: Option<Expr> = match &*e {
            Expr::Await(a) => Some((*a.base).clone()),
            Expr::Try(t) => {
                let x = &t.expr;
                Some(parse_quote!((match #x { Ok(vx_v) => vx_v, Err(vx_e) => return Err(vx_err(vx_e)) })))
            }
            Expr::Unsafe(u) => Some(lifted_block(u.block.stmts.clone())),
            Expr::Reference(r) if r.mutability.is_some() => match path_ident(&r.expr) {
                Some(n) if self.readers.contains(&n) => {
                    let x = &r.expr;
                    Some(parse_quote!(&mut *#x))
                }
                _ => None,
            },
            Expr::Reference(r) => match strip_paren(&r.expr) {
                Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(q) if q.start.is_none() && q.end.is_none()) => {
                    let x = &i.expr;
                    Some(parse_quote!(#x.vx_as_ref()))
                }
                Expr::Field(x) if matches!(&x.member, syn::Member::Named(n) if self.cows.contains(&n.to_string())) => {
                    Some(parse_quote!(#x.vx_as_ref()))
                }
                _ => None,
            },
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && !self.proj.is_empty() => match strip_paren(&u.expr) {
                Expr::Field(f) if path_ident(&f.base).map(|n| self.proj.contains(&n) || n == "self").unwrap_or(false) => {
                    Some(Expr::Field(f.clone()))
                }
                _ => None,
            },
            Expr::Path(p) if p.path.get_ident().map(|i| self.proj.contains(&i.to_string())).unwrap_or(false) => {
                Some(parse_quote!(self))
            }
            Expr::Call(c) => {
                let f = squeeze(&c.func);
                if f == "Pin::new" && c.args.len() == 1 {
                    match &c.args[0] {
                        Expr::Reference(r) => Some((*r.expr).clone()),
                        x => Some(x.clone()),
                    }
                } else {
                    None
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => match strip_paren(&b.left) {
                Expr::Index(i) if matches!(strip_paren(&i.index), Expr::Range(_)) => {
                    let (l, r) = (&b.left, &b.right);
                    let r: Expr = match strip_paren(r) {
                        Expr::Reference(x) => (*x.expr).clone(),
                        _ => (**r).clone(),
                    };
                    if matches!(b.op, syn::BinOp::Eq(_)) {
                        Some(parse_quote!(vx_slice_eq(&#l, &#r)))
                    } else {
                        Some(parse_quote!((!vx_slice_eq(&#l, &#r))))
                    }
                }
                _ => None,
            },
            Expr::Match(m) => {
                let mut m2 = m.clone();
                let mut changed = false;
                for a in m2.arms.iter_mut() {
                    let cpath: Option<Expr> = match &a.pat {
                        Pat::Ident(p) if is_const_name(&p.ident.to_string()) => {
                            let i = &p.ident;
                            Some(parse_quote!(#i))
                        }
                        Pat::Path(p) if is_const_name(&p.path.segments.last().unwrap().ident.to_string()) => {
                            let p = &p.path;
                            Some(parse_quote!(#p))
                        }
                        _ => None,
                    };
                    if let Some(c) = cpath {
                        if a.guard.is_none() {
                            a.pat = parse_quote!(vx_c);
                            a.guard = Some((Default::default(), Box::new(parse_quote!(vx_c == #c))));
                            changed = true;
                        }
                    }
                }
                if changed {
                    Some(Expr::Match(m2))
                } else {
                    None
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("project", 0) if self.pin && path_ident(r).as_deref() == Some("self") => Some((**r).clone()),
                    ("read_to_end", 1) if method(r, "take").is_some() => {
                        let (x, n) = method(r, "take").unwrap();
                        let (n, b) = (n[0], &m.args[0]);
                        Some(parse_quote!(#x.vx_take_read_to_end(#n, #b)))
                    }
                    ("map_err", 1) => closure(&m.args[0]).filter(|(p, b)| p.len() == 1 && !uses_q(b)).map(|(p, b)| {
                        let p = match &p[0] {
                            Pat::Wild(_) => parse_quote!(vx_e),
                            p => p.clone(),
                        };
                        parse_quote!((match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) }))
                    }),
                    ("unwrap_or_else", 1) => closure(&m.args[0]).filter(|(_, b)| !uses_q(b)).map(|(p, b)| {
                        if p.is_empty() {
                            parse_quote!((match #r { Some(vx_v) => vx_v, None => #b }))
                        } else {
                            let p = &p[0];
                            parse_quote!((match #r { Ok(vx_v) => vx_v, Err(#p) => #b }))
                        }
                    }),
                    ("ok_or_else", 1) => closure(&m.args[0]).filter(|(p, b)| p.is_empty() && !uses_q(b)).map(|(_, b)| {
                        parse_quote!((match #r { Some(vx_v) => Ok(vx_v), None => Err(#b) }))
                    }),
                    ("unwrap_or_default", 0) => {
                        // Option<integer>: the default is 0
                        Some(parse_quote!((match #r { Some(vx_v) => vx_v, None => 0 })))
                    }
                    ("map", 1) => closure(&m.args[0])
                        .filter(|(p, b)| p.len() == 1 && !uses_q(b) && !squeeze(r).contains(".iter()"))
                        .map(|(p, b)| {
                            let p = match &p[0] {
                                Pat::Wild(_) => parse_quote!(vx_w),
                                p => p.clone(),
                            };
                            parse_quote!((match #r { Some(#p) => Some(#b), None => None }))
                        }),
                    _ => RENAME.iter().find(|(a, _)| *a == name).map(|(_, b)| {
                        let mut m2 = m.clone();
                        m2.method = format_ident!("{}", b);
                        Expr::MethodCall(m2)
                    }),
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// The body of `macro_rules! array_push`, lifted to a function of its three arguments.
pub fn lift_array_push(m: &syn::ItemMacro) -> Option<Func> {
    // ($arr:ident, $cursor:ident, $value:expr) => {{ BODY }};
    let tts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let mut groups = tts.iter().filter_map(|t| match t {
        TokenTree::Group(g) => Some(g.stream()),
        _ => None,
    });
    let params = squeeze(groups.next()?);
    let body = groups.next()?;
    if groups.next().is_some() || params != "$arr:ident,$cursor:ident,$value:expr" {
        return None;
    }
    fn subst(ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut i = 0;
        while i < v.len() {
            match (&v[i], v.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(id))) if p.as_char() == '$' => {
                    match id.to_string().as_str() {
                        "arr" => out.extend(quote!(arr)),
                        "cursor" => out.extend(quote!((*cursor))),
                        _ => out.extend(quote!(value)),
                    }
                    i += 2;
                    continue;
                }
                (TokenTree::Group(g), _) => {
                    out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream())))])
                }
                (t, _) => out.extend([t.clone()]),
            }
            i += 1;
        }
        out
    }
    let b = subst(body);
    let f: syn::ItemFn = syn::parse2(quote!(
        fn array_push_<const N: usize, const M: usize>(arr: &mut [u8; N], cursor: &mut usize, value: [u8; M]) { #b }
    ))
    .ok()?;
    Some(Func { file: String::new(), key: "array_push!".into(), sig: f.sig, block: *f.block, imp: None })
}

fn has_derive(attrs: &[syn::Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains(n))
}

pub fn emit_type(item: &syn::Item) -> String {
    let mut item = item.clone();
    Paths.visit_item_mut(&mut item);
    let mut derives: Vec<&str> = vec![];
    let attrs = match &item {
        syn::Item::Struct(s) => s.attrs.clone(),
        syn::Item::Enum(s) => s.attrs.clone(),
        _ => vec![],
    };
    if has_derive(&attrs, "Copy") {
        derives.extend(["Clone", "Copy"]);
    }
    if has_derive(&attrs, "Eq ") || has_derive(&attrs, "PartialEq") {
        derives.extend(["PartialEq", "Eq", "Structural"]);
    }
    match &mut item {
        syn::Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
        }
        syn::Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        _ => {}
    }
    let mut o = String::new();
    if !derives.is_empty() {
        o.push_str(&format!("#[derive({})]\n", derives.join(", ")));
    }
    let generics = match &item {
        syn::Item::Struct(s) => &s.generics,
        syn::Item::Enum(s) => &s.generics,
        _ => return o,
    };
    for p in generics.type_params() {
        o.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
    }
    o.push_str(&print::print(item.to_token_stream()).replace("'static VStr", "'static str"));
    o
}

pub fn emit_const((name, item): &(String, syn::Item)) -> String {
    let mut item = item.clone();
    Paths.visit_item_mut(&mut item);
    if let syn::Item::Const(c) = &mut item {
        c.attrs.clear();
        c.vis = parse_quote!(pub);
    }
    let t = print::print(item.to_token_stream());
    match name.split_once("::") {
        Some((ty, _)) => format!("impl {ty} {{ {t} }}"),
        None => t,
    }
}

fn rename_self(ts: TokenStream) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("slf", i.span())),
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

fn binds(p: &Pat, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'b syn::PatIdent) {
            if p.ident == self.0 {
                self.1 = true;
            }
        }
    }
    let mut v = V(name, false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.1
}

fn calls_in(s: &Stmt) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            syn::visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, c);
            self.0.push(c.method.to_string());
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.0
}

fn mark(i: usize) -> Stmt {
    let k = proc_macro2::Literal::usize_unsuffixed(i);
    parse_quote!(vx_proof!(#k);)
}

/// Inserts a proof-text marker at an anchor. `n` counts matches down to the wanted one.
struct Anchor<'a> {
    kind: &'a str,
    arg: &'a str,
    n: usize,
    idx: usize,
    found: bool,
}
impl<'a> VisitMut for Anchor<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.found {
                return;
            }
            let hit_inner_first = matches!(self.kind, "before-call" | "after-call" | "before-return");
            if hit_inner_first {
                let mut s = b.stmts[i].clone();
                self.visit_stmt_mut(&mut s);
                b.stmts[i] = s;
                if self.found {
                    return;
                }
            }
            let hit = match self.kind {
                "after" | "before" => matches!(&b.stmts[i], Stmt::Local(l) if binds(&l.pat, self.arg)),
                "before-call" | "after-call" => {
                    // of a compound statement only the head counts, and only as something to go before
                    let head: Option<Stmt> = match &b.stmts[i] {
                        Stmt::Expr(Expr::If(x), _) => Some(Stmt::Expr((*x.cond).clone(), None)),
                        Stmt::Expr(Expr::Match(x), _) => Some(Stmt::Expr((*x.expr).clone(), None)),
                        Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::Block(_), _) => None,
                        s => Some(s.clone()),
                    };
                    let compound = matches!(&b.stmts[i], Stmt::Expr(Expr::If(_) | Expr::Match(_), _));
                    !(compound && self.kind == "after-call")
                        && head.map(|h| calls_in(&h).iter().any(|c| c == self.arg)).unwrap_or(false)
                }
                "before-return" => matches!(&b.stmts[i], Stmt::Expr(Expr::Return(_), _)),
                _ => false,
            };
            if hit {
                if self.n == 0 {
                    let at = if self.kind.starts_with("after") { i + 1 } else { i };
                    b.stmts.insert(at, mark(self.idx));
                    self.found = true;
                    return;
                }
                self.n -= 1;
            }
            if !hit_inner_first {
                let mut s = b.stmts[i].clone();
                self.visit_stmt_mut(&mut s);
                b.stmts[i] = s;
            }
            i += 1;
        }
    }
}

/// Finds loop K through its invariant marker and adds a marker at the start or end of its body.
struct LoopAnchor {
    k: usize,
    end: bool,
    idx: usize,
    found: bool,
}
impl VisitMut for LoopAnchor {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let is = b.stmts.first().map(|s| squeeze(s) == format!("vx_inv!({});", self.k)).unwrap_or(false);
        if is {
            if self.end {
                // a trailing `if`/`match` is a statement of type (): text may follow it
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                b.stmts.push(mark(self.idx));
            } else {
                b.stmts.insert(1, mark(self.idx));
            }
            self.found = true;
            return;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// Adds a marker directly after loop K.
struct AfterLoop {
    k: usize,
    idx: usize,
    found: bool,
}
impl VisitMut for AfterLoop {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let want = format!("vx_inv!({});", self.k);
        for i in 0..b.stmts.len() {
            let body = match &b.stmts[i] {
                Stmt::Expr(Expr::While(w), _) => &w.body,
                Stmt::Expr(Expr::Loop(w), _) => &w.body,
                _ => continue,
            };
            if body.stmts.first().map(|s| squeeze(s) == want).unwrap_or(false) {
                b.stmts.insert(i + 1, mark(self.idx));
                self.found = true;
                return;
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

fn apply_maps(mut s: String, maps: &[(String, String)], missing: &mut Vec<String>) -> String {
    for (a, b) in maps {
        // whitespace-insensitive replacement on the printed text
        let strip = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let pat = strip(a);
        let mut out = String::new();
        let mut hit = false;
        loop {
            let idx: Vec<(usize, char)> = s.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
            let flat: String = idx.iter().map(|x| x.1).collect();
            match flat.find(&pat) {
                None => {
                    out.push_str(&s);
                    break;
                }
                Some(p) => {
                    hit = true;
                    let cp = flat[..p].chars().count();
                    let n = pat.chars().count();
                    let st = idx[cp].0;
                    let en = idx[cp + n - 1].0 + idx[cp + n - 1].1.len_utf8();
                    out.push_str(&s[..st]);
                    out.push_str(b);
                    s = s[en..].to_string();
                }
            }
        }
        if !hit {
            missing.push(format!("map {a}"));
        }
        s = out;
    }
    s
}

fn type_of_imp(imp: &syn::ItemImpl) -> String {
    match &*imp.self_ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        t => squeeze(t),
    }
}

pub fn desugar_fn(f: &Func, e: &Entry, stub: bool) -> Result<Out, String> {
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    sig.asyncness = None;
    sig.unsafety = None;
    sig.constness = None;
    let mut readers = vec![];
    let mut generic_readers: Vec<String> = vec![];
    let mut scan = |g: &syn::Generics| {
        let ok = |b: &Bounds| bound_names(b).iter().any(|n| n.starts_with("Async") && n.contains("Read"));
        for p in g.type_params() {
            if ok(&p.bounds) {
                generic_readers.push(p.ident.to_string());
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let syn::WherePredicate::Type(t) = p {
                    if ok(&t.bounds) {
                        generic_readers.push(squeeze(&t.bounded_ty));
                    }
                }
            }
        }
    };
    scan(&sig.generics);
    let (mut mut_params, mut arr_params) = (vec![], vec![]);
    let mut mut_self = false;
    let mut pin = false;
    let mut unused = 0u32;
    for a in sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Receiver(r) => {
                let t = squeeze(&r.ty);
                if t == "Pin<&mut Self>" {
                    pin = true;
                    *a = parse_quote!(&mut self);
                } else if r.reference.is_none() && r.mutability.is_some() {
                    mut_self = true;
                    *a = parse_quote!(self);
                }
            }
            syn::FnArg::Typed(p) => {
                let t = squeeze(&p.ty);
                if matches!(&*p.pat, Pat::Wild(_)) {
                    let id = format_ident!("vx_unused{}", unused);
                    unused += 1;
                    *p.pat = parse_quote!(#id);
                }
                let name = match &*p.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => continue,
                };
                if generic_readers.contains(&t) {
                    let ty = p.ty.clone();
                    p.ty = parse_quote!(&mut #ty);
                    let id = format_ident!("{}", name);
                    *p.pat = parse_quote!(#id);
                    readers.push(name);
                } else if t.starts_with("&mut ") || t.starts_with("&mut[") || (t.starts_with("&'") && t.contains(" mut ")) {
                    let inner = t.split("mut ").nth(1).unwrap_or("");
                    if generic_readers.iter().any(|g| g == inner) {
                        let id = format_ident!("{}", name);
                        *p.pat = parse_quote!(#id);
                        readers.push(name.clone());
                    }
                    mut_params.push(name);
                } else if t.starts_with('[') {
                    arr_params.push(name);
                }
            }
        }
    }

    let mut missing = vec![];
    let (mut known, mut known_gone) = (vec![], vec![]);
    let mut kinds = vec![];
    let mut calls = BTreeSet::new();
    let body_text;
    if stub {
        body_text = "{ unimplemented!() }".to_string();
    } else {
        let mut rw = Rw { counter: 0, kinds: vec![], readers, cows: crate::repo::COWS.lock().unwrap().iter().filter(|c| c.0 == f.file).map(|c| c.1.clone()).collect(), mut_params, arr_params, proj: vec![], pin };
        rw.visit_block_mut(&mut block);
        Paths.visit_block_mut(&mut block);
        kinds = rw.kinds;
        for (i, (anchor, _)) in e.at.iter().enumerate() {
            let w: Vec<&str> = anchor.split_whitespace().collect();
            let n = |k: usize| w.get(k).and_then(|s| s.parse::<usize>().ok()).unwrap_or(0);
            let found = match w[0] {
                "start" => {
                    block.stmts.insert(0, mark(i));
                    true
                }
                "end" => {
                    if matches!(sig.output, syn::ReturnType::Default) {
                        if let Some(Stmt::Expr(_, semi @ None)) = block.stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                    }
                    let at = match block.stmts.last() {
                        Some(Stmt::Expr(_, None)) => block.stmts.len() - 1,
                        _ => block.stmts.len(),
                    };
                    block.stmts.insert(at, mark(i));
                    true
                }
                "loopstart" | "loopend" => {
                    let mut a = LoopAnchor { k: n(1), end: w[0] == "loopend", idx: i, found: false };
                    a.visit_block_mut(&mut block);
                    a.found
                }
                "loopafter" => {
                    let mut a = AfterLoop { k: n(1), idx: i, found: false };
                    a.visit_block_mut(&mut block);
                    a.found
                }
                k @ ("after" | "before" | "before-call" | "after-call") => {
                    let mut a = Anchor { kind: k, arg: w[1], n: n(2), idx: i, found: false };
                    a.visit_block_mut(&mut block);
                    a.found
                }
                k @ "before-return" => {
                    let mut a = Anchor { kind: k, arg: "", n: n(1), idx: i, found: false };
                    a.visit_block_mut(&mut block);
                    a.found
                }
                _ => return Err(format!("bad anchor {anchor}")),
            };
            if !found {
                missing.push(format!("at {anchor}"));
            }
        }
        if mut_self {
            block.stmts.insert(0, parse_quote!(let mut slf = vx_self;));
        }
        // calls
        for s in &block.stmts {
            struct V<'a>(&'a mut BTreeSet<String>, String);
            impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
                fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
                    syn::visit::visit_expr_call(self, c);
                    if let Expr::Path(p) = &*c.func {
                        let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if v.len() >= 2 {
                            let t = if v[v.len() - 2] == "Self" { self.1.clone() } else { v[v.len() - 2].clone() };
                            self.0.insert(format!("{t}::{}", v[v.len() - 1]));
                        } else {
                            self.0.insert(v[0].clone());
                        }
                    }
                }
                fn visit_expr_method_call(&mut self, c: &'b syn::ExprMethodCall) {
                    syn::visit::visit_expr_method_call(self, c);
                    self.0.insert(c.method.to_string());
                }
            }
            let ty = f.imp.as_ref().map(type_of_imp).unwrap_or_default();
            syn::visit::Visit::visit_stmt(&mut V(&mut calls, ty), s);
        }
        let mut ts = block.to_token_stream();
        if mut_self {
            ts = rename_self(ts);
        }
        let mut t = print::print(ts);
        t = apply_maps(t, &e.maps, &mut missing);
        for (id, a, b) in &e.known {
            let mut m = vec![];
            t = apply_maps(t, &[(a.clone(), b.clone())], &mut m);
            if m.is_empty() { known.push(id.clone()) } else { known_gone.push(id.clone()) }
        }
        t = t.replace("vx_self", "self");
        // invariants
        for k in 0..rw.counter {
            let m = format!("vx_inv !(%s)").replace("%s", &k.to_string());
            let pos = t.find(&m).or_else(|| None);
            if let Some(p) = pos {
                let brace = t[..p].rfind('{').unwrap();
                let after = p + m.len();
                let rest = t[after..].trim_start_matches([' ', ';', '\n']).to_string();
                let invt = e.loops.get(&k).cloned().unwrap_or_default();
                t = format!("{}\n{}\n{{\n{}", t[..brace].trim_end(), invt.trim_end(), rest);
            }
        }
        for k in e.loops.keys() {
            if *k >= rw.counter {
                missing.push(format!("loop {k}"));
            }
        }
        for (i, (_, text)) in e.at.iter().enumerate() {
            let m = format!("vx_proof !({i}) ;");
            let m2 = format!("vx_proof !({i});");
            t = t.replace(&m, &format!("\n{}", text)).replace(&m2, &format!("\n{}", text));
        }
        let re = |t: String, name: &str, f: &dyn Fn(&str) -> String| -> String {
            let mut t = t;
            let pat = format!("{name} !(");
            while let Some(p) = t.find(&pat) {
                let close = t[p..].find(')').unwrap() + p;
                let arg = t[p + pat.len()..close].trim().to_string();
                let mut end = close + 1;
                while t[end..].starts_with([' ', ';']) {
                    end += 1;
                }
                t = format!("{}{}{}", &t[..p], f(&arg), &t[end..]);
            }
            t
        };
        t = re(t, "vx_ghost_decl", &|g| format!("let ghost mut {g}: int = 0;"));
        t = re(t, "vx_ghost_first", &|k| {
            format!("let ghost vx_f{k} = *vx_first; let ghost vx_ff{k} = *final(vx_first); let ghost vx_tf{k} = final(vx_s{k})@;")
        });
        t = re(t, "vx_ghost_seqs", &|k| format!("let ghost vx_v{k} = vx_s{k}@; let ghost vx_vf{k} = final(vx_s{k})@;"));
        t = re(t, "vx_ghost_inc", &|g| format!("proof {{ {g} = {g} + 1; }}"));
        // hide(..) has to come first
        if let Some(p0) = t.find("\nhide(") {
            let end = p0 + 1 + t[p0 + 1..].find('\n').unwrap();
            let line = t[p0 + 1..end].to_string();
            let rest = format!("{}{}", &t[..p0], &t[end..]);
            let b = rest.find('{').unwrap();
            t = format!("{{ {line}{}", &rest[b + 1..]);
        }
        // vacuity check: with a satisfiable precondition this assertion must fail
        if std::env::var("VX_VACUITY").is_ok() {
            if let Some(mut p) = t.find('{') {
                // hide(..) has to stay in front
                loop {
                    let rest = &t[p + 1..];
                    let w = rest.len() - rest.trim_start().len();
                    match rest.trim_start().strip_prefix("hide(").and_then(|r| r.find(';')) {
                        Some(k) => p += w + "hide(".len() + k + 1,
                        None => break,
                    }
                }
                // (the rest of the body plays no part in this question)
                t = format!("{} assert(false); vstd::pervasive::unreached() }}", &t[..p + 1]);
            }
        }
        body_text = t;
    }

    // signature
    {
        let mut it: syn::ItemFn = syn::ItemFn { attrs: vec![], vis: parse_quote!(pub), sig: sig.clone(), block: parse_quote!({}) };
        Paths.visit_item_fn_mut(&mut it);
        sig = it.sig;
    }
    let g = &sig.generics;
    let (ig, _, wc) = (g.params.to_token_stream(), (), g.where_clause.clone());
    let ig = if g.params.is_empty() { quote!() } else { quote!(<#ig>) };
    let inputs = &sig.inputs;
    let id = match &e.rename { Some(n) => syn::Ident::new(n, sig.ident.span()), None => sig.ident.clone() };
    let ret = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", e.ret, print::print(t.to_token_stream()).trim()),
    };
    let in_trait = f.imp.as_ref().map(|i| i.trait_.is_some() && !e.inherent).unwrap_or(false);
    let mut text = String::new();
    if !e.attrs.trim().is_empty() {
        text.push_str(&e.attrs);
    }
    if stub {
        text.push_str("#[verifier::external_body]\n");
    }
    let mut head = format!(
        "{}fn {}{}({}){}\n{}",
        if in_trait { "" } else { "pub " },
        id,
        print::print(ig),
        print::print(inputs.to_token_stream()).trim(),
        ret,
        wc.map(|w| print::print(w.to_token_stream())).unwrap_or_default(),
    );
    head = apply_maps(head, &e.sigmaps, &mut missing);
    text.push_str(&head);
    text.push('\n');
    text.push_str(&e.contract);
    text.push_str(&body_text);
    text.push('\n');
    if let Some(imp) = &f.imp {
        let mut i2 = imp.clone();
        i2.items.clear();
        i2.attrs.clear();
        if e.inherent {
            i2.trait_ = None;
        }
        let mut item = syn::Item::Impl(i2);
        Paths.visit_item_mut(&mut item);
        let i2 = match item {
            syn::Item::Impl(i) => i,
            _ => unreachable!(),
        };
        let gp = &i2.generics.params;
        let gp = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
        let st = &i2.self_ty;
        let wc = &i2.generics.where_clause;
        let tr = i2.trait_.as_ref().map(|(_, p, _)| quote!(#p for));
        let h = print::print(quote!(impl #gp #tr #st #wc));
        return Ok(Out { head: Some(h.trim().to_string()), is_trait: in_trait, text, calls, loop_kinds: kinds, missing, known, known_gone });
    }
    Ok(Out { head: None, is_trait: false, text, calls, loop_kinds: kinds, missing, known, known_gone })
}
