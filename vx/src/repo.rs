//! Index of the functions, types and constants of the current source tree (all features on, test code off).
use quote::ToTokens;
use syn::visit_mut::VisitMut;

pub struct Func {
    pub file: String,
    pub key: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub imp: Option<syn::ItemImpl>,
}

pub struct Repo {
    pub funcs: Vec<Func>,
    pub types: Vec<(String, String, syn::Item)>,
    pub consts: Vec<(String, String, syn::Item)>,
    pub macros: Vec<(String, syn::ItemMacro)>,
}

/// Evaluates a cfg predicate with every feature on, `test`, `doc`, `docsrs`, `kani` and verification hooks off.
fn cfg_eval(meta: &syn::Meta) -> bool {
    fn list(l: &syn::MetaList) -> Vec<syn::Meta> {
        l.parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default()
    }
    match meta {
        syn::Meta::Path(_) => false,
        syn::Meta::NameValue(nv) => nv.path.is_ident("feature"),
        syn::Meta::List(l) if l.path.is_ident("any") => list(l).iter().any(cfg_eval),
        syn::Meta::List(l) if l.path.is_ident("all") => list(l).iter().all(cfg_eval),
        syn::Meta::List(l) if l.path.is_ident("not") => !list(l).iter().any(cfg_eval),
        _ => false,
    }
}

pub fn keep(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<syn::Meta>() {
                Ok(m) => cfg_eval(&m),
                Err(_) => true,
            }
        } else {
            true
        }
    })
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs,
        Call(x) => &x.attrs,
        If(x) => &x.attrs,
        Match(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Unsafe(x) => &x.attrs,
        Return(x) => &x.attrs,
        _ => &[],
    }
}

/// Removes what cfg turns off, and every other attribute.
pub struct CfgStrip;
impl VisitMut for CfgStrip {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => keep(&l.attrs),
            syn::Stmt::Expr(e, _) => keep(expr_attrs(e)),
            syn::Stmt::Macro(m) => keep(&m.attrs),
            syn::Stmt::Item(syn::Item::Use(_)) => false,
            syn::Stmt::Item(_) => true,
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        m.arms.retain(|a| keep(&a.attrs));
        syn::visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        let f = std::mem::take(&mut s.fields);
        s.fields = f.into_iter().filter(|f| keep(&f.attrs)).collect();
        syn::visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_fields_named_mut(&mut self, s: &mut syn::FieldsNamed) {
        let f = std::mem::take(&mut s.named);
        s.named = f.into_iter().filter(|f| keep(&f.attrs)).collect();
        syn::visit_mut::visit_fields_named_mut(self, s);
    }
    fn visit_item_enum_mut(&mut self, s: &mut syn::ItemEnum) {
        let f = std::mem::take(&mut s.variants);
        s.variants = f.into_iter().filter(|f| keep(&f.attrs)).collect();
        syn::visit_mut::visit_item_enum_mut(self, s);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.retain(|a| a.path().is_ident("derive"));
    }
}

pub fn squeeze(t: impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    for (i, c) in b.iter().enumerate() {
        if *c == ' ' {
            let p = i.checked_sub(1).map(|k| b[k]).unwrap_or(' ');
            let n = b.get(i + 1).copied().unwrap_or(' ');
            if (p.is_alphanumeric() || p == '_') && (n.is_alphanumeric() || n == '_') {
                o.push(' ');
            }
        } else {
            o.push(*c);
        }
    }
    o
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        t => squeeze(t),
    }
}

/// (file, field): the fields whose type is `Cow<[u8]>`; `&x.field` is a coercion to a slice there
pub static COWS: std::sync::Mutex<Vec<(String, String)>> = std::sync::Mutex::new(vec![]);

impl Repo {
    pub fn load(root: &str) -> Result<Repo, String> {
        let mut r = Repo { funcs: vec![], types: vec![], consts: vec![], macros: vec![] };
        let mut stack = vec![std::path::PathBuf::from(root)];
        let mut files = vec![];
        while let Some(d) = stack.pop() {
            for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
                let p = e.map_err(|e| e.to_string())?.path();
                if p.is_dir() {
                    if p.file_name().and_then(|n| n.to_str()) != Some("tests") {
                        stack.push(p);
                    }
                } else if p.extension().and_then(|e| e.to_str()) == Some("rs") {
                    files.push(p);
                }
            }
        }
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            let ast = syn::parse_file(&text).map_err(|e| format!("{}: {e}", f.display()))?;
            let rel = f.strip_prefix(root).unwrap().to_string_lossy().to_string();
            r.items(&rel, ast.items);
        }
        Ok(r)
    }
    fn items(&mut self, file: &str, items: Vec<syn::Item>) {
        for mut it in items {
            let attrs: &[syn::Attribute] = match &it {
                syn::Item::Fn(x) => &x.attrs,
                syn::Item::Impl(x) => &x.attrs,
                syn::Item::Mod(x) => &x.attrs,
                syn::Item::Struct(x) => &x.attrs,
                syn::Item::Enum(x) => &x.attrs,
                syn::Item::Const(x) => &x.attrs,
                syn::Item::Trait(x) => &x.attrs,
                syn::Item::Macro(x) => &x.attrs,
                syn::Item::Type(x) => &x.attrs,
                _ => &[],
            };
            if !keep(attrs) {
                continue;
            }
            if let syn::Item::Struct(x) = &it {
                for f in &x.fields {
                    if let (Some(i), true) = (&f.ident, squeeze(&f.ty).starts_with("Cow<")) {
                        COWS.lock().unwrap().push((file.to_string(), i.to_string()));
                    }
                }
            }
            match &mut it {
                syn::Item::Fn(_) | syn::Item::Impl(_) | syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) => {
                    CfgStrip.visit_item_mut(&mut it)
                }
                _ => {}
            }
            match it {
                syn::Item::Fn(f) => self.funcs.push(Func {
                    file: file.into(),
                    key: f.sig.ident.to_string(),
                    sig: f.sig,
                    block: *f.block,
                    imp: None,
                }),
                syn::Item::Impl(mut i) => {
                    let ty = type_name(&i.self_ty);
                    let items = std::mem::take(&mut i.items);
                    for m in items {
                        match m {
                            syn::ImplItem::Fn(f) if keep(&f.attrs) => {
                                let key = match &i.trait_ {
                                    None => format!("{ty}::{}", f.sig.ident),
                                    Some((_, p, _)) => {
                                        let last = p.segments.last().unwrap();
                                        format!("<{ty} as {}>::{}", squeeze(last), f.sig.ident)
                                    }
                                };
                                self.funcs.push(Func {
                                    file: file.into(),
                                    key,
                                    sig: f.sig,
                                    block: f.block,
                                    imp: Some(i.clone()),
                                });
                            }
                            syn::ImplItem::Const(c) => {
                                let id = c.ident.clone();
                                let (t, e) = (&c.ty, &c.expr);
                                let item: syn::Item = syn::parse_quote!(pub const #id: #t = #e;);
                                self.consts.push((file.into(), format!("{ty}::{id}"), item));
                            }
                            _ => {}
                        }
                    }
                }
                syn::Item::Struct(ref s) => self.types.push((s.ident.to_string(), file.into(), it)),
                syn::Item::Enum(ref s) => self.types.push((s.ident.to_string(), file.into(), it)),
                syn::Item::Const(ref c) => self.consts.push((file.into(), c.ident.to_string(), it)),
                syn::Item::Mod(m) => {
                    if let Some((_, items)) = m.content {
                        self.items(file, items)
                    }
                }
                syn::Item::Macro(m) => {
                    if let Some(i) = &m.ident {
                        self.macros.push((i.to_string(), m.clone()));
                        if i == "array_push" {
                            if let Some(f) = crate::desugar::lift_array_push(&m) {
                                self.funcs.push(Func { file: file.into(), ..f });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    pub fn find_fn(&self, key: &str, file: Option<&str>) -> Result<&Func, String> {
        // KEY@TAG: several types of that name, told apart by the entry's file
        let key = key.split_once('@').map(|k| k.0).unwrap_or(key);
        let all: Vec<&Func> = self.funcs.iter().filter(|f| f.key == key).collect();
        let narrowed: Vec<&Func> = match file {
            Some(p) => {
                let n: Vec<&Func> = all.iter().copied().filter(|f| f.file == p).collect();
                if n.is_empty() {
                    all
                } else {
                    n
                }
            }
            None => all,
        };
        match narrowed.len() {
            1 => Ok(narrowed[0]),
            0 => Err("not found in the source tree".into()),
            n => Err(format!("ambiguous ({n} definitions)")),
        }
    }
    pub fn find_type(&self, name: &str) -> Option<&syn::Item> {
        let (name, file) = name.split_once('@').unwrap_or((name, ""));
        let of = |f: &str| self.types.iter().find(|(n, g, _)| n == name && (f.is_empty() || f == g));
        of(file).or_else(|| of("")).map(|x| &x.2)
    }
    pub fn find_consts(&self, name: &str) -> Vec<(String, syn::Item)> {
        self.consts
            .iter()
            .filter(|(f, n, _)| n == name || name.strip_suffix("/*").map(|p| p == f && !n.contains("::")).unwrap_or(false))
            .map(|(_, n, i)| (n.clone(), i.clone()))
            .collect()
    }
}
