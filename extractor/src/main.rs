//! Mechanical extraction of the crate under test (macro-expanded by rustc) into
//! the dialect the Verus verifier accepts. See DESIGN.md, "Extraction", for the
//! list of rewrites; every rewrite is counted in the report.
//!
//! usage: extractor EXPANDED.rs KEYS.txt OUT.rs REPORT.txt
mod derived;
mod inline;
mod rewrite;
mod print;

use std::collections::{BTreeMap, BTreeSet};
use syn::*;
use quote::{quote, ToTokens};

#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<&'static str, usize>,
    pub lines: Vec<String>,
}
impl Report {
    pub fn hit(&mut self, k: &'static str) { *self.counts.entry(k).or_default() += 1; }
}

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub name: String,
    pub self_ty: Option<String>,
    pub sig: Signature,
    pub block: Block,
}

pub struct Cx {
    /// key -> mode ("verify" | "extern")
    pub keys: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnInfo>,
    pub derived_eq: BTreeSet<String>,
    pub derived_copy: BTreeSet<String>,
    pub dropped_fields: BTreeSet<String>,
    pub report: Report,
    pub mods: BTreeSet<String>,
    /// traits the crate itself defines
    pub local_traits: BTreeSet<String>,
    /// (module, type) -> functions of flattened impls of foreign traits, by name
    pub flat: BTreeMap<(String, String), BTreeMap<String, String>>,
    /// (type, field) -> name of the field's type
    pub fields: BTreeMap<(String, String), String>,
    /// names of type parameters of impls
    pub impl_gens: Vec<String>,
}

/// Simple name of a type: last path segment, through references.
pub fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_name(&r.elem),
        Type::Paren(p) => ty_name(&p.elem),
        Type::Group(p) => ty_name(&p.elem),
        Type::Slice(p) => format!("[{}]", ty_name(&p.elem)),
        Type::Array(p) => format!("[{};N]", ty_name(&p.elem)),
        Type::Tuple(p) => format!("({})", p.elems.iter().map(ty_name).collect::<Vec<_>>().join(",")),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

pub fn impl_prefix(modpath: &str, i: &ItemImpl) -> String {
    let mut st = ty_name(&i.self_ty);
    // a reference to a type parameter is no type of its own name
    if let Type::Reference(r) = &*i.self_ty {
        if i.generics.type_params().any(|t| t.ident == st.as_str()) { st = format!("{}{}", if r.mutability.is_some() { "&mut " } else { "&" }, st); }
    }
    let m = if modpath.is_empty() { String::new() } else { format!("{}::", modpath) };
    match &i.trait_ {
        None => format!("{}{}::", m, st),
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            let mut tn = seg.ident.to_string();
            if tn == "From" || tn == "Into" {
                if let PathArguments::AngleBracketed(a) = &seg.arguments {
                    tn = format!("{}<{}>", tn, a.args.iter().map(|x| match x {
                        GenericArgument::Type(t) => ty_name(t), _ => String::new() }).collect::<Vec<_>>().join(","));
                }
            }
            format!("{}{} as {}::", m, st, tn)
        }
    }
}

fn collect(cx: &mut Cx, modpath: &str, items: &[Item]) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, its)) = &m.content {
                let p = if modpath.is_empty() { m.ident.to_string() } else { format!("{}::{}", modpath, m.ident) };
                collect(cx, &p, its);
            },
            Item::Fn(f) => {
                let key = if modpath.is_empty() { f.sig.ident.to_string() } else { format!("{}::{}", modpath, f.sig.ident) };
                cx.fns.insert(key.clone(), FnInfo { key, name: f.sig.ident.to_string(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone() });
            }
            Item::Trait(t) => { cx.local_traits.insert(t.ident.to_string()); }
            Item::Struct(t) => for (n, f) in t.fields.iter().enumerate() {
                let id = f.ident.as_ref().map(|i| i.to_string()).unwrap_or(n.to_string());
                cx.fields.insert((t.ident.to_string(), id), ty_name(&f.ty));
            },
            Item::Impl(i) => {
                for t in i.generics.type_params() { let n = t.ident.to_string(); if !cx.impl_gens.contains(&n) { cx.impl_gens.push(n); } }
                if is_derived(&i.attrs) {
                    if let Some((_, p, _)) = &i.trait_ {
                        if p.segments.last().unwrap().ident == "PartialEq" {
                            cx.derived_eq.insert(ty_name(&i.self_ty));
                        }
                        if p.segments.last().unwrap().ident == "Copy" {
                            cx.derived_copy.insert(ty_name(&i.self_ty));
                        }
                    }
                    continue;
                }
                let pre = impl_prefix(modpath, i);
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if let (Some((_, p, _)), true) = (&i.trait_, modpath.starts_with("serde")) {
                            let tn = p.segments.last().unwrap().ident.to_string();
                            let e = cx.flat.entry((modpath.to_string(), ty_name(&i.self_ty))).or_default();
                            e.insert(f.sig.ident.to_string(), format!("{}__{}", tn, f.sig.ident));
                            e.insert(format!("{}::{}", tn, f.sig.ident), format!("{}__{}", tn, f.sig.ident));
                        }
                        let key = format!("{}{}", pre, f.sig.ident);
                        cx.fns.insert(key.clone(), FnInfo { key, name: f.sig.ident.to_string(), self_ty: Some(ty_name(&i.self_ty)), sig: f.sig.clone(), block: f.block.clone() });
                    }
                }
            }
            _ => {}
        }
    }
}

pub fn mentions_dyn(t: &Type) -> bool {
    t.to_token_stream().into_iter().any(|x| has_dyn(x))
}
fn has_dyn(t: proc_macro2::TokenTree) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == "dyn",
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(has_dyn),
        _ => false,
    }
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{TokenTree, Group, Ident};
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(Ident::new("__vx_self", i.span())),
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename_self(g.stream())); n.set_span(g.span()); TokenTree::Group(n) }
        t => t,
    }).collect()
}

fn pubify() -> Visibility { parse_quote!(pub) }

fn clean_generics(g: &mut Generics) {
    if let Some(w) = &mut g.where_clause {
        let keep: punctuated::Punctuated<WherePredicate, Token![,]> = w.predicates.iter()
            .filter(|p| !p.to_token_stream().into_iter().any(has_dyn)).cloned().collect();
        w.predicates = keep;
        if w.predicates.is_empty() { g.where_clause = None; }
    }
}

fn do_fn(cx: &mut Cx, key: &str, mut sig: Signature, block: Block, vis_pub: bool) -> proc_macro2::TokenStream {
    let mode = cx.keys[key].clone();
    // drop params whose type mentions dyn
    let n0 = sig.inputs.len();
    let kept: punctuated::Punctuated<FnArg, Token![,]> = sig.inputs.iter()
        .filter(|a| match a { FnArg::Typed(t) => !mentions_dyn(&t.ty), _ => true }).cloned().collect();
    if kept.len() != n0 { cx.report.hit("param of dyn type dropped"); }
    sig.inputs = kept;
    clean_generics(&mut sig.generics);
    // `_` is not in the verifier's dialect as a parameter
    for (n, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a { if matches!(&*t.pat, Pat::Wild(_)) { let id = Ident::new(&format!("__p{}", n), proc_macro2::Span::call_site()); *t.pat = parse_quote!(#id); } }
    }
    let params: Vec<String> = sig.inputs.iter().map(|a| match a {
        FnArg::Receiver(_) => "self".to_string(),
        FnArg::Typed(t) => match &*t.pat { Pat::Ident(i) => i.ident.to_string(), p => p.to_token_stream().to_string() },
    }).collect();
    // `impl Trait`-free signatures are assumed; strip attrs
    for a in sig.inputs.iter_mut() {
        match a { FnArg::Receiver(r) => r.attrs.clear(), FnArg::Typed(t) => t.attrs.clear() }
    }
    {
        use syn::visit_mut::VisitMut;
        rewrite::Paths.visit_signature_mut(&mut sig);
    }
    let mut block = block;
    { use syn::visit_mut::VisitMut; rewrite::Paths.visit_block_mut(&mut block); }
    if key.starts_with("known_schema") { use syn::visit_mut::VisitMut; let mut a = rewrite::Addr { hits: 0 }; a.visit_block_mut(&mut block); for _ in 0..a.hits { cx.report.hit("function address as the identity of its type"); } }
    // a bound which only the address of a function needed
    if key.starts_with("known_schema") && !key.contains(" as ") && !block.to_token_stream().to_string().replace(' ', "").contains("::schema(") {
        for g in sig.generics.type_params_mut() {
            let keep: punctuated::Punctuated<TypeParamBound, Token![+]> = g.bounds.iter().filter(|b| b.to_token_stream().to_string() != "KnownSchema").cloned().collect();
            if keep.len() != g.bounds.len() { cx.report.hit("bound KnownSchema dropped where only the address of `schema` is taken"); }
            g.bounds = keep;
            if g.bounds.is_empty() { g.colon_token = None; }
        }
    }
    // `mut self` is not in the verifier's dialect
    let mut mutself = false;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = a { if r.reference.is_none() && r.mutability.is_some() { r.mutability = None; mutself = true; } }
    }
    if mutself {
        cx.report.hit("mut self rebound");
        let ts = rename_self(block.to_token_stream());
        let b: Block = parse2(ts).unwrap();
        let st = b.stmts;
        block = parse_quote!({ let mut __vx_self = self; #(#st)* });
    }
    let mut inlined = vec![];
    let mut nloops = 0;
    let mut locals = vec![];
    if mode == "extern" {
        block = parse_quote!({ unimplemented!() });
    } else {
        // a body the rewrites cannot cope with loses its proof only
        let ret_result = matches!(&sig.output, ReturnType::Type(_, t) if matches!(&**t, Type::Path(p) if p.path.segments.last().unwrap().ident == "Result"));
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            locals = rewrite::locals(&block);
            inline::inline_calls(cx, key, &sig, if mutself { "__vx_self" } else { "self" }, &mut block, &mut inlined);
            rewrite::rewrite_block(cx, &mut block, key, &mut nloops, ret_result);
        }));
        if done.is_err() {
            cx.report.lines.push(format!("PANIC\t{}", key));
            block = parse_quote!({ unimplemented!() });
        }
    }
    let ext = if mode == "extern" { quote!(#[verifier::external_body]) } else { quote!() };
    cx.report.lines.push(format!("FN\t{}\t{}\t{}\t{}\t{}\t{}", key, mode, params.join(","), nloops, inlined.join(","), locals.join(",")));
    let v = if vis_pub { quote!(pub) } else { quote!() };
    let ret = match &sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
    sig.output = ReturnType::Default;
    let wc = sig.generics.where_clause.take();
    let stmts = &block.stmts;
    let keylit = key;
    quote! {
        #ext __vx_fn!(#keylit); #v #sig -> (__VXRET: #ret) #wc { __vx_contract!(#keylit); #(#stmts)* }
    }
}

/// An impl of a foreign trait (serde's) becomes inherent functions named
/// `Trait__function`. Where the implementing type is `&'c mut T`, `self` becomes
/// `&'c mut self` of T, `&mut self` (which would be `&mut &'c mut T`) becomes
/// `&mut self` of T, and `**self` becomes `*self`. Associated types are replaced
/// by their definitions.
struct Flat { self_ty: Type, assoc: BTreeMap<String, Type>, by_ref: bool, calls: BTreeMap<String, String> }
impl syn::visit_mut::VisitMut for Flat {
    fn visit_receiver_mut(&mut self, _: &mut Receiver) {}
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some(d) = self.assoc.get(&p.path.segments[1].ident.to_string()) { *t = d.clone(); self.visit_type_mut(t); return; }
            }
            if p.qself.is_none() && p.path.is_ident("Self") { *t = self.self_ty.clone(); return; }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                if let Some(n) = self.calls.get(&m.method.to_string()) { m.method = Ident::new(n, m.method.span()); }
            }
        }
        // `Trait::function(self, ..)`
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), Some(a)) = (&*c.func, c.args.first()) {
                let k = p.path.segments.len();
                if k >= 2 && matches!(a, Expr::Path(p) if p.path.is_ident("self")) {
                    if let Some(n) = self.calls.get(&format!("{}::{}", p.path.segments[k - 2].ident, p.path.segments[k - 1].ident)) {
                        let id = Ident::new(n, proc_macro2::Span::call_site());
                        let rest: Vec<&Expr> = c.args.iter().skip(1).collect();
                        *e = parse_quote!(self.#id(#(#rest),*));
                    }
                }
            }
        }
        if self.by_ref {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: x, .. }) = &**expr {
                    if matches!(&**x, Expr::Path(p) if p.path.is_ident("self")) { *e = parse_quote!(*self); }
                }
            }
        }
    }
}
fn foreign(cx: &Cx, modpath: &str, i: &ItemImpl) -> bool {
    // the conversion of I/O errors: verified as a function of its own, as vstd has a contract of its own for `From`
    if modpath == "error" && matches!(&i.trait_, Some((_, p, _)) if p.segments.last().unwrap().ident == "From") { return true; }
    modpath.starts_with("serde") && matches!(&i.trait_, Some((_, p, _)) if !cx.local_traits.contains(&p.segments.last().unwrap().ident.to_string()))
}
fn flatten(cx: &mut Cx, modpath: &str, i: &mut ItemImpl) {
    use syn::visit_mut::VisitMut;
    let tr = i.trait_.take().unwrap().1.segments.last().unwrap().ident.to_string();
    let mut assoc = BTreeMap::new();
    for x in &i.items { if let ImplItem::Type(t) = x { assoc.insert(t.ident.to_string(), t.ty.clone()); } }
    let self_ty = (*i.self_ty).clone();
    let mut lt = None;
    let by_ref = if let Type::Reference(r) = &self_ty { if r.mutability.is_some() { lt = r.lifetime.clone(); i.self_ty = r.elem.clone(); true } else { false } } else { false };
    let calls = cx.flat.get(&(modpath.to_string(), ty_name(&self_ty))).cloned().unwrap_or_default();
    let mut fl = Flat { self_ty, assoc, by_ref, calls };
    i.items.retain(|x| matches!(x, ImplItem::Fn(_)));
    for x in i.items.iter_mut() {
        if let ImplItem::Fn(f) = x {
            let g = f.sig.generics.clone();
            fl.visit_signature_mut(&mut f.sig);
            let _ = g;
            fl.visit_block_mut(&mut f.block);
            f.sig.ident = Ident::new(&format!("{}__{}", tr, f.sig.ident), f.sig.ident.span());
            if by_ref {
                let l = lt.clone();
                for a in f.sig.inputs.iter_mut() {
                    if let FnArg::Receiver(r) = a {
                        if r.reference.is_none() {
                            let nr: FnArg = match &l { Some(l) => parse_quote!(& #l mut self), None => parse_quote!(&mut self) };
                            *a = nr;
                        }
                    }
                }
                if let Some(l) = &l {
                    let lp: GenericParam = parse_quote!(#l);
                    f.sig.generics.params.insert(0, lp);
                    if f.sig.generics.lt_token.is_none() { f.sig.generics.lt_token = Some(Default::default()); f.sig.generics.gt_token = Some(Default::default()); }
                }
            }
        }
    }
    if by_ref { if let Some(l) = &lt {
        let keep: punctuated::Punctuated<GenericParam, Token![,]> = i.generics.params.iter().filter(|p| !matches!(p, GenericParam::Lifetime(x) if x.lifetime == *l)).cloned().collect();
        i.generics.params = keep;
    } }
    cx.report.hit("impl of a serde trait as inherent functions");
}

fn do_items(cx: &mut Cx, modpath: &str, items: Vec<Item>, out: &mut proc_macro2::TokenStream) {
    for it in items {
        match it {
            Item::Mod(m) => if let Some((_, its)) = m.content {
                let p = if modpath.is_empty() { m.ident.to_string() } else { format!("{}::{}", modpath, m.ident) };
                let mut inner = proc_macro2::TokenStream::new();
                do_items(cx, &p, its, &mut inner);
                let id = m.ident;
                out.extend(quote!(pub mod #id { __vx_mod!(#p); #inner }));
            },
            Item::Use(u) => {
                let s = u.tree.to_token_stream().to_string().replace(' ', "");
                if s.starts_with("crate::") || s.starts_with("super::") || s.starts_with("self::") {
                    let mut tree = u.tree.clone();
                    filter_use(&mut tree);
                    if modpath.is_empty() { filter_mods(&mut tree, &cx.mods); }
                    let s = tree.to_token_stream().to_string();
                    // the crate-root re-exports are kept as they are
                    if !s.contains("do_if_err") {
                        out.extend(quote!(pub use #tree;));
                    }
                } else {
                    cx.report.hit("use of std/serde dropped");
                }
            }
            Item::Const(c) if c.ident == "_" => {}
            Item::Const(c) => {
                let (id, ty) = (&c.ident, &c.ty);
                let e: Expr = match const_eval(&c.expr) {
                    Some(v) => { cx.report.hit("constant evaluated"); let l = Lit::Int(LitInt::new(&v.to_string(), proc_macro2::Span::call_site())); Expr::Lit(ExprLit { attrs: vec![], lit: l }) }
                    None => (*c.expr).clone(),
                };
                out.extend(quote!(pub const #id: #ty = #e;));
            }
            Item::Type(t) => {
                let mut t = t; t.attrs.clear(); t.vis = pubify();
                out.extend(t.to_token_stream());
            }
            Item::Struct(mut s) => {
                s.attrs.clear(); s.vis = pubify();
                let name = s.ident.to_string();
                if let Fields::Named(f) = &mut s.fields {
                    let kept: punctuated::Punctuated<Field, Token![,]> = f.named.iter().filter(|x| {
                        !cx.dropped_fields.contains(&format!("{}.{}", name, x.ident.as_ref().unwrap()))
                    }).cloned().map(|mut x| { x.attrs.clear(); x.vis = pubify(); x }).collect();
                    f.named = kept;
                } else if let Fields::Unnamed(f) = &mut s.fields {
                    for x in f.unnamed.iter_mut() { x.attrs.clear(); x.vis = pubify(); }
                }
                if cx.dropped_fields.contains(&name) { continue; }
                if modpath == "known_schema" { use syn::visit_mut::VisitMut; rewrite::Addr { hits: 0 }.visit_item_struct_mut(&mut s); }
                let key = format!("{}::{}", modpath, name);
                let d = if cx.derived_copy.contains(&name) { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.extend(quote!(__vx_type!(#key); #d #s));
            }
            Item::Enum(mut e) => {
                e.attrs.clear(); e.vis = pubify();
                let key = format!("{}::{}", modpath, e.ident);
                for v in e.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() { f.attrs.clear(); }
                }
                let d = if cx.derived_copy.contains(&e.ident.to_string()) { quote!(#[derive(Clone, Copy)]) } else { quote!() };
                out.extend(quote!(__vx_type!(#key); #d #e));
                let name = e.ident.to_string();
                if cx.derived_eq.contains(&name) && cx.derived_copy.contains(&name) && !["ScalarType", "ErrorKind"].contains(&name.as_str())
                    && e.generics.params.is_empty() && e.variants.iter().all(|v| matches!(v.fields, Fields::Unit)) {
                    let id = &e.ident;
                    out.extend(quote!(impl VxEq for #id {
                        open spec fn eqs(&self, b: &#id) -> bool { *self == *b }
                        #[verifier::external_body]
                        fn eqx(&self, b: &#id) -> (r: bool) { unimplemented!() }
                    }));
                }
            }
            Item::Trait(mut t) => {
                let key = format!("trait {}::{}", modpath, t.ident);
                let below = format!("{}::", key);
                if !cx.keys.contains_key(&key) && !cx.keys.keys().any(|k| k.starts_with(&below)) { cx.report.hit("trait without contract dropped"); continue; }
                t.attrs.clear(); t.vis = pubify();
                let id = &t.ident;
                let mut inner = proc_macro2::TokenStream::new();
                for x in &t.items {
                    if let TraitItem::Fn(f) = x {
                        let mut sig = f.sig.clone();
                        let ret = match &sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
                        sig.output = ReturnType::Default;
                        let k2 = format!("{}::{}", key, sig.ident);
                        inner.extend(quote!(__vx_fn!(#k2); #sig -> (__VXRET: #ret) __vx_tcontract!(#k2);));
                    }
                }
                let st = &t.supertraits;
                let colon = if st.is_empty() { quote!() } else { quote!(: #st) };
                out.extend(quote!(pub trait #id #colon { __vx_implextra!(#key); #inner }));
            }
            Item::Fn(f) => {
                let key = if modpath.is_empty() { f.sig.ident.to_string() } else { format!("{}::{}", modpath, f.sig.ident) };
                if cx.keys.contains_key(&key) {
                    let t = do_fn(cx, &key, f.sig, *f.block, true);
                    out.extend(t);
                }
            }
            Item::Impl(i) => {
                if is_derived(&i.attrs) { continue; }
                let pre = impl_prefix(modpath, &i);
                let mut i = i;
                let flat = foreign(cx, modpath, &i);
                if flat { if !cx.keys.keys().any(|k| k.starts_with(&pre)) { continue; } flatten(cx, modpath, &mut i); }
                let mut inner = proc_macro2::TokenStream::new();
                let mut any = false;
                for x in i.items.clone() {
                    match x {
                        ImplItem::Fn(f) => {
                            let fname = f.sig.ident.to_string();
                            let key = format!("{}{}", pre, if flat { fname.split("__").last().unwrap() } else { &fname });
                            if cx.keys.contains_key(&key) {
                                any = true;
                                let t = do_fn(cx, &key, f.sig, f.block, i.trait_.is_none());
                                inner.extend(t);
                            }
                        }
                        ImplItem::Type(t) => { inner.extend(t.to_token_stream()); }
                        ImplItem::Const(t) => { inner.extend(t.to_token_stream()); }
                        _ => {}
                    }
                }
                if !any { continue; }
                let mut g = i.generics.clone();
                clean_generics(&mut g);
                let (ig, _, wc) = g.split_for_impl();
                { use syn::visit_mut::VisitMut; if let Some((_, p, _)) = &mut i.trait_ { rewrite::Paths.visit_path_mut(p); } }
                let st = &i.self_ty;
                let tr = match &i.trait_ { None => quote!(), Some((_, p, _)) => {
                    // traits are those of the prelude or of the crate, by their last segment
                    let seg = p.segments.last().unwrap();
                    quote!(#seg for)
                } };
                out.extend(quote!(impl #ig #tr #st #wc { __vx_implextra!(#pre); #inner }));
            }
            _ => {}
        }
    }
}

fn const_eval(e: &Expr) -> Option<u128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Paren(p) => const_eval(&p.expr), Expr::Group(p) => const_eval(&p.expr),
        Expr::Binary(b) => {
            let (x, y) = (const_eval(&b.left)?, const_eval(&b.right)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y), BinOp::Sub(_) => x.checked_sub(y), BinOp::Mul(_) => x.checked_mul(y),
                BinOp::Div(_) => x.checked_div(y),
                BinOp::Shl(_) if y < 64 && x < 1 << 63 => Some(x << y), BinOp::Shr(_) if y < 64 => Some(x >> y),
                _ => None,
            }
        }
        _ => None,
    }
}

/// re-exports of modules that are not extracted
fn filter_mods(t: &mut UseTree, mods: &BTreeSet<String>) {
    let first = |x: &UseTree| match x { UseTree::Path(p) => p.ident.to_string(), UseTree::Name(p) => p.ident.to_string(), _ => String::new() };
    match t {
        UseTree::Path(p) if p.ident == "crate" || p.ident == "self" => {
            if let UseTree::Group(g) = &mut *p.tree {
                g.items = g.items.iter().filter(|x| mods.contains(&first(x))).cloned().collect();
            } else if !mods.contains(&first(&p.tree)) {
                p.tree = Box::new(parse_quote!({}));
            }
        }
        _ => {}
    }
}

fn filter_use(t: &mut UseTree) {
    // drop uses of macros and of dropped modules inside groups
    match t {
        UseTree::Path(p) => filter_use(&mut p.tree),
        UseTree::Group(g) => {
            let kept: punctuated::Punctuated<UseTree, Token![,]> = g.items.iter().filter(|x| {
                let s = x.to_token_stream().to_string().replace(' ', "");
                !(s.starts_with("do_if_err") || s == "error" || s == "ensure" || s == "bail" || s == "schema"
                  || (s.ends_with("::schema") && !s.starts_with("schema")))
            }).cloned().collect();
            g.items = kept;
            for x in g.items.iter_mut() { filter_use(x); }
        }
        _ => {}
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let keys = std::fs::read_to_string(&a[2]).unwrap();
    let file = match parse_file(&src) {
        Ok(f) => f,
        Err(e) => { eprintln!("cannot parse expanded source: {}", e); std::process::exit(3) }
    };
    let mut cx = Cx { keys: Default::default(), fns: Default::default(), derived_eq: Default::default(), derived_copy: Default::default(), dropped_fields: Default::default(), report: Default::default(), mods: Default::default(), local_traits: Default::default(), flat: Default::default(), fields: Default::default(), impl_gens: vec![] };
    let mut mods: BTreeSet<String> = Default::default();
    for l in keys.lines() {
        let mut p = l.split('\t');
        let k = p.next().unwrap(); let m = p.next().unwrap_or("verify");
        if m == "mod" { mods.insert(k.to_string()); } else { cx.keys.insert(k.to_string(), m.to_string()); }
    }
    cx.mods = mods.clone();
    let mut items: Vec<Item> = file.items;
    let mut nder = 0;
    derived::add(&mut items, &mut nder);
    for _ in 0..nder { cx.report.hit("impl Serialize for a type of the crate, with the encoder as its serializer"); }
    // fields of dyn type, and fields whose type is a struct with such a field only for logging
    let mut changed = true;
    while changed {
        changed = false;
        let mut found = vec![];
        find_dyn_fields(&items, &cx.dropped_fields, &mut found);
        for f in found { if cx.dropped_fields.insert(f) { changed = true; } }
    }
    collect(&mut cx, "", &items);
    let items: Vec<Item> = items.into_iter().filter(|i| match i { Item::Mod(m) => mods.contains(&m.ident.to_string()), _ => true }).collect();
    let mut out = proc_macro2::TokenStream::new();
    do_items(&mut cx, "", items, &mut out);
    std::fs::write(&a[3], print::print(out)).unwrap();
    let mut r = String::new();
    for (k, v) in &cx.report.counts { r += &format!("COUNT\t{}\t{}\n", k, v); }
    for l in &cx.report.lines { r += l; r += "\n"; }
    for d in &cx.derived_eq { r += &format!("EQ\t{}\n", d); }
    for d in &cx.dropped_fields { r += &format!("DROPFIELD\t{}\n", d); }
    for k in cx.keys.keys() { if !cx.fns.contains_key(k) && !k.starts_with("trait ") { r += &format!("MISSING\t{}\n", k); } }
    std::fs::write(&a[4], r).unwrap();
}

/// Fields whose type mentions `dyn` or a struct all of whose use is dropped
/// (a struct named in the set as a whole).
fn find_dyn_fields(items: &[Item], dropped: &BTreeSet<String>, found: &mut Vec<String>) {
    for i in items {
        match i {
            Item::Mod(m) => if let Some((_, its)) = &m.content { find_dyn_fields(its, dropped, found); },
            Item::Struct(s) => if let Fields::Named(f) = &s.fields {
                let n = s.ident.to_string();
                for x in &f.named {
                    let wholly = x.ty.to_token_stream().to_string().split_whitespace().any(|w| dropped.contains(w));
                    if mentions_dyn(&x.ty) || wholly {
                        found.push(format!("{}.{}", n, x.ident.as_ref().unwrap()));
                    }
                    // a private helper struct holding a `&mut dyn` is a log sink: drop it wholly
                    if mentions_dyn(&x.ty) && matches!(&x.ty, Type::Reference(r) if r.mutability.is_some()) {
                        found.push(n.clone());
                    }
                }
            },
            _ => {}
        }
    }
}
