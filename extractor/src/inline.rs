//! Calls of crate functions that have no contract are replaced by their bodies,
//! so that moving code into a helper does not take the caller out of the proof.
//! The replacement is made only where it has the meaning of the call:
//! - the callee is known without type inference (a path, or a method whose
//!   receiver is `self`, a field of it, or a local bound to one);
//! - arguments are evaluated once, in order, before the body;
//! - `?` and `return` of the callee leave the caller with the same value: the
//!   call is followed by `?` (and the callee leaves early only by `?` or
//!   `return Err(..)`), or its value is what the caller returns;
//! - the receiver is a place (for `&self`, `&mut self`), or bound like an argument.
//! A call that is left as it is is to a function the extracted crate does not have,
//! and takes its caller out of the proof.
use crate::{Cx, FnInfo, ty_name};
use proc_macro2::{TokenStream, TokenTree, Group, Ident as PIdent, Span};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::*;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};

#[derive(Clone, Copy, PartialEq)]
enum At { Try, Tail, Plain }

struct Exits { tries: bool, ret_err: bool, ret_other: bool }
impl<'a> Visit<'a> for Exits {
    fn visit_expr_try(&mut self, e: &'a ExprTry) { self.tries = true; visit::visit_expr_try(self, e); }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) {
        let err = matches!(e.expr.as_deref(), Some(Expr::Call(c)) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "Err"));
        if err { self.ret_err = true } else { self.ret_other = true }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) { self.ret_other = true; }
}
fn exits(b: &Block) -> Exits { let mut x = Exits { tries: false, ret_err: false, ret_other: false }; x.visit_block(b); x }

/// identifiers replaced by tokens (macro arguments included)
fn replace(ts: TokenStream, map: &BTreeMap<String, TokenStream>) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) { Some(r) => out.extend(r.clone()), None => out.extend([TokenTree::Ident(i)]) },
            TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), replace(g.stream(), map)); n.set_span(g.span()); out.extend([TokenTree::Group(n)]); }
            t => out.extend([t]),
        }
    }
    out
}
fn mentions(ts: TokenStream, names: &[String]) -> bool {
    ts.into_iter().any(|t| match t { TokenTree::Ident(i) => names.contains(&i.to_string()), TokenTree::Group(g) => mentions(g.stream(), names), _ => false })
}
fn outer(t: &ReturnType) -> String { match t { ReturnType::Type(_, t) => ty_name(t), ReturnType::Default => "()".into() } }

fn unwrap(e: &Expr) -> &Expr {
    match e { Expr::Paren(p) => unwrap(&p.expr), Expr::Group(p) => unwrap(&p.expr), e => e }
}
/// through `&`, `&mut`, `*` and parentheses
fn core(e: &Expr) -> &Expr {
    match unwrap(e) {
        Expr::Reference(r) => core(&r.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => core(expr),
        e => e,
    }
}
fn place(e: &Expr) -> bool { match unwrap(e) { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), _ => false } }

struct Inl<'c> {
    cx: &'c Cx,
    modpath: String,
    self_ty: Option<String>,
    self_name: String,
    ret: String,
    types: BTreeMap<String, String>,
    n: usize,
    out: Vec<String>,
    depth: usize,
    closure: usize,
    dead: bool,
}

struct Lets<'c> { types: BTreeMap<String, String>, seen: BTreeMap<String, usize>, cx: &'c Cx, self_name: String, self_ty: Option<String> }
impl<'c> Lets<'c> {
    fn ty(&self, e: &Expr) -> Option<String> { place_ty(self.cx, &self.types, &self.self_name, &self.self_ty, e) }
}
fn place_ty(cx: &Cx, types: &BTreeMap<String, String>, self_name: &str, self_ty: &Option<String>, e: &Expr) -> Option<String> {
    match core(e) {
        Expr::Path(p) => { let i = p.path.get_ident()?.to_string(); if i == self_name || i == "self" { self_ty.clone() } else { types.get(&i).cloned() } }
        Expr::Field(f) => { let t = place_ty(cx, types, self_name, self_ty, &f.base)?; cx.fields.get(&(t, f.member.to_token_stream().to_string())).cloned() }
        _ => None,
    }
}
impl<'a, 'c> Visit<'a> for Lets<'c> {
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if let Some(t) = self.ty(&i.expr) { self.types.insert(p.ident.to_string(), t); } }
        if let Pat::Type(t) = &l.pat { if let Pat::Ident(p) = &*t.pat { self.types.insert(p.ident.to_string(), ty_name(&t.ty)); } }
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) { *self.seen.entry(p.ident.to_string()).or_default() += 1; }
}

impl<'c> Inl<'c> {
    fn find(&self, ty: Option<&str>, name: &str) -> Option<FnInfo> {
        let mut c: Vec<&FnInfo> = self.cx.fns.values().filter(|f| f.name == name && !f.key.contains(" as ") && f.self_ty.as_deref() == ty).collect();
        if ty.is_none() && c.len() > 1 { c.retain(|f| f.key == format!("{}::{}", self.modpath, name)); }
        // two types of one name
        if c.len() > 1 { c.retain(|f| f.key.starts_with(&format!("{}::", self.modpath))); }
        if c.len() != 1 { return None; }
        let f = c[0];
        if self.cx.keys.contains_key(&f.key) { return None; }
        // a trait function of that name would go before or after it
        if ty.is_some() && self.cx.fns.values().any(|g| g.name == name && g.key.contains(" as ") && g.self_ty.as_deref() == ty) { return None; }
        Some(f.clone())
    }
    fn target(&self, e: &Expr) -> Option<(FnInfo, Option<Expr>, Vec<Expr>, Vec<Type>)> {
        match unwrap(e) {
            Expr::MethodCall(m) => {
                let t = place_ty(self.cx, &self.types, &self.self_name, &self.self_ty, &m.receiver)?;
                let f = self.find(Some(&t), &m.method.to_string())?;
                if !matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) { return None; }
                let ta = m.turbofish.as_ref().map(|t| t.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect()).unwrap_or_default();
                Some((f, Some((*m.receiver).clone()), m.args.iter().cloned().collect(), ta))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                if p.qself.is_some() { return None; }
                let n = p.path.segments.len();
                let last = &p.path.segments[n - 1];
                let name = last.ident.to_string();
                let ta: Vec<Type> = if let PathArguments::AngleBracketed(a) = &last.arguments { a.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).collect() } else { vec![] };
                let owner = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                let ty = match owner.as_deref() {
                    None => None,
                    Some("Self") => Some(self.self_ty.clone()?),
                    Some(o) if o.chars().next().unwrap().is_uppercase() => Some(o.to_string()),
                    Some(_) => None,
                };
                let f = self.find(ty.as_deref(), &name)?;
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let recv = if matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) { if args.is_empty() { return None; } Some(args.remove(0)) } else { None };
                Some((f, recv, args, ta))
            }
            _ => None,
        }
    }
    fn expand(&mut self, e: &Expr, at: At) -> Option<Expr> {
        if self.depth > 4 { return None; }
        let (f, recv, args, targs) = self.target(e)?;
        let mut b = f.block.clone();
        { crate::rewrite::Paths.visit_block_mut(&mut b); }
        if f.key.starts_with("known_schema") { crate::rewrite::Addr { hits: 0 }.visit_block_mut(&mut b); }
        let x = exits(&b);
        let ok = match at {
            At::Plain => !x.tries && !x.ret_err && !x.ret_other,
            At::Try => !x.ret_other && (!(x.tries || x.ret_err) || (self.closure == 0 && self.ret == "Result" && outer(&f.sig.output) == "Result")),
            At::Tail => self.closure == 0 || !(x.tries || x.ret_err || x.ret_other),
        };
        if !ok { return None; }
        let ins: Vec<&PatType> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if ins.len() != args.len() || ins.iter().any(|t| crate::mentions_dyn(&t.ty)) { return None; }
        self.n += 1;
        let n = self.n;
        let mut map: BTreeMap<String, TokenStream> = Default::default();
        let mut lets: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        if let Some(r) = &recv {
            let Some(FnArg::Receiver(rc)) = f.sig.inputs.first() else { return None };
            if rc.mutability.is_some() && rc.reference.is_none() { return None; }
            let c = core(r);
            if rc.reference.is_some() && place(c) {
                // nothing in the body may hide the place
                let root = { let mut p = c; while let Expr::Field(q) = p { p = unwrap(&q.base); } p.to_token_stream().to_string() };
                if root != "self" && root != self.self_name {
                    let mut l = Lets { types: Default::default(), seen: Default::default(), cx: self.cx, self_name: String::new(), self_ty: None };
                    l.visit_block(&b);
                    if l.seen.contains_key(&root) || ins.iter().any(|t| mentions(t.pat.to_token_stream(), &[root.clone()])) { return None; }
                }
                // `self` alone, as a value, is a reference: only the same reference stands for it
                map.insert("self".into(), c.to_token_stream());
            } else if rc.reference.is_none() {
                let id = PIdent::new(&format!("__i{}_self", n), Span::call_site());
                lets.push(parse_quote!(let #id = #r;));
                map.insert("self".into(), quote!(#id));
            } else { return None; }
        }
        let gens: Vec<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if !gens.is_empty() && targs.len() == gens.len() { for (g, t) in gens.iter().zip(&targs) { map.insert(g.clone(), t.to_token_stream()); } }
        else if mentions(b.to_token_stream(), &gens) { return None; }
        if let (Some(t), true) = (&f.self_ty, f.self_ty != self.self_ty) { let id = PIdent::new(t, Span::call_site()); map.insert("Self".into(), quote!(#id)); }
        for (k, (t, a)) in ins.iter().zip(&args).enumerate() {
            let id = PIdent::new(&format!("__i{}_{}", n, k), Span::call_site());
            let ty = &t.ty;
            let s = ty.to_token_stream().to_string();
            let plain = !s.contains('\'') && !s.contains("Self") && !s.contains("impl ") && !mentions(ty.to_token_stream(), &gens) && !mentions(ty.to_token_stream(), &self.cx.impl_gens);
            let mutref = matches!(&**ty, Type::Reference(r) if r.mutability.is_some());
            let a2: Expr = if mutref && place(a) { parse_quote!(&mut *#a) } else { a.clone() };
            if plain { lets.push(parse_quote!(let #id: #ty = #a2;)); } else { lets.push(parse_quote!(let #id = #a2;)); }
            let p = &t.pat;
            binds.push(parse_quote!(let #p = #id;));
        }
        let b: Block = parse2(replace(b.to_token_stream(), &map)).ok()?;
        let stmts = &b.stmts;
        self.out.push(f.key.clone());
        let mut e: Expr = parse_quote!(({ #(#lets)* #(#binds)* #(#stmts)* }));
        // the body may call further helpers; a `?` of its own is in its place already
        let (st, ret) = (self.self_ty.clone(), self.ret.clone());
        self.depth += 1;
        if f.self_ty.is_some() { /* receivers now speak of the caller's places */ }
        if outer(&f.sig.output) != self.ret { self.ret = outer(&f.sig.output); }
        let tail = at == At::Tail;
        if let Expr::Paren(p) = &mut e { if let Expr::Block(bl) = &mut *p.expr { self.block(&mut bl.block, tail); } }
        self.depth -= 1;
        self.self_ty = st; self.ret = ret;
        Some(e)
    }
    fn scan(&mut self, b: &Block) {
        let mut l = Lets { types: self.types.clone(), seen: Default::default(), cx: self.cx, self_name: self.self_name.clone(), self_ty: self.self_ty.clone() };
        l.visit_block(b);
        let (t, seen) = (l.types, l.seen);
        self.types = t.into_iter().filter(|(k, _)| seen.get(k).copied().unwrap_or(0) <= 1).collect();
    }
    fn block(&mut self, b: &mut Block, tail: bool) {
        self.scan(b);
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i + 1 == n && tail => self.tail(e),
                s => self.visit_stmt_mut(s),
            }
        }
    }
    /// an expression whose value the function returns
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.block(&mut b.block, true),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, true);
                if let Some((_, x)) = &mut i.else_branch { self.tail(x); }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
                    self.tail(&mut a.body);
                }
            }
            Expr::Paren(p) => self.tail(&mut p.expr),
            e => {
                if let Expr::MethodCall(_) | Expr::Call(_) = e {
                    self.args(e);
                    if let Some(x) = self.expand(e, At::Tail) { *e = x; }
                } else { self.visit_expr_mut(e); }
            }
        }
    }
    fn args(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => { self.visit_expr_mut(&mut m.receiver); for a in m.args.iter_mut() { self.visit_expr_mut(a); } }
            Expr::Call(c) => { self.visit_expr_mut(&mut c.func); for a in c.args.iter_mut() { self.visit_expr_mut(a); } }
            Expr::Paren(p) => self.args(&mut p.expr),
            _ => {}
        }
    }
}
impl<'c> VisitMut for Inl<'c> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.block(b, false); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Try(t) if matches!(unwrap(&t.expr), Expr::MethodCall(_) | Expr::Call(_)) => {
                self.args(&mut t.expr);
                if let Some(x) = self.expand(&t.expr, At::Try) { *t.expr = x; }
            }
            Expr::Return(r) => if let Some(x) = &mut r.expr { if self.closure == 0 { self.tail(x) } else { self.visit_expr_mut(x) } },
            Expr::Closure(c) => { self.closure += 1; self.visit_expr_mut(&mut c.body); self.closure -= 1; }
            Expr::MethodCall(_) | Expr::Call(_) => {
                self.args(e);
                if let Some(x) = self.expand(e, At::Plain) { *e = x; }
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn inline_calls(cx: &mut Cx, key: &str, sig: &Signature, self_name: &str, b: &mut Block, out: &mut Vec<String>) {
    let Some(me) = cx.fns.get(key) else { return };
    let self_ty = me.self_ty.clone();
    let own: String = key.split(" as ").next().unwrap().to_string();
    let mut p: Vec<&str> = own.split("::").collect();
    p.pop();
    if self_ty.is_some() && !key.contains(" as ") { p.pop(); }
    let modpath = p.join("::");
    let mut types = BTreeMap::new();
    for a in sig.inputs.iter() { if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { types.insert(i.ident.to_string(), ty_name(&t.ty)); } } }
    let mut v = Inl { cx: &*cx, modpath, self_ty, self_name: self_name.to_string(), ret: outer(&sig.output), types, n: 0, out: vec![], depth: 0, closure: 0, dead: false };
    let _ = v.dead;
    v.block(b, true);
    let o = std::mem::take(&mut v.out);
    for _ in &o { cx.report.hit("call of a function without contract replaced by its body"); }
    out.extend(o);
}
