//! The expression, statement and pattern rewrites.
use crate::Cx;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::visit::{self, Visit};
use syn::*;
use std::collections::BTreeSet;

fn toks(x: &impl ToTokens) -> String { x.to_token_stream().to_string().replace(' ', "") }

pub fn rewrite_block(cx: &mut Cx, b: &mut Block, key: &str, nloops: &mut usize, ret_result: bool) {
    // number the loops in source order
    let mut n = Number { n: 0 };
    n.visit_block_mut(b);
    *nloops = n.n;
    let mut r = Rw { cx, key: key.to_string(), tmp: 0, ret_result };
    r.visit_block_mut(b);
}

/// the names bound in a body, in order
pub fn locals(b: &Block) -> Vec<String> {
    let mut l = Locals { out: vec![] };
    l.visit_block(b);
    l.out
}
struct Locals { out: Vec<String> }
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if !s.chars().next().unwrap().is_uppercase() && !self.out.contains(&s) { self.out.push(s); }
    }
}

struct Number { n: usize }
impl Number {
    fn attr(&mut self) -> Attribute { let n = self.n; self.n += 1; let l = LitInt::new(&n.to_string(), proc_macro2::Span::call_site()); parse_quote!(#[vxloop(#l)]) }
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // a loop in a debug-log block is dropped later and does not count
        match e {
            Expr::If(i) if dbg_log_block(i).is_some() => return,
            Expr::While(w) => { w.attrs.clear(); let a = self.attr(); w.attrs.push(a); }
            Expr::Loop(w) => { w.attrs.clear(); let a = self.attr(); w.attrs.push(a); }
            Expr::ForLoop(w) => { w.attrs.clear(); let a = self.attr(); w.attrs.push(a); }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn loop_no(attrs: &[Attribute]) -> usize {
    for a in attrs {
        if a.path().is_ident("vxloop") { return a.parse_args::<LitInt>().unwrap().base10_parse().unwrap(); }
    }
    9999
}

/// `if let Some(ref mut x) = self.f { .. }` where the body has no effect but on
/// `x`: gives the field name.
fn dbg_log_block(i: &ExprIf) -> Option<String> {
    if i.else_branch.is_some() { return None; }
    let Expr::Let(l) = &*i.cond else { return None };
    let Pat::TupleStruct(p) = &*l.pat else { return None };
    if !p.path.is_ident("Some") || p.elems.len() != 1 { return None; }
    let Pat::Ident(x) = &p.elems[0] else { return None };
    let Expr::Field(f) = strip_refmut(&l.expr) else { return None };
    if toks(&f.base) != "self" { return None; }
    let Member::Named(fname) = &f.member else { return None };
    let mut v = OnlyOn { x: x.ident.to_string(), ok: true };
    v.visit_block(&i.then_branch);
    if v.ok { Some(fname.to_string()) } else { None }
}
fn strip_refmut(e: &Expr) -> &Expr { match e { Expr::Reference(r) => &r.expr, e => e } }
struct OnlyOn { x: String, ok: bool }
fn root(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root(&f.base),
        Expr::MethodCall(m) => root(&m.receiver),
        Expr::Index(i) => root(&i.expr),
        Expr::Paren(p) => root(&p.expr),
        Expr::Unary(u) => root(&u.expr),
        Expr::Reference(u) => root(&u.expr),
        _ => None,
    }
}
impl<'a> Visit<'a> for OnlyOn {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) | Expr::Unsafe(_) => self.ok = false,
            Expr::Assign(a) => if root(&a.left).as_deref() != Some(&self.x) { self.ok = false },
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::RemAssign(_)) =>
                if root(&b.left).as_deref() != Some(&self.x) { self.ok = false },
            Expr::MethodCall(m) => if root(&m.receiver).as_deref() != Some(&self.x) { self.ok = false },
            Expr::Call(c) => {
                let f = toks(&c.func);
                if !(f.ends_with("_eprint") || f.ends_with("format")) { self.ok = false }
            }
            Expr::Macro(m) => { if !pure_macro(&m.mac) { self.ok = false } return; }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_stmt_macro(&mut self, m: &'a StmtMacro) { if !pure_macro(&m.mac) { self.ok = false } }
}

/// Whether a format macro's arguments have no effect (paths, fields, constructors).
fn pure_macro(m: &Macro) -> bool {
    let n = m.path.segments.last().unwrap().ident.to_string();
    if !["format_args", "format", "concat", "stringify"].contains(&n.as_str()) { return false; }
    pure_tokens(m.tokens.clone())
}
fn pure_tokens(ts: proc_macro2::TokenStream) -> bool {
    use proc_macro2::*;
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Parenthesis && i > 0 {
                    let callee = match &v[i - 1] { TokenTree::Ident(id) => Some(id.to_string()), TokenTree::Punct(p) if p.as_char() == '!' => Some("!".into()), _ => None };
                    if let Some(c) = callee {
                        let up = c.chars().next().unwrap().is_uppercase();
                        if !(up || ["!", "len", "new", "as_str", "as_name", "from", "as_ref", "type_name"].contains(&c.as_str())) { return false; }
                    }
                }
                if !pure_tokens(g.stream()) { return false; }
            }
            TokenTree::Punct(p) if p.as_char() == '?' => return false,
            TokenTree::Ident(id) if id == "return" || id == "break" => return false,
            TokenTree::Punct(p) if p.as_char() == '=' => {
                // assignment has no place in a format argument (== and named args do)
            }
            _ => {}
        }
    }
    true
}

fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Str(_)),
        Expr::Paren(p) => is_lit(&p.expr),
        Expr::Group(p) => is_lit(&p.expr),
        Expr::Unary(u) => is_lit(&u.expr),
        Expr::Binary(b) => is_lit(&b.left) && is_lit(&b.right),
        _ => false,
    }
}

struct Rw<'c> { cx: &'c mut Cx, key: String, tmp: usize, ret_result: bool }

/// Names bound by copy in a pattern under a stripped reference.
struct Strip { derefs: Vec<Ident>, any: bool }
impl Strip {
    fn pat(&mut self, p: &mut Pat, under: bool) {
        match p {
            Pat::Reference(_) => {
                self.any = true;
                let Pat::Reference(r) = std::mem::replace(p, Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() })) else { unreachable!() };
                let mut inner = *r.pat;
                if let Pat::Ident(i) = &mut inner {
                    // `&x`: bind and copy out
                    if i.by_ref.is_none() && !is_const(&i.ident) { self.derefs.push(i.ident.clone()); *p = inner; return; }
                }
                self.pat(&mut inner, true);
                *p = inner;
            }
            Pat::Ident(i) => {
                if let Some((_, sub)) = &mut i.subpat { self.pat(sub, under); }
                if under && i.by_ref.is_none() && !is_const(&i.ident) { self.derefs.push(i.ident.clone()); }
            }
            Pat::TupleStruct(t) => for e in t.elems.iter_mut() { self.pat(e, under) },
            Pat::Tuple(t) => for e in t.elems.iter_mut() { self.pat(e, under) },
            Pat::Struct(t) => for f in t.fields.iter_mut() {
                self.pat(&mut f.pat, under);
            },
            Pat::Or(o) => {
                let n = self.derefs.len();
                for (k, c) in o.cases.iter_mut().enumerate() {
                    let m = self.derefs.len();
                    self.pat(c, under);
                    if k > 0 { self.derefs.truncate(m.max(n)); }
                }
            }
            Pat::Paren(q) => { let mut inner = (*q.pat).clone(); self.pat(&mut inner, under); *p = inner; }
            _ => {}
        }
    }
}
fn is_const(i: &Ident) -> bool { i.to_string().chars().next().unwrap().is_uppercase() }

struct Subst<'a> { names: &'a [Ident] }
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if self.names.contains(i) { let i = i.clone(); *e = parse_quote!((*#i)); return; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn wrap_derefs(body: Expr, derefs: &[Ident]) -> Expr {
    if derefs.is_empty() { return body; }
    let lets = derefs.iter().map(|d| quote!(let #d = *#d;));
    parse_quote!({ #(#lets)* #body })
}


fn is_diverging_panic(path: &str) -> bool {
    path.contains("panicking::") || path.ends_with("begin_panic") || path.ends_with("unreachable_unchecked")
}

impl<'c> Rw<'c> {
    fn tmp(&mut self, s: &str) -> Ident { self.tmp += 1; Ident::new(&format!("__vx_{}{}", s, self.tmp), proc_macro2::Span::call_site()) }

    fn arms(&mut self, scrut: &mut Expr, arms: &mut Vec<Arm>) {
        // all reference patterns (or wild): match on the place itself
        let all_ref = arms.iter().all(|a| top_ref(&a.pat)) && arms.iter().any(|a| !matches!(a.pat, Pat::Wild(_)));
        let some_ref = arms.iter().any(|a| has_ref(&a.pat));
        if !some_ref { return; }
        self.cx.report.hit("reference pattern stripped");
        if all_ref {
            let s = scrut.clone();
            *scrut = match s {
                Expr::Reference(r) => (*r.expr).clone(),
                s => parse_quote!(*#s),
            };
            for a in arms.iter_mut() { untop(&mut a.pat); }
        }
        for a in arms.iter_mut() {
            let mut st = Strip { derefs: vec![], any: false };
            st.pat(&mut a.pat, false);
            if !st.derefs.is_empty() {
                if let Some((_, g)) = &mut a.guard { Subst { names: &st.derefs }.visit_expr_mut(g); }
                let b = (*a.body).clone();
                *a.body = wrap_derefs(b, &st.derefs);
            }
        }
    }

    /// `f` as closure applied to the expression `x`, as an expression; None if
    /// it is not a closure or a path.
    fn apply(&mut self, f: &Expr, x: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() == 0 { return Some((*c.body).clone()); }
                if c.inputs.len() != 1 { return None; }
                let mut p = c.inputs[0].clone();
                if let Pat::Type(t) = &p { p = (*t.pat).clone(); }
                let b = &c.body;
                if let Pat::Wild(_) = p { return Some(parse_quote!({ #b })); }
                let mut st = Strip { derefs: vec![], any: false };
                st.pat(&mut p, false);
                let body = wrap_derefs((**b).clone(), &st.derefs);
                Some(parse_quote!({ let #p = #x; #body }))
            }
            Expr::Path(p) => Some(parse_quote!(#p(#x))),
            _ => None,
        }
    }

    fn looks_option(&self, e: &Expr) -> bool {
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n.starts_with("checked_") || ["get", "get_mut", "first", "last", "ok", "last_mut", "pop", "next", "find_recurse_level", "find_type"].contains(&n.as_str())
                    || (["map", "and_then", "as_ref", "filter", "or_else", "copied", "cloned"].contains(&n.as_str()) && self.looks_option(&m.receiver))
            }
            Expr::Call(c) => { let f = toks(&c.func); f.ends_with("from_u32") || f == "Some" || f.ends_with("Option::Some") }
            Expr::Path(_) | Expr::Field(_) => true,
            Expr::Paren(p) => self.looks_option(&p.expr),
            Expr::Group(p) => self.looks_option(&p.expr),
            _ => false,
        }
    }
}

fn top_ref(p: &Pat) -> bool {
    match p { Pat::Reference(_) | Pat::Wild(_) => true, Pat::Or(o) => o.cases.iter().all(top_ref), Pat::Paren(q) => top_ref(&q.pat), _ => false }
}
fn has_ref(p: &Pat) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H { fn visit_pat_reference(&mut self, _: &'a PatReference) { self.0 = true; } }
    let mut h = H(false); h.visit_pat(p); h.0
}
fn untop(p: &mut Pat) {
    match p {
        Pat::Reference(r) => { let i = (*r.pat).clone(); *p = i; }
        Pat::Or(o) => for c in o.cases.iter_mut() { untop(c) },
        Pat::Paren(q) => { let mut i = (*q.pat).clone(); untop(&mut i); *p = i; }
        _ => {}
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), _ => false,
    }
}
fn unparen(e: &Expr) -> &Expr { match e { Expr::Paren(p) => unparen(&p.expr), Expr::Group(p) => unparen(&p.expr), e => e } }

/// `T::schema` not called but as a value: the identity of T. Its type, and the
/// cast of it to a number, likewise.
pub struct Addr { pub hits: usize }
impl VisitMut for Addr {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(_) = t { *t = parse_quote!(crate::vs::SchemaFn); return; }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr_mut(&mut c.func); }
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
            }
            Expr::Path(p) if p.path.segments.last().unwrap().ident == "schema" => {
                let t: Type = if let Some(q) = &p.qself { (*q.ty).clone() } else if p.path.segments.len() == 2 { let s = &p.path.segments[0]; parse_quote!(#s) } else { return };
                self.hits += 1;
                *e = parse_quote!(crate::vs::SchemaFn::of::<#t>());
            }
            Expr::Cast(c) if toks(&c.ty) == "usize" => {
                self.visit_expr_mut(&mut c.expr);
                let x = unparen(&c.expr).clone();
                if !is_lit(&x) { *e = parse_quote!(crate::vs::HasAddr::addr(#x)); }
            }
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// Paths of `std::io` and `BorrowMut<[u8]>` to their models.
pub struct Paths;
impl VisitMut for Paths {
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, e);
        // `<i32>::f`, `<i32 as T>::f`: as `i32::f`
        if let Some(q) = &e.qself {
            let Type::Path(t) = &*q.ty else { return };
            let plain = t.qself.is_none() && t.path.segments.iter().all(|s| s.arguments.is_none());
            let last = e.path.segments.last().unwrap().clone();
            let known = ["try_from", "from_le_bytes", "to_le_bytes"].contains(&last.ident.to_string().as_str());
            if plain && (q.position == 0 && e.path.segments.len() == 1 || known) {
                let mut p = t.path.clone();
                p.segments.push(last);
                *e = ExprPath { attrs: vec![], qself: None, path: p };
            }
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        let k = if n >= 3 && segs[0] == "std" && segs[1] == "io" { 2 } else if n >= 2 && segs[0] == "io" { 1 } else { 0 };
        if k > 0 {
            let tail: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(k).cloned().collect();
            *p = parse_quote!(crate::vx::io::#tail);
            return;
        }
        // how rustc prints `vec![]`
        if n >= 3 && segs[0] == "alloc" && segs[1] == "vec" {
            let tail: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(2).cloned().collect();
            *p = parse_quote!(#tail);
            return;
        }
        if n >= 1 && (segs[n - 1] == "BorrowMut" || segs[n - 1] == "Borrow") && toks(p).ends_with("<[u8]>") {
            *p = parse_quote!(crate::vx::Bytes);
        }
    }
}

impl<'c> VisitMut for Rw<'c> {
    fn visit_attributes_mut(&mut self, _: &mut Vec<Attribute>) {}

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            // debug-log blocks
            if let Stmt::Expr(Expr::If(i), _) = &s {
                if let Some(f) = dbg_log_block(i) {
                    if self.cx.dropped_fields.iter().any(|x| x.ends_with(&format!(".{}", f))) {
                        self.cx.report.hit("debug-log block dropped");
                        continue;
                    }
                }
            }
            let mut s = s;
            match &mut s {
                Stmt::Local(l) => {
                    l.attrs.clear();
                    // let [a, b] = e;
                    let mut pat = l.pat.clone();
                    if let Pat::Type(t) = &pat { if matches!(*t.pat, Pat::Slice(_)) { pat = (*t.pat).clone(); } }
                    if let (Pat::Slice(sl), Some(init)) = (&pat, &mut l.init) {
                        if sl.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))) && init.diverge.is_none() {
                            self.cx.report.hit("array pattern indexed");
                            let t = self.tmp("arr");
                            let mut e = (*init.expr).clone();
                            self.visit_expr_mut(&mut e);
                            out.push(parse_quote!(let #t = #e;));
                            for (i, p) in sl.elems.iter().enumerate() {
                                if let Pat::Ident(p) = p { out.push(parse_quote!(let #p = #t[#i];)); }
                            }
                            continue;
                        }
                    }
                    // let &P = e;
                    if has_ref(&l.pat) {
                        if let Some(init) = &mut l.init {
                            if init.diverge.is_none() {
                                self.cx.report.hit("reference pattern stripped");
                                if let Pat::Reference(r) = &l.pat {
                                    let p = (*r.pat).clone(); l.pat = p;
                                    let e = (*init.expr).clone();
                                    *init.expr = match e { Expr::Reference(r) => (*r.expr).clone(), e => parse_quote!(*#e) };
                                }
                                let mut st = Strip { derefs: vec![], any: false };
                                st.pat(&mut l.pat, false);
                                visit_mut::visit_local_mut(self, l);
                                out.push(s);
                                for d in st.derefs { out.push(parse_quote!(let #d = *#d;)); }
                                continue;
                            }
                        }
                    }
                    // let P = e else { .. };
                    if let Some(init) = &l.init {
                        if let Some((_, els)) = &init.diverge {
                            let mut names = vec![];
                            let mut lc = Locals { out: vec![] }; lc.visit_pat(&l.pat);
                            for n in lc.out { names.push(Ident::new(&n, proc_macro2::Span::call_site())); }
                            let (p, e) = (&l.pat, &init.expr);
                            self.cx.report.hit("let-else to match");
                            let mut ne: Expr = parse_quote!(match #e { #p => (#(#names),*), _ => #els });
                            self.visit_expr_mut(&mut ne);
                            out.push(parse_quote!(let (#(#names),*) = #ne;));
                            continue;
                        }
                    }
                    visit_mut::visit_local_mut(self, l);
                }
                s => visit_mut::visit_stmt_mut(self, s),
            }
            if let Stmt::Macro(m) = &s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if n == "__vx_drop" { continue; }
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites
        match e {
            Expr::While(w) => {
                let no = loop_no(&w.attrs);
                let k = no; let key = self.key.clone();
                let a: Vec<Attribute> = w.attrs.clone();
                if let Expr::Let(l) = unparen(&w.cond) {
                    // while let P = E { B }  ->  loop { match E { P => B, _ => break } }
                    self.cx.report.hit("while-let to loop-match");
                    let (p, x, b) = (&l.pat, &l.expr, &w.body);
                    *e = parse_quote!(#(#a)* loop { match #x { #p => #b, _ => { break; } } });
                    return self.visit_expr_mut(e);
                }
                visit_mut::visit_expr_mut(self, &mut w.cond);
                // a condition that is not an expression the verifier takes as is
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                w.attrs.clear();
                w.label = None;
                let kk = Lit::Int(LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#key, #kk);));
                w.body.stmts.push(parse_quote!(__vx_loopend!(#key, #kk);));
                return;
            }
            Expr::Loop(w) => {
                let no = loop_no(&w.attrs); let key = self.key.clone();
                self.visit_block_mut(&mut w.body);
                w.attrs.clear();
                let kk = Lit::Int(LitInt::new(&no.to_string(), proc_macro2::Span::call_site()));
                w.body.stmts.insert(0, parse_quote!(__vx_loop!(#key, #kk);));
                return;
            }
            Expr::ForLoop(f) => {
                let no = loop_no(&f.attrs); let key = self.key.clone();
                let kk = Lit::Int(LitInt::new(&no.to_string(), proc_macro2::Span::call_site()));
                let idx = Ident::new(&format!("__i{}", no), proc_macro2::Span::call_site());
                let end = Ident::new(&format!("__n{}", no), proc_macro2::Span::call_site());
                let src = Ident::new(&format!("__s{}", no), proc_macro2::Span::call_site());
                let mut body = f.body.clone();
                let pat = (*f.pat).clone();
                if let Expr::Range(r) = unparen(&f.expr) {
                    if let (Some(lo), Some(hi), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        self.cx.report.hit("for over range to while");
                        let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone());
                        self.visit_expr_mut(&mut lo); self.visit_expr_mut(&mut hi);
                        self.visit_block_mut(&mut body);
                        let st = &body.stmts;
                        let bind: Vec<Stmt> = if let Pat::Wild(_) = pat { vec![] } else { vec![parse_quote!(let #pat = #idx;)] };
                        *e = parse_quote!({
                            let #end = #hi;
                            let mut #idx = vx::same_type(#lo, #end);
                            while #idx < #end { __vx_loop!(#key, #kk); #(#bind)* #idx += 1; #(#st)* __vx_loopend!(#key, #kk); }
                        });
                        return;
                    }
                }
                // over a reference to a vector or slice
                self.cx.report.hit("for over slice to while");
                let mut x = (*f.expr).clone();
                if let Expr::MethodCall(m) = &x { if m.method == "iter" && m.args.is_empty() { x = (*m.receiver).clone(); } }
                self.visit_expr_mut(&mut x);
                let mut st = Strip { derefs: vec![], any: false };
                let mut pat = pat;
                st.pat(&mut pat, false);
                self.visit_block_mut(&mut body);
                let stm = &body.stmts;
                let ds = st.derefs.iter().map(|d| -> Stmt { parse_quote!(let #d = *#d;) });
                *e = parse_quote!({
                    let #src = vx::slice_of(&#x);
                    let mut #idx: usize = 0;
                    while #idx < #src.len() { __vx_loop!(#key, #kk); let #pat = &#src[#idx]; #(#ds)* #idx += 1; #(#stm)* __vx_loopend!(#key, #kk); }
                });
                return;
            }
            Expr::If(i) => {
                i.attrs.clear();
                if let Some(f) = dbg_log_block(i) {
                    if self.cx.dropped_fields.iter().any(|x| x.ends_with(&format!(".{}", f))) {
                        self.cx.report.hit("debug-log block dropped");
                        *e = parse_quote!({});
                        return;
                    }
                }
                if let Expr::Let(l) = unparen(&i.cond) {
                    if has_ref(&l.pat) {
                        self.cx.report.hit("if-let to match");
                        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
                        let el: Expr = match &i.else_branch { Some((_, b)) => (**b).clone(), None => parse_quote!({}) };
                        *e = parse_quote!(match #x { #p => #t, _ => #el });
                        return self.visit_expr_mut(e);
                    }
                }
            }
            Expr::Match(m) => {
                m.attrs.clear();
                let mut s = (*m.expr).clone();
                for a in m.arms.iter_mut() { a.attrs.clear(); }
                self.arms(&mut s, &mut m.arms);
                // guarded arms: an `if` in the arm, falling through to the arms after it
                let place = is_place(&s);
                let mut k = m.arms.len();
                while k > 0 && place {
                    k -= 1;
                    if m.arms[k].guard.is_none() { continue; }
                    let (_, g) = m.arms[k].guard.take().unwrap();
                    let a = (*m.arms[k].body).clone();
                    self.cx.report.hit("match guard to if");
                    if k + 1 < m.arms.len() && m.arms[k + 1].guard.is_none() && toks(&m.arms[k + 1].pat) == toks(&m.arms[k].pat) {
                        let b = (*m.arms[k + 1].body).clone();
                        *m.arms[k].body = parse_quote!({ if #g { #a } else { #b } });
                        m.arms.remove(k + 1);
                    } else {
                        let rest: Vec<Arm> = m.arms[k + 1..].to_vec();
                        *m.arms[k].body = parse_quote!({ if #g { #a } else { match #s { #(#rest)* _ => vx::unreachable() } } });
                    }
                    m.arms[k].comma = Some(Default::default());
                }
                *m.expr = s;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        let repl: Option<Expr> = match e {
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                if ["format_args", "format"].contains(&n.as_str()) {
                    if !pure_macro(&m.mac) {
                        self.cx.report.lines.push(format!("WARN\t{}\timpure format arguments", self.key));
                        None
                    } else { self.cx.report.hit("format arguments dropped"); Some(parse_quote!(vx::fmt())) }
                } else { None }
            }
            Expr::Try(t) if self.ret_result => {
                let (ev, ov) = (self.tmp("e"), self.tmp("v"));
                let x = &t.expr;
                self.cx.report.hit("? to match");
                Some(parse_quote!((match #x { Ok(#ov) => #ov, Err(#ev) => return Err(vx::Conv::conv(#ev)) })))
            }
            Expr::Call(c) => {
                let f = toks(&c.func);
                if f.contains("__export::must_use") || (f.contains("alloc::") && f.ends_with("fmt::format")) {
                    Some(parse_quote!(vx::fmt()))
                } else if f.ends_with("_eprint") || f.ends_with("_print") {
                    Some(parse_quote!({}))
                } else if is_diverging_panic(&f) {
                    self.cx.report.hit("panic as unreachable obligation");
                    Some(parse_quote!(vx::unreachable()))
                } else if (f == "usize::min" || f == "std::cmp::min" || f == "cmp::min" || f == "min") && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::usize_min(#a, #b)))
                } else if f == "usize::max" && c.args.len() == 2 {
                    let (a, b) = (&c.args[0], &c.args[1]);
                    Some(parse_quote!(vx::usize_max(#a, #b)))
                } else if (f == "Vec::with_capacity" || f.ends_with("vec::Vec::with_capacity")) && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::vec_with_capacity(#a)))
                } else if f == "String::with_capacity" && c.args.len() == 1 {
                    let a = &c.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::string_with_capacity(#a)))
                } else if f.ends_with("vec::from_elem") && c.args.len() == 2 {
                    let a = &c.args;
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::vec_from_elem(#a)))
                } else if f.starts_with("size_of::<") || f.starts_with("std::mem::size_of::<") || f.starts_with("mem::size_of::<") {
                    let t = f.split("size_of::<").nth(1).unwrap().trim_end_matches('>');
                    let n = match t { "u8" | "i8" | "bool" => 1, "u16" | "i16" => 2, "u32" | "i32" | "f32" | "char" => 4, "u64" | "i64" | "f64" | "usize" | "isize" => 8, "u128" | "i128" => 16, _ => 0 };
                    if n == 0 { None } else { let l = Lit::Int(LitInt::new(&n.to_string(), proc_macro2::Span::call_site())); Some(Expr::Lit(ExprLit { attrs: vec![], lit: l })) }
                } else if f.ends_with("::from_le_bytes") || f.ends_with("::to_le_bytes") {
                    let t = f.rsplit("::").nth(1).unwrap().to_string();
                    let m = f.rsplit("::").next().unwrap().to_string();
                    let id = Ident::new(&format!("{}_{}", t, m), proc_macro2::Span::call_site());
                    let mut a = c.args[0].clone();
                    let ty: Type = parse_str(&t).unwrap();
                    if let Expr::Cast(k) = &mut a { if matches!(*k.ty, Type::Infer(_)) { *k.ty = ty; } }
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::#id(#a)))
                } else if f.ends_with("box_assume_init_into_vec_unsafe") && c.args.len() == 1 && matches!(&c.args[0], Expr::Call(k) if k.args.len() == 2) {
                    // vec![..]
                    let Expr::Call(k) = &c.args[0] else { unreachable!() };
                    let a = &k.args[1];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::vec_of(#a)))
                } else if f.ends_with("::into_vec") && c.args.len() == 1 && matches!(&c.args[0], Expr::Call(k) if k.args.len() == 1) {
                    let Expr::Call(k) = &c.args[0] else { unreachable!() };
                    let a = &k.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::vec_of(#a)))
                } else if ["known_schema", "shapes"].iter().any(|m| self.key.starts_with(m)) && c.args.len() == 1 && matches!(&c.args[0], Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))
                    && ["From::from", "Into::into", "ToString::to_string", "ToOwned::to_owned", ">::from", ">::into", ">::to_string", ">::to_owned", "str::to_owned", "str::to_string"].iter().any(|t| f.ends_with(t)) {
                    let a = &c.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::string_of(#a)))
                } else if f.ends_with("String::from") && c.args.len() == 1 && ["known_schema", "shapes"].iter().any(|m| self.key.starts_with(m)) {
                    let a = &c.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::string_of(#a)))
                } else if f.starts_with("type_name::<") || f.starts_with("std::any::type_name::<") {
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::type_name()))
                } else if f.ends_with("String::from_utf8") || f == "take" || f == "mem::take" || f == "std::mem::take" || f == "char::from_u32" || f.ends_with("mem::replace") {
                    let n = f.rsplit("::").next().unwrap().to_string();
                    let n = match n.as_str() { "from_utf8" => "string_from_utf8", "take" => "mem_take", "from_u32" => "char_from_u32", x => x }.to_string();
                    let id = Ident::new(&n, proc_macro2::Span::call_site());
                    let a = &c.args;
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::#id(#a)))
                } else if f.ends_with("::try_from") && c.args.len() == 1 {
                    let t = f.rsplit("::").nth(1).unwrap().to_string();
                    let id = Ident::new(&format!("{}_try_from", t), proc_macro2::Span::call_site());
                    let a = &c.args[0];
                    self.cx.report.hit("std function as vx");
                    Some(parse_quote!(vx::#id(#a)))
                } else { None }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = (*m.receiver).clone();
                match (n.as_str(), m.args.len()) {
                    ("next", 0) => {
                        // x.iter().rev().next(), x.iter_mut().rev().next()
                        let mut out = None;
                        if let Expr::MethodCall(m2) = &r {
                            if m2.method == "rev" {
                                if let Expr::MethodCall(m3) = &*m2.receiver {
                                    let v = &m3.receiver;
                                    if m3.method == "iter" { out = Some(parse_quote!(#v.last())); }
                                    if m3.method == "iter_mut" { out = Some(parse_quote!(#v.last_mut())); }
                                }
                            }
                        }
                        if out.is_some() { self.cx.report.hit("last element of reversed iterator"); }
                        out
                    }
                    ("into" | "to_string" | "to_owned", 0) if ["known_schema", "shapes"].iter().any(|m| self.key.starts_with(m)) && matches!(&r, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                        self.cx.report.hit("std function as vx");
                        Some(parse_quote!(vx::string_of(#r)))
                    }
                    ("do_if_err", 1) => {
                        let (ev, ov) = (self.tmp("e"), self.tmp("v"));
                        let body = self.apply(&m.args[0].clone(), &parse_quote!(()));
                        body.map(|b| { self.cx.report.hit("do_if_err inlined"); parse_quote!((match #r { Err(#ev) => { #b; Err(#ev) } Ok(#ov) => Ok(#ov) })) })
                    }
                    ("map_err", 1) => {
                        let (ev, ov) = (self.tmp("e"), self.tmp("v"));
                        let body = self.apply(&m.args[0].clone(), &parse_quote!(#ev));
                        body.map(|b| { self.cx.report.hit("combinator inlined"); parse_quote!((match #r { Err(#ev) => Err(#b), Ok(#ov) => Ok(#ov) })) })
                    }
                    ("ok_or_else", 1) => {
                        let ov = self.tmp("v");
                        let body = self.apply(&m.args[0].clone(), &parse_quote!(()));
                        body.map(|b| { self.cx.report.hit("combinator inlined"); parse_quote!((match #r { Some(#ov) => Ok(#ov), None => Err(#b) })) })
                    }
                    ("ok_or", 1) => {
                        let ov = self.tmp("v"); let b = &m.args[0];
                        Some(parse_quote!((match #r { Some(#ov) => Ok(#ov), None => Err(#b) })))
                    }
                    ("and_then", 1) | ("map", 1) => {
                        let (ev, ov) = (self.tmp("e"), self.tmp("v"));
                        let opt = self.looks_option(&r);
                        let body = self.apply(&m.args[0].clone(), &parse_quote!(#ov));
                        body.map(|b| {
                            self.cx.report.hit("combinator inlined");
                            let b: Expr = if n == "map" { if opt { parse_quote!(Some(#b)) } else { parse_quote!(Ok(#b)) } } else { b };
                            if opt { parse_quote!((match #r { Some(#ov) => #b, None => None })) }
                            else { parse_quote!((match #r { Ok(#ov) => #b, Err(#ev) => Err(#ev) })) }
                        })
                    }
                    ("to_le_bytes", 0) => {
                        self.cx.report.hit("std function as vx");
                        Some(parse_quote!(vx::ToLe::vx_to_le_bytes(#r)))
                    }
                    ("resize", 2) | ("reserve", 1) => {
                        let id = Ident::new(&format!("vx_{}", n), proc_macro2::Span::call_site());
                        let a = &m.args;
                        self.cx.report.hit("std function as vx");
                        Some(parse_quote!(#r.#id(#a)))
                    }
                    ("borrow_mut", 0) => { self.cx.report.hit("std function as vx"); Some(parse_quote!(#r.as_sl_mut())) }
                    ("borrow", 0) => { self.cx.report.hit("std function as vx"); Some(parse_quote!(#r.as_sl())) }
                    ("min", 1) => { let b = &m.args[0]; Some(parse_quote!(vx::usize_min(#r, #b))) }
                    ("checked_sub", 1) => { let b = &m.args[0]; self.cx.report.hit("std function as vx"); Some(parse_quote!(vx::usize_checked_sub(#r, #b))) }
                    ("checked_add", 1) => { let b = &m.args[0]; self.cx.report.hit("std function as vx"); Some(parse_quote!(vx::usize_checked_add(#r, #b))) }
                    ("into", 0) => None,
                    _ => None,
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !is_lit(&b.left) && !is_lit(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                self.cx.report.hit("equality by type");
                if matches!(b.op, BinOp::Eq(_)) { Some(parse_quote!(vx::VxEq::eqx(&(#l), &(#r)))) }
                else { Some(parse_quote!((!vx::VxEq::eqx(&(#l), &(#r))))) }
            }
            Expr::Reference(r) => {
                // &x[..n], &mut x[..n], &x[n..], &mut x[n..]
                let mut out = None;
                if let Expr::Index(ix) = unparen(&r.expr) {
                    if let Expr::Range(rg) = unparen(&ix.index) {
                        let v = &ix.expr;
                        let m = r.mutability.is_some();
                        let f = match (&rg.start, &rg.end, &rg.limits) {
                            (None, Some(_), RangeLimits::HalfOpen(_)) => Some("slice_to"),
                            (Some(_), None, _) => Some("slice_from"),
                            (Some(_), Some(_), RangeLimits::HalfOpen(_)) => Some("slice_range"),
                            (None, None, _) => Some("slice_full"),
                            _ => None,
                        };
                        if let Some(f) = f {
                            let id = Ident::new(&format!("{}{}", f, if m { "_mut" } else { "" }), proc_macro2::Span::call_site());
                            let mut args: Vec<Expr> = vec![];
                            if let Some(s) = &rg.start { args.push((**s).clone()); }
                            if let Some(s) = &rg.end { args.push((**s).clone()); }
                            self.cx.report.hit("range index as vx slice");
                            out = Some(parse_quote!(#v.#id(#(#args),*)));
                        }
                    }
                }
                out
            }
            Expr::Struct(s) => {
                // dropped fields
                let n = s.path.segments.last().unwrap().ident.to_string();
                let n = if n == "Self" { self.key.rsplit("::").nth(1).unwrap_or("").split(" as ").next().unwrap().to_string() } else { n };
                let kept: punctuated::Punctuated<FieldValue, Token![,]> = s.fields.iter().filter(|f| {
                    let Member::Named(i) = &f.member else { return true };
                    !self.cx.dropped_fields.contains(&format!("{}.{}", n, i))
                }).cloned().collect();
                if kept.len() != s.fields.len() { self.cx.report.hit("field of dyn type dropped"); s.fields = kept; }
                None
            }
            _ => None,
        };
        if let Some(x) = repl { *e = x; }
    }
}
