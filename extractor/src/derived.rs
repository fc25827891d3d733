//! `impl Serialize for T`, derived by serde for a type of the crate or written by
//! hand, with the serializer taken to be the crate's encoder: the type parameter of
//! `serialize` is instantiated with `&mut Encoder<W>`, and the calls of serde's
//! traits on it become calls of the encoder's (flattened) functions.
use quote::ToTokens;
use syn::visit_mut::VisitMut;
use syn::*;

struct Calls { ser: String, hits: usize }
fn path_end(e: &Expr) -> Option<(String, String)> {
    let Expr::Path(p) = e else { return None };
    let n = p.path.segments.len();
    if n < 2 { return None; }
    Some((p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string()))
}
impl VisitMut for Calls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let tr = |t: &str| t == "Serializer" || (t.starts_with("Serialize") && t.len() > 9);
        if let Expr::Call(c) = e {
            if let Some((t, f)) = path_end(&c.func) {
                if tr(&t) && !c.args.is_empty() {
                    let id = Ident::new(&format!("{}__{}", t, f), proc_macro2::Span::call_site());
                    let recv = match &c.args[0] { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                    let rest: Vec<&Expr> = c.args.iter().skip(1).collect();
                    *e = parse_quote!(#recv.#id(#(#rest),*));
                    self.hits += 1;
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method.to_string().starts_with("serialize_") && m.receiver.to_token_stream().to_string() == self.ser {
                m.method = Ident::new(&format!("Serializer__{}", m.method), m.method.span()); self.hits += 1; return;
            }
        }
        // the number of fields is written as `false as usize + 1 + ..`
        if let Expr::Cast(c) = e {
            if let Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) = &*c.expr {
                *e = if b.value { parse_quote!(1usize) } else { parse_quote!(0usize) };
            }
        }
    }
}

fn convert(i: &ItemImpl) -> Option<ItemImpl> {
    let (_, p, _) = i.trait_.as_ref()?;
    if p.segments.last()?.ident != "Serialize" || i.generics.params.iter().any(|g| !matches!(g, GenericParam::Lifetime(_))) { return None; }
    let f = i.items.iter().find_map(|x| match x { ImplItem::Fn(f) if f.sig.ident == "serialize" => Some(f), _ => None })?;
    let arg = match f.sig.inputs.iter().nth(1)? { FnArg::Typed(t) => match &*t.pat { Pat::Ident(n) => n.ident.clone(), _ => return None }, _ => return None };
    let mut block = f.block.clone();
    let mut c = Calls { ser: arg.to_string(), hits: 0 };
    c.visit_block_mut(&mut block);
    if c.hits == 0 { return None; }
    let (g, _, w) = i.generics.split_for_impl();
    let st = &i.self_ty;
    Some(parse_quote! {
        impl #g #st #w {
            pub fn Serialize__serialize<'vxa, 'vxb, VXW: Write>(&self, #arg: &mut crate::encoder::Encoder<'vxa, 'vxb, VXW>) -> core::result::Result<(), crate::error::Error> #block
        }
    })
}

/// adds them to the modules their types are in
pub fn add(items: &mut Vec<Item>, n: &mut usize) {
    let mut new = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Mod(m) => if let Some((_, its)) = &mut m.content { if m.ident != "serde" { add(its, n); } },
            Item::Const(c) if c.ident == "_" => if let Expr::Block(b) = &*c.expr {
                for s in &b.block.stmts { if let Stmt::Item(Item::Impl(i)) = s { if let Some(x) = convert(i) { new.push(Item::Impl(x)); } } }
            },
            Item::Impl(i) => if let Some(x) = convert(i) { *i = x; *n += 1; },
            _ => {}
        }
    }
    *n += new.len();
    items.extend(new);
}
