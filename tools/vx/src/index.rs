//! Where every function and type of the expanded source is.
use std::collections::{BTreeMap, HashMap};
use syn::*;

#[derive(Clone)]
pub struct FnInfo { pub sig: Signature, pub block: Block, pub self_ty: Option<String> }
#[derive(Default)]
pub struct Src {
    pub fns: BTreeMap<String, FnInfo>,
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    /// simple function name -> which parameters (without self) are texts, when all functions of that name agree
    pub str_args: HashMap<String, Vec<bool>>,
    pub derived: Vec<(String, String)>,
    /// the names of functions with a receiver
    pub methods: std::collections::BTreeSet<String>,
}

pub fn last_seg(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
pub fn type_name(t: &Type) -> String {
    match t { Type::Path(p) => last_seg(&p.path), Type::Reference(r) => type_name(&r.elem), Type::Paren(p) => type_name(&p.elem), _ => "?".into() }
}
fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("test") || a.path().is_ident("rustc_test_marker")) }

impl Src {
    pub fn add_items(&mut self, prefix: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Mod(m) => { if let Some((_, items)) = &m.content { self.add_items(prefix, items) } }
                Item::Fn(f) => { if !is_test(&f.attrs) { self.add_fn(format!("{}{}", prefix, f.sig.ident), FnInfo { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None }); } }
                Item::Struct(s) => { self.structs.insert(s.ident.to_string(), s.clone()); }
                Item::Enum(s) => { self.enums.insert(s.ident.to_string(), s.clone()); }
                Item::Impl(i) => {
                    let ty = type_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|t| {
                        let seg = t.1.segments.last().unwrap();
                        match &seg.arguments { PathArguments::AngleBracketed(a) => { let n: Vec<String> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(type_name(t)) } else { None }).collect(); if n.is_empty() || n[0] == ty { seg.ident.to_string() } else { format!("{}<{}>", seg.ident, n.join(",")) } } _ => seg.ident.to_string() }
                    });
                    if i.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) { if let Some(t) = tr { self.derived.push((ty, t)); } continue; }
                    for f in &i.items {
                        if let ImplItem::Fn(f) = f {
                            let n = match &tr { Some(t) => format!("<{} as {}>::{}", ty, t, f.sig.ident), None => format!("{}{}::{}", prefix, ty, f.sig.ident) };
                            self.add_fn(n, FnInfo { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some(ty.clone()) });
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn add_fn(&mut self, n: String, mut f: FnInfo) {
        // names that mean something else to the verifier
        fn ren(t: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            t.into_iter().map(|x| match x {
                proc_macro2::TokenTree::Ident(i) if matches!(&i.to_string()[..], "int" | "nat" | "spec" | "proof" | "exec" | "ghost" | "tracked" | "real" | "any_text" | "not_reached") => proc_macro2::TokenTree::Ident(quote::format_ident!("{}_", i)),
                proc_macro2::TokenTree::Group(g) => { let mut h = proc_macro2::Group::new(g.delimiter(), ren(g.stream())); h.set_span(g.span()); proc_macro2::TokenTree::Group(h) }
                x => x,
            }).collect()
        }
        let b = ren(quote::ToTokens::to_token_stream(&f.block));
        if let Ok(b) = syn::parse2(b) { f.block = b; }
        let s = ren(quote::ToTokens::to_token_stream(&f.sig));
        if let Ok(s) = syn::parse2(s) { f.sig = s; }
        self.fns.insert(n, f);
    }
    pub fn finish(&mut self) {
        let mut seen: HashMap<String, Vec<bool>> = HashMap::new();
        for f in self.fns.values() {
            let gens = str_generics(&f.sig);
            let v: Vec<bool> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if matches!(&*t.pat, Pat::Ident(i) if i.ident == "self") { None } else { Some(is_text(&t.ty, &gens)) } } else { None }).collect();
            let n = f.sig.ident.to_string();
            let recv = f.sig.inputs.iter().any(|a| match a { FnArg::Receiver(_) => true, FnArg::Typed(t) => matches!(&*t.pat, Pat::Ident(i) if i.ident == "self") });
            if !recv { continue; }
            self.methods.insert(n.clone());
            match seen.get_mut(&n) {
                None => { seen.insert(n, v); }
                Some(o) => { if o.len() != v.len() { o.clear(); } else { for i in 0..o.len() { o[i] = o[i] && v[i]; } } }
            }
        }
        self.str_args = seen;
    }
    pub fn variant_texts(&self, ty: &str, var: &str) -> Option<Vec<bool>> {
        let e = self.enums.get(ty)?;
        let v = e.variants.iter().find(|v| v.ident == var)?;
        Some(v.fields.iter().map(|f| is_text(&f.ty, &[])).collect())
    }
    pub fn field_text(&self, ty: &str, field: &str) -> bool {
        self.structs.get(ty).map_or(false, |s| s.fields.iter().any(|f| f.ident.as_ref().map_or(false, |i| i == field) && is_text(&f.ty, &[])))
    }
}

/// the type parameters that stand for texts
pub fn str_generics(sig: &Signature) -> Vec<String> {
    let mut out = vec![];
    let mut look = |name: String, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
        for b in bounds { if let TypeParamBound::Trait(t) = b { let n = last_seg(&t.path); if n == "Into" || n == "AsRef" || n == "ToString" || n == "Display" { out.push(name.clone()); return; } } }
    };
    for p in &sig.generics.params { if let GenericParam::Type(t) = p { look(t.ident.to_string(), &t.bounds); } }
    if let Some(w) = &sig.generics.where_clause { for p in &w.predicates { if let WherePredicate::Type(t) = p { look(type_name(&t.bounded_ty), &t.bounds); } } }
    out
}
pub fn is_text(t: &Type, gens: &[String]) -> bool {
    match t {
        Type::Path(p) => { let n = last_seg(&p.path); n == "String" || n == "str" || n == "Cow" || (p.path.segments.len() == 1 && gens.contains(&n)) }
        Type::Reference(r) => r.mutability.is_none() && is_text(&r.elem, gens),
        Type::Paren(p) => is_text(&p.elem, gens),
        _ => false,
    }
}
