//! The translation of one function.
use crate::index::*;
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Lits { pub texts: BTreeMap<String, usize>, pub regexes: BTreeMap<String, usize> }
impl Lits {
    pub fn lit(&mut self, s: &str) -> Expr {
        let n = self.texts.len(); let k = *self.texts.entry(s.to_string()).or_insert(n);
        let id = format_ident!("lit_{}", k); parse_quote!(#id())
    }
    pub fn re(&mut self, s: &str) -> Expr {
        let n = self.regexes.len(); let k = *self.regexes.entry(s.to_string()).or_insert(n);
        let id = format_ident!("regex_{}", k); parse_quote!(#id())
    }
}

pub struct Tx<'i> {
    pub ix: &'i Src,
    pub lits: &'i mut Lits,
    pub gens: Vec<String>,
    pub self_ty: Option<String>,
    pub loops: usize,
    pub uid: usize,
    pub hooks: BTreeSet<String>,
    pub opts: BTreeSet<String>,
    pub ret_text: bool,
    pub path: String,
    pub used: BTreeSet<String>,
    pub bad: Vec<String>,
    pub self_renamed: bool,
    /// functions with `&mut` parameters in the emitted code: parameters that become `&mut`
    pub mutrefs: BTreeMap<String, Vec<usize>>,
    /// names through which something behind a cell is changed
    pub muts: BTreeSet<String>,
    pub dropped: usize,
    /// texts that nobody reads
    pub quiet: bool,
    /// where the function's own crate begins in the index
    pub prefix: String,
    /// functions that act on the outside world
    pub world: BTreeSet<String>,
    /// parameters that are references to numbers
    pub nums: BTreeSet<String>,
    /// names of counted references
    pub rcs: BTreeSet<String>,
}

pub fn map_type(t: &Type, gens: &[String], self_ty: &Option<String>) -> Type {
    if is_text(t, gens) { return parse_quote!(Str); }
    match t {
        Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let name = seg.ident.to_string();
            let args: Vec<Type> = match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(map_type(t, gens, self_ty)) } else { None }).collect(), _ => vec![] };
            let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let id = &seg.ident;
            match &name[..] {
                "Rc" | "RefCell" | "Cell" | "Box" => args.into_iter().next().unwrap(),
                "HashMap" => { let v = &args[1]; parse_quote!(KMap<#v>) }
                "IResult" => { let v = &args[1]; parse_quote!(IResult<#v>) }
                "Result" if full.len() > 1 && full[full.len() - 2] == "fmt" => parse_quote!(Result<(), ()>),
                "Self" => { if let Some(s) = self_ty { let id = format_ident!("{}", s); parse_quote!(#id) } else { t.clone() } }
                "Iter" | "IterMut" => parse_quote!(#id),
                _ => if args.is_empty() { parse_quote!(#id) } else { parse_quote!(#id<#(#args),*>) },
            }
        }
        // a cell that holds the only reference to something is a reference to it
        Type::Reference(r) if cell_of_ref(&r.elem).is_some() => { let e = map_type(&cell_of_ref(&r.elem).unwrap(), gens, self_ty); parse_quote!(&#e) }
        Type::Reference(r) => { let e = map_type(&r.elem, gens, self_ty); if r.mutability.is_some() { parse_quote!(&mut #e) } else { parse_quote!(&#e) } }
        Type::Tuple(t) => { let v: Vec<Type> = t.elems.iter().map(|e| map_type(e, gens, self_ty)).collect(); if v.len() == 1 { let e = &v[0]; parse_quote!((#e,)) } else { parse_quote!((#(#v),*)) } }
        Type::Paren(p) => map_type(&p.elem, gens, self_ty),
        Type::Slice(s) => { let e = map_type(&s.elem, gens, self_ty); parse_quote!(Vec<#e>) }
        _ => t.clone(),
    }
}

/// `RefCell<&mut T>`: T
fn cell_of_ref(t: &Type) -> Option<Type> {
    if let Type::Path(p) = t { let s = p.path.segments.last()?; if s.ident == "RefCell" { if let PathArguments::AngleBracketed(a) = &s.arguments { if let Some(GenericArgument::Type(Type::Reference(r))) = a.args.first() { if r.mutability.is_some() { return Some((*r.elem).clone()); } } } } }
    None
}
/// `RefCell::new(&mut x)`: x
fn new_cell_of_ref(e: &Expr) -> Option<Expr> {
    if let Expr::Call(c) = strip(e) { if path_str(&c.func).ends_with("RefCell::new") && c.args.len() == 1 { if let Expr::Reference(r) = strip(&c.args[0]) { if r.mutability.is_some() && root_of(&r.expr).is_some() { return Some((*r.expr).clone()); } } } }
    None
}
/// a name for such a cell is a name for what it refers to
struct Unalias(Vec<(String, Expr)>);
impl VisitMut for Unalias {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.0.len(); let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s { if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) { if let Some(t) = new_cell_of_ref(&x.expr) { self.0.push((i.ident.to_string(), t)); continue; } } }
            self.visit_stmt_mut(&mut s); out.push(s);
        }
        b.stmts = out; self.0.truncate(n);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = e { if let Some(t) = new_cell_of_ref(&r.expr) { *e = parse_quote!(&#t); return; } }
        if let Expr::Path(p) = e { if let Some(i) = p.path.get_ident() { if let Some((_, t)) = self.0.iter().rev().find(|(n, _)| i == n) { *e = t.clone(); return; } } }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn has_free_ref(p: &Pat, mutable: bool) -> bool {
    match p {
        Pat::Reference(_) => false,
        Pat::Ident(i) => i.by_ref.is_some() && i.mutability.is_some() == mutable,
        Pat::Tuple(t) => t.elems.iter().any(|e| has_free_ref(e, mutable)),
        Pat::TupleStruct(t) => t.elems.iter().any(|e| has_free_ref(e, mutable)),
        Pat::Struct(t) => t.fields.iter().any(|e| has_free_ref(&e.pat, mutable)),
        Pat::Or(t) => t.cases.iter().any(|e| has_free_ref(e, mutable)),
        Pat::Paren(t) => has_free_ref(&t.pat, mutable),
        _ => false,
    }
}
fn is_lit_pat(p: &Pat) -> bool {
    match p { Pat::Lit(l) => matches!(l.lit, Lit::Str(_)), Pat::Reference(r) => is_lit_pat(&r.pat), Pat::Or(o) => o.cases.iter().any(is_lit_pat), Pat::Paren(q) => is_lit_pat(&q.pat), _ => false }
}
fn str_of(e: &Expr) -> Option<String> { match e { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()), Expr::Paren(p) => str_of(&p.expr), Expr::Reference(r) => str_of(&r.expr), _ => None } }
fn path_str(e: &Expr) -> String { if let Expr::Path(p) = e { p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") } else { String::new() } }
pub fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(p) => strip(&p.expr), Expr::Block(b) if b.block.stmts.len() == 1 && b.label.is_none() => if let Stmt::Expr(x, None) = &b.block.stmts[0] { strip(x) } else { e }, _ => e } }

enum Step { Lit(String), Disp(Expr), Pad(Expr, usize), PadR(Expr, usize), Dbg }

impl<'i> Tx<'i> {
    fn k(&mut self) -> usize { self.uid += 1; self.uid }
    fn find(&self, f: &str) -> Option<&'i FnInfo> { self.ix.fns.get(&format!("{}{}", self.prefix, f)).or_else(|| self.ix.fns.get(f)) }
    fn acts(&self, f: &str) -> bool { self.world.contains(&format!("{}{}", self.prefix, f)) || self.world.contains(f) }
    fn hook(&mut self, name: String) -> Vec<Stmt> {
        if self.hooks.contains(&name) { self.used.insert(name.clone()); let id = format_ident!("{}", name.replace(' ', "_")); vec![parse_quote!(__hook!(#id);)] } else { vec![] }
    }
    fn is_unit_const(&self, n: &str) -> bool { n.chars().next().map_or(false, |c| c.is_uppercase()) }
    fn pat(&mut self, p: &Pat, under: bool, derefs: &mut Vec<Ident>) -> Pat {
        match p {
            Pat::Reference(r) => self.pat(&r.pat, true, derefs),
            Pat::Paren(q) => self.pat(&q.pat, under, derefs),
            Pat::Ident(i) => {
                let id = &i.ident;
                if i.by_ref.is_some() { return parse_quote!(#id); }
                if self.is_unit_const(&id.to_string()) { return p.clone(); }
                if under && i.subpat.is_none() { derefs.push(id.clone()); }
                if i.subpat.is_some() { self.bad.push("a pattern with @".into()); }
                if i.mutability.is_some() { parse_quote!(mut #id) } else { parse_quote!(#id) }
            }
            Pat::Tuple(t) => { let v: Vec<Pat> = t.elems.iter().map(|e| self.pat(e, under, derefs)).collect(); parse_quote!((#(#v),*)) }
            Pat::TupleStruct(t) => {
                let path = self.path(&t.path);
                let s = path.to_token_stream().to_string().replace(' ', "");
                if s == "IResult::Error" { return parse_quote!(IResult::Error); }
                if s == "Needed::Size" { return parse_quote!(Needed::Size); }
                let v: Vec<Pat> = t.elems.iter().map(|e| self.pat(e, under, derefs)).collect(); parse_quote!(#path(#(#v),*))
            }
            Pat::Struct(t) => {
                let path = self.path(&t.path);
                let v: Vec<TokenStream> = t.fields.iter().map(|f| { let m = &f.member; let q = self.pat(&f.pat, under, derefs); quote!(#m: #q) }).collect();
                if t.rest.is_some() { parse_quote!(#path { #(#v,)* .. }) } else { parse_quote!(#path { #(#v),* }) }
            }
            Pat::Or(t) => { let mut d = vec![]; let v: Vec<Pat> = t.cases.iter().map(|e| { d.clear(); self.pat(e, under, &mut d) }).collect(); derefs.extend(d); parse_quote!(#(#v)|*) }
            Pat::Path(q) => { let mut q = q.clone(); q.path = self.path(&q.path); Pat::Path(q) }
            Pat::Type(t) => self.pat(&t.pat, under, derefs),
            _ => p.clone(),
        }
    }
    fn path(&self, p: &Path) -> Path {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = segs.len();
        let last = &segs[n - 1];
        if matches!(&last[..], "Ok" | "Err" | "Some" | "None") && (n == 1 || matches!(&segs[n - 2][..], "Option" | "Result")) { let id = format_ident!("{}", last); return parse_quote!(#id); }
        if n >= 2 && self.is_unit_const(&segs[n - 2]) {
            let mut a = segs[n - 2].clone();
            if a == "Self" { if let Some(s) = &self.self_ty { a = s.clone(); } }
            let (a, b) = (format_ident!("{}", a), format_ident!("{}", last));
            return parse_quote!(#a::#b);
        }
        let id = format_ident!("{}", if last == "self" && self.self_renamed { "this" } else { &last[..] });
        if n == 1 && p.segments[0].arguments.is_empty() && last == "self" && !self.self_renamed { return p.clone(); }
        if n >= 2 && matches!(&segs[n - 2][..], "usize" | "u64" | "i64" | "f64" | "u32") { let a = format_ident!("{}", segs[n - 2]); return parse_quote!(#a::#id); }
        parse_quote!(#id)
    }
    fn with_derefs(&self, derefs: &[Ident], body: Expr) -> Expr {
        if derefs.is_empty() { return body; }
        let l: Vec<Stmt> = derefs.iter().map(|d| parse_quote!(let #d = *#d;)).collect();
        parse_quote!({ #(#l)* #body })
    }
    fn scrut(&mut self, e: Expr, pats: &[&Pat]) -> (Expr, bool) {
        let mut e = e;
        if !self.muts.is_empty() {
            if let Expr::MethodCall(m) = &mut e { if m.method == "get" && m.args.len() == 1 && pats.iter().any(|p| { let mut v = BTreeSet::new(); binds(p, &mut v); v.iter().any(|x| self.muts.contains(x)) }) { m.method = format_ident!("get_mut"); make_mut_place(&mut m.receiver); return (e, false); } }
            if let Expr::Tuple(t) = &mut e {
                let ps: Vec<&PatTuple> = pats.iter().filter_map(|p| if let Pat::Tuple(t) = p { Some(t) } else { None }).collect();
                for (k, x) in t.elems.iter_mut().enumerate() { if ps.iter().any(|p| p.elems.get(k).map_or(false, |p| self.binds_mut(p))) { make_mut(x); } }
                return (e, false);
            }
            if pats.iter().any(|p| self.binds_mut(p)) {
                if pats.iter().any(|p| has_free_ref(p, false)) { make_mut_place(&mut e); return (if matches!(e, Expr::Reference(_)) { e } else { parse_quote!(&mut #e) }, true); }
                make_mut(&mut e); return (e, false);
            }
        }
        if pats.iter().any(|p| has_free_ref(p, true)) { (if matches!(e, Expr::Reference(_)) { e } else { parse_quote!(&mut #e) }, true) }
        else if pats.iter().any(|p| has_free_ref(p, false)) { (parse_quote!(&#e), true) }
        else { (e, false) }
    }
    /// the pattern binds by reference a name that is used to change something
    fn binds_mut(&self, p: &Pat) -> bool { let mut v = BTreeSet::new(); ref_binds(p, &mut v); v.iter().any(|x| self.muts.contains(x)) }
    fn text_chain(&mut self, m: ExprMatch) -> Expr {
        let s = &m.expr; let id = format_ident!("__s{}", self.k());
        let mut chain: Option<Expr> = None;
        for arm in m.arms.iter().rev() {
            let body = (*arm.body).clone();
            let mut alts = vec![];
            fn collect(p: &Pat, alts: &mut Vec<Option<String>>) { match p { Pat::Lit(l) => if let Lit::Str(s) = &l.lit { alts.push(Some(s.value())) } else { alts.push(None) }, Pat::Reference(r) => collect(&r.pat, alts), Pat::Paren(r) => collect(&r.pat, alts), Pat::Or(o) => for c in &o.cases { collect(c, alts) }, _ => alts.push(None) } }
            collect(&arm.pat, &mut alts);
            if alts.iter().any(|a| a.is_none()) || arm.guard.is_some() {
                if !matches!(arm.pat, Pat::Wild(_)) { self.bad.push("a match on a text with bindings or guards".into()); }
                chain = Some(body);
            } else {
                let mut cond: Option<Expr> = None;
                for a in alts { let l = self.lits.lit(&a.unwrap()); let c: Expr = parse_quote!(#id.eqx(&#l)); cond = Some(match cond { None => c, Some(o) => parse_quote!(#o || #c) }); }
                let cond = cond.unwrap();
                let tail = chain.take().unwrap_or_else(|| parse_quote!(not_reached()));
                chain = Some(parse_quote!(if #cond { #body } else { #tail }));
            }
        }
        let chain = chain.unwrap();
        parse_quote!({ let #id = (#s).as_s(); #chain })
    }
    fn fmt_steps(&mut self, mac: &Macro) -> Vec<Step> {
        let mut out = vec![];
        let parsed = mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        let args: Vec<Expr> = match parsed { Ok(a) => a.into_iter().collect(), Err(_) => { self.bad.push("format_args".into()); return out; } };
        let f = match str_of(&args[0]) { Some(f) => f, None => { self.bad.push("format_args".into()); return out; } };
        let mut rest: Vec<Expr> = args[1..].to_vec();
        for r in rest.iter_mut() { self.visit_expr_mut(r); }
        let c: Vec<char> = f.chars().collect(); let mut i = 0; let mut lit = String::new(); let mut next = 0;
        while i < c.len() {
            if (c[i] == '{' || c[i] == '}') && c.get(i + 1) == Some(&c[i]) { lit.push(c[i]); i += 2; continue; }
            if c[i] == '{' {
                if !lit.is_empty() { out.push(Step::Lit(std::mem::take(&mut lit))); }
                let mut j = i + 1; while c[j] != '}' { j += 1; }
                let spec: String = c[i + 1..j].iter().collect(); i = j + 1;
                let (pos, fm) = match spec.find(':') { Some(p) => (&spec[..p], &spec[p + 1..]), None => (&spec[..], "") };
                let n: usize = if pos.is_empty() { next += 1; next - 1 } else { match pos.parse() { Ok(n) => n, Err(_) => { self.bad.push("a named format argument".into()); return out; } } };
                if n >= rest.len() { self.bad.push("format_args".into()); return out; }
                let e = rest[n].clone();
                if fm.is_empty() { out.push(Step::Disp(e)) }
                else if fm.contains('?') { out.push(Step::Dbg) }
                else if fm.starts_with("0>") && fm[2..].parse::<usize>().is_ok() { out.push(Step::Pad(e, fm[2..].parse().unwrap())) }
                else if fm.starts_with('0') && fm[1..].parse::<usize>().is_ok() { out.push(Step::Pad(e, fm[1..].parse().unwrap())) }
                else if fm.starts_with("0<") && fm[2..].parse::<usize>().is_ok() { out.push(Step::PadR(e, fm[2..].parse().unwrap())) }
                else { self.bad.push(format!("the format {{:{}}}", fm)); return out; }
            } else { lit.push(c[i]); i += 1; }
        }
        if !lit.is_empty() { out.push(Step::Lit(lit)); }
        out
    }
    fn step(&mut self, s: &Step, f: &Expr) -> Expr {
        match s {
            Step::Lit(l) => { let l = if l.len() > 40 { parse_quote!(any_text()) } else { self.lits.lit(l) }; parse_quote!(#l.fmt(#f)) }
            Step::Disp(e) => parse_quote!((#e).fmt(#f)),
            Step::Pad(e, n) => parse_quote!((#e).pad0(#f, #n)),
            Step::PadR(e, n) => parse_quote!((#e).pad0r(#f, #n)),
            Step::Dbg => parse_quote!(any_text().fmt(#f)),
        }
    }
    fn fmt_write(&mut self, f: &Expr, steps: Vec<Step>) -> Expr {
        let mut acc: Option<Expr> = None;
        for s in steps.iter().rev() {
            let e = self.step(s, f);
            acc = Some(match acc { None => e, Some(r) => parse_quote!(match #e { Err(e) => Err(e), Ok(_) => #r }) });
        }
        acc.unwrap_or_else(|| parse_quote!(Ok(())))
    }
    fn fmt_string(&mut self, steps: Vec<Step>) -> Expr {
        if self.quiet { return parse_quote!(any_text()); }
        let id = format_ident!("__f{}", self.k());
        let fe: Expr = parse_quote!(&mut #id);
        let l: Vec<Stmt> = steps.iter().map(|s| { let e = self.step(s, &fe); parse_quote!(let _ = #e;) }).collect();
        parse_quote!({ let mut #id = Formatter::new(); #(#l)* #id.finish() })
    }
    fn text_arg(&self, e: Expr) -> Expr { if matches!(&e, Expr::MethodCall(m) if m.method == "as_s") || path_str(&e).starts_with("lit_") { e } else { parse_quote!((#e).as_s()) } }
    /// an iteration source: (element expression for index `i`, length expression, binding of the container)
    fn source(&mut self, e: &Expr, k: usize) -> Option<(Stmt, Expr, Expr)> {
        let it = format_ident!("__it{}", k); let i = format_ident!("__n{}", k);
        let (kind, recv): (String, Expr) = match strip(e) {
            Expr::MethodCall(m) if m.args.is_empty() && matches!(&m.method.to_string()[..], "iter" | "bytes" | "into_iter" | "char_indices") => (m.method.to_string(), (*m.receiver).clone()),
            Expr::Reference(r) => ("iter".into(), (*r.expr).clone()),
            _ => return None,
        };
        if kind == "char_indices" { return Some((parse_quote!(let #it = (#recv).char_list();), parse_quote!(#it.len()), parse_quote!(#it[#i]))); }
        if kind == "bytes" { return Some((parse_quote!(let #it = (#recv).as_s();), parse_quote!(#it.len()), parse_quote!(#it.at(#i)))); }
        if let Expr::Index(ix) = strip(&recv) { if let Expr::Range(r) = strip(&ix.index) { if r.start.is_none() && r.end.is_some() { let (c, end) = (&ix.expr, r.end.as_ref().unwrap()); let el = format_ident!("__el{}", k);
            return Some((parse_quote!(let (#it, #el) = (#c.rf(), #end);), parse_quote!(#el), parse_quote!(&#it[#i]))); } } }
        if kind == "into_iter" { return Some((parse_quote!(let #it = #recv;), parse_quote!(#it.len()), parse_quote!(#it[#i].vclone()))); }
        Some((parse_quote!(let #it = (#recv).rf();), parse_quote!(#it.len()), parse_quote!(&#it[#i])))
    }
    fn range_index(&mut self, base: &Expr, r: &ExprRange) -> Expr {
        let incl = matches!(r.limits, RangeLimits::Closed(_));
        if incl { self.bad.push("a closed range".into()); }
        match (&r.start, &r.end) {
            (None, None) => parse_quote!((#base).as_s()),
            (Some(a), None) => parse_quote!(#base.sl_from(#a)),
            (None, Some(b)) => parse_quote!(#base.sl_to(#b)),
            (Some(a), Some(b)) => parse_quote!(#base.sl(#a, #b)),
        }
    }
    fn block(&mut self, b: &mut Block) {
        if self.opts.contains("slice") { self.slice(b); }
        let mut out = vec![];
        // what is printed before leaving with an error
        let was = self.quiet;
        if self.opts.contains("errtext") && b.stmts.iter().any(|s| matches!(s, Stmt::Expr(Expr::Call(c), _) if path_str(&c.func).ends_with("process::exit"))) { self.quiet = true; }
        for s in std::mem::take(&mut b.stmts) {
            let mut s = s;
            // drop logging, empty statements and imports
            let drop = match &s {
                Stmt::Expr(e, _) => is_log(e),
                Stmt::Item(Item::Use(_)) => true,
                Stmt::Macro(_) => false,
                Stmt::Local(l) => matches!(&l.pat, Pat::Ident(i) if i.ident == "size") && l.init.is_some() && has_needed(l),
                _ => false,
            };
            if drop { continue; }
            if let Stmt::Expr(Expr::Verbatim(t), _) = &s { if t.is_empty() { continue; } }
            match &mut s {
                Stmt::Local(l) if l.init.is_none() && matches!(&l.pat, Pat::Tuple(_)) => {
                    if let Pat::Tuple(t) = &l.pat { for x in &t.elems { if let Pat::Ident(i) = x { let id = &i.ident; let pre = format!("ty={}:", id); match self.opts.iter().find(|o| o.starts_with(&pre)).and_then(|o| parse_str::<Type>(&o[pre.len()..]).ok()) { Some(ty) => out.push(parse_quote!(let mut #id: #ty = unset();)), None => out.push(parse_quote!(let mut #id = unset();)) } } else { self.bad.push("let without value".into()); } } }
                }
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        let t = init.expr.to_token_stream().to_string();
                        if t.contains("iter_pos") { if t.replace(' ', "") == "c.iter_pos().filter(|el|el.is_some()).map(|el|el.unwrap()).map(|(begin,end)|&i[begin..end]).collect()" { init.expr = parse_quote!(c.groups()); l.pat = match &l.pat { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }; out.push(s); continue; } else if matches!(&*init.expr, Expr::MethodCall(_)) { self.bad.push("regex captures".into()); } }
                        if t.contains("as_ptr") { if t.replace(' ', "") == "{letend=v.last().unwrap();end.as_ptr()asusize+end.len()-i.as_ptr()asusize}" { init.expr = parse_quote!(c.groups_end()); out.push(s); continue; } else if matches!(&*init.expr, Expr::Block(b) if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Binary(_), None)))) { self.bad.push("pointer arithmetic".into()); } }
                    }
                    if let Some(init) = &mut l.init { self.visit_expr_mut(&mut init.expr); if let Some((_, e)) = &mut init.diverge { self.visit_expr_mut(e); } }
                    let (inner, ty) = match &l.pat { Pat::Type(t) => ((*t.pat).clone(), Some(map_type(&t.ty, &self.gens, &self.self_ty))), p => (p.clone(), None) };
                    if has_free_ref(&inner, false) || has_free_ref(&inner, true) {
                        let e = &l.init.as_ref().unwrap().expr; let (e2, _) = self.scrut((**e).clone(), &[&inner]); l.init.as_mut().unwrap().expr = Box::new(e2);
                    }
                    if let (Pat::Ident(i), Some(init)) = (&inner, &mut l.init) { if self.muts.contains(&i.ident.to_string()) && (matches!(&*init.expr, Expr::Reference(_)) || matches!(&*init.expr, Expr::MethodCall(m) if m.method == "rf")) { make_mut(&mut init.expr); } }
                    let mut d = vec![];
                    let p2 = match self.pat(&inner, false, &mut d) { Pat::Ident(mut i) if self.muts.contains(&i.ident.to_string()) && l.init.is_some() => { i.mutability = Some(Default::default()); Pat::Ident(i) } p => p };
                    let was = l.init.is_none();
                    if was {
                        let id = match &p2 { Pat::Ident(i) => i.ident.clone(), _ => { self.bad.push("let without value".into()); continue } };
                        let ty = ty.or_else(|| { let pre = format!("ty={}:", id); self.opts.iter().find(|o| o.starts_with(&pre)).and_then(|o| parse_str::<Type>(&o[pre.len()..]).ok()) });
                        s = match ty { Some(t) => parse_quote!(let mut #id: #t = unset();), None => parse_quote!(let mut #id = unset();) };
                    } else {
                        let text = matches!(&ty, Some(t) if t.to_token_stream().to_string() == "Str");
                        let ty = match (ty, &p2) { (None, Pat::Ident(i)) => { let pre = format!("ty={}:", i.ident); self.opts.iter().find(|o| o.starts_with(&pre)).and_then(|o| parse_str::<Type>(&o[pre.len()..]).ok()) } (t, _) => t };
                        l.pat = match ty { Some(t) => parse_local_pat(&p2, &t), None => p2 };
                        if text { let e = (*l.init.as_ref().unwrap().expr).clone(); l.init.as_mut().unwrap().expr = Box::new(self.text_arg(e)); }
                    }
                    out.push(s);
                    for x in d { out.push(parse_quote!(let #x = *#x;)); }
                    let mut names = BTreeSet::new(); idents(&inner.to_token_stream(), &mut names);
                    for x in names { let h = format!("bind {}", x); if !self.used.contains(&h) { let h = self.hook(h); out.extend(h); } }
                }
                Stmt::Expr(e, semi) => {
                    let had = semi.is_some();
                    let is_loop = matches!(e, Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_));
                    let k = self.loops;
                    if is_loop { let h = self.hook(format!("before {}", k)); out.extend(h); }
                    self.visit_expr_mut(e);
                    if is_loop {
                        // unwrap the block of a translated loop, so that hints after it see its variables
                        if let Expr::Block(b) = e { if b.label.is_none() { out.extend(b.block.stmts.clone()); } else { out.push(s); } } else { out.push(s); }
                        let _ = had; let h = self.hook(format!("after {}", k)); out.extend(h);
                        continue;
                    }
                    let call = match e { Expr::MethodCall(m) => Some(m.method.to_string()), _ => None };
                    if call.is_some() && had { out.push(s); let h = self.hook(format!("call {}", call.unwrap())); out.extend(h); continue; }
                    out.push(s);
                }
                _ => { out.push(s); }
            }
        }
        b.stmts = out;
        self.quiet = was;
    }
    /// drops the statements of a block that neither change its value nor leave it: bookkeeping in the parser's own fields
    fn slice(&mut self, b: &mut Block) {
        let tail = match b.stmts.last() { Some(Stmt::Expr(e, None)) => e.clone(), _ => return };
        let mut live: BTreeSet<String> = BTreeSet::new(); idents(&tail.to_token_stream(), &mut live); live.remove("self");
        let n = b.stmts.len() - 1; let mut keep = vec![true; n + 1];
        for k in (0..n).rev() {
            let s = &b.stmts[k];
            let kept = match s {
                Stmt::Local(l) => { let mut v = BTreeSet::new(); binds(&l.pat, &mut v); v.iter().any(|x| live.contains(x)) || !harmless_stmt(s, &live) }
                Stmt::Expr(e, _) if is_log(e) => false,
                Stmt::Item(Item::Use(_)) => true,
                _ => !harmless_stmt(s, &live),
            };
            keep[k] = kept;
            if kept { idents(&s.to_token_stream(), &mut live); live.remove("self"); } else { self.dropped += 1; }
        }
        let mut it = keep.into_iter(); b.stmts.retain(|_| it.next().unwrap());
    }
    pub fn body(&mut self, b: &Block) -> Block {
        let mut b = b.clone();
        Unalias(vec![]).visit_block_mut(&mut b);
        struct L<'a>(&'a mut BTreeSet<String>);
        impl<'a, 'b> visit::Visit<'b> for L<'a> { fn visit_local(&mut self, l: &'b Local) { if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) { if let Expr::Call(c) = strip(&x.expr) { if path_str(&c.func).ends_with("Rc::new") { self.0.insert(i.ident.to_string()); } } } visit::visit_local(self, l); } }
        visit::Visit::visit_block(&mut L(&mut self.rcs), &b);
        self.muts = mutated(&b, &self.mutrefs, &self.self_ty);
        self.visit_block_mut(&mut b);
        if self.ret_text { wrap_tail(&mut b); }
        let mut pre = self.hook("start".into());
        pre.append(&mut b.stmts); b.stmts = pre;
        b
    }
    fn closure_parts(&mut self, c: &ExprClosure) -> (Vec<Pat>, Expr) { (c.inputs.iter().cloned().collect(), (*c.body).clone()) }
    fn try_iter_closure(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !(name == "all" || name == "any") || m.args.len() != 1 { return None; }
        let c = match strip(&m.args[0]) { Expr::Closure(c) => c.clone(), _ => return None };
        let k = self.loops; self.loops += 1;
        let mut recv = (*m.receiver).clone();
        // the source's own parts are translated, not the iteration itself
        if let Expr::MethodCall(r) = &mut recv { self.visit_source(&mut r.receiver); } else { self.visit_expr_mut(&mut recv); }
        let (bind, len, elem) = self.source(&recv, k)?;
        let (pats, mut body) = self.closure_parts(&c);
        self.visit_expr_mut(&mut body);
        let mut d = vec![];
        let el_ref = matches!(&elem, Expr::Reference(_));
        let p = self.pat(&pats[0], false, &mut d);
        if !el_ref { d.clear(); }
        let body = self.with_derefs(&d, body);
        let (n, r) = (format_ident!("__n{}", k), format_ident!("__r{}", k));
        let inv = format_ident!("inv_{}_it", k); let e_ = format_ident!("__e{}", k);
        let h1 = self.hook(format!("body {}", k)); let h2 = self.hook(format!("after {}", k));
        let (init, cond): (Expr, Expr) = if name == "all" { (parse_quote!(true), parse_quote!(#r)) } else { (parse_quote!(false), parse_quote!(!#r)) };
        Some(parse_quote!({ #bind let mut #n: usize = 0; let #e_: usize = #len; let mut #r = #init; while #n < #e_ && #cond { __inv!(#inv); let #p = #elem; #(#h1)* #r = #body; #n = #n + 1; } #(#h2)* #r }))
    }
    /// the parts of `c[..n]`, or the expression
    fn visit_source(&mut self, e: &mut Expr) {
        if let Expr::Index(ix) = e { if let Expr::Range(r) = &mut *ix.index { if r.start.is_none() && r.end.is_some() && matches!(r.limits, RangeLimits::HalfOpen(_)) { self.visit_expr_mut(&mut ix.expr); self.visit_expr_mut(r.end.as_mut().unwrap()); return; } } }
        self.visit_expr_mut(e);
    }
    fn for_loop(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let k = self.loops; self.loops += 1;
        let n = format_ident!("__n{}", k); let e_ = format_ident!("__e{}", k); let inv = format_ident!("inv_{}_it", k); let inv_rg = format_ident!("inv_{}_rg", k); let inv_rv = format_ident!("inv_{}_rv", k); let a_ = format_ident!("__a{}", k);
        let mut src = (*f.expr).clone();
        let mut enumerate = false; let mut rev = false;
        loop {
            match strip(&src) {
                Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => { enumerate = true; src = (*m.receiver).clone(); }
                Expr::MethodCall(m) if m.method == "rev" && m.args.is_empty() => { rev = true; src = (*m.receiver).clone(); }
                _ => break,
            }
        }
        src = strip(&src).clone();
        let h0 = self.hook(format!("body {}", k)); let h1 = self.hook(format!("end {}", k));
        let mut body = f.body.clone();
        if let Expr::Range(r) = &mut src {
            let mut a = (**r.start.as_ref()?).clone(); let mut b = (**r.end.as_ref()?).clone();
            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); self.visit_block_mut(&mut body);
            if matches!(r.limits, RangeLimits::Closed(_)) { b = parse_quote!((#b) + 1); }
            let mut d = vec![]; let p = self.pat(&f.pat, false, &mut d); let st = &body.stmts;
            if rev {
                return Some(parse_quote!({ let #e_ = #a; let #a_ = #b; let mut #n = #a_; while #n > #e_ { __inv!(#inv_rv); #n = #n - 1; let #p = #n; #(#h0)* #(#st)* #(#h1)* } }));
            }
            return Some(parse_quote!({ let #a_ = #a; let mut #n = #a_; let #e_ = #b; while #n < #e_ { __inv!(#inv_rg); let #p = #n; #n = #n + 1; #(#h0)* #(#st)* #(#h1)* } }));
        }
        if let Expr::MethodCall(r) = &mut src { self.visit_source(&mut r.receiver); } else if let Expr::Reference(r) = &mut src { self.visit_source(&mut r.expr); } else { self.visit_expr_mut(&mut src); let s2 = src.clone(); src = parse_quote!((#s2).into_iter()); }
        if rev && enumerate { return None; }
        let mut d_rev = vec![];
        let mut names = BTreeSet::new(); binds(&f.pat, &mut names);
        // the body changes what the elements hold: each is borrowed from its place
        let changed = !enumerate && names.iter().any(|x| self.muts.contains(x));
        let (bind, len, elem) = if changed {
            let recv = match &src { Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => (*m.receiver).clone(), Expr::Reference(r) => (*r.expr).clone(), _ => return None };
            let mut place = recv.clone(); make_mut_place(&mut place);
            let it = format_ident!("__it{}", k);
            (parse_quote!(let #it = ();), parse_quote!((#recv).rf().len()), parse_quote!(&mut (#place).rfm()[#n]))
        } else { self.source(&src, k)? };
        self.visit_block_mut(&mut body);
        if rev {
            let p = self.pat(&f.pat, false, &mut d_rev);
            let dd: Vec<Stmt> = if matches!(&elem, Expr::Reference(_)) { d_rev.iter().map(|x| parse_quote!(let #x = *#x;)).collect() } else { vec![] };
            let st = &body.stmts;
            return Some(parse_quote!({ #bind let #e_: usize = 0; let #a_: usize = #len; let mut #n = #a_; while #n > #e_ { __inv!(#inv_rv); #n = #n - 1; let #p = #elem; #(#dd)* #(#h0)* #(#st)* #(#h1)* } }));
        }
        let mut d = vec![];
        let el_ref = matches!(&elem, Expr::Reference(_));
        let st = &body.stmts;
        if enumerate {
            if let Pat::Tuple(t) = &*f.pat {
                let p0 = self.pat(&t.elems[0], false, &mut vec![]); let p1 = self.pat(&t.elems[1], false, &mut d); if !el_ref { d.clear(); }
                let dd: Vec<Stmt> = d.iter().map(|x| parse_quote!(let #x = *#x;)).collect();
                return Some(parse_quote!({ #bind let mut #n: usize = 0; let #e_: usize = #len; while #n < #e_ { __inv!(#inv); let #p0 = #n; let #p1 = #elem; #(#dd)* #n = #n + 1; #(#h0)* #(#st)* #(#h1)* } }));
            }
            return None;
        }
        let p = self.pat(&f.pat, false, &mut d); if !el_ref { d.clear(); }
        let dd: Vec<Stmt> = d.iter().map(|x| parse_quote!(let #x = *#x;)).collect();
        Some(parse_quote!({ #bind let mut #n: usize = 0; let #e_: usize = #len; while #n < #e_ { __inv!(#inv); let #p = #elem; #(#dd)* #n = #n + 1; #(#h0)* #(#st)* #(#h1)* } }))
    }
}

/// `|c| c == 'x' || c == 'y'`
fn char_choice(e: &Expr) -> Option<Vec<LitChar>> {
    fn go(e: &Expr, n: &str, out: &mut Vec<LitChar>) -> bool {
        match strip(e) {
            Expr::Binary(b) if matches!(b.op, BinOp::Or(_)) => go(&b.left, n, out) && go(&b.right, n, out),
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => match (strip(&b.left), strip(&b.right)) { (Expr::Path(p), Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) | (Expr::Lit(ExprLit { lit: Lit::Char(c), .. }), Expr::Path(p)) if p.path.is_ident(n) => { out.push(c.clone()); true } _ => false },
            _ => false,
        }
    }
    if let Expr::Closure(c) = strip(e) { if let Some(Pat::Ident(i)) = c.inputs.first() { let mut v = vec![]; if c.inputs.len() == 1 && go(&c.body, &i.ident.to_string(), &mut v) { return Some(v); } } }
    None
}
fn ref_binds(p: &Pat, out: &mut BTreeSet<String>) {
    match p {
        Pat::Ident(i) => { if i.by_ref.is_some() && i.mutability.is_none() { out.insert(i.ident.to_string()); } }
        Pat::Reference(r) => ref_binds(&r.pat, out), Pat::Paren(r) => ref_binds(&r.pat, out),
        Pat::Tuple(t) => for e in &t.elems { ref_binds(e, out) }, Pat::TupleStruct(t) => for e in &t.elems { ref_binds(e, out) },
        Pat::Struct(t) => for e in &t.fields { ref_binds(&e.pat, out) }, Pat::Or(t) => for e in &t.cases { ref_binds(e, out) },
        _ => {}
    }
}
/// the name a place or a borrow of one begins with
fn root_of(e: &Expr) -> Option<String> {
    match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root_of(&f.base), Expr::MethodCall(m) => if matches!(&m.method.to_string()[..], "borrow" | "borrow_mut" | "rf" | "rfm" | "get_mut" | "unwrap" | "iter" | "as_ref") { root_of(&m.receiver) } else { None }, Expr::Index(i) => root_of(&i.expr), Expr::Unary(u) => root_of(&u.expr), Expr::Paren(p) => root_of(&p.expr), Expr::Reference(r) => root_of(&r.expr), _ => None }
}
/// a shared borrow, made a mutable one
fn make_mut(e: &mut Expr) { if let Expr::Reference(r) = e { r.mutability = Some(Default::default()); } make_mut_place(e); }
fn make_mut_place(e: &mut Expr) {
    match e {
        Expr::MethodCall(m) => { if m.method == "rf" { m.method = format_ident!("rfm"); } make_mut_place(&mut m.receiver); }
        Expr::Reference(r) => { r.mutability = Some(Default::default()); make_mut_place(&mut r.expr) }
        Expr::Unary(u) => make_mut_place(&mut u.expr), Expr::Paren(u) => make_mut_place(&mut u.expr),
        Expr::Field(u) => make_mut_place(&mut u.base), Expr::Index(u) => make_mut_place(&mut u.expr), _ => {}
    }
}
/// the names of a body through which something behind a cell is changed, given the functions that change their arguments
pub fn mutated(b: &Block, mutrefs: &BTreeMap<String, Vec<usize>>, self_ty: &Option<String>) -> BTreeSet<String> {
    struct V<'a> { muts: BTreeSet<String>, mr: &'a BTreeMap<String, Vec<usize>>, st: &'a Option<String> }
    impl<'a> V<'a> {
        fn add(&mut self, e: &Expr) { if let Some(r) = root_of(e) { if r != "self" { self.muts.insert(r); } } }
        fn pats(&mut self, e: &Expr, ps: &[&Pat]) {
            if let Expr::Tuple(t) = e { for (k, x) in t.elems.iter().enumerate() { let v: Vec<&Pat> = ps.iter().filter_map(|p| if let Pat::Tuple(t) = p { t.elems.get(k) } else { None }).collect(); self.pats(x, &v); } return; }
            for p in ps { let mut v = BTreeSet::new(); ref_binds(p, &mut v); if v.iter().any(|x| self.muts.contains(x)) { self.add(e); } }
        }
    }
    impl<'a, 'b> visit::Visit<'b> for V<'a> {
        fn visit_expr(&mut self, e: &'b Expr) {
            if is_log(e) { return; }
            match e {
                Expr::MethodCall(m) if m.method == "borrow_mut" && m.args.is_empty() => self.add(&m.receiver),
                Expr::MethodCall(m) if m.method == "set" && m.args.len() == 1 => self.add(&m.receiver),
                Expr::Call(c) => { let f = call_name(&c.func, self.st); if let Some(v) = self.mr.get(&f) { for k in v.clone() { if let Some(a) = c.args.get(k) { self.add(a); } } } }
                Expr::Match(m) => { let ps: Vec<&Pat> = m.arms.iter().map(|a| &a.pat).collect(); self.pats(&m.expr, &ps); }
                Expr::Let(l) => self.pats(&l.expr, &[&l.pat]),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_local(&mut self, l: &'b Local) {
            if let (Pat::Ident(i), Some(x)) = (&l.pat, &l.init) { if self.muts.contains(&i.ident.to_string()) && !matches!(&*x.expr, Expr::Path(_)) { self.add(&x.expr); } }
            visit::visit_local(self, l);
        }
    }
    let mut v = V { muts: BTreeSet::new(), mr: mutrefs, st: self_ty };
    loop { let n = v.muts.len(); visit::Visit::visit_block(&mut v, b); if v.muts.len() == n { break; } }
    v.muts
}
/// the name a called function has in the index
fn call_name(f: &Expr, self_ty: &Option<String>) -> String {
    let s = path_str(f); let v: Vec<&str> = s.split("::").collect(); let n = v.len();
    if n >= 2 { let a = if v[n - 2] == "Self" { self_ty.clone().unwrap_or_default() } else { v[n - 2].to_string() }; format!("{}::{}", a, v[n - 1]) } else { s }
}
fn idents(t: &TokenStream, out: &mut BTreeSet<String>) {
    for x in t.clone() { match x { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(&g.stream(), out), _ => {} } }
}
fn binds(p: &Pat, out: &mut BTreeSet<String>) { idents(&p.to_token_stream(), out); }
/// nothing in the statement leaves the block, assigns to `self` itself or to a live variable, or changes one in place
fn harmless_stmt(s: &Stmt, live: &BTreeSet<String>) -> bool {
    struct V<'a> { live: &'a BTreeSet<String>, ok: bool, depth: usize }
    fn root(e: &Expr) -> Option<String> {
        match e { Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()), Expr::Field(f) => root(&f.base), Expr::MethodCall(m) => root(&m.receiver), Expr::Index(i) => root(&i.expr), Expr::Unary(u) => root(&u.expr), Expr::Paren(p) => root(&p.expr), Expr::Reference(r) => root(&r.expr), Expr::Try(t) => root(&t.expr), _ => None }
    }
    impl<'a, 'b> visit::Visit<'b> for V<'a> {
        fn visit_expr(&mut self, e: &'b Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.ok = false,
                Expr::Break(b) => if self.depth == 0 || b.label.is_some() { self.ok = false },
                Expr::Continue(b) => if self.depth == 0 || b.label.is_some() { self.ok = false },
                Expr::Assign(a) => { match root(&a.left) { Some(r) => if self.live.contains(&r) || (r == "self" && matches!(&*a.left, Expr::Path(_))) { self.ok = false }, None => self.ok = false } }
                Expr::Binary(b) => if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)) { if root(&b.left).map_or(true, |r| self.live.contains(&r)) { self.ok = false } },
                Expr::Reference(r) if r.mutability.is_some() => if root(&r.expr).map_or(false, |r| self.live.contains(&r)) { self.ok = false },
                Expr::MethodCall(m) => { let n = m.method.to_string(); if root(&m.receiver).map_or(false, |r| self.live.contains(&r)) && !matches!(&n[..], "clone" | "borrow" | "len" | "to_string" | "is_subtable_of" | "is_some" | "is_none" | "iter" | "into_owned" | "validate" | "as_ref" | "is_empty" | "get" | "starts_with" | "ends_with" | "to_owned" | "contains_key" | "any" | "all") { self.ok = false } }
                Expr::Macro(m) => if !m.mac.path.is_ident("format_args") { self.ok = false },
                _ => {}
            }
            let l = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)); if l { self.depth += 1; }
            if !is_log(e) { visit::visit_expr(self, e); }
            if l { self.depth -= 1; }
        }
    }
    let mut v = V { live, ok: true, depth: 0 };
    visit::Visit::visit_stmt(&mut v, s);
    v.ok
}
fn parse_local_pat(p: &Pat, t: &Type) -> Pat { Pat::Type(PatType { attrs: vec![], pat: Box::new(p.clone()), colon_token: Default::default(), ty: Box::new(t.clone()) }) }
pub fn is_log(e: &Expr) -> bool { match e { Expr::Block(b) => b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Static(x)) if x.ident == "_LOC")), _ => false } }
fn has_needed(l: &Local) -> bool { l.to_token_stream().to_string().contains("input_len") }
/// the value of a text function is a text
fn wrap_tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { wrap_expr(e); }
}
fn wrap_expr(e: &mut Expr) {
    match e {
        Expr::If(i) => { wrap_tail(&mut i.then_branch); if let Some((_, x)) = &mut i.else_branch { wrap_expr(x); } }
        Expr::Match(m) => for a in m.arms.iter_mut() { wrap_expr(&mut a.body); },
        Expr::Block(b) => wrap_tail(&mut b.block),
        Expr::Return(_) => {}
        _ => { let x = e.clone(); *e = parse_quote!((#x).as_s()); }
    }
}

impl<'i> VisitMut for Tx<'i> {
    fn visit_block_mut(&mut self, b: &mut Block) { self.block(b); }
    fn visit_expr_mut(&mut self, e: &mut Expr) { self.expr(e); self.act(e); }
}
impl<'i> Tx<'i> {
    /// what acts on the outside world gets it as its first argument
    fn act(&mut self, e: &mut Expr) {
        if self.world.is_empty() { return; }
        let given = |a: Option<&Expr>| a.map_or(false, |x| path_str(x) == "w");
        match e {
            Expr::Call(c) => {
                let f = path_str(&c.func);
                if given(c.args.first()) { return; }
                if f == "exit" || f.ends_with("process::exit") { *e = parse_quote!(exit(w)); return; }
                if f == "File::create" || f == "File::open" { let id = format_ident!("file_{}", f.rsplit("::").next().unwrap()); let a = self.text_arg(c.args[0].clone()); *e = parse_quote!(#id(w, #a)); return; }
                if self.acts(&f) || f == "usage" { c.args.insert(0, parse_quote!(w)); }
            }
            Expr::MethodCall(m) if matches!(&m.method.to_string()[..], "write_all" | "sync_all" | "read_to_string") => { if !given(m.args.first()) { m.args.insert(0, parse_quote!(w)); } }
            _ => {}
        }
    }
    fn expr(&mut self, e: &mut Expr) {
        // a dereferenced counted reference
        if let Expr::Unary(u) = e { if matches!(u.op, UnOp::Deref(_)) {
            let inner = strip(&u.expr);
            let counted = match inner { Expr::Path(_) => self.rcs.contains(&path_str(inner)), Expr::Index(i) => !matches!(strip(&i.index), Expr::Range(_)), Expr::Unary(v) => matches!(v.op, UnOp::Deref(_)) && matches!(strip(&v.expr), Expr::Path(_)), _ => false };
            if counted { let x = inner.clone(); *e = x; self.expr(e); return; }
        } }
        // constructs whose parts must not be visited in the usual order
        match e {
            Expr::MethodCall(m) => {
                if let Some(x) = self.try_iter_closure(&m.clone()) { *e = x; return; }
                if m.method == "trim_matches" && m.args.len() == 1 { if let Some(v) = char_choice(&m.args[0]) { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); let r = self.text_arg(r); *e = parse_quote!(#r.trim_chars(seq_of(&[#(#v),*]))); return; } }
                if m.method == "write_fmt" && m.args.len() == 1 {
                    if let Expr::Macro(mac) = strip(&m.args[0]) { let mac = mac.mac.clone(); let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); let steps = self.fmt_steps(&mac); *e = self.fmt_write(&r, steps); return; }
                }
                if m.method == "unwrap" { if let Expr::Call(c) = strip(&m.receiver) { if path_str(&c.func).ends_with("Regex::new") { if let Some(s) = str_of(&c.args[0]) { *e = self.lits.re(&s); return; } } } }
            }
            Expr::Call(c) => {
                let f = path_str(&c.func);
                if f.ends_with("fmt::format") && c.args.len() == 1 { if let Expr::Macro(mac) = strip(&c.args[0]) { let mac = mac.mac.clone(); let steps = self.fmt_steps(&mac); *e = self.fmt_string(steps); return; } }
                if f.ends_with("io::_print") && c.args.len() == 1 && !self.world.is_empty() { if let Expr::Macro(mac) = strip(&c.args[0]) { let mac = mac.mac.clone(); let steps = self.fmt_steps(&mac); let t = self.fmt_string(steps); *e = parse_quote!(print_text(w, #t)); return; } }
                if f.contains("panicking::") || f.ends_with("panic_fmt") || f.ends_with("begin_panic") { *e = if self.opts.contains("panics") { parse_quote!(return stuck()) } else { parse_quote!(return not_reached()) }; return; }
                // what an error says, where the contracts do not
                if f.rsplit("::").next() == Some("Err") && c.args.len() == 1 && self.opts.contains("errtext") && { let t = c.args[0].to_token_stream().to_string().replace(' ', ""); t.contains("fmt::format(") && !t.contains("return") && !t.contains('?') } { *e = parse_quote!(Err(any_text())); return; }
                if f.ends_with("must_use") { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); *e = strip(&x).clone(); return; }
                if f.ends_with("convert::From::from") { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); *e = x; return; }
                if f.ends_with("box_assume_init_into_vec_unsafe") {
                    // vec![..]
                    struct Find(Option<ExprArray>);
                    impl<'a> visit::Visit<'a> for Find { fn visit_expr_array(&mut self, a: &'a ExprArray) { if self.0.is_none() { self.0 = Some(a.clone()); } } }
                    let mut fd = Find(None); visit::Visit::visit_expr_call(&mut fd, c);
                    if let Some(a) = fd.0 {
                        let id = format_ident!("__v{}", self.k());
                        let st: Vec<Stmt> = a.elems.iter().map(|x| { let mut x = x.clone(); self.visit_expr_mut(&mut x); parse_quote!(#id.push(#x);) }).collect();
                        *e = parse_quote!({ let mut #id = Vec::new(); #(#st)* #id }); return;
                    }
                }
                let plain = { let s: Vec<&str> = f.split("::").collect(); if s.len() >= 2 { format!("{}::{}", s[s.len() - 2], s[s.len() - 1]) } else { f.clone() } };
                if matches!(&plain[..], "Rc::new" | "RefCell::new" | "Cell::new" | "Box::new") { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); *e = x; return; }
                if plain == "IResult::Error" { *e = parse_quote!(IResult::Error); return; }
                if plain == "Needed::Size" { *e = parse_quote!(Needed::Size); return; }
                if plain == "InputLength::input_len" { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); *e = parse_quote!((#x).len()); return; }
                // (|x| ..)(y)
                if let Expr::Closure(cl) = strip(&c.func) {
                    if cl.inputs.is_empty() && self.self_renamed { if let Some(f) = self.ix.fns.get(&format!("{}#act", self.path)) {
                        let name = &f.sig.ident;
                        let args: Vec<Expr> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { let id = &t.pat; let text = matches!(&*t.ty, Type::Reference(r) if r.elem.to_token_stream().to_string() == "str"); Some(if text { parse_quote!((#id).as_s()) } else { parse_quote!(#id) }) } else { None }).collect();
                        *e = parse_quote!({ let (tmp, o) = this.#name(#(#args),*); this = tmp; o }); return;
                    } }
                    let cl = cl.clone(); let mut body = (*cl.body).clone(); self.visit_expr_mut(&mut body);
                    let mut lets: Vec<Stmt> = vec![];
                    for (p, a) in cl.inputs.iter().zip(c.args.iter()) { let mut a = a.clone(); self.visit_expr_mut(&mut a); let q = self.pat(p, false, &mut vec![]); lets.push(parse_quote!(let #q = #a;)); }
                    *e = parse_quote!({ #(#lets)* #body }); return;
                }
            }
            Expr::ForLoop(f) => { let f = f.clone(); match self.for_loop(&f) { Some(x) => *e = x, None => self.bad.push(format!("for over {}", f.expr.to_token_stream())) } return; }
            Expr::While(w) => {
                let k = self.loops; self.loops += 1; let inv = format_ident!("inv_{}_wh", k);
                if !matches!(&*w.cond, Expr::Let(_)) {
                    self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body);
                    let mut st = self.hook(format!("body {}", k)); st.append(&mut w.body.stmts); st.extend(self.hook(format!("end {}", k)));
                    w.body.stmts = st; w.body.stmts.insert(0, parse_quote!(__inv!(#inv);));
                } else { self.bad.push("while let".into()); }
                return;
            }
            Expr::Loop(l) => {
                let k = self.loops; self.loops += 1; let inv = format_ident!("inv_{}_wh", k);
                self.visit_block_mut(&mut l.body);
                let mut st = self.hook(format!("body {}", k)); st.append(&mut l.body.stmts); st.extend(self.hook(format!("end {}", k)));
                l.body.stmts = st; l.body.stmts.insert(0, parse_quote!(__inv!(#inv);));
                return;
            }
            Expr::Block(b) if is_log(&Expr::Block(b.clone())) => { *e = parse_quote!({}); return; }
            Expr::Lit(l) => { if let Lit::Str(s) = &l.lit { let s = s.value(); *e = if s.len() > 40 { parse_quote!(any_text()) } else { self.lits.lit(&s) }; } return; }
            Expr::Path(p) => { p.path = self.path(&p.path); p.qself = None; return; }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                if m.arms.iter().any(|a| is_lit_pat(&a.pat)) { for a in m.arms.iter_mut() { self.visit_expr_mut(&mut a.body); } let m = m.clone(); *e = self.text_chain(m); return; }
                let arms = m.arms.clone();
                let pats: Vec<&Pat> = arms.iter().map(|a| &a.pat).collect();
                let (s, refd) = self.scrut((*m.expr).clone(), &pats);
                m.expr = Box::new(s);
                for a in m.arms.iter_mut() {
                    let mut d = vec![];
                    a.pat = self.pat(&a.pat.clone(), refd, &mut d);
                    if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); let g2 = self.with_derefs(&d, (**g).clone()); *g = Box::new(g2); }
                    self.visit_expr_mut(&mut a.body);
                    let b = self.with_derefs(&d, (*a.body).clone()); a.body = Box::new(b);
                    if a.comma.is_none() { a.comma = Some(Default::default()); }
                }
                return;
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    let p = (*l.pat).clone();
                    let (mut s, mut refd) = self.scrut((*l.expr).clone(), &[&p]);
                    if !refd && matches!(s, Expr::Index(_)) { s = parse_quote!(&#s); refd = true; }
                    l.expr = Box::new(s);
                    let mut d = vec![]; let q = self.pat(&p, refd, &mut d); l.pat = Box::new(q);
                    self.visit_block_mut(&mut i.then_branch);
                    let mut pre: Vec<Stmt> = d.iter().map(|x| parse_quote!(let #x = *#x;)).collect(); pre.append(&mut i.then_branch.stmts); i.then_branch.stmts = pre;
                } else { self.visit_expr_mut(&mut i.cond); self.visit_block_mut(&mut i.then_branch); }
                if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
                return;
            }
            Expr::Closure(_) => { self.bad.push("a closure".into()); return; }
            Expr::Unsafe(_) => { self.bad.push("unsafe code".into()); return; }
            Expr::Macro(m) => { self.bad.push(format!("the macro {}", m.mac.path.to_token_stream())); return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // after the parts
        match e {
            Expr::Struct(s) => {
                s.path = self.path(&s.path);
                let ty = last_seg(&s.path);
                for f in s.fields.iter_mut() { if let Member::Named(n) = &f.member { if self.ix.field_text(&ty, &n.to_string()) { f.expr = self.text_arg(f.expr.clone()); f.colon_token = Some(Default::default()); } } }
            }
            Expr::Reference(r) => {
                // a reference to a text is a text
                let inner = strip(&r.expr);
                let text = matches!(inner, Expr::MethodCall(m) if matches!(&m.method.to_string()[..], "sl" | "sl_from" | "sl_to" | "as_s" | "finish")) || matches!(inner, Expr::Call(c) if path_str(&c.func).starts_with("lit_"));
                if text { *e = inner.clone(); }
                else if matches!(inner, Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::MethodCall(m) if m.method == "rf")) && r.mutability.is_none() { if let Expr::Unary(u) = inner { *e = (*u.expr).clone(); } }
            }
            Expr::Index(ix) => { if let Expr::Range(r) = strip(&ix.index) { let (b, r) = ((*ix.expr).clone(), r.clone()); *e = self.range_index(&b, &r); } }
            Expr::Binary(b) => {
                for x in [&mut b.left, &mut b.right] { if self.nums.contains(&path_str(x)) && !matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_)) { let y = (**x).clone(); **x = parse_quote!((*#y)); } }
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) {
                    let plain = |x: &Expr| match strip(x) { Expr::Lit(_) => true, Expr::Binary(b) => !matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)), Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)), Expr::MethodCall(m) => matches!(&m.method.to_string()[..], "len" | "at" | "cget" | "is_some" | "is_none"), Expr::Cast(_) => true, _ => false };
                    if !plain(&b.left) && !plain(&b.right) {
                        let (l, r) = (&b.left, &b.right);
                        let l: Expr = match strip(l) { Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => (*u.expr).clone(), _ => (**l).clone() };
                        *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!((#l).eqx(&(#r))) } else { parse_quote!(!(#l).eqx(&(#r))) };
                    }
                }
            }
            Expr::Return(r) => { if self.ret_text { if let Some(x) = &r.expr { let y = self.text_arg((**x).clone()); r.expr = Some(Box::new(y)); } } }
            Expr::MethodCall(m) if m.method == "set" && m.args.len() == 1 && self.opts.contains("sums") && matches!(strip(&m.args[0]), Expr::Binary(_)) => {
                fn sums(e: &Expr) -> Expr { match strip(e) { Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) => { let (l, r) = (sums(&b.left), sums(&b.right)); parse_quote!(sum(#l, #r)) } x => x.clone() } }
                m.method = format_ident!("cset"); m.args[0] = sums(&m.args[0]);
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                m.turbofish = None;
                let r = (*m.receiver).clone();
                match (&n[..], m.args.len()) {
                    ("into", 0) | ("into_owned", 0) | ("to_owned", 0) | ("as_bytes", 0) | ("as_ref", 0) | ("as_str", 0) => { if n == "as_ref" && self.opts.contains("asref") { m.method = format_ident!("oref"); } else { *e = self.text_arg(r); } }
                    ("to_string", 0) => { m.method = format_ident!("to_s"); }
                    ("clone", 0) => { m.method = format_ident!("vclone"); }
                    ("borrow", 0) | ("as_slice", 0) => { m.method = format_ident!("rf"); }
                    ("borrow_mut", 0) => { m.method = format_ident!("rfm"); }
                    ("get", 0) => { m.method = format_ident!("cget"); }
                    ("set", 1) => { m.method = format_ident!("cset"); }
                    ("input_len", 0) => { m.method = format_ident!("len"); }
                    ("push", 1) => { if matches!(strip(&m.args[0]), Expr::Lit(ExprLit { lit: Lit::Char(_), .. })) || matches!(strip(&m.args[0]), Expr::Path(p) if self.opts.contains(&format!("char={}", path_str(&Expr::Path(p.clone()))))) { m.method = format_ident!("push_ch"); } }
                    ("push_str", 1) => { let a = self.text_arg(m.args[0].clone()); m.args[0] = a; }
                    ("get", 1) if self.opts.contains("vecget") => {}
                    ("get", 1) | ("entry", 1) | ("remove", 1) if !matches!(strip(&m.args[0]), Expr::Lit(_)) => { let a = self.text_arg(m.args[0].clone()); m.args[0] = a; }
                    ("starts_with", 1) | ("ends_with", 1) | ("contains_key", 1) | ("find", 1) => { if !matches!(strip(&m.args[0]), Expr::Lit(_)) { let a = self.text_arg(m.args[0].clone()); m.args[0] = a; } else { m.method = format_ident!("{}_ch", n); } }
                    ("extend", 1) => { m.method = format_ident!("extend_vec"); }
                    _ => {
                        if let Some(v) = self.ix.str_args.get(&n).filter(|_| self.ix.methods.contains(&n)) { if v.len() == m.args.len() { for i in 0..v.len() { if v[i] { let a = self.text_arg(m.args[i].clone()); m.args[i] = a; } } } }
                    }
                }
            }
            Expr::Call(c) => {
                let f = path_str(&c.func);
                if let Some(v) = self.mutrefs.get(&call_name(&c.func, &self.self_ty)) { for k in v.clone() { if let Some(a) = c.args.get_mut(k) { make_mut(a); } } }
                let segs: Vec<&str> = f.split("::").collect();
                if segs.len() == 2 {
                    if let Some(v) = self.ix.variant_texts(segs[0], segs[1]) { for i in 0..v.len().min(c.args.len()) { if v[i] { let a = self.text_arg(c.args[i].clone()); c.args[i] = a; } } return; }
                    if segs[1] == "from_str" && matches!(segs[0], "usize" | "u64" | "i64") { let a = self.text_arg(c.args[0].clone()); let id = format_ident!("parse_{}", segs[0]); *e = parse_quote!(#id(#a)); return; }
                    if f == "HashMap::new" { *e = parse_quote!(KMap::new()); return; }
                    if f == "String::new" { *e = parse_quote!(Str::empty()); return; }
                    if f == "String::from" { let a = self.text_arg(c.args[0].clone()); *e = a; return; }
                    if let Some(fi) = self.find(&f) {
                        let gens = str_generics(&fi.sig);
                        let v: Vec<bool> = fi.sig.inputs.iter().map(|a| if let FnArg::Typed(t) = a { is_text(&t.ty, &gens) } else { false }).collect();
                        for i in 0..v.len().min(c.args.len()) { if v[i] { let a = self.text_arg(c.args[i].clone()); c.args[i] = a; } }
                        return;
                    }
                }
                if segs.len() == 1 && !f.is_empty() { if let Some(fi) = self.find(&f) { let gens = str_generics(&fi.sig); let v: Vec<bool> = fi.sig.inputs.iter().map(|a| if let FnArg::Typed(t) = a { is_text(&t.ty, &gens) } else { false }).collect(); if v.len() == c.args.len() { for i in 0..v.len() { if v[i] { let a = self.text_arg(c.args[i].clone()); c.args[i] = a; } } } } }
            }
            _ => {}
        }
    }
}
