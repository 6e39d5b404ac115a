//! Reads a spec file and emits the Verus source.
use crate::index::*;
use crate::print::print;
use crate::tx::*;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::*;

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

struct FnSpec { path: String, bare: bool, ext: bool, used: bool, name: Option<String>, opts: BTreeSet<String>, props: String, ret: String, contract: String, attr: String, invs: BTreeMap<usize, String>, decs: BTreeMap<usize, String>, hooks: BTreeMap<String, String>, sig: Option<String>, mutp: Vec<String> }

pub fn run(ix: &mut Src, text: &str, dir: &str) -> (String, String) {
    let forced: BTreeSet<String> = std::env::var("VX_EXTERN").unwrap_or_default().split(';').map(|s| s.to_string()).collect();
    let mut lits = Lits { texts: BTreeMap::new(), regexes: BTreeMap::new() };
    let mut out = String::new();
    let mut map: Vec<String> = vec![];
    let mut lines: Vec<String> = vec![];
    fn load(text: &str, dir: &str, lines: &mut Vec<String>) {
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@use ") { let n = lines.len(); load(&std::fs::read_to_string(format!("{}/{}", dir, f.trim())).expect("include"), dir, lines); for x in lines[n..].iter_mut() { if x.trim().starts_with("//@fn ") { *x = x.trim().replacen("//@fn ", "//@used ", 1); } } }
            else if let Some(f) = l.trim().strip_prefix("//@include ") { load(&std::fs::read_to_string(format!("{}/{}", dir, f.trim())).expect("include"), dir, lines); } else { lines.push(l.to_string()); }
        }
    }
    load(text, dir, &mut lines);
    // what a production does with the parts it has read, as a function of its own
    for i in 0..lines.len() {
        let l = lines[i].trim().to_string();
        let path = match l.split_whitespace().nth(1) { Some(p) if (l.starts_with("//@fn ") || l.starts_with("//@used ")) && p.ends_with("#act") => p.to_string(), _ => continue };
        let sig = match lines[i..].iter().take_while(|x| x.trim() != "//@endfn").find_map(|x| x.trim().strip_prefix("//@closure ").map(|x| x.to_string())) { Some(s) => s, None => continue };
        let sig: Signature = parse_str(&sig).expect("the signature of an action");
        let made = ix.fns.get(path.trim_end_matches("#act")).and_then(|b| action(&b.block).map(|body| FnInfo { sig, block: parse_quote!({ let __out = #body; (self, __out) }), self_ty: b.self_ty.clone() }));
        if let Some(f) = made { ix.fns.insert(path, f); }
    }
    let ix = &*ix;
    // the parameters that become mutable references, by function
    let mut mutrefs: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for l in &lines { let l = l.trim(); if l.starts_with("//@fn ") || l.starts_with("//@extern ") || l.starts_with("//@used ") {
        let w: Vec<&str> = l.split_whitespace().collect();
        for t in &w[1..] { if let Some(x) = t.strip_prefix("mut=") { if let Some(fi) = ix.fns.get(w[1]) {
            let ps: Vec<String> = fi.sig.inputs.iter().map(|a| match a { FnArg::Receiver(_) => "self".to_string(), FnArg::Typed(t) => t.pat.to_token_stream().to_string().replace("mut ", "") }).collect();
            mutrefs.insert(w[1].to_string(), ps.iter().enumerate().filter(|(_, p)| x.split(',').any(|y| y == p.as_str())).map(|(k, _)| k).collect());
        } } }
    } }
    // the functions that act on the outside world
    let world: BTreeSet<String> = lines.iter().filter_map(|l| { let w: Vec<&str> = l.trim().split_whitespace().collect(); if w.len() > 2 && w[0].starts_with("//@") && w[2..].contains(&"world") { Some(w[1].to_string()) } else { None } }).collect();
    let mut shown: BTreeSet<String> = BTreeSet::new();
    let mut bc: Vec<String> = vec![]; let mut i = 0; let mut props = String::new();
    while i < lines.len() {
        let l = lines[i].trim().to_string();
        if let Some(p) = l.strip_prefix("//@props ") { props = p.trim().to_string(); i += 1; continue; }
        if let Some(t) = l.strip_prefix("//@broadcast ") { bc.extend(t.split_whitespace().map(|x| x.to_string())); i += 1; continue; }
        if let Some(t) = l.strip_prefix("//@types ") { for n in t.split_whitespace() { if shown.insert(n.to_string()) { out.push_str(&emit_type(ix, n)); } } i += 1; continue; }
        if l.starts_with("//@fn ") || l.starts_with("//@extern ") || l.starts_with("//@used ") {
            let mut w = l.split_whitespace(); let kw = w.next().unwrap();
            let rest = l[kw.len()..].trim();
            let (path, tail) = if rest.starts_with('<') { let e = rest.find(">::").unwrap(); let e2 = rest[e..].find(' ').map(|x| e + x).unwrap_or(rest.len()); (&rest[..e2], &rest[e2..]) } else { let e = rest.find(' ').unwrap_or(rest.len()); (&rest[..e], &rest[e..]) };
            let mut f = FnSpec { path: path.to_string(), bare: path.starts_with('<'), ext: kw != "//@fn", used: kw == "//@used", name: None, opts: BTreeSet::new(), props: props.clone(), ret: "r".into(), contract: String::new(), attr: String::new(), invs: BTreeMap::new(), decs: BTreeMap::new(), hooks: BTreeMap::new(), sig: None, mutp: vec![] };
            for t in tail.split_whitespace() {
                if t == "bare" { f.bare = true } else if let Some(x) = t.strip_prefix("as=") { f.name = Some(x.into()) } else if let Some(x) = t.strip_prefix("props=") { f.props = x.into() } else if let Some(x) = t.strip_prefix("ret=") { f.ret = x.into() } else if let Some(x) = t.strip_prefix("mut=") { f.mutp = x.split(',').map(|s| s.to_string()).collect() } else { f.opts.insert(t.to_string()); }
            }
            i += 1;
            let mut sec = String::new();
            while i < lines.len() && lines[i].trim() != "//@endfn" {
                let t = lines[i].trim();
                if let Some(x) = t.strip_prefix("//@") { if x.starts_with("attr ") { f.attr.push_str(&x[5..]); f.attr.push('\n'); } else if x.starts_with("closure ") { } else if x.starts_with("sig ") { f.sig = Some(x[4..].to_string()); } else { sec = x.trim().to_string(); } }
                else if sec.is_empty() { f.contract.push_str(&lines[i]); f.contract.push('\n'); }
                else if let Some(k) = sec.strip_prefix("inv ") { let e = f.invs.entry(k.trim().parse().unwrap()).or_default(); e.push_str(&lines[i]); e.push('\n'); }
                else if let Some(k) = sec.strip_prefix("dec ") { let e = f.decs.entry(k.trim().parse().unwrap()).or_default(); e.push_str(&lines[i]); e.push('\n'); }
                else { let e = f.hooks.entry(sec.clone()).or_default(); e.push_str(&lines[i]); e.push('\n'); }
                i += 1;
            }
            i += 1;
            let start = out.matches('\n').count() + 1;
            let (code, status, bad, loops) = emit_fn(ix, &mut lits, &f, forced.contains(&f.path), &mutrefs, &world);
            out.push_str(&format!("//@@ {} {}\n", status, f.path)); out.push_str(&code); out.push_str("//@@ end\n");
            let end = out.matches('\n').count();
            map.push(format!("{{\"fn\":{},\"start\":{},\"end\":{},\"props\":{},\"status\":{},\"loops\":{},\"dropped\":{},\"bad\":[{}]}}", esc(&f.path), start, end, esc(&f.props), esc(&status), loops % 1000, loops / 1000, bad.iter().map(|b| esc(b)).collect::<Vec<_>>().join(",")));
            continue;
        }
        out.push_str(&lines[i]); out.push('\n'); i += 1;
    }
    let mut l = String::new();
    for (t, k) in &lits.texts {
        let b: Vec<String> = t.bytes().map(|b| format!("{}u8", b)).collect();
        let v = if b.is_empty() { "Seq::<u8>::empty()".to_string() } else { format!("seq![{}]", b.join(", ")) };
        l.push_str(&format!("pub open spec fn litv_{}() -> Txt {{ {} }} // {:?}\npub fn lit_{}() -> (r: Str) ensures r.b@ == litv_{}() {{ Str {{ b: Ghost(litv_{}()) }} }}\n", k, v, t, k, k, k));
    }
    let mut rx = vec![];
    for (t, k) in &lits.regexes {
        l.push_str(&format!("#[verifier::external_body] pub fn regex_{}() -> (r: Regex) ensures r.id@ == {}int/*F{}*/ {{ unimplemented!() }}\n", k, k, k));
        rx.push(format!("{}:{}", esc(&k.to_string()), esc(t)));
    }
    // the literals go to the end of the verus block, so that line numbers stay as they are
    out.push_str(&l); if !bc.is_empty() { out.push_str(&format!("broadcast use {{{}}};\n", bc.join(", "))); } out.push_str("} // verus!\nfn main() {}\n");
    (out, format!("{{\"functions\":[{}],\n\"regexes\":{{{}}},\n\"derived\":[{}]}}", map.join(",\n"), rx.join(","), ix.derived.iter().map(|d| esc(&format!("{} for {}", d.1, d.0))).collect::<Vec<_>>().join(",")))
}

/// borrowing and copying, for every type of the crate
fn copies(n: &str) -> String { format!("impl Rf for {0} {{ fn rf(&self) -> (r: &{0}) {{ self }} fn rfm(&mut self) -> (r: &mut {0}) {{ self }} }}\nimpl VClone for {0} {{ #[verifier::external_body] fn vclone(&self) -> (r: {0}) {{ unimplemented!() }} }}\n", n) }
fn emit_type(ix: &Src, n: &str) -> String {
    if let Some(s) = ix.structs.get(n) {
        let id = &s.ident;
        let f: Vec<_> = s.fields.iter().map(|f| { let t = map_type(&f.ty, &[], &None); match &f.ident { Some(i) => quote!(pub #i: #t), None => quote!(pub #t) } }).collect();
        let ts = match &s.fields { Fields::Named(_) => quote!(pub struct #id { #(#f),* }), _ => quote!(pub struct #id(#(#f),*);) };
        return print(ts) + "\n" + &copies(n);
    }
    if let Some(e) = ix.enums.get(n) {
        let id = &e.ident;
        let copy = ix.derived.iter().any(|d| d.0 == n && d.1 == "Copy");
        let v: Vec<_> = e.variants.iter().map(|v| { let i = &v.ident; match &v.fields {
            Fields::Unit => quote!(#i),
            Fields::Unnamed(f) => { let t: Vec<_> = f.unnamed.iter().map(|f| map_type(&f.ty, &[], &None)).collect(); quote!(#i(#(#t),*)) }
            Fields::Named(f) => { let t: Vec<_> = f.named.iter().map(|f| { let t = map_type(&f.ty, &[], &None); let i = &f.ident; quote!(#i: #t) }).collect(); quote!(#i { #(#t),* }) }
        } }).collect();
        let d = if copy { "#[derive(Clone, Copy)]\n" } else { "" };
        return format!("{}{}\n{}", d, print(quote!(pub enum #id { #(#v),* })), copies(n));
    }
    format!("//@@ lost type {}\n", n)
}

/// the body of the one closure without parameters that is called in a block
fn action(b: &Block) -> Option<Expr> {
    struct A(Vec<Expr>);
    impl<'b> visit::Visit<'b> for A { fn visit_expr_call(&mut self, c: &'b ExprCall) { if let Expr::Closure(cl) = strip(&c.func) { if cl.inputs.is_empty() && c.args.is_empty() { self.0.push((*cl.body).clone()); return; } } visit::visit_expr_call(self, c); } }
    let mut a = A(vec![]); visit::Visit::visit_block(&mut a, b);
    if a.0.len() == 1 { a.0.pop() } else { None }
}

fn emit_fn(ix: &Src, lits: &mut Lits, f: &FnSpec, forced: bool, mutrefs: &BTreeMap<String, Vec<usize>>, world: &BTreeSet<String>) -> (String, String, Vec<String>, usize) {
    let info = match ix.fns.get(&f.path) { Some(i) => i, None => {
        if let Some(s) = &f.sig { return (format!("#[verifier::external_body]\n{}\n{} {{ unimplemented!() }}\n", s, f.contract), "lost".into(), vec!["no such function".into()], 0); }
        return (String::new(), "lost".into(), vec!["no such function".into()], 0) } };
    let gens = str_generics(&info.sig);
    let mut tx = Tx { ix, lits, gens: gens.clone(), self_ty: info.self_ty.clone(), loops: 0, uid: 0, hooks: f.hooks.keys().cloned().collect(), opts: f.opts.clone(), ret_text: false, path: f.path.clone(), used: BTreeSet::new(), bad: vec![], self_renamed: false, mutrefs: mutrefs.clone(), muts: BTreeSet::new(), dropped: 0, quiet: false, prefix: f.path.find("::").map(|p| f.path[..p + 2].to_string()).filter(|p| p == "kit::").unwrap_or_default(), world: world.clone(), nums: BTreeSet::new(), rcs: BTreeSet::new() };
    if !world.contains(&f.path) { tx.world.clear(); }
    let mut params: Vec<String> = vec![]; let mut pre: Vec<Stmt> = vec![];
    if world.contains(&f.path) { params.push("w: &mut World".into()); }
    for a in &info.sig.inputs {
        match a {
            FnArg::Receiver(r) => { let by_ref = if let Type::Reference(t) = &*r.ty { Some(t.mutability.is_some()) } else { None }; if let Some(m_) = by_ref { params.push(if m_ || f.mutp.iter().any(|m| m == "self") { "&mut self".into() } else { "&self".into() }); } else { params.push("self".into()); if r.mutability.is_some() || f.opts.contains("this") || info.self_ty.as_deref() == Some("Parser") { tx.self_renamed = true; pre.push(parse_quote!(let mut this = self;)); } } }
            FnArg::Typed(t) => {
                let name = match &*t.pat { Pat::Ident(i) => i.clone(), _ => { tx.bad.push("a pattern as parameter".into()); continue } };
                let mut ty = map_type(&t.ty, &gens, &info.self_ty);
                let id = &name.ident;
                if matches!(&*t.ty, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Rc")) { tx.rcs.insert(id.to_string()); }
                if f.mutp.iter().any(|m| id == m) { if let Type::Reference(r) = &ty { let e = &r.elem; if r.mutability.is_none() { ty = parse_quote!(&mut #e); } } }
                if let Type::Path(p) = &ty { if p.path.is_ident("char") { tx.opts.insert(format!("char={}", id)); } }
                if let Type::Reference(r) = &ty { if matches!(&*r.elem, Type::Path(p) if p.path.is_ident("usize")) { tx.nums.insert(id.to_string()); } }
                if name.mutability.is_some() { pre.push(parse_quote!(let mut #id = #id;)); }
                params.push(format!("{}: {}", id, ty.to_token_stream()));
            }
        }
    }
    let ret = match &info.sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => { let t2 = map_type(t, &gens, &info.self_ty); tx.ret_text = t2.to_token_stream().to_string() == "Str"; format!(" -> ({}: {})", f.ret, t2.to_token_stream()) } };
    let name = f.name.clone().unwrap_or_else(|| info.sig.ident.to_string());
    let mut body = String::new();
    if !f.ext && !forced {
        let mut b = tx.body(&info.block);
        let mut st = pre; st.append(&mut b.stmts); b.stmts = st;
        if std::env::var("VX_PROBE").is_ok() { b.stmts.insert(0, parse_quote!(__probe!();)); }
        body = print(b.to_token_stream());
        for h in f.hooks.keys() { if !tx.used.contains(h) { tx.bad.push(format!("no place for the hint {}", h)); } }
        for k in f.invs.keys() { if *k >= tx.loops { tx.bad.push(format!("no loop {}", k)); } }
        body = fill(&body, f);
        if let Some(p) = body.find("__probe") { let e = p + body[p..].find(';').unwrap() + 1; body = format!("{}proof {{ assert(false); }} {}", &body[..p], &body[e..]); }
    }
    let mut bad = tx.bad.clone();
    if bad.is_empty() && forced { bad.push("not accepted by the verifier".into()); }
    let status = if f.used { "used" } else if f.ext { "assumed" } else if !bad.is_empty() { "unsupported" } else { "verified" };
    let contract = &f.contract;
    let head = format!("{}fn {}({}){}\n{}", if f.bare { "" } else { "pub " }, name, params.join(", "), ret, contract);
    let code = if status == "verified" { format!("{}{}{}\n{}\n", if f.opts.contains("isolate") || f.invs.values().any(|i| i.contains("ensures")) { "" } else { "#[verifier::loop_isolation(false)]\n" }, if f.attr.contains("decreases_clause") || contract.contains("decreases") { f.attr.clone() } else { format!("#[verifier::exec_allows_no_decreases_clause]\n{}", f.attr) }, head, body) } else { format!("#[verifier::external_body]\n{} {{ unimplemented!() }}\n", head) };
    let code = if f.bare || info.self_ty.is_none() { code } else { let t = format_ident!("{}", info.self_ty.clone().unwrap()); format!("impl {} {{\n{}}}\n", t, code) };
    (code, status.into(), bad, tx.loops + 1000 * tx.dropped)
}

fn fill(body: &str, f: &FnSpec) -> String {
    // `{ __inv ! ( inv_k_kind ) ;`  ->  invariant .. {
    let mut out = String::new(); let mut rest = body;
    loop {
        let p = match rest.find("__inv") { Some(p) => p, None => { out.push_str(rest); break } };
        let before = rest[..p].trim_end();
        let before = before.strip_suffix('{').expect("loop body").trim_end();
        let end = p + rest[p..].find(';').unwrap() + 1;
        let id: String = rest[p..end].chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
        let parts: Vec<&str> = id.trim_start_matches("__invinv_").split('_').collect();
        let k: usize = parts[0].parse().unwrap();
        out.push_str(before);
        let auto = match parts[1] { "it" => format!("__n{0} <= __e{0},", k), "rg" => format!("__a{0} <= __n{0}, __n{0} <= __e{0} || __n{0} == __a{0},", k), "rv" => format!("__n{0} <= __a{0}, __e{0} <= __n{0} || __n{0} == __a{0},", k), _ => String::new() };
        let dec = match f.decs.get(&k) { Some(d) => d.clone(), None => match parts[1] { "it" | "rg" => format!("__e{0} - __n{0}", k), "rv" => format!("__n{0} - __e{0}", k), _ => String::new() } };
        let user = f.invs.get(&k).cloned().unwrap_or_default();
        if !(auto.is_empty() && user.trim().is_empty()) { if user.contains("invariant_except_break") { out.push_str(&format!("\ninvariant_except_break {}\n{}", auto, user.replacen("invariant_except_break", "", 1))); } else { out.push_str(&format!("\ninvariant {}\n{}", auto, user)); } }
        if !dec.is_empty() { out.push_str(&format!("\ndecreases {}\n", dec.trim())); }
        out.push_str(" {\n");
        rest = &rest[end..];
    }
    let mut s = out;
    for (h, t) in &f.hooks {
        let id = h.replace(' ', "_");
        // `__hook ! ( id ) ;`
        let mut o = String::new(); let mut r = &s[..];
        loop {
            let p = match r.find("__hook") { Some(p) => p, None => { o.push_str(r); break } };
            let end = p + r[p..].find(';').unwrap() + 1;
            let name: String = r[p + 6..end].chars().filter(|c| c.is_alphanumeric() || *c == '_').collect();
            o.push_str(&r[..p]);
            if name == id { o.push_str(t); } else { o.push_str(&r[p..end]); }
            r = &r[end..];
        }
        s = o;
    }
    s
}
