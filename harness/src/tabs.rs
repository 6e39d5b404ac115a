//! C11: which sequences of table headers are accepted, and what they mean.
//! The reference is TOML 0.4's rules plus tomllib's own: a standard sub-table of a table that already holds
//! key/value pairs is invalid (pinned by its tests), unless that table is an element of an array of tables.
use crate::drv::*;
use crate::rng::Rng;
use std::collections::BTreeMap;
use tomllib::types::*;
use tomllib::TOMLParser;

const RULE: &str = "sequences of table and array-of-tables headers, with or without a key after each; non-trivial: all";
pub const ALL: &[Prop] = &[Prop { id: "C11", rule: RULE, items: 28 * 28, bound: "every sequence of at most 3 headers out of 7 paths, plain or array, with or without a key (22k documents), exhaustively", item, random }];

#[derive(Clone, Debug)]
enum N { T { explicit: bool, kids: Vec<(String, N)> }, A(Vec<N>), V }
fn get(kids: &Vec<(String, N)>, k: &str) -> Option<usize> { kids.iter().position(|x| x.0 == k) }
fn table() -> N { N::T { explicit: true, kids: vec![] } }
/// opens a header; false if it is invalid
fn open(root: &mut N, path: &[String], arr: bool) -> bool {
    let mut cur = root; let mut in_arr = false;
    for (i, p) in path.iter().enumerate() {
        let last = i + 1 == path.len();
        let kids = match cur { N::T { kids, .. } => kids, _ => unreachable!() };
        let has_vals = kids.iter().any(|k| matches!(k.1, N::V));
        let ix = get(kids, p);
        if last {
            if !arr && i > 0 && !in_arr && has_vals { return false; }
            return match ix {
                None => { kids.push((p.to_string(), if arr { N::A(vec![table()]) } else { table() })); true }
                Some(ix) => match kids[ix].1 {
                    N::T { ref mut explicit, .. } => { if arr || *explicit { false } else { *explicit = true; true } }
                    N::A(ref mut v) => { if arr { v.push(table()); } arr }
                    N::V => false,
                },
            };
        }
        let ix = match ix { Some(i) => i, None => { kids.push((p.to_string(), N::T { explicit: false, kids: vec![] })); kids.len() - 1 } };
        in_arr = matches!(kids[ix].1, N::A(_));
        cur = match kids[ix].1 { N::A(ref mut v) => v.last_mut().unwrap(), N::V => return false, ref mut t => t };
    }
    true
}
fn table_at<'a>(root: &'a mut N, path: &[String]) -> &'a mut N {
    let mut cur = root;
    for p in path { let kids = match cur { N::T { kids, .. } => kids, _ => unreachable!() }; let ix = get(kids, p).unwrap(); cur = match kids[ix].1 { N::A(ref mut v) => v.last_mut().unwrap(), ref mut t => t }; }
    cur
}
fn flat(n: &N, key: &str, out: &mut BTreeMap<String, String>) {
    match n {
        N::V => { out.insert(key.into(), "V".into()); }
        N::T { kids, .. } => { out.insert(key.into(), format!("{:?}", kids.iter().map(|k| k.0.clone()).collect::<Vec<_>>())); for k in kids { flat(&k.1, &if key.is_empty() { k.0.clone() } else { format!("{}.{}", key, k.0) }, out); } }
        N::A(v) => { out.insert(key.into(), format!("#{}", v.len())); for (i, x) in v.iter().enumerate() { flat(x, &format!("{}[{}]", key, i), out); } }
    }
}
struct H { path: Vec<String>, arr: bool, kv: bool }
/// checks one sequence; `ws` chooses the spelling
fn check(hs: &[H], text: &str, c: &mut Case) -> R {
    c.evals += 1;
    let mut root = table(); let mut ok = true; let mut bad: Option<(usize, String)> = None; let mut line = 0;
    for (i, h) in hs.iter().enumerate() {
        line += 1;
        if ok { ok = open(&mut root, &h.path, h.arr); if !ok { bad = Some((line, h.path.join("."))); } }
        if h.kv { line += 1; if ok { if let N::T { kids, .. } = table_at(&mut root, &h.path) { kids.push((format!("x{}", i), N::V)); } } }
    }
    let (p, res) = TOMLParser::new().parse(text);
    if !ok {
        return match res {
            ParseResult::FullError(ref e) => {
                let e = e.borrow(); let (bl, _) = bad.unwrap();
                match e[0] { ParseError::InvalidTable(_, l, _, _) => { ensure!(l == bl, "the invalid table is on line {}, but is reported on line {}", bl, l); Ok(()) } ref o => Err(format!("reports {:?} for an invalid table", o)) }
            }
            ref o => Err(format!("an invalid table gives {:?}", o)),
        };
    }
    ensure!(res == ParseResult::Full, "valid headers give {:?}", res);
    ensure!(format!("{}", p) == text, "is displayed as {:?}", format!("{}", p));
    let mut exp = BTreeMap::new(); flat(&root, "", &mut exp);
    for (k, e) in &exp {
        let kk = k.as_str();
        if e == "V" { ensure!(p.get_value(kk) == Some(Value::int(1)), "get_value({:?}) gives {:?}", kk, p.get_value(kk)); }
        else {
            let g = match p.get_children(kk) { None => "none".to_string(), Some(&Children::Count(ref c)) => format!("#{}", c.get()), Some(&Children::Keys(ref v)) => format!("{:?}", v.borrow()) };
            ensure!(&g == e, "get_children({:?}) gives {}, expected {}", kk, g, e);
            ensure!(p.get_value(kk).is_none(), "get_value({:?}) of a table gives {:?}", kk, p.get_value(kk));
        }
    }
    for (k, e) in &exp { if let Some(n) = e.strip_prefix('#') { let x = format!("{}[{}]", k, n); ensure!(p.get_children(x.as_str()).is_none() && p.get_value(x.as_str()).is_none(), "{:?} should not exist", x); } }
    Ok(())
}
const PATHS: &[&[&str]] = &[&["a"], &["b"], &["a", "b"], &["a", "c"], &["a", "b", "c"], &["b", "c"], &["ab"]];
fn h(code: usize) -> H { H { path: PATHS[code / 4].iter().map(|s| s.to_string()).collect(), arr: code & 1 == 1, kv: code & 2 == 2 } }
fn plain(hs: &[H]) -> String {
    let mut t = String::new();
    for (i, h) in hs.iter().enumerate() { let n = h.path.join("."); t.push_str(&if h.arr { format!("[[{}]]\n", n) } else { format!("[{}]\n", n) }); if h.kv { t.push_str(&format!("x{} = 1\n", i)); } }
    t
}
fn item(i: usize, c: &mut Case) -> R {
    c.note("headers starting with", plain(&[h(i / 28), h(i % 28)]));
    let two = [h(i / 28), h(i % 28)]; let t = plain(&two); check(&two, &t, c).map_err(|e| format!("{:?}: {}", t, e))?;
    for k in 0..28 { let hs = [h(i / 28), h(i % 28), h(k)]; let t = plain(&hs); check(&hs, &t, c).map_err(|e| format!("{:?}: {}", t, e))?; }
    Ok(())
}
fn random(r: &mut Rng, c: &mut Case) -> R {
    let names = if r.chance(1, 3) { ["\"a.b\"", "a", "\"a\"", "b-1"] } else { ["a", "b", "c", "ab"] };
    let n = r.range(2, 7);
    let mut hs: Vec<H> = vec![];
    for _ in 0..n {
        let path = if !hs.is_empty() && r.chance(1, 3) { let mut p = r.pick(&hs).path.clone(); if r.chance(1, 2) || p.len() == 1 { p.push(r.pick(&names).to_string()); } else { p.pop(); } p } else { (0..r.range(1, 3)).map(|_| r.pick(&names).to_string()).collect() };
        hs.push(H { path, arr: r.chance(1, 2), kv: r.chance(1, 2) });
    }
    let mut t = String::new();
    for (i, h) in hs.iter().enumerate() {
        let w = |r: &mut Rng| *r.pick(&["", "", "", " ", "\t"]);
        let mut s = String::from(w(r)); s.push_str(if h.arr { "[[" } else { "[" }); s.push_str(w(r));
        for (j, p) in h.path.iter().enumerate() { if j > 0 { s.push_str(w(r)); s.push('.'); s.push_str(w(r)); } s.push_str(p); }
        s.push_str(w(r)); s.push_str(if h.arr { "]]" } else { "]" }); s.push_str(w(r)); if r.chance(1, 6) { s.push_str("# c"); } s.push('\n');
        t.push_str(&s); if h.kv { t.push_str(&format!("x{} = 1\n", i)); }
    }
    c.note("document", &t[..]);
    check(&hs, &t, c)
}
