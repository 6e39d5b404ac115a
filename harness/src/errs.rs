//! C10 (each error is reported exactly, and the first definition wins) and C14 (mixed arrays).
use crate::drv::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use tomllib::types::*;
use tomllib::TOMLParser;

pub const ALL: &[Prop] = &[
    Prop { id: "C10", rule: "documents built line by line in which some keys and tables are duplicated and some datetimes do not exist; non-trivial: at least one error", items: 0, bound: "documents of at most 14 lines", item: no_item, random: c10 },
    Prop { id: "C14", rule: "documents with arrays nested at most 3 deep, some with elements of several types; non-trivial: at least one array", items: 0, bound: "documents of at most 5 values, arrays nested at most 3 deep", item: no_item, random: c14 },
];

#[derive(Clone, Debug, PartialEq)]
enum E { Dup(String, usize, V), Table(String, usize, BTreeMap<String, V>), Dt(String, usize, String), Mixed(String, usize) }
fn real(e: &ParseError) -> Option<E> {
    fn own(v: &Value) -> V { // the values of the tests are small: rebuild them without borrowing
        match *v {
            Value::Integer(ref s) => Value::Integer(s.to_string().into()), Value::Float(ref s) => Value::Float(s.to_string().into()), Value::Boolean(b) => Value::Boolean(b),
            Value::String(ref s, t) => Value::String(s.to_string().into(), t),
            Value::DateTime(ref d) => Value::DateTime(own_dt(d)),
            Value::Array(ref a) => Value::Array(std::rc::Rc::new(a.iter().map(own).collect())),
            Value::InlineTable(ref t) => Value::InlineTable(std::rc::Rc::new(t.iter().map(|kv| (kv.0.to_string().into(), own(&kv.1))).collect())),
        }
    }
    fn own_dt(d: &DateTime) -> DateTime<'static> {
        let s = |x: &std::borrow::Cow<str>| std::borrow::Cow::Owned(x.to_string());
        DateTime { date: Date { year: s(&d.date.year), month: s(&d.date.month), day: s(&d.date.day) }, time: d.time.as_ref().map(|t| Time { hour: s(&t.hour), minute: s(&t.minute), second: s(&t.second), fraction: t.fraction.as_ref().map(s), offset: t.offset.as_ref().map(|o| match *o { TimeOffset::Zulu => TimeOffset::Zulu, TimeOffset::Time(ref a) => TimeOffset::Time(TimeOffsetAmount { pos_neg: a.pos_neg, hour: s(&a.hour), minute: s(&a.minute) }) }) }) }
    }
    Some(match *e {
        ParseError::DuplicateKey(ref k, l, 0, ref v) => E::Dup(k.clone(), l, own(v)),
        ParseError::InvalidTable(ref k, l, 0, ref m) => E::Table(k.clone(), l, m.borrow().iter().map(|(k, v)| (k.clone(), own(v))).collect()),
        ParseError::InvalidDateTime(ref k, l, 0, ref s) => E::Dt(k.clone(), l, s.to_string()),
        ParseError::MixedArray(ref k, l, 0) => E::Mixed(k.clone(), l),
        _ => return None,
    })
}
fn compare(text: &str, want: &[E], vals: &BTreeMap<String, V>, kids: &BTreeMap<String, Kids>) -> R {
    let (p, res) = TOMLParser::new().parse(text);
    let got: Vec<ParseError> = match res {
        ParseResult::Full => vec![], ParseResult::FullError(ref e) => { ensure!(!e.borrow().is_empty(), "FullError without errors"); e.borrow().clone() }
        ref o => return Err(format!("gives {:?}", o)),
    };
    let mut g: Vec<Option<E>> = got.iter().map(real).collect();
    let mut want = want.to_vec();
    // mixed arrays inside each other are reported in any order
    if want.iter().all(|e| matches!(e, E::Mixed(..))) { want.sort_by_key(|e| format!("{:?}", e)); g.sort_by_key(|e| e.as_ref().map(|e| format!("{:?}", e))); }
    // an invalid [[t]] is reported with the key t or that of its element
    let same = |a: &Option<E>, b: &E| match (a, b) { (Some(E::Table(k, l, m)), E::Table(k2, l2, m2)) => (k == k2 || k.rfind('[').map_or(false, |i| k2 == &k[..i] && !k2.is_empty())) && l == l2 && m == m2, (Some(a), b) => a == b, _ => false };
    ensure!(g.len() == want.len() && g.iter().zip(&want).all(|(a, b)| same(a, b)), "reports {:?}, expected {:?}", got, want);
    let shown = format!("{}", p);
    ensure!(shown == text, "is displayed as {:?}", shown);
    for (k, v) in vals { let x = p.get_value(k.as_str()); ensure!(x.as_ref() == Some(v), "get_value({:?}) gives {:?}, but the first definition is {:?}", k, x, v); }
    for (k, v) in kids { let x = children(&p, k); ensure!(x.as_ref() == Some(v), "get_children({:?}) gives {:?}, expected {:?}", k, x, v); }
    Ok(())
}
fn no_time() -> Vec<&'static str> { vec!["2015-00-10", "2015-13-01", "2015-02-29", "2015-04-31", "2015-01-00", "2015-12-32", "0000-01-01", "1900-02-29", "2016-01-01T24:00:00", "2016-01-01T23:60:00", "2016-01-01T23:59:60Z", "2016-01-01T23:59:59.5+24:00", "2016-01-01T00:00:00-23:60", "9999-06-31T00:00:00"] }

struct B { text: String, line: usize, vals: BTreeMap<String, V>, kids: BTreeMap<String, Kids>, want: Vec<E> }
impl B {
    fn put(&mut self, s: &str) { self.text.push_str(s); self.line += s.matches('\n').count(); }
    fn kid(&mut self, parent: &str, k: &str) { let p = if parent.is_empty() { "$Root$" } else { parent }; if let Kids::Keys(ref mut v) = self.kids.entry(p.to_string()).or_insert(Kids::Keys(vec![])) { if !v.iter().any(|x| x == k) { v.push(k.to_string()); } } }
    fn filler(&mut self, r: &mut Rng) { for _ in 0..r.below(3) { let s = *r.pick(&["\n", "# a comment\n", "  \n", "\r\n", "\t# k = 1\n"]); self.put(s); } }
}
/// values whose text has no line break, not mixed, and without date-times that do not exist
fn plain_value(r: &mut Rng, depth: usize) -> V {
    if depth > 0 && r.chance(1, 4) { if r.chance(1, 2) { let k = r.below(6); let n = r.below(4); return Value::Array(std::rc::Rc::new((0..n).map(|_| scalar_kind(r, k, false)).collect())); }
        let n = r.below(3); return Value::InlineTable(std::rc::Rc::new((0..n).map(|i| (format!("i{}", i).into(), scalar(r, false))).collect())); }
    scalar(r, false)
}
fn spread(v: &V, r: &mut Rng) -> String { // the text of an array over several lines
    match *v { Value::Array(ref a) if r.chance(1, 2) => format!("[\n{}]", a.iter().map(|x| format!(" {},\n", val_text(x))).collect::<String>()), ref v => val_text(v) }
}
fn c10(r: &mut Rng, c: &mut Case) -> R {
    let mut b = B { text: String::new(), line: 1, vals: BTreeMap::new(), kids: BTreeMap::new(), want: vec![] };
    b.kids.insert("$Root$".into(), Kids::Keys(vec![]));
    let mut cur = String::new(); // full key of the current table
    let mut invalid = false; // whether the current table is an invalid one
    let mut tables: Vec<(String, bool)> = vec![]; let mut counts: BTreeMap<String, usize> = BTreeMap::new();
    let names = ["a", "b", "c", "dd", "\"e f\""];
    for _ in 0..r.range(2, 10) {
        b.filler(r);
        if r.chance(2, 3) { // a key
            let k = if invalid { format!("n{}", b.line) } else { r.pick(&names).to_string() };
            let full = if cur.is_empty() { k.clone() } else { format!("{}.{}", cur, k) };
            if !b.vals.contains_key(&full) && b.kids.contains_key(&full) { continue; } // a table of this name: not generated here
            if invalid {
                let at = b.want.iter().rposition(|e| matches!(e, E::Table(..))).unwrap();
                let k = if let E::Table(_, _, ref m) = b.want[at] { let n = r.pick(&["t", "u", "v", "a", "b", "c"]).to_string(); if r.chance(1, 2) && !m.contains_key(&n) { n } else { k } } else { k };
                // several keys of the table may hold values of any kind, but no impossible date-time: it would be reported under the short key
                let v = plain_value(r, 1);
                let t = spread(&v, r);
                if let E::Table(_, _, ref mut m) = b.want[at] { m.insert(k.clone(), v.clone()); }
                b.put(&format!("{} = {}\n", k, t));
                continue;
            }
            if b.vals.contains_key(&full) {
                let v = plain_value(r, 1); let t = val_text(&v);
                b.want.push(E::Dup(full, b.line, v)); b.put(&format!("{} = {}\n", k, t));
            } else if r.chance(1, 4) {
                let t = no_time(); let t = *r.pick(&t); b.kid(&cur, &k);
                match r.below(3) {
                    0 => { b.want.push(E::Dt(full.clone(), b.line, t.to_string())); b.put(&format!("{} = {}\n", k, t)); b.kids.insert(full, Kids::Count(0)); }
                    1 => { b.want.push(E::Dt(format!("{}[1]", full), b.line, t.to_string())); b.put(&format!("{} = [2015-01-01, {}]\n", k, t)); b.kids.insert(full.clone(), Kids::Count(2)); }
                    _ => { b.want.push(E::Dt(format!("{}.x", full), b.line, t.to_string())); b.put(&format!("{} = {{x = {}}}\n", k, t)); b.kids.insert(full.clone(), Kids::Keys(vec!["x".into()])); }
                }
                b.vals.insert(format!("{}", if cur.is_empty() { k.clone() } else { format!("{}.{}", cur, k) }), Value::Boolean(false)); // placeholder: checked by kids only
                let f2 = if cur.is_empty() { k.clone() } else { format!("{}.{}", cur, k) };
                b.vals.insert(f2.clone(), ref_value(b.text.lines().last().unwrap()));
            } else {
                let v = plain_value(r, 1); b.kid(&cur, &k); expand(&full, &v, &mut b.vals, &mut b.kids);
                let t = spread(&v, r); b.put(&format!("{} = {}\n", k, t));
            }
        } else { // a table
            let k = format!("{}", r.pick(&["t", "u", "v", "\"w x\"", "a", "b"]));
            let arr = r.chance(1, 3);
            let head = if arr { format!("[[{}]]\n", k) } else { format!("[{}]\n", k) };
            let known = tables.iter().find(|t| t.0 == k).cloned();
            let bad = match known { Some((_, was_arr)) => !(arr && was_arr), None => b.vals.contains_key(&k) };
            if bad { b.want.push(E::Table(k.clone(), b.line, BTreeMap::new())); b.put(&head); invalid = true; cur = "?".into(); continue; }
            invalid = false; b.put(&head); b.kid("", &k);
            if arr { let n = counts.entry(k.clone()).or_insert(0); *n += 1; let n = *n; b.kids.insert(k.clone(), Kids::Count(n)); cur = format!("{}[{}]", k, n - 1); if n == 1 { tables.push((k, true)); } }
            else { tables.push((k.clone(), false)); cur = k; }
            b.kids.entry(cur.clone()).or_insert(Kids::Keys(vec![]));
        }
    }
    c.note("document", &b.text[..]); c.trivial = b.want.is_empty();
    let vals: BTreeMap<String, V> = b.vals.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    compare(&b.text, &b.want, &vals, &b.kids)?;
    let _ = (RefCell::new(0), HashMap::<u8, u8>::new());
    Ok(())
}
/// the value on a line `k = <date-time>`, `k = [2015-01-01, <date-time>]` or `k = {x = <date-time>}`
fn ref_value(line: &str) -> V {
    fn dt(s: &str) -> V {
        let b = s; let (d, t) = match b.find('T') { Some(i) => (&b[..i], Some(&b[i + 1..])), None => (b, None) };
        let o = |s: &str| std::borrow::Cow::Owned(s.to_string());
        let date = Date { year: o(&d[0..4]), month: o(&d[5..7]), day: o(&d[8..10]) };
        let time = t.map(|t| {
            let rest = &t[8..]; let (frac, rest) = if rest.starts_with('.') { let n = rest[1..].find(|c: char| !c.is_ascii_digit()).map(|i| i + 1).unwrap_or(rest.len()); (Some(o(&rest[1..n])), &rest[n..]) } else { (None, rest) };
            let offset = match rest { "" => None, "Z" => Some(TimeOffset::Zulu), x => Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: if x.starts_with('-') { PosNeg::Neg } else { PosNeg::Pos }, hour: o(&x[1..3]), minute: o(&x[4..6]) })) };
            Time { hour: o(&t[0..2]), minute: o(&t[3..5]), second: o(&t[6..8]), fraction: frac, offset }
        });
        Value::DateTime(DateTime { date, time })
    }
    let v = &line[line.find('=').unwrap() + 2..];
    if v.starts_with('[') { Value::Array(std::rc::Rc::new(vec![dt("2015-01-01"), dt(&v[13..v.len() - 1])])) } else if v.starts_with('{') { Value::InlineTable(std::rc::Rc::new(vec![("x".into(), dt(&v[5..v.len() - 1]))])) } else { dt(v) }
}

/// an array of any shape; `mix`: may have elements of several types
fn arr(r: &mut Rng, depth: usize, mix: bool) -> V {
    let n = r.below(5); let k = r.below(10);
    Value::Array(std::rc::Rc::new((0..n).map(|_| { let k = if mix && r.chance(1, 3) { r.below(10) } else { k }; elem(r, k, depth, mix) }).collect()))
}
fn elem(r: &mut Rng, k: usize, depth: usize, mix: bool) -> V {
    if k < 8 || depth == 0 { return scalar_kind(r, k.min(7), false); }
    if k == 8 { return arr(r, depth - 1, mix); }
    let n = r.below(3); Value::InlineTable(std::rc::Rc::new((0..n).map(|i| { let k = r.below(10); (format!("i{}", i).into(), elem(r, k, depth - 1, mix)) }).collect()))
}
/// mixed arrays in the order in which they end
fn mixes(key: &str, v: &V, line: usize, out: &mut Vec<E>) {
    match *v {
        Value::Array(ref a) => { for (i, x) in a.iter().enumerate() { mixes(&format!("{}[{}]", key, i), x, line, out); } if a.windows(2).any(|w| kind(&w[0]) != kind(&w[1])) { out.push(E::Mixed(key.to_string(), line)); } }
        Value::InlineTable(ref t) => for kv in t.iter() { mixes(&format!("{}.{}", key, kv.0), &kv.1, line, out); },
        _ => {}
    }
}
fn c14(r: &mut Rng, c: &mut Case) -> R {
    let mut b = B { text: String::new(), line: 1, vals: BTreeMap::new(), kids: BTreeMap::new(), want: vec![] };
    let mut cur = String::new(); let mut n = 0; let mut any = false;
    for i in 0..r.range(1, 4) {
        b.filler(r);
        if r.chance(1, 3) { cur = match r.below(2) { 0 => { b.put(&format!("[t{}]\n", i)); format!("t{}", i) } _ => { b.put("[[aot]]\n"); n += 1; format!("aot[{}]", n - 1) } }; }
        let key = format!("k{}", i); let full = if cur.is_empty() { key.clone() } else { format!("{}.{}", cur, key) };
        let mix = r.chance(2, 3); let k = r.range(7, 9); let v = if k == 7 { arr(r, 2, mix) } else { elem(r, k, 3, mix) };
        any = any || !scalar_v(&v);
        mixes(&full, &v, b.line, &mut b.want);
        expand(&full, &v, &mut b.vals, &mut b.kids);
        b.put(&format!("{} = {}\n", key, val_text(&v)));
    }
    c.note("document", &b.text[..]); c.trivial = !any;
    compare(&b.text, &b.want, &b.vals, &b.kids)
}
