//! The bounded checks of the properties that are about the library's documents and values.
use crate::drv::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::rc::Rc;
use tomllib::types::*;
use tomllib::TOMLParser;

pub const ALL: &[Prop] = &[
    Prop { id: "C01", rule: "documents over TOML tokens, generated valid documents and the same documents after random edits; non-trivial: at least one byte consumed", items: TOK_ITEMS, bound: "every document of at most 3 tokens out of 18, exhaustively", item: c01_item, random: c01 },
    Prop { id: "C02", rule: "generated valid documents with and without appended garbage, and randomly edited ones; non-trivial: text not empty", items: TOK_ITEMS, bound: "every document of at most 3 tokens out of 18, exhaustively", item: c02_item, random: c02 },
    Prop { id: "C03", rule: "a generated document and 1..4 replacements of values; non-trivial: at least one replacement accepted", items: 0, bound: "documents of at most 20 keys, values nested at most 3 deep", item: no_item, random: c03 },
    Prop { id: "C04", rule: "a generated document and 1..4 replacements of values, reading everything back; non-trivial: at least one replacement accepted", items: 0, bound: "documents of at most 20 keys, values nested at most 3 deep", item: no_item, random: c04 },
    Prop { id: "C05", rule: "a generated document and requests to set an invalid value, a missing key or a table; non-trivial: a request was made", items: 0, bound: "documents of at most 20 keys, values nested at most 3 deep", item: no_item, random: c05 },
    Prop { id: "C06", rule: "texts near the lexical grammar of each kind of value; non-trivial: text not empty", items: LEX_ITEMS, bound: "every text of at most 4 characters over 12 characters as an integer and a float, of at most 4 over 9 as strings and keys, exhaustively", item: c06_item, random: c06 },
    Prop { id: "C07", rule: "dates and times around every boundary of the calendar and clock, and texts near them; non-trivial: all", items: 10002 + 64, bound: "February and the month ends of every year 0..10001, every month 0..13 with every day 0..32 of 8 years, every hour, minute and second 0..99, exhaustively", item: c07_item, random: c07 },
    Prop { id: "C08", rule: "arguments of every value constructor; non-trivial: all", items: 0, bound: "random arguments", item: no_item, random: c08 },
    Prop { id: "C09", rule: "keys and child lists; non-trivial: not empty", items: 0, bound: "keys of at most 12 characters, documents of at most 20 keys", item: no_item, random: c09 },
    Prop { id: "C15", rule: "generated valid documents; non-trivial: at least one key", items: 0, bound: "documents of at most 40 keys, values nested at most 3 deep", item: no_item, random: c15 },
    Prop { id: "C16", rule: "valid values of every kind nested at most 3 deep; non-trivial: all", items: 0, bound: "values nested at most 3 deep", item: no_item, random: c16 },
    Prop { id: "C17", rule: "token sequences, edited documents, arbitrary keys and values in every operation; non-trivial: text not empty", items: TOK_ITEMS + DEF_ITEMS, bound: "every document of at most 3 tokens out of 18 and every document of at most 3 definitions out of 24 of tables and keys with two names, exhaustively; nesting at most 40", item: c17_item, random: c17 },
];

pub const TOKENS: &[&str] = &["a", "=", "1", "[", "]", "{", "}", ",", "\n", "\"", "'", "#", " ", ".", "\"\"\"", "2015-01-01", "[[", "a=1\n"];
pub const TOK_ITEMS: usize = 18 * 18 + 18 + 1;
fn tok_docs(i: usize) -> Vec<String> {
    if i == 0 { return vec![String::new()]; }
    if i <= 18 { return vec![TOKENS[i - 1].to_string()]; }
    let j = i - 19; let head = format!("{}{}", TOKENS[j / 18], TOKENS[j % 18]);
    let mut v = vec![head.clone()]; for t in TOKENS { v.push(format!("{}{}", head, t)); } v
}
pub fn mutate(r: &mut Rng, text: &str, n: usize) -> String {
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..n {
        let at = r.below(c.len() + 1);
        match r.below(5) {
            0 if at < c.len() => { c.remove(at); }
            1 => { let t = *r.pick(TOKENS); for (i, x) in t.chars().enumerate() { c.insert(at + i, x); } }
            2 if at < c.len() => { let k = r.range(1, 12).min(c.len() - at); let part: Vec<char> = c[at..at + k].to_vec(); let to = r.below(c.len() + 1); for (i, x) in part.into_iter().enumerate() { c.insert(to + i, x); } }
            3 => { let x = *r.pick(&['\u{0}', '\r', '\t', '\u{7f}', '\u{e9}', '\u{ffff}', '\u{10ffff}', '\\', '"', '\'', '+', '_', '0', 'e', 'T', ':', 'Z', '\u{2028}', '\u{a0}']); c.insert(at, x); }
            4 if r.chance(1, 4) => c.truncate(at),
            _ => {}
        }
    }
    c.into_iter().collect()
}
pub fn parse(text: &str) -> (TOMLParser<'_>, ParseResult<'_>) { TOMLParser::new().parse(text) }
fn gen_doc(r: &mut Rng, cfg: Cfg) -> Doc { G::new(r, cfg).doc() }
fn some_doc(r: &mut Rng) -> Doc { let c = if r.chance(3, 4) { Cfg::small() } else { Cfg::full() }; gen_doc(r, c) }
fn left<'b>(res: &'b ParseResult) -> &'b str { match *res { ParseResult::Partial(ref s, _, _) | ParseResult::PartialError(ref s, _, _, _) => s, _ => "" } }
fn token_doc(r: &mut Rng) -> String { let n = r.range(1, 14); (0..n).map(|_| *r.pick(TOKENS)).collect() }

fn lossless(text: &str, c: &mut Case) -> R {
    c.evals += 1;
    let (p, res) = parse(text);
    if let ParseResult::Failure(..) = res { return Ok(()); }
    let shown = format!("{}", p);
    let l = left(&res);
    if shown.len() + l.len() != text.len() || !text.starts_with(&shown[..]) || !text.ends_with(l) { c.note("text", text); return Err(format!("displays {:?}, remainder {:?}, of {:?}", shown, l, text)); }
    Ok(())
}
fn c01_item(i: usize, c: &mut Case) -> R { c.note("tokens", format!("{:?}", tok_docs(i).first())); for t in tok_docs(i) { lossless(&t, c)?; } Ok(()) }
/// definitions of tables and keys that get in each other's way
const DEFS: &[&str] = &["[a]\n", "[b]\n", "[a.b]\n", "[b.a]\n", "[a.a.b]\n", "[[a]]\n", "[[b]]\n", "[[a.b]]\n", "[[b.a]]\n", "[[a.b.a]]\n", "a=1\n", "b=1\n", "a=[]\n", "a=[1]\n", "b=[1,2]\n", "a=[[1],[]]\n", "b=['',1]\n", "a={}\n", "a={b=1}\n", "b={a=[1]}\n", "a={b={a=1}}\n", "b=[{a=1}]\n", "a=[{b=[{a=1}]}]\n", "a=2015-02-30\n"];
const DEF_ITEMS: usize = 24 * 24;
fn defs(t: String, c: &mut Case) -> R {
    c.note("definitions", &t[..]);
    let (p, res) = parse(&t);
    if let ParseResult::Full | ParseResult::FullError(_) = res { } else { return Err(format!("{:?} gives {:?}", t, res)); }
    for k in &["a", "b", "a.b", "b.a", "a[0]", "b[0]", "a[0].b", "a[0].b[0].a", "$Root$"] { let _ = p.get_value(*k); let _ = p.get_children(*k); }
    ensure!(format!("{}", p) == t, "{:?} is displayed as {:?}", t, format!("{}", p)); Ok(())
}
fn c17_item(i: usize, c: &mut Case) -> R {
    if i < TOK_ITEMS { return c01_item(i, c); }
    let j = i - TOK_ITEMS; let head = format!("{}{}", DEFS[j / 24], DEFS[j % 24]);
    defs(head.clone(), c)?;
    for a in DEFS { defs(format!("{}{}", head, a), c)?; }
    Ok(())
}
fn any_text(r: &mut Rng) -> String {
    match r.below(5) { 0 => token_doc(r), 1 | 2 => some_doc(r).text, _ => { let t = some_doc(r).text; let n = r.range(1, 4); mutate(r, &t, n) } }
}
fn c01(r: &mut Rng, c: &mut Case) -> R {
    let t = any_text(r); c.note("text", &t[..]); c.trivial = t.is_empty();
    lossless(&t, c)
}

/// the result agrees with what was consumed and reported
fn outcome(text: &str, c: &mut Case) -> R {
    c.evals += 1;
    let (p, res) = parse(text);
    let shown = format!("{}", p);
    match res {
        ParseResult::Full => ensure!(shown == text, "Full, but {:?} is not the whole of {:?}", shown, text),
        ParseResult::FullError(ref e) => { ensure!(shown == text, "FullError, but {:?} is not the whole of {:?}", shown, text); ensure!(!e.borrow().is_empty(), "FullError without errors for {:?}", text) }
        ParseResult::Partial(ref l, n, _) => { ensure!(!l.is_empty(), "Partial without remainder for {:?}", text); ensure!(n >= 1, "line 0"); ensure!(shown.len() + l.len() == text.len() && text.ends_with(&l[..]), "Partial {:?} but consumed {:?} of {:?}", l, shown, text) }
        ParseResult::PartialError(ref l, n, _, ref e) => { ensure!(!l.is_empty(), "PartialError without remainder for {:?}", text); ensure!(n >= 1, "line 0"); ensure!(!e.borrow().is_empty(), "PartialError without errors for {:?}", text); ensure!(shown.len() + l.len() == text.len() && text.ends_with(&l[..]), "PartialError {:?} but consumed {:?} of {:?}", l, shown, text) }
        ParseResult::Failure(..) => return Err(format!("Failure for {:?}, whose empty beginning is a document", text)),
    }
    Ok(())
}
fn c02_item(i: usize, c: &mut Case) -> R { c.note("tokens", format!("{:?}", tok_docs(i).first())); for t in tok_docs(i) { outcome(&t, c).map_err(|e| format!("{:?}: {}", t, e))?; } Ok(()) }
const GARBAGE: &[&str] = &["!", "= 1", "x", "a b = 1", "]", "[", "[a", "[[a]", "k = ", "k = 08", "k = tru", "k = \"x", "k = 'x", "[]", "[a.]", "k : 1", "\"\" 1", "k = 1 2", "k = 2015-1-1", "k = 1.", "k = .5", "k = _1", "k = 0x1", "k = \"\\q\"", "k = \"\\uD8\"", "k = [1, 2", "k = {a = 1", "é = 1", "k = 1__0", "k = +-1", "k = 1e", "k = TRUE"];
/// what the parser leaves unread of each of the lines above (the part it can use is consumed)
fn unread(g: &str) -> &str { match g { "k = 08" => "8", "k = 1 2" => "2", "k = 2015-1-1" => "-1-1", "k = 1." => ".", "k = 0x1" => "x1", "k = 1__0" => "__0", "k = 1e" => "e", _ => g } }
fn c02(r: &mut Rng, c: &mut Case) -> R {
    match r.below(4) {
        0 | 1 => {
            let d = some_doc(r); c.note("valid", &d.text[..]); c.trivial = d.text.is_empty();
            let (_, res) = parse(&d.text);
            ensure!(res == ParseResult::Full, "a valid document gives {:?}", res);
            outcome(&d.text, c)
        }
        2 => {
            let d = some_doc(r); let mut t = d.text.clone();
            if !t.is_empty() && !t.ends_with('\n') { t.push('\n'); }
            let line = 1 + t.matches('\n').count();
            let g = *r.pick(GARBAGE); t.push_str(g);
            let rest = if r.chance(1, 2) { "" } else { "\nz = 1\n" }; t.push_str(rest);
            c.note("valid and garbage", &t[..]);
            let (_, res) = parse(&t);
            match res {
                ParseResult::Partial(ref l, n, _) => {
                    let want = format!("{}{}", unread(g), rest);
                    ensure!(l == &want, "remainder {:?}, expected {:?}", l, want);
                    if !(g.contains('=') && (g.contains('[') || g.contains('{'))) { ensure!(n == line, "stopped on line {}, expected {}", n, line); }
                }
                ParseResult::PartialError(..) if d.kids.contains_key("k") => {} // the garbage starts with a duplicate of k
                ref o => return Err(format!("expected a partial parse, got {:?}", o)),
            }
            outcome(&t, c)
        }
        _ => { let t = any_text(r); c.note("text", &t[..]); c.trivial = t.is_empty(); outcome(&t, c) }
    }
}

fn pick_key(r: &mut Rng, d: &Doc) -> Option<String> { if d.vals.is_empty() { return None; } let n = r.below(d.vals.len()); d.vals.keys().nth(n).cloned() }
/// a value to put in the place of `old`: anything, or something of the same structure
fn new_value(r: &mut Rng, old: &V) -> V {
    if r.chance(1, 2) { return value(r, 2); }
    fn like(r: &mut Rng, v: &V) -> V {
        match *v {
            Value::Array(ref a) => { let k = r.below(8); Value::Array(Rc::new(a.iter().map(|x| if scalar_v(x) { scalar_kind(r, k, true) } else { like(r, x) }).collect())) }
            Value::InlineTable(ref t) => Value::InlineTable(Rc::new(t.iter().map(|kv| (kv.0.clone(), like(r, &kv.1))).collect())),
            _ => scalar(r, true),
        }
    }
    let mut v = like(r, old);
    if r.chance(1, 4) { // the same, but one key or one length differs
        v = match v { Value::InlineTable(t) if !t.is_empty() => { let mut t = (*t).clone(); let n = r.below(t.len()); if r.chance(1, 2) { let k = "zz-new"; if !t.iter().any(|kv| kv.0 == k) { t[n].0 = k.into(); } } else if t.len() > 1 { t.swap(0, n); } else { t.clear(); } Value::InlineTable(Rc::new(t)) }
            Value::Array(a) => { let mut a = (*a).clone(); if r.chance(1, 2) { a.pop(); } else if let Some(x) = a.last().cloned() { a.push(x); } Value::Array(Rc::new(a)) }
            v => v };
    }
    v
}
fn sets(r: &mut Rng, c: &mut Case, f: &mut dyn FnMut(&Doc, &TOMLParser, bool, bool) -> R) -> R {
    let mut d = some_doc(r);
    let text = d.text.clone();
    c.note("document", &text[..]);
    let (mut p, res) = parse(&text);
    ensure!(res == ParseResult::Full, "a valid document gives {:?}", res);
    let n = r.range(1, 4); c.trivial = true;
    for i in 0..n {
        let key = match pick_key(r, &d) { Some(k) => k, None => break };
        let v = new_value(r, &d.vals[&key]);
        c.note("set", format!("{} := {}", key, val_text(&v)));
        c.trivial = false;
        let ok = p.set_value(key.as_str(), v.clone());
        ensure!(ok, "set_value({:?}, {}) is refused", key, val_text(&v));
        let same = d.set(&key, &v);
        f(&d, &p, same, i + 1 == n)?;
    }
    Ok(())
}
fn c03(r: &mut Rng, c: &mut Case) -> R {
    sets(r, c, &mut |d, p, _, last| {
        let shown = format!("{}", p);
        ensure!(shown == d.text, "document is now {:?}, expected {:?}", shown, d.text);
        if last && !d.any_mixed() { let (q, res) = parse(&d.text); ensure!(res == ParseResult::Full, "the new document {:?} parses as {:?}", d.text, res); d.agree(&q).map_err(|e| format!("after parsing the new document again: {}", e))?; }
        Ok(())
    })
}
fn c04(r: &mut Rng, c: &mut Case) -> R { sets(r, c, &mut |d, p, _, _| { d.agree(p)?; absent(d, p) }) }
/// keys near the existing ones that do not exist
fn absent(d: &Doc, p: &TOMLParser) -> R {
    for (k, v) in &d.kids {
        let k = if k == "$Root$" { "" } else { k };
        let mut cand = vec![];
        match v { Kids::Count(n) => cand.push(format!("{}[{}]", k, n)), Kids::Keys(_) => cand.push(format!("{}[0]", k)) }
        cand.push(if k.is_empty() { "nope".to_string() } else { format!("{}.nope", k) });
        cand.push(format!("{}nope", k));
        for x in cand { if !d.vals.contains_key(&x) && !d.kids.contains_key(&x) {
            ensure!(p.get_value(x.as_str()).is_none(), "get_value({:?}) gives {:?}, but there is no such key", x, p.get_value(x.as_str()));
            ensure!(p.get_children(x.as_str()).is_none(), "get_children({:?}) gives {:?}, but there is no such key", x, p.get_children(x.as_str()));
        } }
    }
    Ok(())
}
/// a value that is not valid, the flaw anywhere inside
fn invalid_value(r: &mut Rng) -> V {
    let bad: V = match r.below(12) {
        0 => Value::Integer(r.pick(&["", "a", "08", "1_", "_1", "1.0", "1 ", " 1", "--1", "0x1", "1\n", "١"]).to_string().into()),
        1 => Value::Float(r.pick(&["", "1", ".5", "1.", "1.5.2", "1e", "1_.0", "nan", "inf", "1.0 ", "1.0\n", "00.1"]).to_string().into()),
        2 => Value::String(r.pick(&["\"", "\\", "\\x", "\n", "a\"b", "\\u12", "\t", "\\uD8"]).to_string().into(), StrType::Basic),
        3 => Value::String(r.pick(&["'", "\n", "a'b", "\u{1}"]).to_string().into(), StrType::Literal),
        4 => Value::String(r.pick(&["\"\"\"", "\\", "\\x", "a\"", "a\"\"\"b", "\u{1}"]).to_string().into(), StrType::MLBasic),
        5 => Value::String(r.pick(&["'''", "a'", "a'''b", "\u{1}"]).to_string().into(), StrType::MLLiteral),
        6 => { let mut d = datetime(r); d.date.month = r.pick(&["0", "00", "13", "1", "ab", "", "+1"]).to_string().into(); Value::DateTime(d) }
        7 => { let mut d = datetime(r); d.date.day = r.pick(&["0", "00", "32", "1", "a1", "", "+1", "99"]).to_string().into(); Value::DateTime(d) }
        8 => { let mut d = datetime(r); d.time = Some(Time { hour: r.pick(&["24", "1", "", "99", "0", "+1"]).to_string().into(), minute: "00".into(), second: "00".into(), fraction: None, offset: None }); Value::DateTime(d) }
        9 => { let mut d = datetime(r); d.time = Some(Time { hour: "00".into(), minute: "00".into(), second: "00".into(), fraction: Some(r.pick(&["", "a", "1 ", "-1"]).to_string().into()), offset: None }); Value::DateTime(d) }
        10 => { let mut d = datetime(r); d.time = Some(Time { hour: "00".into(), minute: "00".into(), second: "00".into(), fraction: None, offset: Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: PosNeg::Neg, hour: r.pick(&["24", "1", "", "0"]).to_string().into(), minute: "00".into() })) }); Value::DateTime(d) }
        _ => match r.below(3) { 0 => Value::InlineTable(Rc::new(vec![("a".into(), Value::int(1)), ("a".into(), Value::int(2))])), 1 => Value::InlineTable(Rc::new(vec![("a b".into(), Value::int(1))])), _ => Value::InlineTable(Rc::new(vec![("".into(), Value::int(1))])) },
    };
    wrap(r, bad)
}
fn wrap(r: &mut Rng, bad: V) -> V {
    match r.below(4) {
        0 => { let mut a = vec![]; for _ in 0..r.below(3) { a.push(scalar(r, true)); } let n = r.below(a.len() + 1); let b = wrap(r, bad); a.insert(n, b); Value::Array(Rc::new(a)) }
        1 => { let mut a = vec![]; for i in 0..r.below(3) { a.push((format!("k{}", i).into(), scalar(r, true))); } let n = r.below(a.len() + 1); let b = wrap(r, bad); a.insert(n, ("kk".into(), b)); Value::InlineTable(Rc::new(a)) }
        _ => bad,
    }
}
/// an invalid value of the structure of `old`
fn invalid_like(r: &mut Rng, old: &V) -> V {
    match *old {
        Value::Array(ref a) if !a.is_empty() => { let mut a = (**a).clone(); let n = r.below(a.len()); a[n] = invalid_like(r, &a[n].clone()); Value::Array(Rc::new(a)) }
        Value::InlineTable(ref t) if !t.is_empty() => { let mut t = (**t).clone(); let n = r.below(t.len()); t[n].1 = invalid_like(r, &t[n].1.clone()); Value::InlineTable(Rc::new(t)) }
        _ => loop { let v = invalid_value(r); if scalar_v(&v) { return v; } },
    }
}
fn c05(r: &mut Rng, c: &mut Case) -> R {
    let mut d = some_doc(r); let text = d.text.clone(); c.note("document", &text[..]);
    let (mut p, res) = parse(&text);
    ensure!(res == ParseResult::Full, "a valid document gives {:?}", res);
    c.trivial = true;
    for _ in 0..r.range(1, 3) {
        if r.chance(1, 3) { if let Some(key) = pick_key(r, &d) { let v = new_value(r, &d.vals[&key]); c.note("set", format!("{} := {}", key, val_text(&v))); if p.set_value(key.as_str(), v.clone()) { d.set(&key, &v); } else { return Err("refused".into()); } } }
        let (key, v) = match r.below(3) {
            0 | 1 if !d.vals.is_empty() => { let k = pick_key(r, &d).unwrap(); let v = if r.chance(1, 2) { invalid_like(r, &d.vals[&k]) } else { invalid_value(r) }; (k, v) }
            2 if d.kids.keys().any(|k| k != "$Root$" && !d.vals.contains_key(k)) => { let ks: Vec<&String> = d.kids.keys().filter(|k| *k != "$Root$" && !d.vals.contains_key(*k)).collect(); ((*r.pick(&ks)).clone(), value(r, 2)) }
            _ => { let base = pick_key(r, &d).unwrap_or_default(); let k = match r.below(5) { 0 => format!("{}x-y", base), 1 => format!("{}.nope", base), 2 => format!("{}[99]", base), 3 => "".to_string(), _ => "$Root$".to_string() }; if d.vals.contains_key(&k) { continue; } (k, value(r, 2)) }
        };
        if d.vals.contains_key(&key) && valid(&v) { return Err(format!("the harness made a valid value {:?}", v)); }
        c.note("refuse", format!("{} := {:?}", key, v)); c.trivial = false;
        let before = format!("{}", p);
        let ok = p.set_value(key.as_str(), v);
        ensure!(!ok, "set_value({:?}) is accepted; the document is now {:?}", key, format!("{}", p));
        let after = format!("{}", p);
        ensure!(before == after && after == d.text, "a refused set_value({:?}) changed {:?} to {:?}", key, before, after);
        d.agree(&p).map_err(|e| format!("after a refused set_value({:?}): {}", key, e))?;
    }
    Ok(())
}

fn acc(name: &str, s: &str, got: Option<Value>, want: bool, expect: &V) -> R {
    ensure!(got.is_some() == want, "{}({:?}) is {}, expected it to be {}", name, s, if got.is_some() { "accepted" } else { "refused" }, if want { "accepted" } else { "refused" });
    if let Some(g) = got { ensure!(&g == expect, "{}({:?}) gives {:?}", name, s, g); }
    ensure!(expect.validate() == want, "validate of {:?} is {}", expect, !want);
    Ok(())
}
/// an accepted value means the same in a document; a refused one is not a value there
fn in_doc(v: &V, want: bool) -> R {
    let text = format!("k = {}\n", val_text(v));
    let (p, res) = parse(&text);
    let same = res == ParseResult::Full && same_opt(&p.get_value("k"), v);
    ensure!(same == want, "{:?} is {}, but the document {:?} gives {:?} and {:?}", v, if want { "accepted" } else { "refused" }, text, res, p.get_value("k"));
    Ok(())
}
fn check_text(s: &str, which: usize, doc: bool, c: &mut Case) -> R {
    c.evals += 1;
    let st = s.to_string();
    let (got, want, v): (Option<Value>, bool, V) = match which {
        0 => (Value::int_from_str(s).ok(), valid_int(s), Value::Integer(st.into())),
        1 => (Value::float_from_str(s).ok(), valid_float(s), Value::Float(st.into())),
        2 => (Value::basic_string(s).ok(), valid_basic(s), Value::String(st.into(), StrType::Basic)),
        3 => (Value::literal_string(s).ok(), valid_lit(s), Value::String(st.into(), StrType::Literal)),
        4 => (Value::ml_basic_string(s).ok(), valid_mlb(s), Value::String(st.into(), StrType::MLBasic)),
        5 => (Value::ml_literal_string(s).ok(), valid_mll(s), Value::String(st.into(), StrType::MLLiteral)),
        _ => { let v: V = Value::InlineTable(Rc::new(vec![(st.into(), Value::Boolean(true))])); let w = valid_key(s); (if w { Some(v.clone()) } else { None }, w, v) }
    };
    acc(["int_from_str", "float_from_str", "basic_string", "literal_string", "ml_basic_string", "ml_literal_string", "inline table key"][which.min(6)], s, got, want, &v)?;
    if doc && want { in_doc(&v, true)?; }
    Ok(())
}
const NUM: &[char] = &['0', '1', '9', '_', '+', '-', '.', 'e', 'E', ' ', 'a', '\u{661}'];
const STRS: &[char] = &['a', '"', '\'', '\\', '\n', 'u', '0', '\r', '\u{e9}'];
const LEX_ITEMS: usize = 12 * 12 + 9 * 9;
fn tails(alpha: &[char], n: usize) -> Vec<String> { let mut v = vec![String::new()]; let mut from = 0; for _ in 0..n { let to = v.len(); for i in from..to { for c in alpha { let s = format!("{}{}", v[i], c); v.push(s); } } from = to; } v }
fn c06_item(i: usize, c: &mut Case) -> R {
    if i < 144 {
        let head: String = [NUM[i / 12], NUM[i % 12]].iter().collect(); c.note("numbers starting with", &head[..]);
        for t in tails(NUM, 2) { let s = format!("{}{}", head, t); check_text(&s, 0, false, c)?; check_text(&s, 1, false, c)?; }
        if i < 12 { let s = NUM[i].to_string(); check_text(&s, 0, true, c)?; check_text(&s, 1, true, c)?; }
    } else {
        let j = i - 144; let head: String = [STRS[j / 9], STRS[j % 9]].iter().collect(); c.note("strings starting with", &head[..]);
        for t in tails(STRS, 2) { let s = format!("{}{}", head, t); for w in 2..7 { check_text(&s, w, false, c)?; } }
        if j < 9 { let s = STRS[j].to_string(); for w in 2..7 { check_text(&s, w, true, c)?; } if j == 0 { for w in 0..7 { check_text("", w, true, c)?; } } }
    }
    Ok(())
}
fn c06(r: &mut Rng, c: &mut Case) -> R {
    let mut which = r.below(9);
    if which == 7 { // booleans
        let s: String = match r.below(4) { 0 => r.pick(&["true", "false", "True", "FALSE", "tRuE", "", "t", "yes", "1", "true ", " false", "truee"]).to_string(), _ => { let m = if r.chance(1, 2) { "true" } else { "false" }; let s: String = m.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(); if r.chance(1, 3) { mutate(r, &s, 1) } else { s } } };
        c.note("bool_from_str", &s[..]);
        let want = if s.eq_ignore_ascii_case("true") { Some(true) } else if s.eq_ignore_ascii_case("false") { Some(false) } else { None };
        let got = Value::bool_from_str(s.as_str()).ok();
        ensure!(got == want.map(Value::Boolean), "bool_from_str({:?}) gives {:?}", s, got);
        return Ok(());
    }
    if which == 8 { // containers
        let v = if r.chance(1, 2) { value(r, 3) } else { invalid_value(r) };
        c.note("value", format!("{:?}", v));
        let want = valid(&v);
        ensure!(v.validate() == want, "validate of {:?} is {}", v, !want);
        if want && !mixed(&v) { in_doc(&v, true)?; }
        return Ok(());
    }
    let base = match which { 0 => int_text(r), 1 => float_text(r), 2 => str_content(r, StrType::Basic, true), 3 => str_content(r, StrType::Literal, true), 4 => str_content(r, StrType::MLBasic, true), 5 => str_content(r, StrType::MLLiteral, true), _ => any_key(r) };
    if which > 6 { which = 6; }
    let s = if r.chance(1, 3) { base } else { let n = r.range(1, 3); mutate(r, &base, n) };
    c.note(["int", "float", "basic", "literal", "ml-basic", "ml-literal", "key"][which], &s[..]); c.trivial = s.is_empty();
    check_text(&s, which, true, c)
}

// ---- dates and times ---------------------------------------------------------------------------------------------
fn date_case(y: &str, m: &str, d: &str, full: bool, c: &mut Case) -> R {
    c.evals += 1;
    let dt: Date<'static> = Date { year: y.to_string().into(), month: m.to_string().into(), day: d.to_string().into() };
    let want = valid_date(&dt);
    let say = |what: &str, got: bool| -> R { ensure!(got == want, "{} of {:?}-{:?}-{:?} is {}, expected {}", what, y, m, d, got, want); Ok(()) };
    say("Date::validate", dt.validate())?;
    let f = Date::from_str(y, m, d); say("Date::from_str", f.is_ok())?;
    if let Ok(f) = f { ensure!(f == dt, "Date::from_str gives {:?}", f); }
    if !full { return Ok(()); }
    let v: V = Value::DateTime(DateTime { date: dt, time: None });
    say("validate", v.validate())?;
    say("date_from_str", Value::date_from_str(y, m, d).ok().as_ref() == Some(&v))?;
    let t = format!("{}-{}-{}", y, m, d);
    say("datetime_parse", Value::datetime_parse(&t[..]).ok().as_ref() == Some(&v))?;
    if y.len() == 4 && m.len() == 2 && d.len() == 2 && t.bytes().all(|b| b.is_ascii_digit() || b == b'-') && !y.contains('-') && !m.contains('-') && !d.contains('-') { doc_dt(&t, &v, want)?; }
    Ok(())
}
/// a lexically well-formed date-time in a document is reported exactly if it does not exist
fn doc_dt(t: &str, v: &V, want: bool) -> R {
    let text = format!("a = 1\nk = {}\n", t);
    let (p, res) = parse(&text);
    if want { ensure!(res == ParseResult::Full && same_opt(&p.get_value("k"), v), "the document {:?} gives {:?} and {:?}", text, res, p.get_value("k")); }
    else { match res { ParseResult::FullError(ref e) if e.borrow().len() == 1 => { let e = e.borrow()[0].clone(); ensure!(e == ParseError::InvalidDateTime("k".to_string(), 2, 0, t.to_string().into()), "the document {:?} reports {:?}", text, e) } ref o => return Err(format!("the document {:?} gives {:?}", text, o)) } }
    Ok(())
}
fn time_case(h: &str, m: &str, s: &str, f: Option<&str>, o: Option<TimeOffset<'static>>, full: bool, c: &mut Case) -> R {
    c.evals += 1;
    let tm: Time<'static> = Time { hour: h.to_string().into(), minute: m.to_string().into(), second: s.to_string().into(), fraction: f.map(|x| x.to_string().into()), offset: o.clone() };
    let want = valid_time(&tm);
    let say = |what: &str, got: bool| -> R { ensure!(got == want, "{} of {:?} is {}, expected {}", what, tm, got, want); Ok(()) };
    say("Time::validate", tm.validate())?;
    let g = Time::from_str(h, m, s, f, o.clone()); say("Time::from_str", g.is_ok())?;
    if let Ok(g) = g { ensure!(g == tm, "Time::from_str gives {:?}", g); }
    if !full { return Ok(()); }
    let v: V = Value::DateTime(DateTime { date: Date { year: "2016".into(), month: "02".into(), day: "29".into() }, time: Some(tm.clone()) });
    say("validate", v.validate())?;
    let t = val_text(&v);
    say("datetime_parse", Value::datetime_parse(&t[..]).ok().as_ref() == Some(&v))?;
    let two = |x: &str| x.len() == 2 && x.bytes().all(|b| b.is_ascii_digit());
    let lexical = two(h) && two(m) && two(s) && f.map_or(true, |x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())) && match o { Some(TimeOffset::Time(ref a)) => two(&a.hour) && two(&a.minute), _ => true };
    if lexical { doc_dt(&t, &v, want)?; }
    Ok(())
}
fn c07_item(i: usize, c: &mut Case) -> R {
    if i < 10002 {
        let y = if i < 10000 { format!("{:04}", i) } else { format!("{}", i) };
        c.note("year", &y[..]);
        for (m, d) in [("02", "28"), ("02", "29"), ("02", "30"), ("04", "30"), ("04", "31"), ("12", "31"), ("12", "32"), ("01", "01")] { date_case(&y, m, d, false, c)?; }
        return Ok(());
    }
    let j = i - 10002;
    if j < 56 { // 8 years, 14 months in 7 pairs
        let y = ["0001", "0004", "1900", "2000", "2015", "2016", "2100", "9999"][j / 7];
        c.note("calendar of", format!("{} months {}..", y, (j % 7) * 2));
        for m in [(j % 7) * 2, (j % 7) * 2 + 1] { for d in 0..33 {
            date_case(y, &format!("{:02}", m), &format!("{:02}", d), d < 2 || d > 27, c)?;
            let want = valid_date(&Date { year: y.into(), month: format!("{:02}", m).into(), day: format!("{:02}", d).into() });
            ensure!(Value::date_from_int(y.parse().unwrap(), m, d).is_ok() == want, "date_from_int({}, {}, {}) is {}", y, m, d, !want);
        } }
    } else {
        c.note("clock", format!("part {}", j - 56));
        for n in 0..100 {
            let s = format!("{:02}", n); let full = n < 1 || (n > 21 && n < 26) || n > 57 && n < 62;
            match j - 56 {
                0 => time_case(&s, "59", "59", None, None, full, c)?, 1 => time_case("23", &s, "00", None, Some(TimeOffset::Zulu), full, c)?, 2 => time_case("00", "00", &s, Some("5"), None, full, c)?,
                3 => time_case("12", "30", "30", None, Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: PosNeg::Pos, hour: s.clone().into(), minute: "59".into() })), full, c)?,
                4 => time_case("12", "30", "30", Some("000"), Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: PosNeg::Neg, hour: "23".into(), minute: s.clone().into() })), full, c)?,
                5 => { let o: TimeOffsetAmount<'static> = TimeOffsetAmount { pos_neg: PosNeg::Neg, hour: s.clone().into(), minute: "00".into() }; ensure!(o.validate() == (n < 24) && TimeOffset::Time(o).validate() == (n < 24), "offset hour {}", n); ensure!(TimeOffsetAmount::from_str("+", &s[..], "00").is_ok() == (n < 24), "offset hour {}", n) }
                6 => ensure!(TimeOffsetAmount::from_str("-", "00", &s[..]).is_ok() == (n < 60), "offset minute {}", n),
                _ => ensure!(Value::datetime_from_int(2016, 2, 29, n, n, n).is_ok() == (n < 24) && Value::datetime_from_int(2016, 2, 29, 23, n, n).is_ok() == (n < 60), "datetime_from_int {}", n),
            }
        }
    }
    Ok(())
}
fn part(r: &mut Rng, w: usize) -> String {
    match r.below(6) { 0 => format!("{:0w$}", r.below(100), w = w), 1 => { let s = format!("{:0w$}", r.below(60), w = w); mutate(r, &s, 1) }, 2 => r.pick(&["", "+1", "-1", " 1", "1 ", "0", "00", "0x", "1e", "\u{661}\u{662}", "١", "001", "12", "08", "1_"]).to_string(), _ => format!("{:0w$}", 1 + r.below(if w == 4 { 9999 } else { 28 }), w = w) }
}
fn c07(r: &mut Rng, c: &mut Case) -> R {
    if r.chance(1, 3) {
        let (y, m, d) = (part(r, 4), part(r, 2), part(r, 2)); c.note("date", format!("{:?} {:?} {:?}", y, m, d));
        date_case(&y, &m, &d, true, c)
    } else if r.chance(1, 2) {
        let (h, m, s) = (part(r, 2), part(r, 2), part(r, 2));
        let f = if r.chance(1, 2) { None } else { Some(match r.below(4) { 0 => part(r, 2), 1 => String::new(), _ => { let n = r.range(1, 25); (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() } }) };
        let o = match r.below(3) { 0 => None, 1 => Some(TimeOffset::Zulu), _ => Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: if r.chance(1, 2) { PosNeg::Pos } else { PosNeg::Neg }, hour: part(r, 2).into(), minute: part(r, 2).into() })) };
        c.note("time", format!("{:?} {:?} {:?} {:?} {:?}", h, m, s, f, o));
        time_case(&h, &m, &s, f.as_ref().map(|x| &x[..]), o, true, c)
    } else { // text of a date-time
        let d = datetime(r); let t = dt_text(&d); let s = if r.chance(1, 3) { t } else { let n = r.range(1, 2); mutate(r, &t, n) };
        c.note("datetime_parse", &s[..]);
        let want = ref_datetime(&s);
        let got = Value::datetime_parse(&s[..]).ok();
        ensure!(got == want.clone().map(Value::DateTime), "datetime_parse({:?}) gives {:?}, expected {:?}", s, got, want);
        Ok(())
    }
}
/// reference reader of date-times
pub fn ref_datetime(s: &str) -> Option<DateTime<'static>> {
    let b = s.as_bytes();
    let num = |a: usize, n: usize| -> Option<String> { if a + n <= b.len() && b[a..a + n].iter().all(|x| x.is_ascii_digit()) { Some(s[a..a + n].to_string()) } else { None } };
    let at = |i: usize, ch: u8| if b.get(i) == Some(&ch) { Some(()) } else { None };
    let y = num(0, 4)?; at(4, b'-')?; let m = num(5, 2)?; at(7, b'-')?; let d = num(8, 2)?;
    let date = Date { year: y.into(), month: m.into(), day: d.into() };
    if !valid_date(&date) { return None; }
    if b.len() == 10 { return Some(DateTime { date, time: None }); }
    at(10, b'T')?; let h = num(11, 2)?; at(13, b':')?; let mi = num(14, 2)?; at(16, b':')?; let se = num(17, 2)?;
    let mut i = 19; let mut fraction = None;
    if b.get(i) == Some(&b'.') { let mut j = i + 1; while j < b.len() && b[j].is_ascii_digit() { j += 1; } if j == i + 1 { return None; } fraction = Some(s[i + 1..j].to_string().into()); i = j; }
    let mut offset = None;
    if i < b.len() {
        if &s[i..] == "Z" { offset = Some(TimeOffset::Zulu); }
        else { let pn = match b[i] { b'+' => PosNeg::Pos, b'-' => PosNeg::Neg, _ => return None }; let oh = num(i + 1, 2)?; at(i + 3, b':')?; let om = num(i + 4, 2)?; if b.len() != i + 6 { return None; } offset = Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: pn, hour: oh.into(), minute: om.into() })); }
    }
    let time = Time { hour: h.into(), minute: mi.into(), second: se.into(), fraction, offset };
    if valid_time(&time) { Some(DateTime { date, time: Some(time) }) } else { None }
}

// ---- constructors ------------------------------------------------------------------------------------------------
fn c08(r: &mut Rng, c: &mut Case) -> R {
    match r.below(5) {
        0 => {
            let i: i64 = match r.below(4) { 0 => r.next() as i64, 1 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 10, -10, 100]), 2 => r.below(2000) as i64 - 1000, _ => (r.next() >> r.below(64)) as i64 };
            c.note("int", format!("{}", i));
            let v = Value::int(i);
            ensure!(v == Value::Integer(i.to_string().into()), "int({}) gives {:?}", i, v);
            ensure!(v.validate(), "int({}) is not valid", i);
            in_doc(&Value::Integer(i.to_string().into()), true)
        }
        1 => {
            let f: f64 = match r.below(5) { 0 => f64::from_bits(r.next()), 1 => *r.pick(&[0.0, -0.0, 1.0, 1e21, 1e300, f64::MAX, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.1, -2.5]), 2 => (r.below(200000) as f64 - 100000.0) / 128.0, 3 => r.below(1000) as f64, _ => (r.next() as f64) / (r.next() as f64 + 1.0) };
            c.note("float", format!("{:?}", f));
            if !f.is_finite() || f == f.trunc() { c.known = Some("Value::float of a whole number, a NaN or an infinity gives a value that is not a valid float".into()); }
            let v = Value::float(f);
            ensure!(v.validate(), "float({:?}) gives {:?}, which is not valid", f, v);
            match v { Value::Float(ref s) => { ensure!(s.parse::<f64>().ok() == Some(f), "float({:?}) gives {:?}", f, s); in_doc(&Value::Float(s.to_string().into()), true) } ref o => Err(format!("float({:?}) gives {:?}", f, o)) }
        }
        2 => { let b = r.chance(1, 2); c.note("bool", format!("{}", b)); ensure!(Value::bool(b) == Value::Boolean(b), "bool({})", b); in_doc(&Value::Boolean(b), true) }
        3 => { // from numbers
            let n = |r: &mut Rng, lo: usize, hi: usize| if r.chance(1, 8) { *r.pick(&[0usize, 1, 24, 60, 99, 100, 9999, 10000, 12345, usize::MAX]) } else { r.range(lo, hi) };
            let (y, mo, d, h, mi, s) = (if r.chance(1, 8) { n(r, 0, 20000) } else { n(r, 1, 9999) }, n(r, 1, 12), n(r, 1, 31), n(r, 0, 23), n(r, 0, 59), n(r, 0, 59));
            let fr = r.next() >> r.below(64); let (oh, om) = (n(r, 0, 23), n(r, 0, 59)); let pn = *r.pick(&['+', '-', '+', '-', 'Z', ' ']);
            let kind = r.below(7); c.note("from int", format!("{} {}-{}-{} {}:{}:{} .{} {}{}:{}", kind, y, mo, d, h, mi, s, fr, pn, oh, om));
            let date = Date { year: format!("{:04}", y).into(), month: format!("{:02}", mo).into(), day: format!("{:02}", d).into() };
            let off = TimeOffset::Time(TimeOffsetAmount { pos_neg: if pn == '-' { PosNeg::Neg } else { PosNeg::Pos }, hour: format!("{:02}", oh).into(), minute: format!("{:02}", om).into() });
            let time = |f: Option<String>, o: Option<TimeOffset<'static>>| Some(Time { hour: format!("{:02}", h).into(), minute: format!("{:02}", mi).into(), second: format!("{:02}", s).into(), fraction: f.map(|f| f.into()), offset: o });
            let frs = format!("{}", fr);
            let (got, t) = match kind {
                0 => (Value::date_from_int(y, mo, d), None),
                1 => (Value::datetime_from_int(y, mo, d, h, mi, s), time(None, None)),
                2 => (Value::datetime_frac_from_int(y, mo, d, h, mi, s, fr as usize), time(Some(frs), None)),
                3 => (Value::datetime_offset_from_int(y, mo, d, h, mi, s, pn, oh, om), time(None, Some(off))),
                4 => (Value::datetime_zulu_from_int(y, mo, d, h, mi, s), time(None, Some(TimeOffset::Zulu))),
                5 => (Value::datetime_full_zulu_from_int(y, mo, d, h, mi, s, fr), time(Some(frs), Some(TimeOffset::Zulu))),
                _ => (Value::datetime_full_from_int(y, mo, d, h, mi, s, fr, pn, oh, om), time(Some(frs), Some(off))),
            };
            let ok = valid_date(&date) && t.as_ref().map_or(true, valid_time) && ((pn == '+' || pn == '-') || (kind != 3 && kind != 6));
            let want = if ok { Some(Value::DateTime(DateTime { date, time: t })) } else { None };
            let got = got.ok();
            ensure!(got == want, "gives {:?}, expected {:?}", got, want);
            if let Some(ref v) = want { in_doc(v, true)?; }
            Ok(())
        }
        _ => { // from texts
            let p2 = |r: &mut Rng, hi: usize| if r.chance(1, 12) { part(r, 2) } else { format!("{:02}", r.below(hi)) };
            let y = if r.chance(1, 12) { part(r, 4) } else { format!("{:04}", 1 + r.below(9999)) };
            let (mo, d, h, mi, s) = (format!("{:02}", 1 + r.below(12)), format!("{:02}", 1 + r.below(29)), p2(r, 24), p2(r, 60), p2(r, 60));
            let fr = { let n = r.range(1, 12); let s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect(); if r.chance(1, 10) { mutate(r, &s, 1) } else { s } };
            let (oh, om) = (p2(r, 24), p2(r, 60)); let pn = *r.pick(&["+", "-", "+", "-", "+", "-", "", "Z", "++"]);
            let kind = r.below(7); c.note("from str", format!("{} {:?}", kind, (&y, &mo, &d, &h, &mi, &s, &fr, pn, &oh, &om)));
            let date = Date { year: y.clone().into(), month: mo.clone().into(), day: d.clone().into() };
            let off = TimeOffset::Time(TimeOffsetAmount { pos_neg: if pn == "-" { PosNeg::Neg } else { PosNeg::Pos }, hour: oh.clone().into(), minute: om.clone().into() });
            let time = |f: Option<String>, o: Option<TimeOffset<'static>>| Some(Time { hour: h.clone().into(), minute: mi.clone().into(), second: s.clone().into(), fraction: f.map(|f| f.into()), offset: o });
            let fs = fr.clone();
            let (got, t) = match kind {
                0 => (Value::date_from_str(&y[..], &mo[..], &d[..]), None),
                1 => (Value::datetime_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..]), time(None, None)),
                2 => (Value::datetime_frac_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..], &fr[..]), time(Some(fs), None)),
                3 => (Value::datetime_offset_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..], pn, &oh[..], &om[..]), time(None, Some(off))),
                4 => (Value::datetime_zulu_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..]), time(None, Some(TimeOffset::Zulu))),
                5 => (Value::datetime_full_zulu_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..], &fr[..]), time(Some(fs), Some(TimeOffset::Zulu))),
                _ => (Value::datetime_full_from_str(&y[..], &mo[..], &d[..], &h[..], &mi[..], &s[..], &fr[..], pn, &oh[..], &om[..]), time(Some(fs), Some(off))),
            };
            let ok = valid_date(&date) && t.as_ref().map_or(true, valid_time) && ((pn == "+" || pn == "-") || (kind != 3 && kind != 6));
            let want = if ok { Some(Value::DateTime(DateTime { date, time: t })) } else { None };
            let got = got.ok();
            ensure!(got == want, "gives {:?}, expected {:?}", got, want);
            if let Some(ref v) = want { in_doc(v, true)?; }
            Ok(())
        }
    }
}

fn any_string(r: &mut Rng) -> String { match r.below(4) { 0 => String::new(), 1 => any_key(r), 2 => { let n = r.below(6); (0..n).map(|_| *r.pick(&['a', '.', '[', ']', '"', '0', ' ', '\u{e9}', '$'])).collect() } _ => format!("{}.{}[{}]", bare_key(r), any_key(r), r.below(12)) } }
fn c09(r: &mut Rng, c: &mut Case) -> R {
    let b = any_string(r); let k = any_string(r); let n = match r.below(3) { 0 => r.below(4), 1 => 1usize << r.below(64), _ => usize::MAX >> r.below(64) };
    c.note("combine", format!("{:?} {:?} {}", b, k, n));
    let want = if b.is_empty() { k.clone() } else { format!("{}.{}", b, k) };
    let got = Children::combine_keys(b.clone(), k.clone()); ensure!(got == want, "combine_keys({:?}, {:?}) gives {:?}", b, k, got);
    let got = Children::combine_keys_index(b.clone(), n); ensure!(got == format!("{}[{}]", b, n), "combine_keys_index({:?}, {}) gives {:?}", b, n, got);
    let m = r.below(13);
    let got = Children::Count(std::cell::Cell::new(m)).combine_child_keys(b.clone());
    ensure!(got == (0..m).map(|i| format!("{}[{}]", b, i)).collect::<Vec<_>>(), "combine_child_keys of {} children of {:?} gives {:?}", m, b, got);
    let ks: Vec<String> = (0..r.below(5)).map(|_| any_string(r)).collect();
    let got = Children::Keys(std::cell::RefCell::new(ks.clone())).combine_child_keys(b.clone());
    ensure!(got == ks.iter().map(|x| if b.is_empty() { x.clone() } else { format!("{}.{}", b, x) }).collect::<Vec<_>>(), "combine_child_keys of {:?} of {:?} gives {:?}", ks, b, got);
    if r.chance(1, 3) {
        let d = some_doc(r); c.note("document", &d.text[..]);
        let (p, _) = parse(&d.text);
        // walking down from the root by combined keys reaches every key of the document
        let mut todo = vec![String::new()]; let mut found: BTreeMap<String, ()> = BTreeMap::new();
        while let Some(k) = todo.pop() {
            let ch = match p.get_children(k.as_str()) { Some(ch) => ch, None => return Err(format!("the combined key {:?} has no children entry", k)) };
            for x in ch.combine_child_keys(k.clone()) { ensure!(found.insert(x.clone(), ()).is_none(), "{:?} is reached twice", x); todo.push(x); }
        }
        for k in d.vals.keys().chain(d.kids.keys()) { if k != "$Root$" { ensure!(found.contains_key(k), "{:?} is not reached from the root", k); } }
        for k in found.keys() { ensure!(d.vals.contains_key(k) || d.kids.contains_key(k), "{:?} is reached, but it is not in the document", k); }
    }
    Ok(())
}
fn c15(r: &mut Rng, c: &mut Case) -> R {
    let d = if r.chance(1, 2) { gen_doc(r, Cfg::full()) } else { some_doc(r) };
    c.note("document", &d.text[..]); c.trivial = d.vals.is_empty();
    let (p, res) = parse(&d.text);
    ensure!(res == ParseResult::Full, "a valid document gives {:?}", res);
    d.agree(&p)?; absent(&d, &p)
}
/// `s` with one character replaced, added or removed
fn tweak_text<'a>(r: &mut Rng, s: &str) -> std::borrow::Cow<'a, str> {
    let mut c: Vec<char> = s.chars().collect();
    if c.is_empty() || r.chance(1, 4) { c.push('1'); } else { let i = r.below(c.len()); if r.chance(1, 3) { c.remove(i); } else { c[i] = if c[i] == '0' { '1' } else { '0' }; } }
    c.into_iter().collect::<String>().into()
}
fn tweak_dt<'a>(r: &mut Rng, d: &DateTime<'a>) -> DateTime<'a> {
    let mut d = d.clone();
    match (r.below(4), d.time.take()) {
        (0, t) | (_, t @ None) => { d.time = t; match r.below(4) { 0 => d.date.year = tweak_text(r, &d.date.year), 1 => d.date.month = tweak_text(r, &d.date.month), 2 => d.date.day = tweak_text(r, &d.date.day), _ => d.time = if d.time.is_some() { None } else { Some(Time { hour: "00".into(), minute: "00".into(), second: "00".into(), fraction: None, offset: None }) } } }
        (_, Some(mut t)) => {
            match r.below(8) {
                0 => t.hour = tweak_text(r, &t.hour), 1 => t.minute = tweak_text(r, &t.minute), 2 => t.second = tweak_text(r, &t.second),
                3 | 4 => t.fraction = match t.fraction { None => Some("0".into()), Some(f) => if r.chance(1, 3) { None } else { Some(tweak_text(r, &f)) } },
                _ => t.offset = match t.offset {
                    None => Some(TimeOffset::Zulu),
                    Some(TimeOffset::Zulu) => if r.chance(1, 2) { None } else { Some(TimeOffset::Time(TimeOffsetAmount { pos_neg: PosNeg::Pos, hour: "00".into(), minute: "00".into() })) },
                    Some(TimeOffset::Time(mut o)) => match r.below(4) {
                        0 => Some(TimeOffset::Zulu),
                        1 => { o.pos_neg = if o.pos_neg == PosNeg::Pos { PosNeg::Neg } else { PosNeg::Pos }; Some(TimeOffset::Time(o)) }
                        2 => { o.hour = tweak_text(r, &o.hour); Some(TimeOffset::Time(o)) }
                        _ => { o.minute = tweak_text(r, &o.minute); Some(TimeOffset::Time(o)) }
                    },
                },
            }
            d.time = Some(t);
        }
    }
    d
}
/// a value that differs from `v` in exactly one part
fn tweak(r: &mut Rng, v: &V) -> V {
    match v {
        Value::Integer(s) => if r.chance(1, 3) { Value::Float(s.to_string().into()) } else { Value::Integer(tweak_text(r, s)) },
        Value::Float(s) => if r.chance(1, 3) { Value::Integer(s.to_string().into()) } else { Value::Float(tweak_text(r, s)) },
        Value::Boolean(b) => if r.chance(1, 3) { Value::Integer(b.to_string().into()) } else { Value::Boolean(!b) },
        Value::DateTime(d) => Value::DateTime(tweak_dt(r, d)),
        Value::String(s, t) => if r.chance(1, 2) { Value::String(tweak_text(r, s), *t) } else { let k = *r.pick(&[StrType::Basic, StrType::MLBasic, StrType::Literal, StrType::MLLiteral]); Value::String(s.to_string().into(), k) },
        Value::Array(a) => {
            let mut a: Vec<V> = a.to_vec();
            if a.is_empty() { return if r.chance(1, 2) { Value::InlineTable(Rc::new(vec![])) } else { Value::Array(Rc::new(vec![Value::Boolean(true)])) }; }
            let i = r.below(a.len());
            match r.below(4) { 0 => { a.remove(i); } 1 => { let x = a[i].clone(); a.push(x); } _ => { a[i] = tweak(r, &a[i]); } }
            Value::Array(Rc::new(a))
        }
        Value::InlineTable(t) => {
            let mut t: Vec<(std::borrow::Cow<str>, V)> = t.to_vec();
            if t.is_empty() { return Value::InlineTable(Rc::new(vec![("a".into(), Value::Boolean(true))])); }
            let i = r.below(t.len());
            match r.below(4) { 0 => { t.remove(i); } 1 => { t[i].0 = tweak_text(r, &t[i].0.to_string()); } _ => { t[i].1 = tweak(r, &t[i].1); } }
            Value::InlineTable(Rc::new(t))
        }
    }
}
fn c16(r: &mut Rng, c: &mut Case) -> R {
    let v = value(r, 3); let want = val_text(&v);
    c.note("value", &want[..]);
    let got = format!("{}", v);
    ensure!(got == want, "is displayed as {:?}", got);
    if let Value::DateTime(ref d) = v { ensure!(format!("{}", d) == want, "DateTime is displayed as {:?}", format!("{}", d)); if let Some(ref t) = d.time { ensure!(format!("{}{}", d.date, t) == want, "Date and Time are displayed as {:?}", format!("{}{}", d.date, t)); } }
    if !mixed(&v) { in_doc(&v, true)?; }
    // equality means equality of the texts and kinds
    let w = match r.below(3) { 0 => value(r, 1), 1 => v.clone(), _ => tweak(r, &v) };
    c.note("other", format!("{:?}", w));
    ensure!((v == w) == (format!("{:?}", v) == format!("{:?}", w)), "{:?} == {:?} is {}", v, w, v == w);
    Ok(())
}
fn c17(r: &mut Rng, c: &mut Case) -> R {
    match r.below(5) {
        4 => { let n = r.range(4, 7); let t: String = (0..n).map(|_| *r.pick(DEFS)).collect(); defs(t, c) }
        0 => { // deep nesting, closed or not
            let n = r.range(1, 40); let mut t = String::from("k = "); let mut close = String::new();
            for _ in 0..n { let (o, x) = *r.pick(&[("[", "]"), ("{a=", "}"), ("[ ", " ]"), ("[\n", "\n]"), ("{ \"b\" = ", " }")]); t.push_str(o); close.insert_str(0, x); }
            t.push_str(*r.pick(&["", "1", "'x'", ",", "1,"])); if r.chance(2, 3) { t.push_str(&close); }
            c.note("text", &t[..]); let (p, _) = parse(&t); let _ = format!("{}", p); let _ = p.get_value("k"); Ok(())
        }
        _ => {
            let t = any_text(r); c.note("text", &t[..]); c.trivial = t.is_empty();
            let (mut p, res) = parse(&t); let _ = format!("{:?}", res);
            let keys: Vec<String> = { let mut v = vec![]; let mut todo = vec![String::new()]; while let Some(k) = todo.pop() { if v.len() > 60 { break; } if let Some(ch) = p.get_children(k.as_str()) { for x in ch.combine_child_keys(k.clone()) { todo.push(x); } } v.push(k); } v };
            for _ in 0..r.range(1, 4) {
                let k = if r.chance(1, 2) { r.pick(&keys).clone() } else { let b = r.pick(&keys).clone(); match r.below(3) { 0 => any_string(r), 1 => format!("{}{}", b, any_string(r)), _ => mutate(r, &b, 1) } };
                let v = match r.below(3) { 0 => invalid_value(r), _ => value(r, 3) };
                c.note("set", format!("{:?} := {:?}", k, v));
                let _ = p.get_value(k.as_str()); let _ = p.get_children(k.as_str());
                let _ = v.validate(); let _ = format!("{}", v);
                p.set_value(k.as_str(), v);
                let _ = format!("{}", p); let _ = p.get_value(k.as_str());
            }
            let s = any_text(r); let s: String = s.chars().take(30).collect(); c.note("text argument", &s[..]);
            let _ = (Value::int_from_str(&s[..]).is_ok(), Value::float_from_str(&s[..]).is_ok(), Value::bool_from_str(&s[..]).is_ok(), Value::basic_string(&s[..]).is_ok(), Value::ml_basic_string(&s[..]).is_ok(), Value::literal_string(&s[..]).is_ok(), Value::ml_literal_string(&s[..]).is_ok(), Value::datetime_parse(&s[..]).is_ok());
            Ok(())
        }
    }
}
