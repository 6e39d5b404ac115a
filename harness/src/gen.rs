//! Generator of TOML documents together with what they mean (the oracle's ground truth):
//! every full key with its value, the children of every key, and the byte range of every value token.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::rc::Rc;
use tomllib::types::*;

pub type V = Value<'static>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kids { Count(usize), Keys(Vec<String>) }

#[derive(Clone, Debug)]
pub struct Tok { pub key: String, pub start: usize, pub end: usize, pub scalar: bool }

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub text: String,
    pub vals: BTreeMap<String, V>,
    pub kids: BTreeMap<String, Kids>,
    pub toks: Vec<Tok>,
    /// headers: (full key, is array-of-tables entry)
    pub tables: Vec<(String, bool)>,
    /// (full key, line) of every key/value pair, for line-number checks
    pub lines: Vec<(String, usize)>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub max_root: usize,
    pub max_tables: usize,
    pub max_kv: usize,
    pub depth: usize,
    pub multiline: bool,
    pub structures: bool,
}
impl Cfg {
    pub fn small() -> Cfg { Cfg { max_root: 3, max_tables: 2, max_kv: 2, depth: 2, multiline: true, structures: true } }
    pub fn full() -> Cfg { Cfg { max_root: 3, max_tables: 4, max_kv: 3, depth: 3, multiline: true, structures: true } }
    pub fn flat() -> Cfg { Cfg { max_root: 3, max_tables: 3, max_kv: 3, depth: 0, multiline: false, structures: true } }
}

pub struct G<'r> { pub r: &'r mut Rng, pub d: Doc, pub cfg: Cfg }

const WORDS: &[&str] = &["a", "b", "key", "k-1", "x_y", "foo", "bar", "Z9", "name", "7", "01", "-", "_", "foobar", "fo"];
const QWORDS: &[&str] = &["\"q k\"", "\"é\"", "\"a.b\"", "\"\\\"q\\\"\"", "\"x\\ty\"", "\"#\"", "\"[0]\"", "\"ωλ\""];

pub fn ws(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", " ", " ", "\t", "  ", " \t "]) }
pub fn nl(r: &mut Rng) -> &'static str { if r.chance(1, 5) { "\r\n" } else { "\n" } }
pub fn comment(r: &mut Rng) -> String {
    format!("#{}", *r.pick(&["", " c", " key = 1", "# x [t]", " ünï ₥", " 😀", "\ttab", " \"q\" 'l' \\", " ]", "}", " ,,"]))
}
pub fn bare_key(r: &mut Rng) -> String { r.pick(WORDS).to_string() }
pub fn any_key(r: &mut Rng) -> String { if r.chance(1, 4) { r.pick(QWORDS).to_string() } else { bare_key(r) } }

fn digits(r: &mut Rng, n: usize) -> String { (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect() }

/// text of the digits part of an integer: [1-9](\d|_\d)+ or a single digit
fn int_body(r: &mut Rng) -> String {
    if r.chance(1, 3) { return digits(r, 1); }
    let mut s = ((b'1' + r.below(9) as u8) as char).to_string();
    for _ in 0..r.range(1, 6) { if r.chance(1, 4) { s.push('_'); } s.push_str(&digits(r, 1)); }
    s
}
fn sign(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", "+", "-"]) }
pub fn int_text(r: &mut Rng) -> String { format!("{}{}", sign(r), int_body(r)) }
pub fn float_text(r: &mut Rng) -> String {
    let frac = |r: &mut Rng| { let mut s = format!(".{}", digits(r, 1)); for _ in 0..r.below(4) { if r.chance(1, 5) { s.push('_'); } s.push_str(&digits(r, 1)); } s };
    let exp = |r: &mut Rng| format!("{}{}{}", r.pick(&["e", "E"]), sign(r), int_body(r));
    let head = format!("{}{}", sign(r), int_body(r));
    match r.below(3) { 0 => { let f = frac(r); let e = exp(r); format!("{}{}{}", head, f, e) }, 1 => { let f = frac(r); format!("{}{}", head, f) }, _ => { let e = exp(r); format!("{}{}", head, e) } }
}
pub fn is_leap(y: usize) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn month_len(y: usize, m: usize) -> usize { match m { 2 => if is_leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
pub fn datetime(r: &mut Rng) -> DateTime<'static> {
    let y = *r.pick(&[1usize, 4, 100, 400, 1600, 1900, 1999, 2000, 2004, 2016, 2100, 9999]);
    let m = r.range(1, 12);
    let d = if r.chance(1, 3) { month_len(y, m) } else { r.range(1, month_len(y, m)) };
    let date = Date { year: format!("{:04}", y).into(), month: format!("{:02}", m).into(), day: format!("{:02}", d).into() };
    let time = if r.chance(1, 3) { None } else {
        let fraction = if r.chance(1, 2) { let n = r.range(1, 9); Some(digits(r, n).into()) } else { None };
        let offset = match r.below(3) { 0 => None, 1 => Some(TimeOffset::Zulu), _ => Some(TimeOffset::Time(TimeOffsetAmount {
            pos_neg: if r.chance(1, 2) { PosNeg::Pos } else { PosNeg::Neg }, hour: format!("{:02}", r.below(24)).into(), minute: format!("{:02}", r.below(60)).into() })) };
        Some(Time { hour: format!("{:02}", r.below(24)).into(), minute: format!("{:02}", r.below(60)).into(), second: format!("{:02}", r.below(60)).into(), fraction, offset })
    };
    DateTime { date, time }
}
/// Reference rendering of a date-time, written from the TOML grammar.
pub fn dt_text(d: &DateTime) -> String {
    let mut s = format!("{}-{}-{}", d.date.year, d.date.month, d.date.day);
    if let Some(ref t) = d.time {
        s.push('T'); s.push_str(&t.hour); s.push(':'); s.push_str(&t.minute); s.push(':'); s.push_str(&t.second);
        if let Some(ref f) = t.fraction { s.push('.'); s.push_str(f); }
        match t.offset { None => {}, Some(TimeOffset::Zulu) => s.push('Z'), Some(TimeOffset::Time(ref o)) => {
            s.push(match o.pos_neg { PosNeg::Pos => '+', PosNeg::Neg => '-' }); s.push_str(&o.hour); s.push(':'); s.push_str(&o.minute); } }
    }
    s
}
pub fn str_content(r: &mut Rng, t: StrType, multiline: bool) -> String {
    let basic: &[&str] = &["a", "Z", " ", "0", "#", "'", ".", "[x]", "{", "=", ",", "é", "ω", "\u{2014}", "\\n", "\\\\", "\\\"", "\\t", "\\/", "\\u00AB", "\\u00ef", "\\U0001F4A9", "\u{fff0}", "\u{1f600}"];
    let lit: &[&str] = &["a", "Z", " ", "0", "#", "\"", ".", "[x]", "}", "=", ",", "é", "ω", "\\", "\\n", "$", "\u{1f600}"];
    let mlb: &[&str] = &["a", " ", "#", "'", "\"", "\"\"", "''' ", "[[t]]", "é", "\\n", "\\\\", "\\\"", "\n", "\r\n", "\t", "\\t", "\\\n", "k = 1", "\\u00AB"];
    let mll: &[&str] = &["a", " ", "#", "\"", "'", "''", "\"\"\"", "[[t]]", "é", "\\", "\n", "\r\n", "k = 1"];
    let n = r.below(6);
    let mut s = String::new();
    for _ in 0..n {
        let p = match t { StrType::Basic => *r.pick(basic), StrType::Literal => *r.pick(lit), StrType::MLBasic => *r.pick(mlb), StrType::MLLiteral => *r.pick(mll) };
        if !multiline && p.contains('\n') { continue; }
        s.push_str(p);
    }
    if t == StrType::MLBasic || t == StrType::MLLiteral {
        let q = if t == StrType::MLBasic { '"' } else { '\'' };
        // no delimiter inside, no quote at the end (the reader closes at the first delimiter)
        let mut out = String::new(); let mut run = 0; let mut esc = false;
        for c in s.chars() {
            if c == q && !esc { run += 1; if run >= 3 { out.push('x'); run = 1; } } else { run = 0; }
            esc = t == StrType::MLBasic && c == '\\' && !esc;
            out.push(c);
        }
        if run > 0 { out.push('.'); }
        s = out;
    }
    s
}
pub fn str_text(s: &str, t: StrType) -> String {
    let q = match t { StrType::Basic => "\"", StrType::MLBasic => "\"\"\"", StrType::Literal => "'", StrType::MLLiteral => "'''" };
    format!("{}{}{}", q, s, q)
}
/// Reference rendering (default formatting) of a value.
pub fn val_text(v: &Value) -> String {
    match *v {
        Value::Integer(ref s) | Value::Float(ref s) => s.to_string(),
        Value::Boolean(b) => (if b { "true" } else { "false" }).to_string(),
        Value::DateTime(ref d) => dt_text(d),
        Value::String(ref s, t) => str_text(s, t),
        Value::Array(ref a) => format!("[{}]", a.iter().map(val_text).collect::<Vec<_>>().join(", ")),
        Value::InlineTable(ref t) => format!("{{{}}}", t.iter().map(|kv| format!("{} = {}", kv.0, val_text(&kv.1))).collect::<Vec<_>>().join(", ")),
    }
}
/// Rendering used inside documents after a structural replacement: as val_text but inline tables have inner spaces.
pub fn doc_text(v: &Value) -> String {
    match *v {
        Value::Array(ref a) => format!("[{}]", a.iter().map(doc_text).collect::<Vec<_>>().join(", ")),
        Value::InlineTable(ref t) => format!("{{ {} }}", t.iter().map(|kv| format!("{} = {}", kv.0, doc_text(&kv.1))).collect::<Vec<_>>().join(", ")),
        _ => val_text(v),
    }
}
pub fn scalar(r: &mut Rng, multiline: bool) -> V { let k = r.below(8); scalar_kind(r, k, multiline) }
pub fn scalar_kind(r: &mut Rng, k: usize, multiline: bool) -> V {
    match k {
        0 => Value::Integer(int_text(r).into()),
        1 => Value::Float(float_text(r).into()),
        2 => Value::Boolean(r.chance(1, 2)),
        3 => Value::DateTime(datetime(r)),
        4 => Value::String(str_content(r, StrType::Basic, false).into(), StrType::Basic),
        5 => Value::String(str_content(r, StrType::Literal, false).into(), StrType::Literal),
        6 => Value::String(str_content(r, StrType::MLBasic, multiline).into(), StrType::MLBasic),
        _ => Value::String(str_content(r, StrType::MLLiteral, multiline).into(), StrType::MLLiteral),
    }
}
/// A random value (used for set_value): containers up to `depth`.
pub fn value(r: &mut Rng, depth: usize) -> V {
    if depth == 0 || r.chance(1, 2) { return scalar(r, true); }
    if r.chance(1, 2) {
        let k = r.below(8); let n = r.below(4);
        Value::Array(Rc::new((0..n).map(|_| if r.chance(1, 3) { value(r, depth - 1) } else { scalar_kind(r, k, true) }).collect()))
    } else {
        let n = r.below(4); let mut keys: Vec<String> = vec![];
        let mut out = vec![];
        for _ in 0..n { let k = any_key(r); if keys.contains(&k) { continue; } keys.push(k.clone()); out.push((k.into(), value(r, depth - 1))); }
        Value::InlineTable(Rc::new(out))
    }
}

impl<'r> G<'r> {
    pub fn new(r: &'r mut Rng, cfg: Cfg) -> G<'r> { G { r, d: Doc::default(), cfg } }
    fn put(&mut self, s: &str) { self.d.text.push_str(s); }
    fn ws(&mut self) { let w = ws(self.r); self.put(w); }
    fn wsnl(&mut self) {
        if !self.cfg.multiline { self.ws(); return; }
        for _ in 0..self.r.below(3) {
            match self.r.below(6) { 0 => { let n = nl(self.r); self.put(n) }, 1 => { let c = comment(self.r); self.put(&c); let n = nl(self.r); self.put(n); }, _ => self.ws() }
        }
    }
    fn val(&mut self, key: &str, depth: usize) -> V {
        let start = self.d.text.len();
        let ix = self.d.toks.len();
        self.d.toks.push(Tok { key: key.to_string(), start, end: 0, scalar: true });
        let v = if depth > 0 && self.r.chance(2, 5) {
            self.d.toks[ix].scalar = false;
            if self.r.chance(1, 2) { self.array(key, depth) } else { self.inline(key, depth) }
        } else {
            let v = scalar(self.r, self.cfg.multiline); self.put(&val_text(&v)); self.d.kids.insert(key.to_string(), Kids::Count(0)); v
        };
        self.d.toks[ix].end = self.d.text.len();
        self.d.vals.insert(key.to_string(), v.clone());
        v
    }
    fn array(&mut self, key: &str, depth: usize) -> V {
        let k = self.r.below(10);
        // now and then a long one (only when its elements are scalars, so that the text stays small)
        let n = if k < 8 && self.r.chance(1, 40) { *self.r.pick(&[9usize, 17, 33, 65, 70, 129, 257, 300]) } else { *self.r.pick(&[0usize, 1, 1, 2, 3, 3, 4]) };
        let mut out = vec![];
        self.put("["); self.wsnl();
        for i in 0..n {
            let sub = format!("{}[{}]", key, i);
            let start = self.d.text.len();
            let ix = self.d.toks.len();
            self.d.toks.push(Tok { key: sub.clone(), start, end: 0, scalar: k < 8 || depth <= 1 });
            let v = if k < 8 || depth <= 1 { let v = scalar_kind(self.r, k.min(7), self.cfg.multiline); self.put(&val_text(&v)); self.d.kids.insert(sub.clone(), Kids::Count(0)); v }
                else if k == 8 { self.array(&sub, depth - 1) } else { self.inline(&sub, depth - 1) };
            self.d.toks[ix].end = self.d.text.len();
            self.d.vals.insert(sub, v.clone());
            out.push(v);
            if i + 1 < n || self.r.chance(1, 6) { self.ws(); self.put(","); self.ws(); self.wsnl(); }
        }
        self.wsnl();
        self.put("]");
        self.d.kids.insert(key.to_string(), Kids::Count(n));
        Value::Array(Rc::new(out))
    }
    fn inline(&mut self, key: &str, depth: usize) -> V {
        let n = *self.r.pick(&[0usize, 1, 2, 2, 3]);
        let mut keys: Vec<String> = vec![]; let mut out = vec![];
        self.put("{"); self.ws();
        let mut first = true;
        for _ in 0..n {
            let k = any_key(self.r); if keys.contains(&k) { continue; }
            if !first { self.ws(); self.put(","); self.ws(); }
            first = false;
            keys.push(k.clone());
            self.put(&k); self.ws(); self.put("="); self.ws();
            let v = self.val(&format!("{}.{}", key, k), depth - 1);
            out.push((k.into(), v));
        }
        self.ws(); self.put("}");
        self.d.kids.insert(key.to_string(), Kids::Keys(keys));
        Value::InlineTable(Rc::new(out))
    }
    fn eol(&mut self, last: bool) {
        self.ws(); if self.r.chance(1, 5) { let c = comment(self.r); self.put(&c); }
        if !last { let n = nl(self.r); self.put(n); }
    }
    fn filler(&mut self) { for _ in 0..self.r.below(3) { self.ws(); if self.r.chance(1, 2) { let c = comment(self.r); self.put(&c); } let n = nl(self.r); self.put(n); } }
    fn kvs(&mut self, parent: &str, n: usize, used: &mut Vec<String>) {
        for _ in 0..n {
            let k = any_key(self.r);
            if used.contains(&k) { continue; }
            used.push(k.clone());
            self.filler(); self.ws();
            let full = if parent.is_empty() { k.clone() } else { format!("{}.{}", parent, k) };
            let line = 1 + self.d.text.matches('\n').count();
            self.d.lines.push((full.clone(), line));
            self.put(&k); self.ws(); self.put("="); self.ws();
            self.add_kid(parent, &k);
            let dp = self.cfg.depth; self.val(&full, dp);
            self.eol(false);
        }
    }
    fn add_kid(&mut self, parent: &str, k: &str) {
        let p = if parent.is_empty() { "$Root$" } else { parent };
        if let Kids::Keys(ref mut v) = self.d.kids.entry(p.to_string()).or_insert(Kids::Keys(vec![])) { if !v.iter().any(|x| x == k) { v.push(k.to_string()); } }
    }
    fn header(&mut self, path: &[String], array: bool) {
        self.filler(); self.ws(); self.put(if array { "[[" } else { "[" }); self.ws();
        for (i, p) in path.iter().enumerate() { if i > 0 { self.ws(); self.put("."); self.ws(); } self.put(p); }
        self.ws(); self.put(if array { "]]" } else { "]" }); self.eol(false);
    }
    /// A table subtree rooted at header path `path` (keys as written), whose full key is `full`.
    fn std_table(&mut self, path: &[String], parent_full: &str, level: usize) {
        let k = path.last().unwrap().clone();
        let full = if parent_full.is_empty() { k.clone() } else { format!("{}.{}", parent_full, k) };
        self.add_kid(parent_full, &k);
        self.d.kids.entry(full.clone()).or_insert(Kids::Keys(vec![]));
        let mut used = vec![];
        self.d.tables.push((full.clone(), false));
        self.header(path, false);
        let n = self.r.below(self.cfg.max_kv + 1); self.kvs(&full, n, &mut used);
        if level > 0 { let std_ok = used.is_empty(); self.subtables(path, &full, level, &mut used, std_ok); }
    }
    /// tomllib's rule: a table that holds key/value pairs itself cannot get standard sub-tables (std_ok = false)
    fn subtables(&mut self, path: &[String], full: &str, level: usize, used: &mut Vec<String>, std_ok: bool) {
        for _ in 0..self.r.below(3) {
            let k = any_key(self.r); if used.contains(&k) { continue; } used.push(k.clone());
            let mut p = path.to_vec(); p.push(k);
            if std_ok && self.r.chance(2, 3) { self.std_table(&p, full, level - 1) } else { self.array_tables(&p, full, level - 1) }
        }
    }
    fn array_tables(&mut self, path: &[String], parent_full: &str, level: usize) {
        let k = path.last().unwrap().clone();
        let base = if parent_full.is_empty() { k.clone() } else { format!("{}.{}", parent_full, k) };
        self.add_kid(parent_full, &k);
        let n = if level == 0 && self.r.chance(1, 60) { *self.r.pick(&[9usize, 17, 33, 70]) } else { self.r.range(1, 3) };
        self.d.kids.insert(base.clone(), Kids::Count(n));
        for i in 0..n {
            let full = format!("{}[{}]", base, i);
            self.d.kids.insert(full.clone(), Kids::Keys(vec![]));
            self.d.tables.push((full.clone(), true));
            self.header(path, true);
            let mut used = vec![];
            let m = self.r.below(self.cfg.max_kv + 1); self.kvs(&full, m, &mut used);
            if level > 0 { self.subtables(path, &full, level, &mut used, true); }
        }
    }
    pub fn doc(mut self) -> Doc {
        self.d.kids.insert("$Root$".into(), Kids::Keys(vec![]));
        let mut used = vec![];
        let n = self.r.below(self.cfg.max_root + 1); self.kvs("", n, &mut used);
        if self.cfg.structures {
            for _ in 0..self.r.below(self.cfg.max_tables + 1) {
                let k = any_key(self.r); if used.contains(&k) { continue; } used.push(k.clone());
                match self.r.below(4) {
                    0 | 1 => { let l = self.r.below(3); self.std_table(&[k], "", l) }
                    2 => { let l = self.r.below(3); self.array_tables(&[k], "", l) }
                    _ => { // implicit super-table
                        let k2 = any_key(self.r); self.add_kid("", &k);
                        self.d.kids.entry(k.clone()).or_insert(Kids::Keys(vec![]));
                        let l = self.r.below(2);
                        if self.r.chance(2, 3) { self.std_table(&[k.clone(), k2], &k, l) } else { self.array_tables(&[k.clone(), k2], &k, l) }
                    }
                }
            }
        }
        self.filler();
        if self.r.chance(1, 3) { self.ws(); if self.r.chance(1, 2) { let c = comment(self.r); self.put(&c); } }
        else if self.r.chance(1, 2) { // drop the final newline
            if self.d.text.ends_with("\r\n") { let l = self.d.text.len() - 2; self.d.text.truncate(l); } else if self.d.text.ends_with('\n') { let l = self.d.text.len() - 1; self.d.text.truncate(l); } }
        self.d
    }
}
