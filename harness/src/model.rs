//! Reference model: what a document means and what its text is, written from the TOML 0.4 grammar and the
//! documentation of tomllib, independently of the code under test.
use crate::gen::*;
use std::collections::BTreeMap;
use std::rc::Rc;
use tomllib::types::*;
use tomllib::TOMLParser;

pub fn scalar_v(v: &V) -> bool { !matches!(v, Value::Array(_) | Value::InlineTable(_)) }
pub fn kind(v: &V) -> u8 {
    match v { Value::Integer(_) => 0, Value::Float(_) => 1, Value::Boolean(_) => 2, Value::DateTime(_) => 3, Value::Array(_) => 4, Value::String(..) => 5, Value::InlineTable(_) => 6 }
}
/// equality of values that does not use the code under test
pub fn same_value(a: &Value, b: &Value) -> bool { format!("{:?}", a) == format!("{:?}", b) }
pub fn same_opt(a: &Option<Value>, b: &Value) -> bool { a.as_ref().map_or(false, |a| same_value(a, b)) }
pub fn mixed(v: &V) -> bool {
    match v {
        Value::Array(a) => a.windows(2).any(|w| kind(&w[0]) != kind(&w[1])) || a.iter().any(mixed),
        Value::InlineTable(t) => t.iter().any(|kv| mixed(&kv.1)),
        _ => false,
    }
}
pub fn same_structure(a: &V, b: &V) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_structure(p, q)),
        (Value::InlineTable(x), Value::InlineTable(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p.0 == q.0 && same_structure(&p.1, &q.1)),
        _ => scalar_v(a) && scalar_v(b),
    }
}
/// the keys and values below (and including) `key`
pub fn expand(key: &str, v: &V, vals: &mut BTreeMap<String, V>, kids: &mut BTreeMap<String, Kids>) {
    vals.insert(key.to_string(), v.clone());
    match v {
        Value::Array(a) => {
            kids.insert(key.to_string(), Kids::Count(a.len()));
            for (i, x) in a.iter().enumerate() { expand(&format!("{}[{}]", key, i), x, vals, kids); }
        }
        Value::InlineTable(t) => {
            kids.insert(key.to_string(), Kids::Keys(t.iter().map(|kv| kv.0.to_string()).collect()));
            for kv in t.iter() { expand(&format!("{}.{}", key, kv.0), &kv.1, vals, kids); }
        }
        _ => { kids.insert(key.to_string(), Kids::Count(0)); }
    }
}
fn render_tok(key: &str, v: &V, out: &mut String, base: usize, toks: &mut Vec<Tok>) {
    let ix = toks.len();
    toks.push(Tok { key: key.to_string(), start: base + out.len(), end: 0, scalar: scalar_v(v) });
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() { if i > 0 { out.push_str(", "); } render_tok(&format!("{}[{}]", key, i), x, out, base, toks); }
            out.push(']');
        }
        Value::InlineTable(t) => {
            out.push_str("{ ");
            for (i, kv) in t.iter().enumerate() { if i > 0 { out.push_str(", "); } out.push_str(&kv.0); out.push_str(" = "); render_tok(&format!("{}.{}", key, kv.0), &kv.1, out, base, toks); }
            out.push_str(" }");
        }
        _ => out.push_str(&val_text(v)),
    }
    toks[ix].end = base + out.len();
}
fn below(key: &str, k: &str) -> bool { k.len() > key.len() && k.starts_with(key) && (k.as_bytes()[key.len()] == b'.' || k.as_bytes()[key.len()] == b'[') }

impl Doc {
    fn splice(&mut self, start: usize, end: usize, new: &str) {
        self.text.replace_range(start..end, new);
        let d = new.len() as isize - (end - start) as isize;
        for t in self.toks.iter_mut() {
            if t.start >= end { t.start = (t.start as isize + d) as usize; t.end = (t.end as isize + d) as usize; }
            else if t.end >= end { t.end = (t.end as isize + d) as usize; }
        }
    }
    /// Replace the value of `key` (which must be the key of a value) by `v`; returns whether formatting was kept.
    pub fn set(&mut self, key: &str, v: &V) -> bool {
        let old = self.vals[key].clone();
        let same = same_structure(&old, v);
        if same { self.set_scalars(key, v); } else {
            let t = self.toks.iter().find(|t| t.key == key).unwrap().clone();
            self.toks.retain(|t| !(below(key, &t.key)));
            let mut new = String::new(); let mut toks = vec![];
            render_tok(key, v, &mut new, t.start, &mut toks);
            self.splice(t.start, t.end, &new);
            self.toks.retain(|t| t.key != key);
            self.toks.append(&mut toks);
        }
        let gone: Vec<String> = self.vals.keys().filter(|k| below(key, k)).cloned().collect();
        for k in &gone { self.vals.remove(k); self.kids.remove(k); }
        expand(key, v, &mut self.vals, &mut self.kids);
        // the containers that hold it
        let mut up: Vec<String> = self.vals.keys().filter(|k| below(k, key)).cloned().collect();
        up.sort_by_key(|k| usize::MAX - k.len());
        for k in up {
            let nv = match self.kids[&k] {
                Kids::Count(n) => Value::Array(Rc::new((0..n).map(|i| self.vals[&format!("{}[{}]", k, i)].clone()).collect())),
                Kids::Keys(ref ks) => Value::InlineTable(Rc::new(ks.iter().map(|c| (c.clone().into(), self.vals[&format!("{}.{}", k, c)].clone())).collect())),
            };
            self.vals.insert(k, nv);
        }
        same
    }
    fn set_scalars(&mut self, key: &str, v: &V) {
        match v {
            Value::Array(a) => for (i, x) in a.iter().enumerate() { self.set_scalars(&format!("{}[{}]", key, i), x); },
            Value::InlineTable(t) => for kv in t.iter() { self.set_scalars(&format!("{}.{}", key, kv.0), &kv.1); },
            _ => { let t = self.toks.iter().find(|t| t.key == key).unwrap().clone(); self.splice(t.start, t.end, &val_text(v)); }
        }
    }
    pub fn any_mixed(&self) -> bool { self.vals.values().any(mixed) }
    /// Compares everything that can be read from `p` with the model.
    pub fn agree(&self, p: &TOMLParser) -> Result<(), String> {
        for (k, v) in &self.vals {
            let g = p.get_value(k.as_str());
            if !same_opt(&g, v) { return Err(format!("get_value({:?}) gives {:?}, expected {:?}", k, g, v)); }
        }
        for (k, v) in &self.kids {
            let g = children(p, k);
            if g.as_ref() != Some(v) { return Err(format!("get_children({:?}) gives {:?}, expected {:?}", k, g, v)); }
            if !self.vals.contains_key(k) { if let Some(g) = p.get_value(k.as_str()) { return Err(format!("get_value({:?}) of a table gives {:?}", k, g)); } }
        }
        Ok(())
    }
}
pub fn children(p: &TOMLParser, k: &str) -> Option<Kids> {
    let kk = if k == "$Root$" { "" } else { k };
    p.get_children(kk).map(|c| match c { &Children::Count(ref c) => Kids::Count(c.get()), &Children::Keys(ref k) => Kids::Keys(k.borrow().clone()) })
}

// ---- reference recognisers -------------------------------------------------------------------------------------
fn dig(c: Option<&u8>) -> bool { c.map_or(false, |c| c.is_ascii_digit()) }
/// [1-9](_?[0-9])+ | [0-9]; returns the length of the longest match
fn digits_len(b: &[u8]) -> usize {
    if !dig(b.get(0)) { return 0; }
    if b[0] == b'0' { return 1; }
    let mut i = 1;
    loop { if dig(b.get(i)) { i += 1 } else if b.get(i) == Some(&b'_') && dig(b.get(i + 1)) { i += 2 } else { return i } }
}
fn sign_len(b: &[u8]) -> usize { if b.get(0) == Some(&b'+') || b.get(0) == Some(&b'-') { 1 } else { 0 } }
pub fn valid_int(s: &str) -> bool { let b = s.as_bytes(); let i = sign_len(b); let n = digits_len(&b[i..]); n > 0 && i + n == b.len() }
pub fn valid_float(s: &str) -> bool {
    let b = s.as_bytes(); let mut i = sign_len(b);
    let n = digits_len(&b[i..]); if n == 0 { return false; } i += n;
    let mut some = false;
    if b.get(i) == Some(&b'.') {
        i += 1; if !dig(b.get(i)) { return false; } i += 1;
        loop { if dig(b.get(i)) { i += 1 } else if b.get(i) == Some(&b'_') && dig(b.get(i + 1)) { i += 2 } else { break } }
        some = true;
    }
    if b.get(i) == Some(&b'e') || b.get(i) == Some(&b'E') {
        i += 1; i += sign_len(&b[i..]); let n = digits_len(&b[i..]); if n == 0 { return false; } i += n; some = true;
    }
    some && i == b.len()
}
/// length of the escape sequence that starts with the backslash at i, 0 if there is none
fn escape(c: &[char], i: usize) -> usize {
    let hex = |from: usize, n: usize| (from..from + n).all(|j| c.get(j).map_or(false, |x| x.is_ascii_hexdigit()));
    match c.get(i + 1) { Some('"') | Some('\\') | Some('/') | Some('b') | Some('f') | Some('n') | Some('r') | Some('t') => 2, Some('u') if hex(i + 2, 4) => 6, Some('U') if hex(i + 2, 8) => 10, _ => 0 }
}
pub fn valid_basic(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < c.len() { if c[i] == '\\' { let n = escape(&c, i); if n == 0 { return false; } i += n } else if c[i] >= ' ' && c[i] != '"' { i += 1 } else { return false } }
    true
}
pub fn valid_key(s: &str) -> bool {
    if s.len() > 2 && s.starts_with('"') && s.ends_with('"') { return valid_basic(&s[1..s.len() - 1]); }
    s.len() > 0 && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
}
pub fn valid_mlb(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect(); let mut i = 0; let mut quotes = 0;
    while i < c.len() {
        if c[i] == '"' { quotes += 1; if quotes == 3 { return false; } i += 1; continue; }
        quotes = 0;
        if c[i] == '\\' {
            let n = escape(&c, i);
            if n > 0 { i += n } else if c.get(i + 1) == Some(&'\n') { i += 2 } else if c.get(i + 1) == Some(&'\r') && c.get(i + 2) == Some(&'\n') { i += 3 } else { return false }
        } else if c[i] == '\r' { if c.get(i + 1) != Some(&'\n') { return false; } i += 2 }
        else if c[i] == '\n' || c[i] == '\t' || c[i] >= ' ' { i += 1 } else { return false }
    }
    quotes == 0
}
pub fn valid_lit(s: &str) -> bool { s.chars().all(|c| c >= ' ' && c != '\'') }
pub fn valid_mll(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < c.len() { if c[i] == '\r' { if c.get(i + 1) != Some(&'\n') { return false; } i += 2 } else if c[i] == '\n' || c[i] >= ' ' { i += 1 } else { return false } }
    !s.contains("'''") && !s.ends_with('\'')
}
pub fn valid_str(s: &str, t: StrType) -> bool { match t { StrType::Basic => valid_basic(s), StrType::MLBasic => valid_mlb(s), StrType::Literal => valid_lit(s), StrType::MLLiteral => valid_mll(s) } }
fn two(s: &str, lo: usize, hi: usize) -> bool { s.len() == 2 && s.bytes().all(|b| b.is_ascii_digit()) && { let n: usize = s.parse().unwrap(); n >= lo && n <= hi } }
pub fn valid_date(d: &Date) -> bool {
    if d.year.len() != 4 || !d.year.bytes().all(|b| b.is_ascii_digit()) || d.year == "0000" || !two(&d.month, 1, 12) { return false; }
    two(&d.day, 1, month_len(d.year.parse().unwrap(), d.month.parse().unwrap()))
}
pub fn valid_offset(o: &TimeOffset) -> bool { match o { TimeOffset::Zulu => true, TimeOffset::Time(a) => two(&a.hour, 0, 23) && two(&a.minute, 0, 59) } }
pub fn valid_time(t: &Time) -> bool {
    two(&t.hour, 0, 23) && two(&t.minute, 0, 59) && two(&t.second, 0, 59)
        && t.fraction.as_ref().map_or(true, |f| f.len() > 0 && f.bytes().all(|b| b.is_ascii_digit()))
        && t.offset.as_ref().map_or(true, valid_offset)
}
pub fn valid(v: &Value) -> bool {
    match *v {
        Value::Integer(ref s) => valid_int(s), Value::Float(ref s) => valid_float(s), Value::Boolean(_) => true,
        Value::DateTime(ref d) => valid_date(&d.date) && d.time.as_ref().map_or(true, valid_time),
        Value::String(ref s, t) => valid_str(s, t),
        Value::Array(ref a) => a.iter().all(valid),
        Value::InlineTable(ref t) => t.iter().enumerate().all(|(i, kv)| valid_key(&kv.0) && valid(&kv.1) && !t[..i].iter().any(|o| o.0 == kv.0)),
    }
}
