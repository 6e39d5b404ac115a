//! C12 (tomlkit's queries) and C13 (tomlkit's changes): the real program, run in a scratch directory.
use crate::drv::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::Rng;
use std::process::Command;
use tomllib::types::*;
use tomllib::TOMLParser;

pub const ALL: &[Prop] = &[
    Prop { id: "C12", rule: "a generated document and a query for 1..4 keys, existing or not, with random options; non-trivial: all", items: 0, bound: "documents of at most 20 keys, keys without commas and backslashes", item: no_item, random: c12 },
    Prop { id: "C13", rule: "a generated document and 1..4 changes, valid or not, with random options; non-trivial: all", items: 0, bound: "documents of at most 20 keys, keys and values without commas, line breaks and backslashes", item: no_item, random: c13 },
];
fn kit() -> String { std::env::var("VERIF_TOMLKIT").expect("VERIF_TOMLKIT") }
struct Out { out: String, ok: bool }
fn run(c: &Case, args: &[String]) -> Result<Out, String> {
    let mut cmd = Command::new(kit());
    cmd.current_dir(&c.scratch).env_clear();
    // the name of the document may also come through the standard input
    let by_stdin = args.len() % 3 == 0;
    if by_stdin { std::fs::write(format!("{}/.stdin", c.scratch), "in.toml\n").map_err(|e| e.to_string())?; cmd.args(&args[2..]).stdin(std::fs::File::open(format!("{}/.stdin", c.scratch)).map_err(|e| e.to_string())?); let _ = std::fs::remove_file(format!("{}/.stdin", c.scratch)); } else { cmd.args(args).stdin(std::process::Stdio::null()); }
    let o = cmd.output().map_err(|e| format!("cannot run tomlkit: {}", e))?;
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    if err.contains("panicked") || o.status.code().is_none() { return Err(format!("tomlkit {:?} crashes: {}", args, err.chars().take(300).collect::<String>())); }
    Ok(Out { out: String::from_utf8(o.stdout).map_err(|_| "output is not UTF-8".to_string())?, ok: o.status.success() })
}
fn setup(c: &Case, text: &str) -> R {
    let _ = std::fs::create_dir_all(&c.scratch);
    for e in std::fs::read_dir(&c.scratch).map_err(|e| e.to_string())? { if let Ok(e) = e { let _ = std::fs::remove_file(e.path()); } }
    std::fs::write(format!("{}/in.toml", c.scratch), text).map_err(|e| e.to_string())
}
fn files(c: &Case) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = std::fs::read_dir(&c.scratch).unwrap().map(|e| { let p = e.unwrap().path(); (p.file_name().unwrap().to_string_lossy().to_string(), String::from_utf8_lossy(&std::fs::read(&p).unwrap()).to_string()) }).collect();
    v.sort(); v
}
fn plain(k: &str) -> bool { !k.contains(',') && !k.contains('\\') && !k.contains('\n') && !k.contains('\r') && !k.is_empty() }
fn keys(d: &Doc) -> Vec<String> { d.vals.keys().chain(d.kids.keys()).filter(|k| *k != "$Root$" && plain(k)).cloned().collect() }
fn doc(r: &mut Rng) -> Doc { G::new(r, Cfg::small()).doc() }
fn c12(r: &mut Rng, c: &mut Case) -> R {
    let d = doc(r); let all = keys(&d);
    c.note("document", &d.text[..]);
    setup(c, &d.text)?;
    let mut args = vec!["-i".to_string(), "in.toml".to_string()];
    let sep = match r.below(3) { 0 => { let s = *r.pick(&["|", " ; ", ",", "::"]); { args.push("--separator".into()); args.push(s.to_string()); } s.to_string() } _ => ", ".to_string() };
    let mut ks: Vec<String> = vec![];
    for _ in 0..r.range(1, 4) { ks.push(if all.is_empty() || r.chance(1, 5) { r.pick(&["nope", "a.nope", "nope[0]"]).to_string() } else { r.pick(&all).clone() }); }
    let csv = ks.join(",");
    let mut want: Result<String, ()> = Ok(String::new());
    let add = |w: &mut Result<String, ()>, i: usize, s: Option<String>| { match s { None => *w = Err(()), Some(s) => if let Ok(ref mut w) = *w { if i > 0 { w.push_str(&sep); } w.push_str(&s); } } };
    let bools = |r: &mut Rng, args: &mut Vec<String>, n: usize| -> (Vec<String>, Vec<String>) {
        let mut f = |name: &str, dflt: &str, r: &mut Rng| -> Vec<String> { match r.below(4) { 0 => { let v = format!("{}1", &dflt[..1]); { args.push(format!("--set-{}", dflt)); args.push(v.clone()); } vec![v; n] } 1 if n > 1 => { let m = if r.chance(1, 5) { n - 1 } else { n }; let v: Vec<String> = (0..m).map(|i| format!("{}{}", &name[..1], i)).collect(); { args.push(format!("--set-{}", dflt)); args.push(v.join(",")); } if m == 1 { vec![v[0].clone(); n] } else { v } } _ => vec![dflt.to_string(); n] } };
        let t = f("yes", "true", r); let e = f("no", "false", r); (t, e)
    };
    match r.below(4) {
        0 => {
            let strip = r.chance(1, 4); if strip { args.push("--strip-quotes".into()); }
            { args.push("--get-value".into()); args.push(csv.to_string()); }
            for (i, k) in ks.iter().enumerate() {
                let s = d.vals.get(k).map(|v| { let t = val_text(v); match *v { Value::String(ref s, _) if strip => { if s.starts_with('"') || s.starts_with('\'') || s.ends_with('"') || s.ends_with('\'') { s.trim_matches(|c| c == '\'' || c == '"').to_string() } else { s.to_string() } } _ => t } });
                // stripping quotes of containers is not specified
                if strip { if let Some(v) = d.vals.get(k) { if !scalar_v(v) { c.skip = true; return Ok(()); } } }
                add(&mut want, i, s);
            }
        }
        1 => {
            { args.push("--has-value".into()); args.push(csv.to_string()); } let (t, f) = bools(r, &mut args, ks.len());
            for (i, k) in ks.iter().enumerate() { if i >= t.len() || i >= f.len() { add(&mut want, i, None); break; } add(&mut want, i, Some(if d.vals.contains_key(k) { t[i].clone() } else { f[i].clone() })); }
        }
        2 => {
            let (mut b, mut e, mut s, mut len) = ("[".to_string(), "]".to_string(), ", ".to_string(), false);
            if r.chance(1, 3) { b = "<".into(); { args.push("--array-begin".into()); args.push("<".into()); } }
            if r.chance(1, 3) { e = ">".into(); { args.push("--array-end".into()); args.push(">".into()); } }
            if r.chance(1, 3) { s = "/".into(); { args.push("--array-separator".into()); args.push("/".into()); } }
            if r.chance(1, 4) { len = true; args.push("--array-length".into()); }
            { args.push("--get-children".into()); args.push(csv.to_string()); }
            for (i, k) in ks.iter().enumerate() {
                add(&mut want, i, match d.kids.get(k) { None | Some(&Kids::Count(0)) => None, Some(&Kids::Count(n)) => Some(n.to_string()), Some(Kids::Keys(v)) => Some(if len { format!("{}{}{}", v.len(), s, v.join(&s)) } else { format!("{}{}{}", b, v.join(&s), e) }) });
            }
        }
        _ => {
            { args.push("--has-children".into()); args.push(csv.to_string()); } let (t, f) = bools(r, &mut args, ks.len());
            for (i, k) in ks.iter().enumerate() { if i >= t.len() || i >= f.len() { add(&mut want, i, None); break; } let has = match d.kids.get(k) { None | Some(&Kids::Count(0)) => false, Some(Kids::Keys(v)) => !v.is_empty(), _ => true }; add(&mut want, i, Some(if has { t[i].clone() } else { f[i].clone() })); }
        }
    }
    let show = r.chance(1, 6); if show { args.push("--print-doc".into()); }
    c.note("arguments", format!("{:?}", args));
    let o = run(c, &args)?;
    let tail = if show { format!("{}\n", d.text) } else { String::new() };
    match want {
        Ok(w) => ensure!(o.out == format!("{}\n{}", w, tail), "prints {:?}, expected {:?}", o.out, w),
        Err(()) => ensure!(o.out.starts_with("Error \"in.toml\""), "prints {:?}, expected an error", o.out),
    }
    let f = files(c); ensure!(f == vec![("in.toml".to_string(), d.text.clone())], "the files are now {:?}", f);
    Ok(())
}
fn kit_value(r: &mut Rng) -> (String, &'static str, Option<V>) {
    let k = r.below(8);
    let v = loop { let v = scalar_kind(r, k, false); let t = match v { Value::String(ref s, _) => s.to_string(), ref v => val_text(v) }; if !t.contains(',') && !t.contains('\\') && !t.contains('\n') && !t.contains('\r') { break v; } };
    let (t, names): (String, &[&'static str]) = match v {
        Value::Integer(ref s) => (s.to_string(), &["integer", "int"]), Value::Float(ref s) => (s.to_string(), &["float", "flt"]), Value::Boolean(b) => (b.to_string(), &["boolean", "bool"]), Value::DateTime(ref d) => (dt_text(d), &["datetime", "dt"]),
        Value::String(ref s, StrType::Basic) => (s.to_string(), &["basic-string", "bs"]), Value::String(ref s, StrType::MLBasic) => (s.to_string(), &["ml-basic-string", "mbs"]), Value::String(ref s, StrType::Literal) => (s.to_string(), &["literal-string", "ls"]), Value::String(ref s, _) => (s.to_string(), &["ml-literal-string", "mls"]),
        _ => unreachable!(),
    };
    let n = *r.pick(names);
    if r.chance(1, 12) { return match r.below(4) { 0 => (t, "no-type", None), 1 => ("x y".into(), *r.pick(&["int", "flt", "bool", "dt", "integer", "datetime"]), None), 2 => ("2016-02-30".into(), "dt", None), _ => ("a\"b".into(), "bs", None) }; }
    (t, n, Some(v))
}
fn c13(r: &mut Rng, c: &mut Case) -> R {
    if r.chance(1, 10) { // documents that are not valid
        let d = doc(r); let mut t = d.text.clone(); if !t.is_empty() && !t.ends_with('\n') { t.push('\n'); }
        t.push_str(*r.pick(&["zz = 1\nzz = 2\n", "= 1\n", "zz = 2015-13-01\n", "zz = [1, 'a']\n", "[zz]\n[zz]\n", "zz = 1\nzz = 1\n!"]));
        c.note("document", &t[..]); setup(c, &t)?;
        let mut args: Vec<String> = vec!["-i".into(), "in.toml".into()];
        let (o, v) = match r.below(3) { 0 => ("--get-value", "zz"), 1 => ("--set-value", "zz,1,int"), _ => ("--has-children", "zz") }; args.push(o.into()); args.push(v.into());
        if r.chance(1, 2) { { args.push("--output-file".into()); args.push("out.toml".into()); } }
        c.note("arguments", format!("{:?}", args));
        let o = run(c, &args)?;
        ensure!(!o.ok && o.out.starts_with("Error \"in.toml\""), "prints {:?} and exits with {}", o.out, o.ok);
        let f = files(c); ensure!(f == vec![("in.toml".to_string(), t.clone())], "the files are now {:?}", f);
        return Ok(());
    }
    let mut d = doc(r); let before = d.text.clone();
    let all: Vec<String> = d.vals.keys().filter(|k| plain(k)).cloned().collect();
    c.note("document", &before[..]);
    setup(c, &before)?;
    let mut csv: Vec<String> = vec![]; let mut fail = false; let n = r.range(1, 4);
    for _ in 0..n {
        let cur: Vec<String> = d.vals.keys().filter(|k| plain(k)).cloned().collect();
        let key = if all.is_empty() || cur.is_empty() || r.chance(1, 12) { "no.such-key".to_string() } else { r.pick(&cur).clone() };
        let (t, ty, v) = kit_value(r);
        csv.push(key.clone()); csv.push(t); csv.push(ty.to_string());
        if fail { continue; }
        match v { Some(v) if d.vals.contains_key(&key) => { d.set(&key, &v); } _ => fail = true }
    }
    if r.chance(1, 15) { csv.pop(); fail = true; }
    let mut args = vec!["-i".to_string(), "in.toml".to_string()];
    let quiet = r.chance(1, 3); if quiet { args.push("--quiet".into()); }
    let out = r.chance(1, 2); if out { { args.push("--output-file".into()); args.push("out.toml".into()); } if r.chance(1, 2) { std::fs::write(format!("{}/out.toml", c.scratch), "old = 1\n").unwrap(); } }
    let sep = if r.chance(1, 3) { { args.push("--separator".into()); args.push("|".into()); } "|" } else { ", " };
    let show = r.chance(1, 4); if show { args.push("--print-doc".into()); }
    { args.push("--set-value".into()); args.push(csv.join(",").to_string()); }
    c.note("arguments", format!("{:?}", args));
    let was = files(c);
    let o = run(c, &args)?;
    let now = files(c);
    if fail {
        ensure!(o.out.starts_with("Error \"in.toml\""), "prints {:?}, expected an error", o.out);
        ensure!(now == was, "a failed command changed the files to {:?}", now);
    } else {
        let say = if quiet { String::new() } else { vec!["Success"; n].join(sep) };
        let want = format!("{}\n{}", say, if show { format!("{}\n", d.text) } else { String::new() });
        ensure!(o.out == want, "prints {:?}, expected {:?}", o.out, want);
        let mut f = vec![("in.toml".to_string(), if out { before } else { d.text.clone() })]; if out { f.push(("out.toml".to_string(), d.text.clone())); }
        ensure!(now == f, "the files are now {:?}, expected {:?}", now, f);
        let (p, res) = TOMLParser::new().parse(&d.text);
        if !d.any_mixed() { ensure!(res == ParseResult::Full, "the new document parses as {:?}", res); d.agree(&p)?; }
    }
    Ok(())
}
