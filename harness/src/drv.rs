//! Runs the cases of one property: first its exhaustive items, then random ones, on several threads, with a
//! record of the case each thread is working on so that a crash or a hang can be attributed to it.
use crate::rng::Rng;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a case did, written down as it goes.
#[derive(Default)]
pub struct Case { pub log: Vec<(&'static str, String)>, pub trivial: bool, pub skip: bool, pub known: Option<String>, pub evals: u64, pub scratch: String }
impl Case {
    pub fn note(&mut self, k: &'static str, v: impl Into<String>) { self.log.push((k, v.into())); }
    pub fn key(&self) -> u64 { let mut h = std::collections::hash_map::DefaultHasher::new(); for (k, v) in &self.log { k.hash(&mut h); v.hash(&mut h); } h.finish() }
    pub fn show(&self) -> String { self.log.iter().map(|(k, v)| format!("{}: {:?}", k, v)).collect::<Vec<_>>().join("\n") }
}
pub type R = Result<(), String>;
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of exhaustive items, and what they enumerate
    pub items: usize,
    pub bound: &'static str,
    pub item: fn(usize, &mut Case) -> R,
    pub random: fn(&mut Rng, &mut Case) -> R,
}
pub fn no_item(_: usize, _: &mut Case) -> R { Ok(()) }

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}

/// one case: ("item", i) or ("random", n); deterministic
pub fn one(p: &Prop, seed: u64, kind: &str, n: u64, scratch: &str) -> (Case, R) {
    let mut c = Case::default();
    c.scratch = scratch.to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if kind == "item" { (p.item)(n as usize, &mut c) } else { (p.random)(&mut Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(n)), &mut c) }
    }));
    let r = match r { Ok(r) => r, Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())) };
    (c, r)
}

pub struct Opt { pub seed: u64, pub secs: u64, pub threads: usize, pub max: u64, pub out: String }

pub fn run(p: &'static Prop, o: &Opt) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let evals = Arc::new(AtomicU64::new(0));
    let fails: Arc<Mutex<Vec<(String, u64, String, String)>>> = Arc::new(Mutex::new(vec![]));
    let known: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let seen: Arc<Mutex<HashSet<u64>>> = Arc::new(Mutex::new(HashSet::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(vec![]));
    let slots: Arc<Vec<Mutex<Option<(String, u64, Instant)>>>> = Arc::new((0..o.threads).map(|_| Mutex::new(None)).collect());
    let items_done = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..o.threads {
        let (next, stop, fails, seen, samples, slots, evals, known, items_done) = (next.clone(), stop.clone(), fails.clone(), seen.clone(), samples.clone(), slots.clone(), evals.clone(), known.clone(), items_done.clone());
        let (seed, max, out) = (o.seed, o.max, o.out.clone());
        let deadline = t0 + Duration::from_secs(o.secs);
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let scratch = format!("{}/scratch{}", out, t);
            let cur = format!("{}/cur{}", out, t);
            loop {
                if stop.load(SeqCst) { break; }
                let n = next.fetch_add(1, SeqCst);
                let (kind, ix) = if n < p.items as u64 { ("item", n) } else { ("random", n - p.items as u64) };
                if kind == "random" && (ix >= max || Instant::now() > deadline) { break; }
                if let Ok(mut f) = std::fs::File::create(&cur) { let _ = write!(f, "{} {}", kind, ix); }
                *slots[t].lock().unwrap() = Some((kind.to_string(), ix, Instant::now()));
                let (c, r) = one(p, seed, kind, ix, &scratch);
                *slots[t].lock().unwrap() = None;
                if kind == "item" { items_done.fetch_add(1, SeqCst); }
                if c.skip { continue; }
                evals.fetch_add(c.evals.max(1), SeqCst);
                if !c.trivial { seen.lock().unwrap().insert(c.key()); let mut s = samples.lock().unwrap(); if s.len() < 3 { s.push(c.show().chars().take(700).collect()); } }
                if let Err(e) = r {
                    match c.known { Some(k) => { let mut g = known.lock().unwrap(); if !g.contains(&k) { g.push(k); } }
                        None => { let mut f = fails.lock().unwrap(); f.push((kind.to_string(), ix, c.show(), e)); if f.len() >= 5 { stop.store(true, SeqCst); } } }
                }
            }
            let _ = std::fs::remove_file(&cur);
        }).unwrap());
    }
    let mut hung = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() { if let Some((ref k, n, at)) = *s.lock().unwrap() { if at.elapsed() > Duration::from_secs(60) { hung = Some((k.clone(), n)); } } }
        if hung.is_some() { break; }
    }
    let mut fails = fails.lock().unwrap().clone();
    if let Some((k, n)) = hung { fails.push((k.clone(), n, format!("case: {} {}", k, n), "no answer within 60 s".into())); }
    fails.sort_by_key(|f| f.2.len());
    let replay = format!("{}/replay.json", o.out);
    if let Some(f) = fails.first() {
        let mut w = std::fs::File::create(&replay).unwrap();
        let _ = writeln!(w, "{{\"property\": {}, \"seed\": {}, \"kind\": {}, \"n\": {}, \"case\": {}, \"failure\": {}, \"replay_cmd\": {}}}", js(p.id), o.seed, js(&f.0), f.1, js(&f.2), js(&f.3), js(&format!("vh replay {} --seed {} --kind {} --n {}", p.id, o.seed, f.0, f.1)));
    }
    let s = samples.lock().unwrap();
    let frag = format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"exhaustive_items\": {}, \"exhaustive_done\": {}, \"bound\": {}, \"rule\": {}, \"samples\": [{}], \"failures\": {}, \"known\": [{}], \"wall_s\": {:.1}}}",
        evals.load(SeqCst), seen.lock().unwrap().len(), p.items, items_done.load(SeqCst), js(p.bound), js(p.rule), s.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), fails.len(), known.lock().unwrap().iter().map(|x| js(x)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64());
    std::fs::write(format!("{}/bounded.json", o.out), frag).unwrap();
    for f in fails.iter().take(2) { println!("FAILURE {} {} {}\n{}\n=> {}", p.id, f.0, f.1, f.2.chars().take(1500).collect::<String>(), f.3.chars().take(800).collect::<String>()); }
    println!("{} evaluations, {} distinct, {:.1}s, {} failures", evals.load(SeqCst), seen.lock().unwrap().len(), t0.elapsed().as_secs_f64(), fails.len());
    let code = if fails.is_empty() { 0 } else { 1 };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
