mod rng; mod gen; mod model; #[macro_use] mod drv; mod props; mod errs; mod tabs; mod kit;
fn arg(a: &[String], n: &str, d: &str) -> String { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = match props::ALL.iter().chain(errs::ALL).chain(tabs::ALL).chain(kit::ALL).find(|p| p.id == a[2]) { Some(p) => p, None => { eprintln!("no such property"); std::process::exit(3) } };
    let seed: u64 = arg(&a, "--seed", "1").parse().unwrap();
    let out = arg(&a, "--out", "/tmp/vh-out");
    std::fs::create_dir_all(&out).unwrap();
    if a[1] == "replay" {
        let h = { let a = a.clone(); let out = out.clone(); std::thread::Builder::new().stack_size(64 << 20).spawn(move || drv::one(p, seed, &arg(&a, "--kind", "random"), arg(&a, "--n", "0").parse().unwrap(), &format!("{}/scratch0", out))).unwrap() };
        let (c, r) = h.join().unwrap();
        println!("{}\n=> {:?}", c.show(), r);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    drv::run(p, &drv::Opt { seed, secs: arg(&a, "--secs", "20").parse().unwrap(), threads: arg(&a, "--threads", "8").parse().unwrap(), max: arg(&a, "--max", "1000000000").parse().unwrap(), out });
}
