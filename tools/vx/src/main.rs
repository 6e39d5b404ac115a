//! vx: extracts functions and types from the macro-expanded source of tomllib and emits them as Verus code, with the
//! contracts, loop invariants and proof hints given in a spec file.  See DESIGN.md ("Extraction") for what it changes.
mod index;
mod print;
mod spec;
mod tx;
use std::fs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("vx <spec> <out.rs> <map.json> <expanded.rs>..."); std::process::exit(2); }
    let mut ix = index::Src::default();
    for p in &a[4..] {
        let (prefix, path) = match p.find('=') { Some(i) => (&p[..i], &p[i + 1..]), None => ("", &p[..]) };
        let text = fs::read_to_string(path).expect("expanded source");
        let f = match syn::parse_file(&text) { Ok(f) => f, Err(e) => { eprintln!("{}: {}", path, e); std::process::exit(3) } };
        ix.add_items(prefix, &f.items);
    }
    ix.finish();
    let text = fs::read_to_string(&a[1]).expect("spec");
    let (out, map) = spec::run(&mut ix, &text, a[1].rsplit_once('/').map(|x| x.0).unwrap_or("."));
    fs::write(&a[2], out).unwrap();
    fs::write(&a[3], map).unwrap();
}
