//! Prints tokens one statement per line.
use proc_macro2::*;
pub fn print(ts: TokenStream) -> String { let mut o = String::new(); put(ts, &mut o); o }
fn put(ts: TokenStream, o: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{\n", "}\n"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                o.push_str(a); put(g.stream(), o); o.push_str(b); o.push(' ');
            }
            TokenTree::Punct(p) => { o.push(p.as_char()); if p.as_char() == ';' { o.push('\n'); } else if p.spacing() == Spacing::Alone { o.push(' '); } }
            t => { o.push_str(&t.to_string()); o.push(' '); }
        }
    }
}
