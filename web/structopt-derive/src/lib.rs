use proc_macro::{Delimiter, TokenStream, TokenTree};
/// The options of the command line get their values from the scenario, by type.
#[proc_macro_derive(StructOpt, attributes(structopt))]
pub fn derive(s: TokenStream) -> TokenStream {
    let mut name = String::new(); let mut last = String::new(); let mut fields = vec![];
    for t in s {
        match t {
            TokenTree::Ident(i) => { if last == "struct" { name = i.to_string() } last = i.to_string() }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let mut prev = String::new(); let mut depth = 0;
                let mut fresh = true;
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) => prev = i.to_string(),
                        TokenTree::Punct(p) if p.as_char() == ':' && fresh => { fields.push(prev.clone()); fresh = false }
                        TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
                        TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
                        TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => fresh = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let list: String = fields.iter().map(|f| format!("{f}: structopt::world::Value::value(),")).collect();
    format!("impl structopt::StructOpt for {name} {{ fn from_args() -> Self {{ structopt::world::enter(main); {name} {{ {list} }} }} }}
        #[no_mangle] #[inline(never)] pub extern \"C\" fn sym_main(scn: u64, a: u64, b: u64, c: u64, d: u64) {{ structopt::world::scenario(main, scn, a, b, c, d) }}").parse().unwrap()
}
