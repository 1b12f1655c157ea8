use proc_macro::{TokenStream, TokenTree};
/// `async fn main() { .. }` becomes `fn main() { world::start(..) }`: the body sets the server up, the world talks to it.
#[proc_macro_attribute]
pub fn main(_: TokenStream, f: TokenStream) -> TokenStream {
    let body = f.into_iter().last().unwrap();
    let body = match &body { TokenTree::Group(g) => TokenTree::Group(g.clone()), _ => panic!("a function is expected") };
    let mut s: TokenStream = "fn __server() -> std::pin::Pin<Box<dyn std::future::Future<Output = ()>>> ".parse().unwrap();
    let mut b: TokenStream = "async move".parse().unwrap();
    b.extend([body]);
    let mut arg: TokenStream = "Box::pin".parse().unwrap();
    arg.extend([TokenTree::Group(proc_macro::Group::new(proc_macro::Delimiter::Parenthesis, b))]);
    s.extend([TokenTree::Group(proc_macro::Group::new(proc_macro::Delimiter::Brace, arg))]);
    let rest: TokenStream = "fn main() { tokio::world::start(__server) }
        #[no_mangle] #[inline(never)] pub extern \"C\" fn sym_main(scn: u64, a: u64, b: u64, c: u64, d: u64) { tokio::world::scenario(__server, scn, a, b, c, d) }".parse().unwrap();
    s.extend(rest);
    s
}
