//! `#[tokio::main]` leaves the function as it is, for a harness to run.
use proc_macro::{Ident, Span, TokenStream, TokenTree};

#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut out = vec![];
    let mut done = false;
    for t in item {
        if let TokenTree::Ident(i) = &t {
            let i = i.to_string();
            if !done && (i == "async" || i == "fn" || i == "pub") {
                done = true;
                if i != "pub" {
                    out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
                }
            }
        }
        out.push(t);
    }
    out.into_iter().collect()
}
