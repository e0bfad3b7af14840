//! #[tokio::main]: the function becomes the server under exploration, and main runs the explorer.
extern crate proc_macro;
use proc_macro::{Ident, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut after_fn = false; let mut done = false;
    let out: TokenStream = item.into_iter().map(|t| { if let TokenTree::Ident(i) = &t { let s = i.to_string(); if after_fn && !done { done = true; return TokenTree::Ident(Ident::new("__server", i.span())); } after_fn = s == "fn"; } t }).collect();
    format!("{out}\nfn main() {{ ::tokio::explore(|| ::std::boxed::Box::pin(async {{ let _ = __server().await; }})) }}").parse().unwrap()
}
