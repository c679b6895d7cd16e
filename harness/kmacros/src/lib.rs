//! `#[tokio::main]` and `#[tokio::test]` leave the async function as it is: the harness runs the future.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream { item }
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream { item }
