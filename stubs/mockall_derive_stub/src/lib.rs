use proc_macro::TokenStream;
#[proc_macro]
pub fn mock(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_attribute]
pub fn automock(_: TokenStream, i: TokenStream) -> TokenStream {
    i
}
