use quote::quote;
#[proc_macro_derive(Sequence)]
pub fn seq(ts: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let i = syn::parse_macro_input!(ts as syn::DeriveInput);
    let n = &i.ident;
    let vs: Vec<_> = match &i.data {
        syn::Data::Enum(e) => e.variants.iter().map(|v| &v.ident).collect(),
        _ => panic!("stub: enums only"),
    };
    let c = vs.len();
    let first = vs.first();
    let last = vs.last();
    let (a, b) = (&vs[..c - 1], &vs[1..]);
    quote!(
        #[automatically_derived]
        impl ::enum_iterator::Sequence for #n {
            const CARDINALITY: usize = #c;
            fn next(&self) -> Option<Self> { match self { #(#n::#a => Some(#n::#b),)* _ => None } }
            fn previous(&self) -> Option<Self> { match self { #(#n::#b => Some(#n::#a),)* _ => None } }
            fn first() -> Option<Self> { Some(#n::#first) }
            fn last() -> Option<Self> { Some(#n::#last) }
        }
    )
    .into()
}
