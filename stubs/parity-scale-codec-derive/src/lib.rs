use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, visit::Visit, Data, DeriveInput, Expr, Field, Fields, Type};

#[derive(Default)]
struct Attr {
    index: Option<Expr>,
    compact: bool,
    skip: bool,
}
fn attrs(a: &[syn::Attribute]) -> Attr {
    let mut r = Attr::default();
    for a in a {
        if a.path().is_ident("codec") {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("index") {
                    r.index = Some(m.value()?.parse()?);
                } else if m.path.is_ident("compact") {
                    r.compact = true;
                } else if m.path.is_ident("skip") {
                    r.skip = true;
                } else {
                    return Err(m.error("stub codec: unknown attribute"));
                }
                Ok(())
            })
            .unwrap();
        }
    }
    r
}
struct Uses<'a>(Vec<&'a syn::Ident>, bool);
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b syn::Ident) {
        if self.0.contains(&i) {
            self.1 = true;
        }
    }
}
struct Mentions<'a>(&'a syn::Ident, bool);
impl<'a, 'b> Visit<'b> for Mentions<'a> {
    fn visit_ident(&mut self, i: &'b syn::Ident) {
        if self.0 == i {
            self.1 = true;
        }
    }
}
fn bounds(input: &DeriveInput, tr: TokenStream) -> syn::Generics {
    let mut g = input.generics.clone();
    let params: Vec<_> = input.generics.type_params().map(|p| &p.ident).collect();
    if params.is_empty() {
        return g;
    }
    let mut fields: Vec<&Field> = vec![];
    match &input.data {
        Data::Struct(s) => fields.extend(s.fields.iter()),
        Data::Enum(e) => e.variants.iter().for_each(|v| fields.extend(v.fields.iter())),
        _ => {}
    }
    let w = g.make_where_clause();
    for f in fields {
        let a = attrs(&f.attrs);
        let ty: &Type = &f.ty;
        let mut u = Uses(params.clone(), false);
        u.visit_type(ty);
        let mut m = Mentions(&input.ident, false);
        m.visit_type(ty);
        if u.1 && !m.1 && !a.skip {
            if a.compact {
                w.predicates.push(syn::parse_quote!(#ty: ::parity_scale_codec::HasCompact));
            } else {
                w.predicates.push(syn::parse_quote!(#ty: #tr));
            }
        }
    }
    g
}
fn enc_field(f: &Field, e: TokenStream) -> TokenStream {
    let a = attrs(&f.attrs);
    let ty = &f.ty;
    if a.skip {
        quote!({ let _ = #e; })
    } else if a.compact {
        quote!(::parity_scale_codec::Encode::encode_to(
            &<<<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::EncodeAsRef<'_, #ty>>::RefType as ::core::convert::From<&'_ #ty>>::from(#e),
            __dest);)
    } else {
        quote!(::parity_scale_codec::Encode::encode_to(#e, __dest);)
    }
}
fn dec_field(f: &Field) -> TokenStream {
    let a = attrs(&f.attrs);
    let ty = &f.ty;
    if a.skip {
        quote!(::core::default::Default::default())
    } else if a.compact {
        quote!({ let __c = <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__input)?; ::core::convert::Into::<#ty>::into(__c) })
    } else {
        quote!(<#ty as ::parity_scale_codec::Decode>::decode(__input)?)
    }
}
fn construct(path: TokenStream, fields: &Fields) -> TokenStream {
    match fields {
        Fields::Unit => quote!(#path),
        Fields::Unnamed(u) => {
            let d = u.unnamed.iter().map(dec_field);
            quote!(#path(#(#d),*))
        }
        Fields::Named(n) => {
            let d = n.named.iter().map(dec_field);
            let i = n.named.iter().map(|f| f.ident.as_ref().unwrap());
            quote!(#path { #(#i: #d),* })
        }
    }
}
fn variant_index(v: &syn::Variant, i: usize) -> TokenStream {
    if let Some(e) = attrs(&v.attrs).index {
        quote!((#e))
    } else if let Some((_, e)) = &v.discriminant {
        quote!((#e))
    } else {
        quote!((#i))
    }
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(ts: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = parse_macro_input!(ts as DeriveInput);
    let name = &input.ident;
    let g = bounds(&input, quote!(::parity_scale_codec::Encode));
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = input.generics.split_for_impl();
    let body = match &input.data {
        Data::Struct(s) => {
            let stm = s.fields.iter().enumerate().map(|(i, f)| {
                let acc = match &f.ident {
                    Some(id) => quote!(&self.#id),
                    None => {
                        let i = syn::Index::from(i);
                        quote!(&self.#i)
                    }
                };
                enc_field(f, acc)
            });
            quote!(#(#stm)*)
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let vn = &v.ident;
                let idx = variant_index(v, i);
                let names: Vec<_> = (0..v.fields.len()).map(|k| format_ident!("__f{}", k)).collect();
                let pat = match &v.fields {
                    Fields::Unit => quote!(#name::#vn),
                    Fields::Unnamed(_) => quote!(#name::#vn(#(ref #names),*)),
                    Fields::Named(n) => {
                        let ids = n.named.iter().map(|f| f.ident.as_ref().unwrap());
                        quote!(#name::#vn { #(#ids: ref #names),* })
                    }
                };
                let stm = v.fields.iter().zip(&names).map(|(f, n)| enc_field(f, quote!(#n)));
                quote!(#pat => { __dest.push_byte(#idx as u8); #(#stm)* })
            });
            quote!(match *self { #(#arms)* _ => () })
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(deprecated, unused_variables, unreachable_patterns)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Encode for #name #tg #wc {
                fn encode_to<__CodecOut: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __CodecOut) { #body }
            }
            #[automatically_derived]
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wc {}
        };
    )
    .into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(ts: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let input = parse_macro_input!(ts as DeriveInput);
    let name = &input.ident;
    let g = bounds(&input, quote!(::parity_scale_codec::Decode));
    let (ig, _, wc) = g.split_for_impl();
    let (_, tg, _) = input.generics.split_for_impl();
    let body = match &input.data {
        Data::Struct(s) => {
            let c = construct(quote!(#name), &s.fields);
            quote!(::core::result::Result::Ok(#c))
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().map(|(i, v)| {
                let vn = &v.ident;
                let idx = variant_index(v, i);
                let c = construct(quote!(#name::#vn), &v.fields);
                quote!(if __tag == #idx as u8 { return ::core::result::Result::Ok(#c); })
            });
            quote!(let __tag = __input.read_byte()?; #(#arms)* ::core::result::Result::Err(::core::convert::Into::into("Could not decode enum, variant doesn't exist")))
        }
        _ => panic!("union"),
    };
    quote!(
        #[allow(deprecated, unused_variables)]
        const _: () = {
            #[automatically_derived]
            impl #ig ::parity_scale_codec::Decode for #name #tg #wc {
                fn decode<__CodecIn: ::parity_scale_codec::Input>(__input: &mut __CodecIn) -> ::core::result::Result<Self, ::parity_scale_codec::Error> { #body }
            }
        };
    )
    .into()
}
