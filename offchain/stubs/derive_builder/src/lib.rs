//! Stand-in: the builder that derive_builder generates for a struct without options
use proc_macro::TokenStream;
use quote::{format_ident, quote};
#[proc_macro_derive(Builder)]
pub fn builder(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as syn::ItemStruct);
    let (vis, name) = (&input.vis, &input.ident);
    let builder = format_ident!("{}Builder", name);
    let error = format_ident!("{}BuilderError", name);
    let mut cloned = input.generics.clone();
    for p in cloned.type_params_mut() {
        p.bounds.push(syn::parse_quote!(::core::clone::Clone));
    }
    let (ig, tg, wh) = input.generics.split_for_impl();
    let (cig, _, cwh) = cloned.split_for_impl();
    let f: Vec<_> = input.fields.iter().map(|f| f.ident.clone().expect("named field")).collect();
    let t: Vec<_> = input.fields.iter().map(|f| f.ty.clone()).collect();
    let s: Vec<_> = f.iter().map(|f| f.to_string()).collect();
    let none = f.iter().map(|f| quote!(#f: None));
    TokenStream::from(quote! {
        #[derive(Debug)]
        #vis enum #error { UninitializedField(&'static str) }
        impl ::core::fmt::Display for #error {
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                let #error::UninitializedField(n) = self;
                write!(f, "`{}` must be initialized", n)
            }
        }
        impl ::std::error::Error for #error {}
        #vis struct #builder #ig #wh { #(#f: Option<#t>),* }
        impl #cig ::core::default::Default for #builder #tg #cwh {
            fn default() -> Self { Self { #(#none),* } }
        }
        impl #cig #builder #tg #cwh {
            #(
                pub fn #f(&mut self, value: #t) -> &mut Self {
                    self.#f = Some(value);
                    self
                }
            )*
            #vis fn build(&self) -> ::core::result::Result<#name #tg, #error> {
                Ok(#name { #(#f: self.#f.clone().ok_or(#error::UninitializedField(#s))?),* })
            }
        }
    })
}
