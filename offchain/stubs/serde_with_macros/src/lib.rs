use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(SerializeDisplay)]
pub fn serialize_display(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as syn::DeriveInput);
    let name = &input.ident;
    TokenStream::from(quote! {
        impl ::serde::Serialize for #name {
            fn serialize<S: ::serde::Serializer>(&self, s: S) -> ::core::result::Result<S::Ok, S::Error> {
                s.collect_str(self)
            }
        }
    })
}
