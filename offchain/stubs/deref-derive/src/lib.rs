//! Stand-in: Deref of a newtype
use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(Deref)]
pub fn deref(input: TokenStream) -> TokenStream {
    let input = syn::parse_macro_input!(input as syn::ItemStruct);
    let name = &input.ident;
    let ty = &input.fields.iter().next().expect("one field").ty;
    TokenStream::from(quote! {
        impl core::ops::Deref for #name {
            type Target = #ty;
            fn deref(&self) -> &#ty { &self.0 }
        }
    })
}
