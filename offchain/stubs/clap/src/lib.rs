//! Stand-in: command lines are not parsed here
use proc_macro::TokenStream;
#[proc_macro_derive(Subcommand, attributes(command, arg, clap))]
pub fn subcommand(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Args, attributes(command, arg, clap))]
pub fn args(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(Parser, attributes(command, arg, clap))]
pub fn parser(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ValueEnum, attributes(command, arg, clap, value))]
pub fn value_enum(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
