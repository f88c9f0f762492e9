use proc_macro::TokenStream;
#[proc_macro_derive(Archive, attributes(archive, archive_attr, with, omit_bounds))]
pub fn a(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Serialize, attributes(archive, archive_attr, with, omit_bounds))]
pub fn b(_i: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Deserialize, attributes(archive, archive_attr, with, omit_bounds))]
pub fn c(_i: TokenStream) -> TokenStream { TokenStream::new() }
