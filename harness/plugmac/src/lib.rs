//! stand-in for swc_plugin_macro: the wasm exports it generates are not part of the encoded code
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn plugin_transform(_args: TokenStream, input: TokenStream) -> TokenStream { input }
