//! `#[async_trait]` is the identity: the trait generated for the service has native async functions.
use proc_macro::TokenStream;

#[proc_macro_attribute]
pub fn async_trait(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
