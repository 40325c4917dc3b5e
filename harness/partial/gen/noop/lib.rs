//! A derive that owns an attribute and generates nothing.
#[proc_macro_derive(Other, attributes(protobuf_convert))]
pub fn other(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    Default::default()
}
