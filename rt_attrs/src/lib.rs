//! A derive that owns the `serde` helper attribute and generates nothing, for types that only derive OpgModel.
#[proc_macro_derive(Attrs, attributes(serde))]
pub fn attrs(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    Default::default()
}

/// A derive that owns the `opg` helper attribute and generates nothing: shows that nothing but the real derive rejects a definition.
#[proc_macro_derive(OpgNone, attributes(opg))]
pub fn opg_none(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    Default::default()
}
