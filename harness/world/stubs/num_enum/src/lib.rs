//! Stand-in for num_enum: IntoPrimitive and TryFromPrimitive.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, parse_macro_input};

fn parts(d: &DeriveInput) -> (syn::Ident, syn::Path, Vec<syn::Ident>) {
    let mut repr = None;
    for a in d.attrs.iter().filter(|a| a.path().is_ident("repr")) {
        repr = Some(a.parse_args::<syn::Path>().unwrap());
    }
    let Data::Enum(e) = &d.data else { panic!() };
    (d.ident.clone(), repr.expect("repr"), e.variants.iter().map(|v| v.ident.clone()).collect())
}
#[proc_macro_derive(IntoPrimitive, attributes(num_enum))]
pub fn into(t: TokenStream) -> TokenStream {
    let (n, r, _) = parts(&parse_macro_input!(t as DeriveInput));
    quote!(impl ::core::convert::From<#n> for #r { fn from(x: #n) -> #r { x as #r } }).into()
}
#[proc_macro_derive(TryFromPrimitive, attributes(num_enum))]
pub fn try_from(t: TokenStream) -> TokenStream {
    let (n, r, v) = parts(&parse_macro_input!(t as DeriveInput));
    let name = n.to_string();
    let err = quote::format_ident!("TryFrom{n}Error");
    quote!(
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct #err { pub number: #r }
    impl ::core::fmt::Display for #err {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
            write!(f, "No discriminant in enum `{}` matches the value `{}`", #name, self.number)
        }
    }
    impl ::std::error::Error for #err {}
    impl #n { pub fn try_from_primitive(x: #r) -> ::core::result::Result<Self, #err> { ::core::convert::TryFrom::try_from(x) } }
    impl ::core::convert::TryFrom<#r> for #n {
        type Error = #err;
        fn try_from(x: #r) -> ::core::result::Result<Self, #err> {
            #(if x == #n::#v as #r { return Ok(#n::#v); })*
            Err(#err { number: x })
        }
    })
    .into()
}
