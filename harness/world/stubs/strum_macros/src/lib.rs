//! Stand-in for strum_macros: Display, EnumIter, EnumString, IntoStaticStr for enums without fields.
use proc_macro::TokenStream;
use quote::quote;
use syn::{Data, DeriveInput, LitStr, parse_macro_input};

fn snake(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                r.push('_');
            }
            r.extend(c.to_lowercase());
        } else {
            r.push(c);
        }
    }
    r
}

fn parts(d: &DeriveInput) -> (syn::Ident, Vec<syn::Ident>, Vec<String>) {
    let mut style = None;
    for a in d.attrs.iter().filter(|a| a.path().is_ident("strum")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("serialize_all") {
                style = Some(m.value()?.parse::<LitStr>()?.value());
                Ok(())
            } else {
                Err(m.error("unsupported"))
            }
        })
        .unwrap();
    }
    let Data::Enum(e) = &d.data else { panic!() };
    let ids: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
    let names = ids
        .iter()
        .map(|i| match style.as_deref() {
            None => i.to_string(),
            Some("snake_case") => snake(&i.to_string()),
            Some("lowercase") => i.to_string().to_lowercase(),
            Some("UPPERCASE") => i.to_string().to_uppercase(),
            Some(x) => panic!("unsupported style {x}"),
        })
        .collect();
    (d.ident.clone(), ids, names)
}

#[proc_macro_derive(Display, attributes(strum))]
pub fn display(t: TokenStream) -> TokenStream {
    let (n, v, s) = parts(&parse_macro_input!(t as DeriveInput));
    quote!(impl ::core::fmt::Display for #n {
        fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
            f.pad(match self { #(#n::#v => #s),* })
        }
    })
    .into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(t: TokenStream) -> TokenStream {
    let (n, v, s) = parts(&parse_macro_input!(t as DeriveInput));
    quote!(
    impl ::core::str::FromStr for #n {
        type Err = ::strum::ParseError;
        fn from_str(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> {
            match s { #(#s => Ok(#n::#v),)* _ => Err(::strum::ParseError::VariantNotFound) }
        }
    }
    impl ::core::convert::TryFrom<&str> for #n {
        type Error = ::strum::ParseError;
        fn try_from(s: &str) -> ::core::result::Result<Self, ::strum::ParseError> { s.parse() }
    })
    .into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static_str(t: TokenStream) -> TokenStream {
    let (n, v, s) = parts(&parse_macro_input!(t as DeriveInput));
    quote!(
    impl ::core::convert::From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #(#n::#v => #s),* } } }
    impl<'a> ::core::convert::From<&'a #n> for &'static str { fn from(x: &'a #n) -> &'static str { match x { #(#n::#v => #s),* } } }
    )
    .into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(t: TokenStream) -> TokenStream {
    let (n, v, _) = parts(&parse_macro_input!(t as DeriveInput));
    quote!(impl ::strum::IntoEnumIterator for #n {
        type Iterator = ::std::vec::IntoIter<#n>;
        fn iter() -> Self::Iterator { vec![#(#n::#v),*].into_iter() }
    })
    .into()
}
