//! Stand-in for protobuf-convert 0.4: the derive with `source`, `skip` and (for enums) `oneof_field`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, LitStr, parse_macro_input};

struct Attr {
    source: Option<syn::Path>,
    skip: bool,
    oneof: String,
}

fn attr(attrs: &[syn::Attribute]) -> Attr {
    let mut r = Attr { source: None, skip: false, oneof: "kind".into() };
    for a in attrs.iter().filter(|a| a.path().is_ident("protobuf_convert")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("skip") {
                r.skip = true;
            } else if m.path.is_ident("source") {
                let s: LitStr = m.value()?.parse()?;
                r.source = Some(s.parse()?);
            } else if m.path.is_ident("oneof_field") {
                let s: LitStr = m.value()?.parse()?;
                r.oneof = s.value();
            } else {
                return Err(m.error("unsupported"));
            }
            Ok(())
        })
        .unwrap();
    }
    r
}

#[proc_macro_derive(ProtobufConvert, attributes(protobuf_convert))]
pub fn derive(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let a = attr(&d.attrs);
    let src = a.source.expect("source");
    let name = &d.ident;
    let body = match &d.data {
        Data::Struct(s) => {
            let (mut to, mut from) = (vec![], vec![]);
            for f in &s.fields {
                let id = f.ident.as_ref().unwrap();
                if attr(&f.attrs).skip {
                    from.push(quote!(#id: Default::default()));
                    continue;
                }
                let (set, get) = (format_ident!("set_{id}"), format_ident!("get_{id}"));
                to.push(quote!(msg.#set(ProtobufConvert::to_pb(&self.#id).into());));
                from.push(quote!(#id: ProtobufConvert::from_pb(pb.#get().to_owned())?));
            }
            quote! {
                fn to_pb(&self) -> Self::ProtoStruct {
                    let mut msg = <Self::ProtoStruct>::new();
                    #(#to)*
                    msg
                }
                fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                    Ok(Self { #(#from),* })
                }
            }
        }
        Data::Enum(e) => {
            let mut path = src.clone();
            let last = path.segments.last_mut().unwrap();
            last.ident = format_ident!("{}_oneof_{}", last.ident, a.oneof);
            let field = format_ident!("{}", a.oneof);
            let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
            let text = format!("Failed to decode {name} from protobuf");
            quote! {
                fn to_pb(&self) -> Self::ProtoStruct {
                    let mut inner = <Self::ProtoStruct>::new();
                    match self {
                        #(#name::#vs(x) => inner.#field = Some(#path::#vs(ProtobufConvert::to_pb(x).into())),)*
                    }
                    inner
                }
                fn from_pb(pb: Self::ProtoStruct) -> std::result::Result<Self, ::anyhow::Error> {
                    match pb.#field {
                        #(Some(#path::#vs(x)) => ProtobufConvert::from_pb(x).map(#name::#vs),)*
                        None => Err(::anyhow::format_err!(#text)),
                    }
                }
            }
        }
        _ => panic!(),
    };
    quote! {
        #[allow(clippy::useless_conversion)]
        impl ProtobufConvert for #name {
            type ProtoStruct = #src;
            #body
        }
    }
    .into()
}
