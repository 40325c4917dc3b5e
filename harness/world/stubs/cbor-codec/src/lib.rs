//! Stand-in for cbor-codec: the generic decoder and encoder.
pub mod decoder;
pub mod encoder;
pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Tag {
        DateTime,
        Timestamp,
        Bignum,
        NegativeBignum,
        Decimal,
        Bigfloat,
        ToBase64Url,
        ToBase64,
        ToBase16,
        Cbor,
        Uri,
        Base64Url,
        Base64,
        Regex,
        Mime,
        CborSelf,
        Unassigned(u64),
    }
    const KNOWN: [(u64, Tag); 16] = [
        (0, Tag::DateTime),
        (1, Tag::Timestamp),
        (2, Tag::Bignum),
        (3, Tag::NegativeBignum),
        (4, Tag::Decimal),
        (5, Tag::Bigfloat),
        (21, Tag::ToBase64Url),
        (22, Tag::ToBase64),
        (23, Tag::ToBase16),
        (24, Tag::Cbor),
        (32, Tag::Uri),
        (33, Tag::Base64Url),
        (34, Tag::Base64),
        (35, Tag::Regex),
        (36, Tag::Mime),
        (55799, Tag::CborSelf),
    ];
    impl Tag {
        pub fn of(x: u64) -> Tag {
            KNOWN.iter().find(|k| k.0 == x).map_or(Tag::Unassigned(x), |k| k.1)
        }
        pub fn to(&self) -> u64 {
            match self {
                Tag::Unassigned(x) => *x,
                t => KNOWN.iter().find(|k| k.1 == *t).unwrap().0,
            }
        }
    }
}
pub mod value {
    use crate::types::Tag;
    use std::collections::{BTreeMap, LinkedList};
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Array(Vec<Value>),
        Bool(bool),
        Break,
        Bytes(Bytes),
        F32(f32),
        F64(f64),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Int(Int),
        Map(BTreeMap<Key, Value>),
        Null,
        Simple(u8),
        Tagged(Tag, Box<Value>),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        Undefined,
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Int {
        Neg(u64),
        Pos(u64),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Bytes {
        Bytes(Vec<u8>),
        Chunks(LinkedList<Vec<u8>>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Text {
        Text(String),
        Chunks(LinkedList<String>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        Bool(bool),
        Bytes(Bytes),
        Int(Int),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
    }
}
pub use decoder::{DecodeError, GenericDecoder};
pub use encoder::{EncodeError, GenericEncoder};
pub use value::Value;

#[derive(Clone, Debug)]
pub struct Config {
    pub max_nesting: usize,
    pub max_len_array: usize,
    pub max_len_bytes: usize,
    pub max_len_text: usize,
    pub max_len_object: usize,
    pub skip_tags: bool,
}
impl Config {
    #[allow(clippy::should_implement_trait)]
    pub fn default() -> Config {
        Config {
            max_nesting: 16,
            max_len_array: 1000,
            max_len_bytes: 0x50_0000,
            max_len_text: 0x50_0000,
            max_len_object: 1000,
            skip_tags: false,
        }
    }
}
