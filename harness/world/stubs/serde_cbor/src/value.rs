use crate::{Error, Result};
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug)]
pub enum Value {
    Null,
    Bool(bool),
    Integer(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Value>),
    Map(BTreeMap<Value, Value>),
    Tag(u64, Box<Value>),
    #[doc(hidden)]
    __Hidden,
}
impl Value {
    fn major(&self) -> u8 {
        match self {
            Value::Null | Value::Bool(_) | Value::Float(_) => 7,
            Value::Integer(v) => u8::from(*v < 0),
            Value::Tag(..) => 6,
            Value::Bytes(_) => 2,
            Value::Text(_) => 3,
            Value::Array(_) => 4,
            Value::Map(_) => 5,
            Value::__Hidden => unreachable!(),
        }
    }
}
impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Value {}
impl PartialOrd for Value {
    fn partial_cmp(&self, o: &Value) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Value {
    fn cmp(&self, o: &Value) -> Ordering {
        if self.major() != o.major() {
            return self.major().cmp(&o.major());
        }
        match (self, o) {
            (Value::Integer(a), Value::Integer(b)) => a.abs().cmp(&b.abs()),
            (Value::Bytes(a), Value::Bytes(b)) => a.len().cmp(&b.len()).then(a.cmp(b)),
            (Value::Text(a), Value::Text(b)) => a.len().cmp(&b.len()).then(a.cmp(b)),
            (Value::Array(a), Value::Array(b)) => a.iter().cmp(b.iter()),
            (Value::Map(a), Value::Map(b)) => a.len().cmp(&b.len()).then_with(|| a.iter().cmp(b.iter())),
            (Value::Bool(a), Value::Bool(b)) => a.cmp(b),
            (a, b) => crate::to_vec(a).unwrap().cmp(&crate::to_vec(b).unwrap()),
        }
    }
}
macro_rules! from {
    ($($v:ident: $t:ty),*) => {$(impl From<$t> for Value { fn from(x: $t) -> Value { Value::$v(x.into()) } })*};
}
from!(Bool: bool, Integer: i8, Integer: i16, Integer: i32, Integer: i64, Integer: u8, Integer: u16, Integer: u32,
      Integer: u64, Integer: i128, Float: f32, Float: f64, Bytes: Vec<u8>, Text: String, Array: Vec<Value>,
      Map: BTreeMap<Value, Value>);

pub fn to_value<T: Serialize>(v: T) -> Result<Value> {
    v.serialize(Ser)
}
pub fn from_value<T: de::DeserializeOwned>(v: Value) -> Result<T> {
    T::deserialize(v)
}

impl Serialize for Value {
    fn serialize<S: ser::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self {
            Value::Integer(i) => s.serialize_i128(*i),
            Value::Bytes(b) => s.serialize_bytes(b),
            Value::Text(t) => s.serialize_str(t),
            Value::Array(a) => a.serialize(s),
            Value::Map(m) => m.serialize(s),
            Value::Float(f) => s.serialize_f64(*f),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Null => s.serialize_unit(),
            Value::Tag(_, v) => v.serialize(s),
            Value::__Hidden => unreachable!(),
        }
    }
}

impl<'de> de::Deserialize<'de> for Value {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("any valid CBOR value")
            }
            fn visit_str<E>(self, v: &str) -> std::result::Result<Value, E> {
                Ok(Value::Text(v.into()))
            }
            fn visit_string<E>(self, v: String) -> std::result::Result<Value, E> {
                Ok(Value::Text(v))
            }
            fn visit_bytes<E>(self, v: &[u8]) -> std::result::Result<Value, E> {
                Ok(Value::Bytes(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> std::result::Result<Value, E> {
                Ok(Value::Bytes(v))
            }
            fn visit_u64<E>(self, v: u64) -> std::result::Result<Value, E> {
                Ok(Value::Integer(v.into()))
            }
            fn visit_i64<E>(self, v: i64) -> std::result::Result<Value, E> {
                Ok(Value::Integer(v.into()))
            }
            fn visit_i128<E>(self, v: i128) -> std::result::Result<Value, E> {
                Ok(Value::Integer(v))
            }
            fn visit_bool<E>(self, v: bool) -> std::result::Result<Value, E> {
                Ok(Value::Bool(v))
            }
            fn visit_none<E>(self) -> std::result::Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_unit<E>(self) -> std::result::Result<Value, E> {
                Ok(Value::Null)
            }
            fn visit_f64<E>(self, v: f64) -> std::result::Result<Value, E> {
                Ok(Value::Float(v))
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Value::Array(v))
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> std::result::Result<Value, A::Error> {
                let mut v = BTreeMap::new();
                while let Some((k, x)) = a.next_entry()? {
                    v.insert(k, x);
                }
                Ok(Value::Map(v))
            }
        }
        d.deserialize_any(V)
    }
}

impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}

impl<'de> de::Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value> {
        match self {
            Value::Null => vis.visit_unit(),
            Value::Bool(b) => vis.visit_bool(b),
            Value::Integer(i) => {
                if let Ok(x) = u64::try_from(i) {
                    vis.visit_u64(x)
                } else if let Ok(x) = i64::try_from(i) {
                    vis.visit_i64(x)
                } else {
                    vis.visit_i128(i)
                }
            }
            Value::Float(f) => vis.visit_f64(f),
            Value::Bytes(b) => vis.visit_byte_buf(b),
            Value::Text(t) => vis.visit_string(t),
            Value::Array(a) => {
                let mut d = de::value::SeqDeserializer::new(a.into_iter());
                let r = vis.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Map(m) => {
                let mut d = de::value::MapDeserializer::new(m.into_iter());
                let r = vis.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Tag(_, v) => v.deserialize_any(vis),
            Value::__Hidden => unreachable!(),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value> {
        match self {
            Value::Null => vis.visit_none(),
            v => vis.visit_some(v),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value> {
        vis.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value> {
        match self {
            Value::Map(m) => {
                if m.len() != 1 {
                    return Err(de::Error::custom("expected a map with one key"));
                }
                let (k, v) = m.into_iter().next().unwrap();
                vis.visit_enum(En { k, v: Some(v) })
            }
            k => vis.visit_enum(En { k, v: None }),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}
struct En {
    k: Value,
    v: Option<Value>,
}
impl<'de> EnumAccess<'de> for En {
    type Error = Error;
    type Variant = Va;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Va)> {
        Ok((s.deserialize(self.k)?, Va(self.v)))
    }
}
struct Va(Option<Value>);
impl<'de> VariantAccess<'de> for Va {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.0 {
            Some(v) => de::Deserialize::deserialize(v),
            None => Ok(()),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value> {
        s.deserialize(self.0.ok_or_else(|| <Error as de::Error>::custom("newtype variant"))?)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.0.ok_or_else(|| <Error as de::Error>::custom("tuple variant"))?, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value> {
        de::Deserializer::deserialize_any(self.0.ok_or_else(|| <Error as de::Error>::custom("struct variant"))?, v)
    }
}

struct Ser;
struct SeqS {
    name: Option<&'static str>,
    v: Vec<Value>,
}
struct MapS {
    name: Option<&'static str>,
    v: BTreeMap<Value, Value>,
    k: Option<Value>,
}
fn wrap(name: Option<&'static str>, v: Value) -> Value {
    match name {
        None => v,
        Some(n) => Value::Map([(Value::Text(n.into()), v)].into()),
    }
}
type O = Result<Value>;
impl ser::Serializer for Ser {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = SeqS;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = MapS;
    fn serialize_bool(self, v: bool) -> O {
        Ok(Value::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_i16(self, v: i16) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_i32(self, v: i32) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_i64(self, v: i64) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_i128(self, v: i128) -> O {
        Ok(Value::Integer(v))
    }
    fn serialize_u8(self, v: u8) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_u16(self, v: u16) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_u32(self, v: u32) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_u64(self, v: u64) -> O {
        Ok(Value::Integer(v.into()))
    }
    fn serialize_f32(self, v: f32) -> O {
        Ok(Value::Float(v.into()))
    }
    fn serialize_f64(self, v: f64) -> O {
        Ok(Value::Float(v))
    }
    fn serialize_char(self, v: char) -> O {
        Ok(Value::Text(v.into()))
    }
    fn serialize_str(self, v: &str) -> O {
        Ok(Value::Text(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> O {
        Ok(Value::Bytes(v.into()))
    }
    fn serialize_none(self) -> O {
        Ok(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> O {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> O {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> O {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> O {
        Ok(Value::Text(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> O {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> O {
        Ok(wrap(Some(n), v.serialize(Ser)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS> {
        Ok(SeqS { name: None, v: vec![] })
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqS> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqS> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqS> {
        Ok(SeqS { name: Some(n), v: vec![] })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS> {
        Ok(MapS { name: None, v: BTreeMap::new(), k: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapS> {
        self.serialize_map(None)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapS> {
        Ok(MapS { name: Some(n), v: BTreeMap::new(), k: None })
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => {$(impl ser::$t for SeqS {
        type Ok = Value;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> { self.v.push(v.serialize(Ser)?); Ok(()) }
        fn end(self) -> O { Ok(wrap(self.name, Value::Array(self.v))) }
    })*};
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field,
     SerializeTupleVariant serialize_field);
impl ser::SerializeMap for MapS {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.k = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.v.insert(self.k.take().unwrap(), v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> O {
        Ok(wrap(self.name, Value::Map(self.v)))
    }
}
macro_rules! st {
    ($($t:ident),*) => {$(impl ser::$t for MapS {
        type Ok = Value;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
            self.v.insert(Value::Text(k.into()), v.serialize(Ser)?);
            Ok(())
        }
        fn end(self) -> O { Ok(wrap(self.name, Value::Map(self.v))) }
    })*};
}
st!(SerializeStruct, SerializeStructVariant);
