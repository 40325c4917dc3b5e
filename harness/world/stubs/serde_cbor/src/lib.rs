//! Stand-in for serde_cbor 0.11: `Value`, `to_vec`, `from_slice`, `value::{to_value, from_value}`.
pub mod de;
pub mod error;
pub mod ser;
pub mod value;
pub use error::{Error, Result};
pub use value::Value;

pub fn to_vec<T: serde::Serialize + ?Sized>(v: &T) -> Result<Vec<u8>> {
    let v = value::to_value(v)?;
    let mut out = vec![];
    ser::encode(&v, &mut out)?;
    Ok(out)
}
pub fn from_slice<'a, T: serde::Deserialize<'a>>(b: &'a [u8]) -> Result<T> {
    let mut p = de::Parser { b, i: 0 };
    let v = p.value(0)?;
    if p.i != b.len() {
        return Err(Error::new("trailing data", p.i));
    }
    T::deserialize(v)
}
