//! Stand-in for rust-protobuf 2.28: the runtime that the generated code and witnet_data_structures use.
use std::fmt::{self, Debug};
use std::ops::{Deref, DerefMut};

#[derive(Debug)]
pub enum ProtobufError {
    WireError(&'static str),
    Utf8,
}
pub type ProtobufResult<T> = Result<T, ProtobufError>;
impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ProtobufError::WireError(x) => write!(f, "wire error: {x}"),
            ProtobufError::Utf8 => write!(f, "not UTF-8"),
        }
    }
}
impl std::error::Error for ProtobufError {}

pub trait Message: Debug + Send + Sync + 'static {
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> ProtobufResult<()>;
    fn write_fields(&self, out: &mut Vec<u8>);
    fn new() -> Self
    where
        Self: Sized;
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut v = vec![];
        self.write_fields(&mut v);
        Ok(v)
    }
    fn compute_size(&self) -> u32 {
        let mut v = vec![];
        self.write_fields(&mut v);
        v.len() as u32
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        let mut is = CodedInputStream { data: bytes, pos: 0, depth: 0 };
        self.merge_from(&mut is)
    }
    fn parse_from_bytes(bytes: &[u8]) -> ProtobufResult<Self>
    where
        Self: Sized,
    {
        let mut m = Self::new();
        m.merge_from_bytes(bytes)?;
        Ok(m)
    }
}

pub fn parse_from_bytes<M: Message>(bytes: &[u8]) -> ProtobufResult<M> {
    M::parse_from_bytes(bytes)
}

pub struct CodedInputStream<'a> {
    data: &'a [u8],
    pos: usize,
    depth: u32,
}

impl<'a> CodedInputStream<'a> {
    pub fn eof(&self) -> bool {
        self.pos >= self.data.len()
    }
    fn take(&mut self, n: usize) -> ProtobufResult<&'a [u8]> {
        if n > self.data.len() - self.pos {
            return Err(ProtobufError::WireError("unexpected end of input"));
        }
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    pub fn varint(&mut self) -> ProtobufResult<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let b = self.take(1)?[0];
            if i < 10 {
                r |= u64::from(b & 0x7f).checked_shl(7 * i).unwrap_or(0);
            }
            if b & 0x80 == 0 {
                return Ok(r);
            }
        }
        Err(ProtobufError::WireError("incorrect varint"))
    }
    pub fn tag(&mut self) -> ProtobufResult<(u32, u32)> {
        let t = self.varint()? as u32;
        if t >> 3 == 0 || (t & 7) > 5 {
            return Err(ProtobufError::WireError("incorrect tag"));
        }
        Ok((t >> 3, t & 7))
    }
    pub fn skip(&mut self, wire: u32) -> ProtobufResult<()> {
        match wire {
            0 => {
                self.varint()?;
            }
            1 => {
                self.take(8)?;
            }
            2 => {
                let n = self.varint()? as u32 as usize;
                self.take(n)?;
            }
            5 => {
                self.take(4)?;
            }
            3 => loop {
                let (_, w) = self.tag()?;
                if w == 4 {
                    break;
                }
                self.skip(w)?;
            },
            _ => return Err(ProtobufError::WireError("unexpected end of group")),
        }
        Ok(())
    }
    pub fn expect(&self, have: u32, want: u32) -> ProtobufResult<()> {
        if have == want { Ok(()) } else { Err(ProtobufError::WireError("unexpected wire type")) }
    }
    pub fn uint32(&mut self) -> ProtobufResult<u32> {
        Ok(self.varint()? as u32)
    }
    pub fn uint64(&mut self) -> ProtobufResult<u64> {
        self.varint()
    }
    pub fn int64(&mut self) -> ProtobufResult<i64> {
        Ok(self.varint()? as i64)
    }
    pub fn int32(&mut self) -> ProtobufResult<i32> {
        Ok(self.varint()? as i32)
    }
    pub fn bool(&mut self) -> ProtobufResult<bool> {
        Ok(self.varint()? != 0)
    }
    pub fn fixed32(&mut self) -> ProtobufResult<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn fixed64(&mut self) -> ProtobufResult<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn double(&mut self) -> ProtobufResult<f64> {
        Ok(f64::from_bits(self.fixed64()?))
    }
    pub fn float(&mut self) -> ProtobufResult<f32> {
        Ok(f32::from_bits(self.fixed32()?))
    }
    pub fn bytes(&mut self) -> ProtobufResult<Vec<u8>> {
        let n = self.varint()? as u32 as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self) -> ProtobufResult<String> {
        String::from_utf8(self.bytes()?).map_err(|_| ProtobufError::Utf8)
    }
    pub fn message<M: Message>(&mut self, m: &mut M) -> ProtobufResult<()> {
        let n = self.varint()? as u32 as usize;
        if self.depth >= 100 {
            return Err(ProtobufError::WireError("over recursion limit"));
        }
        let data = self.take(n)?;
        m.merge_from(&mut CodedInputStream { data, pos: 0, depth: self.depth + 1 })
    }
}

pub mod out {
    use super::Message;
    pub fn varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push(v as u8 | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    pub fn tag(out: &mut Vec<u8>, field: u32, wire: u32) {
        varint(out, u64::from(field << 3 | wire));
    }
    pub fn message(out: &mut Vec<u8>, field: u32, m: &dyn Message) {
        let mut v = vec![];
        m.write_fields(&mut v);
        bytes(out, field, &v);
    }
    pub fn bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) {
        tag(out, field, 2);
        varint(out, b.len() as u64);
        out.extend_from_slice(b);
    }
}

/// A message field that may be absent.
#[derive(Clone, PartialEq)]
pub struct SingularPtrField<T>(Option<Box<T>>);

impl<T> SingularPtrField<T> {
    pub fn some(v: T) -> Self {
        Self(Some(Box::new(v)))
    }
    pub fn none() -> Self {
        Self(None)
    }
    pub fn from_option(o: Option<T>) -> Self {
        Self(o.map(Box::new))
    }
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn into_option(self) -> Option<T> {
        self.0.map(|x| *x)
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        self.0.as_deref_mut()
    }
    pub fn get_ref(&self) -> &T {
        self.as_ref().unwrap()
    }
    pub fn unwrap(self) -> T {
        self.into_option().unwrap()
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> SingularPtrField<U> {
        SingularPtrField::from_option(self.into_option().map(f))
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take().map(|x| *x)
    }
    pub fn clear(&mut self) {
        self.0 = None;
    }
    pub fn set_default(&mut self) -> &mut T
    where
        T: Default,
    {
        self.0 = Some(Box::default());
        self.0.as_mut().unwrap()
    }
    pub fn mut_or_default(&mut self) -> &mut T
    where
        T: Default,
    {
        self.0.get_or_insert_with(Box::default)
    }
}
impl<T> Default for SingularPtrField<T> {
    fn default() -> Self {
        Self(None)
    }
}
impl<T: Debug> Debug for SingularPtrField<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> From<Option<T>> for SingularPtrField<T> {
    fn from(o: Option<T>) -> Self {
        Self::from_option(o)
    }
}

#[derive(Clone, PartialEq)]
pub struct RepeatedField<T>(Vec<T>);
impl<T> RepeatedField<T> {
    pub fn new() -> Self {
        Self(vec![])
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self(v)
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
}
impl<T> Default for RepeatedField<T> {
    fn default() -> Self {
        Self(vec![])
    }
}
impl<T: Debug> Debug for RepeatedField<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> Deref for RepeatedField<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T> DerefMut for RepeatedField<T> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T> From<Vec<T>> for RepeatedField<T> {
    fn from(v: Vec<T>) -> Self {
        Self(v)
    }
}
impl<T> From<RepeatedField<T>> for Vec<T> {
    fn from(v: RepeatedField<T>) -> Self {
        v.0
    }
}
impl<T> IntoIterator for RepeatedField<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a RepeatedField<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T> FromIterator<T> for RepeatedField<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct UnknownFields;
