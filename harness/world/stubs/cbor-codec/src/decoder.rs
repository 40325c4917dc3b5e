use crate::{
    Config,
    types::Tag,
    value::{Bytes, Int, Key, Text, Value},
};
use std::{collections::BTreeMap, collections::LinkedList, fmt, io::Read};

#[derive(Debug)]
pub enum DecodeError {
    DuplicateKey(Box<Value>),
    Eof,
    IntOverflow(u64),
    InvalidKey(Box<Value>),
    InvalidUtf8,
    IoError(std::io::Error),
    TooLong { max: usize, actual: u64 },
    TooNested,
    UnexpectedBreak,
    UnexpectedType(u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DecodeError {}
type R<T> = Result<T, DecodeError>;

pub struct GenericDecoder<T> {
    c: Config,
    r: T,
}
impl<T: Read> GenericDecoder<T> {
    pub fn new(c: Config, r: T) -> Self {
        Self { c, r }
    }
    fn take(&mut self, n: usize) -> R<Vec<u8>> {
        let mut v = vec![];
        (&mut self.r).take(n as u64).read_to_end(&mut v).map_err(DecodeError::IoError)?;
        if v.len() < n { Err(DecodeError::Eof) } else { Ok(v) }
    }
    fn arg(&mut self, info: u8) -> R<u64> {
        Ok(match info {
            0..=23 => u64::from(info),
            24 => u64::from(self.take(1)?[0]),
            25 => u64::from(u16::from_be_bytes(self.take(2)?.try_into().unwrap())),
            26 => u64::from(u32::from_be_bytes(self.take(4)?.try_into().unwrap())),
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            x => return Err(DecodeError::UnexpectedType(x)),
        })
    }
    fn len(&mut self, info: u8, max: usize) -> R<usize> {
        let n = self.arg(info)?;
        if n > max as u64 {
            return Err(DecodeError::TooLong { max, actual: n });
        }
        Ok(n as usize)
    }
    pub fn value(&mut self) -> R<Value> {
        self.dec(self.c.max_nesting)
    }
    fn chunks(&mut self, major: u8, max: usize) -> R<LinkedList<Vec<u8>>> {
        let (mut l, mut total) = (LinkedList::new(), 0);
        loop {
            let h = self.take(1)?[0];
            if h == 0xff {
                return Ok(l);
            }
            if h >> 5 != major {
                return Err(DecodeError::UnexpectedType(h));
            }
            let n = self.len(h & 31, max - total)?;
            total += n;
            let v = self.take(n)?;
            l.push_back(v);
        }
    }
    fn dec(&mut self, level: usize) -> R<Value> {
        if level == 0 {
            return Err(DecodeError::TooNested);
        }
        let h = self.take(1)?[0];
        let (major, info) = (h >> 5, h & 31);
        let utf8 = |v| String::from_utf8(v).map_err(|_| DecodeError::InvalidUtf8);
        Ok(match major {
            0 => {
                let n = self.arg(info)?;
                match info {
                    0..=24 => Value::U8(n as u8),
                    25 => Value::U16(n as u16),
                    26 => Value::U32(n as u32),
                    _ => Value::U64(n),
                }
            }
            1 => {
                let n = self.arg(info)?;
                let v = -1 - i128::from(n);
                if let Ok(x) = i8::try_from(v) {
                    Value::I8(x)
                } else if let Ok(x) = i16::try_from(v) {
                    Value::I16(x)
                } else if let Ok(x) = i32::try_from(v) {
                    Value::I32(x)
                } else if let Ok(x) = i64::try_from(v) {
                    Value::I64(x)
                } else {
                    Value::Int(Int::Neg(n))
                }
            }
            2 if info == 31 => Value::Bytes(Bytes::Chunks(self.chunks(2, self.c.max_len_bytes)?)),
            2 => {
                let n = self.len(info, self.c.max_len_bytes)?;
                Value::Bytes(Bytes::Bytes(self.take(n)?))
            }
            3 if info == 31 => Value::Text(Text::Chunks(
                self.chunks(3, self.c.max_len_text)?.into_iter().map(utf8).collect::<R<_>>()?,
            )),
            3 => {
                let n = self.len(info, self.c.max_len_text)?;
                Value::Text(Text::Text(utf8(self.take(n)?)?))
            }
            4 => {
                let n = if info == 31 { None } else { Some(self.len(info, self.c.max_len_array)?) };
                let mut v = vec![];
                while n != Some(v.len()) {
                    match (self.dec(level - 1)?, n) {
                        (Value::Break, None) => break,
                        (Value::Break, _) => return Err(DecodeError::UnexpectedBreak),
                        (x, _) => v.push(x),
                    }
                    if v.len() > self.c.max_len_array {
                        return Err(DecodeError::TooLong { max: self.c.max_len_array, actual: v.len() as u64 });
                    }
                }
                Value::Array(v)
            }
            5 => {
                let n = if info == 31 { None } else { Some(self.len(info, self.c.max_len_object)?) };
                let mut m = BTreeMap::new();
                while n != Some(m.len()) {
                    let k = match self.dec(level - 1)? {
                        Value::Break if n.is_none() => break,
                        Value::Bool(x) => Key::Bool(x),
                        Value::Bytes(x) => Key::Bytes(x),
                        Value::Text(x) => Key::Text(x),
                        Value::Int(x) => Key::Int(x),
                        Value::U8(x) => Key::U8(x),
                        Value::U16(x) => Key::U16(x),
                        Value::U32(x) => Key::U32(x),
                        Value::U64(x) => Key::U64(x),
                        Value::I8(x) => Key::I8(x),
                        Value::I16(x) => Key::I16(x),
                        Value::I32(x) => Key::I32(x),
                        Value::I64(x) => Key::I64(x),
                        k => return Err(DecodeError::InvalidKey(Box::new(k))),
                    };
                    if m.contains_key(&k) {
                        return Err(DecodeError::DuplicateKey(Box::new(Value::Null)));
                    }
                    match self.dec(level - 1)? {
                        Value::Break => return Err(DecodeError::UnexpectedBreak),
                        x => m.insert(k, x),
                    };
                    if m.len() > self.c.max_len_object {
                        return Err(DecodeError::TooLong { max: self.c.max_len_object, actual: m.len() as u64 });
                    }
                }
                Value::Map(m)
            }
            6 => {
                let t = self.arg(info)?;
                let v = self.dec(level - 1)?;
                if self.c.skip_tags { v } else { Value::Tagged(Tag::of(t), Box::new(v)) }
            }
            _ => match info {
                20 => Value::Bool(false),
                21 => Value::Bool(true),
                22 => Value::Null,
                23 => Value::Undefined,
                25 => Value::F32(half::f16::from_bits(self.arg(25)? as u16).to_f32()),
                26 => Value::F32(f32::from_bits(self.arg(26)? as u32)),
                27 => Value::F64(f64::from_bits(self.arg(27)?)),
                31 => Value::Break,
                28..=30 => return Err(DecodeError::UnexpectedType(h)),
                _ => Value::Simple(self.arg(info)? as u8),
            },
        })
    }
}
