use crate::value::{Bytes, Int, Key, Text, Value};
use std::{fmt, io::Write};

#[derive(Debug)]
pub enum EncodeError {
    IoError(std::io::Error),
    UnexpectedEof,
    InvalidValue(Value),
}
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for EncodeError {}
type R = Result<(), EncodeError>;

pub struct Encoder<W>(W);
impl<W> Encoder<W> {
    pub fn into_writer(self) -> W {
        self.0
    }
}
pub struct GenericEncoder<W>(Encoder<W>);
impl<W: Write> GenericEncoder<W> {
    pub fn new(w: W) -> Self {
        Self(Encoder(w))
    }
    pub fn into_inner(self) -> Encoder<W> {
        self.0
    }
    fn put(&mut self, b: &[u8]) -> R {
        self.0.0.write_all(b).map_err(EncodeError::IoError)
    }
    fn head(&mut self, major: u8, n: u64) -> R {
        let m = major << 5;
        match n {
            0..=23 => self.put(&[m | n as u8]),
            24..=0xff => self.put(&[m | 24, n as u8]),
            0x100..=0xffff => {
                self.put(&[m | 25])?;
                self.put(&(n as u16).to_be_bytes())
            }
            0x1_0000..=0xffff_ffff => {
                self.put(&[m | 26])?;
                self.put(&(n as u32).to_be_bytes())
            }
            _ => {
                self.put(&[m | 27])?;
                self.put(&n.to_be_bytes())
            }
        }
    }
    fn int(&mut self, v: i64) -> R {
        if v < 0 { self.head(1, (-1 - v) as u64) } else { self.head(0, v as u64) }
    }
    pub fn value(&mut self, v: &Value) -> R {
        match v {
            Value::Array(a) => {
                self.head(4, a.len() as u64)?;
                a.iter().try_for_each(|x| self.value(x))
            }
            Value::Bool(b) => self.put(&[0xf4 | u8::from(*b)]),
            Value::Break => Err(EncodeError::InvalidValue(v.clone())),
            Value::Bytes(b) => self.bytes(b),
            Value::Text(t) => self.text(t),
            Value::F32(x) => {
                self.put(&[0xfa])?;
                self.put(&x.to_bits().to_be_bytes())
            }
            Value::F64(x) => {
                self.put(&[0xfb])?;
                self.put(&x.to_bits().to_be_bytes())
            }
            Value::I8(x) => self.int((*x).into()),
            Value::I16(x) => self.int((*x).into()),
            Value::I32(x) => self.int((*x).into()),
            Value::I64(x) => self.int(*x),
            Value::Int(i) => self.big(i),
            Value::U8(x) => self.head(0, (*x).into()),
            Value::U16(x) => self.head(0, (*x).into()),
            Value::U32(x) => self.head(0, (*x).into()),
            Value::U64(x) => self.head(0, *x),
            Value::Map(m) => {
                self.head(5, m.len() as u64)?;
                m.iter().try_for_each(|(k, x)| {
                    match k {
                        Key::Bool(b) => self.put(&[0xf4 | u8::from(*b)]),
                        Key::Bytes(b) => self.bytes(b),
                        Key::Text(t) => self.text(t),
                        Key::Int(i) => self.big(i),
                        Key::U8(x) => self.head(0, (*x).into()),
                        Key::U16(x) => self.head(0, (*x).into()),
                        Key::U32(x) => self.head(0, (*x).into()),
                        Key::U64(x) => self.head(0, *x),
                        Key::I8(x) => self.int((*x).into()),
                        Key::I16(x) => self.int((*x).into()),
                        Key::I32(x) => self.int((*x).into()),
                        Key::I64(x) => self.int(*x),
                    }?;
                    self.value(x)
                })
            }
            Value::Null => self.put(&[0xf6]),
            Value::Undefined => self.put(&[0xf7]),
            Value::Simple(x) => {
                if *x < 24 {
                    self.put(&[0xe0 | x])
                } else {
                    self.put(&[0xf8, *x])
                }
            }
            Value::Tagged(t, x) => {
                self.head(6, t.to())?;
                self.value(x)
            }
        }
    }
    fn big(&mut self, i: &Int) -> R {
        match i {
            Int::Neg(n) => self.head(1, *n),
            Int::Pos(n) => self.head(0, *n),
        }
    }
    fn bytes(&mut self, b: &Bytes) -> R {
        match b {
            Bytes::Bytes(b) => {
                self.head(2, b.len() as u64)?;
                self.put(b)
            }
            Bytes::Chunks(l) => {
                self.put(&[0x5f])?;
                for b in l {
                    self.head(2, b.len() as u64)?;
                    self.put(b)?;
                }
                self.put(&[0xff])
            }
        }
    }
    fn text(&mut self, b: &Text) -> R {
        match b {
            Text::Text(b) => {
                self.head(3, b.len() as u64)?;
                self.put(b.as_bytes())
            }
            Text::Chunks(l) => {
                self.put(&[0x7f])?;
                for b in l {
                    self.head(3, b.len() as u64)?;
                    self.put(b.as_bytes())?;
                }
                self.put(&[0xff])
            }
        }
    }
}
