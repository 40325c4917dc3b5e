use crate::{Error, Result, Value};
use std::collections::BTreeMap;

pub(crate) struct Parser<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
impl Parser<'_> {
    fn take(&mut self, n: u64) -> Result<&[u8]> {
        let left = (self.b.len() - self.i) as u64;
        if n > left {
            return Err(Error::new("EOF while parsing a value", self.i));
        }
        let r = &self.b[self.i..self.i + n as usize];
        self.i += n as usize;
        Ok(r)
    }
    fn arg(&mut self, info: u8) -> Result<u64> {
        Ok(match info {
            0..=23 => u64::from(info),
            24 => u64::from(self.take(1)?[0]),
            25 => u64::from(u16::from_be_bytes(self.take(2)?.try_into().unwrap())),
            26 => u64::from(u32::from_be_bytes(self.take(4)?.try_into().unwrap())),
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err(Error::new("unassigned type", self.i)),
        })
    }
    fn at_break(&mut self) -> Result<bool> {
        if self.take(1)?[0] == 0xff {
            return Ok(true);
        }
        self.i -= 1;
        Ok(false)
    }
    pub fn value(&mut self, depth: usize) -> Result<Value> {
        if depth > 127 {
            return Err(Error::new("recursion limit exceeded", self.i));
        }
        let h = self.take(1)?[0];
        let (major, info) = (h >> 5, h & 31);
        Ok(match major {
            0 => Value::Integer(i128::from(self.arg(info)?)),
            1 => Value::Integer(-1 - i128::from(self.arg(info)?)),
            2 | 3 => {
                let mut v = vec![];
                if info == 31 {
                    while !self.at_break()? {
                        let h = self.take(1)?[0];
                        if h >> 5 != major || h & 31 == 31 {
                            return Err(Error::new("unexpected code", self.i));
                        }
                        let n = self.arg(h & 31)?;
                        v.extend_from_slice(self.take(n)?);
                    }
                } else {
                    let n = self.arg(info)?;
                    v.extend_from_slice(self.take(n)?);
                }
                if major == 2 {
                    Value::Bytes(v)
                } else {
                    Value::Text(String::from_utf8(v).map_err(|_| Error::new("invalid UTF-8", self.i))?)
                }
            }
            4 => {
                let mut v = vec![];
                if info == 31 {
                    while !self.at_break()? {
                        v.push(self.value(depth + 1)?);
                    }
                } else {
                    for _ in 0..self.arg(info)? {
                        v.push(self.value(depth + 1)?);
                    }
                }
                Value::Array(v)
            }
            5 => {
                let mut v = BTreeMap::new();
                if info == 31 {
                    while !self.at_break()? {
                        let k = self.value(depth + 1)?;
                        v.insert(k, self.value(depth + 1)?);
                    }
                } else {
                    for _ in 0..self.arg(info)? {
                        let k = self.value(depth + 1)?;
                        v.insert(k, self.value(depth + 1)?);
                    }
                }
                Value::Map(v)
            }
            // Tags are ignored
            6 => {
                self.arg(info)?;
                self.value(depth + 1)?
            }
            _ => match info {
                20 => Value::Bool(false),
                21 => Value::Bool(true),
                22 | 23 => Value::Null,
                25 => Value::Float(half::f16::from_bits(self.arg(25)? as u16).to_f64()),
                26 => Value::Float(f64::from(f32::from_bits(self.arg(26)? as u32))),
                27 => Value::Float(f64::from_bits(self.arg(27)?)),
                _ => return Err(Error::new("unassigned type", self.i)),
            },
        })
    }
}
