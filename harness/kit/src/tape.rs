//! Choice tapes: an input that is a string of bytes, read by a generator of structured values.
//!
//! proptest draws and shrinks the bytes (towards fewer and smaller ones); a generator turns them into
//! a value, choosing the plainest alternative when it reads zeros or the end of the tape.

use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Bytes(pub Vec<u8>);

impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&hex(&self.0))
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex(&self.0))
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom))
            .collect::<Result<_, _>>()
            .map(Bytes)
    }
}
impl Bytes {
    pub fn tape(&self) -> Tape<'_> {
        Tape { data: &self.0, pos: 0 }
    }
}

/// Tapes of up to `max` bytes; half of them a good deal shorter.
pub fn tapes(max: usize) -> impl Strategy<Value = Bytes> {
    prop_oneof![
        proptest::collection::vec(any::<u8>(), 0..=max / 8),
        proptest::collection::vec(any::<u8>(), max / 8..=max),
    ]
    .prop_map(Bytes)
}

/// Tapes that are long nearly always.
pub fn long_tapes(max: usize) -> impl Strategy<Value = Bytes> {
    prop_oneof![
        1 => proptest::collection::vec(any::<u8>(), 0..=max / 4),
        11 => proptest::collection::vec(any::<u8>(), max * 3 / 4..=max),
    ]
    .prop_map(Bytes)
}

#[derive(Clone, Debug)]
pub struct Tape<'a> {
    data: &'a [u8],
    pos: usize,
}

impl Tape<'_> {
    pub fn left(&self) -> usize {
        self.data.len() - self.pos
    }
    pub fn u8(&mut self) -> u8 {
        let b = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos = (self.pos + 1).min(self.data.len());
        b
    }
    pub fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// True with probability p/256.
    pub fn odds(&mut self, p: u16) -> bool {
        u16::from(self.u8()) >= 256 - p
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            usize::from(self.u8()) % n
        } else {
            (self.raw(8) % n as u64) as usize
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        let span = hi - lo;
        if span < 256 {
            lo + u64::from(self.u8()) % (span + 1)
        } else if span == u64::MAX {
            self.raw(8)
        } else {
            lo + self.raw(8) % (span + 1)
        }
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    fn raw(&mut self, n: usize) -> u64 {
        (0..n).fold(0, |acc, _| (acc << 8) | u64::from(self.u8()))
    }
    /// Numbers of every magnitude, with the ends of the range.
    pub fn u64(&mut self) -> u64 {
        match self.u8() % 10 {
            0 | 1 => u64::from(self.u8()) % 4,
            2 | 3 => u64::from(self.u8()),
            4 => self.raw(2),
            5 => self.raw(4),
            6 => self.raw(8) >> (self.u8() % 64),
            7 => self.raw(8),
            8 => (1u64 << (self.u8() % 64)).wrapping_sub(u64::from(self.u8() % 2)),
            _ => u64::MAX - u64::from(self.u8()) % 3,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.u8() % 8 {
            0 | 1 => u32::from(self.u8()) % 4,
            2 => u32::from(self.u8()),
            3 => self.raw(2) as u32,
            4 => self.raw(4) as u32,
            5 => (self.raw(4) as u32) >> (self.u8() % 32),
            6 => (1u32 << (self.u8() % 32)).wrapping_sub(u32::from(self.u8() % 2)),
            _ => u32::MAX - u32::from(self.u8()) % 3,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.u8() % 4 {
            0 => u16::from(self.u8()) % 4,
            1 => u16::from(self.u8()),
            2 => self.raw(2) as u16,
            _ => u16::MAX - u16::from(self.u8()) % 3,
        }
    }
    pub fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    /// An array of bytes: all equal, or all drawn.
    pub fn array<const N: usize>(&mut self) -> [u8; N] {
        match self.u8() % 4 {
            0 => [self.u8() % 4; N],
            1 => {
                let mut a = [0; N];
                let i = self.below(N);
                a[i] = self.u8();
                a
            }
            _ => std::array::from_fn(|_| self.u8()),
        }
    }
    /// A length: mostly small, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let n = match self.u8() % 8 {
            0..=2 => 0,
            3 => 1,
            4 => 2,
            5 | 6 => self.below(6),
            _ => self.below(max + 1),
        };
        n.min(max)
    }
    pub fn vec<T>(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let n = self.len(max);
        (0..n).map(|_| f(self)).collect()
    }
    pub fn option<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
        if self.bool() { Some(f(self)) } else { None }
    }
    /// A string: ASCII mostly, some of it from other planes.
    pub fn string(&mut self, max: usize) -> String {
        let n = self.len(max);
        (0..n)
            .map(|_| match self.u8() {
                b @ 0..=200 => char::from(b' ' + b % 95),
                201..=220 => *self.pick(&['\0', '\n', '"', '\\', '/', '\u{7f}', '\u{80}']),
                221..=240 => char::from_u32(self.raw(2) as u32).unwrap_or('é'),
                _ => char::from_u32(0x10000 + (self.raw(2) as u32)).unwrap_or('😀'),
            })
            .collect()
    }
}
