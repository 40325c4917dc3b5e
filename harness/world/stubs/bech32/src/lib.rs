//! Stand-in for bech32 0.11: `Hrp`, `encode::<Bech32>` and `decode` (which takes Bech32 and Bech32m, as the real one does).
use std::fmt;

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
pub trait Checksum {
    const TARGET: u32;
    const MAX: usize;
}
pub enum Bech32 {}
pub enum Bech32m {}
impl Checksum for Bech32 {
    const TARGET: u32 = 1;
    const MAX: usize = 1023;
}
impl Checksum for Bech32m {
    const TARGET: u32 = 0x2bc8_30a3;
    const MAX: usize = 1023;
}
#[derive(Clone, Debug)]
pub struct Hrp(String);
/// Without regard to case, as in the original.
impl PartialEq for Hrp {
    fn eq(&self, o: &Hrp) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for Hrp {}
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Hrp {
        Hrp(s.to_string())
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn to_lowercase(&self) -> String {
        self.0.to_lowercase()
    }
}
impl fmt::Display for Hrp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(&'static str);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DecodeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError;
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("too long")
    }
}
impl std::error::Error for EncodeError {}

fn polymod(v: impl Iterator<Item = u8>) -> u32 {
    v.fold(1, |c: u32, x| {
        let top = c >> 25;
        let mut c = (c & 0x1ff_ffff) << 5 ^ u32::from(x);
        for (i, g) in [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3].iter().enumerate() {
            if top >> i & 1 == 1 {
                c ^= g;
            }
        }
        c
    })
}
fn expand(h: &str) -> impl Iterator<Item = u8> + '_ {
    let l = |c: u8| c.to_ascii_lowercase();
    h.bytes().map(move |c| l(c) >> 5).chain([0]).chain(h.bytes().map(move |c| l(c) & 31))
}
pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    let (mut acc, mut bits, mut five) = (0u32, 0, vec![]);
    for b in data {
        acc = (acc << 8 | u32::from(*b)) & 0xfff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            five.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        five.push((acc << (5 - bits) & 31) as u8);
    }
    let sum = polymod(expand(&hrp.0).chain(five.iter().copied()).chain([0; 6])) ^ C::TARGET;
    let mut s = hrp.0.to_lowercase();
    s.push('1');
    five.extend((0..6).map(|i| (sum >> (5 * (5 - i)) & 31) as u8));
    s.extend(five.iter().map(|x| CHARS[*x as usize] as char));
    if s.len() > C::MAX { Err(EncodeError) } else { Ok(s) }
}
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    let e = |m| Err(DecodeError(m));
    if s.bytes().any(|c| !(33..=126).contains(&c)) {
        return e("invalid character");
    }
    if s.bytes().any(|c| c.is_ascii_lowercase()) && s.bytes().any(|c| c.is_ascii_uppercase()) {
        return e("mixed case");
    }
    let Some(i) = s.rfind('1') else { return e("missing separator") };
    if i == 0 || i > 83 || s.len() > 1023 {
        return e("invalid length");
    }
    let mut five = vec![];
    for c in s[i + 1..].bytes() {
        match CHARS.iter().position(|x| *x == c.to_ascii_lowercase()) {
            Some(p) => five.push(p as u8),
            None => return e("invalid data character"),
        }
    }
    if five.len() < 6 {
        return e("too short");
    }
    let sum = polymod(expand(&s[..i]).chain(five.iter().copied()));
    if sum != Bech32::TARGET && sum != Bech32m::TARGET {
        return e("invalid checksum");
    }
    five.truncate(five.len() - 6);
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for b in five {
        acc = (acc << 5 | u32::from(b)) & 0xfff;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    if bits > 4 || acc & ((1 << bits) - 1) != 0 {
        return e("invalid padding");
    }
    Ok((Hrp(s[..i].to_string()), out))
}
