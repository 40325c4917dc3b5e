//! Stand-in for bs58.
const CHARS: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
#[derive(Debug)]
pub struct Error;
pub struct Enc(Vec<u8>);
pub struct Dec(Vec<u8>);
pub fn encode(b: impl AsRef<[u8]>) -> Enc {
    Enc(b.as_ref().to_vec())
}
pub fn decode(b: impl AsRef<[u8]>) -> Dec {
    Dec(b.as_ref().to_vec())
}
fn convert(from: u32, to: u32, v: &[u8]) -> Vec<u8> {
    let zeros = v.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for x in &v[zeros..] {
        let mut carry = u32::from(*x);
        for d in digits.iter_mut() {
            carry += u32::from(*d) * from;
            *d = (carry % to) as u8;
            carry /= to;
        }
        while carry > 0 {
            digits.push((carry % to) as u8);
            carry /= to;
        }
    }
    digits.extend(std::iter::repeat(0).take(zeros));
    digits.reverse();
    digits
}
impl Enc {
    pub fn into_string(self) -> String {
        convert(256, 58, &self.0).into_iter().map(|d| CHARS[d as usize] as char).collect()
    }
}
impl Dec {
    pub fn into_vec(self) -> Result<Vec<u8>, Error> {
        let d: Option<Vec<u8>> = self.0.iter().map(|c| CHARS.iter().position(|x| x == c).map(|p| p as u8)).collect();
        Ok(convert(58, 256, &d.ok_or(Error)?))
    }
}
