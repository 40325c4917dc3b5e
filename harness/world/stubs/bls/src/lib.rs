//! Stand-in for witnet-bls-signatures: a linear toy scheme with the same interface and the same sizes. It has no security,
//! but it accepts what was signed, rejects what was not, and aggregates.
use sha2::{Digest, Sha256};
use std::fmt;

const P: u128 = (1 << 61) - 1;

#[derive(Debug)]
pub struct Error;
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bn256 error")
    }
}
impl std::error::Error for Error {}

pub trait MultiSignature<PublicKey, SecretKey, Signature> {
    type Error;
    fn derive_public_key(&mut self, secret_key: SecretKey) -> Result<Vec<u8>, Self::Error>;
    fn sign(&mut self, secret_key: SecretKey, message: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, signature: Signature, message: &[u8], public_key: PublicKey) -> Result<(), Self::Error>;
    fn aggregate_public_keys(&mut self, public_keys: &[PublicKey]) -> Result<Vec<u8>, Self::Error>;
    fn aggregate_signatures(&mut self, signatures: &[Signature]) -> Result<Vec<u8>, Self::Error>;
}

fn num(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, x| (a * 256 + u128::from(*x)) % P)
}
fn hash(m: &[u8]) -> u128 {
    num(&Sha256::digest(m)).max(1)
}
fn enc(lead: u8, len: usize, v: u128) -> Vec<u8> {
    let mut r = vec![0; len];
    r[0] = lead;
    r[len - 16..].copy_from_slice(&v.to_be_bytes());
    r
}
fn dec(leads: &[u8], len: usize, b: &[u8]) -> Result<u128, Error> {
    if b.len() != len || !leads.contains(&b[0]) || b[1..len - 16].iter().any(|x| *x != 0) {
        return Err(Error);
    }
    let v = u128::from_be_bytes(b[len - 16..].try_into().unwrap());
    if v == 0 || v >= P { Err(Error) } else { Ok(v) }
}

pub mod bn256 {
    use super::*;
    #[derive(Debug)]
    pub struct Bn256;
    pub struct PublicKey(u128);
    impl PublicKey {
        pub fn from_compressed(b: impl AsRef<[u8]>) -> Result<Self, Error> {
            dec(&[10, 11], 65, b.as_ref()).map(PublicKey)
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            Ok(enc(0, 128, self.0))
        }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> {
            Ok(enc(10, 65, self.0))
        }
    }
    pub struct PrivateKey(u128);
    impl PrivateKey {
        pub fn new(b: impl AsRef<[u8]>) -> Result<Self, Error> {
            let b = b.as_ref();
            let v = num(b);
            if b.len() > 32 || v == 0 { Err(Error) } else { Ok(PrivateKey(v)) }
        }
    }
    impl MultiSignature<&[u8], &[u8], &[u8]> for Bn256 {
        type Error = Error;
        fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(enc(10, 65, PrivateKey::new(sk)?.0))
        }
        fn sign(&mut self, sk: &[u8], m: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(enc(2, 33, PrivateKey::new(sk)?.0 * hash(m) % P))
        }
        fn verify(&mut self, s: &[u8], m: &[u8], pk: &[u8]) -> Result<(), Error> {
            let (s, pk) = (dec(&[2, 3], 33, s)?, dec(&[10, 11], 65, pk)?);
            if pk * hash(m) % P == s { Ok(()) } else { Err(Error) }
        }
        fn aggregate_public_keys(&mut self, v: &[&[u8]]) -> Result<Vec<u8>, Error> {
            let mut t = 0;
            for x in v {
                t = (t + dec(&[10, 11], 65, x)?) % P;
            }
            Ok(enc(10, 65, t))
        }
        fn aggregate_signatures(&mut self, v: &[&[u8]]) -> Result<Vec<u8>, Error> {
            let mut t = 0;
            for x in v {
                t = (t + dec(&[2, 3], 33, x)?) % P;
            }
            Ok(enc(2, 33, t))
        }
    }
}
