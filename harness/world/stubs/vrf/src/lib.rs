//! Stand-in for the vrf crate: ECVRF-SECP256K1-SHA256-TAI on top of the secp256k1 crate.
use std::fmt;

pub trait VRF<PublicKey, SecretKey> {
    type Error;
    fn prove(&mut self, x: SecretKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}

#[derive(Debug)]
pub enum Error {
    InvalidProof,
    InvalidKey,
    HashToPoint,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "vrf error: {self:?}")
    }
}
impl std::error::Error for Error {}

pub mod openssl {
    use super::{Error, VRF};
    use hmac::{Hmac, Mac};
    use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
    use sha2::{Digest, Sha256};

    #[allow(non_camel_case_types)]
    pub enum CipherSuite {
        SECP256K1_SHA256_TAI,
    }
    pub struct ECVRF {
        s: Secp256k1<secp256k1::All>,
    }
    impl std::fmt::Debug for ECVRF {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("ECVRF")
        }
    }
    const SUITE: u8 = 0xfe;

    fn hm(k: &[u8], parts: &[&[u8]]) -> [u8; 32] {
        let mut h = Hmac::<Sha256>::new_from_slice(k).unwrap();
        parts.iter().for_each(|p| h.update(p));
        h.finalize().into_bytes().into()
    }
    /// RFC 6979
    fn nonce(x: &[u8; 32], data: &[u8]) -> SecretKey {
        let h1: [u8; 32] = Sha256::digest(data).into();
        // bits2octets: h1 mod n
        let h1 = match SecretKey::from_slice(&h1) {
            Ok(_) => h1,
            Err(_) => [0; 32], // happens with probability 2^-128
        };
        let (mut k, mut v) = ([0u8; 32], [1u8; 32]);
        k = hm(&k, &[&v, &[0], x, &h1]);
        v = hm(&k, &[&v]);
        k = hm(&k, &[&v, &[1], x, &h1]);
        v = hm(&k, &[&v]);
        loop {
            v = hm(&k, &[&v]);
            if let Ok(r) = SecretKey::from_slice(&v) {
                return r;
            }
            k = hm(&k, &[&v, &[0]]);
            v = hm(&k, &[&v]);
        }
    }
    fn scalar16(c: &[u8]) -> Scalar {
        let mut b = [0; 32];
        b[16..].copy_from_slice(c);
        Scalar::from_be_bytes(b).unwrap()
    }

    impl ECVRF {
        pub fn from_suite(_: CipherSuite) -> Result<Self, Error> {
            Ok(Self { s: Secp256k1::new() })
        }
        fn key(x: &[u8]) -> Result<SecretKey, Error> {
            if x.len() > 32 {
                return Err(Error::InvalidKey);
            }
            let mut b = [0; 32];
            b[32 - x.len()..].copy_from_slice(x);
            SecretKey::from_slice(&b).map_err(|_| Error::InvalidKey)
        }
        pub fn derive_public_key(&mut self, x: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(Self::key(x)?.public_key(&self.s).serialize().to_vec())
        }
        fn point(&self, pk: &PublicKey, alpha: &[u8]) -> Result<PublicKey, Error> {
            for ctr in 0..=255u8 {
                let mut h = Sha256::new();
                h.update([SUITE, 1]);
                h.update(pk.serialize());
                h.update(alpha);
                h.update([ctr]);
                let mut b = [2; 33];
                b[1..].copy_from_slice(&h.finalize());
                if let Ok(p) = PublicKey::from_slice(&b) {
                    return Ok(p);
                }
            }
            Err(Error::HashToPoint)
        }
        fn challenge(ps: [&PublicKey; 4]) -> [u8; 16] {
            let mut h = Sha256::new();
            h.update([SUITE, 2]);
            ps.iter().for_each(|p| h.update(p.serialize()));
            h.finalize()[..16].try_into().unwrap()
        }
        fn decode(pi: &[u8]) -> Result<(PublicKey, Scalar, SecretKey), Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidProof);
            }
            Ok((
                PublicKey::from_slice(&pi[..33]).map_err(|_| Error::InvalidProof)?,
                scalar16(&pi[33..49]),
                SecretKey::from_slice(&pi[49..]).map_err(|_| Error::InvalidProof)?,
            ))
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            let (gamma, _, _) = Self::decode(pi)?;
            let mut h = Sha256::new();
            h.update([SUITE, 3]);
            h.update(gamma.serialize());
            Ok(h.finalize().to_vec())
        }
    }
    impl VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, x: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let x = Self::key(x)?;
            let pk = x.public_key(&self.s);
            let h = self.point(&pk, alpha)?;
            let mul = |p: &PublicKey, k: &SecretKey| p.mul_tweak(&self.s, &(*k).into()).map_err(|_| Error::InvalidKey);
            let gamma = mul(&h, &x)?;
            let k = nonce(&x.secret_bytes(), &h.serialize());
            let c = Self::challenge([&h, &gamma, &k.public_key(&self.s), &mul(&h, &k)?]);
            let s = x.mul_tweak(&scalar16(&c)).and_then(|v| k.add_tweak(&v.into())).map_err(|_| Error::InvalidKey)?;
            let mut r = gamma.serialize().to_vec();
            r.extend(c);
            r.extend(s.secret_bytes());
            Ok(r)
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let y = PublicKey::from_slice(y).map_err(|_| Error::InvalidKey)?;
            let (gamma, c, s) = Self::decode(pi)?;
            let h = self.point(&y, alpha)?;
            let bad = |_| Error::InvalidProof;
            // U = s*B - c*Y, V = s*H - c*Gamma
            let cy = y.mul_tweak(&self.s, &c).map_err(bad)?.negate(&self.s);
            let u = s.public_key(&self.s).combine(&cy).map_err(bad)?;
            let cg = gamma.mul_tweak(&self.s, &c).map_err(bad)?.negate(&self.s);
            let v = h.mul_tweak(&self.s, &s.into()).and_then(|x| x.combine(&cg)).map_err(bad)?;
            if Self::challenge([&h, &gamma, &u, &v])[..] != pi[33..49] {
                return Err(Error::InvalidProof);
            }
            self.proof_to_hash(pi)
        }
    }
}
