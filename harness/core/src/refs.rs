//! Independent reference implementations the checks compare the code under test with.
//! Nothing here calls /repo, libsecp256k1, ring, aes, bech32 or the Merkle code.

use hmac12::{Hmac, Mac};
use sha2_10::{Digest, Sha256, Sha512};

pub fn sha256(b: &[u8]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(b);
    h.finalize().into()
}

pub fn hmac_sha512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut m = <Hmac<Sha512> as Mac>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().into()
}

fn hmac_sha256(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut m = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().into()
}

pub fn pbkdf2_sha256_32(password: &[u8], salt: &[u8], c: u32) -> [u8; 32] {
    let mut s = salt.to_vec();
    s.extend([0, 0, 0, 1]);
    let mut u = hmac_sha256(password, &s);
    let mut t = u;
    for _ in 1..c {
        u = hmac_sha256(password, &u);
        for i in 0..32 {
            t[i] ^= u[i];
        }
    }
    t
}

pub fn pbkdf2_sha512_64(password: &[u8], salt: &[u8], c: u32) -> [u8; 64] {
    let mut s = salt.to_vec();
    s.extend([0, 0, 0, 1]);
    let mut u = hmac_sha512(password, &s);
    let mut t = u;
    for _ in 1..c {
        u = hmac_sha512(password, &u);
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}

/// 256-bit unsigned integer, little-endian limbs.
pub type U = [u64; 4];

pub const P: U = [0xFFFFFFFEFFFFFC2F, u64::MAX, u64::MAX, u64::MAX];
pub const N: U = [0xBFD25E8CD0364141, 0xBAAEDCE6AF48A03B, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF];

pub fn from_be(b: &[u8; 32]) -> U {
    let mut r = [0; 4];
    for (i, c) in b.chunks(8).enumerate() {
        r[3 - i] = u64::from_be_bytes(c.try_into().unwrap());
    }
    r
}

pub fn to_be(u: &U) -> [u8; 32] {
    let mut r = [0; 32];
    for i in 0..4 {
        r[i * 8..i * 8 + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    r
}

pub fn lt(a: &U, b: &U) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}

pub fn is_zero(a: &U) -> bool {
    *a == [0; 4]
}

fn add_c(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    (r, c != 0)
}

fn sub_c(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut borrow = 0i128;
    for i in 0..4 {
        let mut s = a[i] as i128 - b[i] as i128 - borrow;
        borrow = 0;
        if s < 0 {
            s += 1i128 << 64;
            borrow = 1;
        }
        r[i] = s as u64;
    }
    (r, borrow != 0)
}

pub fn add_mod(a: &U, b: &U, m: &U) -> U {
    let (s, c) = add_c(a, b);
    if c || !lt(&s, m) { sub_c(&s, m).0 } else { s }
}

pub fn sub_mod(a: &U, b: &U, m: &U) -> U {
    let (s, b2) = sub_c(a, b);
    if b2 { add_c(&s, m).0 } else { s }
}

fn mul_wide(a: &U, b: &U) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = r[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
            r[i + j] = s as u64;
            c = s >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

/// a * b mod m, for m > 2^255: 2^256 = c (mod m) with c = 2^256 - m.
pub fn mul_mod(a: &U, b: &U, m: &U) -> U {
    let c = sub_c(&[0; 4], m).0;
    let mut w = mul_wide(a, b);
    loop {
        let lo: U = w[..4].try_into().unwrap();
        let hi: U = w[4..].try_into().unwrap();
        if is_zero(&hi) {
            let mut x = lo;
            while !lt(&x, m) {
                x = sub_c(&x, m).0;
            }
            return x;
        }
        w = mul_wide(&hi, &c);
        let mut carry = 0u128;
        for i in 0..8 {
            let s = w[i] as u128 + if i < 4 { lo[i] as u128 } else { 0 } + carry;
            w[i] = s as u64;
            carry = s >> 64;
        }
    }
}

pub fn pow_mod(a: &U, e: &U, m: &U) -> U {
    let mut r = [1, 0, 0, 0];
    for i in (0..256).rev() {
        r = mul_mod(&r, &r, m);
        if (e[i / 64] >> (i % 64)) & 1 == 1 {
            r = mul_mod(&r, a, m);
        }
    }
    r
}

pub fn inv_mod(a: &U, m: &U) -> U {
    pow_mod(a, &sub_c(m, &[2, 0, 0, 0]).0, m)
}

/// secp256k1 point in Jacobian coordinates; z = 0 is infinity.
#[derive(Clone, Copy)]
pub struct Pt {
    x: U,
    y: U,
    z: U,
}

pub const INF: Pt = Pt { x: [1, 0, 0, 0], y: [1, 0, 0, 0], z: [0; 4] };
pub const G: Pt = Pt {
    x: [0x59F2815B16F81798, 0x029BFCDB2DCE28D9, 0x55A06295CE870B07, 0x79BE667EF9DCBBAC],
    y: [0x9C47D08FFB10D4B8, 0xFD17B448A6855419, 0x5DA4FBFC0E1108A8, 0x483ADA7726A3C465],
    z: [1, 0, 0, 0],
};

fn m(a: &U, b: &U) -> U {
    mul_mod(a, b, &P)
}

impl Pt {
    pub fn is_inf(&self) -> bool {
        is_zero(&self.z)
    }
    pub fn double(&self) -> Pt {
        if self.is_inf() || is_zero(&self.y) {
            return INF;
        }
        let a = m(&self.x, &self.x);
        let b = m(&self.y, &self.y);
        let c = m(&b, &b);
        let xb = m(&self.x, &b);
        let d = add_mod(&xb, &xb, &P);
        let d = add_mod(&d, &d, &P);
        let e = add_mod(&add_mod(&a, &a, &P), &a, &P);
        let f = m(&e, &e);
        let x = sub_mod(&f, &add_mod(&d, &d, &P), &P);
        let c2 = add_mod(&c, &c, &P);
        let c4 = add_mod(&c2, &c2, &P);
        let c8 = add_mod(&c4, &c4, &P);
        let y = sub_mod(&m(&e, &sub_mod(&d, &x, &P)), &c8, &P);
        let yz = m(&self.y, &self.z);
        Pt { x, y, z: add_mod(&yz, &yz, &P) }
    }
    pub fn add(&self, o: &Pt) -> Pt {
        if self.is_inf() {
            return *o;
        }
        if o.is_inf() {
            return *self;
        }
        let z1 = m(&self.z, &self.z);
        let z2 = m(&o.z, &o.z);
        let u1 = m(&self.x, &z2);
        let u2 = m(&o.x, &z1);
        let s1 = m(&self.y, &m(&z2, &o.z));
        let s2 = m(&o.y, &m(&z1, &self.z));
        if u1 == u2 {
            return if s1 == s2 { self.double() } else { INF };
        }
        let h = sub_mod(&u2, &u1, &P);
        let r = sub_mod(&s2, &s1, &P);
        let h2 = m(&h, &h);
        let h3 = m(&h2, &h);
        let u1h2 = m(&u1, &h2);
        let x = sub_mod(&sub_mod(&m(&r, &r), &h3, &P), &add_mod(&u1h2, &u1h2, &P), &P);
        let y = sub_mod(&m(&r, &sub_mod(&u1h2, &x, &P)), &m(&s1, &h3), &P);
        Pt { x, y, z: m(&h, &m(&self.z, &o.z)) }
    }
    pub fn mul(&self, k: &U) -> Pt {
        let mut r = INF;
        for i in (0..256).rev() {
            r = r.double();
            if (k[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.add(self);
            }
        }
        r
    }
    pub fn affine(&self) -> Option<(U, U)> {
        if self.is_inf() {
            return None;
        }
        let zi = inv_mod(&self.z, &P);
        let zi2 = m(&zi, &zi);
        Some((m(&self.x, &zi2), m(&self.y, &m(&zi2, &zi))))
    }
    pub fn compressed(&self) -> [u8; 33] {
        let (x, y) = self.affine().expect("not infinity");
        let mut r = [0; 33];
        r[0] = 2 + (y[0] & 1) as u8;
        r[1..].copy_from_slice(&to_be(&x));
        r
    }
}

/// Is this a secret key: 0 < k < n?
pub fn valid_secret(b: &[u8; 32]) -> bool {
    let k = from_be(b);
    !is_zero(&k) && lt(&k, &N)
}

pub fn public_key(secret: &[u8; 32]) -> [u8; 33] {
    G.mul(&from_be(secret)).compressed()
}

/// Textbook ECDSA verification, with the low-s rule of libsecp256k1.
pub fn ecdsa_verify(secret_of_signer: &[u8; 32], msg: &[u8; 32], r: &[u8; 32], s: &[u8; 32]) -> bool {
    let (r, s) = (from_be(r), from_be(s));
    if is_zero(&r) || is_zero(&s) || !lt(&r, &N) || !lt(&s, &N) {
        return false;
    }
    if !low_s(&s) {
        return false;
    }
    let mut z = from_be(msg);
    if !lt(&z, &N) {
        z = sub_c(&z, &N).0;
    }
    let w = inv_mod(&s, &N);
    let q = G.mul(&from_be(secret_of_signer));
    let pt = G.mul(&mul_mod(&z, &w, &N)).add(&q.mul(&mul_mod(&r, &w, &N)));
    match pt.affine() {
        None => false,
        Some((mut x, _)) => {
            if !lt(&x, &N) {
                x = sub_c(&x, &N).0;
            }
            x == r
        }
    }
}

pub fn low_s(s: &U) -> bool {
    // s <= n - s
    !lt(&sub_c(&N, s).0, s)
}

pub fn neg_s(s: &[u8; 32]) -> [u8; 32] {
    to_be(&sub_c(&N, &from_be(s)).0)
}

/// BIP32 master key: (secret, chain code).
pub fn bip32_master(seed: &[u8], hmac_key: &[u8]) -> ([u8; 32], [u8; 32]) {
    let i = hmac_sha512(hmac_key, seed);
    (i[..32].try_into().unwrap(), i[32..].try_into().unwrap())
}

/// BIP32 CKDpriv. `None` when BIP32 calls the index invalid.
pub fn bip32_child(k: &[u8; 32], c: &[u8; 32], index: u32) -> Option<([u8; 32], [u8; 32])> {
    let mut data = vec![];
    if index >= 1 << 31 {
        data.push(0);
        data.extend(k);
    } else {
        data.extend(public_key(k));
    }
    data.extend(index.to_be_bytes());
    let i = hmac_sha512(c, &data);
    let il = from_be(i[..32].try_into().unwrap());
    if !lt(&il, &N) {
        return None;
    }
    let child = add_mod(&il, &from_be(k), &N);
    if is_zero(&child) {
        return None;
    }
    Some((to_be(&child), i[32..].try_into().unwrap()))
}

const BECH: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn bech_polymod(v: &[u8]) -> u32 {
    let gen_ = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut chk = 1u32;
    for x in v {
        let top = chk >> 25;
        chk = (chk & 0x1ffffff) << 5 ^ *x as u32;
        for (i, g) in gen_.iter().enumerate() {
            if (top >> i) & 1 == 1 {
                chk ^= g;
            }
        }
    }
    chk
}

/// BIP173 encoding of bytes, without a length limit.
pub fn bech32(hrp: &str, bytes: &[u8]) -> String {
    let mut five = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in bytes {
        acc = (acc << 8 | *b as u32) & 0xffff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            five.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        five.push((acc << (5 - bits) & 31) as u8);
    }
    let mut v: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(hrp.bytes().map(|b| b & 31));
    v.extend(&five);
    v.extend([0; 6]);
    let c = bech_polymod(&v) ^ 1;
    let mut s = format!("{hrp}1");
    for x in five {
        s.push(BECH[x as usize] as char);
    }
    for i in 0..6 {
        s.push(BECH[(c >> (5 * (5 - i)) & 31) as usize] as char);
    }
    s
}

/// Root of the Merkle tree in which a lone last node is promoted to the next layer.
pub fn merkle_layers(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
    let mut layers = vec![];
    if leaves.is_empty() {
        return layers;
    }
    let mut cur = leaves.to_vec();
    loop {
        layers.push(cur.clone());
        if cur.len() == 1 {
            return layers;
        }
        let mut next = vec![];
        let mut i = 0;
        while i < cur.len() {
            if i + 1 < cur.len() {
                next.push(sha256(&[cur[i], cur[i + 1]].concat()));
            } else {
                next.push(cur[i]);
            }
            i += 2;
        }
        cur = next;
    }
}

pub fn merkle_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    match merkle_layers(leaves).last() {
        None => sha256(b""),
        Some(l) => l[0],
    }
}

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

/// AES-256, straight from FIPS-197.
pub struct Aes {
    keys: Vec<[u8; 16]>,
    sbox: [u8; 256],
    inv: [u8; 256],
}

impl Aes {
    pub fn new(key: &[u8; 32]) -> Self {
        let (mut sbox, mut inv) = ([0u8; 256], [0u8; 256]);
        for x in 0..=255u8 {
            // x^254
            let mut r = 1u8;
            for _ in 0..254 {
                r = gmul(r, x);
            }
            let mut s = 0x63;
            for i in 0..5 {
                s ^= r.rotate_left(i);
            }
            sbox[x as usize] = s;
            inv[s as usize] = x;
        }
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t.rotate_left(1);
                t = t.map(|b| sbox[b as usize]);
                t[0] ^= rcon;
                rcon = xtime(rcon);
            } else if i % 8 == 4 {
                t = t.map(|b| sbox[b as usize]);
            }
            let p = w[i - 8];
            w.push([p[0] ^ t[0], p[1] ^ t[1], p[2] ^ t[2], p[3] ^ t[3]]);
        }
        let keys = w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect();
        Aes { keys, sbox, inv }
    }
    fn ark(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.keys[r][i];
        }
    }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        self.ark(&mut s, 0);
        for r in 1..=14 {
            s = s.map(|x| self.sbox[x as usize]);
            let t = s;
            for c in 0..4 {
                for i in 0..4 {
                    s[c * 4 + i] = t[(c + i) % 4 * 4 + i];
                }
            }
            if r != 14 {
                for c in 0..4 {
                    let a: [u8; 4] = s[c * 4..c * 4 + 4].try_into().unwrap();
                    for i in 0..4 {
                        s[c * 4 + i] = gmul(a[i], 2) ^ gmul(a[(i + 1) % 4], 3) ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            self.ark(&mut s, r);
        }
        s
    }
    pub fn decrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        for r in (1..=14).rev() {
            self.ark(&mut s, r);
            if r != 14 {
                for c in 0..4 {
                    let a: [u8; 4] = s[c * 4..c * 4 + 4].try_into().unwrap();
                    for i in 0..4 {
                        s[c * 4 + i] =
                            gmul(a[i], 14) ^ gmul(a[(i + 1) % 4], 11) ^ gmul(a[(i + 2) % 4], 13) ^ gmul(a[(i + 3) % 4], 9);
                    }
                }
            }
            let t = s;
            for c in 0..4 {
                for i in 0..4 {
                    s[(c + i) % 4 * 4 + i] = t[c * 4 + i];
                }
            }
            s = s.map(|x| self.inv[x as usize]);
        }
        self.ark(&mut s, 0);
        s
    }
    pub fn cbc_encrypt(&self, iv: &[u8; 16], plain: &[u8]) -> Vec<u8> {
        let pad = 16 - plain.len() % 16;
        let mut p = plain.to_vec();
        p.extend(std::iter::repeat_n(pad as u8, pad));
        let mut prev = *iv;
        let mut out = vec![];
        for c in p.chunks(16) {
            let mut b: [u8; 16] = c.try_into().unwrap();
            for i in 0..16 {
                b[i] ^= prev[i];
            }
            prev = self.encrypt(&b);
            out.extend(prev);
        }
        out
    }
    /// `None`: not a whole number of blocks, or bad PKCS#7 padding.
    pub fn cbc_decrypt(&self, iv: &[u8; 16], ct: &[u8]) -> Option<Vec<u8>> {
        if ct.is_empty() || ct.len() % 16 != 0 {
            return None;
        }
        let mut prev = *iv;
        let mut out = vec![];
        for c in ct.chunks(16) {
            let b: [u8; 16] = c.try_into().unwrap();
            let mut p = self.decrypt(&b);
            for i in 0..16 {
                p[i] ^= prev[i];
            }
            prev = b;
            out.extend(p);
        }
        let n = *out.last().unwrap() as usize;
        if n == 0 || n > 16 || out[out.len() - n..].iter().any(|b| *b as usize != n) {
            return None;
        }
        out.truncate(out.len() - n);
        Some(out)
    }
}

/// Published vectors that pin the references themselves.
pub fn self_test() {
    let a = Aes::new(&std::array::from_fn(|i| i as u8));
    let pt: [u8; 16] = std::array::from_fn(|i| (i * 0x11) as u8);
    let ct = a.encrypt(&pt);
    assert_eq!(ct[..4], [0x8e, 0xa2, 0xb7, 0xca]);
    assert_eq!(a.decrypt(&ct), pt);
    let mut one = [0; 32];
    one[31] = 1;
    assert_eq!(public_key(&one)[..5], [0x02, 0x79, 0xbe, 0x66, 0x7e]);
    let mut two = one;
    two[31] = 2;
    assert_eq!(public_key(&two)[..5], [0x02, 0xc6, 0x04, 0x7f, 0x94]);
    // n - 1 is -G
    let mut nm1 = to_be(&N);
    nm1[31] -= 1;
    assert_eq!(public_key(&nm1)[0], 3);
    assert!(G.mul(&N).is_inf());
    // BIP32 test vector 1
    let seed: Vec<u8> = (0..16).collect();
    let (k, c) = bip32_master(&seed, b"Bitcoin seed");
    assert_eq!(k[..4], [0xe8, 0xf3, 0x2e, 0x72]);
    let (k, c) = bip32_child(&k, &c, 1 << 31).unwrap();
    assert_eq!(k[..4], [0xed, 0xb2, 0xe1, 0x4f]);
    let (k, _) = bip32_child(&k, &c, 1).unwrap();
    assert_eq!(k[..4], [0x3c, 0x6c, 0xb8, 0xd0]);
    // BIP173
    assert_eq!(bech32("a", &[]), "a12uel5l");
}
