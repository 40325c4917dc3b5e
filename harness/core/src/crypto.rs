use crate::refs;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vpkit::{Check, ensure, ensure_eq, sized};
use witnet_crypto::cipher;
use witnet_crypto::hash::{EMPTY_SHA256, Sha256, calculate_sha256};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, PK, SK};
use witnet_crypto::merkle::{FullMerkleTree, InclusionProof, ProgressiveMerkleTree, merkle_tree_root, sha256_concat};
use witnet_crypto::mnemonic::{Length, Mnemonic, MnemonicGenerator};
use witnet_crypto::{pbkdf2, signature};
use witnet_protected::{Protected, ProtectedString};

pub type B32 = [u8; 32];
type R = Result<(), String>;

// ------------------------------------------------------------------------------------------- Merkle

/// Leaves drawn from an alphabet: equal symbols are equal leaves.
fn leaf(sym: u16) -> B32 {
    refs::sha256(&sym.to_be_bytes())
}

fn leaves_strategy(max: usize) -> impl Strategy<Value = Vec<u16>> {
    let len = prop_oneof![
        6 => 0..=40usize,
        3 => (0..=9u32, 0..=4usize).prop_map(move |(p, d)| ((1usize << p) + d).saturating_sub(2)),
        2 => 0..=max,
        1 => prop_oneof![30 => Just(3usize), 1 => 0..=4 * max, 1 => (10..=12u32, 0..=4usize).prop_map(move |(p, d)| ((1usize << p) + d - 2).min(4 * max))],
    ];
    (len, prop_oneof![Just(3u16), Just(u16::MAX)]).prop_flat_map(|(n, a)| vec(0..=a, n))
}

pub fn c01(c: &mut Check) {
    refs::self_test();
    c.assume("SHA-256 of the sha2 0.10 crate (a different major version from the one under test) is right");
    c.sub(
        "constructions-agree",
        "at least 3 leaves and at least one incomplete layer (the leaf count is not a power of two)",
        6000,
        400_000,
        || leaves_strategy(1200),
        |syms, obs| {
            let l: Vec<B32> = syms.iter().map(|s| leaf(*s)).collect();
            let h: Vec<Sha256> = l.iter().map(|b| Sha256(*b)).collect();
            obs.nontrivial_if(l.len() >= 3 && !l.len().is_power_of_two());
            obs.label_if(l.is_empty(), "empty");
            obs.label_if(l.len() > 256, "over 256 leaves");
            let layers = refs::merkle_layers(&l);
            let want = Sha256(refs::merkle_root(&l));
            ensure_eq!(merkle_tree_root(&h), want, "root of the slice of {} leaves", l.len());
            let full = FullMerkleTree::sha256(h.clone());
            ensure_eq!(full.root(), want, "root of the full tree of {} leaves", l.len());
            let nodes: Vec<Vec<B32>> = full.nodes().iter().map(|v| v.iter().map(|x| x.0).collect()).collect();
            ensure_eq!(nodes, layers, "nodes of the full tree of {} leaves", l.len());
            let mut prog = ProgressiveMerkleTree::sha256();
            ensure_eq!(prog.root(), EMPTY_SHA256, "root of the empty progressive tree");
            for (i, x) in h.iter().enumerate() {
                prog.push(*x);
                // Every prefix for short inputs, prefixes around powers of two for long ones.
                if i < 70 || (i + 2).is_power_of_two() || (i + 1).is_power_of_two() || i.is_power_of_two() || i + 1 == l.len() {
                    let w = Sha256(refs::merkle_root(&l[..=i]));
                    ensure_eq!(prog.root(), w, "progressive root after {} pushes", i + 1);
                    ensure_eq!(prog.root(), w, "progressive root read a second time after {} pushes", i + 1);
                }
            }
            Ok(())
        },
    );
    c.sub(
        "hash-primitives",
        "non-empty input",
        4000,
        100_000,
        || (sized(any::<u8>(), prop_oneof![30 => 0..300usize, 1 => 300..9000usize]), any::<B32>(), any::<B32>()),
        |(data, a, b), obs| {
            obs.nontrivial_if(!data.is_empty());
            ensure_eq!(calculate_sha256(data).0, refs::sha256(data), "sha256 of {} bytes", data.len());
            ensure_eq!(
                sha256_concat(Sha256(*a), Sha256(*b)).0,
                refs::sha256(&[*a, *b].concat()),
                "hash of the concatenation"
            );
            ensure_eq!(format!("{:?}", Sha256(*a)), a.iter().map(|x| format!("{x:02x}")).collect::<String>(), "hex form");
            Ok(())
        },
    );
}

/// A tree over numbers with a combination of its own, which is neither commutative nor associative.
fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(7) ^ 0x9e37_79b9_7f4a_7c15).wrapping_mul(0x2545_f491_4f6c_dd1d).wrapping_add(b ^ b >> 13)
}
static NOTHING: u64 = 77;

fn mix_layers(l: &[u64]) -> Vec<Vec<u64>> {
    let mut v = vec![l.to_vec()];
    while v.last().unwrap().len() > 1 {
        let n = v.last().unwrap().chunks(2).map(|c| if c.len() == 2 { mix(c[0], c[1]) } else { c[0] }).collect();
        v.push(n);
    }
    v
}

/// Trees and proofs over any type and combination.
fn other_types(l: &[u64], at: usize) -> R {
    let layers = mix_layers(l);
    let t = FullMerkleTree::new(l.to_vec(), mix, &NOTHING);
    let root = if l.is_empty() { NOTHING } else { layers.last().unwrap()[0] };
    ensure_eq!(t.root(), root, "root of a tree of {} numbers", l.len());
    if l.is_empty() {
        ensure!(t.inclusion_proof(0).is_none(), "a proof in the empty tree");
        return Ok(());
    }
    ensure_eq!(t.nodes(), &layers[..], "nodes of a tree of {} numbers", l.len());
    let i = at % l.len();
    let p = t.inclusion_proof(i).ok_or("no proof")?;
    ensure_eq!(p.root(l[i]), root, "root of the proof of number {i} of {}", l.len());
    ensure!(p.verify(l[i], root) && !p.verify(l[i] ^ 1, root) && !p.verify(l[i], root ^ 1), "the proof of number {i} of {}", l.len());
    let q = InclusionProof::new(p.proof_index(), p.lemma().to_vec(), mix);
    ensure!(q.verify(l[i], root), "the proof of number {i} of {}, rebuilt", l.len());
    Ok(())
}

fn ref_proof_root(index: usize, lemma: &[B32], element: B32) -> B32 {
    let mut e = element;
    for (i, h) in lemma.iter().enumerate() {
        let left = i < usize::BITS as usize && index >> i & 1 == 1;
        e = if left { refs::sha256(&[*h, e].concat()) } else { refs::sha256(&[e, *h].concat()) };
    }
    e
}

pub fn c02(c: &mut Check) {
    c.assume("SHA-256 has no collision among the generated nodes");
    c.sub(
        "complete-and-sound",
        "a tree of at least 3 leaves, so that some proof has several steps",
        1500,
        100_000,
        || (leaves_strategy(300), any::<u16>(), any::<u16>(), any::<u16>()),
        |(syms, at, other, step), obs| {
            let l: Vec<B32> = syms.iter().map(|s| leaf(*s)).collect();
            let n = l.len();
            obs.nontrivial_if(n >= 3);
            let tree = FullMerkleTree::sha256(l.iter().map(|b| Sha256(*b)).collect());
            let root = tree.root();
            for bad in [n, n + 1, 2 * n + 1, n.next_power_of_two(), usize::MAX] {
                if bad >= n {
                    ensure!(tree.inclusion_proof(bad).is_none(), "a proof for index {bad} of a tree of {n} leaves");
                }
            }
            // Complete: every leaf has a proof, and it verifies, also when taken apart and put together.
            let step_by = (n / 150).max(1);
            let sampled = (*at as usize % step_by..n).step_by(step_by).chain((n > 0).then(|| n - 1)).chain((n > 0).then_some(0));
            for i in sampled {
                let Some(p) = tree.inclusion_proof(i) else {
                    return Err(format!("no proof for index {i} of {n}"));
                };
                ensure!(p.verify(Sha256(l[i]), root), "the proof for index {i} of {n} does not verify");
                ensure_eq!(p.root(Sha256(l[i])), root, "root computed by the proof for index {i} of {n}");
                ensure!(
                    p.lemma().len() <= (usize::BITS - (n - 1).leading_zeros()) as usize,
                    "the proof for index {i} of {n} has {} steps",
                    p.lemma().len()
                );
                let q = InclusionProof::sha256(p.proof_index(), p.lemma().to_vec());
                ensure!(q.verify(Sha256(l[i]), root), "the proof for index {i} of {n}, rebuilt from its parts, does not verify");
            }
            if n == 0 {
                return Ok(());
            }
            // Sound: a proof fixes its element, its nodes and its sides.
            let i = *at as usize % n;
            let p = tree.inclusion_proof(i).unwrap();
            let mut forged = leaf(*other);
            forged[0] ^= 1;
            ensure!(!p.verify(Sha256(forged), root), "an element outside the tree verifies at index {i} of {n}");
            let o = leaf(*other);
            if o != l[i] {
                ensure!(!p.verify(Sha256(o), root), "a different element verifies at index {i} of {n}");
            }
            ensure!(!p.verify(Sha256(l[i]), Sha256(forged)), "the proof verifies against another root");
            if !p.lemma().is_empty() {
                let s = *step as usize % p.lemma().len();
                let mut lemma = p.lemma().to_vec();
                lemma[s].0[31] ^= 0x80;
                ensure!(
                    !InclusionProof::sha256(p.proof_index(), lemma.clone()).verify(Sha256(l[i]), root),
                    "a proof with step {s} altered verifies"
                );
                lemma[s].0[31] ^= 0x80;
                let dropped = lemma.pop().unwrap();
                ensure!(
                    !InclusionProof::sha256(p.proof_index(), lemma.clone()).verify(Sha256(l[i]), root),
                    "a proof without its last step verifies"
                );
                lemma.push(dropped);
                let flipped = p.proof_index() ^ (1 << s);
                let want = ref_proof_root(flipped, &lemma.iter().map(|x| x.0).collect::<Vec<_>>(), l[i]) == root.0;
                ensure_eq!(
                    InclusionProof::sha256(flipped, lemma.clone()).verify(Sha256(l[i]), root),
                    want,
                    "a proof with side {s} flipped"
                );
                lemma.push(Sha256(forged));
                ensure!(
                    !InclusionProof::sha256(p.proof_index(), lemma).verify(Sha256(l[i]), root),
                    "a proof with one step too many verifies"
                );
            }
            Ok(())
        },
    );
    c.sub(
        "other-types",
        "at least 3 leaves",
        4000,
        100_000,
        || (prop_oneof![8 => 0..70usize, 1 => 0..1500usize], any::<u64>(), any::<u16>()),
        |(n, seed, at), obs| {
            obs.nontrivial_if(*n >= 3);
            let l: Vec<u64> = (0..*n as u64).map(|i| mix(*seed, i) % 1000).collect();
            other_types(&l, *at as usize)
        },
    );
    c.sub(
        "any-proof-is-evaluated",
        "at least 2 steps; proofs come from outside, so index and length are unrelated to any tree",
        20000,
        600_000,
        || {
            (
                prop_oneof![any::<u64>(), 0..16u64, Just(u64::MAX)],
                sized(any::<B32>(), prop_oneof![8 => 0..20usize, 2 => 60..70usize, 1 => 100..140usize]),
                any::<B32>(),
            )
        },
        |(index, lemma, element), obs| {
            obs.nontrivial_if(lemma.len() >= 2);
            obs.label_if(lemma.len() >= 64, "64 steps or more");
            let p = InclusionProof::sha256(*index as usize, lemma.iter().map(|b| Sha256(*b)).collect());
            let want = ref_proof_root(*index as usize, lemma, *element);
            ensure_eq!(p.root(Sha256(*element)).0, want, "root of a proof with {} steps", lemma.len());
            ensure!(p.verify(Sha256(*element), Sha256(want)), "verify does not agree with the computed root");
            let mut w = want;
            w[7] ^= 4;
            ensure!(!p.verify(Sha256(*element), Sha256(w)), "verify accepts another root");
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------- BIP32

fn path_strategy(max: usize) -> impl Strategy<Value = Vec<u32>> {
    let idx = prop_oneof![
        0..20u32,
        (0..20u32).prop_map(|i| i | 0x8000_0000),
        any::<u32>(),
        Just(0x7fff_ffff),
        Just(u32::MAX),
        Just(0x8000_0000)
    ];
    vec(idx, 0..=max)
}

fn build(path: &[u32]) -> KeyPath {
    path.iter().fold(KeyPath::default(), |p, i| if *i >= 1 << 31 { p.hardened(*i - (1 << 31)) } else { p.index(*i) })
}

fn secret(b: &B32) -> Option<SK> {
    SK::from_slice(b).ok()
}

/// Keys: mostly uniform, and the edges of the valid range.
fn secret_strategy() -> impl Strategy<Value = B32> {
    prop_oneof![
        8 => any::<B32>().prop_filter_map("secret", |b| refs::valid_secret(&b).then_some(b)),
        1 => (1..9u8).prop_map(|x| { let mut b = [0; 32]; b[31] = x; b }),
        1 => (1..9u8).prop_map(|x| { let mut b = refs::to_be(&refs::N); b[31] -= x; b }),
    ]
}

fn fmt_path(path: &[u32]) -> String {
    let mut s = "m".to_string();
    for i in path {
        if i >> 31 == 1 {
            s += &format!("/{}'", i & 0x7fff_ffff);
        } else {
            s += &format!("/{i}");
        }
    }
    s
}

pub fn c03(c: &mut Check) {
    refs::self_test();
    c.assume("HMAC-SHA512 of the hmac 0.12 and sha2 0.10 crates is right; the curve arithmetic of the reference is the harness's own");
    c.sub(
        "derivation",
        "a path of at least 2 levels with both a hardened and a normal index",
        1500,
        60_000,
        || {
            let long = || vec(prop_oneof![9 => (0..1u32 << 31).prop_map(|i| i | 1 << 31), 1 => any::<u32>()], 0..40);
            (secret_strategy(), any::<B32>(), prop_oneof![30 => path_strategy(4), 1 => long(), 1 => vec((0..9u32).prop_map(|i| i | 1 << 31), 0..256)], prop_oneof![30 => path_strategy(3), 1 => long()])
        },
        |(k, cc, p1, p2), obs| {
            obs.label_if(p1.len() + p2.len() > 16, "deeper than 16");
            let full: Vec<u32> = p1.iter().chain(p2).copied().collect();
            obs.nontrivial_if(full.iter().any(|i| i >> 31 == 1) && full.iter().any(|i| i >> 31 == 0));
            let root = ExtendedSK::new(secret(k).unwrap(), Protected::from(&cc[..]));
            let mut want = Some((*k, *cc));
            let mut step = Some(root.clone());
            let built = build(&full);
            for (n, i) in full.iter().enumerate() {
                want = want.and_then(|(k, c)| refs::bip32_child(&k, &c, *i));
                step = step.and_then(|s| s.child(built.iter().nth(n).unwrap()).ok());
            }
            let got = root.derive(&built).ok();
            match (&got, want) {
                (Some(g), Some((k, c))) => {
                    ensure_eq!(g.secret().as_ref(), &k[..], "secret derived at {}", fmt_path(&full));
                    ensure_eq!(g.chain_code().as_ref(), &c[..], "chain code derived at {}", fmt_path(&full));
                    ensure_eq!(g.concat().as_ref(), &[k, c].concat()[..], "concatenation of secret and chain code");
                    let pk = ExtendedPK::from_secret_key(g);
                    ensure_eq!(pk.key.serialize(), refs::public_key(&k), "public key at {}", fmt_path(&full));
                    ensure_eq!(pk.chain_code.as_ref(), &c[..], "chain code of the public key");
                }
                (None, None) => {}
                (g, w) => return Err(format!("derivation at {}: {} but reference says {}", fmt_path(&full), g.is_some(), w.is_some())),
            }
            ensure!(got == step, "deriving a path is not deriving its indices one by one");
            let two = root.derive(&build(p1)).and_then(|x| x.derive(&build(p2))).ok();
            ensure!(got == two, "deriving {} is not deriving its two halves in turn", fmt_path(&full));
            Ok(())
        },
    );
    c.sub(
        "paths",
        "at least one index",
        5000,
        200_000,
        || path_strategy(12),
        |p, obs| {
            obs.nontrivial_if(!p.is_empty());
            let a = build(p);
            let b = KeyPath::from(p.clone());
            ensure_eq!(a, b, "a path built index by index and one built from numbers");
            ensure_eq!(a.depth(), p.len(), "depth");
            ensure_eq!(a.is_master(), p.is_empty(), "is_master");
            ensure_eq!(a.to_string(), fmt_path(p), "text form");
            for (x, i) in a.iter().zip(p) {
                ensure_eq!(x.as_ref(), i, "index");
                ensure_eq!(x.is_hardened(), *i >= 1 << 31, "hardened flag of {i:#x}");
            }
            let js = serde_json::to_string(&a).map_err(|e| e.to_string())?;
            ensure_eq!(serde_json::from_str::<KeyPath>(&js).map_err(|e| e.to_string())?, a, "a serialized path");
            Ok(())
        },
    );
    c.sub(
        "master",
        "an accepted seed length",
        3000,
        100_000,
        || (vec(any::<u8>(), 0..=80), prop::option::of(vec(any::<u8>(), 0..200))),
        |(seed, key), obs| {
            let g = MasterKeyGen::new(seed.clone());
            let got = match key {
                Some(k) => g.with_key(k).generate(),
                None => g.generate(),
            };
            let ok = (16..=64).contains(&seed.len());
            obs.nontrivial_if(ok);
            ensure_eq!(got.is_ok(), ok, "seed of {} bytes accepted", seed.len());
            if let Ok(x) = got {
                let (k, c) = refs::bip32_master(seed, key.as_deref().unwrap_or(b"Bitcoin seed"));
                ensure_eq!(x.secret().as_ref(), &k[..], "master secret");
                ensure_eq!(x.chain_code().as_ref(), &c[..], "master chain code");
                let bytes = bincode::serialize(&x).map_err(|e| e.to_string())?;
                ensure!(bincode::deserialize::<ExtendedSK>(&bytes).ok() == Some(x.clone()), "a serialized extended key");
                let pk = ExtendedPK::from_secret_key(&x);
                ensure_eq!(pk.key.serialize(), refs::public_key(&k), "master public key");
                let sk: SK = x.into();
                ensure_eq!(sk.secret_bytes(), k, "the secret taken out of the extended key");
                let p: PK = pk.into();
                ensure_eq!(p.serialize(), refs::public_key(&k), "the public key taken out of the extended key");
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------- SLIP32

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Slip {
    /// Bytes in a checksummed envelope.
    Raw { hrp: String, depth: u8, body: Vec<u8> },
    /// A well-formed key with its parts varied.
    Key { path: Vec<u32>, cc: B32, prefix: u8, secret: B32, extra: Vec<u8>, cut: u8 },
    /// A well-formed string with one character replaced.
    Char { path: Vec<u32>, cc: B32, secret: B32, at: u32, to: u8 },
    Text(String),
    /// A well-formed string with something done to it that leaves every symbol legible.
    Odd { path: Vec<u32>, cc: B32, secret: B32, at: u32, how: u8 },
}

fn slip_strategy() -> impl Strategy<Value = Slip> {
    let sec = prop_oneof![6 => secret_strategy(), 1 => Just([0; 32]), 1 => Just([255; 32]), 1 => Just(refs::to_be(&refs::N))];
    prop_oneof![
        3 => (
            prop_oneof![5 => Just("xprv".to_string()), 1 => Just("xpub".to_string()), 1 => Just("wit".to_string()), 1 => "[a-z]{1,8}"],
            prop_oneof![0..4u8, any::<u8>()],
            sized(any::<u8>(), prop_oneof![0..90usize, Just(65), Just(69), 0..1200usize])
        ).prop_map(|(hrp, depth, body)| Slip::Raw { hrp, depth, body }),
        4 => (
            path_strategy(60), any::<B32>(),
            prop_oneof![4 => Just(0u8), 1 => any::<u8>()], sec,
            prop_oneof![4 => Just(vec![]), 1 => vec(any::<u8>(), 1..5)],
            prop_oneof![4 => Just(0u8), 1 => 1..10u8]
        ).prop_map(|(path, cc, prefix, secret, extra, cut)| Slip::Key { path, cc, prefix, secret, extra, cut }),
        3 => (path_strategy(5), any::<B32>(), secret_strategy(), any::<u32>(), any::<u8>())
            .prop_map(|(path, cc, secret, at, to)| Slip::Char { path, cc, secret, at, to }),
        2 => (path_strategy(3), any::<B32>(), secret_strategy(), any::<u32>(), any::<u8>())
            .prop_map(|(path, cc, secret, at, how)| Slip::Odd { path, cc, secret, at, how }),
        1 => ".{0,120}".prop_map(Slip::Text),
        1 => "xprv1[02-9ac-hj-np-z]{0,130}".prop_map(Slip::Text),
    ]
}

fn slip_bytes(path: &[u32], cc: &B32, prefix: u8, secret: &B32) -> Vec<u8> {
    let mut b = vec![path.len() as u8];
    for i in path {
        b.extend(i.to_be_bytes());
    }
    b.extend(cc);
    b.push(prefix);
    b.extend(secret);
    b
}

/// What the bytes of the envelope decode to.
fn slip_decode(b: &[u8]) -> Option<(Vec<u32>, B32, B32)> {
    let d = *b.first()? as usize;
    if b.len() != 66 + 4 * d {
        return None;
    }
    let path = b[1..1 + 4 * d].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    let r = &b[1 + 4 * d..];
    let cc: B32 = r[..32].try_into().unwrap();
    let s: B32 = r[33..].try_into().unwrap();
    (r[32] == 0 && refs::valid_secret(&s)).then_some((path, cc, s))
}

pub fn c04(c: &mut Check) {
    refs::self_test();
    c.sub(
        "round-trip",
        "a path of at least one level",
        4000,
        200_000,
        || {
            let p = prop_oneof![4 => path_strategy(8), 2 => path_strategy(255), 1 => vec(any::<u32>(), 40..60), 1 => vec(any::<u32>(), 250..=262)];
            (secret_strategy(), any::<B32>(), p)
        },
        |(k, cc, path), obs| {
            obs.nontrivial_if(!path.is_empty());
            obs.label_if(path.len() > 47, "deeper than 47");
            obs.label_if(path.len() > 255, "deeper than 255");
            let key = ExtendedSK::new(secret(k).unwrap(), Protected::from(&cc[..]));
            let kp = KeyPath::from(path.clone());
            let enc = key.to_slip32(&kp);
            ensure_eq!(enc.is_ok(), path.len() <= 255, "a path of depth {} can be exported", path.len());
            let Ok(enc) = enc else { return Ok(()) };
            ensure_eq!(enc, refs::bech32("xprv", &slip_bytes(path, cc, 0, k)), "the exported text");
            let (key2, path2) = ExtendedSK::from_slip32(&enc).map_err(|e| format!("import of an export at depth {}: {e}", path.len()))?;
            ensure!(key2 == key, "the imported key is not the exported one (depth {})", path.len());
            ensure_eq!(path2, kp, "the imported path");
            let (key3, path3) =
                ExtendedSK::from_slip32(&enc.to_uppercase()).map_err(|e| format!("import of the upper-case form: {e}"))?;
            ensure!(key3 == key && path3 == kp, "the upper-case form imports as another key");
            Ok(())
        },
    );
    c.sub(
        "import-is-total",
        "a text with a valid checksum and the right prefix that is not a plain export, or one damaged character",
        15000,
        1_000_000,
        slip_strategy,
        |s, obs| {
            let (text, want) = match s {
                Slip::Raw { hrp, depth, body } => {
                    let mut b = vec![*depth];
                    b.extend(body);
                    let hrp_ok = hrp == "xprv";
                    obs.nontrivial_if(hrp_ok);
                    (refs::bech32(hrp, &b), if hrp_ok { slip_decode(&b) } else { None })
                }
                Slip::Key { path, cc, prefix, secret, extra, cut } => {
                    let mut b = slip_bytes(path, cc, *prefix, secret);
                    b.extend(extra);
                    let n = b.len() - *cut as usize;
                    b.truncate(n);
                    obs.nontrivial();
                    obs.label_if(*prefix != 0, "non-zero padding byte");
                    (refs::bech32("xprv", &b), slip_decode(&b))
                }
                Slip::Char { path, cc, secret, at, to } => {
                    let good = refs::bech32("xprv", &slip_bytes(path, cc, 0, secret));
                    let mut t = good.clone().into_bytes();
                    let i = *at as usize % t.len();
                    let alphabet = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l1b";
                    t[i] = alphabet[*to as usize % alphabet.len()];
                    let t = String::from_utf8(t).unwrap();
                    if t == good {
                        (t, Some((path.clone(), *cc, *secret)))
                    } else {
                        obs.nontrivial();
                        obs.label("one damaged character");
                        (t, None)
                    }
                }
                Slip::Odd { path, cc, secret, at, how } => {
                    let good = refs::bech32("xprv", &slip_bytes(path, cc, 0, secret));
                    let i = *at as usize % good.len();
                    obs.nontrivial();
                    obs.label("odd text");
                    let mut t = good.clone();
                    match how % 8 {
                        0 => t = format!(" {good}"),
                        1 => t = format!("{good}\n"),
                        // One letter of the other case: mixed case is not allowed.
                        2 => {
                            if let Some(j) = (i..good.len()).find(|j| good.as_bytes()[*j].is_ascii_lowercase()) {
                                t.replace_range(j..j + 1, &good[j..j + 1].to_uppercase());
                            }
                        }
                        3 => t = good.to_uppercase(),
                        4 => t.insert(i, if at & 1 == 0 { ' ' } else { '-' }),
                        5 => {
                            t.remove(i);
                        }
                        6 => t = format!("{good}{good}"),
                        _ => t = format!("0x{good}"),
                    }
                    let same = t == good || how % 8 == 3;
                    (t, same.then(|| (path.clone(), *cc, *secret)))
                }
                Slip::Text(t) => {
                    obs.label("free text");
                    (t.clone(), None)
                }
            };
            match (ExtendedSK::from_slip32(&text), want) {
                (Ok((k, p)), Some((path, cc, sec))) => {
                    ensure_eq!(k.secret().as_ref(), &sec[..], "imported secret");
                    ensure_eq!(k.chain_code().as_ref(), &cc[..], "imported chain code");
                    ensure_eq!(p, KeyPath::from(path), "imported path");
                    Ok(())
                }
                (Err(_), None) => Ok(()),
                (Ok(_), None) => Err(format!("a malformed export is imported: {text}")),
                (Err(e), Some(_)) => Err(format!("a well-formed export is refused: {e}: {text}")),
            }
        },
    );
}

// ------------------------------------------------------------------------------------------- BIP39

fn words() -> &'static Vec<String> {
    static W: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    W.get_or_init(|| {
        let mut w = vec![];
        for i in 0..2048u32 {
            let mut e = [0u8; 16];
            e[0] = (i >> 3) as u8;
            e[1] = (i as u8 & 7) << 5;
            let m = bip39::Mnemonic::from_entropy(&e, bip39::Language::English).unwrap();
            w.push(m.phrase().split(' ').next().unwrap().to_string());
        }
        // The published word list, one word per line.
        let list: String = w.iter().map(|x| format!("{x}\n")).collect();
        let h: String = refs::sha256(list.as_bytes()).iter().map(|b| format!("{b:02x}")).collect();
        assert_eq!(h, "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda");
        w
    })
}

fn phrase_indices(entropy: &[u8]) -> Vec<usize> {
    let cs = entropy.len() * 8 / 32;
    let mut bits: Vec<u8> = entropy.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
    let h = refs::sha256(entropy);
    bits.extend((0..cs).map(|i| h[i / 8] >> (7 - i % 8) & 1));
    bits.chunks(11).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as usize)).collect()
}

fn phrase_entropy(idx: &[usize]) -> Option<Vec<u8>> {
    if !matches!(idx.len(), 12 | 15 | 18 | 21 | 24) {
        return None;
    }
    let bits: Vec<u8> = idx.iter().flat_map(|w| (0..11).rev().map(move |i| (w >> i & 1) as u8)).collect();
    let ent = idx.len() * 11 * 32 / 33;
    let e: Vec<u8> = bits[..ent].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b)).collect();
    (phrase_indices(&e) == idx).then_some(e)
}

fn text(idx: &[usize]) -> String {
    idx.iter().map(|i| words()[*i].clone()).collect::<Vec<_>>().join(" ")
}

fn ref_seed(phrase: &str, pass: &str) -> [u8; 64] {
    // The generated passphrases are NFKD-stable.
    refs::pbkdf2_sha512_64(phrase.as_bytes(), format!("mnemonic{pass}").as_bytes(), 2048)
}

const LENGTHS: [(usize, fn() -> Length); 5] = [
    (12, || Length::Words12),
    (15, || Length::Words15),
    (18, || Length::Words18),
    (21, || Length::Words21),
    (24, || Length::Words24),
];

pub fn c05(c: &mut Check) {
    words();
    let ent = || prop::sample::select(vec![16usize, 20, 24, 28, 32]).prop_flat_map(|n| vec(any::<u8>(), n));
    c.sub(
        "phrase-to-seed",
        "a passphrase is used",
        400,
        20_000,
        move || (ent(), prop_oneof![8 => "[ -~]{0,20}", 1 => "[ -~]{100,300}", 1 => "[б-зк-п一-丁ßæø🙂]{1,12}"]),
        |(e, pass), obs| {
            obs.label_if(!pass.is_ascii(), "not ASCII");
            obs.label_if(pass.len() > 64, "a long passphrase");
            obs.nontrivial_if(!pass.is_empty());
            let p = text(&phrase_indices(e));
            let m = Mnemonic::from_phrase(ProtectedString::new(p.clone())).map_err(|x| format!("{x:?}"))?;
            ensure_eq!(m.words(), p, "the words of an imported phrase");
            let want = ref_seed(&p, pass);
            ensure_eq!(m.seed(&ProtectedString::new(pass.clone())).as_bytes(), &want[..], "seed");
            ensure_eq!(m.seed_ref(pass).as_ref(), &want[..], "seed by reference");
            // The passphrase is normalized: composed and decomposed characters are the same.
            if pass.len() < 8 {
                let (x, y) = (format!("{pass}é한Å"), format!("{pass}e\u{301}\u{1112}\u{1161}\u{11ab}A\u{30a}"));
                ensure_eq!(m.seed_ref(&x).as_ref(), m.seed_ref(&y).as_ref(), "seeds with a composed and a decomposed passphrase");
                ensure_eq!(m.seed_ref(&y).as_ref(), &ref_seed(&p, &y)[..], "seed with a decomposed passphrase");
            }
            let m2 = Mnemonic::from_phrase_ref(&p).map_err(|x| format!("{x:?}"))?;
            ensure_eq!(m2.words(), p, "the words of a phrase imported by reference");
            Ok(())
        },
    );
    c.sub(
        "phrases-are-checked",
        "a phrase that differs from a valid one",
        20000,
        500_000,
        move || (ent(), vec((any::<u16>(), 0..2048usize), 0..3), 0..4u8, "[a-z]{3,8}"),
        |(e, edits, cut, junk), obs| {
            let mut idx = phrase_indices(e);
            let before = idx.clone();
            for (at, w) in edits {
                let n = idx.len();
                idx[*at as usize % n] = *w;
            }
            for _ in 0..*cut % 3 {
                idx.pop();
            }
            obs.nontrivial_if(idx != before || *cut == 3);
            let mut t = text(&idx);
            let mut want = phrase_entropy(&idx);
            if *cut == 3 {
                // One unknown word instead of the last one.
                if !words().contains(junk) {
                    let mut w: Vec<&str> = t.split(' ').collect();
                    w.pop();
                    w.push(junk);
                    t = w.join(" ");
                    want = None;
                }
            }
            let got = Mnemonic::from_phrase_ref(&t);
            obs.label(if want.is_some() { "valid" } else { "invalid" });
            ensure_eq!(got.is_ok(), want.is_some(), "phrase accepted: {t}");
            ensure_eq!(Mnemonic::from_phrase(t.clone().into()).is_ok(), want.is_some(), "phrase accepted: {t}");
            Ok(())
        },
    );
    c.sub_n(
        "generated-phrases",
        "every batch of generated phrases",
        40,
        1000,
        16,
        || (0..5usize, Just(40u8)),
        |(l, n), obs| {
            obs.nontrivial();
            let (len, f) = LENGTHS[*l];
            let mut seen: Vec<Vec<usize>> = vec![];
            for _ in 0..*n {
                let m = MnemonicGenerator::new().with_len(f()).generate();
                let idx: Vec<usize> = m.words().split(' ').map(|w| words().iter().position(|x| x == w).unwrap_or(9999)).collect();
                ensure_eq!(idx.len(), len, "number of words");
                ensure!(phrase_entropy(&idx).is_some(), "a generated phrase is not valid: {}", m.words());
                ensure!(Mnemonic::from_phrase_ref(m.words()).is_ok(), "a generated phrase is refused: {}", m.words());
                ensure!(!seen.contains(&idx), "a phrase is generated twice: {}", m.words());
                seen.push(idx);
            }
            // All of the entropy is random: no byte of it is the same in all 40 phrases (a byte is, by
            // chance, with probability 2^-312).
            let es: Vec<Vec<u8>> = seen.iter().map(|i| phrase_entropy(i).unwrap()).collect();
            for b in 0..es[0].len() {
                ensure!(es.iter().any(|e| e[b] != es[0][b]), "byte {b} of the entropy of {len}-word phrases never changes");
            }
            ensure_eq!(Mnemonic::build().generate().words().split(' ').count(), 12, "default length");
            Ok(())
        },
    );
    c.assume("of 64 more random rows than columns, all columns are independent (they are not by chance with probability 2^-64)");
    c.sub_n(
        "entropy-is-free",
        "every length",
        10,
        100,
        1,
        || (0..5usize, any::<u8>()),
        |(l, _), obs| {
            obs.nontrivial();
            let (len, f) = LENGTHS[*l];
            let bits = len * 11 * 32 / 33;
            let rows = (0..bits + 65).map(|_| {
                let m = MnemonicGenerator::new().with_len(f()).generate();
                let idx: Vec<usize> = m.words().split(' ').map(|w| words().iter().position(|x| x == w).unwrap_or(0)).collect();
                phrase_entropy(&idx).ok_or("a generated phrase is not valid".to_string())
            });
            independent(rows.collect::<Result<Vec<_>, _>>()?, bits, &format!("the entropy of {len}-word phrases"))
        },
    );
}

/// No bit of the rows is fixed, nor follows from other bits of its row by exclusive or.
fn independent(rows: Vec<Vec<u8>>, bits: usize, what: &str) -> R {
    // Each column becomes a vector over the rows; the constant is one more column.
    let n = rows.len();
    let mut cols: Vec<Vec<u64>> = (0..=bits)
        .map(|b| {
            let mut c = vec![0u64; n.div_ceil(64)];
            for (i, r) in rows.iter().enumerate() {
                if b == bits || r[b / 8] >> (7 - b % 8) & 1 == 1 {
                    c[i / 64] |= 1 << (i % 64);
                }
            }
            c
        })
        .collect();
    let mut rank = 0;
    for i in 0..n {
        let Some(p) = (rank..cols.len()).find(|c| cols[*c][i / 64] >> (i % 64) & 1 == 1) else { continue };
        cols.swap(rank, p);
        let pivot = cols[rank].clone();
        for c in cols.iter_mut().skip(rank + 1) {
            if c[i / 64] >> (i % 64) & 1 == 1 {
                c.iter_mut().zip(&pivot).for_each(|(x, y)| *x ^= y);
            }
        }
        rank += 1;
        if rank == cols.len() {
            break;
        }
    }
    ensure_eq!(rank, bits + 1, "{what}: free bits, plus one");
    Ok(())
}

// ------------------------------------------------------------------------------------------- ECDSA

pub fn c06(c: &mut Check) {
    refs::self_test();
    c.assume("the textbook ECDSA verifier of the harness is right (pinned by curve vectors)");
    c.sub(
        "sign-and-verify",
        "every case: a fresh key, digest and forgery",
        2000,
        40_000,
        || (secret_strategy(), prop_oneof![4 => any::<B32>(), 1 => Just([0; 32]), 1 => Just([255; 32])], secret_strategy(), 0..256u16, 0..512u16),
        |(k, msg, k2, bit, sbit), obs| {
            obs.nontrivial();
            let sk = secret(k).unwrap();
            let pk = PK::from_secret_key_global(&sk);
            let sig = signature::sign(sk, msg).map_err(|e| e.to_string())?;
            ensure!(signature::verify(&pk, msg, &sig).is_ok(), "an honest signature does not verify");
            ensure_eq!(signature::sign(sk, msg).map_err(|e| e.to_string())?, sig, "signing twice");
            let rs = sig.serialize_compact();
            let (r, s): (B32, B32) = (rs[..32].try_into().unwrap(), rs[32..].try_into().unwrap());
            ensure!(refs::ecdsa_verify(k, msg, &r, &s), "the signature does not verify by the textbook equation");
            // Another message.
            let mut m2 = *msg;
            m2[*bit as usize / 8] ^= 1 << (bit % 8);
            ensure!(signature::verify(&pk, &m2, &sig).is_err(), "the signature verifies for another message");
            // Another key.
            // (With the digest 0, ECDSA itself cannot tell a key from its negation.)
            if k2 != k && !(*msg == [0; 32] && *k2 == refs::neg_s(k)) {
                let pk2 = PK::from_secret_key_global(&secret(k2).unwrap());
                ensure!(signature::verify(&pk2, msg, &sig).is_err(), "the signature verifies under another key");
            }
            // One flipped bit.
            let mut f = rs;
            f[*sbit as usize / 8] ^= 1 << (sbit % 8);
            if let Ok(fs) = signature::Signature::from_compact(&f) {
                ensure!(signature::verify(&pk, msg, &fs).is_err(), "a signature with bit {sbit} flipped verifies");
            }
            // The malleated twin.
            let twin = [r, refs::neg_s(&s)].concat();
            let ts = signature::Signature::from_compact(&twin).map_err(|e| e.to_string())?;
            ensure!(signature::verify(&pk, msg, &ts).is_err(), "the high-s twin of a signature verifies");
            Ok(())
        },
    );
    c.sub(
        "only-digests",
        "data that is not 32 bytes long",
        5000,
        100_000,
        || (secret_strategy(), sized(any::<u8>(), prop_oneof![0..70usize, 31..34usize])),
        |(k, data), obs| {
            obs.nontrivial_if(data.len() != 32);
            let sk = secret(k).unwrap();
            let pk = PK::from_secret_key_global(&sk);
            let got = signature::sign(sk, data);
            ensure_eq!(got.is_ok(), data.len() == 32, "data of {} bytes is signed", data.len());
            let sig = signature::sign(sk, &[7; 32]).unwrap();
            if data.len() != 32 {
                ensure!(signature::verify(&pk, data, &sig).is_err(), "data of {} bytes verifies", data.len());
            } else {
                ensure!(signature::verify(&pk, data, &got.unwrap()).is_ok(), "an honest signature does not verify");
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------------- AES, PBKDF2

pub fn c07(c: &mut Check) {
    refs::self_test();
    c.assume("the harness's own AES-256 (pinned by the FIPS-197 vector) and HMAC-SHA256 of hmac 0.12 are right");
    c.sub(
        "encrypt-decrypt",
        "more than one block",
        4000,
        150_000,
        || (any::<B32>(), any::<[u8; 16]>(), sized(any::<u8>(), prop_oneof![0..50usize, (0..12usize).prop_map(|n| n * 16), 0..600usize, prop_oneof![20 => Just(1usize), 1 => 0..20_000usize, 1 => (65_500..65_600usize)]])),
        |(key, iv, plain), obs| {
            obs.nontrivial_if(plain.len() >= 16);
            let ct = cipher::encrypt_aes_cbc(key, plain, iv).map_err(|e| e.to_string())?;
            ensure_eq!(ct, refs::Aes::new(key).cbc_encrypt(iv, plain), "ciphertext of {} bytes", plain.len());
            let back = cipher::decrypt_aes_cbc(key, &ct, iv).map_err(|e| e.to_string())?;
            ensure_eq!(back, *plain, "decryption of the ciphertext");
            Ok(())
        },
    );
    #[derive(Debug, Clone, Serialize, Deserialize)]
    enum Damage {
        None,
        Flip(u16, u8),
        Cut(u8),
        Extend(Vec<u8>),
        Key(u8, u8),
        Replace(Vec<u8>),
    }
    c.sub(
        "decrypt-anything",
        "a damaged ciphertext",
        1500,
        250_000,
        || {
            (
                any::<B32>(),
                any::<[u8; 16]>(),
                vec(any::<u8>(), 0..70),
                prop_oneof![
                    1 => Just(Damage::None),
                    5 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Damage::Flip(a, b)),
                    2 => any::<u8>().prop_map(Damage::Cut),
                    2 => vec(any::<u8>(), 0..40).prop_map(Damage::Extend),
                    2 => (0..32u8, any::<u8>()).prop_map(|(a, b)| Damage::Key(a, b)),
                    3 => vec(any::<u8>(), 0..80).prop_map(Damage::Replace),
                ],
            )
        },
        |(key, iv, plain, damage), obs| {
            let mut ct = refs::Aes::new(key).cbc_encrypt(iv, plain);
            let mut key = *key;
            match damage {
                Damage::None => {}
                Damage::Flip(at, x) => {
                    // Mostly near the end, where the padding is.
                    let n = ct.len();
                    let i = n - 1 - (*at as usize % n.min(34));
                    ct[i] ^= *x;
                }
                Damage::Cut(n) => {
                    let k = ct.len().saturating_sub(*n as usize % 40);
                    ct.truncate(k)
                }
                Damage::Extend(x) => ct.extend(x),
                Damage::Key(i, x) => key[*i as usize] ^= x,
                Damage::Replace(x) => ct = x.clone(),
            }
            obs.nontrivial_if(!matches!(damage, Damage::None));
            let got = cipher::decrypt_aes_cbc(&key, &ct, iv).ok();
            let want = refs::Aes::new(&key).cbc_decrypt(iv, &ct);
            obs.label(if want.is_some() { "decrypts" } else { "refused" });
            ensure_eq!(got, want, "decryption of {} bytes", ct.len());
            Ok(())
        },
    );
    c.sub(
        "key-and-iv-lengths",
        "a wrong key or IV length",
        3000,
        60_000,
        || (sized(any::<u8>(), prop_oneof![Just(32usize), 0..40usize]), sized(any::<u8>(), prop_oneof![Just(16usize), 0..20usize]), vec(any::<u8>(), 0..40)),
        |(key, iv, data), obs| {
            let ok = key.len() == 32 && iv.len() == 16;
            obs.nontrivial_if(!ok);
            ensure_eq!(cipher::encrypt_aes_cbc(key, data, iv).is_ok(), ok, "encryption with key {} and iv {}", key.len(), iv.len());
            if !ok {
                ensure!(cipher::decrypt_aes_cbc(key, &[0; 32], iv).is_err(), "decryption with key {} and iv {}", key.len(), iv.len());
            }
            Ok(())
        },
    );
    c.sub(
        "key-derivation",
        "more than one iteration",
        600,
        40_000,
        || {
            let size = || prop_oneof![4 => 0..100usize, 2 => 100..400usize, 1 => 400..5000usize];
            (sized(any::<u8>(), size()), sized(any::<u8>(), size()), prop_oneof![1..6u32, 1..600u32])
        },
        |(pw, salt, n), obs| {
            obs.nontrivial_if(*n > 1);
            ensure_eq!(
                pbkdf2::pbkdf2_sha256(pw, salt, *n).as_ref(),
                &refs::pbkdf2_sha256_32(pw, salt, *n)[..],
                "key derived with {n} iterations"
            );
            Ok(())
        },
    );
    c.sub_n(
        "many-iterations",
        "more iterations than fit in 8 bits",
        60,
        400,
        1,
        || (vec(any::<u8>(), 0..20), vec(any::<u8>(), 0..20), prop_oneof![250..2000u32, 2000..40_000u32, 65_530..70_000u32, 131_060..131_090u32]),
        |(pw, salt, n), obs| {
            obs.nontrivial_if(*n > 255);
            ensure_eq!(
                pbkdf2::pbkdf2_sha256(pw, salt, *n).as_ref(),
                &refs::pbkdf2_sha256_32(pw, salt, *n)[..],
                "key derived with {n} iterations"
            );
            Ok(())
        },
    );
    c.sub_n(
        "random-bytes",
        "16 bytes or more",
        200,
        5000,
        16,
        || prop_oneof![0..100usize, Just(16usize)],
        |n, obs| {
            obs.nontrivial_if(*n >= 16);
            let v: Vec<Vec<u8>> = (0..40).map(|_| cipher::generate_random(*n).unwrap()).collect();
            ensure!(v.iter().all(|x| x.len() == *n), "length of {n} random bytes");
            for i in 0..*n {
                // 40 equal bytes by chance: 2^-312.
                ensure!(v.iter().any(|x| x[i] != v[0][i]), "byte {i} of {n} random bytes never changes");
            }
            Ok(())
        },
    );
    c.sub_n(
        "random-bytes-are-free",
        "every case",
        6,
        60,
        1,
        || prop::sample::select(vec![8usize, 16, 32, 48]),
        |n, obs| {
            obs.nontrivial();
            let rows = (0..n * 8 + 65).map(|_| cipher::generate_random(*n).unwrap()).collect();
            independent(rows, n * 8, &format!("{n} random bytes"))
        },
    );
}

// ------------------------------------------------------------------------------------------- Protected

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Pop {
    Clone,
    Mutate(u16, u8),
    ToBytes,
    Serde,
    Json,
}

pub fn c08(c: &mut Check) {
    c.sub_n(
        "wiped-and-hidden",
        "a secret of at least 8 bytes that goes through at least one operation",
        3000,
        100_000,
        1,
        || {
            let op = prop_oneof![
                Just(Pop::Clone),
                (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Pop::Mutate(a, b)),
                Just(Pop::ToBytes),
                Just(Pop::Serde),
                Just(Pop::Json)
            ];
            (any::<bool>(), prop_oneof![30 => "[!-~]{0,60}", 1 => "[!-~]{100,3000}"], vec(op, 0..6), 0..6u8)
        },
        |(string, text, ops, ctor), obs| {
            obs.nontrivial_if(text.len() >= 8 && !ops.is_empty());
            let check_debug = |d: String| -> R {
                // Four characters in a row of the secret are four too many.
                for w in text.as_bytes().windows(4) {
                    let w = std::str::from_utf8(w).unwrap();
                    if !"ProtectedString(***)".contains(w) {
                        ensure!(!d.contains(w), "the debug form shows the secret: {d}");
                    }
                }
                Ok(())
            };
            let mut model = text.as_bytes().to_vec();
            let mut live: Vec<Protected> = vec![];
            if *string {
                let s = ProtectedString::new(text.clone());
                check_debug(format!("{s:?} {s:#?}"))?;
                ensure_eq!(AsRef::<str>::as_ref(&s), text, "the protected text");
                ensure_eq!(AsRef::<[u8]>::as_ref(&s), text.as_bytes(), "the protected bytes");
                ensure!(s == ProtectedString::from(text.as_str()), "equality of equal protected strings");
                ensure!(s != ProtectedString::new(format!("{text}x")), "equality of different protected strings");
                // Stored and loaded, it is still the same string.
                let b = bincode::serialize(&s).map_err(|e| e.to_string())?;
                ensure!(bincode::deserialize::<ProtectedString>(&b).map_err(|e| e.to_string())? == s, "stored and loaded (bincode)");
                let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
                let l: ProtectedString = serde_json::from_str(&j).map_err(|e| format!("loading a stored protected string: {e}"))?;
                ensure!(l == s, "stored and loaded (JSON)");
                // A protected string that is dropped is wiped.
                let s2 = s.clone();
                let b: &[u8] = s2.as_ref();
                crate::alloc::watch(b);
                drop(s2);
                crate::alloc::check("protected string")?;
                live.push(s.into());
            } else {
                let p = match ctor % 3 {
                    0 => Protected::new(text.as_bytes()),
                    1 => Protected::from(text.clone().into_bytes()),
                    _ => Protected::from(text.as_str()),
                };
                live.push(p);
            }
            ensure_eq!(live[0].as_ref(), &model[..], "the protected bytes");
            for op in ops {
                let cur = live.last_mut().unwrap();
                match op {
                    Pop::Clone => {
                        let x = cur.clone();
                        ensure!(x == *cur, "a clone differs");
                        live.push(x);
                    }
                    Pop::Mutate(i, b) => {
                        if !model.is_empty() {
                            let i = *i as usize % model.len();
                            model[i] = *b;
                            let l = live.last_mut().unwrap();
                            if i % 2 == 0 { l.as_mut()[i] = *b } else { l[i] = *b }
                            live = live.split_off(live.len() - 1);
                        }
                    }
                    Pop::ToBytes => {
                        let x = Protected::from(cur.to_vec());
                        live.push(x);
                    }
                    Pop::Serde => {
                        let b = bincode::serialize(&*cur).map_err(|e| e.to_string())?;
                        live.push(bincode::deserialize(&b).map_err(|e| e.to_string())?);
                    }
                    Pop::Json => {
                        let b = serde_json::to_string(&*cur).map_err(|e| e.to_string())?;
                        live.push(serde_json::from_str(&b).map_err(|e| e.to_string())?);
                    }
                }
                ensure_eq!(live.last().unwrap().as_ref(), &model[..], "the protected bytes after {op:?}");
                // Compared and hashed as the bytes are.
                let (a, b) = (&live[0], live.last().unwrap());
                ensure_eq!(a == b, a[..] == b[..], "equality of protected bytes");
                ensure_eq!(a.cmp(b), a[..].cmp(&b[..]), "order of protected bytes");
                let other = Protected::new([&model[..], b"!"].concat());
                ensure!(other != *b && other > *b, "protected bytes against longer ones");
                check_debug(format!("{:?} {:#?}", live.last(), live.last()))?;
            }
            // Every copy is wiped when it goes, and the others stay.
            while let Some(p) = live.pop() {
                crate::alloc::watch(&p);
                drop(p);
                crate::alloc::check("protected bytes")?;
                if let Some(l) = live.last() {
                    ensure_eq!(l.len(), model.len(), "a surviving copy");
                }
            }
            Ok(())
        },
    );
    c.sub(
        "extended-keys-stay-hidden",
        "every case",
        1000,
        30_000,
        || (secret_strategy(), any::<B32>()),
        |(k, cc), obs| {
            obs.nontrivial();
            let key = ExtendedSK::new(secret(k).unwrap(), Protected::from(&cc[..]));
            let d = format!("{:?} {:?} {:#?} {:#?}", key, ExtendedPK::from_secret_key(&key), key, ExtendedPK::from_secret_key(&key));
            let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
            for x in [hex(k), hex(cc), format!("{:?}", &k[..]), format!("{:?}", &cc[..])] {
                ensure!(!d.contains(&x), "the debug form of a key shows its secret: {d}");
            }
            Ok(())
        },
    );
}
