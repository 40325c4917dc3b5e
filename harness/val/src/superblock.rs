//! Superblocks: who signs them, which votes count, what they attest, when they are final.
use crate::base::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Bytes, Tape, tapes},
};
use witnet_crypto::hash::{Sha256, calculate_sha256};
use witnet_data_structures::{
    chain::{
        AltKeys, BlockHeader, BlockMerkleRoots, Bn256PublicKey, Bn256SecretKey, Bn256Signature, CheckpointBeacon, Environment, Hash, Hashable, KeyedSignature, PublicKey, PublicKeyHash,
        Secp256k1Signature, Signature, SignaturesToVerify, SuperBlock, SuperBlockVote, tapi::in_emergency_period,
    },
    proto::versioning::VersionedHashable,
    superblock::{ARSIdentities, AddSuperBlockVote as A, SuperBlockConsensus, SuperBlockState, calculate_superblock_signing_committee, mining_build_superblock, two_thirds_consensus},
    vrf::BlockEligibilityClaim,
};

type R = Result<(), String>;

/// The fixed committee since the bootstrapping of wit/2, as published.
const WIT2_COMMITTEE: [&str; 12] = [
    "wit1pfj66p7n2x7dgrwh4cf0ylhd959e8v9evfh09z",
    "wit18ac3gly2xln0mtpp2k5rvs05rph2skef6ywnwd",
    "wit1gdn3d07njg0klyvldl8tq07h8ltm93uytgjj6x",
    "wit1llz4vw9mszjqud5pqavf84208entwz73lxekzm",
    "wit1nez044farf7qgqsulcm7jhzsfxtn39uknjq0xs",
    "wit1mczm944722tjvh2md4r6rnls08m0ctgapgew9d",
    "wit137kuzsnljkf6tpzv6dggkldjf5qte3qeh54vv0",
    "wit1huz7l0dkq9h6chh0d0geum9fnxjcq7pk2kfh7y",
    "wit1xz7vzhtvmuul922f24tayzf0dz64ellw4yczx6",
    "wit1nawuk8f2hckz6ct9wlzg95fhg3kyjzlrrd99qz",
    "wit1trkx2ptcxe57yyuql6hxy25r7twg7yc2x4pkfw",
    "wit1sp8xnclrhm4j5lrzxwnxerdetzsjqw88kwr05f",
];
const HARD_FORK_2: u32 = 376_320;
const WIT2_FROM: u32 = 304_896;
/// First and last superblock of every emergency period of the main network, and the size of its committee.
const EMERGENCIES: [(u32, u32); 4] = [(751, 1343), (44_166, 45_508), (144_201, 145_499), (224_301, 304_895)];

fn sha(data: &[u8]) -> [u8; 32] {
    calculate_sha256(data).0
}

fn bytes(h: &Hash) -> [u8; 32] {
    let Hash::SHA256(x) = h;
    *x
}

/// Merkle root by layers: an odd last node is promoted as it is.
fn root(leaves: &[[u8; 32]]) -> Hash {
    if leaves.is_empty() {
        return Hash::SHA256(sha(b""));
    }
    let mut l = leaves.to_vec();
    while l.len() > 1 {
        l = l.chunks(2).map(|c| if c.len() == 2 { sha(&[c[0], c[1]].concat()) } else { c[0] }).collect();
    }
    Hash::SHA256(l[0])
}

/// Identities are any bytes: votes are counted after their signatures were verified elsewhere.
fn pk(i: usize) -> PublicKey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&(i as u64).to_be_bytes());
    PublicKey { compressed: 2 + (i % 2) as u8, bytes: b }
}

fn pkh_of(i: usize) -> PublicKeyHash {
    pk(i).pkh()
}

fn rem(h: &[u8; 32], n: u64) -> u64 {
    h.iter().fold(0u64, |r, b| ((u128::from(r) * 256 + u128::from(*b)) % u128::from(n)) as u64)
}

/// Published selection: evenly spaced members of the ordered list, from a start that depends on the previous superblock.
fn committee(ars: &[PublicKeyHash], size: u32, index: u32, prev: &Hash, epoch: u32) -> BTreeSet<PublicKeyHash> {
    let (n, size) = (ars.len(), size as usize);
    if n <= size {
        return ars.iter().copied().collect();
    }
    if size == 0 {
        return BTreeSet::new();
    }
    let each = n / size;
    let prev = bytes(prev);
    if epoch >= HARD_FORK_2 {
        let seed = sha(&[&prev[..], &index.to_be_bytes()].concat());
        let first = rem(&seed, n as u64) as usize;
        (0..size).map(|i| ars[(first + i * each + seed[i % 32] as usize % each) % n]).collect()
    } else {
        let first = prev[0] as usize + sha(&index.to_be_bytes())[0] as usize;
        (0..size).map(|i| ars[(first + i * each) % n]).collect()
    }
}

/// Who signs superblock `index` of the main network.
fn signers(ars: &[PublicKeyHash], size: u32, index: u32, prev: &Hash, epoch: u32) -> BTreeSet<PublicKeyHash> {
    if index > WIT2_FROM {
        WIT2_COMMITTEE.iter().map(|a| a.parse().unwrap()).collect()
    } else if EMERGENCIES.iter().any(|(a, b)| (*a..=*b).contains(&index)) {
        in_emergency_period(index, Environment::Mainnet).expect("an emergency period").into_iter().collect()
    } else {
        committee(ars, size, index, prev, epoch)
    }
}

fn an_epoch(t: &mut Tape) -> u32 {
    match t.below(4) {
        0 => t.below(HARD_FORK_2 as usize) as u32,
        1 => HARD_FORK_2 - 1,
        2 => HARD_FORK_2,
        _ => HARD_FORK_2 + t.below(3_000_000) as u32,
    }
}

fn an_index(t: &mut Tape) -> u32 {
    match t.below(12) {
        0..6 => t.below(700) as u32,
        6 => 1344 + t.below(40_000) as u32,
        7 => 145_500 + t.below(70_000) as u32,
        8 | 9 => {
            let (a, b) = EMERGENCIES[t.below(4)];
            match t.below(5) {
                0 => a - 1,
                1 => a,
                2 => b,
                3 => b + 1,
                _ => a + t.below((b - a) as usize) as u32,
            }
        }
        10 => WIT2_FROM - 1 + t.below(3) as u32,
        _ => WIT2_FROM + t.below(100_000) as u32,
    }
}

fn a_hash(t: &mut Tape) -> Hash {
    Hash::SHA256(sha(&t.u64().to_be_bytes()))
}

/// A list of distinct identities, in any order.
fn an_ars(t: &mut Tape, max: usize) -> Vec<usize> {
    let n = t.below(max + 1);
    let mut v: Vec<usize> = (0..n).collect();
    shuffle(t, &mut v);
    v
}

fn one_committee(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let max = *t.pick(&[6usize, 30, 130, 400]);
    let ars = an_ars(&mut t, max);
    let ids: Vec<_> = ars.iter().map(|i| pkh_of(*i)).collect();
    let n = ids.len() as u32;
    let size = match t.below(8) {
        0 => n,
        1 => n.saturating_sub(1),
        2 => n + 1,
        3 => u32::from(t.u16()),
        4 => t.below(3) as u32,
        5 => 100,
        _ => t.below(n as usize + 1) as u32,
    };
    let (index, epoch, prev) = (an_index(&mut t), an_epoch(&mut t), a_hash(&mut t));
    o.show(|| format!("{n} identities, {size} signers, superblock {index}, epoch {epoch}"));
    o.nontrivial_if(size > 0 && size < n);
    o.label(if epoch < HARD_FORK_2 { "first selection" } else { "second selection" });
    o.label_if(size == 0, "nobody");
    let got: BTreeSet<_> = calculate_superblock_signing_committee(ARSIdentities::new(ids.clone()), size, index, prev, epoch).into_iter().collect();
    ensure_eq!(got.len(), size.min(n) as usize, "signers drawn");
    ensure!(got.iter().all(|p| ids.contains(p)), "a signer who is not in the list");
    ensure!(got == committee(&ids, size, index, &prev, epoch), "other signers than those published");
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct V {
    who: usize,
    hash: Hash,
    index: u32,
    bn: u8,
    sig: u8,
}

impl V {
    fn vote(&self) -> SuperBlockVote {
        let mut v = SuperBlockVote::new_unsigned(self.hash, self.index);
        v.set_bn256_signature(Bn256Signature { signature: vec![self.bn; 33] });
        v.set_secp256k1_signature(KeyedSignature {
            signature: Signature::Secp256k1(Secp256k1Signature { der: vec![self.sig; 70] }),
            public_key: pk(self.who),
        });
        v
    }
}

/// The set of votes seen since the last superblock was built decides everything.
#[derive(Clone)]
struct Model {
    index: u32,
    tip: Hash,
    ars_prev: Vec<usize>,
    ars_now: Vec<usize>,
    signers: BTreeSet<PublicKeyHash>,
    seen: BTreeSet<V>,
    /// Seen while the previous superblock was the tip.
    early: BTreeSet<V>,
}

impl Model {
    fn counted(&self) -> impl Iterator<Item = &V> {
        self.seen.iter().chain(&self.early).filter(|v| v.index == self.index && self.signers.contains(&pkh_of(v.who)))
    }

    /// What everyone voted for; more than one superblock is a double vote.
    fn votes(&self) -> BTreeMap<usize, BTreeSet<Hash>> {
        let mut m: BTreeMap<usize, BTreeSet<Hash>> = BTreeMap::new();
        for v in self.counted() {
            m.entry(v.who).or_default().insert(v.hash);
        }
        m
    }

    fn tally(&self) -> (BTreeMap<Hash, usize>, usize) {
        let (mut m, mut double) = (BTreeMap::new(), 0);
        for h in self.votes().values() {
            if h.len() > 1 {
                double += 1;
            } else {
                *m.entry(*h.iter().next().unwrap()).or_insert(0) += 1;
            }
        }
        (m, double)
    }

    fn add(&mut self, v: &V) -> A {
        if self.seen.contains(v) {
            return A::AlreadySeen;
        }
        let before = self.votes();
        self.seen.insert(v.clone());
        if v.index == self.index {
            if !self.signers.contains(&pkh_of(v.who)) {
                A::NotInSigningCommittee
            } else {
                match before.get(&v.who) {
                    Some(h) if h.len() > 1 || !h.contains(&v.hash) => A::DoubleVote,
                    _ if v.hash == self.tip => A::ValidWithSameHash,
                    _ => A::ValidButDifferentHash,
                }
            }
        } else if v.index == self.index + 1 {
            A::MaybeValid
        } else if self.ars_prev.is_empty() {
            A::NotInSigningCommittee
        } else {
            A::InvalidIndex
        }
    }

    fn consensus(&self) -> SuperBlockConsensus {
        let n = self.signers.len();
        let (m, double) = self.tally();
        if n == 0 {
            return SuperBlockConsensus::SameAsLocal;
        }
        let top = m.values().max().copied().unwrap_or(0);
        if top == 0 {
            return SuperBlockConsensus::Unknown;
        }
        let enough = |v: usize| v >= n * 2 / 3 && 2 * v > n;
        if enough(top) {
            let h = *m.iter().find(|(_, v)| **v == top).unwrap().0;
            return if h == self.tip { SuperBlockConsensus::SameAsLocal } else { SuperBlockConsensus::Different(h) };
        }
        if enough(top + n - double - m.values().sum::<usize>()) { SuperBlockConsensus::Unknown } else { SuperBlockConsensus::NoConsensus }
    }

    fn check(&self, s: &SuperBlockState) -> R {
        let (m, _) = self.tally();
        ensure_eq!(s.has_consensus(), self.consensus(), "consensus");
        ensure_eq!(s.valid_votes_counter(), m.values().sum::<usize>(), "valid votes");
        for (h, n) in &m {
            ensure_eq!(s.votes_counter_from_superblock(h), *n, "votes for one superblock");
        }
        ensure_eq!(s.most_voted_superblock().map(|x| x.1), m.values().max().copied(), "votes for the first");
        if let Some((h, n)) = s.most_voted_superblock() {
            ensure_eq!(m.get(&h), Some(&n), "the most voted");
        }
        ensure_eq!(s.get_committee_length() as usize, self.signers.len(), "signers");
        let names: BTreeSet<String> = s.signing_committee_pretty().into_iter().collect();
        ensure!(names == self.signers.iter().map(|p| p.to_string()).collect(), "other signers");
        ensure_eq!(s.get_beacon(), CheckpointBeacon { checkpoint: self.index, hash_prev_block: self.tip }, "beacon");
        // The votes handed to others are exactly one counted vote of everyone who voted once.
        let mut handed: BTreeMap<usize, SuperBlockVote> = BTreeMap::new();
        for v in s.get_current_superblock_votes() {
            let known = self.counted().find(|x| x.vote() == v).ok_or("a vote nobody cast is handed out")?;
            ensure!(handed.insert(known.who, v).is_none(), "two votes of one signer are handed out");
        }
        let single: BTreeSet<usize> = self.votes().iter().filter(|(_, h)| h.len() == 1).map(|(w, _)| *w).collect();
        ensure!(handed.keys().copied().collect::<BTreeSet<_>>() == single, "votes handed out: those of {:?}, not of {single:?}", handed.keys());
        Ok(())
    }
}

const CROWD: usize = 16;

fn a_header(t: &mut Tape) -> BlockHeader {
    BlockHeader {
        signals: t.u32(),
        beacon: CheckpointBeacon { checkpoint: t.u32(), hash_prev_block: a_hash(t) },
        merkle_roots: BlockMerkleRoots { mint_hash: a_hash(t), dr_hash_merkle_root: a_hash(t), tally_hash_merkle_root: a_hash(t), vt_hash_merkle_root: a_hash(t), ..Default::default() },
        proof: BlockEligibilityClaim::default(),
        bn256_public_key: None,
    }
}

fn bn_key(i: usize) -> Bn256PublicKey {
    Bn256PublicKey::from_secret_key(&Bn256SecretKey::from_slice(&[i as u8 + 1; 32]).unwrap()).unwrap()
}

fn superblock_hash(s: &SuperBlock) -> [u8; 32] {
    sha(&[
        &s.signing_committee_length.to_be_bytes()[..],
        s.ars_root.as_ref(),
        s.data_request_root.as_ref(),
        &s.index.to_be_bytes(),
        s.last_block.as_ref(),
        s.last_block_in_previous_superblock.as_ref(),
        s.tally_root.as_ref(),
    ]
    .concat())
}

fn history(b: &Bytes, o: &mut Obs) -> R {
    protocol();
    let mut t = b.tape();
    let genesis = a_hash(&mut t);
    let boot = an_ars(&mut t, CROWD);
    let mut s = SuperBlockState::new(genesis, boot.iter().map(|i| pkh_of(*i)).collect());
    let mut m = Model { index: 0, tip: genesis, ars_prev: boot.clone(), ars_now: boot.clone(), signers: boot.iter().map(|i| pkh_of(*i)).collect(), seen: BTreeSet::new(), early: BTreeSet::new() };
    let mut alt = AltKeys::default();
    let mut keys: HashMap<usize, Bn256PublicKey> = HashMap::new();
    let mut log = vec![];
    let start = an_index(&mut t);
    let (mut built, mut double, mut late) = (0, 0, false);
    let hashes: Vec<Hash> = (0..3).map(|_| a_hash(&mut t)).collect();
    let mut cast: Vec<V> = vec![];
    while t.left() > 0 && log.len() < 120 {
        match t.below(12) {
            11 => {
                // The next superblock, or a later one.
                let index = if built == 0 { start } else { m.index + 1 + u32::from(t.odds(40)) * t.below(5) as u32 };
                let (size, epoch) = (if t.odds(90) { t.below(6) as u32 } else { 1 + t.below(CROWD + 2) as u32 }, an_epoch(&mut t));
                let ars = an_ars(&mut t, CROWD);
                let n = t.below(4);
                let headers: Vec<_> = (0..n).map(|_| a_header(&mut t)).collect();
                let last = a_hash(&mut t);
                for _ in 0..t.below(4) {
                    let (i, k) = (t.below(CROWD), t.below(200));
                    if k >= 180 {
                        let mut bad = Bn256PublicKey::default();
                        bad.public_key = vec![k as u8; k - 150];
                        ensure!(alt.insert_bn256(pkh_of(i), bad).is_none(), "an invalid key replaces a key");
                        ensure!(alt.get_bn256(&pkh_of(i)) == keys.get(&i), "an invalid key is taken");
                    } else {
                        ensure_eq!(alt.insert_bn256(pkh_of(i), bn_key(k)), keys.insert(i, bn_key(k)), "replaced key");
                    }
                }
                let sync = t.odds(60).then(|| SuperBlock::new(t.below(CROWD + 2) as u32, a_hash(&mut t), a_hash(&mut t), t.u32(), a_hash(&mut t), a_hash(&mut t), a_hash(&mut t)));
                let of = sync.as_ref().map_or(size, |s| s.signing_committee_length);
                let mut next = m.clone();
                next.early = m.seen.clone();
                next.seen.clear();
                next.ars_prev = std::mem::replace(&mut next.ars_now, ars.clone());
                let prev: Vec<_> = next.ars_prev.iter().map(|i| pkh_of(*i)).collect();
                next.signers = signers(&prev, of, index, &m.tip, epoch);
                next.index = index;
                let ids = ARSIdentities::new(ars.iter().map(|i| pkh_of(*i)).collect());
                let got = s.build_superblock(&headers, ids, size, index, last, &alt, sync.clone(), epoch);
                let v = version(epoch);
                let leaf = |k: &Bn256PublicKey| sha(&k.to_uncompressed().unwrap());
                let want = sync.clone().unwrap_or_else(|| {
                    SuperBlock::new(
                        next.signers.len() as u32,
                        root(&ars.iter().filter_map(|i| keys.get(i).map(leaf)).collect::<Vec<_>>()),
                        if headers.is_empty() { Hash::default() } else { root(&headers.iter().map(|h| bytes(&h.merkle_roots.dr_hash_merkle_root)).collect::<Vec<_>>()) },
                        index,
                        headers.last().map_or(last, |h| h.versioned_hash(v)),
                        last,
                        if headers.is_empty() { Hash::default() } else { root(&headers.iter().map(|h| bytes(&h.merkle_roots.tally_hash_merkle_root)).collect::<Vec<_>>()) },
                    )
                });
                ensure!(got == want, "superblock {got:?}, not {want:?}");
                ensure_eq!(got.hash(), Hash::SHA256(superblock_hash(&got)), "hash of the superblock");
                next.tip = got.hash();
                late |= next.counted().count() > 0;
                m = next;
                built += 1;
                o.label_if(sync.is_some(), "built from a superblock of others");
                o.label_if(m.signers.is_empty(), "no signers");
                o.label_if(EMERGENCIES.iter().any(|(a, b)| (*a..=*b).contains(&index)), "emergency");
                log.push(format!("build {index} with {} signers", m.signers.len()));
            }
            10 if !cast.is_empty() => {
                // The same vote again, or one that differs in what does not matter.
                let mut v = cast[t.below(cast.len())].clone();
                if t.bool() {
                    v.bn ^= 1 + t.u8() % 3;
                }
                if t.odds(60) {
                    v.sig ^= 1;
                }
                let want = m.add(&v);
                double += usize::from(want == A::DoubleVote);
                log.push(format!("again {v:?}: {want:?}"));
                ensure_eq!(s.add_vote(&v.vote(), m.index), want, "vote repeated after {log:?}");
                cast.push(v);
            }
            _ => {
                let hash = match t.below(4) {
                    0 | 1 => m.tip,
                    k => hashes[k - 1],
                };
                let index = match t.below(12) {
                    0..8 => m.index,
                    8..11 => m.index + 1,
                    _ => *t.pick(&[m.index + 2, m.index.saturating_sub(1), u32::MAX]),
                };
                let v = V { who: t.below(CROWD + 1), hash, index, bn: t.u8() % 2, sig: 0 };
                ensure_eq!(s.contains(&v.vote()), m.seen.contains(&v), "seen");
                let want = m.add(&v);
                double += usize::from(want == A::DoubleVote);
                log.push(format!("{} votes {:02x} at {index}: {want:?}", v.who, bytes(&hash)[0]));
                ensure_eq!(s.add_vote(&v.vote(), m.index), want, "vote after {log:?}");
                ensure!(s.contains(&v.vote()), "a vote that was added is not seen");
                cast.push(v);
            }
        }
        m.check(&s).map_err(|e| format!("{e} after {log:?}"))?;
    }
    o.show(|| log.join("; "));
    o.nontrivial_if(built > 0 && m.tally().0.values().sum::<usize>() > 1);
    o.label_if(double > 0, "double vote");
    o.label_if(late, "votes that came early");
    o.label(match m.consensus() {
        SuperBlockConsensus::SameAsLocal => "same as local",
        SuperBlockConsensus::Different(_) => "different",
        SuperBlockConsensus::NoConsensus => "no consensus",
        SuperBlockConsensus::Unknown => "unknown",
    });
    // It survives storage.
    let stored: SuperBlockState = bincode::deserialize(&bincode::serialize(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    ensure!(stored == s, "the state changes when stored");
    m.check(&stored)
}

/// The clock of a node may be ahead of its superblocks: votes are then judged against an index that is not the tip's.
fn ahead(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let n = 1 + t.below(8);
    let mut s = SuperBlockState::new(a_hash(&mut t), (0..n).map(pkh_of).collect());
    let hashes: Vec<Hash> = (0..3u8).map(|i| Hash::SHA256([i + 1 + 3 * (t.u8() % 50); 32])).collect();
    let (mut index, mut clock) = (0u32, 0u32);
    let (mut valid, mut refused) = (0, 0);
    for _ in 0..60 {
        match t.below(10) {
            9 => clock += 1,
            8 => {
                index = clock;
                s.build_superblock(&[], ARSIdentities::new((0..n).map(pkh_of).collect()), n as u32, index, a_hash(&mut t), &AltKeys::default(), None, 0);
            }
            _ => {
                let v = V { who: t.below(n), hash: hashes[t.below(3)], index: clock.saturating_sub(u32::from(t.odds(40))) + u32::from(t.odds(80)), bn: t.u8() % 2, sig: 0 };
                match s.add_vote(&v.vote(), clock) {
                    A::ValidButDifferentHash | A::ValidWithSameHash => valid += 1,
                    A::DoubleVote => refused += 1,
                    _ => {}
                }
            }
        }
        let sum: usize = hashes.iter().map(|h| s.votes_counter_from_superblock(h)).sum();
        ensure_eq!(sum, s.valid_votes_counter(), "votes by superblock and by signer");
        let handed = s.get_current_superblock_votes();
        ensure_eq!(handed.len(), sum, "votes handed out");
        let signers: BTreeSet<_> = handed.iter().map(|v| v.secp256k1_signature.public_key.pkh()).collect();
        ensure_eq!(signers.len(), sum, "signers of the votes handed out");
        s.has_consensus();
    }
    o.nontrivial_if(valid > 1 && refused > 0 && clock > index);
    Ok(())
}

/// Nodes with the same signers and different views of their votes.
fn agreement(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let n = if t.odds(80) { 1 + t.below(6) } else { 1 + t.below(40) };
    let liars = if t.bool() { 0 } else { t.below(n / 3 + 1) };
    let hashes: Vec<Hash> = (0..2 + t.below(2)).map(|i| Hash::SHA256([i as u8 + 1 + 3 * (t.u8() % 50); 32])).collect();
    let choice: Vec<usize> = (0..n).map(|_| if t.odds(90) { 0 } else { t.below(hashes.len()) }).collect();
    let mut results = vec![];
    for _ in 0..4 {
        let mut s = SuperBlockState::new(hashes[0], (0..n).map(pkh_of).collect());
        let mut order: Vec<usize> = (0..n).collect();
        shuffle(&mut t, &mut order);
        let drop = t.below(6);
        for i in order {
            if drop > 0 && t.below(16) < drop {
                continue;
            }
            let h = if i < liars { t.below(hashes.len()) } else { choice[i] };
            s.add_vote(&V { who: i, hash: hashes[h], index: 0, bn: 0, sig: 0 }.vote(), 0);
        }
        results.push(match s.has_consensus() {
            SuperBlockConsensus::SameAsLocal => Some(hashes[0]),
            SuperBlockConsensus::Different(h) => Some(h),
            SuperBlockConsensus::NoConsensus | SuperBlockConsensus::Unknown => None,
        });
    }
    let decided: BTreeSet<Hash> = results.iter().flatten().copied().collect();
    o.show(|| format!("{n} signers, {liars} vote twice, {choice:?}: {} decide", results.iter().flatten().count()));
    o.nontrivial_if(results.iter().flatten().count() > 1);
    o.label_if(liars > 0, "signers who vote differently to different nodes");
    o.label_if(decided.is_empty(), "nobody decides");
    // Two superblocks need at least one signer more than the committee has.
    let quorum = (0..=n).find(|v| two_thirds_consensus(*v, n)).ok_or("never a consensus")?;
    if 2 * quorum > n + liars {
        ensure!(decided.len() <= 1, "with {n} signers, {liars} of which vote twice, nodes decide for {} superblocks", decided.len());
    }
    ensure!(2 * quorum > n, "two superblocks can both have the consensus of {n} signers: {quorum} votes are enough");
    Ok(())
}

fn quorum(n: &usize) -> R {
    let n = *n;
    for v in 0..=n {
        let want = v >= n * 2 / 3 && 2 * v > n;
        ensure_eq!(two_thirds_consensus(v, n), want, "{v} of {n} votes");
        if two_thirds_consensus(v, n) {
            ensure!(2 * v > n, "{v} of {n} votes are no majority");
        }
    }
    Ok(())
}

/// Real signatures, and every way to spoil them.
fn signed(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let i = t.below(KEYS);
    let mut v = SuperBlockVote::new_unsigned(a_hash(&mut t), t.u32());
    let n = t.below(70);
    v.set_bn256_signature(Bn256Signature { signature: t.array::<70>()[..n].to_vec() });
    let bn = [&v.superblock_index.to_be_bytes()[..], v.superblock_hash.as_ref()].concat();
    ensure!(v.bn256_signature_message() == bn, "message for the bn256 signature");
    let message = [&bn[..], &v.bn256_signature.signature].concat();
    ensure!(v.secp256k1_signature_message() == message, "message for the secp256k1 signature");
    v.set_secp256k1_signature(sign_hash(i, Hash::SHA256(sha(&message))));
    let ok = |v: &SuperBlockVote| check_signatures(vec![SignaturesToVerify::SuperBlockVote { superblock_vote: v.clone() }]).is_ok();
    ensure!(ok(&v), "a vote signed by its author is refused");
    let good = v.clone();
    let what = match t.below(9) {
        0 => {
            v.superblock_index ^= 1 << t.below(32);
            "index"
        }
        1 => {
            let mut h = bytes(&v.superblock_hash);
            h[t.below(32)] ^= 1 << t.below(8);
            v.superblock_hash = Hash::SHA256(h);
            "hash"
        }
        2 => {
            let s = &mut v.bn256_signature.signature;
            if s.is_empty() || t.bool() {
                s.push(t.u8());
            } else {
                let k = t.below(s.len());
                s[k] ^= 1 << t.below(8);
            }
            "bn256 signature"
        }
        3 => {
            v.secp256k1_signature.public_key = key((i + 1 + t.below(KEYS - 1)) % KEYS).public.clone();
            "other author"
        }
        4 => {
            v.secp256k1_signature.public_key = PublicKey { compressed: t.u8(), bytes: t.array::<32>() };
            "no key"
        }
        5 => {
            v.secp256k1_signature.signature = Signature::Secp256k1(Secp256k1Signature { der: (0..t.below(80)).map(|_| t.u8()).collect() });
            "no signature"
        }
        6 => {
            v.secp256k1_signature = KeyedSignature::default();
            "empty signature"
        }
        7 => {
            let Signature::Secp256k1(s) = &mut v.secp256k1_signature.signature;
            let k = t.below(s.der.len());
            s.der[k] ^= 1 << t.below(8);
            "signature"
        }
        _ => {
            v.secp256k1_signature = sign_hash(i, Hash::SHA256(sha(&bn)));
            "signature of another message"
        }
    };
    o.label(what);
    o.show(|| format!("vote of {i} with another {what}"));
    // Some encodings say the same twice; such a vote must still say what its author signed.
    if v == good || (what == "signature of another message" && v.secp256k1_signature_message() == bn) {
        return Ok(());
    }
    o.nontrivial();
    if what == "signature" && ok(&v) {
        return Ok(());
    }
    ensure!(!ok(&v), "a vote with another {what} than its author's is accepted: {v:?}");
    Ok(())
}

fn contents(b: &Bytes, o: &mut Obs) -> R {
    protocol();
    let mut t = b.tape();
    let n = t.below(12);
    let headers: Vec<_> = (0..n).map(|_| a_header(&mut t)).collect();
    let leaves: Vec<Hash> = (0..t.below(20)).map(|_| a_hash(&mut t)).collect();
    let (index, last, size, v) = (t.u32(), a_hash(&mut t), t.u32(), version(*t.pick(&[0, V1_8, V2_0])));
    let s = mining_build_superblock(&headers, &leaves, index, last, size, v);
    let roots = |f: fn(&BlockHeader) -> Hash| if headers.is_empty() { Hash::default() } else { root(&headers.iter().map(|h| bytes(&f(h))).collect::<Vec<_>>()) };
    let want = SuperBlock::new(
        size,
        root(&leaves.iter().map(bytes).collect::<Vec<_>>()),
        roots(|h| h.merkle_roots.dr_hash_merkle_root),
        index,
        headers.last().map_or(last, |h| h.versioned_hash(v)),
        last,
        roots(|h| h.merkle_roots.tally_hash_merkle_root),
    );
    ensure!(s == want, "superblock {s:?}, not {want:?}");
    ensure_eq!(s.hash(), Hash::SHA256(superblock_hash(&s)), "hash");
    o.nontrivial_if(n > 2 && leaves.len() > 2);
    o.show(|| format!("{n} blocks, {} keys", leaves.len()));
    Ok(())
}

fn published(k: &usize) -> R {
    let (a, b) = EMERGENCIES[*k];
    let list = in_emergency_period(a, Environment::Mainnet).ok_or("no emergency committee in an emergency period")?;
    ensure!(in_emergency_period(b, Environment::Mainnet) == Some(list.clone()), "the emergency committee changes within its period");
    ensure!(in_emergency_period(a - 1, Environment::Mainnet).is_none() && in_emergency_period(b + 1, Environment::Mainnet).is_none(), "an emergency committee outside its period");
    ensure!(in_emergency_period(a, Environment::Testnet).is_none() && in_emergency_period(a, Environment::Development).is_none(), "an emergency of the main network elsewhere");
    let distinct: BTreeSet<_> = list.iter().collect();
    ensure!(distinct.len() == list.len(), "an identity twice in a committee");
    let text: Vec<String> = list.iter().map(|p| p.to_string()).collect();
    let Sha256(d) = calculate_sha256(text.join(",").as_bytes());
    ensure_eq!((list.len(), hex::encode(&d[..8])), (EMERGENCY_DIGESTS[*k].0, EMERGENCY_DIGESTS[*k].1.to_string()), "emergency committee {k}");
    Ok(())
}

/// Size and digest of the emergency committees as published.
const EMERGENCY_DIGESTS: [(usize, &str); 4] = [(7, "24292317a652c43f"), (6, "709547396ea32d5b"), (7, "45da61de0c803cca"), (6, "d349423eaae81c6b")];

pub fn c28(c: &mut Check) {
    c.sub("committee", "fewer signers than identities", 6000, 200_000, || tapes(900), one_committee);
    c.each("emergency committees", "every period", (0..4).collect(), |k, o| {
        o.nontrivial();
        published(k)
    });
    c.each("quorum", "every committee of up to 600 signers, every number of votes", (1..=600).collect(), |n, o| {
        o.nontrivial();
        quorum(n)
    });
    c.sub("votes", "superblocks were built and several votes count", 12_000, 400_000, || tapes(1600), history);
    c.sub("clock ahead", "votes of several superblocks at once and double votes", 6000, 200_000, || tapes(500), ahead);
    c.sub("agreement", "several nodes decide", 8000, 300_000, || tapes(700), agreement);
    c.sub("contents", "several blocks and keys", 3000, 100_000, || tapes(400), contents);
    c.sub("signatures", "a spoilt vote", 2500, 80_000, || tapes(300), signed);
}
