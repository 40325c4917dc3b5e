//! Encoding, decoding and hashing of the protocol's structures.
use crate::{arb, refpb};
use proptest::prelude::*;
use sha2_10::Digest;
use vpkit::{Check, Obs, ensure, ensure_eq, tape::*};
use witnet_data_structures::{
    chain::*,
    proto::{
        ProtobufConvert,
        versioning::{ProtocolVersion, Versioned, VersionedHashable},
    },
    transaction::*,
    types::{Command, Message},
};

pub const VERSIONS: [ProtocolVersion; 4] = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1];

pub fn sha(b: &[u8]) -> Hash {
    Hash::SHA256(sha2_10::Sha256::digest(b).into())
}

fn same_bytes(a: &[u8], b: &[u8], what: &str) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    Err(format!("{what}: {} bytes where the schema gives {}, differing from byte {i}", a.len(), b.len()))
}

fn round_trip<T>(x: &T, reference: &refpb::Pb, what: &str) -> Result<(), String>
where
    T: ProtobufConvert + PartialEq + std::fmt::Debug,
    T::ProtoStruct: protobuf::Message,
{
    let bytes = x.to_pb_bytes().map_err(|e| format!("{what} does not encode: {e}"))?;
    same_bytes(&bytes, &reference.0, what)?;
    let back = T::from_pb_bytes(&bytes).map_err(|e| format!("{what} does not decode: {e}"))?;
    ensure!(back == *x, "{what} decodes to another value");
    ensure_eq!(back.to_pb_bytes().map_err(|e| e.to_string())?, bytes, "{what} encoded again");
    Ok(())
}

/// What the legacy form of a message can carry.
fn legacy_view(m: &Message) -> Message {
    let mut m = m.clone();
    if let Command::Block(b) = &mut m.kind {
        let mut h = b.block_header.clone();
        h.merkle_roots.stake_hash_merkle_root = Hash::default();
        h.merkle_roots.unstake_hash_merkle_root = Hash::default();
        let mut t = b.txns.clone();
        t.stake_txns.clear();
        t.unstake_txns.clear();
        *b = Block::new(h, b.block_sig.clone(), t);
    }
    m
}

pub fn c17(c: &mut Check) {
    c.sub(
        "message",
        "the message carries a block, a transaction or a list",
        60_000,
        2_000_000,
        || tapes(6000),
        |b, obs| {
            let m = arb::message(&mut b.tape());
            let kind = arb::message_kind(&m);
            obs.label(kind);
            obs.nontrivial_if(b.0.len() > 64);
            obs.show(|| format!("{m:?}"));
            round_trip(&m, &refpb::message(&m, ProtocolVersion::V2_0), kind)?;
            for v in VERSIONS {
                let bytes = m.to_versioned_pb_bytes(v).map_err(|e| e.to_string())?;
                same_bytes(&bytes, &refpb::message(&m, v).0, &format!("{kind} in the form of {v}"))?;
                let back = Message::from_versioned_pb_bytes(&bytes).map_err(|e| format!("{kind} in the form of {v} does not decode: {e}"))?;
                let want = if v == ProtocolVersion::V1_7 { legacy_view(&m) } else { m.clone() };
                ensure!(back == want, "{kind} in the form of {v} decodes to another value");
            }
            Ok(())
        },
    );
    c.sub(
        "transaction",
        "the transaction has inputs, outputs or signatures",
        80_000,
        3_000_000,
        || tapes(3000),
        |b, obs| {
            let tx = arb::transaction(&mut b.tape());
            obs.label(arb::kind(&tx));
            obs.nontrivial_if(b.0.len() > 40);
            obs.show(|| format!("{tx:?}"));
            let reference = refpb::transaction(&tx);
            round_trip(&tx, &reference, arb::kind(&tx))?;
            ensure_eq!(tx.size() as usize, reference.0.len(), "size of the transaction");
            match &tx {
                Transaction::ValueTransfer(t) => round_trip(t, &refpb::vtt(t), "value transfer"),
                Transaction::DataRequest(t) => {
                    round_trip(t, &refpb::drt(t), "data request")?;
                    round_trip(&t.body.dr_output, &refpb::dr_output(&t.body.dr_output), "data request output")?;
                    round_trip(&t.body.dr_output.data_request, &refpb::rad_request(&t.body.dr_output.data_request), "RAD request")
                }
                Transaction::Commit(t) => round_trip(t, &refpb::commit(t), "commit"),
                Transaction::Reveal(t) => round_trip(t, &refpb::reveal(t), "reveal"),
                Transaction::Tally(t) => round_trip(t, &refpb::tally(t), "tally"),
                Transaction::Mint(t) => round_trip(t, &refpb::mint(t), "mint"),
                Transaction::Stake(t) => round_trip(t, &refpb::stake(t), "stake"),
                Transaction::Unstake(t) => round_trip(t, &refpb::unstake(t), "unstake"),
            }
        },
    );
    c.sub(
        "block",
        "the block carries transactions beyond the mint",
        20_000,
        1_000_000,
        || tapes(6000),
        |b, obs| {
            let mut t = b.tape();
            let block = arb::block(&mut t);
            obs.nontrivial_if(block.txns.len() > 1);
            obs.label_if(!block.txns.stake_txns.is_empty(), "stakes");
            obs.label_if(!block.txns.unstake_txns.is_empty(), "unstakes");
            obs.show(|| format!("{block:?}"));
            round_trip(&block, &refpb::block(&block, ProtocolVersion::V2_0), "block")?;
            round_trip(&block.block_header, &refpb::header(&block.block_header, ProtocolVersion::V2_0), "block header")?;
            for v in VERSIONS {
                let bytes = block.to_versioned_pb_bytes(v).map_err(|e| e.to_string())?;
                same_bytes(&bytes, &refpb::block(&block, v).0, &format!("block in the form of {v}"))?;
                let bytes = block.block_header.to_versioned_pb_bytes(v).map_err(|e| e.to_string())?;
                same_bytes(&bytes, &refpb::header(&block.block_header, v).0, &format!("header in the form of {v}"))?;
            }
            let s = arb::superblock(&mut t);
            round_trip(&s, &refpb::superblock(&s), "superblock")?;
            let v = arb::vote(&mut t);
            round_trip(&v, &refpb::vote(&v), "superblock vote")
        },
    );
}

/// Mutations of encodings: what a peer may send.
fn damage(t: &mut Tape<'_>, bytes: &mut Vec<u8>) {
    for _ in 0..1 + t.below(4) {
        let n = bytes.len();
        match t.below(8) {
            0 if n > 0 => {
                let i = t.below(n);
                bytes[i] = t.u8();
            }
            1 if n > 0 => {
                let i = t.below(n);
                bytes[i] ^= 1 << t.below(8);
            }
            2 => bytes.truncate(t.below(n + 1)),
            3 => {
                let i = t.below(n + 1);
                bytes.insert(i, t.u8());
            }
            4 if n > 0 => {
                let i = t.below(n);
                let j = (i + 1 + t.below(40)).min(n);
                bytes.drain(i..j);
            }
            5 if n > 0 => {
                let i = t.below(n);
                let j = (i + 1 + t.below(40)).min(n);
                let cut: Vec<u8> = bytes[i..j].to_vec();
                let k = t.below(n + 1);
                for (d, b) in cut.into_iter().enumerate() {
                    bytes.insert(k + d, b);
                }
            }
            6 => {
                let i = t.below(n + 1);
                let pool: [&[u8]; 8] = [
                    &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
                    &[0x0a, 0x00],
                    &[0x12, 0x00],
                    &[0x80; 12],
                    &[0x0b],
                    &[0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f],
                    &[0x18, 0xff, 0xff, 0x04],
                    &[0x0d, 0, 0, 0],
                ];
                let ins = *t.pick(&pool);
                for (d, b) in ins.iter().enumerate() {
                    bytes.insert(i + d, *b);
                }
            }
            _ => bytes.extend(t.bytes(3)),
        }
    }
}

fn decode_anything(bytes: &[u8], obs: &mut Obs) -> Result<(), String> {
    if let Ok(m) = Message::from_versioned_pb_bytes(bytes) {
        obs.label("decodes as a message");
        // What was accepted is a value like any other.
        let again = m.to_pb_bytes().map_err(|e| format!("an accepted message does not encode: {e}"))?;
        let back = Message::from_versioned_pb_bytes(&again).map_err(|e| format!("an accepted message does not decode again: {e}"))?;
        ensure!(back == m, "an accepted message encodes to another one");
        if let Command::Transaction(tx) = &m.kind {
            let _ = (tx.hash(), tx.weight(), tx.size(), tx.signatures());
        }
        let _ = m.kind.to_string();
    }
    if let Ok(tx) = Transaction::from_pb_bytes(bytes) {
        obs.label("decodes as a transaction");
        let again = tx.to_pb_bytes().map_err(|e| e.to_string())?;
        let back = Transaction::from_pb_bytes(&again).map_err(|e| format!("an accepted transaction does not decode again: {e}"))?;
        ensure!(back == tx, "an accepted transaction encodes to another one");
        ensure_eq!(back.hash(), tx.hash(), "hash of the transaction after the trip");
    }
    if let Ok(b) = Block::from_pb_bytes(bytes) {
        obs.label("decodes as a block");
        let _ = (b.hash(), b.txns.len());
        let again = b.to_pb_bytes().map_err(|e| e.to_string())?;
        ensure!(Block::from_pb_bytes(&again).is_ok_and(|x| x == b), "an accepted block encodes to another one");
    }
    if let Ok(s) = SuperBlock::from_pb_bytes(bytes) {
        obs.label("decodes as a superblock");
        let _ = s.hash();
    }
    let _ = SuperBlockVote::from_pb_bytes(bytes);
    let _ = BlockHeader::from_pb_bytes(bytes);
    let _ = RADRequest::from_pb_bytes(bytes).map(|r| r.weight());
    let _ = DataRequestOutput::from_pb_bytes(bytes).map(|r| (r.weight(), r.extra_weight(), r.checked_total_value()));
    let _ = KeyedSignature::from_pb_bytes(bytes);
    Ok(())
}

pub fn c18(c: &mut Check) {
    c.sub(
        "damaged",
        "the damaged encoding differs from the original and is not empty",
        100_000,
        6_000_000,
        || tapes(1500),
        |b, obs| {
            let mut t = b.tape();
            let which = t.below(4);
            let version = *t.pick(&VERSIONS);
            let mut m = t.clone();
            let noise = t.bytes(12);
            let _ = noise;
            let original = match which {
                0 => arb::message(&mut t).to_versioned_pb_bytes(version),
                1 => arb::transaction(&mut t).to_pb_bytes(),
                2 => arb::block(&mut t).to_pb_bytes(),
                _ => arb::message(&mut t).to_pb_bytes(),
            }
            .map_err(|e| e.to_string())?;
            let mut bytes = original.clone();
            damage(&mut m, &mut bytes);
            obs.nontrivial_if(bytes != original && !bytes.is_empty());
            decode_anything(&bytes, obs)
        },
    );
    c.sub(
        "arbitrary",
        "more than two bytes",
        100_000,
        6_000_000,
        || prop_oneof![tapes(80), pseudo(3)],
        |b, obs| {
            obs.nontrivial_if(b.0.len() > 2);
            decode_anything(&b.0, obs)
        },
    );
}

/// Well-formed protobuf with fields of any number and type, nested.
fn pseudo(depth: u32) -> impl Strategy<Value = Bytes> {
    fn field(inner: BoxedStrategy<Vec<u8>>) -> BoxedStrategy<Vec<u8>> {
        let num = prop_oneof![1u32..12, 1u32..40];
        let var = |mut x: u64| {
            let mut v = vec![];
            while x >= 0x80 {
                v.push(x as u8 | 0x80);
                x >>= 7;
            }
            v.push(x as u8);
            v
        };
        let body = prop_oneof![
            2 => prop_oneof![0u64..4, any::<u64>()].prop_map(move |x| (0u32, var(x))),
            1 => any::<[u8; 4]>().prop_map(|x| (5, x.to_vec())),
            1 => any::<[u8; 8]>().prop_map(|x| (1, x.to_vec())),
            6 => inner.prop_map(move |x| (2, [var(x.len() as u64), x].concat())),
        ];
        (num, body).prop_map(move |(f, (w, b))| [var(u64::from(f << 3 | w)), b].concat()).boxed()
    }
    let leaf = prop_oneof![
        proptest::collection::vec(any::<u8>(), 0..4),
        prop_oneof![Just(20usize), Just(32), Just(33), Just(6), Just(18), Just(0)].prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n)),
    ]
    .boxed();
    let mut s: BoxedStrategy<Vec<u8>> = leaf.clone();
    for _ in 0..depth {
        let f = field(s.clone());
        s = prop_oneof![1 => leaf.clone(), 4 => proptest::collection::vec(f, 0..4).prop_map(|v| v.concat())].boxed();
    }
    proptest::collection::vec(field(s), 0..4).prop_map(|v| Bytes(v.concat()))
}

fn ref_hash(tx: &Transaction, v: ProtocolVersion) -> Hash {
    let _ = v;
    let two = |a: Hash, b: Hash| sha(&[a.as_ref(), b.as_ref()].concat());
    match tx {
        Transaction::ValueTransfer(t) => sha(&refpb::vt_body(&t.body).0),
        Transaction::DataRequest(t) => two(sha(&refpb::dr_output(&t.body.dr_output).0), sha(&refpb::dr_body(&t.body).0)),
        Transaction::Commit(t) => sha(&refpb::commit_body(&t.body).0),
        Transaction::Reveal(t) => sha(&refpb::reveal_body(&t.body).0),
        Transaction::Tally(t) => two(sha(&[t.dr_pointer.as_ref(), &t.tally].concat()), sha(&refpb::tally(t).0)),
        Transaction::Mint(t) => sha(&refpb::mint(t).0),
        Transaction::Stake(t) => sha(&refpb::stake_body(&t.body).0),
        Transaction::Unstake(t) => sha(&refpb::unstake_body(&t.body).0),
    }
}

fn ref_root(mut layer: Vec<Hash>) -> Hash {
    if layer.is_empty() {
        return sha(b"");
    }
    while layer.len() > 1 {
        layer = layer.chunks(2).map(|p| if let [a, b] = p { sha(&[a.as_ref(), b.as_ref()].concat()) } else { p[0] }).collect();
    }
    layer[0]
}

fn climb(leaf: Hash, mut index: usize, lemma: &[Hash]) -> (Hash, usize) {
    let mut h = leaf;
    for s in lemma {
        h = if index & 1 == 1 { sha(&[s.as_ref(), h.as_ref()].concat()) } else { sha(&[h.as_ref(), s.as_ref()].concat()) };
        index >>= 1;
    }
    (h, index)
}

pub fn c19(c: &mut Check) {
    c.sub(
        "transaction",
        "the transaction has inputs, outputs or signatures",
        80_000,
        3_000_000,
        || tapes(3000),
        |b, obs| {
            let mut t = b.tape();
            let tx = arb::transaction(&mut t);
            obs.label(arb::kind(&tx));
            obs.nontrivial_if(b.0.len() > 40);
            let want = ref_hash(&tx, ProtocolVersion::V1_7);
            ensure_eq!(tx.hash(), want, "hash of a {}", arb::kind(&tx));
            ensure_eq!(tx.hash(), want, "hash asked for again");
            ensure_eq!(tx.clone().hash(), want, "hash of a copy");
            for v in VERSIONS {
                ensure_eq!(tx.versioned_hash(v), ref_hash(&tx, v), "hash under {v} of a {}", arb::kind(&tx));
            }
            // The signatures are not part of what is hashed.
            let mut other = tx.clone();
            match &mut other {
                Transaction::ValueTransfer(x) => x.signatures = arb::keyeds(&mut t),
                Transaction::DataRequest(x) => x.signatures = arb::keyeds(&mut t),
                Transaction::Commit(x) => x.signatures = arb::keyeds(&mut t),
                Transaction::Reveal(x) => x.signatures = arb::keyeds(&mut t),
                Transaction::Stake(x) => x.signatures = arb::keyeds(&mut t),
                Transaction::Unstake(x) => x.signature = arb::keyed(&mut t),
                _ => {}
            }
            ensure_eq!(other.hash(), want, "hash with other signatures");
            let back = Transaction::from_pb_bytes(&other.to_pb_bytes().unwrap()).map_err(|e| e.to_string())?;
            ensure_eq!(back.hash(), want, "hash of the decoded transaction");
            Ok(())
        },
    );
    c.sub(
        "block",
        "the block carries transactions beyond the mint",
        20_000,
        100_000,
        || tapes(5000),
        |b, obs| {
            let mut t = b.tape();
            let mut block = arb::block(&mut t);
            obs.nontrivial_if(block.txns.len() > 1);
            for v in VERSIONS {
                let want = sha(&refpb::header(&block.block_header, v).0);
                ensure_eq!(block.versioned_hash(v), want, "hash of the block under {v}");
                ensure_eq!(block.block_header.versioned_hash(v), want, "hash of the header under {v}");
            }
            // The protocol in force in this process is the first one.
            ensure_eq!(block.hash(), sha(&refpb::header(&block.block_header, ProtocolVersion::V1_7).0), "hash of the block");
            for v in VERSIONS {
                let r = BlockMerkleRoots::from_transactions(&block.txns, v);
                let x = &block.txns;
                macro_rules! root {
                    ($l:expr, $k:ident) => {
                        ref_root($l.iter().map(|t| ref_hash(&Transaction::$k(t.clone()), v)).collect())
                    };
                }
                ensure_eq!(r.mint_hash, ref_hash(&Transaction::Mint(x.mint.clone()), v), "mint hash");
                ensure_eq!(r.vt_hash_merkle_root, root!(x.value_transfer_txns, ValueTransfer), "value transfer root");
                ensure_eq!(r.dr_hash_merkle_root, root!(x.data_request_txns, DataRequest), "data request root");
                ensure_eq!(r.commit_hash_merkle_root, root!(x.commit_txns, Commit), "commit root");
                ensure_eq!(r.reveal_hash_merkle_root, root!(x.reveal_txns, Reveal), "reveal root");
                ensure_eq!(r.tally_hash_merkle_root, root!(x.tally_txns, Tally), "tally root");
                let stake = if v == ProtocolVersion::V1_7 { Hash::default() } else { root!(x.stake_txns, Stake) };
                ensure_eq!(r.stake_hash_merkle_root, stake, "stake root under {v}");
                let old = v == ProtocolVersion::V1_7 || v == ProtocolVersion::V1_8;
                let unstake = if old { Hash::default() } else { root!(x.unstake_txns, Unstake) };
                ensure_eq!(r.unstake_hash_merkle_root, unstake, "unstake root under {v}");
            }
            // Every transaction is found where its pointer says, and nowhere else.
            let at = arb::hash(&mut t);
            let pointers = block.txns.create_pointers_to_transactions(at);
            ensure_eq!(pointers.len(), block.txns.len(), "number of pointers");
            let mut seen = std::collections::HashSet::new();
            for (h, p) in &pointers {
                ensure_eq!(p.block_hash, at, "block of a pointer");
                let tx = block.txns.get(p.transaction_index).ok_or(format!("nothing at {:?}", p.transaction_index))?;
                ensure_eq!(tx.hash(), *h, "transaction at {:?}", p.transaction_index);
                ensure!(seen.insert(format!("{:?}", p.transaction_index)), "two pointers to {:?}", p.transaction_index);
            }
            let n = |x: usize| x as u32;
            let x = &block.txns;
            for (p, len) in [
                (TransactionPointer::ValueTransfer(n(x.value_transfer_txns.len())), x.value_transfer_txns.len()),
                (TransactionPointer::DataRequest(n(x.data_request_txns.len())), x.data_request_txns.len()),
                (TransactionPointer::Commit(n(x.commit_txns.len())), x.commit_txns.len()),
                (TransactionPointer::Reveal(n(x.reveal_txns.len())), x.reveal_txns.len()),
                (TransactionPointer::Tally(n(x.tally_txns.len())), x.tally_txns.len()),
                (TransactionPointer::Stake(n(x.stake_txns.len())), x.stake_txns.len()),
                (TransactionPointer::Unstake(n(x.unstake_txns.len())), x.unstake_txns.len()),
            ] {
                ensure!(x.get(p).is_none(), "something at {p:?} of {len}");
            }
            // The signature of the block is not hashed; everything in the header is.
            let before = block.hash();
            block.block_sig = arb::keyed(&mut t);
            ensure_eq!(Block::new(block.block_header.clone(), block.block_sig.clone(), block.txns.clone()).hash(), before, "hash with another signature");
            Ok(())
        },
    );
    c.sub(
        "inclusion",
        "the block or superblock has more than one leaf",
        20_000,
        100_000,
        || tapes(5000),
        |b, obs| {
            let mut t = b.tape();
            let nb = 1 + t.below(7);
            let mut blocks = vec![];
            for _ in 0..nb {
                let x = BlockTransactions {
                    data_request_txns: (0..t.below(6)).map(|_| arb::drt(&mut t)).collect(),
                    tally_txns: (0..t.below(6)).map(|_| arb::tally(&mut t)).collect(),
                    ..Default::default()
                };
                let mut h = arb::header(&mut t);
                h.merkle_roots = BlockMerkleRoots::from_transactions(&x, ProtocolVersion::V1_7);
                blocks.push(Block::new(h, arb::keyed(&mut t), x));
            }
            let dr_top = ref_root(blocks.iter().map(|b| b.block_header.merkle_roots.dr_hash_merkle_root).collect());
            let tally_top = ref_root(blocks.iter().map(|b| b.block_header.merkle_roots.tally_hash_merkle_root).collect());
            let sb = SuperBlock::new(t.u32(), arb::hash(&mut t), dr_top, t.u32(), arb::hash(&mut t), arb::hash(&mut t), tally_top);
            let mut leaves = 0;
            for block in &blocks {
                for tx in &block.txns.data_request_txns {
                    leaves += 1;
                    let whole = tx.proof_of_inclusion(block, ProtocolVersion::V1_7).ok_or("no proof for a data request of the block")?;
                    let want = (block.block_header.merkle_roots.dr_hash_merkle_root, 0);
                    ensure_eq!(climb(tx.hash(), whole.index, &whole.lemma), want, "root of the proof of a data request");
                    let data = tx.data_proof_of_inclusion(block).ok_or("no data proof")?;
                    let leaf = sha(&refpb::dr_output(&tx.body.dr_output).0);
                    ensure_eq!(climb(leaf, data.index, &data.lemma), want, "root of the data proof of a data request");
                    let top = sb.dr_proof_of_inclusion(&blocks, tx).ok_or("no superblock proof")?;
                    ensure_eq!(climb(leaf, top.index, &top.lemma), (dr_top, 0), "root of the superblock proof of a data request");
                }
                for tx in &block.txns.tally_txns {
                    leaves += 1;
                    let v = *t.pick(&VERSIONS);
                    let whole = tx.proof_of_inclusion(block, v).ok_or("no proof for a tally of the block")?;
                    let want = (block.block_header.merkle_roots.tally_hash_merkle_root, 0);
                    ensure_eq!(climb(tx.hash(), whole.index, &whole.lemma), want, "root of the proof of a tally");
                    let data = tx.data_proof_of_inclusion(block, v).ok_or("no data proof")?;
                    let leaf = sha(&[tx.dr_pointer.as_ref(), &tx.tally].concat());
                    ensure_eq!(tx.data_poi_hash(), leaf, "data of a tally");
                    ensure_eq!(climb(leaf, data.index, &data.lemma), want, "root of the data proof of a tally");
                    let top = sb.tally_proof_of_inclusion(&blocks, tx, v).ok_or("no superblock proof")?;
                    ensure_eq!(climb(leaf, top.index, &top.lemma), (tally_top, 0), "root of the superblock proof of a tally");
                }
            }
            obs.nontrivial_if(leaves > 1 && nb > 1);
            // Nothing outside has a proof.
            let out = arb::drt(&mut t);
            if !blocks.iter().any(|b| b.txns.data_request_txns.contains(&out)) {
                ensure!(sb.dr_proof_of_inclusion(&blocks, &out).is_none(), "a proof for a data request that is not there");
            }
            let bytes: Vec<u8> = [
                &sb.signing_committee_length.to_be_bytes()[..],
                sb.ars_root.as_ref(),
                sb.data_request_root.as_ref(),
                &sb.index.to_be_bytes()[..],
                sb.last_block.as_ref(),
                sb.last_block_in_previous_superblock.as_ref(),
                sb.tally_root.as_ref(),
            ]
            .concat();
            ensure_eq!(sb.hash(), sha(&bytes), "hash of the superblock");
            ensure_eq!(sb.versioned_hash(ProtocolVersion::V2_0), sha(&refpb::superblock(&sb).0), "versioned hash of the superblock");
            Ok(())
        },
    );
}
