//! Keys, signatures, protocol versions and constants shared by the validation checks.
use std::sync::OnceLock;
use vpkit::tape::Tape;
use witnet_crypto::{
    secp256k1::{PublicKey as SecpPublic, SecretKey as SecpSecret},
    signature::sign,
};
use witnet_data_structures::{
    chain::{
        ConsensusConstants, ConsensusConstantsWit2, EpochConstants, Hash, KeyedSignature, OutputPointer, PublicKey, PublicKeyHash, SecretKey, Signature,
        SignaturesToVerify, tapi::ActiveWips,
    },
    proto::versioning::ProtocolVersion,
    register_protocol_version,
    vrf::VrfCtx,
};
use witnet_protected::Protected;
use witnet_validations::validations::verify_signatures;

pub const WIT: u64 = 1_000_000_000;
pub const ZERO: i64 = 1_602_666_000;
pub const V1_8: u32 = 2_240_000;
pub const V2_0: u32 = 2_300_000;
pub const PERIOD: (u32, u32) = (45, 20);
pub const KEYS: usize = 40;

pub struct Key {
    pub secret: SecpSecret,
    pub ds_secret: SecretKey,
    pub public: PublicKey,
    pub pkh: PublicKeyHash,
}

pub fn key(i: usize) -> &'static Key {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    &K.get_or_init(|| {
        (0..KEYS)
            .map(|i| {
                let bytes = [(i + 1) as u8; 32];
                let secret = SecpSecret::from_slice(&bytes).unwrap();
                let public = PublicKey::from(SecpPublic::from_secret_key_global(&secret));
                Key { secret, ds_secret: SecretKey { bytes: Protected::from(bytes.to_vec()) }, pkh: public.pkh(), public }
            })
            .collect()
    })[i % KEYS]
}

pub fn sign_hash(i: usize, hash: Hash) -> KeyedSignature {
    let Hash::SHA256(data) = hash;
    let k = key(i);
    KeyedSignature { signature: Signature::from(sign(k.secret, &data).unwrap()), public_key: k.public.clone() }
}

/// The protocol versions of the main network, at the activation epochs above.
pub fn protocol() {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        register_protocol_version(ProtocolVersion::V1_7, 0, PERIOD.0 as u16);
        register_protocol_version(ProtocolVersion::V1_8, V1_8, PERIOD.0 as u16);
        register_protocol_version(ProtocolVersion::V2_0, V2_0, PERIOD.1 as u16);
        // Panics of the code under test are reported by the kit.
    });
}

pub fn version(epoch: u32) -> ProtocolVersion {
    match epoch {
        0..V1_8 => ProtocolVersion::V1_7,
        V1_8..V2_0 => ProtocolVersion::V1_8,
        _ => ProtocolVersion::V2_0,
    }
}

pub fn epochs() -> EpochConstants {
    EpochConstants {
        checkpoint_zero_timestamp: ZERO,
        checkpoints_period: PERIOD.0 as u16,
        checkpoint_zero_timestamp_wit2: ZERO + i64::from(V2_0) * i64::from(PERIOD.0),
        checkpoints_period_wit2: PERIOD.1 as u16,
    }
}

/// When an epoch starts.
pub fn time(epoch: u32) -> i64 {
    let (e, p) = (i64::from(epoch), (i64::from(PERIOD.0), i64::from(PERIOD.1)));
    let v2 = i64::from(V2_0);
    if e < v2 { ZERO + e * p.0 } else { ZERO + v2 * p.0 + (e - v2) * p.1 }
}

/// An epoch in one of the three eras, near a boundary half of the time.
pub fn epoch(t: &mut Tape, era: usize) -> u32 {
    let (lo, hi) = [(1, V1_8), (V1_8, V2_0), (V2_0, V2_0 + 1_000_000)][era];
    match t.below(4) {
        0 => lo + t.below(3) as u32,
        1 => hi - 1 - t.below(3) as u32,
        _ => lo + t.below((hi - lo) as usize) as u32,
    }
}

pub fn constants() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: ZERO,
        checkpoints_period: PERIOD.0 as u16,
        collateral_minimum: WIT,
        bootstrapping_committee: vec![],
        collateral_age: 1000,
        superblock_period: 10,
        mining_backup_factor: 8,
        bootstrap_hash: Hash::SHA256([0x55; 32]),
        genesis_hash: Hash::SHA256([0x66; 32]),
        max_dr_weight: 80_000,
        activity_period: 2000,
        reputation_expire_alpha_diff: 20_000,
        reputation_issuance: 1,
        reputation_issuance_stop: 1 << 20,
        max_vt_weight: 20_000,
        reputation_penalization_factor: 0.5,
        mining_replication_factor: 3,
        extra_rounds: 3,
        minimum_difficulty: 2000,
        epochs_with_minimum_difficulty: 0,
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 100,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 250 * WIT,
        halving_period: 3_500_000,
    }
}

pub fn wit2() -> ConsensusConstantsWit2 {
    ConsensusConstantsWit2 { checkpoint_zero_timestamp: ZERO, checkpoints_period: PERIOD.0 as u16 }
}

pub const WIPS: [&str; 13] = [
    "WIP0008",
    "WIP0009-0011-0012",
    "THIRD_HARD_FORK",
    "WIP0014-0016",
    "WIP0017-0018-0019",
    "WIP0020-0021",
    "WIP0022",
    "WIP0023",
    "WIP0024",
    "WIP0025",
    "WIP0026",
    "WIP0027",
    "WIP0028",
];

/// The first `n` improvement proposals are active.
pub fn wips(n: usize, epoch: u32) -> ActiveWips {
    ActiveWips { active_wips: WIPS[..n].iter().map(|w| (w.to_string(), 0)).collect(), block_epoch: epoch }
}

pub fn check_signatures(v: Vec<SignaturesToVerify>) -> Result<Vec<Hash>, anyhow::Error> {
    let mut vrf = VrfCtx::secp256k1().unwrap();
    verify_signatures(v, &mut vrf)
}

pub fn ptr(tx: u8, i: u32) -> OutputPointer {
    OutputPointer { transaction_id: Hash::SHA256([tx; 32]), output_index: i }
}

pub fn shuffle<X>(t: &mut Tape, v: &mut [X]) {
    for i in (1..v.len()).rev() {
        v.swap(i, t.below(i + 1));
    }
}
