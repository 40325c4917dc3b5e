//! Generators of the protocol's data structures, from choice tapes.
use vpkit::tape::Tape;
use witnet_data_structures::{
    chain::*,
    proto::{ProtobufConvert, schema::witnet},
    staking::prelude::StakeKey,
    transaction::*,
    types::{Address, Command, GetPeers, InventoryAnnouncement, InventoryRequest, IpAddress, LastBeacon, Message, Peers, Verack, Version},
    vrf::{BlockEligibilityClaim, DataRequestEligibilityClaim, VrfProof},
};

type T<'a, 'b> = &'a mut Tape<'b>;

pub fn hash(t: T) -> Hash {
    Hash::SHA256(t.array())
}
pub fn pkh(t: T) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&t.array::<20>()).unwrap()
}
pub fn public_key(t: T) -> PublicKey {
    PublicKey { compressed: t.u8(), bytes: t.array() }
}
pub fn signature(t: T) -> Signature {
    let n = if t.bool() { 70 + t.below(3) } else { t.len(80) };
    Signature::Secp256k1(Secp256k1Signature { der: t.bytes(n) })
}
pub fn keyed(t: T) -> KeyedSignature {
    KeyedSignature { signature: signature(t), public_key: public_key(t) }
}
pub fn keyeds(t: T) -> Vec<KeyedSignature> {
    t.vec(6, |t| keyed(t))
}
pub fn out_ptr(t: T) -> OutputPointer {
    OutputPointer { transaction_id: hash(t), output_index: t.u32() }
}
pub fn input(t: T) -> Input {
    Input::new(out_ptr(t))
}
pub fn inputs(t: T) -> Vec<Input> {
    t.vec(20, |t| input(t))
}
pub fn vto(t: T) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(t), value: t.u64(), time_lock: t.u64() }
}
pub fn vtos(t: T) -> Vec<ValueTransferOutput> {
    t.vec(20, |t| vto(t))
}
pub fn bytes(t: T, max: usize) -> Vec<u8> {
    let n = t.len(max);
    t.bytes(n)
}
pub fn filter(t: T) -> RADFilter {
    RADFilter { op: t.u32(), args: bytes(t, 40) }
}
pub fn retrieve(t: T) -> RADRetrieve {
    RADRetrieve {
        kind: t.pick(&[RADType::Unknown, RADType::HttpGet, RADType::Rng, RADType::HttpPost, RADType::HttpHead]).clone(),
        url: t.string(40),
        script: bytes(t, 60),
        body: bytes(t, 40),
        headers: t.vec(4, |t| (t.string(12), t.string(12))),
    }
}
pub fn rad_request(t: T) -> RADRequest {
    RADRequest {
        time_lock: t.u64(),
        retrieve: t.vec(4, |t| retrieve(t)),
        aggregate: RADAggregate { filters: t.vec(3, |t| filter(t)), reducer: t.u32() },
        tally: RADTally { filters: t.vec(3, |t| filter(t)), reducer: t.u32() },
    }
}
pub fn dr_output(t: T) -> DataRequestOutput {
    DataRequestOutput {
        data_request: rad_request(t),
        witness_reward: t.u64(),
        witnesses: t.u16(),
        commit_and_reveal_fee: t.u64(),
        min_consensus_percentage: t.u32(),
        collateral: t.u64(),
    }
}
pub fn proof(t: T) -> VrfProof {
    let mut pb = witnet::VrfProof::new();
    let n = if t.bool() { 81 } else { t.len(90) };
    pb.set_proof(t.bytes(n));
    pb.set_public_key(public_key(t).to_pb());
    VrfProof::from_pb(pb).unwrap()
}
/// Never empty: an empty key is how the absence of one is written.
pub fn bn_key(t: T) -> Bn256PublicKey {
    let n = 1 + t.below(70);
    let mut pb = witnet::Bn256PublicKey::new();
    pb.set_public_key(t.bytes(n));
    Bn256PublicKey::from_pb(pb).unwrap()
}
pub fn stake_output(t: T) -> StakeOutput {
    StakeOutput { authorization: keyed(t), key: StakeKey { validator: pkh(t), withdrawer: pkh(t) }, value: t.u64() }
}
pub fn vtt(t: T) -> VTTransaction {
    VTTransaction::new(VTTransactionBody::new(inputs(t), vtos(t)), keyeds(t))
}
pub fn drt(t: T) -> DRTransaction {
    DRTransaction::new(DRTransactionBody::new(inputs(t), dr_output(t), vtos(t)), keyeds(t))
}
pub fn commit(t: T) -> CommitTransaction {
    CommitTransaction::new(
        CommitTransactionBody::new(hash(t), hash(t), DataRequestEligibilityClaim { proof: proof(t) }, inputs(t), vtos(t), t.option(|t| bn_key(t))),
        keyeds(t),
    )
}
pub fn reveal(t: T) -> RevealTransaction {
    RevealTransaction::new(RevealTransactionBody::new(hash(t), bytes(t, 60), pkh(t)), keyeds(t))
}
pub fn tally(t: T) -> TallyTransaction {
    TallyTransaction::new(hash(t), bytes(t, 60), vtos(t), t.vec(6, |t| pkh(t)), t.vec(6, |t| pkh(t)))
}
pub fn mint(t: T) -> MintTransaction {
    MintTransaction::new(t.u32(), vtos(t))
}
pub fn stake(t: T) -> StakeTransaction {
    // A change of nothing for nobody is how the absence of one is written.
    let change = t.option(|t| vto(t)).filter(|c| *c != ValueTransferOutput::default());
    StakeTransaction::new(StakeTransactionBody::new(inputs(t), stake_output(t), change), keyeds(t))
}
pub fn unstake(t: T) -> UnstakeTransaction {
    UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(t), vto(t), t.u64(), t.u64()), keyed(t))
}
pub const KINDS: [&str; 8] = ["value transfer", "data request", "commit", "reveal", "tally", "mint", "stake", "unstake"];
pub fn transaction_of(t: T, kind: usize) -> Transaction {
    match kind % 8 {
        0 => Transaction::ValueTransfer(vtt(t)),
        1 => Transaction::DataRequest(drt(t)),
        2 => Transaction::Commit(commit(t)),
        3 => Transaction::Reveal(reveal(t)),
        4 => Transaction::Tally(tally(t)),
        5 => Transaction::Mint(mint(t)),
        6 => Transaction::Stake(stake(t)),
        _ => Transaction::Unstake(unstake(t)),
    }
}
pub fn transaction(t: T) -> Transaction {
    let k = t.below(8);
    transaction_of(t, k)
}
pub fn kind(tx: &Transaction) -> &'static str {
    match tx {
        Transaction::ValueTransfer(_) => KINDS[0],
        Transaction::DataRequest(_) => KINDS[1],
        Transaction::Commit(_) => KINDS[2],
        Transaction::Reveal(_) => KINDS[3],
        Transaction::Tally(_) => KINDS[4],
        Transaction::Mint(_) => KINDS[5],
        Transaction::Stake(_) => KINDS[6],
        Transaction::Unstake(_) => KINDS[7],
    }
}
pub fn beacon(t: T) -> CheckpointBeacon {
    CheckpointBeacon { checkpoint: t.u32(), hash_prev_block: hash(t) }
}
pub fn roots(t: T) -> BlockMerkleRoots {
    BlockMerkleRoots {
        mint_hash: hash(t),
        vt_hash_merkle_root: hash(t),
        dr_hash_merkle_root: hash(t),
        commit_hash_merkle_root: hash(t),
        reveal_hash_merkle_root: hash(t),
        tally_hash_merkle_root: hash(t),
        stake_hash_merkle_root: hash(t),
        unstake_hash_merkle_root: hash(t),
    }
}
pub fn header(t: T) -> BlockHeader {
    BlockHeader {
        signals: t.u32(),
        beacon: beacon(t),
        merkle_roots: roots(t),
        proof: BlockEligibilityClaim { proof: proof(t) },
        bn256_public_key: t.option(|t| bn_key(t)),
    }
}
pub fn txns(t: T, max: usize) -> BlockTransactions {
    BlockTransactions {
        mint: mint(t),
        value_transfer_txns: t.vec(max, |t| vtt(t)),
        data_request_txns: t.vec(max, |t| drt(t)),
        commit_txns: t.vec(max, |t| commit(t)),
        reveal_txns: t.vec(max, |t| reveal(t)),
        tally_txns: t.vec(max, |t| tally(t)),
        stake_txns: t.vec(max, |t| stake(t)),
        unstake_txns: t.vec(max, |t| unstake(t)),
    }
}
pub fn block(t: T) -> Block {
    Block::new(header(t), keyed(t), txns(t, 4))
}
pub fn superblock(t: T) -> SuperBlock {
    SuperBlock::new(t.u32(), hash(t), hash(t), t.u32(), hash(t), hash(t), hash(t))
}
pub fn vote(t: T) -> SuperBlockVote {
    let mut v = SuperBlockVote::new_unsigned(hash(t), t.u32());
    v.set_bn256_signature(Bn256Signature { signature: bytes(t, 70) });
    v.set_secp256k1_signature(keyed(t));
    v
}
pub fn address(t: T) -> Address {
    let ip = if t.bool() {
        IpAddress::Ipv6 { ip0: t.u32(), ip1: t.u32(), ip2: t.u32(), ip3: t.u32() }
    } else {
        IpAddress::Ipv4 { ip: t.u32() }
    };
    Address { ip, port: t.u16() }
}
pub fn entry(t: T) -> InventoryEntry {
    match t.below(3) {
        0 => InventoryEntry::Tx(hash(t)),
        1 => InventoryEntry::Block(hash(t)),
        _ => InventoryEntry::SuperBlock(t.u32()),
    }
}
pub fn last_beacon(t: T) -> LastBeacon {
    LastBeacon { highest_block_checkpoint: beacon(t), highest_superblock_checkpoint: beacon(t) }
}
pub fn message(t: T) -> Message {
    let kind = match t.below(13) {
        0 => Command::GetPeers(GetPeers),
        1 => Command::Peers(Peers { peers: t.vec(30, |t| address(t)) }),
        2 => Command::Verack(Verack),
        3 => Command::Version(Version {
            version: t.u32(),
            timestamp: t.i64(),
            capabilities: t.u64(),
            sender_address: address(t),
            receiver_address: address(t),
            user_agent: t.string(40),
            nonce: t.u64(),
            beacon: last_beacon(t),
        }),
        4 | 5 => Command::Block(block(t)),
        6 | 7 => Command::Transaction(transaction(t)),
        8 => Command::SuperBlock(superblock(t)),
        9 => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: t.vec(20, |t| entry(t)) }),
        10 => Command::InventoryRequest(InventoryRequest { inventory: t.vec(20, |t| entry(t)) }),
        11 => Command::LastBeacon(last_beacon(t)),
        _ => Command::SuperBlockVote(vote(t)),
    };
    Message { kind, magic: t.u16() }
}
pub fn message_kind(m: &Message) -> &'static str {
    match &m.kind {
        Command::GetPeers(_) => "get peers",
        Command::Peers(_) => "peers",
        Command::Verack(_) => "verack",
        Command::Version(_) => "version",
        Command::Block(_) => "block",
        Command::Transaction(_) => "transaction",
        Command::SuperBlock(_) => "superblock",
        Command::InventoryAnnouncement(_) => "announcement",
        Command::InventoryRequest(_) => "request",
        Command::LastBeacon(_) => "beacon",
        Command::SuperBlockVote(_) => "vote",
    }
}
