//! The wire format, written down from the published schema: a reference encoder that shares nothing
//! with the code under test.
use witnet_data_structures::{chain::*, proto::versioning::ProtocolVersion, transaction::*, types::*, vrf::VrfProof};

#[derive(Default, Clone)]
pub struct Pb(pub Vec<u8>);

impl Pb {
    fn varint(&mut self, mut x: u64) {
        while x >= 0x80 {
            self.0.push(x as u8 | 0x80);
            x >>= 7;
        }
        self.0.push(x as u8);
    }
    fn tag(&mut self, f: u32, wire: u32) {
        self.varint(u64::from(f << 3 | wire));
    }
    /// uint32, uint64, int64, enum
    pub fn int(mut self, f: u32, x: u64) -> Self {
        if x != 0 {
            self = self.set_int(f, x);
        }
        self
    }
    fn set_int(mut self, f: u32, x: u64) -> Self {
        self.tag(f, 0);
        self.varint(x);
        self
    }
    pub fn fixed32(mut self, f: u32, x: u32) -> Self {
        if x != 0 {
            self.tag(f, 5);
            self.0.extend(x.to_le_bytes());
        }
        self
    }
    pub fn fixed64(mut self, f: u32, x: u64) -> Self {
        if x != 0 {
            self.tag(f, 1);
            self.0.extend(x.to_le_bytes());
        }
        self
    }
    /// bytes, string
    pub fn bytes(self, f: u32, x: &[u8]) -> Self {
        if x.is_empty() { self } else { self.msg(f, Pb(x.to_vec())) }
    }
    /// A message, or the bytes of a oneof: present even when empty.
    pub fn msg(mut self, f: u32, x: Pb) -> Self {
        self.tag(f, 2);
        self.varint(x.0.len() as u64);
        self.0.extend(x.0);
        self
    }
    pub fn all<T>(self, f: u32, xs: &[T], enc: impl Fn(&T) -> Pb) -> Self {
        xs.iter().fold(self, |p, x| p.msg(f, enc(x)))
    }
}

fn p() -> Pb {
    Pb::default()
}
pub fn hash(h: &Hash) -> Pb {
    let Hash::SHA256(b) = h;
    p().msg(1, Pb(b.to_vec()))
}
pub fn pkh(x: &PublicKeyHash) -> Pb {
    p().bytes(1, x.as_ref())
}
pub fn public_key(k: &PublicKey) -> Pb {
    p().bytes(1, &[&[k.compressed][..], &k.bytes].concat())
}
pub fn keyed(k: &KeyedSignature) -> Pb {
    let Signature::Secp256k1(s) = &k.signature;
    p().msg(1, p().msg(1, p().bytes(1, &s.der))).msg(2, public_key(&k.public_key))
}
pub fn input(i: &Input) -> Pb {
    let o = i.output_pointer();
    p().msg(1, p().msg(1, hash(&o.transaction_id)).int(2, o.output_index.into()))
}
pub fn vto(o: &ValueTransferOutput) -> Pb {
    p().msg(1, pkh(&o.pkh)).int(2, o.value).int(3, o.time_lock)
}
fn filter(f: &RADFilter) -> Pb {
    p().int(1, f.op.into()).bytes(2, &f.args)
}
fn retrieve(r: &RADRetrieve) -> Pb {
    let kind = match r.kind {
        RADType::Unknown => 0,
        RADType::HttpGet => 1,
        RADType::Rng => 2,
        RADType::HttpPost => 3,
        RADType::HttpHead => 4,
    };
    p().int(1, kind)
        .bytes(2, r.url.as_bytes())
        .bytes(3, &r.script)
        .bytes(4, &r.body)
        .all(5, &r.headers, |(a, b)| p().bytes(1, a.as_bytes()).bytes(2, b.as_bytes()))
}
pub fn rad_request(r: &RADRequest) -> Pb {
    p().int(1, r.time_lock)
        .all(2, &r.retrieve, retrieve)
        .msg(3, p().all(1, &r.aggregate.filters, filter).int(2, r.aggregate.reducer.into()))
        .msg(4, p().all(1, &r.tally.filters, filter).int(2, r.tally.reducer.into()))
}
pub fn dr_output(d: &DataRequestOutput) -> Pb {
    p().msg(1, rad_request(&d.data_request))
        .int(2, d.witness_reward)
        .int(3, d.witnesses.into())
        .int(4, d.commit_and_reveal_fee)
        .int(5, d.min_consensus_percentage.into())
        .int(6, d.collateral)
}
pub fn vrf_proof(v: &VrfProof, key: &PublicKey) -> Pb {
    p().bytes(1, &v.get_proof()).msg(2, public_key(key))
}
/// The public key in a proof is private to it, so it is given along.
fn claim(v: &VrfProof) -> Pb {
    use witnet_data_structures::proto::ProtobufConvert;
    // Only the key is taken from the structure's own conversion; `wire` compares it with the intended one.
    let key = PublicKey::from_pb(v.to_pb().take_public_key()).unwrap();
    p().msg(1, vrf_proof(v, &key))
}
fn bn(k: &Option<Bn256PublicKey>) -> Pb {
    p().bytes(1, k.as_ref().map(|k| &k.public_key[..]).unwrap_or_default())
}
pub fn vt_body(b: &VTTransactionBody) -> Pb {
    p().all(1, &b.inputs, input).all(2, &b.outputs, vto)
}
pub fn dr_body(b: &DRTransactionBody) -> Pb {
    p().all(1, &b.inputs, input).all(2, &b.outputs, vto).msg(3, dr_output(&b.dr_output))
}
pub fn commit_body(b: &CommitTransactionBody) -> Pb {
    p().msg(1, hash(&b.dr_pointer))
        .msg(2, hash(&b.commitment))
        .msg(3, claim(&b.proof.proof))
        .all(4, &b.collateral, input)
        .all(5, &b.outputs, vto)
        .msg(6, bn(&b.bn256_public_key))
}
pub fn reveal_body(b: &RevealTransactionBody) -> Pb {
    p().msg(1, hash(&b.dr_pointer)).bytes(2, &b.reveal).msg(3, pkh(&b.pkh))
}
pub fn stake_body(b: &StakeTransactionBody) -> Pb {
    let o = &b.output;
    let key = p().msg(1, pkh(&o.key.validator)).msg(2, pkh(&o.key.withdrawer));
    p().all(1, &b.inputs, input)
        .msg(2, p().int(1, o.value).msg(2, key).msg(3, keyed(&o.authorization)))
        .msg(3, vto(&b.change.clone().unwrap_or_default()))
}
pub fn unstake_body(b: &UnstakeTransactionBody) -> Pb {
    p().msg(1, pkh(&b.operator)).msg(2, vto(&b.withdrawal)).int(3, b.fee).int(4, b.nonce)
}
pub fn tally(t: &TallyTransaction) -> Pb {
    p().msg(1, hash(&t.dr_pointer))
        .bytes(2, &t.tally)
        .all(3, &t.outputs, vto)
        .all(4, &t.out_of_consensus, pkh)
        .all(5, &t.error_committers, pkh)
}
pub fn mint(m: &MintTransaction) -> Pb {
    p().fixed32(1, m.epoch).all(2, &m.outputs, vto)
}
fn signed(body: Pb, sigs: &[KeyedSignature]) -> Pb {
    p().msg(1, body).all(2, sigs, keyed)
}
pub fn vtt(t: &VTTransaction) -> Pb {
    signed(vt_body(&t.body), &t.signatures)
}
pub fn drt(t: &DRTransaction) -> Pb {
    signed(dr_body(&t.body), &t.signatures)
}
pub fn commit(t: &CommitTransaction) -> Pb {
    signed(commit_body(&t.body), &t.signatures)
}
pub fn reveal(t: &RevealTransaction) -> Pb {
    signed(reveal_body(&t.body), &t.signatures)
}
pub fn stake(t: &StakeTransaction) -> Pb {
    signed(stake_body(&t.body), &t.signatures)
}
pub fn unstake(t: &UnstakeTransaction) -> Pb {
    p().msg(1, unstake_body(&t.body)).msg(2, keyed(&t.signature))
}
pub fn transaction(t: &Transaction) -> Pb {
    match t {
        Transaction::ValueTransfer(t) => p().msg(1, vtt(t)),
        Transaction::DataRequest(t) => p().msg(2, drt(t)),
        Transaction::Commit(t) => p().msg(3, commit(t)),
        Transaction::Reveal(t) => p().msg(4, reveal(t)),
        Transaction::Tally(t) => p().msg(5, tally(t)),
        Transaction::Mint(t) => p().msg(6, mint(t)),
        Transaction::Stake(t) => p().msg(7, stake(t)),
        Transaction::Unstake(t) => p().msg(8, unstake(t)),
    }
}
pub fn beacon(b: &CheckpointBeacon) -> Pb {
    p().fixed32(1, b.checkpoint).msg(2, hash(&b.hash_prev_block))
}
fn legacy(v: ProtocolVersion) -> bool {
    v == ProtocolVersion::V1_7
}
pub fn roots(r: &BlockMerkleRoots, v: ProtocolVersion) -> Pb {
    let q = p()
        .msg(1, hash(&r.mint_hash))
        .msg(2, hash(&r.vt_hash_merkle_root))
        .msg(3, hash(&r.dr_hash_merkle_root))
        .msg(4, hash(&r.commit_hash_merkle_root))
        .msg(5, hash(&r.reveal_hash_merkle_root))
        .msg(6, hash(&r.tally_hash_merkle_root));
    if legacy(v) { q } else { q.msg(7, hash(&r.stake_hash_merkle_root)).msg(8, hash(&r.unstake_hash_merkle_root)) }
}
pub fn header(h: &BlockHeader, v: ProtocolVersion) -> Pb {
    p().int(1, h.signals.into())
        .msg(2, beacon(&h.beacon))
        .msg(3, roots(&h.merkle_roots, v))
        .msg(4, claim(&h.proof.proof))
        .msg(5, bn(&h.bn256_public_key))
}
pub fn block(b: &Block, v: ProtocolVersion) -> Pb {
    let t = &b.txns;
    let q = p()
        .msg(1, mint(&t.mint))
        .all(2, &t.value_transfer_txns, vtt)
        .all(3, &t.data_request_txns, drt)
        .all(4, &t.commit_txns, commit)
        .all(5, &t.reveal_txns, reveal)
        .all(6, &t.tally_txns, tally);
    let txns = if legacy(v) { q } else { q.all(7, &t.stake_txns, stake).all(8, &t.unstake_txns, unstake) };
    p().msg(1, header(&b.block_header, v)).msg(2, keyed(&b.block_sig)).msg(3, txns)
}
pub fn superblock(s: &SuperBlock) -> Pb {
    p().int(1, s.signing_committee_length.into())
        .msg(2, hash(&s.ars_root))
        .msg(3, hash(&s.data_request_root))
        .int(4, s.index.into())
        .msg(5, hash(&s.last_block))
        .msg(6, hash(&s.last_block_in_previous_superblock))
        .msg(7, hash(&s.tally_root))
}
pub fn vote(v: &SuperBlockVote) -> Pb {
    p().msg(1, p().bytes(1, &v.bn256_signature.signature))
        .msg(2, keyed(&v.secp256k1_signature))
        .msg(3, hash(&v.superblock_hash))
        .fixed32(4, v.superblock_index)
}
fn address(a: &Address) -> Pb {
    let mut b = match a.ip {
        IpAddress::Ipv4 { ip } => ip.to_be_bytes().to_vec(),
        IpAddress::Ipv6 { ip0, ip1, ip2, ip3 } => [ip0, ip1, ip2, ip3].iter().flat_map(|x| x.to_be_bytes()).collect(),
    };
    b.extend(a.port.to_be_bytes());
    p().bytes(1, &b)
}
fn entry(e: &InventoryEntry) -> Pb {
    match e {
        InventoryEntry::Block(h) => p().msg(1, hash(h)),
        InventoryEntry::Tx(h) => p().msg(2, hash(h)),
        InventoryEntry::SuperBlock(i) => p().set_int(3, (*i).into()),
    }
}
fn last_beacon(b: &LastBeacon) -> Pb {
    p().msg(1, beacon(&b.highest_block_checkpoint)).msg(2, beacon(&b.highest_superblock_checkpoint))
}
pub fn message(m: &Message, v: ProtocolVersion) -> Pb {
    let kind = match &m.kind {
        Command::Version(x) => p().msg(
            1,
            p().int(1, x.version.into())
                .int(2, x.timestamp as u64)
                .fixed64(3, x.capabilities)
                .msg(4, address(&x.sender_address))
                .msg(5, address(&x.receiver_address))
                .bytes(6, x.user_agent.as_bytes())
                .fixed64(7, x.nonce)
                .msg(8, last_beacon(&x.beacon)),
        ),
        Command::Verack(_) => p().msg(2, p()),
        Command::GetPeers(_) => p().msg(3, p()),
        Command::Peers(x) => p().msg(4, p().all(1, &x.peers, address)),
        Command::Block(x) => p().msg(5, block(x, v)),
        Command::InventoryAnnouncement(x) => p().msg(6, p().all(1, &x.inventory, entry)),
        Command::InventoryRequest(x) => p().msg(7, p().all(1, &x.inventory, entry)),
        Command::LastBeacon(x) => p().msg(8, last_beacon(x)),
        Command::Transaction(x) => p().msg(9, transaction(x)),
        Command::SuperBlockVote(x) => p().msg(10, vote(x)),
        Command::SuperBlock(x) => p().msg(11, superblock(x)),
    };
    p().int(1, m.magic.into()).msg(2, kind)
}
