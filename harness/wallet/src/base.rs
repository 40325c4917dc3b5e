//! A wallet over an in-memory database, and the protocol it follows.
use actix::Addr;
use serde_json::Value;
use std::{
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock, RwLock},
};
use witnet_crypto::{hash::HashFunction, key::ExtendedSK};
use witnet_data_structures::{
    chain::{Block, CheckpointBeacon, ConsensusConstants, DataRequestInfo, EpochConstants, Hash, StateMachine, SyncStatus},
    get_protocol_info,
    proto::versioning::{ProtocolInfo, ProtocolVersion},
    refresh_protocol_version, register_protocol_version,
    transaction::Transaction,
    witnessing::WitnessingConfig,
};
use witnet_protected::Protected;
use witnet_net::client::tcp::{self, jsonrpc};
use witnet_wallet::{
    account,
    actors::{Worker, app::NodeClient}, crypto,
    db::EncryptedDb,
    params::{NodeParams, Params},
    repository::{Wallet, Wallets},
    types,
};

pub const ZERO: i64 = 1_602_666_000;
pub const PERIOD: u32 = 45;
/// First epochs of V1_8 and V2_0.
pub const V1_8: u32 = 40;
pub const V2_0: u32 = 80;
pub const GENESIS: Hash = Hash::SHA256([0x66; 32]);
pub const BOOTSTRAP: Hash = Hash::SHA256([0x55; 32]);
/// How many addresses ahead a synchronization looks.
pub const GAP: u16 = 6;

pub type W = Wallet<EncryptedDb>;

pub fn protocol() -> ProtocolInfo {
    static ONCE: OnceLock<()> = OnceLock::new();
    ONCE.get_or_init(|| {
        register_protocol_version(ProtocolVersion::V1_7, 0, PERIOD as u16);
        register_protocol_version(ProtocolVersion::V1_8, V1_8, PERIOD as u16);
        register_protocol_version(ProtocolVersion::V2_0, V2_0, PERIOD as u16);
        refresh_protocol_version(1000);
    });
    get_protocol_info()
}
pub fn version(epoch: u32) -> ProtocolVersion {
    match epoch {
        0..V1_8 => ProtocolVersion::V1_7,
        V1_8..V2_0 => ProtocolVersion::V1_8,
        _ => ProtocolVersion::V2_0,
    }
}
pub fn time(epoch: u32) -> u64 {
    ZERO as u64 + u64::from(epoch) * u64::from(PERIOD)
}

pub fn params(unconfirmed: bool, timeout: u64) -> Params {
    Params {
        testnet: false,
        seed_password: "".into(),
        master_key_salt: b"Bitcoin seed".to_vec(),
        id_hash_iterations: 2,
        id_hash_function: HashFunction::Sha256,
        db_hash_iterations: 2,
        db_iv_length: 16,
        db_salt_length: 32,
        epoch_constants: EpochConstants {
            checkpoint_zero_timestamp: ZERO,
            checkpoints_period: PERIOD as u16,
            checkpoint_zero_timestamp_wit2: time(V2_0) as i64,
            checkpoints_period_wit2: PERIOD as u16,
        },
        node_sync_batch_size: 4,
        genesis_hash: GENESIS,
        genesis_prev_hash: BOOTSTRAP,
        sync_address_batch_length: GAP,
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        consensus_constants: ConsensusConstants {
            checkpoint_zero_timestamp: ZERO,
            checkpoints_period: PERIOD as u16,
            bootstrap_hash: BOOTSTRAP,
            genesis_hash: GENESIS,
            max_vt_weight: 20_000,
            max_dr_weight: 80_000,
            activity_period: 2000,
            reputation_expire_alpha_diff: 20_000,
            reputation_issuance: 1,
            reputation_issuance_stop: 1 << 20,
            reputation_penalization_factor: 0.5,
            mining_backup_factor: 8,
            mining_replication_factor: 3,
            collateral_minimum: 1_000_000_000,
            bootstrapping_committee: vec![],
            collateral_age: 1000,
            superblock_period: 10,
            extra_rounds: 3,
            minimum_difficulty: 2000,
            epochs_with_minimum_difficulty: 0,
            superblock_signing_committee_size: 100,
            superblock_committee_decreasing_period: 5,
            superblock_committee_decreasing_step: 5,
            initial_block_reward: 250_000_000_000,
            halving_period: 3_500_000,
        },
        use_unconfirmed_utxos: unconfirmed,
        pending_transactions_timeout_seconds: timeout,
        witnessing: WitnessingConfig::default(),
        protocol_info: protocol(),
    }
}

pub fn birth() -> CheckpointBeacon {
    CheckpointBeacon { checkpoint: 0, hash_prev_block: BOOTSTRAP }
}

/// A master key made of the byte `i`.
pub fn master(i: u8) -> ExtendedSK {
    let secret = witnet_crypto::secp256k1::SecretKey::from_slice(&[i.max(1); 32]).unwrap();
    ExtendedSK::new(secret, Protected::from(vec![i; 32]))
}

/// The node that the wallet's worker asks.
#[derive(Default)]
pub struct FakeNode {
    pub chain: Vec<(u32, Hash)>,
    pub confirmed: usize,
    pub blocks: HashMap<String, Arc<Block>>,
    pub txs: HashMap<String, Transaction>,
    pub reports: HashMap<String, DataRequestInfo>,
    /// How many requests to answer before one fails, and whether that one is late.
    pub fail: Option<(u32, bool)>,
    pub state: StateMachine,
    /// What it was sent, and whether it takes it.
    pub sent: Vec<Value>,
    pub deaf: bool,
}
pub type Shared = Arc<Mutex<FakeNode>>;
impl FakeNode {
    fn answer(&mut self, r: jsonrpc::Request) -> Result<Value, tcp::Error> {
        let no = |m: &str| tcp::Error::RequestFailed { message: m.to_string() };
        if let Some((n, late)) = self.fail {
            self.fail = if n > 0 { Some((n - 1, late)) } else { None };
            if n == 0 {
                return Err(if late { tcp::Error::RequestTimedOut(1) } else { no("connection lost") });
            }
        }
        let json = |v: Result<Value, serde_json::Error>| v.map_err(|e| panic!("{e}"));
        match r.method.as_str() {
            "getBlockChain" => {
                let (Some(epoch), Some(limit)) = (r.params["epoch"].as_i64(), r.params["limit"].as_i64()) else { return Err(no("params")) };
                let v: Vec<_> = self.chain.iter().filter(|b| i64::from(b.0) >= epoch).map(|b| (b.0, b.1.to_string())).collect();
                let n = v.len().min(limit.unsigned_abs() as usize);
                json(serde_json::to_value(if limit < 0 { &v[v.len() - n..] } else { &v[..n] }))
            }
            "getBlock" => {
                let id = r.params[0].as_str().ok_or_else(|| no("params"))?;
                let b = self.blocks.get(id).ok_or_else(|| no("block not found"))?;
                let mut v = json(serde_json::to_value(&**b))?;
                v["confirmed"] = self.chain[..self.confirmed].iter().any(|x| x.1.to_string() == id).into();
                Ok(v)
            }
            "getTransaction" => {
                let x = self.txs.get(r.params.as_str().ok_or_else(|| no("params"))?).ok_or_else(|| no("transaction not found"))?;
                Ok(serde_json::json!({ "transaction": json(serde_json::to_value(x))?, "blockHash": "pending", "weight": 1 }))
            }
            "syncStatus" => {
                let tip = self.chain.last().copied().unwrap_or_default();
                let chain_beacon = CheckpointBeacon { checkpoint: tip.0, hash_prev_block: tip.1 };
                json(serde_json::to_value(SyncStatus { chain_beacon, current_epoch: Some(tip.0), node_state: self.state }))
            }
            "witnet_subscribe" => Ok(Value::Null),
            "inventory" if self.deaf => Err(no("not accepted")),
            "inventory" => {
                self.sent.push(r.params);
                Ok(true.into())
            }
            "dataRequestReport" => json(serde_json::to_value(self.reports.get(r.params.as_str().ok_or_else(|| no("params"))?).ok_or_else(|| no("no report"))?)),
            m => Err(no(&format!("what is {m}?"))),
        }
    }
}
#[allow(clippy::arc_with_non_send_sync)]
pub fn client(node: &Shared) -> Arc<NodeClient> {
    let node = node.clone();
    let client = jsonrpc::JsonRpcClient(Box::new(move |r| node.lock().unwrap().answer(r)));
    Arc::new(NodeClient { actor: Addr::new(client) })
}
pub fn worker(db: &Arc<rocksdb::DB>, node: &Shared, params: &Params) -> Addr<Worker> {
    let node = NodeParams {
        client: client(node),
        last_beacon: Arc::new(RwLock::new(birth())),
        network: "nowhere".into(),
        requests_timeout: std::time::Duration::from_secs(1),
        subscriptions: Default::default(),
        protocol_info: protocol(),
    };
    Worker::start(1, db.clone(), node, params.clone())
}

pub struct Store {
    pub db: Arc<rocksdb::DB>,
    pub id: String,
}
impl Store {
    /// The database of a new wallet.
    pub fn create(id: &str, key: &ExtendedSK, params: &Params) -> Store {
        let s = Store { db: Arc::new(rocksdb::DB::default()), id: id.into() };
        let account = account::gen_account(0, key).unwrap();
        Wallets::new(witnet_wallet::db::PlainDb::new(s.db.clone()))
            .create(
                &s.wallet_db(),
                types::CreateWalletData {
                    id,
                    name: Some("name".into()),
                    description: None,
                    iv: vec![7; 16],
                    salt: vec![8; 32],
                    account: &account,
                    master_key: Some(key.clone()),
                    birth_date: CheckpointBeacon { checkpoint: 0, hash_prev_block: params.genesis_prev_hash },
                },
            )
            .unwrap();
        s
    }
    pub fn wallet_db(&self) -> EncryptedDb {
        let key = crypto::key_from_password(b"password", &[8; 32], 2);
        EncryptedDb::new(self.db.clone(), self.id.as_bytes().to_vec(), key, vec![7; 16])
    }
    pub fn unlock(&self, params: &Params) -> Result<Arc<W>, String> {
        Wallet::unlock(&self.id, types::SessionId::from("session".to_string()), self.wallet_db(), params.clone()).map(Arc::new).map_err(|e| format!("the wallet does not open: {e}"))
    }
}

static SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// What is random is to follow from the case, so that a failure can be had again: this stands in for the
/// system's randomness. Every case has a thread of its own, for that is asked once for the order of hash maps.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED.fetch_add(0x9e37_79b9_7f4a_7c16, std::sync::atomic::Ordering::Relaxed) | 1;
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        unsafe { *buf.add(i) = (x >> 24) as u8 };
    }
    len as isize
}
pub fn alone<T: Send>(seed: &[u8], f: impl FnOnce() -> T + Send) -> T {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in seed {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
    }
    SEED.store(h, std::sync::atomic::Ordering::Relaxed);
    std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}
