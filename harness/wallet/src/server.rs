//! C41: wallets, sessions and secrets, as seen through the wallet's JSON-RPC server.
use crate::base::*;
use actix::{Addr, System};
use bech32::{FromBase32, ToBase32};
use jsonrpc_core::{ErrorCode, Params as Rpc};
use jsonrpc_pubsub::{PubSubHandler, Sink, SubscriptionId};
use serde_json::{Map, Value, json};
use std::{
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
    sync::Arc,
    time::Duration,
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_crypto::{
    hash::{HashFunction, calculate_sha256},
    key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen},
    mnemonic::Mnemonic,
    secp256k1, signature,
};
use witnet_data_structures::{chain::*, proto::versioning::{ProtocolVersion, VersionedHashable}, transaction::*};
use witnet_net::{client::tcp::jsonrpc::NotifySubscriptionTopic, server::ws::Server};
use witnet_wallet::{
    account,
    actors::{App, app::Params as AppParams},
    crypto,
    params::Params,
};

type R = Result<(), String>;
/// How long a session lasts.
const LAST: Duration = Duration::from_secs(100);
const PHRASES: [&str; 4] = [
    "day voice lake monkey suit bread occur own cattle visit object ordinary",
    "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about",
    "legal winner thank year wave sausage worth useful legal winner thank year wave sausage worth useful legal will",
    "hamster diagram private dutch cause delay private meat slide toddler razor book happy fancy gospel tennis maple dilemma loan word shrug inflict delay length",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Refusal {
    pub code: i64,
    pub data: Value,
}
pub type Answer = Result<Value, Refusal>;

/// The application, with its worker, node and methods.
pub struct Host {
    pub app: Addr<App>,
    api: Rc<PubSubHandler<()>>,
}
impl Host {
    pub fn start(db: &Arc<rocksdb::DB>, node: &Shared, params: &Params) -> Host {
        Host::lasting(db, node, params, LAST)
    }
    pub fn lasting(db: &Arc<rocksdb::DB>, node: &Shared, params: &Params, last: Duration) -> Host {
        let app = App::start(AppParams {
            testnet: params.testnet,
            worker: worker(db, node, params),
            client: client(node),
            server_addr: "127.0.0.1:11212".parse().unwrap(),
            session_expires_in: last,
            requests_timeout: Duration::from_secs(1),
            consensus_constants: params.consensus_constants.clone(),
        });
        Host { app, api: Server::last().expect("the server does not start") }
    }
    pub fn call(&self, method: &str, p: Value) -> Answer {
        let shown = p.clone();
        let r = self.call_as(method, p);
        if std::env::var("TRACE").is_ok() {
            eprintln!("{method} {shown} -> {r:?}");
        }
        r
    }
    fn call_as(&self, method: &str, p: Value) -> Answer {
        let p = match p {
            Value::Object(m) => Rpc::Map(m),
            Value::Array(v) => Rpc::Array(v),
            _ => Rpc::None,
        };
        refusal(actix::now(self.api.call(method, p)))
    }
    fn subscribe(&self, id: &str) -> (Option<Result<SubscriptionId, Refusal>>, Sink) {
        let (r, s) = self.api.subscribe(Rpc::Map(Map::from_iter([("session_id".to_string(), json!(id))])), ());
        (r.map(refusal), s)
    }
    fn unsubscribe(&self, id: SubscriptionId) -> Answer {
        refusal(actix::now(self.api.unsubscribe(id)))
    }
    pub fn notify(&self, topic: &str, value: Value) {
        self.app.do_send(NotifySubscriptionTopic { topic: topic.into(), value });
    }
}
fn refusal<T>(r: Result<T, jsonrpc_core::Error>) -> Result<T, Refusal> {
    r.map_err(|e| Refusal {
        code: match e.code {
            ErrorCode::ServerError(n) => n,
            ErrorCode::InvalidParams => -32602,
            ErrorCode::MethodNotFound => -32601,
        },
        data: e.data.unwrap_or_default(),
    })
}

/// What a wallet can be made of: all of a seed, or two keys that were derived from it.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Origin {
    pub seed: usize,
    pub double: bool,
}
#[derive(Clone)]
pub struct Seed {
    pub phrase: String,
    pub master: ExtendedSK,
}
impl Seed {
    pub fn of(phrase: &str) -> Seed {
        let m = Mnemonic::from_phrase(phrase.into()).unwrap();
        let seed = m.seed_ref("");
        let master = MasterKeyGen::new(seed).with_key(b"Bitcoin seed").generate().unwrap();
        Seed { phrase: phrase.into(), master }
    }
    fn account(&self) -> witnet_wallet::types::Account {
        account::gen_account(0, &self.master).unwrap()
    }
    fn exported(&self, double: bool) -> (&'static str, String) {
        let text = |k: &ExtendedSK| k.to_slip32(&KeyPath::default()).unwrap();
        match double {
            false => ("xprv", text(&self.master)),
            true => {
                let a = self.account();
                ("xprvdouble", text(&a.internal) + &text(&a.external))
            }
        }
    }
    pub fn id(&self, double: bool) -> String {
        let key = if double { self.account().external } else { self.master.clone() };
        crypto::gen_wallet_id(&HashFunction::Sha256, &key, b"Bitcoin seed", 2)
    }
    pub fn pkh(&self, k: usize, i: u32) -> PublicKeyHash {
        let a = self.account();
        let k = [a.external, a.internal][k].derive(&KeyPath::default().index(i)).unwrap();
        PublicKey::from(ExtendedPK::from_secret_key(&k).key).pkh()
    }
}

/// One making of a wallet: whoever makes it again makes another one of the same name.
#[derive(Clone, Debug, PartialEq)]
struct Inc {
    origin: Origin,
    pass: String,
    name: Option<String>,
    desc: Option<String>,
    birth: u32,
    kv: BTreeMap<String, Value>,
    labels: [Vec<Option<String>>; 2],
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    incs: Vec<Inc>,
    /// The wallets there are, in the order of their making.
    wallets: Vec<(String, usize)>,
    /// The names that the server tells everybody.
    names: BTreeMap<String, String>,
}
impl Model {
    fn find(&self, id: &str) -> Option<usize> {
        self.wallets.iter().find(|w| w.0 == id).map(|w| w.1)
    }
}
struct Sess {
    sid: String,
    id: String,
    inc: usize,
    /// Whether its wallet has not been locked.
    open: bool,
    next: [u32; 2],
    /// When it would end but for what comes later.
    ends: Vec<Duration>,
    sink: Option<Sink>,
}
struct Sim {
    params: Params,
    db: Arc<rocksdb::DB>,
    node: Shared,
    host: Host,
    m: Model,
    seeds: Vec<Seed>,
    sess: Vec<Sess>,
    gone: Vec<Sess>,
    /// The session that keeps a wallet in step with the chain.
    follow: BTreeMap<String, String>,
    clock: Duration,
    made: u32,
    exports: Vec<(Origin, String, String)>,
    chain: Vec<CheckpointBeacon>,
    kinds: BTreeSet<&'static str>,
    seen: BTreeSet<String>,
}

/// A block that pays to some.
pub fn mine(node: &Shared, epoch: u32, prev: Hash, outputs: Vec<ValueTransferOutput>) -> Block {
    let mut b = Block::default();
    b.block_header.beacon = CheckpointBeacon { checkpoint: epoch, hash_prev_block: prev };
    b.txns.mint = MintTransaction::new(epoch, outputs);
    let h = b.versioned_hash(version(epoch));
    let mut n = node.lock().unwrap();
    n.chain.push((epoch, h));
    n.blocks.insert(h.to_string(), Arc::new(b.clone()));
    let m = Transaction::Mint(b.txns.mint.clone());
    n.txs.insert(m.versioned_hash(version(epoch)).to_string(), m);
    b
}

impl Sim {
    fn new(t: &mut Tape) -> Sim {
        let mut params = params(t.bool(), 1000);
        let node = Shared::default();
        let mut chain = vec![];
        let g = mine(&node, 0, BOOTSTRAP, vec![]);
        params.genesis_hash = g.versioned_hash(version(0));
        chain.push(CheckpointBeacon { checkpoint: 0, hash_prev_block: params.genesis_hash });
        node.lock().unwrap().confirmed = 1;
        node.lock().unwrap().state = *t.pick(&[StateMachine::Synced, StateMachine::Synced, StateMachine::AlmostSynced]);
        let db = Arc::new(rocksdb::DB::default());
        let host = Host::start(&db, &node, &params);
        let seeds = (0..PHRASES.len()).map(|i| Seed::of(PHRASES[i])).collect();
        Sim { params, db, node, host, m: Model::default(), seeds, sess: vec![], gone: vec![], follow: BTreeMap::new(), clock: Duration::ZERO, made: 0, exports: vec![], chain, kinds: BTreeSet::new(), seen: BTreeSet::new() }
    }
    /// A word that is like no other.
    fn word(&mut self, what: &str) -> String {
        self.made += 1;
        format!("{what}-{}-{:08x}", self.made, self.made.wrapping_mul(0x9e37_79b9))
    }
    fn restart(&mut self) {
        self.host = Host::start(&self.db, &self.node, &self.params);
        self.clock = Duration::ZERO;
        self.follow.clear();
        self.gone.append(&mut self.sess);
        for s in &mut self.gone {
            s.sink = None;
        }
    }
    fn tip(&self) -> CheckpointBeacon {
        *self.chain.last().unwrap()
    }
    fn grow(&mut self, t: &mut Tape) -> Block {
        let tip = self.tip();
        let b = mine(&self.node, tip.checkpoint + if t.odds(20) { t.range(2, 40) as u32 } else { 1 }, tip.hash_prev_block, vec![]);
        let e = b.block_header.beacon.checkpoint;
        self.chain.push(CheckpointBeacon { checkpoint: e, hash_prev_block: b.versioned_hash(version(e)) });
        if t.bool() {
            self.node.lock().unwrap().confirmed = self.chain.len() - t.below(2);
        }
        b
    }

    /// What a wallet is to be made of: the parameters, and what they amount to.
    fn source(&mut self, t: &mut Tape) -> (Map<String, Value>, Option<Origin>) {
        let mut p = Map::new();
        let mut put = |k: &str, v: Value| p.insert(k.into(), v);
        let seed = t.below(self.seeds.len());
        let s = self.seeds[seed].clone();
        let xprv = |key: &str, hrp: &str, pass: &str| bech32::encode(hrp, crypto::encrypt_cbc(key.as_bytes(), pass.as_bytes()).unwrap().to_base32()).unwrap();
        let origin = match t.below(12) {
            0..5 => {
                put("seed_source", json!("mnemonics"));
                put("seed_data", json!(s.phrase));
                Some(Origin { seed, double: false })
            }
            k @ 5..7 => {
                let (hrp, key) = s.exported(k == 6);
                put("seed_source", json!("xprv"));
                put("seed_data", json!(xprv(&key, hrp, "back up")));
                put("backup_password", json!("back up"));
                Some(Origin { seed, double: k == 6 })
            }
            7..9 if !self.exports.is_empty() => {
                let (o, pass, data) = t.pick(&self.exports).clone();
                put("seed_source", json!("xprv"));
                put("seed_data", json!(data));
                put("backup_password", json!(pass));
                self.kinds.insert("a wallet made of an export");
                Some(o)
            }
            _ => {
                self.kinds.insert("a bad seed");
                let (hrp, key) = s.exported(t.bool());
                put("seed_source", json!("xprv"));
                put("backup_password", json!("back up"));
                match t.below(11) {
                    0 => {
                        let mut w: Vec<_> = s.phrase.split(' ').collect();
                        let i = t.below(w.len());
                        w[i] = if w[i] == "zoo" { "zebra" } else { "zoo" };
                        // One phrase in sixteen is right by chance.
                        let phrase = w.join(" ");
                        if Mnemonic::from_phrase(phrase.as_str().into()).is_ok() {
                            return self.source(t);
                        }
                        put("seed_source", json!("mnemonics"));
                        put("seed_data", json!(phrase))
                    }
                    1 => {
                        put("seed_source", json!("wif"));
                        put("seed_data", json!(s.phrase))
                    }
                    2 => put("seed_data", json!(xprv(&key, "xpub", "back up"))),
                    3 => {
                        let mut data = xprv(&key, hrp, "back up");
                        let i = t.below(data.len());
                        let c = if data.as_bytes()[i] == b'q' { "p" } else { "q" };
                        data.replace_range(i..=i, c);
                        put("seed_data", json!(data))
                    }
                    4 => {
                        put("seed_data", json!(xprv(&key, hrp, "back up")));
                        put("backup_password", json!("back down"))
                    }
                    5 => {
                        put("seed_data", json!(xprv(&key, hrp, "back up")));
                        put("backup_password", Value::Null)
                    }
                    6 => {
                        // Fewer bytes than there should be, down to none.
                        let n = if t.bool() { t.below(49) } else { t.below(200) };
                        let bytes: Vec<u8> = (0..n).map(|_| t.u8()).collect();
                        put("seed_data", json!(bech32::encode(hrp, bytes.to_base32()).unwrap()))
                    }
                    7 => {
                        let path = KeyPath::default().index(t.below(3) as u32);
                        let (k, _) = ExtendedSK::from_slip32(&self.seeds[seed].exported(false).1).unwrap();
                        let below = k.derive(&path).unwrap().to_slip32(&path).unwrap();
                        match t.below(4) {
                            0 => put("seed_data", json!(xprv(&below, "xprv", "back up"))),
                            1 => put("seed_data", json!(xprv(&(below.clone() + &below), "xprvdouble", "back up"))),
                            2 => put("seed_data", json!(xprv(&(below + &self.seeds[seed].exported(false).1), "xprvdouble", "back up"))),
                            _ => put("seed_data", json!(xprv(&(self.seeds[seed].exported(false).1 + &below), "xprvdouble", "back up"))),
                        }
                    }
                    8 => put("seed_data", json!(xprv(&key, if hrp == "xprv" { "xprvdouble" } else { "xprv" }, "back up"))),
                    9 => put("seed_data", json!(xprv("not a key, nor two", hrp, "back up"))),
                    _ => put("seed_data", json!(*t.pick(&["", "xprv", "day", "ñandú ñandú", "\u{3000}", "xprv1"]))),
                };
                None
            }
        };
        (p, origin)
    }

    fn create(&mut self, t: &mut Tape) -> R {
        let (mut p, origin) = self.source(t);
        let mut fine = true;
        let pass = if t.odds(16) {
            fine = false;
            t.pick(&["", "1234567", "ñññ"]).to_string()
        } else {
            self.word("password")
        };
        p.insert("password".into(), json!(pass));
        let name = t.odds(200).then(|| self.word("name"));
        let desc = t.bool().then(|| self.word("description"));
        if name.is_some() || t.bool() {
            p.insert("name".into(), json!(name));
        }
        if desc.is_some() || t.bool() {
            p.insert("description".into(), json!(desc));
        }
        let overwrite = t.odds(100);
        if overwrite || t.bool() {
            p.insert("overwrite".into(), json!(overwrite));
        }
        let mut birth = Some(0);
        match t.below(8) {
            0 => {
                p.insert("birth_date".into(), json!("current"));
                birth = self.chain.iter().rev().take(21).last().map(|b| b.checkpoint);
            }
            1 => {
                let e = t.range(0, u64::from(self.tip().checkpoint) + 30) as u32;
                p.insert("birth_date".into(), json!({ "imported": e }));
                birth = None;
            }
            2 => {
                p.insert("birth_date".into(), json!({ "imported": u32::MAX - t.below(2) as u32 }));
                fine = false;
                birth = None;
            }
            _ => {}
        }
        let before = self.m.clone();
        let dump = self.db.dump();
        let fault = t.odds(30);
        if fault {
            self.db.fail_after(Some(t.below(8) as u32));
        }
        let r = self.host.call("create_wallet", Value::Object(p.clone()));
        let hit = fault && !self.db.failing();
        self.db.fail_after(None);
        let id = origin.map(|o| self.seeds[o.seed].id(o.double));
        let there = id.as_ref().is_some_and(|i| self.m.find(i).is_some());
        fine &= origin.is_some() && (overwrite || !there);
        let mut after = self.m.clone();
        if let (Some(id), Some(origin)) = (&id, origin) {
            after.incs.push(Inc { origin, pass, name: name.clone(), desc, birth: birth.unwrap_or(0), kv: BTreeMap::new(), labels: Default::default() });
            let n = after.incs.len() - 1;
            match after.wallets.iter_mut().find(|w| w.0 == *id) {
                Some(w) => w.1 = n,
                None => after.wallets.push((id.clone(), n)),
            }
            if let Some(name) = name {
                after.names.insert(id.clone(), name);
            }
        }
        if hit {
            self.kinds.insert("a write fails while a wallet is made");
            self.restart();
            // Either the wallet is there as asked for, or everything is as it was.
            if self.same(&before).is_ok() {
                ensure!(r.is_err(), "a wallet that was not made was answered for with {r:?}");
                return Ok(());
            }
            self.m = after;
            if let (None, Some(i)) = (birth, self.m.incs.last().map(|_| self.m.incs.len() - 1)) {
                self.m.incs[i].birth = u32::MAX;
            }
            return self.same(&self.m.clone()).map_err(|e| format!("a wallet is made by halves: {e}"));
        }
        match r {
            Ok(v) => {
                ensure!(fine, "a wallet was made of {p:?}");
                ensure_eq!(Some(v), id.clone().map(|i| json!({ "wallet_id": i })), "the wallet made");
                if there {
                    self.kinds.insert("a wallet is overwritten");
                }
                self.m = after;
                if birth.is_none() {
                    // Which one depends on the blocks that there are: asked below.
                    self.m.incs.last_mut().unwrap().birth = u32::MAX;
                }
            }
            Err(e) => {
                ensure!(!fine, "no wallet could be made of {p:?}: {e:?}");
                ensure_eq!(self.db.dump(), dump, "what is stored after a wallet was refused");
                if origin.is_some() && e.code == 409 {
                    ensure!(there, "{e:?} of a wallet that does not exist");
                    ensure_eq!(e.data["wallet_id"], json!(id), "the wallet that exists");
                }
            }
        }
        Ok(())
    }

    fn unlock(&mut self, id: &str, pass: &str) -> Answer {
        self.host.call("unlock_wallet", json!({ "wallet_id": id, "password": pass }))
    }
    /// Opens a wallet and reads all that it keeps.
    fn open(&mut self, id: &str, inc: usize) -> Result<usize, String> {
        let i = self.m.incs[inc].clone();
        let v = self.unlock(id, &i.pass).map_err(|e| format!("the wallet does not open: {e:?}"))?;
        let sid = v["session_id"].as_str().ok_or("no session")?.to_string();
        ensure!(self.seen.insert(sid.clone()), "a session of old");
        let birth = v["birth_date"].as_u64().ok_or("no birth date")? as u32;
        if i.birth == u32::MAX {
            self.m.incs[inc].birth = birth;
        } else {
            ensure_eq!(birth, i.birth, "birth date");
        }
        ensure_eq!(
            (&v["name"], &v["description"], &v["current_account"], &v["available_accounts"], &v["session_expiration_secs"]),
            (&json!(i.name), &json!(i.desc), &json!(0), &json!([0]), &json!(LAST.as_secs())),
            "the wallet opened"
        );
        let next = [0, 1].map(|k| i.labels[k].len() as u32);
        self.follow.insert(id.into(), sid.clone());
        self.sess.push(Sess { sid, id: id.into(), inc, open: true, next, ends: vec![self.clock + LAST], sink: None });
        self.read(self.sess.len() - 1)?;
        Ok(self.sess.len() - 1)
    }
    fn ask(&self, s: usize, method: &str, mut p: Value) -> Answer {
        p["session_id"] = json!(self.sess[s].sid);
        p["wallet_id"] = json!(self.sess[s].id);
        self.host.call(method, p)
    }
    /// Whether a session gets all that its wallet keeps.
    fn read(&self, s: usize) -> R {
        let x = &self.sess[s];
        let i = &self.m.incs[x.inc];
        for k in 0..2 {
            let v = self.ask(s, "get_addresses", json!({ "external": k == 0 })).map_err(|e| format!("no addresses: {e:?}"))?;
            let want: Vec<_> = (0..x.next[k]).rev().map(|n| (json!(self.address(i.origin, k, n)), json!(path(k, n)), json!(i.labels[k][n as usize]))).collect();
            let got: Vec<_> = v["addresses"].as_array().ok_or("no addresses")?.iter().map(|a| (a["address"].clone(), a["path"].clone(), a["info"]["label"].clone())).collect();
            ensure_eq!(got, want, "addresses");
            ensure_eq!(v["total"], json!(x.next[k]), "number of addresses");
        }
        for (k, v) in &i.kv {
            ensure_eq!(self.ask(s, "get", json!({ "key": k })), Ok(json!({ "value": v })), "what was kept");
        }
        ensure_eq!(self.ask(s, "get", json!({ "key": "never" })), Ok(json!({ "value": null })), "what was never kept");
        Ok(())
    }
    fn address(&self, o: Origin, k: usize, n: u32) -> String {
        self.seeds[o.seed].pkh(k, n).bech32(Environment::Mainnet)
    }
    /// Whether what is stored is what a model says. Leaves sessions behind.
    fn same(&mut self, m: &Model) -> R {
        let keep = std::mem::replace(&mut self.m, m.clone());
        let r = self.infos().and_then(|()| {
            for (id, inc) in m.wallets.clone() {
                self.open(&id, inc)?;
                ensure!(self.unlock(&id, "not the password").is_err(), "a wallet opens with a wrong password");
            }
            Ok(())
        });
        let birth: Vec<_> = self.m.incs.iter().map(|i| i.birth).collect();
        self.m = keep;
        for (i, b) in self.m.incs.iter_mut().zip(birth) {
            if r.is_ok() {
                i.birth = b;
            }
        }
        r
    }
    /// Whether the wallet of a session is kept in step with the chain.
    fn follows(&self, i: usize) -> bool {
        let x = &self.sess[i];
        x.open && self.follow.get(&x.id) == Some(&x.sid)
    }
    /// The last block that a wallet knows, as its subscriber is told.
    fn last_sync(&mut self, i: usize) -> Result<Value, String> {
        let (r, sink) = self.host.subscribe(&self.sess[i].sid);
        ensure!(matches!(r, Some(Ok(_))), "no subscription: {r:?}");
        let told = sink.0.lock().unwrap().last().cloned();
        self.sess[i].sink = Some(sink);
        let Some(Rpc::Array(v)) = told else { return Err("a subscriber is told nothing".into()) };
        Ok(v[0]["status"]["wallet"]["last_sync"]["hashPrevBlock"].clone())
    }
    fn infos(&self) -> R {
        let want: Vec<_> = self.m.wallets.iter().map(|w| json!({ "id": w.0, "name": self.m.names.get(&w.0) })).collect();
        ensure_eq!(self.host.call("get_wallet_infos", Value::Null), Ok(json!({ "infos": want })), "the wallets there are");
        Ok(())
    }
    fn expire(&mut self) {
        let now = self.clock;
        for s in &mut self.sess {
            s.ends.retain(|e| *e > now);
        }
        let (on, off) = std::mem::take(&mut self.sess).into_iter().partition(|s| !s.ends.is_empty());
        self.sess = on;
        self.quiet(off);
    }
    fn quiet(&mut self, off: Vec<Sess>) {
        if off.iter().any(|s| s.sink.is_some()) {
            self.kinds.insert("a subscriber's session ends");
        }
        self.gone.extend(off);
    }
    /// Lets the clock of the server run; the node's state may be asked meanwhile.
    fn pass(&mut self, d: Duration) {
        self.host.app.advance(d);
        self.clock += d;
        self.expire();
    }
}
fn path(k: usize, n: u32) -> String {
    format!("m/3'/4919'/0'/{k}/{n}")
}

/// Requests that need a session and a wallet.
fn guarded(t: &mut Tape) -> (&'static str, Value) {
    match t.below(16) {
        0 => ("update_wallet", json!({ "name": "mine now", "description": "mine now" })),
        1 => ("generate_address", json!({ "external": true, "label": "mine now" })),
        2 => ("generate_address", json!({ "external": false })),
        3 => ("get_addresses", json!({})),
        4 => ("get_balance", json!({})),
        5 => ("get_utxo_info", json!({})),
        6 => ("get_transactions", json!({})),
        7 => ("set", json!({ "key": "key", "value": ["mine now"] })),
        8 => ("get", json!({ "key": "key" })),
        9 => ("sign_data", json!({ "data": "I owe you" })),
        10 => ("export_master_key", json!({ "password": "mine now" })),
        11 => ("delete_wallet", json!({})),
        12 => ("resync_wallet", json!({})),
        13 => ("create_vtt", json!({ "fee": { "absolute": "1" }, "outputs": [{ "address": Seed::of(PHRASES[0]).pkh(0, 0).bech32(Environment::Mainnet), "amount": "1" }] })),
        14 => ("create_vtt", json!({ "fee": 1, "outputs": [] })),
        _ => ("send_transaction", json!({ "transaction": { "ValueTransfer": { "body": { "inputs": [], "outputs": [] }, "signatures": [] } } })),
    }
}

fn step(s: &mut Sim, t: &mut Tape) -> R {
    let any = |s: &Sim, t: &mut Tape| (!s.sess.is_empty()).then(|| t.below(s.sess.len()));
    // A session whose wallet is open.
    let ready = |s: &Sim, t: &mut Tape| {
        let v: Vec<_> = (0..s.sess.len()).filter(|i| s.sess[*i].open).collect();
        (!v.is_empty()).then(|| *t.pick(&v))
    };
    match t.below(32) {
        0..4 => s.create(t)?,
        4 => {
            let (p, origin) = s.source(t);
            let dump = s.db.dump();
            let r = s.host.call("validate_mnemonics", Value::Object(p.clone()));
            match origin {
                Some(o) => {
                    let id = s.seeds[o.seed].id(o.double);
                    ensure_eq!(r, Ok(json!({ "exist": s.m.find(&id).is_some(), "wallet_id": id })), "whether there is a wallet of that seed");
                }
                // What is decrypted with the wrong password, or is no master key, may be told later.
                None => ensure!(r.is_err() || p["seed_source"] == json!("xprv"), "{p:?} was found to be {r:?}"),
            }
            ensure_eq!(s.db.dump(), dump, "what is stored after a seed was looked at");
        }
        5..9 => {
            // Sometimes a wallet that is no longer there.
            let id = match t.below(8) {
                0 => {
                    let o = Origin { seed: t.below(s.seeds.len()), double: t.bool() };
                    s.seeds[o.seed].id(o.double)
                }
                1 => t.pick(&["", "é", "00"]).to_string(),
                _ if s.m.wallets.is_empty() => return Ok(()),
                _ => t.pick(&s.m.wallets).0.clone(),
            };
            match s.m.find(&id) {
                Some(inc) if t.odds(200) => {
                    let i = s.open(&id, inc)?;
                    if t.bool() {
                        s.last_sync(i)?;
                    }
                }
                found => {
                    let others: Vec<_> = s.m.incs.iter().enumerate().filter(|i| Some(i.0) != found).map(|i| i.1.pass.clone()).collect();
                    let pass = match t.below(3) {
                        0 if !others.is_empty() => t.pick(&others).clone(),
                        1 => String::new(),
                        _ => "password".into(),
                    };
                    let dump = s.db.dump();
                    let e = match s.unlock(&id, &pass) {
                        Ok(v) => return Err(format!("{id:?} opens with {pass:?}: {v}")),
                        Err(e) => e,
                    };
                    let want = if found.is_some() { json!([["password", "Wrong password"]]) } else { json!([["wallet_id", "Wallet not found"]]) };
                    ensure_eq!((e.code, e.data), (400, want), "why a wallet does not open");
                    ensure_eq!(s.db.dump(), dump, "what is stored after a wallet did not open");
                    s.kinds.insert("a wrong password");
                }
            }
        }
        9 => {
            // Lock, also what the session does not have.
            let Some(i) = any(s, t) else { return Ok(()) };
            let (sid, own) = (s.sess[i].sid.clone(), s.sess[i].id.clone());
            let id = if t.odds(180) || s.m.wallets.is_empty() { own.clone() } else { t.pick(&s.m.wallets).0.clone() };
            let r = s.host.call("lock_wallet", json!({ "session_id": sid, "wallet_id": id }));
            if id == own {
                ensure_eq!(r, Ok(json!({ "success": true })), "a wallet is locked");
                s.sess[i].open = false;
                if s.follow.get(&id) == Some(&sid) {
                    s.follow.remove(&id);
                }
            } else {
                s.kinds.insert("somebody else's wallet is locked");
            }
        }
        10 => {
            let Some(i) = any(s, t) else { return Ok(()) };
            let sid = s.sess[i].sid.clone();
            ensure_eq!(s.host.call("close_session", json!({ "session_id": sid })), Ok(json!({ "success": true })), "a session is closed");
            let x = s.sess.remove(i);
            s.quiet(vec![x]);
        }
        11 | 12 => {
            let Some(i) = any(s, t) else { return Ok(()) };
            let sid = s.sess[i].sid.clone();
            let can = s.sess[i].ends.len() == 1;
            ensure_eq!(s.host.call("refresh_session", json!({ "session_id": sid })), Ok(json!({ "success": can })), "a session is extended");
            if can {
                let end = s.clock + LAST;
                s.sess[i].ends.push(end);
                s.kinds.insert("a session is extended");
            }
        }
        13 | 14 => {
            let d = match t.below(4) {
                0 => LAST,
                1 => Duration::from_secs(t.range(1, 250)),
                _ => Duration::from_secs(t.range(1, 60)),
            };
            s.pass(d);
        }
        15 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            ensure_eq!(s.ask(i, "delete_wallet", json!({})), Ok(json!({ "success": true })), "a wallet is deleted");
            let (sid, id) = (s.sess[i].sid.clone(), s.sess[i].id.clone());
            s.m.wallets.retain(|w| w.0 != id);
            s.sess[i].open = false;
            if s.follow.get(&id) == Some(&sid) {
                s.follow.remove(&id);
            }
            s.kinds.insert("a wallet is deleted");
        }
        16 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            let (id, inc) = (s.sess[i].id.clone(), s.sess[i].inc);
            if s.m.find(&id) != Some(inc) {
                return Ok(());
            }
            let name = t.bool().then(|| s.word("name"));
            let desc = t.bool().then(|| s.word("description"));
            ensure_eq!(s.ask(i, "update_wallet", json!({ "name": name, "description": desc })), Ok(json!({ "success": true })), "a wallet is renamed");
            if let Some(n) = name {
                s.m.incs[inc].name = Some(n.clone());
                s.m.names.insert(id, n);
            }
            if let Some(d) = desc {
                s.m.incs[inc].desc = Some(d);
            }
        }
        17..20 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            let k = t.below(2);
            let label = t.bool().then(|| s.word("label"));
            let (inc, n) = (s.sess[i].inc, s.sess[i].next[k]);
            // Sessions with one wallet do not know what the others do: see DESIGN.md.
            if s.m.incs[inc].labels[k].len() != n as usize {
                s.kinds.insert("two sessions with a wallet");
                return Ok(());
            }
            let p = if k == 0 && t.bool() { json!({ "label": label }) } else { json!({ "label": label, "external": k == 0 }) };
            let want = json!({ "address": s.address(s.m.incs[inc].origin, k, n), "path": path(k, n) });
            ensure_eq!(s.ask(i, "generate_address", p), Ok(want), "an address");
            s.sess[i].next[k] += 1;
            s.m.incs[inc].labels[k].push(label);
        }
        20 | 21 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            let key = format!("key{}", t.below(4));
            let word = s.word("value");
            let v = match t.below(3) {
                0 => json!([word, 1, null]),
                1 => json!({ "a": word, "b": [true, 1.5] }),
                _ => json!([]),
            };
            let dump = s.db.dump();
            ensure_eq!(s.ask(i, "set", json!({ "key": key, "value": v })), Ok(Value::Null), "a value is kept");
            ensure!(s.db.dump().len() <= dump.len() + 1, "one value, many entries");
            let inc = s.sess[i].inc;
            s.m.incs[inc].kv.insert(key, v);
        }
        22 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            let data = format!("{}\u{e9}", s.word("data"));
            let extended = t.bool();
            let v = s.ask(i, "sign_data", json!({ "data": data, "extended_pk": extended })).map_err(|e| format!("nothing is signed: {e:?}"))?;
            let a = s.seeds[s.m.incs[s.sess[i].inc].origin.seed].account().external;
            let key = ExtendedPK::from_secret_key(&a).key;
            let sig: secp256k1::ecdsa::Signature = v["signature"].as_str().ok_or("no signature")?.parse().map_err(|e| format!("{e}"))?;
            let Hash::SHA256(h) = calculate_sha256(data.as_bytes()).into();
            ensure!(signature::verify(&key, &h, &sig).is_ok(), "a signature that does not verify");
            ensure_eq!((&v["public_key"], v.get("chaincode").cloned()), (&json!(key.to_string()), extended.then(|| json!(hex::encode(a.chain_code())))), "the signer");
        }
        23 => {
            let Some(i) = ready(s, t) else { return Ok(()) };
            let pass = s.word("backup");
            let v = s.ask(i, "export_master_key", json!({ "password": pass })).map_err(|e| format!("no export: {e:?}"))?;
            let text = v["master_key"].as_str().ok_or_else(|| format!("no key in {v}"))?.to_string();
            let origin = s.m.incs[s.sess[i].inc].origin;
            let (hrp, key) = s.seeds[origin.seed].exported(origin.double);
            let (h, data) = bech32::decode(&text).map_err(|e| format!("{e}"))?;
            let data = Vec::<u8>::from_base32(&data).map_err(|e| format!("{e}"))?;
            let plain = crypto::decrypt_cbc(&data, pass.as_bytes()).map_err(|e| format!("{e}"))?;
            ensure_eq!((h.as_str(), String::from_utf8_lossy(&plain).as_ref()), (hrp, key.as_str()), "the exported key");
            s.exports.push((origin, pass, text));
        }
        24 | 25 => {
            // Whoever has no session, or none for that wallet, gets nothing and changes nothing.
            let mut sids: Vec<String> = s.gone.iter().map(|x| x.sid.clone()).collect();
            sids.extend(["".to_string(), "abcd".into(), "ééé".into(), "0".repeat(64)]);
            let real = t.bool() && !s.sess.is_empty();
            let sid = match real {
                true => s.sess[t.below(s.sess.len())].sid.clone(),
                false => t.pick(&sids).clone(),
            };
            let mut ids: Vec<String> = s.m.wallets.iter().map(|w| w.0.clone()).collect();
            ids.extend(["".to_string(), "ab".into()]);
            let id = t.pick(&ids).clone();
            if s.sess.iter().any(|x| x.sid == sid && x.id == id && x.open) {
                return Ok(());
            }
            let dump = s.db.dump();
            let want = if real { 402 } else { 401 };
            for _ in 0..3 {
                let (method, mut p) = guarded(t);
                p["session_id"] = json!(sid);
                p["wallet_id"] = json!(id);
                match s.host.call(method, p) {
                    Ok(v) => return Err(format!("{method} for a stranger: {v}")),
                    Err(e) => ensure_eq!(e.code, want, "{method} for a stranger: {e:?}"),
                }
            }
            if !real {
                for m in ["close_session", "refresh_session", "lock_wallet", "shutdown"] {
                    let r = s.host.call(m, json!({ "session_id": sid, "wallet_id": id }));
                    ensure_eq!(r.map_err(|e| e.code), Err(401), "{m} for a stranger");
                }
                let (r, sink) = s.host.subscribe(&sid);
                ensure_eq!(r.map(|r| r.map_err(|e| e.code)), Some(Err(401)), "a subscription for a stranger");
                ensure!(sink.0.lock().unwrap().is_empty(), "a stranger is notified");
                ensure_eq!(s.host.unsubscribe(SubscriptionId::String(sid)).map_err(|e| e.code), Err(401), "a subscription ended for a stranger");
                ensure!(s.host.unsubscribe(SubscriptionId::Number(1)).is_err(), "a subscription ended for a stranger");
            }
            ensure_eq!(s.db.dump(), dump, "what is stored after a stranger came by");
            ensure!(!System::stopped(), "a stranger stopped the server");
            s.kinds.insert("a stranger");
        }
        26 => {
            if t.odds(160) {
                let open = !s.sess.is_empty();
                let p = match (open, any(s, t)) {
                    (true, Some(i)) if t.bool() => json!({ "session_id": s.sess[i].sid }),
                    _ => json!({}),
                };
                let r = s.host.call("shutdown", p.clone());
                if open && p == json!({}) {
                    ensure_eq!(r.map_err(|e| e.code), Err(401), "shutdown while there are sessions");
                    ensure!(!System::stopped(), "stopped while there are sessions");
                    return Ok(());
                }
                ensure_eq!(r, Ok(Value::Null), "shutdown");
                ensure!(System::stopped(), "the server does not stop");
            } else if t.bool() {
                return Ok(());
            }
            s.restart();
            s.kinds.insert("a restart");
        }
        27 => {
            let Some(i) = any(s, t) else { return Ok(()) };
            let sid = s.sess[i].sid.clone();
            if s.sess[i].sink.is_some() && t.bool() {
                ensure_eq!(s.host.unsubscribe(SubscriptionId::String(sid)), Ok(Value::Null), "a subscription ended");
                let x = s.sess[i].sink.take().unwrap();
                s.gone.push(Sess { sid: "nobody".into(), id: String::new(), inc: 0, open: false, next: [0; 2], ends: vec![], sink: Some(x) });
                return Ok(());
            }
            let (r, sink) = s.host.subscribe(&sid);
            ensure_eq!(r, Some(Ok(SubscriptionId::String(sid))), "a subscription");
            ensure_eq!(sink.0.lock().unwrap().len(), usize::from(s.sess[i].open), "what is told at once");
            s.sess[i].sink = Some(sink);
        }
        28 | 29 => {
            // A block arrives: those who follow their wallet hear of it, and nobody else does.
            let n = if t.odds(60) { t.below(8) } else { 0 };
            for _ in 0..n {
                s.grow(t);
            }
            let b = s.grow(t);
            let mut steps = BTreeMap::new();
            for i in 0..s.sess.len() {
                if s.sess[i].sink.is_some() && s.follows(i) {
                    steps.insert(s.sess[i].sid.clone(), s.last_sync(i)? == json!(b.block_header.beacon.hash_prev_block));
                }
            }
            for x in s.sess.iter().chain(&s.gone) {
                if let Some(k) = &x.sink {
                    k.0.lock().unwrap().clear();
                }
            }
            s.host.notify("blocks", serde_json::to_value(&b).unwrap());
            for x in s.sess.iter().chain(&s.gone) {
                let Some(k) = &x.sink else { continue };
                let told = k.0.lock().unwrap();
                if let Some(step) = steps.get(&x.sid) {
                    // A wallet that is behind the chain may have to ask for blocks first.
                    ensure!(!told.is_empty() || !step, "nobody told a session of a block");
                    for p in told.iter() {
                        let Rpc::Array(v) = p else { return Err(format!("{p:?}")) };
                        ensure_eq!((&v[0]["status"]["session"], &v[0]["status"]["wallet"]["id"]), (&json!(x.sid), &json!(x.id)), "who is told");
                    }
                    if *step {
                        s.kinds.insert("a block is told");
                    }
                } else {
                    ensure!(told.is_empty(), "a session that is over, or does not follow, is told of a block: {told:?}");
                }
            }
            for i in 0..s.sess.len() {
                if steps.get(&s.sess[i].sid) == Some(&true) {
                    let h = b.versioned_hash(version(b.block_header.beacon.checkpoint));
                    ensure_eq!(s.last_sync(i)?, json!(h), "how far a wallet has come with a block");
                }
            }
        }
        30 => {
            // The node goes away and comes back with more blocks: all wallets catch up.
            s.node.lock().unwrap().state = StateMachine::AlmostSynced;
            s.pass(Duration::from_secs(15));
            for _ in 0..t.below(12) {
                s.grow(t);
            }
            if t.bool() {
                s.node.lock().unwrap().fail = Some((0, t.bool()));
                s.pass(Duration::from_secs(15));
                s.node.lock().unwrap().fail = None;
            }
            s.node.lock().unwrap().state = StateMachine::Synced;
            s.pass(Duration::from_secs(15));
            for i in 0..s.sess.len() {
                if s.follows(i) {
                    ensure_eq!(s.last_sync(i)?, json!(s.tip().hash_prev_block), "how far a wallet has come after its node is back");
                    s.kinds.insert("a wallet catches up");
                }
            }
        }
        _ => {
            let n = *t.pick(&[12u64, 15, 18, 21, 24, 0, 13, 255, 256]);
            let r = s.host.call("create_mnemonics", json!({ "length": n }));
            if !matches!(n, 12 | 15 | 18 | 21 | 24) {
                ensure!(r.is_err(), "a phrase of {n} words");
                return Ok(());
            }
            let v = r.map_err(|e| format!("no phrase: {e:?}"))?;
            let phrase = v["mnemonics"].as_str().ok_or("no phrase")?.to_string();
            ensure_eq!(phrase.split(' ').count() as u64, n, "words");
            ensure!(s.seeds.iter().all(|x| x.phrase != phrase), "a phrase of old");
            s.seeds.push(Seed::of(&phrase));
        }
    }
    Ok(())
}

fn history(t: &mut Tape, obs: &mut Obs) -> R {
    logged();
    let mut s = Sim::new(t);
    for i in 0..6 + t.below(60) {
        let before = s.made;
        step(&mut s, t).map_err(|e| format!("step {i}: {e}"))?;
        if s.made != before || t.odds(50) {
            s.infos()?;
        }
        if !s.sess.is_empty() {
            let i = t.below(s.sess.len());
            if s.sess[i].open {
                s.read(i)?;
            } else {
                let r = s.ask(i, "get_balance", json!({}));
                ensure_eq!(r.map_err(|e| e.code), Err(402), "the balance of a locked wallet");
            }
        }
    }
    let m = s.m.clone();
    s.restart();
    s.same(&m)?;
    // Nothing that is secret can be read from the disk or the log.
    let mut disk = vec![];
    for (k, v) in s.db.dump() {
        disk.extend(k);
        disk.push(0);
        disk.extend(v);
        disk.push(0);
    }
    let log = logged();
    let mut secrets: Vec<(bool, Vec<u8>)> = vec![];
    for i in &s.m.incs {
        secrets.push((true, i.pass.clone().into_bytes()));
        secrets.extend(i.desc.iter().chain(i.labels.iter().flatten().flatten()).map(|d| (false, d.clone().into_bytes())));
        secrets.extend(i.kv.values().filter_map(|v| v[0].as_str().or(v["a"].as_str())).map(|d| (false, d.as_bytes().to_vec())));
        let x = &s.seeds[i.origin.seed];
        let a = x.account();
        secrets.push((true, x.phrase.clone().into_bytes()));
        secrets.push((true, x.exported(false).1.into_bytes()));
        for k in [&x.master, &a.external, &a.internal] {
            secrets.push((true, k.secret_key.secret_bytes().to_vec()));
            secrets.push((true, k.to_slip32(&KeyPath::default()).unwrap().into_bytes()));
            secrets.push((true, hex::encode(k.secret_key.secret_bytes()).into_bytes()));
        }
    }
    for (_, pass, _) in &s.exports {
        secrets.push((true, pass.clone().into_bytes()));
    }
    let has = |hay: &[u8], x: &[u8]| memchr::memmem::find(hay, x).is_some();
    for (deep, x) in &secrets {
        ensure!(!has(&disk, x), "{:?} can be read from the disk", String::from_utf8_lossy(x));
        if *deep && let Some(l) = log.lines().find(|l| has(l.as_bytes(), x)) {
            return Err(format!("{:?} can be read from the log: {l}", String::from_utf8_lossy(x)));
        }
    }
    obs.nontrivial_if(s.m.incs.len() >= 2 && s.kinds.len() >= 4);
    for k in s.kinds {
        obs.label(k);
    }
    obs.show(|| format!("{} wallets made, {} sessions", s.m.incs.len(), s.seen.len()));
    Ok(())
}

/// An output of the wallet.
#[derive(Clone, Debug)]
struct Coin {
    value: u64,
    confirmed: bool,
    /// Whether it is set aside for what was sent, and whether that may have been forgotten.
    aside: bool,
    maybe: bool,
}
struct Purse {
    params: Params,
    db: Arc<rocksdb::DB>,
    node: Shared,
    host: Host,
    seed: Seed,
    id: String,
    sid: String,
    /// The first epoch whose payments count.
    from: u32,
    /// Addresses of the wallet that it knows from the start.
    own: BTreeSet<PublicKeyHash>,
    coins: BTreeMap<OutputPointer, Coin>,
    tip: CheckpointBeacon,
    /// Blocks that are not yet confirmed.
    pending: Vec<(String, Vec<OutputPointer>, Vec<OutputPointer>)>,
    /// What was sent and is in no block.
    sent: Vec<VTTransaction>,
    /// Whether the server hears of the chain, and since when the wallet is open.
    open: bool,
    kinds: BTreeSet<&'static str>,
}
impl Purse {
    /// The node gets a block, in which some of what was sent may be.
    fn grow(&mut self, t: &mut Tape, gap: u32, include: bool) -> Block {
        let e = self.tip.checkpoint + gap;
        let outs: Vec<_> = (0..t.below(4))
            .map(|_| {
                let pkh = if t.odds(170) { self.seed.pkh(t.below(2), t.below(3) as u32) } else { PublicKeyHash::from_bytes(&[7; 20]).unwrap() };
                ValueTransferOutput { pkh, value: t.range(1, 50), time_lock: 0 }
            })
            .collect();
        let mut b = Block::default();
        b.block_header.beacon = CheckpointBeacon { checkpoint: e, hash_prev_block: self.tip.hash_prev_block };
        b.txns.mint = MintTransaction::new(e, outs);
        // Each by itself, as one may spend what another one makes.
        if include && !self.sent.is_empty() {
            let x = self.sent.remove(t.below(self.sent.len()));
            b.txns.value_transfer_txns.push(x);
            self.kinds.insert("what was sent is in a block");
        }
        let h = b.versioned_hash(version(e));
        self.tip = CheckpointBeacon { checkpoint: e, hash_prev_block: h };
        let mut n = self.node.lock().unwrap();
        n.chain.push((e, h));
        n.blocks.insert(h.to_string(), Arc::new(b.clone()));
        let mut done = (vec![], vec![]);
        let mut txs = vec![Transaction::Mint(b.txns.mint.clone())];
        txs.extend(b.txns.value_transfer_txns.iter().cloned().map(Transaction::ValueTransfer));
        for x in txs {
            let hash = x.versioned_hash(version(e));
            n.txs.insert(hash.to_string(), x.clone());
            let (ins, outs) = match &x {
                Transaction::ValueTransfer(v) => (v.body.inputs.clone(), v.body.outputs.clone()),
                Transaction::Mint(m) => (vec![], m.outputs.clone()),
                _ => unreachable!(),
            };
            done.0.extend(ins.iter().map(|i| *i.output_pointer()));
            for (i, o) in outs.iter().enumerate() {
                if self.own.contains(&o.pkh) && e >= self.from {
                    let p = OutputPointer { transaction_id: hash, output_index: i as u32 };
                    self.coins.insert(p, Coin { value: o.value, confirmed: false, aside: false, maybe: false });
                    done.1.push(p);
                }
            }
        }
        for p in &done.0 {
            self.coins.remove(p);
        }
        self.pending.push((h.to_string(), done.0, done.1));
        b
    }
    /// What is pending may be learnt again, and what was sent is forgotten then.
    fn relearn(&mut self) {
        for c in self.coins.values_mut() {
            c.maybe |= c.aside && !c.confirmed;
        }
    }
    fn confirm(&mut self, n: usize) -> Vec<String> {
        let v: Vec<_> = self.pending.drain(..n).collect();
        for p in v.iter().flat_map(|x| &x.2) {
            if let Some(c) = self.coins.get_mut(p) {
                c.confirmed = true;
            }
        }
        v.into_iter().map(|x| x.0).collect()
    }
    fn ask(&self, method: &str, mut p: Value) -> Answer {
        p["session_id"] = json!(self.sid);
        p["wallet_id"] = json!(self.id);
        self.host.call(method, p)
    }
    fn unlock(&mut self) -> Result<u32, String> {
        let v = self.host.call("unlock_wallet", json!({ "wallet_id": self.id, "password": "password" })).map_err(|e| format!("it does not open: {e:?}"))?;
        self.sid = v["session_id"].as_str().ok_or("no session")?.into();
        self.open = true;
        // What was sent is remembered by the instance only.
        for c in self.coins.values_mut() {
            (c.aside, c.maybe) = (false, false);
        }
        v["birth_date"].as_u64().map(|b| b as u32).ok_or("no birth date".into())
    }
    /// Whether the wallet has what the chain gave it.
    fn check(&self) -> R {
        let v = self.ask("get_utxo_info", json!({})).map_err(|e| format!("no outputs: {e:?}"))?;
        let got: BTreeMap<String, u64> = v.as_object().ok_or("no outputs")?.iter().map(|(k, v)| (k.clone(), v["amount"].as_u64().or(v["amount"].as_str().and_then(|s| s.parse().ok())).unwrap_or(u64::MAX))).collect();
        let want: BTreeMap<String, u64> = self.coins.iter().map(|(k, v)| (k.to_string(), v.value)).collect();
        let more: Vec<_> = got.iter().filter(|x| want.get(x.0) != Some(x.1)).collect();
        let less: Vec<_> = want.iter().filter(|x| got.get(x.0) != Some(x.1)).collect();
        ensure!(got == want, "the wallet has the outputs {more:?}, but not {less:?}");
        let v = self.ask("get_balance", json!({})).map_err(|e| format!("no balance: {e:?}"))?;
        let sum: u64 = self.coins.values().map(|c| c.value).sum();
        ensure_eq!(v["unconfirmed"]["available"], json!(sum.to_string()), "balance");
        if self.pending.is_empty() {
            ensure_eq!(v["confirmed"]["available"], json!(sum.to_string()), "confirmed balance");
        }
        Ok(())
    }
}

fn funds(t: &mut Tape, obs: &mut Obs) -> R {
    logged();
    let mut params = params(t.bool(), 100_000);
    let node = Shared::default();
    let g = mine(&node, 0, BOOTSTRAP, vec![]);
    params.genesis_hash = g.versioned_hash(version(0));
    let seed = Seed::of(PHRASES[t.below(3)]);
    let db = Arc::new(rocksdb::DB::default());
    let host = Host::start(&db, &node, &params);
    let mut w = Purse {
        host,
        params,
        db,
        node,
        id: seed.id(false),
        sid: String::new(),
        from: 0,
        own: (0..2).flat_map(|k| (0..3).map(move |i| (k, i))).map(|(k, i)| seed.pkh(k, i)).collect(),
        coins: BTreeMap::new(),
        tip: CheckpointBeacon { checkpoint: 0, hash_prev_block: g.versioned_hash(version(0)) },
        pending: vec![],
        sent: vec![],
        open: false,
        kinds: BTreeSet::new(),
        seed,
    };
    // The node has a genesis block that pays, and more of them.
    *w.node.lock().unwrap() = FakeNode::default();
    w.tip = CheckpointBeacon { checkpoint: 0, hash_prev_block: BOOTSTRAP };
    w.grow(t, 0, false);
    let g = w.tip.hash_prev_block;
    w.params.genesis_hash = g;
    w.node.lock().unwrap().state = *t.pick(&[StateMachine::Synced, StateMachine::Synced, StateMachine::AlmostSynced]);
    w.host = Host::lasting(&w.db, &w.node, &w.params, LAST * 1000);
    let gaps = t.bool();
    for _ in 0..t.below(40) {
        let gap = if gaps && t.odds(60) { t.range(2, 60) as u32 } else { 1 };
        w.grow(t, gap, false);
    }
    let n = t.below(w.pending.len() + 1).max(1);
    w.node.lock().unwrap().confirmed = n;
    let mut p = json!({ "seed_source": "mnemonics", "seed_data": w.seed.phrase, "password": "password" });
    let tip = w.tip.checkpoint;
    let needed = match t.below(4) {
        0 => {
            p["birth_date"] = json!("current");
            tip + 1
        }
        1 | 2 => {
            let e = t.range(0, u64::from(tip) + 5) as u32;
            p["birth_date"] = json!({ "imported": e });
            e
        }
        _ => 0,
    };
    if needed > 0 {
        w.kinds.insert("a birth date");
    }
    ensure_eq!(w.host.call("create_wallet", p.clone()), Ok(json!({ "wallet_id": w.id })), "a wallet is made of {p}");
    let birth = w.unlock()?;
    ensure!(birth < needed || birth == 0, "a wallet that should know of payments from epoch {needed} starts after {birth}");
    if birth > 0 {
        w.from = birth + 1;
    } else if w.ask("get_utxo_info", json!({})).is_ok() {
        // Either from the genesis block on, or right after it.
        w.from = if needed == 0 { 0 } else { 1 };
    }
    let early: BTreeSet<_> = w.pending.iter().filter(|b| w.node.lock().unwrap().chain.iter().any(|c| c.1.to_string() == b.0 && c.0 < w.from)).flat_map(|b| b.2.clone()).collect();
    let genesis: BTreeSet<_> = w.pending[0].2.iter().copied().collect();
    if w.node.lock().unwrap().state != StateMachine::Synced {
        w.node.lock().unwrap().state = StateMachine::Synced;
        w.host.app.advance(Duration::from_secs(15));
        w.kinds.insert("the node is late");
    }
    if birth == 0 && needed > 0 {
        // Whether a payment in the genesis block was wanted: either is fine.
        let v = w.ask("get_utxo_info", json!({})).map_err(|e| format!("{e:?}"))?;
        if genesis.iter().all(|p| v.get(p.to_string()).is_none()) {
            w.coins.retain(|p, _| !genesis.contains(p));
        }
    } else {
        w.coins.retain(|p, _| !early.contains(p));
    }
    w.confirm(n);
    // Blocks that are told, and not asked for, are searched for known addresses only.
    for k in 0..2 {
        while w.ask("get_addresses", json!({ "external": k == 0 })).map_err(|e| format!("{e:?}"))?["total"].as_u64() < Some(3) {
            w.ask("generate_address", json!({ "external": k == 0 })).map_err(|e| format!("no address: {e:?}"))?;
        }
    }
    let mut made: Option<(VTTransaction, Value)> = None;
    for i in 0..4 + t.below(24) {
        w.check().map_err(|e| format!("step {i}: {e}"))?;
        fund(&mut w, t, &mut made).map_err(|e| format!("step {i}: {e}"))?;
    }
    w.check()?;
    obs.nontrivial_if(w.kinds.contains("sent") && w.kinds.len() >= 4);
    obs.show(|| format!("{} outputs, {:?}", w.coins.len(), w.kinds));
    for k in w.kinds {
        obs.label(k);
    }
    Ok(())
}
fn fund(w: &mut Purse, t: &mut Tape, made: &mut Option<(VTTransaction, Value)>) -> R {
    match t.below(16) {
        0..4 => {
            // Blocks come; some of them the server does not hear of.
            let missed = t.odds(60);
            let include = t.odds(200);
            let b = w.grow(t, 1, include);
            if missed {
                w.node.lock().unwrap().state = StateMachine::AlmostSynced;
                w.host.app.advance(Duration::from_secs(15));
                for _ in 0..t.below(6) {
                    let gap = t.range(1, 3) as u32;
                    w.grow(t, gap, true);
                }
                w.node.lock().unwrap().state = StateMachine::Synced;
                w.host.app.advance(Duration::from_secs(15));
                w.relearn();
                w.kinds.insert("blocks missed");
            } else {
                w.host.notify("blocks", serde_json::to_value(&b).unwrap());
            }
            *made = None;
        }
        4 | 5 if !w.pending.is_empty() => {
            let n = 1 + t.below(w.pending.len());
            // The first superblocks may have blocks that the wallet never cared for.
            w.relearn();
            let v = w.confirm(n);
            w.node.lock().unwrap().confirmed += n;
            w.host.notify("superblocks", json!({ "superblock": SuperBlock::default(), "consolidated_block_hashes": v }));
            w.kinds.insert("blocks are confirmed");
        }
        6 => {
            let v = w.ask("generate_address", json!({})).map_err(|e| format!("no address: {e:?}"))?;
            let a = v["address"].as_str().ok_or("no address")?;
            let pkh = PublicKeyHash::from_bech32(Environment::Mainnet, a).map_err(|e| e.to_string())?;
            w.own.insert(pkh);
        }
        7..12 => {
            let sum: u64 = w.coins.values().map(|c| c.value).sum();
            let outs: Vec<_> = (0..1 + t.below(2))
                .map(|_| {
                    let pkh = if t.odds(60) { w.seed.pkh(0, t.below(3) as u32) } else { PublicKeyHash::from_bytes(&[8; 20]).unwrap() };
                    (pkh, if t.odds(40) { sum.max(1) } else { t.range(1, sum / 3 + 5) })
                })
                .collect();
            let fee = t.range(0, 6);
            let preview = t.odds(60);
            let text = t.bool();
            let amount = |n: u64| if text { json!(n.to_string()) } else { json!(n) };
            let mut p = json!({
                "outputs": outs.iter().map(|o| json!({ "address": o.0.bech32(Environment::Mainnet), "amount": amount(o.1) })).collect::<Vec<_>>(),
                "fee": { "absolute": if text { json!(fee.to_string()) } else { json!(fee) } },
                "preview": preview,
                "utxo_strategy": *t.pick(&["random", "big_first", "small_first"]),
            });
            if t.bool() {
                p["fee"] = json!({ "absolute": fee });
            }
            let unconfirmed = w.params.use_unconfirmed_utxos;
            let may: BTreeMap<_, _> = w.coins.iter().filter(|c| (!c.1.aside || c.1.maybe) && (unconfirmed || c.1.confirmed)).map(|(k, c)| (*k, c.clone())).collect();
            let want = outs.iter().map(|o| o.1).sum::<u64>() + fee;
            match w.ask("create_vtt", p.clone()) {
                Err(e) => {
                    ensure!(may.values().filter(|c| !c.aside).map(|c| c.value).sum::<u64>() < want, "{p} is refused with {e:?}, though there are {may:?}");
                    w.kinds.insert("too little");
                    return Ok(());
                }
                Ok(v) => {
                    let Transaction::ValueTransfer(x) = w.transaction(&v["transaction"])? else { return Err(format!("no value transfer: {v}")) };
                    let mut ins = 0;
                    for i in &x.body.inputs {
                        ins += may.get(i.output_pointer()).ok_or_else(|| format!("{p} spends {i:?}, which it may not"))?.value;
                    }
                    let out: u64 = x.body.outputs.iter().map(|o| o.value).sum();
                    ensure_eq!(ins, out + fee, "inputs of {p}");
                    for (o, n) in outs.iter().zip(&x.body.outputs) {
                        ensure_eq!((n.pkh, n.value), *o, "an output of {p}");
                    }
                    ensure!(x.body.outputs.len() <= outs.len() + 1, "outputs of {p}: {x:?}");
                    ensure_eq!(v["metadata"]["fee"], json!(fee), "the fee shown");
                    if !preview {
                        // The change is the wallet's.
                        w.own.extend(x.body.outputs.get(outs.len()).map(|o| o.pkh));
                        *made = Some((x, v["transaction"].clone()));
                    }
                    w.kinds.insert(if preview { "preview" } else { "made" });
                }
            }
        }
        12..15 => {
            let Some((x, text)) = made.take() else { return Ok(()) };
            let deaf = t.odds(60);
            let fail = !deaf && t.odds(30);
            {
                let mut n = w.node.lock().unwrap();
                n.deaf = deaf;
                n.fail = fail.then_some((0, t.bool()));
                n.sent.clear();
            }
            let r = w.ask("send_transaction", json!({ "transaction": text }));
            {
                let mut n = w.node.lock().unwrap();
                n.deaf = false;
                n.fail = None;
            }
            if deaf || fail {
                ensure!(r.is_err(), "sent though the node did not take it: {r:?}");
                ensure!(w.node.lock().unwrap().sent.is_empty(), "sent twice");
                *made = Some((x, text));
                w.kinds.insert("not taken");
                return Ok(());
            }
            let v = r.map_err(|e| format!("not sent: {e:?}"))?;
            let item = InventoryItem::Transaction(Transaction::ValueTransfer(x.clone()));
            ensure_eq!(w.node.lock().unwrap().sent, vec![serde_json::to_value(item).unwrap()], "what is sent");
            ensure_eq!(v["balance_movement"]["transaction"]["hash"], json!(Transaction::ValueTransfer(x.clone()).versioned_hash(ProtocolVersion::V2_0)), "the movement");
            for i in &x.body.inputs {
                let c = w.coins.get_mut(i.output_pointer()).unwrap();
                (c.aside, c.maybe) = (true, false);
            }
            w.sent.push(x);
            w.kinds.insert("sent");
        }
        _ => {
            if t.odds(60) {
                // What is pending is learnt again.
                w.host = Host::lasting(&w.db, &w.node, &w.params, LAST * 1000);
                w.unlock()?;
                let n = w.node.lock().unwrap().confirmed;
                let all = w.node.lock().unwrap().chain.len();
                ensure_eq!(all - n, w.pending.len(), "(harness) blocks pending");
                *made = None;
                // Of two transactions with the same input only one can be included.
                w.sent.clear();
                w.kinds.insert("a restart");
            } else if w.pending.is_empty() && w.sent.is_empty() && t.odds(100) {
                ensure!(w.ask("resync_wallet", json!({})).is_ok(), "no resynchronization");
                w.kinds.insert("a resynchronization");
            }
        }
    }
    Ok(())
}
impl Purse {
    /// The transaction that an answer shows.
    fn transaction(&self, v: &Value) -> Result<Transaction, String> {
        let h: witnet_wallet::types::TransactionHelper = serde_json::from_value(v.clone()).map_err(|e| format!("{v}: {e}"))?;
        Ok(h.into())
    }
}

/// Something else in the place of a value.
fn odd(t: &mut Tape, v: &Value) -> Value {
    match t.below(24) {
        0 => Value::Null,
        1 => json!(-1),
        2 => json!(0),
        3 => json!(1),
        4 => json!(u32::MAX),
        5 => json!(u64::MAX),
        6 => json!(i64::MIN),
        7 => json!(u64::from(u32::MAX) + 1),
        8 => json!(*t.pick(&[1.5, 1e300, -0.0, 1e-300, 4294967295.5])),
        9 => json!(""),
        10 => json!(*t.pick(&["0", "1", "-1", "18446744073709551615", "18446744073709551616", "1e3", " 1", "0x10", "340282366920938463463374607431768211456"])),
        11 => json!("\u{1f980}é\u{0}"),
        12 => json!("f".repeat(*t.pick(&[1, 63, 64, 65, 1000]))),
        13 => json!([]),
        14 => json!({}),
        15 => json!([v]),
        16 => json!({ "absolute": v }),
        17 => json!({ "relative": v }),
        18 => json!(t.bool()),
        19 => match v {
            Value::Array(a) if !a.is_empty() => json!(a.iter().chain(a).collect::<Vec<_>>()),
            _ => json!(u64::MAX / 2),
        },
        20 => match v.as_u64().or(v.as_str().and_then(|s| s.parse().ok())) {
            Some(n) => json!(n.wrapping_add(t.range(0, 4)).wrapping_sub(2)),
            None => json!(t.u64()),
        },
        21 => match v {
            Value::String(s) if !s.is_empty() => {
                let mut c: Vec<char> = s.chars().collect();
                let i = t.below(c.len());
                match t.below(3) {
                    0 => drop(c.remove(i)),
                    1 => c.insert(i, '\u{e9}'),
                    _ => c[i] = if c[i] == '0' { '1' } else { '0' },
                }
                json!(c.into_iter().collect::<String>())
            }
            _ => json!(t.u8()),
        },
        22 => json!(["a", 1, { "b": [2, null] }]),
        _ => json!(t.u32()),
    }
}
fn twist(t: &mut Tape, v: &mut Value) {
    let inner = match v {
        Value::Array(a) => a.len(),
        Value::Object(m) => m.len(),
        _ => 0,
    };
    if inner == 0 || t.odds(24) {
        *v = odd(t, v);
        return;
    }
    let i = t.below(inner);
    match v {
        Value::Array(a) => twist(t, &mut a[i]),
        Value::Object(m) => {
            let k = m.keys().nth(i).unwrap().clone();
            if t.odds(20) {
                m.remove(&k);
            } else {
                twist(t, m.get_mut(&k).unwrap());
            }
        }
        _ => unreachable!(),
    }
}
fn request() -> Value {
    let script = vec![0x81u8, 0x18, 0x80];
    json!({
        "data_request": {
            "time_lock": 0,
            "retrieve": [{ "kind": "HTTP-GET", "url": "http://nowhere", "script": [128], "body": [], "headers": [] }, { "kind": "RNG", "url": "", "script": [128], "body": [], "headers": [] }],
            "aggregate": { "filters": [{ "op": 8, "args": [] }], "reducer": 2 },
            "tally": { "filters": [{ "op": 5, "args": script }], "reducer": 11 }
        },
        "witness_reward": 1, "witnesses": 2, "commit_and_reveal_fee": 1, "min_consensus_percentage": 51, "collateral": 1_000_000_000u64
    })
}
/// What the interpreter of data requests measures its time with.
fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_time().build().unwrap())
}
/// Whatever a client asks, it is answered, and the wallet remains as it is unless told otherwise.
fn wild(t: &mut Tape, obs: &mut Obs) -> R {
    logged();
    let _reactor = runtime().enter();
    let mut params = params(t.bool(), 100_000);
    let node = Shared::default();
    let seed = Seed::of(PHRASES[1]);
    let outs = (0..3).map(|i| ValueTransferOutput { pkh: seed.pkh(0, i), value: *[5, 1_000_000, 10_000_000_000, u64::MAX / 4].get(t.below(4)).unwrap(), time_lock: 0 }).collect();
    let g = mine(&node, 0, BOOTSTRAP, outs);
    let mint = g.txns.mint.versioned_hash(version(0));
    params.genesis_hash = g.versioned_hash(version(0));
    {
        let mut n = node.lock().unwrap();
        n.state = StateMachine::Synced;
        n.confirmed = 1;
    }
    let db = Arc::new(rocksdb::DB::default());
    let host = Host::start(&db, &node, &params);
    let id = seed.id(false);
    host.call("create_wallet", json!({ "seed_source": "mnemonics", "seed_data": PHRASES[1], "password": "password", "name": "name" })).map_err(|e| format!("{e:?}"))?;
    let open = |host: &Host| -> Result<String, String> {
        let v = host.call("unlock_wallet", json!({ "wallet_id": id, "password": "password" })).map_err(|e| format!("it does not open: {e:?}"))?;
        Ok(v["session_id"].as_str().ok_or("no session")?.into())
    };
    let sid = open(&host)?;
    let to = PublicKeyHash::from_bytes(&[8; 20]).unwrap().bech32(Environment::Mainnet);
    let vtt = json!({ "body": { "inputs": [{ "output_pointer": format!("{mint}:0") }], "outputs": [{ "pkh": to, "value": 1, "time_lock": 0 }] }, "signatures": [] });
    let mut fine = 0;
    let mut answered = 0;
    let mut moved = false;
    for _ in 0..6 + t.below(14) {
        let ask = |p: Value| {
            let mut p = p;
            p["session_id"] = json!(sid);
            p["wallet_id"] = json!(id);
            p
        };
        // The third is whether the wallet may be another one afterwards.
        let (method, mut p, writes) = match t.below(26) {
            0 => ("create_mnemonics", json!({ "length": 12 }), false),
            1 => ("validate_mnemonics", json!({ "seed_source": "mnemonics", "seed_data": PHRASES[2] }), false),
            2 => ("validate_mnemonics", json!({ "seed_source": "xprv", "seed_data": bech32::encode("xprv", crypto::encrypt_cbc(seed.exported(false).1.as_bytes(), b"back up").unwrap().to_base32()).unwrap(), "backup_password": "back up" }), false),
            3 => ("create_wallet", json!({ "seed_source": "mnemonics", "seed_data": PHRASES[2], "password": "password", "name": "n", "description": "d", "overwrite": true, "birth_date": { "imported": 0 } }), true),
            4 => ("update_wallet", ask(json!({ "name": "name", "description": "d" })), true),
            5 => ("unlock_wallet", json!({ "wallet_id": id, "password": "Password" }), false),
            6 => ("get_balance", ask(json!({})), false),
            7 => ("get_utxo_info", ask(json!({})), false),
            8 | 9 => ("get_transactions", ask(json!({ "offset": 0, "limit": 10 })), false),
            10 => ("generate_address", ask(json!({ "label": "label", "external": true })), true),
            11 | 12 => ("get_addresses", ask(json!({ "offset": 0, "limit": 10, "external": true })), false),
            13..16 => (
                "create_vtt",
                ask(json!({ "fee": { "absolute": 1 }, "label": "label", "outputs": [{ "address": to, "amount": 3, "time_lock": 0 }, { "address": to, "amount": "1" }], "utxo_strategy": "small_first", "selected_utxos": [format!("{mint}:1"), format!("{mint}:2")], "preview": true })),
                false,
            ),
            16 => ("create_vtt", ask(json!({ "fee": 1, "fee_type": "weighted", "outputs": [{ "address": to, "amount": 3 }], "preview": true })), false),
            17 | 18 => ("create_data_request", ask(json!({ "fee": { "absolute": 1 }, "request": request(), "preview": true })), false),
            19 => ("run_rad_request", json!({ "rad_request": request()["data_request"] }), false),
            20 => ("send_transaction", ask(json!({ "transaction": { "ValueTransfer": vtt } })), true),
            21 => ("set", ask(json!({ "key": "key", "value": [1] })), true),
            22 => ("get", ask(json!({ "key": "key" })), false),
            23 => ("sign_data", ask(json!({ "data": "data", "extended_pk": true })), false),
            24 => ("export_master_key", ask(json!({ "password": "password" })), false),
            _ => (*t.pick(&["lock_wallet", "close_session", "refresh_session", "delete_wallet", "resync_wallet", "get_block", "get_block_chain", "inventory", "priority", "get_output", "what_is_this"]), json!({ "session_id": "nobody", "wallet_id": id }), false),
        };
        let good = t.odds(16);
        if !good {
            for _ in 0..1 + t.below(3) {
                twist(t, &mut p);
            }
            // Without these nothing much is asked.
            if p.is_object() && t.odds(220) && method != "unlock_wallet" {
                p["wallet_id"] = json!(id);
                if !matches!(method, "lock_wallet" | "close_session" | "refresh_session" | "delete_wallet" | "resync_wallet") {
                    p["session_id"] = json!(sid);
                }
            }
        }
        // Not a preview: that writes.
        let writes = writes || ["create_vtt", "create_data_request"].contains(&method) && p.get("preview") != Some(&json!(true));
        let dump = db.dump();
        let p = if p.is_object() || p.is_array() { p } else { Value::Null };
        let r = host.call(method, p.clone());
        answered += 1;
        fine += usize::from(r.is_ok());
        if let Err(e) = &r {
            ensure!(method != "what_is_this" || e.code == -32601, "a method that does not exist: {e:?}");
        }
        moved |= method == "send_transaction" && r.is_ok();
        ensure!(writes || db.dump() == dump, "{method} {p} -> {r:?} changes what is stored");
        ensure!(!System::stopped(), "{method} {p} stops the server");
        if let Ok(v) = &r && method == "create_vtt" {
            // No matter how it was asked for: what goes in comes out.
            let h: witnet_wallet::types::TransactionHelper = serde_json::from_value(v["transaction"].clone()).map_err(|e| format!("{v}: {e}"))?;
            let Transaction::ValueTransfer(x) = Transaction::from(h) else { return Err(format!("{v}")) };
            let ins: u128 = x.body.inputs.iter().map(|i| u128::from(g.txns.mint.outputs[i.output_pointer().output_index as usize].value)).sum();
            let out: u128 = x.body.outputs.iter().map(|o| u128::from(o.value)).sum();
            let fee: u128 = v["metadata"]["fee"].as_u64().ok_or("no fee")?.into();
            ensure_eq!(ins, out + fee, "what goes in and out of {p}");
        }
    }
    let v = host.call("get_balance", json!({ "session_id": sid, "wallet_id": id })).map_err(|e| format!("no balance: {e:?}"))?;
    let sum: u64 = g.txns.mint.outputs.iter().map(|o| o.value).sum();
    ensure_eq!(v["confirmed"]["available"], json!(sum.to_string()), "balance");
    let _ = moved;
    let host = Host::start(&db, &node, &params);
    open(&host)?;
    obs.nontrivial_if(fine >= 2 && answered - fine >= 2);
    obs.show(|| format!("{fine} of {answered} requests are granted"));
    Ok(())
}

thread_local!(static LOG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
struct Keep;
impl log::Log for Keep {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        let line = format!("{}: {}\n", r.target(), r.args());
        if std::env::var("TRACE").is_ok_and(|v| v == "log") {
            eprint!("{line}");
        }
        LOG.with(|l| l.borrow_mut().push_str(&line));
    }
    fn flush(&self) {}
}
/// What was logged since last asked.
fn logged() -> String {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub fn c41(c: &mut Check) {
    protocol();
    log::set_logger(&Keep).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    c.sub(
        "history",
        "at least two wallets are made, and the history has at least four kinds of event beyond the plain ones",
        2_400,
        150_000,
        || long_tapes(3000),
        |b, obs| alone(&b.0, || history(&mut b.tape(), obs)),
    );
    c.sub(
        "funds",
        "a transaction is sent, and at least four kinds of event happen",
        2_400,
        150_000,
        || long_tapes(2000),
        |b, obs| alone(&b.0, || funds(&mut b.tape(), obs)),
    );
    c.sub(
        "wild",
        "at least two requests are granted, and two refused",
        3_000,
        250_000,
        || tapes(800),
        |b, obs| alone(&b.0, || wild(&mut b.tape(), obs)),
    );
}
