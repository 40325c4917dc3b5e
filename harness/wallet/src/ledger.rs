//! C39: what a wallet knows of the chain.
use crate::base::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use actix::Addr;
use jsonrpc_pubsub::Sink;
use std::sync::{Arc, OnceLock, RwLock};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_crypto::key::{ExtendedPK, KeyPath};
use witnet_data_structures::{
    chain::*,
    fee::Fee,
    proto::versioning::VersionedHashable,
    radon_error::RadonError,
    staking::helpers::StakeKey,
    transaction::*,
    utxo_pool::UtxoSelectionStrategy,
};
use witnet_rad::{error::RadError, types::RadonTypes};
use witnet_wallet::{
    account,
    actors::worker::{self as workers, HandleBlockRequest, HandleSuperBlockRequest, NodeStatusRequest, Resync, SyncRequest, Worker},
    model, types,
};

type R = Result<(), String>;
pub type Vto = ValueTransferOutput;
pub type Ptr = ([u8; 32], u32);

pub fn vto(pkh: PublicKeyHash, value: u64, time_lock: u64) -> Vto {
    Vto { pkh, value, time_lock }
}
pub fn key_of(p: &OutputPointer) -> Ptr {
    let Hash::SHA256(h) = p.transaction_id;
    (h, p.output_index)
}
fn pointer(p: &Ptr) -> OutputPointer {
    OutputPointer { transaction_id: Hash::SHA256(p.0), output_index: p.1 }
}

/// The first addresses of the wallet made of `seed`, external and internal.
pub fn addresses(seed: u8) -> &'static [Vec<PublicKeyHash>; 2] {
    static A: OnceLock<Vec<[Vec<PublicKeyHash>; 2]>> = OnceLock::new();
    &A.get_or_init(|| {
        (1..=3)
            .map(|s| {
                let a = account::gen_account(0, &master(s)).unwrap();
                [a.external, a.internal].map(|parent| {
                    (0..60)
                        .map(|i| {
                            let k = ExtendedPK::from_secret_key(&parent.derive(&KeyPath::default().index(i)).unwrap());
                            PublicKey::from(k.key).pkh()
                        })
                        .collect()
                })
            })
            .collect()
    })[usize::from(seed) - 1]
}
fn stranger(i: usize) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[200 + i as u8; 20]).unwrap()
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub txn: Transaction,
    /// What its inputs are worth.
    pub inputs: Vec<(OutputPointer, Vto)>,
    pub report: Option<DataRequestInfo>,
}
impl Tx {
    pub fn outputs(&self) -> Vec<Vto> {
        match &self.txn {
            Transaction::ValueTransfer(t) => t.body.outputs.clone(),
            Transaction::DataRequest(t) => t.body.outputs.clone(),
            Transaction::Commit(t) => t.body.outputs.clone(),
            Transaction::Tally(t) => t.outputs.clone(),
            Transaction::Mint(t) => t.outputs.clone(),
            Transaction::Stake(t) => t.body.change.clone().into_iter().collect(),
            Transaction::Unstake(t) => vec![t.body.withdrawal.clone()],
            _ => vec![],
        }
    }
    pub fn extended(&self) -> model::ExtendedTransaction {
        let metadata = match &self.txn {
            Transaction::Tally(_) => Some(model::TransactionMetadata::Tally(Box::new(self.report.clone().unwrap()))),
            Transaction::Mint(_) | Transaction::Unstake(_) => None,
            _ => Some(model::TransactionMetadata::InputValues(self.inputs.iter().map(|i| i.1.clone()).collect())),
        };
        model::ExtendedTransaction { transaction: self.txn.clone(), metadata }
    }
}
#[derive(Clone, Debug)]
pub struct Blk {
    pub hash: Hash,
    pub prev: Hash,
    pub epoch: u32,
    pub txs: Vec<Tx>,
    pub block: Arc<Block>,
}
impl Blk {
    fn beacon(&self) -> CheckpointBeacon {
        CheckpointBeacon { checkpoint: self.epoch, hash_prev_block: self.hash }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Report {
    result: String,
    /// What was revealed, if it can be read, and whether it agrees.
    reveals: Vec<(Option<String>, bool)>,
}
fn report(t: &Tx) -> Report {
    let Transaction::Tally(tally) = &t.txn else { unreachable!() };
    let r = t.report.as_ref().unwrap();
    let mut reveals: Vec<_> =
        r.reveals.iter().map(|(pkh, x)| (RadonTypes::try_from(x.body.reveal.as_slice()).ok().map(|v| v.to_string()), !tally.out_of_consensus.contains(pkh))).collect();
    for p in &tally.out_of_consensus {
        if !r.reveals.contains_key(p) {
            reveals.push((Some(RadonTypes::from(RadonError::try_from(RadError::NoReveals).unwrap()).to_string()), false));
        }
    }
    Report { result: RadonTypes::try_from(tally.tally.as_slice()).unwrap().to_string(), reveals }
}
fn same_report(got: &model::TallyReport, want: &Report) -> R {
    ensure_eq!(got.result, want.result, "result of a tally");
    let mut rest: Vec<_> = got.reveals.iter().map(|r| (r.value.clone(), r.in_consensus)).collect();
    for (v, ok) in want.reveals.iter().filter(|r| r.0.is_some()) {
        let at = rest.iter().position(|r| Some(&r.0) == v.as_ref() && r.1 == *ok);
        let Some(at) = at else { return Err(format!("a tally with reveals {:?} is reported as {:?}", want.reveals, got.reveals)) };
        rest.remove(at);
    }
    let mut unread: Vec<bool> = want.reveals.iter().filter(|r| r.0.is_none()).map(|r| r.1).collect();
    let mut left: Vec<bool> = rest.iter().map(|r| r.1).collect();
    unread.sort();
    left.sort();
    ensure_eq!(left, unread, "reveals of a tally beyond those that can be read");
    Ok(())
}

#[derive(Clone, Debug)]
pub struct Move {
    /// Without its report, and whatever the database key.
    pub what: model::BalanceMovement,
    pub report: Option<Report>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Info {
    payments: Vec<String>,
    amount: u64,
    first: Option<u64>,
    last: Option<u64>,
}
/// What follows from a chain for the owner of some addresses.
#[derive(Default)]
pub struct Ledger {
    pub utxo: BTreeMap<Ptr, Vto>,
    pub staked: BTreeMap<(PublicKeyHash, PublicKeyHash), u64>,
    pub moves: Vec<Move>,
    pub info: HashMap<PublicKeyHash, Info>,
    pub balance: model::BalanceInfo,
}
pub type Own = BTreeMap<PublicKeyHash, usize>;

pub fn movement(utxo: &BTreeMap<Ptr, Vto>, own: &Own, t: &Tx, hash: Hash, block: model::Beacon, time: u64) -> Option<Move> {
    let outs = t.outputs();
    let out: u128 = outs.iter().filter(|o| own.contains_key(&o.pkh)).map(|o| u128::from(o.value)).sum();
    let spent: u128 = t.inputs.iter().filter_map(|(p, _)| utxo.get(&key_of(p))).map(|o| u128::from(o.value)).sum();
    let any = outs.iter().any(|o| own.contains_key(&o.pkh)) || t.inputs.iter().any(|(p, _)| utxo.contains_key(&key_of(p)));
    if !any {
        return None;
    }
    let sum = |v: &mut dyn Iterator<Item = u64>| -> u64 { v.sum() };
    let total_in = sum(&mut t.inputs.iter().map(|i| i.1.value));
    let total_out = sum(&mut outs.iter().map(|o| o.value));
    let fee = match &t.txn {
        Transaction::ValueTransfer(_) if total_in > 0 => total_in - total_out,
        Transaction::DataRequest(d) => total_in - total_out - d.body.dr_output.checked_total_value().unwrap(),
        Transaction::Stake(s) => total_in - total_out - s.body.output.value,
        Transaction::Unstake(u) => u.body.fee,
        _ => 0,
    };
    let o = |o: &Vto| model::Output {
        address: o.pkh.to_string(),
        time_lock: o.time_lock,
        value: o.value,
        output_type: match own.get(&o.pkh) {
            None => model::OutputType::Other,
            Some(0) => model::OutputType::External,
            _ => model::OutputType::Internal,
        },
    };
    let outputs: Vec<_> = outs.iter().map(o).collect();
    let inputs: Vec<_> = t.inputs.iter().map(|(_, v)| model::Input { address: v.pkh.to_string(), value: v.value }).collect();
    let none = || model::TallyReport { result: String::new(), reveals: vec![] };
    let mut rep = None;
    let data = match &t.txn {
        Transaction::ValueTransfer(_) => model::TransactionData::ValueTransfer(model::VtData { inputs, outputs }),
        Transaction::DataRequest(_) => model::TransactionData::DataRequest(model::DrData { inputs, outputs, tally: None }),
        Transaction::Commit(_) => model::TransactionData::Commit(model::VtData { inputs, outputs }),
        Transaction::Mint(_) => model::TransactionData::Mint(model::MintData { outputs }),
        Transaction::Tally(x) => {
            rep = Some(report(t));
            model::TransactionData::Tally(model::TallyData { request_transaction_hash: x.dr_pointer.to_string(), outputs, tally: none() })
        }
        Transaction::Stake(s) => model::TransactionData::Stake(model::StakeData { inputs, output: s.body.output.clone(), change: outputs.first().cloned() }),
        Transaction::Unstake(_) => model::TransactionData::Unstake(model::UnstakeData { withdrawal: outputs[0].clone() }),
        _ => unreachable!(),
    };
    Some(Move {
        what: model::BalanceMovement {
            db_key: 0,
            kind: if out >= spent { model::MovementType::Positive } else { model::MovementType::Negative },
            amount: out.abs_diff(spent) as u64,
            transaction: model::WalletTransaction { block: Some(block), confirmed: false, data, hash: hex::encode(hash), miner_fee: fee, timestamp: time },
        },
        report: rep,
    })
}

pub fn fold(chain: &[Blk], own: &Own) -> Ledger {
    let mut l = Ledger::default();
    for b in chain {
        let now = time(b.epoch);
        for t in &b.txs {
            let hash = t.txn.versioned_hash(version(b.epoch));
            if let Transaction::Tally(x) = &t.txn {
                let id = hex::encode(x.dr_pointer);
                for m in &mut l.moves {
                    if m.what.transaction.hash == id && matches!(m.what.transaction.data, model::TransactionData::DataRequest(_)) {
                        m.report = Some(report(t));
                    }
                }
            }
            let Some(m) = movement(&l.utxo, own, t, hash, model::Beacon { epoch: b.epoch, block_hash: b.hash }, now) else { continue };
            l.moves.push(m);
            for (p, _) in &t.inputs {
                l.utxo.remove(&key_of(p));
            }
            let Hash::SHA256(h) = hash;
            for (i, o) in t.outputs().into_iter().enumerate() {
                if !own.contains_key(&o.pkh) {
                    continue;
                }
                if matches!(t.txn, Transaction::ValueTransfer(_) | Transaction::Mint(_) | Transaction::Stake(_) | Transaction::Unstake(_)) {
                    let i = (l.info.entry(o.pkh).or_default(), i);
                    i.0.payments.push(format!("{}:{}", hash, i.1));
                    i.0.amount = i.0.amount.saturating_add(o.value);
                    i.0.first = i.0.first.or(Some(now));
                    i.0.last = Some(now);
                }
                l.utxo.insert((h, i as u32), o);
            }
            match &t.txn {
                Transaction::Stake(s) => *l.staked.entry((s.body.output.key.validator, s.body.output.key.withdrawer)).or_default() += s.body.output.value,
                Transaction::Unstake(u) => {
                    let k = (u.body.operator, u.body.withdrawal.pkh);
                    if let Some(v) = l.staked.get_mut(&k) {
                        *v = v.saturating_sub(u.body.withdrawal.value + u.body.fee);
                    }
                }
                _ => {}
            }
        }
        l.balance = Default::default();
        for o in l.utxo.values() {
            *(if o.time_lock <= now { &mut l.balance.available } else { &mut l.balance.locked }) += o.value;
        }
        l.balance.staked = l.staked.values().sum();
    }
    l
}

/// The chain that the node follows.
pub struct Node {
    pub chain: Vec<Blk>,
    pub confirmed: usize,
    pub made: u64,
    pub shared: Shared,
}
impl Node {
    pub fn fresh(&mut self) -> u64 {
        self.made += 1;
        self.made
    }
    /// An output of somebody else's.
    pub fn foreign(&mut self, t: &mut Tape) -> (OutputPointer, Vto) {
        let out = vto(stranger(t.below(3)), t.range(1, 1 << 40), 0);
        let mark = vto(stranger(3), self.fresh(), 0);
        let mut outputs = vec![mark.clone(), mark.clone()];
        let mut output_index = t.below(3);
        outputs.insert(output_index, out.clone());
        let txn = match t.below(12) {
            0 => Transaction::Mint(MintTransaction::new(1, outputs)),
            1 => Transaction::Tally(TallyTransaction::new(Hash::default(), vec![], outputs, vec![], vec![])),
            2 => {
                let mut body = CommitTransactionBody::default();
                body.outputs = outputs;
                Transaction::Commit(CommitTransaction::new(body, vec![]))
            }
            3 => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(vec![], DataRequestOutput::default(), outputs), vec![])),
            4 | 5 => {
                output_index = 0;
                Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(stranger(1), out.clone(), 0, mark.value), KeyedSignature::default()))
            }
            6 | 7 => {
                output_index = 0;
                let output = StakeOutput { value: mark.value, ..Default::default() };
                Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(vec![], output, Some(out.clone())), vec![]))
            }
            _ => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(vec![], outputs), vec![])),
        };
        let transaction_id = txn.versioned_hash(version(1000));
        self.shared.lock().unwrap().txs.insert(transaction_id.to_string(), txn);
        (OutputPointer { transaction_id, output_index: output_index as u32 }, out)
    }

    /// What the node tells whoever asks.
    pub fn publish(&self) {
        let mut n = self.shared.lock().unwrap();
        n.chain = self.chain.iter().map(|b| (b.epoch, b.hash)).collect();
        n.confirmed = self.confirmed;
        for b in &self.chain {
            if n.blocks.insert(b.hash.to_string(), b.block.clone()).is_none() {
                for x in &b.txs {
                    n.txs.insert(x.txn.versioned_hash(version(b.epoch)).to_string(), x.txn.clone());
                }
            }
        }
        n.reports.clear();
        for x in self.chain.iter().flat_map(|b| &b.txs) {
            if let Transaction::Tally(y) = &x.txn {
                n.reports.insert(y.dr_pointer.to_string(), x.report.clone().unwrap());
            }
        }
    }
}

pub struct Sim {
    pub seed: u8,
    pub params: witnet_wallet::params::Params,
    pub store: Store,
    pub worker: Addr<Worker>,
    pub sink: Sink,
    pub w: Arc<W>,
    pub node: Node,
    /// The blocks that the wallet should know, and how many of them as confirmed.
    pub seen: Vec<Blk>,
    pub c: usize,
    pub own: Own,
    pub next: [u32; 2],
    pub labels: HashMap<PublicKeyHash, String>,
    pub locals: BTreeMap<[u8; 32], Move>,
    pub mempool: Vec<Tx>,
    /// Requests whose movement in the database may show the tally of a block that was dropped.
    pub stale: HashSet<String>,
    /// Outputs set aside for what was sent.
    pub aside: BTreeSet<Ptr>,
    /// How the node fails while the next block is handled.
    pub flaky: Option<(u32, bool)>,
    /// Whether the second block is of the last protocol version.
    pub late: bool,
}

impl Sim {
    pub fn new(t: &mut Tape) -> Result<Sim, String> {
        let p = params(t.bool(), 1000);
        Sim::with(t, p)
    }
    pub fn with(t: &mut Tape, params: witnet_wallet::params::Params) -> Result<Sim, String> {
        let seed = 1 + t.below(3) as u8;
        let store = Store::create("wallet", &master(seed), &params);
        let w = store.unlock(&params)?;
        let node = Node { chain: vec![], confirmed: 0, made: 0, shared: Default::default() };
        let worker = worker(&store.db, &node.shared, &params);
        Ok(Sim {
            worker,
            sink: Sink::default(),
            seed,
            params,
            store,
            w,
            node,
            seen: vec![],
            c: 0,
            own: Own::new(),
            next: [0; 2],
            labels: HashMap::new(),
            locals: BTreeMap::new(),
            mempool: vec![],
            stale: HashSet::new(),
            aside: BTreeSet::new(),
            flaky: None,
            late: false,
        })
    }

    pub fn generate(&mut self, k: usize, label: Option<String>) -> R {
        let a = if k == 0 { self.w.gen_external_address(label.clone()) } else { self.w.gen_internal_address(label.clone(), false) }.map_err(|e| format!("no address: {e}"))?;
        ensure_eq!((a.pkh, a.index, a.keychain), (addresses(self.seed)[k][self.next[k] as usize], self.next[k], k as u32), "address generated");
        self.owned(k);
        match label {
            Some(l) => self.labels.insert(a.pkh, l),
            None => self.labels.remove(&a.pkh),
        };
        Ok(())
    }
    pub fn owned(&mut self, k: usize) {
        let pkh = addresses(self.seed)[k][self.next[k] as usize];
        self.own.insert(pkh, k);
        self.labels.remove(&pkh);
        self.next[k] += 1;
    }

    /// Its addresses, but for those that it has forgotten in a resynchronization.
    pub fn current(&self) -> Vec<PublicKeyHash> {
        let a = addresses(self.seed);
        (0..2).flat_map(|k| a[k][..self.next[k] as usize].iter().copied()).collect()
    }

    /// One past the last address that the chain up to now pays to.
    pub fn used(&self, k: usize, chain: &[Blk]) -> usize {
        let paid: HashSet<_> = chain.iter().flat_map(|b| b.txs.iter().flat_map(|t| t.outputs())).map(|o| o.pkh).collect();
        addresses(self.seed)[k].iter().rposition(|a| paid.contains(a)).map_or(0, |i| i + 1)
    }

    pub fn payee(&self, t: &mut Tape, odds: u16) -> PublicKeyHash {
        if t.odds(odds) {
            let k = t.below(2);
            // Never so far ahead that a later synchronization would not find it.
            let n = (self.next[k] as usize).min(self.used(k, &self.node.chain) + usize::from(GAP));
            if n > 0 {
                return addresses(self.seed)[k][if t.bool() { n - 1 } else { t.below(n) }];
            }
        }
        stranger(t.below(4))
    }

    /// A block on top of the node's chain.
    pub fn mine(&mut self, t: &mut Tape, obs: &mut Obs) -> Blk {
        let (epoch, prev) = match self.node.chain.last() {
            None => (0, BOOTSTRAP),
            Some(b) if b.epoch == 0 && self.late => (V2_0 + t.below(5) as u32, b.hash),
            Some(b) if b.epoch == 0 && t.odds(170) => (70 + t.below(15) as u32, b.hash),
            Some(b) => (
                match t.below(12) {
                    11 => b.epoch + t.range(1, 60) as u32,
                    10 => b.epoch + 2,
                    _ => b.epoch + 1,
                },
                b.hash,
            ),
        };
        let genesis = epoch == 0;
        let now = time(epoch);
        let mut free: Vec<(OutputPointer, Vto)> = vec![];
        let mut tallied = BTreeSet::new();
        let mut requests = vec![];
        let mut spent = HashSet::new();
        for b in &self.node.chain {
            for x in &b.txs {
                let h = x.txn.versioned_hash(version(b.epoch));
                let Hash::SHA256(hb) = h;
                spent.extend(x.inputs.iter().map(|i| key_of(&i.0)));
                for (i, o) in x.outputs().into_iter().enumerate() {
                    free.push((pointer(&(hb, i as u32)), o));
                }
                match &x.txn {
                    Transaction::DataRequest(_) => requests.push((h, x.inputs[0].1.pkh)),
                    Transaction::Tally(y) => {
                        tallied.insert(y.dr_pointer);
                    }
                    _ => {}
                }
            }
        }
        free.retain(|(p, o)| !spent.contains(&key_of(p)) && self.own.contains_key(&o.pkh));
        free.sort_by_key(|f| key_of(&f.0));
        let mut txs: Vec<Tx> = vec![];
        // Transactions made by this wallet.
        let pool = std::mem::take(&mut self.mempool);
        for x in pool {
            let fits = x.inputs.iter().all(|(p, _)| free.iter().any(|f| f.0 == *p))
                && x.outputs().iter().all(|o| {
                    (0..2).all(|k| {
                        // Nor to addresses that it has forgotten in a resynchronization.
                        let n = (self.used(k, &self.node.chain) + usize::from(GAP)).min(self.next[k] as usize);
                        addresses(self.seed)[k][n..].iter().all(|a| *a != o.pkh)
                    })
                });
            if fits && version(epoch) == version(1000) && t.odds(170) {
                free.retain(|f| !x.inputs.iter().any(|i| i.0 == f.0));
                obs.label("a transaction of its own is included");
                txs.push(x);
            } else if t.odds(250) {
                self.mempool.push(x);
            }
        }
        let lock = |t: &mut Tape| match t.below(8) {
            7 => now + 1,
            6 => now,
            5 => now + t.range(1, 300),
            4 => 1 << 40,
            _ => 0,
        };
        let own_inputs = |t: &mut Tape, free: &mut Vec<(OutputPointer, Vto)>| {
            let mut v = vec![];
            for _ in 0..1 + t.below(3) {
                if !free.is_empty() {
                    v.push(free.swap_remove(t.below(free.len())));
                }
            }
            v
        };
        let inputs_of = |v: &[(OutputPointer, Vto)]| v.iter().map(|i| Input::new(i.0)).collect::<Vec<_>>();
        let total = |v: &[(OutputPointer, Vto)]| v.iter().map(|i| i.1.value).sum::<u64>();
        for _ in 0..t.below(if genesis { 3 } else { 4 }) {
            let mut inputs = vec![];
            if !genesis {
                if t.bool() {
                    inputs = own_inputs(t, &mut free);
                }
                if inputs.is_empty() || t.odds(60) {
                    inputs.push(self.node.foreign(t));
                }
            }
            let mut left = if genesis { 1 << 40 } else { total(&inputs) };
            let mut outputs = vec![];
            for _ in 0..1 + t.below(4) {
                let v = if t.odds(60) { left } else { t.range(0, left) };
                let l = lock(t);
                outputs.push(vto(self.payee(t, 150), v, l));
                left -= v;
            }
            if genesis {
                // Genesis transactions have no inputs: only what they pay tells them apart.
                outputs.push(vto(stranger(0), self.node.fresh(), 0));
            }
            let txn = Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(inputs_of(&inputs), outputs), vec![]));
            txs.push(Tx { txn, inputs, report: None });
        }
        if !genesis {
            txs.sort_by_key(|x| matches!(x.txn, Transaction::DataRequest(_)));
            if t.odds(90) {
                let mut inputs = own_inputs(t, &mut free);
                if inputs.is_empty() || t.odds(30) {
                    inputs.insert(0, self.node.foreign(t));
                }
                let have = total(&inputs);
                let mut r = DataRequestOutput { witnesses: 1 + t.below(5) as u16, min_consensus_percentage: 51, collateral: self.node.fresh(), ..Default::default() };
                r.witness_reward = t.range(0, have / 8);
                if r.checked_total_value().unwrap() <= have {
                    let mut outputs = vec![];
                    if t.odds(200) {
                        outputs.push(vto(inputs[0].1.pkh, t.range(0, have - r.checked_total_value().unwrap()), 0));
                    }
                    let txn = Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(inputs_of(&inputs), r, outputs), vec![]));
                    txs.push(Tx { txn, inputs, report: None });
                }
            }
            if t.odds(40) {
                let inputs = own_inputs(t, &mut free);
                if !inputs.is_empty() {
                    let out = vto(inputs[0].1.pkh, t.range(0, total(&inputs)), 0);
                    let mut body = CommitTransactionBody::default();
                    body.collateral = inputs_of(&inputs);
                    body.outputs = vec![out];
                    txs.push(Tx { txn: Transaction::Commit(CommitTransaction::new(body, vec![])), inputs, report: None });
                }
            }
            requests.retain(|r| !tallied.contains(&r.0));
            if !requests.is_empty() && t.odds(130) {
                let (dr, pkh) = *t.pick(&requests);
                let mut info = DataRequestInfo::default();
                let mut out = vec![];
                for i in 0..t.below(5) {
                    let p = stranger(10 + i);
                    let reveal = match t.below(6) {
                        0 => vec![0xff, 1, 2],
                        1 => vec![],
                        2 => vec![0xf4],
                        _ => vec![t.below(3) as u8],
                    };
                    if t.odds(190) {
                        info.reveals.insert(p, RevealTransaction::new(RevealTransactionBody::new(dr, reveal, p), vec![]));
                    } else {
                        out.push(p);
                    }
                    if t.odds(40) && !out.contains(&p) {
                        out.push(p);
                    }
                }
                let mut outputs = vec![];
                for _ in 0..t.below(3) {
                    outputs.push(vto(if t.bool() { pkh } else { self.payee(t, 100) }, t.range(1, 1 << 30), 0));
                }
                let tally = TallyTransaction::new(dr, vec![t.below(24) as u8], outputs, out, vec![]);
                info.tally = Some(tally.clone());
                txs.push(Tx { txn: Transaction::Tally(tally), inputs: vec![], report: Some(info) });
            }
            if version(epoch) == version(1000) {
                for _ in 0..t.below(2) {
                    let mut inputs = own_inputs(t, &mut free);
                    if inputs.is_empty() {
                        inputs.push(self.node.foreign(t));
                    }
                    let have = total(&inputs);
                    let value = t.range(0, have);
                    let change = t.bool().then(|| vto(self.payee(t, 220), t.range(0, have - value), 0));
                    let own = self.current();
                    if own.is_empty() {
                        break;
                    }
                    let key = StakeKey { validator: stranger(20 + t.below(2)), withdrawer: own[if t.odds(60) { t.below(own.len()) } else { 0 }] };
                    let output = StakeOutput { value, key, authorization: KeyedSignature::default() };
                    let body = StakeTransactionBody::new(inputs_of(&inputs), output, change);
                    txs.push(Tx { txn: Transaction::Stake(StakeTransaction::new(body, vec![])), inputs, report: None });
                }
                if t.odds(80) {
                    let current = self.current();
                    let staked: Vec<_> = fold(&self.node.chain, &self.own).staked.into_iter().filter(|s| current.contains(&s.0.1)).collect();
                    let (operator, pkh, most) = match staked.is_empty() {
                        true => (stranger(20), self.payee(t, 200), 1000),
                        false => {
                            let ((v, w), n) = *t.pick(&staked);
                            (v, w, n)
                        }
                    };
                    let fee = t.range(0, 5);
                    // Rewards make a stake worth more than what was put into it.
                    let value = match t.below(4) {
                        0 => most + t.range(1, 1000),
                        1 => most.saturating_sub(fee).max(1),
                        _ => t.range(1, most.max(1)),
                    };
                    let body = UnstakeTransactionBody::new(operator, vto(pkh, value, now + 100), fee, self.node.fresh());
                    txs.push(Tx { txn: Transaction::Unstake(UnstakeTransaction::new(body, KeyedSignature::default())), inputs: vec![], report: None });
                }
            }
        }
        let mut mint = if t.odds(80) { (0..1 + t.below(3)).map(|_| vto(self.payee(t, 170), t.range(1, 1 << 38), 0)).collect() } else { vec![] };
        // No more than one such: all there is fits in 64 bits.
        if genesis && t.odds(16) {
            mint.push(vto(self.payee(t, 220), (1 << 63) + t.range(0, 1 << 40), 0));
        }
        txs.push(Tx { txn: Transaction::Mint(MintTransaction::new(epoch, mint)), inputs: vec![], report: None });
        let mut txns = BlockTransactions::default();
        for x in &txs {
            match x.txn.clone() {
                Transaction::ValueTransfer(x) => txns.value_transfer_txns.push(x),
                Transaction::DataRequest(x) => txns.data_request_txns.push(x),
                Transaction::Commit(x) => txns.commit_txns.push(x),
                Transaction::Tally(x) => txns.tally_txns.push(x),
                Transaction::Stake(x) => txns.stake_txns.push(x),
                Transaction::Unstake(x) => txns.unstake_txns.push(x),
                Transaction::Mint(x) => txns.mint = x,
                _ => unreachable!(),
            }
        }
        let header = BlockHeader { beacon: CheckpointBeacon { checkpoint: epoch, hash_prev_block: prev }, signals: self.node.fresh() as u32, ..Default::default() };
        let block = Block::new(header, KeyedSignature::default(), txns);
        let hash = block.versioned_hash(version(epoch));
        let b = Blk { hash, prev, epoch, txs, block: Arc::new(block) };
        self.node.chain.push(b.clone());
        b
    }

    pub fn drop_pending(&mut self) {
        // What the database says of a request keeps the tally that was known when it was written.
        for b in &self.seen[self.c..] {
            for x in &b.txs {
                if let Transaction::Tally(y) = &x.txn {
                    self.stale.insert(hex::encode(y.dr_pointer));
                }
            }
        }
        self.seen.truncate(self.c);
        self.locals.clear();
        let known = fold(&self.seen, &self.own).utxo;
        self.aside.retain(|p| known.contains_key(p));
    }

    /// Whether a block follows the last one that the wallet knows, or the last confirmed one.
    fn follows(&self, b: &Blk) -> (bool, bool) {
        let tip = |n: usize| self.seen[..n].last().map_or(birth(), |b| b.beacon());
        let (sync, conf) = (tip(self.seen.len()), tip(self.c));
        (b.prev == sync.hash_prev_block && (b.epoch == 0 || b.epoch > sync.checkpoint), b.prev == conf.hash_prev_block && b.epoch > conf.checkpoint)
    }
    fn again(&self, b: &Blk) -> bool {
        self.seen[..self.c].last().is_some_and(|x| x.hash == b.hash)
    }

    /// What becomes of the model with a block. Tells whether the block connects.
    fn take(&mut self, b: &Blk, confirmed: bool, mut ahead: Option<&mut [u32; 2]>) -> bool {
        match self.follows(b) {
            (true, _) => {}
            (_, true) => self.drop_pending(),
            _ if self.again(b) => {
                self.drop_pending();
                return true;
            }
            _ => return false,
        }
        if let Some(end) = ahead.as_deref_mut() {
            loop {
                let mut more = false;
                for k in 0..2 {
                    let last = b.txs.iter().flat_map(|x| x.outputs()).filter_map(|o| addresses(self.seed)[k].iter().position(|a| *a == o.pkh));
                    if let Some(i) = last.map(|i| i as u32).filter(|i| (self.next[k]..end[k]).contains(i)).max() {
                        while self.next[k] <= i {
                            self.owned(k);
                        }
                        more = true;
                    }
                }
                if !more {
                    break;
                }
                for k in 0..2 {
                    end[k] = end[k].max(self.next[k] + u32::from(GAP));
                }
            }
        }
        self.seen.push(b.clone());
        for x in &b.txs {
            let Hash::SHA256(h) = x.txn.versioned_hash(version(b.epoch));
            self.locals.remove(&h);
            for i in &x.inputs {
                self.aside.remove(&key_of(&i.0));
            }
        }
        if confirmed {
            self.c = self.seen.len();
        }
        true
    }

    /// The node tells the wallet of a block. Tells whether the block connects.
    pub fn feed(&mut self, b: &Blk) -> Result<bool, String> {
        self.node.publish();
        let already = self.again(b) && !self.follows(b).0;
        let flaky = self.flaky.take();
        self.node.shared.lock().unwrap().fail = flaky;
        let r = self.worker.ask(HandleBlockRequest { block: b.block.clone(), wallet: self.w.clone(), sink: Arc::new(RwLock::new(Some(self.sink.clone()))) });
        let said = std::mem::take(&mut *self.sink.0.lock().unwrap());
        self.node.shared.lock().unwrap().fail = None;
        if flaky.is_some() && matches!(r, Err(workers::Error::JsonRpcTimeout | workers::Error::Node(_))) {
            // As if the block had not come, but that it may show that others have been dropped.
            if !self.follows(b).0 {
                ensure!(self.follows(b).1, "the node is asked about a block that does not connect");
                self.drop_pending();
            }
            return Ok(false);
        }
        if !self.take(b, false, None) {
            return match r {
                Err(workers::Error::Block(_)) => Ok(false),
                r => Err(format!("a block of epoch {} that does not connect: {r:?}", b.epoch)),
            };
        }
        r.map_err(|e| format!("the block of epoch {} cannot be indexed: {e}", b.epoch))?;
        if !already {
            let l = fold(&self.seen, &self.own);
            let before = fold(&self.seen[..self.seen.len() - 1], &self.own).moves.len();
            let [jsonrpc_core::Params::Array(v)] = said.as_slice() else { return Err(format!("notifications of a block: {said:?}")) };
            let events = v[0]["events"].as_array().unwrap();
            ensure_eq!(events[0]["Block"]["block_hash"].as_str().map(str::to_string), Some(b.hash.to_string()), "block notified");
            ensure_eq!(
                events[1..].iter().map(|e| e["Movement"]["transaction"]["hash"].as_str().unwrap_or("none").to_string()).collect::<Vec<_>>(),
                l.moves[before..].iter().map(|m| m.what.transaction.hash.clone()).collect::<Vec<_>>(),
                "movements notified of a block"
            );
            let balance: model::WalletBalance = serde_json::from_value(v[0]["status"]["account"]["balance"].clone()).map_err(|e| format!("the balance notified cannot be read: {e}"))?;
            ensure_eq!(balance.unconfirmed, l.balance, "balance notified");
        }
        Ok(true)
    }

    pub fn sync(&mut self) -> R {
        if self.node.chain.is_empty() {
            return Ok(());
        }
        self.node.confirmed = self.node.confirmed.max(1);
        self.node.publish();
        let r = self.worker.ask(SyncRequest { wallet_id: self.store.id.clone(), wallet: self.w.clone(), sink: Default::default() });
        r.map_err(|e| format!("no synchronization: {e}"))?;
        self.synced(None)
    }

    /// What becomes of the model in a synchronization, if need be only up to some block.
    pub fn synced(&mut self, last: Option<CheckpointBeacon>) -> R {
        let mut end = self.next.map(|n| n + u32::from(GAP));
        let from = if self.c == 0 { 0 } else { self.node.chain.iter().position(|b| b.epoch > self.seen[self.c - 1].epoch).unwrap_or(self.node.chain.len()) };
        for i in from..self.node.chain.len() {
            let b = self.node.chain[i].clone();
            if last.is_some_and(|l| l.checkpoint < b.epoch || l == birth()) {
                break;
            }
            if !self.take(&b, i < self.node.confirmed, Some(&mut end)) {
                return Err(format!("block {i} of the node does not connect in a synchronization"));
            }
        }
        if last.is_some() {
            // Addresses that the next block pays to may be known already.
            for k in 0..2 {
                let n = if k == 0 { self.w.external_addresses(0, 0) } else { self.w.internal_addresses(0, 0) }.map_err(|e| format!("{e}"))?.total;
                ensure!(n >= self.next[k] && n <= end[k] + u32::from(GAP), "{n} addresses of keychain {k} after a failed synchronization");
                while self.next[k] < n {
                    self.owned(k);
                }
            }
        }
        Ok(())
    }

    /// The node tells the wallet that it is synchronized.
    pub fn node_synced(&mut self, fail: Option<(u32, bool)>, kinds: &mut BTreeSet<&'static str>) -> R {
        self.node.publish();
        self.node.shared.lock().unwrap().fail = fail;
        let r = self.worker.ask(NodeStatusRequest { status: StateMachine::Synced, wallet: self.w.clone(), sink: Default::default() });
        self.node.shared.lock().unwrap().fail = None;
        self.drop_pending();
        match r {
            Ok(()) => self.synced(None),
            Err(e) if fail.is_none() => Err(format!("no synchronization: {e}")),
            Err(_) => {
                kinds.insert("the node fails in a synchronization");
                let last = self.w.public_data().map_err(|e| format!("{e}"))?.last_sync;
                self.synced(Some(last))
            }
        }
    }

    /// A superblock over all that the node has.
    pub fn confirm(&mut self) -> R {
        if !self.seen.iter().map(|b| b.hash).eq(self.node.chain.iter().map(|b| b.hash)) {
            self.sync()?;
        }
        let hashes: Vec<Hash> = self.node.chain[self.node.confirmed..].iter().map(|b| b.hash).collect();
        self.node.confirmed = self.node.chain.len();
        self.superblock(&hashes)?.map_err(|e| format!("blocks cannot be confirmed: {e}"))?;
        ensure_eq!(self.c, self.node.confirmed, "blocks confirmed by a superblock");
        Ok(())
    }

    /// The node tells the wallet of a superblock. Whatever cannot be confirmed has it synchronize.
    fn superblock(&mut self, hashes: &[Hash]) -> Result<Result<(), workers::Error>, String> {
        self.node.publish();
        let notification = types::SuperBlockNotification { superblock: SuperBlock::default(), consolidated_block_hashes: hashes.iter().map(|h| h.to_string()).collect() };
        let r = self.worker.ask(HandleSuperBlockRequest { superblock_notification: notification, wallet: self.w.clone(), sink: Default::default() });
        if r.is_err() || (self.c > 0 && hashes.last() == Some(&self.seen[self.c - 1].hash)) {
            return Ok(r);
        }
        for h in hashes {
            if *h == self.params.genesis_hash {
                continue;
            }
            match self.seen[self.c..].iter().position(|b| b.hash == *h) {
                Some(i) => self.c += i + 1,
                None => {
                    self.synced(None)?;
                    break;
                }
            }
        }
        Ok(r)
    }

    pub fn restart(&mut self) -> R {
        self.w = self.store.unlock(&self.params)?;
        self.worker = worker(&self.store.db, &self.node.shared, &self.params);
        self.drop_pending();
        self.aside.clear();
        Ok(())
    }

    /// After a failure: what the database says must be what the wallet knew at some block.
    pub fn recover(&mut self, all: &[Blk]) -> R {
        self.restart()?;
        let last = self.w.lock_and_read_state(|s| s.last_confirmed).map_err(|e| format!("{e}"))?;
        let n = if last == birth() { Some(0) } else { all.iter().position(|b| b.beacon() == last).map(|i| i + 1) };
        let Some(n) = n else { return Err(format!("after a failure the wallet is at {last:?}, which is no block it was given")) };
        ensure!(n >= self.c, "after a failure the wallet has forgotten what it had confirmed: {n} blocks out of {}", self.c);
        self.seen = all[..n].to_vec();
        self.c = n;
        Ok(())
    }

    pub fn check(&self, t: &mut Tape) -> R {
        let w = &self.w;
        let e = |e| format!("{e}");
        let data = w.public_data().map_err(e)?;
        let l = fold(&self.seen, &self.own);
        let lc = fold(&self.seen[..self.c], &self.own);
        ensure_eq!(data.last_sync, self.seen.last().map_or(birth(), |b| b.beacon()), "tip");
        ensure_eq!(data.last_confirmed, self.seen[..self.c].last().map_or(birth(), |b| b.beacon()), "confirmed tip");
        let utxo: BTreeMap<Ptr, Vto> = w.get_utxo_info().map_err(e)?.into_iter().map(|(p, o)| (key_of(&(&p).into()), o.into())).collect();
        ensure_eq!(utxo, l.utxo, "unspent outputs");
        let b = w.balance().map_err(e)?;
        ensure_eq!(b.unconfirmed, l.balance, "unconfirmed balance");
        ensure_eq!(b.confirmed, lc.balance, "confirmed balance");
        ensure_eq!(b.local, self.locals.values().map(|m| m.what.amount).sum::<u64>(), "local balance");
        // Movements.
        let all = w.transactions(0, u32::MAX).map_err(e)?;
        let n = l.moves.len() + self.locals.len();
        ensure_eq!(all.total as usize, n, "number of movements");
        ensure_eq!(all.transactions.len(), n, "movements listed");
        let mut local: Vec<&model::BalanceMovement> = all.transactions[..self.locals.len()].iter().collect();
        for m in self.locals.values() {
            let at = local.iter().position(|x| x.transaction.hash == m.what.transaction.hash);
            let Some(at) = at else { return Err(format!("a transaction of its own is not listed: {m:?}; {local:?}")) };
            let got = local.remove(at);
            let mut want = m.clone();
            want.what.transaction.timestamp = got.transaction.timestamp;
            self.same(got, &want, false)?;
        }
        for (i, m) in l.moves.iter().rev().enumerate() {
            let confirmed = l.moves.len() - i <= lc.moves.len();
            self.same(&all.transactions[self.locals.len() + i], m, confirmed)?;
        }
        for _ in 0..2 {
            let (o, k) = (t.below(n + 2), t.below(n + 2));
            let page = w.transactions(o as u32, k as u32).map_err(e)?;
            let want: Vec<_> = all.transactions.iter().skip(o).take(k).cloned().collect();
            ensure_eq!(page.transactions, want, "movements listed from {o}, at most {k}");
            ensure_eq!(page.total as usize, n, "number of movements of a page");
        }
        // Addresses.
        for k in 0..2 {
            let list = |o, n| if k == 0 { w.external_addresses(o, n) } else { w.internal_addresses(o, n) };
            let a = list(0, u32::MAX).map_err(e)?;
            ensure_eq!(a.total, self.next[k], "addresses of keychain {k}");
            ensure_eq!(a.addresses.len() as u32, self.next[k], "addresses listed of keychain {k}");
            for (i, x) in a.addresses.iter().rev().enumerate() {
                let pkh = addresses(self.seed)[k][i];
                let i = i as u32;
                ensure_eq!((x.pkh, x.index, x.keychain, x.account), (pkh, i, k as u32, 0), "address");
                ensure_eq!(x.address, pkh.bech32(Environment::Mainnet), "text of an address");
                let got = Info { payments: x.info.received_payments.clone(), amount: x.info.received_amount, first: x.info.first_payment_date, last: x.info.last_payment_date };
                ensure_eq!(got, l.info.get(&pkh).cloned().unwrap_or_default(), "payments to address {k}/{i}");
                ensure_eq!(x.info.label, self.labels.get(&pkh).cloned(), "label of an address");
            }
            let (o, m) = (t.below(self.next[k] as usize + 2), t.below(5));
            let page = list(o as u32, m as u32).map_err(e)?;
            let want: Vec<_> = a.addresses.iter().skip(o).take(m).cloned().collect();
            ensure_eq!(page.addresses, want, "addresses from {o}, at most {m}");
        }
        Ok(())
    }

    pub fn same(&self, got: &model::BalanceMovement, want: &Move, confirmed: bool) -> R {
        let mut got = got.clone();
        got.db_key = 0;
        let mut rep = None;
        match &mut got.transaction.data {
            model::TransactionData::DataRequest(d) => rep = d.tally.take(),
            model::TransactionData::Tally(d) => rep = Some(std::mem::replace(&mut d.tally, model::TallyReport { result: String::new(), reveals: vec![] })),
            _ => {}
        }
        let mut w = want.what.clone();
        w.transaction.confirmed = confirmed;
        ensure_eq!(got, w, "movement");
        if self.stale.contains(&got.transaction.hash) && want.report.is_none() {
            return Ok(());
        }
        match (&rep, &want.report) {
            (None, None) => Ok(()),
            (Some(r), Some(w)) => same_report(r, w),
            _ => Err(format!("the report of {got:?} is {rep:?}, not {:?}", want.report)),
        }
    }
}

fn history(t: &mut Tape, obs: &mut Obs) -> R {
    let mut s = Sim::new(t)?;
    for k in 0..2 {
        for i in 0..t.below(4) {
            s.generate(k, t.bool().then(|| format!("label {i}")))?;
        }
    }
    let g = s.mine(t, obs);
    s.params.genesis_hash = g.hash;
    s.restart()?;
    s.sync()?;
    let mut kinds = BTreeSet::new();
    let steps = 4 + t.below(26);
    for _ in 0..steps {
        s.check(t)?;
        let step = t.below(16);
        if std::env::var("TRACE").is_ok() {
            eprintln!("step {step}: node {:?} confirmed {}, seen {:?} confirmed {}, next {:?}", s.node.chain.iter().map(|b| b.epoch).collect::<Vec<_>>(), s.node.confirmed, s.seen.iter().map(|b| b.epoch).collect::<Vec<_>>(), s.c, s.next);
        }
        match step {
            0..6 => {
                let b = s.mine(t, obs);
                if t.odds(230) {
                    let connects = s.seen.last().is_some_and(|x| x.hash == b.prev);
                    let flaky = t.odds(24);
                    s.flaky = flaky.then(|| (t.below(4) as u32, t.bool()));
                    let fed = s.feed(&b)?;
                    if flaky && !fed {
                        kinds.insert("the node fails while a block is handled");
                        s.check(t)?;
                    }
                    if connects && !flaky {
                        ensure!(fed, "a block on top of the wallet's tip does not connect");
                    }
                    if !fed {
                        kinds.insert("missed a block");
                        s.sync()?;
                    }
                } else {
                    kinds.insert("missed a block");
                }
            }
            6 | 7 => {
                // A superblock.
                let from = s.node.confirmed;
                let to = if t.odds(40) { from + t.below(s.node.chain.len() - from + 1) } else { s.node.chain.len() };
                let from = if t.odds(30) { 0 } else { from };
                let hashes: Vec<Hash> = s.node.chain[from..to].iter().map(|b| b.hash).collect();
                s.node.confirmed = to;
                if t.odds(230) {
                    let known = s.seen.len() >= to && s.seen[..to].iter().zip(&s.node.chain[..to]).all(|(a, b)| a.hash == b.hash);
                    if t.odds(40) {
                        let before = s.c;
                        s.store.db.fail_after(Some(t.below(3) as u32));
                        let r = s.superblock(&hashes);
                        let hit = !s.store.db.failing();
                        s.store.db.fail_after(None);
                        if hit {
                            kinds.insert("failure in a superblock");
                            s.c = s.c.min(before);
                            let all = s.node.chain.clone();
                            s.recover(&all)?;
                            s.check(t)?;
                            s.sync()?;
                        } else {
                            r?.map_err(|e| format!("blocks {from}..{to} cannot be confirmed: {e}"))?;
                        }
                    } else {
                        kinds.insert(if known { "superblock" } else { "superblock missing blocks" });
                        s.superblock(&hashes)?.map_err(|e| format!("blocks {from}..{to} cannot be confirmed: {e}"))?;
                        if known && !hashes.is_empty() {
                            ensure!(s.c >= to, "a superblock over blocks {from}..{to} confirms {}", s.c);
                        }
                    }
                }
            }
            8 => {
                // A reorganization.
                if s.node.chain.len() > s.node.confirmed {
                    let keep = s.node.confirmed + t.below(s.node.chain.len() - s.node.confirmed);
                    let dropped = s.node.chain.split_off(keep);
                    // Some of what was in the blocks dropped comes back.
                    for x in dropped.into_iter().flat_map(|b| b.txs) {
                        if matches!(x.txn, Transaction::ValueTransfer(_)) && t.bool() {
                            s.mempool.push(x);
                        }
                    }
                    kinds.insert("reorganization");
                    for _ in 0..1 + t.below(2) {
                        let b = s.mine(t, obs);
                        if !s.feed(&b)? {
                            s.sync()?;
                        }
                    }
                }
            }
            9 => {
                s.restart()?;
                s.check(t)?;
                kinds.insert("restart");
                if t.odds(200) {
                    s.sync()?;
                }
            }
            10 => {
                let k = t.below(2);
                if (s.next[k] as usize) < 40 {
                    let l = t.bool().then(|| "another".to_string());
                    s.generate(k, l)?;
                }
            }
            11 => {
                let fail = t.bool().then(|| (t.below(12) as u32, t.bool()));
                s.node_synced(fail, &mut kinds)?;
            }
            12 => {
                // All over again.
                let interrupted = t.odds(90);
                if interrupted {
                    s.w.clear_chain_data().map_err(|e| format!("{e}"))?;
                } else {
                    s.node.publish();
                    let r = s.worker.ask(Resync { wallet_id: s.store.id.clone(), wallet: s.w.clone(), sink: Default::default() });
                    ensure!(matches!(r, Ok(true)), "no resynchronization: {r:?}");
                }
                s.seen.clear();
                s.c = 0;
                s.locals.clear();
                s.stale.clear();
                s.next = [0; 2];
                kinds.insert("resynchronization");
                if interrupted {
                    s.check(t)?;
                    kinds.insert("interrupted resynchronization");
                    s.restart()?;
                    s.check(t)?;
                    s.sync()?;
                } else {
                    s.synced(None)?;
                }
            }
            13 => {
                // A failure while synchronizing.
                let fail = t.below(60) as u32;
                s.store.db.fail_after(Some(fail));
                let r = s.sync();
                s.store.db.fail_after(None);
                if r.is_err() {
                    kinds.insert("failure while synchronizing");
                    let all = s.node.chain.clone();
                    s.restart()?;
                    // Addresses may have been added.
                    for k in 0..2 {
                        let n = if k == 0 { s.w.external_addresses(0, 0) } else { s.w.internal_addresses(0, 0) }.map_err(|e| format!("{e}"))?.total;
                        while s.next[k] < n {
                            s.owned(k);
                        }
                        s.next[k] = n;
                    }
                    s.recover(&all)?;
                }
            }
            _ => {
                // A transaction of its own.
                if s.seen.last().is_some_and(|b| version(b.epoch) == version(1000)) && s.next[1] < 40 {
                    let l = fold(&s.seen, &s.own);
                    let most: u64 = l.utxo.values().filter(|o| o.time_lock < 1 << 33).map(|o| o.value).sum();
                    let fee = Fee::absolute_from_nanowits(t.range(0, 50));
                    let mut outputs = vec![];
                    for _ in 0..1 + t.below(3) {
                        outputs.push(vto(s.payee(t, 80), t.range(1, (most / 3).max(1)), 0));
                    }
                    let preview = t.bool();
                    let r = if t.odds(190) {
                        s.w.create_vtt(types::VttParams { fee, outputs, utxo_strategy: UtxoSelectionStrategy::BigFirst { from: None }, selected_utxos: HashSet::new(), preview })
                    } else {
                        let request = DataRequestOutput { witnesses: 1, witness_reward: t.range(0, most / 2), collateral: s.node.fresh(), min_consensus_percentage: 51, ..Default::default() };
                        s.w.create_data_req(types::DataReqParams { fee, request, preview })
                    };
                    let total = s.w.internal_addresses(0, 0).map_err(|e| format!("{e}"))?.total;
                    while s.next[1] < total {
                        s.owned(1);
                    }
                    if let Ok((x, _)) = r {
                        let pointers = match &x.transaction {
                            Transaction::ValueTransfer(v) => v.body.inputs.clone(),
                            Transaction::DataRequest(v) => v.body.inputs.clone(),
                            _ => vec![],
                        };
                        let mut inputs = vec![];
                        for i in pointers {
                            let Some(v) = l.utxo.get(&key_of(i.output_pointer())) else { return Err("an input of a new transaction is not the wallet's".into()) };
                            inputs.push((*i.output_pointer(), v.clone()));
                        }
                        let tx = Tx { txn: x.transaction.clone(), inputs, report: None };
                        let m = s.w.add_local_movement(&x).map_err(|e| format!("a transaction of its own cannot be noted: {e}"))?;
                        let total = s.w.internal_addresses(0, 0).map_err(|e| format!("{e}"))?.total;
                        while s.next[1] < total {
                            s.owned(1);
                        }
                        ensure!(m.is_some(), "a transaction of its own is no movement");
                        let hash = x.transaction.versioned_hash(version(1000));
                        let Hash::SHA256(h) = hash;
                        let want = movement(&l.utxo, &s.own, &tx, hash, model::Beacon::default(), 0).unwrap();
                        s.locals.insert(h, want);
                        s.mempool.push(tx);
                        kinds.insert("a transaction of its own");
                    }
                }
            }
        }
    }
    s.check(t)?;
    // Another wallet with the same seed finds the same out of the whole chain.
    s.sync()?;
    s.check(t)?;
    let mut f = Sim::new(&mut vpkit::tape::Bytes(vec![]).tape())?;
    f.seed = s.seed;
    f.store = Store::create("another", &master(s.seed), &s.params);
    f.params = s.params.clone();
    f.w = f.store.unlock(&f.params)?;
    f.node = s.node;
    f.node.confirmed = f.node.chain.len();
    f.worker = worker(&f.store.db, &f.node.shared, &f.params);
    f.sync()?;
    f.check(t)?;
    let l = fold(&f.seen, &s.own);
    ensure_eq!(fold(&f.seen, &f.own).utxo, l.utxo, "what is found from the seed alone");
    obs.nontrivial_if(l.moves.len() >= 4 && kinds.len() >= 2);
    for k in kinds {
        obs.label(k);
    }
    obs.label_if(s.seed > 0 && !l.staked.is_empty(), "stakes");
    obs.label_if(l.moves.iter().any(|m| m.report.is_some()), "a tally");
    obs.show(|| format!("{} blocks, {} movements", f.seen.len(), l.moves.len()));
    Ok(())
}

pub fn c39(c: &mut Check) {
    protocol();
    c.sub(
        "history",
        "the chain has at least four movements of the wallet and its history at least two kinds of event beyond a block",
        4_500,
        400_000,
        || long_tapes(3000),
        |b, obs| alone(&b.0, || history(&mut b.tape(), obs)),
    );
}
