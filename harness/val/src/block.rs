//! C26: blocks. A small chain is built by the rules; its blocks have to be accepted, and every
//! block that breaks one rule refused.
use crate::{
    base::*,
    commits::{claim, sign_reveal},
    header::genesis,
    spend::{Coin, rad_ok, request_cost, request_weight},
    tally::{Val, tally_script},
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_crypto::{hash::Sha256, merkle::merkle_tree_root as root_of};
use witnet_data_structures::{
    chain::*,
    data_request::{DataRequestPool, create_tally},
    proto::versioning::{ProtocolVersion, VersionedHashable},
    staking::prelude::*,
    transaction::*,
    utxo_pool::{Diff, UnspentOutputsPool},
    vrf::DataRequestEligibilityClaim,
    wit::Wit,
};
use witnet_validations::{eligibility::current::{Eligibility, Eligible}, validations::*};

const MIN: u64 = 10_000 * WIT;
const DELAY: u64 = 1_209_600;
/// Those who take part in requests.
const WITNESSES: usize = 12;
/// The one whose node this is.
const SELF: usize = 1;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stage {
    Commit(u16),
    Reveal(u16),
    Tally,
}

#[derive(Clone, Debug)]
pub struct Request {
    pub hash: Hash,
    pub output: DataRequestOutput,
    pub requester: usize,
    pub epoch: u32,
    pub stage: Stage,
    pub commits: Vec<(usize, Val)>,
    pub reveals: BTreeSet<usize>,
}
impl Request {
    pub fn deposit(&self) -> u64 {
        if self.output.collateral == 0 { WIT } else { self.output.collateral }
    }
    pub fn v2(&self) -> bool {
        self.epoch >= V2_0
    }
    fn advance(&mut self, too_many: bool) {
        self.stage = match self.stage {
            Stage::Commit(_) if !self.commits.is_empty() => Stage::Reveal(1),
            Stage::Commit(n) if !too_many && n <= 3 => Stage::Commit(n + 1),
            Stage::Commit(_) => Stage::Tally,
            Stage::Reveal(n) if self.reveals.len() < usize::from(self.output.witnesses) && n <= 3 => Stage::Reveal(n + 1),
            _ => Stage::Tally,
        }
    }
}

pub struct Sim {
    pub e: u32,
    pub block: u32,
    pub base: UnspentOutputsPool,
    pub coins: Vec<Coin>,
    pub drs: Vec<Request>,
    pub pool: DataRequestPool,
    /// What one of the witnesses is to reveal once the time has come.
    pub waiting: HashMap<Hash, RevealTransaction>,
    pub stakes: StakesTracker,
    pub rep: ReputationEngine,
    /// What was mined or burnt since the beginning.
    pub minted: u128,
    pub burnt: u128,
    pub initial: u128,
    /// Transactions of earlier blocks.
    pub past: BlockTransactions,
    pub next_coin: u32,
}

/// Everything a block does, while it is being made.
#[derive(Clone)]
pub struct Plan {
    pub txns: BlockTransactions,
    pub coins: Vec<Coin>,
    pub fees: u64,
    pub commits: Vec<(usize, usize, Val)>,
    pub reveals: Vec<(usize, usize)>,
    pub requests: Vec<Request>,
    pub burnt: u128,
    pub vt_weight: u32,
    pub dr_weight: u32,
}

pub fn empty() -> BlockTransactions {
    BlockTransactions::default()
}

pub fn too_many(witnesses: u16, validators: usize, e: u32) -> bool {
    let divider = if get_environment_is_mainnet() { 4 } else { 2 };
    e >= V2_0 && usize::from(witnesses) > validators / divider
}
fn get_environment_is_mainnet() -> bool {
    matches!(witnet_data_structures::get_environment(), Environment::Mainnet)
}

thread_local! {
    static CLAIMS: RefCell<BTreeMap<usize, DataRequestEligibilityClaim>> = const { RefCell::new(BTreeMap::new()) };
}
/// Some proof of this key; proofs are the subject of C24.
pub fn some_claim(who: usize) -> DataRequestEligibilityClaim {
    CLAIMS.with_borrow_mut(|c| {
        c.entry(who).or_insert_with(|| claim(ProtocolVersion::V1_7, who, CheckpointVRF { checkpoint: 1, hash_prev_vrf: Hash::SHA256([3; 32]) }, Hash::SHA256([4; 32]), None).0).clone()
    })
}

impl Plan {
    /// An output as the pool keeps it: from 2.0 on, small time locks are relative.
    pub fn created(&mut self, sim: &Sim, hash: Hash, outs: &[ValueTransferOutput]) {
        for (i, x) in outs.iter().enumerate() {
            let relative = sim.e >= V2_0 && x.time_lock < ZERO as u64;
            let lock = x.time_lock + if relative { time(sim.e) as u64 } else { 0 };
            let owner = (0..KEYS).find(|k| key(*k).pkh == x.pkh).unwrap();
            self.coins.push(Coin { ptr: OutputPointer { transaction_id: hash, output_index: i as u32 }, owner, value: x.value, lock, live: true, fresh: true });
        }
    }
    /// Spends up to `max` coins that pass.
    fn take(&mut self, t: &mut Tape, now: i64, max: usize, pass: impl Fn(&Coin) -> bool) -> (Vec<usize>, u64) {
        let mut v: Vec<usize> = (0..self.coins.len()).filter(|i| self.coins[*i].open(now) && pass(&self.coins[*i])).collect();
        shuffle(t, &mut v);
        // Prefer what this block created, now and then.
        if t.bool() {
            v.sort_by_key(|i| !self.coins[*i].fresh);
        }
        v.truncate(1 + t.below(max));
        let mut sum = 0;
        for i in &v {
            self.coins[*i].live = false;
            sum += self.coins[*i].value;
        }
        (v, sum)
    }
    fn undo(&mut self, v: &[usize]) {
        for i in v {
            self.coins[*i].live = true;
        }
    }
    pub fn inputs(&self, v: &[usize]) -> Vec<Input> {
        v.iter().map(|i| Input::new(self.coins[*i].ptr)).collect()
    }
    pub fn sign(&self, v: &[usize], hash: Hash) -> Vec<KeyedSignature> {
        v.iter().map(|i| sign_hash(self.coins[*i].owner, hash)).collect()
    }
}

fn give(t: &mut Tape, mut left: u64, n: usize) -> Vec<ValueTransferOutput> {
    let mut v = vec![];
    for i in 0..n {
        let value = if i + 1 == n && t.bool() { left } else { t.range(1, left.max(1)).min(left) };
        if value > 0 {
            left -= value;
            let time_lock = if t.odds(20) { ZERO as u64 + t.range(0, 2 << 27) } else { 0 };
            v.push(ValueTransferOutput { pkh: key(t.below(WITNESSES)).pkh, value, time_lock });
        }
    }
    v
}

impl Sim {
    pub fn new(t: &mut Tape, e: u32) -> Sim {
        let mut base = UnspentOutputsPool::default();
        let mut coins = vec![];
        for owner in 0..WITNESSES {
            for i in 0..4 {
                let value = if i == 0 { 1000 * WIT } else { t.range(100, 100_000) * WIT };
                let born = if i == 0 { 0 } else { t.below(8000) as u32 };
                let c = Coin { ptr: ptr(owner as u8, i), owner, value, lock: 0, live: true, fresh: false };
                base.insert(c.ptr, c.vto(), born);
                coins.push(c);
            }
        }
        let mut stakes = StakesTracker::default();
        let mut initial = coins.iter().map(|c| u128::from(c.value)).sum::<u128>();
        if e >= V1_8 {
            for v in 0..t.below(20) {
                let w = if t.bool() { v } else { t.below(WITNESSES) };
                let coins = t.pick(&[MIN, 2 * MIN, 5 * MIN, 50 * MIN]) + t.range(0, MIN);
                let since = e - 1 - t.below(50_000) as u32;
                let k = StakeKey { validator: key(v).pkh, withdrawer: key(w).pkh };
                stakes.add_stake(k, Wit::from_nanowits(coins), since, true, Wit::from_nanowits(MIN)).unwrap();
                initial += u128::from(coins);
            }
        }
        let mut rep = ReputationEngine::new(100);
        rep.ars_mut().push_activity((0..5).map(|i| key(i).pkh));
        Sim {
            e,
            block: 30_000 + t.below(1000) as u32,
            base,
            coins,
            drs: vec![],
            pool: DataRequestPool::new(3),
            waiting: HashMap::new(),
            stakes,
            rep,
            minted: 0,
            burnt: 0,
            initial,
            past: empty(),
            next_coin: 0,
        }
    }

    pub fn reserve(c: &Coin) -> bool {
        // Kept aside, so that everybody has enough coins to qualify for requests.
        c.ptr.output_index == 0 && c.value == 1000 * WIT && (0..WITNESSES).any(|o| c.ptr == ptr(o as u8, 0))
    }

    pub fn plan(&self, t: &mut Tape) -> Plan {
        let (e, now, v) = (self.e, time(self.e), version(self.e));
        let validators = self.stakes.validator_count();
        let mut p = Plan {
            txns: empty(),
            coins: self.coins.clone(),
            fees: 0,
            commits: vec![],
            reveals: vec![],
            requests: vec![],
            burnt: 0,
            vt_weight: 0,
            dr_weight: 0,
        };
        // Value transfers.
        for _ in 0..t.below(4) {
            let (c, sum) = p.take(t, now, 3, |c| !Sim::reserve(c) && c.value < 1 << 60);
            if c.is_empty() {
                continue;
            }
            let n = t.below(4);
            let outs = give(t, sum, n);
            let out: u64 = outs.iter().map(|o| o.value).sum();
            let body = VTTransactionBody::new(p.inputs(&c), outs.clone());
            let hash = body.versioned_hash(v);
            p.fees += sum - out;
            p.vt_weight += 133 * c.len() as u32 + 360 * outs.len() as u32;
            let sigs = p.sign(&c, hash);
            p.created(self, hash, &outs);
            p.txns.value_transfer_txns.push(VTTransaction::new(body, sigs));
        }
        // Commits, for the requests that find enough witnesses.
        let mut reserved: HashMap<usize, u64> = HashMap::new();
        for (n, dr) in self.drs.iter().enumerate() {
            let Stage::Commit(round) = dr.stage else { continue };
            if round == 0 || t.odds(80) {
                continue;
            }
            let wanted = usize::from(dr.output.witnesses);
            let mut who: Vec<usize> = (0..WITNESSES).collect();
            shuffle(t, &mut who);
            if dr.v2() {
                who.retain(|w| {
                    let pkh = key(*w).pkh;
                    let eligible = matches!(self.stakes.witnessing_eligibility(pkh, e, dr.output.witnesses, round, 4), Ok((Eligible::Yes, _, _)));
                    let coins = self.staked(*w).map_or(0, |x| x.1);
                    eligible && coins >= MIN + dr.deposit() + reserved.get(w).copied().unwrap_or(0)
                });
            }
            if who.len() < wanted {
                continue;
            }
            who.truncate(wanted);
            let before = p.clone();
            let mut done = true;
            let style = t.below(3);
            for w in who {
                let (inputs, change) = if dr.v2() {
                    *reserved.entry(w).or_default() += dr.deposit();
                    (vec![], vec![])
                } else {
                    let limit = self.block.saturating_sub(13_440);
                    let (base, reserve) = (&self.base, Sim::reserve);
                    let (c, sum) = p.take(t, now, 2, |c| c.owner == w && !c.fresh && !reserve(c) && base.included_in_block_number(&c.ptr).is_some_and(|b| b <= limit));
                    if sum < dr.deposit() {
                        done = false;
                        break;
                    }
                    let change = sum - dr.deposit();
                    let change = if change > 0 { vec![ValueTransferOutput { pkh: key(w).pkh, value: change, time_lock: 0 }] } else { vec![] };
                    (p.inputs(&c), change)
                };
                let value = match (style, t.below(10)) {
                    (_, 9) => Val::Error(0x94),
                    (_, 8) => Val::Int(t.below(20) as u8),
                    (_, 7) => Val::Bad,
                    (2, _) => Val::Text(b'a'),
                    _ => Val::Int(3),
                };
                let commitment = sign_reveal(w, dr.hash, value.bytes()).signatures[0].signature.hash();
                let body = CommitTransactionBody::new(dr.hash, commitment, some_claim(w), inputs, change.clone(), None);
                let hash = body.hash();
                p.created(self, body.versioned_hash(v), &change);
                p.txns.commit_txns.push(CommitTransaction::new(body, vec![sign_hash(w, hash)]));
                p.commits.push((n, w, value));
                p.fees += dr.output.commit_and_reveal_fee;
            }
            if !done {
                p = before;
            }
        }
        // Reveals.
        for (n, dr) in self.drs.iter().enumerate() {
            let Stage::Reveal(_) = dr.stage else { continue };
            for (w, value) in &dr.commits {
                if !dr.reveals.contains(w) && !t.odds(100) {
                    p.txns.reveal_txns.push(sign_reveal(*w, dr.hash, value.bytes()));
                    p.reveals.push((n, *w));
                    p.fees += dr.output.commit_and_reveal_fee;
                }
            }
        }
        // Data requests.
        for dr in &self.drs {
            let committed = p.commits.iter().any(|c| self.drs[c.0].hash == dr.hash);
            if matches!(dr.stage, Stage::Commit(_)) && !committed {
                p.dr_weight += request_weight(&dr.output, 0, 0) as u32;
            }
        }
        for _ in 0..t.below(3) {
            if p.dr_weight > 60_000 {
                break;
            }
            let (c, sum) = p.take(t, now, 3, |c| !Sim::reserve(c) && c.value < 1 << 60);
            let mut rad = rad_ok();
            rad.tally = tally_script(t.below(3));
            let reward = t.range(WIT / 125, WIT);
            let output = DataRequestOutput {
                data_request: rad,
                witness_reward: reward,
                witnesses: 1 + t.below(if e >= V2_0 { 5 } else { 4 }) as u16,
                commit_and_reveal_fee: if t.bool() { t.range(0, WIT / 10) } else { 0 },
                min_consensus_percentage: 51 + t.below(49) as u32,
                collateral: if t.bool() { 0 } else { t.range(WIT, 125 * reward) },
            };
            let cost = request_cost(&output).unwrap();
            if c.is_empty() || sum < cost {
                p.undo(&c);
                continue;
            }
            let requester = p.coins[c[0]].owner;
            let left = sum - cost;
            let change = if t.bool() { t.range(0, left) } else { left };
            let change = if change > 0 { vec![ValueTransferOutput { pkh: key(requester).pkh, value: change, time_lock: 0 }] } else { vec![] };
            let out: u64 = change.iter().map(|x| x.value).sum();
            let body = DRTransactionBody::new(p.inputs(&c), output.clone(), change.clone());
            let hash = body.versioned_hash(v);
            let sigs = p.sign(&c, hash);
            p.fees += left - out;
            p.dr_weight += request_weight(&output, c.len(), change.len()) as u32;
            p.created(self, hash, &change);
            p.txns.data_request_txns.push(DRTransaction::new(body, sigs));
            p.requests.push(Request { hash, output, requester, epoch: e, stage: Stage::Commit(0), commits: vec![], reveals: BTreeSet::new() });
        }
        // Tallies: of everything that waits for one, and of what cannot be resolved.
        let wips = wips(13, e);
        for dr in self.drs.iter().filter(|d| d.stage == Stage::Tally) {
            if dr.v2() && too_many(dr.output.witnesses, validators, e) {
                continue;
            }
            let reveals = self.pool.get_reveals(&dr.hash, &wips).unwrap();
            let report = run_tally_panic_safe(&reveals, &dr.output.data_request.tally, f64::from(dr.output.min_consensus_percentage) / 100.0, dr.commits.len(), &wips, false);
            let revealers = reveals.iter().map(|x| x.body.pkh).collect();
            p.tally(self, dr, &report, revealers);
            let votes: Vec<&(usize, Val)> = dr.commits.iter().filter(|c| dr.reveals.contains(&c.0)).collect();
            let values: Vec<Val> = votes.iter().map(|x| x.1.clone()).collect();
            let script = match (&dr.output.data_request.tally.filters[..], dr.output.data_request.tally.reducer) {
                ([], 2) => 0,
                ([_], _) => 1,
                _ => 2,
            };
            let out = crate::tally::consensus(&values, dr.commits.len(), dr.output.min_consensus_percentage, script, false);
            if !dr.v2() && out.honest.iter().any(|x| *x) {
                let fine = out.honest.iter().zip(&out.errors).filter(|(h, e)| **h || **e).count();
                p.burnt += u128::from(dr.deposit()) * (dr.commits.len() - fine) as u128;
            }
        }
        for dr in p.requests.clone() {
            if too_many(dr.output.witnesses, validators, e) {
                let report = run_tally(vec![], &RADTally { filters: vec![], reducer: 0 }, 0.0, 0, &wips, true);
                p.tally(self, &dr, &report, vec![]);
            }
        }
        // Stakes.
        let mut operators: BTreeSet<usize> = BTreeSet::new();
        if e >= V1_8 {
            for _ in 0..t.below(3) {
                let (c, sum) = p.take(t, now, 4, |c| !Sim::reserve(c) && c.value < 1 << 60);
                let validator = t.below(20);
                let (w, staked) = self.staked(validator).map_or((t.below(WITNESSES), 0), |x| (x.0, x.1));
                if c.is_empty() || sum < MIN || staked + sum > 1000 * MIN || !operators.insert(validator) {
                    p.undo(&c);
                    continue;
                }
                let value = if t.bool() { sum } else { t.range(MIN, sum) };
                let left = sum - value;
                let change = t.range(0, left);
                let change = (change > 0).then(|| ValueTransferOutput { pkh: key(t.below(WITNESSES)).pkh, value: change, time_lock: 0 });
                p.fees += left - change.as_ref().map_or(0, |c| c.value);
                let k = StakeKey { validator: key(validator).pkh, withdrawer: key(w).pkh };
                let mut digest = [0; 32];
                digest[..20].copy_from_slice(k.withdrawer.as_ref());
                let body = StakeTransactionBody::new(p.inputs(&c), StakeOutput { authorization: sign_hash(validator, Hash::SHA256(digest)), key: k, value }, change.clone());
                let hash = body.versioned_hash(v);
                let sigs = p.sign(&c, hash);
                let outs: Vec<ValueTransferOutput> = change.into_iter().collect();
                p.created(self, hash, &outs);
                p.txns.stake_txns.push(StakeTransaction::new(body, sigs));
            }
        }
        if e >= V2_0 {
            for _ in 0..t.below(3) {
                let operator = t.below(20);
                let Some((w, coins, nonce)) = self.staked(operator) else { continue };
                // A stake of the same validator in the same block comes first, or it may be in use.
                // So does a reward: the node adds it before it takes the stake away, and forgets to
                // take it if the rest is below the minimum (see DESIGN.md).
                let paid = self.drs.iter().any(|d| d.stage == Stage::Tally && d.commits.iter().any(|c| c.0 == operator));
                if paid || operators.contains(&operator) || reserved.contains_key(&operator) || operator >= WITNESSES && t.bool() {
                    continue;
                }
                operators.insert(operator);
                let fee = t.range(0, WIT);
                let value = if t.bool() || coins < MIN + 2 * WIT { coins - fee } else { t.range(1, coins - MIN - fee) };
                let out = ValueTransferOutput { pkh: key(w).pkh, value, time_lock: DELAY };
                if w >= WITNESSES {
                    continue;
                }
                let body = UnstakeTransactionBody::new(key(operator).pkh, out.clone(), fee, nonce);
                let hash = body.versioned_hash(v);
                p.fees += fee;
                p.created(self, hash, &[out]);
                p.txns.unstake_txns.push(UnstakeTransaction::new(body, sign_hash(w, hash)));
            }
        }
        // The miner's.
        let outs = if e >= V2_0 {
            vec![]
        } else {
            let total = 250 * WIT + p.fees;
            let first = if t.bool() { total } else { t.range(1, total - 1) };
            [first, total - first].into_iter().filter(|x| *x > 0).map(|value| ValueTransferOutput { pkh: key(t.below(WITNESSES)).pkh, value, time_lock: 0 }).collect()
        };
        p.txns.mint = MintTransaction::new(e, outs.clone());
        p.created(self, p.txns.mint.versioned_hash(v), &outs);
        p
    }

    pub fn header(&self, txns: &BlockTransactions) -> BlockHeader {
        let v = version(self.e);
        fn root<X: VersionedHashable>(x: &[X], v: ProtocolVersion) -> Hash {
            let h: Vec<Sha256> = x
                .iter()
                .map(|x| {
                    let Hash::SHA256(h) = x.versioned_hash(v);
                    Sha256(h)
                })
                .collect();
            Hash::from(root_of(&h))
        }
        BlockHeader {
            signals: 0,
            beacon: CheckpointBeacon { checkpoint: self.e, hash_prev_block: Hash::SHA256([0x77; 32]) },
            merkle_roots: BlockMerkleRoots {
                mint_hash: txns.mint.versioned_hash(v),
                vt_hash_merkle_root: root(&txns.value_transfer_txns, v),
                dr_hash_merkle_root: root(&txns.data_request_txns, v),
                commit_hash_merkle_root: root(&txns.commit_txns, v),
                reveal_hash_merkle_root: root(&txns.reveal_txns, v),
                tally_hash_merkle_root: root(&txns.tally_txns, v),
                stake_hash_merkle_root: if self.e >= V1_8 { root(&txns.stake_txns, v) } else { Hash::default() },
                unstake_hash_merkle_root: if self.e >= V2_0 { root(&txns.unstake_txns, v) } else { Hash::default() },
            },
            proof: Default::default(),
            bn256_public_key: None,
        }
    }

    pub fn validate(&self, block: &Block, constants: &ConsensusConstants) -> (Result<(Diff, Vec<SignaturesToVerify>), String>, DataRequestPool) {
        let mut pool = self.pool.clone();
        let mut sigs = vec![];
        let r = validate_block_transactions(
            &self.base,
            &mut pool,
            block,
            CheckpointVRF::default(),
            &mut sigs,
            &self.rep,
            epochs(),
            self.block,
            constants,
            &wit2(),
            &wips(13, self.e),
            None,
            &self.stakes,
        );
        (r.map(|d| (d, sigs)).map_err(|e| e.to_string()), pool)
    }

    /// What the node does once a block is final.
    pub fn apply(&mut self, block: &Block, plan: &Plan, diff: Diff) -> Result<(), String> {
        let e = self.e;
        let hash = block.versioned_hash(version(e));
        let validators = self.stakes.validator_count();
        let brought: HashSet<Hash> = plan.requests.iter().filter(|r| too_many(r.output.witnesses, validators, e)).map(|r| r.hash).collect();
        for c in &plan.commits {
            let dr = &self.drs[c.0];
            if dr.v2() {
                self.stakes.reserve_collateral(key(c.1).pkh, Wit::from_nanowits(dr.output.collateral), Wit::from_nanowits(MIN)).map_err(|e| e.to_string())?;
            }
        }
        for tx in &block.txns.tally_txns {
            if brought.contains(&tx.dr_pointer) {
                continue;
            }
            let dr = self.drs.iter().find(|d| d.hash == tx.dr_pointer).ok_or("tally of an unknown request")?;
            if dr.v2() {
                for c in &dr.commits {
                    let pkh = key(c.0).pkh;
                    let error = tx.error_committers.contains(&pkh);
                    if error || !tx.out_of_consensus.contains(&pkh) {
                        let reward = if error { 0 } else { dr.output.witness_reward };
                        // Whoever left in the meantime is not paid.
                        let _ = self.stakes.add_reward(pkh, Wit::from_nanowits(dr.output.collateral + reward), e);
                    }
                }
            }
        }
        for tx in &block.txns.tally_txns {
            if !brought.contains(&tx.dr_pointer) {
                self.pool.process_tally(tx, &hash).map_err(|e| e.to_string())?;
            }
        }
        for tx in block.txns.data_request_txns.iter().zip(&plan.requests).filter(|x| !brought.contains(&x.1.hash)) {
            self.pool.process_data_request(tx.0, e, Some(hash)).map_err(|e| e.to_string())?;
        }
        for tx in &block.txns.commit_txns {
            self.pool.process_commit(tx, e, &hash).map_err(|e| e.to_string())?;
        }
        for tx in &block.txns.reveal_txns {
            self.pool.process_reveal(tx, e, &hash).map_err(|e| e.to_string())?;
        }
        diff.apply(&mut self.base);
        process_stake_transactions(&mut self.stakes, block.txns.stake_txns.iter(), e, MIN).map_err(|e| e.to_string())?;
        process_unstake_transactions(&mut self.stakes, block.txns.unstake_txns.iter(), e, MIN).map_err(|e| e.to_string())?;
        let after = self.stakes.validator_count();
        // One of the witnesses keeps what it will reveal, though not every commit of its is mined.
        for (n, d) in self.drs.iter().enumerate().filter(|(_, d)| matches!(d.stage, Stage::Commit(_))) {
            let mined = plan.commits.iter().any(|c| (c.0, c.1) == (n, SELF));
            if mined || d.hash.as_ref()[0] < 64 {
                let body = RevealTransactionBody::new(d.hash, vec![n as u8], key(SELF).pkh);
                let x = RevealTransaction::new(body.clone(), vec![sign_hash(SELF, body.hash())]);
                self.pool.insert_reveal(d.hash, x.clone());
                self.waiting.insert(d.hash, x);
            }
        }
        let sent = self.pool.update_data_request_stages(Some(after), Some(e));
        let stored = self.pool.finished_data_requests();
        ensure_eq!(stored.len(), block.txns.tally_txns.len() - brought.len(), "finished requests to be stored");

        // The same in the model.
        for (n, w, value) in &plan.commits {
            self.drs[*n].commits.push((*w, value.clone()));
        }
        for (n, w) in &plan.reveals {
            self.drs[*n].reveals.insert(*w);
        }
        let done: HashSet<Hash> = block.txns.tally_txns.iter().map(|x| x.dr_pointer).collect();
        self.drs.retain(|d| !done.contains(&d.hash));
        self.drs.extend(plan.requests.iter().filter(|r| !brought.contains(&r.hash)).cloned());
        for d in &mut self.drs {
            d.advance(too_many(d.output.witnesses, after, e));
        }
        let mut want: Vec<_> = self
            .drs
            .iter()
            .filter(|d| matches!(d.stage, Stage::Reveal(_)) && d.commits.iter().any(|c| c.0 == SELF) && !d.reveals.contains(&SELF))
            .map(|d| self.waiting[&d.hash].clone())
            .collect();
        want.sort_by_key(|x| x.body.dr_pointer);
        let mut sent = sent;
        sent.sort_by_key(|x| x.body.dr_pointer);
        ensure_eq!(sent, want, "what a witness sends now that it is time to reveal");
        self.shown(after)?;
        self.coins = plan.coins.iter().filter(|c| c.live).map(|c| Coin { fresh: false, ..c.clone() }).collect();
        self.burnt += plan.burnt;
        if e < V2_0 {
            self.minted += u128::from(250 * WIT);
        }
        for (a, b) in [(&mut self.past.value_transfer_txns, &block.txns.value_transfer_txns)] {
            a.extend(b.iter().cloned());
        }
        self.past.data_request_txns.extend(block.txns.data_request_txns.iter().cloned());
        self.past.commit_txns.extend(block.txns.commit_txns.iter().cloned());
        self.past.reveal_txns.extend(block.txns.reveal_txns.iter().cloned());
        self.past.tally_txns.extend(block.txns.tally_txns.iter().cloned());
        self.past.stake_txns.extend(block.txns.stake_txns.iter().cloned());
        self.past.unstake_txns.extend(block.txns.unstake_txns.iter().cloned());
        Ok(())
    }

    /// What is at hand for the tallies to come.
    pub fn shown(&self, validators: usize) -> Result<(), String> {
        let order = |d: &Request, late: bool| {
            let mut v: Vec<PublicKeyHash> = d.reveals.iter().map(|w| key(*w).pkh).collect();
            v.sort_by_key(|p| if late { witnet_crypto::hash::calculate_sha256(&[p.as_ref(), d.hash.as_ref()].concat()).as_ref().to_vec() } else { p.as_ref().to_vec() });
            v
        };
        let done: Vec<&Request> = self.drs.iter().filter(|d| d.stage == Stage::Tally).collect();
        let mut ready: Vec<Hash> = self.pool.get_tally_ready_drs().into_iter().collect();
        ready.sort();
        let mut want: Vec<Hash> = done.iter().map(|d| d.hash).collect();
        want.sort();
        ensure_eq!(ready, want, "requests to be tallied");
        for late in [false, true] {
            let mut wips = tapi::ActiveWips { active_wips: Default::default(), block_epoch: self.e };
            if late {
                wips.active_wips.insert("WIP0017-0018-0019".to_string(), 0);
            }
            let mut got = self.pool.get_all_reveals(&wips, Some(validators), Some(self.e));
            for d in &done {
                if d.v2() && too_many(d.output.witnesses, validators, self.e) {
                    continue;
                }
                let v = got.remove(&d.hash).ok_or("no reveals for a tally")?;
                ensure_eq!(v.iter().map(|x| x.body.pkh).collect::<Vec<_>>(), order(d, late), "reveals for a tally");
                let one = self.pool.get_reveals(&d.hash, &wips).ok_or("no reveals of a request")?;
                ensure!(one.into_iter().eq(&v), "reveals of one request");
            }
            ensure!(got.is_empty(), "reveals for no tally: {got:?}");
        }
        Ok(())
    }

    /// The state and the model agree, and nothing was created or lost.
    pub fn check(&self) -> Result<(), String> {
        let mut want: HashMap<OutputPointer, ValueTransferOutput> = self.coins.iter().map(|c| (c.ptr, c.vto())).collect();
        for (p, (x, _)) in self.base.iter() {
            ensure_eq!(want.remove(&p), Some(x), "unspent output {p}");
        }
        ensure!(want.is_empty(), "outputs missing: {want:?}");
        ensure_eq!(self.pool.data_request_pool.len(), self.drs.len(), "requests in progress");
        for d in &self.drs {
            let s = self.pool.data_request_state(&d.hash).ok_or("request missing")?;
            let stage = match d.stage {
                Stage::Commit(_) => DataRequestStage::COMMIT,
                Stage::Reveal(_) => DataRequestStage::REVEAL,
                Stage::Tally => DataRequestStage::TALLY,
            };
            ensure_eq!(s.stage, stage, "stage of {d:?}");
            match d.stage {
                Stage::Commit(n) => ensure_eq!(s.info.current_commit_round, n, "commit round of {d:?}"),
                Stage::Reveal(n) => ensure_eq!(s.info.current_reveal_round, n, "reveal round of {d:?}"),
                _ => {}
            }
            ensure_eq!((s.info.commits.len(), s.info.reveals.len()), (d.commits.len(), d.reveals.len()), "commits and reveals of {d:?}");
            ensure_eq!((s.pkh, s.epoch), (key(d.requester).pkh, d.epoch), "requester and epoch of {d:?}");
        }
        let mut open: Vec<Hash> = self.pool.get_dr_output_pointers_by_epoch(self.e);
        open.sort();
        let mut want: Vec<Hash> = self.drs.iter().filter(|d| matches!(d.stage, Stage::Commit(_))).map(|d| d.hash).collect();
        want.sort();
        ensure_eq!(open, want, "requests that can be committed to");
        if self.e < V2_0 {
            let held: u128 = self.coins.iter().map(|c| u128::from(c.value)).sum();
            let locked = u128::from(self.pool.locked_wits_by_requests(WIT));
            let staked = u128::from(self.stakes.total_staked().nanowits());
            ensure_eq!(held + locked + staked + self.burnt, self.initial + self.minted, "coins: {held} held, {locked} in requests, {staked} staked, {} burnt", self.burnt);
        }
        Ok(())
    }
}

impl Plan {
    pub fn tally(&mut self, sim: &Sim, dr: &Request, report: &witnet_data_structures::radon_report::RadonReport<witnet_rad::types::RadonTypes>, revealers: Vec<PublicKeyHash>) {
        let tx = create_tally(
            dr.hash,
            &dr.output,
            key(dr.requester).pkh,
            report,
            revealers,
            dr.commits.iter().map(|c| key(c.0).pkh).collect::<HashSet<_>>(),
            WIT,
            tally_bytes_on_encode_error(),
            &wips(13, sim.e),
            version(dr.epoch),
        );
        self.created(sim, tx.versioned_hash(version(sim.e)), &tx.outputs);
        self.txns.tally_txns.push(tx);
    }
}

/// Breaks one rule. The name of the rule, if the block has what it takes.
fn breach(t: &mut Tape, sim: &Sim, plan: &Plan, block: &mut Block, constants: &mut ConsensusConstants) -> Option<&'static str> {
    let x = &mut block.txns;
    let v2 = sim.e >= V2_0;
    let what = match t.below(27) {
        1 if !v2 => {
            let mut m = x.mint.outputs.clone();
            let at = t.below(m.len());
            m[at].value = if t.bool() { m[at].value + 1 } else { m[at].value - 1 };
            x.mint = MintTransaction::new(sim.e, m);
            "the miner gets something else"
        }
        2 => {
            x.mint = MintTransaction::new(if t.bool() { sim.e + 1 } else { sim.e - 1 }, x.mint.outputs.clone());
            "the mint of another epoch"
        }
        3 if !v2 && x.mint.outputs[0].value > 3 => {
            let mut m = x.mint.outputs.clone();
            while m.len() < 3 {
                m[0].value -= 1;
                m.push(ValueTransferOutput { value: 1, ..m[0].clone() });
            }
            x.mint = MintTransaction::new(sim.e, m);
            "a mint split in three"
        }
        4 if x.mint.outputs.len() < 2 => {
            let mut m = x.mint.outputs.clone();
            m.push(ValueTransferOutput { pkh: key(1).pkh, value: if v2 { t.below(2) as u64 } else { 0 }, time_lock: 0 });
            x.mint = MintTransaction::new(sim.e, m);
            "an output that may not be in the mint"
        }
        5 if !x.value_transfer_txns.is_empty() => {
            let again = t.pick(&x.value_transfer_txns).clone();
            x.value_transfer_txns.push(again);
            "a transfer twice"
        }
        6 => {
            // The latter spends what the former creates.
            let n = x.value_transfer_txns.len();
            let hash = |i: usize| x.value_transfer_txns[i].versioned_hash(version(sim.e));
            let pair = (1..n).flat_map(|j| (0..j).map(move |i| (i, j))).find(|(i, j)| {
                let id = hash(*i);
                x.value_transfer_txns[*j].body.inputs.iter().any(|k| k.output_pointer().transaction_id == id)
            })?;
            x.value_transfer_txns.swap(pair.0, pair.1);
            "a transfer before the one it depends on"
        }
        7 => {
            let many: Vec<usize> = plan.commits.iter().enumerate().filter(|c| sim.drs[c.1.0].output.witnesses > 1).map(|c| c.0).collect();
            if many.is_empty() {
                return None;
            }
            x.commit_txns.remove(*t.pick(&many));
            "fewer commits than witnesses"
        }
        8 if !x.commit_txns.is_empty() => {
            let again = t.pick(&x.commit_txns).clone();
            let at = t.below(x.commit_txns.len() + 1);
            x.commit_txns.insert(at, again);
            "a commit twice"
        }
        9 if !x.commit_txns.is_empty() => {
            // One takes the place of two.
            let i = t.below(x.commit_txns.len());
            let j = plan.commits.iter().position(|c| c.0 == plan.commits[i].0 && c.1 != plan.commits[i].1)?;
            x.commit_txns[j] = x.commit_txns[i].clone();
            "a commit in place of another's"
        }
        10 if !x.reveal_txns.is_empty() => {
            let again = t.pick(&x.reveal_txns).clone();
            x.reveal_txns.push(again);
            "a reveal twice"
        }
        11 if !x.commit_txns.is_empty() => {
            let (n, w, value) = t.pick(&plan.commits).clone();
            x.reveal_txns.push(sign_reveal(w, sim.drs[n].hash, value.bytes()));
            "a reveal in the block of its commit"
        }
        12 if !x.tally_txns.is_empty() => {
            let at = t.below(x.tally_txns.len());
            x.tally_txns.remove(at);
            "a tally missing"
        }
        13 if !x.tally_txns.is_empty() => {
            let again = t.pick(&x.tally_txns).clone();
            x.tally_txns.push(again);
            "a tally twice"
        }
        14 => {
            let open: Vec<&Request> = sim.drs.iter().filter(|d| d.stage != Stage::Tally).collect();
            if open.is_empty() {
                return None;
            }
            let dr = *t.pick(&open);
            let w = wips(13, sim.e);
            let reveals = sim.pool.get_reveals(&dr.hash, &w).unwrap();
            let report = run_tally_panic_safe(&reveals, &dr.output.data_request.tally, 0.51, dr.commits.len(), &w, false);
            let mut p = plan.clone();
            p.tally(sim, dr, &report, reveals.iter().map(|x| x.body.pkh).collect());
            x.tally_txns.push(p.txns.tally_txns.pop().unwrap());
            "a tally too early"
        }
        15 if sim.e < V1_8 => {
            let mut p = plan.clone();
            let i = p.coins.iter().position(|c| c.live && !c.fresh && c.open(time(sim.e)) && c.value >= MIN)?;
            let k = StakeKey { validator: key(0).pkh, withdrawer: key(0).pkh };
            let fees = p.coins[i].value;
            let body = StakeTransactionBody::new(p.inputs(&[i]), StakeOutput { authorization: sign_hash(0, Hash::default()), key: k, value: fees }, None);
            let hash = body.versioned_hash(version(sim.e));
            p.coins[i].live = false;
            x.stake_txns.push(StakeTransaction::new(body, p.sign(&[i], hash)));
            "a stake before 1.8"
        }
        16 if !v2 => {
            let (operator, (w, coins, nonce)) = (0..20).find_map(|o| Some((o, sim.staked(o)?))).unwrap_or((0, (0, MIN, 0)));
            let body = UnstakeTransactionBody::new(key(operator).pkh, ValueTransferOutput { pkh: key(w).pkh, value: coins, time_lock: DELAY }, 0, nonce);
            let hash = body.versioned_hash(version(sim.e));
            x.unstake_txns.push(UnstakeTransaction::new(body, sign_hash(w, hash)));
            "an unstake before 2.0"
        }
        17 if !x.unstake_txns.is_empty() => {
            let again = t.pick(&x.unstake_txns).clone();
            x.unstake_txns.push(again);
            "an unstake twice"
        }
        18 if !x.stake_txns.is_empty() => {
            // Another stake of the same validator, from other coins.
            let first = t.pick(&x.stake_txns).body.output.clone();
            let mut p = plan.clone();
            let i = p.coins.iter().position(|c| c.live && !c.fresh && c.open(time(sim.e)) && c.value >= MIN && c.value < 10 * MIN)?;
            let body = StakeTransactionBody::new(p.inputs(&[i]), StakeOutput { value: p.coins[i].value, ..first }, None);
            let hash = body.versioned_hash(version(sim.e));
            p.coins[i].live = false;
            x.stake_txns.push(StakeTransaction::new(body, p.sign(&[i], hash)));
            "two stakes of one validator"
        }
        19 if plan.vt_weight > 0 => {
            constants.max_vt_weight = plan.vt_weight - 1;
            "transfers too heavy"
        }
        20 if !plan.requests.is_empty() => {
            constants.max_dr_weight = plan.dr_weight - 1;
            "requests too heavy"
        }
        21 if !sim.past.value_transfer_txns.is_empty() => {
            let again = t.pick(&sim.past.value_transfer_txns).clone();
            x.value_transfer_txns.insert(0, again);
            "a transfer of an earlier block"
        }
        22 if !sim.past.data_request_txns.is_empty() => {
            let again = t.pick(&sim.past.data_request_txns).clone();
            x.data_request_txns.push(again);
            "a request of an earlier block"
        }
        23 if !sim.past.commit_txns.is_empty() => {
            let again = t.pick(&sim.past.commit_txns).clone();
            x.commit_txns.push(again);
            "a commit of an earlier block"
        }
        24 if !sim.past.reveal_txns.is_empty() => {
            let again = t.pick(&sim.past.reveal_txns).clone();
            x.reveal_txns.push(again);
            "a reveal of an earlier block"
        }
        25 if !sim.past.tally_txns.is_empty() => {
            let again = t.pick(&sim.past.tally_txns).clone();
            x.tally_txns.push(again);
            "a tally of an earlier block"
        }
        26 if !sim.past.stake_txns.is_empty() || !sim.past.unstake_txns.is_empty() => {
            if sim.past.unstake_txns.is_empty() || !sim.past.stake_txns.is_empty() && t.bool() {
                let again = t.pick(&sim.past.stake_txns).clone();
                x.stake_txns.push(again);
                "a stake of an earlier block"
            } else {
                let again = t.pick(&sim.past.unstake_txns).clone();
                x.unstake_txns.push(again);
                "an unstake of an earlier block"
            }
        }
        _ => {
            let mut header = sim.header(x);
            let r = &mut header.merkle_roots;
            let roots = [
                &mut r.mint_hash,
                &mut r.vt_hash_merkle_root,
                &mut r.dr_hash_merkle_root,
                &mut r.commit_hash_merkle_root,
                &mut r.reveal_hash_merkle_root,
                &mut r.tally_hash_merkle_root,
                &mut r.stake_hash_merkle_root,
                &mut r.unstake_hash_merkle_root,
            ];
            let Hash::SHA256(h) = roots.into_iter().nth(t.below(8)).unwrap();
            h[t.below(32)] ^= 1 << t.below(8);
            *block = Block::new(header, KeyedSignature::default(), block.txns.clone());
            return Some("a wrong root");
        }
    };
    *block = Block::new(sim.header(&block.txns), KeyedSignature::default(), block.txns.clone());
    Some(what)
}

fn chain(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let e = match t.below(8) {
        0 => V1_8 - 1 - t.below(6) as u32,
        1 | 2 => V2_0 - 1 - t.below(10) as u32,
        3 => 100_000 + t.below(1_000_000) as u32,
        4 => V1_8 + t.below(50_000) as u32,
        _ => V2_0 + t.below(1_000_000) as u32,
    };
    let mut sim = Sim::new(t, e);
    let mut sizes = [0; 7];
    for _ in 0..3 + t.below(12) {
        let plan = sim.plan(t);
        let x = &plan.txns;
        let count = [
            x.value_transfer_txns.len(),
            x.data_request_txns.len(),
            x.commit_txns.len(),
            x.reveal_txns.len(),
            x.tally_txns.len(),
            x.stake_txns.len(),
            x.unstake_txns.len(),
        ];
        for (a, b) in sizes.iter_mut().zip(count) {
            *a += b;
        }
        let block = Block::new(sim.header(x), KeyedSignature::default(), x.clone());
        let mut c = constants();
        if t.bool() {
            c.max_vt_weight = plan.vt_weight;
            c.max_dr_weight = plan.dr_weight;
        }
        let (got, pool) = sim.validate(&block, &c);
        let (diff, sigs) = got.map_err(|e| format!("block of epoch {} refused: {e}; {plan:?}", sim.e, plan = plan.txns))?;
        let validators = sim.stakes.validator_count();
        let brought: Vec<Hash> = plan.requests.iter().filter(|r| too_many(r.output.witnesses, validators, sim.e)).map(|r| r.hash).collect();
        o.label_if(!brought.is_empty(), "too many witnesses");
        let mut same = pool;
        for h in &brought {
            // What stays behind is the subject of another check.
            same.data_request_pool.remove(h);
            if let Some(s) = same.data_requests_by_epoch.get_mut(&sim.e) {
                s.remove(h);
            }
        }
        if same.data_requests_by_epoch.get(&sim.e).is_some_and(|s| s.is_empty()) {
            same.data_requests_by_epoch.remove(&sim.e);
        }
        ensure!(same == sim.pool, "checking a block changed the requests in progress");
        if t.odds(30) {
            let sigs = sigs.into_iter().filter(|s| !matches!(s, SignaturesToVerify::VrfDr { .. } | SignaturesToVerify::VrfBlock { .. })).collect();
            check_signatures(sigs).map_err(|e| format!("signatures of a block: {e}"))?;
        }
        // One rule broken.
        for _ in 0..2 {
            let mut bad = block.clone();
            let mut c = constants();
            if let Some(what) = breach(t, &sim, &plan, &mut bad, &mut c) {
                let (got, _) = sim.validate(&bad, &c);
                ensure!(got.is_err(), "accepted a block with {what}, epoch {}: {:?}", sim.e, bad.txns);
                o.label(what);
            }
        }
        let before = sim.e;
        sim.apply(&block, &plan, diff)?;
        sim.check()?;
        sim.block += 1;
        sim.e += 1 + if t.odds(40) { t.below(4) as u32 } else { 0 };
        o.label_if(before < V1_8 && sim.e >= V1_8, "activation of 1.8");
        o.label_if(before < V2_0 && sim.e >= V2_0, "activation of 2.0");
        sim.next_coin += 1;
    }
    o.label(if sim.e < V1_8 { "1.7" } else if sim.e < V2_0 { "1.8" } else { "2.0" });
    o.nontrivial_if(sizes[..5].iter().all(|n| *n > 0));
    o.show(|| format!("transfers, requests, commits, reveals, tallies, stakes, unstakes: {sizes:?}"));
    Ok(())
}

pub fn c26(c: &mut Check) {
    c.sub("a chain of blocks made by the rules is accepted, any rule broken is not", "all five basic kinds of transaction in the chain", 4_000, 200_000, || long_tapes(4000), |b, o| chain(&mut b.tape(), o));
    c.sub("the genesis block", "transactions in it", 2_000, 100_000, || tapes(300), |b, o| genesis(&mut b.tape(), o));
    let all = [
        "a refused block with a request of too many witnesses",
        "a tally that cannot be made is not awaited",
        "two commits of one validator",
        "stakes as heavy as a block may carry",
        "stakes too heavy",
        "unstakes as heavy as a block may carry",
        "unstakes too heavy",
    ];
    c.each("blocks at the limits", "all", all.map(String::from).to_vec(), |what, o| {
        o.nontrivial();
        o.show(|| what.clone());
        special(what)
    });
}

/// A chain after 2.0 with validators of the given stakes, the first having by far the most power.
fn calm(stakes: &[u64]) -> Sim {
    let empty = [0; 0];
    let bytes = vpkit::tape::Bytes(empty.to_vec());
    let mut sim = Sim::new(&mut bytes.tape(), V2_0 + 100_000);
    sim.stakes = StakesTracker::default();
    for (v, coins) in stakes.iter().enumerate() {
        let k = StakeKey { validator: key(v).pkh, withdrawer: key(v).pkh };
        let since = if v == 0 { 0 } else { sim.e - 10 };
        sim.stakes.add_stake(k, Wit::from_nanowits(*coins), since, true, Wit::from_nanowits(MIN)).unwrap();
    }
    sim
}

/// A request of the given number of witnesses, paid with the coin of this position.
fn ask(sim: &Sim, p: &mut Plan, coin: usize, witnesses: u16) {
    let output = DataRequestOutput { data_request: rad_ok(), witness_reward: WIT / 100, witnesses, commit_and_reveal_fee: 0, min_consensus_percentage: 51, collateral: WIT };
    let change = p.coins[coin].value - request_cost(&output).unwrap();
    let requester = p.coins[coin].owner;
    let change = vec![ValueTransferOutput { pkh: key(requester).pkh, value: change, time_lock: 0 }];
    let body = DRTransactionBody::new(p.inputs(&[coin]), output.clone(), change.clone());
    let hash = body.versioned_hash(version(sim.e));
    let sigs = p.sign(&[coin], hash);
    p.coins[coin].live = false;
    p.created(sim, hash, &change);
    p.txns.data_request_txns.push(DRTransaction::new(body, sigs));
    p.requests.push(Request { hash, output, requester, epoch: sim.e, stage: Stage::Commit(0), commits: vec![], reveals: BTreeSet::new() });
}

fn nothing(sim: &Sim) -> Plan {
    let txns = BlockTransactions { mint: MintTransaction::new(sim.e, vec![]), ..empty() };
    Plan { txns, coins: sim.coins.clone(), fees: 0, commits: vec![], reveals: vec![], requests: vec![], burnt: 0, vt_weight: 0, dr_weight: 0 }
}

fn special(what: &str) -> Result<(), String> {
    protocol();
    let sealed = |sim: &Sim, p: &Plan| Block::new(sim.header(&p.txns), KeyedSignature::default(), p.txns.clone());
    match what {
        "a refused block with a request of too many witnesses" => {
            let sim = calm(&[MIN; 4]);
            let mut p = nothing(&sim);
            ask(&sim, &mut p, 1, 3);
            let (got, pool) = sim.validate(&sealed(&sim, &p), &constants());
            ensure!(got.is_err(), "accepted without the tally of a request of too many witnesses");
            ensure!(pool == sim.pool, "the request of a refused block stays among the requests in progress");
        }
        "a tally that cannot be made is not awaited" => {
            let mut sim = calm(&[MIN; 12]);
            let mut p = nothing(&sim);
            ask(&sim, &mut p, 1, if get_environment_is_mainnet() { 3 } else { 6 });
            let b = sealed(&sim, &p);
            let (got, _) = sim.validate(&b, &constants());
            sim.apply(&b, &p, got?.0)?;
            sim.check()?;
            // Somebody leaves.
            sim.e += 1;
            let mut p = nothing(&sim);
            let out = ValueTransferOutput { pkh: key(3).pkh, value: MIN, time_lock: DELAY };
            let body = UnstakeTransactionBody::new(key(3).pkh, out.clone(), 0, sim.staked(3).unwrap().2);
            let hash = body.versioned_hash(version(sim.e));
            p.created(&sim, hash, &[out]);
            p.txns.unstake_txns.push(UnstakeTransaction::new(body, sign_hash(3, hash)));
            let b = sealed(&sim, &p);
            let (got, _) = sim.validate(&b, &constants());
            sim.apply(&b, &p, got?.0)?;
            sim.check()?;
            for _ in 0..6 {
                sim.e += 1;
                let p = nothing(&sim);
                let b = sealed(&sim, &p);
                let (got, _) = sim.validate(&b, &constants());
                let got = got.map_err(|e| format!("no block can follow, as the tally of a request with too many witnesses is awaited and refused: {e}"))?;
                sim.apply(&b, &p, got.0)?;
                sim.check()?;
            }
        }
        "two commits of one validator" => {
            for times in [2u64, 1] {
                let mut sim = calm(&[MIN + times * WIT, MIN, MIN, MIN]);
                let mut p = nothing(&sim);
                ask(&sim, &mut p, 1, 1);
                ask(&sim, &mut p, 5, 1);
                let b = sealed(&sim, &p);
                let (got, _) = sim.validate(&b, &constants());
                sim.apply(&b, &p, got?.0)?;
                sim.e += 1;
                let mut p = nothing(&sim);
                for n in 0..2 {
                    let dr = sim.drs[n].hash;
                    let commitment = sign_reveal(0, dr, Val::Int(3).bytes()).signatures[0].signature.hash();
                    let body = CommitTransactionBody::new(dr, commitment, some_claim(0), vec![], vec![], None);
                    let hash = body.hash();
                    p.txns.commit_txns.push(CommitTransaction::new(body, vec![sign_hash(0, hash)]));
                }
                let (got, _) = sim.validate(&sealed(&sim, &p), &constants());
                match times {
                    2 => got.map(|_| ()).map_err(|e| format!("refused two commits the stake covers: {e}"))?,
                    _ => ensure!(got.is_err(), "two commits of one validator accepted though its stake covers the collateral of one"),
                }
            }
        }
        "stakes as heavy as a block may carry" | "stakes too heavy" => {
            // 20 000 units: 133 for an input, 105 for a stake, 36 for its change.
            let sim = {
                let mut sim = calm(&[]);
                for i in 0..160 {
                    let c = Coin { ptr: ptr(200, i), owner: 0, value: 100 * MIN / 80, lock: 0, live: true, fresh: false };
                    sim.base.insert(c.ptr, c.vto(), 0);
                    sim.coins.push(c);
                }
                sim
            };
            let first = sim.coins.len() - 160;
            let over = what == "stakes too heavy";
            let mut p = nothing(&sim);
            // 148 inputs, two stakes and two changes are 19 966; without changes 149 fit, at 20 027 they do not.
            let parts: &[(usize, usize, bool)] = if over { &[(0, 74, false), (74, 75, false)] } else { &[(0, 74, true), (74, 74, true)] };
            for (validator, (from, n, changed)) in parts.iter().enumerate() {
                let coins: Vec<usize> = (first + from..first + from + n).collect();
                let total: u64 = coins.iter().map(|c| p.coins[*c].value).sum();
                let change = changed.then(|| ValueTransferOutput { pkh: key(0).pkh, value: 1, time_lock: 0 });
                let k = StakeKey { validator: key(validator).pkh, withdrawer: key(0).pkh };
                let value = total - u64::from(*changed);
                let body = StakeTransactionBody::new(p.inputs(&coins), StakeOutput { authorization: sign_hash(validator, Hash::default()), key: k, value }, change);
                let hash = body.versioned_hash(version(sim.e));
                p.txns.stake_txns.push(StakeTransaction::new(body, p.sign(&coins, hash)));
            }
            let (got, _) = sim.validate(&sealed(&sim, &p), &constants());
            ensure_eq!(got.is_err(), over, "{what}: {:?}", got.as_ref().err());
        }
        "unstakes as heavy as a block may carry" | "unstakes too heavy" => {
            // 5 000 units: 32 unstakes of 153.
            let n = if what == "unstakes too heavy" { 33 } else { 32 };
            let sim = calm(&[2 * MIN; 36]);
            let mut p = nothing(&sim);
            for i in 0..n {
                let out = ValueTransferOutput { pkh: key(i).pkh, value: WIT, time_lock: DELAY };
                let body = UnstakeTransactionBody::new(key(i).pkh, out, 0, sim.staked(i).unwrap().2);
                let hash = body.versioned_hash(version(sim.e));
                p.txns.unstake_txns.push(UnstakeTransaction::new(body, sign_hash(i, hash)));
            }
            let (got, _) = sim.validate(&sealed(&sim, &p), &constants());
            ensure_eq!(got.is_err(), n == 33, "{what}: {:?}", got.as_ref().err());
        }
        _ => unreachable!(),
    }
    Ok(())
}

impl Sim {
    pub fn staked(&self, v: usize) -> Option<(usize, u64, u64)> {
        let q = self.stakes.query_stakes(QueryStakesKey::Validator(key(v).pkh)).ok()?;
        let x = q.first()?;
        let w = (0..KEYS).find(|k| key(*k).pkh == x.key.withdrawer)?;
        Some((w, x.value.coins.nanowits(), x.value.nonce))
    }
}
