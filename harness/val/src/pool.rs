//! C30: the pool of transactions waiting for a block, against a reference that keeps plain sets.
use crate::{base::*, commits::claim, spend::rad_ok};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::OnceLock,
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    proto::versioning::ProtocolVersion,
    staking::prelude::*,
    transaction::*,
    vrf::DataRequestEligibilityClaim,
};

const CLASSES: [&str; 4] = ["value transfer", "data request", "stake", "unstake"];
const PEOPLE: usize = 6;

#[derive(Clone)]
struct Entry {
    fee: u64,
    weight: u64,
    inputs: Vec<OutputPointer>,
    tx: Transaction,
}
impl Entry {
    #[allow(clippy::cast_precision_loss)]
    fn priority(&self) -> f64 {
        self.fee as f64 / self.weight as f64
    }
}

fn claims() -> &'static Vec<DataRequestEligibilityClaim> {
    static C: OnceLock<Vec<DataRequestEligibilityClaim>> = OnceLock::new();
    C.get_or_init(|| (0..PEOPLE).map(|i| claim(ProtocolVersion::V1_7, i, Default::default(), Hash::default(), None).0).collect())
}
fn signature(who: usize) -> KeyedSignature {
    static S: OnceLock<Vec<KeyedSignature>> = OnceLock::new();
    S.get_or_init(|| (0..PEOPLE).map(|i| sign_hash(i, Hash::default())).collect())[who].clone()
}

struct Model {
    sets: [BTreeMap<Hash, Entry>; 4],
    commits: BTreeMap<(Hash, PublicKeyHash), CommitTransaction>,
    reveals: BTreeMap<(Hash, PublicKeyHash), RevealTransaction>,
    mine: [Vec<Hash>; 2],
    limit: u64,
    factor: f64,
    min_fee: u64,
    min_collateral: u64,
    ratio: u64,
}

/// Everything that was ever made in this history, to be offered again.
#[derive(Default)]
struct Made {
    txs: Vec<Transaction>,
}

impl Model {
    fn weights(&self, class: usize) -> u64 {
        self.sets[class].values().map(|e| e.weight).sum()
    }
    fn total(&self) -> u64 {
        self.weights(0) + self.weights(1) + self.weights(2)
    }
    /// Makes room, given what the pool says it threw out.
    #[allow(clippy::cast_precision_loss)]
    fn shrink(&mut self, removed: &[Transaction]) -> Result<usize, String> {
        let mut left: BTreeSet<Hash> = removed.iter().map(|t| t.hash()).collect();
        ensure!(left.len() == removed.len(), "something was thrown out twice: {removed:?}");
        let mut n = 0;
        while self.total() > self.limit {
            let prefer = usize::from((self.weights(0) as f64) < self.weights(1) as f64 * self.factor);
            let class = [prefer, 0, 1, 2].into_iter().find(|c| !self.sets[*c].is_empty()).unwrap();
            let lowest = self.sets[class].values().map(Entry::priority).fold(f64::INFINITY, f64::min);
            let out = self.sets[class].iter().find(|(h, e)| e.priority() == lowest && left.contains(*h)).map(|(h, _)| *h);
            let Some(h) = out else {
                return Err(format!("over the limit ({} > {}), the {} that pays least was not thrown out", self.total(), self.limit, CLASSES[class]));
            };
            left.remove(&h);
            self.sets[class].remove(&h);
            n += 1;
        }
        ensure!(left.is_empty(), "thrown out without need: {} transactions", left.len());
        Ok(n)
    }
    /// These outputs are spent: nobody else can spend them now.
    fn spent(&mut self, outputs: &[OutputPointer]) -> usize {
        let mut n = 0;
        for set in &mut self.sets {
            let before = set.len();
            set.retain(|_, e| !e.inputs.iter().any(|i| outputs.contains(i)));
            n += before - set.len();
        }
        n
    }
    fn find(&self, h: &Hash) -> Option<Transaction> {
        self.sets.iter().find_map(|s| s.get(h).map(|e| e.tx.clone())).or_else(|| self.commits.values().find(|c| c.hash() == *h).map(|c| Transaction::Commit(c.clone()))).or_else(|| self.reveals.values().find(|c| c.hash() == *h).map(|c| Transaction::Reveal(c.clone())))
    }
}

fn entry(tx: &Transaction, fee: u64) -> Option<(usize, Entry)> {
    let (class, weight, inputs) = match tx {
        Transaction::ValueTransfer(x) => (0, x.weight(), x.body.inputs.clone()),
        Transaction::DataRequest(x) => (1, x.weight(), x.body.inputs.clone()),
        Transaction::Stake(x) => (2, x.weight(), x.body.inputs.clone()),
        Transaction::Unstake(x) => (3, x.weight(), vec![]),
        _ => return None,
    };
    Some((class, Entry { fee, weight: u64::from(weight), inputs: inputs.iter().map(|i| *i.output_pointer()).collect(), tx: tx.clone() }))
}

fn inputs(t: &mut Tape, max: usize) -> Vec<Input> {
    let n = 1 + t.below(max);
    let mut v: Vec<u32> = (0..n).map(|_| t.below(14) as u32).collect();
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|i| Input::new(ptr(1, i))).collect()
}
fn outputs(t: &mut Tape, max: usize) -> Vec<ValueTransferOutput> {
    (0..t.below(max)).map(|_| ValueTransferOutput { pkh: key(t.below(PEOPLE)).pkh, value: 1 + t.range(0, 1000), time_lock: 0 }).collect()
}
fn request(t: &mut Tape) -> DataRequestOutput {
    DataRequestOutput {
        data_request: rad_ok(),
        witness_reward: *t.pick(&[WIT, WIT / 125, WIT / 126, 20 * WIT / 125, 0, 1, WIT / 10, WIT / 7]),
        witnesses: 1 + t.below(4) as u16,
        commit_and_reveal_fee: t.range(0, 5),
        min_consensus_percentage: 51,
        collateral: *t.pick(&[0, WIT, 20 * WIT, 20 * WIT + 1, 40 * WIT, 2500 * WIT]),
    }
}

fn make(t: &mut Tape, class: usize, requests: &[Hash]) -> Transaction {
    match class {
        0 => {
            let i = inputs(t, 3);
            let mut out = outputs(t, 4);
            out.push(ValueTransferOutput { pkh: key(0).pkh, value: 1 + t.range(0, 3), time_lock: 0 });
            Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(i, out), vec![]))
        }
        1 => {
            let i = inputs(t, 3);
            let out = outputs(t, 3);
            let r = request(t);
            Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(i, r, out), vec![]))
        }
        2 => {
            let i = inputs(t, 3);
            let out = StakeOutput { authorization: signature(0), key: StakeKey { validator: key(t.below(PEOPLE)).pkh, withdrawer: key(t.below(PEOPLE)).pkh }, value: 1 + t.range(0, 50) };
            let change = t.bool().then(|| ValueTransferOutput { pkh: key(0).pkh, value: 1, time_lock: 0 });
            Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(i, out, change), vec![]))
        }
        3 => {
            let w = ValueTransferOutput { pkh: key(t.below(PEOPLE)).pkh, value: 1 + t.range(0, 50), time_lock: 9 };
            Transaction::Unstake(UnstakeTransaction::new(UnstakeTransactionBody::new(key(t.below(PEOPLE)).pkh, w, 0, t.range(0, 3)), signature(0)))
        }
        4 => {
            let who = t.below(PEOPLE);
            let collateral = if t.odds(60) { vec![] } else { inputs(t, 3) };
            let body = CommitTransactionBody::new(*t.pick(requests), Hash::SHA256([t.below(3) as u8; 32]), claims()[who].clone(), collateral, vec![], None);
            Transaction::Commit(CommitTransaction::new(body, vec![signature(who)]))
        }
        _ => {
            let who = t.below(PEOPLE);
            let body = RevealTransactionBody::new(*t.pick(requests), vec![t.below(3) as u8], key(who).pkh);
            Transaction::Reveal(RevealTransaction::new(body, vec![signature(who)]))
        }
    }
}

fn sorted(v: impl Iterator<Item = Hash>) -> Vec<Hash> {
    let mut v: Vec<Hash> = v.collect();
    v.sort();
    v
}

fn compare(pool: &TransactionsPool, m: &Model, made: &Made) -> Result<(), String> {
    let lists: [Vec<Hash>; 4] = [pool.vt_iter().map(|x| x.hash()).collect(), pool.dr_iter().map(|x| x.hash()).collect(), pool.st_iter().map(|x| x.hash()).collect(), pool.ut_iter().map(|x| x.hash()).collect()];
    let lens = [pool.vt_len(), pool.dr_len(), pool.st_len(), pool.ut_len()];
    for (c, list) in lists.iter().enumerate() {
        ensure!(sorted(list.iter().copied()) == m.sets[c].keys().copied().collect::<Vec<_>>(), "{}s in the pool: {} of {}", CLASSES[c], list.len(), m.sets[c].len());
        ensure_eq!(lens[c], list.len(), "number of {}s", CLASSES[c]);
        let p: Vec<f64> = list.iter().map(|h| m.sets[c][h].priority()).collect();
        ensure!(p.windows(2).all(|w| w[0] >= w[1]), "{}s not by priority: {p:?}", CLASSES[c]);
    }
    ensure_eq!(pool.total_transactions_weight(), m.total(), "weight of the pool");
    ensure!(m.total() <= m.limit, "pool of {} over its limit {}", m.total(), m.limit);
    ensure_eq!(pool.is_empty(), m.sets.iter().all(BTreeMap::is_empty) && m.commits.is_empty() && m.reveals.is_empty(), "whether the pool is empty");
    for tx in &made.txs {
        let h = tx.hash();
        ensure!(pool.get(&h) == m.find(&h), "lookup of {h}: {:?} instead of {:?}", pool.get(&h), m.find(&h));
        let want = match tx {
            Transaction::Commit(c) => match m.commits.get(&(c.body.dr_pointer, c.body.proof.proof.pkh())) {
                Some(x) if x.hash() != h => None,
                x => Some(x.is_some()),
            },
            Transaction::Reveal(r) => match m.reveals.get(&(r.body.dr_pointer, r.body.pkh)) {
                Some(x) if x.hash() != h => None,
                x => Some(x.is_some()),
            },
            _ => Some(m.find(&h).is_some()),
        };
        ensure_eq!(pool.contains(tx).ok(), want, "whether {h} is in the pool");
    }
    Ok(())
}

fn history(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    // Requests that some block opened, and one nobody knows.
    let mut drs = DataRequestPool::new(3);
    let mut outputs_of = BTreeMap::new();
    let mut requests = vec![];
    for i in 0..4u32 {
        let out = DataRequestOutput { collateral: WIT, ..request(t) };
        let tx = DRTransaction::new(DRTransactionBody::new(vec![Input::new(ptr(9, i))], out.clone(), vec![]), vec![signature(0)]);
        requests.push(tx.hash());
        if i < 3 {
            drs.process_data_request(&tx, 10, None).map_err(|e| e.to_string())?;
            outputs_of.insert(tx.hash(), out);
        }
    }

    let mut pool = TransactionsPool::new();
    let mut m = Model { sets: Default::default(), commits: Default::default(), reveals: Default::default(), mine: Default::default(), limit: u64::MAX, factor: 1.0, min_fee: 0, min_collateral: 0, ratio: u64::MAX };
    let mut made = Made::default();
    if t.bool() {
        pool.set_collateral_minimum(WIT);
        m.min_collateral = 20 * WIT;
        let ratio = *t.pick(&[125, 100, 1]);
        pool.set_required_reward_collateral_ratio(ratio);
        m.ratio = ratio;
    }
    let (mut evicted, mut conflicts, mut drawn, mut again) = (0, 0, 0, 0);
    let steps = 5 + t.below(60);
    for _ in 0..steps {
        if t.left() == 0 {
            break;
        }
        match t.below(32) {
            0..=15 => {
                let class = *t.pick(&[0, 1, 2, 0, 1, 4, 4, 4, 5, 5, 3, 4]);
                // Something new, or something that has been here before.
                let tx = if !made.txs.is_empty() && t.odds(40) {
                    again += 1;
                    made.txs[t.below(made.txs.len())].clone()
                } else {
                    make(t, class, &requests)
                };
                let h = tx.hash();
                if !made.txs.iter().any(|x| x.hash() == h) {
                    made.txs.push(tx.clone());
                }
                // As the node does: never what is there already, nor a second commit or reveal.
                if !matches!(pool.contains(&tx), Ok(false)) {
                    continue;
                }
                let fee = match t.below(4) {
                    0 => t.range(0, 5),
                    1 => t.range(0, 2000),
                    2 => *t.pick(&[0, u64::MAX, 1 << 60, 1]),
                    _ => t.range(0, 40) * 100,
                };
                let removed = pool.insert(tx.clone(), fee);
                match (&tx, entry(&tx, fee)) {
                    (Transaction::Commit(c), _) => {
                        m.commits.insert((c.body.dr_pointer, c.body.proof.proof.pkh()), c.clone());
                    }
                    (Transaction::Reveal(r), _) => {
                        m.reveals.insert((r.body.dr_pointer, r.body.pkh), r.clone());
                    }
                    (_, Some((class, e))) => {
                        let refused = match &tx {
                            Transaction::ValueTransfer(_) => fee < m.min_fee,
                            Transaction::DataRequest(r) => {
                                let out = &r.body.dr_output;
                                let collateral = if out.collateral == 0 { m.min_collateral } else { out.collateral };
                                // The reward has to be worth a certain part of the collateral.
                                if out.witness_reward == 0 { m.ratio < u64::MAX } else { u128::from(collateral) > u128::from(out.witness_reward) * u128::from(m.ratio) }
                            }
                            _ => false,
                        };
                        if refused {
                            o.label("refused");
                            ensure!(removed.len() == 1 && removed[0] == tx, "a {} that pays too little is not given back: {removed:?}", CLASSES[class]);
                            continue;
                        }
                        m.sets[class].insert(h, e);
                        if t.odds(60) {
                            pool.insert_unconfirmed_transactions(h);
                            m.mine[0].push(h);
                        }
                    }
                    _ => unreachable!(),
                }
                evicted += m.shrink(&removed).map_err(|e| format!("insert: {e}"))?;
            }
            16..=18 => {
                // A block brings a transaction, known or not.
                let class = t.below(4);
                let known: Vec<Hash> = m.sets[class].keys().copied().collect();
                let tx = if known.is_empty() || t.odds(80) { make(t, class, &requests) } else { m.sets[class][t.pick(&known)].tx.clone() };
                let (_, e) = entry(&tx, 0).unwrap();
                let h = tx.hash();
                let got = match &tx {
                    Transaction::ValueTransfer(x) => pool.vt_remove(x).map(Transaction::ValueTransfer),
                    Transaction::DataRequest(x) => pool.dr_remove(x).map(Transaction::DataRequest),
                    Transaction::Stake(x) => pool.st_remove(x).map(Transaction::Stake),
                    Transaction::Unstake(x) => pool.ut_remove(x).map(Transaction::Unstake),
                    _ => unreachable!(),
                };
                let want = m.sets[class].remove(&h).map(|e| e.tx);
                ensure!(got == want, "mined {} in the pool: {got:?} instead of {want:?}", CLASSES[class]);
                conflicts += m.spent(&e.inputs);
            }
            19 => {
                let i = inputs(t, 4);
                pool.remove_inputs(&i);
                conflicts += m.spent(&i.iter().map(|i| *i.output_pointer()).collect::<Vec<_>>());
            }
            20 | 21 => {
                let (commits, fee, served) = pool.remove_commits(&drs);
                let offered = std::mem::take(&mut m.commits);
                let mut spent = HashSet::new();
                let mut by = BTreeMap::<Hash, usize>::new();
                for c in &commits {
                    let k = (c.body.dr_pointer, c.body.proof.proof.pkh());
                    ensure!(offered.get(&k) == Some(c), "commit {k:?} comes from nowhere");
                    *by.entry(k.0).or_default() += 1;
                    for i in &c.body.collateral {
                        ensure!(spent.insert(*i.output_pointer()), "collateral {} is spent twice", i.output_pointer());
                    }
                }
                let mut authors: Vec<_> = commits.iter().map(|c| (c.body.dr_pointer, c.body.proof.proof.pkh())).collect();
                authors.sort();
                authors.dedup();
                ensure_eq!(authors.len(), commits.len(), "authors of the commits");
                ensure!(sorted(served.iter().copied()) == by.keys().copied().collect::<Vec<_>>(), "requests served: {served:?}, with commits for {by:?}");
                let mut fees = 0;
                for (r, n) in &by {
                    let out = outputs_of.get(r).ok_or("commits for a request that does not exist")?;
                    ensure_eq!(*n, usize::from(out.witnesses), "commits for a request");
                    fees += out.commit_and_reveal_fee * u64::from(out.witnesses);
                }
                ensure_eq!(fee, fees, "fees of the commits");
                // A request whose commits nobody disputes is served.
                let all: Vec<_> = offered.values().filter(|c| outputs_of.contains_key(&c.body.dr_pointer)).flat_map(|c| c.body.collateral.iter().map(|i| *i.output_pointer())).collect();
                let mut usable = BTreeMap::<Hash, usize>::new();
                for c in offered.values() {
                    if c.body.collateral.iter().all(|i| all.iter().filter(|x| *x == i.output_pointer()).count() == 1) {
                        *usable.entry(c.body.dr_pointer).or_default() += 1;
                    }
                }
                for (r, n) in usable {
                    if let Some(out) = outputs_of.get(&r) {
                        ensure!(n < usize::from(out.witnesses) || by.contains_key(&r), "{n} commits for a request of {} witnesses, but it was not served", out.witnesses);
                    }
                }
                drawn += commits.len();
            }
            22 => {
                let (reveals, fee) = pool.get_reveals(&drs);
                let want: BTreeMap<_, _> = m.reveals.iter().filter(|(k, _)| outputs_of.contains_key(&k.0)).collect();
                ensure!(sorted(reveals.iter().map(|r| r.hash())) == sorted(want.values().map(|r| r.hash())), "reveals for the block: {} of {}", reveals.len(), want.len());
                ensure_eq!(fee, want.keys().map(|k| outputs_of[&k.0].commit_and_reveal_fee).sum::<u64>(), "fees of the reveals");
                drawn += reveals.len();
            }
            23 => {
                // A block brings a reveal.
                let keys: Vec<_> = m.reveals.keys().copied().collect();
                if keys.is_empty() || t.odds(60) {
                    let Transaction::Reveal(r) = make(t, 5, &requests) else { unreachable!() };
                    let k = (r.body.dr_pointer, r.body.pkh);
                    let known = m.reveals.get(&k).is_some_and(|x| x.hash() == r.hash());
                    let got = pool.remove_one_reveal(&k.0, &k.1, &r.hash());
                    ensure_eq!(got.is_some(), known, "removal of a reveal");
                    if known {
                        m.reveals.remove(&k);
                    }
                } else {
                    let k = *t.pick(&keys);
                    let r = m.reveals.remove(&k).unwrap();
                    let got = pool.remove_one_reveal(&k.0, &k.1, &r.hash());
                    ensure!(got.as_ref() == Some(&r), "removal of a reveal: {got:?}");
                }
            }
            24 => {
                let r = *t.pick(&requests);
                pool.clear_reveals_from_finished_dr(&r);
                m.reveals.retain(|k, _| k.0 != r);
            }
            25 => match t.below(4) {
                0 => {
                    pool.clear_commits();
                    m.commits.clear();
                }
                1 => {
                    pool.clear_reveals();
                    m.reveals.clear();
                }
                2 => {
                    o.label("stakes cleared");
                    pool.clear_stake_transactions();
                    m.sets[2].clear();
                }
                _ => {
                    pool.clear_unstake_transactions();
                    m.sets[3].clear();
                }
            },
            26 => {
                let class = 2 + t.below(2);
                let mut list: Vec<Hash> = m.sets[class].keys().copied().filter(|_| t.bool()).collect();
                if t.bool() {
                    list.push(Hash::SHA256([7; 32]));
                }
                for h in &list {
                    m.sets[class].remove(h);
                }
                if class == 2 { pool.remove_invalid_stake_transactions(list) } else { pool.remove_invalid_unstake_transactions(list) }
            }
            27 => {
                pool.update_unconfirmed_transactions();
                m.mine = [vec![], std::mem::take(&mut m.mine[0])];
            }
            28 if t.odds(80) => {
                // A reorganisation: what was sent lately and is still here has to be sent again.
                let got = pool.remove_unconfirmed_transactions();
                let mut want = vec![];
                for h in m.mine.iter().flatten() {
                    if let Some(e) = m.sets.iter_mut().find_map(|s| s.remove(h)) {
                        want.push(e.tx);
                    }
                }
                m.mine = Default::default();
                m.commits.clear();
                m.reveals.clear();
                ensure!(sorted(got.iter().map(|x| x.hash())) == sorted(want.iter().map(|x| x.hash())), "transactions to send again: {} instead of {}", got.len(), want.len());
                o.label_if(!want.is_empty(), "sent again");
            }
            29 | 30 => {
                let total = m.total();
                m.limit = match t.below(4) {
                    0 => 5000,
                    1 => t.range(0, 20_000),
                    2 => total.saturating_sub(t.range(0, 3)),
                    _ => u64::MAX,
                };
                m.factor = *t.pick(&[1.0, 0.25, 4.0, 0.0]);
                let removed = pool.set_total_weight_limit(m.limit, m.factor);
                evicted += m.shrink(&removed).map_err(|e| format!("new limit: {e}"))?;
            }
            31 => match t.below(6) {
                0 => {
                    pool.clear();
                    for s in &mut m.sets {
                        s.clear();
                    }
                    m.commits.clear();
                    m.reveals.clear();
                    m.mine = Default::default();
                }
                _ => {
                    m.min_fee = t.range(0, 3);
                    pool.set_minimum_vtt_fee(m.min_fee);
                }
            },
            _ => {}
        }
        compare(&pool, &m, &made)?;
    }
    // At the end everything gets mined: nothing may stay behind.
    if t.bool() {
        for i in 0..14 {
            pool.remove_inputs(&[Input::new(ptr(1, i))]);
        }
        for s in &mut m.sets[..3] {
            s.clear();
        }
        compare(&pool, &m, &made)?;
    }
    o.label_if(evicted > 0, "evicted");
    o.label_if(conflicts > 0, "conflict with a mined one");
    o.label_if(drawn > 0, "commits or reveals for a block");
    o.label_if(again > 0, "inserted again");
    o.nontrivial_if(evicted > 0 && conflicts > 0 || drawn > 0 && conflicts > 0);
    o.show(|| format!("{steps} steps, {} transactions made, {evicted} evicted, {conflicts} in conflict with mined ones, {drawn} commits and reveals taken", made.txs.len()));
    Ok(())
}

pub fn c30(c: &mut Check) {
    c.assume("a transaction is inserted only if the pool does not have it, and an author's commit or reveal only if it has no other for that request, as the node checks before");
    c.assume("the fees given for a transaction are those validation computed; weights are the transactions' own");
    c.sub("history", "transactions were evicted or taken for a block, and others conflicted with mined ones", 50_000, 1_500_000, || tapes(1400), |b, o| history(&mut b.tape(), o));
}
