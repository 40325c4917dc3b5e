//! C44: the blocks a node makes. Whatever is waiting in its pools, what it makes of it has to be
//! accepted by everyone.
use crate::{
    base::*,
    block::{Plan, Request, Sim, Stage, too_many},
    node::mining::build_block,
    spend::request_weight,
};
use std::collections::{BTreeMap, HashMap, HashSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    transaction::*,
    utxo_pool::UtxoDiff,
};
use witnet_validations::validations::*;

/// What waits for a block.
#[derive(Default)]
pub struct Waiting {
    pub pool: TransactionsPool,
    /// Inputs, fee and weight of everything that spends outputs, by kind.
    pub spends: [BTreeMap<Hash, (Vec<OutputPointer>, u64, u32)>; 3],
    pub unstakes: BTreeMap<Hash, UnstakeTransaction>,
    stakes: BTreeMap<Hash, StakeTransaction>,
    commits: HashSet<Hash>,
    /// Outputs set aside for the deposits of commits, before 2.0.
    pub deposits: HashSet<OutputPointer>,
    reveals: HashSet<Hash>,
}
impl Waiting {
    fn spending(&mut self, kind: usize, tx: Transaction, inputs: &[Input], fee: Result<u64, anyhow::Error>, weight: u32) {
        // Nothing that depends on what is not in a block yet gets into the pool.
        if inputs.iter().any(|i| self.deposits.contains(i.output_pointer())) {
            return;
        }
        if let Ok(fee) = fee {
            let hash = tx.hash();
            if !self.pool.contains(&tx).unwrap() {
                self.spends[kind].insert(hash, (inputs.iter().map(|i| *i.output_pointer()).collect(), fee, weight));
                // Those the pool does not want.
                for refused in self.pool.insert(tx, fee) {
                    self.spends[kind].remove(&refused.hash());
                }
            }
        }
    }
    pub fn offer(&mut self, sim: &Sim, plan: &Plan) {
        let diff = UtxoDiff::new(&sim.base, sim.block);
        let x = &plan.txns;
        for tx in &x.value_transfer_txns {
            let fee = vt_transaction_fee(tx, &diff, sim.e, epochs());
            self.spending(0, Transaction::ValueTransfer(tx.clone()), &tx.body.inputs, fee, 133 * tx.body.inputs.len() as u32 + 360 * tx.body.outputs.len() as u32);
        }
        for tx in &x.data_request_txns {
            let fee = dr_transaction_fee(tx, &diff, sim.e, epochs());
            let weight = request_weight(&tx.body.dr_output, tx.body.inputs.len(), tx.body.outputs.len()) as u32;
            self.spending(1, Transaction::DataRequest(tx.clone()), &tx.body.inputs, fee, weight);
        }
        for tx in &x.stake_txns {
            let fee = st_transaction_fee(tx, &diff, sim.e, epochs());
            self.spending(2, Transaction::Stake(tx.clone()), &tx.body.inputs, fee, tx.weight());
            self.stakes.insert(tx.hash(), tx.clone());
        }
        for tx in &x.unstake_txns {
            if self.unstakes.insert(tx.hash(), tx.clone()).is_none() {
                self.pool.insert(Transaction::Unstake(tx.clone()), tx.body.fee);
            }
        }
        for tx in &x.commit_txns {
            let t = Transaction::Commit(tx.clone());
            if matches!(self.pool.contains(&t), Ok(false)) {
                self.commits.insert(tx.hash());
                self.pool.insert(t, 0);
            }
        }
        for tx in &x.reveal_txns {
            let t = Transaction::Reveal(tx.clone());
            if matches!(self.pool.contains(&t), Ok(false)) {
                self.reveals.insert(tx.hash());
                self.pool.insert(t, 0);
            }
        }
    }
}

fn validated(sim: &Sim, requests: &mut DataRequestPool, block: &Block, constants: &ConsensusConstants) -> Result<(), String> {
    validate_block_transactions(&sim.base, requests, block, CheckpointVRF::default(), &mut vec![], &sim.rep, epochs(), sim.block, constants, &wit2(), &wips(13, sim.e), None, &sim.stakes)
        .map(|_| ())
        .map_err(|e| e.to_string())
}

fn share_deposit(t: &mut Tape, sim: &Sim, plan: &mut Plan) -> bool {
    let value: HashMap<OutputPointer, u64> = plan.coins.iter().map(|c| (c.ptr, c.value)).collect();
    let mut pairs = vec![];
    for (i, a) in plan.commits.iter().enumerate() {
        for (j, b) in plan.commits.iter().enumerate() {
            let sum: u64 = plan.txns.commit_txns[j].body.collateral.iter().map(|x| value[x.output_pointer()]).sum();
            if a.0 != b.0 && a.1 == b.1 && sum >= sim.drs[a.0].deposit() {
                pairs.push((i, j, a.1, sum - sim.drs[a.0].deposit()));
            }
        }
    }
    if pairs.is_empty() {
        return false;
    }
    let (i, j, who, change) = *t.pick(&pairs);
    let inputs = plan.txns.commit_txns[j].body.collateral.clone();
    let change = if change > 0 { vec![ValueTransferOutput { pkh: key(who).pkh, value: change, time_lock: 0 }] } else { vec![] };
    let old = &plan.txns.commit_txns[i].body;
    let body = CommitTransactionBody::new(old.dr_pointer, old.commitment, old.proof.clone(), inputs, change, None);
    let hash = body.hash();
    plan.txns.commit_txns[i] = CommitTransaction::new(body, vec![sign_hash(who, hash)]);
    true
}

fn mined(t: &mut Tape, sim: &Sim, plan: &Plan, o: &mut Obs) -> Result<(), String> {
    let (e, v2) = (sim.e, sim.e >= V2_0);
    let validators = sim.stakes.validator_count();
    let mut w = Waiting::default();
    w.pool.set_collateral_minimum(constants().collateral_minimum);
    w.pool.set_required_reward_collateral_ratio(witnet_config::defaults::PSEUDO_CONSENSUS_CONSTANTS_WIP0022_REWARD_COLLATERAL_RATIO);
    // A witness puts down one deposit for two requests: only one of them gets its commits.
    let mut plan = plan.clone();
    let shared = !v2 && t.odds(90) && share_deposit(t, sim, &mut plan);
    let plan = &plan;
    let deposits: HashSet<OutputPointer> = plan.txns.commit_txns.iter().flat_map(|x| &x.body.collateral).map(|i| *i.output_pointer()).collect();
    let set_aside = !t.odds(30);
    if set_aside {
        w.deposits = deposits.clone();
    }
    w.offer(sim, plan);
    for _ in 0..t.below(3) {
        let mut other = sim.plan(t);
        // The witnesses of a request are those of one plan: their deposits are to be available.
        other.txns.commit_txns.clear();
        w.offer(sim, &other);
    }
    // Deposits of requests from before 2.0 are outputs; wallets set them aside.
    let ready: Vec<TallyTransaction> = plan.txns.tally_txns.iter().filter(|x| sim.drs.iter().any(|d| d.hash == x.dr_pointer)).cloned().collect();
    let mut c = constants();
    let sum = |k: usize| w.spends[k].values().map(|x| x.2).sum::<u32>();
    let (vt_total, dr_total) = (sum(0), sum(1));
    if t.bool() {
        c.max_vt_weight = t.range(0, u64::from(vt_total) + 1000) as u32;
        c.max_dr_weight = t.range(0, u64::from(dr_total + plan.dr_weight)) as u32;
    }
    let external = t.bool().then(|| key(3).pkh);
    let header = sim.header(&plan.txns);
    let mut own = sim.pool.clone();
    let (header, txns) = build_block(
        (&mut w.pool, &sim.base, &mut own),
        c.max_vt_weight,
        c.max_dr_weight,
        header.beacon,
        header.proof,
        &ready,
        key(2).pkh,
        epochs(),
        sim.block,
        c.collateral_minimum,
        None,
        external,
        t.range(0, 100) as u8,
        c.initial_block_reward,
        c.checkpoint_zero_timestamp,
        c.halving_period,
        t.below(16) as u32,
        &wips(13, e),
        Some(validators),
        &sim.stakes,
        &wit2(),
    );
    let block = Block::new(header, KeyedSignature::default(), txns.clone());
    let taken = txns.value_transfer_txns.iter().flat_map(|x| &x.body.inputs).chain(txns.data_request_txns.iter().flat_map(|x| &x.body.inputs)).chain(txns.stake_txns.iter().flat_map(|x| &x.body.inputs)).any(|i| deposits.contains(i.output_pointer()));
    ensure!(set_aside || !taken || validated(sim, &mut sim.pool.clone(), &block, &c).is_ok(), "a transfer and the deposit of a commit of one block spend the same output");
    validated(sim, &mut sim.pool.clone(), &block, &c).map_err(|x| format!("the block made at epoch {e} is refused: {x}: {txns:?}"))?;
    validated(sim, &mut own, &block, &c).map_err(|x| format!("the block made at epoch {e} is refused by its maker: {x}: {txns:?}"))?;

    // Nothing but what was waiting.
    let spent: HashSet<OutputPointer> = txns
        .value_transfer_txns
        .iter()
        .flat_map(|x| &x.body.inputs)
        .chain(txns.data_request_txns.iter().flat_map(|x| &x.body.inputs))
        .chain(txns.stake_txns.iter().flat_map(|x| &x.body.inputs))
        .chain(txns.commit_txns.iter().flat_map(|x| &x.body.collateral))
        .map(|i| *i.output_pointer())
        .collect();
    let hashes = |v: Vec<Hash>| v.into_iter().collect::<HashSet<Hash>>();
    let got = [
        hashes(txns.value_transfer_txns.iter().map(|x| x.hash()).collect()),
        hashes(txns.data_request_txns.iter().map(|x| x.hash()).collect()),
        hashes(txns.stake_txns.iter().map(|x| x.hash()).collect()),
    ];
    for (k, g) in got.iter().enumerate() {
        ensure!(g.iter().all(|h| w.spends[k].contains_key(h)), "something that was not waiting is in the block");
    }
    let unstaked = hashes(txns.unstake_txns.iter().map(|x| x.hash()).collect());
    ensure!(unstaked.iter().all(|h| w.unstakes.contains_key(h)), "an unstake that was not waiting");
    ensure!(txns.commit_txns.iter().all(|x| w.commits.contains(&x.hash())), "a commit that was not waiting");
    ensure!(txns.reveal_txns.iter().all(|x| w.reveals.contains(&x.hash())), "a reveal that was not waiting");

    // Nothing left out without a reason.
    let weight = |k: usize| got[k].iter().map(|h| w.spends[k][h].2).sum::<u32>();
    let committed: HashSet<Hash> = txns.commit_txns.iter().map(|x| x.body.dr_pointer).collect();
    let open: u32 = sim.drs.iter().filter(|d| matches!(d.stage, Stage::Commit(_)) && !committed.contains(&d.hash)).map(|d| request_weight(&d.output, 0, 0) as u32).sum();
    let limits = [(weight(0), c.max_vt_weight), (open + weight(1), c.max_dr_weight), (weight(2), 10_000_000)];
    let mut missed = 0;
    for k in 0..3 {
        for (h, (inputs, fee, size)) in &w.spends[k] {
            if got[k].contains(h) {
                continue;
            }
            missed += 1;
            let conflict = inputs.iter().any(|i| spent.contains(i));
            // One without outputs, which is smaller than others, may be left out sooner.
            let heavy = limits[k].0 + (*size).max(if k == 0 { 493 } else { 0 }) > limits[k].1;
            if k == 2 {
                let s = &w.stakes[h];
                let twice = txns.stake_txns.iter().any(|x| x.body.output.key.validator == s.body.output.key.validator);
                let max = wit2().get_maximum_stake_block_weight(e);
                ensure!(conflict || twice || e < V1_8 || limits[k].0 + size > max, "a stake was left out for no reason: {s:?} beside {:?}", txns.stake_txns);
                continue;
            }
            ensure!(conflict || heavy, "left out for no reason, kind {k}: {h} of fee {fee} and weight {size}, limit {:?}", limits[k]);
            if k == 0 && vt_total + 493 <= c.max_vt_weight {
                // Of those that exclude each other, the better paid.
                #[allow(clippy::cast_precision_loss)]
                let price = |x: &(Vec<OutputPointer>, u64, u32)| x.1 as f64 / f64::from(x.2);
                let better = got[0].iter().map(|g| &w.spends[0][g]).any(|x| x.0.iter().any(|i| inputs.contains(i)) && price(x) >= price(&w.spends[0][h]));
                ensure!(better, "the worse paid of two transfers was preferred to {h} of fee {fee}");
                o.label("one of two that exclude each other");
            }
        }
    }
    if v2 {
        for (h, x) in &w.unstakes {
            let twice = txns.unstake_txns.iter().any(|y| y.body.operator == x.body.operator);
            ensure!(twice || unstaked.contains(h), "an unstake was left out for no reason: {x:?}");
        }
    }
    // Requests get all their commits, or none.
    for d in &sim.drs {
        let waiting = plan.txns.commit_txns.iter().filter(|x| x.body.dr_pointer == d.hash).count();
        let n = txns.commit_txns.iter().filter(|x| x.body.dr_pointer == d.hash).count();
        ensure!(n == 0 || n == usize::from(d.output.witnesses), "{n} commits of {d:?}");
        ensure!(waiting < usize::from(d.output.witnesses) || n > 0 || shared, "the commits of {d:?} were left out");
    }
    ensure_eq!(txns.reveal_txns.len(), w.reveals.len(), "reveals");
    // Tallies: those given, and of the new requests that cannot be resolved.
    let hopeless = txns.data_request_txns.iter().filter(|x| too_many(x.body.dr_output.witnesses, validators, e)).count();
    ensure_eq!(txns.tally_txns.len(), ready.len() + hopeless, "tallies");
    let fees: HashMap<Hash, u64> = w.spends.iter().flatten().map(|(h, x)| (*h, x.1)).collect();
    o.label_if(shared, "one deposit for two requests");
    o.label_if(missed > 0, "something left out");
    o.label_if(hopeless > 0, "too many witnesses");
    o.label_if(!fees.is_empty() && limits[0].1 < vt_total, "transfers do not fit");
    Ok(())
}

/// A chain, and at every block of it what a node would have made instead.
fn chain(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let e = match t.below(8) {
        0 => V1_8 - 1 - t.below(6) as u32,
        1 | 2 => V2_0 - 1 - t.below(10) as u32,
        3 => 1_200_000 + t.below(1_000_000) as u32,
        4 => V1_8 + t.below(50_000) as u32,
        _ => V2_0 + t.below(1_000_000) as u32,
    };
    let mut sim = Sim::new(t, e);
    let mut sizes = [0; 7];
    for _ in 0..2 + t.below(8) {
        let plan = sim.plan(t);
        let x = &plan.txns;
        let n = [x.value_transfer_txns.len(), x.data_request_txns.len(), x.commit_txns.len(), x.reveal_txns.len(), x.tally_txns.len(), x.stake_txns.len(), x.unstake_txns.len()];
        sizes.iter_mut().zip(n).for_each(|(a, b)| *a += b);
        mined(t, &sim, &plan, o)?;
        let block = Block::new(sim.header(x), KeyedSignature::default(), x.clone());
        let (got, _) = sim.validate(&block, &constants());
        let (diff, _) = got?;
        sim.apply(&block, &plan, diff)?;
        sim.block += 1;
        sim.e += 1 + if t.odds(40) { t.below(4) as u32 } else { 0 };
        sim.next_coin += 1;
    }
    o.label(if sim.e < V1_8 { "1.7" } else if sim.e < V2_0 { "1.8" } else { "2.0" });
    o.nontrivial_if(sizes[..5].iter().all(|n| *n > 0));
    o.show(|| format!("transfers, requests, commits, reveals, tallies, stakes, unstakes: {sizes:?}"));
    Ok(())
}

#[allow(unused)]
fn unused(_: &Request) {}

pub fn c44(c: &mut Check) {
    c.sub("what a node makes of what is waiting is a valid block", "all five basic kinds of transaction in the chain", 10_000, 300_000, || long_tapes(4000), |b, o| chain(&mut b.tape(), o));
}
