//! C37: the transactions that a node builds out of its own unspent outputs.
use crate::{base::*, spend::*};
use std::{cell::RefCell, collections::BTreeMap};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_data_structures::{
    chain::*,
    error::TransactionError,
    fee::Fee,
    proto::versioning::VersionedHashable,
    staking::helpers::StakeKey,
    transaction::*,
    transaction_factory::*,
    utxo_pool::{OwnUnspentOutputsPool, UnspentOutputsPool, UtxoDiff, UtxoSelectionStrategy},
    wit::Wit,
};
use witnet_validations::validations::*;

type R = Result<(), String>;

const STAKE: u32 = 105;

struct Node {
    coins: Vec<Coin>,
    /// In which block an output is.
    block: BTreeMap<OutputPointer, u32>,
    /// Until when an output of our own is set aside.
    used: BTreeMap<OutputPointer, u64>,
    all: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
}
impl Node {
    fn new(t: &mut Tape, now: u64) -> Node {
        let n = match t.below(6) {
            0 => t.below(3),
            1 => 30 + t.below(60),
            _ => 3 + t.below(14),
        };
        let scale = *t.pick(&[1, WIT / 10, WIT, 1000 * WIT]);
        let mut m = Node {
            coins: vec![],
            block: BTreeMap::new(),
            used: BTreeMap::new(),
            all: UnspentOutputsPool::default(),
            own: OwnUnspentOutputsPool::default(),
        };
        for i in 0..n {
            let value = match t.below(6) {
                0 => 0,
                1 => scale,
                2 => t.range(1, 100 * scale),
                _ => t.range(1, 10 * scale),
            };
            let lock = match t.below(12) {
                11 => now + 1,
                10 => now,
                9 => now + t.range(1, 200),
                8 => now - 1,
                _ => 0,
            };
            let c = Coin { ptr: ptr(1 + (i / 3) as u8, (i % 3) as u32), owner: usize::from(t.odds(40)), value, lock, live: true, fresh: false };
            let block = t.below(12) as u32;
            m.all.insert(c.ptr, c.vto(), block);
            m.block.insert(c.ptr, block);
            if c.owner == 0 {
                m.own.insert(c.ptr, 0);
                m.used.insert(c.ptr, 0);
            }
            m.coins.push(c);
        }
        m
    }
    fn mine(&self) -> impl Iterator<Item = &Coin> {
        self.coins.iter().filter(|c| c.owner == 0)
    }
    /// What can be spent now, out of blocks up to `limit`.
    fn open(&self, now: u64, limit: Option<u32>) -> BTreeMap<OutputPointer, u64> {
        self.mine()
            .filter(|c| c.lock <= now && self.used[&c.ptr] <= now && limit.is_none_or(|l| self.block[&c.ptr] <= l))
            .map(|c| (c.ptr, c.value))
            .collect()
    }
    fn kept_aside(&self) -> R {
        let got: BTreeMap<_, _> = self.own.iter().map(|(p, t)| (*p, *t)).collect();
        ensure_eq!(got, self.used, "outputs that are set aside, and until when");
        Ok(())
    }
}

/// What was wanted.
struct Want<'a> {
    outputs: u128,
    fee: Fee,
    now: u64,
    limit: Option<u32>,
    strategy: &'a UtxoSelectionStrategy,
    max_weight: u32,
    /// Weight with so many inputs, and with change or not.
    weight: &'a dyn Fn(usize, bool) -> u64,
    /// Set where a known defect shows, so that the rest of the history is still looked at.
    late: &'a RefCell<Option<String>>,
}
impl Want<'_> {
    fn fee(&self, inputs: usize) -> u64 {
        match self.fee {
            Fee::Absolute(f) => f.as_nanowits(),
            Fee::Relative(_) => relative(&self.fee, (self.weight)(inputs, true)),
        }
    }
}
/// A price per unit of weight; never a fraction of a nanowit, rounded down.
fn relative(fee: &Fee, weight: u64) -> u64 {
    let text = serde_json::to_value(fee).unwrap();
    let p = text["relative"].as_f64().unwrap_or(f64::NAN);
    (p * weight as f64) as u64
}

/// Checks inputs and change; gives the inputs.
fn funded(m: &Node, w: &Want, inputs: &[Input], change: Option<&ValueTransferOutput>, o: &mut Obs) -> R {
    let open = m.open(w.now, w.limit);
    let mut values = vec![];
    let mut seen = std::collections::BTreeSet::new();
    for i in inputs {
        let p = i.output_pointer();
        let Some(v) = open.get(p) else {
            return Err(format!("{p} cannot be spent at {}: {:?}, aside until {:?}", w.now, m.coins.iter().find(|c| c.ptr == *p).map(|c| (c.owner, c.lock)), m.used.get(p)));
        };
        ensure!(seen.insert(*p), "{p} is spent twice");
        values.push(*v);
    }
    ensure!(w.strategy.get_from().is_none_or(|f| f == key(0).pkh), "built, though only {:?} was to pay", w.strategy.get_from());
    let sum: u128 = values.iter().map(|v| u128::from(*v)).sum();
    let amount = w.outputs + u128::from(w.fee(inputs.len()));
    ensure!(amount > 0, "a transaction over nothing");
    let left = sum.checked_sub(amount).ok_or_else(|| format!("inputs of {sum} for {amount}"))?;
    let want = (left > 0).then(|| ValueTransferOutput { pkh: key(0).pkh, value: left as u64, time_lock: 0 });
    ensure_eq!(change, want.as_ref(), "change: {sum} for outputs of {} and fee {}", w.outputs, w.fee(inputs.len()));
    // No more inputs than needed, and in the order that was asked for.
    let spare = match w.strategy {
        UtxoSelectionStrategy::Random { .. } => values.iter().copied().max(),
        _ => values.last().copied(),
    };
    ensure!(sum - u128::from(spare.unwrap_or(0)) < amount, "one input more than needed: {values:?} for {amount}");
    let mut all: Vec<u64> = open.values().copied().collect();
    all.sort_unstable();
    match w.strategy {
        UtxoSelectionStrategy::BigFirst { .. } => {
            all.reverse();
            ensure_eq!(values, all[..values.len()].to_vec(), "the biggest outputs first");
        }
        UtxoSelectionStrategy::SmallFirst { .. } => ensure_eq!(values, all[..values.len()].to_vec(), "the smallest outputs first"),
        UtxoSelectionStrategy::Random { .. } => {}
    }
    let weight = (w.weight)(inputs.len(), change.is_some());
    if weight > u64::from(w.max_weight) && matches!(w.fee, Fee::Absolute(_)) && inputs.len() > 1 && (w.weight)(1, true) <= u64::from(w.max_weight) {
        o.label("too heavy, with an absolute fee");
        w.late.replace(Some(format!("with an absolute fee, only one input is weighed: weight {weight}, at most {} allowed", w.max_weight)));
    } else {
        ensure!(weight <= u64::from(w.max_weight), "weight {weight}, at most {} allowed", w.max_weight);
    }
    o.nontrivial_if(inputs.len() > 1 && open.len() < m.coins.len());
    o.label("built");
    o.label_if(inputs.len() > 1, "several inputs");
    o.label_if(change.is_none(), "no change");
    o.label_if(matches!(w.fee, Fee::Relative(_)) && inputs.len() > 1, "a fee by weight, several inputs");
    Ok(())
}

/// Checks that there was a reason not to build it.
fn refused(m: &Node, w: &Want, e: &TransactionError, o: &mut Obs) -> R {
    let allowed = w.strategy.get_from().is_none_or(|f| f == key(0).pkh);
    let mut open: Vec<u64> = if allowed { m.open(w.now, w.limit).into_values().collect() } else { vec![] };
    let all: u64 = if allowed { m.mine().map(|c| c.value).sum() } else { 0 };
    let available: u128 = open.iter().map(|v| u128::from(*v)).sum();
    let fees: Vec<u64> = (1..=open.len().max(1)).map(|n| w.fee(n)).collect();
    match e {
        TransactionError::NoMoney { total_balance, available_balance, transaction_value } => {
            ensure_eq!(*total_balance, all, "balance");
            ensure_eq!(u128::from(*available_balance), available, "balance that can be spent");
            ensure!(fees.iter().any(|f| w.outputs + u128::from(*f) == u128::from(*transaction_value)), "value {transaction_value}: outputs {} fees {fees:?}", w.outputs);
            ensure!(available < u128::from(*transaction_value), "refused, though there are {available} for {transaction_value}");
            o.label("not enough");
        }
        TransactionError::ZeroAmount => {
            ensure!(w.outputs == 0 && fees.contains(&0), "not over nothing: {} and {fees:?}", w.outputs);
            o.label("over nothing");
        }
        TransactionError::FeeOverflow | TransactionError::OutputValueOverflow => {
            ensure!(fees.iter().any(|f| w.outputs + u128::from(*f) > u128::from(u64::MAX)), "no overflow: {} and {fees:?}", w.outputs);
            o.label("more than there can be");
        }
        TransactionError::ValueTransferWeightLimitExceeded { .. }
        | TransactionError::DataRequestWeightLimitExceeded { .. }
        | TransactionError::StakeWeightLimitExceeded { .. } => {
            // The most inputs that it can take: the smallest outputs, and the last one any of the others.
            let want = w.outputs + u128::from(*fees.iter().max().unwrap_or(&0));
            if matches!(w.strategy, UtxoSelectionStrategy::BigFirst { .. }) {
                open.sort_unstable_by(|a, b| b.cmp(a));
            } else {
                open.sort_unstable();
            }
            let mut n = 0;
            let mut sum = 0;
            while n < open.len() && sum < want {
                sum += u128::from(open[n]);
                n += 1;
            }
            let weight = (w.weight)(n.max(1), true);
            ensure!(weight > u64::from(w.max_weight), "refused with a weight of at most {weight}, and {} allowed", w.max_weight);
            o.label("too heavy");
        }
        e => return Err(format!("refused: {e}")),
    }
    Ok(())
}

fn fee(t: &mut Tape) -> Fee {
    match t.below(8) {
        0 => Fee::absolute_from_nanowits(0),
        1 => Fee::absolute_from_nanowits(t.range(1, 1_000_000)),
        2 => Fee::absolute_from_nanowits(t.range(1, 10 * WIT)),
        3 => Fee::absolute_from_nanowits(t.u64()),
        4 => Fee::relative_from_float(0.0),
        5 => Fee::relative_from_float(1.0),
        6 => Fee::relative_from_float(t.range(1, 1_000_000) as f64 / 1000.0),
        _ => Fee::relative_from_float(*t.pick(&[0.1, 1e6, 1e9, 123.456, 1e30])),
    }
}

fn history(t: &mut Tape, o: &mut Obs) -> R {
    protocol();
    let e = epoch(t, 2);
    let mut now = time(e) as u64;
    let mut m = Node::new(t, now);
    let timeout = *t.pick(&[0, 1, 60, 3600]);
    let late = RefCell::new(None);
    let own = key(0).pkh;
    for _ in 0..1 + t.below(5) {
        let from = match t.below(8) {
            0 => Some(own),
            1 => Some(key(1).pkh),
            _ => None,
        };
        let strategy = match t.below(3) {
            0 => UtxoSelectionStrategy::BigFirst { from },
            1 => UtxoSelectionStrategy::SmallFirst { from },
            _ => UtxoSelectionStrategy::Random { from },
        };
        let open = m.open(now, None);
        let budget: u64 = open.values().sum();
        let dry = t.odds(60);
        let fee = fee(t);
        let kind = t.below(7);
        // The whole of what there is, give or take, or a part of it.
        let amount = |t: &mut Tape| match t.below(6) {
            0 => budget,
            1 => budget.saturating_add(1),
            2 => open.values().next().copied().unwrap_or(1),
            3 => t.u64(),
            _ => t.range(0, budget),
        };
        let (inputs, ok): (Vec<Input>, bool) = match kind {
            0..=2 => {
                let total = amount(t);
                let mut outs: Vec<ValueTransferOutput> = vec![];
                let mut left = total;
                let n = if t.odds(20) { 50 } else { 1 + t.below(3) };
                for i in 0..n {
                    let v = if i + 1 == n { left } else { t.range(0, left) / 2 };
                    left -= v;
                    outs.push(ValueTransferOutput { pkh: key(2 + i % 4).pkh, value: v, time_lock: if t.odds(20) { t.u64() } else { 0 } });
                }
                if t.odds(12) {
                    outs.push(ValueTransferOutput { pkh: key(2).pkh, value: u64::MAX, time_lock: 0 });
                }
                if t.odds(12) {
                    outs.clear();
                }
                let outs_n = outs.len();
                let weight = move |n: usize, change: bool| 133 * n as u64 + 360 * (outs_n as u64 + u64::from(change));
                let max_weight = if t.odds(60) { weight(1 + t.below(4), t.bool()) as u32 } else { 20_000 };
                // More than 2^64 counts as just that.
                let sum = outs.iter().map(|x| u128::from(x.value)).sum::<u128>().min(u128::from(u64::MAX));
                let w = Want { outputs: sum, fee, now, limit: None, strategy: &strategy, max_weight, weight: &weight, late: &late };
                match build_vtt(outs.clone(), fee, &mut m.own, own, &m.all, now, timeout, &strategy, max_weight, dry) {
                    Ok(tx) => {
                        ensure_eq!(tx.outputs[..outs.len()], outs[..], "outputs");
                        ensure!(tx.outputs.len() <= outs.len() + 1, "{} outputs for {}", tx.outputs.len(), outs.len());
                        funded(&m, &w, &tx.inputs, tx.outputs.get(outs.len()), o)?;
                        ensure_eq!(u64::from(tx.weight()), weight(tx.inputs.len(), tx.outputs.len() > outs.len()), "weight");
                        if tx.outputs.iter().all(|x| x.value > 0) && tx.weight() <= max_weight {
                            // The network takes it.
                            let e = epoch_at(e, now);
                            let s = tx.inputs.iter().map(|_| sign_hash(0, tx.versioned_hash(version(e)))).collect();
                            let vt = VTTransaction::new(tx.clone(), s);
                            let got = standalone(&Transaction::ValueTransfer(vt), &m.all, e, max_weight, 80_000, 13);
                            ensure_eq!(got, Ok(w.fee(tx.inputs.len())), "fee for the network");
                            o.label("taken by the network");
                        }
                        (tx.inputs, true)
                    }
                    Err(e) => {
                        refused(&m, &w, &e, o)?;
                        (vec![], false)
                    }
                }
            }
            3 => {
                let total = amount(t);
                let (mut r, fine) = request(t, total, 13, o);
                if t.odds(200) {
                    // One that can be paid.
                    r.witness_reward = (total / u64::from(r.witnesses.max(1))).saturating_sub(r.commit_and_reveal_fee.saturating_mul(2)).max(WIT / 125);
                }
                let one = r.clone();
                let weight = move |n: usize, change: bool| request_weight(&one, n, usize::from(change));
                let max_weight = if t.odds(60) { u32::try_from(weight(1 + t.below(4), t.bool())).unwrap_or(80_000) } else { 80_000 };
                let random = UtxoSelectionStrategy::Random { from: None };
                let cost = request_cost(&r).map_or(u128::from(u64::MAX), u128::from);
                // One that costs more than 2^64 is as good as one that costs just that.
                let w = Want { outputs: cost, fee, now, limit: None, strategy: &random, max_weight, weight: &weight, late: &late };
                match build_drt(r.clone(), fee, &mut m.own, own, &m.all, now, timeout, max_weight, dry) {
                    Ok(tx) => {
                        ensure_eq!(tx.dr_output, r, "request");
                        ensure!(tx.outputs.len() <= 1, "{} outputs", tx.outputs.len());
                        funded(&m, &w, &tx.inputs, tx.outputs.first(), o)?;
                        ensure!(request_cost(&r).is_some(), "built for more than 2^64");
                        let e = epoch_at(e, now);
                        let s = tx.inputs.iter().map(|_| sign_hash(0, tx.versioned_hash(version(e)))).collect();
                        let dr = DRTransaction::new(tx.clone(), s);
                        if fine && tx.weight() <= max_weight && u128::from(if r.collateral == 0 { WIT } else { r.collateral }) <= 125 * u128::from(r.witness_reward) && r.witness_reward > 0 {
                            let got = standalone(&Transaction::DataRequest(dr), &m.all, e, 20_000, max_weight, 13);
                            ensure_eq!(got, Ok(w.fee(tx.inputs.len())), "fee for the network");
                            o.label("a request taken by the network");
                        }
                        (tx.inputs, true)
                    }
                    Err(e) => {
                        refused(&m, &w, &e, o)?;
                        (vec![], false)
                    }
                }
            }
            4 | 5 => {
                let value = amount(t);
                let out = StakeOutput {
                    value,
                    authorization: sign_hash(3, Hash::SHA256([9; 32])),
                    key: StakeKey { validator: key(3).pkh, withdrawer: own },
                };
                let weight = |n: usize, change: bool| u64::from(STAKE) + 133 * n as u64 + 36 * u64::from(change);
                let max_weight = if t.odds(60) { weight(1 + t.below(4), t.bool()) as u32 } else { 10_000_000 };
                let w = Want { outputs: u128::from(value), fee, now, limit: None, strategy: &strategy, max_weight, weight: &weight, late: &late };
                match build_st(out.clone(), fee, &mut m.own, own, &m.all, now, timeout, &strategy, max_weight, dry) {
                    Ok(tx) => {
                        ensure_eq!(tx.output, out, "what is staked");
                        funded(&m, &w, &tx.inputs, tx.change.as_ref(), o)?;
                        ensure_eq!(u64::from(tx.weight()), weight(tx.inputs.len(), tx.change.is_some()), "weight");
                        (tx.inputs, true)
                    }
                    Err(e) => {
                        refused(&m, &w, &e, o)?;
                        (vec![], false)
                    }
                }
            }
            _ => {
                // Collateral: the fee is what is put up.
                let limit = t.below(13) as u32;
                let mature: u64 = m.open(now, Some(limit)).values().sum();
                let put = match t.below(4) {
                    0 => mature,
                    1 => mature.saturating_add(1),
                    2 => t.range(0, mature),
                    _ => WIT,
                };
                let wit = Wit::from_nanowits(put);
                let small = UtxoSelectionStrategy::SmallFirst { from: None };
                let weight = |_: usize, _: bool| 0;
                let w = Want { outputs: 0, fee: Fee::absolute_from_nanowits(put), now, limit: Some(limit), strategy: &small, max_weight: u32::MAX, weight: &weight, late: &late };
                let could = check_commit_collateral(wit, &m.own, own, &m.all, now, limit);
                ensure_eq!(could, put > 0 && put <= mature && budget >= 100 * WIT, "whether collateral of {put} can be put up, with {mature} of {budget} old enough");
                m.kept_aside()?;
                match build_commit_collateral(wit, &mut m.own, own, &m.all, now, timeout, limit) {
                    Ok((inputs, outs)) => {
                        ensure!(outs.len() <= 1, "{} outputs", outs.len());
                        funded(&m, &w, &inputs, outs.first(), o)?;
                        o.label("collateral");
                        for i in &inputs {
                            m.used.insert(*i.output_pointer(), now + timeout);
                        }
                        (inputs, false)
                    }
                    Err(e) => {
                        refused(&m, &w, &e, o)?;
                        (vec![], false)
                    }
                }
            }
        };
        if ok && !dry {
            for i in &inputs {
                m.used.insert(*i.output_pointer(), now + timeout);
            }
        }
        o.label_if(ok && dry, "not for real");
        m.kept_aside()?;
        balances(&m, now)?;
        let steps: [u64; 5] = [0, timeout / 2, timeout.saturating_sub(1), timeout, timeout + 1];
        now += *t.pick(&steps);
        now += t.range(0, 100) * u64::from(t.odds(60));
        // Some of what was set aside gets spent in the end.
        if t.odds(60) && !inputs.is_empty() {
            let p = *inputs[0].output_pointer();
            m.coins.retain(|c| c.ptr != p);
            m.used.remove(&p);
            m.own.remove(&p);
            m.all.remove(&p);
        }
    }
    late.into_inner().map_or(Ok(()), Err)
}

/// The first epoch from `e` on that starts at `now` or later.
fn epoch_at(e: u32, now: u64) -> u32 {
    (e..).find(|e| time(*e) as u64 >= now).unwrap_or(e)
}

fn balances(m: &Node, now: u64) -> R {
    for owner in 0..3 {
        let pkh = key(owner).pkh;
        let of = |f: &dyn Fn(&Coin) -> bool| m.coins.iter().filter(|c| c.owner == owner && f(c)).map(|c| c.value).sum::<u64>();
        let total = of(&|_| true);
        ensure_eq!(get_total_balance(&m.all, pkh, true), NodeBalance::One { confirmed: None, total }, "balance of {owner}");
        let b = get_total_balance(&m.all, pkh, false);
        ensure_eq!(b.get_total(), Some(Wit::from_nanowits(total)), "balance of {owner}");
        let b = get_utxos_balance(&m.all, pkh, now);
        let want = NodeBalance2::One { locked: of(&|c| c.lock > now), unlocked: of(&|c| c.lock <= now), staked: 0 };
        ensure_eq!(b, want, "balance of {owner} at {now}");
        ensure_eq!(b.get_total(), Some(Wit::from_nanowits(total)), "balance of {owner}");
    }
    ensure_eq!(m.own.get_balance(&m.all), m.mine().map(|c| c.value).sum::<u64>(), "own balance");
    Ok(())
}

/// Sums of inputs and outputs.
fn sums(t: &mut Tape, o: &mut Obs) -> R {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era);
    let now = time(e);
    let coins = coins(t, now, true);
    let v = pick_inputs(t, &coins, now, o);
    let p = pool(&coins);
    let d: UtxoDiff = view(&p, &coins, 50);
    let want = input_value(&v, &coins, now);
    let got = transaction_inputs_sum(&inputs_of(&v, &coins), &d, e, epochs());
    ensure_eq!(got.as_ref().ok().copied(), want, "sum of inputs: {got:?}");
    let outs: Vec<ValueTransferOutput> = coins.iter().map(Coin::vto).collect();
    let sum: u128 = outs.iter().map(|x| u128::from(x.value)).sum();
    ensure_eq!(transaction_outputs_sum(&outs).ok(), u64::try_from(sum).ok(), "sum of outputs");
    let as_fee = |f: Result<u64, anyhow::Error>| f.ok();
    let body = VTTransactionBody::new(inputs_of(&v, &coins), outs);
    let fee = want.and_then(|w| u128::from(w).checked_sub(sum)).map(|f| f as u64);
    ensure_eq!(as_fee(vt_transaction_fee(&VTTransaction::new(body, vec![]), &d, e, epochs())), fee, "fee");
    o.nontrivial_if(want.is_some() && v.len() > 1);
    Ok(())
}

fn shares(t: &mut Tape, o: &mut Obs) -> R {
    let reward = match t.below(4) {
        0 => t.range(0, 300),
        1 => t.range(1, 600) * 1_000_000_000,
        _ => t.u64() >> (7 + t.below(50)),
    };
    let any = t.below(101);
    let percent = *t.pick(&[0, 1, 50, 99, 100, any]) as u8;
    let own = PublicKeyHash::from_bytes(&[1; 20]).unwrap();
    let other = t.odds(220).then(|| PublicKeyHash::from_bytes(&[2; 20]).unwrap());
    let epoch = t.u32();
    let m = MintTransaction::with_external_address(epoch, reward, own, other, percent);
    let share = if other.is_some() { (u128::from(reward) * u128::from(percent) / 100) as u64 } else { 0 };
    let want: Vec<_> = [(Some(own), reward - share), (other, share)].into_iter().filter(|x| x.1 > 0).map(|x| ValueTransferOutput { pkh: x.0.unwrap(), value: x.1, time_lock: 0 }).collect();
    ensure_eq!((m.epoch, &m.outputs), (epoch, &want), "{percent} % of {reward} for {other:?}");
    o.nontrivial_if(want.len() == 2);
    Ok(())
}

pub fn c37(c: &mut Check) {
    c.assume("the node signs what it built and checks it like a transaction of anybody else; here, the check signs it");
    c.sub(
        "transactions built one after another, from outputs that are locked, young or set aside",
        "several inputs, while some outputs cannot be spent",
        16_000,
        200_000,
        || long_tapes(500),
        |b, o| history(&mut b.tape(), o),
    );
    c.sub("a reward that is shared", "both get something", 20_000, 500_000, || tapes(40), |b, o| shares(&mut b.tape(), o));
    c.sub("sums of inputs and outputs", "two inputs or more that can be spent together", 10_000, 100_000, || long_tapes(300), |b, o| sums(&mut b.tape(), o));
}
