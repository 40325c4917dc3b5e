//! C22: who may spend what. Value transfers and data requests against a u128 reference.
use crate::base::*;
use std::collections::BTreeSet;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    staking::prelude::StakesTracker,
    transaction::*,
    utxo_pool::{UnspentOutputsPool, UtxoDiff},
};
use witnet_validations::validations::*;

/// An output that exists, or existed, and who owns it.
#[derive(Clone)]
pub struct Coin {
    pub ptr: OutputPointer,
    pub owner: usize,
    pub value: u64,
    pub lock: u64,
    /// Still unspent from the point of view of the transaction.
    pub live: bool,
    /// Created by an earlier transaction of the same block.
    pub fresh: bool,
}

impl Coin {
    pub fn open(&self, now: i64) -> bool {
        self.live && i64::try_from(self.lock).is_ok_and(|l| l <= now)
    }
    pub fn vto(&self) -> ValueTransferOutput {
        ValueTransferOutput { pkh: key(self.owner).pkh, value: self.value, time_lock: self.lock }
    }
}

pub fn coins(t: &mut Tape, now: i64, big: bool) -> Vec<Coin> {
    let n = 4 + t.below(8);
    (0..n)
        .map(|i| {
            let value = match t.below(8) {
                0 if big => u64::MAX - t.below(4) as u64,
                1 if big => (1 << 63) + t.below(3) as u64,
                2 => 1 + t.below(4) as u64,
                3 => 0,
                _ => t.range(1, 50_000) * WIT + t.below(1000) as u64,
            };
            let now = now as u64;
            let lock = match t.below(16) {
                0 => now + 1,
                1 => now,
                2 => now.saturating_sub(1),
                3 => now + t.range(1, 1_000_000),
                4 => i64::MAX as u64 + t.below(2) as u64,
                5 => u64::MAX,
                _ => 0,
            };
            let spent = t.odds(24);
            Coin { ptr: ptr(100 + (i / 3) as u8, (i % 3) as u32), owner: t.below(5), value, lock, live: !spent, fresh: t.odds(60) }
        })
        .collect()
}

/// The pool before the block, and what the block did so far.
pub fn pool(coins: &[Coin]) -> UnspentOutputsPool {
    let mut p = UnspentOutputsPool::default();
    for (i, c) in coins.iter().enumerate() {
        if !c.fresh {
            p.insert(c.ptr, c.vto(), i as u32);
        }
    }
    p
}
pub fn view<'a>(p: &'a UnspentOutputsPool, coins: &[Coin], block: u32) -> UtxoDiff<'a> {
    let mut d = UtxoDiff::new(p, block);
    for c in coins {
        if c.fresh {
            d.insert_utxo(c.ptr, c.vto(), None);
        }
        if !c.live {
            d.remove_utxo(c.ptr);
        }
    }
    d
}

/// Inputs: indexes of coins, or none for an output that never existed.
pub fn pick_inputs(t: &mut Tape, coins: &[Coin], now: i64, o: &mut Obs) -> Vec<Option<usize>> {
    let mut open: Vec<usize> = (0..coins.len()).filter(|i| coins[*i].open(now)).collect();
    shuffle(t, &mut open);
    let n = (1 + t.below(5)).min(open.len()) * usize::from(!t.odds(8));
    let mut v: Vec<Option<usize>> = open[..n].iter().map(|i| Some(*i)).collect();
    match t.below(14) {
        13 => {
            let at = t.below(v.len() + 1);
            v.insert(at, None);
            o.label("input that never existed");
        }
        12 => {
            let at = t.below(v.len() + 1);
            v.insert(at, Some(t.below(coins.len())));
            o.label("any input");
        }
        11 if !v.is_empty() => {
            let d = v[t.below(v.len())];
            let at = t.below(v.len() + 1);
            v.insert(at, d);
            o.label("repeated input");
        }
        _ => {}
    }
    v
}

pub fn inputs_of(v: &[Option<usize>], coins: &[Coin]) -> Vec<Input> {
    v.iter().map(|i| Input::new(i.map_or(ptr(250, 7), |i| coins[i].ptr))).collect()
}

/// The sum of the inputs, if they can all be spent together.
pub fn input_value(v: &[Option<usize>], coins: &[Coin], now: i64) -> Option<u64> {
    let mut seen = BTreeSet::new();
    let mut sum = 0u128;
    for i in v {
        let c = &coins[(*i)?];
        if !c.open(now) || !seen.insert(c.ptr) {
            return None;
        }
        sum += u128::from(c.value);
    }
    u64::try_from(sum).ok()
}

/// Signatures for the inputs, and whether they are what they have to be.
pub fn signatures(t: &mut Tape, v: &[Option<usize>], coins: &[Coin], hash: Hash, o: &mut Obs) -> (Vec<KeyedSignature>, bool) {
    let owner = |i: &Option<usize>| i.map_or(0, |i| coins[i].owner);
    let mut sigs: Vec<KeyedSignature> = v.iter().map(|i| sign_hash(owner(i), hash)).collect();
    let mut good = true;
    if t.odds(100) {
        let n = sigs.len();
        let at = t.below(n.max(1));
        let kind = t.below(9);
        let what = match kind {
            0 if n > 0 => {
                sigs.remove(at);
                good = false;
                "signature missing"
            }
            1 => {
                sigs.push(sign_hash(t.below(5), hash));
                good = false;
                "signature too many"
            }
            2 if n > 0 => {
                let other = t.below(6);
                sigs[at] = sign_hash(other, hash);
                good = other == owner(&v[at]);
                "signed with another key"
            }
            3 if n > 0 => {
                sigs[at] = sign_hash(owner(&v[at]), Hash::SHA256(t.array()));
                good = false;
                "signature of something else"
            }
            4 if n > 0 => {
                let other = (owner(&v[at]) + 1 + t.below(4)) % 5;
                sigs[at].signature = sign_hash(other, hash).signature;
                good = false;
                "signature of another key under the owner's"
            }
            5 if n > 0 => {
                let Signature::Secp256k1(s) = &mut sigs[at].signature;
                let (i, bit) = (t.below(s.der.len()), t.below(8));
                s.der[i] ^= 1 << bit;
                good = false;
                "signature with a bit flipped"
            }
            6 if n > 0 => {
                let Signature::Secp256k1(s) = &mut sigs[at].signature;
                let l = t.below(s.der.len());
                s.der.truncate(l);
                good = false;
                "signature cut short"
            }
            7 if n > 1 => {
                let b = t.below(n);
                sigs.swap(at, b);
                good = owner(&v[at]) == owner(&v[b]);
                "signatures swapped"
            }
            8 if n > 0 => {
                sigs[at].public_key.bytes[t.below(32)] ^= 1 << t.below(8);
                good = false;
                "public key with a bit flipped"
            }
            _ => "",
        };
        if !what.is_empty() {
            o.label(what);
        }
    }
    (sigs, good)
}

/// A value that, added to `sum`, gives `total` modulo 2^64.
fn wrap(total: u64, sum: u64) -> u64 {
    total.wrapping_sub(sum)
}

pub fn receivers(t: &mut Tape, total: u64, o: &mut Obs) -> Vec<ValueTransferOutput> {
    let n = t.below(5);
    let mut left = total;
    let mut v: Vec<ValueTransferOutput> = (0..n)
        .map(|i| {
            let value = if i + 1 == n && t.bool() { left } else { t.range(0, left.max(1)).min(left) };
            left -= value;
            ValueTransferOutput { pkh: key(t.below(7)).pkh, value: value.max(u64::from(left > 0)), time_lock: if t.odds(30) { t.u64() } else { 0 } }
        })
        .collect();
    // Keep what was given within the total after the adjustment above.
    let sum: u128 = v.iter().map(|x| u128::from(x.value)).sum();
    if sum > u128::from(total) {
        v.clear();
    }
    match t.below(12) {
        11 => {
            let sum = v.iter().fold(0u64, |a, x| a.wrapping_add(x.value));
            v.push(ValueTransferOutput { pkh: key(1).pkh, value: wrap(total, sum).wrapping_add(1), time_lock: 0 });
            o.label("one more than there is");
        }
        10 => {
            let big = u64::MAX - t.below(1000) as u64;
            v.push(ValueTransferOutput { pkh: key(1).pkh, value: big, time_lock: 0 });
            let sum = v.iter().fold(0u64, |a, x| a.wrapping_add(x.value));
            v.push(ValueTransferOutput { pkh: key(2).pkh, value: wrap(total, sum), time_lock: 0 });
            o.label("outputs that wrap around");
        }
        9 => {
            let at = t.below(v.len() + 1);
            v.insert(at, ValueTransferOutput { pkh: key(3).pkh, value: 0, time_lock: 0 });
            o.label("an output of nothing");
        }
        8 => {
            let sum = v.iter().fold(0u64, |a, x| a.wrapping_add(x.value));
            v.push(ValueTransferOutput { pkh: key(4).pkh, value: wrap(total, sum), time_lock: 0 });
            o.label("exactly what there is");
        }
        _ => {}
    }
    v
}

fn sum(v: &[ValueTransferOutput]) -> u128 {
    v.iter().map(|x| u128::from(x.value)).sum()
}

/// What the check of a transaction gave: the fee, if every signature is good too.
fn verdict<X>(r: Result<X, anyhow::Error>, sigs: Vec<SignaturesToVerify>) -> Result<X, String> {
    let x = r.map_err(|e| e.to_string())?;
    check_signatures(sigs).map_err(|e| e.to_string())?;
    Ok(x)
}

fn transfers(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era);
    let now = time(e);
    let coins = coins(t, now, true);
    let v = pick_inputs(t, &coins, now, o);
    let available = input_value(&v, &coins, now);
    let outs = receivers(t, available.unwrap_or(WIT), o);
    let tx = VTTransactionBody::new(inputs_of(&v, &coins), outs);
    let (s, good) = signatures(t, &v, &coins, tx.versioned_hash(version(e)), o);
    let tx = VTTransaction::new(tx, s);
    let weight = 133 * tx.body.inputs.len() as u32 + 360 * tx.body.outputs.len() as u32;
    let limit = if t.odds(30) { (weight + 1).saturating_sub(t.below(3) as u32) } else { 20_000 };

    let fee = available
        .filter(|_| !v.is_empty() && good && weight <= limit && tx.body.outputs.iter().all(|x| x.value > 0))
        .and_then(|a| u128::from(a).checked_sub(sum(&tx.body.outputs)))
        .map(|f| f as u64);
    let p = pool(&coins);
    let d = view(&p, &coins, 50);
    let mut sigs = vec![];
    let which = if t.bool() { Some(version(e)) } else { None };
    let got = verdict(validate_vt_transaction(&tx, &d, e, epochs(), &mut sigs, limit, which), sigs.clone());
    match (&got, fee) {
        (Ok((i, outs, f)), Some(fee)) => {
            ensure_eq!(*f, fee, "fee");
            ensure!(i.iter().copied().eq(tx.body.inputs.iter()), "inputs to be spent");
            ensure!(outs.iter().copied().eq(tx.body.outputs.iter()), "outputs to be created");
            o.nontrivial();
            o.label("valid");
            o.label_if(fee == 0, "no fee");
            o.label_if(v.iter().flatten().any(|i| coins[*i].fresh), "spends an output of the same block");
            o.show(|| format!("{} inputs, {} outputs, fee {fee}", i.len(), outs.len()));
        }
        (Err(_), None) => {}
        (Ok(x), None) => return Err(format!("accepted with fee {}: {tx:?}", x.2)),
        (Err(e), Some(f)) => return Err(format!("refused ({e}), though the fee is {f}: {tx:?}")),
    }
    // The same transaction, alone, from the network: only what is confirmed can be spent.
    let alone: Vec<Coin> = coins.iter().map(|c| Coin { live: !c.fresh, ..c.clone() }).collect();
    let confirmed = pool(&coins);
    let fee = input_value(&v, &alone, now)
        .filter(|_| !v.is_empty() && good && weight <= limit && tx.body.outputs.iter().all(|x| x.value > 0))
        .and_then(|a| u128::from(a).checked_sub(sum(&tx.body.outputs)))
        .map(|f| f as u64);
    let got = standalone(&Transaction::ValueTransfer(tx), &confirmed, e, limit, 80_000, 13);
    ensure_eq!(got.as_ref().ok().copied(), fee, "fee of the transaction from the network {got:?}");
    Ok(())
}

pub fn standalone(tx: &Transaction, utxos: &UnspentOutputsPool, e: u32, vt: u32, dr: u32, n_wips: usize) -> Result<u64, String> {
    let mut sigs = vec![];
    let c = constants();
    let r = validate_new_transaction(
        tx,
        (&ReputationEngine::new(100), utxos, &DataRequestPool::default()),
        CheckpointVRF::default(),
        e,
        epochs(),
        50,
        &mut sigs,
        c.collateral_minimum,
        c.collateral_age,
        vt,
        dr,
        c.minimum_difficulty,
        125,
        &wips(n_wips, e),
        c.superblock_period,
        &StakesTracker::default(),
        version(e),
        c.extra_rounds + 1,
        &wit2(),
    );
    verdict(r, sigs)
}

pub fn rad_ok() -> RADRequest {
    RADRequest {
        time_lock: 0,
        retrieve: vec![RADRetrieve {
            kind: RADType::HttpGet,
            url: "https://example.com/".to_string(),
            script: vec![128],
            body: vec![],
            headers: vec![],
        }],
        aggregate: RADAggregate { filters: vec![], reducer: 2 },
        tally: RADTally { filters: vec![], reducer: 2 },
    }
}

/// A request, its good fields mostly, and whether its numbers keep the rules.
pub fn request(t: &mut Tape, budget: u64, n_wips: usize, o: &mut Obs) -> (DataRequestOutput, bool) {
    let witnesses = 1 + t.below(8) as u64;
    let fee = t.range(0, WIT / 1000);
    let reward = match t.below(6) {
        0 => WIT / 125,
        1 => WIT / 125 - 1,
        2 => t.range(1, WIT),
        // What there is, give or take.
        3 => (budget / witnesses).saturating_sub(2 * fee + t.below(3) as u64),
        4 => t.range(WIT / 125, WIT),
        _ => WIT / 125 + t.below(10) as u64,
    };
    let collateral = match t.below(8) {
        0 => WIT,
        1 => WIT - 1,
        2 => reward.saturating_mul(125),
        3 => reward.saturating_mul(125).saturating_add(1),
        4 => t.range(WIT, 10 * WIT),
        5 => 1,
        _ => 0,
    };
    let mut r = DataRequestOutput {
        data_request: rad_ok(),
        witness_reward: reward,
        witnesses: witnesses as u16,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: 51 + t.below(49) as u32,
        collateral,
    };
    let mut ok = true;
    match t.below(20) {
        19 => r.witnesses = 0,
        18 => r.witness_reward = 0,
        17 => r.min_consensus_percentage = *t.pick(&[50, 100, 0, 101, u32::MAX]),
        16 => {
            r.data_request.retrieve.clear();
            ok = false;
        }
        15 => {
            r.data_request.retrieve[0].script = t.pick(&[vec![], vec![0xff], vec![0x81, 0x80], vec![1]]).clone();
            ok = false;
        }
        14 => {
            r.data_request.tally.reducer = 0xfe;
            ok = false;
        }
        13 => {
            r.data_request.aggregate.reducer = 0xfe;
            ok = false;
        }
        12 => {
            // Rewards and fees that wrap around to something that can be paid.
            r.witnesses = 2;
            r.commit_and_reveal_fee = 0;
            r.witness_reward = (1 << 63) + t.range(1, 100 * WIT);
            o.label("a request that costs more than 2^64");
        }
        11 => {
            r.commit_and_reveal_fee = (1 << 63) + t.below(3) as u64;
            o.label("a request that costs more than 2^64");
        }
        10 => r.witnesses = *t.pick(&[100, 122, 125, 126, 200, 65535]),
        _ => {}
    }
    let c = if r.collateral == 0 { WIT } else { r.collateral };
    ok &= r.witnesses >= 1 && r.witness_reward >= 1 && (51..100).contains(&r.min_consensus_percentage) && c >= WIT;
    if n_wips >= 7 {
        // At most 125 times the reward may be asked as collateral.
        ok &= u128::from(c) <= 125 * u128::from(r.witness_reward);
    }
    (r, ok)
}

pub fn request_cost(r: &DataRequestOutput) -> Option<u64> {
    let each = u128::from(r.witness_reward) + 2 * u128::from(r.commit_and_reveal_fee);
    u64::try_from(each * u128::from(r.witnesses)).ok()
}

pub fn request_weight(r: &DataRequestOutput, inputs: usize, outputs: usize) -> u64 {
    let w = u64::from(r.witnesses);
    let rad: usize = r.data_request.retrieve.iter().map(|x| 1 + x.url.len() + x.script.len() + x.body.len() + x.headers.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>()).sum::<usize>()
        + r.data_request.aggregate.filters.iter().chain(&r.data_request.tally.filters).map(|f| 4 + f.args.len()).sum::<usize>()
        + 2 * 4
        + 8;
    rad as u64 + 30 + w * (400 + 200 + 36) + 100 + 133 * inputs as u64 + 36 * outputs as u64
}

fn requests(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era);
    let n_wips = *t.pick(&[13, 13, 7, 6]);
    let now = time(e);
    let coins = coins(t, now, true);
    let v = pick_inputs(t, &coins, now, o);
    let available = input_value(&v, &coins, now);
    let (r, mut ok) = request(t, available.unwrap_or(WIT), n_wips, o);
    let cost = request_cost(&r);
    let left = available.and_then(|a| a.checked_sub(cost?));
    let mut change = vec![];
    let first = v.first().copied().flatten().map_or(0, |i| coins[i].owner);
    if t.bool() {
        let value = match t.below(6) {
            0 => left.unwrap_or(0),
            1 => left.unwrap_or(0).wrapping_add(1),
            2 => 0,
            _ => t.range(0, left.unwrap_or(1).max(1)).min(left.unwrap_or(0)),
        };
        let owner = if t.odds(40) { t.below(6) } else { first };
        change.push(ValueTransferOutput { pkh: key(owner).pkh, value, time_lock: 0 });
        o.label_if(owner != first, "change for somebody else");
        if t.odds(20) {
            change.push(ValueTransferOutput { pkh: key(first).pkh, value: 1, time_lock: 0 });
            o.label("two outputs");
        }
    }
    let body = DRTransactionBody::new(inputs_of(&v, &coins), r.clone(), change);
    let (s, good) = signatures(t, &v, &coins, body.versioned_hash(version(e)), o);
    let tx = DRTransaction::new(body, s);
    let weight = request_weight(&r, v.len(), tx.body.outputs.len());
    ensure_eq!(u64::from(tx.weight()), weight, "weight");
    let limit = if t.odds(30) && weight < 1 << 31 { (weight as u32 + 1).saturating_sub(t.below(3) as u32) } else { 80_000 };
    ok &= good && !v.is_empty() && weight <= u64::from(limit) && tx.body.outputs.len() < 2;
    ok &= tx.body.outputs.iter().all(|x| x.value > 0 && x.pkh == key(first).pkh);
    let fee = if ok { available.and_then(|a| (u128::from(a)).checked_sub(u128::from(cost?) + sum(&tx.body.outputs))) } else { None }.map(|f| f as u64);

    let p = pool(&coins);
    let d = view(&p, &coins, 50);
    let mut sigs = vec![];
    let got = validate_dr_transaction(&tx, &d, e, epochs(), &mut sigs, WIT, limit, 125, &wips(n_wips, e), Some(version(e)));
    match (verdict(got, sigs), fee) {
        (Ok((i, outs, f)), Some(fee)) => {
            ensure_eq!(f, fee, "fee");
            ensure!(i.iter().copied().eq(tx.body.inputs.iter()), "inputs to be spent");
            ensure!(outs.iter().copied().eq(tx.body.outputs.iter()), "outputs to be created");
            o.nontrivial();
            o.label("valid");
            o.label_if(fee == 0, "no fee");
            o.show(|| format!("{} inputs, cost {cost:?}, fee {fee}", i.len()));
        }
        (Err(_), None) => {}
        (Ok(x), None) => return Err(format!("accepted with fee {}: {tx:?}", x.2)),
        (Err(e), Some(f)) => return Err(format!("refused ({e}), though the fee is {f}: {tx:?}")),
    }
    let alone: Vec<Coin> = coins.iter().map(|c| Coin { live: !c.fresh, ..c.clone() }).collect();
    if coins.iter().all(|c| c.live) {
        let a = input_value(&v, &alone, now);
        let fee = if ok { a.and_then(|a| (u128::from(a)).checked_sub(u128::from(cost?) + sum(&tx.body.outputs))) } else { None };
        let got = standalone(&Transaction::DataRequest(tx), &p, e, 20_000, limit, n_wips);
        ensure_eq!(got.as_ref().ok().copied(), fee.map(|f| f as u64), "fee of the request from the network {got:?}");
    }
    Ok(())
}

/// How the outputs of a block change: every input goes, every output comes, and how old they are.
fn applied(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era);
    let now = time(e);
    let mut coins = coins(t, now, false);
    for c in &mut coins {
        c.live = true;
    }
    let block = 20 + t.below(100) as u32;
    let base = pool(&coins);
    let mut d = view(&base, &coins, block);
    let age = |c: &Coin, i: usize| if c.fresh { block } else { i as u32 };
    let mut v: Vec<usize> = (0..coins.len()).collect();
    shuffle(t, &mut v);
    v.truncate(t.below(5));
    let same = t.bool();
    if same && !v.is_empty() {
        let owner = coins[v[0]].owner;
        v.retain(|i| coins[*i].owner == owner);
    }
    let inputs: Vec<Input> = v.iter().map(|i| Input::new(coins[*i].ptr)).collect();
    let outs: Vec<ValueTransferOutput> = t.vec(4, |t| {
        let lock = match t.below(6) {
            0 => ZERO as u64,
            1 => ZERO as u64 - 1,
            2 => now as u64 + 5,
            3 => u64::MAX,
            4 => t.range(1, 1 << 20),
            _ => 0,
        };
        ValueTransferOutput { pkh: key(t.below(5)).pkh, value: t.range(1, 1 << 40), time_lock: lock }
    });
    let id = Hash::SHA256([77; 32]);
    update_utxo_diff(&mut d, &inputs, &outs, id, e, epochs(), ZERO);
    let owners: BTreeSet<usize> = v.iter().map(|i| coins[*i].owner).collect();
    let oldest = v.iter().map(|i| age(&coins[*i], *i)).max().unwrap_or(0);
    for (i, c) in coins.iter().enumerate() {
        let spent = v.contains(&i);
        ensure_eq!(d.get(&c.ptr), (!spent).then(|| c.vto()), "output {i}");
        if !spent {
            ensure_eq!(d.included_in_block_number(&c.ptr), (!c.fresh).then_some(i as u32), "age of output {i}");
        }
    }
    for (n, x) in outs.iter().enumerate() {
        let p = OutputPointer { transaction_id: id, output_index: n as u32 };
        let mut want = x.clone();
        if era == 2 && x.time_lock < ZERO as u64 {
            want.time_lock += now as u64;
            o.label("relative time lock");
        }
        ensure_eq!(d.get(&p), Some(want), "created output {n}");
    }
    let mut after = base.clone();
    d.take_diff().apply(&mut after);
    for (n, x) in outs.iter().enumerate() {
        let p = OutputPointer { transaction_id: id, output_index: n as u32 };
        // Outputs that go back to the only owner of the inputs keep their age.
        let kept = owners.len() == 1 && key(*owners.iter().next().unwrap()).pkh == x.pkh;
        // Outputs of this very block have no number yet: the age they pass on is that of the others.
        let fresh = v.iter().any(|i| coins[*i].fresh);
        if kept && !fresh {
            ensure_eq!(after.included_in_block_number(&p), Some(oldest), "age of created output {n}");
            o.nontrivial();
            o.label("age kept");
        } else if !kept {
            ensure_eq!(after.included_in_block_number(&p), Some(block), "age of created output {n}");
            o.label("age reset");
        }
    }
    o.nontrivial_if(owners.len() > 1);
    Ok(())
}

pub fn c22(c: &mut Check) {
    c.sub(
        "a value transfer is accepted exactly when it may be",
        "the transfer keeps every rule",
        30_000,
        1_000_000,
        || long_tapes(400),
        |b, o| transfers(&mut b.tape(), o),
    );
    c.sub(
        "a data request is accepted exactly when it may be",
        "the request keeps every rule",
        30_000,
        1_000_000,
        || long_tapes(400),
        |b, o| requests(&mut b.tape(), o),
    );
    c.sub(
        "a transaction replaces its inputs by its outputs",
        "outputs go back to the only owner of the inputs, or there are several",
        20_000,
        500_000,
        || long_tapes(300),
        |b, o| applied(&mut b.tape(), o),
    );
    let _ = ProtocolVersion::V2_0;
}
