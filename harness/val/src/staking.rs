//! C23: who may stake, unstake and how much.
use crate::{base::*, spend::*};
use std::collections::BTreeMap;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::*,
    proto::versioning::VersionedHashable,
    staking::{
        helpers::StakeKey,
        stakes::{QueryStakesKey, StakesTracker, process_stake_transactions, process_unstake_transactions},
    },
    transaction::*,
    wit::Wit,
};
use witnet_validations::validations::*;

pub const MIN: u64 = 10_000 * WIT;
pub const MAX: u64 = 10_000_000 * WIT;

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub withdrawer: usize,
    pub coins: u64,
    pub nonce: u64,
}

/// A tracker with some entries: one withdrawer per validator, as the rules demand.
pub fn tracker(t: &mut Tape, now: u32) -> (StakesTracker, BTreeMap<usize, Entry>) {
    let mut s = StakesTracker::default();
    let mut m = BTreeMap::new();
    for v in 0..t.below(5) {
        let withdrawer = if t.bool() { v } else { t.below(5) };
        let coins = match t.below(5) {
            0 => MIN,
            1 => MAX,
            2 => MAX - MIN,
            3 => 2 * MIN,
            _ => t.range(MIN, MAX),
        };
        let k = StakeKey { validator: key(v).pkh, withdrawer: key(withdrawer).pkh };
        s.add_stake(k.clone(), Wit::from_nanowits(coins), now.saturating_sub(t.below(1000) as u32), true, Wit::from_nanowits(MIN)).unwrap();
        let mut e = Entry { withdrawer, coins, nonce: s.query_nonce(k).unwrap() };
        if t.odds(60) {
            // An entry with a history.
            let k = StakeKey { validator: key(v).pkh, withdrawer: key(withdrawer).pkh };
            let n = t.range(1, MIN / 2);
            let _ = s.add_reward(k.validator, Wit::from_nanowits(n), 0);
            let q = s.query_stakes(QueryStakesKey::Key(k.clone())).unwrap();
            e.coins = q[0].value.coins.nanowits();
            e.nonce = q[0].value.nonce;
        }
        m.insert(v, e);
    }
    (s, m)
}

fn stakes(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = *t.pick(&[1, 2, 2, 1, 2, 0]);
    let e = epoch(t, era);
    let now = time(e);
    let (mut s, m) = tracker(t, e);
    let mut coins = coins(t, now, true);
    // Enough to stake with.
    for c in &mut coins {
        c.value = c.value.saturating_mul(1 + t.below(300) as u64);
    }
    let v = pick_inputs(t, &coins, now, o);
    let available = input_value(&v, &coins, now);
    let validator = t.below(6);
    let staked = m.get(&validator).map_or(0, |x| x.coins);
    let withdrawer = match m.get(&validator) {
        Some(x) if !t.odds(30) => x.withdrawer,
        _ => t.below(6),
    };
    let a = available.unwrap_or(MIN);
    let value = match t.below(12) {
        0 | 1 => a,
        2 => MIN,
        3 => MIN - 1,
        4 => MAX - staked.min(MAX),
        5 => (MAX - staked.min(MAX)) + 1,
        6 => a.wrapping_add(1),
        // Added to what is staked already, or to the change, this wraps around.
        7 => 0u64.wrapping_sub(staked).wrapping_add(t.range(0, MAX)),
        8 => u64::MAX - t.range(0, 3 * WIT),
        _ => t.range(MIN.min(a), a.max(MIN)),
    };
    let change = t.bool().then(|| {
        let rest = a.wrapping_sub(value);
        let value = match t.below(5) {
            0 => rest,
            1 => rest.wrapping_add(1),
            2 => rest.wrapping_sub(t.range(0, WIT)),
            3 => 0,
            _ => t.range(0, a),
        };
        ValueTransferOutput { pkh: key(t.below(5)).pkh, value, time_lock: 0 }
    });
    let change = change.filter(|c| *c != ValueTransferOutput::default());
    let k = StakeKey { validator: key(validator).pkh, withdrawer: key(withdrawer).pkh };
    // The signature of the validator over the withdrawer's address.
    let mut digest = [0; 32];
    digest[..20].copy_from_slice(k.withdrawer.as_ref());
    let authorization = sign_hash(validator, Hash::SHA256(digest));
    let body = StakeTransactionBody::new(inputs_of(&v, &coins), StakeOutput { authorization, key: k.clone(), value }, change.clone());
    let (sg, good) = signatures(t, &v, &coins, body.versioned_hash(version(e)), o);
    let tx = StakeTransaction::new(body, sg);
    let weight = 133 * v.len() as u32 + 105 + if change.is_some() { 36 } else { 0 };
    ensure_eq!(tx.weight(), weight, "weight");

    let allowed = e >= V1_8
        && good
        && !v.is_empty()
        && value >= MIN
        && u128::from(staked) + u128::from(value) <= u128::from(MAX)
        && m.get(&validator).is_none_or(|x| x.withdrawer == withdrawer);
    let fee = available
        .filter(|_| allowed)
        .and_then(|a| u128::from(a).checked_sub(u128::from(value) + change.as_ref().map_or(0, |c| u128::from(c.value))))
        .map(|f| f as u64);
    let p = pool(&coins);
    let d = view(&p, &coins, 50);
    let mut sigs = vec![];
    let r = validate_stake_transaction(&tx, &d, e, epochs(), &mut sigs, &s, MIN, MAX);
    let got = r.map_err(|e| e.to_string()).and_then(|x| check_signatures(sigs).map(|_| x).map_err(|e| e.to_string()));
    match (got, fee) {
        (Ok((i, out, f, w, c)), Some(fee)) => {
            ensure_eq!(f, fee, "fee");
            ensure!(i.iter().copied().eq(tx.body.inputs.iter()), "inputs to be spent");
            ensure_eq!((out, w, c), (&tx.body.output, weight, &change), "what is staked");
            // What was accepted can be applied, and adds exactly that much.
            let before = s.total_staked().nanowits();
            process_stake_transactions(&mut s, [tx.clone()].iter(), e, MIN).map_err(|e| format!("accepted, but cannot be applied: {e}"))?;
            ensure_eq!(s.total_staked().nanowits(), before + value, "total stake");
            let q = s.query_stakes(QueryStakesKey::Key(k)).map_err(|e| e.to_string())?;
            ensure_eq!(q[0].value.coins.nanowits(), staked + value, "stake of the validator");
            o.nontrivial();
            o.label(if staked > 0 { "valid, more" } else { "valid, new" });
            o.show(|| format!("{staked} + {value}, fee {fee}"));
        }
        (Err(_), None) => {}
        (Ok(x), None) => return Err(format!("accepted with fee {}: {staked} staked by {m:?}, {tx:?}", x.2)),
        (Err(e), Some(f)) => return Err(format!("refused ({e}), though the fee is {f}: {staked} staked, {tx:?}")),
    }
    Ok(())
}

fn unstakes(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = *t.pick(&[2, 2, 2, 2, 2, 1, 2, 0]);
    let e = epoch(t, era);
    let (mut s, m) = tracker(t, e);
    let stranger = usize::from(t.odds(30));
    let operator = t.below(m.len() + stranger);
    let entry = m.get(&operator);
    let staked = entry.map_or(MIN, |x| x.coins);
    let signer = match entry {
        Some(x) if !t.odds(30) => x.withdrawer,
        _ => t.below(6),
    };
    let fee = match t.below(4) {
        0 => 0,
        1 => t.u64(),
        _ => t.range(0, WIT),
    };
    let value = match t.below(9) {
        0 | 1 => staked.wrapping_sub(fee),
        2 => staked.wrapping_sub(fee).wrapping_add(1),
        3 => staked.wrapping_sub(fee).wrapping_sub(MIN),
        4 => staked.wrapping_sub(fee).wrapping_sub(MIN).wrapping_add(1),
        5 => t.u64(),
        // With the fee, this wraps around to something that is there.
        6 => 0u64.wrapping_sub(fee).wrapping_add(t.range(0, staked)),
        _ => t.range(0, staked),
    };
    let nonce = entry.map_or(0, |x| x.nonce);
    let nonce = if t.odds(20) { *t.pick(&[nonce + 1, nonce.wrapping_sub(1), 0, 1, u64::MAX]) } else { nonce };
    let delay = 1_209_600;
    let time_lock = *t.pick(&[delay, delay, delay + 1, delay + 1000, u64::MAX, delay - 1]);
    let receiver = if t.odds(20) { t.below(6) } else { signer };
    let w = ValueTransferOutput { pkh: key(receiver).pkh, value, time_lock };
    let body = UnstakeTransactionBody::new(key(operator).pkh, w.clone(), fee, nonce);
    let hash = body.versioned_hash(version(e));
    let mut sig = sign_hash(signer, hash);
    let mut good = true;
    match t.below(24) {
        23 => {
            sig = sign_hash(signer, Hash::SHA256(t.array()));
            good = false;
        }
        22 => {
            sig.signature = sign_hash((signer + 1) % 6, hash).signature;
            good = false;
        }
        21 => {
            let Signature::Secp256k1(x) = &mut sig.signature;
            let i = t.below(x.der.len());
            x.der[i] ^= 1 << t.below(8);
            good = false;
        }
        20 => {
            let Signature::Secp256k1(x) = &mut sig.signature;
            x.der.clear();
            good = false;
        }
        _ => {}
    }
    o.label_if(!good, "bad signature");
    let tx = UnstakeTransaction::new(body, sig);
    let out = u128::from(value) + u128::from(fee);
    let rest = u128::from(staked).checked_sub(out);
    let allowed = e >= V2_0
        && good
        && entry.is_some_and(|x| x.withdrawer == signer && x.nonce == nonce)
        && receiver == signer
        && time_lock >= delay
        && rest.is_some_and(|r| r == 0 || r >= u128::from(MIN));
    match (validate_unstake_transaction(&tx, e, &s, MIN, delay), allowed) {
        (Ok((f, weight, outs)), true) => {
            ensure_eq!((f, weight), (fee, 153), "fee and weight");
            ensure_eq!(outs, vec![&w], "outputs");
            let before = s.total_staked().nanowits();
            process_unstake_transactions(&mut s, [tx.clone()].iter(), e, MIN).map_err(|e| format!("accepted, but cannot be applied: {e}"))?;
            ensure_eq!(u128::from(s.total_staked().nanowits()), u128::from(before) - out, "total stake");
            // It cannot be applied twice.
            let again = validate_unstake_transaction(&tx, e, &s, MIN, delay);
            ensure!(again.is_err(), "accepted twice");
            o.nontrivial();
            o.label(if rest == Some(0) { "valid, all" } else { "valid, a part" });
            o.show(|| format!("{staked} - {value} - {fee}"));
        }
        (Err(_), false) => {}
        (Ok(x), false) => return Err(format!("accepted with fee {}: {m:?}, {tx:?}", x.0)),
        (Err(e), true) => return Err(format!("refused ({e}): {m:?}, {tx:?}")),
    }
    Ok(())
}

pub fn c23(c: &mut Check) {
    c.sub(
        "a stake is accepted exactly when it may be, and can then be applied",
        "the stake keeps every rule",
        20_000,
        500_000,
        || long_tapes(450),
        |b, o| stakes(&mut b.tape(), o),
    );
    c.sub(
        "an unstake is accepted exactly when it may be, once, and can then be applied",
        "the unstake keeps every rule",
        30_000,
        1_000_000,
        || long_tapes(200),
        |b, o| unstakes(&mut b.tape(), o),
    );
}
