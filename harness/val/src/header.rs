//! C27: who may propose a block, and which proposal wins. Also the genesis block, for C26.
use crate::{base::*, commits::first_u32};
use std::{cell::RefCell, cmp::Ordering, collections::BTreeSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    staking::prelude::*,
    transaction::*,
    utxo_pool::UnspentOutputsPool,
    vrf::{BlockEligibilityClaim, VrfCtx},
    wit::Wit,
};
use witnet_validations::{
    eligibility::{current::Eligibility, current::Eligible, legacy::*},
    validations::*,
};

const MIN: u64 = 10_000 * WIT;

thread_local! {
    static VRF: RefCell<VrfCtx> = RefCell::new(VrfCtx::secp256k1().unwrap());
}

/// Everything the miners of the main network will ever get: each halving period, half of before.
fn all_rewards() -> u64 {
    let c = constants();
    (0..64).map(|i| (c.initial_block_reward >> i) * u64::from(c.halving_period)).sum()
}

pub fn genesis(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let room = u64::MAX - all_rewards();
    // A file of the form of genesis_block.json.
    let n = t.below(5);
    let mut alloc: Vec<Vec<(usize, u64, u64)>> = vec![];
    let mut left = room;
    for i in 0..n {
        alloc.push(vec![]);
        for _ in 0..if t.odds(20) { 0 } else { 1 + t.below(4) } {
            let value = match t.below(16) {
                0 => left,
                1 => 0,
                2 => left.saturating_add(1),
                3 => u64::MAX,
                _ => t.range(1, 1_000_000) * WIT,
            };
            left = left.saturating_sub(value);
            // Their transactions differ.
            let lock = (i as u64) << 32 | alloc[i].len() as u64;
            alloc[i].push((t.below(KEYS), value, lock));
        }
    }
    let texts: Vec<Vec<serde_json::Value>> = alloc
        .iter()
        .map(|a| a.iter().map(|x| serde_json::json!({"address": key(x.0).pkh.to_string(), "value": x.1.to_string(), "timelock": x.2.to_string()})).collect())
        .collect();
    let text = serde_json::json!({ "alloc": texts }).to_string();
    let mut c = constants();
    let info: GenesisBlockInfo = serde_json::from_str(&text).map_err(|e| format!("a genesis file was refused: {e}"))?;
    let mut block = info.build_genesis_block(c.bootstrap_hash);
    for (tx, a) in block.txns.value_transfer_txns.iter().zip(&alloc) {
        let got: Vec<(PublicKeyHash, u64, u64)> = tx.body.outputs.iter().map(|x| (x.pkh, x.value, x.time_lock)).collect();
        let want: Vec<_> = a.iter().map(|x| (key(x.0).pkh, x.1, x.2)).collect();
        ensure_eq!(got, want, "transaction of the genesis block");
    }
    ensure_eq!(block.txns.value_transfer_txns.len(), n, "transactions of the genesis block");
    c.genesis_hash = block.hash();
    let total: u128 = alloc.iter().flatten().map(|x| u128::from(x.1)).sum();
    let mut fine = alloc.iter().all(|a| !a.is_empty() && a.iter().all(|x| x.1 > 0)) && total <= u128::from(room);
    let mut tip = CheckpointBeacon { checkpoint: 0, hash_prev_block: c.bootstrap_hash };
    // What does not show in its hash, or is not that block.
    match t.below(12) {
        1 if n > 0 => {
            let at = t.below(n);
            let tx = &mut block.txns.value_transfer_txns[at];
            let count = *t.pick(&[1, 2, 255, 256, 300]);
            *tx = VTTransaction::new(tx.body.clone(), vec![sign_hash(0, Hash::default()); count]);
            fine = false;
            o.label("signatures");
        }
        2 => {
            let mut txns = block.txns.clone();
            txns.mint = MintTransaction::new(0, vec![ValueTransferOutput { pkh: key(0).pkh, value: 1, time_lock: 0 }]);
            block = Block::new(block.block_header.clone(), block.block_sig.clone(), txns);
            fine = false;
            o.label("a mint");
        }
        3 => {
            let mut h = block.block_header.clone();
            match t.below(3) {
                0 => h.signals ^= 1 << t.below(32),
                1 => h.beacon.checkpoint += 1,
                _ => h.merkle_roots.vt_hash_merkle_root = Hash::SHA256([9; 32]),
            }
            block = Block::new(h, block.block_sig.clone(), block.txns.clone());
            fine = false;
            o.label("another block");
        }
        4 => {
            block = Block::new(block.block_header.clone(), sign_hash(0, block.hash()), block.txns.clone());
            fine = false;
            o.label("signed");
        }
        // A transaction of nothing hashes as no transactions do.
        5 if n > 0 && !alloc[n - 1].is_empty() => {
            let mut txns = block.txns.clone();
            txns.value_transfer_txns.pop();
            block = Block::new(block.block_header.clone(), block.block_sig.clone(), txns);
            fine = false;
            o.label("a transaction less");
        }
        6 => {
            tip.hash_prev_block = Hash::SHA256([t.u8() & 0x0f; 32]);
            fine = false;
            o.label("on another chain");
        }
        _ => {}
    }
    let mut sigs = vec![];
    let rep = ReputationEngine::new(100);
    let stakes = StakesTracker::default();
    let now = t.below(5) as u32;
    let utxos = UnspentOutputsPool::default();
    let got = validate_block(&block, now, CheckpointVRF::default(), tip, &mut sigs, &rep, &c, &wips(13, now), &stakes, version(0), 4).map_err(|e| e.to_string()).and_then(|_| {
        let mut dr = DataRequestPool::new(3);
        validate_block_transactions(&utxos, &mut dr, &block, CheckpointVRF::default(), &mut sigs, &rep, epochs(), 0, &c, &wit2(), &wips(13, 0), None, &stakes).map_err(|e| e.to_string())
    });
    ensure_eq!(got.is_ok(), fine, "genesis block of {total} nanowits, {alloc:?}, {block:?}: {:?}", got.as_ref().err());
    if let Ok(diff) = got {
        let mut pool = UnspentOutputsPool::default();
        diff.apply(&mut pool);
        let mut left: Vec<(OutputPointer, ValueTransferOutput)> = pool.iter().map(|(p, x)| (p, x.0)).collect();
        ensure!(left.iter().all(|x| pool.included_in_block_number(&x.0) == Some(0)), "block of the first outputs");
        for tx in &block.txns.value_transfer_txns {
            for (i, out) in tx.body.outputs.iter().enumerate() {
                let p = OutputPointer { transaction_id: tx.versioned_hash(version(0)), output_index: i as u32 };
                let at = left.iter().position(|x| x.0 == p && x.1 == *out).ok_or_else(|| format!("output {i} of {} is missing", p.transaction_id))?;
                left.remove(at);
            }
        }
        ensure!(left.is_empty(), "more outputs than in the file");
        o.label("accepted");
    }
    o.nontrivial_if(n > 0);
    o.show(|| text.clone());
    Ok(())
}

fn sum(x: u32) -> u128 {
    u128::from(x)
}

/// The first 32 bits of the threshold, in exact arithmetic.
fn randpoe(identities: u32, rf: u32, epoch: u32, difficulty: u32, easy: u32, hard: bool) -> u32 {
    let max = u128::from(u64::MAX);
    let floor = difficulty.max(1);
    let t = if epoch <= easy {
        max / sum(floor)
    } else {
        max / sum(if hard { identities.max(floor) } else { identities.max(1) }) * sum(rf)
    };
    (t.min(max) >> 32) as u32
}

fn thresholds(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let size = |t: &mut Tape| match t.below(5) {
        0 => t.below(4) as u32,
        1 => u32::MAX - t.below(3) as u32,
        2 => t.u32(),
        _ => t.below(50_000) as u32,
    };
    let (ids, difficulty) = (size(t), size(t));
    let (lo, hi) = (t.below(12) as u32, t.below(12) as u32);
    let n = t.below(14);
    let easy = t.below(100) as u32;
    let epoch = if t.odds(60) { t.below(101) as u32 } else { t.u32() };
    let w = wips(n, epoch);
    let hard = n >= 2;
    let slots = VrfSlots::from_rf(ids, lo, hi, epoch, difficulty, easy, &w);
    let want: Vec<u32> = (lo..=hi).map(|rf| randpoe(ids, rf, epoch, difficulty, easy, hard)).collect();
    let got: Vec<u32> = slots.target_hashes().iter().map(first_u32).collect();
    ensure_eq!(got, want, "targets of {ids} identities, factors {lo}..={hi}, difficulty {difficulty}, epoch {epoch} of {easy}");
    for (h, first) in slots.target_hashes().iter().zip(&want) {
        ensure_eq!(*h, Hash::with_first_u32(*first), "rest of the target");
        let Hash::SHA256(x) = h;
        ensure!(x[4..].iter().all(|b| *b == 255), "a target excludes hashes with the same first bits");
    }
    let (_, p) = calculate_randpoe_threshold(ids, lo, epoch, difficulty, easy, &w);
    let first = randpoe(ids, lo, epoch, difficulty, easy, hard);
    ensure!((p - f64::from(first) / f64::from(u32::MAX)).abs() < 1e-9, "probability {p} of target {first:#x}");
    for _ in 0..6 {
        let mut x = [0u8; 32];
        x.copy_from_slice(&t.array::<32>());
        if t.bool() && !want.is_empty() {
            // Next to a target.
            let f = *t.pick(&want);
            let f = match t.below(3) {
                0 => f,
                1 => f.saturating_add(1),
                _ => f.saturating_sub(1),
            };
            x[..4].copy_from_slice(&f.to_be_bytes());
        }
        let h = Hash::SHA256(x);
        let at = want.iter().position(|f| first_u32(&h) <= *f).unwrap_or(want.len());
        ensure_eq!(slots.slot(&h), at as u32, "slot of {h} among {want:x?}");
        o.label_if(at > 0 && at < want.len(), "between");
    }
    o.nontrivial_if(want.windows(2).any(|w| w[0] < w[1]));
    o.show(|| format!("{ids} identities, factors {lo}..={hi}: {want:x?}"));
    Ok(())
}

/// One entry for each validator and withdrawer.
struct Entry {
    validator: usize,
    withdrawer: usize,
    coins: u64,
    since: u32,
}
fn validators(t: &mut Tape, now: u32) -> Vec<Entry> {
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for _ in 0..t.below(24) {
        let validator = t.below(KEYS);
        let withdrawer = if t.odds(180) { validator } else { t.below(4) };
        if !seen.insert(validator) {
            continue;
        }
        let coins = *t.pick(&[MIN, MIN, 2 * MIN, 5 * MIN]) + if t.bool() { 0 } else { t.range(0, 100 * WIT) };
        let since = match t.below(6) {
            0 => now,
            1 | 2 => now - 100,
            _ => now - t.below(2000) as u32,
        };
        v.push(Entry { validator, withdrawer, coins, since });
    }
    v
}
fn tracker(v: &[&Entry]) -> StakesTracker {
    let mut s = StakesTracker::default();
    for x in v {
        let k = StakeKey { validator: key(x.validator).pkh, withdrawer: key(x.withdrawer).pkh };
        s.add_stake(k, Wit::from_nanowits(x.coins), x.since, true, Wit::from_nanowits(MIN)).unwrap();
    }
    s
}
fn power(x: &Entry, now: u32) -> u64 {
    x.coins / WIT * u64::from(now.saturating_sub(x.since))
}

fn eligible(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let now = epoch(t, 2);
    let v = validators(t, now);
    let s = tracker(&v.iter().collect::<Vec<_>>());
    let rf = *t.pick(&[0u16, 1, 2, 3, 4, 8, 16, u16::MAX]);
    let places = usize::from(rf).min(v.len() * 2 / 3);
    let yes = |s: &StakesTracker, i: usize| matches!(s.mining_eligibility(key(i).pkh, now, rf), Ok(Eligible::Yes));
    let chosen: BTreeSet<usize> = (0..KEYS).filter(|i| yes(&s, *i)).collect();
    let powers = |inside: bool| v.iter().filter(|x| chosen.contains(&x.validator) == inside).map(|x| power(x, now)).collect::<Vec<_>>();
    ensure_eq!(chosen.len(), places, "proposers of {} validators under factor {rf}", v.len());
    let (a, b) = (powers(true), powers(false));
    ensure_eq!(a.len(), places, "a proposer without stake");
    ensure!(a.iter().min().unwrap_or(&u64::MAX) >= b.iter().max().unwrap_or(&0), "proposers of power {a:?} before {b:?}");
    for i in 0..KEYS {
        ensure_eq!(s.mining_eligibility_bool(key(i).pkh, now, rf), chosen.contains(&i), "the same question twice");
    }
    // Another node, where they came in another order.
    let mut other: Vec<&Entry> = v.iter().collect();
    shuffle(t, &mut other);
    let s2 = tracker(&other);
    let chosen2: BTreeSet<usize> = (0..KEYS).filter(|i| yes(&s2, *i)).collect();
    ensure_eq!(chosen2, chosen, "two nodes with the same stakes let different validators propose");
    let tie = a.iter().min().is_some_and(|x| b.contains(x));
    o.label_if(tie, "tie");
    o.nontrivial_if(!a.is_empty() && !b.is_empty());
    o.show(|| format!("factor {rf}: {a:?} before {b:?}"));
    Ok(())
}

fn proposal(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era).max(3000);
    let mut who = t.below(8);
    let mut c = constants();
    c.minimum_difficulty = *t.pick(&[1, 2, 5]);
    c.epochs_with_minimum_difficulty = if t.odds(50) { e + t.below(2) as u32 } else { 0 };
    c.mining_backup_factor = *t.pick(&[1, 2, 4]);
    let n = *t.pick(&[1, 2, 13]);
    let w = wips(n, e);
    let mut rep = ReputationEngine::new(100);
    let ids = t.below(6);
    rep.ars_mut().push_activity((0..ids).map(|i| key(i).pkh));
    let v = validators(t, e);
    let s = tracker(&v.iter().collect::<Vec<_>>());
    let rf = *t.pick(&[1u16, 2, 4, 8]);
    if era == 2 && t.odds(200) {
        // Somebody near the boundary, on either side.
        let mut by: Vec<&Entry> = v.iter().collect();
        by.sort_by_key(|x| std::cmp::Reverse(power(x, e)));
        let at = usize::from(rf).min(v.len() * 2 / 3) + t.below(2);
        who = by.get(at.saturating_sub(1)).map_or(who, |x| x.validator);
    }
    let input = CheckpointVRF { checkpoint: e, hash_prev_vrf: Hash::SHA256(t.array()) };
    let tip = CheckpointBeacon { checkpoint: e - t.below(3) as u32, hash_prev_block: Hash::SHA256([7; 32]) };
    let mut fine = true;
    let mut bad = |o: &mut Obs, what| {
        fine = false;
        o.label(what);
    };
    // The proof.
    let (mut prover, mut proven) = (who, input);
    match t.below(14) {
        1 => {
            prover += 1;
            o.label("proof by another");
        }
        2 => {
            proven.checkpoint += 1;
            bad(o, "proof for another epoch");
        }
        3 => {
            proven.hash_prev_vrf = Hash::SHA256(t.array());
            if proven != input {
                bad(o, "proof over another input");
            }
        }
        _ => {}
    }
    let (claim, vrf_hash) = VRF.with_borrow_mut(|vrf| {
        let p = BlockEligibilityClaim::create(vrf, &key(prover).ds_secret, proven).unwrap();
        let h = p.verify(vrf, proven).unwrap();
        (p, h)
    });
    let txns = BlockTransactions::default();
    let mut beacon = CheckpointBeacon { checkpoint: e, hash_prev_block: tip.hash_prev_block };
    let mut now = e + t.below(2) as u32;
    match t.below(16) {
        1 => {
            now = e - 1;
            bad(o, "from the future");
        }
        2 => {
            // The tip itself may be of this epoch, but not of a later one.
            beacon.checkpoint = tip.checkpoint - 1;
            bad(o, "older than the tip");
        }
        3 => {
            beacon.hash_prev_block = Hash::SHA256([8; 32]);
            bad(o, "on another block");
        }
        _ => {}
    }
    let header = BlockHeader { signals: t.u32(), beacon, merkle_roots: BlockMerkleRoots::default(), proof: claim, bn256_public_key: None };
    let unsigned = Block::new(header.clone(), KeyedSignature::default(), txns.clone());
    let mut maker = who;
    let mut sig = sign_hash(who, unsigned.versioned_hash(version(beacon.checkpoint)));
    let mut block = Block::new(header, sig.clone(), txns);
    match t.below(14) {
        1 => {
            sig = sign_hash(who + 1, unsigned.versioned_hash(version(beacon.checkpoint)));
            block = Block::new(block.block_header.clone(), sig, block.txns.clone());
            maker += 1;
            o.label("signed by another");
        }
        2 => {
            let mut h = block.block_header.clone();
            match t.below(3) {
                0 => h.signals ^= 1 << t.below(32),
                1 => h.merkle_roots.mint_hash = Hash::SHA256([1; 32]),
                _ => h.proof = BlockEligibilityClaim::default(),
            }
            block = Block::new(h, sig, block.txns.clone());
            bad(o, "changed after signing");
        }
        3 => {
            sig.public_key = key(who + 1).public.clone();
            block = Block::new(block.block_header.clone(), sig, block.txns.clone());
            o.label("under another key");
        }
        _ => {}
    }
    let signer = (0..KEYS).find(|k| key(*k).public == block.block_sig.public_key).unwrap();
    let may = if era == 2 {
        let s: BTreeSet<usize> = (0..KEYS).filter(|i| s.mining_eligibility_bool(key(*i).pkh, beacon.checkpoint, rf)).collect();
        s.contains(&signer)
    } else {
        let target = randpoe(ids as u32, c.mining_backup_factor, beacon.checkpoint, c.minimum_difficulty, c.epochs_with_minimum_difficulty, n >= 2);
        o.label_if(first_u32(&vrf_hash) > target, "above the threshold");
        first_u32(&vrf_hash) <= target
    };
    fine &= may && prover == signer && maker == signer;
    let mut sigs = vec![];
    let got = validate_block(&block, now, input, tip, &mut sigs, &rep, &c, &w, &s, version(e), rf).map_err(|e| e.to_string()).and_then(|_| check_signatures(sigs).map_err(|e| e.to_string()));
    ensure_eq!(got.is_ok(), fine, "proposal of {who}, epoch {e}, {ids} identities, {} validators, {n} wips, drawn: {may}, {block:?}, {sigs:?}: {:?}", v.len(), got.as_ref().err(), sigs = unsigned.block_header);
    if let Ok(hashes) = &got {
        ensure_eq!(*hashes, vec![vrf_hash], "hashes of the proofs");
    }
    o.label_if(fine, ["accepted 1.7", "accepted 1.8", "accepted 2.0"][era]);
    o.nontrivial();
    o.show(|| format!("epoch {e}, signer {signer}, {got:?}"));
    Ok(())
}

#[derive(Clone, Debug)]
struct Candidate {
    hash: Hash,
    rep: u32,
    vrf: Hash,
    active: bool,
    power: u64,
}

fn best(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let v2 = t.bool();
    let v = if v2 { ProtocolVersion::V2_0 } else { *t.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8]) };
    let small = |t: &mut Tape| {
        let mut x = [0; 32];
        x[0] = *t.pick(&[0, 1, 0x40, 0x80, 0xff]);
        x[31] = t.below(3) as u8;
        Hash::SHA256(x)
    };
    let ids = 1 + t.below(20) as u32;
    let (lo, hi) = (1 + t.below(3) as u32, 1 + t.below(8) as u32);
    let slots = VrfSlots::from_rf(ids, lo, hi, 1000, 1, 0, &wips(13, 1000));
    let mut all: Vec<Candidate> = (0..2 + t.below(5))
        .map(|_| Candidate { hash: small(t), rep: t.below(3) as u32, vrf: small(t), active: t.bool(), power: t.below(3) as u64 * u64::from(t.u8() | 1) })
        .collect();
    let cmp = |a: &Candidate, b: &Candidate| {
        compare_block_candidates(a.hash, Reputation(a.rep), a.vrf, a.active, Power::from(a.power), b.hash, Reputation(b.rep), b.vrf, b.active, Power::from(b.power), &slots, v)
    };
    // Before wit/2: the lowest slot, somebody with reputation, somebody active; since then: the
    // greatest power. Then the lowest proof and the lowest hash.
    let rank = |x: &Candidate| {
        let Hash::SHA256(h) = x.vrf;
        let first = u32::from_be_bytes([h[0], h[1], h[2], h[3]]);
        let slot = (lo..=hi).position(|rf| first <= randpoe(ids, rf, 1000, 1, 0, true)).unwrap_or(if hi >= lo { (hi - lo + 1) as usize } else { 0 });
        if v2 { (u64::MAX - x.power, false, false, x.vrf, x.hash) } else { (slot as u64, x.rep == 0, !x.active, x.vrf, x.hash) }
    };
    for a in &all {
        for b in &all {
            let want = rank(b).cmp(&rank(a));
            ensure_eq!(cmp(a, b), want, "which of {a:?} and {b:?} is better, {v:?}");
        }
    }
    // The one that wins does not depend on the order of arrival.
    let win = |v: &[Candidate]| v.iter().fold(None, |w: Option<Candidate>, x| if w.as_ref().is_none_or(|w| cmp(x, w) == Ordering::Greater) { Some(x.clone()) } else { w }).map(|x| rank(&x));
    let first = win(&all);
    shuffle(t, &mut all);
    ensure_eq!(win(&all), first, "the winner depends on the order");
    o.nontrivial_if(all.len() > 2);
    o.show(|| format!("{v:?} {:?}", all[0]));
    Ok(())
}

fn rewards(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let initial = match t.below(3) {
        0 => 250 * WIT,
        1 => t.range(0, 1 << 40),
        _ => 1 << t.below(40),
    };
    let period = 1 + t.below(5_000_000) as u32;
    let e = if t.bool() { t.u32() } else { (t.below(70) as u32).saturating_mul(period).saturating_add(t.below(3) as u32).saturating_sub(t.below(2) as u32) };
    let want = (0..e / period).fold(initial, |x, _| x / 2);
    ensure_eq!(block_reward(e, initial, period), want, "reward at {e} of {initial} halved every {period}");
    let mut all = 0u128;
    let mut x = u128::from(initial);
    while x > 0 {
        all += x * u128::from(period);
        x /= 2;
    }
    if all <= u128::from(u64::MAX) {
        ensure_eq!(u128::from(total_block_reward(initial, period)), all, "all rewards");
    }
    o.nontrivial_if(e >= period && want > 0);
    o.show(|| format!("{initial} at {e}, period {period}: {want}"));
    Ok(())
}

/// The parameters of the main network.
fn parameters(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let c = wit2();
    let era = t.below(3);
    let e = epoch(t, era);
    let staking = era > 0;
    let v2 = era == 2;
    let missed = t.below(40) as u32;
    let factor = if v2 { 4u64.saturating_mul(1 << missed).min(65535) as u16 } else { 0 };
    ensure_eq!(c.get_replication_factor(e, e.saturating_sub(missed)), if missed <= e { factor } else { c.get_replication_factor(e, 0) }, "replication factor after {missed} epochs without a block");
    ensure_eq!(c.get_replication_factor(e, e + 1 + missed), 0, "replication factor before the last block");
    ensure_eq!(c.get_maximum_stake_block_weight(e), if staking { 20_000 } else { 0 }, "weight of stakes");
    ensure_eq!(c.get_maximum_unstake_block_weight(e), if v2 { 5_000 } else { 0 }, "weight of unstakes");
    ensure_eq!(c.get_unstaking_delay_seconds(e), if v2 { 14 * 24 * 3600 } else { 0 }, "unstaking delay");
    ensure_eq!(c.get_validator_min_stake_nanowits(e), if staking { MIN } else { 0 }, "least stake");
    ensure_eq!(c.get_validator_max_stake_nanowits(e), if staking { 1000 * MIN } else { 0 }, "greatest stake");
    ensure_eq!(c.get_validator_block_reward(e), if v2 { 50 * WIT } else { 0 }, "reward of a validator");
    let n = t.below(14);
    ensure_eq!(c.get_collateral_age(&wips(n, e)), if n >= 12 { 13_440 } else { 1000 }, "age of collateral with {n} improvement proposals");
    ensure_eq!(c.get_checkpoint_zero_timestamp_wit2(), time(V2_0), "start of wit/2");
    o.nontrivial();
    o.show(|| format!("epoch {e}, {missed} missed"));
    Ok(())
}

pub fn c27(c: &mut Check) {
    c.sub("who may propose", "all", 20_000, 400_000, || tapes(300), |b, o| proposal(&mut b.tape(), o));
    c.sub("proposers by power", "somebody in, somebody out", 20_000, 1_000_000, || tapes(300), |b, o| eligible(&mut b.tape(), o));
    c.sub("thresholds and slots of the legacy protocol", "slots that differ", 30_000, 2_000_000, || tapes(300), |b, o| thresholds(&mut b.tape(), o));
    c.sub("which candidate wins", "three or more", 30_000, 2_000_000, || tapes(300), |b, o| best(&mut b.tape(), o));
    c.sub("parameters", "all", 2_000, 50_000, || tapes(60), |b, o| parameters(&mut b.tape(), o));
    c.sub("rewards", "after a halving", 30_000, 2_000_000, || tapes(60), |b, o| rewards(&mut b.tape(), o));
}
