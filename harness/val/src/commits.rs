//! C24: who may commit to a data request and reveal a result.
use crate::{base::*, spend::rad_ok};
use std::collections::BTreeSet;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::DataRequestPool,
    proto::versioning::ProtocolVersion,
    staking::{helpers::StakeKey, stakes::StakesTracker},
    transaction::*,
    utxo_pool::{UnspentOutputsPool, UtxoDiff},
    vrf::{DataRequestEligibilityClaim, VrfCtx, VrfMessage, VrfProof},
    wit::Wit,
};
use witnet_validations::validations::*;

pub const MIN: u64 = 10_000 * WIT;

thread_local! {
    static VRF: std::cell::RefCell<VrfCtx> = std::cell::RefCell::new(VrfCtx::secp256k1().unwrap());
}

/// One entry of the stake tracker.
#[derive(Clone, Debug)]
pub struct Staked {
    pub validator: usize,
    pub withdrawer: usize,
    pub coins: u64,
    pub since: u32,
}
impl Staked {
    pub fn power(&self, now: u32) -> u64 {
        (self.coins / WIT) * u64::from(now.saturating_sub(self.since))
    }
}

pub fn staked(t: &mut Tape, now: u32, required: u64) -> (Vec<Staked>, StakesTracker) {
    let n = t.below(20);
    let mut v = vec![];
    for validator in 0..n {
        let coins = match t.below(6) {
            0 => MIN,
            1 => MIN + required,
            2 => MIN + required - 1,
            3 => MIN + t.range(0, 2 * required.min(MIN)),
            _ => t.range(MIN, 100 * MIN),
        };
        // Some just staked, or, seen from a fork, later.
        let since = match t.below(6) {
            0 => now,
            1 => now - 1,
            _ => now - t.below(50_000) as u32,
        };
        v.push(Staked { validator, withdrawer: if t.bool() { validator } else { t.below(6) }, coins, since });
    }
    let mut s = StakesTracker::default();
    for x in &v {
        let k = StakeKey { validator: key(x.validator).pkh, withdrawer: key(x.withdrawer).pkh };
        s.add_stake(k, Wit::from_nanowits(x.coins), x.since, true, Wit::from_nanowits(MIN)).unwrap();
    }
    (v, s)
}

fn bits(x: u64) -> u128 {
    u128::from(64 - x.leading_zeros())
}

/// The first 32 bits of the target of a validator, if it may be a witness at all.
pub fn target_v2(v: &[Staked], who: usize, now: u32, witnesses: u16, round: u16, max_rounds: u16) -> Option<u32> {
    let own = v.iter().find(|x| x.validator == who)?.power(now);
    let mut powers: Vec<u64> = v.iter().map(|x| x.power(now)).collect();
    powers.sort_unstable_by(|a, b| b.cmp(a));
    let quantile = (1usize << round) * usize::from(witnesses);
    let threshold = powers.get(quantile - 1).copied().unwrap_or(0);
    if own == 0 || own <= threshold {
        return None;
    }
    let divisor = u128::from(round) * bits(threshold) + u128::from(max_rounds - round) * bits(powers[0]);
    if divisor == 0 {
        return Some(u32::MAX);
    }
    let t = (u128::from(u64::MAX) / divisor * (u128::from(max_rounds) * bits(own))).min(u128::from(u64::MAX));
    Some((t >> 32) as u32)
}

/// The target of the protocol versions before 2.0.
pub fn target_v1(e: &ReputationEngine, who: usize, witnesses: u16, round: u16, difficulty: u32, n_wips: usize) -> u32 {
    let pkh = &key(who).pkh;
    let total = u128::from(e.total_active_reputation().max(1));
    let own = u128::from(e.get_eligibility(pkh)) + 1;
    let max = u128::from(u64::MAX);
    let sat = |x: u128| x.min(max);
    let wanted = witnesses + (u32::from(witnesses) * (1 << (round.max(1) - 1)) / 2) as u16;
    let t = if n_wips >= 4 {
        max / total.max(u128::from(difficulty)) * own * u128::from(wanted)
    } else {
        let factor = u128::from(e.threshold_factor(wanted));
        let one = sat(max / total * own);
        if n_wips >= 3 { one.min(max / u128::from(difficulty)) * factor } else { one * factor }
    };
    (sat(t) >> 32) as u32
}

pub fn first_u32(h: &Hash) -> u32 {
    let Hash::SHA256(x) = h;
    u32::from_be_bytes([x[0], x[1], x[2], x[3]])
}

pub fn engine(t: &mut Tape) -> ReputationEngine {
    let mut e = ReputationEngine::new(100);
    for _ in 0..t.below(3) {
        let active: Vec<_> = (0..t.below(5)).map(|_| key(t.below(8)).pkh).collect();
        e.ars_mut().push_activity(active);
    }
    let rep: Vec<_> = (0..t.below(4)).map(|_| (key(t.below(8)).pkh, Reputation(t.range(1, 1000) as u32))).collect();
    e.trs_mut().gain(Alpha(10), rep).unwrap();
    e
}

/// A proof of eligibility of the kind of the epoch in which the request was included.
pub fn claim(version: ProtocolVersion, who: usize, input: CheckpointVRF, dr: Hash, withdrawer: Option<PublicKeyHash>) -> (DataRequestEligibilityClaim, Hash) {
    VRF.with_borrow_mut(|vrf| {
        let message = if version >= ProtocolVersion::V2_0 {
            VrfMessage::data_request_v2(input, dr, withdrawer)
        } else {
            VrfMessage::data_request_v1(input, dr)
        };
        let (proof, hash) = VrfProof::create(vrf, &key(who).ds_secret, &message).unwrap();
        (DataRequestEligibilityClaim { proof }, hash)
    })
}

#[derive(Clone, Debug)]
struct Out {
    ptr: OutputPointer,
    owner: usize,
    value: u64,
    lock: u64,
    block: u32,
    live: bool,
    fresh: bool,
}

fn commits(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = *t.pick(&[2, 1, 0, 2, 1, 2]);
    let e = match era {
        1 if t.odds(60) => 2_245_000 + t.below(2) as u32,
        _ => epoch(t, era),
    };
    let e = e.max(60_000);
    let v2 = era == 2;
    let now = time(e);
    let n_wips = if era == 0 { 13 - t.below(14) } else { 13 };
    let mut good = true;

    // The request and how far it got.
    let witnesses = *t.pick(&[1u16, 2, 3, 8, 100]);
    let collateral = match t.below(4) {
        0 => 0,
        1 => WIT,
        _ => t.range(WIT, 300 * WIT),
    };
    let required = if collateral == 0 { WIT } else { collateral };
    let mut rad = rad_ok();
    if t.odds(40) {
        rad.time_lock = *t.pick(&[now as u64, now as u64 + 1, u64::MAX, now as u64 - 1]);
        if n_wips == 0 && i64::try_from(rad.time_lock).map_or(true, |l| l > now) {
            good = false;
        }
    }
    let output = DataRequestOutput { data_request: rad, witness_reward: WIT / 125, witnesses, commit_and_reveal_fee: t.range(0, WIT), min_consensus_percentage: 51, collateral };
    let extra = 1 + t.below(3) as u16;
    let dr_epoch = e - 1 - t.below(5) as u32;
    let request = DRTransaction::new(DRTransactionBody::new(vec![], output.clone(), vec![]), vec![sign_hash(23, Hash::default())]);
    let mut drs = DataRequestPool::new(extra);
    drs.process_data_request(&request, dr_epoch, None).unwrap();
    let dr = *drs.data_request_pool.keys().next().unwrap();
    let round = 1 + t.below(usize::from(extra) + 1) as u16;
    for _ in 0..round {
        drs.update_data_request_stages(Some(1000), Some(e));
    }
    match t.below(24) {
        23 => {
            for _ in 0..5 {
                drs.update_data_request_stages(Some(1000), Some(e));
            }
            good = false;
            o.label("request given up");
        }
        22 => {
            let other = CommitTransaction::new(CommitTransactionBody::without_collateral(dr, Hash::default(), Default::default()), vec![sign_hash(22, Hash::default())]);
            drs.process_commit(&other, e, &Hash::default()).unwrap();
            drs.update_data_request_stages(Some(1000), Some(e));
            good = false;
            o.label("request in reveal stage");
        }
        _ => {}
    }

    // The committer, and what makes it eligible.
    let who = t.below(6);
    let rep = engine(t);
    let difficulty = *t.pick(&[1, 2, 3, 5, 2000]);
    let (stakes, tracker) = staked(t, e, required);
    let own = stakes.iter().find(|x| x.validator == who);
    let target = if v2 { target_v2(&stakes, who, e, witnesses, round, extra + 1) } else { Some(target_v1(&rep, who, witnesses, round, difficulty, n_wips)) };
    let withdrawer = own.map(|x| key(x.withdrawer).pkh).filter(|_| v2);
    let input = CheckpointVRF { checkpoint: e, hash_prev_vrf: Hash::SHA256(t.array()) };
    let kind = version(dr_epoch);
    let (mut proof, mut vrf_hash) = claim(kind, who, input, dr, withdrawer);
    let mut named = dr;
    match t.below(30) {
        29 => {
            (proof, vrf_hash) = claim(kind, who, CheckpointVRF { checkpoint: e - 1, ..input }, dr, withdrawer);
            good = false;
            o.label("proof for another epoch");
        }
        28 => {
            let Hash::SHA256(mut h) = input.hash_prev_vrf;
            h[t.below(32)] ^= 1 << t.below(8);
            (proof, vrf_hash) = claim(kind, who, CheckpointVRF { hash_prev_vrf: Hash::SHA256(h), ..input }, dr, withdrawer);
            good = false;
            o.label("proof for another seed");
        }
        27 => {
            let Hash::SHA256(mut h) = dr;
            h[t.below(32)] ^= 1 << t.below(8);
            (proof, vrf_hash) = claim(kind, who, input, Hash::SHA256(h), withdrawer);
            good = false;
            o.label("proof for another request");
        }
        26 => {
            let w = Some(key(t.below(6)).pkh);
            (proof, vrf_hash) = claim(kind, who, input, dr, w);
            if kind >= ProtocolVersion::V2_0 && w != withdrawer {
                good = false;
                o.label("proof for another withdrawer");
            }
        }
        25 => {
            // The proof of one key presented by another.
            let mut p: serde_json::Value = serde_json::to_value(&proof).unwrap();
            let (q, _) = claim(kind, (who + 1) % 6, input, dr, withdrawer);
            p["proof"]["public_key"] = serde_json::to_value(&q).unwrap()["proof"]["public_key"].clone();
            proof = serde_json::from_value(p).unwrap();
            good = false;
            o.label("proof under another key");
        }
        24 => {
            let mut p: serde_json::Value = serde_json::to_value(&proof).unwrap();
            let a = p["proof"]["proof"].as_array_mut().unwrap();
            let at = t.below(a.len());
            a[at] = (a[at].as_u64().unwrap() ^ (1 << t.below(8))).into();
            proof = serde_json::from_value(p).unwrap();
            good = false;
            o.label("damaged proof");
        }
        23 => {
            let Hash::SHA256(mut h) = dr;
            h[t.below(32)] ^= 1 << t.below(8);
            named = Hash::SHA256(h);
            good = false;
            o.label("unknown request");
        }
        22 => {
            let other = if kind >= ProtocolVersion::V2_0 { ProtocolVersion::V1_8 } else { ProtocolVersion::V2_0 };
            (proof, vrf_hash) = claim(other, who, input, dr, withdrawer);
            good = false;
            o.label("proof of another version");
        }
        _ => {}
    }
    let selected = match target {
        None => false,
        Some(x) => first_u32(&vrf_hash) <= x,
    };
    o.label_if(target.is_none(), "not eligible");
    o.label_if(target.is_some() && !selected, "not selected");

    // Its coins.
    let block = 100 + t.below(2000) as u32;
    let age = 1 + t.below(50) as u32;
    let superblock = 1 + t.below(10) as u16;
    let settled = block.saturating_sub(2 * u32::from(superblock));
    let n = t.below(6);
    let outs: Vec<Out> = (0..n)
        .map(|i| Out {
            ptr: ptr(100, i as u32),
            owner: if t.odds(40) { t.below(6) } else { who },
            value: match t.below(6) {
                0 => required,
                1 => required / 2,
                2 => 100 * WIT,
                3 => (100 * WIT).abs_diff(required) + 1,
                4 => 100 * WIT - 1,
                _ => t.range(1, 200 * WIT),
            },
            lock: match t.below(20) {
                19 => now as u64 + 1,
                18 => u64::MAX,
                17 => now as u64,
                _ => 0,
            },
            block: match t.below(8) {
                0 => block - age,
                7 => block - age + 1,
                1 => settled,
                2 => settled.saturating_sub(1),
                _ => t.below(block as usize - 60) as u32,
            },
            live: !t.odds(10),
            fresh: t.odds(12),
        })
        .collect();
    let mut base = UnspentOutputsPool::default();
    for c in outs.iter().filter(|c| !c.fresh) {
        base.insert(c.ptr, ValueTransferOutput { pkh: key(c.owner).pkh, value: c.value, time_lock: c.lock }, c.block);
    }
    let mut diff = UtxoDiff::new(&base, block);
    for c in &outs {
        if c.fresh {
            diff.insert_utxo(c.ptr, ValueTransferOutput { pkh: key(c.owner).pkh, value: c.value, time_lock: c.lock }, None);
        }
        if !c.live {
            diff.remove_utxo(c.ptr);
        }
    }
    let may = |c: &Out| c.live && c.owner == who && i64::try_from(c.lock).is_ok_and(|l| l <= now) && !c.fresh && c.block <= block.saturating_sub(age);
    let mut picked: Vec<Option<usize>> = (0..outs.len()).filter(|i| may(&outs[*i])).map(Some).collect();
    if v2 && !t.odds(60) {
        picked.clear();
    }
    picked.truncate(1 + t.below(4));
    match t.below(16) {
        15 if n > 0 => picked.push(Some(t.below(n))),
        14 => picked.push(None),
        13 if !picked.is_empty() => picked.push(picked[0]),
        _ => {}
    }
    let sum: u64 = picked.iter().flatten().map(|i| outs[*i].value).sum();
    let deposit = if v2 { 0 } else { required };
    let mut change: Vec<ValueTransferOutput> = match t.below(12) {
        11 => vec![sum.wrapping_sub(deposit).wrapping_add(1)],
        10 => vec![sum.wrapping_sub(deposit).wrapping_sub(1)],
        9 => vec![sum],
        8 => vec![sum.wrapping_sub(required)],
        7 => vec![sum.wrapping_sub(deposit).wrapping_sub(1), 1],
        6 => vec![sum.wrapping_sub(deposit), 0],
        _ if sum == deposit => vec![],
        _ => vec![sum.wrapping_sub(deposit)],
    }
    .into_iter()
    .map(|value| ValueTransferOutput { pkh: key(who).pkh, value, time_lock: if t.odds(20) { t.u64() } else { 0 } })
    .collect();
    if let Some(c) = change.first_mut().filter(|_| t.odds(10)) {
        c.pkh = key(t.below(6)).pkh;
    }

    let inputs: Vec<Input> = picked.iter().map(|i| Input::new(i.map_or(ptr(200, 3), |i| outs[i].ptr))).collect();
    let body = CommitTransactionBody::new(named, Hash::SHA256(t.array()), proof, inputs, change.clone(), None);
    let hash = body.hash();
    let mut sigs = vec![sign_hash(who, hash)];
    match t.below(24) {
        23 => {
            sigs = vec![sign_hash((who + 1) % 6, hash)];
            good = false;
            o.label("signed by somebody else");
        }
        22 => {
            sigs = vec![sign_hash(who, Hash::SHA256(t.array()))];
            good = false;
            o.label("signature of something else");
        }
        21 => {
            sigs.clear();
            good = false;
            o.label("not signed");
        }
        20 => {
            sigs.push(sign_hash(who, hash));
            good = false;
            o.label("signed twice");
        }
        19 => {
            sigs[0].signature = sign_hash((who + 1) % 6, hash).signature;
            good = false;
            o.label("signature under another key");
        }
        _ => {}
    }
    let tx = CommitTransaction::new(body, sigs);

    // What the rules say.
    let mut seen = BTreeSet::new();
    let paid = picked.iter().all(|i| i.is_some_and(|i| may(&outs[i]) && seen.insert(i)));
    let out: u128 = change.iter().map(|c| u128::from(c.value)).sum();
    let change_ok = change.len() <= 1 && change.iter().all(|c| c.value > 0 && c.pkh == key(who).pkh);
    let funded = paid && u128::from(sum).checked_sub(out) == Some(u128::from(deposit));
    let balance: u64 = outs.iter().filter(|c| c.live && !c.fresh && c.owner == who && c.block < settled).map(|c| c.value).sum();
    let qualified = v2 || e <= 2_245_000 || balance >= 100 * WIT;
    let backed = !v2 || own.is_some_and(|x| x.coins >= MIN + required);
    let allowed = good && selected && change_ok && funded && qualified && backed;

    let check = |e: u32| {
        let mut s = vec![];
        let r = validate_commit_transaction(
            &tx, &drs, input, &mut s, &rep, e, epochs(), &diff, WIT, age, block, difficulty, &wips(n_wips, e), superblock, version(e), &tracker, extra + 1, MIN,
        );
        r.map_err(|e| e.to_string()).and_then(|x| check_signatures(s).map(|_| x).map_err(|e| e.to_string()))
    };
    let got = check(e);
    o.label_if(!qualified && paid && !picked.is_empty(), "less than 100 coins to its name");
    o.label_if(!backed && selected, "stake too small for the collateral");
    match (&got, allowed) {
        (Ok(x), true) => {
            ensure_eq!(*x, (dr, witnesses, output.commit_and_reveal_fee), "what the commit is for");
            o.nontrivial();
            o.label(["valid, 1.7", "valid, 1.8", "valid, 2.0"][era]);
            o.label_if(qualified && era == 1 && e > 2_245_000, "valid, qualified");
            o.label_if(round > 1, "valid, later round");
            let mut after = drs.clone();
            after.process_commit(&tx, e, &Hash::default()).map_err(|e| e.to_string())?;
            let info = &after.data_request_state(&dr).unwrap().info;
            ensure!(info.commits.len() == 1 && info.commits.get(&key(who).pkh) == Some(&tx), "the commit is recorded");
            o.show(|| format!("{} inputs, round {round}", picked.len()));
        }
        (Err(_), false) => {}
        (Ok(_), false) => {
            return Err(format!(
                "accepted, though: good {good}, target {target:?} hash {vrf_hash}, selected {selected}, change {change_ok}, funded {funded}, qualified {qualified}, backed {backed}: {tx:?}"
            ));
        }
        (Err(x), true) => return Err(format!("refused ({x}): {tx:?}, epoch {e}, round {round}, target {target:?}")),
    }
    // The same commit alone, from the network.
    if outs.iter().all(|c| c.live && !c.fresh) && era != 2 {
        let mut s = vec![];
        let mut c = ConsensusConstants { ..constants() };
        c.collateral_age = age;
        let r = validate_new_transaction(
            &Transaction::Commit(tx.clone()),
            (&rep, &base, &drs),
            input,
            e,
            epochs(),
            block,
            &mut s,
            WIT,
            age,
            c.max_vt_weight,
            c.max_dr_weight,
            difficulty,
            125,
            &wips(n_wips, e),
            superblock,
            &tracker,
            version(e),
            extra + 1,
            &wit2(),
        );
        let r = r.map_err(|e| e.to_string()).and_then(|x| check_signatures(s).map(|_| x).map_err(|e| e.to_string()));
        ensure_eq!(r.ok(), got.ok().map(|x| x.2), "the same commit from the network");
    }
    Ok(())
}

pub fn sign_reveal(who: usize, dr: Hash, value: Vec<u8>) -> RevealTransaction {
    let body = RevealTransactionBody::new(dr, value, key(who).pkh);
    let h = body.hash();
    RevealTransaction::new(body, vec![sign_hash(who, h)])
}

fn reveals(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let era = t.below(3);
    let e = epoch(t, era).max(100);
    let extra = 1 + t.below(3) as u16;
    let witnesses = 1 + t.below(5) as u16;
    let output = DataRequestOutput { data_request: rad_ok(), witness_reward: 1, witnesses, commit_and_reveal_fee: t.range(0, WIT), min_consensus_percentage: 51, collateral: 0 };
    let mut drs = DataRequestPool::new(extra);
    let mut ids = vec![];
    for i in 0..2 {
        let r = DRTransaction::new(
            DRTransactionBody::new(vec![Input::new(ptr(i, 0))], output.clone(), vec![]),
            vec![sign_hash(23, Hash::default())],
        );
        ids.push(r.body.hash());
        drs.process_data_request(&r, e - 3, None).unwrap();
    }
    ensure!(ids.iter().all(|i| drs.data_request_state(i).is_some()), "requests are kept by their hash");
    // Who committed to what.
    let value = |i: usize| vec![0x18, i as u8];
    let mut committed: Vec<(usize, usize)> = vec![];
    drs.update_data_request_stages(Some(1000), Some(e - 3));
    for d in 0..2 {
        for who in 0..6 {
            if committed.iter().filter(|x| x.0 == d).count() < usize::from(witnesses) && t.odds(140) {
                let body = RevealTransactionBody::new(ids[d], value(who), key(who).pkh);
                let commitment = sign_hash(who, body.hash()).signature.hash();
                let body = CommitTransactionBody::without_collateral(ids[d], commitment, Default::default());
                let h = body.hash();
                drs.process_commit(&CommitTransaction::new(body, vec![sign_hash(who, h)]), e - 2, &Hash::default()).unwrap();
                committed.push((d, who));
            }
        }
    }
    let late = t.odds(20);
    if !t.odds(20) {
        drs.update_data_request_stages(Some(1000), Some(e - 2));
        if late {
            for _ in 0..6 {
                drs.update_data_request_stages(Some(1000), Some(e - 2));
            }
        }
    }
    let mut revealed: Vec<(usize, usize)> = vec![];
    for _ in 0..1 + t.below(8) {
        let (d, who) = if committed.is_empty() || t.odds(30) { (t.below(2), t.below(6)) } else { *t.pick(&committed) };
        let body = RevealTransactionBody::new(ids[d], value(who), key(who).pkh);
        let mut tx = RevealTransaction::new(body.clone(), vec![sign_hash(who, body.hash())]);
        let mut good = true;
        match t.below(16) {
            15 => {
                let body = RevealTransactionBody::new(ids[d], value(who + 1), key(who).pkh);
                tx = RevealTransaction::new(body.clone(), vec![sign_hash(who, body.hash())]);
                good = false;
                o.label("another value than committed to");
            }
            14 => {
                let other = (who + 1) % 6;
                let body = RevealTransactionBody::new(ids[d], value(who), key(other).pkh);
                tx = RevealTransaction::new(body.clone(), vec![sign_hash(who, body.hash())]);
                good = false;
                o.label("reward for somebody else");
            }
            13 => {
                let other = (who + 1) % 6;
                let body = RevealTransactionBody::new(ids[d], value(who), key(who).pkh);
                tx = RevealTransaction::new(body.clone(), vec![sign_hash(other, body.hash())]);
                good = false;
                o.label("signed by somebody else");
            }
            12 => {
                // A copy of somebody's value, signed by the copier.
                let other = (who + 1) % 6;
                let body = RevealTransactionBody::new(ids[d], value(who), key(other).pkh);
                tx = RevealTransaction::new(body.clone(), vec![sign_hash(other, body.hash())]);
                good = false;
                o.label("a copy");
            }
            11 => {
                tx.signatures.push(tx.signatures[0].clone());
                good = false;
                o.label("signed twice");
            }
            10 => {
                tx.signatures.clear();
                good = false;
                o.label("not signed");
            }
            9 => {
                // The committed signature with another content.
                let s = tx.signatures.clone();
                tx = RevealTransaction::new(RevealTransactionBody::new(ids[d], value(who + 7), key(who).pkh), s);
                good = false;
                o.label("content replaced under the signature");
            }
            8 => {
                let s = tx.signatures.clone();
                tx = RevealTransaction::new(RevealTransactionBody::new(ids[1 - d], value(who), key(who).pkh), s);
                good = false;
                o.label("reveal of another request");
            }
            7 => {
                tx = RevealTransaction::new(RevealTransactionBody::new(Hash::SHA256(t.array()), value(who), key(who).pkh), tx.signatures.clone());
                good = false;
                o.label("unknown request");
            }
            _ => {}
        }
        let stage = drs.data_request_state(&ids[d]).unwrap().stage;
        let allowed = good && stage == DataRequestStage::REVEAL && committed.contains(&(d, who)) && !revealed.contains(&(d, who));
        let mut s = vec![];
        let r = validate_reveal_transaction(&tx, &drs, &mut s);
        let r = r.map_err(|e| e.to_string()).and_then(|x| check_signatures(s).map(|_| x).map_err(|e| e.to_string()));
        match (r, allowed) {
            (Ok(fee), true) => {
                ensure_eq!(fee, output.commit_and_reveal_fee, "fee");
                drs.process_reveal(&tx, e - 1, &Hash::default()).map_err(|e| e.to_string())?;
                revealed.push((d, who));
                ensure!(drs.data_request_state(&ids[d]).unwrap().info.reveals.get(&key(who).pkh) == Some(&tx), "the reveal is recorded");
                o.nontrivial();
                o.label("valid");
            }
            (Err(_), false) => {
                o.label_if(good && stage == DataRequestStage::COMMIT, "too early");
                o.label_if(good && stage == DataRequestStage::TALLY, "too late");
                o.label_if(good && revealed.contains(&(d, who)), "revealed before");
            }
            (Ok(_), false) => return Err(format!("accepted in stage {stage:?}, {good} {committed:?} {revealed:?}: {tx:?}")),
            (Err(x), true) => return Err(format!("refused ({x}): {tx:?}")),
        }
    }
    Ok(())
}

/// What a proof of eligibility is about, in bytes: the schema's encoding of all its parts.
fn messages(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let input = CheckpointVRF { checkpoint: *t.pick(&[0, 1, 7, 1 << 20, u32::MAX]), hash_prev_vrf: Hash::SHA256(t.array()) };
    let dr = Hash::SHA256(t.array());
    let w = t.option(|t| PublicKeyHash::from_bytes(&t.bytes(20)).unwrap_or(key(t.below(24)).pkh));
    let field = |n: u8, body: &[u8]| [&[n << 3 | 2, body.len() as u8], body].concat();
    let Hash::SHA256(h) = input.hash_prev_vrf;
    let mut beacon = vec![];
    if input.checkpoint != 0 {
        beacon.push(1 << 3 | 5);
        beacon.extend(input.checkpoint.to_le_bytes());
    }
    beacon.extend(field(2, &field(1, &h)));
    let Hash::SHA256(d) = dr;
    let v1 = [field(1, &beacon), field(2, &field(1, &d))].concat();
    let who = w.map_or([0; 20], |w| {
        let mut x = [0; 20];
        x.copy_from_slice(w.as_ref());
        x
    });
    let v2 = [v1.clone(), field(3, &field(1, &who))].concat();
    let raw = |m: &VrfMessage| -> Vec<u8> { bincode::deserialize(&bincode::serialize(m).unwrap()).unwrap() };
    ensure_eq!(hex::encode(raw(&VrfMessage::data_request_v1(input, dr))), hex::encode(&v1), "message of the first kind");
    ensure_eq!(hex::encode(raw(&VrfMessage::data_request_v2(input, dr, w))), hex::encode(&v2), "message of the second kind");
    ensure_eq!(hex::encode(raw(&VrfMessage::block_mining(input))), hex::encode(&beacon), "message of a block");
    o.nontrivial_if(w.is_some());
    Ok(())
}

pub fn c24(c: &mut Check) {
    c.sub("a commit is accepted exactly when it may be", "the commit keeps every rule", 30_000, 500_000, || long_tapes(500), |b, o| commits(&mut b.tape(), o));
    c.sub("a reveal is accepted exactly when it may be, once", "some reveal is accepted", 15_000, 300_000, || long_tapes(300), |b, o| reveals(&mut b.tape(), o));
    c.sub("what a proof of eligibility commits to", "names a withdrawer", 5_000, 100_000, || long_tapes(120), |b, o| messages(&mut b.tape(), o));
}
