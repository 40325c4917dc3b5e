//! C25: how a data request is resolved and who is paid for it.
use crate::{base::*, commits::sign_reveal, spend::rad_ok};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::*,
    data_request::{DataRequestPool, create_tally},
    proto::versioning::ProtocolVersion,
    transaction::*,
};
use witnet_validations::validations::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Val {
    Int(u8),
    Text(u8),
    Error(u8),
    /// Not CBOR.
    Bad,
}
impl Val {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Val::Int(i) => vec![*i],
            Val::Text(c) => vec![0x61, *c],
            Val::Error(0) => vec![0xd8, 0x27, 0x81, 0x00],
            Val::Error(n) => vec![0xd8, 0x27, 0x82, 0x18, 0x30, 0x19, 0x01, *n],
            Val::Bad => vec![0xff],
        }
    }
    fn kind(&self) -> u8 {
        match self {
            Val::Int(_) => 0,
            Val::Text(_) => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Bytes(Vec<u8>),
    Code(u8),
}

/// What the witnesses agreed on.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub answer: Answer,
    /// In consensus; in the order of the reveals.
    pub honest: Vec<bool>,
    /// Revealed an error, or are treated as if.
    pub errors: Vec<bool>,
}

/// The protocol's consensus rules, in exact arithmetic.
pub fn consensus(v: &[Val], commits: usize, min: u32, script: usize, too_many: bool) -> Outcome {
    let n = v.len();
    let fail = |code| Outcome { answer: Answer::Code(code), honest: vec![false; n], errors: vec![true; n] };
    let enough = |k: usize| k as u64 * 100 >= u64::from(min) * commits as u64;
    if too_many {
        return fail(0x54);
    }
    if commits == 0 {
        return fail(0x52);
    }
    if n == 0 {
        return fail(0x50);
    }
    let count = |k| v.iter().filter(|x| x.kind() == k).count();
    let Some(kind) = (0..3).find(|k| enough(count(*k))) else {
        return fail(0x51);
    };
    if kind == 2 {
        let mut m: BTreeMap<&Val, usize> = BTreeMap::new();
        for x in v.iter().filter(|x| x.kind() == 2) {
            *m.entry(x).or_default() += 1;
        }
        return match m.iter().find(|x| enough(*x.1)) {
            None => fail(0x51),
            Some((Val::Bad, _)) => Outcome { answer: Answer::Bytes(vec![0xd8, 0x27, 0x81, 0x18, 0x60]), honest: vec![true; n], errors: vec![true; n] },
            Some((x, _)) => Outcome { answer: Answer::Bytes(x.bytes()), honest: vec![true; n], errors: vec![true; n] },
        };
    }
    let mut honest: Vec<bool> = v.iter().map(|x| x.kind() == kind).collect();
    let errors: Vec<bool> = v.iter().map(|x| x.kind() == 2).collect();
    let values: Vec<&Val> = v.iter().filter(|x| x.kind() == kind).collect();
    let mut m: BTreeMap<&Val, usize> = BTreeMap::new();
    for x in &values {
        *m.entry(*x).or_default() += 1;
    }
    let most = m.values().max().unwrap();
    let mode: Vec<&&Val> = m.iter().filter(|x| x.1 == most).map(|x| x.0).collect();
    // A script that fails leaves those who agree on the type honest.
    let failed = Answer::Code(0xff);
    let answer = match script {
        0 | 1 => {
            if mode.len() > 1 {
                return Outcome { answer: failed, honest, errors };
            }
            if script == 1 {
                for (h, x) in honest.iter_mut().zip(v) {
                    *h &= x == *mode[0];
                }
            }
            mode[0].bytes()
        }
        _ => {
            if kind == 1 {
                return Outcome { answer: failed, honest, errors };
            }
            let sum: usize = values.iter().map(|x| x.bytes()[0] as usize).sum();
            vec![((2 * sum + values.len()) / (2 * values.len())) as u8]
        }
    };
    let k = honest.iter().filter(|x| **x).count();
    if k as u64 * 100 <= u64::from(min) * commits as u64 {
        return fail(0x51);
    }
    Outcome { answer: Answer::Bytes(answer), honest, errors }
}

pub fn tally_script(script: usize) -> RADTally {
    match script {
        0 => RADTally { filters: vec![], reducer: 2 },
        1 => RADTally { filters: vec![RADFilter { op: 8, args: vec![] }], reducer: 2 },
        _ => RADTally { filters: vec![], reducer: 3 },
    }
}

type Outs = BTreeMap<(PublicKeyHash, u64, u64), usize>;
fn outs(v: &[ValueTransferOutput]) -> Outs {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry((x.pkh, x.value, x.time_lock)).or_default() += 1;
    }
    m
}
fn sorted(v: &[PublicKeyHash]) -> Vec<PublicKeyHash> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn tallies(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    // Legacy rewards are shared, newer ones are not; from 2.0 on they are paid to the stake.
    let era = *t.pick(&[2, 2, 1, 0]);
    let n_wips = if era == 0 { 13 - t.below(12) } else { 13 };
    let shared = n_wips < 8;
    let e = epoch(t, era).max(100);
    let v2 = era == 2;
    let pv = version(e);
    let wips = wips(n_wips, e);
    // At the activation of 2.0 some requests are of before.
    let dr_epoch = e - 1 - t.below(8) as u32;

    let witnesses = 1 + t.below(8);
    let min = if t.bool() { 51 } else { 51 + t.below(49) as u32 };
    let script = t.below(3);
    let too_many = v2 && t.odds(25);
    let n_commits = if too_many || t.odds(16) { 0 } else { witnesses };
    let mut committers: Vec<usize> = (0..12).collect();
    shuffle(t, &mut committers);
    committers.truncate(n_commits);
    let style = t.below(4);
    let mut votes: Vec<(usize, Val)> = vec![];
    for who in &committers {
        if t.odds(if style == 3 { 128 } else { 16 }) {
            continue;
        }
        let x = match (style, t.below(16)) {
            (_, 15) => Val::Error(0),
            (_, 14) => Val::Bad,
            (_, 13) => Val::Text(b'a'),
            (_, 12) => Val::Int(t.below(20) as u8),
            (_, 11) => Val::Error(0x94),
            (0, _) => Val::Int(3),
            (1, _) => Val::Int(2 + t.below(2) as u8),
            (2, _) => Val::Error(0x94 + t.odds(40) as u8),
            _ => Val::Text(b'a' + t.odds(60) as u8),
        };
        votes.push((*who, x));
    }
    let values: Vec<Val> = votes.iter().map(|x| x.1.clone()).collect();
    let requester = if t.odds(40) { t.below(12) } else { 20 };
    let (reward, fee) = (t.range(1, 2 * WIT), if t.bool() { t.range(0, WIT / 10) } else { 0 });
    let mut collateral = if t.bool() { t.range(WIT, 125 * WIT) } else { 0 };

    // What is due to whom.
    let out = consensus(&values, n_commits, min, script, too_many && dr_epoch >= V2_0);
    let honest: Vec<usize> = votes.iter().zip(&out.honest).filter(|x| *x.1).map(|x| x.0.0).collect();
    let h = honest.len() as u64;
    let (w, c, r) = (witnesses as u64, n_commits as u64, votes.len() as u64);
    let change = reward * (w - h) + fee * (w - r) + fee * (w - c);
    if v2 && t.odds(60) && change > reward {
        // The change is as much as the reward of a witness.
        collateral = if h > 0 { change - reward } else { change };
        o.label("change that looks like a reward");
    }
    let deposit = if collateral == 0 { WIT } else { collateral };
    let error_set: BTreeSet<usize> = votes.iter().zip(&out.errors).filter(|x| *x.1).map(|x| x.0.0).collect();
    let out_set: BTreeSet<usize> = committers.iter().copied().filter(|x| !honest.contains(x)).collect();
    // Those who lied or did not reveal pay; those with an error of their own do not.
    let liars: BTreeSet<usize> = if h == 0 { BTreeSet::new() } else { out_set.iter().copied().filter(|x| !error_set.contains(x)).collect() };
    let mut due: Vec<(usize, u64)> = vec![];
    let mut to_miner = 0;
    if !v2 {
        if h > 0 {
            let slashed = deposit * liars.len() as u64;
            let share = if shared { slashed / h } else { 0 };
            to_miner = if shared { slashed % h } else { 0 };
            due.extend(honest.iter().map(|x| (*x, reward + deposit + share)));
            due.extend(out_set.iter().filter(|x| error_set.contains(x)).map(|x| (*x, deposit)));
        } else {
            due.extend(committers.iter().map(|x| (*x, deposit)));
        }
    }
    if change > 0 {
        due.push((requester, change));
    }
    if !v2 {
        let burnt = if shared { 0 } else { deposit * liars.len() as u64 };
        let paid: u64 = due.iter().map(|x| x.1).sum();
        assert_eq!(w * (reward + 2 * fee) + deposit * c, paid + to_miner + burnt + fee * (c + r), "the reference conserves value");
    }

    // The same through the code.
    let mut rad = rad_ok();
    rad.tally = tally_script(script);
    let output =
        DataRequestOutput { data_request: rad, witness_reward: reward, witnesses: witnesses as u16, commit_and_reveal_fee: fee, min_consensus_percentage: min, collateral };
    let mut pool = DataRequestPool::new(2);
    let dr_tx = DRTransaction::new(DRTransactionBody::new(vec![], output.clone(), vec![]), vec![sign_hash(requester, Hash::default())]);
    pool.process_data_request(&dr_tx, dr_epoch, None).unwrap();
    let dr = *pool.data_request_pool.keys().next().unwrap();
    let validators = if too_many { t.below(2 * witnesses) } else { 1000 };
    pool.update_data_request_stages(Some(1000), Some(e));
    for who in &committers {
        let body = CommitTransactionBody::without_collateral(dr, Hash::default(), Default::default());
        let h = body.hash();
        pool.process_commit(&CommitTransaction::new(body, vec![sign_hash(*who, h)]), e, &Hash::default()).unwrap();
    }
    pool.update_data_request_stages(Some(1000), Some(e));
    let early = t.odds(10);
    for (who, x) in &votes {
        pool.process_reveal(&sign_reveal(*who, dr, x.bytes()), e, &Hash::default()).unwrap();
    }
    if !early {
        for _ in 0..6 {
            pool.update_data_request_stages(Some(1000), Some(e));
        }
    }
    let in_tally = pool.data_request_state(&dr).unwrap().stage == DataRequestStage::TALLY;
    ensure_eq!(in_tally, !early, "stage of the request");

    let reveals = pool.get_reveals(&dr, &wips).unwrap();
    let report = run_tally_panic_safe(&reveals, &output.data_request.tally, f64::from(min) / 100.0, n_commits, &wips, too_many && dr_epoch >= V2_0);
    let tx = create_tally(
        dr,
        &output,
        key(requester).pkh,
        &report,
        reveals.iter().map(|x| x.body.pkh).collect(),
        committers.iter().map(|x| key(*x).pkh).collect::<HashSet<_>>(),
        WIT,
        tally_bytes_on_encode_error(),
        &wips,
        pv,
    );
    let pkhs = |s: &BTreeSet<usize>| sorted(&s.iter().map(|x| key(*x).pkh).collect::<Vec<_>>());
    match &out.answer {
        Answer::Bytes(b) => ensure_eq!(hex::encode(&tx.tally), hex::encode(b), "result of {values:?}"),
        Answer::Code(c) => {
            let tail = if *c < 24 { vec![*c] } else { vec![0x18, *c] };
            ensure!(tx.tally.starts_with(&[0xd8, 0x27]) && tx.tally[3..].starts_with(&tail), "error {c:#x} of {values:?}: {}", hex::encode(&tx.tally));
        }
    }
    ensure_eq!(sorted(&tx.out_of_consensus), pkhs(&out_set), "out of consensus, {values:?}");
    ensure_eq!(sorted(&tx.error_committers), pkhs(&error_set), "errors, {values:?}");
    let want: Vec<ValueTransferOutput> = due.iter().map(|(x, v)| ValueTransferOutput { pkh: key(*x).pkh, value: *v, time_lock: 0 }).collect();
    ensure_eq!(outs(&tx.outputs), outs(&want), "payments, {values:?}");

    let mut constants = constants();
    constants.collateral_minimum = WIT;
    let named: HashSet<Hash> = if t.bool() { [dr].into() } else { HashSet::new() };
    // A request for too many witnesses can only be resolved in the block that brings it.
    let too_many_now = v2 && dr_epoch >= V2_0 && witnesses > validators / divider();
    let allowed = in_tally && !(too_many_now && dr_epoch > V2_0 && !named.contains(&dr)) && too_many_now == (too_many && dr_epoch >= V2_0);
    let check = |tx: &TallyTransaction| {
        let mut p = pool.clone();
        let r = validate_tally_transaction(tx, &mut p, &constants, &wips, &named, Some(validators), pv).map(|x| (x.0.len(), x.1)).map_err(|e| e.to_string());
        (r, p == pool)
    };
    let (got, kept) = check(&tx);
    ensure!(kept, "checking a tally changed the pool");
    if allowed {
        ensure_eq!(got, Ok((tx.outputs.len(), to_miner)), "the tally that follows from the reveals {values:?}");
        o.nontrivial_if(h > 0 && h < c);
        o.label(["valid, 1.7", "valid, 1.8", "valid, 2.0"][era]);
        o.label_if(h == 0, "no consensus");
        o.label_if(!liars.is_empty(), "liars");
        o.label_if(out_set.iter().any(|x| error_set.contains(x)) && h > 0, "errors out of consensus");
        o.label_if(h > 0 && out.errors.iter().all(|x| *x), "consensus on an error");
        o.label_if(too_many_now, "too many witnesses");
        o.show(|| format!("{values:?} of {n_commits} -> {:?}", out.answer));
    } else {
        ensure!(got.is_err(), "accepted, in tally stage {in_tally}, too many {too_many_now}");
        return Ok(());
    }

    // Anything else is refused.
    for _ in 0..3 {
        let mut bad = tx.clone();
        let n = bad.outputs.len();
        let what = t.below(14);
        match what {
            0 if n > 0 => {
                let i = t.below(n);
                bad.outputs[i].value = match t.below(4) {
                    0 => bad.outputs[i].value.wrapping_add(1),
                    1 => bad.outputs[i].value.wrapping_sub(1),
                    2 => 0,
                    _ => *t.pick(&[reward, deposit, reward + deposit, change, u64::MAX]),
                }
            }
            1 if n > 0 => {
                let i = t.below(n);
                bad.outputs[i].pkh = key(t.below(21)).pkh;
            }
            2 if n > 0 => {
                bad.outputs.remove(t.below(n));
            }
            3 => {
                let x = ValueTransferOutput { pkh: key(t.below(21)).pkh, value: *t.pick(&[reward, deposit, reward + deposit, 0, 1]), time_lock: 0 };
                let at = t.below(n + 1);
                bad.outputs.insert(at, x);
            }
            4 if n > 1 => {
                let (i, j) = (t.below(n), t.below(n));
                let (a, b) = (bad.outputs[i].value, bad.outputs[j].value);
                (bad.outputs[i].value, bad.outputs[j].value) = (b, a);
            }
            5 if n > 1 => {
                let (i, j) = (t.below(n), t.below(n));
                bad.outputs[i] = bad.outputs[j].clone();
            }
            6 if n > 0 => {
                let i = t.below(n);
                bad.outputs[i].time_lock = 1;
            }
            7 => {
                let i = t.below(bad.tally.len());
                bad.tally[i] ^= 1 << t.below(8);
            }
            8 if !bad.out_of_consensus.is_empty() => {
                let i = t.below(bad.out_of_consensus.len());
                bad.out_of_consensus.remove(i);
            }
            9 => bad.out_of_consensus.push(key(t.below(13)).pkh),
            10 if !bad.error_committers.is_empty() => {
                let i = t.below(bad.error_committers.len());
                bad.error_committers.remove(i);
            }
            11 => bad.error_committers.push(key(t.below(13)).pkh),
            12 if n > 0 => {
                // The change goes to somebody who could have been paid as much.
                let to = t.pick(&committers.iter().copied().chain([20]).collect::<Vec<_>>()).to_owned();
                bad.outputs[n - 1] = ValueTransferOutput { pkh: key(to).pkh, ..bad.outputs[n - 1].clone() };
            }
            13 => bad.dr_pointer = Hash::SHA256(t.array()),
            _ => {}
        }
        let same = bad.dr_pointer == tx.dr_pointer
            && bad.tally == tx.tally
            && outs(&bad.outputs) == outs(&tx.outputs)
            && sorted(&bad.out_of_consensus) == sorted(&tx.out_of_consensus)
            && sorted(&bad.error_committers) == sorted(&tx.error_committers);
        if same {
            continue;
        }
        let (got, _) = check(&bad);
        ensure!(got.is_err(), "accepted a tally altered in way {what}: {:?} instead of {:?}, {values:?} of {n_commits}", bad, tx);
        o.label("altered");
    }
    Ok(())
}

/// On the main network a quarter of the validators may be asked for.
fn divider() -> usize {
    match witnet_data_structures::get_environment() {
        Environment::Mainnet => 4,
        _ => 2,
    }
}

pub fn c25(c: &mut Check) {
    c.sub("a tally is what follows from the reveals, and nothing else is accepted", "some, not all, are in consensus", 40_000, 1_000_000, || long_tapes(300), |b, o| {
        tallies(&mut b.tape(), o)
    });
    let _ = ProtocolVersion::V2_0;
}
