//! C45: what a block changes once it is final. The node's own functions, beside what the chain of
//! C26 takes for granted and what everybody is owed.
use crate::{
    base::*,
    block::{Plan, Sim, too_many},
    mine::Waiting,
    node::manager::{process_wit2_stakes_changes, update_pools, update_reputation},
};
use std::collections::{BTreeMap, HashMap, HashSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    capabilities::Capability,
    chain::*,
    proto::versioning::VersionedHashable,
    staking::prelude::*,
    transaction::*,
    utxo_pool::{OwnUnspentOutputsPool, UtxoDiff},
    vrf::BlockEligibilityClaim,
};

const OWN: usize = 1;

fn copy(s: &StakesTracker) -> StakesTracker {
    bincode::deserialize(&bincode::serialize(s).unwrap()).unwrap()
}
/// Coins and ages by validator.
type Staked = BTreeMap<PublicKeyHash, (i128, u32, u32)>;
fn staked(s: &StakesTracker) -> Staked {
    let all = s.query_stakes(QueryStakesKey::All).unwrap_or_default();
    all.into_iter().map(|x| (x.key.validator, (i128::from(x.value.coins.nanowits()), x.value.epochs.get(Capability::Mining), x.value.epochs.get(Capability::Witnessing)))).collect()
}

/// What transactions leave to the miner, with and without those that spend outputs of this block.
fn fees(sim: &Sim, plan: &Plan, block: &Block) -> (i128, i128) {
    let value: HashMap<OutputPointer, u64> = plan.coins.iter().map(|c| (c.ptr, c.value)).collect();
    let old: HashSet<OutputPointer> = sim.base.iter().map(|x| x.0).collect();
    let (mut all, mut some) = (0, 0);
    let mut add = |inputs: &[Input], out: i128| {
        let sum: i128 = inputs.iter().map(|i| i128::from(value[i.output_pointer()])).sum();
        all += sum - out;
        if inputs.iter().all(|i| old.contains(i.output_pointer())) {
            some += sum - out;
        }
    };
    let total = |outs: &[ValueTransferOutput]| outs.iter().map(|o| i128::from(o.value)).sum::<i128>();
    let x = &block.txns;
    x.value_transfer_txns.iter().for_each(|t| add(&t.body.inputs, total(&t.body.outputs)));
    for (t, r) in x.data_request_txns.iter().zip(&plan.requests) {
        add(&t.body.inputs, total(&t.body.outputs) + i128::from(crate::spend::request_cost(&r.output).unwrap()));
    }
    for t in &x.stake_txns {
        add(&t.body.inputs, t.body.change.iter().map(|o| i128::from(o.value)).sum::<i128>() + i128::from(t.body.output.value));
    }
    let unstakes: i128 = x.unstake_txns.iter().map(|t| i128::from(t.body.fee)).sum();
    (all + unstakes, some + unstakes)
}

/// What happens to the stakes. Some(what) if it is not what is owed, in a way that is known.
fn rewards(sim: &Sim, plan: &Plan, block: &Block, requests: &witnet_data_structures::data_request::DataRequestPool, miner: usize, o: &mut Obs) -> Result<Option<&'static str>, String> {
    let e = sim.e;
    let mut stakes = copy(&sim.stakes);
    let before = staked(&stakes);
    process_wit2_stakes_changes(block, &wit2(), requests, &mut stakes, epochs(), &UtxoDiff::new(&sim.base, e));
    let after = staked(&stakes);
    if e < V2_0 {
        ensure_eq!(after, before, "stakes before 2.0");
        return Ok(None);
    }
    let new: HashSet<Hash> = plan.requests.iter().map(|r| r.hash).collect();
    let (all, some) = fees(sim, plan, block);
    let expected = |least: u64, fees: i128| {
        let mut m: BTreeMap<PublicKeyHash, i128> = before.iter().map(|(k, v)| (*k, v.0)).collect();
        let mut give = |who: PublicKeyHash, x: i128| {
            // Whoever took everything out in the meantime is not paid.
            if let Some(c) = m.get_mut(&who) {
                *c += x;
            }
        };
        give(key(miner).pkh, fees + i128::from(50 * WIT));
        for (n, who, _) in &plan.commits {
            let d = &sim.drs[*n];
            if d.v2() {
                let deposit = if d.output.collateral == 0 { least } else { d.output.collateral };
                give(key(*who).pkh, -i128::from(deposit));
                give(key(miner).pkh, i128::from(d.output.commit_and_reveal_fee));
            }
        }
        for (n, _) in &plan.reveals {
            if sim.drs[*n].v2() {
                give(key(miner).pkh, i128::from(sim.drs[*n].output.commit_and_reveal_fee));
            }
        }
        for x in block.txns.tally_txns.iter().filter(|x| !new.contains(&x.dr_pointer)) {
            let d = sim.drs.iter().find(|d| d.hash == x.dr_pointer).unwrap();
            let deposit = if d.output.collateral == 0 { least } else { d.output.collateral };
            for c in d.commits.iter().filter(|_| d.v2()) {
                let pkh = key(c.0).pkh;
                if x.error_committers.contains(&pkh) {
                    give(pkh, i128::from(deposit));
                } else if !x.out_of_consensus.contains(&pkh) {
                    give(pkh, i128::from(deposit) + i128::from(d.output.witness_reward));
                }
            }
        }
        m
    };
    let got: BTreeMap<PublicKeyHash, i128> = after.iter().map(|(k, v)| (*k, v.0)).collect();
    let mut known = None;
    if got != expected(WIT, all) {
        known = if got == expected(WIT, some) {
            Some("the miner does not get the fees of transactions that spend outputs of the same block")
        } else if got == expected(0, all) || got == expected(0, some) {
            Some("a commit to a request that leaves its collateral open reserves nothing")
        } else {
            let want = expected(0, some);
            let differ: Vec<_> = want.iter().filter(|(k, v)| got.get(*k) != Some(v)).map(|(k, v)| (k.to_string(), *v, got.get(k).copied(), before[k].0)).collect();
            return Err(format!("stakes after a block at {e}, validator, owed, has, had before: {differ:?}; miner {}", key(miner).pkh));
        };
    }
    // Who starts again.
    ensure_eq!(after[&key(miner).pkh].1, e + 1, "mining age of the miner");
    let mut liars = HashSet::new();
    for x in block.txns.tally_txns.iter().filter(|x| !new.contains(&x.dr_pointer)) {
        let d = sim.drs.iter().find(|d| d.hash == x.dr_pointer).unwrap();
        if d.v2() {
            liars.extend(x.out_of_consensus.iter().filter(|p| !x.error_committers.contains(p)).copied());
        }
    }
    let again: HashSet<PublicKeyHash> = plan.commits.iter().filter(|c| sim.drs[c.0].v2()).map(|c| key(c.1).pkh).collect();
    for (pkh, (_, _, age)) in &after {
        if liars.contains(pkh) {
            ensure_eq!(*age, e + 10, "witnessing age of a liar");
        } else if again.contains(pkh) {
            ensure_eq!(*age, e + 1, "witnessing age of one that committed");
        } else {
            ensure!(*age <= e || *age == before[pkh].2, "witnessing age of one that did nothing: {age} at {e}");
        }
    }
    o.label_if(liars.iter().any(|p| !after.contains_key(p)), "a liar that left");
    o.label_if(block.txns.tally_txns.iter().any(|x| sim.drs.iter().any(|d| d.v2() && d.hash == x.dr_pointer && d.commits.iter().any(|c| !before.contains_key(&key(c.0).pkh)))), "a witness that left");
    Ok(known)
}

fn reputations(rep: &ReputationEngine) -> BTreeMap<PublicKeyHash, u64> {
    rep.trs().identities().filter(|x| x.1.0 > 0).map(|(k, v)| (*k, u64::from(v.0))).collect()
}

fn change(t: &mut Tape, sim: &Sim, plan: &Plan, block: &Block, rep: &mut ReputationEngine, alpha: &mut u32, c: &ConsensusConstants, miner: usize, o: &mut Obs) -> Result<Option<&'static str>, String> {
    let e = sim.e;
    let (valid, mut requests) = sim.validate(block, c);
    let (diff, _) = valid?;
    let known = rewards(sim, plan, block, &requests, miner, o)?;

    // Outputs, requests and what waits.
    let mut w = Waiting::default();
    w.pool.set_collateral_minimum(c.collateral_minimum);
    w.pool.set_required_reward_collateral_ratio(u64::MAX);
    w.offer(sim, plan);
    for _ in 0..t.below(3) {
        let mut other = sim.plan(t);
        other.txns.reveal_txns.clear();
        w.offer(sim, &other);
    }
    let mut base = sim.base.clone();
    let mut own = OwnUnspentOutputsPool::new();
    for (p, (x, _)) in base.iter() {
        if x.pkh == key(OWN).pkh {
            own.insert(p, t.below(3) as u64);
        }
    }
    let old: HashMap<OutputPointer, u64> = own.iter().map(|x| (*x.0, *x.1)).collect();
    let mut stats = NodeStats::default();
    let info = update_pools(block, &mut base, &mut requests, &mut w.pool, diff.clone(), key(OWN).pkh, &mut own, &mut stats, StateMachine::Synced);
    let mut want = sim.base.clone();
    diff.apply(&mut want);
    let all = |b: &witnet_data_structures::utxo_pool::UnspentOutputsPool| b.iter().collect::<BTreeMap<_, _>>();
    let now = all(&base);
    ensure_eq!(now, all(&want), "unspent outputs");
    let mine: HashMap<OutputPointer, u64> = now.iter().filter(|x| x.1.0.pkh == key(OWN).pkh).map(|x| (*x.0, old.get(x.0).copied().unwrap_or(0))).collect();
    ensure_eq!(own.iter().map(|x| (*x.0, *x.1)).collect::<HashMap<_, _>>(), mine, "own outputs");

    let x = &block.txns;
    let mined: HashSet<Hash> =
        x.value_transfer_txns.iter().map(|t| t.hash()).chain(x.data_request_txns.iter().map(|t| t.hash())).chain(x.stake_txns.iter().map(|t| t.hash())).chain(x.unstake_txns.iter().map(|t| t.hash())).collect();
    let spent: HashSet<OutputPointer> = x
        .value_transfer_txns
        .iter()
        .flat_map(|t| &t.body.inputs)
        .chain(x.data_request_txns.iter().flat_map(|t| &t.body.inputs))
        .chain(x.stake_txns.iter().flat_map(|t| &t.body.inputs))
        .chain(x.commit_txns.iter().flat_map(|t| &t.body.collateral))
        .map(|i| *i.output_pointer())
        .collect();
    let left: [HashSet<Hash>; 3] = [w.pool.vt_iter().map(|t| t.hash()).collect(), w.pool.dr_iter().map(|t| t.hash()).collect(), w.pool.st_iter().map(|t| t.hash()).collect()];
    for (k, left) in left.iter().enumerate() {
        let want: HashSet<Hash> = w.spends[k].iter().filter(|(h, s)| !mined.contains(h) && !s.0.iter().any(|i| spent.contains(i))).map(|s| *s.0).collect();
        ensure_eq!(left, &want, "what waits after a block, kind {k}");
        o.label_if(!want.is_empty(), "something still waits");
        o.label_if(w.spends[k].len() > want.len() + mined.len(), "something waits in vain");
    }
    let unstakes: HashSet<Hash> = w.pool.ut_iter().map(|t| t.hash()).collect();
    ensure_eq!(unstakes, w.unstakes.keys().filter(|h| !mined.contains(h)).copied().collect(), "unstakes after a block");
    for r in &x.reveal_txns {
        ensure!(!matches!(w.pool.contains(&Transaction::Reveal(r.clone())), Ok(true)), "a mined reveal still waits");
    }
    // Requests: those that were in progress or came, without those that are done.
    let done: HashSet<Hash> = x.tally_txns.iter().map(|t| t.dr_pointer).collect();
    let mut want: BTreeMap<Hash, (usize, usize)> = sim
        .drs
        .iter()
        .enumerate()
        .map(|(n, d)| (d.hash, (d.commits.len() + plan.commits.iter().filter(|c| c.0 == n).count(), d.reveals.len() + plan.reveals.iter().filter(|c| c.0 == n).count())))
        .chain(plan.requests.iter().map(|r| (r.hash, (0, 0))))
        .collect();
    want.retain(|h, _| !done.contains(h));
    let got: BTreeMap<Hash, (usize, usize)> = requests.data_request_pool.iter().map(|(h, s)| (*h, (s.info.commits.len(), s.info.reveals.len()))).collect();
    ensure_eq!(got, want, "requests in progress after a block");
    let finished: HashMap<Hash, DataRequestInfo> = requests.finished_data_requests().into_iter().map(|x| (x.tally.as_ref().unwrap().dr_pointer, x)).collect();
    ensure_eq!(finished.keys().copied().collect::<HashSet<_>>(), done, "finished requests");
    let hash = block.versioned_hash(version(e));
    ensure!(finished.values().all(|x| x.block_hash_tally_tx == Some(hash)), "block of a tally");
    let own_commits = if plan.commits.iter().any(|c| c.1 == OWN) { plan.commits.iter().filter(|c| c.1 == OWN).count() } else { 0 };
    ensure_eq!(stats.commits_count as usize, own_commits, "own commits");

    // Reputation.
    if e >= V2_0 {
        return Ok(known);
    }
    let (mut acts, mut results): (u32, BTreeMap<PublicKeyHash, [u32; 3]>) = (0, BTreeMap::new());
    let mut slashed = 0;
    for x in &x.tally_txns {
        let d = sim.drs.iter().find(|d| d.hash == x.dr_pointer).unwrap();
        acts += d.reveals.len() as u32;
        for c in &d.commits {
            let pkh = key(c.0).pkh;
            let k = if x.error_committers.contains(&pkh) { 1 } else if x.out_of_consensus.contains(&pkh) { 2 } else { 0 };
            results.entry(pkh).or_default()[k] += 1;
            slashed += u32::from(k == 2 && c.0 == OWN);
        }
    }
    ensure_eq!(stats.slashed_count, slashed, "own slashes");
    let before = reputations(rep);
    let extra = u64::from(rep.extra_reputation.0);
    let members: HashSet<PublicKeyHash> = rep.ars().active_identities().copied().collect();
    let mut aged = rep.clone();
    aged.trs_mut().expire(&Alpha(*alpha));
    let kept = reputations(&aged);
    update_reputation(rep, &mut AltKeys::default(), c, key(miner).pkh, info, log::Level::Trace, e, key(OWN).pkh);
    let stop = c.reputation_issuance_stop;
    let issued = u64::from((*alpha + acts).min(stop).saturating_sub((*alpha).min(stop))) * u64::from(c.reputation_issuance);
    *alpha += acts;
    ensure_eq!(rep.current_alpha().0, *alpha, "witnessing acts");
    let after = reputations(rep);
    let sum = |m: &BTreeMap<PublicKeyHash, u64>| m.values().sum::<u64>();
    let honest: Vec<PublicKeyHash> = results.iter().filter(|(_, r)| r[2] == 0 && r[0] >= r[1]).map(|x| *x.0).collect();
    let punished = |p: &PublicKeyHash| {
        let (had, lies) = (kept.get(p).copied().unwrap_or(0), results.get(p).map_or(0, |r| r[2]));
        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss, clippy::cast_precision_loss)]
        let x = (had as f64 * c.reputation_penalization_factor.powi(lies as i32)) as u64;
        x
    };
    let everybody: HashSet<PublicKeyHash> = before.keys().chain(after.keys()).chain(results.keys()).copied().collect();
    let bounty = sum(&before) + extra + issued - everybody.iter().map(&punished).sum::<u64>();
    let share = bounty.checked_div(honest.len() as u64).unwrap_or(0);
    for p in &everybody {
        let gain = if honest.contains(p) { share } else { 0 };
        ensure_eq!(after.get(p).copied().unwrap_or(0), punished(p) + gain, "reputation of {p}, {:?} with {:?} before, bounty {bounty} for {}", results.get(p), before.get(p), honest.len());
    }
    ensure_eq!(u64::from(rep.extra_reputation.0), bounty - share * honest.len() as u64, "reputation left for later");
    ensure_eq!(sum(&after) + u64::from(rep.extra_reputation.0), sum(&before) + extra + issued, "reputation");
    let (b, l) = (members.len(), results.values().any(|r| r[2] > 0));
    ensure!(results.keys().chain([&key(miner).pkh]).all(|p| rep.is_ars_member(p)), "those that took part are active");
    o.label_if(b > 0 && l, "liars");
    o.label_if(share > 0, "reputation gained");
    o.label_if(kept != before, "reputation expired");
    o.label_if(kept.iter().any(|(p, v)| punished(p) < *v), "reputation lost");
    Ok(known)
}

/// A chain, and at every block of it what the node makes of the block.
fn chain(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let e = match t.below(8) {
        0 => V1_8 - 1 - t.below(6) as u32,
        1 => V2_0 - 1 - t.below(10) as u32,
        2 => 1_200_000 + t.below(1_000_000) as u32,
        3 => V1_8 + t.below(50_000) as u32,
        _ => V2_0 + t.below(1_000_000) as u32,
    };
    let mut sim = Sim::new(t, e);
    let mut c = constants();
    c.reputation_issuance = *t.pick(&[1, 7, 1000]);
    c.reputation_expire_alpha_diff = *t.pick(&[3, 10, 20_000]);
    c.reputation_issuance_stop = *t.pick(&[5, 20, 1 << 20]);
    let (mut rep, mut alpha) = (ReputationEngine::new(100), 0);
    let (mut tallies, mut known) = (0, None);
    for _ in 0..2 + t.below(9) {
        let plan = sim.plan(t);
        let mut header = sim.header(&plan.txns);
        // Some validator that has what it takes, from 2.0 on.
        let able: Vec<usize> = (0..20).filter(|v| sim.stakes.query_power(key(*v).pkh, Capability::Mining, sim.e).is_ok_and(|p| p > 0)).collect();
        let miner = if sim.e < V2_0 { t.below(12) } else if able.is_empty() { return Ok(()) } else { *t.pick(&able) };
        header.proof = BlockEligibilityClaim { proof: crate::block::some_claim(miner).proof };
        let block = Block::new(header, KeyedSignature::default(), plan.txns.clone());
        if let Some(x) = change(t, &sim, &plan, &block, &mut rep, &mut alpha, &c, miner, o)? {
            known = Some(x);
            o.label(x);
        }
        tallies += block.txns.tally_txns.len();
        let (got, _) = sim.validate(&block, &c);
        sim.apply(&block, &plan, got?.0)?;
        sim.block += 1;
        sim.e += 1 + if t.odds(40) { t.below(4) as u32 } else { 0 };
        sim.next_coin += 1;
    }
    o.label(if sim.e < V1_8 { "1.7" } else if sim.e < V2_0 { "1.8" } else { "2.0" });
    o.nontrivial_if(tallies > 0);
    if let Some(x) = known
        && t.odds(4)
    {
        return Err(x.to_string());
    }
    Ok(())
}

#[allow(unused)]
fn unused() {
    let _ = too_many;
}

pub fn c45(c: &mut Check) {
    c.sub("what a final block changes", "some request is tallied", 8_000, 200_000, || long_tapes(4000), |b, o| chain(&mut b.tape(), o));
}
