//! The reputation engine, the clock, improvement proposals and protocol versions.
use crate::base::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Bytes, Tape, tapes},
};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    chain::{
        Alpha, Environment, EpochConstants, PublicKeyHash, Reputation, ReputationEngine, penalize_factor, reputation_issuance,
        tapi::{ActiveWips, BitVotesCounter, TapiEngine, after_second_hard_fork, after_third_hard_fork, wip_info},
    },
    proto::versioning::{ProtocolInfo, ProtocolVersion},
};

type R = Result<(), String>;

fn id(i: usize) -> PublicKeyHash {
    let mut hash = [0; 20];
    hash.copy_from_slice(&calculate_sha256(&[i as u8]).0[..20]);
    PublicKeyHash::from_bytes(&hash).unwrap()
}

/// What the reputations of the active identities let them do, as published.
struct Ref {
    order: Vec<PublicKeyHash>,
    trapezoid: HashMap<PublicKeyHash, u64>,
    total: u64,
    alpha: u32,
}

impl Ref {
    fn of(e: &ReputationEngine) -> Ref {
        let alpha = e.current_alpha().0;
        let mut l: Vec<(u32, [u8; 32], PublicKeyHash)> = e
            .ars()
            .active_identities()
            .map(|p| {
                let r = e.trs().get(p).0;
                // Ties are broken by the hash of the identity and the number of acts, or by the identity without reputation.
                let tie = if r > 0 {
                    calculate_sha256(&[p.as_ref(), &alpha.to_be_bytes()].concat()).0
                } else {
                    let mut x = [0; 32];
                    x[..20].copy_from_slice(p.as_ref());
                    x
                };
                (r, tie, *p)
            })
            .collect();
        l.sort();
        l.reverse();
        let reputed: Vec<u64> = l.iter().filter(|x| x.0 > 0).map(|x| u64::from(x.0)).collect();
        let n = reputed.len();
        let sum: u64 = reputed.iter().sum();
        let mut trapezoid = HashMap::new();
        if n > 0 {
            let k = 1.5 * (sum as f64 / n as f64 - *reputed.last().unwrap() as f64);
            let m = -k / (n as f64 - 1.0);
            let triangle: Vec<u64> = (0..n).map(|i| (m * i as f64 + k).max(0.0).round() as u64).collect();
            let rest = sum - triangle.iter().sum::<u64>();
            for (i, t) in triangle.iter().enumerate() {
                trapezoid.insert(l[i].2, t + rest / n as u64 + u64::from((i as u64) < rest % n as u64));
            }
        }
        Ref { total: sum + l.len() as u64, order: l.iter().map(|x| x.2).collect(), trapezoid, alpha }
    }

    fn rep(&self, p: &PublicKeyHash) -> u64 {
        self.trapezoid.get(p).copied().unwrap_or(0)
    }

    fn factor(&self, n: u16) -> u32 {
        if n == 0 {
            return 0;
        }
        let (mut n, mut left) = (u128::from(n), u128::from(self.total));
        let total = left;
        for p in &self.order {
            let r = u128::from(self.rep(p)) + 1;
            if r * n > left {
                n -= 1;
                left -= r;
            } else {
                let f = total * n / left + u128::from(total % left != 0);
                return u32::try_from(f).unwrap_or(u32::MAX);
            }
        }
        u32::MAX
    }
}

fn query(e: &ReputationEngine, r: &Ref, t: &mut Tape) -> R {
    for _ in 0..1 + t.below(4) {
        match t.below(5) {
            0 => ensure_eq!(e.total_active_reputation(), r.total, "total active reputation"),
            1 => {
                let p = id(t.below(24));
                ensure_eq!(u64::from(e.get_eligibility(&p)), r.rep(&p), "eligibility");
            }
            2 => ensure!(e.get_rep_ordered_ars_list() == r.order, "order of the active identities"),
            3 => {
                let n = if t.bool() { t.below(30) as u16 } else { t.u16() };
                let f = e.threshold_factor(n);
                ensure_eq!(f, r.factor(n), "threshold factor of {n} witnesses");
                // As many witnesses as wanted can be expected: nobody counts more than once.
                if f != u32::MAX {
                    let total = u128::from(r.total);
                    let expected: u128 = r.order.iter().map(|p| (u128::from(f) * (u128::from(r.rep(p)) + 1)).min(total)).sum();
                    ensure!(expected >= u128::from(n) * total, "factor {f} draws {expected}/{total} witnesses, not {n}");
                }
            }
            _ => {
                let p = id(t.below(24));
                ensure_eq!(e.is_ars_member(&p), r.order.contains(&p), "active");
            }
        }
    }
    Ok(())
}

fn reputation(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut e = ReputationEngine::new(1 + t.below(8));
    let mut log: Vec<String> = vec![];
    let (mut expiry, mut epoch, mut queried, mut stale) = (0u32, 0u32, false, 0);
    let big = t.odds(60);
    while t.left() > 0 && log.len() < 80 {
        match t.below(8) {
            0 | 1 => {
                expiry += t.below(3) as u32;
                let ids: Vec<_> = (0..1 + t.below(6)).map(|_| (id(t.below(24)), Reputation(if big { t.u16().into() } else { t.below(40) as u32 }))).collect();
                log.push(format!("gain {} until {expiry}", ids.len()));
                e.trs_mut().gain(Alpha(expiry), ids).map_err(|_| "gain refused")?;
            }
            2 | 3 => {
                let ids: Vec<_> = (0..t.below(9)).map(|_| id(t.below(24))).collect();
                epoch += 1;
                log.push(format!("{} active", ids.len()));
                if t.bool() {
                    e.ars_mut().push_activity(ids);
                } else {
                    e.ars_mut().update(ids, epoch).map_err(|x| x.to_string())?;
                }
            }
            4 => {
                let a = t.below(expiry as usize + 2) as u32;
                log.push(format!("expire {a}"));
                e.trs_mut().expire(&Alpha(a));
            }
            5 => {
                let p = id(t.below(24));
                let lies = t.below(4) as u32;
                let before = e.trs().get(&p).0;
                log.push(format!("penalise {lies}"));
                let _ = e.trs_mut().penalize(&p, penalize_factor(0.5, lies));
                ensure_eq!(e.trs().get(&p).0, before >> lies, "reputation after {lies} lies");
            }
            6 => {
                let a = if t.bool() { e.current_alpha().0 } else { e.current_alpha().0 + t.below(5) as u32 };
                log.push(format!("alpha {a}"));
                e.set_current_alpha(Alpha(a));
            }
            _ => {
                log.push("clear".into());
                e.clear_threshold_cache();
            }
        }
        if t.odds(160) {
            let r = Ref::of(&e);
            stale += usize::from(queried && r.trapezoid.len() > 1);
            queried = true;
            query(&e, &r, &mut t).map_err(|x| format!("{x} after {log:?}"))?;
            ensure_eq!(r.alpha, e.current_alpha().0, "alpha");
        }
    }
    o.show(|| log.join("; "));
    o.nontrivial_if(stale > 1);
    let r = Ref::of(&e);
    o.label_if(r.order.len() > 8, "more than 8 active");
    o.label_if(r.trapezoid.len() > 4, "more than 4 reputed");
    // The same after it was stored.
    let stored: ReputationEngine = bincode::deserialize(&bincode::serialize(&e).map_err(|x| x.to_string())?).map_err(|x| x.to_string())?;
    for n in [0, 1, 2, 5, 100, u16::MAX] {
        ensure_eq!(stored.threshold_factor(n), e.threshold_factor(n), "threshold factor of a stored engine");
        ensure_eq!(e.threshold_factor(n), r.factor(n), "threshold factor at the end");
    }
    ensure!(stored.get_rep_ordered_ars_list() == e.get_rep_ordered_ars_list() && r.order == e.get_rep_ordered_ars_list(), "order of a stored engine");
    ensure_eq!(stored.total_active_reputation(), e.total_active_reputation(), "total of a stored engine");
    // Being drawn is a matter of what all have together.
    let sum: u64 = r.order.iter().map(|p| u64::from(e.get_eligibility(p)) + 1).sum();
    ensure_eq!(sum, e.total_active_reputation(), "sum of the eligibilities");
    for w in r.order.windows(2) {
        ensure!(e.get_eligibility(&w[0]) >= e.get_eligibility(&w[1]), "less eligible with more reputation");
    }
    Ok(())
}

fn issuance(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let old = t.below(1 << 20) as u32;
    let new = old + t.below(1 << 12) as u32;
    let per = 1 + t.below(100) as u32;
    let stop = match t.below(4) {
        0 => 1 << 20,
        1 => t.below(1 << 20) as u32,
        _ => old + t.below(1 << 13) as u32,
    };
    let got = reputation_issuance(Reputation(per), Alpha(stop), Alpha(old), Alpha(new));
    let acts = (old..new).filter(|a| *a < stop).count() as u64;
    ensure_eq!(u64::from(got.0), acts * u64::from(per), "reputation for the acts {old}..{new}, until {stop}");
    // Whatever the steps, the same is issued.
    let mid = old + t.below((new - old) as usize + 1) as u32;
    let parts = reputation_issuance(Reputation(per), Alpha(stop), Alpha(old), Alpha(mid)).0 + reputation_issuance(Reputation(per), Alpha(stop), Alpha(mid), Alpha(new)).0;
    ensure_eq!(parts, got.0, "reputation issued in two steps");
    o.nontrivial_if(acts > 0 && per > 0);
    o.label_if(old < stop && stop < new, "the last acts");
    o.show(|| format!("{old}..{new} until {stop}"));
    let (f, n, r) = (t.below(1001) as f64 / 1000.0, t.below(12) as u32, t.u32() >> t.below(31));
    let left = penalize_factor(f, n)(Reputation(r)).0;
    ensure!(left <= r, "a liar gains reputation");
    ensure!(n > 0 || left == r, "reputation lost without a lie");
    ensure!(penalize_factor(f, n + 1)(Reputation(r)).0 <= left, "more is left after more lies");
    let exact = f64::from(r) * f.powi(n as i32);
    ensure!((f64::from(left) - exact).abs() <= 1.0 + exact * 1e-9, "{left} of {r} left after {n} lies, factor {f}");
    Ok(())
}

fn clock(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let zero = t.range(0, 4_000_000_000) as i64;
    let (p1, p2) = (1 + t.below(300) as u16, 1 + t.below(300) as u16);
    let switch = if t.odds(50) { None } else { Some(t.below(4_000_000) as u32) };
    let mut c = EpochConstants { checkpoint_zero_timestamp: zero, checkpoints_period: p1, checkpoint_zero_timestamp_wit2: i64::MAX, checkpoints_period_wit2: 1 };
    if let Some(s) = switch {
        c.set_values_for_wit2(p2, s).map_err(|e| e.to_string())?;
    }
    let start = |e: u32| -> i64 {
        match switch {
            Some(s) if e >= s => zero + i64::from(s) * i64::from(p1) + i64::from(e - s) * i64::from(p2),
            _ => zero + i64::from(e) * i64::from(p1),
        }
    };
    let near = switch.unwrap_or(1000);
    let e = match t.below(4) {
        0 => near.saturating_sub(1),
        1 => near + t.below(3) as u32,
        _ => t.below(8_000_000) as u32,
    };
    o.show(|| format!("zero {zero}, period {p1}, {p2} from {switch:?}, epoch {e}"));
    o.nontrivial_if(switch.is_some_and(|s| e >= s));
    o.label_if(switch.is_none(), "one period");
    let after = switch.is_some_and(|s| e >= s);
    let period = if after { p2 } else { p1 };
    ensure_eq!(c.epoch_timestamp(e), Ok((start(e), after)), "start of epoch {e}");
    ensure_eq!(c.get_epoch_period(e), Ok(period), "period of epoch {e}");
    ensure_eq!(c.epoch_timestamp(e + 1).unwrap().0, start(e) + i64::from(period), "start of the epoch after {e}");
    for s in [0, i64::from(period) - 1, t.below(period as usize) as i64] {
        ensure_eq!(c.epoch_at(start(e) + s), Ok(e), "epoch {s} s after the start of {e}");
    }
    let mining = c.block_mining_timestamp(e).map_err(|e| e.to_string())?;
    ensure_eq!(mining, start(e) + i64::from(period.div_ceil(2)), "when to mine in {e}");
    for s in [1, t.range(1, 1 << 40) as i64] {
        ensure!(c.epoch_at(zero - s).is_err(), "an epoch before the first one");
    }
    // Too far away is an error, not another time.
    let far = t.u32();
    if u64::from(far) * u64::from(p1) > u64::from(u32::MAX) {
        ensure!(c.epoch_timestamp(far).is_err() || c.epoch_timestamp(far).unwrap().0 == start(far), "start of epoch {far}");
    }
    Ok(())
}

fn div_ceil(v: &BitVotesCounter) -> u32 {
    (v.period * 80).div_ceil(100)
}

/// Signals of blocks, epoch by epoch.
fn signals(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut e = TapiEngine::default();
    let n = 1 + t.below(3);
    let start = 1 + t.below(50) as u32;
    let mut wips: Vec<BitVotesCounter> = vec![];
    let mut bits: Vec<usize> = (0..32).collect();
    shuffle(&mut t, &mut bits);
    for i in 0..n {
        let period = 1 + t.below(12) as u32;
        let init = start + t.below(20) as u32;
        let w = BitVotesCounter { votes: 0, period, wip: format!("wip{i}"), init, end: init + period * (1 + t.below(6) as u32) + t.below(3) as u32, bit: bits[i] };
        e.bit_tapi_counter.insert(w.clone());
        wips.push(w);
    }
    let avoid: HashSet<String> = if t.odds(40) { [wips[0].wip.clone()].into() } else { HashSet::new() };
    // Blocks in some epochs; the others are empty and signal nothing.
    let last = start + 40 + t.below(60) as u32;
    let (yes, gaps) = (t.below(257) as u16, t.below(3) as u16 * 20);
    let mut blocks: BTreeMap<u32, u32> = BTreeMap::new();
    for epoch in start..=last {
        if epoch == start || !t.odds(gaps) {
            let mut v = t.u32();
            for w in &wips {
                v &= !(1 << w.bit);
                if t.odds(yes) {
                    v |= 1 << w.bit;
                }
            }
            blocks.insert(epoch, v);
        }
    }
    let mut want: HashMap<String, u32> = HashMap::new();
    for w in &wips {
        if avoid.contains(&w.wip) {
            continue;
        }
        // The votes of the first epoch stand alone; afterwards a period at a time is counted, to its last epoch.
        let mut from = w.init;
        let mut to = w.init;
        while to < w.end && to <= last {
            let votes = (from..=to).filter(|x| blocks.get(x).is_some_and(|v| v & (1 << w.bit) != 0)).count() as u32;
            if votes >= div_ceil(w) {
                // Known once the next block is there, if the last epoch of the period is empty.
                if let Some((block, _)) = blocks.range(to..).next() {
                    want.insert(w.wip.clone(), block + 21);
                }
                break;
            }
            from = to + 1;
            to += w.period;
        }
    }
    for (epoch, v) in &blocks {
        e.update_bit_counter(*v, *epoch, *epoch, &avoid);
        for w in &wips {
            ensure_eq!(e.in_voting_range(*epoch, &w.wip), (w.init..w.end).contains(epoch), "voting range of {w:?} at {epoch}");
        }
    }
    o.show(|| format!("{wips:?}, blocks {blocks:?}: {want:?}"));
    o.nontrivial_if(!want.is_empty() && want.len() < wips.len() || n == 1);
    o.label_if(!want.is_empty(), "activated");
    o.label_if(blocks.len() < (last - start + 1) as usize, "empty epochs");
    ensure!(e.wip_activation == want, "activated {:?}, not {want:?}", e.wip_activation);
    let stored: TapiEngine = bincode::deserialize(&bincode::serialize(&e).map_err(|x| x.to_string())?).map_err(|x| x.to_string())?;
    ensure!(stored == e, "stored signals differ");
    let clone = { let mut x = e.clone(); x.initialize_wip_information(Environment::Mainnet); x };
    for (w, at) in wip_info() {
        ensure_eq!(clone.wip_activation.get(&w), Some(&at), "activation of {w}");
    }
    for (w, at) in &want {
        ensure_eq!(clone.wip_activation.get(w), Some(at), "an activated proposal is lost");
    }
    Ok(())
}

/// Epochs from which the proposals are in force on the main network.
const ACTIVE: [(&str, u32, fn(&ActiveWips) -> bool); 17] = [
    ("WIP0008", 192_000, ActiveWips::wip_0008),
    ("WIP0009-0011-0012", 376_320, ActiveWips::wips_0009_0011_0012),
    ("THIRD_HARD_FORK", 445_440, ActiveWips::third_hard_fork),
    ("WIP0014-0016", 549_141, ActiveWips::wip0014),
    ("WIP0014-0016", 549_141, ActiveWips::wip0016),
    ("WIP0017-0018-0019", 683_541, ActiveWips::wip0017),
    ("WIP0017-0018-0019", 683_541, ActiveWips::wip0018),
    ("WIP0017-0018-0019", 683_541, ActiveWips::wip0019),
    ("WIP0020-0021", 1_059_861, ActiveWips::wip0020),
    ("WIP0020-0021", 1_059_861, ActiveWips::wip0021),
    ("WIP0022", 1_708_901, ActiveWips::wip0022),
    ("WIP0023", 1_708_901, ActiveWips::wip0023),
    ("WIP0024", 1_708_901, ActiveWips::wip0024),
    ("WIP0025", 1_708_901, ActiveWips::wip0025),
    ("WIP0026", 1_708_901, ActiveWips::wip0026),
    ("WIP0027", 1_708_901, ActiveWips::wip0027),
    ("WIP0028", 3_048_960, ActiveWips::wip0028),
];

fn activation(k: &usize) -> R {
    let (name, at, f) = ACTIVE[*k];
    for (env, at) in [(Environment::Mainnet, at), (Environment::Testnet, 0), (Environment::Development, 0)] {
        let mut e = TapiEngine::default();
        e.initialize_wip_information(env);
        ensure_eq!(e.wip_activation.get(name), Some(&at), "{name} on {env}");
        for epoch in [0, at.saturating_sub(1), at, at + 1, u32::MAX] {
            let mut w = ActiveWips { active_wips: e.wip_activation.clone(), block_epoch: epoch };
            ensure_eq!(f(&w), epoch >= at, "{name} in force at {epoch} on {env}");
            w.active_wips.remove(name);
            ensure!(!f(&w), "{name} in force while unknown");
            w.insert_wip(name, epoch / 2);
            ensure!(f(&w), "{name} not in force");
            w.set_epoch((epoch / 2).saturating_sub(1));
            ensure_eq!(f(&w), epoch / 2 == 0, "{name} in force early");
        }
    }
    for (epoch, second, third) in [(376_319, false, false), (376_320, true, false), (445_439, true, false), (445_440, true, true)] {
        ensure_eq!(after_second_hard_fork(epoch, Environment::Mainnet), second, "second hard fork at {epoch}");
        ensure_eq!(after_third_hard_fork(epoch, Environment::Mainnet), third, "third hard fork at {epoch}");
        ensure!(after_second_hard_fork(epoch, Environment::Testnet) && !after_third_hard_fork(epoch, Environment::Testnet), "hard forks of the test network");
    }
    Ok(())
}

const VERSIONS: [ProtocolVersion; 4] = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1];

fn versions(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut info = ProtocolInfo::default();
    // Some of the versions, in any order of registration, in force one after the other.
    let mut known: Vec<(usize, u32, u16)> = vec![];
    let mut at = t.below(100) as u32;
    for v in 0..4 {
        if !t.odds(60) {
            known.push((v, at, 1 + t.below(300) as u16));
            at += 1 + t.below(3_000_000) as u32;
        }
    }
    let mut order = known.clone();
    shuffle(&mut t, &mut order);
    for (v, at, period) in &order {
        info.register(*at, VERSIONS[*v], *period);
    }
    o.show(|| format!("{order:?}"));
    o.nontrivial_if(known.len() > 2);
    for _ in 0..8 {
        let epoch = match t.below(3) {
            0 if !known.is_empty() => (known[t.below(known.len())].1 + t.below(3) as u32).saturating_sub(1),
            1 => t.u32(),
            _ => t.below(10_000_000) as u32,
        };
        let want = known.iter().filter(|k| k.1 <= epoch).next_back().map_or(ProtocolVersion::V1_7, |k| VERSIONS[k.0]);
        ensure_eq!(info.all_versions.version_for_epoch(epoch), want, "version at {epoch} with {known:?}");
    }
    for v in 0..4 {
        let k = known.iter().find(|k| k.0 == v);
        ensure_eq!(info.all_versions.get_activation_epoch(VERSIONS[v]), k.map_or(u32::MAX, |k| k.1), "activation of version {v}");
        ensure_eq!(info.all_versions.try_get_activation_epoch(VERSIONS[v]), k.map(|k| k.1), "activation of version {v}");
        ensure_eq!(info.all_checkpoints_periods.get(&VERSIONS[v]).copied(), k.map(|k| k.2), "period of version {v}");
        let (next, prev) = (VERSIONS[(v + 1).min(3)], VERSIONS[v.saturating_sub(1)]);
        ensure!(VERSIONS[v].next() == next && VERSIONS[v].prev() == prev, "neighbours of version {v}");
        for w in 0..4 {
            ensure_eq!(VERSIONS[v].partial_cmp(&VERSIONS[w]), Some(v.cmp(&w)), "order of versions {v} and {w}");
        }
    }
    let stored: ProtocolInfo = bincode::deserialize(&bincode::serialize(&info).map_err(|x| x.to_string())?).map_err(|x| x.to_string())?;
    ensure!(stored == info, "stored versions differ");
    // The moment a version enters into force: all the epochs before it, each as long as its own version's.
    let constants = constants();
    let get = |v: usize| known.iter().find(|k| k.0 == v);
    let first = constants.checkpoint_zero_timestamp;
    ensure_eq!(info.derive_activation_timestamp(VERSIONS[0], &constants), Some(first), "first version");
    let mut when = Some(first);
    for v in 1..4 {
        let before = if v == 1 { Some((get(0).map_or(0, |k| k.1), PERIOD.0 as u16)) } else { get(v - 1).map(|k| (k.1, k.2)) };
        when = match (when, before, get(v)) {
            (Some(w), Some((e, p)), Some(k)) => Some(w + i64::from(k.1.saturating_sub(e)) * i64::from(p)),
            _ => None,
        };
        ensure_eq!(info.derive_activation_timestamp(VERSIONS[v], &constants), when, "moment of version {v} with {known:?}");
    }
    info.clear_versions();
    ensure!(info == ProtocolInfo::default(), "versions left");
    Ok(())
}

pub fn c29(c: &mut Check) {
    c.sub("reputation", "queries before and after changes, with several reputed identities", 8000, 300_000, || tapes(1200), reputation);
    c.sub("issuance", "reputation is issued", 4000, 200_000, || tapes(60), issuance);
    c.sub("clock", "an epoch of the second protocol", 6000, 300_000, || tapes(80), clock);
    c.sub("signals", "some of the proposals activated", 5000, 200_000, || tapes(700), signals);
    c.each("activation", "every proposal", (0..ACTIVE.len()).collect(), |k, o| {
        o.nontrivial();
        activation(k)
    });
    c.sub("versions", "three versions", 4000, 200_000, || tapes(120), versions);
}
