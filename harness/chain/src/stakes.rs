//! C20: the stakes tracker against a model of every operation.
use std::collections::BTreeMap;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, tapes},
};
use witnet_data_structures::{
    capabilities::{ALL_CAPABILITIES, Capability},
    chain::{KeyedSignature, PublicKeyHash, StakeOutput, ValueTransferOutput},
    staking::{
        helpers::{CensusStrategy, StakeKey},
        stakes::{QueryStakesKey, StakesTracker, process_stake_transactions, process_unstake_transactions},
    },
    transaction::{StakeTransaction, StakeTransactionBody, UnstakeTransaction, UnstakeTransactionBody},
    wit::Wit,
};

const WIT: u64 = 1_000_000_000;
type Key = StakeKey<PublicKeyHash>;

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    coins: u64,
    mining: u32,
    witnessing: u32,
    nonce: u64,
}

impl Entry {
    fn epoch(&self, c: Capability) -> u32 {
        match c {
            Capability::Mining => self.mining,
            Capability::Witnessing => self.witnessing,
        }
    }
    fn power(&self, c: Capability, now: u32) -> u64 {
        (self.coins / WIT) * u64::from(now.saturating_sub(self.epoch(c)))
    }
    fn add(&mut self, coins: u64, epoch: u32) {
        let after = self.coins + coins;
        let mean = |old: u32| {
            let sum = u128::from(self.coins / WIT) * u128::from(old) + u128::from(coins / WIT) * u128::from(epoch);
            u32::try_from(sum / u128::from(after / WIT)).unwrap()
        };
        (self.mining, self.witnessing) = (mean(self.mining), mean(self.witnessing));
        self.coins = after;
    }
}

#[derive(Clone, Default)]
struct Model(BTreeMap<Key, Entry>);

impl Model {
    fn of_validator(&self, v: PublicKeyHash) -> Vec<Key> {
        self.0.keys().filter(|k| k.validator == v).cloned().collect()
    }
    fn rank(&self, c: Capability, now: u32) -> Vec<(Key, u64)> {
        let mut r: Vec<_> = self.0.iter().map(|(k, e)| (k.clone(), e.power(c, now))).collect();
        r.sort_by(|a, b| (b.1, &b.0.validator, &b.0.withdrawer).cmp(&(a.1, &a.0.validator, &a.0.withdrawer)));
        r
    }
}

fn pkh(i: u8) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[i; 20]).unwrap()
}

fn agree(s: &StakesTracker, m: &Model, now: u32, others: &[PublicKeyHash]) -> Result<(), String> {
    ensure_eq!(s.stakes_count(), m.0.len(), "number of entries");
    let all = s.query_stakes(QueryStakesKey::All).map_err(|e| e.to_string())?;
    let got: Vec<_> = all
        .iter()
        .map(|e| (e.key.clone(), Entry { coins: e.value.coins.nanowits(), mining: e.value.epochs.mining, witnessing: e.value.epochs.witnessing, nonce: e.value.nonce }))
        .collect();
    let want: Vec<_> = m.0.iter().map(|(k, e)| (k.clone(), e.clone())).collect();
    ensure!(got == want, "entries {got:?}, expected {want:?}");
    ensure_eq!(s.total_staked().nanowits(), m.0.values().map(|e| e.coins).sum::<u64>(), "total staked");
    let mut validators: Vec<_> = m.0.keys().map(|k| k.validator).collect();
    validators.dedup();
    ensure_eq!(s.validator_count(), validators.len(), "number of validators");
    for &a in others {
        let sort = |mut v: Vec<(Key, u64)>| {
            v.sort();
            v
        };
        let of = |f: &dyn Fn(&Key) -> bool| m.0.iter().filter(|(k, _)| f(k)).map(|(k, e)| (k.clone(), e.coins)).collect::<Vec<_>>();
        for (what, query, want) in [
            ("validator", QueryStakesKey::Validator(a), of(&|k| k.validator == a)),
            ("withdrawer", QueryStakesKey::Withdrawer(a), of(&|k| k.withdrawer == a)),
        ] {
            let got = s.query_stakes(query).map(|v| sort(v.iter().map(|e| (e.key.clone(), e.value.coins.nanowits())).collect()));
            ensure!(got.is_ok() != want.is_empty(), "stakes by {what} {a}: {got:?}, expected {want:?}");
            let got = got.unwrap_or_default();
            ensure!(got == want, "stakes by {what} {a}: {got:?}, expected {want:?}");
        }
        for c in ALL_CAPABILITIES {
            let want = m.0.iter().filter(|(k, _)| k.validator == a).map(|(_, e)| e.power(c, now)).max();
            ensure_eq!(s.query_power(a, c, now).ok(), want, "power of {a}");
        }
        for &b in others {
            let key = Key { validator: a, withdrawer: b };
            ensure_eq!(s.query_nonce(key.clone()).ok(), m.0.get(&key).map(|e| e.nonce), "nonce of an entry");
            ensure_eq!(
                s.query_stakes(QueryStakesKey::Key(key.clone())).ok().map(|v| v.iter().map(|e| e.value.coins.nanowits()).collect::<Vec<_>>()),
                m.0.get(&key).map(|e| vec![e.coins]),
                "stake of an entry"
            );
            let free = m.0.contains_key(&key) || !m.0.keys().any(|k| k.validator == a);
            ensure_eq!(s.check_validator_withdrawer(a, b).is_ok(), free, "whether {b} may stake on {a}");
        }
    }
    for c in ALL_CAPABILITIES {
        let got: Vec<_> = s.by_rank(c, now).collect();
        let want = m.rank(c, now);
        ensure!(got == want, "rank {got:?}, expected {want:?}");
        let keys: Vec<_> = want.into_iter().map(|x| x.0).collect();
        let census = |st| s.census(c, now, st).collect::<Vec<_>>();
        ensure!(census(CensusStrategy::All) == keys, "census of all");
        ensure!(census(CensusStrategy::Take(2)) == keys[..keys.len().min(2)], "census of the best two");
        ensure!(census(CensusStrategy::StepBy(2)) == keys.iter().step_by(2).cloned().collect::<Vec<_>>(), "census of every other");
    }
    Ok(())
}

fn coins(t: &mut Tape<'_>) -> u64 {
    match t.below(6) {
        0 => WIT * (1 + t.below(20) as u64),
        1 => 10_000 * WIT,
        2 => 10_000 * WIT + t.below(1000) as u64,
        3 => t.range(10_000 * WIT, 10_000_000 * WIT),
        4 => t.range(WIT, 100 * WIT),
        _ => t.range(0, 2 * WIT),
    }
}

fn history(t: &mut Tape<'_>, obs: &mut Obs) -> Result<(), String> {
    let single = t.odds(160);
    let people: Vec<_> = (1..=5).map(pkh).collect();
    let min = *t.pick(&[WIT, 10_000 * WIT, 7 * WIT + 3]);
    let mut now: u32 = if t.bool() { 0 } else { 3_000_000 };
    let mut s = StakesTracker::default();
    let mut m = Model::default();
    let mut changes = 0;
    for _ in 0..3 + t.below(24) {
        let far = if t.odds(40) { 100_000 } else { 40 };
        now += t.below(far) as u32;
        let v = *t.pick(&people);
        let w = if single { pkh(6 - v.as_ref()[0]) } else { *t.pick(&people) };
        let key = Key { validator: v, withdrawer: w };
        let mine = m.of_validator(v);
        match t.below(9) {
            0..=2 => {
                let c = coins(t);
                let set = t.bool();
                let as_tx = set && t.bool();
                let r = if as_tx {
                    let body = StakeTransactionBody::new(vec![], StakeOutput { authorization: KeyedSignature::default(), key: key.clone(), value: c }, None);
                    process_stake_transactions(&mut s, [StakeTransaction::new(body, vec![])].iter(), now, min).is_ok()
                } else {
                    s.add_stake(key.clone(), Wit::from_nanowits(c), now, set, Wit::from_nanowits(min)).is_ok()
                };
                ensure_eq!(r, c >= min, "whether staking {c} with a minimum of {min} is accepted");
                if c >= min {
                    let e = m.0.entry(key).or_insert(Entry { coins: 0, mining: 0, witnessing: 0, nonce: u64::from(now) });
                    e.add(c, now);
                    if set {
                        e.nonce = u64::from(now);
                    }
                    changes += 1;
                } else {
                    obs.label("stake below the minimum");
                }
            }
            3 | 4 => {
                let have = m.0.get(&key).map(|e| e.coins);
                let c = match (have, t.below(4)) {
                    (Some(h), 0) => h,
                    (Some(h), 1) => h - h.min(min),
                    (Some(h), 2) => t.range(0, h),
                    _ => coins(t),
                };
                let set = t.bool();
                let ok = have.is_some_and(|h| c <= h && (h == c || h - c >= min));
                let r = if set && t.bool() {
                    let fee = t.range(0, c.min(1000));
                    let out = ValueTransferOutput { pkh: w, value: c - fee, time_lock: 0 };
                    let body = UnstakeTransactionBody::new(v, out, fee, 0);
                    process_unstake_transactions(&mut s, [UnstakeTransaction::new(body, KeyedSignature::default())].iter(), now, min).is_ok()
                } else {
                    let r = s.remove_stake(key.clone(), Wit::from_nanowits(c), now, set, Wit::from_nanowits(min));
                    if let Ok(left) = &r {
                        ensure_eq!(left.nanowits(), have.unwrap_or(0).wrapping_sub(c), "what is left");
                    }
                    r.is_ok()
                };
                ensure_eq!(r, ok, "whether removing {c} of {have:?} with a minimum of {min} is accepted");
                if ok {
                    let e = m.0.get_mut(&key).unwrap();
                    e.coins -= c;
                    if set {
                        e.nonce = u64::from(now);
                    }
                    if e.coins == 0 {
                        m.0.remove(&key);
                        obs.label("entry removed");
                    }
                    changes += 1;
                } else {
                    obs.label_if(have.is_some(), "removal refused");
                }
            }
            5 => {
                let c = coins(t);
                let r = s.add_reward(v, Wit::from_nanowits(c), now).is_ok();
                ensure_eq!(r, !mine.is_empty(), "whether a reward for {v} is accepted");
                if r {
                    if mine.len() > 1 {
                        // Which of several entries gets it is not specified.
                        let before: u64 = m.0.values().map(|e| e.coins).sum();
                        ensure_eq!(s.total_staked().nanowits(), before + c, "total after a reward");
                        obs.label("reward to a shared validator");
                        let mut found = 0;
                        for e in s.query_stakes(QueryStakesKey::All).unwrap() {
                            let x = m.0.get_mut(&e.key).unwrap();
                            if x.coins != e.value.coins.nanowits() || (c == 0 && e.key == mine[0]) {
                                ensure_eq!(e.key.validator, v, "validator who got the reward");
                                x.add(c, now);
                                found += 1;
                            }
                        }
                        ensure_eq!(found, 1, "entries that got the reward");
                    } else {
                        m.0.get_mut(&mine[0]).unwrap().add(c, now);
                    }
                    changes += 1;
                }
            }
            6 => {
                // What a commitment can take is what stays above the minimum.
                let [key] = &mine[..] else { continue };
                let have = m.0[key].coins;
                let c = if t.bool() { t.range(0, have.saturating_sub(min)) } else { have.saturating_sub(min).saturating_add(t.range(1, 3 * min)) };
                if c == have {
                    continue;
                }
                s.reserve_collateral(v, Wit::from_nanowits(c), Wit::from_nanowits(min)).map_err(|e| e.to_string())?;
                if c <= have && have - c >= min {
                    m.0.get_mut(key).unwrap().coins -= c;
                    obs.label("collateral taken");
                    changes += 1;
                } else {
                    obs.label("collateral refused");
                }
            }
            7 => {
                let c = *t.pick(&ALL_CAPABILITIES);
                let at = now + t.below(12) as u32;
                let factor = if t.odds(180) { 1 } else { 1 + t.below(10) as u32 };
                if mine.iter().any(|k| m.0[k].epoch(c) > at) {
                    continue;
                }
                ensure_eq!(s.reset_age(v, c, at, factor).is_ok(), !mine.is_empty(), "whether the age of {v} can be reset");
                for k in &mine {
                    let e = m.0.get_mut(k).unwrap();
                    let old = e.epoch(c);
                    let new = old + (at - old) / factor;
                    match c {
                        Capability::Mining => e.mining = new,
                        Capability::Witnessing => e.witnessing = new,
                    }
                }
                changes += mine.len();
            }
            _ => {
                s.reset_mining_age(v, now).map_err(|e| e.to_string())?;
                let rank = m.rank(Capability::Mining, now);
                if let Some(w) = rank.iter().position(|(k, _)| k.validator == v) {
                    for (i, (k, _)) in rank[..=w].iter().enumerate() {
                        m.0.get_mut(k).unwrap().mining = now + 1 + (w - i) as u32;
                    }
                    obs.label_if(w > 0, "several ages reset");
                    changes += 1;
                }
            }
        }
        let at = now + if t.bool() { 0 } else { t.below(50) as u32 };
        agree(&s, &m, at, &people)?;
        if t.odds(40) {
            // A copy, and what comes back from storage, are equal and independent.
            let stored = bincode::serialize(&s).map_err(|e| e.to_string())?;
            let back: StakesTracker = bincode::deserialize(&stored).map_err(|e| e.to_string())?;
            let copy = s.clone();
            for (what, x) in [("copy", copy), ("stored one", back)] {
                // With several withdrawers per validator, the order of the entries is not specified.
                ensure!(x == s || !single, "the {what} differs");
                agree(&x, &m, at, &people).map_err(|e| format!("in the {what}: {e}"))?;
                let mut x = x;
                if let Some((k, e)) = m.0.iter().next() {
                    x.add_stake(k.clone(), Wit::from_nanowits(min), now, true, Wit::from_nanowits(1)).unwrap();
                    ensure!(x != s, "the {what} with more stake is equal");
                    x.remove_stake(k.clone(), Wit::from_nanowits(min), now, false, Wit::from_nanowits(0)).unwrap();
                    let same = x.query_stakes(QueryStakesKey::Key(k.clone())).unwrap()[0].value;
                    let unchanged = same.epochs.mining == e.mining && same.epochs.witnessing == e.witnessing && same.nonce == e.nonce;
                    if single {
                        ensure_eq!(x == s, unchanged, "whether the changed {what} equals the original");
                    }
                }
                agree(&s, &m, at, &people).map_err(|e| format!("after changing the {what}: {e}"))?;
            }
            obs.label("copied and stored");
        }
    }
    obs.nontrivial_if(changes > 2 && m.0.len() > 1);
    obs.show(|| format!("{:?}", m.0));
    Ok(())
}

pub fn c20(c: &mut Check) {
    c.sub("history", "more than two accepted changes and more than one entry at the end", 300_000, 6_000_000, || tapes(1200), |b, obs| history(&mut b.tape(), obs));
}
