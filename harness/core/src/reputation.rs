use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};
use vpkit::{Check, Obs, ensure, ensure_eq};
use witnet_reputation::{ActiveReputationSet, TotalReputationSet};

type R = Result<(), String>;
type Trs<S = RandomState> = TotalReputationSet<u16, u32, u32, S>;

/// A hasher under which all identities collide.
#[derive(Default, Clone)]
struct Same;
impl Hasher for Same {
    fn finish(&self) -> u64 {
        7
    }
    fn write(&mut self, _: &[u8]) {}
}
type AllCollide = BuildHasherDefault<Same>;

/// How a penalty turns the old reputation into the new one.
#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
enum Pen {
    Sub(u32),
    Half,
    Zero,
    Keep,
    /// Illegal: more than before.
    Raise(u32),
}

impl Pen {
    fn apply(self, v: u32) -> u32 {
        match self {
            Pen::Sub(n) => v.saturating_sub(n),
            Pen::Half => v / 2,
            Pen::Zero => 0,
            Pen::Keep => v,
            Pen::Raise(n) => v + n,
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    /// Expiration relative to the latest one (can be negative: out of order).
    Gain(i32, Vec<(u16, u32)>),
    /// Expiration relative to the earliest one.
    Expire(i32),
    Penalize(Vec<(u16, Pen)>),
    PenalizeOne(u16, Pen),
    Clear,
    /// Rebuild from the listed packets.
    Rebuild,
    Serde(bool),
}

/// The specification: packets of reputation in order of expiration.
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    packets: Vec<(u32, BTreeMap<u16, u32>)>,
}

impl Model {
    fn get(&self, id: u16) -> u32 {
        self.packets.iter().filter_map(|p| p.1.get(&id)).sum()
    }
    fn total(&self) -> u32 {
        self.packets.iter().flat_map(|p| p.1.values()).sum()
    }
    fn gain(&mut self, at: u32, d: &[(u16, u32)]) -> bool {
        match self.packets.last() {
            Some((m, _)) if *m > at => return false,
            Some((m, _)) if *m == at => {}
            _ => self.packets.push((at, BTreeMap::new())),
        }
        let p = &mut self.packets.last_mut().unwrap().1;
        for (k, v) in d {
            if *v > 0 {
                *p.entry(*k).or_default() += v;
            }
        }
        true
    }
    fn expire(&mut self, at: u32) -> u32 {
        let gone: u32 = self.packets.iter().filter(|p| p.0 <= at).flat_map(|p| p.1.values()).sum();
        self.packets.retain(|p| p.0 > at);
        gone
    }
    fn penalize(&mut self, l: &[(u16, Pen)]) -> Result<u32, (u32, u32)> {
        let before = self.clone();
        let mut sum = 0;
        for (id, f) in l {
            let old = self.get(*id);
            let new = f.apply(old);
            if new > old {
                *self = before;
                return Err((old, new));
            }
            let mut left = old - new;
            sum += left;
            for (_, p) in self.packets.iter_mut().rev() {
                if let Some(v) = p.get_mut(id) {
                    let take = left.min(*v);
                    *v -= take;
                    left -= take;
                    if *v == 0 {
                        p.remove(id);
                    }
                }
            }
        }
        Ok(sum)
    }
}

const IDS: u16 = 6;

fn compare<S: BuildHasher + Default>(t: &Trs<S>, m: &Model, what: &str) -> R {
    let mut all: BTreeMap<u16, u32> = BTreeMap::new();
    for (k, v) in m.packets.iter().flat_map(|p| &p.1) {
        *all.entry(*k).or_default() += v;
    }
    for id in (0..IDS + 1).chain(all.keys().copied()) {
        ensure_eq!(t.get(&id), all.get(&id).copied().unwrap_or(0), "{what}: reputation of {id}");
    }
    ensure_eq!(t.get_total_sum(), m.total(), "{what}: total reputation");
    ensure_eq!(t.get_sum(&[0, 2, 2, IDS]), m.get(0) + 2 * m.get(2) + m.get(IDS), "{what}: sum over a list of identities");
    let have: BTreeMap<u16, u32> = t.identities().map(|(k, v)| (*k, *v)).collect();
    let want: BTreeMap<u16, u32> = all.into_iter().filter(|x| x.1 > 0).collect();
    ensure_eq!(have, want, "{what}: identities with reputation");
    ensure_eq!(t.num_identities(), want.len(), "{what}: number of identities");
    let q: Vec<(u32, BTreeMap<u16, u32>)> =
        t.queue().map(|(a, p)| (*a, p.map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>())).filter(|x| !x.1.is_empty()).collect();
    let mq: Vec<_> = m.packets.iter().filter(|p| !p.1.is_empty()).cloned().collect();
    ensure_eq!(q, mq, "{what}: packets");
    Ok(())
}

fn pen(raises: u32) -> impl Strategy<Value = Pen> {
    prop_oneof![
        6 => (0..40u32).prop_map(Pen::Sub),
        1 => (0..1u32 << 20).prop_map(Pen::Sub),
        2 => Just(Pen::Half),
        2 => Just(Pen::Zero),
        1 => Just(Pen::Keep),
        raises => (1..5u32).prop_map(Pen::Raise),
    ]
}

fn ops(n: usize, raises: u32, disorder: u32) -> impl Strategy<Value = Vec<Op>> {
    ops_of(0..n, raises, disorder, IDS, 6, 2)
}

/// Histories with many identities and many packets at once.
fn long_ops(raises: u32, disorder: u32) -> impl Strategy<Value = Vec<Op>> {
    prop_oneof![Just((300u16, 30usize)), Just((40, 12)), Just((3, 4))].prop_flat_map(move |(ids, wide)| ops_of(100..500, raises, disorder, ids, wide, 0))
}

fn ops_of(n: std::ops::Range<usize>, raises: u32, disorder: u32, ids: u16, wide: usize, expire: u32) -> impl Strategy<Value = Vec<Op>> {
    let amount = prop_oneof![1 => Just(0u32), 6 => 1..30u32, 1 => 1..100_000u32, 1 => 1..1u32 << 22];
    let diff = vec((0..ids, amount), 0..wide);
    let op = prop_oneof![
        8 => (prop_oneof![30 => 0..4i32, 1 => (2..28u32).prop_map(|b| 1 << b)], diff.clone()).prop_map(|(a, d)| Op::Gain(a, d)),
        disorder => (-5..0i32, diff).prop_map(|(a, d)| Op::Gain(a, d)),
        1 + 2 * expire => (-1..5i32).prop_map(Op::Expire),
        4 => vec((0..ids, pen(raises)), 0..wide).prop_map(Op::Penalize),
        3 => (0..ids + 1, pen(raises)).prop_map(|(i, p)| Op::PenalizeOne(i, p)),
        1 => prop_oneof![(1 + expire) / 2 => Just(Op::Clear), 3 => Just(Op::Rebuild)],
        1 => any::<bool>().prop_map(Op::Serde),
    ];
    vec(op, n)
}

fn reserde<S: BuildHasher + Default>(t: &Trs<S>, json: bool) -> Result<Trs<S>, String> {
    if json {
        serde_json::from_str(&serde_json::to_string(t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    } else {
        bincode::deserialize(&bincode::serialize(t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
}

/// Applies one operation to both, and compares what it returned.
/// Returns whether it was rejected.
fn step<S: BuildHasher + Default + Clone>(t: &mut Trs<S>, m: &mut Model, op: &Op) -> Result<bool, String> {
    Ok(match op {
        Op::Gain(rel, d) => {
            let last = m.packets.last().map_or(10, |p| p.0);
            let at = last.saturating_add_signed(*rel);
            let got = t.gain(at, d.iter().copied());
            let ok = m.gain(at, d);
            ensure_eq!(got.is_ok(), ok, "gain with expiration {at}");
            !ok
        }
        Op::Expire(rel) => {
            let first = m.packets.first().map_or(10, |p| p.0);
            let at = first.saturating_add_signed(*rel);
            ensure_eq!(t.expire(&at), m.expire(at), "amount expired at {at}");
            false
        }
        Op::Penalize(l) => {
            let got = t.penalize_many(l.iter().map(|(k, p)| (k, |v| p.apply(v)))).map_err(|e| (e.old_rep, e.new_rep));
            let want = m.penalize(l);
            match (got, want) {
                (Ok(g), Ok(w)) => ensure_eq!(g, w, "amount subtracted by {l:?}"),
                (Err(g), Err(w)) => ensure_eq!(g, w, "the error of {l:?}"),
                (g, w) => return Err(format!("penalties {l:?}: {g:?}, expected {w:?}")),
            }
            want.is_err()
        }
        Op::PenalizeOne(k, p) => {
            let got = t.penalize(k, |v| p.apply(v)).map_err(|e| (e.old_rep, e.new_rep));
            let want = m.penalize(&[(*k, *p)]);
            ensure_eq!(got.as_ref().ok(), want.as_ref().ok(), "amount subtracted by one penalty");
            ensure_eq!(got.is_err(), want.is_err(), "one penalty");
            want.is_err()
        }
        Op::Clear => {
            t.clear();
            *m = Model::default();
            false
        }
        Op::Rebuild => {
            let list: Vec<(u32, Vec<(u16, u32)>)> =
                t.queue().map(|(a, p)| (*a, p.map(|(k, v)| (*k, *v)).collect())).collect();
            let t2 = Trs::<S>::from_queue_with_hasher(list.clone()).map_err(|_| "packets out of order".to_string())?;
            ensure!(t2 == *t, "a set rebuilt from its packets differs");
            let mut back = list;
            back.reverse();
            if back.len() > 1 {
                ensure!(Trs::<S>::from_queue_with_hasher(back).is_err(), "packets in the wrong order are taken");
            }
            *t = t2;
            false
        }
        Op::Serde(json) => {
            let t2 = reserde(t, *json)?;
            ensure!(t2 == *t, "a stored and loaded set differs");
            *t = t2;
            false
        }
    })
}

pub fn c09(c: &mut Check) {
    c.assume("amounts stay far below the overflow of the reputation type");
    c.sub(
        "history-against-packets",
        "the history has gains, a penalty that takes something and an expiration",
        12000,
        900_000,
        || ops(24, 0, 0),
        |ops, obs| {
            let mut t = Trs::<RandomState>::new();
            let mut m = Model::default();
            let (mut took, mut expired) = (false, false);
            for (i, op) in ops.iter().enumerate() {
                let before = m.total();
                step(&mut t, &mut m, op)?;
                match op {
                    Op::Penalize(_) | Op::PenalizeOne(..) => took |= m.total() < before,
                    Op::Expire(_) => expired |= m.total() < before,
                    _ => {}
                }
                compare(&t, &m, &format!("after step {i} {op:?}"))?;
            }
            obs.nontrivial_if(took && expired);
            // Everything expires in the end.
            ensure_eq!(t.expire(&u32::MAX), m.total(), "the last expiration");
            ensure_eq!(t.get_total_sum(), 0, "reputation left after everything expired");
            ensure_eq!(t.num_identities(), 0, "identities left after everything expired");
            Ok(())
        },
    );
    c.sub(
        "long-histories",
        "many packets at once and a penalty",
        40,
        4000,
        || long_ops(0, 0),
        |ops, obs| long(Trs::<RandomState>::new(), ops, obs),
    );
    c.sub(
        "another-hasher",
        "many packets at once and a penalty",
        30,
        2000,
        || ops_of(20..80, 2, 1, 20, 8, 1),
        |ops, obs| {
            // A set that is made from its packets, with the hasher of the standard library.
            let mut m = Model::default();
            let mut t = Trs::<AllCollide>::default();
            for op in ops {
                step(&mut t, &mut m, op)?;
            }
            let list: Vec<(u32, Vec<(u16, u32)>)> = t.queue().map(|(a, p)| (*a, p.map(|(k, v)| (*k, *v)).collect())).collect();
            compare(&Trs::from_queue(list).map_err(|_| "packets out of order")?, &m, "made from packets")?;
            long(Trs::<AllCollide>::with_hasher(), ops, obs)
        },
    );
    c.sub(
        "wide-batches",
        "at least 20 identities are penalized at once",
        400,
        20_000,
        || (vec((0..3u32, vec((any::<u16>(), 1..50u32), 0..120)), 1..6), vec((any::<u16>(), pen(0)), 0..150)),
        |(gains, pens), obs| {
            type T = TotalReputationSet<u16, u32, u32>;
            let mut t = T::new();
            let mut per: BTreeMap<u16, Vec<u32>> = BTreeMap::new();
            let mut at = 0;
            for (i, (d, g)) in gains.iter().enumerate() {
                at += d;
                let g: Vec<(u16, u32)> = g.iter().map(|(k, v)| (k % 97, *v)).collect();
                t.gain(at, g.clone()).map_err(|_| "ordered gain refused")?;
                for (k, v) in g {
                    per.entry(k).or_insert_with(|| vec![0; gains.len()])[i] += v;
                }
            }
            let pens: BTreeMap<u16, Pen> = pens.iter().map(|(k, p)| (k % 97, *p)).collect();
            obs.nontrivial_if(pens.len() >= 20);
            let mut want = 0;
            for (k, p) in &pens {
                let have: u32 = per.get(k).map_or(0, |v| v.iter().sum());
                want += have - p.apply(have);
            }
            let got = t.penalize_many(pens.iter().map(|(k, p)| (k, |v| p.apply(v)))).map_err(|_| "legal penalties refused")?;
            ensure_eq!(got, want, "amount subtracted");
            for k in 0..97u16 {
                let have: u32 = per.get(&k).map_or(0, |v| v.iter().sum());
                ensure_eq!(t.get(&k), pens.get(&k).map_or(have, |p| p.apply(have)), "reputation of {k}");
            }
            let total: u32 = t.get_total_sum();
            ensure_eq!(t.queue().flat_map(|(_, p)| p.map(|x| *x.1)).sum::<u32>(), total, "sum over packets");
            ensure_eq!(t.expire(&at), total, "expiration of everything");
            Ok(())
        },
    );
}

fn long<S: BuildHasher + Default + Clone>(mut t: Trs<S>, ops: &[Op], obs: &mut Obs) -> R {
    let mut m = Model::default();
    let (mut most, mut took) = (0, false);
    for (i, op) in ops.iter().enumerate() {
        let (before, had) = (t.clone(), m.total());
        let rejected = step(&mut t, &mut m, op)?;
        ensure!(!rejected || t == before, "step {i} {op:?} was rejected but changed the packets");
        most = most.max(m.packets.len());
        took |= m.total() < had && matches!(op, Op::Penalize(_) | Op::PenalizeOne(..));
        if rejected || i % 16 == 0 || i + 1 == ops.len() {
            compare(&t, &m, &format!("after step {i} {op:?}"))?;
        }
    }
    obs.nontrivial_if(took && most > 8);
    obs.label_if(most > 64, "more than 64 packets");
    obs.label_if(t.num_identities() > 100, "more than 100 identities");
    // It expires packet by packet.
    while let Some((at, _)) = m.packets.first().cloned() {
        ensure_eq!(t.expire(&at), m.expire(at), "amount expired at {at}");
        if m.packets.len() % 16 == 0 {
            compare(&t, &m, &format!("after expiration at {at}"))?;
        }
    }
    ensure_eq!(t.num_identities(), 0, "identities left after everything expired");
    Ok(())
}

pub fn c10(c: &mut Check) {
    c.sub(
        "rejections in long histories",
        "many packets at once and a penalty",
        40,
        3000,
        || long_ops(2, 3),
        |ops, obs| long(Trs::<RandomState>::new(), ops, obs),
    );
    c.sub(
        "rejections-change-nothing",
        "an operation is rejected while the set holds reputation",
        12000,
        900_000,
        || ops(20, 6, 4),
        |ops, obs| {
            let mut t = Trs::<RandomState>::new();
            let mut m = Model::default();
            for (i, op) in ops.iter().enumerate() {
                let before = t.clone();
                let holds = m.total() > 0;
                let rejected = step(&mut t, &mut m, op)?;
                if rejected {
                    obs.nontrivial_if(holds);
                    obs.label(if matches!(op, Op::Gain(..)) { "gain out of order" } else { "illegal penalty" });
                    ensure!(t == before, "step {i} {op:?} was rejected but changed the packets");
                }
                compare(&t, &m, &format!("after step {i} {op:?}, rejected: {rejected}"))?;
            }
            ensure_eq!(t.expire(&u32::MAX), m.total(), "the last expiration");
            Ok(())
        },
    );
    c.sub(
        "stale-activity-changes-nothing",
        "a stale update is rejected while some identity is active",
        8000,
        400_000,
        || (1..8usize, vec((-4..6i8, vec(0..6u8, 0..4)), 0..16)),
        |(cap, ops), obs| {
            let mut a = ActiveReputationSet::<u8>::new(*cap);
            let mut last = 0u32;
            for (d, ids) in ops {
                let e = last.saturating_add_signed(*d as i32);
                let before = a.clone();
                let r = a.update(ids.clone(), e);
                if e > last {
                    ensure!(r.is_ok(), "an update at epoch {e} after {last} is refused");
                    last = e;
                } else {
                    ensure_eq!(r.is_err(), e > 0, "an update at epoch {e} after {last} is refused");
                    obs.nontrivial_if(before.active_identities_number() > 0 && e > 0);
                    ensure!(a == before, "a rejected update changed the set");
                    let x: BTreeSet<u8> = a.active_identities().copied().collect();
                    let y: BTreeSet<u8> = before.active_identities().copied().collect();
                    ensure_eq!(x, y, "a rejected update changed who is active");
                }
            }
            Ok(())
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Act {
    /// Distance in epochs from the last accepted update.
    Update(i32, Vec<u8>),
    Push(Vec<u8>),
    Clear,
    Serde(bool),
}

/// The specification: who was active at which tick.
#[derive(Default)]
struct Window {
    tick: u64,
    last: u32,
    seen: Vec<(u64, BTreeSet<u8>)>,
}

impl Window {
    fn active(&self, cap: usize) -> BTreeSet<u8> {
        self.seen.iter().filter(|(t, _)| t + cap as u64 > self.tick).flat_map(|x| x.1.iter().copied()).collect()
    }
}

fn acts(cap: usize, push: u32) -> impl Strategy<Value = Vec<Act>> {
    let ids = vec(0..8u8, 0..5);
    let c = cap as i32;
    vec(
        prop_oneof![
            8 => (prop_oneof![8 => 1..3i32, 2 => -3..=0i32, 2 => c - 1..=c + 1, 1 => 0..3 * c + 2, 1 => (1..24u32, -1..=2i32).prop_map(|(b, d)| (1 << b) + d)], ids.clone()).prop_map(|(d, i)| Act::Update(d, i)),
            push => ids.prop_map(Act::Push),
            1 => prop_oneof![1 => Just(Act::Clear), 2 => any::<bool>().prop_map(Act::Serde)],
        ],
        0..30,
    )
}

fn run_ars(cap: usize, acts: &[Act], obs: &mut Obs) -> R {
    let mut a = ActiveReputationSet::<u8>::new(cap);
    let mut w = Window::default();
    let mut dropped = false;
    for (i, act) in acts.iter().enumerate() {
        match act {
            Act::Update(d, ids) => {
                let e = w.last.saturating_add_signed(*d);
                let before = w.active(cap);
                let r = a.update(ids.clone(), e);
                ensure_eq!(r.is_ok(), e > w.last || e == 0, "step {i}: update at epoch {e}, last {}", w.last);
                if e > w.last {
                    w.tick += (e - w.last) as u64;
                    w.last = e;
                    w.seen.push((w.tick, ids.iter().copied().collect()));
                    dropped |= before.difference(&w.active(cap)).next().is_some();
                }
            }
            Act::Push(ids) => {
                a.push_activity(ids.clone());
                w.tick += 1;
                w.seen.push((w.tick, ids.iter().copied().collect()));
            }
            Act::Clear => {
                a.clear();
                w.seen.clear();
            }
            Act::Serde(json) => {
                let b: ActiveReputationSet<u8> = if *json {
                    serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string())?
                } else {
                    bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?
                };
                ensure!(b == a, "step {i}: a stored and loaded set differs");
                a = b;
            }
        }
        let want = w.active(cap);
        let have: BTreeSet<u8> = a.active_identities().copied().collect();
        ensure_eq!(have, want, "step {i} {act:?}: active identities");
        ensure_eq!(a.active_identities_number(), want.len(), "step {i}: number of active identities");
        for id in 0..9u8 {
            ensure_eq!(a.contains(&id), want.contains(&id), "step {i}: is {id} active");
        }
        ensure!(a.buffer_size() <= cap, "step {i}: {} entries with capacity {cap}", a.buffer_size());
        ensure_eq!(a.buffer_capacity(), cap, "capacity");
    }
    obs.nontrivial_if(dropped);
    Ok(())
}

pub fn c11(c: &mut Check) {
    c.sub(
        "long-lives",
        "someone stops being active",
        40,
        3000,
        stretches,
        |(cap, start, ss), obs| run_long(*cap, *start, ss, obs),
    );
    c.assume("the activity period is at least 1 (a period of 0 is not a configuration the node can have)");
    c.sub(
        "activity-window",
        "an identity stops being active in the course of the history",
        12000,
        800_000,
        || (1..12usize).prop_flat_map(|cap| (Just(cap), acts(cap, 0))),
        |(cap, a), obs| run_ars(*cap, a, obs),
    );
    c.sub(
        "updates-and-pushes",
        "an identity stops being active in the course of the history",
        8000,
        400_000,
        || (prop_oneof![4 => 1..6usize, 1 => Just(100usize)]).prop_flat_map(|cap| (Just(cap), acts(cap, 6))),
        |(cap, a), obs| run_ars(*cap, a, obs),
    );
    c.sub(
        "gaps-like-empty-epochs",
        "a gap longer than one epoch",
        4000,
        200_000,
        || (1..8usize, vec((1..12u32, vec(0..6u8, 0..4)), 0..14)),
        |(cap, ups), obs| {
            // Skipping epochs is the same as updating with nobody in each of them.
            let mut a = ActiveReputationSet::<u8>::new(*cap);
            let mut b = ActiveReputationSet::<u8>::new(*cap);
            let mut e = 0;
            for (d, ids) in ups {
                obs.nontrivial_if(*d > 1);
                for k in e + 1..e + d {
                    b.update(vec![], k).map_err(|x| x.to_string())?;
                }
                e += d;
                a.update(ids.clone(), e).map_err(|x| x.to_string())?;
                b.update(ids.clone(), e).map_err(|x| x.to_string())?;
                let x: BTreeSet<u8> = a.active_identities().copied().collect();
                let y: BTreeSet<u8> = b.active_identities().copied().collect();
                ensure_eq!(x, y, "active identities with the epochs up to {e} skipped and filled");
            }
            Ok(())
        },
    );
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Stretch {
    /// Who is active in each of so many updates, this far apart.
    ids: Vec<u16>,
    times: u16,
    gap: u32,
    /// Pushed without an epoch.
    push: bool,
    /// Stored and loaded afterwards.
    store: bool,
}

/// Long lives: someone may be active hundreds of times within one window.
fn run_long(cap: usize, start: u32, ss: &[Stretch], obs: &mut Obs) -> R {
    let mut a = ActiveReputationSet::<u16>::new(cap);
    let mut seen: BTreeMap<u16, u64> = BTreeMap::new();
    let (mut tick, mut last) = (0u64, 0u32);
    let check = |a: &ActiveReputationSet<u16>, seen: &BTreeMap<u16, u64>, tick: u64, what: &str| -> R {
        let want: BTreeSet<u16> = seen.iter().filter(|x| x.1 + cap as u64 > tick).map(|x| *x.0).collect();
        let have: BTreeSet<u16> = a.active_identities().copied().collect();
        ensure_eq!(have, want, "{what}: active identities");
        ensure_eq!(a.active_identities_number(), want.len(), "{what}: number of active identities");
        Ok(())
    };
    if start > 0 {
        a.update(vec![1], start).map_err(|e| e.to_string())?;
        tick = start as u64;
        last = start;
        seen.insert(1, tick);
    }
    for (i, s) in ss.iter().enumerate() {
        let n = s.times as usize * cap / 100 + 1;
        obs.label_if(n > 255 && cap > 255, "active more than 255 times in one window");
        for k in 0..n {
            if s.push {
                a.push_activity(s.ids.clone());
                tick += 1;
            } else {
                let Some(e) = last.checked_add(s.gap) else { break };
                a.update(s.ids.clone(), e).map_err(|e| e.to_string())?;
                tick += s.gap as u64;
                last = e;
            }
            for id in &s.ids {
                seen.insert(*id, tick);
            }
            if n < 20 || k % 64 == 0 || k + 1 == n {
                check(&a, &seen, tick, &format!("stretch {i} step {k}"))?;
            }
        }
        if s.store {
            let b: ActiveReputationSet<u16> = bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?;
            ensure!(b == a, "stretch {i}: a stored and loaded set differs");
            a = b;
        }
        // Only so long as they should.
        obs.nontrivial_if(seen.len() > a.active_identities_number());
    }
    ensure!(a.buffer_size() <= cap, "{} entries with capacity {cap}", a.buffer_size());
    Ok(())
}

fn stretches() -> impl Strategy<Value = (usize, u32, Vec<Stretch>)> {
    let cap = prop_oneof![2 => 250..600usize, 1 => 600..2500usize, 2 => 3..70usize];
    let start = prop_oneof![6 => Just(0u32), 1 => any::<u32>(), 1 => u32::MAX - 3000..u32::MAX];
    let ids = prop_oneof![4 => vec(0..8u16, 0..4), 1 => vec(0..900u16, 200..400)];
    let times = prop_oneof![2 => 0..4u16, 3 => 90..130u16];
    let st = (ids, times, prop_oneof![6 => Just(1u32), 1 => 1..5u32, 1 => 1..1000u32], prop::bool::weighted(0.2), prop::bool::weighted(0.2))
        .prop_map(|(ids, times, gap, push, store)| Stretch { ids, times, gap, push, store });
    (cap, start, vec(st, 1..6))
}

pub fn c12(c: &mut Check) {
    c.sub(
        "large-sets-survive-storage",
        "many packets at once and a penalty",
        20,
        1000,
        || (long_ops(1, 1), ops_of(0..40, 1, 1, 300, 30, 0), any::<bool>()),
        |(first, then, json), obs| {
            let mut t = Trs::<RandomState>::new();
            let mut m = Model::default();
            for op in first {
                step(&mut t, &mut m, op)?;
            }
            obs.nontrivial_if(m.packets.len() > 8);
            obs.label_if(m.packets.len() > 64, "more than 64 packets");
            let mut u = reserde(&t, *json)?;
            compare(&u, &m, "loaded set")?;
            let mut m2 = m.clone();
            for op in then {
                ensure_eq!(step(&mut t, &mut m, op)?, step(&mut u, &mut m2, op)?, "rejection of {op:?} after loading");
                ensure!(t == u, "{op:?} after loading leads elsewhere");
            }
            compare(&u, &m2, "after loading")
        },
    );
    c.sub(
        "total-set-survives-storage",
        "the stored set holds reputation in at least two packets",
        6000,
        300_000,
        || (ops(14, 2, 1), ops(10, 2, 1), any::<bool>()),
        |(first, then, json), obs| {
            let mut t = Trs::new();
            let mut m = Model::default();
            for op in first {
                step(&mut t, &mut m, op)?;
            }
            obs.nontrivial_if(m.packets.iter().filter(|p| !p.1.is_empty()).count() >= 2);
            let mut u = reserde(&t, *json)?;
            ensure!(u == t, "a stored and loaded set differs");
            compare(&u, &m, "loaded set")?;
            // From here on both live the same life.
            let mut m2 = m.clone();
            for op in then {
                let a = step(&mut t, &mut m, op)?;
                let b = step(&mut u, &mut m2, op)?;
                ensure_eq!(a, b, "rejection of {op:?} after loading");
                ensure!(t == u, "{op:?} after loading leads elsewhere");
                compare(&u, &m2, "after loading")?;
            }
            Ok(())
        },
    );
    c.sub(
        "active-set-survives-storage",
        "somebody is active when the set is stored",
        6000,
        300_000,
        || (1..8usize).prop_flat_map(|cap| (Just(cap), acts(cap, 1), acts(cap, 1), any::<bool>())),
        |(cap, first, then, json), obs| {
            let apply = |a: &mut ActiveReputationSet<u8>, act: &Act, last: &mut u32| -> bool {
                match act {
                    Act::Update(d, ids) => {
                        let e = last.saturating_add_signed(*d);
                        let r = a.update(ids.clone(), e).is_ok();
                        if r {
                            *last = (*last).max(e);
                        }
                        r
                    }
                    Act::Push(ids) => {
                        a.push_activity(ids.clone());
                        true
                    }
                    Act::Clear => {
                        a.clear();
                        true
                    }
                    Act::Serde(_) => true,
                }
            };
            let mut a = ActiveReputationSet::<u8>::new(*cap);
            let mut la = 0;
            for x in first {
                apply(&mut a, x, &mut la);
            }
            obs.nontrivial_if(a.active_identities_number() > 0);
            let mut b: ActiveReputationSet<u8> = if *json {
                serde_json::from_str(&serde_json::to_string(&a).unwrap()).map_err(|e| e.to_string())?
            } else {
                bincode::deserialize(&bincode::serialize(&a).unwrap()).map_err(|e| e.to_string())?
            };
            ensure!(b == a, "a stored and loaded set differs");
            let mut lb = la;
            for x in then {
                let r1 = apply(&mut a, x, &mut la);
                let r2 = apply(&mut b, x, &mut lb);
                ensure_eq!(r1, r2, "{x:?} after loading");
                ensure!(a == b, "{x:?} after loading leads elsewhere");
                let p: BTreeSet<u8> = a.active_identities().copied().collect();
                let q: BTreeSet<u8> = b.active_identities().copied().collect();
                ensure_eq!(p, q, "active identities after loading");
            }
            Ok(())
        },
    );
}

// ------------------------------------------------------------------------------------- futures_utils

#[derive(Debug, PartialEq, Clone)]
enum Out {
    Inner(u32),
    Outer(u32),
}
struct Inner(u32);
struct Outer(u32);
impl From<Inner> for Out {
    fn from(x: Inner) -> Out {
        Out::Inner(x.0)
    }
}
impl From<Outer> for Out {
    fn from(x: Outer) -> Out {
        Out::Outer(x.0)
    }
}

pub fn c15(c: &mut Check) {
    use futures::FutureExt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
    use std::task::{Context, Poll, Wake, Waker};
    use witnet_futures_utils::TryFutureExt2;
    struct Count(AtomicUsize);
    impl Wake for Count {
        fn wake(self: Arc<Self>) {
            self.0.fetch_add(1, SeqCst);
        }
    }
    c.sub(
        "flattened-future",
        "the future is pending at least once before it is ready",
        4000,
        100_000,
        || (vec(any::<bool>(), 0..6), 0..3u8, any::<u32>()),
        |(wakes, kind, x), obs| {
            obs.nontrivial_if(!wakes.is_empty());
            let polls = Arc::new(AtomicUsize::new(0));
            let (p2, w2, x2, kind2) = (polls.clone(), wakes.clone(), *x, *kind);
            let inner = std::future::poll_fn(move |cx: &mut Context<'_>| {
                let n = p2.fetch_add(1, SeqCst);
                assert!(n <= w2.len(), "polled after it was ready");
                if n < w2.len() {
                    if w2[n] {
                        cx.waker().wake_by_ref();
                    }
                    return Poll::Pending;
                }
                Poll::Ready(match kind2 {
                    0 => Ok(Ok(x2)),
                    1 => Ok(Err(Inner(x2))),
                    _ => Err(Outer(x2)),
                })
            });
            let mut f: Pin<Box<dyn Future<Output = Result<u32, Out>>>> =
                Box::pin(inner.flatten_err::<u32, Inner, Outer, Out>().map(|r| r));
            let waker = Arc::new(Count(AtomicUsize::new(0)));
            let w: Waker = waker.clone().into();
            let mut cx = Context::from_waker(&w);
            for i in 0..wakes.len() {
                ensure!(f.as_mut().poll(&mut cx).is_pending(), "ready at poll {i}, before the inner future");
            }
            let want = match kind {
                0 => Ok(*x),
                1 => Err(Out::Inner(*x)),
                _ => Err(Out::Outer(*x)),
            };
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(r) => ensure_eq!(r, want, "result"),
                Poll::Pending => return Err("pending although the inner future is ready".into()),
            }
            ensure_eq!(polls.load(SeqCst), wakes.len() + 1, "number of polls of the inner future");
            ensure_eq!(waker.0.load(SeqCst), wakes.iter().filter(|w| **w).count(), "wake-ups passed on");
            Ok(())
        },
    );
}
