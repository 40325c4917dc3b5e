//! C38: what fees are paid, and which ones are suggested.
use std::{collections::BTreeMap, str::FromStr, time::Duration};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes, tapes},
};
use witnet_data_structures::{
    chain::priority::{Priorities, PrioritiesEstimate, Priority, PriorityEngine, PriorityError, PriorityEstimate, PriorityVisitor, TimeToBlock, strategies},
    fee::{AbsoluteFee, Fee, RelativeFee, deserialize_fee_backwards_compatible},
    transaction::{CommitTransaction, DRTransaction, MintTransaction, RevealTransaction, StakeTransaction, TallyTransaction, Transaction, UnstakeTransaction, VTTransaction},
    types::visitor::{StatefulVisitor, Visitor},
    wit::Wit,
};

type R = Result<(), String>;
const KINDS: [&str; 4] = ["data requests", "value transfers", "stakes", "unstakes"];
const DEFAULTS: [f64; 5] = [0.1, 0.2, 0.3, 0.4, 0.5];
const MINUTES: [u16; 5] = [360, 60, 15, 5, 1];

/// Highest and lowest priority of each kind, as found in one block.
type Block = [(f64, Option<f64>); 4];

fn real(b: &Block) -> Priorities {
    let p = |x: f64| Priority::from(x);
    Priorities {
        drt_highest: p(b[0].0),
        drt_lowest: b[0].1.map(p),
        vtt_highest: p(b[1].0),
        vtt_lowest: b[1].1.map(p),
        st_highest: p(b[2].0),
        st_lowest: b[2].1.map(p),
        ut_highest: p(b[3].0),
        ut_lowest: b[3].1.map(p),
    }
}

fn block_of(p: &Priorities) -> Block {
    let o = |x: Option<Priority>| x.map(|p| p.as_f64());
    [
        (p.drt_highest.as_f64(), o(p.drt_lowest)),
        (p.vtt_highest.as_f64(), o(p.vtt_lowest)),
        (p.st_highest.as_f64(), o(p.st_lowest)),
        (p.ut_highest.as_f64(), o(p.ut_lowest)),
    ]
}

fn tiers(e: &PrioritiesEstimate) -> [[&PriorityEstimate; 5]; 4] {
    [
        [&e.drt_stinky, &e.drt_low, &e.drt_medium, &e.drt_high, &e.drt_opulent],
        [&e.vtt_stinky, &e.vtt_low, &e.vtt_medium, &e.vtt_high, &e.vtt_opulent],
        [&e.st_stinky, &e.st_low, &e.st_medium, &e.st_high, &e.st_opulent],
        [&e.ut_stinky, &e.ut_low, &e.ut_medium, &e.ut_high, &e.ut_opulent],
    ]
}

fn blocks(t: &mut Tape, n: usize) -> Vec<Block> {
    // Each kind of transaction is priced after a style of its own.
    let styles: Vec<(u8, f64)> = (0..4).map(|_| (t.range(0, 5) as u8, f64::from(t.u16()) / 64.0 + 0.01)).collect();
    (0..n)
        .map(|i| {
            std::array::from_fn(|k| {
                let (style, scale) = styles[k];
                let low = match style {
                    0 => None,
                    1 => Some(scale),
                    2 => Some(f64::from(t.u8()) * scale / 256.0),
                    3 => Some(f64::from(t.u16()) * scale),
                    4 => Some(if t.odds(20) { scale * 1e6 } else { f64::from(t.u8() % 4) }),
                    _ => Some(scale * (i % 60) as f64),
                };
                let low = if t.odds(16) { None } else { low };
                let high = low.unwrap_or(0.0) + if t.bool() { f64::from(t.u8()) / 3.0 } else { 0.0 };
                (high, low.filter(|_| high > 0.0 || t.bool()))
            })
        })
        .collect()
}

/// The estimates for one kind: what each of 51 evenly spaced levels between the lowest and the
/// highest of the lowest fees was worth, counting each block for its level and the 10 % below.
fn estimate(lows: &[f64], seconds: f64, minutes: [u16; 5]) -> [f64; 5] {
    let min = lows.iter().copied().fold(f64::MAX, f64::min);
    let max = lows.iter().copied().fold(0.0, f64::max);
    let step = (max - min) / 50.0;
    let mut count = BTreeMap::new();
    for low in lows {
        let level = if step > 0.0 { ((low - min) / step).round() as u64 } else { 0 };
        for l in level * 9 / 10..=level {
            *count.entry(l).or_insert(0u64) += 1;
        }
    }
    let all: u64 = count.values().sum();
    std::array::from_fn(|i| {
        let share = f64::from(minutes[i]) * 60.0 / seconds / lows.len() as f64;
        let needed = (share * all as f64).ceil();
        let level = count.iter().rev().find(|(_, n)| **n as f64 >= needed).map_or(0, |(l, _)| *l);
        (min + level as f64 * step).max(DEFAULTS[i])
    })
}

fn check_estimates(e: &PrioritiesEstimate, history: &[Block], seconds: u16, minutes: [u16; 5]) -> R {
    for (k, row) in tiers(e).into_iter().enumerate() {
        let lows: Vec<f64> = history.iter().map(|b| b[k].1.unwrap_or(b[k].0)).collect();
        let want = estimate(&lows, f64::from(seconds), minutes);
        let highest = lows.iter().copied().fold(0.0, f64::max);
        for i in 0..5 {
            let got = row[i].priority.as_f64();
            ensure!((got - want[i]).abs() <= 1e-9 * want[i].max(1.0), "tier {i} of {}: {got}, expected {}, from {lows:?} and {seconds} s per epoch", KINDS[k], want[i]);
            ensure!(row[i].time_to_block == TimeToBlock::from_secs(u64::from(minutes[i]) * 60), "the time to block of tier {i}");
            ensure!(got >= DEFAULTS[i] && got <= highest.max(DEFAULTS[i]) * (1.0 + 1e-9), "tier {i} of {} is out of bounds: {got}", KINDS[k]);
            ensure!(i == 0 || got >= row[i - 1].priority.as_f64() || minutes[i] > minutes[i - 1], "tier {i} of {} is cheaper than the one below", KINDS[k]);
        }
    }
    Ok(())
}

fn estimates(t: &mut Tape, o: &mut Obs) -> R {
    let n = *t.pick(&[20, 21, 25, 40, 64, 100, 19, 5, 300]);
    let history = blocks(t, n);
    let seconds = *t.pick(&[45, 45, 20, 20, 1, 60, 600]);
    let engine = PriorityEngine::from_vec(history.iter().map(real).collect());
    let got = engine.estimate_priority(Duration::from_secs(u64::from(seconds)));
    if n < 20 {
        let want = PriorityError::NotEnoughSampledEpochs { current: n as u32, required: 20, wait_minutes: (20 - n as u32) * u32::from(seconds) / 60 + 1 };
        ensure!(got == Err(want), "an estimate out of {n} blocks: {got:?}");
        return Ok(());
    }
    let got = got.map_err(|e| e.to_string())?;
    check_estimates(&got, &history, seconds, MINUTES)?;
    // Not in that order, nor in the company of other kinds
    let mut other = history.clone();
    for i in (1..n).rev() {
        other.swap(i, t.below(i + 1));
    }
    let shuffled = PriorityEngine::from_vec(other.iter().map(real).collect()).estimate_priority(Duration::from_secs(u64::from(seconds))).unwrap();
    ensure!(shuffled == got, "the estimates depend on the order of the blocks");
    let k = t.below(4);
    for b in &mut other {
        for (j, x) in b.iter_mut().enumerate() {
            if j != k {
                *x = (7.0, Some(f64::from(t.u8() % 8)));
            }
        }
    }
    let alone = PriorityEngine::from_vec(other.iter().map(real).collect()).estimate_priority(Duration::from_secs(u64::from(seconds))).unwrap();
    ensure!(tiers(&alone)[k] == tiers(&got)[k], "the estimates for {} depend on those of other kinds", KINDS[k]);
    // Any other targets, any other order of them
    let minutes: [u16; 5] = std::array::from_fn(|_| t.u16() % 500);
    let list: Vec<_> = history.iter().map(real).collect();
    check_estimates(&strategies::target_minutes(list.iter(), minutes, seconds), &history, seconds, minutes)?;
    let report = got.to_string();
    ensure!(report.contains(&got.drt_medium.priority.to_string()) && report.contains(&got.ut_opulent.priority.to_string()), "the report misses an estimate");
    let distinct = tiers(&got).iter().any(|r| r[0].priority.as_f64() + 0.2 < r[4].priority.as_f64() - 0.3);
    o.label_if(distinct, "tiers that differ");
    o.label_if(tiers(&got).iter().any(|r| r[0].priority > Priority::default_stinky()), "more than the default, even for the lowest tier");
    o.nontrivial_if(distinct);
    Ok(())
}

fn transaction(t: &mut Tape) -> (usize, Transaction) {
    let k = t.below(8);
    let tx = match k {
        0 => Transaction::DataRequest(DRTransaction::default()),
        1 => Transaction::ValueTransfer(VTTransaction::default()),
        2 => Transaction::Stake(StakeTransaction::default()),
        3 => Transaction::Unstake(UnstakeTransaction::default()),
        4 => Transaction::Commit(CommitTransaction::default()),
        5 => Transaction::Reveal(RevealTransaction::default()),
        6 => Transaction::Tally(TallyTransaction::default()),
        _ => Transaction::Mint(MintTransaction::default()),
    };
    (k, tx)
}

/// A chain of blocks: what each of them is worth, and what is kept of all of them.
fn chain(t: &mut Tape, o: &mut Obs) -> R {
    let capacity = t.range(1, 60) as usize;
    let restored = t.below(80);
    let first = blocks(t, restored);
    let mut engine = PriorityEngine::from_vec_with_capacity(first.iter().map(real).collect(), capacity);
    // Newest first
    let mut kept: Vec<Block> = first.into_iter().take(capacity).collect();
    let n = t.below(60);
    for _ in 0..n {
        let mut v = PriorityVisitor::default();
        let mut want: Block = [(0.0, None); 4];
        for _ in 0..t.below(8) {
            let (k, tx) = transaction(t);
            let fee = if t.odds(40) { 0 } else { t.len(1_000_000) as u64 * u64::from(t.u8()) };
            let weight = 1 + u32::from(t.u16());
            v.visit(&(tx, fee, weight));
            let p = fee as f64 / f64::from(weight);
            if let Some((high, low)) = want.get_mut(k) {
                *high = high.max(p);
                // Those that pay nothing do not count until one that pays has been seen
                *low = if low.is_none() && p == 0.0 { None } else { Some(low.map_or(p, |l| l.min(p))) };
                o.label_if(p == 0.0 && low.is_some(), "a free transaction after one that pays");
            }
        }
        let found = v.take_state();
        ensure_eq!(block_of(&found), want, "the priorities of a block");
        engine.push_priorities(found);
        kept.insert(0, want);
        kept.truncate(capacity);
    }
    let got: Vec<Block> = engine.as_vec().iter().map(block_of).collect();
    ensure!(got.iter().eq(kept.iter().rev()), "kept {got:?}, expected (newest first) {kept:?}");
    let est = engine.estimate_priority(Duration::from_secs(45));
    ensure_eq!(est.is_ok(), kept.len() >= 20, "whether there is an estimate after {} blocks", kept.len());
    if let Ok(e) = est {
        check_estimates(&e, &kept, 45, MINUTES)?;
        o.label("estimated");
    }
    let same: Vec<Priorities> = bincode::deserialize(&bincode::serialize(&engine.as_vec()).unwrap()).unwrap();
    ensure!(same == engine.as_vec(), "priorities through their serialized form");
    o.label_if(n + restored > capacity, "more than fit");
    o.nontrivial_if(n > 3 && kept.len() > 3);
    Ok(())
}

fn parse(json: &str) -> Result<Fee, String> {
    deserialize_fee_backwards_compatible(&mut serde_json::Deserializer::from_str(json)).map_err(|e| e.to_string())
}

/// Fees in all the forms that clients may give them.
fn forms(t: &mut Tape, o: &mut Obs) -> R {
    let n = if t.bool() { t.u64() } else { t.len(1 << 40) as u64 };
    let f = match t.below(4) {
        0 => f64::from(t.u16()) / 16.0,
        1 => f64::from(t.u32()) / 1000.0,
        2 => f64::from(t.u8()),
        _ => f64::from(t.u16()) * 1e9,
    };
    let absolute = Fee::absolute_from_nanowits(n);
    let relative = Fee::relative_from_float(f);
    let num = serde_json::to_string(&f).unwrap();
    for json in [format!("{n}"), format!("\"{n}\""), format!("{{\"absolute\":{n}}}"), format!("{{\"absolute\":\"{n}\"}}")] {
        ensure!(parse(&json) == Ok(absolute), "{json}: {:?}, expected {absolute:?}", parse(&json));
    }
    let mut forms = vec![format!("{{\"relative\":{num}}}"), format!("{{\"relative\":\"{num}\"}}")];
    if f.fract() == 0.0 && f < 1e15 {
        forms.push(format!("{{\"relative\":{}}}", f as u64));
    }
    for json in forms {
        ensure!(parse(&json) == Ok(relative), "{json}: {:?}, expected {relative:?}", parse(&json));
    }
    // What it cannot be
    let kind = *t.pick(&["absolute", "relative", "Absolute", "fee", ""]);
    let odd = match t.below(9) {
        0 => format!("{}.5", n),
        1 => format!("\"{n}.5\""),
        2 => format!("-{}", n % 1000 + 1),
        3 => format!("\"-{n}\""),
        4 => format!("{{\"{kind}\":[{n}]}}"),
        5 => format!("{{\"absolute\":{n}.25}}"),
        6 => "null".into(),
        7 => format!("\"{}\"", t.string(6).escape_default()),
        _ => format!("{n}0000000000000000000000"),
    };
    if let Ok(fee) = parse(&odd) {
        let text: Option<u64> = serde_json::from_str::<String>(&odd).ok().and_then(|s| s.parse().ok());
        ensure!(n == 0 || text.is_some_and(|n| fee == Fee::absolute_from_nanowits(n)), "{odd} is taken for {fee:?}");
    }
    ensure!(serde_json::from_str::<Fee>(&serde_json::to_string(&absolute).unwrap()).ok() == Some(absolute), "JSON form of {absolute:?}");
    ensure!(serde_json::from_str::<Fee>(&serde_json::to_string(&relative).unwrap()).ok() == Some(relative), "JSON form of {relative:?}");
    ensure!(parse(&serde_json::to_string(&absolute).unwrap()) == Ok(absolute) && parse(&serde_json::to_string(&relative).unwrap()) == Ok(relative), "own JSON form");
    // What they come to
    let weight = if t.bool() { u32::from(t.u16()) } else { t.u32() };
    let a = AbsoluteFee::from_str(&n.to_string()).map_err(|e| e.to_string())?;
    let r = RelativeFee::from_str(&num).map_err(|e| e.to_string())?;
    ensure_eq!(a.as_nanowits(), n, "an absolute fee");
    ensure_eq!(a.to_string(), format!("{}.{:09}", n / 1_000_000_000, n % 1_000_000_000), "an absolute fee as text");
    let got = r.into_absolute(weight).as_nanowits();
    // There are not more nanowits than that.
    let exact = (f * f64::from(weight)).min(u64::MAX as f64);
    ensure!(got as f64 <= exact && exact - (got as f64) <= 1.0f64.max(exact / 1e15), "{f} for {weight}: {got}");
    let p = Priority::from_absolute_fee_weight(n, weight.max(1));
    ensure!(p.derive_fee_wit(weight.max(1)).nanowits().abs_diff(n) <= 1 + n / (1 << 50), "fee {n} for {weight} is worth {p}, which is worth {:?}", p.derive_fee_wit(weight.max(1)));
    ensure!(Wit::from(n).nanowits() == n && Wit::from(n).wits_and_nanowits() == (n / 1_000_000_000, n % 1_000_000_000), "wits of {n}");
    o.label(if odd.starts_with('{') { "odd object" } else { "odd value" });
    o.nontrivial();
    Ok(())
}

pub fn c38(c: &mut Check) {
    c.sub("estimates", "a history of blocks whose tiers get different estimates", 10_000, 100_000, || long_tapes(1 << 14), |b, o| estimates(&mut b.tape(), o));
    c.sub("chain", "a chain of blocks with some transactions", 20_000, 200_000, || long_tapes(1 << 13), |b, o| chain(&mut b.tape(), o));
    c.sub("forms", "a fee in every form", 60_000, 1_000_000, || tapes(64), |b, o| forms(&mut b.tape(), o));
}
