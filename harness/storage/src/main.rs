use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use vpkit::{Check, Obs, ensure, ensure_eq};
use witnet_storage::backends::{hashmap, nobackend, rocks};
use witnet_storage::storage::{Storage, WriteBatch, WriteBatchItem};

type R = Result<(), String>;
type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Key = Vec<u8>;

#[derive(Debug, Clone, Serialize, Deserialize)]
enum Op {
    Get(Key),
    Put(Key, Vec<u8>),
    Delete(Key),
    /// Prefix, and how many entries to read before dropping the iterator.
    Iter(Key, Option<u8>),
    /// `None`: a deletion.
    Write(Vec<(Key, Option<Vec<u8>>)>),
    /// The n-th operation from here fails (only where the backend can fail).
    Fail(u8),
}

fn key() -> impl Strategy<Value = Key> + Clone {
    // Few symbols, so that keys collide and are prefixes of one another.
    vec(prop::sample::select(vec![0u8, 1, b'a', 254, 255]), 0..5)
}

/// Keys and values of up to many kilobytes, and batches of up to thousands.
fn large_ops(faults: u32) -> impl Strategy<Value = Vec<Op>> {
    let size = || prop_oneof![8 => 0..4usize, 2 => 30..70usize, 2 => 250..260usize, 1 => 1000..5000usize, 1 => 65_530..65_540usize];
    let key = || {
        // A long common beginning, and an end that tells them apart.
        prop_oneof![
            4 => (size(), 0..4u8, 0..3u8).prop_map(|(n, a, b)| { let mut k = vec![b'a'; n]; k.push(a); if b > 0 { k.push(b); } k }),
            1 => size().prop_map(|n| vec![b'a'; n]),
            1 => key(),
        ]
    };
    let val = || (size(), any::<u8>()).prop_map(|(n, b)| { let mut v = vec![b; n]; if n > 0 { v[n - 1] = 1; } v });
    let small = (prop::sample::select(vec![0u8, 1, b'a', 254, 255]), any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| vec![a, b & 7, c]);
    let wide = prop_oneof![6 => 0..40usize, 3 => 60..70usize, 3 => 90..140usize, 2 => 250..300usize, 1 => 500..1100usize]
        .prop_flat_map(move |n| vec((small.clone(), prop::option::weighted(0.7, vec(any::<u8>(), 0..2))), n));
    let op = prop_oneof![
        2 => key().prop_map(Op::Get),
        4 => (key(), val()).prop_map(|(k, v)| Op::Put(k, v)),
        2 => key().prop_map(Op::Delete),
        3 => (key(), prop::option::of(0..200u8)).prop_map(|(k, n)| Op::Iter(k, n)),
        1 => (prop::sample::select(vec![0u8, 1, b'a', 254, 255]), prop::option::of(0..200u8)).prop_map(|(k, n)| Op::Iter(vec![k], n)),
        2 => vec((key(), prop::option::of(val())), 0..5).prop_map(Op::Write),
        4 => wide.prop_map(Op::Write),
        faults => (0..2u8).prop_map(Op::Fail),
    ];
    vec(op, 0..16)
}

fn ops(faults: u32) -> impl Strategy<Value = Vec<Op>> {
    let val = vec(any::<u8>(), 0..4);
    vec(
        prop_oneof![
            3 => key().prop_map(Op::Get),
            6 => (key(), val.clone()).prop_map(|(k, v)| Op::Put(k, v)),
            3 => key().prop_map(Op::Delete),
            4 => (key(), prop::option::of(0..4u8)).prop_map(|(k, n)| Op::Iter(k, n)),
            4 => vec((key(), prop::option::of(val)), 0..8).prop_map(Op::Write),
            faults => (0..3u8).prop_map(Op::Fail),
        ],
        0..40,
    )
}

fn batch(items: &[(Key, Option<Vec<u8>>)]) -> WriteBatch {
    let mut b = WriteBatch::default();
    for (i, (k, v)) in items.iter().enumerate() {
        match v {
            Some(v) if i % 3 == 2 => b.batch.push(WriteBatchItem::Put(k.clone(), v.clone())),
            Some(v) => b.put(k.clone(), v.clone()),
            None => b.delete(k.clone()),
        }
    }
    b
}

fn drain(s: &dyn Storage, p: &[u8], n: Option<u8>) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
    let it = s.prefix_iterator(p).map_err(|e| e.to_string())?;
    Ok(match n {
        None => it.collect(),
        Some(n) => it.take(n as usize).collect(),
    })
}

/// `fails`: the operation is one that fails by injection.
fn run(s: &dyn Storage, ops: &[Op], inject: &dyn Fn(u8), obs: &mut Obs) -> Result<Map, String> {
    let mut m = Map::new();
    let mut countdown: Option<u8> = None;
    for (i, op) in ops.iter().enumerate() {
        let fails = match op {
            Op::Fail(_) | Op::Iter(..) => false,
            _ => match countdown {
                Some(0) => {
                    countdown = None;
                    true
                }
                Some(n) => {
                    countdown = Some(n - 1);
                    false
                }
                None => false,
            },
        };
        let check = |r: Result<(), String>| -> Result<bool, String> {
            ensure_eq!(r.is_err(), fails, "step {i} {op:?} failed");
            Ok(r.is_ok())
        };
        match op {
            Op::Get(k) => {
                let r = s.get(k).map_err(|e| e.to_string());
                if fails {
                    ensure!(r.is_err(), "step {i}: a failed read of {k:?} is reported as {r:?}");
                } else {
                    ensure_eq!(r, Ok(m.get(k).cloned()), "step {i}: read of {k:?}");
                }
            }
            Op::Put(k, v) => {
                if check(s.put(k.clone(), v.clone()).map_err(|e| e.to_string()))? {
                    m.insert(k.clone(), v.clone());
                }
            }
            Op::Delete(k) => {
                if check(s.delete(k).map_err(|e| e.to_string()))? {
                    m.remove(k);
                }
            }
            Op::Write(items) => {
                if items.len() >= 2 && items.iter().any(|x| items.iter().filter(|y| y.0 == x.0).count() > 1) {
                    obs.nontrivial();
                    obs.label("a batch that touches one key twice");
                }
                if check(s.write(batch(items)).map_err(|e| e.to_string()))? {
                    for (k, v) in items {
                        match v {
                            Some(v) => {
                                m.insert(k.clone(), v.clone());
                            }
                            None => {
                                m.remove(k);
                            }
                        }
                    }
                }
            }
            Op::Iter(p, n) => {
                let want: Map = m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
                let got = drain(s, p, *n)?;
                let full = n.is_none_or(|n| n as usize >= want.len());
                if full {
                    if !want.is_empty() && want.len() < m.len() {
                        obs.nontrivial();
                        obs.label("a prefix that selects some keys only");
                    }
                    ensure_eq!(got.len(), want.len(), "step {i}: number of entries under {p:?}");
                    ensure_eq!(got.into_iter().collect::<Map>(), want, "step {i}: entries under {p:?}");
                } else {
                    ensure_eq!(got.len(), n.unwrap() as usize, "step {i}: number of entries read under {p:?}");
                    let mut seen = Map::new();
                    for (k, v) in got {
                        ensure_eq!(want.get(&k), Some(&v), "step {i}: entry {k:?} under {p:?}");
                        ensure!(seen.insert(k, v).is_none(), "step {i}: an entry twice under {p:?}");
                    }
                }
            }
            Op::Fail(n) => {
                inject(*n);
                countdown = Some(*n);
            }
        }
    }
    inject(255);
    // Read everything back.
    for k in ops.iter().flat_map(|o| match o {
        Op::Get(k) | Op::Put(k, _) | Op::Delete(k) => vec![k],
        Op::Write(l) => l.iter().map(|x| &x.0).collect(),
        _ => vec![],
    }) {
        ensure_eq!(s.get(k).map_err(|e| e.to_string())?, m.get(k).cloned(), "final read of {k:?}");
    }
    ensure_eq!(drain(s, b"", None)?.into_iter().collect::<Map>(), m, "final contents");
    Ok(m)
}

fn c13(c: &mut Check) {
    c.sub(
        "memory-against-map",
        "a full scan of a prefix that selects some but not all keys, or a batch that touches one key twice",
        6000,
        400_000,
        || ops(0),
        |ops, obs| {
            let b = hashmap::Backend::default();
            run(&b, ops, &|_| {}, obs).map(|_| ())
        },
    );
    c.sub(
        "large entries and batches",
        "a full scan of a prefix that selects some but not all keys, or a batch that touches one key twice",
        300,
        20_000,
        || large_ops(0),
        |ops, obs| {
            obs.label_if(ops.iter().any(|o| matches!(o, Op::Write(l) if l.len() > 64)), "a batch of more than 64");
            let b = hashmap::Backend::default();
            run(&b, ops, &|_| {}, obs).map(|_| ())
        },
    );
    c.sub(
        "no-backend-refuses",
        "every case: a store that keeps nothing must not pretend to",
        500,
        5_000,
        || (key(), vec(any::<u8>(), 0..4)),
        |(k, v), obs| {
            obs.nontrivial();
            let b = nobackend::Backend;
            ensure!(b.get(k).is_err(), "get");
            ensure!(b.put(k.clone(), v.clone()).is_err(), "put");
            ensure!(b.delete(k).is_err(), "delete");
            ensure!(b.prefix_iterator(k).is_err(), "prefix_iterator");
            ensure!(b.write(batch(&[(k.clone(), Some(v.clone()))])).is_err(), "write");
            ensure!(b.write(WriteBatch::default()).is_err(), "write of nothing");
            Ok(())
        },
    );
    c.assume("batch atomicity among threads is sampled on real threads: the schedules are the machine's");
    c.sub_n(
        "batches-are-atomic",
        "at least one scan saw a batch in place",
        40,
        1500,
        2,
        || (prop_oneof![3 => 2..6u8, 1 => 60..140u8], 1..4u8, 40..160u16),
        |(keys, writers, rounds), obs| {
            let b = hashmap::Backend::default();
            let done = AtomicBool::new(false);
            let ks: Vec<Key> = (0..*keys).map(|i| vec![b'k', i]).collect();
            let bad: Option<String> = std::thread::scope(|s| {
                let mut hs = vec![];
                for w in 0..*writers {
                    let (b, ks) = (&b, &ks);
                    hs.push(s.spawn(move || {
                        for r in 0..*rounds {
                            // All the keys get the same value, or all go.
                            let v = (r % 5 != 4).then(|| vec![w, r as u8, (r >> 8) as u8]);
                            Storage::write(b, batch(&ks.iter().map(|k| (k.clone(), v.clone())).collect::<Vec<_>>())).unwrap();
                        }
                    }));
                }
                let reader = {
                    let (b, done) = (&b, &done);
                    s.spawn(move || -> (u32, Option<String>) {
                        let mut seen = 0;
                        loop {
                            let stop = done.load(SeqCst);
                            let all = drain(b, b"k", None).unwrap();
                            if all.is_empty() {
                            } else if all.len() != *keys as usize || all.iter().any(|x| x.1 != all[0].1) {
                                return (seen, Some(format!("half a batch is visible: {all:?}")));
                            } else {
                                seen += 1;
                            }
                            if stop {
                                return (seen, None);
                            }
                        }
                    })
                };
                for h in hs {
                    h.join().unwrap();
                }
                done.store(true, SeqCst);
                let (seen, bad) = reader.join().unwrap();
                obs.nontrivial_if(seen > 0);
                bad
            });
            bad.map_or(Ok(()), Err)
        },
    );
}

fn c14(c: &mut Check) {
    c.assume("RocksDB itself is replaced by a model (an ordered map with rocksdb's documented prefix iteration and injected failures): only the code that drives it is under test");
    c.sub(
        "driver-against-map",
        "a full scan of a prefix that selects some but not all keys, or a batch that touches one key twice",
        6000,
        400_000,
        || ops(1),
        |ops, obs| -> R {
            let b = rocks::Backend::default();
            obs.label_if(ops.iter().any(|o| matches!(o, Op::Fail(_))), "injected failure");
            let m = run(&b, ops, &|n| b.fail_after((n != 255).then_some(n as u32)), obs)?;
            ensure_eq!(b.dump(), m, "contents of the database");
            Ok(())
        },
    );
    c.sub(
        "large entries and batches",
        "a full scan of a prefix that selects some but not all keys, or a batch that touches one key twice",
        300,
        20_000,
        || large_ops(1),
        |ops, obs| -> R {
            let b = rocks::Backend::default();
            obs.label_if(ops.iter().any(|o| matches!(o, Op::Fail(_))), "injected failure");
            obs.label_if(ops.iter().any(|o| matches!(o, Op::Write(l) if l.len() > 64)), "a batch of more than 64");
            let m = run(&b, ops, &|n| b.fail_after((n != 255).then_some(n as u32)), obs)?;
            ensure_eq!(b.dump(), m, "contents of the database");
            Ok(())
        },
    );
    c14_scans(c);
}

fn c14_scans(c: &mut Check) {
    c.sub(
        "failed-scans",
        "the database fails before the scan has read every entry with the prefix",
        600,
        40_000,
        || (vec((key(), vec(any::<u8>(), 0..3)), 0..12), key().prop_map(|mut k| { k.truncate(2); k }), 0..8u32),
        |(entries, prefix, n), obs| -> R {
            let b = rocks::Backend::default();
            let m: Map = entries.iter().cloned().collect();
            for (k, v) in entries {
                Storage::put(&b, k.clone(), v.clone()).map_err(|e| e.to_string())?;
            }
            b.fail_scans_after(Some(*n));
            let want: Vec<(Key, Vec<u8>)> = m.into_iter().filter(|(k, _)| k.starts_with(prefix)).collect();
            let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drain(&b, prefix, None)));
            if *n as usize >= want.len() {
                // Only entries beyond the prefix, or none, were left: a failure there may be noticed or not.
                if let Ok(Ok(got)) = got {
                    ensure_eq!(got.into_iter().collect::<Map>(), want.into_iter().collect::<Map>(), "entries under {prefix:?}");
                }
                return Ok(());
            }
            obs.nontrivial();
            match got {
                // Refused, or as loud as an iterator without errors can be.
                Ok(Err(_)) | Err(_) => {
                    obs.label("reported");
                    Ok(())
                }
                Ok(Ok(got)) => {
                    for e in &got {
                        ensure!(want.contains(e), "entry {e:?} under {prefix:?}");
                    }
                    Err(format!("a failed scan ends as if it were complete: {} of {} entries under {prefix:?}", got.len(), want.len()))
                }
            }
        },
    );
}

fn main() {
    vpkit::main_scaled(60, &[("C13", c13), ("C14", c14)]);
}
