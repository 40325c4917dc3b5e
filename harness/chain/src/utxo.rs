//! C21: the set of unspent outputs, its database and the node's own outputs against a model.
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, tapes},
};
use witnet_data_structures::{
    chain::{Hash, OutputPointer, PublicKeyHash, ValueTransferOutput},
    transaction_factory::OutputsCollection,
    utxo_pool::*,
};
use witnet_storage::{
    backends::hashmap::Backend,
    storage::{Storage, StorageIterator, WriteBatch},
};

/// A store that survives the handle that is dropped when the node stops.
#[derive(Clone, Default)]
struct Shared(Arc<Backend>);
type R<T> = witnet_storage::storage::Result<T>;
impl Storage for Shared {
    fn get(&self, key: &[u8]) -> R<Option<Vec<u8>>> {
        self.0.get(key)
    }
    fn put(&self, key: Vec<u8>, value: Vec<u8>) -> R<()> {
        self.0.put(key, value)
    }
    fn delete(&self, key: &[u8]) -> R<()> {
        self.0.delete(key)
    }
    fn prefix_iterator<'a, 'b: 'a>(&'a self, prefix: &'b [u8]) -> R<StorageIterator<'a>> {
        self.0.prefix_iterator(prefix)
    }
    fn write(&self, batch: WriteBatch) -> R<()> {
        Storage::write(&*self.0, batch)
    }
}

type Db = CacheUtxosByPkh<UtxoDbWrapStorage<Shared>>;
type Map = BTreeMap<OutputPointer, (ValueTransferOutput, u32)>;

fn open(s: &Shared) -> Arc<Db> {
    Arc::new(CacheUtxosByPkh::new(UtxoDbWrapStorage(s.clone())).unwrap())
}
fn pkh(i: u8) -> PublicKeyHash {
    PublicKeyHash::from_bytes(&[i; 20]).unwrap()
}

fn agree(pool: &UnspentOutputsPool, all: &Map, confirmed: &Map, seen: &BTreeSet<OutputPointer>) -> Result<(), String> {
    for p in seen {
        let want = all.get(p);
        ensure_eq!(pool.get(p), want.map(|x| x.0.clone()), "get {p}");
        ensure_eq!(pool.contains_key(p), want.is_some(), "contains {p}");
        ensure_eq!(pool.included_in_block_number(p), want.map(|x| x.1), "block of {p}");
    }
    let list = |v: Vec<(OutputPointer, (ValueTransferOutput, u32))>, what: &str| -> Result<Map, String> {
        let n = v.len();
        let m: Map = v.into_iter().collect();
        ensure_eq!(m.len(), n, "an output is listed twice by {what}");
        Ok(m)
    };
    ensure_eq!(&list(pool.iter().collect(), "iter")?, all, "iter");
    let (mut c, mut a) = (vec![], vec![]);
    pool.visit(|x| c.push(x.clone()), |x| a.push(x.clone()));
    ensure_eq!(&list(a, "visit")?, all, "visit");
    ensure_eq!(&list(c, "visit, confirmed")?, confirmed, "visit, confirmed");
    for i in 0..4 {
        let (mut c, mut a) = (vec![], vec![]);
        pool.visit_with_pkh(pkh(i), |x| c.push(x.clone()), |x| a.push(x.clone()));
        let of = |m: &Map| -> Map { m.iter().filter(|x| x.1.0.pkh == pkh(i)).map(|(k, v)| (*k, v.clone())).collect() };
        ensure_eq!(list(a, "visit_with_pkh")?, of(all), "visit_with_pkh {i}");
        ensure_eq!(list(c, "visit_with_pkh, confirmed")?, of(confirmed), "visit_with_pkh {i}, confirmed");
    }
    Ok(())
}

fn own_agrees(own: &OwnUnspentOutputsPool, pool: &UnspentOutputsPool, all: &Map, me: PublicKeyHash, limit: u32) -> Result<(), String> {
    let mine: BTreeMap<_, _> = all.iter().filter(|x| x.1.0.pkh == me).collect();
    ensure_eq!(own.keys().collect::<BTreeSet<_>>(), mine.keys().copied().collect::<BTreeSet<_>>(), "the node's own outputs");
    ensure_eq!(own.get_balance(pool), mine.values().map(|x| x.0.value).sum::<u64>(), "balance");
    for big in [false, true] {
        let sorted = own.sort(pool, big);
        ensure_eq!(sorted.iter().collect::<BTreeSet<_>>(), mine.keys().copied().collect::<BTreeSet<_>>(), "sorted outputs");
        ensure_eq!(sorted.len(), mine.len(), "sorted outputs");
        let v: Vec<u64> = sorted.iter().map(|p| mine[p].0.value).collect();
        ensure!(v.windows(2).all(|w| if big { w[0] >= w[1] } else { w[0] <= w[1] }), "not sorted ({big}): {v:?}");
    }
    let r = NodeUtxosRef { all_utxos: pool, own_utxos: own, pkh: me };
    for (strategy, any) in [
        (UtxoSelectionStrategy::BigFirst { from: None }, true),
        (UtxoSelectionStrategy::SmallFirst { from: Some(me) }, true),
        (UtxoSelectionStrategy::Random { from: Some(pkh(9)) }, false),
    ] {
        ensure_eq!(r.sort_by(&strategy).len(), if any { mine.len() } else { 0 }, "outputs selected by {strategy:?}");
    }
    for (p, (vto, n)) in &mine {
        ensure_eq!(r.get_value(p), Some(vto.value), "value");
        ensure_eq!(r.get_included_block_number(p), Some(*n), "block");
        ensure_eq!(r.get_usage_timeout(p), Some(vto.time_lock.max(*own.get(*p).unwrap())), "usage timeout");
    }
    // Time locks are small numbers or near the end of time, so the clock does not matter.
    for who in [None, Some(me), Some(pkh(2))] {
        let info = get_utxo_info(who, own, pool, 7, limit);
        let got: BTreeMap<_, _> = info.utxos.iter().map(|u| (u.output_pointer, (u.value, u.timelock, u.utxo_mature))).collect();
        let want: BTreeMap<_, _> = all
            .iter()
            .filter(|x| x.1.0.pkh == who.unwrap_or(me))
            .map(|(p, (v, n))| (*p, (v.value, if v.time_lock > 1 << 40 { v.time_lock } else { 0 }, *n <= limit)))
            .collect();
        ensure_eq!(info.utxos.len(), want.len(), "outputs in the summary");
        ensure_eq!(got, want, "summary of {who:?}");
    }
    Ok(())
}

fn history(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let store = Shared::default();
    let me = pkh(1);
    let mut pool = UnspentOutputsPool { diff: Diff::new(), db: Some(open(&store)) };
    let mut own = OwnUnspentOutputsPool::new();
    let (mut all, mut db) = (Map::new(), Map::new());
    let mut seen = BTreeSet::new();
    let mut block = 0u32;
    // The state at the last superblock: its pool, its view and the node's own outputs then.
    let mut back: Option<(UnspentOutputsPool, Map, OwnUnspentOutputsPool, u32)> = None;
    let (mut in_block, mut undone, mut spent_confirmed, mut reopened) = (0, 0, 0, 0);
    while !t.left().eq(&0) {
        match t.below(10) {
            0..5 => {
                let mut view = UtxoDiff::new(&pool, block);
                let (before, mut next) = (all.clone(), all.clone());
                let mut removed_fresh = BTreeSet::new();
                for _ in 0..1 + t.below(3) {
                    // Spend some outputs, those of this block included, then create some.
                    for _ in 0..t.below(3) {
                        let live: Vec<_> = next.keys().copied().collect();
                        if live.is_empty() {
                            break;
                        }
                        let p = live[t.below(live.len())];
                        ensure_eq!(view.get(&p), Some(next[&p].0.clone()), "an output before it is spent");
                        view.remove_utxo(p);
                        next.remove(&p);
                        if !before.contains_key(&p) {
                            in_block += 1;
                            removed_fresh.insert(p);
                        } else if db.contains_key(&p) {
                            spent_confirmed += 1;
                        }
                        ensure_eq!(view.get(&p), None, "a spent output");
                        ensure_eq!(view.included_in_block_number(&p), None, "the block of a spent output");
                    }
                    let tx = Hash::SHA256(t.array());
                    for i in 0..t.below(4) as u32 {
                        let p = OutputPointer { transaction_id: tx, output_index: if t.odds(20) { u32::MAX - i } else { i } };
                        if seen.contains(&p) {
                            continue;
                        }
                        let vto = ValueTransferOutput {
                            pkh: pkh(t.below(4) as u8),
                            value: u64::from(t.u32()) >> t.below(32),
                            time_lock: if t.odds(40) { u64::MAX - u64::from(t.u8()) } else { u64::from(t.u8()) },
                        };
                        let n = t.option(|t| t.below(block as usize + 1) as u32);
                        view.insert_utxo(p, vto.clone(), n);
                        ensure_eq!(view.get(&p), Some(vto.clone()), "an output of this block");
                        seen.insert(p);
                        next.insert(p, (vto, n.unwrap_or(block)));
                    }
                }
                let diff = view.take_diff();
                let mut changes = (BTreeMap::new(), BTreeSet::new());
                diff.visit(&mut changes, |c, p, v| drop(c.0.insert(*p, v.clone())), |c, p| drop(c.1.insert(*p)));
                let want_new: BTreeMap<_, _> = next.iter().filter(|x| !before.contains_key(x.0)).map(|(p, v)| (*p, v.0.clone())).collect();
                let want_gone: BTreeSet<_> = before.keys().filter(|p| !next.contains_key(*p)).copied().collect();
                ensure_eq!(changes.0, want_new, "outputs created by the block");
                ensure_eq!(changes.1, want_gone, "outputs spent by the block");
                ensure!(removed_fresh.iter().all(|p| !next.contains_key(p)), "");
                diff.visit(
                    &mut own,
                    |own, p, v| {
                        if v.pkh == me {
                            own.insert(*p, 0);
                        }
                    },
                    |own, p| {
                        own.remove(p);
                    },
                );
                diff.apply(&mut pool);
                all = next;
                block += 1;
            }
            5 => back = Some((pool.clone(), all.clone(), own.clone(), block)),
            6 => {
                // The state of the last superblock is confirmed and written to the database.
                if let Some((mut p, view, ..)) = back.take() {
                    let diff = p.diff.clone();
                    pool.remove_persisted_from_memory(&diff);
                    let mut batch = UtxoWriteBatch::default();
                    p.persist_add_to_batch(&mut batch);
                    let raw = format!("other-{block}").into_bytes();
                    batch.put_raw(raw.clone(), vec![7]);
                    pool.db.as_ref().unwrap().write(batch).map_err(|e| e.to_string())?;
                    db = view;
                    ensure_eq!(store.get(&raw).unwrap(), Some(vec![7]), "other data of the same batch");
                    agree(&p, &db, &db, &seen).map_err(|e| format!("persisted state: {e}"))?;
                }
            }
            7 => {
                // The blocks since the last superblock are dropped.
                if let Some((p, view, o2, b)) = back.clone() {
                    undone += usize::from(b < block);
                    (pool, all, own, block) = (p, view, o2, b);
                }
            }
            8 => {
                pool.persist();
                db = all.clone();
                back = None;
            }
            _ => {
                // The node stops and starts again from what was written.
                reopened += 1;
                pool = UnspentOutputsPool { diff: Diff::new(), db: Some(open(&store)) };
                all = db.clone();
                back = None;
                own = OwnUnspentOutputsPool::new();
                pool.visit_with_pkh(me, |_| (), |(p, _)| drop(own.insert(*p, 0)));
            }
        }
        agree(&pool, &all, &db, &seen)?;
        if let Some(p) = own.keys().next().copied()
            && t.odds(60)
        {
            *own.get_mut(&p).unwrap() = u64::from(t.u32());
        }
        own_agrees(&own, &pool, &all, me, block / 2)?;
    }
    // Moving everything to another database keeps it.
    let mut old: OldUnspentOutputsPool = pool.clone().into();
    ensure_eq!(old.is_empty(), all.is_empty(), "is_empty of the old form");
    let mut moved = UnspentOutputsPool { diff: Diff::new(), db: Some(open(&Shared::default())) };
    moved.migrate_old_unspent_outputs_pool_to_db(&mut old, |_, _| ());
    agree(&moved, &all, &all, &seen).map_err(|e| format!("after migration: {e}"))?;
    ensure_eq!(moved.delete_all_from_db(), all.len(), "number of deleted outputs");
    agree(&moved, &Map::new(), &Map::new(), &seen).map_err(|e| format!("after deleting all: {e}"))?;
    o.nontrivial_if(!seen.is_empty() && block > 1);
    o.label_if(in_block > 0, "spent in its own block");
    o.label_if(spent_confirmed > 0, "confirmed output spent");
    o.label_if(undone > 0, "blocks undone");
    o.label_if(reopened > 0, "reopened");
    o.show(|| format!("{block} blocks, {} outputs ever, {} live, {} in the database", seen.len(), all.len(), db.len()));
    Ok(())
}

pub fn c21(c: &mut Check) {
    c.assume("The database is the in-memory backend; values are small enough that balances fit 64 bits.");
    c.sub("history", "at least two blocks and one output", 40_000, 2_000_000, || tapes(700), |b, o| history(&mut b.tape(), o));
}
