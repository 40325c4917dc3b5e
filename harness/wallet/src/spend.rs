//! C40: the transactions that a wallet makes.
use crate::{base::*, ledger::*};
use std::collections::{BTreeSet, HashSet};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_data_structures::{
    chain::{tapi::ActiveWips, *},
    error::TransactionError,
    fee::Fee,
    proto::versioning::{ProtocolVersion, VersionedHashable},
    transaction::*,
    utxo_pool::{UnspentOutputsPool, UtxoDiff, UtxoSelectionStrategy},
};
use witnet_validations::validations::{validate_dr_transaction, validate_vt_transaction, verify_signatures};
use witnet_wallet::{model, repository, types};

type R = Result<(), String>;
const VERSION: ProtocolVersion = ProtocolVersion::V2_0;
const WIT: u64 = 1_000_000_000;

fn request(t: &mut Tape, mark: u64, budget: u64) -> DataRequestOutput {
    let witnesses = 1 + t.below(5) as u16;
    let fee = t.range(0, 1000);
    let collateral = WIT + mark;
    let reward = (budget / u64::from(witnesses)).saturating_sub(2 * fee);
    DataRequestOutput {
        data_request: RADRequest {
            time_lock: 0,
            retrieve: vec![RADRetrieve { kind: RADType::HttpGet, url: "https://example.com/".to_string(), script: vec![128], body: vec![], headers: vec![] }],
            aggregate: RADAggregate { filters: vec![], reducer: 2 },
            tally: RADTally { filters: vec![], reducer: 2 },
        },
        witness_reward: reward.max(collateral / 125 + 1),
        witnesses,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: 51 + t.below(49) as u32,
        collateral,
    }
}

fn fee(t: &mut Tape) -> Fee {
    match t.below(7) {
        0 => Fee::absolute_from_nanowits(0),
        1 | 2 => Fee::absolute_from_nanowits(t.range(1, 1_000_000)),
        3 => Fee::absolute_from_nanowits(if t.odds(60) { t.u64() } else { t.range(1, 1 << 33) }),
        4 => Fee::relative_from_float(1.0),
        5 => Fee::relative_from_float(*t.pick(&[0.0, 0.1, 0.1, 1e6, 1e30])),
        _ => Fee::relative_from_float(t.range(1, 1_000_000) as f64 / 1000.0),
    }
}
/// A price per unit of weight; never a fraction of a nanowit, rounded down.
fn fee_of(fee: &Fee, weight: u64) -> u64 {
    match fee {
        Fee::Absolute(f) => f.as_nanowits(),
        Fee::Relative(_) => (serde_json::to_value(fee).unwrap()["relative"].as_f64().unwrap() * weight as f64) as u64,
    }
}

/// Has the wallet make a transaction; tells whether it did.
fn create(s: &mut Sim, t: &mut Tape, obs: &mut Obs, unsent: &mut Vec<Tx>) -> Result<bool, String> {
    let l = fold(&s.seen, &s.own);
    let confirmed = fold(&s.seen[..s.c], &s.own).utxo;
    let vt = t.odds(190);
    let preview = t.odds(70);
    let fee = fee(t);
    let from = match t.below(5) {
        0 if vt => Some(s.payee(t, 200)),
        1 if vt && !l.utxo.is_empty() => {
            let v: Vec<_> = l.utxo.values().collect();
            Some(t.pick(&v).pkh)
        }
        _ => None,
    };
    let strategy = match t.below(3) {
        _ if !vt => UtxoSelectionStrategy::Random { from },
        0 => UtxoSelectionStrategy::BigFirst { from },
        1 => UtxoSelectionStrategy::SmallFirst { from },
        _ => UtxoSelectionStrategy::Random { from },
    };
    let mut selected = BTreeSet::new();
    if vt && t.odds(60) {
        for p in l.utxo.keys() {
            if t.bool() {
                selected.insert(*p);
            }
        }
        if t.odds(20) {
            selected.insert(([3; 32], 0));
        }
    }
    // What may be spent.
    let unconfirmed = s.params.use_unconfirmed_utxos;
    let picked = |p: &Ptr, o: &Vto| (selected.is_empty() || selected.contains(p)) && from.is_none_or(|f| f == o.pkh) && (unconfirmed || confirmed.contains_key(p));
    let open: std::collections::BTreeMap<Ptr, Vto> =
        l.utxo.iter().filter(|(p, o)| picked(p, o) && o.time_lock < 1 << 33 && !s.aside.contains(*p)).map(|(p, o)| (*p, o.clone())).collect();
    let budget: u64 = open.values().map(|o| o.value).sum();
    let total = match t.below(6) {
        0 => budget,
        1 => budget + 1,
        2 => open.values().next().map_or(1, |o| o.value),
        3 if t.odds(60) => t.u64(),
        _ => t.range(0, budget),
    };
    let mut outs = vec![];
    let r = request(t, s.node.fresh(), total.min(budget));
    if vt {
        let mut left = total;
        let n = 1 + t.below(3);
        for i in 0..n {
            let v = if i + 1 == n { left } else { t.range(0, left) / 2 };
            left -= v;
            outs.push(vto(s.payee(t, 80), v, if t.odds(20) { t.u64() | 1 << 33 } else { 0 }));
        }
        if t.odds(8) {
            outs.clear();
        }
    }
    let (max_weight, value) = match vt {
        true => (u64::from(s.params.max_vt_weight), u128::from(total) * u128::from(!outs.is_empty())),
        false => (u64::from(s.params.max_dr_weight), u128::from(r.checked_total_value().unwrap())),
    };
    let weight = |n: usize, outputs: usize| -> u64 {
        let i = vec![Input::default(); n];
        let o = vec![Vto::default(); outputs];
        match vt {
            true => VTTransactionBody::new(i, o).weight().into(),
            false => DRTransactionBody::new(i, r.clone(), o).weight().into(),
        }
    };
    let dump = s.store.db.dump();
    let selected_utxos: HashSet<model::OutPtr> = selected.iter().map(|p| model::OutPtr { txn_hash: p.0.to_vec(), output_index: p.1 }).collect();
    let next = s.next[1] as usize;
    let got = if vt {
        s.w.create_vtt(types::VttParams { fee, outputs: outs.clone(), utxo_strategy: strategy.clone(), selected_utxos, preview })
    } else {
        s.w.create_data_req(types::DataReqParams { fee, request: r.clone(), preview })
    };
    if preview || got.is_err() {
        ensure!(dump == s.store.db.dump(), "a transaction that is only looked at, or that fails, leaves a trace in the database");
    }
    let (x, paid) = match got {
        Ok(x) => x,
        Err(e) => {
            use repository::Error as E;
            let fees: Vec<u64> = (1..=open.len().max(1)).map(|n| fee_of(&fee, weight(n, outs.len() + 1))).collect();
            match &e {
                E::InsufficientBalance { available_balance, transaction_value, .. } => {
                    ensure_eq!(*available_balance, budget, "what can be spent");
                    ensure!(fees.iter().any(|f| value + u128::from(*f) == u128::from(*transaction_value)), "value {transaction_value}: outputs {value}, fees {fees:?}");
                    ensure!(budget < *transaction_value, "refused, though there are {budget} for {transaction_value}");
                    obs.label("not enough");
                }
                E::TransactionCreation(TransactionError::ZeroAmount) => ensure!(value == 0 && fees.contains(&0), "not over nothing: {value} and {fees:?}"),
                E::FeeTooLarge | E::TransactionValueOverflow => {
                    ensure!(fees.iter().any(|f| value + u128::from(*f) > u128::from(u64::MAX)), "no overflow: {value} and {fees:?}")
                }
                E::MaximumVTTWeightReached(_) | E::MaximumDRWeightReached(_) => {
                    let w = weight(open.len().max(1), outs.len() + 1);
                    ensure!(w > max_weight, "refused with a weight of at most {w}, and {max_weight} allowed");
                    obs.label("too heavy");
                }
                e => return Err(format!("refused: {e}")),
            }
            return Ok(false);
        }
    };
    if vt && !preview {
        s.owned(1);
    }
    let (pointers, outputs, signatures) = match &x.transaction {
        Transaction::ValueTransfer(y) if vt => {
            ensure_eq!(y.body.outputs[..outs.len().min(y.body.outputs.len())], outs[..], "outputs");
            (y.body.inputs.clone(), y.body.outputs.clone(), y.signatures.clone())
        }
        Transaction::DataRequest(y) if !vt => {
            ensure_eq!(y.body.dr_output, r, "request");
            (y.body.inputs.clone(), y.body.outputs.clone(), y.signatures.clone())
        }
        y => return Err(format!("made {y:?}")),
    };
    // Inputs.
    let mut inputs = vec![];
    let mut seen = BTreeSet::new();
    for i in &pointers {
        let p = key_of(i.output_pointer());
        let Some(v) = open.get(&p) else {
            return Err(format!("{p:?} cannot be spent: {:?}, aside {}, confirmed {}, chosen {}", l.utxo.get(&p), s.aside.contains(&p), confirmed.contains_key(&p), l.utxo.get(&p).is_some_and(|o| picked(&p, o))));
        };
        ensure!(seen.insert(p), "spent twice: {p:?}");
        inputs.push((*i.output_pointer(), v.clone()));
    }
    ensure_eq!(signatures.len(), inputs.len(), "number of signatures");
    let sum: u128 = inputs.iter().map(|i| u128::from(i.1.value)).sum();
    let want_fee = fee_of(&fee, weight(inputs.len(), outs.len() + 1));
    ensure_eq!(paid.as_nanowits(), want_fee, "fee");
    let amount = value + u128::from(want_fee);
    ensure!(amount > 0, "a transaction over nothing");
    let left = sum.checked_sub(amount).ok_or_else(|| format!("inputs of {sum} for {amount}"))?;
    let pkh = if vt { addresses(s.seed)[1][next] } else { inputs[0].1.pkh };
    let change: Vec<_> = (left > 0).then(|| vto(pkh, left as u64, 0)).into_iter().collect();
    ensure_eq!(outputs[outs.len()..], change[..], "change");
    let values: Vec<u64> = inputs.iter().map(|i| i.1.value).collect();
    let mut all: Vec<u64> = open.values().map(|o| o.value).collect();
    all.sort_unstable();
    match strategy {
        UtxoSelectionStrategy::BigFirst { .. } => {
            all.reverse();
            ensure_eq!(values, all[..values.len()].to_vec(), "the biggest outputs first");
        }
        UtxoSelectionStrategy::SmallFirst { .. } => ensure_eq!(values, all[..values.len()].to_vec(), "the smallest outputs first"),
        UtxoSelectionStrategy::Random { .. } => {}
    }
    ensure!(sum - u128::from(*values.last().unwrap_or(&0)) < amount, "one input more than needed: {values:?} for {amount}");
    let heavy = weight(inputs.len(), outputs.len());
    // With an absolute fee, only one input is weighed: see what C37 knows.
    ensure!(heavy <= max_weight || matches!(fee, Fee::Absolute(_)) && inputs.len() > 1, "weight {heavy}, at most {max_weight} allowed");
    let Some(model::TransactionMetadata::InputValues(meta)) = &x.metadata else { return Err("no values of its inputs".into()) };
    ensure_eq!(*meta, inputs.iter().map(|i| i.1.clone()).collect::<Vec<_>>(), "values of its inputs");
    // The network takes it.
    if heavy <= max_weight && outputs.iter().all(|o| o.value > 0) {
        let mut pool = UnspentOutputsPool::default();
        for (p, o) in &l.utxo {
            pool.insert(OutputPointer { transaction_id: Hash::SHA256(p.0), output_index: p.1 }, o.clone(), 0);
        }
        let diff = UtxoDiff::new(&pool, 0);
        let now = witnet_util::timestamp::get_timestamp();
        let e = ((now - ZERO) / i64::from(PERIOD)) as u32 + 1;
        let mut sigs = vec![];
        let c = s.params.epoch_constants;
        let taken = match &x.transaction {
            Transaction::ValueTransfer(y) => validate_vt_transaction(y, &diff, e, c, &mut sigs, s.params.max_vt_weight, Some(VERSION)).map(|r| r.2),
            Transaction::DataRequest(y) => {
                let mut wips = ActiveWips { active_wips: Default::default(), block_epoch: e };
                for w in ["WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021", "WIP0022", "WIP0023-0025", "WIP0026", "WIP0027"] {
                    wips.active_wips.insert(w.to_string(), 0);
                }
                validate_dr_transaction(y, &diff, e, c, &mut sigs, WIT, s.params.max_dr_weight, 125, &wips, Some(VERSION)).map(|r| r.2)
            }
            _ => unreachable!(),
        };
        match taken {
            Ok(f) => ensure_eq!(f, want_fee, "fee for the network"),
            Err(e) => return Err(format!("the network does not take it: {e}")),
        }
        verify_signatures(sigs, &mut witnet_data_structures::vrf::VrfCtx::secp256k1().unwrap()).map_err(|e| format!("its signatures do not verify: {e}"))?;
        obs.label("taken by the network");
    }
    obs.label(if vt { "value transfer" } else { "data request" });
    obs.label_if(preview, "preview");
    obs.label_if(inputs.len() > 1, "several inputs");
    obs.label_if(open.len() < l.utxo.len(), "not from all outputs");
    unsent.push(Tx { txn: x.transaction, inputs, report: None });
    s.check(t)?;
    Ok(true)
}
fn history(t: &mut Tape, obs: &mut Obs) -> R {
    let mut p = params(t.odds(90), 100_000);
    if t.odds(80) {
        p.max_vt_weight = 133 * (1 + t.below(6) as u32) + 360 * (1 + t.below(4) as u32);
    }
    if t.odds(40) {
        p.max_dr_weight = 4000;
    }
    let mut s = Sim::with(t, p)?;
    s.late = true;
    for k in 0..2 {
        for _ in 0..1 + t.below(3) {
            s.generate(k, None)?;
        }
    }
    s.mine(t, obs);
    s.sync()?;
    for _ in 0..1 + t.below(4) {
        let b = s.mine(t, obs);
        if !s.feed(&b)? {
            s.sync()?;
        }
    }
    if t.odds(200) {
        s.confirm()?;
    }
    let mut unsent: Vec<Tx> = vec![];
    let mut made = 0;
    for _ in 0..4 + t.below(20) {
        let step = t.below(12);
        if std::env::var("TRACE").is_ok() {
            eprintln!("step {step}: node {:?} confirmed {}, seen {:?} confirmed {}, next {:?}, aside {:x?}, mempool {}", s.node.chain.iter().map(|b| b.epoch).collect::<Vec<_>>(), s.node.confirmed, s.seen.iter().map(|b| b.epoch).collect::<Vec<_>>(), s.c, s.next, s.aside.iter().map(|p| p.0[0]).collect::<Vec<_>>(), s.mempool.len());
        }
        match step {
            0..5 => {
                if s.next[1] < 40 {
                    made += usize::from(create(&mut s, t, obs, &mut unsent)?);
                }
            }
            5..8 => {
                // The last made is sent, or one made long ago.
                if !unsent.is_empty() {
                    let i = if t.odds(190) { unsent.len() - 1 } else { t.below(unsent.len()) };
                    let tx = unsent[i].clone();
                    let x = tx.extended();
                    let l = fold(&s.seen, &s.own);
                    // Only as long as its inputs are there.
                    if !tx.inputs.iter().all(|i| l.utxo.contains_key(&key_of(&i.0)) && !s.aside.contains(&key_of(&i.0))) {
                        continue;
                    }
                    if tx.outputs().iter().any(|o| o.pkh == addresses(s.seed)[1][s.next[1] as usize]) {
                        // The change of a preview.
                        s.owned(1);
                        obs.label("a preview is sent");
                    }
                    for _ in 0..1 + usize::from(t.odds(30)) {
                        let m = s.w.add_local_movement(&x).map_err(|e| format!("a transaction cannot be noted: {e}"))?;
                        ensure!(m.is_some(), "a transaction of its own is no movement");
                        let hash = x.transaction.versioned_hash(VERSION);
                        let Hash::SHA256(h) = hash;
                        s.locals.insert(h, movement(&l.utxo, &s.own, &tx, hash, model::Beacon::default(), 0).unwrap());
                    }
                    s.aside.extend(tx.inputs.iter().map(|i| key_of(&i.0)));
                    s.mempool.push(tx);
                    s.check(t)?;
                    obs.label("sent");
                }
            }
            8 | 9 => {
                let b = s.mine(t, obs);
                if !s.feed(&b)? {
                    s.sync()?;
                }
            }
            10 => s.confirm()?,
            _ => match t.below(4) {
                0 => {
                    s.restart()?;
                    s.check(t)?;
                    s.sync()?;
                }
                1 => {
                    s.w.clear_pending_state().map_err(|e| format!("{e}"))?;
                    s.drop_pending();
                    if t.bool() {
                        s.sync()?;
                    }
                }
                2 => s.generate(0, None)?,
                _ => {
                    if s.node.chain.len() > s.node.confirmed {
                        s.node.chain.pop();
                        let b = s.mine(t, obs);
                        if !s.feed(&b)? {
                            s.sync()?;
                        }
                    }
                }
            },
        }
    }
    s.check(t)?;
    obs.nontrivial_if(made >= 2);
    Ok(())
}

pub fn c40(c: &mut Check) {
    protocol();
    c.sub(
        "history",
        "the wallet makes at least two transactions along its history",
        10_000,
        500_000,
        || long_tapes(2500),
        |b, obs| alone(&b.0, || history(&mut b.tape(), obs)),
    );
}
