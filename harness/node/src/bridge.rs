//! C48: the bridge: what it keeps of the queries of the contract, and what it relays of them.
use crate::{
    actors::{
        dr_database::*,
        dr_reporter::DrReporter,
        dr_sender::DrSender,
        eth_poller::EthPoller,
        wit_poller::WitPoller,
    },
    base::*,
    config::{Config, Gas, Storage},
    fakes::{
        actix::{Addr, SystemService, deaf, stop},
        web3::{Contract, Oracle, U256, Web3},
        witnet_net::client::tcp::{JsonRpcClient, jsonrpc::Request},
        witnet_node::storage_mngr::DISK,
    },
    spend::rad_ok,
};
use serde_json::Value;
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    marker::PhantomData,
    rc::Rc,
    sync::Arc,
};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{chain::*, proto::{ProtobufConvert, versioning::{ProtocolInfo, ProtocolVersion}}, radon_error::RadonErrors, transaction::*};

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    New,
    Pending,
    Finished,
    Dismissed,
}
fn real(s: S) -> DrState {
    match s {
        S::New => DrState::New,
        S::Pending => DrState::Pending,
        S::Finished => DrState::Finished,
        S::Dismissed => DrState::Dismissed,
    }
}
#[derive(Clone, Debug)]
struct Known {
    bytes: Vec<u8>,
    state: S,
    sent: Option<(Hash, i64)>,
}
#[derive(Default, Clone, Debug)]
struct Model {
    all: BTreeMap<U256, Known>,
    last: U256,
}
impl Model {
    fn put(&mut self, id: U256, k: Known) {
        self.all.insert(id, k);
        self.last = self.last.max(id);
    }
    fn set(&mut self, id: U256, state: S) {
        self.all.entry(id).or_insert(Known { bytes: vec![], state, sent: None }).state = state;
        self.last = self.last.max(id);
    }
    /// What the database says, against what it was told.
    fn check(&self, when: &str) -> Result<(), String> {
        let db = DrDatabase::from_registry();
        let of = |s: S| self.all.iter().filter(move |x| x.1.state == s);
        let counts = db.ask(CountDrsPerState).unwrap().map_err(|_| "no counts")?;
        let want = (of(S::New).count() as u32, of(S::Pending).count() as u32, of(S::Finished).count() as u32, of(S::Dismissed).count() as u32);
        ensure_eq!(counts, want, "queries new, pending, finished and dismissed {when}");
        let mut new = db.ask(GetAllNewDrs).unwrap().map_err(|_| "no list")?;
        new.sort();
        ensure!(new == of(S::New).map(|x| (*x.0, x.1.bytes.clone())).collect::<Vec<_>>(), "the new queries {when} are {:?}", new.iter().map(|x| x.0).collect::<Vec<_>>());
        let mut pending = db.ask(GetAllPendingDrs).unwrap().map_err(|_| "no list")?;
        pending.sort();
        let want: Vec<_> = of(S::Pending).map(|x| (*x.0, x.1.bytes.clone(), x.1.sent.unwrap().0, x.1.sent.unwrap().1)).collect();
        ensure!(pending == want, "the pending queries {when} are {:?}", pending.iter().map(|x| x.0).collect::<Vec<_>>());
        ensure_eq!(db.ask(GetLastDrId).unwrap().map_err(|_| "no id")?, self.last, "the last known query {when}");
        Ok(())
    }
}
fn fresh() {
    stop();
    DISK.with(|d| d.borrow_mut().clear());
}

/// Whatever it is told, in whatever order, and whenever it is stopped and started.
fn database(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    fresh();
    let mut m = Model::default();
    let db = DrDatabase::from_registry;
    let mut again = 0;
    for _ in 0..1 + t.below(30) {
        let id = if t.odds(20) { U256(t.below(3) as u128, u128::from(t.u64())) } else { U256::from(t.below(12) as u64) };
        match t.below(7) {
            0..=1 => {
                let state = *t.pick(&[S::New, S::New, S::Pending, S::Pending, S::Finished, S::Dismissed]);
                let sent = (state == S::Pending).then(|| (Hash::SHA256([t.u8(); 32]), t.i64()));
                let bytes = t.bytes(6);
                let info = DrInfoBridge { dr_bytes: bytes.clone(), dr_state: real(state), dr_tx_hash: sent.map(|x| x.0), dr_tx_creation_timestamp: sent.map(|x| x.1) };
                db().do_send(SetDrInfoBridge(id, info));
                m.put(id, Known { bytes, state, sent });
            }
            2..=4 => {
                // Nobody makes a query new or pending this way.
                let state = *t.pick(&[S::Finished, S::Dismissed]);
                if let Some(x) = m.all.get(&id) {
                    again += 1;
                    o.label_if(x.state == S::Pending && state == S::Dismissed, "a pending query is dismissed");
                    o.label_if(x.state == S::Finished && state == S::Dismissed, "a finished query is dismissed");
                }
                ensure!(db().ask(SetDrState { dr_id: id, dr_state: real(state) }).unwrap().is_ok(), "a state was not taken");
                m.set(id, state);
            }
            5 => {
                stop();
                o.label("a restart");
                m.check("after a restart")?;
            }
            _ => {}
        }
        m.check("after a message")?;
    }
    o.nontrivial_if(again > 0);
    o.show(|| format!("{} queries, {again} of them changed later", m.all.len()));
    fresh();
    Ok(())
}

fn config(t: &mut Tape) -> Config {
    Config {
        eth_from: [1; 20],
        eth_from_balance_threshold: 0,
        eth_gas_limits: Gas { post_data_request: None, report_result: None },
        eth_jsonrpc_url: String::new(),
        eth_max_batch_size: *t.pick(&[1, 2, 3, 4, 5, 7, 256]),
        eth_nanowit_wei_price: None,
        eth_new_drs_polling_rate_ms: 1000,
        eth_txs_confirmations: 1,
        eth_txs_timeout_ms: 1000,
        eth_witnet_oracle: [7; 20],
        watch_dog_enabled: false,
        watch_dog_polling_rate_minutes: 1,
        witnet_dr_min_collateral_nanowits: *t.pick(&[WIT, 1, 20 * WIT]),
        witnet_dr_max_fee_nanowits: *t.pick(&[0, 100, WIT]),
        witnet_dr_max_result_size: 100,
        witnet_dr_max_value_nanowits: *t.pick(&[WIT, 100 * WIT, 10_000 * WIT]),
        witnet_dr_txs_polling_rate_ms: 1000,
        witnet_dr_txs_timeout_ms: 1000,
        witnet_jsonrpc_socket: "127.0.0.1:1".parse().unwrap(),
        witnet_testnet: false,
        witnet_utxo_min_value_threshold: 0,
        storage: Storage { db_path: Default::default() },
        storage_skip_first: t.odds(80).then(|| t.below(8) as u64),
    }
}

fn poll(t: &mut Tape, o: &mut Obs, failures: bool) -> Result<(), String> {
    fresh();
    let config = config(t);
    let skip = U256::from(config.storage_skip_first.unwrap_or(0));
    let oracle = Rc::new(RefCell::new(Oracle::default()));
    #[allow(clippy::arc_with_non_send_sync)]
    let contract = Arc::new(Contract(oracle.clone(), PhantomData));
    let start = |_: &Tape| Addr::start(EthPoller::from_config(&config, Web3(PhantomData), contract.clone()));
    let mut m = Model::default();
    let mut poller: Option<Addr<EthPoller>> = None;
    let mut backlog = false;
    for round in 0..1 + t.below(4) {
        // What happened on the other side since.
        for q in oracle.borrow_mut().queries.iter_mut() {
            if t.odds(60) {
                q.0 = t.below(5) as u8;
            }
        }
        let more = if t.odds(60) { t.below(40) } else { t.below(8) };
        for _ in 0..more {
            let k = oracle.borrow().queries.len() as u8;
            let q = (*t.pick(&[1, 1, 1, 2, 3, 0, 4]), vec![k, t.u8()]);
            oracle.borrow_mut().queries.push(q);
        }
        let next = U256::from(oracle.borrow().queries.len() + 1);
        let from = m.last.max(skip);
        let batch = config.eth_max_batch_size;
        backlog |= from + 1 + batch <= next;
        let fails: Vec<bool> = if failures && t.bool() { t.vec(12, |t| t.odds(70)) } else { vec![] };
        let may_fail = !fails.is_empty();
        let before = oracle.borrow().failed;
        oracle.borrow_mut().fails = fails;
        match &poller {
            Some(x) if !t.odds(50) => x.tick(),
            _ => {
                // The bridge is stopped and started.
                stop();
                o.label_if(round > 0, "a restart");
                poller = Some(start(t));
            }
        }
        oracle.borrow_mut().fails.clear();
        ensure!(oracle.borrow().wrong.is_empty(), "queries {:?} were asked for, of {}", oracle.borrow().wrong, oracle.borrow().queries.len());
        if may_fail && oracle.borrow().failed > before {
            // Not now, but soon.
            o.label("a call failed");
            let x = poller.as_ref().unwrap();
            x.tick();
            o.nontrivial();
            let known = DrDatabase::from_registry().look(|d| d.dr.keys().copied().collect::<BTreeSet<_>>());
            let want = oracle.borrow().queries.len();
            let lost: Vec<_> = (1..=want).map(U256::from).filter(|x| *x > skip && !known.contains(x)).map(|x| x.1).collect();
            let missed: BTreeSet<u128> = oracle.borrow().missed.iter().map(|x| x.1).collect();
            let other: Vec<_> = lost.iter().filter(|x| !missed.contains(x)).collect();
            ensure!(other.is_empty(), "queries {other:?} of {want}, that no failed call was about, are not known");
            ensure!(lost.is_empty(), "passed over for good after a call that failed: queries {lost:?} of {want}");
            fresh();
            return Ok(());
        }
        let mut id = from + 1;
        while id < next {
            let q = oracle.borrow().queries[id.as_usize() - 1].clone();
            match q.0 {
                1 => m.put(id, Known { bytes: q.1, state: S::New, sent: None }),
                2 | 3 => m.set(id, S::Finished),
                _ => m.set(id, S::Dismissed),
            }
            id += 1u64;
        }
        m.check("after asking the contract")?;
        // Some are worked on meanwhile.
        let ids: Vec<U256> = m.all.keys().copied().collect();
        for id in ids {
            if t.odds(60) {
                let s = *t.pick(&[S::Finished, S::Dismissed]);
                DrDatabase::from_registry().do_send(SetDrState { dr_id: id, dr_state: real(s) });
                m.set(id, s);
            }
        }
    }
    o.label_if(backlog, "more new queries than fit one call");
    o.nontrivial_if(backlog && !failures);
    o.show(|| format!("{} queries, {} at a time, from {skip}", m.all.len(), config.eth_max_batch_size));
    fresh();
    Ok(())
}

fn div_ceil(a: u64, b: u64) -> u64 {
    if b == 0 { u64::MAX } else { a.div_ceil(b) }
}

/// A request, and whether its sources can be worked with.
fn asked(t: &mut Tape, c: &Config) -> (DataRequestOutput, bool) {
    let min = c.witnet_dr_min_collateral_nanowits;
    let collateral = *t.pick(&[0, 0, min, min - 1, min / 3 + 1, min + 1, 5 * min, 1, u64::MAX]);
    let full = if collateral == 0 { min } else { collateral };
    let reward = match t.below(8) {
        0 => full / 125,
        1 => full.div_ceil(125),
        2 => full / 125 + 1,
        3 => t.range(1, WIT),
        4 => full,
        5 => full.saturating_mul(2),
        6 => full / 2 + 1,
        _ => full / 3 + t.below(3) as u64,
    };
    let witnesses = 1 + t.below(10) as u16;
    let fee = t.range(0, WIT / 100);
    let mut r = DataRequestOutput { data_request: rad_ok(), witness_reward: reward, witnesses, commit_and_reveal_fee: fee, min_consensus_percentage: 51 + t.below(49) as u32, collateral };
    let mut good = true;
    match t.below(14) {
        0 => r.witnesses = 0,
        1 => r.witness_reward = 0,
        2 => r.min_consensus_percentage = *t.pick(&[50, 100, 0, 101, u32::MAX]),
        3 => r.commit_and_reveal_fee = (1 << 63) + t.below(3) as u64,
        4 => {
            r.data_request.retrieve.clear();
            good = false;
        }
        5 => {
            r.data_request.tally.reducer = 0xfe;
            good = false;
        }
        6 => {
            r.data_request.retrieve[0].script = vec![0xff];
            good = false;
        }
        7 => {
            // Exactly what may be spent, or a nanowit more.
            let each = c.witnet_dr_max_value_nanowits / u64::from(r.witnesses);
            r.witnesses = 1;
            r.collateral = min;
            r.commit_and_reveal_fee = 0;
            r.witness_reward = if t.bool() { c.witnet_dr_max_value_nanowits } else { c.witnet_dr_max_value_nanowits + 1 };
            if t.bool() {
                r.witness_reward = each;
            }
        }
        _ => {}
    }
    (r, good)
}

#[derive(Debug, PartialEq)]
enum Verdict {
    Malformed,
    Poor,
    Relay(Box<DataRequestOutput>),
}
fn judge(r: &DataRequestOutput, good: bool, c: &Config) -> Verdict {
    let min = c.witnet_dr_min_collateral_nanowits;
    let full = if r.collateral == 0 { min } else { r.collateral };
    let ratio = div_ceil(full, r.witness_reward);
    if r.witnesses < 1 || r.witness_reward < 1 || !(51..100).contains(&r.min_consensus_percentage) || ratio > 125 || !good {
        return Verdict::Malformed;
    }
    let mut r = r.clone();
    if r.collateral < min {
        r.collateral = min;
        r.witness_reward = div_ceil(min, ratio);
    }
    let cost = (u128::from(r.witness_reward) + 2 * u128::from(r.commit_and_reveal_fee)) * u128::from(r.witnesses);
    // The sums must not go over on the way.
    let Ok(cost) = u64::try_from(cost) else { return Verdict::Malformed };
    if cost > c.witnet_dr_max_value_nanowits { Verdict::Poor } else { Verdict::Relay(Box::new(r)) }
}

fn relay(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    fresh();
    let c = config(t);
    let mut m = Model::default();
    let mut verdicts: BTreeMap<U256, Verdict> = BTreeMap::new();
    // What the node will say to each request, and whether it can be reached.
    let refuse = Rc::new(RefCell::new(0u8));
    let r2 = refuse.clone();
    let answer = move |r: &Request| -> Result<Value, &'static str> {
        match r.method.as_str() {
            "getPkh" => Ok(Value::String("wit1".to_string())),
            "sendRequest" => {
                let dro: DataRequestOutput = serde_json::from_value(r.params["dro"].clone()).map_err(|_| "not a request")?;
                if r2.borrow().wrapping_add(calculate_sha256(&dro.to_pb_bytes().unwrap()).0[0]) < 40 {
                    return Err("not enough balance");
                }
                Ok(serde_json::to_value(DRTransaction::new(DRTransactionBody::new(vec![], dro, vec![]), vec![])).unwrap())
            }
            _ => Err("there is no such method"),
        }
    };
    let client = Addr::start(JsonRpcClient { asked: vec![], answer: Box::new(answer) });
    let mut sender: Option<Addr<DrSender>> = None;
    let mut id = 0u64;
    let (mut relayed, mut refused) = (0, 0);
    for _ in 0..1 + t.below(3) {
        for _ in 0..t.below(5) {
            id += 1 + t.below(2) as u64;
            let key = U256::from(id);
            let (bytes, verdict) = if t.odds(25) {
                let junk = t.bytes(20);
                if DataRequestOutput::from_pb_bytes(&junk).is_ok() {
                    continue;
                }
                (junk, Verdict::Malformed)
            } else {
                let (r, good) = asked(t, &c);
                (r.to_pb_bytes().unwrap(), judge(&r, good, &c))
            };
            DrDatabase::from_registry().do_send(SetDrInfoBridge(key, DrInfoBridge { dr_bytes: bytes.clone(), ..Default::default() }));
            m.put(key, Known { bytes, state: S::New, sent: None });
            verdicts.insert(key, verdict);
        }
        *refuse.borrow_mut() = if t.odds(170) { 0 } else { t.u8() };
        let unreachable = t.odds(25);
        client.look(|x| x.asked.clear());
        DrReporter::from_registry().look(|x| x.0.clear());
        deaf::<JsonRpcClient>(unreachable);
        match &sender {
            Some(x) => x.tick(),
            None => sender = Some(Addr::start(DrSender::from_config(&c, client.clone()))),
        }
        deaf::<JsonRpcClient>(false);
        let sent: Vec<Value> = client.look(|x| x.asked.iter().filter(|r| r.method == "sendRequest").map(|r| r.params.clone()).collect());
        // Everything that was sent is one of the requests that may be, as it has to be sent.
        let mut open: Vec<U256> = m.all.iter().filter(|x| x.1.state == S::New).map(|x| *x.0).collect();
        let mut gone = 0;
        for p in &sent {
            let dro: DataRequestOutput = serde_json::from_value(p["dro"].clone()).map_err(|e| format!("sent something that is no request: {e}"))?;
            let fee = p["fee"].as_u64();
            ensure_eq!(fee, Some(dro.witness_reward.min(c.witnet_dr_max_fee_nanowits)), "the fee");
            let pos = open.iter().position(|x| matches!(&verdicts[x], Verdict::Relay(r) if **r == dro));
            let Some(pos) = pos else { return Err(format!("the bridge sent a request that was not asked for, or not to be relayed: {dro:?}; open: {:?}", open.iter().map(|x| &verdicts[x]).collect::<Vec<_>>())) };
            open.remove(pos);
            gone += 1;
        }
        let pending: Vec<_> = DrDatabase::from_registry().ask(GetAllPendingDrs).unwrap().unwrap();
        let stopped = unreachable || pending.len() < m.all.values().filter(|x| x.state == S::Pending).count() + gone;
        for (id, bytes, hash, when) in pending {
            let k = m.all.get_mut(&id).ok_or("an unknown query is pending")?;
            if k.state != S::New {
                continue;
            }
            let Verdict::Relay(r) = &verdicts[&id] else { return Err(format!("query {id} is pending, and was not to be relayed")) };
            ensure!(sent.iter().any(|p| serde_json::from_value::<DataRequestOutput>(p["dro"].clone()).ok().as_ref() == Some(&**r)), "query {id} is pending, and was not sent");
            let tx = DRTransaction::new(DRTransactionBody::new(vec![], (**r).clone(), vec![]), vec![]);
            ensure_eq!(hash, tx.hash(), "the transaction of query {id}");
            ensure!(bytes == k.bytes, "the bytes of query {id} changed");
            k.state = S::Pending;
            k.sent = Some((hash, when));
            relayed += 1;
        }
        m.check("after relaying")?;
        if !stopped {
            for (id, k) in &m.all {
                ensure!(k.state != S::New || !matches!(verdicts[id], Verdict::Relay(_)), "query {id} could be relayed and was not");
            }
        } else {
            o.label(if unreachable { "the node cannot be reached" } else { "the node refuses a request" });
        }
        // The others are reported as what they are; when the node refuses, possibly later.
        let reports = DrReporter::from_registry().look(|x| std::mem::take(&mut x.0));
        let mut told = BTreeSet::new();
        for r in &reports {
            ensure!(told.insert(r.dr_id), "query {} is reported twice", r.dr_id);
            ensure!(m.all.get(&r.dr_id).is_some_and(|k| k.state == S::New), "query {} is reported as an error", r.dr_id);
            let code = match &verdicts[&r.dr_id] {
                Verdict::Malformed => RadonErrors::BridgeMalformedRequest,
                Verdict::Poor => {
                    o.label("more than the bridge may spend");
                    RadonErrors::BridgePoorIncentives
                }
                x => return Err(format!("query {} is reported as an error, and is {x:?}", r.dr_id)),
            } as u8;
            ensure!(r.result == [0xd8, 0x27, 0x81, 0x18, code], "query {} is reported as {:02x?}", r.dr_id, r.result);
            refused += 1;
        }
        if !stopped {
            let want: BTreeSet<U256> = m.all.iter().filter(|x| x.1.state == S::New).map(|x| *x.0).collect();
            ensure!(told == want, "reported as errors: {told:?}, and not to be relayed: {want:?}");
        }
        // They were reported, or somebody else did it.
        for id in told {
            let s = *t.pick(&[S::Finished, S::Dismissed]);
            DrDatabase::from_registry().do_send(SetDrState { dr_id: id, dr_state: real(s) });
            m.set(id, s);
        }
        m.check("after reporting")?;
    }
    o.nontrivial_if(relayed > 0 && refused > 0);
    o.show(|| format!("{relayed} relayed, {refused} reported as errors"));
    fresh();
    Ok(())
}

/// What the node knows of a request.
#[derive(Clone)]
struct Progress {
    info: Option<DataRequestInfo>,
    /// The epoch of its block, if the node has the block.
    block: Option<u32>,
    error: bool,
    old: bool,
}

fn resolve(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    fresh();
    let mut c = config(t);
    c.witnet_dr_txs_timeout_ms = 1000 * (1000 + t.below(100_000) as u64);
    let timeout = (c.witnet_dr_txs_timeout_ms / 1000) as i64;
    // 1.8 or 2.0 now, and requests of it and the version before.
    let now = 1 + t.below(2);
    let mut protocols = ProtocolInfo { current_version: [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0][now], ..Default::default() };
    protocols.register(0, ProtocolVersion::V1_7, PERIOD.0 as u16);
    protocols.register(V1_8, ProtocolVersion::V1_8, PERIOD.0 as u16);
    // The next one is known ahead of time, or not.
    if now == 2 || t.bool() {
        protocols.register(V2_0, ProtocolVersion::V2_0, PERIOD.1 as u16);
    }
    let mut m = Model::default();
    let mut node: BTreeMap<String, Progress> = BTreeMap::new();
    let clock = witnet_util::timestamp::get_timestamp();
    for id in 1..=1 + t.below(6) as u64 {
        let key = U256::from(id);
        let sent = Hash::SHA256([id as u8; 32]);
        let era = now - t.below(2);
        let block = epoch(t, era);
        let block = if now == 1 { block.min(V2_0 - 10) } else { block };
        let tally = TallyTransaction::new(sent, t.bytes(20), vec![], vec![], vec![]);
        let block_hash = Hash::SHA256([100 + id as u8; 32]);
        let info = DataRequestInfo {
            tally: (!t.odds(90)).then_some(tally),
            block_hash_dr_tx: (!t.odds(30)).then_some(block_hash),
            current_commit_round: t.below(5) as u16,
            ..Default::default()
        };
        let old = t.odds(90);
        let when = if old { clock - timeout - t.below(1000) as i64 } else { clock - timeout + 500 + t.below(500) as i64 };
        let state = if t.odds(40) { *t.pick(&[S::New, S::Finished, S::Dismissed]) } else { S::Pending };
        let known = Known { bytes: vec![id as u8, t.u8()], state, sent: Some((sent, when)) };
        DrDatabase::from_registry().do_send(SetDrInfoBridge(key, DrInfoBridge { dr_bytes: known.bytes.clone(), dr_state: real(state), dr_tx_hash: Some(sent), dr_tx_creation_timestamp: Some(when) }));
        m.put(key, known);
        node.insert(sent.to_string(), Progress { info: (!t.odds(30)).then_some(info), block: (!t.odds(30)).then_some(block), error: t.odds(20), old });
    }
    let dumb = t.odds(15).then(|| *t.pick(&["getConsensusConstants", "protocol"]));
    let n2 = node.clone();
    let answer = move |r: &Request| -> Result<Value, &'static str> {
        if dumb == Some(r.method.as_str()) {
            return Err("not now");
        }
        let json = |x| Ok(x);
        match r.method.as_str() {
            "getConsensusConstants" => json(serde_json::to_value(constants()).unwrap()),
            "protocol" => json(serde_json::to_value(&protocols).unwrap()),
            "dataRequestReport" => {
                let h: Hash = serde_json::from_value(r.params[0].clone()).map_err(|_| "not a hash")?;
                let p = n2.get(&h.to_string()).ok_or("unknown")?;
                if p.error { Err("unknown") } else { json(serde_json::to_value(&p.info).unwrap()) }
            }
            "getBlock" => {
                let h: Hash = serde_json::from_value(r.params[0].clone()).map_err(|_| "not a hash")?;
                let p = n2.values().find(|p| p.info.as_ref().is_some_and(|i| i.block_hash_dr_tx == Some(h))).ok_or("unknown")?;
                let mut b = Block::new(BlockHeader::default(), Default::default(), Default::default());
                b.block_header.beacon.checkpoint = p.block.ok_or("unknown")?;
                json(serde_json::to_value(b).unwrap())
            }
            _ => Err("there is no such method"),
        }
    };
    let client = Addr::start(JsonRpcClient { asked: vec![], answer: Box::new(answer) });
    let unreachable = t.odds(20);
    deaf::<JsonRpcClient>(unreachable);
    let _poller = Addr::start(WitPoller::from_config(&c, client.clone()));
    deaf::<JsonRpcClient>(false);
    let reports = DrReporter::from_registry().look(|x| std::mem::take(&mut x.0));
    let mut reports: BTreeMap<U256, _> = reports.into_iter().map(|r| (r.dr_id, r)).collect();
    let asleep = unreachable || dumb.is_some();
    let states = DrDatabase::from_registry().look(|d| d.dr.iter().map(|(k, v)| (*k, v.dr_state)).collect::<BTreeMap<_, _>>());
    let (mut solved, mut again) = (0, 0);
    for (id, k) in m.all.iter_mut() {
        if k.state != S::Pending || asleep {
            continue;
        }
        let (hash, _) = k.sent.unwrap();
        let p = &node[&hash.to_string()];
        let info = p.info.as_ref().filter(|_| !p.error);
        if let Some(DataRequestInfo { tally: Some(tally), block_hash_dr_tx: Some(_), current_commit_round, .. }) = info {
            if let Some(block) = p.block {
                let r = reports.remove(id).ok_or(format!("query {id} has a result, and it is not reported"))?;
                solved += 1;
                ensure!(r.result == tally.tally, "the result of query {id}");
                ensure_eq!((r.dr_tx_hash, r.dr_tally_tx_hash), (hash, tally.hash()), "the transactions of query {id}");
                let at = block + u32::from(*current_commit_round) + 1;
                o.label_if(block < [V1_8, V2_0][now - 1], "asked before the last upgrade");
                ensure_eq!(r.dr_timestamp, time(at), "the time of the result of query {id}, of epoch {at}");
            }
            // It is resolved; whether it is asked for again later is another matter.
            if p.old && matches!(states[id], DrState::New) {
                *k = Known { state: S::New, sent: None, bytes: k.bytes.clone() };
            }
            continue;
        }
        if p.old {
            again += 1;
            *k = Known { state: S::New, sent: None, bytes: k.bytes.clone() };
        }
    }
    ensure!(reports.is_empty(), "reported without a result: queries {:?}", reports.keys().collect::<Vec<_>>());
    m.check("after looking for results")?;
    o.label_if(asleep, "the node does not answer");
    o.label_if(again > 0, "a request took too long");
    o.nontrivial_if(solved > 0);
    o.show(|| format!("{} queries, {solved} resolved, {again} to be sent again", m.all.len()));
    fresh();
    Ok(())
}

pub fn c48(c: &mut Check) {
    c.sub("database", "a query that is known changes its state", 40_000, 1_500_000, || long_tapes(600), |b, o| database(&mut b.tape(), o));
    c.sub("polling", "there are more new queries than fit in one call", 40_000, 1_500_000, || long_tapes(800), |b, o| poll(&mut b.tape(), o, false));
    c.sub("failing calls", "a call to the contract fails", 30_000, 1_000_000, || long_tapes(800), |b, o| poll(&mut b.tape(), o, true));
    c.sub("relaying", "some queries are relayed and others are refused", 40_000, 1_500_000, || long_tapes(800), |b, o| relay(&mut b.tape(), o));
    c.sub("resolving", "a result is reported", 30_000, 1_000_000, || long_tapes(400), |b, o| resolve(&mut b.tape(), o));
}
