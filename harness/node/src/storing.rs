//! C47: what a node stores of its state, and what it makes of what earlier versions stored.
use crate::{
    base::*,
    block::Sim,
    commits::engine,
    node::migrations::{migrate_chain_state, put_versioned_to_batch},
};
use std::collections::{BTreeMap, HashMap};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, long_tapes},
};
use witnet_crypto::hash::calculate_sha256;
use witnet_data_structures::{
    chain::{tapi::TapiEngine, *},
    proto::versioning::{ProtocolInfo, ProtocolVersion},
    staking::prelude::*,
    superblock::SuperBlockState,
    transaction::*,
    utxo_pool::{OwnUnspentOutputsPool, UtxoWriteBatch},
};

fn hash(t: &mut Tape) -> Hash {
    Hash::SHA256(calculate_sha256(&[t.u8(), t.u8()]).0)
}
fn beacon(t: &mut Tape) -> CheckpointBeacon {
    CheckpointBeacon { checkpoint: t.u32(), hash_prev_block: hash(t) }
}
fn few<K, V, M: Default + Extend<(K, V)>>(t: &mut Tape, max: usize, mut f: impl FnMut(&mut Tape) -> (K, V)) -> M {
    let mut m = M::default();
    m.extend((0..t.below(max + 1)).map(|_| f(t)));
    m
}

/// A state as it is after some blocks.
fn state(t: &mut Tape) -> Result<(Sim, ChainState), String> {
    let e = *t.pick(&[V1_8 - 5, V1_8 + 50, V2_0 - 4, V2_0 + 1000]);
    let mut sim = Sim::new(t, e);
    for _ in 0..t.below(5) {
        let plan = sim.plan(t);
        let block = Block::new(sim.header(&plan.txns), KeyedSignature::default(), plan.txns.clone());
        let (got, _) = sim.validate(&block, &constants());
        sim.apply(&block, &plan, got?.0)?;
        sim.block += 1;
        sim.e += 1;
        sim.next_coin += 1;
    }
    let info = ChainInfo {
        environment: *t.pick(&[Environment::Mainnet, Environment::Testnet, Environment::Development]),
        consensus_constants: constants(),
        highest_block_checkpoint: beacon(t),
        highest_superblock_checkpoint: beacon(t),
        highest_vrf_output: CheckpointVRF { checkpoint: t.u32(), hash_prev_vrf: hash(t) },
    };
    let mut own = OwnUnspentOutputsPool::new();
    let spendable: Vec<OutputPointer> = sim.base.iter().map(|x| x.0).take(t.below(6)).collect();
    spendable.into_iter().for_each(|p| {
        own.insert(p, t.u64());
    });
    let tapi = TapiEngine { wip_activation: few(t, 3, |t| (format!("WIP{}", t.below(40)), t.u32())), ..Default::default() };
    let state = ChainState {
        chain_info: (!t.odds(30)).then_some(info),
        data_request_pool: sim.pool.clone(),
        block_chain: few(t, 8, |t| (t.u32(), hash(t))),
        own_utxos: own,
        reputation_engine: t.bool().then(|| engine(t)),
        node_stats: NodeStats { block_mined_count: t.u32(), last_block_proposed: hash(t), slashed_count: t.u32(), ..Default::default() },
        superblock_state: if t.bool() { SuperBlockState::default() } else { SuperBlockState::new(hash(t), (0..t.below(5)).map(|k| key(k).pkh).collect()) },
        tapi_engine: tapi,
        stakes: bincode::deserialize(&bincode::serialize(&sim.stakes).unwrap()).unwrap(),
        ..Default::default()
    };
    Ok((sim, state))
}

/// What comes between the chain info and the TAPI engine, and is the same in all versions.
fn middle(s: &ChainState, old: &HashMap<OutputPointer, (ValueTransferOutput, u32)>) -> Vec<u8> {
    let put = |x: Result<Vec<u8>, bincode::Error>| x.unwrap();
    [
        put(bincode::serialize(old)),
        put(bincode::serialize(&s.data_request_pool)),
        put(bincode::serialize(&s.block_chain)),
        put(bincode::serialize(&s.own_utxos)),
        put(bincode::serialize(&s.reputation_engine)),
        put(bincode::serialize(&s.node_stats)),
        put(bincode::serialize(&s.alt_keys)),
        put(bincode::serialize(&s.superblock_state)),
    ]
    .concat()
}

fn entries(s: &StakesTracker) -> BTreeMap<String, String> {
    s.query_stakes(QueryStakesKey::All).unwrap_or_default().into_iter().map(|x| (format!("{:?}", x.key), format!("{:?}", x.value))).collect()
}

fn migrations(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    protocol();
    let (sim, mut s) = state(t)?;
    let version = *t.pick(&[5, 4, 4, 3, 2, 0]);
    // Until version 2, the outputs were in the state itself.
    let mut old = HashMap::new();
    if version < 3 {
        old.extend(sim.base.iter().take(t.below(6)));
    }
    let tag = |bytes: &mut Vec<u8>, first: &[u8]| {
        match &s.chain_info {
            None => bytes.push(0),
            Some(x) => {
                bytes.push(1);
                bytes.extend(first);
                bytes.extend(bincode::serialize(x).unwrap());
            }
        };
        bytes.extend(middle(&s, &old));
    };
    let mut bytes = if version == 0 { vec![] } else { (version as u32).to_le_bytes().to_vec() };
    let stakes = bincode::serialize(&s.stakes).unwrap();
    let tapi = bincode::serialize(&s.tapi_engine).unwrap();
    let mut registered = 0;
    match version {
        5 => {
            let mut batch = UtxoWriteBatch::default();
            put_versioned_to_batch(&"chain", &s, 5, &mut batch).map_err(|e| e.to_string())?;
            let batch = witnet_storage::storage::WriteBatch::from(batch).batch;
            let [witnet_storage::storage::WriteBatchItem::Put(k, v)] = &batch[..] else { return Err(format!("{} writes", batch.len())) };
            ensure_eq!(k, &bincode::serialize(&"chain").unwrap(), "key of the state");
            bytes = v.clone();
        }
        4 => {
            let mut info = ProtocolInfo::default();
            let versions = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0];
            registered = t.below(4);
            versions.iter().take(registered).enumerate().for_each(|(n, v)| info.register(n as u32 * 1000 + t.u8() as u32, *v, 45));
            info.current_version = versions[registered.saturating_sub(1)];
            tag(&mut bytes, &bincode::serialize(&info).unwrap());
            bytes.extend(&tapi);
            bytes.extend(&stakes);
        }
        2 | 3 => {
            tag(&mut bytes, &[]);
            bytes.extend(&tapi);
        }
        _ => tag(&mut bytes, &[]),
    }
    if version < 4 {
        s.stakes = Default::default();
    }
    if version == 0 {
        s.tapi_engine = Default::default();
    }
    let what = format!("state of version {version}, {registered} protocols registered, with{} chain info", if s.chain_info.is_some() { "" } else { "out" });
    o.label(match version {
        5 => "as it is now",
        4 if registered > 0 => "version 4 with protocols",
        4 => "version 4",
        0 => "version 0",
        _ => "version 2 or 3",
    });
    o.label_if(s.chain_info.is_none(), "without chain info");
    let got = migrate_chain_state(bytes.clone()).map_err(|e| format!("{what}: {e}"))?;
    ensure_eq!(got.chain_info, s.chain_info, "chain info of a {what}");
    ensure_eq!(bincode::serialize(&got.unspent_outputs_pool_old_migration_db).map(|x| x.len()).ok(), bincode::serialize(&old).map(|x| x.len()).ok(), "outputs of a {what}");
    ensure_eq!(got.data_request_pool.data_request_pool, s.data_request_pool.data_request_pool, "requests of a {what}");
    ensure_eq!(got.block_chain, s.block_chain, "blocks of a {what}");
    let coins = |x: &OwnUnspentOutputsPool| x.iter().map(|x| (*x.0, *x.1)).collect::<BTreeMap<_, _>>();
    ensure_eq!(coins(&got.own_utxos), coins(&s.own_utxos), "own outputs of a {what}");
    ensure!(got.reputation_engine == s.reputation_engine, "reputation of a {what}");
    ensure_eq!(got.node_stats, s.node_stats, "statistics of a {what}");
    ensure!(got.superblock_state == s.superblock_state, "superblocks of a {what}");
    ensure_eq!(got.tapi_engine, s.tapi_engine, "signals of a {what}");
    ensure_eq!(entries(&got.stakes), entries(&s.stakes), "stakes of a {what}");
    // Anything else is refused.
    let mut broken = bytes.clone();
    if version != 0 && t.bool() {
        let v = if t.bool() { 6 + t.below(250) as u32 } else { (t.u32() & !0xff) | (2 + t.below(254) as u32) };
        broken[..4].copy_from_slice(&v.to_le_bytes());
        ensure!([2, 3, 4, 5].contains(&v) || migrate_chain_state(broken).is_err(), "a state of version {v} was read");
    } else {
        let n = if t.bool() { t.below(6) } else { t.below(bytes.len()) };
        broken.truncate(n);
        // Without what came in later versions, it is one of an earlier version.
        let got = migrate_chain_state(broken);
        ensure!(got.is_err(), "{n} of {} bytes of a {what} were read", bytes.len());
    }
    o.nontrivial_if(!s.data_request_pool.data_request_pool.is_empty() || !entries(&s.stakes).is_empty());
    Ok(())
}

#[allow(unused)]
fn unused(_: &Transaction) {}

pub fn c47(c: &mut Check) {
    c.sub("a stored state is read back, whatever version stored it", "requests in progress or stakes", 12_000, 400_000, || long_tapes(1500), |b, o| migrations(&mut b.tape(), o));
}
