//! C46: following the network. What peers tell, and which of their blocks are final.
use crate::node::{codec::P2PCodec, manager::*, messages::PeersBeacons, session::*, sync::*, utils::mode_consensus};
use crate::wire::{Decoder, Encoder};
use bytes::BytesMut;
use std::collections::BTreeMap;
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Tape, tapes},
};
use witnet_data_structures::{
    chain::{CheckpointBeacon, Hash},
    types::LastBeacon,
};

fn beacon(checkpoint: u32, h: u8) -> CheckpointBeacon {
    CheckpointBeacon { checkpoint, hash_prev_block: Hash::SHA256([h; 32]) }
}

/// What most say.
fn mode(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let kinds = 1 + t.below(4);
    let told: Vec<u8> = t.vec(40, |t| t.below(kinds) as u8);
    let threshold = if t.bool() { 51 + t.below(50) } else { t.below(101) };
    let mut count: BTreeMap<u8, usize> = BTreeMap::new();
    told.iter().for_each(|x| *count.entry(*x).or_default() += 1);
    let got = mode_consensus(told.iter(), threshold).copied();
    let most = count.values().copied().max().unwrap_or(0);
    // Whole percents.
    let enough = !told.is_empty() && (count.len() == 1 || most * 100 / told.len() >= threshold);
    match got {
        None => ensure!(!enough, "{count:?} at {threshold} %: nothing"),
        Some(x) => ensure!(enough && count.get(&x) == Some(&most), "{count:?} at {threshold} %: {x}"),
    }
    // Whoever answers first makes no difference.
    if threshold > 50 {
        let mut other = told.clone();
        other.reverse();
        ensure_eq!(mode_consensus(other.into_iter(), threshold), got, "in another order");
    }
    o.nontrivial_if(count.len() > 1);
    o.label_if(got.is_none(), "no consensus");
    o.label_if(got.is_some() && count.len() > 1, "consensus against some");
    Ok(())
}

/// Which chain most peers are on, and who is not.
fn peers(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let n = t.below(14);
    let limit = t.bool().then(|| n + t.below(6));
    let threshold = 51 + t.below(50);
    let (sups, blocks) = (1 + t.below(3), 1 + t.below(3));
    let told: Vec<Option<LastBeacon>> = (0..n)
        .map(|_| {
            let (s, b) = (t.below(sups) as u8, t.below(blocks) as u8);
            // The same number with another hash, or the same hash elsewhere.
            (!t.odds(40)).then(|| LastBeacon { highest_superblock_checkpoint: beacon(10 + u32::from(s / 2), s % 2), highest_block_checkpoint: beacon(100 + u32::from(b / 2), b % 2) })
        })
        .collect();
    let addr = |i: usize| std::net::SocketAddr::from(([10, 0, 0, i as u8], 21337));
    let mut peers = PeersBeacons { pb: told.iter().cloned().enumerate().map(|(i, b)| (addr(i), b)).collect(), outbound_limit: limit.map(|x| x as u16) };
    let got = peers.superblock_consensus(threshold);
    let total = limit.unwrap_or(n);
    let s = |b: &LastBeacon| b.highest_superblock_checkpoint;
    let count = |x: CheckpointBeacon| told.iter().flatten().filter(|b| s(b) == x).count();
    let agreed = told.iter().flatten().map(s).find(|x| count(*x) * 100 / total >= threshold);
    match (&got, agreed) {
        (None, None) => o.label("no consensus"),
        (Some((b, whole)), Some(a)) => {
            ensure_eq!(s(b), a, "superblock of {told:?} of {total} at {threshold} %");
            let on = |x: CheckpointBeacon| told.iter().flatten().filter(|b| s(b) == a && b.highest_block_checkpoint == x).count();
            let most = told.iter().flatten().map(|b| on(b.highest_block_checkpoint)).max().unwrap();
            ensure_eq!(on(b.highest_block_checkpoint), most, "block of {told:?}: {b:?}");
            ensure_eq!(*whole, most * 100 / n >= threshold, "agreement on the block of {told:?} at {threshold} %");
            o.label(if *whole { "consensus" } else { "of superblocks only" });
            let others = |f: &dyn Fn(&LastBeacon) -> bool| told.iter().enumerate().filter(|(_, x)| !x.as_ref().is_some_and(f)).map(|(i, _)| addr(i)).collect::<Vec<_>>();
            ensure_eq!(peers.decide_peers_to_unregister(b.highest_block_checkpoint), others(&|x| x.highest_block_checkpoint == b.highest_block_checkpoint), "peers on other blocks");
            ensure_eq!(peers.decide_peers_to_unregister_s(a), others(&|x| s(x) == a), "peers on other superblocks");
        }
        _ => return Err(format!("{told:?} of {total} at {threshold} %: {got:?} for {agreed:?}")),
    }
    // Peers that lag behind count as those that say nothing.
    let a = agreed.unwrap_or(beacon(10, 0));
    peers.ignore_no_consensus_beacons(a);
    let left: Vec<_> = peers.pb.iter().map(|x| x.1.clone()).collect();
    let expected: Vec<_> = told.iter().cloned().map(|x| x.filter(|b| s(b).checkpoint > a.checkpoint || s(b) == a)).collect();
    ensure!(left == expected, "of {told:?}, {left:?} count beside {a:?}");
    o.nontrivial_if(n > 2 && told.iter().flatten().any(|b| s(b) != a));
    Ok(())
}

fn handshake(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let near = |t: &mut Tape, x: u32| if t.odds(30) { t.u32() } else { x.saturating_add(t.below(3) as u32).saturating_sub(1) };
    let epoch = if t.bool() { t.u32() } else { t.below(1000) as u32 };
    let sup = epoch / 10;
    let mine = LastBeacon { highest_block_checkpoint: beacon(near(t, epoch), 1), highest_superblock_checkpoint: beacon(near(t, sup), t.below(3) as u8) };
    let theirs = LastBeacon { highest_block_checkpoint: beacon(near(t, epoch), t.below(3) as u8), highest_superblock_checkpoint: beacon(near(t, sup), t.below(3) as u8) };
    let target = t.bool().then(|| beacon(near(t, sup), t.below(3) as u8));
    let want = target.unwrap_or(mine.highest_superblock_checkpoint);
    let got = check_beacon_compatibility(&mine, &theirs, epoch, target);
    let s = theirs.highest_superblock_checkpoint;
    let expected = if theirs.highest_block_checkpoint.checkpoint > epoch {
        Err(HandshakeError::DifferentEpoch { current_epoch: epoch, received_beacon: theirs.clone() })
    } else if s.checkpoint < want.checkpoint {
        Err(HandshakeError::PeerBeaconOld { current_beacon: want, received_beacon: s })
    } else if s.checkpoint == want.checkpoint && s.hash_prev_block != want.hash_prev_block {
        Err(HandshakeError::PeerBeaconDifferentBlockHash { current_beacon: want, received_beacon: s })
    } else {
        Ok(())
    };
    ensure_eq!(got, expected, "epoch {epoch}, {mine:?} {target:?}, peer at {theirs:?}");
    o.label(match got {
        Ok(()) => "compatible",
        Err(HandshakeError::PeerBeaconOld { .. }) => "behind",
        Err(HandshakeError::DifferentEpoch { .. }) => "ahead of time",
        _ => "another chain",
    });
    // Clocks.
    let now = if t.odds(30) { *t.pick(&[i64::MIN, i64::MAX, 0, -1]) } else { t.range(0, 1 << 40) as i64 };
    let max = if t.odds(60) { 0 } else if t.odds(20) { i64::MAX } else { t.range(1, 1000) as i64 };
    let theirs = if t.odds(40) { t.u64() as i64 } else { now.saturating_add(max).saturating_add(t.range(0, 4) as i64 - 2) };
    let theirs = if t.bool() { theirs } else { now.saturating_sub(max).saturating_add(t.range(0, 4) as i64 - 2) };
    let fine = max == 0 || (i128::from(now) - i128::from(theirs)).abs() <= i128::from(max);
    let got = check_timestamp_drift(now, theirs, max);
    ensure_eq!(got.is_ok(), fine, "{now} and {theirs}, {max} allowed");
    if let Err(e) = got {
        ensure_eq!(e, HandshakeError::DifferentTimestamp { current_ts: now, timestamp_diff: theirs.saturating_sub(now) }, "drift");
        o.label("clocks apart");
    }
    o.nontrivial();
    Ok(())
}

fn batches(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let period = 1 + t.below(12) as u32;
    let target = if t.odds(40) { 0 } else { t.below(20) as u32 };
    let now = (target + t.below(6) as u32) * period + t.below(period as usize) as u32;
    let current = now / period;
    let end = target * period;
    let block = if t.odds(20) { t.below(200) as u32 } else { end.saturating_sub(1 + t.below(period as usize + 1) as u32) };
    let sync = SyncTarget { block: beacon(block, 1), superblock: beacon(target, 2) };
    // What a peer sends: blocks in their order, some epochs without.
    let mut e = if t.bool() { 0 } else { end.saturating_sub(t.below(2 * period as usize + 1) as u32) };
    let stop = if t.bool() { now + 1 } else { t.below(now as usize + 2) as u32 };
    let mut blocks = vec![];
    while e < stop {
        blocks.push((e, blocks.len()));
        e += 1 + if t.odds(60) { t.below(2 * period as usize + 1) as u32 } else { 0 };
    }
    let got = split_blocks_batch_at_target(|b: &(u32, usize)| b.0, blocks.clone(), now, &sync, period);
    // Superblocks are agreed on two by two: whether there is one more to be agreed on.
    let candidate = (current - target) % 2 == 1;
    let last_agreed = if candidate { current - 1 } else { current } * period;
    // Blocks after the target whose superblock should have been agreed on already.
    let wrong = blocks.iter().find(|b| target != 0 && b.0 >= end && b.0 < last_agreed);
    let last = blocks.last().map_or(0, |b| b.0);
    let part = |from: u32, to: u32| blocks.iter().copied().filter(|b| b.0 >= from && b.0 < to).collect::<Vec<_>>();
    let expected = if let Some(w) = wrong {
        Err(ChainManagerError::WrongBlocksForSuperblock { wrong_index: w.0, consolidated_superblock_index: target, current_superblock_index: current })
    } else if last + 1 < end && last < block {
        Ok(BlockBatches::TargetNotReached(blocks.clone()))
    } else if candidate {
        Ok(BlockBatches::SyncWithCandidate(part(0, end), part(end, current * period), part(current * period, u32::MAX)))
    } else {
        Ok(BlockBatches::SyncWithoutCandidate(part(0, end), part(end, u32::MAX)))
    };
    o.label(match &got {
        Err(_) => "wrong blocks",
        Ok(BlockBatches::TargetNotReached(_)) => "not there yet",
        Ok(BlockBatches::SyncWithCandidate(..)) => "with a candidate",
        Ok(BlockBatches::SyncWithoutCandidate(..)) => "without a candidate",
    });
    ensure!(got == expected, "at {now}, superblocks of {period}, target {target} (block {block}): {got:?} for {expected:?}");
    o.nontrivial_if(blocks.len() > 1);
    Ok(())
}

fn committee(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let default = t.below(200) as u32;
    let last = if t.odds(20) { t.u32() } else { t.below(200) as u32 };
    let (period, step) = (1 + t.below(10) as u32, t.below(20) as u32);
    let consolidated = t.below(1000) as u32;
    let current = consolidated + t.below(60) as u32;
    let bootstrap = t.below(1000) as u32;
    let min = t.below(30) as u32;
    let got = i64::from(current_committee_size_requirement(default, last, period, step, consolidated, current, bootstrap, min));
    let (last, step) = (i64::from(last), i64::from(step));
    let rounds = i64::from((current - consolidated) / period);
    let expected = if consolidated <= bootstrap {
        i64::from(default)
    } else if rounds > 0 {
        (last - rounds * step).max(i64::from(min)).max(1)
    } else {
        (last + step).min(i64::from(default))
    };
    ensure_eq!(got, expected, "{default} {last} {period} {step} {consolidated} {current} {bootstrap} {min}");
    o.nontrivial_if(consolidated > bootstrap);
    o.label_if(rounds > 0 && consolidated > bootstrap, "smaller");
    Ok(())
}

fn codec(t: &mut Tape, o: &mut Obs) -> Result<(), String> {
    let messages: Vec<Vec<u8>> = t.vec(6, |t| {
        let n = if t.odds(10) { 60_000 + t.below(20_000) } else { t.below(300) };
        let fill = t.u8();
        let mut v = vec![fill; n];
        v.iter_mut().take(8).for_each(|b| *b = t.u8());
        v
    });
    let mut wire = BytesMut::new();
    let mut reference = vec![];
    for m in &messages {
        P2PCodec.encode(BytesMut::from(&m[..]), &mut wire).map_err(|e| e.to_string())?;
        reference.extend((m.len() as u32).to_be_bytes());
        reference.extend(m);
    }
    ensure!(wire[..] == reference[..], "on the wire");
    // Arrives in pieces.
    let (mut got, mut left, mut pieces) = (vec![], BytesMut::new(), 0);
    let mut rest = &reference[..];
    let cut = t.bool().then(|| t.below(rest.len() + 1));
    if let Some(n) = cut {
        rest = &rest[..n];
    }
    while !rest.is_empty() {
        let n = if t.bool() { 1 + t.below(5) } else { 1 + t.below(400) };
        let n = if rest.len() > 2000 { 2000.max(n) } else { n.min(rest.len()) };
        left.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
        pieces += 1;
        let before = left.clone();
        let mut any = false;
        while let Some(m) = P2PCodec.decode(&mut left).map_err(|e| e.to_string())? {
            got.push(m.to_vec());
            any = true;
        }
        ensure!(any || before == left, "an incomplete message was consumed");
    }
    let mut complete = 0;
    let mut at = 0;
    for m in &messages {
        at += 4 + m.len();
        if at <= cut.unwrap_or(usize::MAX) {
            complete += 1;
        }
    }
    ensure!(got[..] == messages[..complete], "{} messages of {complete}", got.len());
    o.nontrivial_if(complete > 1 && pieces > 2);
    o.label_if(cut.is_some() && complete < messages.len(), "cut off");
    Ok(())
}

pub fn c46(c: &mut Check) {
    c.sub("what most peers say", "peers that differ", 60_000, 2_000_000, || tapes(80), |b, o| mode(&mut b.tape(), o));
    c.sub("the chain that most peers are on, and who is not", "three or more peers that differ", 60_000, 2_000_000, || tapes(80), |b, o| peers(&mut b.tape(), o));
    c.sub("peers at another point of the chain or with another clock", "all", 100_000, 4_000_000, || tapes(80), |b, o| handshake(&mut b.tape(), o));
    c.sub("blocks that are final, to be agreed on and yet to come", "two or more blocks", 60_000, 2_000_000, || tapes(300), |b, o| batches(&mut b.tape(), o));
    c.sub("votes that a superblock needs", "after the bootstrap", 60_000, 2_000_000, || tapes(60), |b, o| committee(&mut b.tape(), o));
    c.sub("messages arrive as they were sent, in any pieces", "two or more messages in three or more pieces", 30_000, 1_000_000, || tapes(300), |b, o| codec(&mut b.tape(), o));
}
