//! C35: sessions with other nodes.
use crate::addr;
use std::collections::BTreeMap;
use std::net::{Ipv4Addr, SocketAddr};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Bytes, Tape, long_tapes},
};
use witnet_p2p::{
    error::SessionsError,
    peers::get_range_address,
    sessions::{NetworkRangesCollection, SessionStatus, SessionType, Sessions, bounded_sessions::BoundedSessions},
};

type R = Result<(), String>;
type M = BTreeMap<SocketAddr, u32>;

#[derive(Default)]
struct Model {
    inb_u: M,
    inb_c: M,
    out_u: M,
    out_c: M,
    consensus: M,
    limits: Option<(u16, u16)>,
    public: Option<SocketAddr>,
    bits: u8,
}
impl Model {
    fn full(&self, m: &M, outbound: bool) -> bool {
        self.limits.is_some_and(|(i, o)| m.len() >= usize::from(if outbound { o } else { i }))
    }
}

/// The first `bits` bits of the address of a host. All of IPv6 counts as one network.
fn network(a: &SocketAddr, bits: u8) -> [u8; 4] {
    match a {
        SocketAddr::V4(a) => {
            let ip = a.ip().octets();
            std::array::from_fn(|k| {
                let keep = (u32::from(bits)).saturating_sub(8 * k as u32).min(8);
                ip[k] & !(0xffu32 >> keep) as u8
            })
        }
        SocketAddr::V6(_) => [0; 4],
    }
}

fn same(what: &str, got: &BoundedSessions<u32>, want: &M) -> R {
    let got: M = got.collection.iter().map(|(a, s)| (*a, s.reference)).collect();
    ensure!(got == *want, "{what}: {got:?} instead of {want:?}");
    Ok(())
}

fn compare(s: &Sessions<u32>, m: &Model, pool: &[SocketAddr]) -> R {
    same("inbound, not consolidated", &s.inbound_unconsolidated, &m.inb_u)?;
    same("inbound, consolidated", &s.inbound_consolidated, &m.inb_c)?;
    same("outbound, not consolidated", &s.outbound_unconsolidated, &m.out_u)?;
    same("outbound, consolidated", &s.outbound_consolidated, &m.out_c)?;
    same("in consensus", &s.outbound_consolidated_consensus, &m.consensus)?;

    let out = m.out_u.len() + m.out_c.len();
    ensure_eq!(s.get_num_outbound_sessions(), out, "number of outbound sessions");
    ensure_eq!(s.get_num_inbound_sessions(), m.inb_c.len(), "number of inbound sessions");
    let missing = m.limits.map_or(1, |(_, o)| usize::from(o).saturating_sub(out));
    ensure_eq!(s.num_missing_outbound(), missing, "number of outbound sessions that are missing");
    ensure_eq!(s.is_outbound_bootstrap_needed(), m.limits.is_none() || missing > 0, "whether more outbound sessions are needed");

    for a in pool {
        let eligible = !m.out_u.contains_key(a) && !m.out_c.contains_key(a) && m.public != Some(*a);
        ensure_eq!(s.is_outbound_address_eligible(*a), eligible, "whether {a} can be connected to");
        let n = network(a, m.bits);
        let taken = m.inb_u.keys().chain(m.inb_c.keys()).any(|x| network(x, m.bits) == n);
        let got = s.is_similar_to_inbound_session(a).copied();
        ensure!(
            got == taken.then_some(n),
            "{a} at /{}: range {got:?} is taken, with inbound sessions from {:?}",
            m.bits,
            m.inb_u.keys().chain(m.inb_c.keys()).collect::<Vec<_>>()
        );
    }

    let mut all: Vec<u32> = s.get_all_consolidated_sessions().copied().collect();
    let mut want: Vec<u32> = m.out_c.values().chain(m.inb_c.values()).copied().collect();
    all.sort_unstable();
    want.sort_unstable();
    ensure_eq!(all, want, "the sessions to broadcast to");
    let mut all: Vec<u32> = s.get_consolidated_inbound_sessions().copied().collect();
    let mut want: Vec<u32> = m.inb_c.values().copied().collect();
    all.sort_unstable();
    want.sort_unstable();
    ensure_eq!(all, want, "the inbound sessions to broadcast to");
    for (safu, from) in [(false, &m.out_c), (true, &m.consensus)] {
        match s.get_random_anycast_session(safu) {
            None => ensure!(from.is_empty(), "no session picked (in consensus only: {safu}) out of {from:?}"),
            Some(r) => ensure!(from.values().any(|x| *x == r), "session {r} picked (in consensus only: {safu}) out of {from:?}"),
        }
    }
    let r = s.get_consolidated_sessions_addr();
    let (mut i, mut o) = (r.inbound, r.outbound);
    i.sort_unstable();
    o.sort_unstable();
    ensure_eq!(i, m.inb_c.keys().copied().collect::<Vec<_>>(), "inbound addresses");
    ensure_eq!(o, m.out_c.keys().copied().collect::<Vec<_>>(), "outbound addresses");
    Ok(())
}

fn kind(r: Result<(), SessionsError>) -> &'static str {
    match r {
        Ok(()) => "done",
        Err(SessionsError::MaxPeersReached) => "too many",
        Err(SessionsError::AddressAlreadyRegistered) => "already there",
        Err(SessionsError::AddressNotFound) => "not there",
        Err(SessionsError::NotOutboundConsolidatedPeer) => "not consolidated",
        Err(SessionsError::NotExpectedFeelerPeer) => "feeler",
        Err(SessionsError::AddressInSameRangeAlreadyRegistered { .. }) => "same range",
    }
}

fn history(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut s = Sessions::<u32>::default();
    let mut m = Model::default();
    m.bits = match t.below(6) {
        0 => 18,
        1 => 24,
        2 => 32,
        3 => t.below(33) as u8,
        4 => 0,
        _ => t.u8(),
    };
    s.inbound_network_ranges.set_range_limit(m.bits);
    if !t.odds(24) {
        let l = (t.below(5) as u16, t.below(5) as u16);
        s.set_limits(l.0, l.1);
        m.limits = Some(l);
    }
    let size = 2 + t.below(9);
    let pool = addr::pool(&mut t, size);
    if t.bool() {
        let p = *t.pick(&pool);
        s.set_public_address(Some(p));
        m.public = Some(p);
    }
    // As the node does with `reject_sybil_inbounds`: one inbound session per network.
    let guard = t.bool();
    let mut log = String::new();
    let (mut n, mut refused, mut evicted) = (0u32, 0, false);
    while t.left() > 0 {
        n += 1;
        let a = *t.pick(&pool);
        let kind_of = match t.below(16) {
            0 => SessionType::Feeler,
            k if k % 2 == 1 => SessionType::Inbound,
            _ => SessionType::Outbound,
        };
        let inbound = kind_of == SessionType::Inbound;
        let status = if t.bool() { SessionStatus::Consolidated } else { SessionStatus::Unconsolidated };
        let op = t.below(10);
        let (what, got, want) = match op {
            0..=2 => {
                if guard && inbound && s.is_similar_to_inbound_session(&a).is_some() {
                    o.label("an inbound session kept out for its network");
                    continue;
                }
                let want = if kind_of == SessionType::Feeler {
                    "feeler"
                } else {
                    let to = if inbound { &mut m.inb_u } else { &mut m.out_u };
                    match to.entry(a) {
                        std::collections::btree_map::Entry::Occupied(_) => "already there",
                        std::collections::btree_map::Entry::Vacant(e) => {
                            e.insert(n);
                            "done"
                        }
                    }
                };
                ("register", kind(s.register_session(kind_of, a, n)), want)
            }
            3..=5 => {
                let want = if kind_of == SessionType::Feeler {
                    "feeler"
                } else {
                    let from = if inbound { &mut m.inb_u } else { &mut m.out_u };
                    match from.remove(&a) {
                        None => "not there",
                        Some(r) => {
                            let to = if inbound { &m.inb_c } else { &m.out_c };
                            let w = if m.full(to, !inbound) {
                                "too many"
                            } else if to.contains_key(&a) {
                                "already there"
                            } else {
                                "done"
                            };
                            if w == "done" {
                                if inbound { &mut m.inb_c } else { &mut m.out_c }.insert(a, r);
                            } else {
                                evicted = true;
                                o.label_if(inbound, "an inbound session dropped as it could not be consolidated");
                            }
                            w
                        }
                    }
                };
                ("consolidate", kind(s.consolidate_session(kind_of, a)), want)
            }
            6 | 7 => {
                let want = if kind_of == SessionType::Feeler {
                    "feeler"
                } else {
                    let from = match (inbound, status) {
                        (true, SessionStatus::Unconsolidated) => &mut m.inb_u,
                        (true, SessionStatus::Consolidated) => &mut m.inb_c,
                        (false, SessionStatus::Unconsolidated) => &mut m.out_u,
                        (false, SessionStatus::Consolidated) => &mut m.out_c,
                    };
                    let gone = from.remove(&a).is_some();
                    if gone && !inbound && status == SessionStatus::Consolidated {
                        let c = m.consensus.remove(&a).is_some();
                        o.label_if(c, "a session in consensus closed");
                    }
                    if gone && inbound {
                        let left = m.inb_u.keys().chain(m.inb_c.keys()).any(|x| network(x, m.bits) == network(&a, m.bits));
                        o.label_if(left, "an inbound session closed, with another one from its network");
                    }
                    if gone { "done" } else { "not there" }
                };
                ("unregister", kind(s.unregister_session(kind_of, status, a)), want)
            }
            8 => {
                let want = match m.out_c.get(&a) {
                    None => "not consolidated",
                    // Never more than the consolidated ones, so the limit cannot bind before this.
                    Some(_) if m.consensus.contains_key(&a) => "already there",
                    Some(r) => {
                        m.consensus.insert(a, *r);
                        "done"
                    }
                };
                let got = kind(s.consensus_session(a));
                // A full list says so first.
                let got = if want == "already there" && got == "too many" && m.full(&m.consensus, true) { want } else { got };
                ("consensus", got, want)
            }
            _ => {
                let want = if m.consensus.remove(&a).is_some() { "done" } else { "not there" };
                ("no consensus", kind(s.unconsensus_session(a)), want)
            }
        };
        log.push_str(&format!("{what} {kind_of:?} {status:?} {a} -> {got}; "));
        ensure_eq!(got, want, "{log}");
        refused += u32::from(got != "done");
        compare(&s, &m, &pool).map_err(|e| format!("{e}\nafter {log}"))?;
        ensure!(m.consensus.keys().all(|a| m.out_c.contains_key(a)), "model");
    }
    o.nontrivial_if(n - refused >= 5 && n >= 8);
    o.label_if(guard, "one inbound session per network");
    o.label_if(evicted, "a session dropped as it could not be consolidated");
    o.label_if(!m.consensus.is_empty(), "some sessions in consensus");
    o.label_if(m.limits.is_some_and(|(i, u)| m.inb_c.len() == usize::from(i) || m.out_c.len() == usize::from(u)), "full");
    o.show(|| format!("/{} limits {:?}: {log}", m.bits, m.limits));
    Ok(())
}

fn ranges(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let bits = if t.bool() { t.below(34) as u8 } else { t.u8() };
    let size = 1 + t.below(12);
    let mut pool = addr::pool(&mut t, size);
    // Neighbours, one bit away.
    for k in 0..pool.len() {
        if let SocketAddr::V4(a) = pool[k] {
            let n = Ipv4Addr::from(u32::from(*a.ip()) ^ 1 << t.below(32));
            pool.push(SocketAddr::new(n.into(), a.port()));
        }
    }
    let mut c = NetworkRangesCollection::default();
    c.set_range_limit(bits);
    let mut m = std::collections::BTreeSet::new();
    let mut known = 0;
    for a in &pool {
        let n = network(a, bits);
        ensure_eq!(get_range_address(a, bits), n, "range of {a} at /{bits}");
        ensure_eq!(c.contains_address(a).copied(), m.contains(&n).then_some(n), "{a} at /{bits}");
        ensure_eq!(c.contains_range(n).is_some(), m.contains(&n), "range {n:?}");
        if t.odds(160) {
            known += usize::from(m.contains(&n));
            ensure_eq!(c.insert_address(a), m.insert(n), "inserting {a} at /{bits}");
        } else {
            ensure_eq!(c.remove_address(a), m.remove(&n), "removing {a} at /{bits}");
        }
        for x in &pool {
            let n = network(x, bits);
            ensure_eq!(c.contains_address(x).is_some(), m.contains(&n), "{x} at /{bits}");
        }
    }
    o.nontrivial_if(known > 0 && bits > 0 && bits <= 32);
    o.show(|| format!("/{bits}: {pool:?}"));
    Ok(())
}

/// Chances of every session to be picked.
fn fair(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut s = Sessions::<u32>::default();
    let size = 1 + t.below(7);
    let pool = addr::pool(&mut t, size);
    let mut safe = vec![];
    for (k, a) in pool.iter().enumerate() {
        s.register_session(SessionType::Outbound, *a, k as u32).map_err(|e| e.to_string())?;
        s.consolidate_session(SessionType::Outbound, *a).map_err(|e| e.to_string())?;
        if t.bool() {
            s.consensus_session(*a).map_err(|e| e.to_string())?;
            safe.push(k as u32);
        }
    }
    for (safu, from) in [(false, (0..pool.len() as u32).collect()), (true, safe)] {
        // A session of eight escapes 400 draws once in 10^23.
        let mut seen: Vec<u32> = (0..400).filter_map(|_| s.get_random_anycast_session(safu)).collect();
        seen.sort_unstable();
        seen.dedup();
        ensure_eq!(seen, from, "sessions picked, in consensus only: {safu}");
    }
    o.nontrivial_if(pool.len() > 1);
    Ok(())
}

pub fn c35(c: &mut Check) {
    c.assume("the node registers, consolidates and unregisters sessions as its actors' messages arrive; the actors themselves do not build here");
    c.sub(
        "a history of sessions opened, consolidated, put in consensus and closed, against a model",
        "at least eight operations, five of them done",
        6000,
        60_000,
        || long_tapes(320),
        history,
    );
    c.sub("networks of addresses, and a set of them", "a network known already", 4000, 40_000, || long_tapes(160), ranges);
    c.sub("every session has a chance to be picked", "two or more sessions", 400, 4000, || long_tapes(80), fair);
    let _ = Tape::left;
}
