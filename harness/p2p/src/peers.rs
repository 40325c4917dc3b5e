//! C36: the addresses of other nodes that a node knows of.
use crate::addr;
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, SocketAddr};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use vpkit::{
    Check, Obs, ensure, ensure_eq,
    tape::{Bytes, Tape, long_tapes},
};
use witnet_p2p::peers::{PeerInfo, Peers, calculate_index_for_new, calculate_index_for_tried, split_socket_addresses};

type R = Result<(), String>;

fn last(parts: &[&[u8]]) -> u8 {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize()[31]
}
fn octets(a: &SocketAddr) -> Vec<u8> {
    match a.ip() {
        IpAddr::V4(i) => i.octets().to_vec(),
        IpAddr::V6(i) => i.octets().to_vec(),
    }
}
/// (address, its network, the host and its port)
fn split(a: &SocketAddr) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let ip = octets(a);
    let (net, host) = ip.split_at(ip.len() / 2);
    let mut host = host.to_vec();
    host.extend(a.port().to_be_bytes());
    (ip.clone(), net.to_vec(), host)
}
fn tried_slot(sk: u64, a: &SocketAddr) -> u16 {
    let sk = sk.to_be_bytes();
    let (ip, net, host) = split(a);
    let i = last(&[&sk, &ip]) % 4;
    let bucket = u16::from(last(&[&sk, &net, &[i]]) % 64);
    let slot = u16::from(last(&[&sk, &host, &[i]]) % 64);
    bucket * 64 + slot
}
fn new_slot(sk: u64, a: &SocketAddr, src: &SocketAddr) -> u16 {
    let sk = sk.to_be_bytes();
    let (_, net, host) = split(a);
    let (_, src_net, _) = split(src);
    let i = last(&[&sk, &src_net, &net]) % 32;
    let bucket = u16::from(last(&[&sk, &src_net, &[i]]));
    let slot = u16::from(last(&[&sk, &host, &[i]]) % 64);
    bucket * 64 + slot
}

fn slots(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let sk = t.u64();
    let (a, src) = (addr::any(&mut t), addr::any(&mut t));
    let p = Peers { sk, ..Peers::default() };
    let (ip, net, host) = split(&a);
    ensure_eq!(split_socket_addresses(&a), (ip.clone(), net.clone(), host.clone()), "parts of {a}");
    ensure_eq!(p.tried_bucket_index(&a), tried_slot(sk, &a), "slot of {a}, tried");
    ensure_eq!(p.new_bucket_index(&a, &src), new_slot(sk, &a, &src), "slot of {a} from {src}, new");
    ensure_eq!(calculate_index_for_tried(sk, &ip, &net, &host), tried_slot(sk, &a), "slot of {a}, tried");
    ensure_eq!(calculate_index_for_new(sk, &split(&src).1, &net, &host), new_slot(sk, &a, &src), "slot of {a} from {src}, new");
    o.nontrivial_if(net != split(&src).1);
    Ok(())
}

/// Nobody fills the book from one network.
fn spread(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let p = Peers { sk: t.u64(), ..Peers::default() };
    let net = t.u16();
    let at = |h: u16, port: u16| SocketAddr::new(IpAddr::V4((u32::from(net) << 16 | u32::from(h)).into()), port);
    let src = addr::any(&mut t);
    let mut tried = BTreeSet::new();
    let mut new = BTreeSet::new();
    let mut from_one = BTreeSet::new();
    for _ in 0..400 {
        let (h, port) = (t.u16().wrapping_mul(40_503).wrapping_add(t.u16()), t.u16());
        let (h, port) = (h.wrapping_add(tried.len() as u16 * 7), port.wrapping_add(new.len() as u16));
        tried.insert(p.tried_bucket_index(&at(h, port)) / 64);
        new.insert(p.new_bucket_index(&at(h, port), &src) / 64);
        let other = SocketAddr::new(IpAddr::V4((t.u32() ^ u32::from(h) << 16).into()), port);
        from_one.insert(p.new_bucket_index(&other, &src) / 64);
    }
    ensure!(tried.len() <= 4, "addresses of one network are in {} tried buckets", tried.len());
    ensure!(new.len() <= 1, "addresses of one network, from one source, are in {} new buckets", new.len());
    ensure!(from_one.len() <= 32, "addresses from one source are in {} new buckets", from_one.len());
    o.nontrivial_if(tried.len() >= 3 && from_one.len() >= 8);
    Ok(())
}

struct Model {
    sk: u64,
    server: SocketAddr,
    period: i64,
    bootstrapped: bool,
    new: BTreeMap<u16, SocketAddr>,
    tried: BTreeMap<u16, SocketAddr>,
    ice: BTreeMap<SocketAddr, i64>,
}
impl Model {
    fn period(&self) -> i64 {
        if self.bootstrapped { self.period } else { 1800 }
    }
    /// Whether an address is kept away from; one that no longer needs to is forgotten.
    fn iced(&mut self, a: &SocketAddr, now: i64) -> bool {
        match self.ice.get(a) {
            None => false,
            Some(t) if *t < now.saturating_sub(self.period()) => {
                self.ice.remove(a);
                false
            }
            Some(_) => true,
        }
    }
}
fn clock() -> i64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64)
}
fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

fn compare(p: &Peers, m: &Model, since: i64) -> R {
    let of = |b: &std::collections::HashMap<u16, PeerInfo>| b.iter().map(|(k, v)| (*k, v.address)).collect::<BTreeMap<_, _>>();
    ensure_eq!(of(&p.new_bucket), m.new, "new");
    ensure_eq!(of(&p.tried_bucket), m.tried, "tried");
    ensure_eq!(p.ice_bucket.iter().map(|(k, v)| (*k, (*v - m.ice.get(k).copied().unwrap_or(0)).abs() <= 60)).collect::<BTreeMap<_, _>>(), m.ice.keys().map(|k| (*k, true)).collect::<BTreeMap<_, _>>(), "on ice");
    for i in p.new_bucket.values().chain(p.tried_bucket.values()) {
        ensure!(i.timestamp >= since && i.timestamp <= clock(), "{} was added at {}, and it is {}", i.address, i.timestamp, clock());
    }
    for k in 0..8u16 {
        for k in m.new.keys().chain(m.tried.keys()).copied().chain([k * 509]) {
            ensure_eq!(p.new_bucket_contains(k), m.new.contains_key(&k), "new {k}");
            ensure_eq!(p.tried_bucket_contains(k), m.tried.contains_key(&k), "tried {k}");
            ensure_eq!(p.new_bucket_get_address(k), m.new.get(&k).copied(), "new {k}");
            ensure_eq!(p.tried_bucket_get_address(k), m.tried.get(&k).copied(), "tried {k}");
            ensure_eq!(p.new_bucket_get_timestamp(k), p.new_bucket.get(&k).map(|i| i.timestamp), "new {k}");
            ensure_eq!(p.tried_bucket_get_timestamp(k), p.tried_bucket.get(&k).map(|i| i.timestamp), "tried {k}");
        }
    }
    fn all<E: std::fmt::Debug>(r: Result<Vec<SocketAddr>, E>) -> Result<Vec<SocketAddr>, String> {
        r.map(sorted).map_err(|e| format!("{e:?}"))
    }
    ensure_eq!(all(p.get_all_from_new())?, sorted(m.new.values().copied().collect()), "all the new ones");
    ensure_eq!(all(p.get_all_from_tried())?, sorted(m.tried.values().copied().collect()), "all the tried ones");
    match p.get_new_random_peer() {
        None => ensure!(m.new.is_empty(), "no new address picked out of {:?}", m.new),
        Some((k, a)) => ensure_eq!(m.new.get(&k), Some(&a), "a new address, picked"),
    }
    Ok(())
}

fn random(p: &Peers, m: &Model, n: usize) -> R {
    let r = p.get_random_peers(n).map_err(|e| e.to_string())?;
    ensure_eq!(r.len(), n.min(m.new.len() + m.tried.len()), "{n} wanted of {} new and {} tried", m.new.len(), m.tried.len());
    // Every slot at most once.
    let mut left: Vec<SocketAddr> = m.new.values().chain(m.tried.values()).copied().collect();
    for a in r {
        let Some(k) = left.iter().position(|x| *x == a) else {
            return Err(format!("{a} picked, one time too many"));
        };
        left.swap_remove(k);
    }
    Ok(())
}

fn history(b: &Bytes, o: &mut Obs) -> R {
    let since = clock();
    let mut t = b.tape();
    let mut m = Model {
        sk: t.u64(),
        server: addr::any(&mut t),
        period: i64::from(*t.pick(&[60u32, 1800, 0, 14_400, 100_000])),
        bootstrapped: t.bool(),
        new: BTreeMap::new(),
        tried: BTreeMap::new(),
        ice: BTreeMap::new(),
    };
    let mut p = Peers {
        sk: m.sk,
        server_address: m.server,
        ice_period: Duration::from_secs(m.period as u64),
        bootstrapped: m.bootstrapped,
        ..Peers::default()
    };
    let size = 3 + t.below(16);
    let mut pool = addr::pool(&mut t, size);
    if t.bool() && !pool.contains(&m.server) {
        pool.push(m.server);
    }
    // Some pairs share a slot.
    if t.bool() {
        let a = pool[0];
        let twin = (0..30_000u32)
            .map(|k| SocketAddr::new(IpAddr::V4((0x0b00_0000 + k * 65_537).into()), 21_337))
            .find(|x| tried_slot(m.sk, x) == tried_slot(m.sk, &a) && *x != a);
        if let Some(x) = twin {
            o.label("two addresses with the same slot");
            pool.insert(1, x);
        }
    }
    let mut log = String::new();
    let (mut n, mut ignored, mut replaced) = (0u32, 0u32, 0u32);
    while t.left() > 0 {
        n += 1;
        let now = clock();
        let a = *t.pick(&pool);
        match t.below(14) {
            0..=2 => {
                let list: Vec<SocketAddr> = (0..t.below(5)).map(|_| *t.pick(&pool)).collect();
                let src = t.bool().then(|| *t.pick(&pool));
                let mut want = vec![];
                for x in &list {
                    if x.ip().is_unspecified() || *x == m.server || m.iced(x, now) || m.tried.get(&tried_slot(m.sk, x)) == Some(x) {
                        ignored += 1;
                        continue;
                    }
                    want.extend(m.new.insert(new_slot(m.sk, x, &src.unwrap_or(*x)), *x));
                }
                replaced += want.len() as u32;
                log.push_str(&format!("new {list:?} from {src:?}; "));
                let got = p.add_to_new(list, src).map_err(|e| e.to_string())?;
                ensure_eq!(got, want, "replaced\nafter {log}");
            }
            3..=5 => {
                let want = if a.ip().is_unspecified() || m.iced(&a, now) {
                    ignored += 1;
                    None
                } else {
                    m.tried.insert(tried_slot(m.sk, &a), a)
                };
                log.push_str(&format!("tried {a}; "));
                replaced += u32::from(want.is_some());
                ensure_eq!(p.add_to_tried(a).map_err(|e| e.to_string())?, want, "replaced\nafter {log}");
            }
            6 => {
                let list: Vec<SocketAddr> = (0..1 + t.below(3)).map(|_| *t.pick(&pool)).collect();
                let ice = t.bool();
                let mut want = vec![];
                for x in &list {
                    if ice {
                        m.ice.insert(*x, now);
                    }
                    let k = tried_slot(m.sk, x);
                    if m.tried.get(&k) == Some(x) {
                        m.tried.remove(&k);
                        want.push(*x);
                    }
                }
                log.push_str(&format!("not tried {list:?} ice {ice}; "));
                ensure_eq!(p.remove_from_tried(&list, ice), want, "removed\nafter {log}");
            }
            7 => {
                let keys: Vec<u16> = m.new.keys().copied().collect();
                let list: Vec<u16> = (0..1 + t.below(3)).map(|_| if keys.is_empty() { t.u16() } else { *t.pick(&keys) }).collect();
                let want: Vec<SocketAddr> = list.iter().filter_map(|k| m.new.remove(k)).collect();
                log.push_str(&format!("not new {list:?}; "));
                ensure_eq!(p.remove_from_new_with_index(&list), want, "removed\nafter {log}");
            }
            8 | 9 => {
                // Well away from the end of the period, or just at it.
                let when = match t.below(4) {
                    0 => now - m.period() - 30,
                    1 => now - m.period() + 50,
                    2 => i64::MIN,
                    _ => now,
                };
                p.ice_peer_address_pure(&a, when);
                m.ice.insert(a, when);
                log.push_str(&format!("ice {a} since {}; ", when.saturating_sub(now)));
                // Exactly at the end of the period, for a clock of the check's own.
                if when > 0 {
                    let at = when + m.period() + t.below(3) as i64 - 1;
                    let want = m.iced(&a, at);
                    ensure_eq!(p.ice_bucket_contains_pure(&a, at), want, "on ice, {} seconds into {}\nafter {log}", at - when, m.period());
                    o.label_if(at == when + m.period(), "the last second of the ice period");
                }
            }
            10 => {
                let want = m.iced(&a, now);
                ensure_eq!(p.ice_bucket_contains(&a), want, "on ice\nafter {log}");
            }
            11 => {
                let limit = now.saturating_sub(m.period());
                let want: Vec<SocketAddr> = m.ice.iter().filter(|(_, w)| **w < limit).map(|(a, _)| *a).collect();
                m.ice.retain(|_, w| *w >= limit);
                o.label_if(!want.is_empty() && !m.ice.is_empty(), "some addresses off the ice and some on it");
                log.push_str("melt; ");
                ensure_eq!(sorted(p.extract_melted_peers_from_ice_bucket()), want, "off the ice\nafter {log}");
            }
            12 => match t.below(8) {
                0 => {
                    p.clear_new_bucket();
                    m.new.clear();
                    log.push_str("clear new; ");
                }
                1 => {
                    p.clear_tried_bucket();
                    m.tried.clear();
                    log.push_str("clear tried; ");
                }
                2 => {
                    p.clear_ice_bucket();
                    m.ice.clear();
                    log.push_str("clear ice; ");
                }
                3 => {
                    p.bootstrapped = true;
                    m.bootstrapped = true;
                    log.push_str("bootstrapped; ");
                }
                4..=6 => {
                    let list: Vec<SocketAddr> = (0..1 + t.below(3)).map(|_| *t.pick(&pool)).collect();
                    for x in &list {
                        m.ice.remove(x);
                    }
                    log.push_str(&format!("off ice {list:?}; "));
                    p.remove_many_from_ice(&list);
                }
                _ => {
                    // Stopped and started again.
                    log.push_str("restart; ");
                    let bytes = bincode::serialize(&p).map_err(|e| e.to_string())?;
                    p = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
                    p.ice_period = Duration::from_secs(m.period as u64);
                    ensure!(p.sk == m.sk && p.server_address == m.server && p.bootstrapped == m.bootstrapped, "restart");
                }
            },
            _ => {
                let k = t.below(2 + m.new.len() + m.tried.len());
                random(&p, &m, k).map_err(|e| format!("{e}\nafter {log}"))?;
                random(&p, &m, usize::MAX).map_err(|e| format!("{e}\nafter {log}"))?;
            }
        }
        if now != clock() {
            // Close to the turn of a second, a period could end in between.
            o.label("the clock ticked");
        }
        compare(&p, &m, since).map_err(|e| format!("{e}\nafter {log}"))?;
        ensure_eq!(p.current_ice_period(), m.period(), "ice period");
        ensure_eq!(p.is_server_address(&a), a == m.server, "server address");
        let text = p.to_string();
        ensure!(m.new.values().chain(m.tried.values()).chain(m.ice.keys()).all(|a| text.contains(&a.to_string())), "{text}");
    }
    o.nontrivial_if(n >= 8 && ignored > 0 && m.tried.len() + m.new.len() >= 2);
    o.label_if(replaced > 0, "an address replaced another");
    o.label_if(ignored > 0, "an address ignored");
    o.show(|| log.clone());
    Ok(())
}

/// Random picks come from both buckets, and every address has a chance.
fn fair(b: &Bytes, o: &mut Obs) -> R {
    let mut t = b.tape();
    let mut p = Peers { sk: t.u64(), ..Peers::default() };
    let size = 2 + t.below(8);
    for (k, a) in addr::pool(&mut t, size).into_iter().enumerate() {
        let i = PeerInfo { address: a, timestamp: 0 };
        if t.bool() { &mut p.new_bucket } else { &mut p.tried_bucket }.insert(k as u16, i);
    }
    let all: BTreeSet<SocketAddr> = p.new_bucket.values().chain(p.tried_bucket.values()).map(|i| i.address).collect();
    let want = 1 + t.below(all.len());
    let mut seen = BTreeSet::new();
    for _ in 0..600 {
        let r = p.get_random_peers(want).map_err(|e| e.to_string())?;
        ensure_eq!(r.len(), want, "picked");
        seen.extend(r);
    }
    ensure_eq!(seen, all, "picked in 600 draws of {want}");
    o.nontrivial_if(!p.new_bucket.is_empty() && !p.tried_bucket.is_empty() && want < all.len());
    Ok(())
}

pub fn c36(c: &mut Check) {
    c.assume("times are taken from the clock of the machine, so the exact end of the ice period is checked through the function that takes a time");
    c.sub(
        "a history of addresses added, tried, iced, melted and removed, against a model",
        "eight operations or more, an address ignored and two known at the end",
        3000,
        30_000,
        || long_tapes(260),
        history,
    );
    c.sub("the slot of an address, against its definition", "from another network", 20_000, 200_000, || long_tapes(40), slots);
    c.sub("buckets that addresses of one network and of one source can reach", "three of the four and eight of the 32", 60, 600, || long_tapes(3600), spread);
    c.sub("every address has a chance to be picked", "new and tried ones, not all wanted", 100, 1000, || long_tapes(100), fair);
    let _ = Tape::left;
}
