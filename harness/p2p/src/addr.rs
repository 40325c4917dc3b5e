//! Addresses that share hosts, networks and ports often.
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use vpkit::tape::Tape;

pub fn any(t: &mut Tape) -> SocketAddr {
    let port = match t.below(4) {
        0 => 21337,
        1 => 21338,
        2 => t.u16(),
        _ => 0,
    };
    let ip = match t.below(8) {
        0 | 1 => Ipv4Addr::new(10, 0, 0, t.below(4) as u8).into(),
        2 => Ipv4Addr::new(10, 0, t.below(3) as u8, 1).into(),
        3 => Ipv4Addr::new(10, *t.pick(&[0, 1, 64, 128, 255]), *t.pick(&[0, 63, 64, 127, 128, 192]), 1).into(),
        4 => Ipv4Addr::from(u32::from(t.u16()) << 16 | u32::from(t.u16())).into(),
        5 => Ipv4Addr::from(1u32 << t.below(32)).into(),
        6 => IpAddr::V6(Ipv6Addr::new(0x2001, 0xdb8, 0, t.below(2) as u16, t.below(2) as u16, 0, 0, t.below(4) as u16)),
        _ => {
            if t.bool() {
                Ipv4Addr::UNSPECIFIED.into()
            } else {
                IpAddr::V6(Ipv6Addr::UNSPECIFIED)
            }
        }
    };
    SocketAddr::new(ip, port)
}

/// A pool of different addresses.
pub fn pool(t: &mut Tape, n: usize) -> Vec<SocketAddr> {
    let mut v: Vec<SocketAddr> = vec![];
    for _ in 0..n {
        let a = any(t);
        if !v.contains(&a) {
            v.push(a);
        }
    }
    v
}
