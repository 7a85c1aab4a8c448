//! T20: address helpers against a model.
use crate::{judge::R, traffic::wrap};
use std::{
    iter::FromIterator,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    secio::{PeerId, SecioKeyPair},
    utils::{dns::DNSResolver, extract_peer_id, is_reachable, multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

/// blocks nobody reaches from outside
const V4: &[(u32, u32)] = &[
    (0x0a00_0000, 8),
    (0xac10_0000, 12),
    (0xc0a8_0000, 16),
    (0x7f00_0000, 8),
    (0xa9fe_0000, 16),
    (0xffff_ffff, 32),
    (0xc000_0200, 24),
    (0xc633_6400, 24),
    (0xcb00_7100, 24),
    (0, 32),
];
const V6: &[(u128, u32)] = &[
    (1, 128),
    (0, 128),
    (0xfe80 << 112, 10),
    (0xfec0 << 112, 10),
    (0xfc00 << 112, 7),
    (0x2001_0db8 << 96, 32),
];

fn reach(ip: IpAddr) -> bool {
    match ip {
        IpAddr::V4(a) => {
            let a = u32::from(a) as u64;
            !V4.iter().any(|(b, l)| a >> (32 - l) == (*b as u64) >> (32 - l))
        }
        IpAddr::V6(a) => {
            let x = u128::from(a);
            if x >> 120 == 0xff {
                // multicast: only with global scope
                return (x >> 112) & 0xf == 0xe;
            }
            !V6.iter().any(|(b, l)| if *l == 128 { x == *b } else { x >> (128 - l) == b >> (128 - l) })
        }
    }
}

fn ip(r: &mut Rng) -> IpAddr {
    let near = |r: &mut Rng| *r.pick(&[0i64, -1, 1, 2, -2, 255, 256, -256]);
    if r.chance(1, 2) {
        let a = match r.below(4) {
            0 => r.next() as u32,
            _ => {
                let (b, l) = *r.pick(V4);
                // the edges of a block and somewhere in it
                let span = (1u64 << (32 - l)) - 1;
                let at = match r.below(4) {
                    0 => b as i64,
                    1 => b as i64 + span as i64,
                    2 => b as i64 + r.below(span + 1) as i64,
                    _ => (b as i64) ^ (1 << r.below(32)),
                };
                (at + near(r)) as u32
            }
        };
        IpAddr::V4(Ipv4Addr::from(a))
    } else {
        let any = |r: &mut Rng| (r.next() as u128) << 64 | r.next() as u128;
        let a = match r.below(6) {
            0 => any(r),
            1 => (0xffu128 << 120) | (any(r) >> 8),
            2 => (0x2000u128 << 112) | (any(r) >> 16),
            _ => {
                let (b, l) = *r.pick(V6);
                let span = if l == 128 { 0 } else { u128::MAX >> l };
                let at = match r.below(4) {
                    0 => b,
                    1 => b.wrapping_add(span),
                    2 => b.wrapping_add(any(r) & span),
                    _ => b ^ (1 << r.below(128)),
                };
                at.wrapping_add(near(r) as i128 as u128)
            }
        };
        IpAddr::V6(Ipv6Addr::from(a))
    }
}

#[derive(Clone, Debug, PartialEq)]
enum C {
    Ip(IpAddr),
    Dns(bool, String),
    Tcp(u16),
    Ws,
    Wss,
    Tls(String),
    Peer(Vec<u8>),
}

fn proto(c: &C) -> Protocol<'static> {
    match c.clone() {
        C::Ip(IpAddr::V4(a)) => Protocol::IP4(a),
        C::Ip(IpAddr::V6(a)) => Protocol::IP6(a),
        C::Dns(true, d) => Protocol::DNS4(d.into()),
        C::Dns(false, d) => Protocol::DNS6(d.into()),
        C::Tcp(p) => Protocol::TCP(p),
        C::Ws => Protocol::Ws,
        C::Wss => Protocol::Wss,
        C::Tls(s) => Protocol::TLS(s.into()),
        C::Peer(b) => Protocol::P2P(b.into()),
    }
}

/// a peer id is a multihash: sha2-256, 32 bytes
fn is_peer(b: &[u8]) -> bool {
    b.len() == 34 && b[0] == 0x12 && b[1] == 32
}

fn peer(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![0x12, 32];
    b.extend(r.bytes(32));
    b
}

fn port(r: &mut Rng) -> u16 {
    *r.pick(&[0u16, 1, 80, 255, 256, 1337, 32767, 32768, 65535, 4242])
}

fn comp(r: &mut Rng) -> C {
    match r.below(12) {
        0 | 1 => C::Ip(ip(r)),
        2..=4 => C::Tcp(port(r)),
        5 => C::Ws,
        6 => C::Wss,
        7 => C::Tls("example.org".into()),
        8 => {
            let a = ip(r);
            C::Dns(r.chance(1, 2), a.to_string())
        }
        _ => C::Peer(peer(r)),
    }
}

/// not a peer id
fn no_peer(r: &mut Rng) -> Vec<u8> {
    let mut b = peer(r);
    match r.below(5) {
        0 => b[0] = *r.pick(&[0x11, 0x13, 0x16]),
        1 => b.truncate(r.us(34)),
        2 => b.push(0),
        3 => b.extend_from_slice(&[1, 2, 3]),
        _ => b[1] = *r.pick(&[31, 33, 0, 0xa0]),
    }
    b
}

fn base58(b: &[u8]) -> String {
    const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut d: Vec<u32> = vec![];
    for x in b {
        let mut c = u32::from(*x);
        for y in d.iter_mut() {
            c += *y << 8;
            *y = c % 58;
            c /= 58;
        }
        while c > 0 {
            d.push(c % 58);
            c /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    std::iter::repeat('1').take(zeros).chain(d.iter().rev().map(|x| A[*x as usize] as char)).collect()
}

fn list(r: &mut Rng) -> Vec<C> {
    let mut v = vec![];
    if r.chance(1, 2) {
        // as they are used
        let a = ip(r);
        v.push(if r.chance(1, 3) { C::Dns(a.is_ipv4(), a.to_string()) } else { C::Ip(a) });
        v.push(C::Tcp(port(r)));
        match r.below(5) {
            0 => v.push(C::Ws),
            1 => v.push(C::Wss),
            _ => (),
        }
        if r.chance(1, 2) {
            v.insert(if r.chance(1, 4) { 0 } else { v.len() }, C::Peer(peer(r)));
        }
        if r.chance(1, 4) {
            let i = r.us(v.len() + 1);
            v.insert(i, comp(r));
        }
    } else {
        for _ in 0..r.us(7) {
            v.push(comp(r));
        }
    }
    v
}

/// `f` of the first component that is directly followed by a port; None if it cannot be told
fn before_port<T>(l: &[C], f: impl Fn(&C) -> Option<T>) -> Option<Option<(T, u16)>> {
    for (i, c) in l.iter().enumerate() {
        if let Some(x) = f(c) {
            match l.get(i + 1) {
                Some(C::Tcp(p)) => return Some(Some((x, *p))),
                // two of them in a row: which one is meant is nowhere said
                Some(d) if f(d).is_some() => return None,
                _ => (),
            }
        }
    }
    Some(None)
}

fn t20_one(seed: u64, rt: &mut tokio::runtime::Runtime) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    for _ in 0..400 {
        let a = ip(r);
        // (an IPv4 address in IPv6 clothes is neither here nor there)
        let mapped = if let IpAddr::V6(v) = a { u128::from(v) >> 32 == 0xffff } else { false };
        if !mapped && is_reachable(a) != reach(a) {
            return violation("reachable", format!("is_reachable({}) is {}", a, is_reachable(a)));
        }
        acc.add(if reach(a) { "reachable" } else { "not reachable" }, 1);
        let s = SocketAddr::new(a, r.next() as u16);
        let m = socketaddr_to_multiaddr(s);
        let want = Multiaddr::from_iter(vec![proto(&C::Ip(a)), Protocol::TCP(s.port())]);
        if m != want {
            return violation("to-multiaddr", format!("{} became {}", s, m));
        }
        if multiaddr_to_socketaddr(&m) != Some(s) {
            return violation("round-trip", format!("{} became {:?}", s, multiaddr_to_socketaddr(&m)));
        }
        acc.add("round trips", 1);
    }
    for k in 0..200 {
        let l = list(r);
        let m = Multiaddr::from_iter(l.iter().map(proto));
        if let Some(w) = before_port(&l, |c| if let C::Ip(a) = c { Some(*a) } else { None }) {
            let w = w.map(|(a, p)| SocketAddr::new(a, p));
            let g = multiaddr_to_socketaddr(&m);
            if g != w {
                return violation("socket", format!("multiaddr_to_socketaddr({}) is {:?}, expected {:?}", m, g, w));
            }
            acc.add(if w.is_some() { "sockets" } else { "no sockets" }, 1);
        }
        let id = l.iter().find_map(|c| match c {
            C::Peer(b) if is_peer(b) => Some(b.clone()),
            _ => None,
        });
        let g = extract_peer_id(&m);
        if g.as_ref().map(|p| p.as_bytes().to_vec()) != id {
            return violation("peer-id", format!("extract_peer_id({}) is {:?}", m, g));
        }
        acc.add(if id.is_some() { "peer ids" } else { "no peer ids" }, 1);
        let dns = match before_port(&l, |c| if let C::Dns(_, d) = c { Some(d.clone()) } else { None }) {
            Some(d) => d,
            None => continue,
        };
        let g = DNSResolver::new(m.clone());
        if g.is_some() != dns.is_some() {
            return violation("dns", format!("DNSResolver::new({}) is {}", m, if g.is_some() { "some" } else { "none" }));
        }
        acc.add(if g.is_some() { "names" } else { "no names" }, 1);
        if let (Some(f), Some((d, p)), true) = (g, dns, k % 10 == 0) {
            // names that are addresses need no server
            let mut w = vec![C::Ip(d.parse().unwrap()), C::Tcp(p)];
            if let Some(C::Ws) | Some(C::Wss) = l.iter().find(|c| matches!(c, C::Ws | C::Wss | C::Tls(_))) {
                w.push(l.iter().find(|c| matches!(c, C::Ws | C::Wss)).unwrap().clone());
            }
            if let Some(b) = id {
                w.push(C::Peer(b));
            }
            let w = Multiaddr::from_iter(w.iter().map(proto));
            match rt.block_on(f) {
                Ok(x) if x == w => acc.add("resolved", 1),
                x => return violation("resolved", format!("{} resolved to {:?}, expected {}", m, x, w)),
            }
        }
    }
    // names that do not resolve give the address back
    if r.chance(1, 10) {
        let m: Multiaddr = format!("/dns4/{}/tcp/80", r.pick(&["no name", "a b", "256.256.256.256.256"])).parse().unwrap();
        match rt.block_on(DNSResolver::new(m.clone()).unwrap()) {
            Err((x, _)) if x == m => acc.add("unresolved", 1),
            x => return violation("unresolved", format!("{} resolved to {:?}", m, x)),
        }
    }
    // ids
    for _ in 0..50 {
        let b = if r.chance(1, 2) { peer(r) } else { no_peer(r) };
        let text = base58(&b);
        let (x, y) = (PeerId::from_bytes(b.clone()).ok(), text.parse::<PeerId>().ok());
        if x != y || x.is_some() != is_peer(&b) || x.as_ref().map_or(false, |x| x.as_bytes() != &b[..] || x.to_base58() != text) {
            return violation("id", format!("bytes {:?} give {:?}, their text gives {:?}", b, x, y));
        }
        acc.add(if x.is_some() { "ids" } else { "no ids" }, 1);
    }
    let k = SecioKeyPair::secp256k1_generated();
    let id = k.peer_id();
    let m: Multiaddr = format!("/ip4/1.2.3.4/tcp/5/p2p/{}", id.to_base58()).parse().unwrap();
    if extract_peer_id(&m).as_ref() != Some(&id) || PeerId::from_public_key(&k.public_key()) != id {
        return violation("key-id", format!("{} of a key is not found again in {}", id.to_base58(), m));
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t20(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "random addresses at and around the borders of every special block, random ports and random lists of components: both conversions, extraction of socket and peer id, names, and reachability compared with a model written from the address blocks".into(),
            assumptions: vec!["IPv4-mapped IPv6 addresses and addresses with two ips or two names in a row are left open".into()],
            cases: ctx.q(10_000, 500_000),
            budget_s: ctx.q(15, 300),
            threads: 8,
            must_see: vec!["reachable", "not reachable", "round trips", "sockets", "no sockets", "peer ids", "no peer ids", "names", "ids", "no ids", "resolved", "unresolved"],
        },
        |seed, _| {
            thread_local!(static RT: std::cell::RefCell<tokio::runtime::Runtime> = std::cell::RefCell::new(tokio::runtime::Builder::new().basic_scheduler().enable_all().build().unwrap()));
            RT.with(|rt| wrap(|| t20_one(seed, &mut rt.borrow_mut())))
        },
    )
}
