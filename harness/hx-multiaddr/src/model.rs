//! Independent model of addresses: a plain list of components with its own byte and text
//! forms.
use std::{
    borrow::Cow,
    net::{Ipv4Addr, Ipv6Addr},
};
use tentacle_multiaddr::{Multiaddr, Protocol};
use vcommon::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum C {
    Dns4(String),
    Dns6(String),
    Ip4([u8; 4]),
    Ip6([u8; 16]),
    P2p([u8; 32]),
    Tcp(u16),
    Tls(String),
    Ws,
    Wss,
}

fn var(mut n: u64, o: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}

fn named(code: u64, s: &[u8], o: &mut Vec<u8>) {
    var(code, o);
    var(s.len() as u64, o);
    o.extend_from_slice(s);
}

pub fn hash_bytes(h: &[u8; 32]) -> Vec<u8> {
    let mut v = vec![0x12, 32];
    v.extend_from_slice(h);
    v
}

pub fn enc(l: &[C]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in l {
        match c {
            C::Dns4(s) => named(0x36, s.as_bytes(), &mut o),
            C::Dns6(s) => named(0x37, s.as_bytes(), &mut o),
            C::Tls(s) => named(0x1c0, s.as_bytes(), &mut o),
            C::Ip4(a) => {
                o.push(4);
                o.extend_from_slice(a)
            }
            C::Ip6(a) => {
                o.push(0x29);
                o.extend_from_slice(a)
            }
            C::P2p(h) => named(0x1a5, &hash_bytes(h), &mut o),
            C::Tcp(p) => {
                o.push(6);
                o.push((p >> 8) as u8);
                o.push(*p as u8)
            }
            C::Ws => var(0x1dd, &mut o),
            C::Wss => var(0x1de, &mut o),
        }
    }
    o
}

/// Shortest-form varint of at most 64 bit.
fn unvar(b: &[u8]) -> Option<(u64, &[u8])> {
    let mut n: u64 = 0;
    for (i, x) in b.iter().enumerate() {
        if i > 8 {
            return None;
        }
        n |= u64::from(x & 0x7f) << (7 * i);
        if x & 0x80 == 0 {
            if i > 0 && *x == 0 {
                return None;
            }
            return Some((n, &b[i + 1..]));
        }
    }
    None
}

pub fn dec(mut b: &[u8]) -> Option<Vec<C>> {
    let mut o = Vec::new();
    while !b.is_empty() {
        let (code, rest) = unvar(b)?;
        b = rest;
        let fixed = match code {
            4 => Some(4),
            0x29 => Some(16),
            6 => Some(2),
            0x1dd | 0x1de => Some(0),
            0x36 | 0x37 | 0x1c0 | 0x1a5 => None,
            _ => return None,
        };
        let n = match fixed {
            Some(n) => n,
            None => {
                let (n, rest) = unvar(b)?;
                b = rest;
                n
            }
        };
        if (b.len() as u64) < n {
            return None;
        }
        let (d, rest) = b.split_at(n as usize);
        b = rest;
        let name = || {
            let s = std::str::from_utf8(d).ok()?;
            if s.contains('/') {
                return None;
            }
            Some(s.to_owned())
        };
        o.push(match code {
            4 => {
                let mut a = [0; 4];
                a.copy_from_slice(d);
                C::Ip4(a)
            }
            0x29 => {
                let mut a = [0; 16];
                a.copy_from_slice(d);
                C::Ip6(a)
            }
            6 => C::Tcp(u16::from(d[0]) << 8 | u16::from(d[1])),
            0x1dd => C::Ws,
            0x1de => C::Wss,
            0x36 => C::Dns4(name()?),
            0x37 => C::Dns6(name()?),
            0x1c0 => C::Tls(name()?),
            _ => {
                if d.len() != 34 || d[0] != 0x12 || d[1] != 32 {
                    return None;
                }
                let mut a = [0; 32];
                a.copy_from_slice(&d[2..]);
                C::P2p(a)
            }
        });
    }
    Some(o)
}

const ABC: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58(d: &[u8]) -> String {
    let mut num: Vec<u32> = Vec::new(); // base 58, little endian
    for x in d {
        let mut carry = u32::from(*x);
        for v in num.iter_mut() {
            carry += *v << 8;
            *v = carry % 58;
            carry /= 58;
        }
        while carry > 0 {
            num.push(carry % 58);
            carry /= 58;
        }
    }
    let mut s: String = d.iter().take_while(|x| **x == 0).map(|_| '1').collect();
    s.extend(num.iter().rev().map(|v| ABC[*v as usize] as char));
    s
}

pub fn unb58(s: &str) -> Option<Vec<u8>> {
    let mut num: Vec<u32> = Vec::new(); // base 256, little endian
    for c in s.bytes() {
        let mut carry = ABC.iter().position(|x| *x == c)? as u32;
        for v in num.iter_mut() {
            carry += *v * 58;
            *v = carry & 0xff;
            carry >>= 8;
        }
        while carry > 0 {
            num.push(carry & 0xff);
            carry >>= 8;
        }
    }
    let mut o: Vec<u8> = s.bytes().take_while(|x| *x == b'1').map(|_| 0).collect();
    o.extend(num.iter().rev().map(|v| *v as u8));
    Some(o)
}

fn v6(a: &[u8; 16]) -> Ipv6Addr {
    Ipv6Addr::from(*a)
}

pub fn txt(l: &[C]) -> String {
    let mut o = String::new();
    for c in l {
        o.push_str(&match c {
            C::Dns4(s) => format!("/dns4/{}", s),
            C::Dns6(s) => format!("/dns6/{}", s),
            C::Tls(s) => format!("/tls/{}", s),
            C::Ip4(a) => format!("/ip4/{}.{}.{}.{}", a[0], a[1], a[2], a[3]),
            C::Ip6(a) => format!("/ip6/{}", v6(a)),
            C::P2p(h) => format!("/p2p/{}", b58(&hash_bytes(h))),
            C::Tcp(p) => format!("/tcp/{}", p),
            C::Ws => "/ws".to_owned(),
            C::Wss => "/wss".to_owned(),
        });
    }
    o
}

pub fn untxt(s: &str) -> Option<Vec<C>> {
    let parts: Vec<&str> = s.split('/').collect();
    if !parts[0].is_empty() {
        return None;
    }
    let mut i = 1;
    let mut o = Vec::new();
    while i < parts.len() {
        let k = parts[i];
        i += 1;
        match k {
            "ws" => {
                o.push(C::Ws);
                continue;
            }
            "wss" => {
                o.push(C::Wss);
                continue;
            }
            _ => {}
        }
        let v = parts.get(i);
        i += 1;
        o.push(match k {
            "dns4" => C::Dns4((*v?).to_owned()),
            "dns6" => C::Dns6((*v?).to_owned()),
            "tls" => C::Tls((*v?).to_owned()),
            "ip4" => C::Ip4(v?.parse::<Ipv4Addr>().ok()?.octets()),
            "ip6" => C::Ip6(v?.parse::<Ipv6Addr>().ok()?.octets()),
            "tcp" => C::Tcp(v?.parse().ok()?),
            "p2p" => {
                let d = unb58(v?)?;
                if d.len() != 34 || d[0] != 0x12 || d[1] != 32 {
                    return None;
                }
                let mut a = [0; 32];
                a.copy_from_slice(&d[2..]);
                C::P2p(a)
            }
            _ => return None,
        });
    }
    Some(o)
}

pub fn proto(c: &C) -> Protocol<'static> {
    match c {
        C::Dns4(s) => Protocol::DNS4(Cow::Owned(s.clone())),
        C::Dns6(s) => Protocol::DNS6(Cow::Owned(s.clone())),
        C::Tls(s) => Protocol::TLS(Cow::Owned(s.clone())),
        C::Ip4(a) => Protocol::IP4(Ipv4Addr::new(a[0], a[1], a[2], a[3])),
        C::Ip6(a) => Protocol::IP6(v6(a)),
        C::P2p(h) => Protocol::P2P(Cow::Owned(hash_bytes(h))),
        C::Tcp(p) => Protocol::TCP(*p),
        C::Ws => Protocol::Ws,
        C::Wss => Protocol::Wss,
    }
}

pub fn unproto(p: &Protocol) -> Result<C, String> {
    Ok(match p {
        Protocol::DNS4(s) => C::Dns4(s.to_string()),
        Protocol::DNS6(s) => C::Dns6(s.to_string()),
        Protocol::TLS(s) => C::Tls(s.to_string()),
        Protocol::IP4(a) => C::Ip4(a.octets()),
        Protocol::IP6(a) => C::Ip6(a.octets()),
        Protocol::P2P(d) => {
            if d.len() != 34 || d[0] != 0x12 || d[1] != 32 {
                return Err(format!("component with an invalid identity {:?}", d));
            }
            let mut a = [0; 32];
            a.copy_from_slice(&d[2..]);
            C::P2p(a)
        }
        Protocol::TCP(p) => C::Tcp(*p),
        Protocol::Ws => C::Ws,
        Protocol::Wss => C::Wss,
    })
}

pub fn comps(m: &Multiaddr) -> Result<Vec<C>, String> {
    m.iter().map(|p| unproto(&p)).collect()
}

fn name(r: &mut Rng) -> String {
    let n = match r.below(12) {
        0 => 0,
        1 => *r.pick(&[126, 127, 128, 129, 255, 256, 300]),
        2 if r.chance(1, 30) => *r.pick(&[16383, 16384, 20000]),
        _ => r.rus(1, 20),
    };
    match r.below(5) {
        0 => (*r.pick(&["ip4", "tcp", "ws", "localhost", "..", " ", "%2f", "\\", "\n", "\0", "dns4", "é", "日本"])).to_owned(),
        1 => {
            let mut s = String::new();
            while s.len() < n {
                let c = std::char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x');
                if c != '/' {
                    s.push(c);
                }
            }
            s
        }
        _ => {
            let ab = b"abcdefghijklmnopqrstuvwxyz0123456789.-_ABCXYZ:";
            (0..n).map(|_| *r.pick(ab) as char).collect()
        }
    }
}

pub fn comp(r: &mut Rng) -> C {
    match r.below(11) {
        0 => C::Dns4(name(r)),
        1 => C::Dns6(name(r)),
        2 => C::Tls(name(r)),
        3 | 4 => {
            let mut a = [0; 4];
            for x in a.iter_mut() {
                *x = if r.chance(1, 3) { *r.pick(&[0, 1, 127, 255, 0x80]) } else { r.next() as u8 };
            }
            C::Ip4(a)
        }
        5 => {
            let mut a = [0; 16];
            for x in a.iter_mut() {
                *x = if r.chance(1, 2) { 0 } else { r.next() as u8 };
            }
            if r.chance(1, 6) {
                for x in a.iter_mut().take(10) {
                    *x = 0;
                }
                a[10] = 0xff;
                a[11] = 0xff;
            }
            C::Ip6(a)
        }
        6 => {
            let mut a = [0; 32];
            for x in a.iter_mut() {
                *x = r.next() as u8;
            }
            if r.chance(1, 5) {
                let n = r.us(33);
                for x in a.iter_mut().take(n) {
                    *x = 0;
                }
            }
            C::P2p(a)
        }
        7 | 8 => C::Tcp(if r.chance(1, 3) { *r.pick(&[0, 1, 80, 255, 256, 0x8000, 65535]) } else { r.next() as u16 }),
        9 => C::Ws,
        _ => C::Wss,
    }
}

pub fn list(r: &mut Rng) -> Vec<C> {
    let n = match r.below(10) {
        0 => 0,
        1 => r.rus(8, 30),
        _ => r.rus(1, 7),
    };
    (0..n).map(|_| comp(r)).collect()
}

/// A list differing slightly from the given one, or the same.
pub fn near(r: &mut Rng, l: &[C]) -> Vec<C> {
    let mut l = l.to_vec();
    if l.is_empty() {
        if r.chance(1, 2) {
            l.push(comp(r));
        }
        return l;
    }
    let i = r.us(l.len());
    match r.below(8) {
        0 => {}
        1 => {
            l.remove(i);
        }
        2 => l.insert(i, comp(r)),
        3 => {
            let j = r.us(l.len());
            l.swap(i, j)
        }
        4 => {
            let c = l[i].clone();
            l.insert(i, c)
        }
        5 => {
            l[i] = match l[i].clone() {
                C::Dns4(s) => C::Dns6(s),
                C::Dns6(s) => C::Tls(s),
                C::Tls(s) => C::Dns4(s),
                C::Ws => C::Wss,
                C::Wss => C::Ws,
                C::Tcp(p) => C::Tcp(p ^ (1 << r.below(16))),
                C::Ip4(mut a) => {
                    a[r.us(4)] ^= 1 << r.below(8);
                    C::Ip4(a)
                }
                C::Ip6(mut a) => {
                    a[r.us(16)] ^= 1 << r.below(8);
                    C::Ip6(a)
                }
                C::P2p(mut a) => {
                    a[r.us(32)] ^= 1 << r.below(8);
                    C::P2p(a)
                }
            }
        }
        6 => {
            if let C::Dns4(s) | C::Dns6(s) | C::Tls(s) = &mut l[i] {
                if r.chance(1, 2) {
                    s.push('x')
                } else {
                    s.pop();
                }
            }
        }
        _ => l[i] = comp(r),
    }
    l
}
