mod bin_serde;
mod model;

use bytes::{Bytes, BytesMut};
use model::*;
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    convert::TryFrom,
    hash::{Hash, Hasher},
    iter::FromIterator,
    net::{IpAddr, Ipv4Addr, Ipv6Addr},
};
use tentacle_multiaddr::{Multiaddr, Protocol};
use vcommon::{hash_str, mix, report::{Acc, CheckSpec, Verdict}, Ctx, Rng};

type R<T> = Result<T, Verdict>;

fn bad<T>(key: &str, what: String) -> R<T> {
    Err(Verdict::Violation(key.to_owned(), what))
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

fn hash_of(m: &Multiaddr) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}

/// Every observation of an address agrees with the component list.
fn same(m: &Multiaddr, l: &[C], how: &str) -> R<()> {
    let (b, t) = (enc(l), txt(l));
    let d = || format!("{} of {}", how, short(&format!("{:?}", l)));
    match comps(m) {
        Ok(c) if c == l => {}
        c => return bad("components", format!("{}: components are {:?}", d(), c)),
    }
    if m.to_vec() != b || m.as_ref() != &b[..] {
        return bad("bytes", format!("{}: bytes are {:02x?}, expected {:02x?}", d(), m.to_vec(), b));
    }
    if m.len() != b.len() || m.is_empty() != b.is_empty() {
        return bad("length", format!("{}: length is {}", d(), m.len()));
    }
    if m.to_string() != t {
        return bad("text", format!("{}: text is {:?}", d(), short(&m.to_string())));
    }
    Ok(())
}

fn build(l: &[C], how: u64) -> R<(Multiaddr, &'static str)> {
    let fail = |e: String| Verdict::Violation("refused".into(), format!("valid address {:?} refused: {}", short(&txt(l)), e));
    let b = enc(l);
    Ok(match how {
        0 => (l.iter().map(proto).collect(), "collected"),
        1 => {
            let mut m = Multiaddr::from_iter(Vec::new());
            for c in l {
                m.push(proto(c));
            }
            (m, "pushed")
        }
        2 => (txt(l).parse().map_err(|e| fail(format!("{}", e)))?, "parsed text"),
        3 => (Multiaddr::try_from(b).map_err(|e| fail(format!("{}", e)))?, "vector"),
        4 => (Multiaddr::try_from(Bytes::from(b)).map_err(|e| fail(format!("{}", e)))?, "bytes"),
        5 => (Multiaddr::try_from(BytesMut::from(&b[..])).map_err(|e| fail(format!("{}", e)))?, "bytes mut"),
        6 => (Multiaddr::try_from(txt(l)).map_err(|e| fail(format!("{}", e)))?, "string"),
        7 => (Multiaddr::try_from(txt(l).as_str()).map_err(|e| fail(format!("{}", e)))?, "str"),
        8 => {
            let j = serde_json::to_string(&txt(l)).unwrap();
            (serde_json::from_str(&j).map_err(|e| fail(format!("{}", e)))?, "json")
        }
        9 => {
            let v = serde_json::Value::String(txt(l));
            (serde_json::from_value(v).map_err(|e| fail(format!("{}", e)))?, "json value")
        }
        n => {
            use bin_serde::How::*;
            let how = [Borrowed, Slice, Owned, Seq][(n as usize - 10) % 4];
            let m = serde::Deserialize::deserialize(bin_serde::De(&b, how)).map_err(|e: bin_serde::E| fail(e.0))?;
            (m, "binary serde")
        }
    })
}
const BUILDS: u64 = 14;

fn res(r: R<Acc>) -> Verdict {
    match r {
        Ok(mut a) => {
            a.nontrivial = true;
            Verdict::Pass(a)
        }
        Err(v) => v,
    }
}

/// Whatever was accepted converts to every form and back.
fn roundtrip(m: &Multiaddr, how: &str) -> R<Vec<C>> {
    let l = match comps(m) {
        Ok(l) => l,
        Err(e) => return bad("components", format!("{}: {}", how, e)),
    };
    let t = m.to_string();
    let again: Multiaddr = match t.parse() {
        Ok(a) => a,
        Err(e) => return bad("text-rejected", format!("{}: accepted address {:02x?} prints as {:?}, which is refused: {}", how, m.to_vec(), short(&t), e)),
    };
    if &again != m || comps(&again).ok().as_ref() != Some(&l) {
        return bad("text-round-trip", format!("{}: {:02x?} -> {:?} -> {:02x?}", how, m.to_vec(), short(&t), again.to_vec()));
    }
    match Multiaddr::try_from(m.to_vec()) {
        Ok(a) if &a == m => {}
        a => return bad("bytes-round-trip", format!("{}: {:02x?} -> {:?}", how, m.to_vec(), a.map(|x| x.to_vec()))),
    }
    let c: Multiaddr = m.iter().collect();
    if &c != m {
        return bad("component-round-trip", format!("{}: {:02x?} -> components -> {:02x?}", how, m.to_vec(), c.to_vec()));
    }
    let c: Multiaddr = m.into_iter().map(|p| p.acquire()).collect();
    if &c != m || hash_of(&c) != hash_of(m) {
        return bad("component-round-trip", format!("{}: {:02x?} -> owned components -> {:02x?}", how, m.to_vec(), c.to_vec()));
    }
    match serde_json::to_string(m).map(|j| serde_json::from_str::<Multiaddr>(&j)) {
        Ok(Ok(a)) if &a == m => {}
        a => return bad("json-round-trip", format!("{}: {:?} -> {:?}", how, short(&t), a)),
    }
    match serde::Serialize::serialize(m, bin_serde::Ser) {
        Ok(b) => match <Multiaddr as serde::Deserialize>::deserialize(bin_serde::De(&b, bin_serde::How::Borrowed)) {
            Ok(a) if &a == m => {}
            a => return bad("binary-round-trip", format!("{}: {:?} -> {:?}", how, short(&t), a)),
        },
        Err(e) => return bad("binary-round-trip", format!("{}: {:?}: {}", how, short(&t), e)),
    }
    Ok(l)
}

fn m01_case(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let mut a = Acc::default();
    let mut pool: Vec<(Multiaddr, Vec<C>)> = Vec::new();
    for _ in 0..40 {
        let l = if pool.is_empty() || r.chance(1, 3) {
            list(&mut r)
        } else {
            let i = r.us(pool.len());
            let base = pool[i].1.clone();
            near(&mut r, &base)
        };
        let how = r.below(BUILDS);
        let (m, name) = build(&l, how)?;
        same(&m, &l, name)?;
        a.add(&format!("built:{}", name), 1);
        for c in &l {
            a.add(match c {
                C::Dns4(_) => "dns4",
                C::Dns6(_) => "dns6",
                C::Ip4(_) => "ip4",
                C::Ip6(_) => "ip6",
                C::P2p(_) => "p2p",
                C::Tcp(_) => "tcp",
                C::Tls(_) => "tls",
                C::Ws => "ws",
                C::Wss => "wss",
            }, 1);
        }
        let back = roundtrip(&m, name)?;
        if back != l {
            return bad("components", format!("{} read back as {:?}", name, back));
        }
        for (m2, l2) in &pool {
            let eq = &l == l2;
            a.add(if eq { "equal_pairs" } else { "different_pairs" }, 1);
            if (&m == m2) != eq || (&m != m2) == eq {
                return bad("equality", format!("{:?} and {:?}: equal components {}, equal addresses {}", short(&txt(&l)), short(&txt(l2)), eq, !eq));
            }
            if eq && hash_of(&m) != hash_of(m2) {
                return bad("hash", format!("equal addresses {:?} hash differently", short(&txt(&l))));
            }
            if !eq && (m.to_vec() == m2.to_vec() || m.to_string() == m2.to_string()) {
                return bad("collision", format!("{:?} and {:?} have the same form", l, l2));
            }
        }
        a.sig = mix(a.sig, hash_str(&txt(&l)));
        pool.push((m, l));
    }
    // single address conversions
    let ip4 = Ipv4Addr::from(r.next() as u32);
    let ip6 = Ipv6Addr::from((u128::from(r.next()) << 64) | u128::from(r.next()));
    for (m, l) in vec![
        (Multiaddr::from(ip4), vec![C::Ip4(ip4.octets())]),
        (Multiaddr::from(ip6), vec![C::Ip6(ip6.octets())]),
        (Multiaddr::from(IpAddr::V4(ip4)), vec![C::Ip4(ip4.octets())]),
        (Multiaddr::from(IpAddr::V6(ip6)), vec![C::Ip6(ip6.octets())]),
        (Multiaddr::from(Protocol::from(IpAddr::V6(ip6))), vec![C::Ip6(ip6.octets())]),
        (tentacle_multiaddr::multiaddr!(IP4(ip4), TCP(7u16), Ws), vec![C::Ip4(ip4.octets()), C::Tcp(7), C::Ws]),
    ] {
        same(&m, &l, "converted")?;
    }
    // accepted bytes and text, of any shape
    let set: HashSet<Multiaddr> = pool.iter().map(|x| x.0.clone()).collect();
    let distinct: HashSet<String> = pool.iter().map(|x| txt(&x.1)).collect();
    if set.len() != distinct.len() {
        return bad("hash-set", format!("{} distinct addresses counted as {}", distinct.len(), set.len()));
    }
    for _ in 0..60 {
        let l = list(&mut r);
        let v = damage(&mut r, enc(&l));
        if let Ok(m) = Multiaddr::try_from(v.clone()) {
            a.add("accepted_bytes", 1);
            if v != enc(&l) {
                a.add("accepted_changed_bytes", 1);
            }
            let back = roundtrip(&m, "accepted bytes")?;
            same(&m, &back, "accepted bytes")?;
            let m2 = build(&back, r.below(3))?.0;
            if m2 != m {
                return bad("equality", format!("accepted bytes {:02x?} differ from the address {:?} of the same components", v, txt(&back)));
            }
        }
        let s = damage_text(&mut r, txt(&l));
        if let Ok(m) = s.parse::<Multiaddr>() {
            a.add("accepted_text", 1);
            let back = roundtrip(&m, "accepted text")?;
            same(&m, &back, "accepted text")?;
        }
    }
    Ok(a)
}

fn damage(r: &mut Rng, mut v: Vec<u8>) -> Vec<u8> {
    for _ in 0..r.below(4) {
        match r.below(12) {
            0 if !v.is_empty() => {
                let i = r.us(v.len());
                v[i] ^= 1 << r.below(8);
            }
            1 if !v.is_empty() => {
                let i = r.us(v.len());
                v.truncate(i);
            }
            2 => {
                let i = r.us(v.len() + 1);
                let b = r.next() as u8;
                v.insert(i, b);
            }
            3 if !v.is_empty() => {
                let i = r.us(v.len());
                v.remove(i);
            }
            // a longer encoding of the same number
            4 | 5 | 6 => {
                let at: Vec<usize> = (0..v.len()).filter(|i| v[*i] < 0x80).collect();
                if !at.is_empty() {
                    let i = if r.chance(1, 2) { at[0] } else { *r.pick(&at) };
                    v[i] |= 0x80;
                    let extra = r.us(3);
                    for k in 0..extra {
                        v.insert(i + 1 + k, 0x80);
                    }
                    v.insert(i + 1 + extra, *r.pick(&[0, 0, 0, 0x10, 0x70]));
                }
            }
            // a separator inside a name
            7 | 8 => {
                let s = *r.pick(&["/", "a/b", "a/tcp/1", "x/ws", "/ip4/1.2.3.4", "x/p2p/"]);
                let mut o = vec![*r.pick(&[0x36, 0x37])];
                if r.chance(1, 3) {
                    o = vec![0xc0, 0x03];
                }
                o.push(s.len() as u8);
                o.extend_from_slice(s.as_bytes());
                if r.chance(1, 2) {
                    o.extend_from_slice(&v);
                    v = o;
                } else {
                    v.extend_from_slice(&o);
                }
            }
            9 => {
                // a hash with another code or length
                let mut h = vec![*r.pick(&[0x12, 0x11, 0x92, 0x13]), *r.pick(&[32, 31, 33, 0])];
                let n = r.rus(28, 36);
                h.extend(r.bytes(n));
                let mut o = vec![0xa5, 0x03, h.len() as u8];
                o.extend(h);
                v.extend(o);
            }
            10 => {
                let k = r.rus(1, 12);
                v.extend(r.bytes(k));
            }
            _ => {
                // a length that is too large
                let mut o = vec![*r.pick(&[0x36, 0x37])];
                let n = r.rus(1, 10);
                for _ in 0..n {
                    o.push(0x80 | r.next() as u8);
                }
                o.push(r.below(0x80) as u8);
                o.extend_from_slice(b"abc");
                v.extend(o);
            }
        }
    }
    v
}

fn damage_text(r: &mut Rng, s: String) -> String {
    let mut p: Vec<String> = s.split('/').map(|x| x.to_owned()).collect();
    for _ in 0..r.below(4) {
        let i = r.us(p.len());
        match r.below(9) {
            0 => {
                p.remove(i);
                if p.is_empty() {
                    p.push(String::new());
                }
            }
            1 => p.insert(i, (*r.pick(&["", "ip4", "ip6", "tcp", "ws", "wss", "p2p", "dns4", "tls", "udp", "IP4", "http"])).to_owned()),
            2 => p[i].push(*r.pick(&[' ', '0', 'a', '+', '-', '.', ':', '\0', 'é'])),
            3 => p[i].insert(0, *r.pick(&[' ', '0', '1', '+', '-', ':'])),
            4 => {
                p[i].pop();
            }
            5 => p[i] = (*r.pick(&["65536", "-1", "+80", "00080", "4294967376", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::", ":::", "::1%lo", "1::2::3", "fe80::1%1", "0x10"])).to_owned(),
            6 => p.truncate(i + 1),
            7 => {
                let k = r.us(p.len());
                p.swap(i, k);
            }
            _ => {
                // another identity: shortened, lengthened, other alphabet
                let n = r.rus(0, 40);
                let mut h = r.bytes(n);
                if n >= 2 && r.chance(1, 2) {
                    h[0] = 0x12;
                    h[1] = 32;
                }
                let mut t = b58(&h);
                if r.chance(1, 4) {
                    t.push(*r.pick(&['0', 'O', 'I', 'l', ' ']));
                }
                if r.chance(1, 4) {
                    t.insert(0, '1');
                }
                p.insert(i, t);
                p.insert(i, "p2p".into());
            }
        }
    }
    p.join("/")
}

fn m02_bytes(v: Vec<u8>, a: &mut Acc) -> R<()> {
    let want = dec(&v);
    let got = Multiaddr::try_from(v.clone());
    // one component at a time as well
    let mut rest = &v[..];
    let mut one: Option<Vec<C>> = Some(Vec::new());
    while !rest.is_empty() {
        match Protocol::from_bytes(rest) {
            Ok((p, n)) => {
                if n.len() >= rest.len() || !std::ptr::eq(n.as_ptr(), rest[rest.len() - n.len()..].as_ptr()) {
                    return bad("rest", format!("reading a component of {:02x?} returned a wrong rest", v));
                }
                rest = n;
                let c = unproto(&p);
                let _ = (p.to_string(), format!("{:?}", p));
                if let (Some(o), Ok(c)) = (one.as_mut(), c) {
                    o.push(c)
                }
            }
            Err(_) => {
                one = None;
                break;
            }
        }
    }
    match (&want, got) {
        (None, Err(e)) => {
            a.add("rejected_bytes", 1);
            let _ = (e.to_string(), format!("{:?}", e));
        }
        (Some(w), Ok(m)) => {
            a.add("accepted_bytes", 1);
            same(&m, w, "accepted bytes")?;
            if one.as_ref() != Some(w) {
                return bad("one-by-one", format!("{:02x?} read one by one gives {:?}", v, one));
            }
            let _ = format!("{:?}", m);
        }
        (None, Ok(m)) => {
            return bad("accepted-malformed", format!("malformed bytes {:02x?} accepted as {:?}", v, short(&m.to_string())))
        }
        (Some(w), Err(e)) => {
            return bad("rejected-valid", format!("valid bytes {:02x?} of {:?} refused: {}", v, w, e))
        }
    }
    Ok(())
}

fn m02_text(s: String, a: &mut Acc) -> R<()> {
    let want = untxt(&s);
    let got = s.parse::<Multiaddr>();
    match (&want, got) {
        (None, Err(e)) => {
            a.add("rejected_text", 1);
            let _ = e.to_string();
        }
        (Some(w), Ok(m)) => {
            a.add("accepted_text", 1);
            same(&m, w, "accepted text")?;
        }
        (None, Ok(m)) => return bad("accepted-malformed-text", format!("malformed text {:?} accepted as {:?}", short(&s), short(&m.to_string()))),
        // only the form an address prints as has to be accepted
        (Some(w), Err(e)) => {
            if txt(w) == s {
                return bad("rejected-valid-text", format!("valid text {:?} refused: {}", short(&s), e));
            }
            a.add("rejected_text", 1);
        }
    }
    Ok(())
}

fn m02_case(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let mut a = Acc::default();
    for _ in 0..30 {
        let l = list(&mut r);
        let v = enc(&l);
        m02_bytes(damage(&mut r, v.clone()), &mut a)?;
        let n = r.rus(0, 40);
        m02_bytes(r.bytes(n), &mut a)?;
        // small alphabets reach further
        let ab = [4u8, 6, 0x29, 0x36, 0x37, 0xa5, 3, 0xc0, 0xdd, 0xde, 0x80, 0, 1, 2, 0x12, 32, 34, b'/', b'a', 0xff];
        let v2: Vec<u8> = (0..r.rus(0, 24)).map(|_| *r.pick(&ab)).collect();
        m02_bytes(v2, &mut a)?;
        // every truncation
        if v.len() < 200 {
            for i in 0..v.len() {
                m02_bytes(v[..i].to_vec(), &mut a)?;
                a.add("truncations", 1);
            }
        }
        let t = txt(&l);
        m02_text(damage_text(&mut r, t.clone()), &mut a)?;
        let cut = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect::<Vec<_>>();
        if cut.len() < 200 {
            for i in cut {
                m02_text(t[..i].to_owned(), &mut a)?;
                a.add("truncations", 1);
            }
        }
        let toks = ["/", "/", "/", "ip4", "ip6", "dns4", "tls", "p2p", "tcp", "ws", "wss", "1.2.3.4", "::1", "80", "a", ""];
        let s: String = (0..r.rus(0, 14)).map(|_| *r.pick(&toks)).collect();
        m02_text(s, &mut a)?;
        // deserialisation of arbitrary input
        let junk = damage(&mut r, v.clone());
        let how = *r.pick(&[bin_serde::How::Borrowed, bin_serde::How::Slice, bin_serde::How::Owned, bin_serde::How::Seq]);
        let d = <Multiaddr as serde::Deserialize>::deserialize(bin_serde::De(&junk, how)).ok();
        if d.is_some() != dec(&junk).is_some() {
            return bad("binary-serde", format!("bytes {:02x?}: deserialised {}, valid {}", junk, d.is_some(), dec(&junk).is_some()));
        }
        if let (Some(m), Some(l)) = (d, dec(&junk)) {
            same(&m, &l, "deserialised")?;
        }
        let js = match r.below(5) {
            0 => serde_json::Value::from(r.next()),
            1 => serde_json::Value::Null,
            2 => serde_json::Value::from(v.iter().map(|b| serde_json::Value::from(*b)).collect::<Vec<_>>()),
            _ => serde_json::Value::String(damage_text(&mut r, t)),
        };
        let d: Result<Multiaddr, _> = serde_json::from_value(js.clone());
        let text = js.as_str().map(|s| s.to_owned());
        match (text, d) {
            (Some(s), Ok(m)) => match untxt(&s) {
                Some(l) => same(&m, &l, "deserialised text")?,
                None => return bad("json-accepted", format!("{:?} accepted", short(&s))),
            },
            (None, Ok(m)) => {
                let _ = comps(&m);
            }
            _ => {}
        }
        a.sig = mix(a.sig, hash_str(&format!("{:?}", junk)));
    }
    Ok(a)
}

fn m03_case(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let mut a = Acc::default();
    let mut pool: Vec<(Multiaddr, Vec<C>)> = vec![(Multiaddr::from_iter(Vec::new()), Vec::new())];
    let mut raw: Vec<(Bytes, Vec<u8>)> = Vec::new();
    let steps = r.rus(10, 120);
    let mut hist = String::new();
    for _ in 0..steps {
        let i = r.us(pool.len());
        let op = r.below(9);
        hist.push((b'0' + op as u8) as char);
        match op {
            0 | 1 => {
                let c = comp(&mut r);
                pool[i].0.push(proto(&c));
                pool[i].1.push(c);
                a.add("push", 1);
            }
            2 => {
                let want = pool[i].1.pop();
                let got = pool[i].0.pop();
                let g = match &got {
                    None => None,
                    Some(p) => match unproto(p) {
                        Ok(c) => Some(c),
                        Err(e) => return bad("pop", e),
                    },
                };
                if g != want {
                    return bad("pop", format!("pop returned {:?}, the list has {:?} (history {})", g, want, hist));
                }
                a.add(if want.is_some() { "pop" } else { "pop_empty" }, 1);
            }
            3 => {
                let n = pool[i].1.len();
                let at = if r.chance(1, 5) { n + r.us(3) } else { r.us(n + 1) };
                let by = if r.chance(1, 5) { None } else { Some(comp(&mut r)) };
                let mut calls = 0;
                let mut seen = None;
                let got = pool[i].0.replace(at, |p| {
                    calls += 1;
                    seen = Some(unproto(p));
                    by.as_ref().map(proto)
                });
                if calls != if at < n { 1 } else { 0 } {
                    return bad("replace-calls", format!("replace at {} of {} called back {} times", at, n, calls));
                }
                if at < n && seen != Some(Ok(pool[i].1[at].clone())) {
                    return bad("replace-seen", format!("replace at {} showed {:?} instead of {:?}", at, seen, pool[i].1[at]));
                }
                match (got, by) {
                    (Some(m), Some(c)) if at < n => {
                        let mut l = pool[i].1.clone();
                        l[at] = c;
                        same(&m, &l, "replaced")?;
                        pool.push((m, l));
                        a.add("replace", 1);
                    }
                    (None, by) if at >= n || by.is_none() => a.add("replace_none", 1),
                    (got, by) => return bad("replace", format!("replace at {} of {} by {:?} returned {:?}", at, n, by, got)),
                }
            }
            4 => {
                let c = pool[i].clone();
                pool.push(c);
                a.add("clone", 1);
            }
            5 => {
                let k = r.us(pool[i].1.len() + 1);
                let (m, l): (Multiaddr, Vec<C>) = if r.chance(1, 2) {
                    (pool[i].0.iter().take(k).collect(), pool[i].1[..k].to_vec())
                } else {
                    (pool[i].0.iter().skip(k).collect(), pool[i].1[k..].to_vec())
                };
                pool.push((m, l));
                a.add("collect", 1);
            }
            6 => {
                // an address inside a larger shared buffer
                let l = list(&mut r);
                let (pre, post) = (r.us(20), r.us(20));
                let mut v = r.bytes(pre);
                v.extend(enc(&l));
                v.extend(r.bytes(post));
                let b = Bytes::from(v.clone());
                let n = enc(&l).len();
                let m = match Multiaddr::try_from(b.slice(pre..pre + n)) {
                    Ok(m) => m,
                    Err(e) => return bad("refused", format!("{:?}: {}", l, e)),
                };
                raw.push((b, v));
                pool.push((m, l));
                a.add("shared_buffer", 1);
            }
            7 => {
                // a vector with spare room
                let l = list(&mut r);
                let mut v = Vec::with_capacity(enc(&l).len() + r.us(64));
                v.extend(enc(&l));
                if let Ok(m) = Multiaddr::try_from(v) {
                    pool.push((m.clone(), l.clone()));
                    pool.push((m, l));
                }
                a.add("spare_room", 1);
            }
            _ => {
                if pool.len() > 8 {
                    pool.swap_remove(i);
                }
            }
        }
        while pool.len() > 20 {
            pool.remove(0);
        }
        for (m, l) in &pool {
            same(m, l, "edited")?;
        }
        for (b, v) in &raw {
            if b[..] != v[..] {
                return bad("shared-storage", format!("a buffer sharing storage with an address changed (history {})", hist));
            }
        }
        if raw.len() > 6 {
            raw.remove(0);
        }
    }
    a.sig = hash_str(&hist);
    Ok(a)
}

fn main() {
    let ctx = Ctx::from_env();
    let thorough = ctx.tier == "thorough";
    let k = if thorough { 60 } else { 1 };
    let spec = |rule: &str, cases: u64, must_see| CheckSpec {
        level: "exploration",
        rule: rule.to_owned(),
        assumptions: vec![
            "components handed to the library by the harness are valid on their own: names without a separator, identities of 32 bytes".into(),
        ],
        cases: cases * k,
        budget_s: if thorough { 600 } else { 20 },
        threads: 8,
        must_see,
    };
    match ctx.prop.clone().as_str() {
        "M01" => ctx.run(
            spec("one case: 40 addresses built in 14 ways and compared pairwise, then 120 damaged byte and text forms of which the accepted ones must convert to all forms and back", 6000, vec!["equal_pairs", "different_pairs", "accepted_changed_bytes", "accepted_text"]),
            |s, _| res(m01_case(s)),
        ),
        "M02" => ctx.run(
            spec("one case: 30 addresses damaged, truncated at every place, random bytes and text, compared with an independent reader", 6000, vec!["rejected_bytes", "accepted_bytes", "rejected_text", "accepted_text", "truncations"]),
            |s, _| res(m02_case(s)),
        ),
        "M03" => ctx.run(
            spec("one case: up to 120 edit operations on up to 20 addresses sharing storage, all compared with plain lists after every step", 12000, vec!["push", "pop", "pop_empty", "replace", "replace_none", "clone", "shared_buffer"]),
            |s, _| res(m03_case(s)),
        ),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}
