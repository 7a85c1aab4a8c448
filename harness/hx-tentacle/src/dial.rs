//! T05, T06, T15: dialling, identities and limits.
use crate::{judge::R, mesh::*, net::*, proxy::{Plan, Proxy}, traffic::wrap};
use std::{
    collections::HashMap,
    io::Read,
    net::TcpListener,
    sync::Arc,
    time::{Duration, Instant},
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    secio::PeerId,
    service::TargetProtocol,
    utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

pub fn with_peer(a: &Multiaddr, p: &PeerId) -> Multiaddr {
    let mut a = a.clone();
    a.push(Protocol::P2P(std::borrow::Cow::Owned(p.clone().into_bytes())));
    a
}

/// is that the report for a dial to `a`
pub fn outcome(e: &Ev, n: usize, a: &Multiaddr) -> Option<Result<usize, String>> {
    if e.n != n {
        return None;
    }
    match &e.w {
        What::Open { s, out: true, addr, .. } => {
            let (x, y) = (addr.to_string(), a.to_string());
            if x == y || (x.starts_with(&y) && x[y.len()..].starts_with("/p2p/")) {
                return Some(Ok(*s));
            }
            None
        }
        What::DialErr { addr, kind } if addr == a => Some(Err(kind.clone())),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Good,
    GoodPeer,
    Dns,
    WrongPeer,
    Refused,
    Closing,
    Cut,
    Silent,
    NotSupported,
    NoHost,
}

struct Target {
    addr: Multiaddr,
    kind: Kind,
    who: Option<usize>,
    _proxy: Option<Proxy>,
    _sock: Option<TcpListener>,
}

pub fn t05_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let secure = r.chance(2, 3);
    let log = Log::new();
    let rt = runtime(r);
    let protos = |r: &mut Rng| (1..=2).map(|p| ProtoCfg::new(p, Mode::any(r))).collect::<Vec<_>>();
    let mut keys = vec![];
    let mut nodes = vec![];
    let servers = r.rus(1, 4);
    for n in 0..=servers {
        let k = key(r);
        keys.push(k.clone());
        let (ws, forever, timeout_ms) = (n > 0 && r.chance(1, 4), r.chance(1, 2) || n > 0, if n == 0 { r.range(300, 900) } else { 10_000 });
        let cfg = NodeCfg {
            key: if secure { Some(k) } else { None },
            protos: protos(r),
            timeout_ms,
            forever: forever || true,
            listen: Some(fresh(r, ws)),
            max_conn: None,
            ..NodeCfg::default()
        };
        nodes.push(start(&rt, &log, n, cfg));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1, 2] };
    let me = &m.nodes[0];
    let mut targets: Vec<Target> = Vec::new();
    for j in 1..=servers {
        let a = m.nodes[j].addr.clone().unwrap();
        let pick = *r.pick(&[Kind::Good, Kind::Good, Kind::GoodPeer, Kind::Dns]);
        let t = match pick {
            Kind::GoodPeer if secure => with_peer(&a, &keys[j].peer_id()),
            Kind::Dns => {
                acc.add("dials of live services by name", 1);
                a.to_string().replace("/ip4/", "/dns4/").replace("/ip6/", "/dns6/").parse().unwrap()
            }
            _ => a.clone(),
        };
        targets.push(Target { addr: t, kind: Kind::Good, who: Some(j), _proxy: None, _sock: None });
        if secure && r.chance(1, 2) {
            // through a relay that loses the connection during the handshake
            let at = r.range(0, 400);
            let back = r.chance(1, 2);
            let rst = r.chance(1, 2);
            let p = Proxy::new(r, &a, move |_, _| {
                let cut = Plan { cut_at: Some(at), rst, ..Plan::default() };
                if back {
                    (Plan::default(), cut)
                } else {
                    (cut, Plan::default())
                }
            });
            targets.push(Target { addr: p.addr.clone(), kind: Kind::Cut, who: Some(j), _proxy: Some(p), _sock: None });
        }
        if secure && r.chance(1, 3) {
            let p = Proxy::new(r, &a, |r, _| (Plan::clean(r), Plan::clean(r)));
            let wrong = with_peer(&p.addr, &PeerId::random());
            targets.push(Target { addr: wrong, kind: Kind::WrongPeer, who: Some(j), _proxy: Some(p), _sock: None });
        }
    }
    let extra = [Kind::Refused, Kind::Closing, Kind::Silent, Kind::NotSupported, Kind::NotSupported, Kind::NoHost, Kind::Dns];
    for _ in 0..r.rus(2, 5) {
        let k = *r.pick(&extra);
        let bind = |r: &mut Rng| TcpListener::bind(format!("127.{}.{}.{}:0", r.range(1, 250), r.range(1, 250), r.range(1, 250))).unwrap();
        let t = match k {
            Kind::Refused => {
                let l = bind(r);
                let a = socketaddr_to_multiaddr(l.local_addr().unwrap());
                drop(l);
                Target { addr: a, kind: k, who: None, _proxy: None, _sock: None }
            }
            Kind::Silent => {
                if !secure {
                    continue;
                }
                let l = bind(r);
                let a = socketaddr_to_multiaddr(l.local_addr().unwrap());
                Target { addr: a, kind: k, who: None, _proxy: None, _sock: Some(l) }
            }
            Kind::Closing => {
                if !secure {
                    continue;
                }
                let a = m.nodes[0].addr.clone().unwrap();
                let p = Proxy::new(r, &a, |_, _| (Plan::default(), Plan::default()));
                p.refuse(true);
                Target { addr: p.addr.clone(), kind: k, who: None, _proxy: Some(p), _sock: None }
            }
            Kind::Dns => {
                let a = m.nodes[1].addr.clone().unwrap();
                if a.to_string().contains("/ws") {
                    continue;
                }
                // 127.0.0.1, whatever the name
                let l = TcpListener::bind("127.0.0.1:0").unwrap();
                let port = l.local_addr().unwrap().port();
                drop(l);
                Target { addr: format!("/dns4/localhost/tcp/{}", port).parse().unwrap(), kind: Kind::Refused, who: None, _proxy: None, _sock: None }
            }
            Kind::NotSupported => {
                let s = *r.pick(&["/ip4/127.0.0.1", "/ip4/127.0.0.1/udp/77", "/tcp/80", "/ip4/127.0.0.1/tcp/80/wss", "/memory/1", "/ip6/::1", "/ip4/127.0.0.1/tls/x", "/dns4/localhost"]);
                let a: Multiaddr = match s.parse() {
                    Ok(a) => a,
                    Err(_) => continue,
                };
                if targets.iter().any(|t| t.addr == a) {
                    continue;
                }
                Target { addr: a, kind: k, who: None, _proxy: None, _sock: None }
            }
            _ => {
                // port 0 can never be connected to
                let a: Multiaddr = format!("/ip4/127.0.0.{}/tcp/0", r.range(1, 250)).parse().unwrap();
                if targets.iter().any(|t| t.addr == a) {
                    continue;
                }
                Target { addr: a, kind: k, who: None, _proxy: None, _sock: None }
            }
        };
        targets.push(t);
    }
    let _ = (Kind::NoHost, Kind::GoodPeer);
    // rounds: a batch of dials to different addresses, each must be answered exactly once
    let mut due: HashMap<String, usize> = HashMap::new();
    for round in 0..r.rus(2, 4) {
        let mut batch: Vec<usize> = (0..targets.len()).filter(|_| r.chance(3, 4)).collect();
        r.shuffle(&mut batch);
        // a server twice in a batch may legitimately be refused as a repetition
        for i in &batch {
            let t = &targets[*i];
            until_ok(|| me.ctl.dial(t.addr.clone(), TargetProtocol::All));
            *due.entry(t.addr.to_string()).or_insert(0) += 1;
            acc.add("dials", 1);
            if r.chance(1, 3) {
                std::thread::sleep(Duration::from_micros(r.below(2000)));
            }
        }
        let count = |evs: &[Ev], a: &Multiaddr| evs.iter().filter(|e| outcome(e, 0, a).is_some()).count();
        let ok = m.log.wait(|evs| batch.iter().all(|i| count(evs, &targets[*i].addr) >= due[&targets[*i].addr.to_string()]))?;
        m.log.settle(15);
        let evs = m.log.snap();
        let late = |k: &str| k.contains("TimedOut") || k.contains("Timeout");
        let mut slow = vec![];
        for i in &batch {
            let t = &targets[*i];
            let (c, d) = (count(&evs, &t.addr), due[&t.addr.to_string()]);
            if c != d {
                return violation(
                    if c < d { "no-outcome" } else { "two-outcomes" },
                    format!("dial number {} of {} ({:?}) in round {}: {} reports for {} dials{}\n{}", d, t.addr, t.kind, round, c, d, if ok { "" } else { ", nothing more came" }, m.log.render(&[0], 60)),
                );
            }
            let last = evs.iter().rev().find_map(|e| outcome(e, 0, &t.addr)).unwrap();
            match (&last, t.kind) {
                (Ok(_), Kind::Good) => acc.add("sessions", 1),
                // several ways to one peer in one batch: one wins, the others repeat
                (Err(k), Kind::Good) if k == "repeated" && secure => acc.add("repeated", 1),
                (Err(k), Kind::Good) if late(k) => slow.push(*i),
                (Err(k), Kind::WrongPeer) if late(k) => acc.add("timeouts", 1),
                (Err(k), Kind::Good) => {
                    return violation("good-refused", format!("dial of the live service {} in round {} failed: {}\n{}", t.addr, round, k, m.log.render(&[0], 60)));
                }
                (Ok(_), Kind::Cut) => acc.add("sessions", 1),
                (Err(_), Kind::Cut) => acc.add("lost in handshake", 1),
                (Err(k), Kind::WrongPeer) if k == "mismatch" || k == "repeated" => acc.add("mismatches", 1),
                (Err(_), Kind::WrongPeer) => {
                    return violation("mismatch-kind", format!("dial of {} which is somebody else reported {:?}\n{}", t.addr, last, m.log.render(&[0], 60)));
                }
                (Ok(_), _) => {
                    return violation("impossible-session", format!("dial of {} ({:?}) reported a session\n{}", t.addr, t.kind, m.log.render(&[0], 60)));
                }
                (Err(_), k) => acc.add(match k {
                    Kind::NotSupported => "unsupported addresses",
                    Kind::Silent => "timeouts",
                    _ => "refused",
                }, 1),
            }
        }
        // and brings what was asked for
        for i in &batch {
            let t = &targets[*i];
            // of two connections at once the other end may keep the other one
            if batch.iter().any(|k| k != i && targets[*k].who == t.who) {
                continue;
            }
            let s = match evs.iter().rev().find_map(|e| outcome(e, 0, &t.addr)) {
                Some(Ok(s)) if t.kind == Kind::Good => s,
                _ => continue,
            };
            let there = |evs: &[Ev]| (1..=2).all(|p| is_conn(evs, 0, s, p, me.modes[&p].vias()));
            if !m.log.wait(there)? {
                // on a busy machine selecting them may have run into the time limit
                let at = |f: &dyn Fn(&What) -> bool| m.log.with(|evs| evs.iter().find(|e| e.n == 0 && f(&e.w)).map(|e| e.t));
                let opened = at(&|w| matches!(w, What::Open { s: x, .. } if *x == s));
                let closed = at(&|w| matches!(w, What::Close { s: x } if *x == s) || matches!(w, What::SelectErr { s: x, .. } if *x == s));
                if let (Some(a), Some(b)) = (opened, closed) {
                    if b - a > Duration::from_millis(290) {
                        acc.add("selections too slow", 1);
                        continue;
                    }
                }
                return violation("no-protocols", format!("dial of the live service {} for all protocols in round {} opened session {}, and not all protocols\n{}", t.addr, round, s, m.log.render(&[0], 60)));
            }
            acc.add("sessions with all protocols", 1);
        }
        // a busy machine may make a live service miss the time limit, but not again and again
        for i in slow {
            let t = &targets[i];
            let mut res = String::new();
            for _ in 0..6 {
                let d = due.get_mut(&t.addr.to_string()).unwrap();
                *d += 1;
                until_ok(|| me.ctl.dial(t.addr.clone(), TargetProtocol::All));
                if !m.log.wait(|evs| count(evs, &t.addr) >= *d)? {
                    return violation("no-outcome", format!("dial number {} of {} ({:?}) in round {}: nothing more came\n{}", d, t.addr, t.kind, round, m.log.render(&[0], 60)));
                }
                res = match m.log.snap().iter().rev().find_map(|e| outcome(e, 0, &t.addr)).unwrap() {
                    Ok(_) => String::new(),
                    Err(k) if !late(&k) => String::new(),
                    Err(k) => k.to_string(),
                };
                if res.is_empty() {
                    break;
                }
            }
            if !res.is_empty() {
                return violation("good-refused", format!("seven dials of the live service {} in round {} failed: {}\n{}", t.addr, round, res, m.log.render(&[0], 60)));
            }
            acc.add("dialled again", 1);
        }
        // end what is open, the next round starts from nothing
        for s in m.log.with(|e| open_sessions(e, 0)) {
            until_ok(|| me.ctl.disconnect(s.into()));
        }
        until(&m.log, "sessions end", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
        m.log.settle(10);
        if !m.log.with(|e| m.nodes.iter().all(|n| open_sessions(e, n.n).is_empty())) {
            until(&m.log, "sessions end", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
        }
        acc.add("rounds", 1);
    }
    let _ = targets.iter().filter(|t| t.who.is_some()).count();
    acc.nontrivial = acc.get("dials") > 0;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

/// dials beyond the connection limit are answered too, and work once there is room
pub fn t05_limit(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let max = r.rus(1, 3);
    let total = max + r.rus(1, 3);
    let mut nodes = vec![];
    for n in 0..=total {
        let cfg = NodeCfg {
            key: if secure { Some(key(r)) } else { None },
            protos: vec![ProtoCfg::new(1, Mode::any(r))],
            listen: Some(fresh(r, false)),
            max_conn: if n == 0 { Some(max) } else { None },
            forever: r.chance(1, 2),
            ..NodeCfg::default()
        };
        nodes.push(start(&rt, &log, n, cfg));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let me = &m.nodes[0];
    for round in 0..2 {
        for j in 1..=total {
            let a = m.nodes[j].addr.clone().unwrap();
            until_ok(|| me.ctl.dial(a.clone(), TargetProtocol::All));
            acc.add("dials", 1);
            let count = |evs: &[Ev]| evs.iter().filter(|e| outcome(e, 0, &a).is_some()).count();
            let ok = m.log.wait(|evs| count(evs) > round)?;
            if !ok {
                return violation("limit-no-outcome", format!("dial of {} with the connection limit of {} reached: nothing reported (round {})\n{}", a, max, round, m.log.render(&[0], 40)));
            }
        }
        for s in m.log.with(|e| open_sessions(e, 0)) {
            until_ok(|| me.ctl.disconnect(s.into()));
        }
        until(&m.log, "sessions end", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
        acc.add("limit rounds", 1);
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t05(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "rounds of dials to live, refused, closing, silent, cut-in-handshake, wrong-peer and unsupported addresses; per dial exactly one report, of the right kind, and the same again when dialled again".into(),
            assumptions: vec!["no second dial of an address while the first is pending (documented as ignored)".into()],
            cases: ctx.q(240, 3000),
            budget_s: ctx.q(25, 900),
            threads: 8,
            must_see: vec!["sessions", "dials of live services by name", "sessions with all protocols", "refused", "unsupported addresses", "lost in handshake", "mismatches", "timeouts", "limit rounds"],
        },
        |seed, idx| wrap(|| if idx % 6 == 5 { t05_limit(seed) } else { t05_one(seed) }),
    )
}

// ---------------------------------------------------------------- T06

fn one_per_key(evs: &[Ev], n: usize) -> R<u64> {
    let mut open: HashMap<usize, Option<tentacle::secio::PublicKey>> = HashMap::new();
    let mut c = 0;
    for e in evs.iter().filter(|e| e.n == n) {
        match &e.w {
            What::Open { s, key, .. } => {
                if key.is_some() {
                    if let Some((o, _)) = open.iter().find(|(_, k)| *k == key) {
                        return violation("two-sessions", format!("node {}: session {} opened with a peer that already has open session {}", n, s, o));
                    }
                }
                c += 1;
                open.insert(*s, key.clone());
            }
            What::Close { s } => {
                open.remove(s);
            }
            What::Repeat { s } if !open.contains_key(s) => {
                return violation("repeat-of-nothing", format!("node {}: a connection is called a repetition of session {}, which is not open", n, s));
            }
            _ => (),
        }
    }
    Ok(c)
}

pub fn t06_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let n = r.rus(2, 4);
    let mut keys = vec![];
    let mut nodes = vec![];
    for i in 0..n {
        let k = key(r);
        keys.push(k.clone());
        nodes.push(start(&rt, &log, i, NodeCfg { key: Some(k), protos: vec![ProtoCfg::new(1, Mode::any(r))], listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    // relays to everybody: what is dialled need not be who is meant
    let px: Vec<Proxy> = (0..n)
        .map(|j| {
            let a = m.nodes[j].addr.clone().unwrap();
            Proxy::new(r, &a, |r, _| (Plan::clean(r), Plan::clean(r)))
        })
        .collect();
    // (dialler, address, real node, named node)
    let mut named: Vec<(usize, Multiaddr, usize, Option<usize>)> = vec![];
    let rounds = r.rus(2, 5);
    for _ in 0..rounds {
        let from = m.log.len();
        let k = r.rus(1, 8);
        let mut this = vec![];
        for _ in 0..k {
            let i = r.us(n);
            let j = r.us(n);
            let base = if r.chance(1, 2) { px[j].addr.clone() } else { m.nodes[j].addr.clone().unwrap() };
            // the same place under a name that has to be looked up
            let base = if r.chance(1, 4) {
                acc.add("looked up", 1);
                base.to_string().replace("/ip4/", "/dns4/").parse().unwrap()
            } else {
                base
            };
            let name = match r.below(4) {
                0 => Some(j),
                1 => Some(r.us(n)),
                _ => None,
            };
            let a = match name {
                Some(x) => with_peer(&base, &keys[x].peer_id()),
                None => base,
            };
            // a dial to itself is no session between two services
            if i == j || this.iter().any(|t: &(usize, Multiaddr, usize, Option<usize>)| t.0 == i && t.1 == a) {
                continue;
            }
            until_ok(|| m.nodes[i].ctl.dial(a.clone(), TargetProtocol::All));
            acc.add("dials", 1);
            this.push((i, a.clone(), j, name));
            named.push((i, a, j, name));
            if r.chance(1, 3) {
                std::thread::sleep(Duration::from_micros(r.below(3000)));
            }
        }
        let done = m.log.wait(|evs| this.iter().all(|t| evs[from..].iter().any(|e| outcome(e, t.0, &t.1).is_some())))?;
        if !done {
            return Err(vcommon::Verdict::Inconclusive("dial without outcome".into()));
        }
        m.log.settle(30);
        let evs = m.log.snap();
        for t in &this {
            let o = evs[from..].iter().find_map(|e| outcome(e, t.0, &t.1)).unwrap();
            let wrong = t.3.map_or(false, |x| x != t.2);
            match o {
                Ok(s) => {
                    if wrong {
                        return violation("wrong-peer-open", format!("node {} dialled {} naming node {:?} but reaching node {}: session {} opened\n{}", t.0, t.1, t.3, t.2, s, m.log.render(&[t.0], 40)));
                    }
                    acc.add("sessions", 1);
                    let key = evs[from..].iter().find_map(|e| match &e.w {
                        What::Open { s: x, key, .. } if e.n == t.0 && *x == s => key.clone(),
                        _ => None,
                    });
                    if key != m.nodes[t.2].key {
                        return violation("wrong-key", format!("node {} session {} to node {} reports another key", t.0, s, t.2));
                    }
                    if t.3.is_some() {
                        acc.add("right peer named", 1);
                    }
                }
                Err(k) => {
                    if k == "mismatch" && !wrong {
                        return violation("false-mismatch", format!("node {} dialled {} (node {}), reported as mismatch\n{}", t.0, t.1, t.2, m.log.render(&[t.0], 40)));
                    }
                    if wrong && k != "mismatch" && k != "repeated" {
                        // lost for another reason, e.g. refused by the other side
                        acc.add("other errors", 1);
                    }
                    if k == "repeated" {
                        let at = from + evs[from..].iter().position(|e| outcome(e, t.0, &t.1).is_some()).unwrap();
                        let s = evs[..at].iter().rev().find_map(|e| match e.w {
                            What::Repeat { s } if e.n == t.0 => Some(s),
                            _ => None,
                        });
                        let key = s.and_then(|s| {
                            evs[..at].iter().rev().find_map(|e| match &e.w {
                                What::Open { s: x, key, .. } if e.n == t.0 && *x == s => key.clone(),
                                _ => None,
                            })
                        });
                        if key != m.nodes[t.2].key {
                            return violation("repeat-of-other", format!("node {}: the dial of {} (node {}) is called a repetition of session {:?}, which is with somebody else\n{}", t.0, t.1, t.2, s, m.log.render(&[t.0], 40)));
                        }
                    }
                    acc.add(if k == "mismatch" { "mismatches" } else { "repeated" }, 1);
                }
            }
        }
        for x in 0..n {
            one_per_key(&evs, x)?;
        }
        // the address of a session tells who is there
        for e in &evs[from..] {
            if let What::Open { s, key: Some(k), addr, out } = &e.w {
                if tentacle::utils::extract_peer_id(addr) != Some(k.peer_id()) {
                    return violation("wrong-address", format!("node {} session {} ({}) has address {} but the key of {}", e.n, s, if *out { "outbound" } else { "inbound" }, addr, k.peer_id().to_base58()));
                }
                acc.add("addresses compared", 1);
            }
        }
        // both ends agree on what is left: a refused connection is gone on both ends
        let agree = |evs: &[Ev]| {
            let mut pairs: HashMap<(usize, usize), i32> = HashMap::new();
            for x in 0..n {
                for s in open_sessions(evs, x) {
                    let key = evs.iter().find_map(|e| match &e.w {
                        What::Open { s: y, key, .. } if e.n == x && *y == s => key.clone(),
                        _ => None,
                    });
                    if let Some(y) = m.nodes.iter().position(|o| o.key == key) {
                        *pairs.entry((x.min(y), x.max(y))).or_insert(0) += if x < y { 1 } else { -1 };
                    }
                }
            }
            pairs.values().all(|v| *v == 0)
        };
        if !m.log.wait(|evs| agree(evs))? {
            return violation("half-open", format!("a session exists on one end only\n{}", m.log.render(&[], 60)));
        }
        acc.add("rounds", 1);
        if r.chance(1, 2) {
            for x in 0..n {
                for s in m.log.with(|e| open_sessions(e, x)) {
                    if r.chance(1, 2) {
                        let _ = m.nodes[x].ctl.disconnect(s.into());
                    }
                }
            }
            m.log.settle(30);
        }
        // sometimes addresses change hands
        if r.chance(1, 3) {
            let (i, j) = (r.us(n), r.us(n));
            px[i].retarget(m.nodes[i].addr.as_ref().unwrap());
            let _ = j;
        }
    }
    acc.nontrivial = acc.get("sessions") > 0;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

pub fn t06(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "2-4 encrypted services dial each other in bursts from both sides, directly and through relays, naming the right, a wrong or no peer; the reported key is the real one, a wrong peer is never opened, at most one open session per key, both ends agree afterwards".into(),
            assumptions: vec![],
            cases: ctx.q(150, 3000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["sessions", "mismatches", "repeated", "right peer named", "looked up", "addresses compared"],
        },
        |seed, _| wrap(|| t06_one(seed)),
    )
}

// ---------------------------------------------------------------- T15

pub fn t15_limit(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let max = r.rus(1, 5);
    let peers = max + r.rus(1, 5);
    let mut nodes = vec![];
    for n in 0..=peers {
        nodes.push(start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if secure { Some(key(r)) } else { None },
                protos: vec![ProtoCfg::new(1, Mode::Event)],
                listen: Some(fresh(r, false)),
                max_conn: if n == 0 { Some(max) } else { None },
                forever: n > 0 || r.chance(1, 2),
                ..NodeCfg::default()
            },
        ));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let a0 = m.nodes[0].addr.clone().unwrap();
    let most = |evs: &[Ev]| {
        let (mut c, mut top) = (0i64, 0i64);
        for e in evs.iter().filter(|e| e.n == 0) {
            match e.w {
                What::Open { .. } => c += 1,
                What::Close { .. } => c -= 1,
                _ => (),
            }
            top = top.max(c);
        }
        (top as usize, c as usize)
    };
    let mut dials: HashMap<usize, usize> = HashMap::new();
    let gone = Proxy::new(r, &a0, |_, _| (Plan::default(), Plan::default()));
    gone.refuse(true);
    let mut nowhere = std::collections::HashSet::new();
    for _ in 0..r.rus(2, 4) {
        // burst from outside, and a few dials of its own
        let mut who: Vec<usize> = (1..=peers).collect();
        r.shuffle(&mut who);
        for j in &who {
            if r.chance(1, 5) {
                let a = m.nodes[*j].addr.clone().unwrap();
                until_ok(|| m.nodes[0].ctl.dial(a.clone(), TargetProtocol::All));
                *dials.entry(0).or_insert(0usize) += 1;
            } else {
                until_ok(|| m.nodes[*j].ctl.dial(a0.clone(), TargetProtocol::All));
                *dials.entry(*j).or_insert(0) += 1;
            }
        }
        // dials that lead nowhere must not cost a place
        if r.chance(1, 2) {
            for _ in 0..r.rus(1, 3) {
                let a: Multiaddr = match r.below(3) {
                    0 => format!("/ip4/127.0.0.{}/tcp/0", r.range(1, 250)).parse().unwrap(),
                    1 if secure => gone.addr.clone(),
                    _ => {
                        let l = TcpListener::bind("127.0.0.1:0").unwrap();
                        socketaddr_to_multiaddr(l.local_addr().unwrap())
                    }
                };
                if nowhere.insert(a.to_string()) {
                    until_ok(|| m.nodes[0].ctl.dial(a.clone(), TargetProtocol::All));
                    *dials.entry(0).or_insert(0usize) += 1;
                    acc.add("dials to nowhere", 1);
                }
            }
        }
        // every dial answered, and both ends agree on what is open
        let over = |evs: &[Ev]| {
            dials.iter().all(|(n, d)| evs.iter().filter(|e| e.n == *n && matches!(&e.w, What::Open { out: true, .. } | What::DialErr { .. })).count() >= *d)
                && open_sessions(evs, 0).len() == (1..=peers).map(|n| open_sessions(evs, n).len()).sum::<usize>()
        };
        until(&m.log, "burst over", over)?;
        m.log.settle(60);
        until(&m.log, "burst over", over)?;
        let (top, _now) = m.log.with(|e| most(e));
        if top > max {
            return violation("over-limit", format!("{} sessions open at once, limit {}\n{}", top, max, m.log.render(&[0], 40)));
        }
        acc.max("max_sessions", top as u64);
        acc.add("bursts", 1);
        if top == max {
            acc.add("limit reached", 1);
        }
        // empty it, refused peers gone too, then one peer after the other must get in
        for s in m.log.with(|e| open_sessions(e, 0)) {
            until_ok(|| m.nodes[0].ctl.disconnect(s.into()));
        }
        until(&m.log, "all closed", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
        m.log.settle(30);
        until(&m.log, "all closed", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
        who.truncate(max);
        for (i, j) in who.iter().enumerate() {
            until_ok(|| m.nodes[*j].ctl.dial(a0.clone(), TargetProtocol::All));
            *dials.entry(*j).or_insert(0) += 1;
            let ok = m.log.wait(|evs| open_sessions(evs, 0).len() == i + 1 && open_sessions(evs, *j).len() == 1)?;
            if !ok {
                return violation("capacity-lost", format!("{} of {} sessions open, a further peer does not get one\n{}", i, max, m.log.render(&[0, *j], 40)));
            }
            acc.add("filled again", 1);
        }
        for s in m.log.with(|e| open_sessions(e, 0)) {
            until_ok(|| m.nodes[0].ctl.disconnect(s.into()));
        }
        until(&m.log, "all closed", |evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

pub fn t15_idle(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let timeout = r.range(250, 600);
    let mut nodes = vec![];
    for n in 0..2 {
        // node 0 knows 1 and 2, node 1 knows 1 and 3
        let protos = vec![ProtoCfg::new(1, Mode::any(r)), ProtoCfg::new(if n == 0 { 2 } else { 3 }, Mode::any(r))];
        nodes.push(start(&rt, &log, n, NodeCfg { key: if secure { Some(key(r)) } else { None }, protos, timeout_ms: timeout, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let busy = r.chance(1, 2);
    let a1 = m.nodes[1].addr.clone().unwrap();
    let p = if busy { 1 } else { 2 };
    until_ok(|| m.nodes[0].ctl.dial(a1.clone(), TargetProtocol::Single(pid(p))));
    let both = |evs: &[Ev]| (0..2).all(|n| evs.iter().any(|e| e.n == n && matches!(e.w, What::Open { .. })));
    until(&m.log, "session", both)?;
    if busy {
        let v: Vec<_> = (0..2).map(|n| m.nodes[n].modes[&1].vias()).collect();
        let conn = |evs: &[Ev]| (0..2).all(|n| is_conn(evs, n, 1, 1, v[n]));
        let ok = m.log.wait(|evs| conn(evs) || evs.iter().any(|e| matches!(e.w, What::Close { .. })))?;
        if !ok {
            return Err(vcommon::Verdict::Inconclusive("protocol not opened".into()));
        }
        if !m.log.with(conn) {
            // on a busy machine the protocol may really have come too late
            return Err(vcommon::Verdict::Inconclusive("protocol not opened within the timeout".into()));
        }
        let end = Instant::now() + Duration::from_millis(timeout * 3);
        while Instant::now() < end {
            std::thread::sleep(Duration::from_millis(10));
            vcommon::exec::beat();
        }
        let evs = m.log.snap();
        if let Some(e) = evs.iter().find(|e| matches!(e.w, What::Close { .. } | What::IdleErr { .. })) {
            return violation("busy-closed", format!("a session with an open protocol: {:?} at node {}\n{}", e.w, e.n, m.log.render(&[], 40)));
        }
        // idle, but open: it still works
        let h = Hdr { src: 0, high: false, p: 1, s: 1, thr: 0, seq: 0, len: 100 };
        until_ok(|| m.nodes[0].ctl.send_message_to(1.into(), pid(1), make(&h)));
        if !m.log.wait(|evs| evs.iter().any(|e| e.n == 1 && matches!(&e.w, What::Recv { data, .. } if parse(data) == Some(h))))? {
            return violation("busy-dead", format!("a session idle for three timeouts carries no message\n{}", m.log.render(&[], 40)));
        }
        acc.add("sessions kept", 1);
    } else {
        let ok = m.log.wait(|evs| (0..2).all(|n| evs.iter().any(|e| e.n == n && matches!(e.w, What::Close { .. }))))?;
        let evs = m.log.snap();
        if !ok {
            return violation("idle-kept", format!("no protocol was opened, timeout {} ms, session not closed at both ends\n{}", timeout, m.log.render(&[], 40)));
        }
        let first = evs.iter().find(|e| matches!(e.w, What::Close { .. })).unwrap();
        let opened = evs.iter().find(|e| matches!(e.w, What::Open { .. })).unwrap();
        let reported = evs.iter().any(|e| matches!(e.w, What::IdleErr { .. }));
        if !reported {
            return violation("idle-unreported", format!("no protocol was opened, the session was closed without a timeout report at either end\n{}", m.log.render(&[], 40)));
        }
        let took = first.t.duration_since(opened.t).as_millis() as u64;
        if took + 60 < timeout {
            return violation("idle-early", format!("timeout {} ms, closed after {} ms\n{}", timeout, took, m.log.render(&[], 40)));
        }
        acc.add("idle sessions closed", 1);
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t15_handshake(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let timeout = r.range(200, 600);
    let node = start(&rt, &log, 0, NodeCfg { key: Some(key(r)), protos: vec![ProtoCfg::new(1, Mode::Event)], timeout_ms: timeout, listen: Some(fresh(r, false)), ..NodeCfg::default() });
    let a = multiaddr_to_socketaddr(node.addr.as_ref().unwrap()).unwrap();
    let m = Mesh { rt: Some(rt), log, nodes: vec![node], links: vec![], peer: HashMap::new(), protos: vec![1] };
    let n = r.rus(1, 6);
    let start = Instant::now();
    let res: Arc<std::sync::Mutex<Vec<Result<u64, String>>>> = Default::default();
    std::thread::scope(|sc| {
        for _ in 0..n {
            let k = r.us(30);
            let part = r.bytes(k);
            let drip = r.chance(1, 3);
            let res = res.clone();
            let mut r = r.fork();
            sc.spawn(move || {
                use std::io::Write;
                let mut s = std::net::TcpStream::connect(a).unwrap();
                let t = Instant::now();
                if !drip {
                    let mut v = (part.len() as u32).to_be_bytes().to_vec();
                    v.extend_from_slice(&part);
                    let cut = r.us(v.len() + 1);
                    let _ = s.write_all(&v[..cut]);
                } else {
                    let _ = s.write_all(&[0, 0, 1, 0]);
                }
                s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
                let mut b = [0u8; 4096];
                loop {
                    match s.read(&mut b) {
                        Ok(0) => break,
                        Ok(_) => (),
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => {
                            if drip {
                                let _ = s.write_all(&[7]);
                            }
                            if t.elapsed().as_millis() as u64 > timeout + QUIET_MS {
                                res.lock().unwrap().push(Err("not dropped".into()));
                                return;
                            }
                        }
                        Err(_) => break,
                    }
                }
                res.lock().unwrap().push(Ok(t.elapsed().as_millis() as u64));
            });
        }
    });
    let _ = start;
    for x in res.lock().unwrap().iter() {
        match x {
            Ok(_) => acc.add("stalled handshakes dropped", 1),
            Err(_) => return violation("handshake-kept", format!("a connection that never finishes its handshake (timeout {} ms) was still open {} ms later", timeout, timeout + QUIET_MS)),
        }
    }
    if m.log.count(|e| matches!(e.w, What::Open { .. })) > 0 {
        return violation("handshake-open", "a session was opened without a handshake");
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t15(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "bursts of connections against a limit of 1-5 from both directions, then the freed capacity is used again; sessions without protocol are closed and reported not before the timeout, sessions with one are kept; connections stalling their handshake are dropped".into(),
            assumptions: vec![],
            cases: ctx.q(120, 2000),
            budget_s: ctx.q(25, 600),
            threads: 8,
            must_see: vec!["bursts", "dials to nowhere", "limit reached", "filled again", "sessions kept", "idle sessions closed", "stalled handshakes dropped"],
        },
        |seed, idx| {
            wrap(|| match idx % 4 {
                0 | 1 => t15_limit(seed),
                2 => t15_idle(seed),
                _ => t15_handshake(seed),
            })
        },
    )
}
