//! T24: connections leave from the local address that was set for their transport.
use crate::{dial::outcome, judge::R, mesh::*, net::*, traffic::wrap};
use std::{
    collections::HashMap,
    net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener},
    sync::atomic::{AtomicU16, Ordering},
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    service::TargetProtocol,
    utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

/// an address nobody uses
fn local(r: &mut Rng, v6: bool) -> SocketAddr {
    if v6 {
        // there is one address only: take ports the system does not give out by itself
        static NEXT: AtomicU16 = AtomicU16::new(0);
        loop {
            let port = 10_000 + NEXT.fetch_add(1, Ordering::SeqCst) % 20_000;
            if let Ok(l) = TcpListener::bind(SocketAddr::new("::1".parse().unwrap(), port)) {
                return l.local_addr().unwrap();
            }
        }
    }
    let ip = IpAddr::V4(Ipv4Addr::new(127, r.range(1, 250) as u8, r.range(1, 250) as u8, r.range(1, 250) as u8));
    TcpListener::bind(SocketAddr::new(ip, 0)).unwrap().local_addr().unwrap()
}

fn ma(s: SocketAddr, ws: bool) -> Multiaddr {
    let mut a = socketaddr_to_multiaddr(s);
    if ws {
        a.push(Protocol::Ws);
    }
    a
}

pub fn one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let v6 = has_v6() && r.chance(1, 3);
    let mk = |r: &mut Rng| if secure { Some(key(r)) } else { None };
    let k = r.rus(2, 5);
    let mut ws = vec![false];
    let mut nodes = vec![];
    for n in 1..=k {
        ws.push(r.chance(1, 2));
        let at = local(r, v6);
        let mut listen = ma(SocketAddr::new(at.ip(), 0), ws[n]);
        if r.chance(1, 4) {
            listen = ma(at, ws[n]);
        }
        nodes.push(start(&rt, &log, n, NodeCfg { key: mk(r), protos: vec![ProtoCfg::new(1, Mode::any(r))], listen: Some(listen), ..NodeCfg::default() }));
    }
    let bound: Vec<Option<SocketAddr>> = (0..2).map(|_| if r.chance(2, 3) { Some(local(r, v6)) } else { None }).collect();
    // listening where it dials from is what it is for
    let listen_ws = r.chance(1, 2);
    let listen = match bound[listen_ws as usize] {
        Some(b) if r.chance(1, 2) => Some(ma(b, listen_ws)),
        _ if r.chance(1, 2) => Some(ma(SocketAddr::new(local(r, v6).ip(), 0), listen_ws)),
        _ => None,
    };
    let at_bound = listen.as_ref().map_or(false, |a| multiaddr_to_socketaddr(a) == bound[listen_ws as usize]);
    let me = start(
        &rt,
        &log,
        0,
        NodeCfg {
            key: mk(r),
            protos: vec![ProtoCfg::new(1, Mode::any(r))],
            listen,
            tcp_bind: bound[0].map(|b| ma(b, false)),
            ws_bind: bound[1].map(|b| ma(b, r.chance(1, 2))),
            ..NodeCfg::default()
        },
    );
    nodes.insert(0, me);
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let what = format!("tcp from {:?}, ws from {:?}, listening at {:?}", bound[0], bound[1], m.nodes[0].addr);
    let mut asked = vec![];
    for n in 1..=k {
        let mut a = m.nodes[n].addr.clone().unwrap();
        if r.chance(1, 4) {
            a = a.to_string().replace("/ip4/", "/dns4/").replace("/ip6/", "/dns6/").parse().unwrap();
            acc.add("looked up", 1);
        }
        if !until_ok(|| m.nodes[0].ctl.raw.dial(a.clone(), TargetProtocol::All)) {
            return violation("gone", format!("the service ended ({})\n{}", what, m.log.render(&[0], 20)));
        }
        if r.chance(1, 3) {
            let _ = m.log.wait(|evs| evs.iter().any(|e| outcome(e, 0, &a).is_some()))?;
        }
        asked.push((n, a));
    }
    for (n, a) in &asked {
        let over = m.log.wait(|evs| evs.iter().any(|e| outcome(e, 0, a).is_some()))?;
        if !over {
            return violation("no-outcome", format!("dial to {} has no outcome ({})\n{}", a, what, m.log.render(&[0, *n], 40)));
        }
        if let Some(e) = m.log.with(|evs| evs.iter().find_map(|e| outcome(e, 0, a)?.err())) {
            return violation("dial", format!("dial to {}, where somebody listens, failed with {} ({})\n{}", a, e, what, m.log.render(&[0, *n], 40)));
        }
        let from = |evs: &[Ev]| {
            evs.iter().find_map(|e| match &e.w {
                What::Open { out: false, addr, .. } if e.n == *n => Some(addr.clone()),
                _ => None,
            })
        };
        if !m.log.wait(|evs| from(evs).is_some())? {
            return violation("one-sided", format!("the session to {} opened at one end only ({})\n{}", a, what, m.log.render(&[0, *n], 40)));
        }
        let from = m.log.with(from).unwrap();
        let src = match multiaddr_to_socketaddr(&from) {
            Some(s) => s,
            None => return violation("source", format!("node {} says its session comes from {}", n, from)),
        };
        if from.iter().any(|p| p == Protocol::Ws) != ws[*n] {
            return violation("source", format!("node {}, listening at {:?}, says its session comes from {}", n, m.nodes[*n].addr, from));
        }
        match bound[ws[*n] as usize] {
            Some(b) => {
                if src != b {
                    return violation("source", format!("the connection to {} came from {} ({})", a, src, what));
                }
                acc.add(if ws[*n] { "ws from where it was set" } else { "tcp from where it was set" }, 1);
            }
            None => {
                if bound.contains(&Some(src)) {
                    return violation("source", format!("the connection to {} came from {}, which was not set for it ({})", a, src, what));
                }
                acc.add("from anywhere", 1);
            }
        }
        if v6 {
            acc.add("over IPv6", 1);
        }
    }
    // the listener is no less of one
    if let Some(at) = m.nodes[0].addr.clone() {
        let log = &m.log;
        let probe = start(m.rt.as_ref().unwrap(), log, 9, NodeCfg { key: mk(r), protos: vec![ProtoCfg::new(1, Mode::any(r))], ..NodeCfg::default() });
        until_ok(|| probe.ctl.raw.dial(at.clone(), TargetProtocol::All));
        let over = log.wait(|evs| evs.iter().any(|e| outcome(e, 9, &at).is_some()))?;
        let ok = over && log.with(|evs| evs.iter().any(|e| matches!(outcome(e, 9, &at), Some(Ok(_)))));
        if !ok {
            return violation("deaf", format!("the service does not accept at {} ({})\n{}", at, what, log.render(&[0, 9], 40)));
        }
        acc.add(if at_bound { "accepted where it dials from" } else { "accepted elsewhere" }, 1);
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, k as u64);
    Ok(acc)
}

pub fn t24(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "services with and without a local address set for tcp and for websocket dial several listeners, by number and by name; every listener must see the connection come from exactly that address, the dials must succeed, and the service must accept where it listens, also at that same address".into(),
            assumptions: vec![],
            cases: ctx.q(300, 6000),
            budget_s: ctx.q(15, 400),
            threads: 5,
            must_see: vec!["tcp from where it was set", "ws from where it was set", "from anywhere", "looked up", "accepted where it dials from", "accepted elsewhere"],
        },
        |seed, _| wrap(|| one(seed)),
    )
}
