//! T22: a service that is not to run for ever ends when, and only when, it has nothing left.
use crate::{dial::{outcome, with_peer}, judge::R, mesh::*, net::*, proxy::{Plan, Proxy}, traffic::wrap};
use std::{collections::HashMap, net::TcpListener, time::{Duration, Instant}};
use tentacle::{
    multiaddr::Multiaddr,
    secio::PeerId,
    service::TargetProtocol,
    utils::socketaddr_to_multiaddr,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

enum To {
    Peer,
    Nowhere,
    Other,
    Silent,
}

struct Place {
    addr: Multiaddr,
    kind: To,
    _proxy: Option<Proxy>,
    sock: Option<TcpListener>,
}

fn place(r: &mut Rng, secure: bool, peers: &[Multiaddr]) -> Place {
    let bind = |r: &mut Rng| TcpListener::bind(format!("127.{}.{}.{}:0", r.range(1, 250), r.range(1, 250), r.range(1, 250))).unwrap();
    let p = r.pick(peers).clone();
    match r.below(if secure { 7 } else { 3 }) {
        // unusable, or nobody there
        0 => {
            let l = bind(r);
            Place { addr: socketaddr_to_multiaddr(l.local_addr().unwrap()), kind: To::Nowhere, _proxy: None, sock: None }
        }
        1 => {
            let s = if r.chance(1, 2) { format!("/ip4/127.0.{}.{}", r.range(1, 250), r.range(1, 250)) } else { format!("/ip4/127.0.{}.{}/tcp/0", r.range(1, 250), r.range(1, 250)) };
            Place { addr: s.parse().unwrap(), kind: To::Nowhere, _proxy: None, sock: None }
        }
        // another way to a peer
        2 | 3 => {
            let x = Proxy::new(r, &p, |r, _| (Plan::clean(r), Plan::clean(r)));
            Place { addr: x.addr.clone(), kind: To::Peer, _proxy: Some(x), sock: None }
        }
        // lost in the handshake
        4 => {
            let (at, rst) = (r.range(0, 300), r.chance(1, 2));
            let x = Proxy::new(r, &p, move |_, _| (Plan::default(), Plan { cut_at: Some(at), rst, ..Plan::default() }));
            Place { addr: x.addr.clone(), kind: To::Nowhere, _proxy: Some(x), sock: None }
        }
        // somebody else
        5 => {
            let x = Proxy::new(r, &p, |r, _| (Plan::clean(r), Plan::clean(r)));
            Place { addr: with_peer(&x.addr, &PeerId::random()), kind: To::Other, _proxy: Some(x), sock: None }
        }
        // never answers
        _ => {
            let l = bind(r);
            l.set_nonblocking(true).unwrap();
            Place { addr: socketaddr_to_multiaddr(l.local_addr().unwrap()), kind: To::Silent, _proxy: None, sock: Some(l) }
        }
    }
}

pub fn t22_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(2, 3);
    let k = r.rus(1, 3);
    let mut nodes = vec![];
    let mk = |r: &mut Rng| if secure { Some(key(r)) } else { None };
    for n in 1..=k {
        let cfg = NodeCfg { key: mk(r), protos: vec![ProtoCfg::new(1, Mode::any(r))], listen: Some(fresh(r, false)), ..NodeCfg::default() };
        nodes.push(start(&rt, &log, n, cfg));
    }
    let addrs: Vec<Multiaddr> = nodes.iter().map(|n| n.addr.clone().unwrap()).collect();
    // what it does before it runs: one session to stay, or none
    let keeper = r.chance(4, 5);
    let mut places: Vec<Place> = (0..r.us(4)).map(|_| place(r, secure, &addrs)).collect();
    let mut first: Vec<Multiaddr> = places.iter().map(|p| p.addr.clone()).collect();
    if keeper {
        let at = r.us(first.len() + 1);
        first.insert(at, addrs[0].clone());
    }
    let listens = r.chance(1, 6);
    let timeout = r.range(600, 1500);
    let me = start(
        &rt,
        &log,
        0,
        NodeCfg {
            key: mk(r),
            protos: vec![ProtoCfg::new(1, Mode::any(r))],
            timeout_ms: timeout,
            forever: false,
            max_conn: if r.chance(1, 4) { Some(r.rus(1, 3)) } else { None },
            listen: if listens { Some(fresh(r, false)) } else { None },
            dial: first.clone(),
            ..NodeCfg::default()
        },
    );
    let mut due: HashMap<String, (Multiaddr, usize)> = HashMap::new();
    for (a, ok) in first.iter().zip(&me.dialled) {
        if *ok {
            due.entry(a.to_string()).or_insert((a.clone(), 0)).1 += 1;
            acc.add("dialled before the start", 1);
        }
    }
    nodes.insert(0, me);
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let me = &m.nodes[0];
    let count = |evs: &[Ev], a: &Multiaddr| evs.iter().filter(|e| outcome(e, 0, a).is_some()).count();
    let ended = |evs: &[Ev]| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::End));
    let mut bad_listens = 0;
    let refused = |evs: &[Ev]| evs.iter().filter(|e| e.n == 0 && matches!(&e.w, What::ListenErr { kind, .. } if kind != "repeated")).count();
    if keeper {
        let a = addrs[0].clone();
        if !due.contains_key(&a.to_string()) {
            return Err(vcommon::Verdict::Inconclusive("the first dial failed".into()));
        }
        let got = m.log.wait(|evs| count(evs, &a) > 0)?;
        let open = m.log.with(|evs| evs.iter().find_map(|e| outcome(e, 0, &a)));
        let s = match (got, open) {
            (true, Some(Ok(s))) => s,
            // another way to the same peer was quicker, or the limit is reached
            (true, Some(Err(_))) => 0,
            _ => return violation("no-outcome", format!("the dial of {} before the start was never answered\n{}", a, m.log.render(&[0], 40))),
        };
        if s > 0 {
            let lost = |evs: &[Ev]| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::Close { s: x } if x == s));
            for _ in 0..r.rus(1, 4) {
                for _ in 0..r.rus(1, 4) {
                    match r.below(6) {
                        0 => {
                            // no such address here
                            let x: Multiaddr = format!("/ip4/203.0.113.{}/tcp/{}", r.range(1, 250), r.range(1, 60_000)).parse().unwrap();
                            if until_ok(|| me.ctl.listen(x.clone())) {
                                bad_listens += 1;
                            }
                        }
                        1 => {
                            let ms = r.below(20);
                            until_ok(|| me.ctl.future_task(async move {
                                let _ = tentacle::runtime::delay_for(Duration::from_millis(ms)).await;
                            }));
                        }
                        2 => {
                            for x in m.log.with(|e| open_sessions(e, 0)) {
                                if x != s && r.chance(1, 2) {
                                    until_ok(|| me.ctl.disconnect(x.into()));
                                }
                            }
                        }
                        _ => {
                            let p = place(r, secure, &addrs);
                            let d = due.entry(p.addr.to_string()).or_insert((p.addr.clone(), 0));
                            if d.1 == 0 && until_ok(|| me.ctl.dial(p.addr.clone(), TargetProtocol::All)) {
                                d.1 += 1;
                                acc.add("dials", 1);
                            }
                            places.push(p);
                        }
                    }
                }
                if r.chance(1, 2) {
                    m.log.settle(20);
                }
            }
            // every request was taken up
            for p in &places {
                if let Some(l) = &p.sock {
                    let t = Instant::now();
                    while l.accept().is_err() {
                        if t.elapsed().as_secs() > 10 {
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(1));
                    }
                }
            }
            let loud: Vec<Multiaddr> = places.iter().filter(|p| !matches!(p.kind, To::Silent)).map(|p| p.addr.clone()).filter(|a| due.get(&a.to_string()).map_or(false, |d| d.1 > 0)).collect();
            if !m.log.wait(|evs| loud.iter().all(|a| count(evs, a) > 0) && refused(evs) >= bad_listens)? {
                if m.log.with(lost) {
                    return Err(vcommon::Verdict::Inconclusive("the session meant to stay was lost".into()));
                }
                return violation("no-outcome", format!("a dial or listen request was never answered\n{}", m.log.render(&[0], 60)));
            }
            if r.chance(1, 2) {
                // pending dials come to their end before
                m.log.settle(timeout + 100);
            }
            if m.log.with(ended) && !m.log.with(lost) {
                return violation("ended-early", format!("the service ended although session {} was open\n{}", s, m.log.render(&[0], 60)));
            }
            if m.log.with(lost) {
                return Err(vcommon::Verdict::Inconclusive("the session meant to stay was lost".into()));
            }
            // everything goes, from either end
            for x in m.log.with(|e| open_sessions(e, 0)) {
                if x == s && r.chance(1, 2) {
                    for y in m.log.with(|e| open_sessions(e, 1)) {
                        until_ok(|| m.nodes[1].ctl.disconnect(y.into()));
                    }
                }
                until_ok(|| me.ctl.disconnect(x.into()));
            }
            acc.add("sessions ended", 1);
        }
    }
    if listens {
        // a listener is enough to go on
        let quiet = |evs: &[Ev]| due.values().all(|d| count(evs, &d.0) >= d.1);
        m.log.wait(quiet)?;
        for x in m.log.with(|e| open_sessions(e, 0)) {
            until_ok(|| me.ctl.disconnect(x.into()));
        }
        m.log.settle(150);
        if m.log.with(ended) {
            return violation("ended-early", format!("the service ended although it listens\n{}", m.log.render(&[0], 60)));
        }
        acc.add("kept by a listener", 1);
    } else {
        // sessions that came up meanwhile
        let done = m.log.wait(|evs| {
            for x in open_sessions(evs, 0) {
                let _ = me.ctl.disconnect(x.into());
            }
            ended(evs)
        })?;
        let evs = m.log.snap();
        let open = open_sessions(&evs, 0);
        let missing: Vec<String> = due.values().filter(|d| count(&evs, &d.0) < d.1).map(|d| d.0.to_string()).collect();
        if !done {
            return violation(
                "not-ended",
                format!("nothing is left to do (open sessions {:?}, unanswered dials {:?}, no listener), but the service does not end\n{}", open, missing, m.log.render(&[0], 60)),
            );
        }
        if !open.is_empty() || !missing.is_empty() || refused(&evs) < bad_listens {
            return violation("ended-early", format!("the service ended by itself with open sessions {:?}, unanswered dials {:?}, {} of {} listen requests refused\n{}", open, missing, refused(&evs), bad_listens, m.log.render(&[0], 60)));
        }
        acc.add(if places.iter().any(|p| matches!(p.kind, To::Silent)) { "ended after a dial timed out" } else { "ended" }, 1);
        if let Some(e) = evs.iter().find(|e| e.n == 0 && matches!(e.w, What::Left(_))) {
            return violation("handler-outlives", format!("the service ended by itself, but {:?} of its service-lived handlers were not dropped yet\n{}", e.w, m.log.render(&[0], 60)));
        }
        if due.is_empty() {
            acc.add("nothing to do from the start", 1);
        }
        if me.ctl.dial(addrs[0].clone(), TargetProtocol::All).is_ok() {
            return violation("call-accepted", "a request succeeded although the service has ended");
        }
        let t = Instant::now();
        while m.log.live(0) != 0 {
            if t.elapsed().as_millis() as u64 > QUIET_MS {
                return violation("handler-kept", format!("the service ended by itself, {} of its handlers still exist\n{}", m.log.live(0), m.log.render(&[0], 60)));
            }
            vcommon::exec::beat();
            std::thread::sleep(Duration::from_millis(1));
        }
        // nobody keeps a session with it
        if !m.log.wait(|evs| (1..=k).all(|n| open_sessions(evs, n).is_empty()))? {
            return violation("peer-kept", format!("a peer still has a session with the service that ended\n{}", m.log.render(&[], 60)));
        }
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

pub fn t22(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a service built not to run for ever dials, listens and takes futures, before and after it starts; it must not end while it has a listener, a session or an unanswered dial, and must end, with its handlers, once nothing is left".into(),
            assumptions: vec!["user futures alone are not counted as something left".into()],
            cases: ctx.q(400, 6000),
            budget_s: ctx.q(22, 600),
            threads: 8,
            must_see: vec!["dialled before the start", "dials", "sessions ended", "kept by a listener", "ended", "ended after a dial timed out", "nothing to do from the start"],
        },
        |seed, _| wrap(|| t22_one(seed)),
    )
}
