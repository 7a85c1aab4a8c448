//! T03, T04, T14: the life of sessions, protocols and their handlers.
use crate::{judge, judge::R, mesh::*, net::*, proxy::{Plan, Proxy}, traffic::wrap};
use std::{
    collections::{HashMap, HashSet},
    sync::atomic::Ordering,
    time::{Duration, Instant},
};
use tentacle::service::TargetProtocol;
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

fn target(r: &mut Rng, protos: &[usize]) -> TargetProtocol {
    match r.below(4) {
        0 => TargetProtocol::Single(pid(*r.pick(protos))),
        1 => {
            let mut v = protos.to_vec();
            r.shuffle(&mut v);
            v.truncate(r.rus(1, v.len()));
            TargetProtocol::Multi(v.into_iter().map(pid).collect())
        }
        _ => TargetProtocol::All,
    }
}

/// random operations from several threads on services that dial each other
struct Chaos {
    m: Mesh,
    proxies: Vec<(usize, usize, Proxy)>,
}

fn set_up(r: &mut Rng, plain_only: bool) -> R<Chaos> {
    let mut c = MeshCfg::random(r);
    c.nodes = r.rus(2, 4);
    c.extra_links = false;
    if plain_only {
        c.secure = false;
    }
    c.window = None;
    let log = Log::new();
    let rt = runtime(r);
    let mut nodes = Vec::new();
    for n in 0..c.nodes {
        let mut protos = Vec::new();
        for p in &c.protos {
            let mut pc = ProtoCfg::new(*p, Mode::any(r));
            pc.no_block = c.no_block;
            protos.push(pc);
        }
        nodes.push(start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if c.secure { Some(key(r)) } else { None },
                protos,
                keep_buffer: c.keep_buffer,
                listen: Some(fresh(r, false)),
                ..NodeCfg::default()
            },
        ));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: c.protos.clone() };
    let mut proxies = Vec::new();
    for i in 0..c.nodes {
        for j in 0..c.nodes {
            if i != j {
                let t = m.nodes[j].addr.clone().unwrap();
                let p = Proxy::new(r, &t, |r, _| {
                    let mut f = |r: &mut Rng| {
                        let mut p = Plan::clean(r);
                        if r.chance(1, 3) {
                            let at = match r.below(3) {
                                0 => r.range(0, 60),
                                1 => r.range(0, 1500),
                                _ => r.range(0, 60_000),
                            };
                            match r.below(3) {
                                0 | 1 => p.cut_at = Some(at),
                                _ => p.flip_at = Some(at),
                            }
                        }
                        p.rst = r.chance(1, 3);
                        p
                    };
                    (f(r), f(r))
                });
                proxies.push((i, j, p));
            }
        }
    }
    m.protos = c.protos;
    Ok(Chaos { m, proxies })
}

impl Chaos {
    fn drive(&self, r: &mut Rng, ops: usize) -> u64 {
        let m = &self.m;
        let done = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for node in &m.nodes {
                let threads = r.rus(1, 2);
                for t in 0..threads {
                    let mut r = r.fork();
                    let done = &done;
                    sc.spawn(move || {
                        let mine: Vec<&(usize, usize, Proxy)> = self.proxies.iter().filter(|p| p.0 == node.n).collect();
                        let mut seq = 0;
                        for _ in 0..ops {
                            vcommon::exec::beat();
                            let sess = m.log.with(|e| open_sessions(e, node.n));
                            let k = r.below(100);
                            done.fetch_add(1, Ordering::Relaxed);
                            if sess.is_empty() || k < 12 {
                                let (_, j, p) = *r.pick(&mine);
                                let to = if r.chance(1, 2) { p.addr.clone() } else { m.nodes[*j].addr.clone().unwrap() };
                                let _ = node.ctl.dial(to, target(&mut r, &m.protos));
                            } else {
                                let s = *r.pick(&sess);
                                let p = *r.pick(&m.protos);
                                match k {
                                    12..=29 => {
                                        let _ = node.ctl.open_protocol(s.into(), pid(p));
                                    }
                                    30..=44 => {
                                        let _ = node.ctl.close_protocol(s.into(), pid(p));
                                    }
                                    45..=84 => {
                                        for _ in 0..r.rus(1, 20) {
                                            let h = Hdr { src: node.n as u8, high: false, p: p as u16, s: s as u32, thr: t as u32, seq, len: r.range(40, 3000) as u32 };
                                            seq += 1;
                                            let _ = if r.chance(1, 4) {
                                                node.ctl.quick_send_message_to(s.into(), pid(p), make(&h))
                                            } else {
                                                node.ctl.send_message_to(s.into(), pid(p), make(&h))
                                            };
                                        }
                                    }
                                    85..=90 => {
                                        let _ = node.ctl.disconnect(s.into());
                                    }
                                    91..=94 => {
                                        let (_, _, x) = *r.pick(&mine);
                                        x.cut(r.chance(1, 2));
                                    }
                                    95..=97 => {
                                        let kn = node.knob(p);
                                        kn.slow_us.store(*r.pick(&[0u64, 0, 100, 2000]), Ordering::SeqCst);
                                    }
                                    _ => {
                                        let (_, _, x) = *r.pick(&mine);
                                        x.stall(true);
                                        std::thread::sleep(Duration::from_micros(r.range(100, 4000)));
                                        x.stall(false);
                                    }
                                }
                            }
                            if r.chance(1, 2) {
                                std::thread::sleep(Duration::from_micros(r.below(3000)));
                            }
                        }
                    });
                }
            }
        });
        for n in &m.nodes {
            for p in &m.protos {
                n.knob(*p).slow_us.store(0, Ordering::SeqCst);
            }
        }
        done.load(Ordering::Relaxed)
    }

    /// ends every session, by the ends or by the network
    fn end_all(&self, r: &mut Rng) -> R<bool> {
        let m = &self.m;
        let mut round = 0;
        loop {
            round += 1;
            let cut = r.chance(1, 3);
            if cut {
                for p in &self.proxies {
                    p.2.cut(r.chance(1, 2));
                }
            }
            for n in &m.nodes {
                for s in m.log.with(|e| open_sessions(e, n.n)) {
                    if r.chance(1, 2) || round > 1 {
                        let _ = n.ctl.disconnect(s.into());
                    }
                }
            }
            m.log.settle(120);
            let left: usize = m.nodes.iter().map(|n| m.log.with(|e| open_sessions(e, n.n)).len()).sum();
            if left == 0 {
                m.log.settle(150);
                if m.nodes.iter().all(|n| m.log.with(|e| open_sessions(e, n.n)).is_empty()) {
                    return Ok(true);
                }
            }
            if round > 4 {
                let w = m.log.wait(|evs| m.nodes.iter().all(|n| open_sessions(evs, n.n).is_empty()))?;
                return Ok(w);
            }
        }
    }
}

pub fn t03_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let c = set_up(r, false)?;
    let ops = r.rus(10, 60);
    let mut acc = Acc::default();
    let n = c.drive(r, ops);
    acc.add("operations", n);
    let refs = c.m.refs();
    if r.chance(1, 4) {
        // services end by themselves
        for n in &c.m.nodes {
            let _ = n.ctl.close();
        }
        let _ = c.m.log.wait_q(4000, |evs| refs.iter().all(|n| evs.iter().any(|e| e.n == n.n && matches!(e.w, What::End))))?;
        acc.add("services closed", 1);
        judge::handlers(&c.m.log.snap(), &refs, false, &mut acc)?;
    } else {
        let all = c.end_all(r)?;
        if !all {
            acc.add("sessions that did not end", 1);
        }
        let ok = c.m.log.wait(|evs| judge::handlers(evs, &refs, true, &mut Acc::default()).is_ok())?;
        let evs = c.m.log.snap();
        if !ok {
            judge::handlers(&evs, &refs, true, &mut acc)?;
        }
        c.m.log.settle(30);
        judge::handlers(&c.m.log.snap(), &refs, true, &mut acc)?;
    }
    acc.nontrivial = acc.get("connected") > 0;
    acc.sig = vcommon::mix(c.m.log.len() as u64, seed);
    acc.sample = Some(format!("{} events", c.m.log.len()));
    Ok(acc)
}

pub fn t03(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "2-4 services dial, open and close protocols, send, disconnect and lose connections at random; each handler's calls must follow connected, received*, disconnected, nothing outside, one session per session-lived object, and all be closed once the sessions are".into(),
            assumptions: vec!["a session-lived handler of a closing session ends by being dropped, as documented, instead of disconnected".into()],
            cases: ctx.q(160, 4000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["connected", "received", "disconnected", "inits"],
        },
        |seed, _| wrap(|| t03_one(seed)),
    )
}

pub fn t04_one(seed: u64, shape: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    if shape == 0 {
        return t04_pairs(r, acc);
    }
    let c = set_up(r, shape == 2)?;
    let ops = r.rus(10, 60);
    acc.add("operations", c.drive(r, ops));
    let all = c.end_all(r)?;
    let evs = c.m.log.snap();
    for n in &c.m.nodes {
        judge::sessions(&evs, n.n, false, &mut acc)?;
    }
    if !all {
        let l: Vec<_> = c.m.nodes.iter().map(|n| (n.n, open_sessions(&evs, n.n))).collect();
        return violation("never-closed", format!("every session was disconnected or cut, still open (node, sessions): {:?}\n{}", l, c.m.log.render(&[], 60)));
    }
    check_keys(&c.m, &evs, &mut acc)?;
    acc.nontrivial = acc.get("sessions opened") > 0;
    acc.sig = vcommon::mix(evs.len() as u64, seed);
    Ok(acc)
}

/// a session must be reported with the identity of one of the other services, and the address
/// dialled
fn check_keys(m: &Mesh, evs: &[Ev], acc: &mut Acc) -> R<()> {
    for e in evs {
        if let What::Open { s, key, out, addr } = &e.w {
            let me = &m.nodes[e.n];
            match (&me.key, key) {
                (None, None) => (),
                (Some(mine), Some(k)) => {
                    if k == mine || !m.nodes.iter().any(|n| n.key.as_ref() == Some(k)) {
                        return violation("identity", format!("node {} session {} reported with a key that is nobody else's", e.n, s));
                    }
                    acc.add("identities compared", 1);
                    if *out {
                        // the identity belongs to the address dialled
                        if let Some(n) = m.nodes.iter().find(|n| n.addr.as_ref().map(|a| addr.to_string().starts_with(&a.to_string())).unwrap_or(false)) {
                            if n.key.as_ref() != Some(k) {
                                return violation("identity", format!("node {} session {} to {} reported with the key of another service", e.n, s, addr));
                            }
                        }
                    }
                }
                _ => return violation("identity", format!("node {} session {}: key {} reported", e.n, s, if key.is_some() { "unexpectedly" } else { "not" })),
            }
        }
    }
    Ok(())
}

/// sequential sessions: both ends report, ending one ends exactly the other end of it
pub fn t04_pairs(r: &mut Rng, mut acc: Acc) -> R<Acc> {
    let mut c = MeshCfg::random(r);
    c.proxied = 100;
    c.nodes = r.rus(2, 4);
    let mut m = mesh(r, c)?;
    let rounds = r.rus(1, 4);
    for _ in 0..rounds {
        if m.links.is_empty() {
            break;
        }
        let i = r.us(m.links.len());
        let l = m.links.remove(i);
        let from = m.log.len();
        let how = match r.below(4) {
            0 => {
                let _ = m.nodes[l.a.0].ctl.disconnect(l.a.1.into());
                "disconnected by the dialler"
            }
            1 => {
                let _ = m.nodes[l.b.0].ctl.disconnect(l.b.1.into());
                "disconnected by the listener"
            }
            k => {
                l.proxy.as_ref().unwrap().cut(k == 2);
                "connection cut"
            }
        };
        let closed = |evs: &[Ev], x: (usize, usize)| evs.iter().any(|e| e.n == x.0 && matches!(e.w, What::Close { s } if s == x.1));
        let ok = m.log.wait(|evs| closed(evs, l.a) && closed(evs, l.b))?;
        let evs = m.log.snap();
        if !ok {
            return violation("not-reported", format!("{}: end of {:?} reported: {}, end of {:?} reported: {}\n{}", how, l.a, closed(&evs, l.a), l.b, closed(&evs, l.b), m.log.render(&[], 60)));
        }
        m.log.settle(20);
        for e in &m.log.snap()[from..] {
            match e.w {
                What::Close { s } if (e.n, s) != l.a && (e.n, s) != l.b => {
                    return violation("other-session", format!("{}: session {} of node {} ended although it is not part of it\n{}", how, s, e.n, m.log.render(&[], 60)));
                }
                _ => (),
            }
        }
        acc.add("ends compared", 1);
        m.peer.remove(&l.a);
        m.peer.remove(&l.b);
    }
    let evs = m.log.snap();
    for n in &m.nodes {
        judge::sessions(&evs, n.n, false, &mut acc)?;
    }
    check_keys(&m, &evs, &mut acc)?;
    // now whole services
    let k = r.us(m.nodes.len());
    let hard = r.chance(1, 3);
    if !hard {
        let _ = m.nodes[k].ctl.close();
        let others: Vec<(usize, usize)> = m.peer.iter().filter(|(a, b)| b.0 == k && a.0 != k).map(|(a, _)| *a).collect();
        let ok = m.log.wait(|evs| {
            evs.iter().any(|e| e.n == k && matches!(e.w, What::End))
                && others.iter().all(|x| evs.iter().any(|e| e.n == x.0 && matches!(e.w, What::Close { s } if s == x.1)))
        })?;
        let evs = m.log.snap();
        if !ok {
            return violation("close-unreported", format!("service {} was closed: ended {}, ends at its peers {:?} not all reported\n{}", k, evs.iter().any(|e| e.n == k && matches!(e.w, What::End)), others, m.log.render(&[], 60)));
        }
        judge::sessions(&evs, k, true, &mut acc)?;
        acc.add("services closed", 1);
    }
    acc.nontrivial = true;
    acc.sig = r.next();
    Ok(acc)
}

pub fn t04(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a third of the cases ends paired sessions one by one (either end, cut by the network, whole service) and compares both ends; the others run random operations with handshakes cut at random bytes; every session is opened once under a fresh id with the peer's identity and closed once".into(),
            assumptions: vec![],
            cases: ctx.q(160, 4000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["sessions opened", "sessions closed", "ends compared", "identities compared", "services closed"],
        },
        |seed, idx| wrap(|| t04_one(seed, idx % 3)),
    )
}

// ---------------------------------------------------------------- T14

fn state(evs: &[Ev], m: &Mesh, at: (usize, usize), p: usize) -> bool {
    is_conn(evs, at.0, at.1, p, m.nodes[at.0].modes[&p].vias())
}

fn off(evs: &[Ev], m: &Mesh, at: (usize, usize), p: usize) -> bool {
    m.nodes[at.0].modes[&p].vias().iter().all(|v| !is_conn(evs, at.0, at.1, p, &[*v]))
}

pub fn t14_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.protos = (1..=r.rus(2, 5)).collect();
    c.nodes = r.rus(2, 3);
    c.extra_links = true;
    let nodes = c.nodes;
    c.nodes = 1;
    // build node by node so that the dial's own targets can be judged
    let log = Log::new();
    let rt = runtime(r);
    let mut ns = Vec::new();
    let sorted = r.chance(1, 2);
    let mut newest: HashMap<(usize, usize), u64> = HashMap::new();
    for n in 0..nodes {
        let protos = c
            .protos
            .iter()
            .map(|p| {
                let mut pc = ProtoCfg::new(*p, Mode::any(r));
                pc.no_block = c.no_block;
                // versions in common: the newest
                let k = r.range(1, 4);
                newest.insert((n, *p), k);
                pc.versions = (1..=k).map(|i| format!("0.0.{}", i)).collect();
                if !sorted {
                    r.shuffle(&mut pc.versions);
                }
                pc
            })
            .collect();
        ns.push(start(&rt, &log, n, NodeCfg { key: if c.secure { Some(key(r)) } else { None }, protos, keep_buffer: c.keep_buffer, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes: ns, links: vec![], peer: HashMap::new(), protos: c.protos.clone() };
    let mut on: HashMap<usize, HashSet<usize>> = HashMap::new();
    let mut links = 0;
    for i in 1..nodes {
        let j = r.us(i);
        let t = target(r, &m.protos);
        let want: HashSet<usize> = match &t {
            TargetProtocol::All => m.protos.iter().copied().collect(),
            TargetProtocol::Single(p) => vec![p.value()].into_iter().collect(),
            TargetProtocol::Multi(v) => v.iter().map(|p| p.value()).collect(),
        };
        let proxy = if r.chance(1, 2) {
            let a = m.nodes[j].addr.clone().unwrap();
            Some(Proxy::new(r, &a, |r, _| (Plan::clean(r), Plan::clean(r))))
        } else {
            None
        };
        match connect_by(&mut m, i, j, proxy, t) {
            Err(vcommon::Verdict::Inconclusive(t)) if t.starts_with("set up: protocols") => {
                return violation("dial-target", format!("the protocols {:?} asked for when dialling did not all open at both ends\n{}", want, t));
            }
            x => x?,
        }
        on.insert(links, want);
        links += 1;
    }
    let check = |m: &Mesh, on: &HashMap<usize, HashSet<usize>>, what: &str| -> R<()> {
        let evs = m.log.snap();
        for (i, l) in m.links.iter().enumerate() {
            for p in &m.protos {
                let want = on[&i].contains(p);
                for at in [l.a, l.b].iter() {
                    let ok = if want { state(&evs, m, *at, *p) } else { off(&evs, m, *at, *p) };
                    if !ok {
                        return violation(
                            "wrong-state",
                            format!("after {}: protocol {} of node {} session {} should be {}\n{}", what, p, at.0, at.1, if want { "open" } else { "closed" }, m.log.render(&[at.0], 60)),
                        );
                    }
                }
            }
        }
        if let Some(e) = evs.iter().find(|e| matches!(e.w, What::Close { .. } | What::MuxErr { .. } | What::ProtoErr { .. } | What::SelectErr { .. })) {
            return violation("session-harmed", format!("after {}: node {} reported {:?} although only protocols were opened and closed\n{}", what, e.n, e.w, m.log.render(&[], 40)));
        }
        Ok(())
    };
    m.log.settle(10);
    check(&m, &on, "dialling")?;
    let rounds = r.rus(3, 12);
    let mut seq = 0u64;
    let mut closed: HashSet<(usize, usize)> = HashSet::new();
    for _ in 0..rounds {
        // one change on each of some protocols at once
        let mut todo = Vec::new();
        for i in 0..m.links.len() {
            for p in m.protos.clone() {
                if r.chance(1, 3) {
                    todo.push((i, p));
                }
            }
        }
        r.shuffle(&mut todo);
        let mut text = String::new();
        let mut again = vec![];
        for (i, p) in &todo {
            let l = &m.links[*i];
            let at = if r.chance(1, 2) { l.a } else { l.b };
            let was = on[i].contains(p);
            // asking for what already is must change nothing
            let open = if r.chance(1, 6) { was } else { !was };
            if was && r.chance(1, 2) {
                for _ in 0..r.rus(1, 30) {
                    let h = Hdr { src: at.0 as u8, high: false, p: *p as u16, s: at.1 as u32, thr: 9, seq, len: r.range(40, 2000) as u32 };
                    seq += 1;
                    let _ = m.nodes[at.0].ctl.send_message_to(at.1.into(), pid(*p), make(&h));
                }
            }
            text.push_str(&format!(" {} {} at {:?};", if open { "open" } else { "close" }, p, at));
            let c = &m.nodes[at.0].ctl;
            if open {
                if r.chance(1, 2) {
                    until_ok(|| c.open_protocol(at.1.into(), pid(*p)));
                } else {
                    until_ok(|| c.open_protocols(at.1.into(), TargetProtocol::Single(pid(*p))));
                }
                on.get_mut(i).unwrap().insert(*p);
                if closed.contains(&(*i, *p)) {
                    again.push((at, *p));
                }
            } else {
                until_ok(|| c.close_protocol(at.1.into(), pid(*p)));
                on.get_mut(i).unwrap().remove(p);
                closed.insert((*i, *p));
            }
            acc.add(if open { "opened" } else { "closed" }, 1);
        }
        // everything, or several, at once: what is open stays
        if r.chance(1, 4) {
            let i = r.us(m.links.len());
            if !todo.iter().any(|t| t.0 == i) {
                let at = if r.chance(1, 2) { m.links[i].a } else { m.links[i].b };
                let t = target(r, &m.protos);
                text.push_str(&format!(" open {:?} at {:?};", t, at));
                let more: Vec<usize> = match &t {
                    TargetProtocol::All => m.protos.clone(),
                    TargetProtocol::Single(p) => vec![p.value()],
                    TargetProtocol::Multi(v) => v.iter().map(|p| p.value()).collect(),
                };
                until_ok(|| m.nodes[at.0].ctl.open_protocols(at.1.into(), t.clone()));
                again.extend(more.iter().filter(|p| closed.contains(&(i, **p))).map(|p| (at, *p)));
                on.get_mut(&i).unwrap().extend(more);
                acc.add("opened together", 1);
            }
        }
        // the session may learn of a close after the handlers do, and an opening asked for in
        // between is none: those are asked for again
        let asked = Instant::now();
        let mut times = 0;
        let ok = m.log.wait(|evs| {
            if times < 2 && asked.elapsed() > Duration::from_millis(700) * (times + 1) {
                times += 1;
                for (at, p) in &again {
                    let _ = m.nodes[at.0].ctl.raw.open_protocol(at.1.into(), pid(*p));
                }
            }
            m.links.iter().enumerate().all(|(i, l)| {
                m.protos.iter().all(|p| {
                    [l.a, l.b].iter().all(|at| if on[&i].contains(p) { state(evs, &m, *at, *p) } else { off(evs, &m, *at, *p) })
                })
            })
        })?;
        let _ = ok;
        check(&m, &on, &text)?;
        if r.chance(1, 2) {
            m.log.settle(10);
            check(&m, &on, &text)?;
        }
        // what is open works
        let i = r.us(m.links.len());
        let l = &m.links[i];
        if let Some(p) = { let mut v: Vec<usize> = on[&i].iter().copied().collect(); v.sort_unstable(); v.first().copied() } {
            let at = if r.chance(1, 2) { l.a } else { l.b };
            let to = m.peer[&at];
            seq += 1;
            let h = Hdr { src: at.0 as u8, high: false, p: p as u16, s: at.1 as u32, thr: 10, seq, len: 64 };
            until_ok(|| m.nodes[at.0].ctl.send_message_to(at.1.into(), pid(p), make(&h)));
            let vias = m.nodes[to.0].modes[&p].vias();
            let got = m.log.wait(|evs| {
                vias.iter().all(|v| {
                    evs.iter().any(|e| e.n == to.0 && matches!(&e.w, What::Recv { p: q, s, via, data, .. } if *q == p && *s == to.1 && via == v && parse(data) == Some(h)))
                })
            })?;
            if !got {
                return violation("dead-protocol", format!("after {}: protocol {} of node {} session {} is reported open but a message from {:?} never arrived\n{}", text, p, to.0, to.1, at, m.log.render(&[], 60)));
            }
            acc.add("messages over open protocols", 1);
        }
    }
    // every opening picked the newest version both support
    for e in m.log.snap() {
        if let What::Conn { p, s, ver, .. } = &e.w {
            let peer = m.peer[&(e.n, *s)].0;
            let want = format!("0.0.{}", newest[&(e.n, *p)].min(newest[&(peer, *p)]));
            if sorted && *ver != want {
                return violation("version", format!("node {} opened protocol {} on session {} in version {}, both support up to {}", e.n, p, s, ver, want));
            }
            acc.add("versions compared", u64::from(sorted));
        }
    }
    acc.add("rounds", rounds as u64);
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

/// requests that can not be met: reported once to the one who asked, and nothing else happens
pub fn t14_refused(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let silent = r.chance(1, 3);
    let mut ns = vec![];
    let mut modes = HashMap::new();
    for n in 0..2 {
        let mut protos = vec![];
        for p in 1..=6usize {
            let mode = Mode::any(r);
            modes.insert((n, p), mode);
            let mut pc = ProtoCfg::new(p, mode);
            let v = |l: &[u64]| -> Vec<String> { l.iter().map(|i| format!("0.0.{}", i)).collect() };
            match p {
                1 => (),
                // nothing in common
                2 => pc.versions = if n == 0 { v(&[1, 3, 5]) } else { v(&[2, 4, 6]) },
                // known to one only
                3 => pc.name = Some(format!("/only/{}", n)),
                // refused by choice, by the one asked
                4 => pc.picks = Some(None),
                // chosen, not the newest
                5 => {
                    pc.versions = v(&[1, 2, 3]);
                    pc.picks = Some(Some("0.0.2".into()));
                }
                // no version at all
                _ => pc.versions = if n == 0 { vec![] } else { v(&[1]) },
            }
            protos.push(pc);
        }
        ns.push(start(&rt, &log, n, NodeCfg { key: if secure { Some(key(r)) } else { None }, protos, timeout_ms: if silent { 1500 } else { 10_000 }, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes: ns, links: vec![], peer: HashMap::new(), protos: (1..=6).collect() };
    let to = m.nodes[1].addr.clone().unwrap();
    let proxy = Proxy::new(r, &to, |r, _| (Plan::clean(r), Plan::clean(r)));
    connect_by(&mut m, 0, 1, Some(proxy), TargetProtocol::Single(pid(1)))?;
    let l = &m.links[0];
    let name = |n: usize, p: usize| if p == 3 { format!("/only/{}", n) } else { format!("/p2p/{}", p) };
    let errs = |evs: &[Ev], from: usize, n: usize| -> Vec<Option<String>> {
        evs[from..].iter().filter(|e| e.n == n).filter_map(|e| if let What::SelectErr { name, .. } = &e.w { Some(name.clone()) } else { None }).collect()
    };
    let unharmed = |m: &Mesh, what: &str, open5: bool| -> R<()> {
        let evs = m.log.snap();
        if let Some(e) = evs.iter().find(|e| matches!(e.w, What::Close { .. } | What::MuxErr { .. } | What::ProtoErr { .. } | What::IdleErr { .. })) {
            return violation("session-harmed", format!("after {}: node {} reported {:?}\n{}", what, e.n, e.w, m.log.render(&[], 40)));
        }
        for at in [l.a, l.b] {
            for p in 1..=6 {
                let want = p == 1 || p == 5 && open5;
                let ok = if want { state(&evs, m, at, p) } else { off(&evs, m, at, p) };
                if !ok {
                    return violation("wrong-state", format!("after {}: protocol {} of node {} should be {}\n{}", what, p, at.0, if want { "open" } else { "closed" }, m.log.render(&[], 60)));
                }
            }
        }
        Ok(())
    };
    let mut open5 = false;
    for _ in 0..r.rus(1, 4) {
        let at = if r.chance(1, 2) { l.a } else { l.b };
        let from = m.log.len();
        let mut ask: Vec<usize> = vec![2, 3, 4, 6].into_iter().filter(|_| r.chance(1, 2)).collect();
        if r.chance(1, 3) && !open5 {
            ask.push(5);
            open5 = true;
        }
        r.shuffle(&mut ask);
        if ask.len() > 1 && r.chance(1, 2) {
            until_ok(|| m.nodes[at.0].ctl.open_protocols(at.1.into(), TargetProtocol::Multi(ask.iter().map(|p| pid(*p)).collect())));
        } else {
            for p in &ask {
                until_ok(|| m.nodes[at.0].ctl.open_protocol(at.1.into(), pid(*p)));
            }
        }
        let mut want: Vec<String> = ask.iter().filter(|p| **p != 5).map(|p| name(at.0, *p)).collect();
        want.sort();
        let what = format!("node {} asked for {:?}", at.0, ask);
        let there = m.peer[&at];
        // both ends know the name that was asked for
        let done = m.log.wait(|evs| {
            errs(evs, from, at.0).len() >= want.len()
                && errs(evs, from, there.0).len() >= want.len()
                && (!open5 || state(evs, &m, l.a, 5) && state(evs, &m, l.b, 5))
        })?;
        m.log.settle(10);
        let evs = m.log.snap();
        for n in [at.0, there.0] {
            let mut got: Vec<String> = errs(&evs, from, n).into_iter().map(|x| x.unwrap_or_else(|| "-".into())).collect();
            got.sort();
            if got != want {
                return violation("report", format!("{}: node {} should report {:?} as not opened, it reported {:?} (waited: {})\n{}", what, n, want, got, !done, m.log.render(&[], 40)));
            }
        }
        acc.add("refused", want.len() as u64);
        if ask.contains(&5) {
            for e in &evs[from..] {
                if let What::Conn { p: 5, ver, .. } = &e.w {
                    if ver != "0.0.2" {
                        return violation("version", format!("the version function chose 0.0.2, node {} was told {}", e.n, ver));
                    }
                }
            }
            acc.add("version chosen by function", 1);
        }
        unharmed(&m, &what, open5)?;
    }
    if silent {
        // no answer in time: reported, and all is well afterwards
        for _ in 0..r.rus(1, 2) {
            let at = if r.chance(1, 2) { l.a } else { l.b };
            let p = if open5 { 4 } else { 5 };
            let from = m.log.len();
            l.proxy.as_ref().unwrap().stall(true);
            until_ok(|| m.nodes[at.0].ctl.open_protocol(at.1.into(), pid(p)));
            let told = m.log.wait(|evs| !errs(evs, from, at.0).is_empty())?;
            l.proxy.as_ref().unwrap().stall(false);
            if !told {
                return violation("no-answer", format!("node {} asked to open protocol {}, the peer never answered, and nothing was reported\n{}", at.0, p, m.log.render(&[], 40)));
            }
            acc.add("never answered", 1);
            m.log.settle(200);
            let ok = m.log.wait(|evs| off(evs, &m, l.a, p) && off(evs, &m, l.b, p))?;
            let evs = m.log.snap();
            if !ok || errs(&evs, from, at.0).len() > 1 {
                return violation("no-answer", format!("the peer answered too late (everything closed: {})\n{}", ok, m.log.render(&[], 40)));
            }
            unharmed(&m, "an answer that came too late", open5)?;
            if p == 5 {
                until_ok(|| m.nodes[at.0].ctl.open_protocol(at.1.into(), pid(p)));
                if !m.log.wait(|evs| state(evs, &m, l.a, p) && state(evs, &m, l.b, p))? {
                    return violation("not-again", format!("protocol {} can not be opened after an answer that came too late\n{}", p, m.log.render(&[], 40)));
                }
                open5 = true;
            }
        }
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

pub fn t14(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "protocols of 2-3 services are opened and closed from either end in random batches; after each batch exactly the requested protocols must be open at both ends, others undisturbed, in the newest version both support, and open ones must carry messages; a quarter of the cases asks for protocols the peer does not know, has no version of, refuses or does not answer for: reported once, nothing else happens".into(),
            assumptions: vec!["the two ends do not open the same protocol at the same moment".into(), "a protocol asked for while its last use is still being closed may have to be asked for again".into()],
            cases: ctx.q(150, 4000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["opened", "closed", "messages over open protocols", "versions compared", "refused", "version chosen by function", "never answered", "opened together"],
        },
        |seed, idx| wrap(|| if idx % 4 == 3 { t14_refused(seed) } else { t14_one(seed) }),
    )
}
