//! T18: listeners.
use crate::{judge::R, mesh::*, net::*, traffic::wrap};
use std::{
    collections::{BTreeMap, HashMap},
    net::{IpAddr, Ipv4Addr, SocketAddr, TcpListener, TcpStream},
    sync::atomic::Ordering,
    os::unix::io::{FromRawFd, IntoRawFd},
    time::{Duration, Instant},
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    service::TargetProtocol,
    utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Start,
    Fail,
}

#[derive(Debug)]
struct Req {
    addr: Multiaddr,
    want: Want,
    /// how many times it was asked for at once
    times: usize,
}

fn ip(r: &mut Rng) -> IpAddr {
    IpAddr::V4(Ipv4Addr::new(127, r.range(1, 250) as u8, r.range(1, 250) as u8, r.range(1, 250) as u8))
}

/// an address that was free a moment ago
fn free(r: &mut Rng) -> SocketAddr {
    TcpListener::bind(SocketAddr::new(ip(r), 0)).unwrap().local_addr().unwrap()
}

fn ma(s: SocketAddr, ws: bool) -> Multiaddr {
    let mut a = socketaddr_to_multiaddr(s);
    if ws {
        a.push(Protocol::Ws);
    }
    a
}

/// makes accepting on that address fail
fn kill(s: SocketAddr) -> bool {
    let fds: Vec<i32> = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect();
    for fd in fds {
        let t = unsafe { TcpStream::from_raw_fd(fd) };
        let hit = t.local_addr().ok() == Some(s) && t.peer_addr().is_err();
        if hit {
            let _ = t.shutdown(std::net::Shutdown::Both);
        }
        t.into_raw_fd();
        if hit {
            return true;
        }
    }
    false
}

fn is_ws(a: &Multiaddr) -> bool {
    a.iter().any(|p| p == Protocol::Ws)
}

/// does a started report for `got` answer the request for `asked`
fn answers(got: &Multiaddr, asked: &Multiaddr) -> bool {
    if is_ws(got) != is_ws(asked) {
        return false;
    }
    let g = match multiaddr_to_socketaddr(got) {
        Some(g) => g,
        None => return false,
    };
    match multiaddr_to_socketaddr(asked) {
        Some(a) => a.ip() == g.ip() && g.port() != 0 && (a.port() == 0 || a.port() == g.port()),
        // by name
        None => asked.iter().any(|p| match p {
            Protocol::DNS4(d) => d.parse() == Ok(g.ip()),
            _ => false,
        }),
    }
}

struct T<'a> {
    m: &'a Mesh,
    live: BTreeMap<String, Multiaddr>,
    from: usize,
    acc: Acc,
}

impl<'a> T<'a> {
    fn show(&self) -> String {
        self.m.log.render(&[0], 40)
    }

    /// every listener there should be takes a session, and only those are shown to handlers
    fn probe(&mut self, r: &mut Rng) -> R<()> {
        let log = &self.m.log;
        let mut l: Vec<Multiaddr> = self.live.values().cloned().collect();
        r.shuffle(&mut l);
        for a in l.iter().take(3) {
            let from = log.len();
            self.m.nodes[1].ctl.dial(a.clone(), TargetProtocol::All).unwrap();
            let opened = |evs: &[Ev], n: usize| {
                evs[from..].iter().find_map(|e| match e.w {
                    What::Open { s, .. } if e.n == n => Some(s),
                    _ => None,
                })
            };
            let (v0, v1) = (self.m.nodes[0].modes[&1].vias(), self.m.nodes[1].modes[&1].vias());
            let done = |evs: &[Ev]| match (opened(evs, 0), opened(evs, 1)) {
                (Some(x), Some(y)) => is_conn(evs, 0, x, 1, v0) && is_conn(evs, 1, y, 1, v1),
                _ => false,
            };
            if !log.wait(done)? {
                return violation("no-accept", format!("{} was reported started and not closed, but takes no session\n{}", a, log.render(&[], 40)));
            }
            self.lists(None)?;
            self.acc.add("lists compared", 1);
            let s = log.with(|evs| (opened(evs, 0).unwrap(), opened(evs, 1).unwrap()));
            let _ = self.m.nodes[1].ctl.disconnect(s.1.into());
            until(log, "close", |evs| {
                let c = |n: usize, s: usize| evs[from..].iter().any(|e| e.n == n && matches!(e.w, What::Close { s: t } if t == s));
                c(0, s.0) && c(1, s.1)
            })?;
            self.acc.add("sessions through listeners", 1);
        }
        Ok(())
    }

    /// handlers see what was reported started and not closed; `out`: where to dial to have them called
    fn lists(&self, out: Option<&Multiaddr>) -> R<()> {
        let v0 = self.m.nodes[0].modes[&1].vias();
        let mut want: Vec<String> = self.live.keys().cloned().collect();
        want.sort();
        // handlers hear of it on their own; give them a moment
        let t = Instant::now();
        loop {
            if out.is_some() {
                self.again(out)?;
            }
            let views = self.m.nodes[0].views.lock().unwrap().clone();
            let stale = views.iter().find(|(k, v)| (**k == 0 || v0 == &[Via::Svc]) && **v != want);
            match stale {
                None => return Ok(()),
                Some((k, v)) if t.elapsed().as_millis() > 3000 => {
                    return violation("list", format!("handler {} sees the listen addresses {:?}, those reported started and not closed are {:?}\n{}", k, v, want, self.show()));
                }
                _ => {
                    // handlers look only when called
                    std::thread::sleep(Duration::from_millis(20));
                    if out.is_none() {
                        self.again(None)?;
                    }
                }
            }
        }
    }

    /// another session, so that handlers are called again
    fn again(&self, out: Option<&Multiaddr>) -> R<()> {
        let log = &self.m.log;
        if let Some(a) = out {
            let from = log.len();
            self.m.nodes[0].ctl.dial(a.clone(), TargetProtocol::All).unwrap();
            let find = |evs: &[Ev]| {
                evs[from..].iter().find_map(|e| match e.w {
                    What::Open { s, .. } if e.n == 0 => Some(s),
                    _ => None,
                })
            };
            let v0 = self.m.nodes[0].modes[&1].vias();
            until(log, "session out", |evs| find(evs).map_or(false, |x| is_conn(evs, 0, x, 1, v0)))?;
            let s = log.with(|evs| find(evs).unwrap());
            let _ = self.m.nodes[0].ctl.disconnect(s.into());
            return until(log, "close", |evs| evs[from..].iter().filter(|e| matches!(e.w, What::Close { .. })).count() >= 2);
        }
        let a = self.live.values().next().unwrap().clone();
        let from = log.len();
        self.m.nodes[2].ctl.dial(a, TargetProtocol::All).unwrap();
        let find = |evs: &[Ev]| {
            evs[from..].iter().find_map(|e| match e.w {
                What::Open { s, .. } if e.n == 2 => Some(s),
                _ => None,
            })
        };
        let (v0, v2) = (self.m.nodes[0].modes[&1].vias(), self.m.nodes[2].modes[&1].vias());
        until(log, "second session", |evs| {
            let there = evs[from..].iter().find_map(|e| match e.w {
                What::Open { s, .. } if e.n == 0 => Some(s),
                _ => None,
            });
            match (find(evs), there) {
                (Some(x), Some(y)) => is_conn(evs, 2, x, 1, v2) && is_conn(evs, 0, y, 1, v0),
                _ => false,
            }
        })?;
        let s = log.with(|evs| find(evs).unwrap());
        let _ = self.m.nodes[2].ctl.disconnect(s.into());
        until(log, "close", |evs| evs[from..].iter().filter(|e| matches!(e.w, What::Close { .. })).count() >= 2)
    }

    /// compares what was reported since `self.from` with what was asked; `dying`: listeners made to fail
    fn answered(&mut self, reqs: &[Req], dying: &[Multiaddr]) -> R<()> {
        let log = &self.m.log;
        let from = self.from;
        let count = |evs: &[Ev], f: &dyn Fn(&What) -> bool| evs[from..].iter().filter(|e| e.n == 0 && f(&e.w)).count();
        let starts = |evs: &[Ev], a: &Multiaddr| count(evs, &|w| matches!(w, What::ListenStart(g) if answers(g, a)));
        let errs = |evs: &[Ev], a: &Multiaddr| count(evs, &|w| matches!(w, What::ListenErr { addr, .. } if addr == a));
        let closes = |evs: &[Ev], a: &Multiaddr| count(evs, &|w| matches!(w, What::ListenClose(g) if g == a));
        let all = |evs: &[Ev]| {
            reqs.iter().all(|q| match q.want {
                Want::Start => starts(evs, &q.addr) >= 1,
                Want::Fail => errs(evs, &q.addr) >= q.times,
            }) && dying.iter().all(|a| closes(evs, a) >= 1 && errs(evs, a) >= 1)
        };
        let ok = log.wait(all)?;
        // anything too much
        log.settle(60);
        let evs = log.snap();
        let mut starts_seen = 0;
        for q in reqs {
            let (s, e) = (starts(&evs, &q.addr), errs(&evs, &q.addr));
            starts_seen += s;
            let bad = match q.want {
                Want::Start => s != 1 || e > q.times - 1,
                Want::Fail => s != 0 || e != q.times,
            };
            if bad {
                let key = if s + e == 0 { "no-answer" } else { "answers" };
                return violation(key, format!("{} asked for {} time(s) (expected: {:?}) was answered by {} started and {} error reports\n{}", q.addr, q.times, q.want, s, e, self.show()));
            }
        }
        for a in dying {
            let (e, c) = (errs(&evs, a), closes(&evs, a));
            if e != 1 || c != 1 {
                return violation("ended", format!("the failed listener {} was reported by {} errors and {} closes\n{}", a, e, c, self.show()));
            }
        }
        let all_starts = count(&evs, &|w| matches!(w, What::ListenStart(_)));
        let all_errs = count(&evs, &|w| matches!(w, What::ListenErr { .. }));
        let all_closes = count(&evs, &|w| matches!(w, What::ListenClose(_)));
        let want_errs: usize = reqs.iter().map(|q| errs(&evs, &q.addr)).sum::<usize>() + dying.len();
        if !ok || all_starts != starts_seen || all_errs != want_errs || all_closes != dying.len() {
            return violation("reports", format!("{} started, {} error and {} close reports for {:?}, listeners ended: {:?}\n{}", all_starts, all_errs, all_closes, reqs, dying, self.show()));
        }
        for q in reqs {
            match q.want {
                Want::Start => {
                    for e in &evs[from..] {
                        if let What::ListenStart(g) = &e.w {
                            if e.n == 0 && answers(g, &q.addr) {
                                self.live.insert(g.to_string(), g.clone());
                            }
                        }
                    }
                    self.acc.add(if q.times > 1 { "started, asked for more than once" } else { "started" }, 1);
                    if errs(&evs, &q.addr) > 0 {
                        self.acc.add("started and refused again", 1);
                    }
                }
                Want::Fail => self.acc.add("refused", 1),
            }
        }
        for a in dying {
            self.live.remove(&a.to_string());
            self.acc.add("listeners failed", 1);
        }
        self.from = log.len();
        Ok(())
    }
}

pub fn t18_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let secure = r.chance(1, 3);
    // a service that is not to stay when there is nothing left to do
    let alone = r.chance(1, 3);
    let log = Log::new();
    let rt = runtime(r);
    let mut nodes = vec![];
    for n in 0..3 {
        let ws = r.chance(1, 2);
        let first = if n == 0 && (alone || r.chance(1, 2)) { Some(fresh(r, ws)) } else { None };
        let mode = if n == 0 { *r.pick(&[Mode::Service, Mode::ServiceBoth, Mode::Session, Mode::Event]) } else { Mode::Service };
        let cfg = NodeCfg {
            key: if secure { Some(key(r)) } else { None },
            protos: vec![ProtoCfg::new(1, mode)],
            listen: first,
            forever: !(alone && n == 0),
            ..NodeCfg::default()
        };
        nodes.push(start(&rt, &log, n, cfg));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1] };
    let mut t = T { m: &m, live: BTreeMap::new(), from: 0, acc: Acc::default() };
    let me = &m.nodes[0];
    if let Some(a) = &me.addr {
        let n = m.log.count(|e| e.n == 0 && matches!(&e.w, What::ListenStart(g) if g == a));
        if n != 1 {
            return violation("answers", format!("listening on {} was reported started {} times\n{}", a, n, t.show()));
        }
        t.live.insert(a.to_string(), a.clone());
    }
    t.from = m.log.len();
    let spare = if alone { 1 } else { 0 };
    let mut held: Vec<TcpListener> = vec![];
    for _ in 0..r.rus(2, 6) {
        let mut reqs: Vec<Req> = vec![];
        let mut dying: Vec<Multiaddr> = vec![];
        for _ in 0..r.rus(1, 4) {
            let ws = r.chance(1, 3);
            let q = match r.below(10) {
                0 | 1 => Req { addr: ma(SocketAddr::new(ip(r), 0), ws), want: Want::Start, times: 1 },
                2 => Req { addr: ma(free(r), ws), want: Want::Start, times: 1 },
                3 | 4 => Req { addr: ma(free(r), ws), want: Want::Start, times: r.rus(2, 4) },
                5 => {
                    let l = TcpListener::bind(SocketAddr::new(ip(r), 0)).unwrap();
                    let a = l.local_addr().unwrap();
                    held.push(l);
                    Req { addr: ma(a, ws), want: Want::Fail, times: r.rus(1, 3) }
                }
                6 => {
                    // in use by this service, under another form of the address
                    match t.live.values().next() {
                        Some(a) if !dying.contains(a) => {
                            let s = multiaddr_to_socketaddr(a).unwrap();
                            Req { addr: ma(s, !is_ws(a)), want: Want::Fail, times: 1 }
                        }
                        _ => continue,
                    }
                }
                7 => {
                    let s = free(r);
                    let a = match r.below(6) {
                        0 => format!("/ip4/{}/tcp/{}/wss", s.ip(), s.port()),
                        1 => format!("/ip4/{}/tcp/{}/tls/x", s.ip(), s.port()),
                        2 => format!("/tcp/{}", s.port()),
                        3 => format!("/ip4/{}", s.ip()),
                        4 => format!("/ip4/203.0.113.{}/tcp/0", s.port() % 200),
                        _ => format!("/dns4/no name {}/tcp/0", s.port()),
                    };
                    Req { addr: a.parse().unwrap(), want: Want::Fail, times: r.rus(1, 2) }
                }
                8 => Req { addr: format!("/dns4/{}/tcp/0{}", ip(r), if ws { "/ws" } else { "" }).parse().unwrap(), want: Want::Start, times: 1 },
                _ => {
                    if let Some(a) = t.live.values().next().cloned() {
                        if t.live.len() > spare && !dying.contains(&a) && !reqs.iter().any(|q| multiaddr_to_socketaddr(&q.addr) == multiaddr_to_socketaddr(&a)) {
                            dying.push(a);
                        }
                    }
                    continue;
                }
            };
            let ip_of = |a: &Multiaddr| a.iter().next().map(|p| p.to_string());
            if reqs.iter().any(|p| ip_of(&p.addr) == ip_of(&q.addr)) || t.live.values().any(|a| q.want == Want::Start && ip_of(a) == ip_of(&q.addr)) {
                continue;
            }
            reqs.push(q);
        }
        let mut order: Vec<Option<Multiaddr>> = vec![];
        // one goes and another comes while the service looks elsewhere
        let swap = t.live.len() > spare && r.chance(1, 3);
        if swap {
            let bad = |r: &mut Rng| Req { addr: format!("/tcp/{}", r.range(1, 60_000)).parse().unwrap(), want: Want::Fail, times: 1 };
            reqs = vec![bad(r), Req { addr: ma(SocketAddr::new(ip(r), 0), false), want: Want::Start, times: 1 }, bad(r)];
            if reqs[0].addr == reqs[2].addr {
                continue;
            }
            dying = vec![t.live.values().next().unwrap().clone()];
            me.hold.store(r.range(5, 30), Ordering::SeqCst);
            order = vec![Some(reqs[0].addr.clone()), None, Some(reqs[1].addr.clone()), Some(reqs[2].addr.clone())];
        }
        for q in reqs.iter().filter(|_| !swap) {
            for _ in 0..q.times {
                order.push(Some(q.addr.clone()));
            }
        }
        if !swap && r.chance(1, 2) {
            r.shuffle(&mut order);
        }
        if !swap && !dying.is_empty() {
            let at = r.us(order.len() + 1);
            order.insert(at, None);
        }
        for o in order {
            match o {
                Some(a) => {
                    if !until_ok(|| me.ctl.listen(a.clone())) {
                        return violation("gone", format!("the service is gone\n{}", t.show()));
                    }
                }
                None => {
                    for a in &dying {
                        if !kill(multiaddr_to_socketaddr(a).unwrap()) {
                            return violation("not-listening", format!("{} was reported started and not closed, but there is no such listening socket\n{}", a, t.show()));
                        }
                    }
                }
            }
            if r.chance(1, 3) || swap {
                std::thread::sleep(Duration::from_micros(r.below(3000)));
            }
        }
        t.answered(&reqs, &dying)?;
        me.hold.store(0, Ordering::SeqCst);
        if swap {
            t.acc.add("swaps", 1);
        }
        if r.chance(2, 3) {
            t.probe(r)?;
            t.from = m.log.len();
        }
    }
    t.probe(r)?;
    t.from = m.log.len();
    if !alone && !t.live.is_empty() && r.chance(1, 2) {
        // the service stays when its last listener goes
        let all: Vec<Multiaddr> = t.live.values().cloned().collect();
        for a in &all {
            if !kill(multiaddr_to_socketaddr(a).unwrap()) {
                return Err(vcommon::Verdict::Inconclusive(format!("no socket found for {}", a)));
            }
        }
        t.answered(&[], &all)?;
        let from = m.log.len();
        m.nodes[1].ctl.listen(fresh(r, false)).unwrap();
        let at = |evs: &[Ev]| {
            evs[from..].iter().find_map(|e| match &e.w {
                What::ListenStart(a) if e.n == 1 => Some(a.clone()),
                _ => None,
            })
        };
        until(&m.log, "listener of another node", |evs| at(evs).is_some())?;
        let out = m.log.with(|evs| at(evs).unwrap());
        t.lists(Some(&out))?;
        t.acc.add("empty lists compared", 1);
        t.from = m.log.len();
    }
    // the end
    let quick = r.chance(1, 2);
    let left: Vec<Multiaddr> = t.live.values().cloned().collect();
    if alone {
        for a in &left {
            kill(multiaddr_to_socketaddr(a).unwrap());
        }
        if !m.log.wait(|evs| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::End)))? {
            return violation("never-ends", format!("the last listener is gone and there are no sessions and requests, but the service does not end\n{}", t.show()));
        }
        t.acc.add("ended by itself", 1);
    } else if quick {
        let _ = me.ctl.shutdown();
    } else {
        let _ = me.ctl.close();
    }
    until(&m.log, "end", |evs| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::End)))?;
    let from = t.from;
    for a in &left {
        let n = m.log.with(|evs| evs[from..].iter().filter(|e| e.n == 0 && matches!(&e.w, What::ListenClose(g) if g == a)).count());
        if n != 1 {
            return violation("end-close", format!("{} was reported closed {} times at the end of the service\n{}", a, n, t.show()));
        }
        t.acc.add("closed at the end", 1);
        // and it is over
        let s = multiaddr_to_socketaddr(a).unwrap();
        let start = Instant::now();
        while TcpStream::connect(s).is_ok() {
            if start.elapsed().as_secs() > 10 {
                return violation("still-there", format!("the service ended, {} still takes connections\n{}", a, t.show()));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    let total = m.log.with(|evs| evs[from..].iter().filter(|e| e.n == 0 && matches!(&e.w, What::ListenClose(_))).count());
    if total != left.len() {
        return violation("end-close", format!("{} listeners were reported closed at the end, there were {}\n{}", total, left.len(), t.show()));
    }
    let mut acc = std::mem::take(&mut t.acc);
    acc.nontrivial = acc.get("started") + acc.get("refused") > 0;
    acc.sig = seed;
    Ok(acc)
}

pub fn t18(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "services told to listen on free, occupied, repeated, unsupported and unknown addresses, several at once, while listening sockets are made to fail; every request and every end must be answered by exactly the right reports, every listener that should be there must take sessions, handlers must see the right list, and nothing listens after the end".into(),
            assumptions: vec!["a request for an address that is being listened on already may be ignored".into()],
            cases: ctx.q(300, 6000),
            budget_s: ctx.q(16, 300),
            threads: 6,
            must_see: vec!["started", "started, asked for more than once", "started and refused again", "refused", "listeners failed", "swaps", "sessions through listeners", "lists compared", "empty lists compared", "ended by itself", "closed at the end"],
        },
        |seed, _| wrap(|| t18_one(seed)),
    )
}
