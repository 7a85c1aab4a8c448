//! P01: the ping protocol, judged from the callback's calls and from what hand-driven peers see.
use crate::kit::*;
use px_ping::{Callback, PingHandler};
use std::{
    sync::Arc,
    time::{Duration, Instant},
};
use tentacle::{
    context::{ProtocolContext, ProtocolContextMutRef},
    SessionId,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng, Verdict};

struct Cb(usize, Arc<Log>);

impl Callback for Cb {
    fn received_ping(&mut self, c: ProtocolContextMutRef) {
        self.1.put(self.0, W::GotPing { s: c.session.id.value() });
    }
    fn received_pong(&mut self, c: ProtocolContextMutRef, took: Duration) {
        self.1.put(self.0, W::GotPong { s: c.session.id.value(), took });
    }
    fn timeout(&mut self, _: &mut ProtocolContext, id: SessionId) {
        self.1.put(self.0, W::Late { s: id.value() });
    }
    fn unexpected_error(&mut self, c: ProtocolContextMutRef) {
        self.1.put(self.0, W::Junk { s: c.session.id.value() });
    }
}

fn msg(pong: bool, nonce: u32) -> Vec<u8> {
    table(&[union(u32::from(pong), &table(&[nonce.to_le_bytes().to_vec()]))])
}

fn parse(b: &[u8]) -> Option<(bool, u32)> {
    let f = fields(b)?;
    let id = le32(f.get(0)?)?;
    let g = fields(&f[0][4..])?;
    if f.len() != 1 || g.len() != 1 || g[0].len() != 4 || id > 1 {
        return None;
    }
    Some((id == 1, le32(g[0])?))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Role {
    /// another instance of the protocol
    Same,
    Silent,
    /// goes away instead of answering
    Leaves,
    /// the ones below are driven by hand
    Answers,
    Slow,
    Wrong,
    Unasked,
    Twice,
    Junk,
    Pinger,
}

impl Role {
    fn stays(self) -> bool {
        matches!(self, Role::Same | Role::Answers | Role::Slow | Role::Junk | Role::Pinger)
    }
}

fn junk(r: &mut Rng) -> Vec<u8> {
    if cfg!(feature = "flatc") {
        let n = r.rus(0, 3);
        return r.bytes(n);
    }
    let mut good = msg(r.chance(1, 2), r.next() as u32);
    match r.below(7) {
        0 => vec![],
        1 => {
            let n = r.rus(1, 3);
            r.bytes(n)
        }
        2 => {
            good.pop();
            good
        }
        3 => {
            good.push(0);
            good
        }
        4 => table(&[union(r.range(2, 1 << 31) as u32, &table(&[vec![1, 2, 3, 4]]))]),
        5 => table(&[union(0, &table(&[vec![1, 2, 3]]))]),
        _ => table(&[union(1, &table(&[]))]),
    }
}

fn nonces(seed: u64) -> Vec<u32> {
    let mut r = Rng::new(seed ^ 7);
    (0..20)
        .map(|_| {
            let any = r.next() as u32;
            *r.pick(&[0, 1, u32::max_value(), 1 << 31, 255, 256, 0x0102_0304, any, any])
        })
        .collect()
}

fn act(role: Role, seed: u64, tmo: u64) -> Act {
    let mut r = Rng::new(seed);
    let mut k = 0;
    Box::new(move |c, s, data| {
        let data = match data {
            None => {
                match role {
                    Role::Unasked => send(c, s, msg(true, if r.chance(1, 2) { 0 } else { r.next() as u32 })),
                    Role::Junk => (0..5).for_each(|_| send(c, s, junk(&mut r))),
                    Role::Pinger => {
                        for n in nonces(seed) {
                            send(c, s, msg(false, n));
                        }
                    }
                    _ => (),
                }
                return;
            }
            Some(d) => d,
        };
        if role == Role::Leaves {
            let _ = c.disconnect(s.into());
        }
        if let Some((false, n)) = parse(data) {
            k += 1;
            match role {
                Role::Answers | Role::Junk | Role::Pinger => send(c, s, msg(true, n)),
                Role::Twice => {
                    send(c, s, msg(true, n));
                    send(c, s, msg(true, n));
                }
                Role::Slow => {
                    let (c, ms) = (c.clone(), r.range(1, tmo / 4));
                    std::thread::spawn(move || {
                        std::thread::sleep(Duration::from_millis(ms));
                        send(&c, s, msg(true, n));
                    });
                }
                Role::Wrong => {
                    // answers properly at first
                    let bad = if k <= r.range(0, 2) { n } else { n ^ (1 << r.below(32)) };
                    send(c, s, msg(true, bad))
                }
                _ => (),
            }
        }
    })
}

fn case(seed: u64, idx: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let rt = runtime(&mut r);
    let res = if idx % 8 == 7 { open_text(&rt, &mut r) } else { run(&rt, &mut r) };
    stop(rt);
    res.map(Verdict::Pass)
}

/// without encryption the peer is unknown: the session is ended and never pinged
fn open_text(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let l = fresh(r);
    let h = |n| PingHandler::new(Duration::from_millis(20), Duration::from_millis(200), Cb(n, log.clone()));
    let v = start(rt, &log, 0, None, Some(l), Box::new(h(0)));
    let p = start(rt, &log, 1, None, None, Box::new(Relay { n: 1, log: log.clone(), act: Box::new(|_, _, _| ()) }));
    dial(&p, &v);
    if !log.wait(|e| e.iter().any(|e| e.n == 0 && matches!(e.w, W::Open { .. })))? {
        return Err(Verdict::Inconclusive("no session".into()));
    }
    if !log.wait(|e| e.iter().any(|e| e.n == 0 && matches!(e.w, W::Close { .. })))? {
        return violation("ping-open-text", format!("a session without encryption was kept\n{}", log.render(&[])));
    }
    dead(&log, "ping")?;
    if log.count(|e| e.n == 1 && matches!(e.w, W::Data { .. })) > 0 {
        return violation("ping-open-text", "an unidentified peer was pinged");
    }
    let mut a = Acc::default();
    a.add("unencrypted", 1);
    a.nontrivial = true;
    Ok(a)
}

fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let tmo = r.range(900, 1500);
    let int = *r.pick(&[30u64, 60, 120, 250]);
    let roles: Vec<Role> = (0..r.rus(1, 6))
        .map(|_| {
            if cfg!(feature = "flatc") {
                *r.pick(&[Role::Same, Role::Same, Role::Silent, Role::Leaves])
            } else {
                *r.pick(&[
                    Role::Same,
                    Role::Silent,
                    Role::Leaves,
                    Role::Answers,
                    Role::Answers,
                    Role::Slow,
                    Role::Wrong,
                    Role::Unasked,
                    Role::Twice,
                    Role::Junk,
                    Role::Pinger,
                ])
            }
        })
        .collect();
    let vk = key(r);
    let la = fresh(r);
    let v = start(
        rt,
        &log,
        0,
        Some(vk),
        Some(la),
        Box::new(PingHandler::new(Duration::from_millis(int), Duration::from_millis(tmo), Cb(0, log.clone()))),
    );
    let begin = Instant::now();
    let (mut peers, mut seeds) = (vec![], vec![]);
    for (i, role) in roles.iter().enumerate() {
        let n = i + 1;
        let k = key(r);
        let out = r.chance(1, 3);
        let l = if out { Some(fresh(r)) } else { None };
        let seed = r.next();
        seeds.push(seed);
        let h: Box<dyn tentacle::traits::ServiceProtocol + Send + Unpin> = match role {
            Role::Same => Box::new(PingHandler::new(
                Duration::from_millis(r.range(30, 300)),
                Duration::from_millis(tmo * 2),
                Cb(n, log.clone()),
            )),
            role => Box::new(Relay { n, log: log.clone(), act: act(*role, seed, tmo) }),
        };
        let p = start(rt, &log, n, Some(k), l, h);
        if out {
            dial(&v, &p)
        } else {
            dial(&p, &v)
        }
        peers.push(p);
    }
    let ids: Vec<_> = peers.iter().map(|p| p.id.clone().unwrap()).collect();
    if !log.wait(|e| ids.iter().all(|p| session(e, 0, p).is_some()))? {
        return Err(Verdict::Inconclusive("not all sessions opened".into()));
    }
    let ses: Vec<_> = {
        let e = log.snap();
        ids.iter().map(|p| session(&e, 0, p).unwrap()).collect()
    };
    pause(tmo + 300);
    if roles.contains(&Role::Leaves) {
        pause(tmo);
    }
    // what has to happen sooner or later
    for (i, role) in roles.iter().enumerate() {
        let (n, s) = (i + 1, ses[i].0);
        let own = |e: &Ev| e.n == 0;
        let what = match role {
            Role::Silent => "no answer came and no timeout was reported",
            Role::Leaves => "the session did not end",
            r if r.stays() => "answered pings were not reported",
            _ => "the session was kept after a wrong answer",
        };
        let ok = log.wait(|evs| match role {
            Role::Silent => evs.iter().any(|e| own(e) && matches!(e.w, W::Late { s: t } if t == s)),
            r if r.stays() => {
                evs.iter().filter(|e| own(e) && matches!(e.w, W::GotPong { s: t, .. } if t == s)).count() >= 3 || closed(evs, 0, s)
            }
            _ => closed(evs, 0, s),
        })?;
        dead(&log, "ping")?;
        if !ok {
            return violation("ping-missing", format!("{:?}: {}\n{}", role, what, log.render(&[0, n])));
        }
        if *role == Role::Junk || *role == Role::Pinger {
            let want = if *role == Role::Junk { 5 } else { 20 };
            let ok = log.wait(|evs| {
                evs.iter()
                    .filter(|e| own(e) && matches!(e.w, W::Junk { s: t } | W::GotPing { s: t } if t == s))
                    .count()
                    >= want
                    && (*role == Role::Junk
                        || evs
                            .iter()
                            .filter(|e| match &e.w {
                                W::Data { data, .. } => e.n == n && parse(data).map(|p| p.0) == Some(true),
                                _ => false,
                            })
                            .count()
                            >= want)
            })?;
            if !ok {
                return violation("ping-missing", format!("{:?}: not every message was reported\n{}", role, log.render(&[0, n])));
            }
        }
    }
    pause(50);
    dead(&log, "ping")?;
    let mut a = Acc::default();
    let lasted = begin.elapsed().as_millis() as u64;
    // an answer that was on its way for long says that the machine stood still
    let evs = log.snap();
    for (i, role) in roles.iter().enumerate() {
        let (n, (s, _, _, at)) = (i + 1, ses[i].clone());
        let mine: Vec<&Ev> = evs.iter().filter(|e| e.n == 0).collect();
        let pongs: Vec<(Instant, Duration)> = mine
            .iter()
            .filter_map(|e| match e.w {
                W::GotPong { s: t, took } if t == s => Some((e.t, took)),
                _ => None,
            })
            .collect();
        let late: Vec<Instant> = mine.iter().filter(|e| matches!(e.w, W::Late { s: t } if t == s)).map(|e| e.t).collect();
        let junks = mine.iter().filter(|e| matches!(e.w, W::Junk { s: t } if t == s)).count();
        let gotten = mine.iter().filter(|e| matches!(e.w, W::GotPing { s: t } if t == s)).count();
        let bad = |what: &str| -> Result<(), Verdict> {
            violation("ping-wrong", format!("{:?} (timeout {} ms, interval {} ms): {}\n{}", role, tmo, int, what, log.render(&[0, n])))
        };
        let slow = pongs.iter().any(|p| p.1.as_millis() as u64 > tmo / 2);
        if role.stays() {
            if closed(&evs, 0, s) {
                bad("a peer that answers was disconnected")?;
            }
            if !late.is_empty() {
                if slow {
                    return Err(Verdict::Inconclusive("answers were held up".into()));
                }
                bad("a peer that answers was reported as not answering")?;
            }
        }
        if *role == Role::Silent {
            if closed(&evs, 0, s) {
                bad("a silent peer was disconnected by the protocol itself")?;
            }
            if !pongs.is_empty() {
                bad("an answer was reported that never was given")?;
            }
            if late[0] < at + Duration::from_millis(tmo) {
                bad("reported as not answering before the time had passed")?;
            }
        }
        if *role == Role::Leaves {
            if !late.is_empty() {
                bad("a peer that had left was reported as not answering")?;
            }
            a.add("left", 1);
        }
        if *role == Role::Unasked && !pongs.is_empty() {
            bad("an answer nobody asked for was accepted")?;
        }
        for p in &pongs {
            if p.1 > p.0.duration_since(at) {
                bad("an answer took longer than the session had lasted")?;
            }
        }
        if (*role == Role::Junk && junks != 5) || (*role != Role::Junk && junks > 0) {
            bad("undecodable messages miscounted")?;
        }
        if *role == Role::Pinger && gotten != 20 {
            bad("pings miscounted")?;
        }
        a.add("pongs", pongs.len() as u64);
        a.add("timeouts", late.len() as u64);
        a.add("junk", junks as u64);
        if *role == Role::Same {
            a.add("pairs", 1);
            continue;
        }
        // what the peer saw
        let got: Vec<&[u8]> = evs
            .iter()
            .filter_map(|e| match &e.w {
                W::Data { data, .. } if e.n == n => Some(data.as_ref()),
                _ => None,
            })
            .collect();
        if cfg!(feature = "flatc") {
            if *role == Role::Silent && got.len() != 1 {
                bad("a peer that owes an answer was pinged again")?;
            }
            continue;
        }
        let mut asks = 0u64;
        let mut answers = vec![];
        for g in got {
            match parse(g) {
                Some((false, _)) => asks += 1,
                Some((true, n)) => answers.push(n),
                None => bad("sent something that is neither a ping nor a pong")?,
            }
        }
        if *role == Role::Silent && asks != 1 {
            bad("a peer that owes an answer was pinged again")?;
        }
        if asks > lasted / int + 2 {
            bad("pinged more often than once per interval")?;
        }
        if role.stays() && (pongs.len() as u64) > asks {
            bad("more answers reported than pings sent")?;
        }
        if *role == Role::Answers && asks > pongs.len() as u64 + 1 {
            bad("pinged again before the answer")?;
        }
        if *role != Role::Pinger && !answers.is_empty() {
            bad("answered a ping that was never sent")?;
        }
        if *role == Role::Pinger {
            if answers != nonces(seeds[i]) {
                bad("pings were not each answered once, in order, with their own nonce")?;
            }
            a.add("answered", answers.len() as u64);
        }
        a.add("asks", asks);
        match role {
            Role::Wrong => a.add("wrong_answers", 1),
            Role::Unasked => a.add("unasked_answers", 1),
            Role::Twice => a.add("double_answers", 1),
            _ => (),
        }
    }
    a.sig = roles.iter().fold(int, |h, x| vcommon::mix(h, *x as u64 + 1));
    a.nontrivial = true;
    Ok(a)
}


pub fn p01(ctx: &Ctx) {
    let mut must = vec!["pongs", "timeouts", "pairs", "left", "unencrypted"];
    if !cfg!(feature = "flatc") {
        must.extend_from_slice(&["junk", "answered", "wrong_answers", "unasked_answers", "double_answers"]);
    }
    let spec = CheckSpec {
        level: "exploration",
        rule: "callback calls and session ends compared with what each peer did: answered, kept silent, answered wrongly".into(),
        assumptions: vec!["the protocol's source is compiled with the dependencies available here".into()],
        cases: ctx.q(400, 20_000),
        budget_s: ctx.q(18, 600),
        threads: 16,
        must_see: must,
    };
    ctx.run(spec, |seed, idx| case(seed, idx).unwrap_or_else(|v| v))
}
