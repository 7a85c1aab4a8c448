//! P02: the identify protocol. What a peer sends decides, in order, the calls of the callback.
use crate::kit::*;
use px_identify::{Callback, IdentifyProtocol, MisbehaveResult, Misbehavior};
use std::{sync::Arc, time::Duration};
use tentacle::{
    context::ProtocolContextMutRef, multiaddr::Multiaddr, secio::PeerId, service::SessionType,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng, Verdict};

#[derive(Clone)]
struct Cb {
    n: usize,
    log: Arc<Log>,
    mine: Vec<u8>,
    listens: Vec<Multiaddr>,
    rules: Rules,
}

/// for which reports the callback asks for the end of the session
#[derive(Clone, Copy, Debug)]
struct Rules {
    dup: bool,
    late: bool,
    invalid: bool,
    many: bool,
}

fn res(d: bool) -> MisbehaveResult {
    if d {
        MisbehaveResult::Disconnect
    } else {
        MisbehaveResult::Continue
    }
}

// identify data and observed addresses that the callback dislikes
fn bad_data(b: &[u8]) -> bool {
    b.first() == Some(&0xee)
}
fn bad_addr(a: &Multiaddr) -> bool {
    a.to_string().ends_with("/tcp/666")
}

fn texts(v: &[Multiaddr]) -> String {
    v.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(" ")
}

impl Cb {
    fn call(&self, p: &PeerId, what: String) {
        self.log.put(self.n, W::Call { who: Who::Peer(p.clone()), what });
    }
}

impl Callback for Cb {
    fn received_identify(&mut self, c: &mut ProtocolContextMutRef, d: &[u8]) -> MisbehaveResult {
        let p = c.session.remote_pubkey.as_ref().unwrap().peer_id();
        self.call(&p, format!("data {:?}", d));
        res(bad_data(d))
    }
    fn identify(&mut self) -> &[u8] {
        &self.mine
    }
    fn local_listen_addrs(&mut self) -> Vec<Multiaddr> {
        self.listens.clone()
    }
    fn add_remote_listen_addrs(&mut self, p: &PeerId, addrs: Vec<Multiaddr>) {
        self.call(p, format!("listens {}", texts(&addrs)));
    }
    fn add_observed_addr(&mut self, p: &PeerId, a: Multiaddr, ty: SessionType) -> MisbehaveResult {
        self.call(p, format!("observed {} {}", a, ty.is_outbound()));
        res(bad_addr(&a))
    }
    fn misbehave(&mut self, p: &PeerId, kind: Misbehavior) -> MisbehaveResult {
        let (t, d) = match kind {
            Misbehavior::DuplicateReceived => ("duplicate".into(), self.rules.dup),
            Misbehavior::Timeout => (LATE.to_owned(), self.rules.late),
            Misbehavior::InvalidData => ("invalid".into(), self.rules.invalid),
            Misbehavior::TooManyAddresses(n) => (format!("many {}", n), self.rules.many),
        };
        self.call(p, t);
        res(d)
    }
}

const LATE: &str = "timeout";

/// an address, whether it names a socket, whether anyone can reach it
fn addr(r: &mut Rng) -> (Multiaddr, bool, bool) {
    let port = if r.chance(1, 8) { 666 } else { r.range(1, 65535) };
    let (h, sock, reach) = match r.below(12) {
        0 => (format!("/ip4/127.0.{}.1", r.below(256)), true, false),
        1 => (format!("/ip4/10.{}.0.1", r.below(256)), true, false),
        2 => (format!("/ip4/192.168.{}.1", r.below(256)), true, false),
        3 => ("/ip6/::1".into(), true, false),
        4 => ("/ip4/0.0.0.0".into(), true, false),
        5 => (format!("/dns4/a{}.example", r.below(1000)), false, false),
        6 => (format!("/ip6/2001:4860:4860::{:x}", r.range(1, 60000)), true, true),
        7 => ("/ip6/fe80::1".into(), true, false),
        _ => (format!("/ip4/8.{}.{}.8", r.below(256), r.below(256)), true, true),
    };
    let tail = match r.below(6) {
        0 => "/ws".to_owned(),
        1 => format!("/p2p/{}", key(r).peer_id().to_base58()),
        _ => String::new(),
    };
    (format!("{}/tcp/{}{}", h, port, tail).parse().unwrap(), sock, reach)
}

type A = (Multiaddr, bool, bool);

fn addrs(r: &mut Rng, max: usize) -> Vec<A> {
    (0..r.rus(0, max)).map(|_| addr(r)).collect()
}

fn passes(a: &A, global: bool) -> bool {
    a.1 && (a.2 || !global)
}

fn data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0usize, 1, 3, 40, 300, 5000]);
    let mut d = r.bytes(n);
    if r.chance(1, 6) && n > 0 {
        d[0] = 0xee
    } else if n > 0 && d[0] == 0xee {
        d[0] = 1
    }
    d
}

#[derive(Clone, Debug)]
enum Send1 {
    Good { data: Vec<u8>, listens: Vec<A>, seen: A },
    Junk(Vec<u8>),
}

fn encode(data: &[u8], listens: &[Multiaddr], seen: &[u8]) -> Vec<u8> {
    let l: Vec<Vec<u8>> = listens.iter().map(|a| table(&[fixvec(a.as_ref())])).collect();
    table(&[table(&l), table(&[fixvec(seen)]), fixvec(data)])
}

fn plain(v: &[A]) -> Vec<Multiaddr> {
    v.iter().map(|a| a.0.clone()).collect()
}

fn junk(r: &mut Rng) -> Vec<u8> {
    if cfg!(feature = "flatc") {
        let n = r.rus(0, 3);
        return r.bytes(n);
    }
    let a = addr(r).0;
    let mut good = encode(b"x", &[a.clone()], a.as_ref());
    match r.below(6) {
        0 => vec![],
        1 => {
            good.pop();
            good
        }
        2 => {
            good.push(1);
            good
        }
        // the observed address, or a listen address, does not parse
        3 => encode(b"x", &[a], &[4, 1, 2]),
        4 => {
            let l = table(&[table(&[fixvec(&[0x7f, 0xff])])]);
            table(&[l, table(&[fixvec(a.as_ref())]), fixvec(b"x")])
        }
        _ => {
            let n = r.rus(1, 60);
            let mut b = r.bytes(n);
            b[0] = b[0].wrapping_add(u8::from(b[0] as usize == n));
            b
        }
    }
}

impl Send1 {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Send1::Good { data, listens, seen } => encode(data, &plain(listens), seen.0.as_ref()),
            Send1::Junk(b) => b.clone(),
        }
    }
}

/// the calls that this sequence of messages leads to, and after how many of them the end of
/// the session was asked for
fn model(script: &[Send1], rules: Rules, global: bool, out: bool) -> (Vec<String>, Option<usize>) {
    let mut calls = vec![];
    let mut end = None;
    let mut had = false;
    for m in script {
        let mut over = |calls: &Vec<String>| {
            if end.is_none() {
                end = Some(calls.len())
            }
        };
        match m {
            Send1::Junk(_) => {
                calls.push("invalid".into());
                if rules.invalid {
                    over(&calls)
                }
            }
            Send1::Good { data, listens, seen } => {
                if had {
                    calls.push("duplicate".into());
                    if rules.dup {
                        over(&calls);
                        continue;
                    }
                }
                had = true;
                calls.push(format!("data {:?}", data));
                if bad_data(data) {
                    over(&calls);
                    continue;
                }
                if listens.len() > 10 {
                    calls.push(format!("many {}", listens.len()));
                    if rules.many {
                        over(&calls);
                        continue;
                    }
                } else {
                    let l: Vec<A> = listens.iter().filter(|a| passes(a, global)).cloned().collect();
                    calls.push(format!("listens {}", texts(&plain(&l))));
                }
                if passes(seen, global) {
                    calls.push(format!("observed {} {}", seen.0, out));
                    if bad_addr(&seen.0) {
                        over(&calls)
                    }
                }
            }
        }
    }
    (calls, end)
}

fn case(seed: u64, idx: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let rt = runtime(&mut r);
    let res = match idx % 8 {
        7 => open_text(&rt, &mut r),
        k => run(&rt, &mut r, k == 1 || k == 4),
    };
    stop(rt);
    res.map(Verdict::Pass)
}

fn cb(r: &mut Rng, n: usize, log: &Arc<Log>, listens: &[A]) -> Cb {
    let mut mine = data(r);
    if !mine.is_empty() {
        mine[0] = 3;
    }
    let rules = Rules { dup: r.chance(1, 2), late: r.chance(1, 2), invalid: r.chance(1, 2), many: r.chance(1, 2) };
    Cb { n, log: log.clone(), mine, listens: plain(listens), rules }
}

fn open_text(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let l = fresh(r);
    let c = cb(r, 0, &log, &[]);
    let v = start(rt, &log, 0, None, Some(l), Box::new(IdentifyProtocol::new(c)));
    let p = start(rt, &log, 1, None, None, Box::new(Relay { n: 1, log: log.clone(), act: Box::new(|c, s, d| {
        if d.is_none() {
            send(c, s, vec![1, 2, 3])
        }
    }) }));
    for i in 1..3 {
        dial(&p, &v);
        let ok = log.wait(|e| e.iter().filter(|e| e.n == 0 && matches!(e.w, W::Close { .. })).count() >= i)?;
        if !ok {
            return violation("identify-open-text", format!("a session without encryption was kept\n{}", log.render(&[])));
        }
    }
    dead(&log, "identify")?;
    if log.count(|e| e.n == 1 && matches!(e.w, W::Data { .. }) || e.n == 0 && matches!(e.w, W::Call { .. })) > 0 {
        return violation("identify-open-text", "identified itself to, or took data from, an unidentified peer");
    }
    let mut a = Acc::default();
    a.add("unencrypted", 1);
    a.nontrivial = true;
    Ok(a)
}

fn calls(evs: &[Ev], n: usize, peer: &PeerId) -> Vec<(std::time::Instant, String)> {
    evs.iter()
        .filter_map(|e| match &e.w {
            W::Call { who: Who::Peer(p), what } if e.n == n && p == peer => Some((e.t, what.clone())),
            _ => None,
        })
        .collect()
}

fn run(rt: &tokio::runtime::Runtime, r: &mut Rng, long: bool) -> Result<Acc, Verdict> {
    let log = Log::new();
    let global = r.chance(1, 2);
    let (vk, la) = (key(r), fresh(r));
    let vl = addrs(r, 16);
    let vcb = cb(r, 0, &log, &vl);
    let v = start(rt, &log, 0, Some(vk), Some(la), Box::new(IdentifyProtocol::new(vcb.clone()).global_ip_only(global)));
    let vid = v.id.clone().unwrap();
    struct Peer {
        node: Node,
        /// hand-driven, with what it sends
        script: Option<Vec<Send1>>,
        cb: Option<(Cb, Vec<A>, bool)>,
    }
    let mut peers = vec![];
    for n in 1..=r.rus(1, 5) {
        let k = key(r);
        let out = r.chance(1, 3);
        let l = if out { Some(fresh(r)) } else { None };
        let same = cfg!(feature = "flatc") || r.chance(1, 4);
        let (node, script, cbx) = if same && r.chance(7, 8) {
            let pl = addrs(r, 16);
            let (c, g) = (cb(r, n, &log, &pl), r.chance(1, 2));
            (start(rt, &log, n, Some(k), l, Box::new(IdentifyProtocol::new(c.clone()).global_ip_only(g))), None, Some((c, pl, g)))
        } else {
            let mut script = vec![];
            for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
                script.push(if r.chance(1, 4) || cfg!(feature = "flatc") {
                    Send1::Junk(junk(r))
                } else {
                    Send1::Good { data: data(r), listens: addrs(r, 14), seen: addr(r) }
                });
            }
            let raw: Vec<Vec<u8>> = script.iter().map(Send1::bytes).collect();
            let act: Act = Box::new(move |c, s, d| {
                if d.is_none() {
                    for m in &raw {
                        send(c, s, m.clone())
                    }
                }
            });
            (start(rt, &log, n, Some(k), l, Box::new(Relay { n, log: log.clone(), act })), Some(script), None)
        };
        if out {
            dial(&v, &node)
        } else {
            dial(&node, &v)
        }
        peers.push(Peer { node, script, cb: cbx });
    }
    if !log.wait(|e| peers.iter().all(|p| session(e, 0, p.node.id.as_ref().unwrap()).is_some()))? {
        return Err(Verdict::Inconclusive("not all sessions opened".into()));
    }
    let e = log.snap();
    let ses: Vec<_> = peers.iter().map(|p| session(&e, 0, p.node.id.as_ref().unwrap()).unwrap()).collect();
    let mut a = Acc::default();
    // what each peer's messages lead to at node 0
    let mut wants = vec![];
    for (i, p) in peers.iter().enumerate() {
        let (_, out, _, _) = ses[i];
        let n = i + 1;
        let sent: Vec<Send1> = match (&p.script, &p.cb) {
            (Some(s), _) => s.clone(),
            (_, Some((c, pl, g))) => {
                // how the peer saw node 0
                if !log.wait(|e| session(e, n, &vid).is_some())? {
                    return Err(Verdict::Inconclusive("not all sessions opened".into()));
                }
                let at = no_p2p(&session(&log.snap(), n, &vid).unwrap().2);
                let l: Vec<A> = pl.iter().filter(|a| passes(a, *g)).take(10).cloned().collect();
                vec![Send1::Good { data: c.mine.clone(), listens: l, seen: (at, true, false) }]
            }
            _ => unreachable!(),
        };
        let (calls, end) = model(&sent, vcb.rules, global, out);
        let heard = sent.iter().any(|m| matches!(m, Send1::Good { .. }));
        wants.push((calls, end, heard));
    }
    let bad = |n: usize, what: &str, want: &[String]| -> Result<(), Verdict> {
        let mut w = format!("{:?}", want);
        w.truncate(1500);
        violation("identify-wrong", format!("global only {}, {:?}, peer {}: {}\nexpected calls {}\n{}", global, vcb.rules, n, what, w, log.render(&[0, n])))
    };
    for (i, p) in peers.iter().enumerate() {
        let (calls_want, end, _) = &wants[i];
        let id = p.node.id.as_ref().unwrap();
        let need = end.unwrap_or(calls_want.len());
        let ok = log.wait(|e| {
            calls(e, 0, id).iter().filter(|c| c.1 != LATE).count() >= need && (end.is_none() || closed(e, 0, ses[i].0))
                && (p.cb.is_some() || closed(e, 0, ses[i].0) || e.iter().any(|e| e.n == i + 1 && matches!(e.w, W::Data { .. })))
        })?;
        dead(&log, "identify")?;
        if !ok {
            bad(i + 1, "the calls, its own message or the end of the session did not come", calls_want)?;
        }
    }
    if long {
        // those never heard of are reported, once their time is over
        for (i, p) in peers.iter().enumerate() {
            let (calls_want, end, heard) = &wants[i];
            if *heard || end.is_some() {
                continue;
            }
            let id = p.node.id.as_ref().unwrap();
            let ok = log.wait(|e| {
                calls(e, 0, id).iter().any(|c| c.1 == LATE) && (!vcb.rules.late || closed(e, 0, ses[i].0))
            })?;
            if !ok {
                bad(i + 1, "a peer that never identified itself was not reported, or kept", calls_want)?;
            }
            a.add("silent_reported", 1);
        }
        let first = ses.iter().map(|s| s.3).max().unwrap();
        while first.elapsed() < Duration::from_millis(9300) {
            pause(50)
        }
        a.add("waited", 1);
    } else {
        pause(60)
    }
    dead(&log, "identify")?;
    let evs = log.snap();
    for (i, p) in peers.iter().enumerate() {
        let n = i + 1;
        let (want, end, heard) = &wants[i];
        let id = p.node.id.as_ref().unwrap();
        let (s, _, ref at, opened) = ses[i];
        let got = calls(&evs, 0, id);
        let plain: Vec<&String> = got.iter().filter(|c| c.1 != LATE).map(|c| &c.1).collect();
        if plain.len() > want.len() || plain.iter().zip(want).any(|(g, w)| *g != w) {
            bad(n, "the calls are not those the messages ask for", want)?;
        }
        let late: Vec<_> = got.iter().filter(|c| c.1 == LATE).collect();
        if *heard && !late.is_empty() {
            bad(n, "a peer that identified itself was reported as silent", want)?;
        }
        if late.iter().any(|c| c.0 < opened + Duration::from_secs(8)) {
            bad(n, "reported as silent too early", want)?;
        }
        if end.is_none() && (late.is_empty() || !vcb.rules.late) && closed(&evs, 0, s) && p.cb.is_none() {
            bad(n, "the session was ended for no reason", want)?;
        }
        a.add("calls", plain.len() as u64);
        a.add("ended", u64::from(end.is_some()));
        a.add("messages", u64::from(*heard));
        a.add("heard_and_waited", u64::from(*heard && long));
        for w in want {
            for k in &["duplicate", "invalid", "many", "observed"] {
                a.add(k, u64::from(w.starts_with(k)));
            }
        }
        // what node 0 sent
        match &p.cb {
            Some(_) => a.add("pairs", 1),
            None => {
                let sent: Vec<_> = evs
                    .iter()
                    .filter_map(|e| match &e.w {
                        W::Data { data, .. } if e.n == n => Some(data.clone()),
                        _ => None,
                    })
                    .collect();
                let l: Vec<A> = vl.iter().filter(|a| passes(a, global)).take(10).cloned().collect();
                let plain: Vec<Multiaddr> = l.iter().map(|a| a.0.clone()).collect();
                let own = encode(&vcb.mine, &plain, no_p2p(at).as_ref());
                if sent.len() > 1 || (sent.is_empty() && !closed(&evs, 0, s)) {
                    bad(n, "did not identify itself exactly once", want)?;
                }
                if !cfg!(feature = "flatc") && !sent.is_empty() && sent[0].as_ref() != &own[..] {
                    bad(n, "identified itself with something else than its data, its addresses and the peer's", want)?;
                }
                a.add("own_message", sent.len() as u64);
            }
        }
    }
    a.sig = wants.iter().fold(1, |h, w| vcommon::mix(h, vcommon::hash_str(&w.0.iter().map(|c| &c[..4]).collect::<Vec<_>>().join(","))));
    a.nontrivial = true;
    Ok(a)
}

pub fn p02(ctx: &Ctx) {
    let mut must = vec!["calls", "pairs", "waited", "heard_and_waited", "unencrypted"];
    if !cfg!(feature = "flatc") {
        must.extend_from_slice(&["ended", "duplicate", "invalid", "many", "observed", "silent_reported", "own_message"]);
    }
    let spec = CheckSpec {
        level: "exploration",
        rule: "the callback's calls, in order, compared with those the peer's messages ask for".into(),
        assumptions: vec!["the protocol's source is compiled with the dependencies available here".into()],
        cases: ctx.q(600, 20_000),
        budget_s: ctx.q(14, 600),
        threads: 24,
        must_see: must,
    };
    ctx.run(spec, |seed, idx| case(seed, idx).unwrap_or_else(|v| v))
}
