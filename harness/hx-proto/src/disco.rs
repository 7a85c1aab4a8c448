//! P03: the discovery protocol. What peers send decides the calls of the address manager and
//! the answers; announcements are judged by who knows which address.
use crate::kit::*;
use bytes::Bytes;
use px_discovery::{AddressManager, DiscoveryProtocol, MisbehaveResult, Misbehavior};
use std::{
    collections::HashSet,
    convert::TryFrom,
    sync::{Arc, Mutex},
    time::Duration,
};
use tentacle::{multiaddr::Multiaddr, SessionId};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng, Verdict};

#[derive(Clone, Copy, Debug)]
struct Rules {
    dup_get: bool,
    dup_nodes: bool,
    items: bool,
    addrs: bool,
    invalid: bool,
}

struct Mgr {
    n: usize,
    log: Arc<Log>,
    store: Arc<Mutex<Vec<Multiaddr>>>,
    rules: Rules,
}

fn texts(v: &[Multiaddr]) -> String {
    v.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(" ")
}

fn port(a: &Multiaddr) -> u16 {
    a.iter()
        .find_map(|p| match p {
            tentacle::multiaddr::Protocol::TCP(p) => Some(p),
            _ => None,
        })
        .unwrap_or(0)
}

fn valid(a: &Multiaddr) -> bool {
    port(a) % 5 != 0
}

impl Mgr {
    fn call(&self, s: SessionId, what: String) {
        self.log.put(self.n, W::Call { who: Who::Ses(s.value()), what });
    }
}

impl AddressManager for Mgr {
    fn is_valid_addr(&self, a: &Multiaddr) -> bool {
        valid(a)
    }
    fn add_new_addr(&mut self, s: SessionId, a: Multiaddr) {
        self.call(s, format!("new {}", a));
        let mut s = self.store.lock().unwrap();
        if !s.contains(&a) {
            s.push(a);
        }
    }
    fn add_new_addrs(&mut self, s: SessionId, v: Vec<Multiaddr>) {
        self.call(s, format!("news {}", texts(&v)));
    }
    fn misbehave(&mut self, s: SessionId, kind: Misbehavior) -> MisbehaveResult {
        let (t, d) = match kind {
            Misbehavior::DuplicateGetNodes => ("dup-get".into(), self.rules.dup_get),
            Misbehavior::DuplicateFirstNodes => ("dup-nodes".into(), self.rules.dup_nodes),
            Misbehavior::TooManyItems { announce, length } => (format!("items {} {}", announce, length), self.rules.items),
            Misbehavior::TooManyAddresses(n) => (format!("addrs {}", n), self.rules.addrs),
            Misbehavior::InvalidData => ("invalid".into(), self.rules.invalid),
        };
        self.call(s, t);
        if d {
            MisbehaveResult::Disconnect
        } else {
            MisbehaveResult::Continue
        }
    }
    fn get_random(&mut self, n: usize) -> Vec<Multiaddr> {
        let s = self.store.lock().unwrap();
        s.iter().take(n).cloned().collect()
    }
}

fn some_addr(r: &mut Rng) -> Multiaddr {
    let t = if r.chance(1, 5) {
        format!("/ip6/2001:db8::{:x}:{:x}/tcp/{}", r.below(65536), r.below(65536), r.range(1, 65535))
    } else {
        format!("/ip4/{}.{}.{}.{}/tcp/{}", r.range(1, 220), r.below(256), r.below(256), r.below(256), r.range(1, 65535))
    };
    t.parse().unwrap()
}

#[derive(Clone, Debug)]
enum Msg {
    Get { count: u32, port: Option<u16> },
    Nodes { announce: bool, items: Vec<Vec<Multiaddr>> },
    Junk(Vec<u8>),
}

fn frame(b: Vec<u8>) -> Vec<u8> {
    let mut o = (b.len() as u32).to_be_bytes().to_vec();
    o.extend_from_slice(&b);
    o
}

fn body(m: &Msg) -> Vec<u8> {
    match m {
        Msg::Get { count, port } => {
            let p = port.map(|p| p.to_le_bytes().to_vec()).unwrap_or_default();
            table(&[union(0, &table(&[vec![0; 4], count.to_le_bytes().to_vec(), p]))])
        }
        Msg::Nodes { announce, items } => {
            let v: Vec<Vec<u8>> = items
                .iter()
                .map(|i| table(&[table(&i.iter().map(|a| fixvec(a.as_ref())).collect::<Vec<_>>())]))
                .collect();
            table(&[union(1, &table(&[vec![u8::from(*announce)], table(&v)]))])
        }
        Msg::Junk(b) => b.clone(),
    }
}

impl Msg {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Msg::Junk(b) => b.clone(),
            m => frame(body(m)),
        }
    }
}

fn parse(b: &[u8]) -> Option<Msg> {
    if b.len() < 4 || u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize != b.len() - 4 {
        return None;
    }
    let f = fields(&b[4..])?;
    let u = *f.get(0)?;
    match le32(u)? {
        0 => {
            let g = fields(&u[4..])?;
            if g.len() != 3 {
                return None;
            }
            let port = match g[2].len() {
                0 => None,
                2 => Some(u16::from_le_bytes([g[2][0], g[2][1]])),
                _ => return None,
            };
            Some(Msg::Get { count: le32(g[1])?, port })
        }
        1 => {
            let g = fields(&u[4..])?;
            if g.len() != 2 || g[0].len() != 1 || g[0][0] > 1 {
                return None;
            }
            let mut items = vec![];
            for n in fields(g[1])? {
                let n = fields(n)?;
                let mut v = vec![];
                for a in fields(n.get(0)?)? {
                    v.push(Multiaddr::try_from(unfix(a)?.to_vec()).ok()?);
                }
                items.push(v);
            }
            Some(Msg::Nodes { announce: g[0][0] == 1, items })
        }
        _ => None,
    }
}

fn junk(r: &mut Rng) -> Vec<u8> {
    if cfg!(feature = "flatc") {
        let n = r.rus(0, 3);
        return r.bytes(n);
    }
    let a = some_addr(r);
    let good = body(&Msg::Nodes { announce: r.chance(1, 2), items: vec![vec![a]] });
    match r.below(7) {
        0 => vec![],
        // shorter than it says
        1 => {
            let mut f = frame(good);
            f.pop();
            f
        }
        2 => good,
        3 => {
            let mut g = good;
            g.push(0);
            frame(g)
        }
        4 => frame(table(&[union(1, &table(&[vec![2], table(&[])]))])),
        5 => frame(table(&[union(1, &table(&[vec![0], table(&[table(&[table(&[fixvec(&[4, 1])])])])]))])),
        _ => {
            let n = r.rus(1, 40);
            let b = r.bytes(n);
            frame(b)
        }
    }
}

/// calls and answers that these messages lead to, and after how many calls the end is asked for
fn model(script: &[Msg], rules: Rules, addr: &Multiaddr, out: bool) -> (Vec<String>, Vec<u32>, Option<usize>) {
    let (mut calls, mut answers, mut end) = (vec![], vec![], None);
    let (mut got_get, mut got_nodes) = (false, false);
    let mut listen = if out { Some(addr.clone()) } else { None };
    for m in script {
        let mut over = |n: usize| {
            if end.is_none() {
                end = Some(n)
            }
        };
        match m {
            Msg::Junk(_) => {
                calls.push("invalid".to_owned());
                if rules.invalid {
                    over(calls.len())
                }
            }
            Msg::Get { count, port } => {
                if got_get {
                    calls.push("dup-get".into());
                    if rules.dup_get {
                        over(calls.len());
                        continue;
                    }
                }
                got_get = true;
                if let Some(p) = port {
                    let l = listen.get_or_insert_with(|| with_port(addr, *p));
                    calls.push(format!("new {}", l));
                }
                if end.is_none() {
                    answers.push(*count);
                }
            }
            Msg::Nodes { announce, items } => {
                let many = items.iter().find(|i| i.len() > 3);
                if items.len() > if *announce { 10 } else { 1000 } {
                    calls.push(format!("items {} {}", announce, items.len()));
                    if rules.items {
                        over(calls.len());
                        continue;
                    }
                } else if let Some(i) = many {
                    calls.push(format!("addrs {}", i.len()));
                    if rules.addrs {
                        over(calls.len());
                        continue;
                    }
                }
                if !announce && got_nodes {
                    calls.push("dup-nodes".into());
                    if rules.dup_nodes {
                        over(calls.len())
                    }
                } else {
                    got_nodes |= !announce;
                    calls.push(format!("news {}", texts(&items.iter().flatten().cloned().collect::<Vec<_>>())));
                }
            }
        }
    }
    (calls, answers, end)
}

fn any_rules(r: &mut Rng) -> Rules {
    let mut c = || r.chance(1, 2);
    Rules { dup_get: c(), dup_nodes: c(), items: c(), addrs: c(), invalid: c() }
}

fn nodes(r: &mut Rng) -> Msg {
    let announce = r.chance(1, 2);
    let n = match (announce, r.below(4)) {
        (true, 0) => r.rus(10, 12),
        (false, 0) => r.rus(999, 1003),
        (_, 1) => 0,
        _ => r.rus(1, 10),
    };
    let items = (0..n)
        .map(|_| {
            let k = if r.chance(1, 25) { r.rus(0, 5) } else { r.rus(1, 2) };
            (0..k).map(|_| some_addr(r)).collect()
        })
        .collect();
    Msg::Nodes { announce, items }
}

fn count(r: &mut Rng) -> u32 {
    *r.pick(&[0, 1, 7, 100, 999, 1000, 1001, 1500, 2500, u32::max_value()])
}

fn case(seed: u64, idx: u64) -> Result<Verdict, Verdict> {
    let mut r = Rng::new(seed);
    let rt = runtime(&mut r);
    let res = match idx % 4 {
        _ if cfg!(feature = "flatc") => same(&rt, &mut r),
        0 | 1 => talk(&rt, &mut r),
        2 => announce(&rt, &mut r),
        _ => same(&rt, &mut r),
    };
    stop(rt);
    res.map(Verdict::Pass)
}

fn calls(evs: &[Ev], n: usize, s: usize) -> Vec<String> {
    evs.iter()
        .filter_map(|e| match &e.w {
            W::Call { who: Who::Ses(t), what } if e.n == n && *t == s => Some(what.clone()),
            _ => None,
        })
        .collect()
}

fn got(evs: &[Ev], n: usize) -> Vec<Bytes> {
    evs.iter()
        .filter_map(|e| match &e.w {
            W::Data { data, .. } if e.n == n => Some(data.clone()),
            _ => None,
        })
        .collect()
}

fn relay(n: usize, log: &Arc<Log>, script: &[Msg]) -> Relay {
    let raw: Vec<Vec<u8>> = script.iter().map(Msg::bytes).collect();
    let act: Act = Box::new(move |c, s, d| {
        if d.is_none() {
            for m in &raw {
                send(c, s, m.clone())
            }
        }
    });
    Relay { n, log: log.clone(), act }
}

/// peers that say what they like; nothing is announced
fn talk(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let size = *r.pick(&[0usize, 3, 400, 1000, 1001, 1400, 2500]);
    let known: Vec<Multiaddr> = (0..size).map(|_| some_addr(r)).collect();
    let store = Arc::new(Mutex::new(known.clone()));
    let rules = any_rules(r);
    let (vk, la) = (key(r), fresh(r));
    let mgr = Mgr { n: 0, log: log.clone(), store, rules };
    let v = start(rt, &log, 0, Some(vk), Some(la), Box::new(DiscoveryProtocol::new(mgr, None, Some(Duration::from_secs(600)))));
    let mut peers = vec![];
    for n in 1..=r.rus(1, 4) {
        let k = key(r);
        let out = r.chance(1, 3);
        let l = if out { Some(fresh(r)) } else { None };
        let mut script = vec![];
        for _ in 0..r.rus(1, 4) {
            script.push(match r.below(7) {
                0 => Msg::Junk(junk(r)),
                1 | 2 | 3 => nodes(r),
                _ => Msg::Get { count: count(r), port: if r.chance(3, 4) { Some(r.range(1, 65535) as u16) } else { None } },
            });
        }
        let node = start(rt, &log, n, Some(k), l, Box::new(relay(n, &log, &script)));
        if out {
            dial(&v, &node)
        } else {
            dial(&node, &v)
        }
        peers.push((node, script));
    }
    if !log.wait(|e| peers.iter().all(|p| session(e, 0, p.0.id.as_ref().unwrap()).is_some()))? {
        return Err(Verdict::Inconclusive("not all sessions opened".into()));
    }
    let e = log.snap();
    let mut a = Acc::default();
    let mut sig = size as u64;
    for (i, (node, script)) in peers.iter().enumerate() {
        let n = i + 1;
        let (s, out, addr, _) = session(&e, 0, node.id.as_ref().unwrap()).unwrap();
        let (want, answers, end) = model(script, rules, &addr, out);
        let bad = |what: &str| -> Result<(), Verdict> {
            let cut = |s: String| s.chars().take(900).collect::<String>();
            violation(
                "discovery-wrong",
                format!("{} known, {:?}, peer {}: {}\nexpected calls {}\ngot calls {}\n{}", size, rules, n, what, cut(format!("{:?}", want)), cut(format!("{:?}", calls(&log.snap(), 0, s))), log.render(&[0, n])),
            )
        };
        let own = usize::from(out);
        let ok = log.wait(|e| {
            if end.is_some() {
                return closed(e, 0, s);
            }
            calls(e, 0, s).len() >= want.len() && got(e, n).len() >= answers.len() + own
        })?;
        dead(&log, "discovery")?;
        if !ok {
            bad("the calls, the answers or the end of the session did not come")?;
        }
        pause(20);
        let evs = log.snap();
        let have = calls(&evs, 0, s);
        if have.len() > want.len() || have.len() < end.unwrap_or(want.len()) || have.iter().zip(&want).any(|(h, w)| h != w) {
            bad("the calls are not those the messages ask for")?;
        }
        if end.is_none() && closed(&evs, 0, s) {
            bad("the session was ended for no reason")?;
        }
        let mut heard = vec![];
        for b in got(&evs, n) {
            match parse(&b) {
                Some(m) => heard.push(m),
                None => bad("sent something undecodable")?,
            }
        }
        let mut it = heard.into_iter();
        if out {
            // asks the peer it dialed, and says where it listens itself
            match it.next() {
                Some(Msg::Get { count: 1000, port: Some(p) }) if p == port(v.addr.as_ref().unwrap()) => a.add("asked", 1),
                None if end.is_some() => (),
                x => bad(&format!("first message to a dialed peer is {:.200}", format!("{:?}", x)))?,
            }
        }
        let mut rest: Vec<Msg> = it.collect();
        if rest.len() > answers.len() && end.is_none() || rest.len() < answers.len() && end.is_none() {
            bad("not exactly one answer for each request")?;
        }
        rest.truncate(answers.len());
        for (m, c) in rest.iter().zip(&answers) {
            let items = match m {
                Msg::Nodes { announce: false, items } => items,
                m => return bad(&format!("answered with {:.200}", format!("{:?}", m))).map(|_| a),
            };
            let set: HashSet<Vec<u8>> = items.iter().flatten().map(|a| a.to_vec()).collect();
            if items.iter().any(|i| i.len() != 1) || set.len() != items.len() {
                bad("an answer with repeated addresses or with items of other than one")?;
            }
            let most = 1000.min(*c as usize);
            if items.len() > most {
                bad(&format!("{} addresses in answer to a request for {}", items.len(), c))?;
            }
            // further ones come from the peers' own requests
            if items.len() < most.min(size) {
                bad(&format!("only {} addresses in answer to a request for {}", items.len(), c))?;
            }
            let ours: HashSet<Vec<u8>> = known.iter().map(|a| a.to_vec()).collect();
            if items.iter().flatten().any(|x| !ours.contains(&x.to_vec()) && x.to_vec() == with_port(&addr, port(x)).to_vec()) && answers.len() == 1 {
                bad("a peer was told its own address")?;
            }
            let strange = items.iter().flatten().filter(|x| !ours.contains(&x.to_vec())).count();
            if strange > 20 {
                bad("an answer with addresses that the manager did not give")?;
            }
            a.add("answers", 1);
            a.add("full_answers", u64::from(items.len() == 1000));
            a.add("small_requests", u64::from((*c as usize) < size));
        }
        a.add("calls", have.len() as u64);
        a.add("ended", u64::from(end.is_some()));
        for w in &want {
            for k in &["dup-get", "dup-nodes", "items true", "items false", "addrs", "invalid", "new ", "news"] {
                a.add(k.trim(), u64::from(w.starts_with(k)));
            }
            sig = vcommon::mix(sig, vcommon::hash_str(&w[..4]));
        }
    }
    a.sig = sig;
    a.nontrivial = true;
    Ok(a)
}

/// Peers that make their listen addresses known: everyone else hears of every valid one, once.
fn announce(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let rules = any_rules(r);
    let (vk, la) = (key(r), fresh(r));
    let store = Arc::new(Mutex::new(vec![]));
    let mgr = Mgr { n: 0, log: log.clone(), store: store.clone(), rules };
    let cycle = if r.chance(1, 3) { None } else { Some(Duration::from_millis(r.range(10, 60))) };
    let v = start(rt, &log, 0, Some(vk), Some(la), Box::new(DiscoveryProtocol::new(mgr, cycle, Some(Duration::from_millis(r.range(10, 40))))));
    let many = r.chance(1, 3);
    let size = if many { r.rus(4, 16) } else { r.rus(2, 3) };
    let mut peers = vec![];
    for n in 1..=size {
        let k = key(r);
        let out = r.chance(1, 4);
        let l = if out { Some(fresh(r)) } else { None };
        let node = start(rt, &log, n, Some(k), l, Box::new(relay(n, &log, &[])));
        if out {
            dial(&v, &node)
        } else {
            dial(&node, &v)
        }
        peers.push((node, out));
    }
    let vid = v.id.clone().unwrap();
    if !log.wait(|e| {
        peers.iter().enumerate().all(|(i, p)| {
            session(e, 0, p.0.id.as_ref().unwrap()).is_some() && e.iter().any(|e| e.n == i + 1 && matches!(e.w, W::Conn { .. }))
        })
    })? {
        return Err(Verdict::Inconclusive("not all sessions opened".into()));
    }
    let e = log.snap();
    let ses: Vec<_> = peers.iter().map(|p| session(&e, 0, p.0.id.as_ref().unwrap()).unwrap()).collect();
    let mine: Vec<usize> = (0..size).map(|i| session(&e, i + 1, &vid).map(|s| s.0).unwrap_or(1)).collect();
    // the addresses they are going to be known by
    let ports: Vec<u16> = (0..size).map(|_| r.range(1, 65535) as u16).collect();
    let known: Vec<Multiaddr> = (0..size).map(|i| if peers[i].1 { ses[i].2.clone() } else { with_port(&ses[i].2, ports[i]) }).collect();
    // some already know of some, and say so before these are known to node 0
    let mut told: HashSet<(usize, usize)> = HashSet::new();
    for i in 0..size {
        let v: Vec<usize> = (0..size).filter(|j| *j != i && !peers[*j].1 && r.chance(1, 5)).collect();
        if v.is_empty() {
            continue;
        }
        let items = v.iter().take(10).map(|j| vec![known[*j].clone()]).collect();
        v.iter().take(10).for_each(|j| {
            told.insert((i, *j));
        });
        send(&peers[i].0.ctl, mine[i], Msg::Nodes { announce: r.chance(1, 2), items }.bytes());
        if !log.wait(|e| calls(e, 0, ses[i].0).iter().any(|c| c.starts_with("news")))? {
            return violation("discovery-lost", format!("addresses a peer sent were not added\n{}", log.render(&[0, i + 1])));
        }
    }
    // some ask while the manager knows of some, and are answered with these
    let cells = |e: &[Ev], i: usize| -> Vec<Msg> { got(e, i + 1).iter().filter_map(|b| parse(b)).collect() };
    let old: Vec<usize> = (0..size).filter(|j| !peers[*j].1 && r.chance(1, 3)).collect();
    store.lock().unwrap().extend(old.iter().map(|j| known[*j].clone()));
    let mut asker = vec![false; size];
    for i in 0..size {
        if !peers[i].1 && !old.contains(&i) && !old.is_empty() && r.chance(1, 3) {
            asker[i] = true;
            send(&peers[i].0.ctl, mine[i], Msg::Get { count: 1000, port: None }.bytes());
            if !log.wait(|e| cells(e, i).iter().any(|m| matches!(m, Msg::Nodes { announce: false, .. })))? {
                return violation("discovery-lost", format!("a request was not answered\n{}", log.render(&[0, i + 1])));
            }
            old.iter().for_each(|j| {
                told.insert((i, *j));
            });
        }
    }
    let mut shown = vec![false; size];
    for i in 0..size {
        if peers[i].1 {
            shown[i] = true;
        } else if !asker[i] && r.chance(5, 6) {
            shown[i] = true;
            send(&peers[i].0.ctl, mine[i], Msg::Get { count: 1000, port: Some(ports[i]) }.bytes());
        }
    }
    // everyone hears of everyone: as long as all are picked every time
    let mut a = Acc::default();
    // with a long cycle an address may have been looked at before it was known, or the other was there
    if !many && cycle.is_some() {
        for i in 0..size {
            for j in 0..size {
                if i == j || !shown[j] || told.contains(&(i, j)) || !valid(&known[j]) {
                    continue;
                }
                // an address can also arrive in an answer
                let ok = log.wait(|e| {
                    cells(e, i).iter().any(|m| matches!(m, Msg::Nodes { items, .. } if items.iter().flatten().any(|x| *x == known[j])))
                })?;
                dead(&log, "discovery")?;
                if !ok {
                    return violation("discovery-unannounced", format!("peer {} never heard of {}\n{}", i + 1, known[j], log.render(&[0, i + 1])));
                }
                a.add("heard", 1);
            }
        }
    }
    pause(150);
    dead(&log, "discovery")?;
    let evs = log.snap();
    for i in 0..size {
        if closed(&evs, 0, ses[i].0) {
            return violation("discovery-wrong", format!("peer {} was disconnected\n{}", i + 1, log.render(&[0, i + 1])));
        }
        let mut had: HashSet<Vec<u8>> = HashSet::new();
        for m in cells(&evs, i) {
            let bad = |what: String| -> Result<(), Verdict> {
                violation("discovery-announce", format!("to peer {}: {}\n{:.600}\n{}", i + 1, what, format!("{:?}", m), log.render(&[i + 1])))
            };
            if let Msg::Nodes { announce, items } = &m {
                if *announce {
                    a.add("announcements", 1);
                    if items.is_empty() || items.len() > 10 || items.iter().any(|x| x.len() != 1) {
                        bad(format!("an announcement of {} items", items.len()))?;
                    }
                    for x in items.iter().flatten() {
                        if *x == known[i] {
                            bad("its own address was announced to it".into())?;
                        }
                        if had.contains(&x.to_vec()) {
                            bad(format!("{} was announced twice", x))?;
                        }
                        match (0..size).find(|j| known[*j] == *x) {
                            None => bad(format!("{} is nobody's address", x))?,
                            Some(j) => {
                                if !shown[j] || !valid(x) {
                                    bad(format!("{} is unknown or invalid", x))?;
                                }
                                if told.contains(&(i, j)) {
                                    bad(format!("{} was announced to one who knew of it", x))?;
                                }
                            }
                        }
                        had.insert(x.to_vec());
                        a.add("announced", 1);
                    }
                }
            }
        }
    }
    a.add("asked_before", asker.iter().filter(|x| **x).count() as u64);
    a.add("invalid_kept", shown.iter().zip(&known).filter(|(s, k)| **s && !valid(k)).count() as u64);
    a.add("crowds", u64::from(many));
    a.add("already_known", told.len() as u64);
    a.sig = vcommon::mix(size as u64, ports.iter().fold(0, |h, p| vcommon::mix(h, u64::from(*p))));
    a.nontrivial = true;
    Ok(a)
}

/// the protocol on both sides
fn same(rt: &tokio::runtime::Runtime, r: &mut Rng) -> Result<Acc, Verdict> {
    let log = Log::new();
    let rules = Rules { dup_get: true, dup_nodes: true, items: true, addrs: true, invalid: true };
    let n = r.rus(2, 4);
    let mut nodes = vec![];
    let mut lists = vec![];
    for i in 0..n {
        let size = *r.pick(&[0usize, 2, 300, 1000, 1001, 2500]);
        let known: Vec<Multiaddr> = (0..size).map(|_| some_addr(r)).collect();
        let mgr = Mgr { n: i, log: log.clone(), store: Arc::new(Mutex::new(known.clone())), rules };
        let (k, l) = (key(r), if i == 0 || r.chance(2, 3) { Some(fresh(r)) } else { None });
        let cycle = Some(Duration::from_millis(r.range(10, 60)));
        let h = DiscoveryProtocol::new(mgr, cycle, Some(Duration::from_millis(r.range(10, 40))));
        nodes.push(start(rt, &log, i, Some(k), l, Box::new(h)));
        lists.push(known);
    }
    for i in 1..n {
        dial(&nodes[i], &nodes[0]);
    }
    let zero = nodes[0].id.clone().unwrap();
    if !log.wait(|e| (1..n).all(|i| session(e, i, &zero).is_some() && session(e, 0, nodes[i].id.as_ref().unwrap()).is_some()))? {
        return Err(Verdict::Inconclusive("not all sessions opened".into()));
    }
    let mut a = Acc::default();
    let opened = log.snap();
    let at: Vec<Option<Multiaddr>> = (0..n)
        .map(|i| {
            if i == 0 {
                return None;
            }
            let s = session(&opened, 0, nodes[i].id.as_ref().unwrap()).unwrap();
            nodes[i].addr.as_ref().map(|l| with_port(&s.2, port(l)))
        })
        .collect();
    let ours: HashSet<Vec<u8>> = lists[0].iter().map(|a| a.to_vec()).collect();
    let split = |c: &str| -> Vec<Multiaddr> { c[4..].split(' ').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect() };
    for i in 1..n {
        let s = session(&opened, i, &zero).unwrap().0;
        let t = session(&opened, 0, nodes[i].id.as_ref().unwrap()).unwrap().0;
        let bad = |what: String| -> Result<(), Verdict> {
            violation("discovery-pair", format!("{} known, node {}: {}\n{}", lists[0].len(), i, what, log.render(&[])))
        };
        let news = |e: &[Ev]| -> Vec<Multiaddr> { calls(e, i, s).iter().filter(|c| c.starts_with("news")).flat_map(|c| split(c)).collect() };
        // the first answer, and then everyone who listens
        let ok = log.wait(|e| {
            let have: HashSet<String> = news(e).iter().map(|x| x.to_string()).collect();
            calls(e, i, s).iter().any(|c| c.starts_with("news"))
                && have.len() >= lists[0].len().min(1000)
                && (1..n).all(|j| j == i || at[j].as_ref().map(|x| !valid(x) || have.contains(&x.to_string())).unwrap_or(true))
                && (at[i].is_none() || calls(e, 0, t).iter().any(|c| c.starts_with("new ")))
        })?;
        dead(&log, "discovery")?;
        if !ok {
            bad("did not hear of all addresses".into())?;
        }
        pause(30);
        let evs = log.snap();
        let told = calls(&evs, 0, t);
        let want: Vec<String> = at[i].iter().map(|x| format!("new {}", x)).collect();
        if told != want {
            bad(format!("the answering side was called with {:?} instead of {:?}", told, want))?;
        }
        if let Some(c) = calls(&evs, i, s).iter().find(|c| !c.starts_with("news")) {
            bad(format!("an honest node was reported: {}", c))?;
        }
        for x in news(&evs) {
            if !ours.contains(&x.to_vec()) && !at.iter().flatten().any(|y| *y == x) {
                bad(format!("{} came from nowhere", x))?;
            }
            if at[i].as_ref() == Some(&x) {
                bad("was told its own address".into())?;
            }
        }
        if closed(&evs, 0, t) {
            bad("the session was ended".into())?;
        }
        a.add("pairs", 1);
        a.add("listening", u64::from(at[i].is_some()));
    }
    a.sig = vcommon::mix(n as u64, lists.iter().fold(0, |h, l| vcommon::mix(h, l.len() as u64)));
    a.nontrivial = true;
    Ok(a)
}

pub fn p03(ctx: &Ctx) {
    let mut must = vec!["pairs", "listening"];
    if !cfg!(feature = "flatc") {
        must.extend_from_slice(&[
            "asked", "answers", "full_answers", "small_requests", "ended", "dup-get", "dup-nodes", "items true", "items false", "addrs",
            "invalid", "new", "news", "heard", "announced", "crowds", "already_known", "asked_before", "invalid_kept",
        ]);
    }
    let spec = CheckSpec {
        level: "exploration",
        rule: "the manager's calls and the answers compared with those the peers' messages ask for; announcements against who knows what".into(),
        assumptions: vec![
            "the protocol's source is compiled with the dependencies available here".into(),
            "the filter of known addresses is exact".into(),
        ],
        cases: ctx.q(2_000, 50_000),
        budget_s: ctx.q(15, 600),
        threads: 12,
        must_see: must,
    };
    ctx.run(spec, |seed, idx| case(seed, idx).unwrap_or_else(|v| v))
}
