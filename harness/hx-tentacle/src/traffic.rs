//! T01, T02, T16: what is sent is what is received.
use crate::{judge::R, mesh::*, net::*, proxy::{Plan, Proxy}};
use bytes::Bytes;
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};
use tentacle::service::{TargetProtocol, TargetSession};
use vcommon::{Acc, CheckSpec, Ctx, Rng, Verdict};

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Full(u64),
    Tiny(Bytes),
}

/// (source node, its session, protocol, thread, high)
pub type Key = (usize, usize, usize, u32, bool);
pub type Ledger = Arc<Mutex<HashMap<Key, Vec<Item>>>>;

pub struct Sender {
    pub n: usize,
    pub thr: u32,
    pub seq: u64,
    pub ledger: Ledger,
}

#[derive(Clone, Debug)]
pub enum To {
    One(usize),
    Some(Vec<usize>),
    All(Vec<usize>),
}

impl Sender {
    /// false when the service is gone
    pub fn send(&mut self, node: &Node, to: To, p: usize, high: bool, len: usize, r: &mut Rng) -> bool {
        let (item, data) = if len < HDR && self.thr == 0 && !high {
            let d = Bytes::from(r.bytes(len));
            (Item::Tiny(d.clone()), d)
        } else {
            let s = if let To::One(s) = to { s } else { 0 };
            let h = Hdr { src: self.n as u8, high, p: p as u16, s: s as u32, thr: self.thr, seq: self.seq, len: len as u32 };
            (Item::Full(self.seq), make(&h))
        };
        let c = &node.ctl;
        let targets = match &to {
            To::One(s) => vec![*s],
            To::Some(v) | To::All(v) => v.clone(),
        };
        // recorded first: the receiver may be quicker than this thread
        {
            let mut l = self.ledger.lock().unwrap();
            for s in &targets {
                l.entry((self.n, *s, p, self.thr, high)).or_default().push(item.clone());
            }
        }
        let pr = pid(p);
        let ok = match &to {
            To::One(s) if high => until_ok(|| c.quick_send_message_to((*s).into(), pr, data.clone())),
            To::One(s) => until_ok(|| c.send_message_to((*s).into(), pr, data.clone())),
            To::Some(v) => {
                // and some that do not exist
                let mut all: Vec<usize> = v.clone();
                for _ in 0..r.below(3) {
                    all.insert(r.us(all.len() + 1), *r.pick(&[0usize, 5000, 5001, 1 << 40]));
                }
                let t = || TargetSession::Multi(all.iter().map(|s| (*s).into()).collect());
                if high {
                    until_ok(|| c.quick_filter_broadcast(t(), pr, data.clone()))
                } else {
                    until_ok(|| c.filter_broadcast(t(), pr, data.clone()))
                }
            }
            To::All(_) => {
                if high {
                    until_ok(|| c.quick_filter_broadcast(TargetSession::All, pr, data.clone()))
                } else {
                    until_ok(|| c.filter_broadcast(TargetSession::All, pr, data.clone()))
                }
            }
        };
        self.seq += 1;
        ok
    }
}

type Got = HashMap<(usize, usize, Via, u64, usize, bool, usize, u32, bool), Vec<Item>>;

/// everything received, by receiving node, session, via, object, protocol, echo, source, thread, priority
fn collect(evs: &[Ev], xf: &dyn Fn(&[u8]) -> Bytes) -> R<Got> {
    let mut g: Got = HashMap::new();
    for e in evs {
        if let What::Recv { p, s, via, data, .. } = &e.w {
            let d = xf(data);
            let (item, src, thr, high) = match parse(&d) {
                Some(h) => {
                    if h.p as usize != *p {
                        return vcommon::report::violation("other-protocol", format!("node {} session {} protocol {} {:?} received a message of protocol {}: {:?}", e.n, s, p, via, h.p, h));
                    }
                    (Item::Full(h.seq), Some(h.src as usize), h.thr, h.high)
                }
                None if d.len() < HDR => (Item::Tiny(d.clone()), None, 0, false),
                None => {
                    return vcommon::report::violation("corrupt", format!("node {} session {} protocol {} {:?} received something never sent: {}", e.n, s, p, via, show(&d)));
                }
            };
            let echo = src == Some(e.n);
            g.entry((e.n, *s, *via, 0, *p, echo, src.unwrap_or(usize::MAX), thr, high)).or_default().push(item);
        }
    }
    Ok(g)
}

pub struct Judged {
    pub missing: Option<String>,
    pub received: u64,
}

/// Every received stream is a prefix of what was sent to that session; reports what is missing.
pub fn judge(
    evs: &[Ev],
    ledger: &Ledger,
    peer: &HashMap<(usize, usize), (usize, usize)>,
    modes: &[&Node],
    xf: &dyn Fn(&[u8]) -> Bytes,
    lost: &[(usize, usize)],
) -> R<Judged> {
    let ledger = ledger.lock().unwrap().clone();
    let got = collect(evs, xf)?;
    // tiny messages carry no source: merge them by position with thread 0's stream
    let mut streams: HashMap<(usize, usize, Via, usize, bool, u32, bool), Vec<Item>> = HashMap::new();
    let mut tiny = false;
    for k in got.keys() {
        tiny |= k.6 == usize::MAX;
    }
    if tiny {
        // rebuild in log order
        for e in evs {
            if let What::Recv { p, s, via, data, .. } = &e.w {
                let d = xf(data);
                let (i, echo, thr, high) = match parse(&d) {
                    Some(h) => (Item::Full(h.seq), h.src as usize == e.n, h.thr, h.high),
                    None => (Item::Tiny(d.clone()), false, 0, false),
                };
                streams.entry((e.n, *s, *via, *p, echo, thr, high)).or_default().push(i);
            }
        }
    } else {
        for ((n, s, via, _, p, echo, _, thr, high), v) in &got {
            streams.insert((*n, *s, *via, *p, *echo, *thr, *high), v.clone());
        }
    }
    let mut received = 0;
    for ((n, s, via, p, echo, thr, high), v) in &streams {
        received += v.len() as u64;
        let (sn, ss) = if *echo {
            (*n, *s)
        } else {
            match peer.get(&(*n, *s)) {
                Some(x) => *x,
                None => {
                    return vcommon::report::violation("unknown-session", format!("node {} received on session {} which nobody opened", n, s));
                }
            }
        };
        let empty = vec![];
        let sent = ledger.get(&(sn, ss, *p, *thr, *high)).unwrap_or(&empty);
        let echo_ok = *echo;
        if *echo {
            // the handler gives up an echo when the service is busy
            let mut it = sent.iter();
            if v.iter().all(|x| it.any(|y| x == y)) {
                continue;
            }
        }
        if v.len() > sent.len() || v[..] != sent[..v.len()] {
            let i = v.iter().zip(sent.iter()).take_while(|(a, b)| a == b).count();
            let w = |l: &[Item]| format!("{:?}", &l[i.saturating_sub(3).min(l.len())..(i + 6).min(l.len())]);
            return vcommon::report::violation(
                if echo_ok { "echo" } else { "stream" },
                format!(
                    "node {} session {} protocol {} {:?} priority {}: messages of node {} session {} thread {} differ at position {}:\n received ...{}\n sent     ...{}\n ({} received, {} sent)",
                    n, s, p, via, if *high { "high" } else { "normal" }, sn, ss, thr, i, w(v), w(sent), v.len(), sent.len()
                ),
            );
        }
    }
    let mut missing = None;
    for ((sn, ss, p, thr, high), sent) in &ledger {
        if sent.is_empty() || lost.contains(&(*sn, *ss)) {
            continue;
        }
        let (n, s) = peer[&(*sn, *ss)];
        let node = match modes.iter().find(|m| m.n == n) {
            Some(x) => x,
            None => continue,
        };
        for via in node.modes[p].vias() {
            let l = streams.get(&(n, s, *via, *p, false, *thr, *high)).map_or(0, |v| v.len());
            if l < sent.len() {
                missing = Some(format!(
                    "node {} session {} protocol {} {:?}: {} of {} messages of node {} thread {} ({} priority) never arrived",
                    n, s, p, via, sent.len() - l, sent.len(), sn, thr, if *high { "high" } else { "normal" }
                ));
            }
        }
    }
    Ok(Judged { missing, received })
}

pub fn len(r: &mut Rng, max: usize) -> usize {
    let m = match r.below(20) {
        0..=8 => 300,
        9..=13 => 4_000,
        14..=17 => 40_000,
        _ => 250_000,
    };
    r.us(m.min(max)) + if r.chance(1, 6) { 0 } else { HDR }
}

fn id(d: &[u8]) -> Bytes {
    Bytes::copy_from_slice(d)
}

pub struct Shape {
    pub targets: bool,
    pub faults: bool,
    pub xform: bool,
    pub no_tiny: bool,
    /// very many small messages
    pub burst: bool,
}

pub fn drive(m: &Mesh, r: &mut Rng, sh: &Shape, ledger: &Ledger, stop: &Arc<AtomicBool>, budget: usize) -> usize {
    let total = Arc::new(Mutex::new(0usize));
    std::thread::scope(|sc| {
        for node in &m.nodes {
            let sess = m.sessions(node.n);
            if sess.is_empty() {
                continue;
            }
            let t = r.rus(0, 3) as u32;
            for thr in 0..t.max(if node.n == 0 { 1 } else { 0 }) {
                let mut r = r.fork();
                let (sess, ledger, total, stop) = (sess.clone(), ledger.clone(), total.clone(), stop.clone());
                let protos = m.protos.clone();
                let count = if sh.burst { r.rus(1200, 2500) } else { r.rus(10, if sh.faults { 400 } else { 150 }) };
                let high_pct = *r.pick(&[0u64, 10, 50]);
                let pause = if sh.burst { 0 } else { *r.pick(&[0u64, 0, 20, 300]) };
                sc.spawn(move || {
                    let mut s = Sender { n: node.n, thr, seq: 0, ledger };
                    for _ in 0..count {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let to = if sh.targets {
                            match r.below(10) {
                                0..=3 => To::One(*r.pick(&sess)),
                                4..=7 => {
                                    let mut v = sess.clone();
                                    r.shuffle(&mut v);
                                    v.truncate(r.rus(0, v.len()));
                                    if v.is_empty() {
                                        continue;
                                    }
                                    To::Some(v)
                                }
                                _ => To::All(sess.clone()),
                            }
                        } else {
                            To::One(*r.pick(&sess))
                        };
                        let k = match &to {
                            To::One(_) => 1,
                            To::Some(v) | To::All(v) => v.len(),
                        };
                        let most = if sh.burst { 120 } else { usize::MAX };
                        let l = len(&mut r, most).max(if sh.no_tiny { HDR } else { 0 });
                        {
                            let mut t = total.lock().unwrap();
                            if *t + l * k > budget {
                                break;
                            }
                            *t += l * k;
                        }
                        let high = r.below(100) < high_pct;
                        if !s.send(node, to, *r.pick(&protos), high, l, &mut r) {
                            break;
                        }
                        if pause > 0 && r.chance(1, 4) {
                            std::thread::sleep(Duration::from_micros(r.below(pause)));
                        }
                    }
                });
            }
        }
    });
    let t = *total.lock().unwrap();
    t
}

pub fn one(seed: u64, mut sh: Shape) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut c = MeshCfg::random(r);
    c.tight = r.chance(1, 3);
    if sh.targets {
        c.nodes = r.rus(3, 5);
        c.extra_links = true;
    }
    if sh.faults {
        c.proxied = 100;
    }
    if sh.burst {
        c.no_block = false;
        c.runtime = Some(quiet_runtime(r.rus(1, 4)));
    }
    let mut key = 0u8;
    if sh.xform {
        key = r.range(1, 255) as u8;
    }
    let xor = move |d: &[u8]| -> Bytes { d.iter().map(|b| b ^ key).collect::<Vec<u8>>().into() };
    let calls: Arc<(AtomicUsize, AtomicUsize)> = Default::default();
    let codecs: Vec<u64> = (0..8).map(|_| if r.chance(1, 2) { 0 } else { r.range(1, 3) }).collect();
    let greets = if r.chance(1, 2) { r.rus(1, 8) } else { 0 };
    // before_send appends its mark once, before_receive of the other side takes one off
    let m = mesh_with(r, &mut c, |_, _, mut p| {
        p.codec = codecs[p.id % 8];
        p.greet = greets;
        if key != 0 {
            let (out, inn) = (calls.clone(), calls.clone());
            p.before_send = Some(Box::new(move |b: Bytes| {
                out.0.fetch_add(1, Ordering::SeqCst);
                let mut v = b.to_vec();
                v.push(key);
                v.into()
            }));
            p.before_receive = Some(Arc::new(move || {
                let inn = inn.clone();
                Box::new(move |b: bytes::BytesMut| {
                    inn.1.fetch_add(1, Ordering::SeqCst);
                    let mut v = b.to_vec();
                    match v.pop() {
                        Some(k) if k == key => {
                            for x in v.iter_mut() {
                                *x ^= key;
                            }
                            Ok(v.into())
                        }
                        _ => Err(std::io::ErrorKind::InvalidData.into()),
                    }
                })
            }));
        }
        p
    })?;
    let ledger: Ledger = Default::default();
    let stop = Arc::new(AtomicBool::new(false));
    let mut acc = Acc::default();
    // echoes, where one handler answers
    let mut echo = 0;
    if !sh.faults && !sh.xform && !sh.targets && r.chance(1, 3) {
        for n in &m.nodes {
            for (p, mode) in &n.modes {
                if mode.vias().len() == 1 && n.n == 0 {
                    n.knob(*p).echo.store(true, Ordering::SeqCst);
                    echo += 1;
                }
            }
        }
    }
    sh.no_tiny = echo > 0;
    for n in &m.nodes {
        for p in &m.protos {
            if r.chance(1, 6) {
                n.knob(*p).slow_us.store(r.range(10, 800), Ordering::SeqCst);
            }
        }
    }
    let budget = 10 << 20;
    let cut = sh.faults && r.chance(4, 5);
    let mut held = vec![];
    if sh.burst {
        for n in &m.nodes {
            for p in &m.protos {
                if r.chance(1, 3) {
                    let k = n.knob(*p);
                    k.pause();
                    held.push(k);
                }
            }
        }
    }
    let mut sr = r.fork();
    let mut fr = r.fork();
    let hit = if cut { Some(fr.us(m.links.len())) } else { None };
    let gone: Vec<(usize, usize)> = hit.iter().flat_map(|i| vec![m.links[*i].a, m.links[*i].b]).collect();
    std::thread::scope(|sc| {
        if cut {
            sc.spawn(|| {
                std::thread::sleep(Duration::from_micros(fr.range(0, 60_000)));
                let l = &m.links[hit.unwrap()];
                match fr.below(4) {
                    0 => l.proxy.as_ref().unwrap().cut(false),
                    1 => l.proxy.as_ref().unwrap().cut(true),
                    2 => {
                        let _ = m.nodes[l.a.0].ctl.disconnect(l.a.1.into());
                    }
                    _ => {
                        let _ = m.nodes[l.b.0].ctl.disconnect(l.b.1.into());
                    }
                }
            });
        }
        drive(&m, &mut sr, &sh, &ledger, &stop, budget);
    });
    for k in held {
        k.resume();
    }
    // what the handlers said when they were connected
    let mut greeted = 0;
    for ((n, s, p, thr, high), k) in m.log.greets.lock().unwrap().iter() {
        greeted += k;
        ledger.lock().unwrap().insert((*n, *s, *p, *thr, *high), (0..*k).map(Item::Full).collect());
    }
    let refs = m.refs();
    let xf: Box<dyn Fn(&[u8]) -> Bytes> = if key != 0 { Box::new(xor) } else { Box::new(id) };
    let mut fail: Option<Verdict> = None;
    let mut lost = None;
    if cut {
        acc.add("connections lost", 1);
        // the other connections deliver everything
        let mut at = std::time::Instant::now() - Duration::from_secs(1);
        let done = m.log.wait(|evs| {
            if at.elapsed().as_millis() < 60 {
                return false;
            }
            let d = match judge(evs, &ledger, &m.peer, &refs, &*xf, &gone) {
                Ok(j) => j.missing.is_none(),
                Err(e) => {
                    fail = Some(e);
                    true
                }
            };
            at = std::time::Instant::now();
            d
        })?;
        if !done {
            lost = Some(());
        }
        m.log.settle(100);
        acc.add("connections that went on", m.links.len() as u64 - 1);
    } else {
        let mut checked = 0usize;
        let sent: usize = {
            let l = ledger.lock().unwrap();
            l.iter().map(|(k, v)| v.len() * refs[m.peer[&(k.0, k.1)].0].modes[&k.2].vias().len()).sum()
        };
        let done = m.log.wait(|evs| {
            let n = evs.iter().filter(|e| matches!(e.w, What::Recv { .. })).count();
            if n < sent || n == checked {
                return false;
            }
            checked = n;
            match judge(evs, &ledger, &m.peer, &refs, &*xf, &gone) {
                Ok(j) => j.missing.is_none(),
                Err(e) => {
                    fail = Some(e);
                    true
                }
            }
        })?;
        if !done {
            lost = Some(());
        }
        m.log.settle(30);
    }
    if let Some(e) = fail {
        return Err(e);
    }
    let evs = m.log.snap();
    let j = judge(&evs, &ledger, &m.peer, &refs, &*xf, &gone)?;
    if lost.is_some() {
        if let Some(t) = j.missing {
            if let Some(e) = evs.iter().find(|e| matches!(e.w, What::Close { s } | What::MuxErr { s, .. } | What::Blocked { s, .. } if !gone.contains(&(e.n, s)))) {
                return vcommon::report::violation("lost-link", format!("no fault was injected there, yet {:?} at node {}; {}\n{}", e.w, e.n, t, m.log.render(&[], 40)));
            }
            return vcommon::report::violation("lost", format!("{} although that connection was not lost\n{}", t, m.log.render(&[], 30)));
        }
    }
    if sh.xform && !cut {
        let sent: usize = ledger.lock().unwrap().values().map(|v| v.len()).sum();
        let (o, i) = (calls.0.load(Ordering::SeqCst), calls.1.load(Ordering::SeqCst));
        if i != sent {
            return vcommon::report::violation("receive-calls", format!("{} messages arrived, the incoming transform ran {} times", sent, i));
        }
        if !sh.targets && o != sent {
            return vcommon::report::violation("send-calls", format!("{} messages sent, the outgoing transform ran {} times", sent, o));
        }
    }
    acc.add("messages judged", j.received);
    acc.add("sessions", m.links.len() as u64 * 2);
    acc.add("echo handlers", echo);
    acc.add("greetings", greeted);
    acc.add("by a handler's context", m.nodes.iter().map(|n| n.cmds.done.load(Ordering::SeqCst) as u64).sum());
    acc.add("bursts", u64::from(sh.burst));
    acc.add("other framings", codecs[..m.protos.len()].iter().filter(|k| **k > 0).count() as u64);
    let (mut hi, mut tiny, mut multi) = (0, 0, 0);
    for (k, v) in ledger.lock().unwrap().iter() {
        if k.4 {
            hi += v.len() as u64;
        }
        tiny += v.iter().filter(|i| matches!(i, Item::Tiny(_))).count() as u64;
        multi += v.len() as u64;
    }
    acc.add("high priority messages", hi);
    acc.add("tiny messages", tiny);
    acc.add("deliveries due", multi);
    if sh.xform {
        acc.add("transformed", j.received);
    }
    for e in &evs {
        if let What::Recv { via, .. } = e.w {
            acc.add(match via {
                Via::Svc => "service handler messages",
                Via::Ses => "session handler messages",
                Via::Evt => "event messages",
                Via::Spn => "spawned reader messages",
            }, 1);
        }
    }
    acc.nontrivial = j.received > 0;
    acc.sig = vcommon::mix(j.received, evs.len() as u64);
    Ok(acc)
}

/// A peer that writes its protocol selection and its first messages as one piece, at either end.
pub fn eager(seed: u64) -> R<Acc> {
    use futures::StreamExt;
    use tentacle::{
        utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
        yamux::{session::Session, Config, StreamHandle},
        protocol_select::ProtocolInfo,
    };
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let protos: Vec<ProtoCfg> = (1..=3).map(|p| ProtoCfg::new(p, Mode::any(r))).collect();
    let node = start(&rt, &log, 0, NodeCfg { protos, listen: Some(fresh(r, false)), ..NodeCfg::default() });
    let m = Mesh { rt: Some(rt), log, nodes: vec![node], links: vec![], peer: HashMap::new(), protos: vec![1, 2, 3] };
    let dials = r.chance(1, 2);
    let (at_once, later) = (r.rus(1, 12), r.rus(0, 5));
    let long = *r.pick(&[100usize, 1000, 8000]);
    let messages = |r: &mut Rng, p: usize| -> Vec<Bytes> {
        (0..(at_once + later) as u64).map(|seq| make(&Hdr { src: 9, high: false, p: p as u16, s: 0, thr: 0, seq, len: (HDR + r.us(long)) as u32 })).collect()
    };
    let said: HashMap<String, Vec<Bytes>> = m.protos.iter().map(|p| (format!("/p2p/{}", p), messages(r, *p))).collect();
    fn framed(o: &mut Vec<u8>, d: &[u8]) {
        o.extend_from_slice(&(d.len() as u32).to_be_bytes());
        o.extend_from_slice(d);
    }
    async fn talk(mut s: StreamHandle, ask: Option<String>, said: Arc<HashMap<String, Vec<Bytes>>>, at_once: usize, end: Arc<AtomicBool>) {
        let mut o = vec![];
        let name = match ask {
            Some(n) => n,
            None => {
                let mut l = [0u8; 4];
                if s.read_exact(&mut l).await.is_err() {
                    return;
                }
                let mut b = vec![0u8; u32::from_be_bytes(l) as usize];
                if s.read_exact(&mut b).await.is_err() {
                    return;
                }
                ProtocolInfo::decode(&b).unwrap().name
            }
        };
        framed(&mut o, &ProtocolInfo::new(&name, vec!["0.0.1".into()]).encode());
        for d in &said[&name][..at_once] {
            framed(&mut o, d);
        }
        let _ = s.write_all(&o).await;
        let _ = s.flush().await;
        for d in &said[&name][at_once..] {
            let mut o = vec![];
            framed(&mut o, d);
            let _ = s.write_all(&o).await;
            let _ = s.flush().await;
        }
        let mut sink = [0u8; 1000];
        while !end.load(Ordering::SeqCst) {
            let _ = tokio::time::timeout(Duration::from_millis(20), s.read(&mut sink)).await;
        }
    }
    let end = Arc::new(AtomicBool::new(false));
    let (shared, e2) = (Arc::new(said.clone()), end.clone());
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let here = l.local_addr().unwrap();
    let there = multiaddr_to_socketaddr(m.nodes[0].addr.as_ref().unwrap()).unwrap();
    let names: Vec<String> = said.keys().cloned().collect();
    let task = crate::proxy::harness_rt().spawn(async move {
        let sock = if dials {
            tokio::net::TcpStream::connect(there).await.unwrap()
        } else {
            l.set_nonblocking(true).unwrap();
            tokio::net::TcpListener::from_std(l).unwrap().accept().await.unwrap().0
        };
        let mut s = if dials { Session::new_client(sock, Config::default()) } else { Session::new_server(sock, Config::default()) };
        let mut c = s.control();
        let (sh, e) = (shared.clone(), e2.clone());
        if dials {
            tokio::spawn(async move {
                for n in names {
                    if let Ok(h) = c.open_stream().await {
                        tokio::spawn(talk(h, Some(n), sh.clone(), at_once, e.clone()));
                    }
                }
            });
        }
        loop {
            match tokio::time::timeout(Duration::from_millis(20), s.next()).await {
                Ok(Some(Ok(h))) => {
                    tokio::spawn(talk(h, None, shared.clone(), at_once, e2.clone()));
                }
                Ok(_) => break,
                Err(_) if e2.load(Ordering::SeqCst) => break,
                Err(_) => (),
            }
        }
    });
    if !dials {
        m.nodes[0].ctl.dial(socketaddr_to_multiaddr(here), TargetProtocol::All).unwrap();
    }
    let heard = |evs: &[Ev], p: usize, v: Via| -> Vec<Bytes> {
        evs.iter().filter_map(|e| match &e.w {
            What::Recv { p: q, via, data, .. } if *q == p && *via == v => Some(data.clone()),
            _ => None,
        }).collect()
    };
    let vias: Vec<(usize, Via)> = m.protos.iter().flat_map(|p| m.nodes[0].modes[p].vias().iter().map(move |v| (*p, *v))).collect();
    let all = m.log.wait(|evs| vias.iter().all(|(p, v)| heard(evs, *p, *v).len() >= at_once + later));
    end.store(true, Ordering::SeqCst);
    let all = all?;
    m.log.settle(10);
    let evs = m.log.snap();
    for (p, v) in &vias {
        let (got, want) = (heard(&evs, *p, *v), &said[&format!("/p2p/{}", p)]);
        if got != *want {
            let k = got.iter().zip(want.iter()).take_while(|(a, b)| a == b).count();
            return vcommon::report::violation(
                "first-messages",
                format!("a peer {} and sent {} messages of protocol {} in one piece with its protocol selection and {} after; {:?} got {} of them, {} the same at the start (all waited for: {})\n{}", if dials { "dialled" } else { "was dialled" }, at_once, p, later, v, got.len(), k, !all, m.log.render(&[], 30)),
            );
        }
    }
    let _ = task;
    acc.add("messages together with the selection", (at_once * 3) as u64);
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn wrap(f: impl FnOnce() -> R<Acc>) -> Verdict {
    match f() {
        Ok(a) => Verdict::Pass(a),
        Err(v) => v,
    }
}

pub fn t01(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "each case runs 2-4 services on loopback, sends random messages of both priorities from several threads through every kind of handler, through chunking relays, with slow handlers, bursts, greetings sent on being connected, echoes, several framings, peers that send their first messages together with the protocol selection, each of the three control interfaces and (every third case) a cut or closed connection; every received stream must be a prefix of the sent one and complete where nothing was cut".into(),
            assumptions: vec!["messages on one session, protocol, priority and sending thread form a stream".into(), "the data outstanding stays below the configured send buffer".into()],
            cases: ctx.q(120, 2500),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["messages judged", "high priority messages", "tiny messages", "connections lost", "service handler messages", "session handler messages", "event messages", "spawned reader messages", "greetings", "bursts", "by a handler's context", "other framings", "messages together with the selection"],
        },
        |seed, idx| wrap(|| if idx % 12 == 9 { eager(seed) } else { one(seed, Shape { targets: false, faults: idx % 3 == 2, xform: false, no_tiny: false, burst: idx % 6 == 1 }) }),
    )
}

pub fn t02(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "3-5 services; single, multi and all targets at both priorities from several threads; multi targets also name sessions that do not exist, and every third case loses a connection; each session must receive exactly the messages addressed to it, in order".into(),
            assumptions: vec!["a multi target names a session once".into()],
            cases: ctx.q(100, 2000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["messages judged", "high priority messages", "connections that went on", "greetings", "by a handler's context"],
        },
        |seed, idx| wrap(|| one(seed, Shape { targets: true, faults: idx % 3 == 1, xform: false, no_tiny: false, burst: false })),
    )
}

/// an incoming transform fails on one message: that protocol ends with an error, nothing else does
fn t16_fail(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.extra_links = false;
    c.protos = (1..=r.rus(2, 3)).collect();
    let m = mesh_with(r, &mut c, |_, _, mut p| {
        if p.id == 1 {
            p.before_receive = Some(Arc::new(|| {
                Box::new(|b: bytes::BytesMut| {
                    if b.as_ref() == b"poison" {
                        Err(std::io::ErrorKind::InvalidData.into())
                    } else {
                        Ok(b.freeze())
                    }
                })
            }));
        }
        p
    })?;
    let mut acc = Acc::default();
    let rounds = r.rus(1, 3);
    let mut seq = 0;
    for round in 0..rounds {
        let l = &m.links[0];
        let (a, b) = if r.chance(1, 2) { (l.a, l.b) } else { (l.b, l.a) };
        let from = m.log.len();
        let good = r.rus(0, 20);
        let (slow, k) = (r.chance(1, 3), m.nodes[b.0].knob(1));
        if slow {
            k.slow_us.store(r.range(10, 2000), Ordering::SeqCst);
        }
        let mut due = vec![];
        let mut send = |r: &mut Rng, p: usize, due: &mut Vec<Hdr>| {
            let h = Hdr { src: a.0 as u8, high: false, p: p as u16, s: a.1 as u32, thr: 0, seq, len: r.rus(HDR, 3000) as u32 };
            seq += 1;
            until_ok(|| m.nodes[a.0].ctl.send_message_to(a.1.into(), p.into(), make(&h)));
            due.push(h);
        };
        for _ in 0..good {
            let p = *r.pick(&m.protos);
            send(r, p, &mut due);
        }
        until_ok(|| m.nodes[a.0].ctl.send_message_to(a.1.into(), 1.into(), Bytes::from_static(b"poison")));
        let other = m.protos[r.rus(1, m.protos.len() - 1)];
        for _ in 0..r.rus(1, 10) {
            send(r, other, &mut due);
        }
        let vias = m.nodes[b.0].modes[&1].vias();
        let errs = |evs: &[Ev]| {
            evs[from..]
                .iter()
                .filter(|e| e.n == b.0 && matches!(e.w, What::ProtoErr { p: 1, .. } | What::RecvErr { p: 1, .. }))
                .count()
        };
        let ok = m.log.wait(|evs| errs(evs) > 0)?;
        if !ok {
            return vcommon::report::violation("error-unreported", format!("round {}: the incoming transform of {:?} failed, no protocol error was reported\n{}", round, vias, m.log.render(&[b.0], 40)));
        }
        let ended = |evs: &[Ev], n: usize| {
            let v = m.nodes[n].modes[&1].vias();
            v.iter().all(|v| evs[from..].iter().any(|e| e.n == n && matches!(e.w, What::Disc { p: 1, via, .. } if via == *v)))
        };
        if !m.log.wait(|evs| ended(evs, b.0))? {
            return vcommon::report::violation("error-open", format!("round {}: the incoming transform of {:?} failed, its protocol stayed open\n{}", round, vias, m.log.render(&[b.0], 40)));
        }
        // the other protocols deliver everything
        let got = |evs: &[Ev]| {
            due.iter().filter(|h| h.p != 1).all(|h| {
                m.nodes[b.0].modes[&(h.p as usize)]
                    .vias()
                    .iter()
                    .all(|v| evs[from..].iter().any(|e| e.n == b.0 && matches!(&e.w, What::Recv { p, via, data, .. } if *p == h.p as usize && via == v && parse(data).as_ref() == Some(h))))
            })
        };
        if !m.log.wait(got)? {
            return vcommon::report::violation("others-hit", format!("round {}: the incoming transform of protocol 1 failed, messages of the others are missing\n{}", round, m.log.render(&[b.0], 40)));
        }
        m.log.settle(20);
        let evs = m.log.snap();
        if errs(&evs) > 1 {
            return vcommon::report::violation("error-twice", format!("round {}: one failure, {} reports\n{}", round, errs(&evs), m.log.render(&[b.0], 40)));
        }
        if evs.iter().any(|e| matches!(&e.w, What::Recv { data, .. } if data.as_ref() == b"poison")) {
            return vcommon::report::violation("error-delivered", format!("the message the transform refused was delivered\n{}", m.log.render(&[b.0], 40)));
        }
        if let Some(e) = evs.iter().find(|e| matches!(e.w, What::Close { .. } | What::MuxErr { .. } | What::Disc { p: 2..=9, .. })) {
            return vcommon::report::violation("others-hit", format!("round {}: the incoming transform of protocol 1 failed, and {:?} at node {}\n{}", round, e.w, e.n, m.log.render(&[], 40)));
        }
        k.slow_us.store(0, Ordering::SeqCst);
        acc.add("failed transforms", 1);
        // and again
        until(&m.log, "both ends closed", |evs| ended(evs, a.0))?;
        let from = m.log.len();
        let from_conn = |evs: &[Ev], n: usize| {
            let v = m.nodes[n].modes[&1].vias();
            v.iter().all(|v| evs[from..].iter().any(|e| e.n == n && matches!(e.w, What::Conn { p: 1, via, .. } if via == *v)))
        };
        // the session learns of the close a little later than the handlers do
        let mut open = false;
        for _ in 0..100 {
            until_ok(|| m.nodes[a.0].ctl.open_protocol(a.1.into(), 1.into()));
            if m.log.wait_q(200, |evs| from_conn(evs, a.0) && from_conn(evs, b.0))? {
                open = true;
                break;
            }
        }
        if !open {
            return vcommon::report::violation("not-reopened", format!("round {}: the protocol can not be opened again after its error\n{}", round, m.log.render(&[], 40)));
        }
        m.log.settle(20);
        acc.add("opened again", 1);
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, m.log.len() as u64);
    Ok(acc)
}

pub fn t16(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "before_send appends a mark, before_receive removes exactly one and flips the bytes; what arrives must be the message transformed exactly once each way; a transform failing on one message ends its protocol with one reported error, leaves the others alone, and the protocol can be opened again".into(),
            assumptions: vec![],
            cases: ctx.q(100, 2000),
            budget_s: ctx.q(20, 600),
            threads: 6,
            must_see: vec!["transformed", "failed transforms", "opened again"],
        },
        |seed, idx| {
            wrap(|| {
                if idx % 2 == 0 {
                    one(seed, Shape { targets: idx % 4 == 0, faults: false, xform: true, no_tiny: false, burst: false })
                } else {
                    t16_fail(seed)
                }
            })
        },
    )
}

#[allow(dead_code)]
fn unused(_: Plan, _: Proxy, _: TargetProtocol) {}
