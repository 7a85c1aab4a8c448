//! Real services on loopback, each running one protocol, and the log of what was reported.
use bytes::Bytes;
use futures::prelude::*;
use std::{
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Condvar, Mutex, Once,
    },
    time::{Duration, Instant},
};
use tentacle::{
    builder::{MetaBuilder, ServiceBuilder},
    context::{ProtocolContext, ProtocolContextMutRef, ServiceContext},
    multiaddr::{Multiaddr, Protocol},
    secio::{PeerId, SecioKeyPair},
    service::{ProtocolHandle, ServiceControl, ServiceError, ServiceEvent, TargetProtocol},
    traits::{ServiceHandle, ServiceProtocol},
    ProtocolId,
};
use tokio::runtime::Runtime;
use vcommon::{Rng, Verdict};

pub const P: usize = 1;

#[derive(Clone, Debug)]
pub enum W {
    Open { s: usize, peer: Option<PeerId>, out: bool, addr: Multiaddr },
    Close { s: usize },
    /// an error that is about the handler itself
    Dead(String),
    Conn { s: usize },
    Data { s: usize, data: Bytes },
    Disc { s: usize },
    // ping
    GotPing { s: usize },
    GotPong { s: usize, took: Duration },
    Late { s: usize },
    Junk { s: usize },
    // identify and discovery: a call of the callback
    Call { who: Who, what: String },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Who {
    Ses(usize),
    Peer(PeerId),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub n: usize,
    pub t: Instant,
    pub w: W,
}

#[derive(Default)]
pub struct Log {
    m: Mutex<Vec<Ev>>,
    cv: Condvar,
}

static BEATS: AtomicU64 = AtomicU64::new(0);
static BEAT: Once = Once::new();

fn beats() -> u64 {
    BEAT.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(5));
            BEATS.fetch_add(1, Ordering::Relaxed);
        });
    });
    BEATS.load(Ordering::Relaxed)
}

const CAP_MS: u64 = 30_000;

impl Log {
    pub fn new() -> Arc<Log> {
        beats();
        Arc::new(Log::default())
    }
    pub fn put(&self, n: usize, w: W) {
        self.m.lock().unwrap().push(Ev { n, t: Instant::now(), w });
        self.cv.notify_all();
    }
    pub fn snap(&self) -> Vec<Ev> {
        self.m.lock().unwrap().clone()
    }
    pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
        self.m.lock().unwrap().iter().filter(|e| f(e)).count()
    }
    /// Waits until `pred` holds. `Ok(false)`: it did not within 30 s of a machine that keeps up.
    pub fn wait(&self, mut pred: impl FnMut(&[Ev]) -> bool) -> Result<bool, Verdict> {
        let (start, b0) = (Instant::now(), beats());
        loop {
            vcommon::exec::beat();
            if pred(&self.m.lock().unwrap()) {
                return Ok(true);
            }
            let ms = start.elapsed().as_millis() as u64;
            if ms > CAP_MS {
                if (beats() - b0) * 5 * 2 > ms {
                    return Ok(false);
                }
                if ms > 3 * CAP_MS {
                    return Err(Verdict::Inconclusive("machine too slow to decide".into()));
                }
            }
            let g = self.m.lock().unwrap();
            drop(self.cv.wait_timeout(g, Duration::from_millis(5)).unwrap());
            std::thread::sleep(Duration::from_micros(500));
        }
    }
    pub fn render(&self, nodes: &[usize]) -> String {
        let v = self.snap();
        let t0 = v.first().map(|e| e.t);
        let l: Vec<&Ev> = v.iter().filter(|e| nodes.is_empty() || nodes.contains(&e.n)).collect();
        let mut o = String::new();
        for e in &l[l.len().saturating_sub(60)..] {
            let ms = t0.map(|t| e.t.duration_since(t).as_millis()).unwrap_or(0);
            let mut w = format!("{:?}", e.w);
            if w.len() > 400 {
                w = w.chars().take(400).collect();
            }
            o.push_str(&format!("  {}ms node{} {}\n", ms, e.n, w));
        }
        o
    }
}

pub fn pause(ms: u64) {
    let until = Instant::now() + Duration::from_millis(ms);
    while Instant::now() < until {
        vcommon::exec::beat();
        std::thread::sleep(Duration::from_millis(2).min(until - Instant::now().min(until)));
    }
}

struct SH(usize, Arc<Log>);

impl ServiceHandle for SH {
    fn handle_error(&mut self, _: &mut ServiceContext, e: ServiceError) {
        if let ServiceError::ProtocolHandleError { error, .. } = e {
            self.1.put(self.0, W::Dead(format!("{:?}", error)));
        }
    }
    fn handle_event(&mut self, _: &mut ServiceContext, e: ServiceEvent) {
        match e {
            ServiceEvent::SessionOpen { session_context: c } => self.1.put(
                self.0,
                W::Open {
                    s: c.id.value(),
                    peer: c.remote_pubkey.as_ref().map(|k| k.peer_id()),
                    out: c.ty.is_outbound(),
                    addr: c.address.clone(),
                },
            ),
            ServiceEvent::SessionClose { session_context: c } => self.1.put(self.0, W::Close { s: c.id.value() }),
            _ => (),
        }
    }
}

/// what a hand-driven peer does with what it gets
pub type Act = Box<dyn FnMut(&ServiceControl, usize, Option<&[u8]>) + Send + Unpin>;

pub struct Relay {
    pub n: usize,
    pub log: Arc<Log>,
    pub act: Act,
}

impl ServiceProtocol for Relay {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn connected(&mut self, c: ProtocolContextMutRef, _: &str) {
        self.log.put(self.n, W::Conn { s: c.session.id.value() });
        (self.act)(c.control(), c.session.id.value(), None);
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        self.log.put(self.n, W::Disc { s: c.session.id.value() });
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        self.log.put(self.n, W::Data { s: c.session.id.value(), data: data.clone() });
        (self.act)(c.control(), c.session.id.value(), Some(&data));
    }
}

pub struct Node {
    pub ctl: ServiceControl,
    pub addr: Option<Multiaddr>,
    pub id: Option<PeerId>,
}

pub fn key(r: &mut Rng) -> SecioKeyPair {
    loop {
        let b = r.bytes(32);
        if let Ok(k) = SecioKeyPair::secp256k1_raw_key(&b) {
            return k;
        }
    }
}

pub fn fresh(r: &mut Rng) -> Multiaddr {
    format!("/ip4/127.{}.{}.{}/tcp/0", r.range(1, 250), r.range(1, 250), r.range(1, 250)).parse().unwrap()
}

pub fn start(
    rt: &Runtime,
    log: &Arc<Log>,
    n: usize,
    key: Option<SecioKeyPair>,
    listen: Option<Multiaddr>,
    h: Box<dyn ServiceProtocol + Send + Unpin + 'static>,
) -> Node {
    let m = MetaBuilder::new().id(ProtocolId::new(P)).service_handle(move || ProtocolHandle::Callback(h)).build();
    let mut b = ServiceBuilder::new().forever(true).insert_protocol(m);
    let id = key.as_ref().map(|k| k.peer_id());
    if let Some(k) = key {
        b = b.key_pair(k);
    }
    let mut service = b.build(SH(n, log.clone()));
    let ctl = service.control().clone();
    let (tx, rx) = std::sync::mpsc::channel();
    rt.spawn(async move {
        let addr = match listen {
            Some(a) => Some(service.listen(a).await.expect("listen on loopback")),
            None => None,
        };
        let _ = tx.send(addr);
        while service.next().await.is_some() {}
    });
    let addr = rx.recv_timeout(Duration::from_secs(60)).expect("service start");
    Node { ctl, addr, id }
}

pub fn dial(from: &Node, to: &Node) {
    from.ctl.dial(to.addr.clone().unwrap(), TargetProtocol::All).expect("dial");
}

pub fn runtime(r: &mut Rng) -> Runtime {
    tokio::runtime::Builder::new()
        .threaded_scheduler()
        .core_threads(r.rus(1, 4))
        .max_threads(300)
        .enable_all()
        .build()
        .unwrap()
}

pub fn stop(rt: Runtime) {
    rt.shutdown_timeout(Duration::from_millis(300));
}

/// the session that node n has with that peer
pub fn session(evs: &[Ev], n: usize, peer: &PeerId) -> Option<(usize, bool, Multiaddr, Instant)> {
    evs.iter().filter(|e| e.n == n).find_map(|e| match &e.w {
        W::Open { s, peer: Some(p), out, addr } if p == peer => Some((*s, *out, addr.clone(), e.t)),
        _ => None,
    })
}

pub fn closed(evs: &[Ev], n: usize, s: usize) -> bool {
    evs.iter().any(|e| e.n == n && matches!(e.w, W::Close { s: t } if t == s))
}

pub fn dead(log: &Log, key: &str) -> Result<(), Verdict> {
    if log.count(|e| matches!(e.w, W::Dead(_))) > 0 {
        return vcommon::report::violation(format!("{}-died", key), format!("a protocol handler died\n{}", log.render(&[])));
    }
    Ok(())
}

pub fn no_p2p(a: &Multiaddr) -> Multiaddr {
    a.iter().filter(|p| !matches!(p, Protocol::P2P(_))).collect()
}

pub fn with_port(a: &Multiaddr, port: u16) -> Multiaddr {
    a.iter()
        .map(|p| match p {
            Protocol::TCP(_) => Protocol::TCP(port),
            p => p,
        })
        .collect()
}

// ---------------------------------------------------------------- molecule, written from its description

pub fn table(f: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 * (1 + f.len());
    let total = head + f.iter().map(Vec::len).sum::<usize>();
    let mut o = (total as u32).to_le_bytes().to_vec();
    let mut at = head;
    for x in f {
        o.extend_from_slice(&(at as u32).to_le_bytes());
        at += x.len();
    }
    for x in f {
        o.extend_from_slice(x);
    }
    o
}

pub fn fixvec(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as u32).to_le_bytes().to_vec();
    o.extend_from_slice(b);
    o
}

pub fn union(id: u32, b: &[u8]) -> Vec<u8> {
    let mut o = id.to_le_bytes().to_vec();
    o.extend_from_slice(b);
    o
}

pub fn le32(b: &[u8]) -> Option<u32> {
    if b.len() < 4 {
        return None;
    }
    Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
}

pub fn fields(b: &[u8]) -> Option<Vec<&[u8]>> {
    if le32(b)? as usize != b.len() {
        return None;
    }
    if b.len() == 4 {
        return Some(vec![]);
    }
    let head = le32(&b[4..])? as usize;
    if head % 4 != 0 || head < 8 || head > b.len() {
        return None;
    }
    let mut offs: Vec<usize> = b[4..head].chunks(4).map(|c| le32(c).unwrap() as usize).collect();
    offs.push(b.len());
    if offs.windows(2).any(|w| w[0] > w[1]) {
        return None;
    }
    Some(offs.windows(2).map(|w| &b[w[0]..w[1]]).collect())
}

pub fn unfix(b: &[u8]) -> Option<&[u8]> {
    if le32(b)? as usize != b.len() - 4 {
        return None;
    }
    Some(&b[4..])
}

pub fn send(c: &ServiceControl, s: usize, data: Vec<u8>) {
    let d = Bytes::from(data);
    let start = Instant::now();
    while c.send_message_to(s.into(), P.into(), d.clone()).is_err() && start.elapsed().as_secs() < 10 {
        std::thread::sleep(Duration::from_micros(300));
    }
}
