//! Real services on loopback whose handlers write everything they see into one log.
use crate::poll::Poller;
use bytes::Bytes;
use futures::prelude::*;
use std::{
    cell::RefCell,
    collections::HashMap,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering},
        Arc, Condvar, Mutex, Once,
    },
    task::{Context, Poll},
    time::{Duration, Instant},
};
use tentacle::{
    builder::{MetaBuilder, ServiceBuilder},
    context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext},
    error::{DialerErrorKind, ListenErrorKind, ProtocolHandleErrorKind, SendErrorKind},
    multiaddr::Multiaddr,
    secio::{PublicKey, SecioKeyPair},
    service::{
        ProtocolEvent, ProtocolHandle, ServiceControl, ServiceError, ServiceEvent, TargetSession,
    },
    traits::{ProtocolSpawn, ServiceHandle, ServiceProtocol, SessionProtocol},
    ProtocolId, SubstreamReadPart,
};
use tokio::runtime::Runtime;
use crate::ctl::{Cmds, Ctl};
use vcommon::{report::INTENDED, Rng, Verdict};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Via {
    Svc,
    Ses,
    Evt,
    Spn,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Service,
    Session,
    Event,
    ServiceBoth,
    SessionBoth,
    ServiceAndSession,
    Spawn,
}

impl Mode {
    pub fn vias(self) -> &'static [Via] {
        match self {
            Mode::Service => &[Via::Svc],
            Mode::Session => &[Via::Ses],
            Mode::Event => &[Via::Evt],
            Mode::ServiceBoth => &[Via::Svc, Via::Evt],
            Mode::SessionBoth => &[Via::Ses, Via::Evt],
            Mode::ServiceAndSession => &[Via::Svc, Via::Ses],
            Mode::Spawn => &[Via::Spn],
        }
    }
    pub fn any(r: &mut Rng) -> Mode {
        *r.pick(&[
            Mode::Service,
            Mode::Service,
            Mode::Session,
            Mode::Session,
            Mode::Event,
            Mode::ServiceBoth,
            Mode::SessionBoth,
            Mode::ServiceAndSession,
            Mode::Spawn,
            Mode::Spawn,
        ])
    }
}

#[derive(Clone, Debug)]
pub enum What {
    Init { p: usize },
    Conn { p: usize, s: usize, via: Via, obj: u64, ver: String },
    Recv { p: usize, s: usize, via: Via, obj: u64, data: Bytes },
    /// spawned reader got an error
    RecvErr { p: usize, s: usize },
    Disc { p: usize, s: usize, via: Via, obj: u64 },
    /// a session-lived handler object was dropped
    Gone { p: usize, obj: u64 },
    Notify { p: usize, s: Option<usize>, obj: u64, token: u64 },
    Open { s: usize, key: Option<PublicKey>, out: bool, addr: Multiaddr },
    Close { s: usize },
    ListenStart(Multiaddr),
    ListenClose(Multiaddr),
    /// the session named by the following report of a repeated connection
    Repeat { s: usize },
    DialErr { addr: Multiaddr, kind: String },
    ListenErr { addr: Multiaddr, kind: String },
    SelectErr { s: usize, name: Option<String> },
    ProtoErr { s: usize, p: usize, kind: std::io::ErrorKind },
    IdleErr { s: usize },
    MuxErr { s: usize, kind: String },
    HandleErr { p: usize, dead: bool, s: Option<usize> },
    Blocked { s: usize, pending: usize },
    /// so many service-lived handlers were still there when the service stream ended
    Left(i64),
    /// the service stream ended
    End,
    /// mark written by the driver
    Mark(u64),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub n: usize,
    pub t: Instant,
    pub w: What,
}

#[derive(Default)]
pub struct Log {
    m: Mutex<Vec<Ev>>,
    cv: Condvar,
    objs: AtomicU64,
    /// handler objects and reader tasks in existence, per node
    live: Mutex<HashMap<usize, i64>>,
    /// what handlers sent on being connected: node, session, protocol, thread, high
    pub greets: Mutex<HashMap<(usize, usize, usize, u32, bool), u64>>,
}

/// service-lived handlers are counted a second time under this number more
pub const SVC: usize = 1000;

/// counts as one live object while it exists
pub struct Life(Arc<Log>, usize);

impl Life {
    pub fn new(log: &Arc<Log>, n: usize) -> Life {
        *log.live.lock().unwrap().entry(n).or_insert(0) += 1;
        Life(log.clone(), n)
    }
}

impl Drop for Life {
    fn drop(&mut self) {
        *self.0.live.lock().unwrap().get_mut(&self.1).unwrap() -= 1;
    }
}

static BEATS: AtomicU64 = AtomicU64::new(0);
static BEAT: Once = Once::new();

fn beats() -> u64 {
    BEAT.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(5));
            BEATS.fetch_add(1, Ordering::Relaxed);
        });
    });
    BEATS.load(Ordering::Relaxed)
}

/// without any event for that long an outstanding one is taken as never coming
pub const QUIET_MS: u64 = 12_000;
const CAP_MS: u64 = 90_000;

impl Log {
    pub fn new() -> Arc<Log> {
        beats();
        Arc::new(Log::default())
    }
    pub fn put(&self, n: usize, w: What) {
        self.m.lock().unwrap().push(Ev { n, t: Instant::now(), w });
        self.cv.notify_all();
    }
    pub fn live(&self, n: usize) -> i64 {
        self.live.lock().unwrap().get(&n).copied().unwrap_or(0)
    }
    pub fn snap(&self) -> Vec<Ev> {
        self.m.lock().unwrap().clone()
    }
    pub fn len(&self) -> usize {
        self.m.lock().unwrap().len()
    }
    pub fn obj(&self) -> u64 {
        self.objs.fetch_add(1, Ordering::SeqCst) + 1
    }
    pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
        self.m.lock().unwrap().iter().filter(|e| f(e)).count()
    }
    pub fn with<T>(&self, f: impl FnOnce(&[Ev]) -> T) -> T {
        f(&self.m.lock().unwrap())
    }

    /// Waits until `pred` holds. `Ok(false)`: nothing happened for QUIET_MS on a machine that
    /// was running normally. `Err`: no answer.
    pub fn wait(&self, pred: impl FnMut(&[Ev]) -> bool) -> Result<bool, Verdict> {
        self.wait_q(QUIET_MS, pred)
    }

    /// like wait where events keep coming: up to that much time of a machine that keeps up
    pub fn wait_busy(&self, ms: u64, mut pred: impl FnMut(&[Ev]) -> bool) -> bool {
        let b0 = beats();
        let start = Instant::now();
        loop {
            vcommon::exec::beat();
            if self.with(|evs| pred(evs)) {
                return true;
            }
            if (beats() - b0) * 5 > ms && start.elapsed().as_millis() as u64 > ms {
                return false;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    pub fn wait_q(&self, quiet_ms: u64, mut pred: impl FnMut(&[Ev]) -> bool) -> Result<bool, Verdict> {
        vcommon::exec::beat();
        let start = Instant::now();
        let mut last = (0usize, Instant::now(), beats());
        let mut g = self.m.lock().unwrap();
        let mut evald = usize::MAX;
        loop {
            if g.len() != last.0 {
                last = (g.len(), Instant::now(), beats());
            }
            if evald != g.len() || true {
                if pred(&g) {
                    return Ok(true);
                }
                evald = g.len();
            }
            vcommon::exec::beat();
            let idle = last.1.elapsed().as_millis() as u64;
            if idle > quiet_ms {
                let b = beats() - last.2;
                if b * 5 * 2 > idle {
                    return Ok(false);
                }
                if idle > 3 * quiet_ms {
                    return Err(Verdict::Inconclusive("machine too slow to decide".into()));
                }
            }
            if start.elapsed().as_millis() as u64 > CAP_MS.max(2 * quiet_ms) {
                return Err(Verdict::Inconclusive("events keep coming, wait given up".into()));
            }
            let ms = if idle < 50 { 1 } else { 10 };
            g = self.cv.wait_timeout(g, Duration::from_millis(ms)).unwrap().0;
            if idle < 50 {
                // let events accumulate instead of evaluating once per event
                drop(g);
                std::thread::sleep(Duration::from_micros(300));
                g = self.m.lock().unwrap();
            }
        }
    }

    /// waits until no event has come for `ms`
    pub fn settle(&self, ms: u64) {
        let start = Instant::now();
        let mut last = (self.len(), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(2));
            vcommon::exec::beat();
            let n = self.len();
            if n != last.0 {
                last = (n, Instant::now());
            }
            if last.1.elapsed().as_millis() as u64 >= ms || start.elapsed().as_secs() > 30 {
                return;
            }
        }
    }

    pub fn render(&self, nodes: &[usize], max: usize) -> String {
        let v = self.snap();
        let t0 = v.first().map(|e| e.t);
        let mut o = String::new();
        let l: Vec<&Ev> = v.iter().filter(|e| nodes.is_empty() || nodes.contains(&e.n)).collect();
        let from = l.len().saturating_sub(max);
        for e in &l[from..] {
            let ms = t0.map(|t| e.t.duration_since(t).as_millis()).unwrap_or(0);
            let w = match &e.w {
                What::Recv { p, s, via, obj, data } => format!("Recv p{} s{} {:?} obj{} {}", p, s, via, obj, show(data)),
                w => format!("{:?}", w),
            };
            o.push_str(&format!("  {}ms node{} {}\n", ms, e.n, w));
        }
        o
    }
}

// ---------------------------------------------------------------- messages

pub const HDR: usize = 40;
const MAGIC: u32 = 0x5a17_c0de;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Hdr {
    pub src: u8,
    pub high: bool,
    pub p: u16,
    pub s: u32,
    pub thr: u32,
    pub seq: u64,
    pub len: u32,
}

fn fill(mut x: u64, out: &mut [u8]) {
    for c in out.chunks_mut(8) {
        x = vcommon::mix(x, 0x1234_5678);
        let b = x.to_le_bytes();
        let n = c.len();
        c.copy_from_slice(&b[..n]);
    }
}

fn tag(h: &Hdr) -> u64 {
    let mut x = vcommon::mix(u64::from(h.src) << 1 | u64::from(h.high), u64::from(h.p));
    x = vcommon::mix(x, u64::from(h.s));
    x = vcommon::mix(x, u64::from(h.thr));
    x = vcommon::mix(x, h.seq);
    vcommon::mix(x, u64::from(h.len))
}

pub fn make(h: &Hdr) -> Bytes {
    let len = (h.len as usize).max(HDR);
    let h = Hdr { len: len as u32, ..*h };
    let mut v = vec![0u8; len];
    v[0..4].copy_from_slice(&MAGIC.to_le_bytes());
    v[4] = h.src;
    v[5] = u8::from(h.high);
    v[6..8].copy_from_slice(&h.p.to_le_bytes());
    v[8..12].copy_from_slice(&h.s.to_le_bytes());
    v[12..16].copy_from_slice(&h.thr.to_le_bytes());
    v[16..24].copy_from_slice(&h.seq.to_le_bytes());
    v[24..28].copy_from_slice(&h.len.to_le_bytes());
    v[32..40].copy_from_slice(&tag(&h).to_le_bytes());
    fill(tag(&h), &mut v[HDR..]);
    Bytes::from(v)
}

pub fn parse(b: &[u8]) -> Option<Hdr> {
    if b.len() < HDR || b[0..4] != MAGIC.to_le_bytes() {
        return None;
    }
    let g4 = |i: usize| u32::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let g8 = |i: usize| u64::from(g4(i)) | u64::from(g4(i + 4)) << 32;
    let h = Hdr {
        src: b[4],
        high: b[5] == 1,
        p: u16::from_le_bytes([b[6], b[7]]),
        s: g4(8),
        thr: g4(12),
        seq: g8(16),
        len: g4(24),
    };
    if h.len as usize != b.len() || g8(32) != tag(&h) || b[28..32] != [0, 0, 0, 0] {
        return None;
    }
    let mut x = tag(&h);
    for c in b[HDR..].chunks(8) {
        x = vcommon::mix(x, 0x1234_5678);
        if c != &x.to_le_bytes()[..c.len()] {
            return None;
        }
    }
    Some(h)
}

pub fn show(b: &[u8]) -> String {
    match parse(b) {
        Some(h) => format!("{:?}", h),
        None => format!("{} bytes not a message, {:?}", b.len(), &b[..b.len().min(24)]),
    }
}

// ---------------------------------------------------------------- delays at the library's log points

struct Jitter;

thread_local! {
    static JIT: RefCell<Option<(Rng, u64, u64)>> = RefCell::new(None);
}

impl log::Log for Jitter {
    fn enabled(&self, _: &log::Metadata) -> bool {
        JIT.try_with(|j| j.try_borrow().map(|j| j.is_some()).unwrap_or(false)).unwrap_or(false)
    }
    fn log(&self, _r: &log::Record) {
        if std::env::var("VERIF_LOG").is_ok() {
            eprintln!("{} {}", _r.target(), _r.args());
        }
        let d = JIT
            .try_with(|j| {
                j.try_borrow_mut().ok().and_then(|mut j| {
                    j.as_mut().and_then(|(r, den, max)| if r.below(*den) == 0 { Some(r.below(*max)) } else { None })
                })
            })
            .unwrap_or(None);
        match d {
            Some(0..=20) => std::thread::yield_now(),
            Some(us) => std::thread::sleep(Duration::from_micros(us)),
            None => (),
        }
    }
    fn flush(&self) {}
}

static JITTER: Jitter = Jitter;

/// runtime whose workers pause now and then at the library's own log points
pub fn runtime(r: &mut Rng) -> Runtime {
    static ON: Once = Once::new();
    ON.call_once(|| {
        let _ = log::set_logger(&JITTER);
        log::set_max_level(log::LevelFilter::Trace);
    });
    let threads = r.rus(1, 4);
    let prof = *r.pick(&[None, Some((400u64, 200u64)), Some((60, 300)), Some((15, 100)), Some((300, 4000))]);
    let seed = r.next();
    let k = Arc::new(AtomicU64::new(0));
    tokio::runtime::Builder::new()
        .threaded_scheduler()
        .core_threads(threads)
        .max_threads(threads + 256)
        .enable_all()
        .on_thread_start(move || {
            let i = k.fetch_add(1, Ordering::SeqCst);
            if let Some((den, max)) = prof {
                let _ = JIT.try_with(|j| *j.borrow_mut() = Some((Rng::new(vcommon::mix(seed, i)), den, max)));
            }
        })
        .build()
        .unwrap()
}

pub fn quiet_runtime(threads: usize) -> Runtime {
    tokio::runtime::Builder::new()
        .threaded_scheduler()
        .core_threads(threads)
        .enable_all()
        .build()
        .unwrap()
}

// ---------------------------------------------------------------- handlers

/// knobs the driver turns while handlers run
#[derive(Default)]
pub struct Knob {
    pub paused: AtomicBool,
    pub slow_us: AtomicU64,
    /// 1 init 2 connected 3 received 4 disconnected 5 notify 6 poll: panic there
    pub panic_in: AtomicU8,
    pub echo: AtomicBool,
    pub polls: AtomicUsize,
    pub received: AtomicUsize,
    /// so many messages are sent when the protocol opens
    pub greet: AtomicUsize,
    /// events of the protocol hold up the service itself while paused
    pub whole: AtomicBool,
    gate: Mutex<()>,
    cv: Condvar,
}

impl Knob {
    pub fn pause(&self) {
        self.paused.store(true, Ordering::SeqCst);
    }
    pub fn resume(&self) {
        self.paused.store(false, Ordering::SeqCst);
        let _g = self.gate.lock().unwrap();
        self.cv.notify_all();
    }
    fn gate(&self) {
        let us = self.slow_us.load(Ordering::Relaxed);
        if us > 0 {
            std::thread::sleep(Duration::from_micros(us));
        }
        if self.paused.load(Ordering::SeqCst) {
            let mut g = self.gate.lock().unwrap();
            let start = Instant::now();
            while self.paused.load(Ordering::SeqCst) && start.elapsed().as_secs() < 120 {
                g = self.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
            }
        }
    }
    /// sends the greetings; the number accepted is noted before the first can arrive
    fn greet(&self, log: &Log, n: usize, s: usize, p: usize, via: Via, send: impl Fn(bool, Bytes) -> Result<(), SendErrorKind>) {
        let k = self.greet.load(Ordering::SeqCst);
        let thr = 60 + via as u32;
        for i in 0..k as u64 {
            let high = vcommon::mix(i, (n + s) as u64) % 4 == 0;
            let key = (n, s, p, thr, high);
            let seq = {
                let mut g = log.greets.lock().unwrap();
                let v = g.entry(key).or_insert(0);
                *v += 1;
                *v - 1
            };
            let len = HDR + (vcommon::mix(i, 77) % 300) as usize;
            let h = Hdr { src: n as u8, high, p: p as u16, s: s as u32, thr, seq, len: len as u32 };
            if send(high, make(&h)).is_err() {
                *log.greets.lock().unwrap().get_mut(&key).unwrap() -= 1;
            }
        }
    }
    fn boom(&self, at: u8) {
        if self.panic_in.load(Ordering::SeqCst) == at {
            panic!("{}", INTENDED);
        }
    }
}

pub type Knobs = Arc<Mutex<HashMap<usize, Arc<Knob>>>>;

struct H {
    n: usize,
    p: usize,
    log: Arc<Log>,
    knob: Arc<Knob>,
    obj: u64,
    ses: bool,
    views: Views,
    cmds: Arc<Cmds>,
    poller: Option<Arc<Poller>>,
    _life: Life,
    _svc: Option<Life>,
}

impl Drop for H {
    fn drop(&mut self) {
        self.cmds.gone(self.obj);
        if let Some(x) = &self.poller {
            x.gone(self.obj);
        }
        if self.ses {
            self.log.put(self.n, What::Gone { p: self.p, obj: self.obj });
        }
    }
}

impl H {
    fn via(&self) -> Via {
        if self.ses {
            Via::Ses
        } else {
            Via::Svc
        }
    }
    fn conn(&mut self, c: &ProtocolContextMutRef, v: &str) {
        view(&self.views, self.obj, c.listens());
        self.knob.greet(&self.log, self.n, c.session.id.value(), self.p, self.via(), |high, d| if high { c.quick_send_message(d) } else { c.send_message(d) });
        self.log.put(
            self.n,
            What::Conn { p: c.proto_id().value(), s: c.session.id.value(), via: self.via(), obj: self.obj, ver: v.into() },
        );
        self.knob.boom(2);
        self.knob.gate();
    }
    fn disc(&mut self, c: &ProtocolContextMutRef) {
        self.log.put(
            self.n,
            What::Disc { p: c.proto_id().value(), s: c.session.id.value(), via: self.via(), obj: self.obj },
        );
        self.knob.boom(4);
        self.knob.gate();
    }
    fn recv(&mut self, c: &ProtocolContextMutRef, data: Bytes) {
        self.log.put(
            self.n,
            What::Recv { p: c.proto_id().value(), s: c.session.id.value(), via: self.via(), obj: self.obj, data: data.clone() },
        );
        self.knob.received.fetch_add(1, Ordering::SeqCst);
        self.knob.boom(3);
        if self.knob.echo.load(Ordering::Relaxed) {
            let (s, p) = (c.session.id, c.proto_id());
            let _ = match parse(&data) {
                Some(h) if h.high && h.seq % 3 == 0 => c.quick_filter_broadcast(TargetSession::Single(s), p, data),
                Some(h) if h.high && h.seq % 3 == 1 => c.quick_send_message_to(s, p, data),
                Some(h) if h.high => c.quick_send_message(data),
                Some(h) if h.seq % 3 == 0 => c.filter_broadcast(TargetSession::Multi(vec![s]), p, data),
                Some(h) if h.seq % 3 == 1 => c.send_message_to(s, p, data),
                _ => c.send_message(data),
            };
        }
        self.knob.gate();
    }
}

impl ServiceProtocol for H {
    fn init(&mut self, _c: &mut ProtocolContext) {
        self.log.put(self.n, What::Init { p: self.p });
        self.knob.boom(1);
    }
    fn connected(&mut self, c: ProtocolContextMutRef, v: &str) {
        self.conn(&c, v)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        self.disc(&c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        self.recv(&c, data)
    }
    fn notify(&mut self, _c: &mut ProtocolContext, token: u64) {
        self.log.put(self.n, What::Notify { p: self.p, s: None, obj: self.obj, token });
        self.knob.boom(5);
        self.knob.gate();
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context, c: &mut ProtocolContext) -> Poll<Option<()>> {
        self.cmds.poll(self.obj, cx, c);
        self.knob.polls.fetch_add(1, Ordering::Relaxed);
        self.knob.boom(6);
        match &self.poller {
            Some(x) => x.poll(self.obj, cx),
            None => Poll::Pending,
        }
    }
}

impl SessionProtocol for H {
    fn connected(&mut self, c: ProtocolContextMutRef, v: &str) {
        self.conn(&c, v)
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        self.disc(&c)
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        self.recv(&c, data)
    }
    fn notify(&mut self, c: ProtocolContextMutRef, token: u64) {
        self.log.put(self.n, What::Notify { p: self.p, s: Some(c.session.id.value()), obj: self.obj, token });
        self.knob.boom(5);
        self.knob.gate();
    }
    fn poll(self: Pin<&mut Self>, cx: &mut Context, c: ProtocolContextMutRef) -> Poll<Option<()>> {
        self.cmds.poll(self.obj, cx, &c);
        self.knob.polls.fetch_add(1, Ordering::Relaxed);
        self.knob.boom(6);
        match &self.poller {
            Some(x) => x.poll(self.obj, cx),
            None => Poll::Pending,
        }
    }
}

struct Spawner {
    n: usize,
    log: Arc<Log>,
    knob: Arc<Knob>,
}

impl ProtocolSpawn for Spawner {
    fn spawn(&self, c: Arc<SessionContext>, control: &ServiceControl, mut read: SubstreamReadPart) {
        let (n, log, knob, control) = (self.n, self.log.clone(), self.knob.clone(), control.clone());
        let (p, s, obj) = (read.protocol_id().value(), c.id.value(), self.log.obj());
        knob.greet(&log, n, s, p, Via::Spn, |high, d| {
            if high {
                control.quick_send_message_to(s.into(), p.into(), d)
            } else {
                control.send_message_to(s.into(), p.into(), d)
            }
        });
        log.put(n, What::Conn { p, s, via: Via::Spn, obj, ver: read.version().to_owned() });
        let life = Life::new(&log, n);
        tentacle::runtime::spawn(async move {
            let _life = life;
            loop {
                while knob.paused.load(Ordering::SeqCst) {
                    tentacle::runtime::delay_for(Duration::from_millis(5)).await;
                }
                match read.next().await {
                    Some(Ok(data)) => {
                        log.put(n, What::Recv { p, s, via: Via::Spn, obj, data: data.clone() });
                        knob.received.fetch_add(1, Ordering::SeqCst);
                        if knob.echo.load(Ordering::Relaxed) {
                            let _ = control.send_message_to(s.into(), p.into(), data);
                        }
                    }
                    Some(Err(_)) => {
                        log.put(n, What::RecvErr { p, s });
                        break;
                    }
                    None => break,
                }
                let us = knob.slow_us.load(Ordering::Relaxed);
                if us > 0 {
                    tentacle::runtime::delay_for(Duration::from_micros(us)).await;
                }
            }
            log.put(n, What::Disc { p, s, via: Via::Spn, obj });
            drop(read);
        });
    }
}

struct SH {
    n: usize,
    log: Arc<Log>,
    knobs: Knobs,
    ctxs: Arc<Mutex<HashMap<usize, Arc<SessionContext>>>>,
    views: Views,
    hold: Arc<AtomicU64>,
}

/// the listen addresses last seen by the service handler (0) and by handlers
pub type Views = Arc<Mutex<HashMap<u64, Vec<String>>>>;

fn view(v: &Views, who: u64, l: &[Multiaddr]) {
    let mut l: Vec<String> = l.iter().map(|a| a.to_string()).collect();
    l.sort();
    v.lock().unwrap().insert(who, l);
}

impl ServiceHandle for SH {
    fn handle_error(&mut self, c: &mut ServiceContext, e: ServiceError) {
        view(&self.views, 0, c.listens());
        let w = match e {
            ServiceError::DialerError { address, error } => What::DialErr {
                addr: address,
                kind: match error {
                    DialerErrorKind::PeerIdNotMatch => "mismatch".into(),
                    DialerErrorKind::RepeatedConnection(s) => {
                        self.log.put(self.n, What::Repeat { s: s.value() });
                        "repeated".into()
                    }
                    DialerErrorKind::HandshakeError(e) => format!("handshake {:?}", e),
                    e => format!("{:?}", e),
                },
            },
            ServiceError::ListenError { address, error } => What::ListenErr {
                addr: address,
                kind: match error {
                    ListenErrorKind::RepeatedConnection(s) => {
                        self.log.put(self.n, What::Repeat { s: s.value() });
                        "repeated".into()
                    }
                    e => format!("{:?}", e),
                },
            },
            ServiceError::ProtocolSelectError { proto_name, session_context } => {
                What::SelectErr { s: session_context.id.value(), name: proto_name }
            }
            ServiceError::ProtocolError { id, proto_id, error } => {
                What::ProtoErr { s: id.value(), p: proto_id.value(), kind: error.kind() }
            }
            ServiceError::SessionTimeout { session_context } => What::IdleErr { s: session_context.id.value() },
            ServiceError::MuxerError { session_context, error } => {
                What::MuxErr { s: session_context.id.value(), kind: format!("{:?}", error.kind()) }
            }
            ServiceError::ProtocolHandleError { proto_id, error } => {
                let (dead, s) = match error {
                    ProtocolHandleErrorKind::AbnormallyClosed(s) => (true, s),
                    ProtocolHandleErrorKind::Block(s) => (false, s),
                };
                What::HandleErr { p: proto_id.value(), dead, s: s.map(|s| s.value()) }
            }
            ServiceError::SessionBlocked { session_context } => What::Blocked {
                s: session_context.id.value(),
                pending: session_context.pending_data_size(),
            },
        };
        let listen = matches!(w, What::ListenErr { .. });
        self.log.put(self.n, w);
        let ms = self.hold.load(Ordering::SeqCst);
        if listen && ms > 0 {
            std::thread::sleep(Duration::from_millis(ms));
        }
    }
    fn handle_event(&mut self, c: &mut ServiceContext, e: ServiceEvent) {
        view(&self.views, 0, c.listens());
        let w = match e {
            ServiceEvent::SessionOpen { session_context: c } => {
                self.ctxs.lock().unwrap().insert(c.id.value(), c.clone());
                What::Open { s: c.id.value(), key: c.remote_pubkey.clone(), out: c.ty.is_outbound(), addr: c.address.clone() }
            }
            ServiceEvent::SessionClose { session_context: c } => What::Close { s: c.id.value() },
            ServiceEvent::ListenClose { address } => What::ListenClose(address),
            ServiceEvent::ListenStarted { address } => What::ListenStart(address),
        };
        self.log.put(self.n, w);
    }
    fn handle_proto(&mut self, c: &mut ServiceContext, e: ProtocolEvent) {
        let via = Via::Evt;
        let (w, p) = match e {
            ProtocolEvent::Connected { session_context, proto_id, version } => (
                What::Conn { p: proto_id.value(), s: session_context.id.value(), via, obj: 0, ver: version },
                proto_id,
            ),
            ProtocolEvent::Received { session_context, proto_id, data } => {
                if let Some(k) = self.knobs.lock().unwrap().get(&proto_id.value()) {
                    if k.echo.load(Ordering::Relaxed) {
                        let _ = c.send_message_to(session_context.id, proto_id, data.clone());
                    }
                }
                (What::Recv { p: proto_id.value(), s: session_context.id.value(), via, obj: 0, data }, proto_id)
            }
            ProtocolEvent::Disconnected { proto_id, session_context } => {
                (What::Disc { p: proto_id.value(), s: session_context.id.value(), via, obj: 0 }, proto_id)
            }
        };
        let recv = matches!(w, What::Recv { .. });
        let k = self.knobs.lock().unwrap().get(&p.value()).cloned();
        if let (Some(k), What::Conn { p, s, .. }) = (&k, &w) {
            k.greet(&self.log, self.n, *s, *p, via, |high, d| {
                if high {
                    c.quick_send_message_to((*s).into(), (*p).into(), d)
                } else {
                    c.send_message_to((*s).into(), (*p).into(), d)
                }
            });
        }
        self.log.put(self.n, w);
        if let Some(k) = k {
            if k.whole.load(Ordering::SeqCst) {
                k.gate();
            }
            if recv {
                k.received.fetch_add(1, Ordering::SeqCst);
            }
        }
    }
}

// ---------------------------------------------------------------- nodes

pub type Send1 = Box<dyn Fn(Bytes) -> Bytes + Send + 'static>;
pub type Recv1 = Arc<dyn Fn() -> Box<dyn Fn(bytes::BytesMut) -> Result<Bytes, std::io::Error> + Send> + Send + Sync>;

pub struct ProtoCfg {
    pub id: usize,
    pub name: Option<String>,
    pub mode: Mode,
    pub versions: Vec<String>,
    pub before_send: Option<Send1>,
    pub before_receive: Option<Recv1>,
    /// callbacks run without block_in_place
    pub no_block: bool,
    /// greetings sent when it opens
    pub greet: usize,
    /// which of a few framings
    pub codec: u64,
    /// picks this version, or none, whatever is on offer
    pub picks: Option<Option<String>>,
    /// answers the handler's poll
    pub poller: Option<Arc<Poller>>,
}

/// length fields of different size, place and byte order
fn codec(k: u64) -> Box<dyn tentacle::traits::Codec + Send + 'static> {
    use tokio_util::codec::length_delimited::LengthDelimitedCodec;
    Box::new(match k {
        1 => LengthDelimitedCodec::builder().length_field_length(8).new_codec(),
        2 => LengthDelimitedCodec::builder().length_field_length(3).little_endian().new_codec(),
        3 => LengthDelimitedCodec::builder().length_field_offset(0).length_field_length(5).max_frame_length(2 << 20).new_codec(),
        _ => LengthDelimitedCodec::new(),
    })
}

impl ProtoCfg {
    pub fn new(id: usize, mode: Mode) -> ProtoCfg {
        ProtoCfg {
            id,
            name: None,
            mode,
            versions: vec!["0.0.1".into()],
            before_send: None,
            before_receive: None,
            no_block: false,
            greet: 0,
            codec: 0,
            picks: None,
            poller: None,
        }
    }
}

pub struct NodeCfg {
    pub key: Option<SecioKeyPair>,
    pub protos: Vec<ProtoCfg>,
    pub timeout_ms: u64,
    pub window: Option<u32>,
    pub send_buf: Option<usize>,
    pub recv_buf: Option<usize>,
    pub keep_buffer: bool,
    pub max_conn: Option<usize>,
    pub forever: bool,
    pub keepalive_ms: Option<u64>,
    pub listen: Option<Multiaddr>,
    /// dialled before the service runs
    pub dial: Vec<Multiaddr>,
    pub tcp_bind: Option<Multiaddr>,
    pub ws_bind: Option<Multiaddr>,
    /// limit of encrypted frames
    pub frame: Option<usize>,
}

impl Default for NodeCfg {
    fn default() -> Self {
        NodeCfg {
            key: None,
            protos: vec![],
            timeout_ms: 10_000,
            window: None,
            send_buf: None,
            recv_buf: None,
            keep_buffer: false,
            max_conn: None,
            forever: true,
            keepalive_ms: None,
            listen: None,
            dial: vec![],
            tcp_bind: None,
            ws_bind: None,
            frame: None,
        }
    }
}

pub struct Node {
    pub n: usize,
    pub ctl: Ctl,
    pub cmds: Arc<Cmds>,
    pub addr: Option<Multiaddr>,
    pub key: Option<PublicKey>,
    pub knobs: Knobs,
    pub modes: HashMap<usize, Mode>,
    pub ctxs: Arc<Mutex<HashMap<usize, Arc<SessionContext>>>>,
    pub views: Views,
    /// the service stands still for so many ms when it reports a listen error
    pub hold: Arc<AtomicU64>,
    /// how the dials before the start went
    pub dialled: Vec<bool>,
}

/// a loopback address of its own for every listener, so that ports in TIME_WAIT do not matter
/// is there a loopback address of that kind here
pub fn has_v6() -> bool {
    static ONCE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ONCE.get_or_init(|| std::net::TcpListener::bind("[::1]:0").is_ok())
}

pub fn fresh(r: &mut Rng, ws: bool) -> Multiaddr {
    if has_v6() && r.chance(1, 6) {
        return format!("/ip6/::1/tcp/0{}", if ws { "/ws" } else { "" }).parse().unwrap();
    }
    let s = format!(
        "/ip4/127.{}.{}.{}/tcp/0{}",
        r.range(1, 250),
        r.range(1, 250),
        r.range(1, 250),
        if ws { "/ws" } else { "" }
    );
    s.parse().unwrap()
}

pub fn start(rt: &Runtime, log: &Arc<Log>, n: usize, cfg: NodeCfg) -> Node {
    start_armed(rt, log, n, cfg, None)
}

/// `arm`: protocol and callback that panics from the start
pub fn start_armed(rt: &Runtime, log: &Arc<Log>, n: usize, cfg: NodeCfg, arm: Option<(usize, u8)>) -> Node {
    let knobs: Knobs = Default::default();
    let ctxs: Arc<Mutex<HashMap<usize, Arc<SessionContext>>>> = Default::default();
    let views: Views = Default::default();
    let hold: Arc<AtomicU64> = Default::default();
    let cmds: Arc<Cmds> = Default::default();
    let mut b = ServiceBuilder::new().forever(cfg.forever).timeout(Duration::from_millis(cfg.timeout_ms));
    let mut modes = HashMap::new();
    for p in cfg.protos {
        let knob = Arc::new(Knob::default());
        knob.greet.store(p.greet, Ordering::SeqCst);
        if let Some((q, at)) = arm {
            if q == p.id {
                knob.panic_in.store(at, Ordering::SeqCst);
            }
        }
        knobs.lock().unwrap().insert(p.id, knob.clone());
        modes.insert(p.id, p.mode);
        let mut m = MetaBuilder::new().id(ProtocolId::new(p.id)).support_versions(p.versions);
        if let Some(v) = p.picks {
            m = m.select_version(move || {
                let v = v.clone();
                Some(Box::new(move |_: &[String], _: &[String]| v.clone()))
            });
        }
        if p.codec > 0 {
            let k = p.codec;
            m = m.codec(move || codec(k));
        }
        if let Some(name) = p.name {
            m = m.name(move |_| name.clone());
        }
        if let Some(f) = p.before_send {
            m = m.before_send(f);
        }
        if let Some(f) = p.before_receive {
            m = m.before_receive(move || Some(f()));
        }
        if p.no_block {
            // all callbacks, or only some
            let some = [0u8, 1, 2, 4, 8, 5, 10, 13];
            m = m.flag(some[(p.id * 3 + n) % some.len()].into());
        }
        let (pid, mode) = (p.id, p.mode);
        if let Mode::Service | Mode::ServiceBoth | Mode::ServiceAndSession = mode {
            let h = H { n, p: pid, log: log.clone(), knob: knob.clone(), obj: log.obj(), ses: false, views: views.clone(), cmds: cmds.clone(), poller: p.poller.clone(), _life: Life::new(log, n), _svc: Some(Life::new(log, n + SVC)) };
            m = m.service_handle(move || {
                let h: Box<dyn ServiceProtocol + Send + 'static + Unpin> = Box::new(h);
                if mode == Mode::ServiceBoth {
                    ProtocolHandle::Both(h)
                } else {
                    ProtocolHandle::Callback(h)
                }
            });
        }
        if let Mode::Event = mode {
            m = m.service_handle(|| ProtocolHandle::Event);
        }
        if let Mode::Session | Mode::SessionBoth | Mode::ServiceAndSession = mode {
            let (log, knob, views, cmds, poller) = (log.clone(), knob.clone(), views.clone(), cmds.clone(), p.poller.clone());
            m = m.session_handle(move || {
                let h: Box<dyn SessionProtocol + Send + 'static + Unpin> =
                    Box::new(H { n, p: pid, log: log.clone(), knob: knob.clone(), obj: log.obj(), ses: true, views: views.clone(), cmds: cmds.clone(), poller: poller.clone(), _life: Life::new(&log, n), _svc: None });
                if mode == Mode::SessionBoth {
                    ProtocolHandle::Both(h)
                } else {
                    ProtocolHandle::Callback(h)
                }
            });
        }
        if let Mode::Spawn = mode {
            m = m.protocol_spawn(Spawner { n, log: log.clone(), knob: knob.clone() });
        }
        b = b.insert_protocol(m.build());
    }
    let key = cfg.key.as_ref().map(|k| k.public_key());
    if let Some(k) = cfg.key {
        b = b.key_pair(k);
    }
    if cfg.window.is_some() || cfg.keepalive_ms.is_some() {
        let mut y = tentacle::yamux::Config::default();
        if let Some(w) = cfg.window {
            y.max_stream_window_size = w;
        }
        if let Some(k) = cfg.keepalive_ms {
            y.keepalive_interval = Duration::from_millis(k);
            y.connection_write_timeout = Duration::from_millis(k);
        }
        b = b.yamux_config(y);
    }
    if let Some(x) = cfg.frame {
        b = b.max_frame_length(x);
    }
    if let Some(x) = cfg.send_buf {
        b = b.set_send_buffer_size(x);
    }
    if let Some(x) = cfg.recv_buf {
        b = b.set_recv_buffer_size(x);
    }
    if let Some(x) = cfg.max_conn {
        b = b.max_connection_number(x);
    }
    if let Some(a) = cfg.tcp_bind {
        b = b.tcp_bind(a);
    }
    if let Some(a) = cfg.ws_bind {
        b = b.ws_bind(a);
    }
    b = b.keep_buffer(cfg.keep_buffer);
    let mut service = b.build(SH { n, log: log.clone(), knobs: knobs.clone(), ctxs: ctxs.clone(), views: views.clone(), hold: hold.clone() });
    let ctl = Ctl::new(service.control().clone(), cmds.clone(), vcommon::mix(n as u64, log.obj()));
    let (tx, rx) = std::sync::mpsc::channel();
    let (l, want, dial) = (log.clone(), cfg.listen, cfg.dial);
    rt.spawn(async move {
        let addr = match want {
            Some(a) => Some(service.listen(a).await.expect("listen on loopback")),
            None => None,
        };
        let mut dialled = vec![];
        for a in dial {
            dialled.push(service.dial(a, tentacle::service::TargetProtocol::All).await.is_ok());
        }
        let _ = tx.send((addr, dialled));
        while service.next().await.is_some() {}
        drop(service);
        let left = l.live(n + SVC);
        if left > 0 {
            l.put(n, What::Left(left));
        }
        l.put(n, What::End);
    });
    let (addr, dialled) = rx.recv_timeout(Duration::from_secs(60)).expect("service start");
    Node { n, ctl, cmds, addr, key, knobs, modes, ctxs, views, hold, dialled }
}

/// Sends until accepted; false when the service is gone.
pub fn until_ok(mut f: impl FnMut() -> Result<(), SendErrorKind>) -> bool {
    let start = Instant::now();
    loop {
        match f() {
            Ok(()) => return true,
            Err(SendErrorKind::BrokenPipe) => return false,
            Err(SendErrorKind::WouldBlock) => {
                if start.elapsed().as_secs() > 60 {
                    return false;
                }
                vcommon::exec::beat();
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
}

impl Node {
    pub fn knob(&self, p: usize) -> Arc<Knob> {
        self.knobs.lock().unwrap()[&p].clone()
    }
    pub fn pending(&self, s: usize) -> usize {
        self.ctxs.lock().unwrap().get(&s).map(|c| c.pending_data_size()).unwrap_or(0)
    }
}

/// sessions currently reported open at node n, in opening order
pub fn open_sessions(evs: &[Ev], n: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for e in evs.iter().filter(|e| e.n == n) {
        match e.w {
            What::Open { s, .. } => v.push(s),
            What::Close { s } => v.retain(|x| *x != s),
            _ => (),
        }
    }
    v
}

/// is protocol p open on session s at node n as far as all its receivers were told
pub fn is_conn(evs: &[Ev], n: usize, s: usize, p: usize, vias: &[Via]) -> bool {
    vias.iter().all(|v| {
        let mut on = false;
        let mut readers = 0;
        for e in evs.iter().filter(|e| e.n == n) {
            match &e.w {
                What::Conn { p: q, s: t, via, .. } if *q == p && *t == s && via == v => {
                    readers += 1;
                    on = true
                }
                What::Disc { p: q, s: t, via, .. } if *q == p && *t == s && via == v => {
                    readers -= 1;
                    on = *v == Via::Spn && readers > 0
                }
                _ => (),
            }
        }
        on
    })
}

pub fn stop(rt: Runtime) {
    rt.shutdown_timeout(Duration::from_millis(300));
}

pub fn key(r: &mut Rng) -> SecioKeyPair {
    loop {
        let b = r.bytes(32);
        if let Ok(k) = SecioKeyPair::secp256k1_raw_key(&b) {
            return k;
        }
    }
}
