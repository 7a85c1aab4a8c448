//! Workload: senders and a receiver following generated programs under shuttle's schedulers.
use crate::{
    channel::{
        mpsc::{channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender},
        QuickSinkExt,
    },
    judge::{self, Ev},
};
use futures::{future::poll_fn, task::noop_waker, SinkExt, Stream, StreamExt};
use shuttle::{
    future::block_on,
    scheduler::{PctScheduler, RandomScheduler, UrwRandomScheduler},
    thread, Config, FailurePersistence, MaxSteps, Runner,
};
use std::{
    collections::HashSet,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::Pin,
    real::sync::{Arc, Mutex},
    task::{Context, Poll},
};
use vcommon::{mix, report::Verdict, Acc, Rng};

pub struct Msg {
    pub id: usize,
    log: Log,
}

impl Drop for Msg {
    fn drop(&mut self) {
        self.log.0.lock().unwrap().drops[self.id] += 1;
    }
}

#[derive(Default)]
pub struct Inner {
    pub ev: Vec<Ev>,
    pub drops: Vec<u32>,
    pub next: usize,
    pub senders: usize,
    pub blocked_resumed: u64,
    pub recv_waited: u64,
    pub broken: Option<(String, String)>,
}

#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Inner>>);

impl Log {
    fn put(&self, e: Ev) {
        self.0.lock().unwrap().ev.push(e)
    }
    fn msg(&self, sender: usize, high: bool) -> Msg {
        let mut g = self.0.lock().unwrap();
        let id = g.next;
        g.next += 1;
        g.drops.push(0);
        g.ev.push(Ev::SendStart { sender, id, high });
        Msg { id, log: self.clone() }
    }
    fn sender(&self) -> usize {
        let mut g = self.0.lock().unwrap();
        g.senders += 1;
        g.senders - 1
    }
    fn broken(&self, key: &str, what: String) {
        let mut g = self.0.lock().unwrap();
        if g.broken.is_none() {
            g.broken = Some((key.into(), what))
        }
    }
}

#[derive(Clone, Debug)]
enum SOp {
    Try(bool),
    Send(bool),
    /// poll_ready then start_send, waiting
    Feed(bool),
    /// send only when ready at once
    Poll(bool),
    /// register a waker that leads nowhere, as a task that then hands the sender over
    Nudge,
    Close,
    /// close the sink
    CloseSink,
    Disconnect,
    Fork(Vec<SOp>),
    Query,
    Yield,
}

#[derive(Clone, Debug)]
enum ROp {
    Next,
    Try,
    Nudge,
    Close,
    Drop,
    Move,
    Yield,
}

#[derive(Clone, Debug)]
struct Plan {
    cap: Option<usize>,
    senders: Vec<Vec<SOp>>,
    shared: bool,
    recv: Vec<ROp>,
    drain: bool,
    sequential: bool,
}

fn sops(r: &mut Rng, depth: usize, n: usize, shared: bool) -> Vec<SOp> {
    let mut v = Vec::new();
    for _ in 0..n {
        let h = r.chance(2, 5);
        v.push(if shared {
            match r.below(10) {
                0 => SOp::Yield,
                1 => SOp::Query,
                _ => SOp::Try(h),
            }
        } else {
            match r.below(40) {
                0..=11 => SOp::Try(h),
                12..=20 => SOp::Send(h),
                21..=27 => SOp::Feed(h),
                28..=30 => SOp::Poll(h),
                31 | 32 => SOp::Nudge,
                33 if depth < 2 => {
                    let k = r.rus(0, 3);
                    SOp::Fork(sops(r, depth + 1, k, shared))
                }
                34 | 35 => SOp::Query,
                36 if r.chance(1, 4) => SOp::Close,
                37 if r.chance(1, 4) => SOp::CloseSink,
                38 if r.chance(1, 4) => SOp::Disconnect,
                _ => SOp::Yield,
            }
        })
    }
    v
}

fn plan(r: &mut Rng) -> Plan {
    let sequential = r.chance(1, 6);
    let shared = !sequential && r.chance(1, 6);
    let cap = if r.chance(1, 3) { None } else { Some(*r.pick(&[0, 0, 1, 1, 2, 3, 5])) };
    let ns = if r.chance(1, 5) { 1 } else { r.rus(2, 4) };
    let senders = (0..ns)
        .map(|_| {
            let n = r.rus(1, 7);
            sops(r, 0, n, shared)
        })
        .collect();
    let n = r.rus(0, 10);
    let mut recv = Vec::new();
    for _ in 0..n {
        recv.push(match r.below(24) {
            0..=9 => ROp::Next,
            10..=16 => ROp::Try,
            17 => ROp::Nudge,
            18 if r.chance(1, 2) => ROp::Close,
            19 if r.chance(1, 3) => ROp::Drop,
            20 => ROp::Move,
            _ => ROp::Yield,
        });
    }
    Plan { cap, senders, shared, recv, drain: r.chance(4, 5), sequential }
}

enum Tx {
    B(Sender<Msg>),
    U(UnboundedSender<Msg>),
}

impl Tx {
    fn dup(&self) -> Tx {
        match self {
            Tx::B(s) => Tx::B(s.clone()),
            Tx::U(s) => Tx::U(s.clone()),
        }
    }
    fn closed(&self) -> bool {
        match self {
            Tx::B(s) => s.is_closed(),
            Tx::U(s) => s.is_closed(),
        }
    }
}

enum Rx {
    B(Receiver<Msg>),
    U(UnboundedReceiver<Msg>),
}

impl Rx {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
        }
    }
    fn try_next(&mut self) -> Option<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => r.try_next().ok(),
            Rx::U(r) => r.try_next().ok(),
        }
    }
    fn close(&mut self) {
        match self {
            Rx::B(r) => r.close(),
            Rx::U(r) => r.close(),
        }
    }
    fn ended(&self) -> bool {
        use futures::stream::FusedStream;
        match self {
            Rx::B(r) => r.is_terminated(),
            Rx::U(r) => r.is_terminated(),
        }
    }
}

fn try_once(tx: &Tx, me: usize, high: bool, log: &Log) {
    let m = log.msg(me, high);
    let id = m.id;
    let r = match (tx, high) {
        (Tx::B(s), false) => s.try_send(m),
        (Tx::B(s), true) => s.try_quick_send(m),
        (Tx::U(s), false) => s.unbounded_send(m),
        (Tx::U(s), true) => s.unbounded_quick_send(m),
    };
    match r {
        Ok(()) => log.put(Ev::SendEnd { id, ok: true, full: false }),
        Err(e) => {
            let full = e.is_full();
            if full == e.is_disconnected() {
                log.broken("error-kind", "a refused message is reported as both or neither of full and disconnected".into());
            }
            let back = e.into_inner();
            if back.id != id {
                log.broken("wrong-message-back", format!("message {} refused, message {} handed back", id, back.id));
            }
            log.put(Ev::SendEnd { id, ok: false, full });
        }
    }
}

/// false: the sender has been taken apart
fn sender_op(op: &SOp, tx: &mut Tx, me: usize, log: &Log, forks: &mut Vec<thread::JoinHandle<()>>) -> bool {
    match op {
        SOp::Try(h) => try_once(tx, me, *h, log),
        SOp::Send(h) => {
            let m = log.msg(me, *h);
            let id = m.id;
            let mut waited = false;
            let r = {
                let fut: Pin<Box<dyn futures::Future<Output = Result<(), crate::channel::SendError>> + '_>> = match (tx, *h) {
                    (Tx::B(s), false) => Box::pin(s.send(m)),
                    (Tx::B(s), true) => Box::pin(s.quick_send(m)),
                    (Tx::U(s), false) => Box::pin(s.send(m)),
                    (Tx::U(s), true) => Box::pin(s.quick_send(m)),
                };
                let mut fut = fut;
                block_on(poll_fn(|cx| {
                    let p = fut.as_mut().poll(cx);
                    waited |= p.is_pending();
                    p
                }))
            };
            end_of_send(r, id, waited, log);
        }
        SOp::Feed(h) => {
            let mut waited = false;
            let ready = block_on(poll_fn(|cx| {
                let p = poll_ready(tx, cx);
                waited |= p.is_pending();
                p
            }));
            let m = log.msg(me, *h);
            let id = m.id;
            let r = match ready {
                Ok(()) => start(tx, m, *h),
                Err(e) => Err(e),
            };
            end_of_send(r, id, waited, log);
        }
        SOp::Poll(h) => {
            let w = noop_waker();
            if let Poll::Ready(Ok(())) = poll_ready(tx, &mut Context::from_waker(&w)) {
                let m = log.msg(me, *h);
                let id = m.id;
                end_of_send(start(tx, m, *h), id, false, log);
            }
        }
        SOp::Nudge => {
            let w = noop_waker();
            let _ = poll_ready(tx, &mut Context::from_waker(&w));
        }
        SOp::Close => {
            log.put(Ev::CloseStart);
            match tx {
                Tx::B(s) => s.close_channel(),
                Tx::U(s) => s.close_channel(),
            }
            log.put(Ev::CloseEnd { by_receiver: false });
            if !tx.closed() {
                log.broken("close-ignored", "is_closed is false after close_channel".into());
            }
        }
        SOp::CloseSink => {
            log.put(Ev::DropStart { sender: me });
            let w = noop_waker();
            let mut cx = Context::from_waker(&w);
            let _ = match tx {
                Tx::B(s) => SinkExt::poll_close_unpin(s, &mut cx),
                Tx::U(s) => SinkExt::poll_close_unpin(s, &mut cx),
            };
            log.put(Ev::DropEnd { sender: me });
            try_once(tx, me, false, log);
            return false;
        }
        SOp::Disconnect => {
            log.put(Ev::DropStart { sender: me });
            match tx {
                Tx::B(s) => s.disconnect(),
                Tx::U(s) => s.disconnect(),
            }
            log.put(Ev::DropEnd { sender: me });
            try_once(tx, me, true, log);
            return false;
        }
        SOp::Fork(p) => {
            let id = log.sender();
            log.put(Ev::Cloned { sender: id });
            let (t, p, l) = (tx.dup(), p.clone(), log.clone());
            forks.push(thread::spawn(move || sender(t, p, id, l)));
        }
        SOp::Query => {
            log.put(Ev::QueryStart);
            let c = tx.closed();
            let n = match tx {
                Tx::U(s) => s.len(),
                Tx::B(_) => None,
            };
            log.put(Ev::QueryEnd { closed: c, len: n });
        }
        SOp::Yield => thread::yield_now(),
    }
    true
}

trait PollClose<I>: futures::Sink<I> + Unpin {
    fn poll_close_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        Pin::new(self).poll_close(cx)
    }
}
impl<I, S: futures::Sink<I> + Unpin> PollClose<I> for S {}

fn poll_ready(tx: &mut Tx, cx: &mut Context<'_>) -> Poll<Result<(), crate::channel::SendError>> {
    match tx {
        Tx::B(s) => s.poll_ready(cx),
        Tx::U(s) => s.poll_ready(cx),
    }
}

fn start(tx: &mut Tx, m: Msg, high: bool) -> Result<(), crate::channel::SendError> {
    match (tx, high) {
        (Tx::B(s), false) => s.start_send(m),
        (Tx::B(s), true) => s.start_quick_send(m),
        (Tx::U(s), false) => s.start_send(m),
        (Tx::U(s), true) => s.start_quick_send(m),
    }
}

fn end_of_send(r: Result<(), crate::channel::SendError>, id: usize, waited: bool, log: &Log) {
    match r {
        Ok(()) => {
            if waited {
                log.0.lock().unwrap().blocked_resumed += 1;
            }
            log.put(Ev::SendEnd { id, ok: true, full: false })
        }
        Err(e) => {
            if e.is_full() {
                log.broken("ready-but-full", "a send refused as full after the channel had reported room".into());
            }
            log.put(Ev::SendEnd { id, ok: false, full: e.is_full() })
        }
    }
}

fn sender(mut tx: Tx, prog: Vec<SOp>, me: usize, log: Log) {
    let mut forks = Vec::new();
    let mut live = true;
    for op in &prog {
        live = sender_op(op, &mut tx, me, &log, &mut forks);
        if !live {
            break;
        }
    }
    if live {
        log.put(Ev::DropStart { sender: me });
        drop(tx);
        log.put(Ev::DropEnd { sender: me });
    }
    for f in forks {
        let _ = f.join();
    }
}

fn got(v: Option<(Priority, Msg)>, log: &Log) -> bool {
    match v {
        Some((p, m)) => {
            log.put(Ev::RecvEnd { id: Some(m.id), high: p.is_high(), empty: false });
            true
        }
        None => {
            log.put(Ev::RecvEnd { id: None, high: false, empty: false });
            false
        }
    }
}

/// false: the stream ended
fn next(rx: &mut Rx, log: &Log) -> bool {
    let mut waited = false;
    let v = block_on(poll_fn(|cx| {
        log.put(Ev::RecvStart);
        let p = rx.poll(cx);
        if p.is_pending() {
            waited = true;
            log.put(Ev::RecvEnd { id: None, high: false, empty: true });
        }
        p
    }));
    if waited {
        log.0.lock().unwrap().recv_waited += 1;
    }
    let r = got(v, log);
    if !r && !rx.ended() {
        log.broken("not-terminated", "is_terminated is false after the end of the stream".into());
    }
    r
}

/// None: gone
fn recv_op(op: &ROp, rx: Rx, log: &Log) -> Option<Rx> {
    let mut rx = rx;
    match op {
        ROp::Next => {
            if !next(&mut rx, log) {
                return None;
            }
        }
        ROp::Try => {
            log.put(Ev::RecvStart);
            match rx.try_next() {
                Some(v) => {
                    if !got(v, log) {
                        return None;
                    }
                }
                None => log.put(Ev::RecvEnd { id: None, high: false, empty: true }),
            }
        }
        ROp::Nudge => {
            let w = noop_waker();
            log.put(Ev::RecvStart);
            match rx.poll(&mut Context::from_waker(&w)) {
                Poll::Ready(v) => {
                    if !got(v, log) {
                        return None;
                    }
                }
                Poll::Pending => log.put(Ev::RecvEnd { id: None, high: false, empty: true }),
            }
        }
        ROp::Close => {
            log.put(Ev::CloseStart);
            rx.close();
            log.put(Ev::CloseEnd { by_receiver: true });
        }
        ROp::Drop => {
            log.put(Ev::CloseStart);
            drop(rx);
            log.put(Ev::CloseEnd { by_receiver: true });
            return None;
        }
        ROp::Move | ROp::Yield => thread::yield_now(),
    }
    Some(rx)
}

fn receiver(rx: Rx, prog: Vec<ROp>, drain: bool, log: Log) {
    let mut rx = rx;
    for (i, op) in prog.iter().enumerate() {
        if let ROp::Move = op {
            let rest = prog[i + 1..].to_vec();
            let l = log.clone();
            let _ = thread::spawn(move || receiver(rx, rest, drain, l)).join();
            return;
        }
        match recv_op(op, rx, &log) {
            Some(r) => rx = r,
            None => return,
        }
    }
    if drain {
        while next(&mut rx, &log) {}
    } else {
        log.put(Ev::CloseStart);
        drop(rx);
        log.put(Ev::CloseEnd { by_receiver: true });
    }
}

fn run_once(p: &Plan, log: &Log) {
    let (tx, rx) = match p.cap {
        Some(c) => {
            let (a, b) = channel(c);
            (Tx::B(a), Rx::B(b))
        }
        None => {
            let (a, b) = unbounded();
            (Tx::U(a), Rx::U(b))
        }
    };
    if p.sequential {
        // everything in one task, nothing may wait
        let me = log.sender();
        let mut tx = tx;
        let mut rx = Some(rx);
        let (mut i, mut j) = (0, 0);
        let sops: Vec<SOp> = p.senders.iter().flatten().cloned().collect();
        let mut live = true;
        let mut forks = vec![];
        while i < sops.len() || j < p.recv.len() {
            if i < sops.len() && (j >= p.recv.len() || (i * 7 + j * 3) % 5 < 3) {
                if live {
                    let op = match &sops[i] {
                        SOp::Send(h) | SOp::Feed(h) => SOp::Poll(*h),
                        SOp::Fork(_) => SOp::Yield,
                        o => o.clone(),
                    };
                    live = sender_op(&op, &mut tx, me, log, &mut forks);
                }
                i += 1;
            } else {
                if let Some(r) = rx.take() {
                    let op = match &p.recv[j] {
                        ROp::Next => ROp::Try,
                        o => o.clone(),
                    };
                    rx = recv_op(&op, r, log);
                }
                j += 1;
            }
        }
        if live {
            log.put(Ev::DropStart { sender: me });
            drop(tx);
            log.put(Ev::DropEnd { sender: me });
        }
        if let Some(r) = rx {
            receiver(r, vec![], p.drain, log.clone());
        }
        return;
    }
    let mut hs = Vec::new();
    if p.shared {
        let me = log.sender();
        let tx = Arc::new(tx);
        for prog in &p.senders {
            let (t, prog, l) = (tx.clone(), prog.clone(), log.clone());
            hs.push(thread::spawn(move || {
                for op in &prog {
                    match op {
                        SOp::Try(h) => try_once(&t, me, *h, &l),
                        _ => thread::yield_now(),
                    }
                }
                l.put(Ev::DropStart { sender: me });
                drop(t);
                l.put(Ev::DropEnd { sender: me });
            }));
        }
        drop(tx);
    } else {
        let mut tx = Some(tx);
        let n = p.senders.len();
        for (i, prog) in p.senders.iter().enumerate() {
            let id = log.sender();
            let t = if i + 1 == n { tx.take().unwrap() } else { tx.as_ref().unwrap().dup() };
            let (prog, l) = (prog.clone(), log.clone());
            hs.push(thread::spawn(move || sender(t, prog, id, l)));
        }
    }
    receiver(rx, p.recv.clone(), p.drain, log.clone());
    for h in hs {
        let _ = h.join();
    }
}

pub fn case(which: &'static str, seed: u64, idx: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let p = plan(&mut r);
    let iters = if p.sequential { 1 } else { r.rus(10, 40) };
    let cfg = || {
        let mut c = Config::default();
        c.failure_persistence = FailurePersistence::None;
        c.max_steps = MaxSteps::FailAfter(300_000);
        c.silence_warnings = true;
        c.stack_size = 0x10000;
        c
    };
    struct Out {
        acc: Acc,
        hist: HashSet<u64>,
        bad: Option<(String, String)>,
        cur: Log,
    }
    let out = Arc::new(Mutex::new(Out { acc: Acc::default(), hist: HashSet::new(), bad: None, cur: Log::default() }));
    let body = {
        let (p, out) = (p.clone(), out.clone());
        move || {
            vcommon::exec::beat();
            if out.lock().unwrap().bad.is_some() {
                return;
            }
            let log = Log::default();
            out.lock().unwrap().cur = log.clone();
            run_once(&p, &log);
            let g = log.0.lock().unwrap();
            let mut o = out.lock().unwrap();
            let info = judge::Info { cap: p.cap, shared: p.shared, sequential: p.sequential, log: &g };
            let mut acc = std::mem::take(&mut o.acc);
            let v = judge::judge(which, &info, &mut acc);
            o.acc = acc;
            o.hist.insert(judge::sig(&g));
            if let Err(b) = v {
                o.bad = Some(b);
            }
        }
    };
    let fair;
    let s = mix(seed, 77);
    let res = match idx % 4 {
        0 | 1 => {
            fair = true;
            catch_unwind(AssertUnwindSafe(|| Runner::new(RandomScheduler::new_from_seed(s, iters), cfg()).run(body)))
        }
        2 => {
            fair = false;
            let d = r.rus(1, 5);
            catch_unwind(AssertUnwindSafe(|| Runner::new(PctScheduler::new_from_seed(s, d, iters), cfg()).run(body)))
        }
        _ => {
            fair = true;
            catch_unwind(AssertUnwindSafe(|| Runner::new(UrwRandomScheduler::new_from_seed(s, iters), cfg()).run(body)))
        }
    };
    if let Err(e) = res {
        let text = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            (*s).to_owned()
        } else {
            String::new()
        };
        let o = out.lock().unwrap_or_else(|e| e.into_inner());
        let hist = {
            let g = o.cur.0.lock().unwrap_or_else(|e| e.into_inner());
            judge::tail(&g)
        };
        if text.contains("deadlock") {
            if which == "C02" {
                return Verdict::Violation("hang".into(), format!("somebody waits forever: {}; plan {:?}; history ..{}", text, p, hist));
            }
            return Verdict::Inconclusive(format!("hang: {}", text));
        }
        if text.contains("max_steps") || text.contains("step bound") {
            if which == "C02" && fair {
                return Verdict::Violation("live-lock".into(), format!("not finished after 300000 steps under a fair schedule; plan {:?}; history ..{}", p, hist));
            }
            return Verdict::Inconclusive(text);
        }
        drop(o);
        resume_unwind(e)
    }
    let mut o = out.lock().unwrap();
    if let Some((k, w)) = o.bad.take() {
        return Verdict::Violation(k, format!("{}; plan {:?}", w, p));
    }
    let mut acc = std::mem::take(&mut o.acc);
    acc.add("executions", iters as u64);
    acc.add("distinct_histories", o.hist.len() as u64);
    acc.add("shared_sender_plans", p.shared as u64);
    acc.add("sequential_plans", p.sequential as u64);
    let mut h: Vec<u64> = o.hist.iter().cloned().collect();
    h.sort();
    acc.sig = h.iter().fold(seed, |a, b| mix(a, *b));
    acc.nontrivial = acc.get("judged") > 0;
    if idx < 5 {
        acc.sample = Some(format!("{:?}: {} executions, {} distinct histories", p, iters, h.len()));
    }
    Verdict::Pass(acc)
}
