//! Two real sessions over a hostile in-memory connection, with the ground truth of what the
//! applications did on every stream.
use crate::wire::Monitor;
use futures::{
    task::{waker, ArcWake, Waker},
    Future, Stream,
};
use std::{
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    cell::RefCell,
    collections::BTreeMap,
    io,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{Config, Control, Session, StreamHandle};
use vcommon::{
    exec::{Exec, Spawner},
    link::{self, LinkCfg, Sock, Way},
    mix, Acc, Rng,
};

#[derive(Default, Clone, Debug)]
pub struct DirT {
    pub written: u64,
    pub read: u64,
    pub shut: bool,
    pub dropped: bool,
    pub eof: bool,
    pub err: bool,
    pub done: bool,
}

/// (opener side, id) -> [opener->acceptor, acceptor->opener]
pub type Key = (u8, u32);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// closes after everything of both directions was transferred
    Orderly,
    /// closes as soon as its own data is written
    Early,
    /// dropped without closing
    Drop,
    /// kept open
    Hold,
}

pub struct World {
    pub seed: u64,
    pub cfg: Config,
    pub streams: BTreeMap<Key, [DirT; 2]>,
    pub opened: [Vec<u32>; 2],
    pub accepted: [Vec<u32>; 2],
    pub open_err: [u64; 2],
    pub over: [Option<String>; 2],
    /// the scenario ended the session or broke the connection
    pub fault: bool,
    pub viol: Vec<(&'static str, &'static str, String)>,
    pub progress: u64,
    pub tasks_open: i64,
    pub held: Vec<StreamHandle>,
    pub released: bool,
    pub resume: Vec<futures::task::Waker>,
    pub acc: Acc,
    pub spawner: Spawner,
    pub max_total: u64,
    pub modes: Vec<Mode>,
    pub stall: u64,
    pub mon: [Monitor; 2],
    pub ways: Option<(Way, Way)>,
    pub finished_unstalled: u64,
    pub stalled: u64,
    /// stream of side 0 whose accepting end is kept without being read
    pub special: Option<u32>,
    /// record violations of this property only
    pub only: Option<&'static str>,
}

pub type W = Rc<RefCell<World>>;

pub fn bytes_at(seed: u64, key: Key, dir: usize, off: u64, n: usize) -> Vec<u8> {
    let base = mix(seed, u64::from(key.1) * 4 + u64::from(key.0) * 2 + dir as u64);
    let mut v = Vec::with_capacity(n + 16);
    let mut blk = off / 8;
    while v.len() < n + 8 {
        v.extend_from_slice(&mix(base, blk).to_le_bytes());
        blk += 1;
    }
    v.drain(..(off % 8) as usize);
    v.truncate(n);
    v
}

pub struct Plan {
    pub mode: Mode,
    /// which end closes or drops first: 0 opener, 1 acceptor
    pub actor: u8,
    /// planned bytes per direction
    pub total: [u64; 2],
    /// this stream's reader (role) stalls until released
    pub stall: Option<u8>,
    pub drop_at: u64,
}

pub fn plan(w: &World, key: Key) -> Plan {
    let mut r = Rng::new(mix(w.seed ^ 0x91a7, u64::from(key.1) * 2 + u64::from(key.0)));
    let mode = *r.pick(&w.modes);
    let t = |r: &mut Rng| r.size(w.max_total as usize) as u64;
    let total = [t(&mut r), t(&mut r)];
    let stall = if w.stall > 0 && r.chance(1, w.stall) { Some(r.below(2) as u8) } else { None };
    let drop_at = r.below(total[0] + total[1] + 1);
    Plan { mode, actor: r.below(2) as u8, total, stall, drop_at }
}

impl World {
    pub fn v(&mut self, p: &'static str, k: &'static str, t: String) {
        if self.viol.len() < 20 && self.only.map(|o| o == p).unwrap_or(true) {
            self.viol.push((p, k, t));
        }
    }
    pub fn ended(&self) -> bool {
        self.fault || self.over[0].is_some() || self.over[1].is_some()
    }
    /// run the wire monitors on what happened in the last step
    pub fn observe(&mut self) {
        let (ab, ba) = match &self.ways {
            Some(w) => w.clone(),
            None => return,
        };
        for side in 0..2u8 {
            let (o, i) = if side == 0 { (&ab, &ba) } else { (&ba, &ab) };
            let m = &mut self.mon[side as usize];
            let taken = i.taken();
            if taken as usize > m.inn.pos {
                i.with_sent(|b| m.on_in(b, taken));
            }
            if o.sent_len() > m.out.pos {
                let st = &self.streams;
                let consumed = |id: u32| -> u64 {
                    let opener = if id % 2 == 1 { 0 } else { 1 };
                    st.get(&(opener, id))
                        .map(|d| d[if side == opener { 1 } else { 0 }].read)
                        .unwrap_or(0)
                };
                let vs = o.with_sent(|b| m.on_out(b, &consumed));
                for x in vs {
                    self.v(x.0, x.1, x.2);
                }
            }
        }
    }
}

/// One end of one stream: reads and writes in random portions and judges every result.
pub struct StreamTask {
    pub h: Option<StreamHandle>,
    pub w: W,
    pub side: u8,
    pub key: Key,
    pub rng: Rng,
    pub plan: Plan,
    wrote: u64,
    read: u64,
    write_done: bool,
    read_done: bool,
    shut: bool,
    stalled: bool,
    max_read: usize,
    max_write: usize,
    /// reading and writing are done by two tasks: each is tried again only when it was woken
    halves: Option<[Arc<Half>; 2]>,
}

/// One of the two tasks that share a stream.
pub struct Half {
    woken: AtomicBool,
    task: Mutex<Option<Waker>>,
}

impl ArcWake for Half {
    fn wake_by_ref(h: &Arc<Self>) {
        h.woken.store(true, Ordering::SeqCst);
        if let Some(w) = h.task.lock().unwrap().as_ref() {
            w.wake_by_ref();
        }
    }
}

impl StreamTask {
    pub fn new(h: StreamHandle, w: &W, side: u8, key: Key) -> StreamTask {
        let mut b = w.borrow_mut();
        let p = plan(&b, key);
        let role = u8::from(side != key.0);
        let mut rng = Rng::new(mix(b.seed ^ 0x77, u64::from(key.1) * 4 + u64::from(side) * 2 + u64::from(key.0)));
        b.streams.entry(key).or_default();
        b.tasks_open += 1;
        let stalled = p.stall == Some(role);
        if stalled {
            b.stalled += 1;
        }
        // small portions only where the stream is short
        let long = p.total[0] + p.total[1] > 5000;
        let max_read = if long { *rng.pick(&[700, 4000, 70000]) } else { *rng.pick(&[1usize, 5, 64, 1000, 70000]) };
        let max_write = if long { *rng.pick(&[500, 3000, 70000]) } else { *rng.pick(&[1usize, 9, 100, 3000, 70000]) };
        let split = rng.chance(1, 2);
        drop(b);
        StreamTask {
            h: Some(h),
            w: w.clone(),
            side,
            key,
            rng,
            plan: p,
            wrote: 0,
            read: 0,
            write_done: false,
            read_done: false,
            shut: false,
            stalled,
            max_read,
            max_write,
            halves: if split {
                let half = || Arc::new(Half { woken: AtomicBool::new(true), task: Mutex::new(None) });
                Some([half(), half()])
            } else {
                None
            },
        }
    }
    /// whether the half (0 reader, 1 writer) is to be polled, with the waker it uses
    fn half(&self, i: usize, cx: &Context) -> Option<Waker> {
        match &self.halves {
            None => Some(cx.waker().clone()),
            Some(h) => {
                *h[i].task.lock().unwrap() = Some(cx.waker().clone());
                if h[i].woken.swap(false, Ordering::SeqCst) {
                    Some(waker(h[i].clone()))
                } else {
                    None
                }
            }
        }
    }
    /// a half that made progress goes on
    fn again(&self, i: usize) {
        if let Some(h) = &self.halves {
            h[i].woken.store(true, Ordering::SeqCst);
        }
    }
    fn role(&self) -> usize {
        usize::from(self.side != self.key.0)
    }
    fn out(&self) -> usize {
        self.role()
    }
    fn inn(&self) -> usize {
        1 - self.role()
    }
    fn name(&self) -> String {
        format!("stream {} (opened by side {}) at side {}", self.key.1, self.key.0, self.side)
    }

    fn check_windows(&mut self) {
        let h = self.h.as_ref().unwrap();
        let (r, s) = (h.recv_window(), h.send_window());
        let mut w = self.w.borrow_mut();
        let m = w.cfg.max_stream_window_size;
        if r > m || s > m {
            let t = format!("{}: visible windows recv {} send {} above the maximum {}", self.name(), r, s, m);
            drop(w);
            self.w.borrow_mut().v("Y02", "visible-window", t);
        } else {
            w.acc.add("window_samples", 1);
        }
    }

    /// true: progress
    fn do_read(&mut self, cx: &mut Context) -> bool {
        let n = self.rng.rus(1, self.max_read);
        let mut buf = vec![0u8; n];
        let r = Pin::new(self.h.as_mut().unwrap()).poll_read(cx, &mut buf);
        let dir = self.inn();
        let key = self.key;
        let name = self.name();
        match r {
            Poll::Pending => false,
            Poll::Ready(Ok(n)) => {
                let mut w = self.w.borrow_mut();
                let seed = w.seed;
                if n == 0 {
                    w.v("Y01", "zero-read", format!("{}: read returned 0 bytes", name));
                    self.read_done = true;
                    return true;
                }
                let want = bytes_at(seed, key, dir, self.read, n);
                // bytes injected by the scenario may end up as data of a frame being received
                if want[..] != buf[..n] && w.only != Some("Y08") {
                    let i = (0..n).find(|i| want[*i] != buf[*i]).unwrap();
                    let (b, e) = (buf[i], want[i]);
                    {
                        w.v("Y01", "wrong-byte", format!("{}: byte {} is {:#x}, written was {:#x}", name, self.read + i as u64, b, e));
                        self.read_done = true;
                        return true;
                    }
                }
                self.read += n as u64;
                w.progress += 1;
                w.acc.add("bytes_read", n as u64);
                w.acc.add("reads", 1);
                let written = {
                    let d = &mut w.streams.get_mut(&key).unwrap()[dir];
                    d.read = self.read;
                    d.written
                };
                if self.read > written && w.only != Some("Y08") {
                    let t = format!("{}: read {} bytes, only {} were written", name, self.read, written);
                    w.v("Y01", "too-many", t);
                }
                true
            }
            Poll::Ready(Err(e)) => {
                let mut w = self.w.borrow_mut();
                w.progress += 1;
                let ended = w.ended();
                let d = w.streams.get_mut(&key).unwrap();
                let peer = d[dir].clone();
                let me = d[1 - dir].clone();
                d[dir].err = true;
                if e.kind() == io::ErrorKind::UnexpectedEof {
                    d[dir].eof = true;
                }
                self.read_done = true;
                if ended || me.shut {
                    w.acc.add("ends_with_session", 1);
                } else if peer.shut {
                    w.acc.add("eof_seen", 1);
                    if e.kind() != io::ErrorKind::UnexpectedEof {
                        w.v("Y07", "close-kind", format!("{}: the peer closed, reading ended with {:?}", name, e.kind()));
                    }
                    if self.read != peer.written {
                        let t = format!("{}: end of stream after {} of {} bytes", name, self.read, peer.written);
                        w.v("Y01", "lost-tail", t.clone());
                        w.v("Y07", "lost-tail", t);
                    }
                } else if peer.dropped {
                    w.acc.add("reset_seen", 1);
                    if e.kind() == io::ErrorKind::UnexpectedEof {
                        w.v("Y07", "reset-as-eof", format!("{}: the peer dropped the stream, reading reported end of file", name));
                    }
                } else {
                    let t = format!("{}: reading failed with {:?} although nobody closed", name, e.kind());
                    w.v("Y07", "spurious-end", t);
                }
                true
            }
        }
    }

    fn do_write(&mut self, cx: &mut Context) -> bool {
        let out = self.out();
        let total = self.plan.total[out];
        let left = total - self.wrote;
        let mut n = self.rng.rus(1, self.max_write).min(left as usize);
        if n > 0 && self.rng.chance(1, 40) {
            n = 0;
        }
        let seed = self.w.borrow().seed;
        let buf = bytes_at(seed, self.key, out, self.wrote, n);
        let r = Pin::new(self.h.as_mut().unwrap()).poll_write(cx, &buf);
        let key = self.key;
        let name = self.name();
        match r {
            Poll::Pending => {
                let mut w = self.w.borrow_mut();
                w.acc.add("write_pending", 1);
                false
            }
            Poll::Ready(Ok(k)) => {
                if k > n {
                    self.w.borrow_mut().v("Y01", "write-count", format!("{}: write of {} returned {}", name, n, k));
                }
                self.wrote += k as u64;
                let mut w = self.w.borrow_mut();
                w.progress += 1;
                w.acc.add("bytes_written", k as u64);
                let d = &mut w.streams.get_mut(&key).unwrap()[out];
                d.written = self.wrote;
                if n > 0 && k == 0 {
                    w.v("Y04", "zero-write", format!("{}: write of {} bytes returned 0", name, n));
                    self.write_done = true;
                }
                true
            }
            Poll::Ready(Err(e)) => {
                let mut w = self.w.borrow_mut();
                w.progress += 1;
                let ended = w.ended();
                let d = w.streams[&key].clone();
                let peer = &d[1 - out];
                if !(ended || peer.shut || peer.dropped || d[out].shut) {
                    w.v("Y07", "spurious-write-error", format!("{}: writing failed with {:?} although nobody closed", name, e.kind()));
                }
                w.acc.add("write_errors", 1);
                self.write_done = true;
                true
            }
        }
    }

    fn shutdown(&mut self, cx: &mut Context) {
        let out = self.out();
        let r = Pin::new(self.h.as_mut().unwrap()).poll_shutdown(cx);
        let name = self.name();
        let ended = {
            let mut w = self.w.borrow_mut();
            w.streams.get_mut(&self.key).unwrap()[out].shut = true;
            w.acc.add("closes", 1);
            w.progress += 1;
            w.ended()
        };
        self.shut = true;
        self.write_done = true;
        if let Poll::Ready(Err(_)) = r {
            if !ended {
                self.w.borrow_mut().v("Y07", "close-failed", format!("{}: close failed on a live session", name));
            }
        }
        // writing after closing fails
        match Pin::new(self.h.as_mut().unwrap()).poll_write(cx, &[1]) {
            Poll::Ready(Err(_)) => self.w.borrow_mut().acc.add("write_after_close_refused", 1),
            x => self.w.borrow_mut().v("Y07", "write-after-close", format!("{}: write after close returned {:?}", name, x)),
        }
    }

    fn finish(&mut self) {
        let out = self.out();
        let h = self.h.take().unwrap();
        let mut w = self.w.borrow_mut();
        w.tasks_open -= 1;
        w.progress += 1;
        if !self.stalled {
            w.finished_unstalled += 1;
        }
        w.streams.get_mut(&self.key).unwrap()[out].done = true;
        if self.plan.mode == Mode::Hold && !self.read_done {
            w.held.push(h);
        } else {
            w.streams.get_mut(&self.key).unwrap()[out].dropped = true;
            drop(w);
            drop(h);
        }
    }

    fn run(&mut self, cx: &mut Context) -> bool {
        let role = self.role() as u8;
        for _ in 0..6 {
            let mut progress = false;
            let total_out = self.plan.total[self.out()];
            let total_in = self.plan.total[self.inn()];
            if !self.write_done && self.wrote == total_out {
                self.write_done = true;
            }
            // the end of this stream
            if self.plan.actor == role && !self.shut && !self.read_done {
                match self.plan.mode {
                    Mode::Orderly if self.write_done && self.read == total_in => {
                        self.shutdown(cx);
                        progress = true;
                    }
                    Mode::Early if self.write_done && self.wrote == total_out => {
                        self.shutdown(cx);
                        progress = true;
                        if self.rng.chance(1, 3) {
                            self.finish();
                            return true;
                        }
                    }
                    Mode::Drop if self.wrote + self.read >= self.plan.drop_at => {
                        self.w.borrow_mut().acc.add("drops", 1);
                        self.finish();
                        return true;
                    }
                    _ => {}
                }
            }
            if self.read_done && !self.write_done && self.halves.is_some() {
                // the writing task finds out on its own
                let k = match self.half(1, cx) {
                    Some(w) => {
                        let p = self.do_write(&mut Context::from_waker(&w));
                        if p {
                            self.again(1);
                        }
                        p
                    }
                    None => false,
                };
                self.w.borrow_mut().acc.add("separate_writers", 1);
                if !k {
                    return false;
                }
                if !self.write_done && self.wrote < total_out {
                    continue;
                }
            }
            if self.read_done {
                // after the end was seen, writing must fail too
                if !self.shut {
                    let name = self.name();
                    if let Poll::Ready(Ok(_)) = Pin::new(self.h.as_mut().unwrap()).poll_write(cx, &[1]) {
                        let ended = self.w.borrow().ended();
                        if !ended {
                            self.w.borrow_mut().v("Y07", "write-after-end", format!("{}: write succeeds after the stream ended", name));
                        }
                    }
                }
                if !self.shut && self.rng.chance(1, 2) {
                    let out = self.out();
                    let _ = Pin::new(self.h.as_mut().unwrap()).poll_shutdown(cx);
                    self.w.borrow_mut().streams.get_mut(&self.key).unwrap()[out].shut = true;
                }
                self.finish();
                return true;
            }
            if self.plan.mode == Mode::Hold && self.write_done && self.read == total_in {
                self.finish();
                return true;
            }
            let can_read = !self.stalled || self.w.borrow().released;
            if !can_read {
                self.w.borrow_mut().resume.push(cx.waker().clone());
            }
            let first_read = self.rng.chance(1, 2);
            for k in 0..2 {
                if (k == 0) == first_read {
                    if can_read && !self.read_done {
                        if let Some(w) = self.half(0, cx) {
                            if self.do_read(&mut Context::from_waker(&w)) {
                                progress = true;
                                self.again(0);
                            }
                        }
                    }
                } else if !self.write_done {
                    if let Some(w) = self.half(1, cx) {
                        if self.do_write(&mut Context::from_waker(&w)) {
                            progress = true;
                            self.again(1);
                        }
                    }
                }
            }
            self.check_windows();
            if !progress {
                return false;
            }
        }
        cx.waker().wake_by_ref();
        false
    }
}

impl Future for StreamTask {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        if self.run(cx) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

pub fn accepted(w: &W, side: u8, h: StreamHandle) {
    let id = h.id();
    let opener = 1 - side;
    {
        let mut b = w.borrow_mut();
        b.progress += 1;
        b.acc.add("accepted", 1);
        if b.accepted[side as usize].contains(&id) {
            b.v("Y05", "accepted-twice", format!("side {} got stream {} twice", side, id));
        }
        if let Some(l) = b.accepted[side as usize].last().copied() {
            if id <= l {
                b.v("Y05", "accept-order", format!("side {} got stream {} after {}", side, id, l));
            }
        }
        b.accepted[side as usize].push(id);
        if side == 1 && b.special == Some(id) {
            b.held.push(h);
            return;
        }
    }
    let sp = w.borrow().spawner.clone();
    sp.spawn(format!("acc{}:{}", side, id), StreamTask::new(h, w, side, (opener, id)));
}

pub fn opened(w: &W, side: u8, h: StreamHandle) {
    let id = h.id();
    {
        let mut b = w.borrow_mut();
        b.progress += 1;
        b.acc.add("opened", 1);
        if b.opened[side as usize].contains(&id) {
            b.v("Y05", "opened-twice", format!("side {} opened stream {} twice", side, id));
        }
        if (id % 2 == 1) != (side == 0) || id == 0 {
            b.v("Y05", "parity", format!("side {} opened stream {} from the peer's id space", side, id));
        }
        b.opened[side as usize].push(id);
    }
    let sp = w.borrow().spawner.clone();
    sp.spawn(format!("open{}:{}", side, id), StreamTask::new(h, w, side, (side, id)));
}

/// polls a session to its end and drops it
pub async fn drive(w: W, side: u8, mut s: Session<Sock>) {
    loop {
        let r = futures::future::poll_fn(|cx| Pin::new(&mut s).poll_next(cx)).await;
        match r {
            Some(Ok(h)) => accepted(&w, side, h),
            Some(Err(e)) => {
                w.borrow_mut().over[side as usize] = Some(format!("error {:?}", e.kind()));
                break;
            }
            None => {
                w.borrow_mut().over[side as usize] = Some("end".into());
                break;
            }
        }
    }
    w.borrow_mut().progress += 1;
}

pub struct Setup {
    pub ex: Exec,
    pub w: W,
    pub ctl: [Control; 2],
    pub ab: Way,
    pub ba: Way,
}

pub struct Opts {
    pub cfg: Config,
    pub link: LinkCfg,
    pub max_total: u64,
    pub modes: Vec<Mode>,
    pub stall: u64,
    pub pre_open: [usize; 2],
    pub via_control: [usize; 2],
}

pub fn base_cfg(r: &mut Rng) -> Config {
    let mut c = Config::default();
    c.enable_keepalive = false;
    c.max_stream_window_size = match r.below(8) {
        0 => 1,
        1 => r.range(2, 9) as u32,
        2 => r.range(10, 100) as u32,
        3 => r.range(100, 2000) as u32,
        4 => 4096,
        _ => r.range(2000, 256 * 1024) as u32,
    };
    c
}

pub fn opts(r: &mut Rng) -> Opts {
    let cfg = base_cfg(r);
    let link = LinkCfg::random(r);
    let slow = link.cap.min(link.arrived_cap).min(link.chunk).min(link.max_write).min(link.max_read);
    let w = cfg.max_stream_window_size as u64;
    let mut max_total = if slow < 8 {
        600
    } else if slow < 64 {
        3000
    } else {
        *r.pick(&[0, 10, 300, 2000, 2000, 20_000])
    };
    // let a good part of the cases cross the window several times, within reason
    let big = r.chance(1, 4) && w > max_total && slow >= 500;
    if big {
        max_total = (w * 3).min(150_000);
    }
    if w < 16 {
        max_total = max_total.min(w * 60);
    }
    let n = if big { 2 } else { 6 };
    Opts {
        cfg,
        link,
        max_total,
        modes: vec![Mode::Orderly, Mode::Early, Mode::Drop, Mode::Hold],
        stall: *r.pick(&[0, 0, 3]),
        pre_open: [r.us(n), if r.chance(1, 2) { r.us(n) } else { 0 }],
        via_control: [r.us(n), if r.chance(1, 2) { r.us(n) } else { 0 }],
    }
}

pub fn setup(seed: u64, r: &mut Rng, o: Opts) -> Setup {
    let (s, mut ss) = setup_parts(seed, r, o);
    let sb = ss.pop().unwrap();
    let sa = ss.pop().unwrap();
    s.ex.spawn("session0", drive(s.w.clone(), 0, sa));
    s.ex.spawn("session1", drive(s.w.clone(), 1, sb));
    s
}

pub fn setup_parts(seed: u64, r: &mut Rng, o: Opts) -> (Setup, Vec<Session<Sock>>) {
    let mut ex = Exec::new(r.fork());
    if r.chance(1, 5) {
        ex.spurious = *r.pick(&[10, 60]);
    }
    let (a, b, ab, ba) = link::pair(&o.link, r);
    ex.actor(Rc::new(ab.clone()));
    ex.actor(Rc::new(ba.clone()));
    let win = u64::from(o.cfg.max_stream_window_size);
    let w: W = Rc::new(RefCell::new(World {
        seed,
        cfg: o.cfg,
        streams: BTreeMap::new(),
        opened: [vec![], vec![]],
        accepted: [vec![], vec![]],
        open_err: [0, 0],
        over: [None, None],
        fault: false,
        viol: vec![],
        progress: 0,
        tasks_open: 0,
        held: vec![],
        released: false,
        resume: vec![],
        acc: Acc::default(),
        spawner: ex.spawner(),
        max_total: o.max_total,
        modes: o.modes.clone(),
        stall: o.stall,
        mon: [Monitor::new(0, win), Monitor::new(1, win)],
        ways: Some((ab.clone(), ba.clone())),
        finished_unstalled: 0,
        stalled: 0,
        special: None,
        only: None,
    }));
    let mut sa = Session::new_client(a, o.cfg);
    let mut sb = Session::new_server(b, o.cfg);
    for _ in 0..o.pre_open[0] {
        opened(&w, 0, sa.open_stream().expect("open on a fresh session"));
    }
    for _ in 0..o.pre_open[1] {
        opened(&w, 1, sb.open_stream().expect("open on a fresh session"));
    }
    let ctl = [sa.control(), sb.control()];
    for side in 0..2u8 {
        for i in 0..o.via_control[side as usize] {
            let w = w.clone();
            let mut c = ctl[side as usize].clone();
            w.borrow_mut().tasks_open += 1;
            let ww = w.clone();
            ex.spawn(format!("ctl{}:{}", side, i), async move {
                let r = c.open_stream().await;
                {
                    let mut b = ww.borrow_mut();
                    b.tasks_open -= 1;
                    b.progress += 1;
                }
                match r {
                    Ok(h) => opened(&ww, side, h),
                    Err(e) => {
                        let mut b = ww.borrow_mut();
                        b.open_err[side as usize] += 1;
                        if !b.ended() {
                            b.v("Y04", "open-failed", format!("side {}: open failed with {} on a live session", side, e));
                        }
                    }
                }
            });
        }
    }
    (Setup { ex, w, ctl, ab, ba }, vec![sa, sb])
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum RunEnd {
    Goal,
    Quiescent,
    Live,
    TooLong,
}

/// Run to the goal or quiescence, with the monitors after every step.
pub async fn run(ex: &mut Exec, w: &W, mut goal: impl FnMut(&World) -> bool) -> RunEnd {
    let mut last = w.borrow().progress;
    let mut same = 0;
    let mut chunks = 0;
    loop {
        let ww = w.clone();
        let g = &mut goal;
        let stop = ex
            .run(50_000, || {
                ww.borrow_mut().observe();
                let b = ww.borrow();
                !b.viol.is_empty() || g(&b)
            })
            .await;
        w.borrow_mut().observe();
        match stop {
            vcommon::exec::Stop::Goal => return RunEnd::Goal,
            vcommon::exec::Stop::Quiescent => return RunEnd::Quiescent,
            vcommon::exec::Stop::Steps => {}
        }
        let (p, moved) = {
            let b = w.borrow();
            (b.progress, b.ways.as_ref().map(|(x, y)| x.0.borrow().moved + y.0.borrow().moved).unwrap_or(0))
        };
        let p = p + moved;
        if p == last {
            same += 1;
            if same >= 6 {
                return RunEnd::Live;
            }
        } else {
            same = 0;
            last = p;
        }
        chunks += 1;
        if chunks > 16 {
            return RunEnd::TooLong;
        }
    }
}
