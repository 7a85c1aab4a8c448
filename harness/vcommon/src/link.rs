//! In-memory duplex connection with random fragmentation, back pressure, buffering until
//! flush, spurious not-ready results and cuts. Both directions are recorded.
use crate::{exec::Actor, rng::Rng};
use std::{
    cell::RefCell,
    collections::VecDeque,
    io,
    mem::MaybeUninit,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll, Waker},
};
use tokio::io::{AsyncRead, AsyncWrite};

#[derive(Clone, Debug)]
pub struct LinkCfg {
    /// capacity in flight per direction
    pub cap: usize,
    /// capacity on the receiving side before it stops taking bytes
    pub arrived_cap: usize,
    /// bytes wait in the sender until flush
    pub buffered: bool,
    /// 1 in n calls returns not-ready and wakes at once (0 = never)
    pub spurious: u64,
    /// largest chunk moved by one step
    pub chunk: usize,
    /// largest amount taken by one write call
    pub max_write: usize,
    /// largest amount returned by one read call
    pub max_read: usize,
}

impl LinkCfg {
    pub fn random(r: &mut Rng) -> LinkCfg {
        let cap = *r.pick(&[1, 3, 12, 13, 40, 300, 4096, 65536, 1 << 20]);
        LinkCfg {
            cap,
            arrived_cap: *r.pick(&[1, 5, 12, 30, 500, 8192, 1 << 20]),
            buffered: r.chance(1, 3),
            spurious: *r.pick(&[0, 0, 4, 15]),
            chunk: *r.pick(&[1, 7, 64, 2000, 1 << 20]),
            max_write: *r.pick(&[1, 11, 100, 5000, 1 << 20]),
            max_read: *r.pick(&[1, 13, 120, 9000, 1 << 20]),
        }
    }
    pub fn fast() -> LinkCfg {
        LinkCfg {
            cap: 1 << 20,
            arrived_cap: 1 << 20,
            buffered: false,
            spurious: 0,
            chunk: 1 << 20,
            max_write: 1 << 20,
            max_read: 1 << 20,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Open,
    /// orderly end of the byte stream
    Eof,
    /// connection error
    Reset,
}

pub struct Dir {
    pub staged: VecDeque<u8>,
    pub inflight: VecDeque<u8>,
    pub arrived: VecDeque<u8>,
    /// everything ever accepted from the writer
    pub sent: Vec<u8>,
    /// number of bytes handed to the reader
    pub taken: u64,
    pub end: End,
    /// reader gone: writes fail
    pub dead: bool,
    pub read_waker: Option<Waker>,
    pub write_waker: Option<Waker>,
    /// the transport stops moving bytes
    pub frozen: bool,
    /// close after that many bytes arrived
    pub cut_at: Option<(u64, End)>,
    pub moved: u64,
    pub reads: u64,
    pub writes: u64,
    cfg: LinkCfg,
    rng: Rng,
}

impl Dir {
    fn wake_r(&mut self) {
        if let Some(w) = self.read_waker.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.write_waker.take() {
            w.wake()
        }
    }
    fn finish(&mut self, e: End) {
        self.end = e;
        self.dead = true;
        self.inflight.clear();
        self.staged.clear();
        self.wake_r();
        self.wake_w();
    }
    fn unstage(&mut self) {
        let room = self.cfg.cap.saturating_sub(self.inflight.len());
        let n = room.min(self.staged.len());
        self.inflight.extend(self.staged.drain(..n));
    }
}

#[derive(Clone)]
pub struct Way(pub Rc<RefCell<Dir>>);

impl Way {
    fn new(cfg: LinkCfg, rng: Rng) -> Way {
        Way(Rc::new(RefCell::new(Dir {
            staged: VecDeque::new(),
            inflight: VecDeque::new(),
            arrived: VecDeque::new(),
            sent: Vec::new(),
            taken: 0,
            end: End::Open,
            dead: false,
            read_waker: None,
            write_waker: None,
            frozen: false,
            cut_at: None,
            moved: 0,
            reads: 0,
            writes: 0,
            cfg,
            rng,
        })))
    }
    pub fn cut(&self, e: End) {
        self.0.borrow_mut().finish(e)
    }
    pub fn freeze(&self, f: bool) {
        self.0.borrow_mut().frozen = f
    }
    /// bytes accepted so far
    pub fn sent_len(&self) -> usize {
        self.0.borrow().sent.len()
    }
    pub fn taken(&self) -> u64 {
        self.0.borrow().taken
    }
    pub fn with_sent<R>(&self, f: impl FnOnce(&[u8]) -> R) -> R {
        f(&self.0.borrow().sent)
    }
    /// change the behaviour of the link
    pub fn set_cfg(&self, cfg: LinkCfg) {
        let mut d = self.0.borrow_mut();
        d.cfg = cfg;
        d.wake_w();
        d.wake_r();
    }
    /// bytes a scripted peer puts on the wire, ignoring capacity
    pub fn inject(&self, data: &[u8]) {
        let mut d = self.0.borrow_mut();
        if d.dead {
            return;
        }
        d.sent.extend_from_slice(data);
        d.inflight.extend(data.iter());
    }
    /// scripted reader: take everything that arrived
    pub fn drain(&self) -> Vec<u8> {
        let mut d = self.0.borrow_mut();
        let v: Vec<u8> = d.arrived.drain(..).collect();
        d.taken += v.len() as u64;
        v
    }
    pub fn on_arrival(&self, w: &Waker) {
        self.0.borrow_mut().read_waker = Some(w.clone());
    }
    pub fn is_ended(&self) -> bool {
        let d = self.0.borrow();
        d.end != End::Open && d.arrived.is_empty() && d.inflight.is_empty()
    }
    pub fn idle(&self) -> bool {
        let d = self.0.borrow();
        d.arrived.is_empty() && d.inflight.is_empty() && d.staged.is_empty()
    }
}

impl Actor for Way {
    fn enabled(&self) -> bool {
        let d = self.0.borrow();
        !d.frozen
            && !d.inflight.is_empty()
            && (d.arrived.len() < d.cfg.arrived_cap || d.dead)
    }
    fn step(&self, rng: &mut Rng) {
        let mut d = self.0.borrow_mut();
        let room = d.cfg.arrived_cap.saturating_sub(d.arrived.len());
        let mx = d.inflight.len().min(room).min(d.cfg.chunk);
        if mx == 0 {
            return;
        }
        let mut n = if rng.chance(1, 2) { mx } else { rng.rus(1, mx) };
        if let Some((at, _)) = d.cut_at {
            let left = at.saturating_sub(d.moved) as usize;
            n = n.min(left);
        }
        let moved: Vec<u8> = d.inflight.drain(..n).collect();
        d.arrived.extend(moved);
        d.moved += n as u64;
        if d.staged.is_empty() || d.cfg.buffered {
            d.wake_w();
        }
        d.wake_r();
        if let Some((at, e)) = d.cut_at {
            if d.moved >= at {
                d.finish(e);
            }
        }
    }
}

pub struct Sock {
    pub rx: Way,
    pub tx: Way,
}

// the sockets of a case never leave the thread that runs it
unsafe impl Send for Sock {}

/// (a, b, a->b, b->a)
pub fn pair(cfg: &LinkCfg, r: &mut Rng) -> (Sock, Sock, Way, Way) {
    let ab = Way::new(cfg.clone(), r.fork());
    let ba = Way::new(cfg.clone(), r.fork());
    (
        Sock { rx: ba.clone(), tx: ab.clone() },
        Sock { rx: ab.clone(), tx: ba.clone() },
        ab,
        ba,
    )
}

impl AsyncRead for Sock {
    unsafe fn prepare_uninitialized_buffer(&self, _b: &mut [MaybeUninit<u8>]) -> bool {
        false
    }
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let mut d = self.rx.0.borrow_mut();
        d.reads += 1;
        let sp = d.cfg.spurious;
        if sp > 0 && d.rng.chance(1, sp) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if d.arrived.is_empty() {
            return match d.end {
                End::Eof if d.inflight.is_empty() => Poll::Ready(Ok(0)),
                End::Reset => Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())),
                _ => {
                    d.read_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            };
        }
        let mx = buf.len().min(d.arrived.len()).min(d.cfg.max_read);
        if mx == 0 {
            return Poll::Ready(Ok(0));
        }
        let n = if d.rng.chance(1, 2) { mx } else { d.rng.rus(1, mx) };
        for (i, b) in d.arrived.drain(..n).enumerate() {
            buf[i] = b;
        }
        d.taken += n as u64;
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut d = self.tx.0.borrow_mut();
        d.writes += 1;
        let sp = d.cfg.spurious;
        if sp > 0 && d.rng.chance(1, sp) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if d.dead || d.end != End::Open {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = if d.cfg.buffered {
            if d.staged.len() >= d.cfg.cap {
                d.unstage();
            }
            d.cfg.cap.saturating_sub(d.staged.len())
        } else {
            d.cfg.cap.saturating_sub(d.inflight.len())
        };
        if room == 0 {
            d.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mx = room.min(buf.len()).min(d.cfg.max_write);
        let n = if d.rng.chance(1, 2) { mx } else { d.rng.rus(1, mx) };
        d.sent.extend_from_slice(&buf[..n]);
        if d.cfg.buffered {
            d.staged.extend(buf[..n].iter());
        } else {
            d.inflight.extend(buf[..n].iter());
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        let mut d = self.tx.0.borrow_mut();
        if d.dead || d.end != End::Open {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let sp = d.cfg.spurious;
        if sp > 0 && d.rng.chance(1, sp) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        d.unstage();
        if d.staged.is_empty() {
            Poll::Ready(Ok(()))
        } else {
            d.write_waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        let mut d = self.tx.0.borrow_mut();
        if d.dead || d.end != End::Open {
            return Poll::Ready(Ok(()));
        }
        d.unstage();
        if !d.staged.is_empty() {
            d.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        d.end = End::Eof;
        d.wake_r();
        Poll::Ready(Ok(()))
    }
}

impl Drop for Sock {
    fn drop(&mut self) {
        // what was flushed still arrives, then end of stream; the other side cannot write
        {
            let mut d = self.tx.0.borrow_mut();
            if d.end == End::Open {
                d.unstage();
                let rest: Vec<u8> = d.staged.drain(..).collect();
                d.inflight.extend(rest);
                d.end = End::Eof;
            }
            d.wake_r();
        }
        let mut d = self.rx.0.borrow_mut();
        d.dead = true;
        d.inflight.clear();
        d.staged.clear();
        d.wake_w();
    }
}
