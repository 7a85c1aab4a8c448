//! Real ends on monitored links, directly or through a party in the middle.
use crate::peer::frame;
use futures::future::poll_fn;
use std::{
    cell::RefCell,
    io,
    mem::MaybeUninit,
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};
use tentacle_secio::{codec::secure_stream::SecureStream, handshake::Config, PublicKey};
use tokio::io::{AsyncRead, AsyncWrite};
use vcommon::{
    exec::Exec,
    link::{self, LinkCfg, Sock, Way},
    Rng,
};

/// Everything runs on one thread.
pub struct Conn(pub Sock);
unsafe impl Send for Conn {}

impl AsyncRead for Conn {
    unsafe fn prepare_uninitialized_buffer(&self, _b: &mut [MaybeUninit<u8>]) -> bool {
        false
    }
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context, b: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}

impl AsyncWrite for Conn {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}

pub type Stream = SecureStream<Conn>;

pub enum HsRes {
    Waiting,
    Ok(Option<Stream>, PublicKey, Vec<u8>),
    Err(String),
}

impl HsRes {
    pub fn ok(&self) -> bool {
        match self {
            HsRes::Ok(..) => true,
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            HsRes::Waiting => "waiting".into(),
            HsRes::Ok(..) => "success".into(),
            HsRes::Err(e) => format!("error {}", e),
        }
    }
}

pub type Hs = Rc<RefCell<HsRes>>;

/// Start a handshake on a real end.
pub fn start(ex: &Exec, name: &str, conf: Config, s: Sock) -> Hs {
    let h: Hs = Rc::new(RefCell::new(HsRes::Waiting));
    let h2 = h.clone();
    ex.spawn(name, async move {
        let r = conf.handshake(Conn(s)).await;
        *h2.borrow_mut() = match r {
            Ok((st, k, e)) => HsRes::Ok(Some(st), k, e),
            Err(e) => HsRes::Err(format!("{:?}", e)),
        };
    });
    h
}

pub fn stream(h: &Hs) -> Option<Stream> {
    match &mut *h.borrow_mut() {
        HsRes::Ok(s, ..) => s.take(),
        _ => None,
    }
}

#[derive(Clone, Debug)]
pub enum Piece {
    Frame(Vec<u8>),
    Raw(Vec<u8>),
    Eof,
}

/// What the party in the middle does with frame number n of a direction.
pub type Op = Box<dyn FnMut(usize, Vec<u8>) -> Vec<Piece>>;

pub fn eof(w: &Way) {
    let mut d = w.0.borrow_mut();
    if d.end == link::End::Open {
        d.end = link::End::Eof;
    }
    if let Some(k) = d.read_waker.take() {
        k.wake()
    }
}

pub fn middle(ex: &Exec, name: &str, from: Way, to: Way, rec: Rc<RefCell<Vec<Vec<u8>>>>, mut op: Op) {
    ex.spawn(name, async move {
        let mut buf: Vec<u8> = vec![];
        let mut n = 0;
        let mut over = false;
        loop {
            let end = poll_fn(|cx| {
                let got = from.drain();
                if !got.is_empty() {
                    buf.extend_from_slice(&got);
                    return Poll::Ready(false);
                }
                if from.is_ended() {
                    return Poll::Ready(true);
                }
                from.on_arrival(cx.waker());
                Poll::Pending
            })
            .await;
            while buf.len() >= 4 {
                let len = u32::from_be_bytes([buf[0], buf[1], buf[2], buf[3]]) as usize;
                if buf.len() < 4 + len {
                    break;
                }
                let body: Vec<u8> = buf[4..4 + len].to_vec();
                buf.drain(..4 + len);
                rec.borrow_mut().push(body.clone());
                for p in op(n, body) {
                    if over {
                        break;
                    }
                    match p {
                        Piece::Frame(b) => to.inject(&frame(&b)),
                        Piece::Raw(b) => to.inject(&b),
                        Piece::Eof => {
                            eof(&to);
                            over = true;
                        }
                    }
                }
                n += 1;
            }
            if end {
                eof(&to);
                return;
            }
        }
    });
}

pub struct Mid {
    pub a: Sock,
    pub b: Sock,
    pub am: Way,
    pub mb: Way,
    pub bm: Way,
    pub ma: Way,
    keep: (Sock, Sock),
}

/// a <-> middle <-> b, all directions registered with the scheduler
pub fn mid(ex: &mut Exec, cfg: &LinkCfg, r: &mut Rng) -> Mid {
    let (a, m1, am, ma) = link::pair(cfg, r);
    let (m2, b, mb, bm) = link::pair(cfg, r);
    for w in &[&am, &mb, &bm, &ma] {
        ex.actor(Rc::new((*w).clone()));
    }
    Mid { a, b, am, mb, bm, ma, keep: (m1, m2) }
}

impl Mid {
    /// wire both directions; returns the recorders of frames written by a and by b
    #[allow(clippy::type_complexity)]
    pub fn wire(
        self,
        ex: &Exec,
        ab: Op,
        ba: Op,
    ) -> (Sock, Sock, Rc<RefCell<Vec<Vec<u8>>>>, Rc<RefCell<Vec<Vec<u8>>>>, (Sock, Sock)) {
        let ra = Rc::new(RefCell::new(vec![]));
        let rb = Rc::new(RefCell::new(vec![]));
        middle(ex, "a-b", self.am, self.mb, ra.clone(), ab);
        middle(ex, "b-a", self.bm, self.ma, rb.clone(), ba);
        (self.a, self.b, ra, rb, self.keep)
    }
}

pub fn pass() -> Op {
    Box::new(|_, b| vec![Piece::Frame(b)])
}

/// Which implementation of the ciphers the streams of a case use.
pub fn mix_ciphers(seed: u64) -> &'static str {
    let (p, what) = match seed % 4 {
        0 => (u32::MAX, "cases with ring ciphers"),
        1 => (vcommon::mix(seed, 99) as u32, "cases with mixed ciphers"),
        _ => (0, "cases with openssl ciphers"),
    };
    tentacle_secio::verif_hooks::set_ring(p);
    what
}
