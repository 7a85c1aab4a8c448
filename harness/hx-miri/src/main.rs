//! Small threaded uses of the channel, run under Miri: one schedule, one set of weak-memory
//! outcomes and one program per seed. Miri stops the program on a data race, an access to freed
//! memory, a double free, a broken aliasing rule or a leak.
#[path = "/repo/tentacle/src/channel/mod.rs"]
#[allow(dead_code, deprecated)]
mod channel;

use channel::{
    mpsc::{channel, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender},
    QuickSinkExt,
};
use futures::{task::ArcWake, Sink, SinkExt, Stream};
use std::{
    future::Future,
    hash::{BuildHasher, Hasher},
    pin::Pin,
    sync::{atomic::{AtomicUsize, Ordering}, Arc},
    task::{Context, Poll},
    thread,
};

struct Park(thread::Thread);
impl ArcWake for Park {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.unpark()
    }
}

fn wait<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = futures::task::waker(Arc::new(Park(thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        thread::park();
    }
}

static MADE: AtomicUsize = AtomicUsize::new(0);
static GONE: AtomicUsize = AtomicUsize::new(0);

/// owns heap memory, so that a lost or doubly destroyed message is seen
struct Msg(Box<u64>);
impl Msg {
    fn new(v: u64) -> Msg {
        MADE.fetch_add(1, Ordering::Relaxed);
        Msg(Box::new(v))
    }
}
impl Drop for Msg {
    fn drop(&mut self) {
        assert!(*self.0 < 1000);
        GONE.fetch_add(1, Ordering::Relaxed);
    }
}

struct R(u64);
impl R {
    fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % n
    }
}

enum Tx {
    B(Sender<Msg>),
    U(UnboundedSender<Msg>),
}
impl Clone for Tx {
    fn clone(&self) -> Tx {
        match self {
            Tx::B(s) => Tx::B(s.clone()),
            Tx::U(s) => Tx::U(s.clone()),
        }
    }
}
enum Rx {
    B(Receiver<Msg>),
    U(UnboundedReceiver<Msg>),
}
impl Rx {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
        }
    }
    fn try_next(&mut self) -> Option<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => r.try_next().ok(),
            Rx::U(r) => r.try_next().ok(),
        }
    }
}

fn try_send(tx: &Tx, m: Msg, high: bool) {
    let _ = match (tx, high) {
        (Tx::B(s), false) => s.try_send(m),
        (Tx::B(s), true) => s.try_quick_send(m),
        (Tx::U(s), false) => s.unbounded_send(m),
        (Tx::U(s), true) => s.unbounded_quick_send(m),
    };
}

fn sender(mut tx: Tx, mut r: R, n: u64) {
    for i in 0..n {
        let high = r.below(2) == 0;
        match r.below(8) {
            0..=3 => try_send(&tx, Msg::new(i), high),
            4 | 5 => {
                let m = Msg::new(i);
                let _ = match (&mut tx, high) {
                    (Tx::B(s), false) => wait(s.send(m)),
                    (Tx::B(s), true) => wait(s.quick_send(m)),
                    (Tx::U(s), false) => wait(s.send(m)),
                    (Tx::U(s), true) => wait(s.quick_send(m)),
                };
            }
            6 => drop(tx.clone()),
            _ => {
                if r.below(4) == 0 {
                    match &mut tx {
                        Tx::B(s) => s.close_channel(),
                        Tx::U(s) => s.close_channel(),
                    }
                } else if r.below(4) == 0 {
                    let w = futures::task::noop_waker();
                    let mut cx = Context::from_waker(&w);
                    let _ = match &mut tx {
                        Tx::B(s) => Pin::new(s).poll_close(&mut cx),
                        Tx::U(s) => Pin::new(s).poll_close(&mut cx),
                    };
                }
            }
        }
    }
}

fn main() {
    // under Miri this number follows the seed
    let mut r = R(std::collections::hash_map::RandomState::new().build_hasher().finish() | 1);
    for _ in 0..4 {
        r.below(2);
    }
    let (tx, mut rx) = match r.below(3) {
        0 => {
            let (a, b) = unbounded();
            (Tx::U(a), Rx::U(b))
        }
        _ => {
            let (a, b) = channel(r.below(3) as usize);
            (Tx::B(a), Rx::B(b))
        }
    };
    let mut hs = Vec::new();
    let n = 1 + r.below(3);
    if r.below(5) == 0 {
        // one sender used by several threads through a reference
        let tx = Arc::new(tx);
        for k in 0..n {
            let (t, mut q) = (tx.clone(), R(r.0 ^ (k * 7919)));
            hs.push(thread::spawn(move || {
                for i in 0..4 {
                    let h = q.below(2) == 0;
                    try_send(&t, Msg::new(i), h);
                }
            }));
        }
    } else {
        for k in 0..n {
            let t = tx.clone();
            let (q, m) = (R(r.0 ^ (k * 104729)), 1 + r.below(5));
            hs.push(thread::spawn(move || sender(t, q, m)));
        }
        drop(tx);
    }
    let mut left = r.below(10);
    let mut ended = false;
    while left > 0 && !ended {
        left -= 1;
        match r.below(5) {
            0 | 1 => ended = wait(futures::future::poll_fn(|cx| rx.poll(cx))).is_none(),
            2 => {
                if let Some(None) = rx.try_next() {
                    ended = true
                }
            }
            3 if r.below(6) == 0 => match &mut rx {
                Rx::B(x) => x.close(),
                Rx::U(x) => x.close(),
            },
            _ => thread::yield_now(),
        }
    }
    if !ended && r.below(3) > 0 {
        while wait(futures::future::poll_fn(|cx| rx.poll(cx))).is_some() {}
    }
    drop(rx);
    for h in hs {
        if h.join().is_err() {
            eprintln!("THREAD panicked");
            std::process::exit(4);
        }
    }
    let (a, b) = (MADE.load(Ordering::Relaxed), GONE.load(Ordering::Relaxed));
    if a != b {
        eprintln!("MESSAGES made {} destroyed {}", a, b);
        std::process::exit(3);
    }
    println!("messages {}", a);
}
