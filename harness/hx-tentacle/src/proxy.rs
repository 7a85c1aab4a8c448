//! TCP relay with planned and driven faults, one per dialled address.
use std::{
    net::SocketAddr,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering},
        Arc, Mutex, Once,
    },
    time::Duration,
};
use tentacle::multiaddr::Multiaddr;
use tentacle::utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr};
use tokio::{
    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    runtime::{Handle, Runtime},
    time::delay_for,
};
use vcommon::Rng;

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// largest piece forwarded at once, 0 as read
    pub chunk: usize,
    /// pause before a piece, with that probability in 1/100
    pub delay_us: u64,
    pub delay_pct: u64,
    /// cut the connection after that many bytes of this direction
    pub cut_at: Option<u64>,
    pub stall_at: Option<u64>,
    pub flip_at: Option<u64>,
    pub rst: bool,
    /// collects what comes in that time and forwards it at once
    pub gather_us: u64,
}

impl Plan {
    pub fn clean(r: &mut Rng) -> Plan {
        if r.chance(1, 4) {
            return Plan { gather_us: r.range(1000, 10_000), ..Plan::default() };
        }
        Plan {
            chunk: *r.pick(&[0usize, 0, 1000, 77, 9, 4096, 30_000]),
            delay_us: r.range(10, 1500),
            delay_pct: *r.pick(&[0u64, 0, 2, 20]),
            ..Plan::default()
        }
    }
}

/// tiny pieces and frequent pauses only so far, or a case takes forever
const SLOW_BYTES: u64 = 12_000;

pub struct Proxy {
    pub addr: Multiaddr,
    pub sock: SocketAddr,
    inner: Arc<Inner>,
}

struct Inner {
    stall: AtomicBool,
    /// 0 run, 1 close, 2 reset; bumped generation below
    how: AtomicU8,
    gen: AtomicU64,
    refuse: AtomicBool,
    conns: AtomicUsize,
    live: AtomicUsize,
    bytes: [AtomicU64; 2],
    over: AtomicBool,
    target: Mutex<SocketAddr>,
    faults: AtomicUsize,
}

pub fn harness_rt() -> Handle {
    static mut RT: Option<Runtime> = None;
    static ON: Once = Once::new();
    static H: Mutex<Option<Handle>> = Mutex::new(None);
    ON.call_once(|| {
        let rt = crate::net::quiet_runtime(4);
        *H.lock().unwrap() = Some(rt.handle().clone());
        unsafe { RT = Some(rt) };
    });
    H.lock().unwrap().clone().unwrap()
}

async fn pump<R: AsyncRead + Unpin, W: AsyncWrite + Unpin>(
    mut r: R,
    mut w: W,
    plan: Plan,
    mut rng: Rng,
    inner: Arc<Inner>,
    dir: usize,
) -> Result<(), ()> {
    let mut buf = vec![0u8; 64 * 1024];
    let mut at = 0u64;
    loop {
        let want = match plan.chunk {
            0 => buf.len(),
            n if n < 1000 && at > SLOW_BYTES => rng.rus(1, 3000),
            n => rng.rus(1, n),
        };
        if plan.gather_us > 0 && at < SLOW_BYTES {
            delay_for(Duration::from_micros(plan.gather_us)).await;
        }
        let n = match r.read(&mut buf[..want]).await {
            Ok(0) => {
                let _ = w.shutdown().await;
                return Ok(());
            }
            Ok(n) => n,
            Err(_) => return Err(()),
        };
        while inner.stall.load(Ordering::SeqCst) {
            delay_for(Duration::from_millis(2)).await;
        }
        if plan.stall_at.map_or(false, |s| at + n as u64 > s) {
            inner.faults.fetch_add(1, Ordering::SeqCst);
            futures::future::pending::<()>().await;
        }
        if rng.below(100) < if at > SLOW_BYTES { plan.delay_pct.min(2) } else { plan.delay_pct } {
            delay_for(Duration::from_micros(plan.delay_us)).await;
        }
        let mut n = n;
        let mut cut = false;
        if let Some(c) = plan.cut_at {
            if at + n as u64 > c {
                n = (c - at) as usize;
                cut = true;
            }
        }
        if let Some(f) = plan.flip_at {
            if f >= at && f < at + n as u64 {
                buf[(f - at) as usize] ^= 1 << rng.below(8);
                inner.faults.fetch_add(1, Ordering::SeqCst);
            }
        }
        if w.write_all(&buf[..n]).await.is_err() {
            return Err(());
        }
        let _ = w.flush().await;
        at += n as u64;
        inner.bytes[dir].fetch_add(n as u64, Ordering::SeqCst);
        if cut {
            inner.faults.fetch_add(1, Ordering::SeqCst);
            return Err(());
        }
    }
}

impl Proxy {
    /// `plans` gives the plan of each direction (to the target, from the target) per connection
    pub fn new(r: &mut Rng, target: &Multiaddr, plans: impl Fn(&mut Rng, usize) -> (Plan, Plan) + Send + 'static) -> Proxy {
        let t = multiaddr_to_socketaddr(target).unwrap();
        let inner = Arc::new(Inner {
            stall: AtomicBool::new(false),
            how: AtomicU8::new(0),
            gen: AtomicU64::new(0),
            refuse: AtomicBool::new(false),
            conns: AtomicUsize::new(0),
            live: AtomicUsize::new(0),
            bytes: [AtomicU64::new(0), AtomicU64::new(0)],
            over: AtomicBool::new(false),
            target: Mutex::new(t),
            faults: AtomicUsize::new(0),
        });
        let ip = format!("127.{}.{}.{}:0", r.range(1, 250), r.range(1, 250), r.range(1, 250));
        let l = std::net::TcpListener::bind(ip).unwrap();
        let sock = l.local_addr().unwrap();
        let mut rng = r.fork();
        let i = inner.clone();
        let h = harness_rt();
        h.spawn(async move {
            l.set_nonblocking(true).unwrap();
            let mut l = TcpListener::from_std(l).unwrap();
            loop {
                if i.over.load(Ordering::SeqCst) {
                    return;
                }
                let s = match tokio::time::timeout(Duration::from_millis(20), l.accept()).await {
                    Ok(Ok((s, _))) => s,
                    _ => continue,
                };
                let k = i.conns.fetch_add(1, Ordering::SeqCst);
                if i.refuse.load(Ordering::SeqCst) {
                    continue;
                }
                let (pa, pb) = plans(&mut rng, k);
                let (ra, rb) = (rng.fork(), rng.fork());
                let i = i.clone();
                let gen = i.gen.load(Ordering::SeqCst);
                tokio::spawn(async move {
                    let to = *i.target.lock().unwrap();
                    let d = match TcpStream::connect(to).await {
                        Ok(d) => d,
                        Err(_) => return,
                    };
                    let _ = s.set_nodelay(true);
                    let _ = d.set_nodelay(true);
                    let rst = pa.rst || pb.rst;
                    if rst {
                        let _ = s.set_linger(Some(Duration::from_secs(0)));
                        let _ = d.set_linger(Some(Duration::from_secs(0)));
                    }
                    i.live.fetch_add(1, Ordering::SeqCst);
                    let (mut s, mut d) = (s, d);
                    let how = {
                        let (sr, sw) = s.split();
                        let (dr, dw) = d.split();
                        let a = pump(sr, dw, pa, ra, i.clone(), 0);
                        let b = pump(dr, sw, pb, rb, i.clone(), 1);
                        let i2 = i.clone();
                        let k = async move {
                            loop {
                                if i2.over.load(Ordering::SeqCst) {
                                    return 2u8;
                                }
                                if i2.gen.load(Ordering::SeqCst) != gen {
                                    return i2.how.load(Ordering::SeqCst);
                                }
                                delay_for(Duration::from_millis(2)).await;
                            }
                        };
                        let both = futures::future::try_join(a, b);
                        futures::pin_mut!(both);
                        futures::pin_mut!(k);
                        match futures::future::select(both, k).await {
                            futures::future::Either::Left(_) => 0,
                            futures::future::Either::Right((h, _)) => h,
                        }
                    };
                    if how == 2 {
                        let _ = s.set_linger(Some(Duration::from_secs(0)));
                        let _ = d.set_linger(Some(Duration::from_secs(0)));
                    }
                    drop(s);
                    drop(d);
                    i.live.fetch_sub(1, Ordering::SeqCst);
                });
            }
        });
        let mut addr = socketaddr_to_multiaddr(sock);
        if target.iter().any(|p| p == tentacle::multiaddr::Protocol::Ws) {
            addr.push(tentacle::multiaddr::Protocol::Ws);
        }
        Proxy { addr, sock, inner }
    }
    pub fn stall(&self, on: bool) {
        self.inner.stall.store(on, Ordering::SeqCst);
    }
    /// ends all connections there are now
    pub fn cut(&self, rst: bool) {
        self.inner.how.store(if rst { 2 } else { 1 }, Ordering::SeqCst);
        self.inner.gen.fetch_add(1, Ordering::SeqCst);
    }
    pub fn refuse(&self, on: bool) {
        self.inner.refuse.store(on, Ordering::SeqCst);
    }
    pub fn retarget(&self, t: &Multiaddr) {
        *self.inner.target.lock().unwrap() = multiaddr_to_socketaddr(t).unwrap();
    }
    pub fn conns(&self) -> usize {
        self.inner.conns.load(Ordering::SeqCst)
    }
    pub fn live(&self) -> usize {
        self.inner.live.load(Ordering::SeqCst)
    }
    pub fn bytes(&self, dir: usize) -> u64 {
        self.inner.bytes[dir].load(Ordering::SeqCst)
    }
    pub fn faults(&self) -> usize {
        self.inner.faults.load(Ordering::SeqCst)
    }
}

impl Drop for Proxy {
    fn drop(&mut self) {
        self.inner.over.store(true, Ordering::SeqCst);
    }
}
