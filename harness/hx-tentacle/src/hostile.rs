//! T08: peers that do not behave.
use crate::{judge::R, mesh::*, net::*, proxy::harness_rt, traffic::wrap, ws::frame};
use std::{
    collections::HashMap,
    net::SocketAddr,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    secio::handshake::Config,
    service::TargetProtocol,
    utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use tokio::{
    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    time::delay_for,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng, Verdict};

// ---------------------------------------------------------------- what well-behaved peers say

/// bytes of both directions of plain sessions
type Tape = Arc<[Vec<u8>; 2]>;

fn record(seed: u64) -> R<Tape> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let log = Log::new();
    let rt = runtime(r);
    let mut nodes = vec![];
    for n in 0..2 {
        let protos = (1..=2).map(|p| ProtoCfg::new(p, Mode::Event)).collect();
        nodes.push(start(&rt, &log, n, NodeCfg { protos, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1, 2] };
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let here = l.local_addr().unwrap();
    let to = multiaddr_to_socketaddr(m.nodes[1].addr.as_ref().unwrap()).unwrap();
    let tape = Arc::new(Mutex::new([vec![], vec![]]));
    let t = tape.clone();
    harness_rt().spawn(async move {
        l.set_nonblocking(true).unwrap();
        let mut l = TcpListener::from_std(l).unwrap();
        let (mut a, _) = l.accept().await.unwrap();
        let mut b = TcpStream::connect(to).await.unwrap();
        let (mut ar, mut aw) = a.split();
        let (mut br, mut bw) = b.split();
        async fn copy<R: AsyncRead + Unpin, W: AsyncWrite + Unpin>(r: &mut R, w: &mut W, t: &Mutex<[Vec<u8>; 2]>, i: usize) {
            let mut b = [0u8; 4096];
            while let Ok(n) = r.read(&mut b).await {
                if n == 0 || w.write_all(&b[..n]).await.is_err() {
                    break;
                }
                t.lock().unwrap()[i].extend_from_slice(&b[..n]);
            }
            let _ = w.shutdown().await;
        }
        futures::future::join(copy(&mut ar, &mut bw, &t, 0), copy(&mut br, &mut aw, &t, 1)).await;
    });
    // the relay does not know which is which, so the link is made by hand
    m.nodes[0].ctl.dial(socketaddr_to_multiaddr(here), TargetProtocol::All).unwrap();
    let conn = |evs: &[Ev], n: usize| evs.iter().filter(|e| e.n == n && matches!(e.w, What::Conn { .. })).count() == 2;
    until(&m.log, "recorded session", |evs| conn(evs, 0) && conn(evs, 1))?;
    for i in 0..r.rus(2, 8) {
        let n = i % 2;
        let s = m.log.with(|evs| open_sessions(evs, n))[0];
        let h = Hdr { src: 100, high: false, p: 1, s: 0, thr: 0, seq: i as u64, len: r.range(40, 800) as u32 };
        let p = r.rus(1, 2);
        let _ = m.nodes[n].ctl.send_message_to(s.into(), pid(p), make(&h));
        std::thread::sleep(Duration::from_millis(2));
    }
    if r.chance(1, 2) {
        let s = m.log.with(|evs| open_sessions(evs, 0))[0];
        let _ = m.nodes[0].ctl.close_protocol(s.into(), pid(2));
    }
    m.log.settle(40);
    m.links.clear();
    let t = tape.lock().unwrap().clone();
    Ok(Arc::new(t))
}

fn tapes(seed: u64) -> R<Vec<Tape>> {
    static T: Mutex<Vec<Tape>> = Mutex::new(Vec::new());
    let mut t = T.lock().unwrap();
    while t.len() < 5 {
        let k = t.len() as u64;
        t.push(record(vcommon::mix(seed, k))?);
    }
    Ok(t.clone())
}

// ---------------------------------------------------------------- what the others say

#[derive(Clone)]
struct Frame {
    head: [u8; 12],
    body: Vec<u8>,
}

fn split(mut b: &[u8]) -> Vec<Frame> {
    let mut v = vec![];
    while b.len() >= 12 {
        let mut head = [0u8; 12];
        head.copy_from_slice(&b[..12]);
        let n = if head[1] == 0 { u32::from_be_bytes([b[8], b[9], b[10], b[11]]) as usize } else { 0 };
        if b.len() < 12 + n {
            break;
        }
        v.push(Frame { head, body: b[12..12 + n].to_vec() });
        b = &b[12 + n..];
    }
    v
}

fn any_frame(r: &mut Rng) -> Frame {
    let mut head = [0u8; 12];
    head[0] = if r.chance(1, 30) { r.next() as u8 } else { 0 };
    head[1] = if r.chance(1, 30) { r.next() as u8 } else { r.below(4) as u8 };
    let flags = *r.pick(&[0u16, 0, 0, 1, 1, 2, 4, 8, 3, 5, 9, 12, 15, 0x8000, 0xffff]);
    head[2..4].copy_from_slice(&flags.to_be_bytes());
    let id = *r.pick(&[0u32, 1, 1, 2, 3, 3, 4, 5, 7, 99, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]);
    head[4..8].copy_from_slice(&id.to_be_bytes());
    let mut body = vec![];
    let len = match (head[1], r.below(8)) {
        (0, 0) => *r.pick(&[0xffff_ffffu32, 0x8000_0000, 1 << 24, 300_000, 262_145]),
        (0, _) => {
            let big = r.chance(1, 5);
            let n = r.us(if big { 3000 } else { 60 });
            body = r.bytes(n);
            n as u32
        }
        _ => *r.pick(&[0u32, 1, 2, 100, 262_144, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
    };
    head[8..12].copy_from_slice(&len.to_be_bytes());
    Frame { head, body }
}

/// a stream of frames starting from a recorded one
fn script(r: &mut Rng, tapes: &[Tape], dir: usize) -> Vec<u8> {
    let t = r.pick(tapes).clone();
    let mut f = split(&t[dir]);
    match r.below(10) {
        // as it was
        0 => (),
        // and then garbage on the open streams
        8 | 9 => {
            let ids: Vec<[u8; 4]> = f.iter().filter(|x| x.head[1] == 0).map(|x| [x.head[4], x.head[5], x.head[6], x.head[7]]).collect();
            for _ in 0..r.rus(1, 5) {
                if ids.is_empty() {
                    break;
                }
                let mut x = Frame { head: [0; 12], body: garbage(r) };
                x.head[4..8].copy_from_slice(&ids[r.us(ids.len())]);
                let n = x.body.len() as u32;
                x.head[8..12].copy_from_slice(&n.to_be_bytes());
                f.push(x);
            }
        }
        // bytes
        1 | 2 => {
            let mut b = t[dir].clone();
            for _ in 0..r.rus(1, 4) {
                if b.is_empty() {
                    break;
                }
                let i = r.us(b.len());
                match r.below(4) {
                    0 => b[i] ^= 1 << r.below(8),
                    1 => b[i] = r.next() as u8,
                    2 => {
                        b.remove(i);
                    }
                    _ => b.truncate(i),
                }
            }
            return b;
        }
        // frames only
        3 => f = (0..r.rus(1, 60)).map(|_| any_frame(r)).collect(),
        // streams without end
        4 => {
            for k in 0..r.range(10, 600) as u32 {
                let mut x = Frame { head: [0; 12], body: vec![] };
                x.head[1] = 1;
                x.head[3] = 1;
                x.head[4..8].copy_from_slice(&(101 + 2 * k).to_be_bytes());
                f.push(x);
            }
        }
        5 => {
            for _ in 0..r.range(10, 3000) {
                let mut x = Frame { head: [0; 12], body: vec![] };
                x.head[1] = 2;
                x.head[3] = 1;
                x.head[11] = 7;
                f.push(x);
            }
        }
        _ => {
            for _ in 0..r.rus(1, 5) {
                if f.is_empty() {
                    break;
                }
                let i = r.us(f.len());
                match r.below(8) {
                    0 => {
                        f.remove(i);
                    }
                    1 => {
                        let x = f[i].clone();
                        f.insert(i, x);
                    }
                    2 => {
                        let j = r.us(f.len());
                        f.swap(i, j);
                    }
                    3 => f.insert(i, any_frame(r)),
                    4 => {
                        let k = r.us(12);
                        f[i].head[k] = r.next() as u8;
                    }
                    5 => {
                        // the flags
                        f[i].head[3] = r.below(16) as u8;
                    }
                    6 => {
                        let n = f[i].body.len();
                        if n > 0 {
                            // often a length field
                            let k = if r.chance(1, 2) { r.us(n.min(12)) } else { r.us(n) };
                            f[i].body[k] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff]);
                        }
                    }
                    _ => f.truncate(i),
                }
            }
        }
    }
    let mut o = vec![];
    for x in f {
        o.extend_from_slice(&x.head);
        o.extend_from_slice(&x.body);
    }
    o
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => {
            let n = r.us(3000);
            r.bytes(n)
        }
        // with a length in front
        1 => {
            let n = r.us(400);
            let mut b = (n as u32).to_be_bytes().to_vec();
            b.extend(r.bytes(n));
            if r.chance(1, 2) {
                let n = r.us(100);
                b.extend_from_slice(&(n as u32).to_be_bytes());
                b.extend(r.bytes(n));
            }
            b
        }
        2 => {
            let mut b = r.pick(&[0u32, 0xffff_ffff, 0x7fff_ffff, 1 << 30, 8 * 1024 * 1024, 8 * 1024 * 1024 + 1, 1]).to_be_bytes().to_vec();
            let n = r.us(100);
            b.extend(r.bytes(n));
            b
        }
        3 => b"GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\n\r\n".to_vec(),
        _ => vec![r.next() as u8; 1 + r.us(70_000)],
    }
}

#[derive(Clone)]
struct Foe {
    stop: Arc<AtomicBool>,
    tapes: Vec<Tape>,
    secure: bool,
    done: Arc<Mutex<HashMap<&'static str, u64>>>,
    busy: Arc<AtomicUsize>,
}

impl Foe {
    fn did(&self, what: &'static str) {
        *self.done.lock().unwrap().entry(what).or_insert(0) += 1;
    }
}

/// writes it, perhaps reading what comes
async fn say<S: AsyncRead + AsyncWrite + Unpin>(s: &mut S, b: &[u8], r: &mut Rng) {
    let piece = *r.pick(&[usize::MAX, usize::MAX, 1000, 50, 1]);
    let slow = r.chance(1, 3);
    let mut pauses = 0;
    let mut sink = [0u8; 4096];
    let reads = r.chance(2, 3);
    for c in b.chunks(if piece == 1 && b.len() > 500 { 500 } else { piece }) {
        match tokio::time::timeout(Duration::from_millis(300), async {
            s.write_all(c).await?;
            s.flush().await
        })
        .await
        {
            Ok(Ok(())) => (),
            _ => return,
        }
        if slow && pauses < 30 {
            pauses += 1;
            delay_for(Duration::from_micros(r.range(50, 3000))).await;
        }
        if reads {
            while let Ok(Ok(n)) = tokio::time::timeout(Duration::from_micros(200), s.read(&mut sink)).await {
                if n == 0 {
                    return;
                }
            }
        }
    }
}

async fn foe(mut s: TcpStream, f: &Foe, inbound: bool, ws: bool, r: &mut Rng) {
    let _ = s.set_nodelay(true);
    let (rst, hold, half) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 5));
    if rst {
        let _ = s.set_linger(Some(Duration::from_secs(0)));
    }
    let dir = if inbound { 1 } else { 0 };
    let kind = if ws { 6 + r.below(3) } else { r.below(6) };
    match kind {
        0 => f.did("connections with nothing"),
        1 => {
            let b = garbage(r);
            say(&mut s, &b, r).await;
            f.did("connections with garbage");
        }
        _ if kind < 6 => {
            let b = script(r, &f.tapes, dir);
            if f.secure && r.chance(5, 6) {
                let k = key(r);
                match tokio::time::timeout(Duration::from_secs(3), Config::new(k).handshake(s)).await {
                    Ok(Ok((mut s, _, _))) => {
                        say(&mut s, &b, r).await;
                        f.did("frames inside the encryption");
                        let t = std::time::Instant::now();
                        while hold && !f.stop.load(Ordering::SeqCst) && t.elapsed().as_secs() < 100 {
                            delay_for(Duration::from_millis(5)).await;
                        }
                    }
                    _ => f.did("handshakes that did not work out"),
                }
                return;
            }
            say(&mut s, &b, r).await;
            f.did("frames in the clear");
        }
        6 => {
            let b = garbage(r);
            say(&mut s, &b, r).await;
            f.did("broken upgrades");
        }
        _ => {
            let hello = b"GET / HTTP/1.1\r\nHost: x\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n";
            if r.chance(1, 5) {
                let n = r.us(hello.len());
                say(&mut s, &hello[..n], r).await;
                f.did("unfinished upgrades");
            } else if s.write_all(hello).await.is_ok() {
                let mut x = [0u8; 600];
                let _ = tokio::time::timeout(Duration::from_millis(500), s.read(&mut x)).await;
                let mut o = vec![];
                for _ in 0..r.rus(1, 6) {
                    let d = match r.below(3) {
                        0 => garbage(r),
                        1 => vec![],
                        _ => script(r, &f.tapes, 0),
                    };
                    let (fin, op, mask) = (r.chance(4, 5), *r.pick(&[2u8, 2, 2, 0, 1, 8, 9, 10, 3, 15]), r.chance(5, 6));
                    frame(&mut o, fin, op, mask, &d, r);
                    if r.chance(1, 5) {
                        o.truncate(r.us(o.len() + 1));
                    }
                    if r.chance(1, 10) {
                        o.extend_from_slice(&[0x82, 0xff, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
                    }
                }
                say(&mut s, &o, r).await;
                f.did("strange web socket frames");
            }
        }
    }
    if half {
        let _ = s.shutdown(std::net::Shutdown::Write);
    }
    let t = std::time::Instant::now();
    while hold && !f.stop.load(Ordering::SeqCst) && t.elapsed().as_secs() < 100 {
        delay_for(Duration::from_millis(5)).await;
    }
}

// ---------------------------------------------------------------- T08

struct Honest {
    n: usize,
    s: usize,
    /// session of the victim
    v: usize,
}

/// (from, to, protocol) -> sent
type Sent = HashMap<(usize, usize, usize), u64>;

fn send(m: &Mesh, sent: &mut Sent, from: usize, s: usize, to: usize, p: usize, len: usize) -> bool {
    let c = sent.entry((from, to, p)).or_insert(0);
    let h = Hdr { src: from as u8, high: false, p: p as u16, s: to as u32, thr: 0, seq: *c, len: len as u32 };
    let d = make(&h);
    *c += 1;
    until_ok(|| m.nodes[from].ctl.send_message_to(s.into(), pid(p), d.clone()))
}

/// what every receiver got of what was sent, in order; Err: out of order, or too much
fn got(evs: &[Ev], m: &Mesh, sent: &Sent) -> Result<bool, String> {
    let mut c: HashMap<(usize, usize, usize, Via), u64> = HashMap::new();
    for e in evs {
        if let What::Recv { p, via, data, .. } = &e.w {
            if let Some(h) = parse(data) {
                let k = (h.src as usize, e.n, *p);
                if !sent.contains_key(&k) || h.s as usize != e.n || h.p as usize != *p {
                    continue;
                }
                let x = c.entry((k.0, k.1, k.2, *via)).or_insert(0);
                if h.seq != *x {
                    return Err(format!("node {} protocol {} {:?}: message {} of node {} came instead of {}", e.n, p, via, h.seq, h.src, x));
                }
                *x += 1;
            }
        }
    }
    Ok(sent.iter().all(|((f, t, p), n)| m.nodes[*t].modes[p].vias().iter().all(|v| c.get(&(*f, *t, *p, *v)).copied().unwrap_or(0) == *n)))
}

fn t08_one(seed: u64, tapes: &[Tape]) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let secure = r.chance(1, 2);
    let log = Log::new();
    let rt = runtime(r);
    let mut nodes = vec![];
    let friends = r.rus(1, 3);
    let joiners = 2;
    for n in 0..=friends + joiners {
        let protos = (1..=2).map(|p| ProtoCfg::new(p, Mode::any(r))).collect();
        let keep_buffer = r.chance(1, 3);
        nodes.push(start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if secure { Some(key(r)) } else { None },
                protos,
                timeout_ms: 60_000,
                listen: Some(fresh(r, false)),
                keep_buffer,
                ..NodeCfg::default()
            },
        ));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1, 2] };
    let want = fresh(r, true);
    m.nodes[0].ctl.listen(want).unwrap();
    let ws = |evs: &[Ev]| {
        evs.iter().find_map(|e| match &e.w {
            What::ListenStart(a) if e.n == 0 && a.iter().any(|p| p == Protocol::Ws) => Some(a.clone()),
            _ => None,
        })
    };
    until(&m.log, "web socket listener", |evs| ws(evs).is_some())?;
    let ws = m.log.with(|evs| ws(evs).unwrap());
    let mut friends_at: Vec<Honest> = vec![];
    for n in 1..=friends {
        let (i, j) = if r.chance(1, 2) { (0, n) } else { (n, 0) };
        if j == 0 && r.chance(1, 3) {
            m.nodes[0].addr = Some(ws.clone());
        }
        let tcp = m.nodes[0].addr.clone();
        connect_by(&mut m, i, j, None, TargetProtocol::All)?;
        m.nodes[0].addr = tcp;
        let l = m.links.last().unwrap();
        let (s, v) = if i == 0 { (l.b.1, l.a.1) } else { (l.a.1, l.b.1) };
        friends_at.push(Honest { n, s, v });
    }
    let tcp = m.log.with(|evs| {
        evs.iter()
            .find_map(|e| match &e.w {
                What::ListenStart(a) if e.n == 0 => Some(a.clone()),
                _ => None,
            })
            .unwrap()
    });
    // ---- the attack
    let f = Foe {
        stop: Arc::new(AtomicBool::new(false)),
        tapes: tapes.to_vec(),
        secure,
        done: Default::default(),
        busy: Default::default(),
    };
    let foes = r.rus(4, 30);
    let at = |a: &Multiaddr| multiaddr_to_socketaddr(a).unwrap();
    for _ in 0..foes {
        let mut q = r.fork();
        let f = f.clone();
        f.busy.fetch_add(1, Ordering::SeqCst);
        let web = r.chance(1, 3);
        let to: SocketAddr = if web { at(&ws) } else { at(&tcp) };
        let wait = r.below(40);
        harness_rt().spawn(async move {
            delay_for(Duration::from_millis(wait)).await;
            if let Ok(s) = TcpStream::connect(to).await {
                foe(s, &f, false, web, &mut q).await;
            }
            f.busy.fetch_sub(1, Ordering::SeqCst);
        });
    }
    for _ in 0..r.rus(0, 3) {
        // those the victim calls
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let a = socketaddr_to_multiaddr(l.local_addr().unwrap());
        let mut q = r.fork();
        let f = f.clone();
        f.busy.fetch_add(1, Ordering::SeqCst);
        harness_rt().spawn(async move {
            l.set_nonblocking(true).unwrap();
            let mut l = TcpListener::from_std(l).unwrap();
            if let Ok(Ok((s, _))) = tokio::time::timeout(Duration::from_secs(5), l.accept()).await {
                foe(s, &f, true, false, &mut q).await;
                f.did("hostile listeners dialled");
            }
            f.busy.fetch_sub(1, Ordering::SeqCst);
        });
        let _ = m.nodes[0].ctl.dial(a, TargetProtocol::All);
    }
    // ---- meanwhile
    let mut sent: Sent = HashMap::new();
    let gone = |m: &Mesh| violation::<()>("gone", format!("the service is gone\n{}", m.log.render(&[0], 40)));
    for _ in 0..r.rus(20, 120) {
        let h = r.pick(&friends_at);
        let p = r.rus(1, 2);
        let len = if r.chance(1, 10) { 20_000 } else { r.rus(40, 900) };
        let ok = if r.chance(1, 2) {
            send(&m, &mut sent, h.n, h.s, 0, p, len)
        } else {
            send(&m, &mut sent, 0, h.v, h.n, p, len)
        };
        if !ok {
            gone(&m)?;
        }
        if r.chance(1, 3) {
            std::thread::sleep(Duration::from_micros(r.below(3000)));
        }
    }
    let late = friends + 1;
    let via_ws = r.chance(1, 3);
    join(&m, &mut sent, late, if via_ws { &ws } else { &tcp })?;
    delivered(&m, &sent, &friends_at)?;
    acc.add("newcomers during the attack", 1);
    // ---- it ends
    f.stop.store(true, Ordering::SeqCst);
    let t = std::time::Instant::now();
    while f.busy.load(Ordering::SeqCst) > 0 {
        if t.elapsed().as_secs() > 60 {
            return Err(Verdict::Inconclusive("attackers do not end".into()));
        }
        vcommon::exec::beat();
        std::thread::sleep(Duration::from_millis(2));
    }
    for h in &friends_at {
        if !send(&m, &mut sent, h.n, h.s, 0, 1, 100) || !send(&m, &mut sent, 0, h.v, h.n, 2, 100) {
            gone(&m)?;
        }
    }
    let last = friends + 2;
    join(&m, &mut sent, last, &tcp)?;
    delivered(&m, &sent, &friends_at)?;
    acc.add("newcomers after the attack", 1);
    // every connection of theirs is gone, so their sessions end
    let good = friends + 2;
    let ended = m.log.wait_busy(25_000, |evs| open_sessions(evs, 0).len() <= good);
    if !ended {
        return violation("left-over", format!("the attackers are gone, their sessions still there: {:?} open, {} known\n{}", m.log.with(|evs| open_sessions(evs, 0)), good, m.log.render(&[0], 60)));
    }
    for (k, n) in f.done.lock().unwrap().iter() {
        acc.add(k, *n);
    }
    m.log.with(|evs| {
        for e in evs.iter().filter(|e| e.n == 0) {
            match &e.w {
                What::Open { .. } => acc.add("sessions of the service", 1),
                What::SelectErr { .. } => acc.add("protocol selections refused", 1),
                What::ProtoErr { .. } => acc.add("protocol errors", 1),
                What::MuxErr { .. } => acc.add("multiplexing errors", 1),
                What::DialErr { .. } => acc.add("dial errors", 1),
                _ => (),
            }
        }
    });
    acc.add("honest messages", sent.values().sum());
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

/// a peer that was not there before connects and talks
fn join(m: &Mesh, sent: &mut Sent, n: usize, to: &Multiaddr) -> R<()> {
    let fail = |what: &str| violation::<()>("newcomer", format!("{}\n{}", what, m.log.render(&[0, n], 60)));
    m.nodes[n].ctl.dial(to.clone(), TargetProtocol::All).unwrap();
    let open = |evs: &[Ev]| open_sessions(evs, n).first().copied();
    let modes = &m.nodes[n].modes;
    let up = |evs: &[Ev]| open(evs).map_or(false, |s| (1..=2).all(|p| is_conn(evs, n, s, p, modes[&p].vias())));
    if !m.log.wait_busy(20_000, up) {
        return fail("an honest peer does not get a session with all protocols");
    }
    let s = m.log.with(|evs| open(evs).unwrap());
    for k in 0..6 {
        send(m, sent, n, s, 0, 1 + k % 2, 60 + 100 * k);
    }
    let back = |evs: &[Ev]| {
        evs.iter().find_map(|e| match &e.w {
            What::Recv { s, data, .. } if e.n == 0 => parse(data).filter(|h| h.src as usize == n).map(|_| *s),
            _ => None,
        })
    };
    if !m.log.wait_busy(20_000, |evs| back(evs).is_some()) {
        return fail("messages of an honest peer do not arrive");
    }
    let v = m.log.with(|evs| back(evs).unwrap());
    for k in 0..4 {
        send(m, sent, 0, v, n, 1 + k % 2, 60 + 100 * k);
    }
    Ok(())
}

fn delivered(m: &Mesh, sent: &Sent, friends: &[Honest]) -> R<()> {
    let mut bad = None;
    let all = m.log.wait(|evs| match got(evs, m, sent) {
        Ok(x) => x,
        Err(e) => {
            bad = Some(e);
            true
        }
    })?;
    if let Some(e) = bad {
        return violation("disturbed", format!("{}\n{}", e, m.log.render(&[], 60)));
    }
    let hurt = m.log.with(|evs| {
        evs.iter().find_map(|e| {
            let mine = |s: usize| friends.iter().any(|h| (h.n == e.n && h.s == s) || (e.n == 0 && h.v == s));
            match e.w {
                What::Close { s } | What::MuxErr { s, .. } | What::IdleErr { s } | What::Disc { s, .. } if mine(s) => Some(format!("node {}: {:?}", e.n, e.w)),
                What::ProtoErr { s, .. } if mine(s) => Some(format!("node {}: {:?}", e.n, e.w)),
                What::End | What::HandleErr { .. } | What::ListenClose(_) => Some(format!("node {}: {:?}", e.n, e.w)),
                _ => None,
            }
        })
    });
    if let Some(h) = hurt {
        return violation("disturbed", format!("{} while strangers misbehaved\n{}", h, m.log.render(&[], 60)));
    }
    if !all {
        return violation("starved", format!("messages between honest peers do not arrive\n{}", m.log.render(&[], 60)));
    }
    Ok(())
}

pub fn t08(ctx: &Ctx) {
    let seed = ctx.seed;
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a service with honest sessions is attacked by up to 33 connections: nothing, garbage, stalls, resets, broken upgrades and web socket frames, and mutated recordings of real sessions played in the clear or after a real encryption handshake, also from listeners it dials; honest messages must all arrive in order, honest sessions stay, newcomers must be served during and after, and hostile sessions end with their connections".into(),
            assumptions: vec!["the machine has enough file descriptors".into()],
            cases: ctx.q(160, 4000),
            budget_s: ctx.q(22, 600),
            threads: 6,
            must_see: vec!["honest messages", "newcomers during the attack", "newcomers after the attack", "frames in the clear", "frames inside the encryption", "connections with garbage", "strange web socket frames", "hostile listeners dialled", "multiplexing errors", "protocol selections refused"],
        },
        |s, _| {
            wrap(|| {
                let t = tapes(seed)?;
                t08_one(s, &t)
            })
        },
    )
}
