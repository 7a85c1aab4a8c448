//! T17: WebSocket carries the bytes however they are framed.
use crate::{judge::R, mesh::*, net::*, proxy::harness_rt, traffic::*};
use bytes::Bytes;
use std::{
    io::{Read, Write},
    net::{SocketAddr, TcpStream as Raw},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    service::TargetProtocol,
    utils::{multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};
use tokio::{
    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
    net::{TcpListener, TcpStream},
    time::delay_for,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

#[derive(Default)]
struct Seen {
    over: AtomicBool,
    pings: AtomicU64,
    pongs: AtomicU64,
    empty: AtomicU64,
    text: AtomicU64,
    fragments: AtomicU64,
    frames: AtomicU64,
}

/// relays the upgrade as it is and then the payload in frames of its own choice
pub struct Reframer {
    pub addr: Multiaddr,
    seen: Arc<Seen>,
}

#[derive(Clone)]
struct Style {
    /// largest piece
    piece: usize,
    noise_pct: u64,
    frag_pct: u64,
    merge_pct: u64,
    chop: bool,
}

impl Style {
    fn any(r: &mut Rng) -> Style {
        Style {
            piece: *r.pick(&[1usize, 7, 100, 3000, 70_000, usize::MAX]),
            noise_pct: *r.pick(&[0u64, 10, 40, 90]),
            frag_pct: *r.pick(&[0u64, 30]),
            merge_pct: *r.pick(&[0u64, 30, 80]),
            chop: r.chance(1, 3),
        }
    }
}

pub fn frame(out: &mut Vec<u8>, fin: bool, op: u8, mask: bool, d: &[u8], r: &mut Rng) {
    out.push(if fin { 0x80 | op } else { op });
    let m = if mask { 0x80u8 } else { 0 };
    match d.len() {
        n if n < 126 => out.push(m | n as u8),
        n if n < 65536 => {
            out.push(m | 126);
            out.extend_from_slice(&(n as u16).to_be_bytes());
        }
        n => {
            out.push(m | 127);
            out.extend_from_slice(&(n as u64).to_be_bytes());
        }
    }
    if mask {
        let k = r.bytes(4);
        out.extend_from_slice(&k);
        out.extend(d.iter().enumerate().map(|(i, b)| b ^ k[i % 4]));
    } else {
        out.extend_from_slice(d);
    }
}

/// takes one frame off the front: (fin, opcode, payload)
fn unframe(b: &mut Vec<u8>) -> Option<(bool, u8, Vec<u8>)> {
    if b.len() < 2 {
        return None;
    }
    let (mut at, masked) = (2, b[1] & 0x80 != 0);
    let n = match b[1] & 0x7f {
        126 if b.len() >= 4 => {
            at = 4;
            u16::from_be_bytes([b[2], b[3]]) as usize
        }
        127 if b.len() >= 10 => {
            at = 10;
            let mut l = [0; 8];
            l.copy_from_slice(&b[2..10]);
            u64::from_be_bytes(l) as usize
        }
        126 | 127 => return None,
        n => n as usize,
    };
    let key = at;
    if masked {
        at += 4;
    }
    if b.len() < at + n {
        return None;
    }
    let mut d = b[at..at + n].to_vec();
    if masked {
        for (i, x) in d.iter_mut().enumerate() {
            *x ^= b[key + i % 4];
        }
    }
    let head = b[0];
    b.drain(..at + n);
    Some((head & 0x80 != 0, head & 0x0f, d))
}

/// the harmless things; only what may stand between fragments if `inside`
fn noise(out: &mut Vec<u8>, mask: bool, inside: bool, r: &mut Rng, seen: &Seen) {
    match r.below(if inside { 2 } else { 5 }) {
        0 => {
            let l = r.us(126);
            let d = r.bytes(l);
            frame(out, true, 9, mask, &d, r);
            seen.pings.fetch_add(1, Ordering::SeqCst);
        }
        1 => {
            let l = r.us(126);
            let d = r.bytes(l);
            frame(out, true, 10, mask, &d, r);
            seen.pongs.fetch_add(1, Ordering::SeqCst);
        }
        2 => {
            frame(out, true, 2, mask, &[], r);
            seen.empty.fetch_add(1, Ordering::SeqCst);
        }
        3 => {
            frame(out, true, 1, mask, "héllo".as_bytes(), r);
            seen.text.fetch_add(1, Ordering::SeqCst);
        }
        _ => {
            frame(out, true, 1, mask, b"", r);
            seen.text.fetch_add(1, Ordering::SeqCst);
        }
    }
}

async fn put<W: AsyncWrite + Unpin>(w: &mut W, out: &mut Vec<u8>, chop: bool, pauses: &mut u32, r: &mut Rng) -> Result<(), ()> {
    let mut at = 0;
    while at < out.len() {
        let n = if chop && out.len() < 4000 { r.rus(1, out.len() - at) } else { out.len() - at };
        w.write_all(&out[at..at + n]).await.map_err(|_| ())?;
        at += n;
        if chop && *pauses < 150 && r.chance(1, 3) {
            *pauses += 1;
            delay_for(Duration::from_micros(r.below(600))).await;
        }
    }
    out.clear();
    Ok(())
}

async fn reframe<R1: AsyncRead + Unpin, W: AsyncWrite + Unpin>(mut from: R1, mut to: W, mut inbuf: Vec<u8>, mask: bool, st: Style, mut r: Rng, seen: Arc<Seen>) -> Result<(), ()> {
    let r = &mut r;
    let mut data: Vec<u8> = vec![];
    let mut out: Vec<u8> = vec![];
    let mut buf = vec![0u8; 64 * 1024];
    let mut moved = 0usize;
    let mut pauses = 0;
    loop {
        let mut ended = false;
        while let Some((_, op, d)) = unframe(&mut inbuf) {
            match op {
                0 | 1 | 2 => data.extend_from_slice(&d),
                8 => {
                    ended = true;
                }
                _ => (),
            }
        }
        // tiny pieces only at the start
        let mut slow = moved < 3000;
        let mut noisy = if slow { st.noise_pct } else { st.noise_pct.min(10) };
        if r.below(100) >= st.merge_pct || data.len() > 100_000 || ended {
            while !data.is_empty() {
                slow = moved < 3000;
                noisy = if slow { st.noise_pct } else { st.noise_pct.min(10) };
                if r.below(100) < noisy {
                    noise(&mut out, mask, false, r, &seen);
                }
                let n = r.rus(1, data.len().min(st.piece.max(if slow { 1 } else { 5000 })));
                moved += n;
                if r.below(100) < st.frag_pct {
                    let mut at = 0;
                    let k = r.rus(2, 5);
                    for i in 0..k {
                        let m = if i == k - 1 { n - at } else { r.us(n - at + 1) };
                        frame(&mut out, i == k - 1, if i == 0 { 2 } else { 0 }, mask, &data[at..at + m], r);
                        at += m;
                        if i < k - 1 && r.below(100) < noisy {
                            noise(&mut out, mask, true, r, &seen);
                        }
                    }
                    seen.fragments.fetch_add(1, Ordering::SeqCst);
                } else {
                    frame(&mut out, true, 2, mask, &data[..n], r);
                }
                seen.frames.fetch_add(1, Ordering::SeqCst);
                data.drain(..n);
                if r.chance(1, 2) {
                    put(&mut to, &mut out, st.chop && slow, &mut pauses, r).await?;
                }
            }
            if r.below(100) < noisy {
                noise(&mut out, mask, false, r, &seen);
            }
            if ended {
                frame(&mut out, true, 8, mask, &[], r);
            }
            put(&mut to, &mut out, st.chop && slow, &mut pauses, r).await?;
        }
        if seen.over.load(Ordering::SeqCst) {
            return Err(());
        }
        match tokio::time::timeout(Duration::from_micros(r.range(200, 4000)), from.read(&mut buf)).await {
            Err(_) => {
                if slow && r.below(100) < noisy {
                    noise(&mut out, mask, false, r, &seen);
                    put(&mut to, &mut out, false, &mut pauses, r).await?;
                }
                if !data.is_empty() {
                    continue;
                }
                // nothing to do: wait
                match tokio::time::timeout(Duration::from_millis(20), from.read(&mut buf)).await {
                    Err(_) => (),
                    Ok(Ok(n)) if n > 0 => inbuf.extend_from_slice(&buf[..n]),
                    Ok(_) => {
                        let _ = to.shutdown().await;
                        return Ok(());
                    }
                }
            }
            Ok(Ok(n)) if n > 0 => inbuf.extend_from_slice(&buf[..n]),
            Ok(_) => {
                let _ = to.shutdown().await;
                return Ok(());
            }
        }
    }
}

/// reads up to and with the empty line
async fn head(s: &mut TcpStream) -> Result<(Vec<u8>, Vec<u8>), ()> {
    let mut v = vec![];
    let mut buf = [0u8; 2048];
    loop {
        let n = s.read(&mut buf).await.map_err(|_| ())?;
        if n == 0 {
            return Err(());
        }
        v.extend_from_slice(&buf[..n]);
        if let Some(i) = v.windows(4).position(|w| w == b"\r\n\r\n") {
            let rest = v.split_off(i + 4);
            return Ok((v, rest));
        }
    }
}

impl Reframer {
    pub fn new(r: &mut Rng, target: &Multiaddr) -> Reframer {
        let to = multiaddr_to_socketaddr(target).unwrap();
        let seen: Arc<Seen> = Arc::default();
        let ip = format!("127.{}.{}.{}:0", r.range(1, 250), r.range(1, 250), r.range(1, 250));
        let l = std::net::TcpListener::bind(ip).unwrap();
        let mut addr = socketaddr_to_multiaddr(l.local_addr().unwrap());
        addr.push(Protocol::Ws);
        let s2 = seen.clone();
        let mut r = r.fork();
        harness_rt().spawn(async move {
            l.set_nonblocking(true).unwrap();
            let mut l = TcpListener::from_std(l).unwrap();
            loop {
                if s2.over.load(Ordering::SeqCst) {
                    return;
                }
                let mut s = match tokio::time::timeout(Duration::from_millis(20), l.accept()).await {
                    Ok(Ok((s, _))) => s,
                    _ => continue,
                };
                let (sa, sb, ra, rb) = (Style::any(&mut r), Style::any(&mut r), r.fork(), r.fork());
                let seen = s2.clone();
                tokio::spawn(async move {
                    let mut d = TcpStream::connect(to).await.map_err(|_| ())?;
                    let _ = s.set_nodelay(true);
                    let _ = d.set_nodelay(true);
                    let (req, c) = head(&mut s).await?;
                    d.write_all(&req).await.map_err(|_| ())?;
                    let (resp, e) = head(&mut d).await?;
                    s.write_all(&resp).await.map_err(|_| ())?;
                    let (sr, sw) = s.split();
                    let (dr, dw) = d.split();
                    let a = reframe(sr, dw, c, true, sa, ra, seen.clone());
                    let b = reframe(dr, sw, e, false, sb, rb, seen);
                    futures::future::try_join(a, b).await.map(|_| ())
                });
            }
        });
        Reframer { addr, seen }
    }
}

impl Drop for Reframer {
    fn drop(&mut self) {
        self.seen.over.store(true, Ordering::SeqCst);
    }
}

fn t17_frames(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    let n = r.rus(2, 3);
    c.nodes = 1;
    c.ws = true;
    c.extra_links = false;
    c.no_block = false;
    let (protos, secure, window) = (c.protos.clone(), c.secure, c.window);
    let mut m = mesh(r, c)?;
    for i in 1..n {
        let cfg = NodeCfg {
            key: if secure { Some(key(r)) } else { None },
            protos: protos.iter().map(|p| ProtoCfg::new(*p, Mode::any(r))).collect(),
            window,
            listen: Some(fresh(r, true)),
            ..NodeCfg::default()
        };
        let nd = start(m.rt.as_ref().unwrap(), &m.log, i, cfg);
        m.nodes.push(nd);
    }
    let mut frs = vec![];
    for i in 1..n {
        let j = r.us(i);
        let f = Reframer::new(r, m.nodes[j].addr.as_ref().unwrap());
        let real = m.nodes[j].addr.replace(f.addr.clone());
        // the set-up is part of what is judged here
        match connect_by(&mut m, i, j, None, TargetProtocol::All) {
            Ok(()) => (),
            Err(vcommon::Verdict::Inconclusive(w)) if w.starts_with("set up:") => {
                return violation("no-session", format!("a session through reframed WebSocket messages does not come about: {}", w));
            }
            Err(e) => return Err(e),
        }
        m.nodes[j].addr = real;
        frs.push(f);
    }
    let ledger: Ledger = Arc::default();
    let sh = Shape { targets: false, faults: false, xform: false, no_tiny: false, burst: false };
    let stop = Arc::new(AtomicBool::new(false));
    let total = drive(&m, r, &sh, &ledger, &stop, 1_500_000);
    let idf = |d: &[u8]| Bytes::copy_from_slice(d);
    let nodes = m.refs();
    let mut last: Option<String> = None;
    let sent: usize = {
        let l = ledger.lock().unwrap();
        l.iter().map(|(k, v)| v.len() * nodes[m.peer[&(k.0, k.1)].0].modes[&k.2].vias().len()).sum()
    };
    let enough = |evs: &[Ev]| evs.iter().filter(|e| matches!(e.w, What::Recv { .. })).count() >= sent;
    let moved = || frs.iter().map(|f| f.seen.frames.load(Ordering::SeqCst)).sum::<u64>();
    let mut complete = false;
    let mut before = u64::MAX;
    // as long as the relay has something to do it is not over
    while !complete && moved() != before {
        before = moved();
        complete = m.log.wait(|evs| {
            enough(evs)
                && match judge(evs, &ledger, &m.peer, &nodes, &idf, &[]) {
                    Ok(j) => {
                        last = j.missing.clone();
                        j.missing.is_none()
                    }
                    Err(_) => true,
                }
        })?;
    }
    let evs = m.log.snap();
    let j = judge(&evs, &ledger, &m.peer, &nodes, &idf, &[])?;
    if !complete || j.missing.is_some() {
        return violation("missing", format!("{}\n{}", j.missing.or(last).unwrap_or_default(), m.log.render(&[], 40)));
    }
    for e in &evs {
        if let What::Close { .. } | What::MuxErr { .. } = e.w {
            return violation("session-lost", format!("{:?} at node {}\n{}", e.w, e.n, m.log.render(&[], 40)));
        }
    }
    for f in &frs {
        let g = |a: &AtomicU64| a.load(Ordering::SeqCst);
        acc.add("pings", g(&f.seen.pings));
        acc.add("pongs", g(&f.seen.pongs));
        acc.add("empty", g(&f.seen.empty));
        acc.add("text", g(&f.seen.text));
        acc.add("fragmented", g(&f.seen.fragments));
        acc.add("frames", g(&f.seen.frames));
    }
    acc.add("bytes", total as u64);
    acc.add("received", j.received);
    acc.nontrivial = j.received > 0;
    acc.sig = seed;
    Ok(acc)
}

fn upgrade(a: &SocketAddr) -> String {
    format!("GET / HTTP/1.1\r\nHost: {}\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n", a)
}

fn t17_upgrades(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 1;
    c.ws = true;
    c.protos = vec![1];
    c.no_block = false;
    let secure = c.secure;
    let log = Log::new();
    let rt = runtime(r);
    let mk = |r: &mut Rng, n: usize, l: bool| {
        start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if secure { Some(key(r)) } else { None },
                protos: vec![ProtoCfg::new(1, Mode::any(r))],
                // longer than anybody here waits
                timeout_ms: 60_000,
                listen: if l { Some(fresh(r, true)) } else { None },
                ..NodeCfg::default()
            },
        )
    };
    let server = mk(r, 0, true);
    let to = multiaddr_to_socketaddr(server.addr.as_ref().unwrap()).unwrap();
    let honest = r.rus(1, 4);
    let nodes: Vec<Node> = (1..=honest).map(|n| mk(r, n, false)).collect();
    let bad = r.rus(1, 60);
    let mut held: Vec<Raw> = vec![];
    let spread = r.chance(1, 2);
    let mut asked = 0;
    for k in 0..bad {
        if let Ok(mut s) = Raw::connect(to) {
            let _ = s.set_nodelay(true);
            let up = upgrade(&to);
            let cut = r.us(up.len());
            let _ = match r.below(8) {
                0 | 1 => Ok(()),
                2 | 3 => s.write_all(&up.as_bytes()[..cut]),
                4 => s.write_all(&{
                    let l = r.rus(1, 300);
                    r.bytes(l)
                }),
                5 => s.write_all(up.as_bytes()),
                6 => s.write_all(up.as_bytes()).and_then(|_| {
                    let mut b = [0u8; 64];
                    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
                    let _ = s.read(&mut b);
                    let l = r.rus(1, 200);
                    s.write_all(&r.bytes(l))
                }),
                _ => s.write_all(b"GET / HTTP/1.1\r\n\r\n"),
            };
            match r.below(5) {
                0 => {
                    use std::os::unix::io::AsRawFd;
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of_val(&l) as u32) };
                    drop(s);
                }
                1 => {
                    let _ = s.shutdown(std::net::Shutdown::Write);
                    held.push(s);
                }
                _ => held.push(s),
            }
            acc.add("upgrades stalled or broken", 1);
        }
        if spread && asked < honest && k * honest >= asked * bad {
            let a = server.addr.clone().unwrap();
            until_ok(|| nodes[asked].ctl.dial(a.clone(), TargetProtocol::All));
            asked += 1;
        }
    }
    while asked < honest {
        let a = server.addr.clone().unwrap();
        until_ok(|| nodes[asked].ctl.dial(a.clone(), TargetProtocol::All));
        asked += 1;
    }
    let open = |evs: &[Ev]| nodes.iter().all(|n| evs.iter().any(|e| e.n == n.n && matches!(e.w, What::Conn { p: 1, .. })));
    let fine = log.wait(open);
    let res = match fine {
        Ok(true) => {
            // and they can talk
            for n in &nodes {
                let s = log.with(|e| open_sessions(e, n.n));
                for s in s {
                    until_ok(|| n.ctl.send_message_to(s.into(), pid(1), Bytes::from_static(b"hello there")));
                }
            }
            let via = server.modes[&1].vias()[0];
            let got = |evs: &[Ev]| evs.iter().filter(|e| e.n == 0 && matches!(&e.w, What::Recv { via: v, data, .. } if *v == via && &data[..] == b"hello there")).count() >= honest;
            match log.wait(got) {
                Ok(true) => Ok(()),
                Ok(false) => violation("no-messages", format!("{} stalled or broken upgrades, an honest client's message does not arrive\n{}", bad, log.render(&[], 40))),
                Err(e) => Err(e),
            }
        }
        Ok(false) => violation("no-connection", format!("{} clients stall or break their upgrade and an honest one cannot connect\n{}", bad, log.render(&[], 40))),
        Err(e) => Err(e),
    };
    drop(held);
    crate::net::stop(rt);
    res?;
    acc.add("honest connected", honest as u64);
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t17(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "services talk through a relay that frames the WebSocket payload anew (any split, fragments, merged messages) and mixes in pings, pongs, text and empty messages: everything sent must arrive in order; with up to 60 clients that stall or break their upgrade, honest ones must connect and talk".into(),
            assumptions: vec![],
            cases: ctx.q(160, 3000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["pings", "pongs", "empty", "text", "fragmented", "upgrades stalled or broken", "honest connected"],
        },
        |seed, idx| wrap(|| if idx % 4 == 3 { t17_upgrades(seed) } else { t17_frames(seed) }),
    )
}
