//! S01 tampering, S03 confidentiality on the wire, S05 faithful byte stream.
use crate::{hs::*, net::*, peer::*};
use std::{
    cell::RefCell,
    collections::{HashMap, HashSet},
    rc::Rc,
};
use tentacle_secio::{
    crypto::{new_stream, CryptoMode},
    handshake::Config,
};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use vcommon::{
    exec::{self, Exec, Stop},
    link::{self, LinkCfg},
    mix, Acc, CheckSpec, Ctx, Rng, Verdict,
};

/// byte at a position of a direction, never repeating in a short distance
fn code(key: u64, pos: u64) -> u8 {
    (mix(key, pos >> 3) >> ((pos & 7) * 8)) as u8
}

fn coded(key: u64, from: u64, n: usize) -> Vec<u8> {
    (0..n as u64).map(|i| code(key, from + i)).collect()
}

// ---------------------------------------------------------------- S01

#[derive(Clone, Debug)]
enum Tamper {
    None,
    Flip(usize),
    FlipTag(usize),
    FlipLength(usize),
    Drop,
    Duplicate,
    Swap,
    InsertJunk,
    InsertEmpty,
    OtherSession,
    Reflect,
    Cut,
    Extend,
    Empty,
    CutEof(usize),
    ReplayEarlier,
}

#[derive(Default)]
struct Rd {
    got: Vec<u8>,
    err: Option<String>,
}

fn reader(ex: &Exec, s: tokio::io::ReadHalf<Stream>, mut r: Rng, st: Rc<RefCell<Rd>>) {
    let mut s = s;
    ex.spawn("reader", async move {
        let big = r.rus(1, 3000);
        loop {
            let n = if r.chance(1, 2) { big } else { r.rus(1, 64) };
            let mut b = vec![0u8; n];
            match s.read(&mut b).await {
                Ok(0) => {
                    st.borrow_mut().err = Some("end of stream".into());
                    break;
                }
                Ok(n) => st.borrow_mut().got.extend_from_slice(&b[..n]),
                Err(e) => {
                    st.borrow_mut().err = Some(e.to_string());
                    break;
                }
            }
        }
        futures::future::pending::<()>().await;
        drop(s);
    });
}

async fn frames_of(ida: &Id, idb: &Id, r: &mut Rng, n: usize, l: &Lists) -> Option<Vec<Vec<u8>>> {
    let mut ex = Exec::new(r.fork());
    let m = mid(&mut ex, &LinkCfg::fast(), r);
    let (a, b, ra, _rb, _keep) = m.wire(&ex, pass(), pass());
    let ha = start(&ex, "a", l.apply(Config::new(ida.pair())), a);
    let hb = start(&ex, "b", l.apply(Config::new(idb.pair())), b);
    ex.run(STEPS, || false).await;
    let (mut sa, sb) = (stream(&ha)?, stream(&hb)?);
    let mut r2 = r.fork();
    ex.spawn("w", async move {
        for _ in 0..n {
            let k = r2.rus(1, 300);
            let _ = sa.write_all(&r2.bytes(k)).await;
        }
        let _ = sa.flush().await;
        futures::future::pending::<()>().await;
        drop(sa);
    });
    ex.run(STEPS, || false).await;
    let out = ra.borrow().clone();
    ex.clear();
    drop(sb);
    Some(out)
}

async fn s01_case(seed: u64) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let cfg = link_cfg(&mut r);
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let l = Lists::random(&mut r);
    let total = r.rus(2, 12);
    // the frame interfered with, counted from the first one after the handshake
    let at = r.us(total);
    let pos = r.us(1 << 20);
    let mut t = match r.below(22) {
        0 => Tamper::None,
        1..=4 => Tamper::Flip(pos),
        5..=6 => Tamper::FlipTag(pos),
        7 => Tamper::FlipLength(pos),
        8..=9 => Tamper::Drop,
        10..=11 => Tamper::Duplicate,
        12..=13 => Tamper::Swap,
        14 => Tamper::InsertJunk,
        15 => Tamper::InsertEmpty,
        16 => Tamper::OtherSession,
        17 => Tamper::Reflect,
        18 => Tamper::Cut,
        19 => Tamper::Extend,
        20 => r.pick(&[Tamper::Empty, Tamper::ReplayEarlier]).clone(),
        _ => Tamper::CutEof(pos),
    };
    if at == 0 {
        if let Tamper::ReplayEarlier = t {
            t = Tamper::Duplicate;
        }
    }
    let mut acc = Acc::default();
    acc.add(impls, 1);
    let other = match t {
        Tamper::OtherSession => match frames_of(&ida, &idb, &mut r, total, &l).await {
            Some(o) => o,
            None => return Verdict::Inconclusive("recording failed".into()),
        },
        _ => vec![],
    };
    let mut ex = Exec::new(r.fork());
    let m = mid(&mut ex, &cfg, &mut r);
    let applied = Rc::new(RefCell::new(false));
    let back: Rc<RefCell<Vec<Vec<u8>>>> = Rc::new(RefCell::new(vec![]));
    let (ap, t2, back2) = (applied.clone(), t.clone(), back.clone());
    let mut rm = r.fork();
    let mut held: Option<Vec<u8>> = None;
    let mut earlier: Vec<Vec<u8>> = vec![];
    let ab: Op = Box::new(move |n, body| {
        if n < 3 {
            return vec![Piece::Frame(body)];
        }
        let i = n - 3;
        earlier.push(body.clone());
        if let Some(h) = held.take() {
            *ap.borrow_mut() = true;
            return vec![Piece::Frame(body), Piece::Frame(h)];
        }
        if i == at + 1 {
            if let Tamper::Drop = t2 {
                // visible now that another frame follows
                *ap.borrow_mut() = true;
            }
        }
        if i != at {
            return vec![Piece::Frame(body)];
        }
        let mut x = body;
        let done = |v: Vec<Piece>| {
            *ap.borrow_mut() = true;
            v
        };
        match &t2 {
            Tamper::None => vec![Piece::Frame(x)],
            Tamper::Flip(p) => {
                let p = p % (x.len() * 8);
                x[p / 8] ^= 1 << (p % 8);
                done(vec![Piece::Frame(x)])
            }
            Tamper::FlipTag(p) => {
                let k = x.len() - 16 + p % 16;
                x[k] ^= 1 << (p / 16 % 8);
                done(vec![Piece::Frame(x)])
            }
            Tamper::FlipLength(p) => {
                let mut f = frame(&x);
                f[p / 8 % 4] ^= 1 << (p % 8);
                vec![Piece::Raw(f)]
            }
            Tamper::Drop => vec![],
            Tamper::Duplicate => done(vec![Piece::Frame(x.clone()), Piece::Frame(x)]),
            Tamper::Swap => {
                held = Some(x);
                vec![]
            }
            Tamper::InsertJunk => {
                let n = rm.rus(1, 100);
                let j = rm.bytes(n);
                done(vec![Piece::Frame(j), Piece::Frame(x)])
            }
            Tamper::InsertEmpty => done(vec![Piece::Frame(vec![]), Piece::Frame(x)]),
            Tamper::OtherSession => match other.get(n) {
                Some(o) => done(vec![Piece::Frame(o.clone())]),
                None => vec![Piece::Frame(x)],
            },
            Tamper::Reflect => match back2.borrow().get(n) {
                Some(o) => done(vec![Piece::Frame(o.clone())]),
                None => match back2.borrow().last() {
                    Some(o) => done(vec![Piece::Frame(o.clone())]),
                    None => vec![Piece::Frame(x)],
                },
            },
            Tamper::Cut => {
                let n = rm.us(x.len());
                x.truncate(n);
                done(vec![Piece::Frame(x)])
            }
            Tamper::Extend => {
                let n = rm.rus(1, 40);
                let j = rm.bytes(n);
                x.extend(j);
                done(vec![Piece::Frame(x)])
            }
            Tamper::Empty => done(vec![Piece::Frame(vec![])]),
            Tamper::ReplayEarlier => {
                let k = rm.us(earlier.len() - 1);
                done(vec![Piece::Frame(earlier[k].clone())])
            }
            Tamper::CutEof(p) => {
                let mut f = frame(&x);
                let n = p % f.len();
                f.truncate(n);
                done(vec![Piece::Raw(f), Piece::Eof])
            }
        }
    });
    let b3 = back.clone();
    let ba: Op = Box::new(move |_, b| {
        b3.borrow_mut().push(b.clone());
        vec![Piece::Frame(b)]
    });
    let (a, b, _ra, _rb, keep) = m.wire(&ex, ab, ba);
    let ha = start(&ex, "a", l.apply(Config::new(ida.pair())), a);
    let hb = start(&ex, "b", l.apply(Config::new(idb.pair())), b);
    ex.run(STEPS, || false).await;
    let (sa, sb) = match (stream(&ha), stream(&hb)) {
        (Some(x), Some(y)) => (x, y),
        _ => return Verdict::Inconclusive("no session".into()),
    };
    let written: Rc<RefCell<u64>> = Rc::new(RefCell::new(0));
    let (ra, mut wa) = tokio::io::split(sa);
    let (rb, mut wb) = tokio::io::split(sb);
    let (key, keyb) = (seed, seed ^ 0x55);
    // frames in the other direction first, so that there is something to reflect
    let mut r4 = r.fork();
    ex.spawn("wb", async move {
        for i in 0..total as u64 {
            let n = r4.rus(1, 200);
            if wb.write_all(&coded(keyb, i * 1000, n)).await.is_err() {
                break;
            }
        }
        let _ = wb.flush().await;
        futures::future::pending::<()>().await;
        drop(wb);
    });
    let sta = Rc::new(RefCell::new(Rd::default()));
    reader(&ex, ra, r.fork(), sta.clone());
    if r.chance(2, 3) {
        ex.run(STEPS, || false).await;
    }
    let w2 = written.clone();
    let mut r2 = r.fork();
    ex.spawn("wa", async move {
        let mut p = 0;
        for _ in 0..total {
            let mx = if r2.chance(1, 4) { 4000 } else { 200 };
            let n = r2.rus(1, mx);
            if wa.write_all(&coded(key, p, n)).await.is_err() {
                break;
            }
            p += n as u64;
            *w2.borrow_mut() = p;
            if r2.chance(1, 3) && wa.flush().await.is_err() {
                break;
            }
        }
        let _ = wa.flush().await;
        futures::future::pending::<()>().await;
        drop(wa);
    });
    let stb = Rc::new(RefCell::new(Rd::default()));
    reader(&ex, rb, r.fork(), stb.clone());
    if ex.run(STEPS, || false).await == Stop::Steps {
        return Verdict::Inconclusive("step budget".into());
    }
    let x = stb.borrow();
    let w = *written.borrow();
    let what = format!(
        "{:?} on frame {} of {}, {} of {} bytes read, then {:?}",
        t, at, total, x.got.len(), w, x.err
    );
    for (i, b) in x.got.iter().enumerate() {
        if *b != code(key, i as u64) {
            return Verdict::Violation("not-a-prefix".into(), format!("{}; byte {} is not what was written", what, i));
        }
    }
    if x.got.len() as u64 > w {
        return Verdict::Violation("not-a-prefix".into(), what);
    }
    if let Tamper::None = t {
        if x.got.len() as u64 != w || x.err.is_some() {
            return Verdict::Violation("honest-traffic-broken".into(), what);
        }
        acc.add("honest_bytes", w);
    } else if *applied.borrow() && x.err.is_none() {
        return Verdict::Violation("manipulation-not-reported".into(), what);
    }
    if *applied.borrow() {
        acc.add("manipulations_reported", 1);
        let name = format!("{:?}", t);
        acc.add(&format!("kind_{}", name.split('(').next().unwrap_or("")), 1);
        acc.nontrivial = true;
    }
    acc.add("bytes_before_manipulation", x.got.len() as u64);
    if let Tamper::None = t {
        acc.nontrivial = true;
    }
    acc.sig = mix(ex.trace, vcommon::hash_str(&format!("{:?}{}", t, at)));
    if seed % 40 == 0 {
        acc.sample = Some(what);
    }
    drop(x);
    drop(keep);
    ex.clear();
    Verdict::Pass(acc)
}

pub fn s01(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which the party in the middle manipulated an encrypted frame (or none, as control) and the reader's bytes and error were judged; distinct = manipulation, place and interleaving".into(),
            assumptions: vec!["one manipulation per session; a changed length prefix is only judged by the prefix rule".into()],
            cases: ctx.q(6000, 600_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: vec![
                "cases with ring ciphers",
                "cases with mixed ciphers",
                "cases with openssl ciphers",
                "kind_Flip", "kind_FlipTag", "kind_Drop", "kind_Duplicate", "kind_Swap", "kind_InsertJunk", "kind_InsertEmpty",
                "kind_OtherSession", "kind_Reflect", "kind_Cut", "kind_Extend", "kind_Empty", "kind_CutEof", "kind_ReplayEarlier",
                "honest_bytes",
            ],
        },
        |seed, _| exec::with_runtime(s01_case(seed)),
    )
}

// ---------------------------------------------------------------- S03

/// Ciphertext blocks of messages whose plaintext repeats every 16 bytes: two equal blocks
/// mean that key stream was used twice.
#[derive(Default)]
struct Blocks {
    seen: HashMap<[u8; 16], (usize, usize, usize)>,
    n: u64,
}

impl Blocks {
    fn add(&mut self, who: (usize, usize, usize), body: &[u8]) -> Result<(), String> {
        for c in body.chunks(16).filter(|c| c.len() == 16) {
            let mut k = [0u8; 16];
            k.copy_from_slice(c);
            self.n += 1;
            if let Some(o) = self.seen.insert(k, who) {
                return Err(format!(
                    "the same 16 ciphertext bytes appear in (session, direction, frame) {:?} and {:?} for equal plaintext",
                    o, who
                ));
            }
        }
        Ok(())
    }
}

async fn s03_case(seed: u64, idx: u64, thorough: bool) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    acc.add(impls, 1);
    acc.nontrivial = true;
    if idx % 40 < 3 {
        // a long run of one cipher: the message number must not come round
        let c = CT[idx as usize % 40];
        let key = r.bytes(c.key_size());
        let n: usize = if thorough { 1_500_000 } else { 140_000 };
        let mut set = HashSet::with_capacity(n);
        let mut e = new_stream(c, &key, CryptoMode::Encrypt);
        let zero = [0u8; 16];
        for i in 0..n {
            let x = match e.encrypt(&zero) {
                Ok(x) => x,
                Err(e) => return Verdict::Inconclusive(format!("encryption failed: {:?}", e)),
            };
            let mut b = [0u8; 16];
            b.copy_from_slice(&x[..16]);
            if !set.insert(b) {
                return Verdict::Violation("keystream-reuse".into(), format!("{:?}: message {} encrypts to the bytes of an earlier message", c, i));
            }
            if i % 4096 == 0 {
                exec::beat();
            }
        }
        acc.add("cipher_messages", n as u64);
        acc.sig = mix(seed, 1);
        return Verdict::Pass(acc);
    }
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let l = Lists::random(&mut r);
    let pattern = r.bytes(16);
    let sessions = r.rus(1, 3);
    let long = idx % 40 == 5;
    let count = if long { 66_000 } else { *r.pick(&[3usize, 20, 300, 600]) };
    let mut blocks = Blocks::default();
    let mut rands: HashSet<Vec<u8>> = HashSet::new();
    for sess in 0..if long { 1 } else { sessions } {
        let mut ex = Exec::new(r.fork());
        let (a, b, ab, ba) = link::pair(&if long { LinkCfg::fast() } else { link_cfg(&mut r) }, &mut r);
        ex.actor(Rc::new(ab.clone()));
        ex.actor(Rc::new(ba.clone()));
        let ha = start(&ex, "a", l.apply(Config::new(ida.pair())), a);
        let hb = start(&ex, "b", l.apply(Config::new(idb.pair())), b);
        ex.run(STEPS, || false).await;
        let (sa, sb) = match (stream(&ha), stream(&hb)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Verdict::Inconclusive("no session".into()),
        };
        let done = Rc::new(RefCell::new(0));
        for s in vec![sa, sb] {
            let (mut rd, mut wr) = tokio::io::split(s);
            let pat = pattern.clone();
            let mut r2 = r.fork();
            let d2 = done.clone();
            ex.spawn("w", async move {
                for _ in 0..count {
                    let k = if long { 1 } else { r2.rus(1, 6) };
                    if wr.write_all(&pat.repeat(k)).await.is_err() {
                        break;
                    }
                }
                let _ = wr.flush().await;
                *d2.borrow_mut() += 1;
                futures::future::pending::<()>().await;
                drop(wr);
            });
            ex.spawn("r", async move {
                let mut b = vec![0u8; 4096];
                while let Ok(n) = rd.read(&mut b).await {
                    if n == 0 {
                        break;
                    }
                }
            });
        }
        if ex.run(STEPS * 3, || false).await == Stop::Steps {
            return Verdict::Inconclusive("step budget".into());
        }
        for (dir, w) in [ab, ba].iter().enumerate() {
            let sent = w.with_sent(|s| s.to_vec());
            // nothing outside encrypted frames, and the plaintext nowhere
            if sent.windows(16).any(|x| x == &pattern[..]) {
                return Verdict::Violation("plaintext".into(), format!("written data appears on the wire (session {}, direction {})", sess, dir));
            }
            let mut rest = &sent[..];
            let mut n = 0;
            while rest.len() >= 4 {
                let len = u32::from_be_bytes([rest[0], rest[1], rest[2], rest[3]]) as usize;
                if rest.len() < 4 + len {
                    break;
                }
                let body = &rest[4..4 + len];
                if n == 0 {
                    if let Some(f) = untable(body, 5) {
                        if !rands.insert(f[0].clone()) {
                            return Verdict::Violation("nonce-reuse".into(), "two handshakes used the same random nonce".into());
                        }
                    }
                } else if n == 1 {
                    if let Some(f) = untable(body, 2) {
                        if !rands.insert(f[0].clone()) {
                            return Verdict::Violation("ephemeral-reuse".into(), "two handshakes used the same ephemeral key".into());
                        }
                    }
                } else if n > 2 {
                    if let Err(e) = blocks.add((sess, dir, n), body) {
                        return Verdict::Violation("keystream-reuse".into(), e);
                    }
                }
                n += 1;
                rest = &rest[4 + len..];
            }
            if !rest.is_empty() {
                return Verdict::Violation("outside-frames".into(), format!("{} bytes on the wire that are no frame", rest.len()));
            }
            acc.add("frames", n as u64);
            acc.max("frames_per_direction", n as u64);
        }
        acc.add("sessions", 1);
        ex.clear();
    }
    acc.add("blocks_compared", blocks.n);
    acc.sig = mix(seed, 0);
    if seed % 20 == 0 {
        acc.sample = Some(format!("{} sessions, {} ciphertext blocks of equal plaintext, all different", sessions, blocks.n));
    }
    Verdict::Pass(acc)
}

pub fn s03(ctx: &Ctx) -> ! {
    let thorough = !ctx.quick();
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which the wire bytes of whole sessions writing equal plaintext blocks were recorded and compared block by block; distinct = cases (fresh keys each)".into(),
            assumptions: vec![
                "all supported ciphers encrypt by combining the plaintext with a key stream, so equal ciphertext blocks of equal plaintext blocks mean reuse".into(),
                "a chance collision of 16 random bytes is ignored".into(),
            ],
            cases: ctx.q(700, 60_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: vec!["blocks_compared", "cipher_messages", "sessions", "cases with ring ciphers", "cases with mixed ciphers", "cases with openssl ciphers"],
        },
        move |seed, idx| exec::with_runtime(s03_case(seed, idx, thorough)),
    )
}

// ---------------------------------------------------------------- S05

#[derive(Default)]
struct Flow {
    written: u64,
    read: u64,
    closed: bool,
    /// flushed after the last write
    flushed: bool,
    end: Option<String>,
    bad: Option<String>,
    empty_reads: u64,
    small_reads: u64,
    /// writes of more than a frame holds
    long_writes: u64,
}

async fn s05_case(seed: u64) -> Verdict {
    let impls = mix_ciphers(seed);
    let mut r = Rng::new(seed);
    let cfg = LinkCfg::random(&mut r);
    let (ida, idb) = (Id::new(&mut r), Id::new(&mut r));
    let l = Lists::random(&mut r);
    let mut ex = Exec::new(r.fork());
    ex.spurious = *r.pick(&[0, 0, 9]);
    let (a, b, ab, ba) = link::pair(&for_handshake(cfg.clone()), &mut r);
    ex.actor(Rc::new(ab.clone()));
    ex.actor(Rc::new(ba.clone()));
    let limit = *r.pick(&[400usize, 1000, 20_000, 8 << 20]);
    let slow = cfg.cap.min(cfg.chunk).min(cfg.arrived_cap) < 20;
    let budget = if slow { 600 } else { *r.pick(&[300usize, 3000, 40_000, 200_000]) };
    let ha = start(&ex, "a", l.apply(Config::new(ida.pair())).max_frame_length(limit), a);
    let hb = start(&ex, "b", l.apply(Config::new(idb.pair())).max_frame_length(limit), b);
    if ex.run(STEPS, || false).await == Stop::Steps {
        return Verdict::Inconclusive("step budget".into());
    }
    let (sa, sb) = match (stream(&ha), stream(&hb)) {
        (Some(x), Some(y)) => (x, y),
        _ => {
            return Verdict::Violation(
                "handshake-stuck".into(),
                format!("handshake over {:?}: {} and {}", cfg, ha.borrow().text(), hb.borrow().text()),
            )
        }
    };
    ab.set_cfg(cfg.clone());
    ba.set_cfg(cfg.clone());
    let flows: Vec<Rc<RefCell<Flow>>> = (0..2).map(|_| Rc::new(RefCell::new(Flow::default()))).collect();
    // one end closes after its data, or neither
    let closer = r.below(3) as usize;
    for (i, s) in vec![sa, sb].into_iter().enumerate() {
        let (mut rd, mut wr) = tokio::io::split(s);
        let (out, inn) = (flows[i].clone(), flows[1 - i].clone());
        let (kout, kin) = (seed.wrapping_add(i as u64), seed.wrapping_add(1 - i as u64));
        let mut rw = r.fork();
        let mut rr = r.fork();
        // also more than fits into a frame
        let maxw = *r.pick(&[1usize, 20, 300, 5000, 100_000]);
        let close = closer == i;
        let total = rw.rus(1, budget) as u64;
        ex.spawn("writer", async move {
            let mut p = 0u64;
            while p < total {
                let n = if rw.chance(1, 3) { maxw } else { rw.rus(1, maxw) };
                let n = n.min((total - p) as usize).max(1);
                let d = coded(kout, p, n);
                if n > limit {
                    out.borrow_mut().long_writes += 1;
                }
                match wr.write(&d).await {
                    Ok(k) if k <= n && k > 0 => p += k as u64,
                    Ok(k) => {
                        out.borrow_mut().bad = Some(format!("write of {} bytes returned {}", n, k));
                        break;
                    }
                    Err(e) => {
                        out.borrow_mut().bad = Some(format!("write failed: {}", e));
                        break;
                    }
                }
                out.borrow_mut().written = p;
                if rw.chance(1, 5) {
                    if let Err(e) = wr.flush().await {
                        out.borrow_mut().bad = Some(format!("flush failed: {}", e));
                        break;
                    }
                }
            }
            if close && rw.chance(1, 2) {
                // closing flushes
                let _ = wr.shutdown().await;
                out.borrow_mut().closed = true;
                out.borrow_mut().flushed = true;
            } else {
                if let Err(e) = wr.flush().await {
                    out.borrow_mut().bad = Some(format!("flush failed: {}", e));
                }
                out.borrow_mut().flushed = true;
                if close {
                    let _ = wr.shutdown().await;
                    out.borrow_mut().closed = true;
                }
            }
            futures::future::pending::<()>().await;
            drop(wr);
        });
        ex.spawn("reader", async move {
            let big = *rr.pick(&[1usize, 7, 100, 5000, 70_000]);
            let zero = rr.chance(1, 3);
            loop {
                if zero && rr.chance(1, 4) {
                    // a read without room must not take anything
                    let mut none = [0u8; 0];
                    let mut done = false;
                    // only when it is ready at once, like a reader that polls with a full buffer
                    let res = futures::future::poll_fn(|cx| {
                        use tokio::io::AsyncRead;
                        if done {
                            return std::task::Poll::Ready(None);
                        }
                        done = true;
                        match std::pin::Pin::new(&mut rd).poll_read(cx, &mut none) {
                            std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
                            std::task::Poll::Pending => std::task::Poll::Ready(None),
                        }
                    })
                    .await;
                    inn.borrow_mut().empty_reads += 1;
                    if let Some(Err(e)) = res {
                        inn.borrow_mut().end = Some(e.to_string());
                        break;
                    }
                    continue;
                }
                let n = if rr.chance(1, 2) { big } else { rr.rus(1, big) };
                let mut b = vec![0u8; n];
                match rd.read(&mut b).await {
                    Ok(0) => {
                        inn.borrow_mut().end = Some("end of stream".into());
                        break;
                    }
                    Ok(k) => {
                        let mut f = inn.borrow_mut();
                        if n < 16 {
                            f.small_reads += 1;
                        }
                        for (j, x) in b[..k].iter().enumerate() {
                            if *x != code(kin, f.read + j as u64) && f.bad.is_none() {
                                f.bad = Some(format!("byte {} read is not the byte written there", f.read + j as u64));
                            }
                        }
                        f.read += k as u64;
                    }
                    Err(e) => {
                        inn.borrow_mut().end = Some(e.to_string());
                        break;
                    }
                }
            }
            futures::future::pending::<()>().await;
            drop(rd);
        });
    }
    if ex.run(STEPS * 2, || false).await == Stop::Steps {
        return Verdict::Inconclusive("step budget".into());
    }
    let mut acc = Acc::default();
    acc.add(impls, 1);
    for (i, f) in flows.iter().enumerate() {
        let f = f.borrow();
        let what = format!(
            "direction {}: {} written, {} read, flushed {}, closed {}, end {:?}, link {:?}, frame limit {}",
            i, f.written, f.read, f.flushed, f.closed, f.end, cfg, limit
        );
        if let Some(b) = &f.bad {
            return Verdict::Violation("wrong-byte".into(), format!("{}; {}", b, what));
        }
        if !f.flushed {
            return Verdict::Violation("stuck-write".into(), format!("nothing can move any more, but {}", what));
        }
        if f.read != f.written {
            let k = if f.end.is_some() { "early-end" } else { "lost" };
            return Verdict::Violation(k.into(), what);
        }
        if f.closed && f.end.is_none() {
            return Verdict::Violation("close-not-reported".into(), what);
        }
        if !f.closed && f.end.is_some() {
            return Verdict::Violation("spurious-end".into(), what);
        }
        acc.add("bytes", f.read);
        acc.add("empty_reads", f.empty_reads);
        acc.add("partial_frame_reads", f.small_reads);
        acc.add("writes longer than a frame", f.long_writes);
        acc.add("closes", f.closed as u64);
    }
    acc.nontrivial = true;
    acc.sig = ex.trace;
    if seed % 40 == 0 {
        acc.sample = Some(format!("{} bytes over {:?}", acc.get("bytes"), cfg));
    }
    ex.clear();
    Verdict::Pass(acc)
}

pub fn s05(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "cases in which both directions of a session were written, read and compared byte by byte to quiescence; distinct = hash of the interleaving".into(),
            assumptions: vec!["a single write is not larger than the configured frame limit allows".into()],
            cases: ctx.q(5000, 600_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: vec!["bytes", "empty_reads", "writes longer than a frame", "partial_frame_reads", "closes", "cases with ring ciphers", "cases with mixed ciphers", "cases with openssl ciphers"],
        },
        |seed, _| exec::with_runtime(s05_case(seed)),
    )
}
