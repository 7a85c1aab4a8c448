//! Y03, Y06, Y09, Y11: one real session against a scripted peer that speaks raw frames.
use crate::wire::{self, Parser, ACK, FIN, RST, SYN};
use futures::Stream;
use std::{
    cell::RefCell,
    collections::BTreeMap,
    io,
    pin::Pin,
    rc::Rc,
    task::{Poll, Waker},
};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{Config, Control, Session, StreamHandle};
use vcommon::{
    exec::{self, Exec, Stop},
    link::{self, LinkCfg, Sock, Way},
    mix, Acc, CheckSpec, Ctx, Rng, Verdict,
};

#[derive(Default)]
pub struct App {
    pub accepted: Vec<u32>,
    pub got: BTreeMap<u32, Vec<u8>>,
    pub err: BTreeMap<u32, io::ErrorKind>,
    pub over: Option<(String, Option<io::ErrorKind>)>,
    pub over_at: u64,
    /// accept but do not read
    pub paused: bool,
    /// streams that read once while everything else is paused
    pub read_once: Vec<u32>,
    pub wakers: Vec<Waker>,
    /// handles to drop when asked
    pub drop_req: Vec<u32>,
    /// handles to close when asked
    pub close_req: Vec<u32>,
    pub live: Vec<u32>,
    pub accept_count: BTreeMap<u32, u32>,
    pub echo: bool,
    /// stop polling the session
    pub hold_session: bool,
    pub reads: u64,
}

pub type A = Rc<RefCell<App>>;

pub struct Sx {
    pub ex: Exec,
    pub app: A,
    /// peer -> session
    pub tx: Way,
    /// session -> peer
    pub rx: Way,
    pub out: Parser,
    pub ctl: Control,
    pub frames: Vec<wire::F>,
    _keep: Sock,
    pub side: u8,
    /// pings of the session already answered
    pub ponged: usize,
}

async fn reader(a: A, mut h: StreamHandle, mut r: Rng) {
    let id = h.id();
    let mut pending_echo: Vec<u8> = vec![];
    let mut shut = false;
    futures::future::poll_fn(move |cx| {
        for _ in 0..20 {
            {
                let mut b = a.borrow_mut();
                if let Some(p) = b.drop_req.iter().position(|x| *x == id) {
                    b.drop_req.remove(p);
                    b.live.retain(|x| *x != id);
                    return Poll::Ready(());
                }
                if let Some(p) = b.close_req.iter().position(|x| *x == id) {
                    b.close_req.remove(p);
                    drop(b);
                    let _ = Pin::new(&mut h).poll_shutdown(cx);
                    shut = true;
                    continue;
                }
                b.wakers.push(cx.waker().clone());
                if b.paused {
                    match b.read_once.iter().position(|x| *x == id) {
                        Some(p) => b.read_once.remove(p),
                        None => return Poll::Pending,
                    };
                }
            }
            if !pending_echo.is_empty() && !shut {
                match Pin::new(&mut h).poll_write(cx, &pending_echo) {
                    Poll::Ready(Ok(n)) => {
                        pending_echo.drain(..n);
                        continue;
                    }
                    Poll::Ready(Err(_)) => pending_echo.clear(),
                    Poll::Pending => {}
                }
            }
            let n = *r.pick(&[1, 7, 100, 100_000]);
            let mut buf = vec![0; n];
            match Pin::new(&mut h).poll_read(cx, &mut buf) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Ok(n)) => {
                    let mut b = a.borrow_mut();
                    b.reads += 1;
                    b.got.entry(id).or_default().extend_from_slice(&buf[..n]);
                    if b.echo {
                        pending_echo.extend_from_slice(&buf[..n]);
                    }
                }
                Poll::Ready(Err(e)) => {
                    let mut b = a.borrow_mut();
                    b.err.insert(id, e.kind());
                    b.live.retain(|x| *x != id);
                    drop(b);
                    // an application may still shut its end down before it drops it
                    if r.chance(1, 2) {
                        let _ = Pin::new(&mut h).poll_shutdown(cx);
                    }
                    return Poll::Ready(());
                }
            }
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

pub fn start(r: &mut Rng, cfg: Config, link: &LinkCfg, local: usize) -> Sx {
    let mut ex = Exec::new(r.fork());
    let (s, p, sp, ps) = link::pair(link, r);
    ex.actor(Rc::new(sp.clone()));
    ex.actor(Rc::new(ps.clone()));
    let side = r.below(2) as u8;
    let mut sess = if side == 0 { Session::new_client(s, cfg) } else { Session::new_server(s, cfg) };
    let app: A = Rc::new(RefCell::new(App::default()));
    let spn = ex.spawner();
    for _ in 0..local {
        let h = sess.open_stream().expect("open on a fresh session");
        app.borrow_mut().live.push(h.id());
        spn.spawn(format!("local {}", h.id()), reader(app.clone(), h, r.fork()));
    }
    let ctl = sess.control();
    let a = app.clone();
    let mut r2 = r.fork();
    ex.spawn("session", async move {
        loop {
            let aa = a.clone();
            let x = futures::future::poll_fn(|cx| {
                if aa.borrow().hold_session {
                    aa.borrow_mut().wakers.push(cx.waker().clone());
                    return Poll::Pending;
                }
                Pin::new(&mut sess).poll_next(cx)
            })
            .await;
            match x {
                Some(Ok(h)) => {
                    let id = h.id();
                    let mut b = a.borrow_mut();
                    b.accepted.push(id);
                    b.live.push(id);
                    *b.accept_count.entry(id).or_insert(0) += 1;
                    drop(b);
                    spn.spawn(format!("stream {}", id), reader(a.clone(), h, r2.fork()));
                }
                Some(Err(e)) => {
                    let mut b = a.borrow_mut();
                    b.over = Some((format!("{}", e), Some(e.kind())));
                    b.over_at = vcommon::clock::now_ms();
                    break;
                }
                None => {
                    let mut b = a.borrow_mut();
                    b.over = Some(("end".into(), None));
                    b.over_at = vcommon::clock::now_ms();
                    break;
                }
            }
        }
    });
    Sx { ex, app, tx: ps, rx: sp, out: Parser::default(), ctl, frames: vec![], _keep: p, side, ponged: 0 }
}

impl Sx {
    /// ids the peer may open
    pub fn peer_id(&self, n: u32) -> u32 {
        if self.side == 0 {
            2 * n + 2
        } else {
            2 * n + 1
        }
    }
    pub fn wake(&self) {
        let ws: Vec<_> = self.app.borrow_mut().wakers.drain(..).collect();
        for w in ws {
            w.wake();
        }
    }
    /// what the peer can see now
    pub fn pull(&mut self) {
        self.rx.drain();
        let taken = self.rx.taken();
        let p = &mut self.out;
        let fs = &mut self.frames;
        self.rx.with_sent(|b| {
            while let Some(f) = p.next(b, taken as usize) {
                fs.push(f);
            }
        });
    }
    /// run at most n steps; true when idle
    pub async fn steps(&mut self, n: u64) -> Result<bool, ()> {
        let mut left = n;
        loop {
            let k = left.min(500);
            let s = self.ex.run(k, || false).await;
            self.pull();
            left -= k;
            if s == Stop::Quiescent {
                // the peer took bytes: room for more may have appeared
                if self.ex.run(1, || false).await == Stop::Quiescent {
                    return Ok(true);
                }
            }
            if left == 0 {
                return Ok(false);
            }
        }
    }
    pub async fn idle(&mut self) -> Result<(), Verdict> {
        match self.steps(4_000_000).await {
            Ok(true) => Ok(()),
            _ => Err(Verdict::Inconclusive(format!(
                "not idle after 4000000 steps: {:?}, tx {:?}, strategy {:?}",
                self.ex.alive(),
                self.tx.idle(),
                self.ex.strategy
            ))),
        }
    }
    pub fn credit(&self, id: u32) -> u64 {
        self.frames.iter().filter(|f| f.id == id && f.ty == 1).map(|f| u64::from(f.len)).sum()
    }
    pub fn was_reset(&self, id: u32) -> bool {
        self.frames.iter().any(|f| f.id == id && f.flags & RST != 0 && f.ty <= 1)
    }
    pub fn goaway(&self) -> Option<u32> {
        self.frames.iter().find(|f| f.ty == 3).map(|f| f.len)
    }
    pub fn over(&self) -> Option<(String, Option<io::ErrorKind>)> {
        self.app.borrow().over.clone()
    }
}

fn small_link(r: &mut Rng) -> LinkCfg {
    let mut l = LinkCfg::random(r);
    l.cap = l.cap.max(64);
    l.arrived_cap = l.arrived_cap.max(64);
    l
}

type R = Result<Acc, Verdict>;

fn bad<T>(k: &str, t: String) -> Result<T, Verdict> {
    Err(Verdict::Violation(k.into(), t))
}

fn fold(r: R) -> Verdict {
    match r {
        Ok(a) => Verdict::Pass(a),
        Err(v) => v,
    }
}

async fn case03(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut cfg = Config::default();
    cfg.enable_keepalive = false;
    let win = match r.below(4) {
        0 => r.range(2, 12),
        1 => r.range(12, 300),
        2 => 4096,
        _ => r.range(300, 20_000),
    };
    cfg.max_stream_window_size = win as u32;
    let link = small_link(&mut r);
    let mut s = start(&mut r, cfg, &link, 0);
    let n = r.rus(1, 4);
    let ids: Vec<u32> = (0..n as u32).map(|i| s.peer_id(i)).collect();
    let mut sent: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut acc = Acc::default();
    for id in &ids {
        s.tx.inject(&wire::win(SYN, *id, 0));
        sent.insert(*id, vec![]);
    }
    let kind = r.below(3); // 0 compliant, 1 overrun, 2 overrun with a reader that does not read
    let rounds = r.rus(3, 30);
    let mut total = 0;
    for _ in 0..rounds {
        let id = *r.pick(&ids);
        let credit = win + s.credit(id) - sent[&id].len() as u64;
        if credit > 0 {
            let k = if r.chance(1, 2) { credit } else { r.range(1, credit) };
            let mut left = k;
            while left > 0 {
                let f = if r.chance(1, 2) { left } else { r.range(1, left.min(400)) }.min(win);
                let body = r.bytes(f as usize);
                s.tx.inject(&wire::data(0, id, &body));
                sent.get_mut(&id).unwrap().extend_from_slice(&body);
                left -= f;
                total += f;
                if r.chance(1, 3) {
                    let _ = s.steps(r.range(1, 60)).await;
                }
            }
        }
        if r.chance(1, 4) {
            let p = s.app.borrow().paused;
            s.app.borrow_mut().paused = !p;
            s.wake();
        }
        let _ = s.steps(r.range(1, 400)).await;
        if let Some(o) = s.over() {
            return bad("compliant-penalised", format!("peer within its credit (window {}), session ended: {:?}", win, o));
        }
        if total > 60_000 {
            break;
        }
    }
    s.app.borrow_mut().paused = false;
    s.wake();
    s.idle().await?;
    // the compliant part: everything is delivered, nobody was penalised
    if let Some(o) = s.over() {
        return bad("compliant-penalised", format!("peer within its credit (window {}), session ended: {:?}", win, o));
    }
    if let Some(c) = s.goaway() {
        return bad("compliant-goaway", format!("peer within its credit got go-away {}", c));
    }
    for id in &ids {
        let g = s.app.borrow().got.get(id).cloned().unwrap_or_default();
        if g != sent[id] {
            return bad("compliant-data", format!("stream {}: {} of {} bytes delivered", id, g.len(), sent[id].len()));
        }
        if s.was_reset(*id) {
            return bad("compliant-reset", format!("stream {} of a compliant peer was reset", id));
        }
        acc.add("bytes_delivered", g.len() as u64);
    }
    acc.add("compliant_rounds", 1);
    if kind == 1 {
        // all consumed and idle: the peer's credit is exactly what the session still accepts
        let id = *r.pick(&ids);
        let mut credit = win + s.credit(id) - sent[&id].len() as u64;
        if credit >= win {
            // use part of the window so that an over-long but well-formed frame exists
            let k = r.range(1, ((win - 1) / 2).max(1));
            if k * 2 < win {
                let body = r.bytes(k as usize);
                s.tx.inject(&wire::data(0, id, &body));
                sent.get_mut(&id).unwrap().extend_from_slice(&body);
                s.idle().await?;
                credit = win + s.credit(id) - sent[&id].len() as u64;
            }
        }
        if credit < win {
            let k = if r.chance(1, 2) { credit + 1 } else { r.range(credit + 1, win) };
            let body = r.bytes(k as usize);
            let before = sent[&id].len();
            s.tx.inject(&wire::data(0, id, &body));
            s.idle().await?;
            let g = s.app.borrow().got.get(&id).cloned().unwrap_or_default();
            if g.len() as u64 > win + s.credit(id) || g.len() > before + credit as usize {
                return bad("delivered-past-window", format!("stream {}: {} bytes delivered, window {} + credit {}", id, g.len(), win, s.credit(id)));
            }
            if s.goaway() != Some(1) {
                return bad("overrun-tolerated", format!(
                    "stream {}: frame of {} bytes with credit {} (window {}): no protocol error (go-away {:?}, session {:?}, read error {:?})",
                    id, k, credit, win, s.goaway(), s.over(), s.app.borrow().err.get(&id)));
            }
            // the peer does not answer: the session gives up by itself
            let mut t = 0;
            while s.over().is_none() && t < 40 {
                s.ex.advance(1000).await;
                s.idle().await?;
                t += 1;
            }
            if s.over().is_none() {
                return bad("overrun-survives", format!("session still running {} s after a window overrun", t));
            }
            acc.add("overruns_cut_off", 1);
        }
    } else if kind == 2 {
        // nobody reads while the peer floods one stream
        s.app.borrow_mut().paused = true;
        s.wake();
        s.idle().await?;
        let id = *r.pick(&ids);
        let before = sent[&id].len() as u64;
        let mut flood = 0u64;
        let limit = 40 * win + 4000;
        while flood < limit && s.over().is_none() && s.goaway().is_none() {
            let k = r.range(1, win);
            let body = r.bytes(k as usize);
            s.tx.inject(&wire::data(0, id, &body));
            flood += k;
            let _ = s.steps(2000).await;
            if flood > 3 * win && r.chance(1, 20) {
                s.idle().await?;
            }
        }
        s.idle().await?;
        let got = s.app.borrow().got.get(&id).map(|g| g.len() as u64).unwrap_or(0);
        let held = before + flood - got;
        acc.max("held_windows", held / win);
        if s.goaway().is_none() && s.over().is_none() {
            return bad("unbounded-buffering", format!(
                "stream {} is not read: session took {} bytes beyond what the application read, window {}, and keeps accepting",
                id, held, win));
        }
        acc.add("floods_cut_off", 1);
    }
    acc.nontrivial = true;
    acc.sig = mix(s.ex.trace, mix(win, total));
    acc.sample = Some(format!("window {}, {} streams, {} bytes within credit, kind {}", win, n, total, kind));
    Ok(acc)
}

pub fn y03(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a scripted peer stays within its credit and everything must arrive, or overruns it by a known amount and must be cut off; distinct = hash of interleaving, window and amount".into(),
            assumptions: vec!["the overrun is sent when everything earlier was consumed, so the accepting end's window is known exactly".into()],
            cases: ctx.q(30_000, 3_000_000),
            budget_s: ctx.q(20, 600),
            threads: 8,
            must_see: vec!["bytes_delivered", "overruns_cut_off", "floods_cut_off"],
        },
        |seed, _| fold(exec::with_runtime(case03(seed))),
    )
}

async fn case06(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut cfg = Config::default();
    cfg.enable_keepalive = false;
    cfg.max_stream_count = r.rus(0, 6);
    cfg.accept_backlog = if r.chance(1, 2) { 256 } else { r.rus(0, 4) };
    let local = if r.chance(1, 3) { r.rus(0, 3) } else { 0 };
    let link = small_link(&mut r);
    let mut s = start(&mut r, cfg, &link, local);
    s.app.borrow_mut().echo = true;
    s.idle().await?;
    let mut acc = Acc::default();
    let mut next = 0u32;
    let mut mine: Vec<u32> = vec![]; // accepted and not ended
    let rounds = r.rus(4, 30);
    let m = cfg.max_stream_count;
    for _ in 0..rounds {
        match r.below(10) {
            0..=4 => {
                // a burst of opens
                let k = if r.chance(1, 2) { 1 } else { r.rus(2, 8) };
                // the session task is not scheduled while the burst arrives in part of the cases
                let hold = k > 1 && r.chance(1, 2);
                if hold {
                    s.app.borrow_mut().hold_session = true;
                    s.wake();
                    let _ = s.steps(50).await;
                }
                let mut ids = vec![];
                for _ in 0..k {
                    let id = s.peer_id(next);
                    next += 1;
                    s.tx.inject(&wire::win(SYN, id, 0));
                    ids.push(id);
                }
                if hold {
                    let _ = s.steps(3000).await;
                    s.app.borrow_mut().hold_session = false;
                    s.wake();
                }
                s.idle().await?;
                for (i, id) in ids.iter().enumerate() {
                    let acc_n = s.app.borrow().accepted.iter().filter(|x| *x == id).count();
                    let rst = s.was_reset(*id);
                    if acc_n > 1 || (acc_n == 1 && rst) || (acc_n == 0 && !rst) {
                        return bad("outcome", format!("stream {}: accepted {} times, reset {}", id, acc_n, rst));
                    }
                    if acc_n == 1 {
                        if mine.len() >= m {
                            return bad("limit-exceeded", format!("stream {} accepted as number {} with limit {}", id, mine.len() + 1, m));
                        }
                        if cfg.accept_backlog == 0 {
                            return bad("backlog-exceeded", format!("stream {} accepted with no room for streams waiting", id));
                        }
                        mine.push(*id);
                        acc.add("accepted", 1);
                    } else {
                        acc.add("refused", 1);
                        // a single open with room left must be accepted
                        if mine.len() + local < m && cfg.accept_backlog >= 1 && (k == 1 || i < cfg.accept_backlog) {
                            return bad("refused-with-room", format!(
                                "stream {} refused with {} remote and {} local streams, limit {}, backlog {}",
                                id, mine.len(), local, m, cfg.accept_backlog));
                        }
                        if cfg.accept_backlog == 0 || mine.len() + local >= m {
                            acc.add("excess_reset", 1);
                        }
                    }
                }
            }
            5 | 6 => {
                // traffic on an open stream still works
                if let Some(id) = mine.get(r.us(mine.len().max(1))).copied() {
                    let body = r.bytes(r.clone().rus(1, 300));
                    let seen = |s: &Sx| -> Vec<u8> {
                        s.frames.iter().filter(|f| f.id == id && f.ty == 0).flat_map(|f| f.body.clone()).collect()
                    };
                    let before = seen(&s).len();
                    s.tx.inject(&wire::data(0, id, &body));
                    s.idle().await?;
                    let after = seen(&s);
                    if after[before..] != body[..] {
                        return bad("other-stream-broken", format!("echo on stream {} returned {} of {} bytes", id, after.len() - before, body.len()));
                    }
                    acc.add("echoes", 1);
                }
            }
            7 | 8 => {
                if !mine.is_empty() {
                    let id = mine.remove(r.us(mine.len()));
                    // ended by the application or by the peer
                    match r.below(6) {
                        0 => {
                            s.app.borrow_mut().drop_req.push(id);
                            s.wake();
                        }
                        1 => s.tx.inject(&wire::win(RST, id, 0)),
                        2 => s.tx.inject(&wire::win(FIN, id, 0)),
                        3 => {
                            // shut down by the application, then ended by the peer or dropped
                            for _ in 0..r.rus(1, 2) {
                                s.app.borrow_mut().close_req.push(id);
                            }
                            s.wake();
                            s.idle().await?;
                            match r.below(3) {
                                0 => s.tx.inject(&wire::win(FIN, id, 0)),
                                1 => s.tx.inject(&wire::win(RST, id, 0)),
                                _ => {}
                            }
                            s.idle().await?;
                            s.app.borrow_mut().drop_req.push(id);
                            s.wake();
                            acc.add("shut_first", 1);
                        }
                        k => {
                            // ended by the peer with data not yet read, which the application sees in
                            // one read before it shuts the stream down
                            s.app.borrow_mut().paused = true;
                            let body = r.bytes(r.clone().rus(1, 300));
                            let end = if k == 4 || r.chance(1, 2) { FIN } else { RST };
                            if r.chance(1, 2) {
                                s.tx.inject(&wire::data(end, id, &body));
                            } else {
                                s.tx.inject(&wire::data(0, id, &body));
                                s.tx.inject(&wire::win(end, id, 0));
                            }
                            s.idle().await?;
                            s.app.borrow_mut().read_once.push(id);
                            s.wake();
                            s.idle().await?;
                            for _ in 0..r.rus(1, 2) {
                                s.app.borrow_mut().close_req.push(id);
                                s.wake();
                                s.idle().await?;
                            }
                            s.app.borrow_mut().drop_req.push(id);
                            s.wake();
                            s.idle().await?;
                            {
                                let mut b = s.app.borrow_mut();
                                b.paused = false;
                                b.read_once.retain(|x| *x != id);
                            }
                            s.wake();
                            acc.add("shut_after_end", 1);
                        }
                    }
                    s.idle().await?;
                    if s.app.borrow().live.contains(&id) {
                        return bad("not-ended", format!("stream {} still there after it was ended", id));
                    }
                    acc.add("freed", 1);
                }
            }
            _ => {
                // opening from this side is not affected by the peer's streams
                let a = s.app.clone();
                let mut c = s.ctl.clone();
                let res = Rc::new(RefCell::new(None));
                let res2 = res.clone();
                s.ex.spawn("local-open", async move {
                    let x = c.open_stream().await;
                    *res2.borrow_mut() = Some(x.is_ok());
                    drop(x);
                    drop(a);
                });
                s.idle().await?;
                if *res.borrow() != Some(true) {
                    return bad("local-open", format!("opening a stream returned {:?}", res.borrow()));
                }
            }
        }
        if let Some(o) = s.over() {
            return bad("session-ended", format!("session ended because of refused streams: {:?}", o));
        }
        if s.goaway().is_some() {
            return bad("goaway", "session said go-away because of refused streams".into());
        }
        let held = s.app.borrow().live.iter().filter(|i| mine.contains(i)).count();
        acc.max("held", held as u64);
    }
    acc.nontrivial = acc.get("accepted") + acc.get("refused") > 0;
    acc.sig = mix(s.ex.trace, m as u64);
    acc.sample = Some(format!("limit {}, backlog {}, local {}, {} accepted, {} refused, {} freed", m, cfg.accept_backlog, local, acc.get("accepted"), acc.get("refused"), acc.get("freed")));
    Ok(acc)
}

pub fn y06(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a scripted peer opens, uses and ends streams against a model of the limits; distinct = hash of interleaving and limit".into(),
            assumptions: vec!["streams opened by the local end count towards the limit (as implemented); refusals are judged only when remote and local streams together are below it".into()],
            cases: ctx.q(100_000, 5_000_000),
            budget_s: ctx.q(15, 600),
            threads: 8,
            must_see: vec!["accepted", "excess_reset", "freed", "echoes", "shut_first", "shut_after_end"],
        },
        |seed, _| fold(exec::with_runtime(case06(seed))),
    )
}

async fn case09(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut cfg = Config::default();
    cfg.enable_keepalive = true;
    let iv = r.range(1, 40) * 1000;
    cfg.keepalive_interval = std::time::Duration::from_millis(iv);
    if r.chance(1, 2) {
        cfg.max_stream_window_size = r.range(1, 3000) as u32;
    }
    let link = small_link(&mut r);
    let mut s = start(&mut r, cfg, &link, 0);
    let mut acc = Acc::default();
    s.idle().await?;
    // peer behaviour: 0 answers every ping after a delay, 1 answers only some (a later answer
    // covers the earlier ones), 2 silent from some point on
    let kind = r.below(3);
    // answers must arrive well before the timeout, which is examined at ticks
    let delay = r.below(23_000);
    let silent_from = r.range(0, 6) * iv + r.below(iv);
    let start_t = vcommon::clock::now_ms();
    let span = if kind == 2 { silent_from + 40 * 1000 + 4 * iv } else { iv * r.range(20, 120) };
    let mut queue: Vec<(u64, u32)> = vec![];
    let mut first_unanswered: Option<u64> = None;
    let mut seen = 0;
    let mut asked: Vec<u32> = vec![];
    let stepmax = (iv / 2).min(2000);
    // in part of the cases the peer sends nothing of its own
    let mute = r.chance(1, 2);
    let mut last_ping_at = start_t;
    let mut lost = 0;
    loop {
        let now = vcommon::clock::now_ms() - start_t;
        if now > span {
            break;
        }
        // the peer's own pings
        if !mute && r.chance(1, 3) {
            for _ in 0..r.rus(1, 3) {
                let id = match r.below(3) {
                    0 => r.below(5) as u32,
                    1 => r.next() as u32,
                    _ => u32::MAX,
                };
                s.tx.inject(&wire::ping(SYN, id));
                asked.push(id);
            }
        }
        s.ex.advance(r.range(1, stepmax)).await;
        s.idle().await?;
        let now = vcommon::clock::now_ms() - start_t;
        // answers must equal the questions
        let pongs: Vec<u32> = s.frames.iter().filter(|f| f.ty == 2 && f.flags & ACK != 0).map(|f| f.len).collect();
        if s.over().is_none() && pongs != asked {
            return bad("ping-answer", format!("window {}: pings {:?}... answered {:?}...", cfg.max_stream_window_size, &asked[asked.len().saturating_sub(4)..], &pongs[pongs.len().saturating_sub(4)..]));
        }
        let pings: Vec<u32> = s.frames.iter().filter(|f| f.ty == 2 && f.flags & SYN != 0).map(|f| f.len).collect();
        for p in &pings[seen..] {
            acc.add("pings_seen", 1);
            last_ping_at = now + start_t;
            let silent = kind == 2 && now >= silent_from;
            if silent {
                if first_unanswered.is_none() {
                    first_unanswered = Some(now);
                }
            } else if kind == 1 && (lost + 2) * iv + delay + 2 * stepmax < 28_000 && r.chance(1, 2) {
                // this one is never answered, the answer to a later one still comes in time
                lost += 1;
                acc.add("pings_lost", 1);
            } else {
                lost = 0;
                queue.push((now + delay, *p));
            }
        }
        seen = pings.len();
        if kind == 1 {
            // answer only the newest due
            if let Some(pos) = queue.iter().rposition(|q| q.0 <= now) {
                let id = queue[pos].1;
                s.tx.inject(&wire::ping(ACK, id));
                queue.drain(..=pos);
                acc.add("answers", 1);
            }
        } else {
            let due: Vec<u32> = queue.iter().filter(|q| q.0 <= now).map(|q| q.1).collect();
            queue.retain(|q| q.0 > now);
            for id in due {
                s.tx.inject(&wire::ping(ACK, id));
                acc.add("answers", 1);
            }
        }
        s.idle().await?;
        // keepalive keeps asking
        if s.over().is_none() && vcommon::clock::now_ms() - last_ping_at > 2 * iv + stepmax {
            return bad("no-ping", format!("no ping for {} ms with interval {} ms", vcommon::clock::now_ms() - last_ping_at, iv));
        }
        if let Some((e, k)) = s.over() {
            let at = s.app.borrow().over_at - start_t;
            match first_unanswered {
                Some(f) if kind == 2 => {
                    if at < f + 29_000 {
                        return bad("killed-early", format!("ended {} ms after the first unanswered ping", at - f));
                    }
                    if k != Some(io::ErrorKind::TimedOut) {
                        return bad("wrong-error", format!("silent peer: session ended with {}", e));
                    }
                    acc.add("silent_peers_timed_out", 1);
                    break;
                }
                _ => {
                    return bad("killed-responsive", format!(
                        "peer answers every ping within {} ms, session ended after {} ms ({} pings, interval {} ms, window {}): {}",
                        delay, at, seen, iv, cfg.max_stream_window_size, e));
                }
            }
        }
        if let Some(f) = first_unanswered {
            if now > f + 31_000 + 2 * iv + 2 * stepmax {
                return bad("silent-survives", format!("session still alive {} ms after the first unanswered ping (interval {})", now - f, iv));
            }
        }
    }
    acc.add("peer_pings", asked.len() as u64);
    acc.add("virtual_seconds", (vcommon::clock::now_ms() - start_t) / 1000);
    acc.nontrivial = acc.get("pings_seen") > 0;
    acc.sig = mix(s.ex.trace, mix(iv, delay));
    acc.sample = Some(format!("interval {} ms, peer kind {}, answer delay {} ms, {} pings over {} virtual seconds", iv, kind, delay, seen, acc.get("virtual_seconds")));
    Ok(acc)
}

pub fn y09(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a scripted peer asks and answers (or ignores) pings under a virtual clock; distinct = hash of interleaving, interval and delay".into(),
            assumptions: vec!["the answering time-out is the fixed 30 s of the implementation, examined at keepalive ticks".into()],
            cases: ctx.q(12_000, 1_000_000),
            budget_s: ctx.q(20, 600),
            threads: 8,
            must_see: vec!["pings_seen", "answers", "silent_peers_timed_out", "peer_pings", "pings_lost"],
        },
        |seed, _| fold(exec::with_runtime(case09(seed))),
    )
}

async fn case11(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut cfg = Config::default();
    cfg.enable_keepalive = r.chance(1, 2);
    let win = match r.below(3) {
        0 => r.range(0, 30),
        1 => r.range(30, 2000),
        _ => 256 * 1024,
    };
    cfg.max_stream_window_size = win as u32;
    cfg.max_stream_count = *r.pick(&[0, 1, 3, 65535]);
    cfg.accept_backlog = *r.pick(&[0, 1, 256]);
    let link = small_link(&mut r);
    let local = r.us(3);
    let mut s = start(&mut r, cfg, &link, local);
    s.app.borrow_mut().echo = r.chance(1, 3);
    let mut acc = Acc::default();
    // bodies per id since the first SYN (or from the start for the session's own streams)
    let mut bodies: BTreeMap<u32, Vec<Vec<u8>>> = BTreeMap::new();
    let mut syns: BTreeMap<u32, u32> = BTreeMap::new();
    let mut raw: Vec<u8> = vec![];
    let n = r.rus(1, 120);
    let mut garbage = false;
    let idspace = r.range(1, 8) as u32;
    // mild: mostly legal frames, so that the session lives longer
    let mild = r.chance(1, 2);
    let mut fresh = 0u32;
    for _ in 0..n {
        if s.over().is_some() {
            break;
        }
        let before = raw.len();
        let id = match r.below(8) {
            0 => 0,
            1 => r.next() as u32,
            2 => u32::MAX - r.below(2) as u32,
            _ => r.below(u64::from(idspace) * 2) as u32 + 1,
        };
        let fl = match r.below(6) {
            _ if mild && !r.chance(1, 60) => 0,
            0 => SYN,
            1 => 0,
            2 => r.below(16) as u16,
            3 => r.next() as u16,
            4 => SYN | ACK,
            _ => 0,
        };
        match if mild && !r.chance(1, 60) { *r.pick(&[0, 0, 0, 6, 9, 13, 13]) } else { r.below(14) } {
            13 if mild => {
                let id = s.peer_id(fresh);
                fresh += 1;
                *syns.entry(id).or_insert(0) += 1;
                raw.extend(wire::win(SYN, id, 0));
            }
            0..=5 => {
                let k = r.size((win as usize).min(3000));
                let body = r.bytes(k);
                raw.extend(wire::data(fl, id, &body));
                if fl & SYN != 0 {
                    *syns.entry(id).or_insert(0) += 1;
                }
                bodies.entry(id).or_default().push(body);
                acc.add("data_frames", 1);
            }
            6..=8 => {
                let d = match r.below(4) {
                    0 => 0,
                    _ if mild => r.below(5000) as u32,
                    1 => u32::MAX,
                    2 => u32::MAX / 2 + 1,
                    _ => r.next() as u32,
                };
                raw.extend(wire::win(fl, id, d));
                if fl & SYN != 0 {
                    *syns.entry(id).or_insert(0) += 1;
                }
                acc.add("window_frames", 1);
            }
            9 => raw.extend(wire::ping(fl, r.next() as u32)),
            10 => {
                // whatever
                let k = r.rus(1, 40);
                raw.extend(r.bytes(k));
                garbage = true;
                acc.add("garbage", 1);
            }
            11 => {
                // header field extremes
                let mut h = wire::data(fl, id, &[]);
                h[8..12].copy_from_slice(&[255, 255, 255, r.next() as u8]);
                h[1] = r.below(4) as u8;
                if h[1] == 0 {
                    garbage = true;
                }
                raw.extend(h);
            }
            12 if r.chance(1, 4) => {
                let c = if r.chance(1, 2) { r.below(3) as u32 } else { r.next() as u32 };
                raw.extend(wire::goaway(c))
            }
            _ => raw.extend(wire::win(SYN, id, 0)),
        }
        if r.chance(1, if mild { 2000 } else { 40 }) && raw.len() > before + 1 {
            // truncated frame
            let k = r.rus(1, raw.len() - before - 1);
            raw.truncate(raw.len() - k);
            garbage = true;
        }
        s.tx.inject(&raw[before..]);
        if r.chance(1, 8) {
            let p = s.app.borrow().paused;
            s.app.borrow_mut().paused = !p;
            s.wake();
        }
        let _ = s.steps(r.range(1, 200)).await;
        if r.chance(1, 20) {
            s.ex.advance(r.range(1, 40_000)).await;
        }
    }
    if r.chance(1, 4) {
        s.tx.cut(if r.chance(1, 2) { link::End::Eof } else { link::End::Reset });
        acc.add("cuts", 1);
    }
    s.app.borrow_mut().paused = false;
    s.wake();
    // must come to rest: everything sent is consumed or the session is over
    let before = s.tx.taken();
    let mut idle = false;
    for _ in 0..8 {
        if let Ok(true) = s.steps(60_000).await {
            idle = true;
            break;
        }
    }
    if !idle {
        if s.tx.taken() == before {
            return bad("spin", "the session keeps running without consuming input".into());
        }
        return Err(Verdict::Inconclusive("not idle".into()));
    }
    if s.over().is_none() && !s.tx.idle() {
        return bad("stalled", "the session stopped reading its connection without ending".into());
    }
    // delivered data comes from that stream's frames, in order
    let a = s.app.borrow();
    for (id, g) in &a.got {
        let n = a.accept_count.get(id).copied().unwrap_or(0);
        let local_id = (id % 2 == 1) == (s.side == 0);
        if n > 1 || (n == 1 && (local_id && local > 0)) {
            continue;
        }
        let b = bodies.get(id).cloned().unwrap_or_default();
        acc.add("bytes_delivered", g.len() as u64);
        if garbage {
            // what garbage decodes to is not modelled
            continue;
        }
        // frames of a refused or unknown stream are skipped as a whole: the delivered bytes are
        // the bodies of some frames of this stream in order, the last one possibly in part
        let mut pos = std::collections::BTreeSet::new();
        pos.insert(0usize);
        let mut ok = g.is_empty();
        for body in &b {
            let mut new = vec![];
            for p in &pos {
                let rest = &g[*p..];
                if rest.len() <= body.len() {
                    ok |= body.starts_with(rest);
                } else if rest.starts_with(body) {
                    new.push(p + body.len());
                }
            }
            pos.extend(new);
        }
        acc.add("streams_compared", 1);
        if !ok {
            if std::env::var("VERIF_DEBUG").is_ok() {
                let mut p = Parser::default();
                while let Some(f) = p.next(&raw, raw.len()) {
                    eprintln!("ty {} flags {:#x} id {} len {}", f.ty, f.flags, f.id, f.len);
                }
                eprintln!("local {} side {} accepted {:?} err {:?}", local, s.side, a.accepted, a.err);
            }
            return bad("foreign-data", format!("stream {} delivered {} bytes that are not in its {} frames", id, g.len(), b.len()));
        }
    }
    drop(a);
    // the accepted ids were announced
    if !garbage {
        for id in &s.app.borrow().accepted {
            if !syns.contains_key(id) && s.app.borrow().got.get(id).map(|g| !g.is_empty()).unwrap_or(false) && !raw_has_syn(&raw, *id) {
                return bad("never-opened", format!("stream {} delivered but never announced", id));
            }
        }
    }
    acc.add("ended", u64::from(s.over().is_some()));
    acc.add("survived", u64::from(s.over().is_none()));
    acc.add("bytes_sent", raw.len() as u64);
    acc.nontrivial = true;
    acc.sig = mix(s.ex.trace, raw.len() as u64);
    acc.sample = Some(format!("{} hostile bytes in {} frames, window {}, outcome {:?}", raw.len(), n, win, s.over()));
    Ok(acc)
}

/// Y08: the peer says that it goes away
pub async fn case08(seed: u64) -> Verdict {
    fold(away(seed).await)
}

async fn away(seed: u64) -> R {
    let mut r = Rng::new(seed);
    let mut acc = Acc::default();
    let mut cfg = Config::default();
    cfg.enable_keepalive = r.chance(1, 4);
    let tmo = r.range(1, 12);
    cfg.connection_write_timeout = std::time::Duration::from_secs(tmo);
    let win = 4096;
    cfg.max_stream_window_size = win;
    let link = small_link(&mut r);
    let local = r.us(3);
    let mut s = start(&mut r, cfg, &link, local);
    s.app.borrow_mut().echo = r.chance(1, 2);
    let ids: Vec<u32> = (0..r.below(4) as u32).map(|i| s.peer_id(i)).collect();
    let mut sent: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    for id in &ids {
        s.tx.inject(&wire::win(SYN, *id, 0));
        let k = r.us(win as usize / 2);
        let body = r.bytes(k);
        s.tx.inject(&wire::data(0, *id, &body));
        sent.insert(*id, body);
    }
    let settled = r.chance(2, 3);
    if settled {
        s.idle().await?;
        let a = s.app.borrow();
        for (id, d) in &sent {
            if a.got.get(id).map(|g| &g[..]).unwrap_or(&[]) != &d[..] {
                return bad("lost", format!("stream {}: {} bytes sent, {:?} read", id, d.len(), a.got.get(id).map(|g| g.len())));
            }
        }
    }
    let code = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => 2,
        _ => r.next() as u32,
    };
    let hold = r.chance(1, 3);
    // nobody may wait for that session any more, also if the opening is asked for just then
    let late = Rc::new(RefCell::new((0, 0)));
    let ask = |s: &Sx| {
        let mut c = s.ctl.clone();
        let l = late.clone();
        l.borrow_mut().0 += 1;
        s.ex.spawn("opener", async move {
            let h = c.open_stream().await;
            l.borrow_mut().1 += 1;
            drop(h);
        });
    };
    if hold {
        s.app.borrow_mut().hold_session = true;
    }
    s.tx.inject(&wire::goaway(code));
    if r.chance(1, 2) {
        ask(&s);
    }
    if hold {
        let _ = s.steps(300).await;
        s.app.borrow_mut().hold_session = false;
        s.wake();
    }
    s.idle().await?;
    let answered = s.goaway();
    let mut secs = 0;
    while s.over().is_none() && secs < 3 * tmo + 5 {
        s.ex.advance(1000).await;
        secs += 1;
        s.idle().await?;
    }
    if s.over().is_none() {
        return bad("peer-gone", format!("the peer said go-away {} and {} s later (write timeout {} s) the session still runs", code, secs, tmo));
    }
    // there was room for the answer
    if link.cap >= 4096 && link.spurious == 0 && settled && answered.is_none() {
        return bad("unanswered", format!("the peer said go-away {} and got no go-away back", code));
    }
    ask(&s);
    s.idle().await?;
    let l = *late.borrow();
    if l.0 != l.1 {
        return bad("control-stuck", format!("after go-away {} of the peer {} of {} openings returned", code, l.1, l.0));
    }
    s.wake();
    s.idle().await?;
    let live = s.app.borrow().live.clone();
    if !live.is_empty() {
        return bad("waiter-stuck", format!("after go-away {} of the peer the readers of streams {:?} still wait", code, live));
    }
    acc.add("peer_went_away", 1);
    acc.add("virtual_seconds", secs);
    acc.nontrivial = true;
    acc.sig = mix(s.ex.trace, u64::from(code));
    Ok(acc)
}

fn raw_has_syn(raw: &[u8], id: u32) -> bool {
    let mut p = Parser::default();
    while let Some(f) = p.next(raw, raw.len()) {
        if f.id == id && f.flags & SYN != 0 && f.ty <= 1 {
            return true;
        }
    }
    false
}

pub fn y11(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "hostile byte sequences against a real session with debug assertions and overflow checks on; distinct = hash of interleaving and length".into(),
            assumptions: vec!["what random garbage decodes to is not modelled; data is compared in the cases built from well-formed frames".into()],
            cases: ctx.q(60_000, 5_000_000),
            budget_s: ctx.q(15, 900),
            threads: 8,
            must_see: vec!["streams_compared", "ended", "survived", "garbage"],
        },
        |seed, _| fold(exec::with_runtime(case11(seed))),
    )
}
