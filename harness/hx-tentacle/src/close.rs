//! T07 the end of a service, T12 futures given to it, T13 panicking handlers.
use crate::{
    judge::R,
    mesh::*,
    net::*,
    traffic::wrap,
};
use bytes::Bytes;
use std::{
    collections::HashMap,
    io::Read,
    net::{TcpListener, TcpStream},
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tentacle::{
    error::SendErrorKind,
    multiaddr::Multiaddr,
    service::{TargetProtocol, TargetSession},
    utils::multiaddr_to_socketaddr,
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

fn wait_for(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + Duration::from_millis(ms);
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        vcommon::exec::beat();
        std::thread::sleep(Duration::from_millis(3));
    }
}

fn listener_of(a: &Multiaddr) -> std::net::SocketAddr {
    multiaddr_to_socketaddr(a).unwrap()
}

/// is anybody accepting there
fn accepts(a: &Multiaddr) -> bool {
    TcpStream::connect_timeout(&listener_of(a), Duration::from_millis(500)).is_ok()
}

pub fn t07_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = r.rus(2, 4);
    c.ws = r.chance(1, 5);
    let ws = c.ws;
    c.proxied = 50;
    c.no_block = false;
    let graceful = r.chance(2, 3);
    let m = mesh(r, c)?;
    let me = r.us(m.nodes.len());
    let node = &m.nodes[me];
    let mut extra: Vec<Multiaddr> = vec![];
    // connections that never finish their handshake
    let mut raw: Vec<TcpStream> = vec![];
    // (an unfinished upgrade to WebSocket lasts until it times out, as does
    // a plain session whose peer does not answer the end of it)
    if !ws && r.chance(1, if node.key.is_some() { 2 } else { 20 }) {
        for _ in 0..r.rus(1, 4) {
            if let Ok(s) = TcpStream::connect(listener_of(node.addr.as_ref().unwrap())) {
                raw.push(s);
            }
        }
    }
    // more listeners
    if r.chance(1, 3) {
        let a = fresh(r, false);
        let n0 = m.log.count(|e| e.n == me && matches!(e.w, What::ListenStart(_)));
        until_ok(|| node.ctl.listen(a.clone()));
        if r.chance(1, 2) {
            until(&m.log, "second listener", |evs| evs.iter().filter(|e| e.n == me && matches!(e.w, What::ListenStart(_))).count() > n0)?;
        }
        let _ = &extra;
    }
    // dials of somebody who accepts and says nothing
    let silent = TcpListener::bind("127.0.0.1:0").unwrap();
    let mut held = vec![];
    if r.chance(1, 3) {
        let a: Multiaddr = format!("/ip4/127.0.0.1/tcp/{}", silent.local_addr().unwrap().port()).parse().unwrap();
        until_ok(|| node.ctl.dial(a.clone(), TargetProtocol::All));
        acc.add("dials pending", 1);
    }
    // a peer whose link stalls, another whose handlers do not consume
    let mut stalled: Vec<usize> = vec![];
    let mine: Vec<usize> = (0..m.links.len()).filter(|i| m.links[*i].a.0 == me || m.links[*i].b.0 == me).collect();
    if r.chance(1, 3) {
        let i = *r.pick(&mine);
        if let Some(p) = &m.links[i].proxy {
            p.stall(true);
            stalled.push(i);
            acc.add("stalled links", 1);
        }
    }
    if r.chance(1, 3) {
        for n in m.nodes.iter().filter(|n| n.n != me) {
            for p in &m.protos {
                n.knob(*p).pause();
            }
        }
        acc.add("peers not consuming", 1);
    }
    // a service that dials us the whole time
    let stop = Arc::new(AtomicBool::new(false));
    let busy = r.chance(2, 3);
    let dialers = r.chance(1, 2);
    let listens = r.chance(1, 3);
    let churn = r.chance(1, 2);
    let wait_us = *r.pick(&[0u64, 500, 5_000, 40_000]);
    let twice = r.chance(1, 3);
    let mut forks: Vec<Rng> = (0..8).map(|_| r.fork()).collect();
    let spare = {
        let rt = m.rt.as_ref().unwrap();
        let mut v = vec![];
        if dialers {
            for i in 0..3 {
                let key = if node.key.is_some() { Some(key(r)) } else { None };
                v.push(start(rt, &m.log, 10 + i, NodeCfg { key, protos: m.protos.iter().map(|p| ProtoCfg::new(*p, Mode::Event)).collect(), ..NodeCfg::default() }));
            }
        }
        v
    };
    let asked: Mutex<Option<Instant>> = Mutex::new(None);
    let mut ok = false;
    let m2 = &m;
    let res: R<()> = std::thread::scope(|sc| {
        if busy {
            for n in &m.nodes {
                let (stop, mut r) = (stop.clone(), forks.pop().unwrap_or_else(|| Rng::new(seed)));
                sc.spawn(move || {
                    while !stop.load(Ordering::SeqCst) {
                        let l = *r.pick(&[10usize, 100, 2000, 60_000]);
                        let p = *r.pick(&m2.protos);
                        let e = n.ctl.filter_broadcast(TargetSession::All, pid(p), Bytes::from(vec![1u8; l]));
                        if let Err(SendErrorKind::BrokenPipe) = e {
                            break;
                        }
                        std::thread::sleep(Duration::from_micros(r.range(100, 3000)));
                    }
                });
            }
        }
        if dialers {
            for n in &spare {
                let (stop, a) = (stop.clone(), node.addr.clone().unwrap());
                sc.spawn(move || {
                    while !stop.load(Ordering::SeqCst) {
                        let _ = n.ctl.dial(a.clone(), TargetProtocol::All);
                        std::thread::sleep(Duration::from_millis(2));
                    }
                });
            }
        }
        if churn {
            let (stop, mut r) = (stop.clone(), forks.pop().unwrap());
            let sess = m.sessions(me);
            sc.spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    let (s, p) = (*r.pick(&sess), *r.pick(&m2.protos));
                    let e = if r.chance(1, 2) {
                        m2.nodes[me].ctl.close_protocol(s.into(), pid(p))
                    } else {
                        m2.nodes[me].ctl.open_protocol(s.into(), pid(p))
                    };
                    if let Err(SendErrorKind::BrokenPipe) = e {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(r.range(100, 3000)));
                }
            });
        }
        if listens {
            let (stop, mut r) = (stop.clone(), forks.pop().unwrap());
            sc.spawn(move || {
                for _ in 0..20 {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    let _ = m2.nodes[me].ctl.listen(fresh(&mut r, false));
                    std::thread::sleep(Duration::from_micros(r.range(50, 2000)));
                }
            });
        }
        std::thread::sleep(Duration::from_micros(wait_us));
        if let Ok((s, _)) = silent.set_nonblocking(true).and_then(|_| silent.accept()) {
            held.push(s);
        }
        *asked.lock().unwrap() = Some(Instant::now());
        let req = |g: bool| if g { node.ctl.close() } else { node.ctl.shutdown() };
        until_ok(|| req(graceful));
        if twice {
            std::thread::sleep(Duration::from_micros(wait_us / 2));
            let _ = req(graceful);
        }
        let end = |evs: &[Ev]| evs.iter().any(|e| e.n == me && matches!(e.w, What::End));
        let stop_at = Instant::now() + Duration::from_millis(1500);
        let r = (|| {
            ok = m.log.wait(|evs| {
                if Instant::now() > stop_at {
                    stop.store(true, Ordering::SeqCst);
                }
                end(evs)
            })?;
            Ok(())
        })();
        stop.store(true, Ordering::SeqCst);
        r
    });
    res?;
    let how = if graceful { "close" } else { "shutdown" };
    if !ok {
        return violation("not-ended", format!("the service did not end after {} (stalled links {:?})\n{}", how, stalled, m.log.render(&[me], 60)));
    }
    acc.add(if graceful { "graceful" } else { "quick" }, 1);
    // everything that was open is reported before the end
    let evs = m.log.snap();
    if graceful {
        let mut open: HashMap<String, i64> = HashMap::new();
        for e in evs.iter().filter(|e| e.n == me) {
            match &e.w {
                What::Open { s, .. } => *open.entry(format!("session {}", s)).or_insert(0) += 1,
                What::Close { s } => *open.entry(format!("session {}", s)).or_insert(0) -= 1,
                What::ListenStart(a) => *open.entry(format!("listener {}", a)).or_insert(0) += 1,
                What::ListenClose(a) => *open.entry(format!("listener {}", a)).or_insert(0) -= 1,
                What::End => break,
                _ => (),
            }
        }
        if let Some((w, _)) = open.iter().find(|(_, n)| **n > 0) {
            return violation("not-reported", format!("the service ended after close, {} was never reported closed\n{}", w, m.log.render(&[me], 60)));
        }
        if let Some((w, _)) = open.iter().find(|(_, n)| **n < 0) {
            return violation("reported-twice", format!("{} was reported closed twice\n{}", w, m.log.render(&[me], 60)));
        }
    }
    // peers see their sessions closed
    for n in m.nodes.iter().filter(|n| n.n != me) {
        for p in &m.protos {
            n.knob(*p).resume();
        }
    }
    let mut due = vec![];
    for (i, l) in m.links.iter().enumerate() {
        if stalled.contains(&i) {
            continue;
        }
        if l.a.0 == me {
            due.push(l.b);
        } else if l.b.0 == me {
            due.push(l.a);
        }
    }
    let closed = |evs: &[Ev], k: (usize, usize)| evs.iter().any(|e| e.n == k.0 && matches!(e.w, What::Close { s } if s == k.1));
    if !m.log.wait(|evs| due.iter().all(|k| closed(evs, *k)))? {
        let k = due.iter().find(|k| !m.log.with(|e| closed(e, **k))).unwrap();
        return violation("peer-not-released", format!("after {} ended the service, node {} still has its session {} open\n{}", how, k.0, k.1, m.log.render(&[k.0, me], 60)));
    }
    acc.add("peers released", due.len() as u64);
    for n in &spare {
        if !m.log.wait(|evs| open_sessions(evs, n.n).is_empty())? {
            return violation("peer-not-released", format!("after {} ended the service, a late caller still has a session open\n{}", how, m.log.render(&[n.n, me], 60)));
        }
    }
    // listeners are gone
    let addr = node.addr.clone().unwrap();
    extra.push(addr);
    for e in &evs {
        if let What::ListenStart(a) = &e.w {
            if e.n == me {
                extra.push(a.clone());
            }
        }
    }
    for a in &extra {
        if !wait_for(QUIET_MS, || !accepts(a)) {
            return violation("listening", format!("after {} ended the service, {} still accepts connections\n{}", how, a, m.log.render(&[me], 60)));
        }
        acc.add("listeners gone", 1);
    }
    // as are unfinished handshakes
    for mut s in raw {
        s.set_read_timeout(Some(Duration::from_millis(50))).unwrap();
        let mut b = [0u8; 2048];
        let gone = wait_for(45_000, || loop {
            match s.read(&mut b) {
                Ok(0) => return true,
                Ok(_) => continue,
                Err(e) => return !(e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut),
            }
        });
        if !gone {
            return violation("handshake-kept", format!("after {} ended the service, a connection in its handshake is still open", how));
        }
        acc.add("handshakes ended", 1);
    }
    // control calls fail
    let s = m.sessions(me).pop().unwrap();
    let calls: Vec<(&str, Result<(), SendErrorKind>)> = vec![
        ("listen", node.ctl.listen(fresh(r, false))),
        ("dial", node.ctl.dial(m.nodes[(me + 1) % m.nodes.len()].addr.clone().unwrap(), TargetProtocol::All)),
        ("disconnect", node.ctl.disconnect(s.into())),
        ("send_message_to", node.ctl.send_message_to(s.into(), pid(1), Bytes::from_static(b"x"))),
        ("quick_send_message_to", node.ctl.quick_send_message_to(s.into(), pid(1), Bytes::from_static(b"x"))),
        ("open_protocol", node.ctl.open_protocol(s.into(), pid(1))),
        ("close_protocol", node.ctl.close_protocol(s.into(), pid(1))),
        ("future_task", node.ctl.future_task(async {})),
        ("set_service_notify", node.ctl.set_service_notify(pid(1), Duration::from_secs(1), 1)),
        ("close", node.ctl.close()),
        ("shutdown", node.ctl.shutdown()),
    ];
    for (w, x) in calls {
        if x.is_ok() {
            return violation("call-accepted", format!("{} succeeded although the service has ended", w));
        }
        acc.add("calls refused", 1);
    }
    if let Some(e) = m.log.snap().iter().find(|e| e.n == me && matches!(e.w, What::Left(_))) {
        return violation("handler-outlives", format!("{} ended the service, but {:?} of its service-lived handlers were not dropped yet\n{}", how, e.w, m.log.render(&[me], 60)));
    }
    // handlers are dropped and no longer called
    if !wait_for(QUIET_MS, || m.log.live(me) == 0) {
        return violation("handler-kept", format!("after {} ended the service, {} of its handlers still exist\n{}", how, m.log.live(me), m.log.render(&[me], 60)));
    }
    let from = m.log.len();
    m.log.settle(30);
    if let Some(e) = m.log.snap()[from..].iter().find(|e| e.n == me) {
        return violation("called-after", format!("{:?} after the service has ended and its handlers were dropped\n{}", e.w, m.log.render(&[me], 60)));
    }
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, evs.len() as u64);
    Ok(acc)
}

pub fn t07(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "services are closed or shut down while idle, busy, dialled, listening, opening and closing protocols, with stalled links, peers that do not consume and unfinished handshakes; the service must end, report what was open (close), release its peers, sockets and handlers and refuse later calls".into(),
            assumptions: vec!["handlers of the closed service return".into()],
            cases: ctx.q(250, 6000),
            budget_s: ctx.q(25, 900),
            threads: 8,
            must_see: vec!["graceful", "quick", "peers released", "listeners gone", "handshakes ended", "stalled links", "peers not consuming", "dials pending", "calls refused"],
        },
        |seed, _| wrap(|| t07_one(seed)),
    )
}

// ---------------------------------------------------------------- T12

struct Task {
    polls: AtomicUsize,
    done: AtomicUsize,
    dropped: AtomicUsize,
    last: Mutex<Option<Instant>>,
}

struct Fut {
    t: Arc<Task>,
    left: usize,
    kind: u8,
    delay: Option<tentacle::runtime::Delay>,
    r: Rng,
}

impl Drop for Fut {
    fn drop(&mut self) {
        self.t.dropped.fetch_add(1, Ordering::SeqCst);
    }
}

impl std::future::Future for Fut {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<()> {
        use std::task::Poll;
        self.t.polls.fetch_add(1, Ordering::SeqCst);
        *self.t.last.lock().unwrap() = Some(Instant::now());
        if let Some(d) = self.delay.as_mut() {
            match std::pin::Pin::new(d).poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(_) => self.delay = None,
            }
        }
        if self.left == 0 {
            if self.kind == 3 {
                self.t.done.fetch_add(1, Ordering::SeqCst);
                panic!("{}", vcommon::report::INTENDED);
            }
            if self.kind == 4 {
                // never ends
                cx.waker().wake_by_ref();
                std::thread::sleep(Duration::from_micros(50));
                return Poll::Pending;
            }
            if self.kind == 5 {
                return Poll::Pending;
            }
            self.t.done.fetch_add(1, Ordering::SeqCst);
            return Poll::Ready(());
        }
        self.left -= 1;
        match self.kind {
            1 => {
                let us = self.r.range(0, 5000);
                self.delay = Some(tentacle::runtime::delay_for(Duration::from_micros(us)));
                cx.waker().wake_by_ref();
            }
            2 => {
                let us = self.r.range(0, 3000);
                std::thread::sleep(Duration::from_micros(us));
                cx.waker().wake_by_ref();
            }
            _ => cx.waker().wake_by_ref(),
        }
        Poll::Pending
    }
}

pub fn t12_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.extra_links = false;
    let m = mesh(r, c)?;
    let node = &m.nodes[0];
    let tasks: Mutex<Vec<(u8, Arc<Task>)>> = Mutex::new(vec![]);
    let early = r.chance(1, 2);
    let graceful = r.chance(1, 2);
    let threads = r.rus(1, 4);
    let endless = r.chance(1, 2);
    let forks: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let at = r.range(0, 20_000);
    std::thread::scope(|sc| {
        for mut r in forks {
            let (tasks, ctl) = (&tasks, node.ctl.clone());
            sc.spawn(move || {
                for _ in 0..r.rus(1, 60) {
                    let mut kind = *r.pick(&[0u8, 0, 1, 1, 1, 2, 3, 4, 5]);
                    if kind >= 4 && !endless {
                        kind = 1;
                    }
                    let t = Arc::new(Task { polls: AtomicUsize::new(0), done: AtomicUsize::new(0), dropped: AtomicUsize::new(0), last: Mutex::new(None) });
                    let mk = |r: &mut Rng| Fut { t: t.clone(), left: r.us(6), kind, delay: None, r: r.fork() };
                    let mut fut = Some(mk(&mut r));
                    let mut sent = true;
                    // a refused task is dropped, the next attempt is a new one
                    loop {
                        let f = fut.take().unwrap();
                        match ctl.future_task(f) {
                            Ok(()) => break,
                            Err(SendErrorKind::WouldBlock) => {
                                std::thread::sleep(Duration::from_micros(200));
                                t.dropped.store(0, Ordering::SeqCst);
                                fut = Some(mk(&mut r));
                            }
                            Err(_) => {
                                sent = false;
                                break;
                            }
                        }
                    }
                    if sent {
                        tasks.lock().unwrap().push((kind, t));
                    }
                    if r.chance(1, 3) {
                        std::thread::sleep(Duration::from_micros(r.below(400)));
                    }
                }
            });
        }
        if early {
            std::thread::sleep(Duration::from_micros(at));
            until_ok(|| if graceful { node.ctl.close() } else { node.ctl.shutdown() });
        }
    });
    let tasks = tasks.into_inner().unwrap();
    let dump = |t: &Task| format!("{} polls, {} completions, {} drops", t.polls.load(Ordering::SeqCst), t.done.load(Ordering::SeqCst), t.dropped.load(Ordering::SeqCst));
    if !early {
        let all = wait_for(QUIET_MS * 2, || tasks.iter().all(|(k, t)| *k >= 4 || t.done.load(Ordering::SeqCst) > 0));
        if !all {
            let (k, t) = tasks.iter().find(|(k, t)| *k < 4 && t.done.load(Ordering::SeqCst) == 0).unwrap();
            return violation("not-run", format!("a task of kind {} was accepted and not completed: {}", k, dump(t)));
        }
        let started = wait_for(QUIET_MS, || tasks.iter().all(|(_, t)| t.polls.load(Ordering::SeqCst) > 0));
        if !started {
            return violation("not-run", "a task that never ends was accepted and never run");
        }
        acc.add("completed", tasks.iter().filter(|(k, _)| *k < 4).count() as u64);
        acc.add("panicking tasks", tasks.iter().filter(|(k, _)| *k == 3).count() as u64);
        until_ok(|| if graceful { node.ctl.close() } else { node.ctl.shutdown() });
    }
    until(&m.log, "service ends", |evs| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::End)))?;
    if !wait_for(QUIET_MS, || tasks.iter().all(|(_, t)| t.dropped.load(Ordering::SeqCst) > 0)) {
        let (k, t) = tasks.iter().find(|(_, t)| t.dropped.load(Ordering::SeqCst) == 0).unwrap();
        return violation("kept", format!("the service ended, a task of kind {} was not dropped: {}", k, dump(t)));
    }
    let before: Vec<usize> = tasks.iter().map(|(_, t)| t.polls.load(Ordering::SeqCst)).collect();
    std::thread::sleep(Duration::from_millis(15));
    for ((k, t), b) in tasks.iter().zip(before) {
        let d = t.done.load(Ordering::SeqCst);
        if d > 1 || t.dropped.load(Ordering::SeqCst) > 1 {
            return violation("twice", format!("a task of kind {}: {}", k, dump(t)));
        }
        if t.polls.load(Ordering::SeqCst) != b {
            return violation("run-after", format!("a task of kind {} ran after the service ended: {}", k, dump(t)));
        }
    }
    acc.add("tasks", tasks.len() as u64);
    acc.add("ended early", u64::from(early));
    acc.add("endless tasks dropped", tasks.iter().filter(|(k, _)| *k >= 4).count() as u64);
    acc.nontrivial = !tasks.is_empty();
    acc.sig = seed;
    Ok(acc)
}

pub fn t12(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "quick, slow, blocking, panicking and endless futures from several threads; each accepted one must complete exactly once while the service runs, be dropped when it ends and not run afterwards".into(),
            assumptions: vec![],
            cases: ctx.q(1000, 20000),
            budget_s: ctx.q(20, 600),
            threads: 8,
            must_see: vec!["tasks", "completed", "ended early", "panicking tasks", "endless tasks dropped"],
        },
        |seed, _| wrap(|| t12_one(seed)),
    )
}

// ---------------------------------------------------------------- T13

pub fn t13_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let secure = r.chance(1, 2);
    let mode = *r.pick(&[Mode::Service, Mode::Service, Mode::Session, Mode::Session, Mode::ServiceBoth, Mode::SessionBoth, Mode::ServiceAndSession]);
    // panics in: connected received disconnected notify poll
    let at = *r.pick(&[2u8, 3, 4, 5, 6]);
    let no_block = r.chance(1, 2);
    let listen = r.chance(3, 4);
    let mut nodes = vec![];
    for n in 0..2 {
        let mut protos = vec![];
        for p in 1..=2 {
            let mut pc = ProtoCfg::new(p, if n == 0 && p == 1 { mode } else { Mode::any(r) });
            pc.no_block = no_block;
            protos.push(pc);
        }
        nodes.push(start_armed(
            &rt,
            &log,
            n,
            NodeCfg { key: if secure { Some(key(r)) } else { None }, protos, listen: if n == 1 || listen { Some(fresh(r, false)) } else { None }, ..NodeCfg::default() },
            if n == 0 && at == 1 { Some((1, 1)) } else { None },
        ));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1, 2] };
    let has_ses = matches!(mode, Mode::Session | Mode::SessionBoth | Mode::ServiceAndSession);
    let mut sid = 0;
    if at != 1 {
        let arm = || m.nodes[0].knob(1).panic_in.store(at, Ordering::SeqCst);
        if at == 2 || at == 6 && r.chance(1, 2) {
            arm();
            let a1 = m.nodes[1].addr.clone().unwrap();
            until_ok(|| m.nodes[0].ctl.dial(a1.clone(), TargetProtocol::All));
        } else {
            connect_by(&mut m, 0, 1, None, TargetProtocol::All)?;
            let l = &m.links[0];
            sid = l.a.1;
            let (a, b) = (l.a.1, l.b.1);
            // some traffic around it
            for i in 0..r.rus(0, 30) {
                let h = Hdr { src: 1, high: false, p: 2, s: b as u32, thr: 0, seq: i as u64, len: 200 };
                let _ = m.nodes[1].ctl.send_message_to(b.into(), pid(r.rus(1, 2)), make(&h));
            }
            m.nodes[0].knob(1).panic_in.store(at, Ordering::SeqCst);
            let h = Hdr { src: 1, high: false, p: 1, s: b as u32, thr: 9, seq: 0, len: 100 };
            match at {
                3 | 6 => {
                    until_ok(|| m.nodes[1].ctl.send_message_to(b.into(), pid(1), make(&h)));
                }
                4 => {
                    // a session-lived handler is told of the end of its protocol, not of the session
                    if has_ses || r.chance(1, 2) {
                        until_ok(|| m.nodes[0].ctl.close_protocol(a.into(), pid(1)));
                    } else {
                        until_ok(|| m.nodes[1].ctl.disconnect(b.into()));
                    }
                }
                _ => {
                    let d = Duration::from_millis(r.range(1, 30));
                    if has_ses {
                        until_ok(|| m.nodes[0].ctl.set_session_notify(a.into(), pid(1), d, 3));
                    } else {
                        until_ok(|| m.nodes[0].ctl.set_service_notify(pid(1), d, 3));
                    }
                }
            }
        }
    }
    let name = ["", "init", "connected", "received", "disconnected", "notify", "poll"][at as usize];
    let what = format!("panic in {} of a {:?} handler", name, mode);
    let rep = |evs: &[Ev]| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::HandleErr { p: 1, dead: true, .. }));
    if !m.log.wait(rep)? {
        return violation("unreported", format!("{}: not reported\n{}", what, m.log.render(&[0], 40)));
    }
    let evs = m.log.snap();
    if let Some(e) = evs.iter().find(|e| matches!(e.w, What::HandleErr { p, dead: true, .. } if e.n != 0 || p != 1)) {
        return violation("wrong-report", format!("{}: reported as {:?} of node {}\n{}", what, e.w, e.n, m.log.render(&[], 40)));
    }
    if let Some(e) = evs.iter().find(|e| matches!(e.w, What::HandleErr { dead: true, s: Some(s), .. } if sid != 0 && s != sid)) {
        return violation("wrong-report", format!("{}: session {} is concerned, reported as {:?}\n{}", what, sid, e.w, m.log.render(&[], 40)));
    }
    // a handler of one session
    if matches!(mode, Mode::Session | Mode::SessionBoth) {
        if let Some(e) = evs.iter().find(|e| matches!(e.w, What::HandleErr { dead: true, s: None, .. })) {
            return violation("wrong-report", format!("{}: a session is concerned, reported as {:?}\n{}", what, e.w, m.log.render(&[], 40)));
        }
        acc.add("reports that name the session", 1);
    }
    if !m.log.wait(|evs| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::End)))? {
        return violation("not-ended", format!("{}: the service goes on\n{}", what, m.log.render(&[0], 40)));
    }
    if let Some(a) = &m.nodes[0].addr {
        if !wait_for(QUIET_MS, || !accepts(a)) {
            return violation("listening", format!("{}: the service ended but still accepts connections", what));
        }
    }
    if m.log.count(|e| e.n == 1 && matches!(e.w, What::Open { .. })) > 0 {
        if !m.log.wait(|evs| open_sessions(evs, 1).is_empty())? {
            return violation("peer-not-released", format!("{}: the service ended, its peer's session is still open\n{}", what, m.log.render(&[], 40)));
        }
    }
    acc.add(["", "in init", "in connected", "in received", "in disconnected", "in notify", "in poll", "calm sessions closed"][at as usize], 1);
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, evs.len() as u64);
    Ok(acc)
}

/// the other way round: nothing panics, so nothing is reported and the service goes on
pub fn t13_calm(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let log = Log::new();
    let rt = runtime(r);
    let peers = r.rus(2, 4);
    let mut nodes = vec![];
    for n in 0..=peers {
        let mode = if n == 0 { *r.pick(&[Mode::Session, Mode::SessionBoth, Mode::ServiceAndSession]) } else { Mode::Event };
        let protos = vec![ProtoCfg::new(1, mode), ProtoCfg::new(2, Mode::Event)];
        nodes.push(start(&rt, &log, n, NodeCfg { protos, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: HashMap::new(), protos: vec![1, 2] };
    let a0 = m.nodes[0].addr.clone().unwrap();
    let open = |n: usize| m.log.with(|evs| open_sessions(evs, n));
    for n in 1..=peers {
        until_ok(|| m.nodes[n].ctl.dial(a0.clone(), TargetProtocol::All));
    }
    until(&m.log, "sessions", |evs| open_sessions(evs, 0).len() == peers)?;
    let stop = Arc::new(AtomicBool::new(false));
    let mut threads = vec![];
    {
        // timers for every session there is or was a moment ago
        let (ctl, log, stop) = (m.nodes[0].ctl.clone(), m.log.clone(), stop.clone());
        threads.push(std::thread::spawn(move || {
            let mut k = 0u64;
            while !stop.load(Ordering::SeqCst) {
                for s in log.with(|evs| open_sessions(evs, 0)) {
                    for _ in 0..3 {
                        k += 1;
                        let _ = ctl.set_session_notify(s.into(), pid(1), Duration::from_secs(3600), k % 3);
                        let _ = ctl.remove_session_notify(s.into(), pid(1), (k + 1) % 3);
                    }
                }
                std::thread::sleep(Duration::from_micros(100));
            }
            k
        }));
    }
    for n in 1..=peers {
        let (ctl, log, stop) = (m.nodes[n].ctl.clone(), m.log.clone(), stop.clone());
        threads.push(std::thread::spawn(move || {
            let mut k = 0u64;
            while !stop.load(Ordering::SeqCst) {
                if let Some(s) = log.with(|evs| open_sessions(evs, n).last().copied()) {
                    for _ in 0..10 {
                        let h = Hdr { src: n as u8, high: false, p: 2, s: 0, thr: 0, seq: k, len: 60 };
                        let _ = ctl.send_message_to(s.into(), pid(1 + (k % 5 != 0) as usize), make(&h));
                        k += 1;
                    }
                }
                std::thread::sleep(Duration::from_micros(500));
            }
            k
        }));
    }
    for _ in 0..r.rus(4, 12) {
        let n = r.rus(1, peers);
        match r.below(5) {
            0 => {
                let s = open(0);
                if !s.is_empty() {
                    let _ = m.nodes[0].ctl.disconnect((*r.pick(&s)).into());
                }
            }
            1 => {
                let a = fresh(r, false);
                let _ = m.nodes[0].ctl.listen(a);
            }
            _ => {
                for s in open(n) {
                    let _ = m.nodes[n].ctl.disconnect(s.into());
                    acc.add("calm sessions closed", 1);
                }
            }
        }
        std::thread::sleep(Duration::from_micros(r.below(6000)));
        for n in 1..=peers {
            if open(n).is_empty() {
                let _ = m.nodes[n].ctl.dial(a0.clone(), TargetProtocol::All);
            }
        }
        std::thread::sleep(Duration::from_millis(r.range(1, 8)));
        vcommon::exec::beat();
    }
    stop.store(true, Ordering::SeqCst);
    let mut n = 0;
    for t in threads {
        n += t.join().unwrap();
    }
    acc.add("calm requests and messages", n);
    m.log.settle(30);
    let bad = m.log.with(|evs| evs.iter().find(|e| matches!(e.w, What::HandleErr { dead: true, .. } | What::End)).cloned());
    if let Some(e) = bad {
        let l: Vec<String> = m.log.snap().iter().filter(|e| e.n == 0 && !matches!(e.w, What::Recv { .. })).map(|e| format!("  {:?}", e.w)).collect();
        return violation("no-panic", format!("no handler panicked, but node {} says {:?}\n{}", e.n, e.w, l[l.len().saturating_sub(50)..].join("\n")));
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t13(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a service-lived or session-lived handler panics in one of its callbacks; the service must report that handler of that protocol and end; without a panic nothing is reported and it goes on, whatever sessions close while timers are set and messages arrive".into(),
            assumptions: vec![],
            cases: ctx.q(1200, 20000),
            budget_s: ctx.q(20, 600),
            threads: 8,
            must_see: vec!["in connected", "in received", "in disconnected", "in notify", "in poll", "calm sessions closed"],
        },
        |seed, idx| wrap(|| if idx % 8 == 7 { t13_calm(seed) } else { t13_one(seed) }),
    )
}

