//! T09 accounting of unsent data, T10 slow readers do not hold up others.
use crate::{judge::R, mesh::*, net::*, proxy::{Plan, Proxy}, traffic::wrap};
use bytes::Bytes;
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tentacle::{
    error::SendErrorKind,
    service::{TargetProtocol, TargetSession},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

fn post(c: &crate::ctl::Ctl, s: usize, p: usize, high: bool, data: &Bytes) -> Result<(), SendErrorKind> {
    if high {
        c.quick_send_message_to(s.into(), pid(p), data.clone())
    } else {
        c.send_message_to(s.into(), pid(p), data.clone())
    }
}

// ---------------------------------------------------------------- T09

fn t09_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.secure = r.chance(1, 3);
    c.ws = r.chance(1, 8);
    c.protos = vec![1, 2, 3];
    c.no_block = false;
    c.extra_links = false;
    c.proxied = 100;
    let small = r.chance(1, 2);
    let limit = if small { *r.pick(&[50_000usize, 100_000, 300_000]) } else { 24 << 20 };
    c.send_buf = Some(limit);
    c.window = Some(1 << r.range(14, 18));
    // protocol 3 is opened only now and then
    let open3 = r.chance(1, 2);
    let mut m = {
        let nodes = c.nodes;
        c.nodes = 1;
        let mut m = mesh(r, MeshCfg { runtime: None, ..clone_cfg(&c) })?;
        let rt = m.rt.as_ref().unwrap();
        for n in 1..nodes {
            let protos = c.protos.iter().map(|p| ProtoCfg::new(*p, Mode::any(r))).collect();
            let k = key(r);
            let nd = start(rt, &m.log, n, NodeCfg { key: if c.secure { Some(k) } else { None }, protos, window: c.window, send_buf: c.send_buf, keep_buffer: c.keep_buffer, listen: Some(fresh(r, c.ws)), ..NodeCfg::default() });
            m.nodes.push(nd);
        }
        m
    };
    let to = m.nodes[1].addr.clone().unwrap();
    let proxy = Proxy::new(r, &to, |r, _| (Plan::clean(r), Plan::clean(r)));
    let target = if open3 { TargetProtocol::All } else { TargetProtocol::Multi(vec![pid(1), pid(2)]) };
    connect_by(&mut m, 0, 1, Some(proxy), target)?;
    let s = m.links[0].a.1;
    let peer = m.links[0].b;
    let node = &m.nodes[0];
    let paced = r.us(4);
    if paced == 1 {
        for p in 1..=3 {
            m.nodes[1].knob(p).slow_us.store(r.range(20, 2000), Ordering::SeqCst);
        }
    }
    let stalls = paced == 2;
    // nothing is taken until all is given: every queue on the way fills up
    let holds = paced == 3;
    if holds {
        for p in 1..=3 {
            m.nodes[1].knob(p).pause();
        }
    }
    let all = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<Mutex<Option<String>>> = Arc::default();
    let threads = r.rus(1, 3);
    let forks: Vec<Rng> = (0..threads).map(|_| r.fork()).collect();
    let closes = r.chance(1, 2);
    // less than the limit, or much more
    let below = r.chance(1, 3);
    let budget = match (small, below) {
        (true, true) => limit as u64 * 8 / 10,
        (true, false) => limit as u64 * 4,
        _ => 3 << 20,
    };
    let fork = r.fork();
    std::thread::scope(|sc| {
        let (st, al, bd) = (stop.clone(), all.clone(), bad.clone());
        let nd = node;
        sc.spawn(move || {
            while !st.load(Ordering::SeqCst) {
                let v = nd.pending(s) as u64;
                let top = al.load(Ordering::SeqCst);
                if v > top {
                    *bd.lock().unwrap() = Some(format!("{} bytes reported unsent, only {} were ever given for that session", v, top));
                    break;
                }
                std::thread::sleep(Duration::from_micros(100));
            }
        });
        let mut hs = vec![];
        for (thr, mut r) in forks.into_iter().enumerate() {
            let all = all.clone();
            hs.push(sc.spawn(move || {
                let mut mine = 0u64;
                let mut seq = 0;
                while mine < budget / threads as u64 && seq < 4000 {
                    let l = if holds { *r.pick(&[50usize, 300]) } else if small { *r.pick(&[50usize, 300, 1000]) } else { *r.pick(&[50usize, 300, 1000, 5000, 30_000, 200_000]) };
                    // 9 is nobody's protocol
                    let p = *r.pick(&[1usize, 1, 2, 3, 9]);
                    let h = Hdr { src: 0, high: r.chance(1, 3), p: p as u16, s: s as u32, thr: thr as u32, seq, len: l.max(HDR) as u32 };
                    seq += 1;
                    mine += l as u64;
                    let d = make(&h);
                    all.fetch_add(d.len() as u64, Ordering::SeqCst);
                    let ok = until_ok(|| post(&nd.ctl, s, p, h.high, &d));
                    if !ok {
                        break;
                    }
                    if !holds && r.chance(1, 10) {
                        std::thread::sleep(Duration::from_micros(r.below(2000)));
                    }
                }
            }));
        }
        let mut r = fork;
        let mut stalled = false;
        while !hs.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_micros(r.range(100, 4000)));
            vcommon::exec::beat();
            if closes && r.chance(1, 6) {
                let (k, t) = if r.chance(1, 2) { (0, s) } else { peer };
                let p = r.rus(1, 3);
                let _ = if r.chance(1, 2) { m.nodes[k].ctl.close_protocol(t.into(), pid(p)) } else { m.nodes[k].ctl.open_protocol(t.into(), pid(p)) };
            }
            if stalls && r.chance(1, 4) {
                stalled = !stalled;
                m.links[0].proxy.as_ref().unwrap().stall(stalled);
            }
        }
        m.links[0].proxy.as_ref().unwrap().stall(false);
        for p in 1..=3 {
            m.nodes[1].knob(p).resume();
        }
        // back to zero, or the session is gone
        let gone = |evs: &[Ev]| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::Close { s: t } if t == s));
        let mut zero = false;
        let mut last = (usize::MAX, Instant::now(), m.log.len());
        while !zero && !m.log.with(gone) && bad.lock().unwrap().is_none() {
            let v = node.pending(s);
            zero = v == 0;
            let l = m.log.len();
            if (v, l) != (last.0, last.2) {
                last = (v, Instant::now(), l);
            }
            if last.1.elapsed().as_millis() as u64 > QUIET_MS {
                *bad.lock().unwrap() = Some(format!("nothing happens any more and {} bytes are still reported unsent", v));
            }
            std::thread::sleep(Duration::from_millis(1));
            vcommon::exec::beat();
        }
        acc.add("back to zero", u64::from(zero));
        stop.store(true, Ordering::SeqCst);
    });
    if let Some(w) = bad.lock().unwrap().take() {
        return violation("wrong-amount", format!("{}\n{}", w, m.log.render(&[0], 30)));
    }
    // ended only if that much was really waiting
    let given = all.load(Ordering::SeqCst);
    for e in m.log.snap() {
        match e.w {
            What::Blocked { s: t, pending } if e.n == 0 && t == s => {
                // it may have shrunk before the report is handled
                if given <= limit as u64 || pending as u64 > given {
                    return violation("not-blocked", format!("session reported blocked with {} unsent, limit {}, {} given\n{}", pending, limit, given, m.log.render(&[0], 30)));
                }
                acc.add("blocked", 1);
            }
            What::Close { s: t } if e.n == 0 && t == s => {
                if given <= limit as u64 {
                    return violation("not-blocked", format!("session was ended although only {} bytes were given, the limit is {}\n{}", given, limit, m.log.render(&[0], 30)));
                }
                acc.add("ended", 1);
            }
            _ => (),
        }
    }
    acc.add("all below the limit", u64::from(given <= limit as u64));
    acc.add("held up", u64::from(holds));
    acc.add("undeliverable too", u64::from(!open3));
    acc.add("protocols closed meanwhile", u64::from(closes));
    acc.add("bytes", all.load(Ordering::SeqCst));
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

fn clone_cfg(c: &MeshCfg) -> MeshCfg {
    MeshCfg {
        nodes: c.nodes,
        secure: c.secure,
        ws: c.ws,
        protos: c.protos.clone(),
        proxied: c.proxied,
        window: c.window,
        send_buf: c.send_buf,
        keep_buffer: c.keep_buffer,
        modes: c.modes,
        extra_links: c.extra_links,
        no_block: c.no_block,
        tight: c.tight,
        keepalive_ms: c.keepalive_ms,
        runtime: None,
    }
}

/// much data for a protocol that is not open, then some that is held up for a moment
fn t09_leak(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.protos = vec![1];
    c.extra_links = false;
    c.proxied = 100;
    c.ws = false;
    let limit = 3_000_000;
    c.send_buf = Some(limit);
    c.window = Some(1 << 16);
    let m = mesh(r, c)?;
    let s = m.links[0].a.1;
    let i = m.links[0].a.0;
    let node = &m.nodes[i];
    let d = Bytes::from(vec![7u8; 50_000]);
    for k in 0..(limit / 50_000 * 2) {
        until_ok(|| node.ctl.send_message_to(s.into(), pid(9), d.clone()));
        if k % 20 == 19 {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    // what is thrown away leaves the queues at once
    let t = Instant::now();
    while node.pending(s) != 0 && t.elapsed() < Duration::from_secs(20) && !m.log.with(|e| e.iter().any(|e| matches!(e.w, What::Close { .. }))) {
        std::thread::sleep(Duration::from_millis(1));
        vcommon::exec::beat();
    }
    let n = r.rus(200, 600);
    let small = Bytes::from(vec![1u8; r.rus(HDR, 2000)]);
    m.links[0].proxy.as_ref().unwrap().stall(true);
    for k in 0..n {
        until_ok(|| node.ctl.send_message_to(s.into(), pid(1), small.clone()));
        if k == n / 2 {
            std::thread::sleep(Duration::from_millis(3));
        }
    }
    std::thread::sleep(Duration::from_millis(r.range(1, 20)));
    m.links[0].proxy.as_ref().unwrap().stall(false);
    let peer = m.links[0].b;
    let via = m.nodes[peer.0].modes[&1].vias()[0];
    let got = |evs: &[Ev]| evs.iter().filter(|e| matches!(&e.w, What::Recv { s: t, via: v, .. } if (e.n, *t) == peer && *v == via)).count();
    if !m.log.wait(|evs| got(evs) >= n)? {
        let e = m.log.snap();
        let b = e.iter().find(|e| matches!(e.w, What::Blocked { .. } | What::Close { .. }));
        return violation("not-blocked", format!("{} small messages were sent after many for a protocol that is not open, {} arrived, {:?}\n{}", n, got(&e), b.map(|e| &e.w), m.log.render(&[i], 10)));
    }
    acc.add("after undeliverable", 1);
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

/// nothing is taken any more: the session ends
fn t09_kill(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.extra_links = false;
    c.proxied = 100;
    c.ws = false;
    let limit = *r.pick(&[50_000usize, 200_000, 500_000]);
    c.send_buf = Some(limit);
    c.window = Some(1 << r.range(14, 18));
    let m = mesh(r, c)?;
    let (i, s) = m.links[0].a;
    let node = &m.nodes[i];
    m.links[0].proxy.as_ref().unwrap().stall(true);
    let p = *r.pick(&m.protos);
    let high = r.chance(1, 3);
    let pace = *r.pick(&[20usize, 100, 500]);
    let d = Bytes::from(vec![1u8; r.rus(HDR, 1500)]);
    // what network and multiplexer take, and the queues
    let n = (limit * 2 + (12 << 20)) / d.len() + 3000;
    let gone = |evs: &[Ev]| evs.iter().any(|e| e.n == i && matches!(e.w, What::Close { s: t } if t == s));
    for k in 0..n.min(60_000) {
        if k % 64 == 0 && m.log.with(gone) {
            break;
        }
        until_ok(|| post(&node.ctl, s, p, high, &d));
        if k % pace == pace - 1 {
            std::thread::sleep(Duration::from_millis(1));
            vcommon::exec::beat();
        }
    }
    let mut ended = m.log.wait_q(4000, gone)?;
    if !ended {
        for _ in 0..2000 {
            until_ok(|| post(&node.ctl, s, p, high, &d));
        }
        ended = m.log.wait(gone)?;
    }
    let waiting = node.pending(s);
    if !ended && waiting > limit * 2 {
        return violation("not-ended", format!("{} bytes are waiting, the limit is {}, nothing is taken, and the session goes on\n{}", waiting, limit, m.log.render(&[i], 30)));
    }
    acc.add("ended", u64::from(ended));
    acc.add("taken all the same", u64::from(!ended));
    acc.add("urgent ended", u64::from(ended && high));
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t09(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "deliverable and undeliverable messages of all sizes, protocols closed and opened in between, slow and stalled receivers, limits of 20 kB to 24 MB; the reported amount must never exceed what was given, be zero at rest, and a session is ended if and only if more than the limit is waiting".into(),
            assumptions: vec![],
            cases: ctx.q(160, 3000),
            budget_s: ctx.q(25, 900),
            threads: 6,
            must_see: vec!["back to zero", "ended", "undeliverable too", "protocols closed meanwhile", "after undeliverable", "held up", "all below the limit", "urgent ended"],
        },
        |seed, idx| {
            wrap(|| match idx % 8 {
                7 => t09_leak(seed),
                5 => t09_kill(seed),
                _ => t09_one(seed),
            })
        },
    )
}

// ---------------------------------------------------------------- T10

pub fn t10_one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 3;
    c.protos = (1..=r.rus(2, 4)).collect();
    c.proxied = 100;
    c.no_block = false;
    c.ws = r.chance(1, 8);
    c.extra_links = false;
    c.send_buf = Some(24 << 20);
    c.window = if r.chance(1, 2) { None } else { Some(1 << r.range(17, 19)) };
    let m = mesh_with(r, &mut c, |r, _, mut p| {
        // the service handle takes events itself: it is not to be slow
        while matches!(p.mode, Mode::Event | Mode::ServiceBoth | Mode::SessionBoth) {
            p.mode = Mode::any(r);
        }
        p
    })?;
    // what is sent, and who does not take it
    let li = r.us(m.links.len());
    let (from, to) = if r.chance(1, 2) { (m.links[li].a, m.links[li].b) } else { (m.links[li].b, m.links[li].a) };
    let slow = *r.pick(&m.protos);
    let link = r.chance(1, 3);
    if link {
        m.links[li].proxy.as_ref().unwrap().stall(true);
    } else {
        m.nodes[to.0].knob(slow).pause();
    }
    let msg = Bytes::from(vec![3u8; 4000]);
    let n = r.rus(700, 2600);
    let mut sent = 0;
    for _ in 0..n {
        if until_ok(|| m.nodes[from.0].ctl.send_message_to(from.1.into(), pid(slow), msg.clone())) {
            sent += 1;
        }
    }
    // the others go on, in large numbers
    let others: Vec<((usize, usize), usize)> = m
        .peer
        .keys()
        .flat_map(|k| m.protos.iter().map(move |p| (*k, *p)))
        .filter(|(k, p)| {
            let there = m.peer[k];
            let held = |x: (usize, usize)| if link { x == to || x == from } else { x.0 == to.0 && *p == slow };
            !held(*k) && !held(there) && !(!link && *k == from && *p == slow)
        })
        .collect();
    let many = r.chance(1, 2);
    let per = *r.pick(&[20u64, 250, 500]);
    // those on the same session more than all queues take
    let want = |k: &(usize, usize)| if many && *k == from { 2200 } else { per };
    let size = if many { 500 } else { 3000 };
    if many {
        for (k, p) in others.iter().filter(|(k, _)| *k == from) {
            m.nodes[m.peer[k].0].knob(*p).slow_us.store(r.range(50, 150), Ordering::SeqCst);
        }
    }
    let burst = r.chance(1, 2);
    std::thread::scope(|sc| {
        for (k, p) in &others {
            let m = &m;
            let mut r = r.fork();
            sc.spawn(move || {
                for seq in 0..want(k) {
                    let h = Hdr { src: k.0 as u8, high: false, p: *p as u16, s: k.1 as u32, thr: 77, seq, len: r.rus(HDR, size) as u32 };
                    let d = make(&h);
                    until_ok(|| m.nodes[k.0].ctl.send_message_to(k.1.into(), pid(*p), d.clone()));
                    if !burst && r.chance(1, 20) {
                        std::thread::sleep(Duration::from_micros(r.below(1000)));
                    }
                }
            });
        }
    });
    let mut g: HashMap<(usize, usize, usize), u64> = HashMap::new();
    let mut seen = 0;
    let done = |evs: &[Ev]| {
        for e in &evs[seen..] {
            if let What::Recv { p, s, via, data, .. } = &e.w {
                if *via == m.nodes[e.n].modes[p].vias()[0] && parse(data).map(|h| h.thr == 77).unwrap_or(false) {
                    *g.entry((e.n, *s, *p)).or_insert(0) += 1;
                }
            }
        }
        seen = evs.len();
        others.iter().all(|(k, p)| {
            let t = m.peer[k];
            g.get(&(t.0, t.1, *p)).copied().unwrap_or(0) == want(k)
        })
    };
    let what = format!("{} does not take protocol {} of session {:?}", if link { "the network" } else { "the handler" }, slow, to);
    if !m.log.wait(done)? {
        let miss: Vec<String> = others
            .iter()
            .filter_map(|(k, p)| {
                let t = m.peer[k];
                let have = g.get(&(t.0, t.1, *p)).copied().unwrap_or(0);
                if have != want(k) {
                    Some(format!("protocol {} from {:?} to {:?}: {} of {}", p, k, t, have, want(k)))
                } else {
                    None
                }
            })
            .collect();
        return violation("held-up", format!("{}, and others stand still:\n{}\n{}", what, miss.join("\n"), m.log.render(&[from.0, to.0], 30)));
    }
    acc.add("others served", others.len() as u64);
    // control requests too: a new service connects, opens, talks
    {
        let spare = start(m.rt.as_ref().unwrap(), &m.log, 9, NodeCfg { key: if m.nodes[0].key.is_some() { Some(key(r)) } else { None }, protos: m.protos.iter().map(|p| ProtoCfg::new(*p, Mode::Event)).collect(), ..NodeCfg::default() });
        for n in &m.nodes {
            let a = n.addr.clone().unwrap();
            until_ok(|| spare.ctl.dial(a.clone(), TargetProtocol::All));
        }
        let open = |evs: &[Ev]| open_sessions(evs, 9).len() == m.nodes.len();
        if !m.log.wait(open)? {
            return violation("requests-held-up", format!("{}, and a new session does not open\n{}", what, m.log.render(&[9], 30)));
        }
        until_ok(|| spare.ctl.close());
        acc.add("requests served", 1);
    }
    // bounded at the slow reader
    if !link {
        let pr = m.links[li].proxy.as_ref().unwrap();
        let b = pr.bytes(0).max(pr.bytes(1));
        let rest = others.iter().filter(|(k, _)| *k == from || *k == to).map(|(k, _)| want(k)).sum::<u64>() * (size as u64 + 100);
        acc.max("bytes taken by a stalled reader", b);
        if b > 7_000_000 + rest {
            return violation("unbounded", format!("{}, yet {} bytes were taken from the network for it", what, b));
        }
    }
    // and then everything arrives
    m.links[li].proxy.as_ref().unwrap().stall(false);
    m.nodes[to.0].knob(slow).resume();
    let via = m.nodes[to.0].modes[&slow].vias()[0];
    let all = |evs: &[Ev]| evs.iter().filter(|e| matches!(&e.w, What::Recv { p, s, via: v, data, .. } if (e.n, *s) == to && *p == slow && *v == via && data.len() == 4000 && data[0] == 3)).count() >= sent;
    if !m.log.wait(all)? {
        let k = m.log.count(|e| matches!(&e.w, What::Recv { p, s, via: v, data, .. } if (e.n, *s) == to && *p == slow && *v == via && data.len() == 4000 && data[0] == 3));
        return violation("lost", format!("{} for a while, then {} of {} messages arrived\n{}", what, k, sent, m.log.render(&[from.0, to.0], 20)));
    }
    acc.add(if link { "network stalled" } else { "handler stalled" }, 1);
    acc.add("resumed", 1);
    acc.nontrivial = true;
    acc.sig = seed;
    let _ = TargetSession::All;
    Ok(acc)
}

pub fn t10(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "one handler or one connection stops taking data while thousands of messages are sent to it; all others must exchange theirs and new sessions open meanwhile, what a stalled reader takes in is bounded, and everything arrives once it goes on".into(),
            assumptions: vec!["the unsent data stays below the configured limit".into()],
            cases: ctx.q(40, 1000),
            budget_s: ctx.q(25, 900),
            threads: 4,
            must_see: vec!["others served", "requests served", "network stalled", "handler stalled", "resumed"],
        },
        |seed, _| wrap(|| t10_one(seed)),
    )
}
