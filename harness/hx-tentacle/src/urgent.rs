//! T21: urgent messages go before the others that wait.
use crate::{judge::R, mesh::*, net::*, traffic::wrap};
use std::sync::atomic::Ordering;
use tentacle::service::TargetSession;
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

/// the receiver stands still, or the sending service does
fn one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let service = r.chance(1, 3);
    let rt = runtime(r);
    let log = Log::new();
    let secure = r.chance(1, 2);
    let window = 1u32 << r.range(16, 18);
    let modes = [Mode::Service, Mode::Session, Mode::Spawn, Mode::ServiceAndSession];
    let mut nodes = vec![];
    for n in 0..2 {
        let protos = vec![ProtoCfg::new(1, *r.pick(&modes)), ProtoCfg::new(2, *r.pick(&modes)), ProtoCfg::new(8, Mode::Event)];
        nodes.push(start(
            &rt,
            &log,
            n,
            NodeCfg {
                key: if secure { Some(key(r)) } else { None },
                protos,
                window: Some(window),
                recv_buf: Some(window as usize),
                listen: Some(fresh(r, false)),
                ..NodeCfg::default()
            },
        ));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: Default::default(), protos: vec![1, 2, 8] };
    let (i, j) = if r.chance(1, 2) { (0, 1) } else { (1, 0) };
    connect_by(&mut m, i, j, None, tentacle::service::TargetProtocol::All)?;
    let (a, b) = if r.chance(1, 2) { (m.links[0].a, m.links[0].b) } else { (m.links[0].b, m.links[0].a) };
    let (tx, rx) = (&m.nodes[a.0], &m.nodes[b.0]);
    let p = r.rus(1, 2);
    let k8 = tx.knob(8);
    if service {
        // the sending service is kept busy in its own event handler
        k8.whole.store(true, Ordering::SeqCst);
        k8.pause();
        until_ok(|| rx.ctl.raw.send_message_to(b.1.into(), pid(8), make(&Hdr { src: b.0 as u8, high: false, p: 8, s: 0, thr: 0, seq: 0, len: 40 })));
        until(&m.log, "service busy", |evs| evs.iter().any(|e| e.n == a.0 && matches!(e.w, What::Recv { p: 8, .. })))?;
    } else {
        rx.knob(p).pause();
    }
    // what is waiting
    let n = if service { r.rus(300, 900) } else { r.rus(5000, 7000) } as u64;
    let len = if service { r.rus(HDR, 600) } else { r.rus(300, 600) };
    let mk = |high: bool, seq: u64| make(&Hdr { src: a.0 as u8, high, p: p as u16, s: a.1 as u32, thr: 0, seq, len: len as u32 });
    let mut given = 0;
    for seq in 0..n {
        let d = mk(false, seq);
        let ok = match if service { r.below(2) } else { r.below(3) } {
            0 => until_ok(|| tx.ctl.raw.filter_broadcast(TargetSession::Single(a.1.into()), pid(p), d.clone())),
            1 => until_ok(|| tx.ctl.raw.send_message_to(a.1.into(), pid(p), d.clone())),
            _ => until_ok(|| tx.ctl.send_message_to(a.1.into(), pid(p), d.clone())),
        };
        given += u64::from(ok);
    }
    // let it get as far as it can
    m.log.settle(if service { 2 } else { 60 });
    let urgent = r.rus(1, 20) as u64;
    for seq in 0..urgent {
        let d = mk(true, seq);
        let s = a.1.into();
        match r.below(if service { 3 } else { 4 }) {
            0 => until_ok(|| tx.ctl.raw.quick_send_message_to(s, pid(p), d.clone())),
            1 => until_ok(|| tx.ctl.raw.quick_filter_broadcast(TargetSession::All, pid(p), d.clone())),
            2 => until_ok(|| tx.ctl.raw.quick_filter_broadcast(TargetSession::Multi(vec![s]), pid(p), d.clone())),
            _ => until_ok(|| tx.ctl.quick_send_message_to(s, pid(p), d.clone())),
        };
    }
    m.log.settle(20);
    k8.resume();
    rx.knob(p).resume();
    let via = rx.modes[&p].vias()[0];
    let seen = |evs: &[Ev]| -> Vec<Hdr> {
        evs.iter()
            .filter_map(|e| match &e.w {
                What::Recv { p: q, s, via: v, data, .. } if e.n == b.0 && *s == b.1 && *q == p && *v == via => parse(data),
                _ => None,
            })
            .collect()
    };
    let mut last = 0;
    let all = m.log.wait(|evs| {
        if evs.len() == last {
            return false;
        }
        last = evs.len();
        seen(evs).len() as u64 >= given + urgent
    })?;
    let got = m.log.with(seen);
    if !all {
        return violation("lost", format!("{} normal and {} urgent messages, {} arrived\n{}", given, urgent, got.len(), m.log.render(&[b.0], 10)));
    }
    // the last urgent one comes before so many of the others
    let at = got.iter().rposition(|h| h.high).unwrap();
    let before = got[..at].iter().filter(|h| !h.high).count();
    let (what, bound) = if service { ("the service was busy", 100) } else { ("the receiver stood still", given as usize / 2) };
    acc.max(if service { "normal before urgent, service busy" } else { "normal before urgent, receiver stalled" }, before as u64);
    if before > bound {
        return violation(
            "not-urgent",
            format!("{} normal messages of {} bytes were waiting because {}, then {} urgent ones were sent, and {} of the normal ones arrived before the last of them", given, len, what, urgent, before),
        );
    }
    // each kind in order
    for high in [false, true] {
        let l: Vec<u64> = got.iter().filter(|h| h.high == high).map(|h| h.seq).collect();
        if l.windows(2).any(|w| w[0] >= w[1]) {
            return violation("order", format!("messages of one priority arrived out of order: {:?}", l.windows(2).find(|w| w[0] >= w[1])));
        }
    }
    acc.add("urgent messages", urgent);
    acc.add(if service { "busy services" } else { "stalled receivers" }, 1);
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, before as u64);
    Ok(acc)
}

pub fn t21(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "thousands of normal messages wait because their receiver stands still, or because the sending service is busy; then urgent ones are sent by each urgent call; they must arrive before those still waiting in the sender, and each priority stays in order".into(),
            assumptions: vec!["what the multiplexer, the network and the receiver's queues already took is not overtaken: half of the waiting messages are allowed for it".into()],
            cases: ctx.q(60, 1500),
            budget_s: ctx.q(20, 600),
            threads: 5,
            must_see: vec!["urgent messages", "busy services", "stalled receivers"],
        },
        |seed, _| wrap(|| one(seed)),
    )
}
