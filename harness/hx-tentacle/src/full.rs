//! T25: a request is taken up or refused; refused as full only while it may be tried again, as
//! gone only when the service is.
use crate::{judge::R, mesh::*, net::*, traffic::wrap};
use futures::executor::block_on;
use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tentacle::{
    error::SendErrorKind,
    multiaddr::Multiaddr,
    service::{ServiceAsyncControl, TargetProtocol, TargetSession},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

/// what was given by one thread: messages and dials taken up
#[derive(Default)]
struct Given {
    normal: Vec<u64>,
    urgent: Vec<u64>,
    dials: Vec<Multiaddr>,
    refused: Vec<Multiaddr>,
    full: usize,
    gone: Option<&'static str>,
}

fn one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let rt = runtime(r);
    let log = Log::new();
    let secure = r.chance(1, 2);
    let modes = [Mode::Service, Mode::Session, Mode::Spawn];
    let mut nodes = vec![];
    for n in 0..2 {
        let protos = vec![ProtoCfg::new(1, *r.pick(&modes)), ProtoCfg::new(8, Mode::Event)];
        nodes.push(start(&rt, &log, n, NodeCfg { key: if secure { Some(key(r)) } else { None }, protos, listen: Some(fresh(r, false)), ..NodeCfg::default() }));
    }
    let mut m = Mesh { rt: Some(rt), log, nodes, links: vec![], peer: Default::default(), protos: vec![1, 8] };
    connect_by(&mut m, 0, 1, None, TargetProtocol::All)?;
    let (a, b) = (m.links[0].a, m.links[0].b);
    let (tx, rx) = (&m.nodes[a.0], &m.nodes[b.0]);
    // the service is kept busy in its own event handler
    let k8 = tx.knob(8);
    k8.whole.store(true, Ordering::SeqCst);
    k8.pause();
    until_ok(|| rx.ctl.raw.send_message_to(b.1.into(), pid(8), make(&Hdr { src: b.0 as u8, high: false, p: 8, s: 0, thr: 0, seq: 0, len: 40 })));
    until(&m.log, "service busy", |evs| evs.iter().any(|e| e.n == a.0 && matches!(e.w, What::Recv { p: 8, .. })))?;
    let msg = move |high: bool, thr: u32, seq: u64, len: usize| make(&Hdr { src: a.0 as u8, high, p: 1, s: a.1 as u32, thr, seq, len: len as u32 });
    // nobody listens at these
    let dead = fresh(r, false).to_string();
    let port = Arc::new(AtomicUsize::new(r.rus(100, 900)));
    let threads = r.rus(1, 3);
    let start = Instant::now();
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (ctl, mut r, dead, port) = (tx.ctl.raw.clone(), r.fork(), dead.clone(), port.clone());
            let s = a.1.into();
            std::thread::spawn(move || {
                let mut g = Given::default();
                let (mut seq, mut useq) = (0u64, 0u64);
                let mut rest = r.rus(20, 60);
                // until all is full, and some more
                while rest > 0 && start.elapsed().as_secs() < 20 {
                    let len = HDR + r.us(60);
                    let (res, what) = match r.below(40) {
                        0..=14 => {
                            seq += 1;
                            (ctl.send_message_to(s, pid(1), msg(false, t as u32, seq, len)), "send_message_to")
                        }
                        15..=22 => {
                            seq += 1;
                            (ctl.filter_broadcast(TargetSession::Single(s), pid(1), msg(false, t as u32, seq, len)), "filter_broadcast")
                        }
                        23..=30 => {
                            useq += 1;
                            (ctl.quick_send_message_to(s, pid(1), msg(true, t as u32, useq, len)), "quick_send_message_to")
                        }
                        31..=36 => {
                            useq += 1;
                            (ctl.quick_filter_broadcast(TargetSession::Multi(vec![s]), pid(1), msg(true, t as u32, useq, len)), "quick_filter_broadcast")
                        }
                        37 => {
                            let p = port.fetch_add(1, Ordering::SeqCst);
                            let at: Multiaddr = dead.replace("/tcp/0", &format!("/tcp/{}", p)).parse().unwrap();
                            let x = ctl.dial(at.clone(), TargetProtocol::All);
                            if x.is_ok() {
                                g.dials.push(at);
                            } else {
                                g.refused.push(at);
                            }
                            (x, "dial")
                        }
                        38 => (ctl.set_service_notify(pid(1), Duration::from_secs(600), 77), "set_service_notify"),
                        _ => (ctl.future_task(async {}), "future_task"),
                    };
                    match res {
                        Ok(()) => match what {
                            "send_message_to" | "filter_broadcast" => g.normal.push(seq),
                            "quick_send_message_to" | "quick_filter_broadcast" => g.urgent.push(useq),
                            _ => (),
                        },
                        Err(SendErrorKind::WouldBlock) => {
                            g.full += 1;
                            rest -= 1;
                        }
                        Err(SendErrorKind::BrokenPipe) => {
                            g.gone = Some(what);
                            break;
                        }
                    }
                    vcommon::exec::beat();
                }
                // ends are refused in the same way
                if g.full > 0 && r.chance(1, 4) {
                    match ctl.future_task(async {}) {
                        Err(SendErrorKind::BrokenPipe) => g.gone = Some("future_task"),
                        _ => (),
                    }
                }
                g
            })
        })
        .collect();
    let given: Vec<Given> = handles.into_iter().map(|h| h.join().unwrap()).collect();
    if let Some(w) = given.iter().find_map(|g| g.gone) {
        return violation("gone", format!("{} was refused because the service is gone; it is only busy\n{}", w, m.log.render(&[a.0], 20)));
    }
    // patient ones wait
    let waiting = r.rus(1, 4);
    let waited: Arc<Mutex<Vec<(u64, bool, Result<(), SendErrorKind>)>>> = Default::default();
    let patient: Vec<_> = (0..waiting)
        .map(|i| {
            let (mut c, waited, high) = (ServiceAsyncControl::from(tx.ctl.raw.clone()), waited.clone(), r.chance(1, 2));
            let s = a.1.into();
            std::thread::spawn(move || {
                let d = msg(high, 100 + i as u32, 1, HDR + 5);
                let x = if high { block_on(c.quick_send_message_to(s, pid(1), d)) } else { block_on(c.send_message_to(s, pid(1), d)) };
                waited.lock().unwrap().push((100 + i as u64, high, x));
            })
        })
        .collect();
    std::thread::sleep(Duration::from_millis(r.range(1, 60)));
    if !waited.lock().unwrap().is_empty() {
        acc.add("patient requests that found room", 1);
    }
    k8.resume();
    let t = Instant::now();
    while waited.lock().unwrap().len() < waiting {
        if t.elapsed().as_secs() > 30 {
            return violation("stuck", format!("{} of {} asynchronous requests are still waiting 30 s after the service went on\n{}", waiting - waited.lock().unwrap().len(), waiting, m.log.render(&[a.0], 20)));
        }
        vcommon::exec::beat();
        std::thread::sleep(Duration::from_millis(2));
    }
    for h in patient {
        h.join().unwrap();
    }
    if let Some(x) = waited.lock().unwrap().iter().find(|x| x.2.is_err()) {
        return violation("refused", format!("an asynchronous request to a service that was only busy ended with {:?}", x.2));
    }
    // room again
    if !until_ok(|| tx.ctl.raw.send_message_to(a.1.into(), pid(1), msg(false, 200, 1, HDR))) {
        return violation("refused", format!("the service goes on, and still refuses a message\n{}", m.log.render(&[a.0], 20)));
    }
    // everything taken up is done once, nothing else is
    let via = rx.modes[&1].vias()[0];
    let mut want: HashSet<(u32, bool, u64)> = HashSet::new();
    for (t, g) in given.iter().enumerate() {
        want.extend(g.normal.iter().map(|s| (t as u32, false, *s)));
        want.extend(g.urgent.iter().map(|s| (t as u32, true, *s)));
    }
    want.extend(waited.lock().unwrap().iter().map(|x| (x.0 as u32, x.1, 1)));
    want.insert((200, false, 1));
    let dials: Vec<Multiaddr> = given.iter().flat_map(|g| g.dials.iter().cloned()).collect();
    let seen = |evs: &[Ev]| -> Vec<Hdr> {
        evs.iter()
            .filter_map(|e| match &e.w {
                What::Recv { p: 1, s, via: v, data, .. } if e.n == b.0 && *s == b.1 && *v == via => parse(data),
                _ => None,
            })
            .collect()
    };
    let errs = |evs: &[Ev], a0: &Multiaddr| evs.iter().filter(|e| e.n == a.0 && matches!(&e.w, What::DialErr { addr, .. } if addr == a0)).count();
    let mut last = 0;
    m.log.wait(|evs| {
        if evs.len() == last {
            return false;
        }
        last = evs.len();
        seen(evs).len() >= want.len() && dials.iter().all(|d| errs(evs, d) > 0)
    })?;
    m.log.settle(20);
    let evs = m.log.snap();
    let mut got = HashSet::new();
    let mut lasts = std::collections::HashMap::new();
    for h in seen(&evs) {
        let k = (h.thr, h.high, h.seq);
        if !want.contains(&k) || !got.insert(k) {
            return violation("not-given", format!("message {:?} arrived, and it was {}", k, if want.contains(&k) { "there before" } else { "refused" }));
        }
        let l = lasts.entry((h.thr, h.high)).or_insert(0);
        if *l >= h.seq {
            return violation("order", format!("message {:?} arrived after {}", k, l));
        }
        *l = h.seq;
    }
    if got.len() != want.len() {
        return violation("lost", format!("{} messages were taken up, {} arrived, e.g. not {:?}\n{}", want.len(), got.len(), want.iter().find(|k| !got.contains(*k)), m.log.render(&[], 20)));
    }
    for d in &dials {
        if errs(&evs, d) != 1 {
            return violation("dial", format!("the dial of {} was taken up and reported {} times", d, errs(&evs, d)));
        }
        acc.add("dials", 1);
    }
    for d in given.iter().flat_map(|g| &g.refused) {
        if errs(&evs, d) != 0 {
            return violation("dial", format!("the dial of {} was refused and nevertheless made", d));
        }
        acc.add("dials refused", 1);
    }
    acc.add("messages", want.len() as u64);
    acc.add("refused as full", given.iter().map(|g| g.full as u64).sum());
    acc.add("patient requests", waiting as u64);
    // gone
    if r.chance(1, 2) {
        until_ok(|| tx.ctl.raw.close());
    } else {
        until_ok(|| tx.ctl.raw.shutdown());
    }
    until(&m.log, "end", |evs| evs.iter().any(|e| e.n == a.0 && matches!(e.w, What::End)))?;
    let (c, s) = (tx.ctl.raw.clone(), a.1.into());
    let d = move || msg(false, 300, 1, HDR);
    let to = rx.addr.clone().unwrap();
    let late = vec![
        ("send_message_to", c.send_message_to(s, pid(1), d())),
        ("quick_send_message_to", c.quick_send_message_to(s, pid(1), d())),
        ("filter_broadcast", c.filter_broadcast(TargetSession::All, pid(1), d())),
        ("quick_filter_broadcast", c.quick_filter_broadcast(TargetSession::All, pid(1), d())),
        ("dial", c.dial(to.clone(), TargetProtocol::All)),
        ("listen", c.listen(to.clone())),
        ("disconnect", c.disconnect(s)),
        ("open_protocol", c.open_protocol(s, pid(1))),
        ("open_protocols", c.open_protocols(s, TargetProtocol::All)),
        ("close_protocol", c.close_protocol(s, pid(1))),
        ("set_service_notify", c.set_service_notify(pid(1), Duration::from_secs(1), 1)),
        ("set_session_notify", c.set_session_notify(s, pid(1), Duration::from_secs(1), 1)),
        ("remove_service_notify", c.remove_service_notify(pid(1), 1)),
        ("remove_session_notify", c.remove_session_notify(s, pid(1), 1)),
        ("future_task", c.future_task(async {})),
    ];
    if let Some((n, x)) = late.iter().find(|(_, x)| !matches!(x, Err(SendErrorKind::BrokenPipe))) {
        return violation("late", format!("{} to a service that ended: {:?}", n, x));
    }
    let (done, answer) = std::sync::mpsc::channel();
    let mut ac = ServiceAsyncControl::from(c);
    std::thread::spawn(move || {
        let v = vec![
            ("async send_message_to", block_on(ac.send_message_to(s, pid(1), d()))),
            ("async quick_send_message_to", block_on(ac.quick_send_message_to(s, pid(1), d()))),
            ("async dial", block_on(ac.dial(to, TargetProtocol::All))),
            ("async disconnect", block_on(ac.disconnect(s))),
            ("async future_task", block_on(ac.future_task(async {}))),
        ];
        let _ = done.send(v);
    });
    match answer.recv_timeout(Duration::from_secs(20)) {
        Err(_) => return violation("late", "an asynchronous request to a service that ended waits for ever".to_string()),
        Ok(v) => {
            if let Some((n, x)) = v.iter().find(|(_, x)| !matches!(x, Err(SendErrorKind::BrokenPipe))) {
                return violation("late", format!("{} to a service that ended: {:?}", n, x));
            }
        }
    }
    acc.add("late requests", late.len() as u64 + 5);
    acc.nontrivial = acc.get("refused as full") > 0;
    acc.sig = seed;
    Ok(acc)
}

pub fn t25(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "a service stands still in its event handler while threads give it messages of both priorities, dials, timers and tasks until it is full; refusals must say full; asynchronous requests wait; when it goes on, everything taken up is done exactly once and in order and nothing refused is; after its end everything is refused as gone".into(),
            assumptions: vec!["requests other than messages and dials are judged by their answers only".into()],
            cases: ctx.q(60, 1500),
            budget_s: ctx.q(20, 600),
            threads: 5,
            must_see: vec!["messages", "refused as full", "dials", "dials refused", "patient requests", "late requests"],
        },
        |seed, _| wrap(|| one(seed)),
    )
}
