//! T23: a handler's own poll is called as its answers ask for.
use crate::{judge::R, mesh::*, net::*, traffic::wrap};
use std::{
    collections::{HashMap, HashSet},
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::{Duration, Instant},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ans {
    /// call again at once
    Again,
    /// call when woken
    Wait,
    /// call no more
    Done,
}

struct St {
    script: Vec<Ans>,
    /// answers once the script is through
    rest: Ans,
    at: usize,
    last: Option<Ans>,
    waker: Option<Waker>,
    woken: bool,
    since: Instant,
    polls: u64,
    late: u64,
    agains: u64,
    wakes: u64,
}

/// what the handlers of one protocol of a node answer, and what they saw
pub struct Poller {
    m: Mutex<(Rng, HashMap<u64, St>, HashSet<u64>)>,
}

impl Poller {
    pub fn new(seed: u64) -> Arc<Poller> {
        Arc::new(Poller { m: Mutex::new((Rng::new(seed), HashMap::new(), HashSet::new())) })
    }
    pub fn poll(&self, obj: u64, cx: &mut Context) -> Poll<Option<()>> {
        let mut g = self.m.lock().unwrap();
        let (r, m, _) = &mut *g;
        let st = m.entry(obj).or_insert_with(|| {
            let mut script = vec![];
            for _ in 0..r.below(12) {
                if r.chance(1, 2) {
                    script.push(Ans::Wait);
                } else {
                    let k = if r.chance(1, 8) { r.range(100, 2000) } else { r.range(1, 6) };
                    (0..k).for_each(|_| script.push(Ans::Again));
                }
            }
            let rest = if r.chance(2, 3) { Ans::Done } else { Ans::Wait };
            St { script, rest, at: 0, last: None, waker: None, woken: false, since: Instant::now(), polls: 0, late: 0, agains: 0, wakes: 0 }
        });
        st.polls += 1;
        st.since = Instant::now();
        if st.last == Some(Ans::Done) {
            st.late += 1;
            return Poll::Ready(None);
        }
        // calls nobody asked for do not advance the script
        let asked = match st.last {
            Some(Ans::Wait) => std::mem::replace(&mut st.woken, false),
            _ => true,
        };
        if asked {
            if st.last == Some(Ans::Wait) {
                st.wakes += 1;
            }
            let a = st.script.get(st.at).copied().unwrap_or(st.rest);
            st.at += 1;
            st.last = Some(a);
        }
        match st.last.unwrap() {
            Ans::Again => {
                st.agains += 1;
                Poll::Ready(Some(()))
            }
            Ans::Done => Poll::Ready(None),
            Ans::Wait => {
                st.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn gone(&self, obj: u64) {
        self.m.lock().unwrap().2.insert(obj);
    }
}

/// wakes one in a few of those that wait; true when nothing remains to be done
fn step(all: &[Arc<Poller>], r: &mut Rng) -> bool {
    let mut over = true;
    for x in all {
        let mut g = x.m.lock().unwrap();
        let (_, m, gone) = &mut *g;
        let mut wake = vec![];
        for (obj, st) in m.iter_mut() {
            let last = st.at > st.script.len();
            if gone.contains(obj) || st.last == Some(Ans::Done) || (last && st.rest == Ans::Wait) {
                continue;
            }
            over = false;
            if st.last == Some(Ans::Wait) && !st.woken && r.chance(1, 2) {
                st.woken = true;
                st.since = Instant::now();
                wake.extend(st.waker.take());
            }
        }
        drop(g);
        wake.into_iter().for_each(|w| w.wake());
    }
    over
}

pub fn one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = r.rus(2, 3);
    c.proxied = 0;
    c.protos = vec![1, 2, 3];
    let modes = [Mode::Service, Mode::Session, Mode::ServiceAndSession, Mode::ServiceBoth, Mode::SessionBoth];
    let mut all: Vec<Arc<Poller>> = vec![];
    let m = mesh_with(r, &mut c, |r, _, mut p| {
        p.mode = *r.pick(&modes);
        p.no_block = r.chance(1, 3);
        if p.id != 3 {
            let x = Poller::new(r.next());
            all.push(x.clone());
            p.poller = Some(x);
        }
        p
    })?;
    let mut seq = 0u64;
    let mut sent: Vec<(usize, usize, usize, u64)> = vec![];
    let send = |r: &mut Rng, seq: &mut u64, sent: &mut Vec<(usize, usize, usize, u64)>| {
        let l = r.pick(&m.links);
        let (a, b) = if r.chance(1, 2) { (l.a, l.b) } else { (l.b, l.a) };
        let p = r.rus(1, 3);
        *seq += 1;
        let d = make(&Hdr { src: a.0 as u8, high: false, p: p as u16, s: a.1 as u32, thr: 9, seq: *seq, len: 60 });
        if until_ok(|| m.nodes[a.0].ctl.raw.send_message_to(a.1.into(), pid(p), d.clone())) {
            sent.push((b.0, b.1, p, *seq));
        }
    };
    // timers too, so that there are calls nobody asked for
    for n in &m.nodes {
        for p in 1..=2 {
            match n.modes[&p] {
                Mode::Session | Mode::SessionBoth => {
                    for s in m.sessions(n.n) {
                        until_ok(|| n.ctl.raw.set_session_notify(s.into(), pid(p), Duration::from_millis(r.range(1, 30)), 5));
                    }
                }
                _ => {
                    until_ok(|| n.ctl.raw.set_service_notify(pid(p), Duration::from_millis(r.range(1, 30)), 5));
                }
            }
        }
    }
    let describe = |all: &[Arc<Poller>]| {
        let mut v = vec![];
        for (i, x) in all.iter().enumerate() {
            let g = x.m.lock().unwrap();
            for (obj, st) in &g.1 {
                v.push(format!(
                    "handlers {} object {}{}: {} calls, answer {} of {}, last {:?}, woken {}, {} ms ago",
                    i,
                    obj,
                    if g.2.contains(obj) { " (gone)" } else { "" },
                    st.polls,
                    st.at,
                    st.script.len(),
                    st.last,
                    st.woken,
                    st.since.elapsed().as_millis()
                ));
            }
        }
        v.join("\n")
    };
    let mut k = 0;
    let done = m.log.wait_busy(QUIET_MS, |_| {
        k += 1;
        if k % 3 == 0 && sent.len() < 200 {
            send(r, &mut seq, &mut sent);
        }
        step(&all, r)
    });
    if !done {
        return violation("forgotten", format!("a handler that answered that it wants to be called again, or that was woken, is not called\n{}\n{}", describe(&all), m.log.render(&[], 30)));
    }
    // nothing else depends on it: messages still arrive, wherever polling is over
    for _ in 0..20 {
        send(r, &mut seq, &mut sent);
    }
    let missing = |evs: &[Ev]| {
        let mut got: HashSet<(usize, usize, usize, u64, Via)> = HashSet::new();
        for e in evs {
            if let What::Recv { p, s, via, data, .. } = &e.w {
                if let Some(h) = parse(data) {
                    got.insert((e.n, *s, *p, h.seq, *via));
                }
            }
        }
        sent.iter().filter(|(n, s, p, q)| m.nodes[*n].modes[p].vias().iter().any(|v| !got.contains(&(*n, *s, *p, *q, *v)))).count()
    };
    let mut seen = 0;
    let ok = m.log.wait_busy(QUIET_MS, |evs| {
        if evs.len() == seen {
            return false;
        }
        seen = evs.len();
        missing(evs) == 0
    });
    if !ok {
        return violation("deaf", format!("{} of {} messages were not given to handlers\n{}\n{}", m.log.with(missing), sent.len(), describe(&all), m.log.render(&[], 30)));
    }
    // timers go on as well
    let from = m.log.len();
    for n in &m.nodes {
        for p in 1..=2 {
            let ok = m.log.wait_busy(QUIET_MS, |evs| evs[from..].iter().filter(|e| e.n == n.n && matches!(e.w, What::Notify { p: q, token: 5, .. } if q == p)).count() >= 2);
            if !ok {
                return violation("no-timers", format!("the timer of protocol {} of node {} does not fire any more\n{}", p, n.n, describe(&all)));
            }
        }
    }
    for x in &all {
        let late = x.m.lock().unwrap().1.iter().find(|x| x.1.late > 0).map(|x| *x.0);
        if let Some(obj) = late {
            return violation("polled-again", format!("a handler (object {}) that answered that it does not want to be called again was\n{}", obj, describe(&all)));
        }
        for st in x.m.lock().unwrap().1.values() {
            acc.add("handlers", 1);
            acc.add("calls", st.polls);
            acc.add("called again at once", st.agains);
            acc.add("called when woken", st.wakes);
            if st.last == Some(Ans::Done) {
                acc.add("handlers that are through", 1);
            }
        }
    }
    acc.add("messages", sent.len() as u64);
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, acc.get("calls"));
    Ok(acc)
}

pub fn t23(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "handlers whose poll answers by a random script of again, wait and done, woken at random while messages and timers go on; each that asked for it is called again, none that is done, and messages and timers reach all of them to the end".into(),
            assumptions: vec![],
            cases: ctx.q(400, 8000),
            budget_s: ctx.q(20, 600),
            threads: 6,
            must_see: vec!["called again at once", "called when woken", "handlers that are through", "messages"],
        },
        |seed, _| wrap(|| one(seed)),
    )
}
