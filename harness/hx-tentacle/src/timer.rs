//! T11 timers.
use crate::{judge::R, mesh::*, net::*, traffic::wrap};
use std::{
    collections::HashMap,
    time::{Duration, Instant},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

/// a handler with timers: protocol, session if it lives with one
type Sub = (usize, Option<usize>);

#[derive(Clone, Debug)]
struct Timer {
    on: bool,
    /// shortest interval it was set with
    min: Duration,
    /// since when it is set, if it was known to be off before
    since: Option<Instant>,
}

struct T<'a> {
    m: &'a Mesh,
    next: u64,
    model: HashMap<(Sub, u64), Timer>,
    hist: Vec<String>,
}

fn fires(evs: &[Ev], sub: Sub, tok: u64) -> Vec<Instant> {
    evs.iter()
        .filter_map(|e| match e.w {
            What::Notify { p, s, token, .. } if e.n == 0 && (p, s) == sub && token == tok => Some(e.t),
            _ => None,
        })
        .collect()
}

impl<'a> T<'a> {
    fn set(&mut self, sub: Sub, tok: u64, d: Duration) {
        let c = &self.m.nodes[0].ctl;
        until_ok(|| match sub.1 {
            Some(s) => c.set_session_notify(s.into(), pid(sub.0), d, tok),
            None => c.set_service_notify(pid(sub.0), d, tok),
        });
    }
    fn unset(&mut self, sub: Sub, tok: u64) {
        let c = &self.m.nodes[0].ctl;
        until_ok(|| match sub.1 {
            Some(s) => c.remove_session_notify(s.into(), pid(sub.0), tok),
            None => c.remove_service_notify(pid(sub.0), tok),
        });
    }
    /// returns once the handler has dealt with everything asked before
    fn barrier(&mut self, sub: Sub) -> R<usize> {
        self.next += 1;
        let tok = 1000 + self.next;
        self.set(sub, tok, Duration::from_millis(1));
        if !self.m.log.wait_busy(QUIET_MS, |evs| !fires(evs, sub, tok).is_empty()) {
            return violation("silent", format!("timer of {:?} (protocol, session) set to 1 ms never fired\n{}\n{}", sub, self.hist.join("\n"), self.m.log.render(&[0], 40)));
        }
        self.unset(sub, tok);
        Ok(self.m.log.with(|evs| evs.iter().position(|e| matches!(e.w, What::Notify { p, s, token, .. } if e.n == 0 && (p, s) == sub && token == tok)).unwrap()))
    }
    fn check(&mut self, sub: Sub, toks: u64, acc: &mut Acc) -> R<()> {
        let from = self.barrier(sub)?;
        let mine: Vec<(u64, Timer)> = (0..toks).filter_map(|t| self.model.get(&(sub, t)).map(|x| (t, x.clone()))).collect();
        let on: Vec<u64> = mine.iter().filter(|x| x.1.on).map(|x| x.0).collect();
        let longest = mine.iter().map(|x| x.1.min).max().unwrap_or_default();
        let quiet = Instant::now();
        if !self.m.log.wait_busy(QUIET_MS, |evs| on.iter().all(|t| fires(&evs[from..], sub, *t).len() >= 3)) {
            return violation("stopped", format!("a timer of {:?} that is set does not fire (set are {:?})\n{}\n{}", sub, on, self.hist.join("\n"), self.m.log.render(&[0], 60)));
        }
        while quiet.elapsed() < longest * 2 {
            std::thread::sleep(Duration::from_millis(1));
        }
        let evs = self.m.log.snap();
        for (t, x) in &mine {
            let f = fires(&evs[from..], sub, *t);
            if !x.on {
                if !f.is_empty() {
                    return violation("after-removal", format!("timer {} of {:?} fired after it was removed\n{}\n{}", t, sub, self.hist.join("\n"), self.m.log.render(&[0], 60)));
                }
                acc.add("timers off", 1);
                continue;
            }
            for w in f.windows(2) {
                if w[1] - w[0] < x.min {
                    return violation("too-often", format!("timer {} of {:?} with interval {:?} fired twice within {:?}\n{}\n{}", t, sub, x.min, w[1] - w[0], self.hist.join("\n"), self.m.log.render(&[0], 60)));
                }
            }
            if let Some(since) = x.since {
                if let Some(first) = fires(&evs, sub, *t).into_iter().find(|f| *f >= since) {
                    if first - since < x.min {
                        return violation("too-early", format!("timer {} of {:?} with interval {:?} fired {:?} after it was set\n{}\n{}", t, sub, x.min, first - since, self.hist.join("\n"), self.m.log.render(&[0], 60)));
                    }
                }
            }
            acc.add("timers on", 1);
            acc.add("firings", f.len() as u64);
        }
        // what is on now was on before, what is off is known to be off
        for (t, _) in mine {
            self.model.get_mut(&(sub, t)).unwrap().since = None;
        }
        Ok(())
    }
}

pub fn one(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let mut c = MeshCfg::random(r);
    c.nodes = 2;
    c.proxied = 0;
    c.secure = false;
    c.extra_links = true;
    c.protos = vec![1, 2, 3];
    let modes = [Mode::Service, Mode::Session, Mode::ServiceAndSession, Mode::ServiceBoth, Mode::SessionBoth];
    let m = mesh_with(r, &mut c, |r, n, mut p| {
        if n == 0 {
            p.mode = *r.pick(&modes);
        }
        p
    })?;
    let mut subs: Vec<Sub> = vec![];
    for p in 1..=3 {
        let v = m.nodes[0].modes[&p].vias();
        if v.contains(&Via::Svc) {
            subs.push((p, None));
        }
        if v.contains(&Via::Ses) {
            for s in m.sessions(0) {
                subs.push((p, Some(s)));
            }
        }
    }
    let toks = 3;
    let mut t = T { m: &m, next: 0, model: HashMap::new(), hist: vec![] };
    let rounds = r.rus(2, 5);
    for _ in 0..rounds {
        let sub = *r.pick(&subs);
        // known to be off before the first set of this round
        let was: HashMap<u64, bool> = (0..toks).map(|k| (k, t.model.get(&(sub, k)).map(|x| x.on).unwrap_or(false))).collect();
        let mut removed: HashMap<u64, bool> = HashMap::new();
        for _ in 0..r.rus(1, 8) {
            let tok = r.below(toks);
            let cur = t.model.get(&(sub, tok)).cloned();
            if r.chance(3, 5) {
                let d = match &cur {
                    // mostly the same again
                    Some(x) if x.on && r.chance(3, 4) => x.min,
                    _ => Duration::from_millis(r.range(2, 25)),
                };
                t.hist.push(format!("set {:?} token {} interval {:?}", sub, tok, d));
                let at = Instant::now();
                t.set(sub, tok, d);
                match cur {
                    Some(x) if x.on => {
                        acc.add("set again", 1);
                        t.model.insert((sub, tok), Timer { on: true, min: x.min.min(d), since: x.since });
                    }
                    _ => {
                        let clean = !was[&tok] && !removed.contains_key(&tok);
                        t.model.insert((sub, tok), Timer { on: true, min: d, since: if clean { Some(at) } else { None } });
                    }
                }
            } else {
                t.hist.push(format!("remove {:?} token {}", sub, tok));
                t.unset(sub, tok);
                if cur.as_ref().map(|x| x.on).unwrap_or(false) {
                    acc.add("removed", 1);
                    removed.insert(tok, true);
                }
                let min = cur.map(|x| x.min).unwrap_or_default();
                t.model.insert((sub, tok), Timer { on: false, min, since: None });
            }
            if r.chance(1, 3) {
                std::thread::sleep(Duration::from_millis(r.range(1, 12)));
            }
        }
        if r.chance(1, 3) {
            // other timers and the protocol itself come and go
            if let Some(s) = sub.1 {
                let vias = m.nodes[0].modes[&sub.0].vias();
                until_ok(|| m.nodes[0].ctl.close_protocol(s.into(), pid(sub.0)));
                until(&m.log, "protocol closed", |evs| !is_conn(evs, 0, s, sub.0, &vias[..1]))?;
                let pe = m.peer[&(0, s)];
                until(&m.log, "protocol closed there", |evs| !is_conn(evs, pe.0, pe.1, sub.0, m.nodes[pe.0].modes[&sub.0].vias()))?;
                let mut ok = false;
                for _ in 0..200 {
                    until_ok(|| m.nodes[0].ctl.open_protocol(s.into(), pid(sub.0)));
                    let end = Instant::now() + Duration::from_millis(100);
                    while Instant::now() < end && !ok {
                        ok = m.log.with(|evs| is_conn(evs, 0, s, sub.0, vias));
                        std::thread::sleep(Duration::from_millis(1));
                    }
                    if ok {
                        break;
                    }
                }
                if !ok {
                    return Err(vcommon::Verdict::Inconclusive("protocol does not open again".into()));
                }
                t.hist.push(format!("closed and opened protocol {} of session {}", sub.0, s));
                acc.add("reopened", 1);
            }
        }
        t.check(sub, toks, &mut acc)?;
        if r.chance(1, 3) {
            let other = *r.pick(&subs);
            t.check(other, toks, &mut acc)?;
        }
    }
    // the end of a session is the end of its timers
    if let Some(s) = subs.iter().find_map(|x| x.1) {
        let mine: Vec<Sub> = subs.iter().filter(|x| x.1 == Some(s)).cloned().collect();
        for x in &mine {
            t.set(*x, 7, Duration::from_millis(2));
        }
        std::thread::sleep(Duration::from_millis(r.range(0, 10)));
        until_ok(|| m.nodes[0].ctl.disconnect(s.into()));
        until(&m.log, "session closed", |evs| evs.iter().any(|e| e.n == 0 && matches!(e.w, What::Close { s: t } if t == s)))?;
        // the handlers may still be busy with what came before
        std::thread::sleep(Duration::from_millis(200));
        let from = m.log.len();
        std::thread::sleep(Duration::from_millis(10));
        if let Some(e) = m.log.snap()[from..].iter().find(|e| e.n == 0 && matches!(e.w, What::Notify { s: Some(t), .. } if t == s)) {
            return violation("after-close", format!("{:?} long after session {} closed\n{}", e.w, s, m.log.render(&[0], 60)));
        }
        acc.add("ended with session", mine.len() as u64);
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn t11(ctx: &Ctx) {
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "timers of several tokens are set, set again and removed on service-lived and session-lived handlers; after a barrier through the same queue a removed timer must not fire, a set one must keep firing, never twice within its interval nor before it has passed".into(),
            assumptions: vec!["the monotonic clock of the host".into()],
            cases: ctx.q(300, 6000),
            budget_s: ctx.q(20, 600),
            threads: 8,
            must_see: vec!["timers on", "timers off", "set again", "removed", "reopened", "ended with session"],
        },
        |seed, _| wrap(|| one(seed)),
    )
}
