//! Y01, Y02, Y04, Y05, Y07: random workloads of two real sessions.
use crate::pair::*;
use vcommon::{exec, mix, CheckSpec, Ctx, Rng, Verdict};

pub fn pick_violation(w: &W, prop: &str) -> Option<Verdict> {
    let b = w.borrow();
    b.viol
        .iter()
        .find(|v| v.0 == prop)
        .map(|v| Verdict::Violation(v.1.to_owned(), v.2.clone()))
}

fn stuck(s: &Setup) -> String {
    let b = s.w.borrow();
    let pend: Vec<String> = b
        .streams
        .iter()
        .filter(|(_, d)| !(d[0].done && d[1].done))
        .take(6)
        .map(|(k, d)| {
            format!(
                "stream {} of side {}: {} of {} and {} of {} read, {:?}",
                k.1, k.0, d[0].read, d[0].written, d[1].read, d[1].written, plan(&b, *k).mode
            )
        })
        .collect();
    format!("{} tasks wait; {}", b.tasks_open, pend.join("; "))
}

/// An end still waits although the other end closed or dropped the stream.
fn closed_but_waiting(w: &W) {
    let mut b = w.borrow_mut();
    let mut t = vec![];
    for (k, d) in &b.streams {
        for i in 0..2 {
            if !d[i].done && (d[1 - i].shut || d[1 - i].dropped) {
                t.push(format!("stream {} of side {}: {} waits although the other end {}", k.1, k.0, ["the opener", "the acceptor"][i], if d[1 - i].dropped { "dropped it" } else { "closed it" }));
            }
        }
    }
    for x in t {
        b.v("Y07", "hangs-after-end", x);
    }
}

async fn case(seed: u64, prop: &str) -> Verdict {
    let mut r = Rng::new(seed);
    let mut o = opts(&mut r);
    match prop {
        // crossing the window matters most here
        "Y02" if r.chance(1, 2) => {
            o.cfg.max_stream_window_size = r.range(1, 300) as u32;
            o.max_total = o.max_total.max(u64::from(o.cfg.max_stream_window_size) * 5).min(3000);
        }
        "Y07" => o.modes = vec![Mode::Orderly, Mode::Early, Mode::Drop, Mode::Drop, Mode::Hold],
        "Y04" => o.stall = *r.pick(&[0, 2, 4]),
        _ => {}
    }
    let mut s = setup(seed, &mut r, o);
    let w = s.w.clone();
    let mut end = run(&mut s.ex, &w, |_| false).await;
    if end == RunEnd::Quiescent {
        // everything but the streams whose reader stopped must be finished
        let unfinished = {
            let b = w.borrow();
            let mut u = vec![];
            for (k, d) in &b.streams {
                let p = plan(&b, *k);
                if p.stall.is_none() && !(d[0].done && d[1].done) && !b.ended() {
                    u.push(format!(
                        "stream {} of side {} ({:?}): {}/{} and {}/{} bytes read",
                        k.1, k.0, p.mode, d[0].read, d[0].written, d[1].read, d[1].written
                    ));
                }
            }
            u
        };
        if !unfinished.is_empty() {
            let t = format!("session idle with work outstanding: {}", unfinished.join("; "));
            w.borrow_mut().v("Y04", "stuck", t.clone());
            w.borrow_mut().v("Y01", "stuck", t);
            closed_but_waiting(&w);
        } else {
            let ws: Vec<_> = {
                let mut b = w.borrow_mut();
                b.released = true;
                if b.stalled > 0 {
                    b.acc.add("stalled_streams_isolated", 1);
                }
                b.resume.drain(..).collect()
            };
            for x in ws {
                x.wake();
            }
            end = run(&mut s.ex, &w, |_| false).await;
            if end == RunEnd::Quiescent {
                let open = w.borrow().tasks_open;
                if open != 0 && !w.borrow().ended() {
                    let t = stuck(&s);
                    w.borrow_mut().v("Y04", "stuck", t.clone());
                    w.borrow_mut().v("Y01", "stuck", t);
                    closed_but_waiting(&w);
                }
                // every opened stream was announced
                let mut b = w.borrow_mut();
                if !b.ended() {
                    for side in 0..2usize {
                        let mut o = b.opened[side].clone();
                        let mut a = b.accepted[1 - side].clone();
                        o.sort();
                        a.sort();
                        if o != a {
                            let t = format!("side {} opened {:?}, the other side got {:?}", side, o, a);
                            b.v("Y05", "not-accepted", t);
                        }
                    }
                }
                if let (Some(_), _) | (_, Some(_)) = (&b.over[0], &b.over[1]) {
                    if !b.fault {
                        let t = format!("sessions ended on their own: {:?}", b.over);
                        b.v("Y04", "spurious-session-end", t.clone());
                        b.v("Y07", "spurious-session-end", t);
                    }
                }
            }
        }
    }
    if end == RunEnd::Live {
        let t = format!("300000 scheduler steps without moving a byte or completing an operation; {}", stuck(&s));
        w.borrow_mut().v("Y04", "live-lock", t);
    }
    if let Some(v) = pick_violation(&w, prop) {
        return v;
    }
    if end == RunEnd::TooLong || end == RunEnd::Live {
        return Verdict::Inconclusive("step budget used up".into());
    }
    let mut b = w.borrow_mut();
    let mut acc = std::mem::take(&mut b.acc);
    acc.add("scheduler_steps", s.ex.steps);
    acc.add("frames", b.mon[0].frames_out + b.mon[1].frames_out);
    acc.add("credits_seen", b.mon[0].credits + b.mon[1].credits);
    acc.max("unacknowledged_bytes", b.mon[0].max_used.max(b.mon[1].max_used));
    let full = u64::from(b.cfg.max_stream_window_size);
    if b.mon[0].max_used == full || b.mon[1].max_used == full {
        acc.add("windows_exhausted", 1);
    }
    acc.sig = mix(s.ex.trace, mix(b.mon[0].frames_out, b.mon[1].frames_out));
    acc.nontrivial = match prop {
        "Y01" => acc.get("bytes_read") > 0,
        "Y02" => b.mon[0].data_out + b.mon[1].data_out > 0,
        "Y05" => acc.get("accepted") > 0,
        "Y07" => acc.get("eof_seen") + acc.get("reset_seen") > 0,
        _ => acc.get("opened") > 0,
    };
    if acc.nontrivial {
        acc.sample = Some(format!(
            "seed {:#x}: {} streams, {} bytes read, {} frames, window {}, {} steps, strategy {:?}",
            seed, acc.get("opened"), acc.get("bytes_read"), acc.get("frames"), full, s.ex.steps, s.ex.strategy
        ));
    }
    drop(b);
    s.ex.clear();
    let held: Vec<_> = w.borrow_mut().held.drain(..).collect();
    drop(held);
    Verdict::Pass(acc)
}

pub fn check(ctx: &Ctx) -> ! {
    let prop = ctx.prop.clone();
    let rule = match prop.as_str() {
        "Y01" => "cases in which at least one byte was read and compared with the position-coded bytes written on that very stream and direction; distinct = hash of the interleaving",
        "Y02" => "cases in which data frames were emitted and the credit model of every stream was evaluated on each of them; distinct = hash of the interleaving",
        "Y04" => "cases with at least one stream, run to observed quiescence with all operations required complete; distinct = hash of the interleaving",
        "Y05" => "cases in which streams were announced and matched with the opened ones; distinct = hash of the interleaving",
        _ => "cases in which an end of stream or a reset was observed and judged; distinct = hash of the interleaving",
    };
    let must: Vec<&'static str> = match prop.as_str() {
        "Y01" => vec!["bytes_read", "eof_seen"],
        "Y02" => vec!["credits_seen", "windows_exhausted", "window_samples"],
        "Y04" => vec!["stalled_streams_isolated", "write_pending"],
        "Y05" => vec!["accepted"],
        _ => vec!["eof_seen", "reset_seen", "write_after_close_refused"],
    };
    let p2 = prop.clone();
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: rule.into(),
            assumptions: vec![
                "both ends use the same window size, as the protocol requires".into(),
                "a stream end that closed itself is not required to read the rest".into(),
            ],
            cases: ctx.q(6000, 400_000),
            budget_s: ctx.q(20, 900),
            threads: 8,
            must_see: must,
        },
        move |seed, _| exec::with_runtime(case(seed, &p2)),
    )
}
