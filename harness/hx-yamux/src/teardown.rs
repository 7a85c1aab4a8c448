//! Y08: whatever ends a session, everybody waiting on it is released.
use crate::pair::*;
use futures::future::abortable;
use std::{cell::RefCell, pin::Pin, rc::Rc, task::Poll};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::StreamHandle;
use vcommon::{
    exec::{self, yield_now},
    link::End,
    mix, CheckSpec, Ctx, Rng, Verdict,
};

/// reader and writer of one stream in different tasks
fn split_tasks(w: &W, ex: &vcommon::exec::Exec, h: StreamHandle) {
    let h = Rc::new(RefCell::new(h));
    w.borrow_mut().tasks_open += 2;
    let (h1, w1) = (h.clone(), w.clone());
    ex.spawn("split-writer", async move {
        futures::future::poll_fn(|cx| loop {
            match Pin::new(&mut *h1.borrow_mut()).poll_write(cx, &[7; 500]) {
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(_)) => return Poll::Ready(()),
                Poll::Pending => return Poll::Pending,
            }
        })
        .await;
        w1.borrow_mut().tasks_open -= 1;
        w1.borrow_mut().acc.add("split_writers_released", 1);
    });
    let w2 = w.clone();
    ex.spawn("split-reader", async move {
        let mut b = [0; 100];
        futures::future::poll_fn(|cx| loop {
            match Pin::new(&mut *h.borrow_mut()).poll_read(cx, &mut b) {
                Poll::Ready(Ok(_)) => {}
                Poll::Ready(Err(_)) => return Poll::Ready(()),
                Poll::Pending => return Poll::Pending,
            }
        })
        .await;
        w2.borrow_mut().tasks_open -= 1;
        // the handle lives on with the writer
        std::mem::drop(h);
    });
}

async fn case(seed: u64) -> Verdict {
    let mut r = Rng::new(seed);
    let mut o = opts(&mut r);
    o.max_total = o.max_total.min(3000);
    o.modes = vec![Mode::Hold, Mode::Hold, Mode::Orderly, Mode::Drop];
    o.stall = *r.pick(&[0, 2]);
    let tmo = r.range(1, 12);
    o.cfg.connection_write_timeout = std::time::Duration::from_secs(tmo);
    o.cfg.enable_keepalive = r.chance(1, 4);
    if o.cfg.max_stream_window_size < 40 {
        o.cfg.max_stream_window_size = 40;
    }
    let split = r.chance(1, 2);
    let win = o.cfg.max_stream_window_size;
    let mut s = setup_with(seed, &mut r, o, split);
    let w = s.s.w.clone();
    w.borrow_mut().only = Some("Y08");
    let ex = &mut s.s.ex;
    if let Some(h) = s.special.take() {
        split_tasks(&w, ex, h);
    }
    // openers and closers that come at random times
    let calls = Rc::new(RefCell::new((0u64, 0u64)));
    for side in 0..2usize {
        for _ in 0..r.us(4) {
            let mut c = s.s.ctl[side].clone();
            let wait = r.below(400);
            let calls = calls.clone();
            calls.borrow_mut().0 += 1;
            let w2 = w.clone();
            ex.spawn("late-opener", async move {
                for _ in 0..wait {
                    yield_now().await;
                }
                if let Ok(h) = c.open_stream().await {
                    opened(&w2, side as u8, h);
                }
                calls.borrow_mut().1 += 1;
            });
        }
    }
    let before = r.below(3000);
    let mut cnt = 0u64;
    run(ex, &w, |_| {
        cnt += 1;
        cnt > before
    })
    .await;
    let kind = r.below(8);
    let side = r.us(2);
    w.borrow_mut().fault = true;
    let mut need = [true, true];
    let ctls = s.s.ctl.clone();
    let closer = |ex: &vcommon::exec::Exec, side: usize| {
        let mut c = ctls[side].clone();
        let calls = calls.clone();
        calls.borrow_mut().0 += 1;
        ex.spawn("closer", async move {
            c.close().await;
            calls.borrow_mut().1 += 1;
        });
    };
    let what = match kind {
        0 => {
            closer(ex, side);
            "close"
        }
        1 => {
            closer(ex, 0);
            closer(ex, 1);
            "close on both ends"
        }
        2 => {
            s.s.ab.cut(End::Eof);
            s.s.ba.cut(End::Eof);
            "connection ended"
        }
        3 => {
            s.s.ab.cut(End::Reset);
            s.s.ba.cut(End::Reset);
            "connection reset"
        }
        4 => {
            // bytes no header can start with
            let g = vec![9u8; 40 + win as usize];
            if side == 0 {
                s.s.ba.inject(&g)
            } else {
                s.s.ab.inject(&g)
            }
            "protocol error"
        }
        5 => {
            s.abort[side].abort();
            w.borrow_mut().over[side] = Some("dropped".into());
            "session dropped"
        }
        6 => {
            s.s.ab.freeze(true);
            s.s.ba.freeze(true);
            closer(ex, side);
            need[1 - side] = false;
            "close with a silent peer"
        }
        _ => {
            // only one direction dies
            if side == 0 {
                s.s.ab.cut(End::Reset)
            } else {
                s.s.ba.cut(End::Eof)
            }
            "one direction lost"
        }
    };
    // readers that had stopped look at their streams again at some point
    if r.chance(1, 2) {
        let k = r.below(300);
        let mut cnt = 0;
        run(ex, &w, |_| {
            cnt += 1;
            cnt > k
        })
        .await;
    }
    let ws: Vec<_> = {
        let mut b = w.borrow_mut();
        b.released = true;
        b.resume.drain(..).collect()
    };
    for x in ws {
        x.wake();
    }
    let mut end = run(ex, &w, |_| false).await;
    let mut secs = 0;
    while end == RunEnd::Quiescent && secs < 3 * tmo + 5 {
        {
            let b = w.borrow();
            if (0..2).all(|i| !need[i] || b.over[i].is_some()) && b.tasks_open == 0 {
                break;
            }
        }
        ex.advance(1000).await;
        secs += 1;
        end = run(ex, &w, |_| false).await;
    }
    if end == RunEnd::Live {
        return Verdict::Violation("live-lock".into(), format!("{}: session keeps running without progress", what));
    }
    if end != RunEnd::Quiescent {
        return Verdict::Inconclusive(format!("{}: step budget", what));
    }
    for i in 0..2 {
        if need[i] && w.borrow().over[i].is_none() {
            return Verdict::Violation(
                "session-survives".into(),
                format!("{} (side {}): session {} still running after {} s, write timeout {} s", what, side, i, secs, tmo),
            );
        }
    }
    if kind != 6 {
        // streams of an unreachable, unaware peer are not judged
        if w.borrow().tasks_open != 0 {
            let alive = ex.alive();
            return Verdict::Violation(
                "waiter-stuck".into(),
                format!("{} (side {}): {} operations never return: {:?}", what, side, w.borrow().tasks_open, alive),
            );
        }
        let c = *calls.borrow();
        if c.0 != c.1 {
            return Verdict::Violation("control-stuck".into(), format!("{}: {} of {} control calls returned; {:?}", what, c.1, c.0, ex.alive()));
        }
        // later operations
        let held: Vec<StreamHandle> = w.borrow_mut().held.drain(..).collect();
        let waker = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&waker);
        for mut h in held {
            let id = h.id();
            if r.chance(1, 2) {
                match Pin::new(&mut h).poll_write(&mut cx, &[1]) {
                    Poll::Ready(_) => {}
                    Poll::Pending => return Verdict::Violation("late-write".into(), format!("{}: writing to stream {} of an ended session waits (send window {})", what, id, h.send_window())),
                }
            }
            let mut k = 0;
            loop {
                let mut b = [0; 4096];
                match Pin::new(&mut h).poll_read(&mut cx, &mut b) {
                    Poll::Ready(Ok(n)) if n > 0 => {}
                    Poll::Ready(_) => break,
                    Poll::Pending => return Verdict::Violation("late-read".into(), format!("{}: reading stream {} of an ended session waits", what, id)),
                }
                k += 1;
                if k > 100_000 {
                    return Verdict::Violation("late-read-endless".into(), format!("{}: endless data on stream {}", what, id));
                }
            }
            w.borrow_mut().acc.add("late_operations", 2);
        }
        for side in 0..2usize {
            let mut c = s.s.ctl[side].clone();
            let done = Rc::new(RefCell::new(None));
            let d2 = done.clone();
            ex.spawn("after", async move {
                let o = c.open_stream().await.is_ok();
                c.close().await;
                *d2.borrow_mut() = Some(o);
            });
            let _ = run(ex, &w, |_| false).await;
            let res = *done.borrow();
            match res {
                None => return Verdict::Violation("late-control".into(), format!("{}: control calls on the ended session {} wait", what, side)),
                Some(true) => return Verdict::Violation("late-open".into(), format!("{}: a stream was opened on the ended session {}", what, side)),
                Some(false) => w.borrow_mut().acc.add("late_opens_refused", 1),
            }
        }
    }
    let mut b = w.borrow_mut();
    let mut acc = std::mem::take(&mut b.acc);
    acc.add(&format!("ended_by_{}", what.replace(' ', "_")), 1);
    acc.add("virtual_seconds", secs);
    acc.add("waiting_calls", calls.borrow().0);
    acc.nontrivial = true;
    acc.sig = mix(s.s.ex.trace, kind);
    acc.sample = Some(format!("{} after {} steps, {} streams, released within {} virtual seconds", what, before, b.streams.len(), secs));
    drop(b);
    s.s.ex.clear();
    Verdict::Pass(acc)
}

struct TearSetup {
    s: Setup,
    abort: [futures::future::AbortHandle; 2],
    special: Option<StreamHandle>,
}

fn setup_with(seed: u64, r: &mut Rng, o: Opts, split: bool) -> TearSetup {
    let (s, mut sessions) = setup_parts(seed, r, o);
    let special = if split {
        let h = sessions[0].open_stream().ok();
        if let Some(h) = &h {
            s.w.borrow_mut().special = Some(h.id());
        }
        h
    } else {
        None
    };
    let sb = sessions.pop().unwrap();
    let sa = sessions.pop().unwrap();
    let (fa, aa) = abortable(drive(s.w.clone(), 0, sa));
    let (fb, ab) = abortable(drive(s.w.clone(), 1, sb));
    s.ex.spawn("session0", async move {
        let _ = fa.await;
    });
    s.ex.spawn("session1", async move {
        let _ = fb.await;
    });
    TearSetup { s, abort: [aa, ab], special }
}

pub fn y08(ctx: &Ctx) -> ! {
    ctx.run(
        CheckSpec {
            level: "fault_enumeration",
            rule: "cases that ended a session in one of nine ways at a random point of a random workload and then judged every waiting and later operation; distinct = hash of interleaving and fault".into(),
            assumptions: vec![
                "a writer waiting for window is released through the reading side of its stream, so waiting writers have a reader".into(),
            ],
            cases: ctx.q(20_000, 1_000_000),
            budget_s: ctx.q(20, 700),
            threads: 8,
            must_see: vec!["late_opens_refused", "late_operations", "split_writers_released", "peer_went_away"],
        },
        |seed, idx| if idx % 8 == 7 { exec::with_runtime(crate::scripted::case08(seed)) } else { exec::with_runtime(case(seed)) },
    )
}
