//! R01, R02: the workloads and oracles of the other checks on the library's alternative runtime and
//! timer; which of them is chosen when the library is compiled.
use crate::{bind, close, dial, idle, judge::R, life, listen, net::quiet_runtime, poll, timer, traffic};
use futures::StreamExt;
use std::time::{Duration, Instant};
use tentacle::runtime;
use traffic::{wrap, Shape};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Rng};

const PARTS: &[&str] = &["messages", "targets", "handlers", "sessions", "dials", "identity", "closing", "timers", "futures", "panics", "protocols", "limits", "listening", "ending", "handlers' polls", "local addresses", "delays"];

/// the delays, intervals and time-outs offered by the library never end early
fn delays(seed: u64) -> R<Acc> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut acc = Acc::default();
    let rt = quiet_runtime(1);
    let ms = r.range(1, 40);
    let (d, ticks) = (Duration::from_millis(ms), r.range(2, 6) as u32);
    let (tx, rx) = std::sync::mpsc::channel();
    rt.enter(|| {
        for kind in 0..4 {
            let tx = tx.clone();
            runtime::spawn(async move {
                let start = Instant::now();
                let (least, done) = match kind {
                    0 => {
                        let _ = runtime::delay_for(d).await;
                        (d, true)
                    }
                    1 => (d, runtime::timeout(d, futures::future::pending::<()>()).await.is_err()),
                    2 => (Duration::from_millis(0), runtime::timeout(d * 1000, futures::future::ready(())).await.is_ok()),
                    _ => {
                        // where the first tick comes at once, the others still take their time
                        let mut i = runtime::interval(d);
                        let mut n = 0;
                        while n < ticks && i.next().await.is_some() {
                            n += 1;
                        }
                        (d * (ticks - 1), n == ticks)
                    }
                };
                let _ = tx.send((kind, least, start.elapsed(), done));
            });
        }
    });
    for _ in 0..4 {
        let (kind, least, took, done) = match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(x) => x,
            Err(_) => return violation("delay-lost", format!("delays of {} ms are not over after 20 s", ms)),
        };
        let what = ["delay", "time-out", "time-out of what is done", "interval"][kind];
        if !done || took + Duration::from_millis(1) < least {
            return violation("delay", format!("{} of {} ms: over after {:?}, at least {:?} expected, as expected: {}", what, ms, took, least, done));
        }
    }
    acc.nontrivial = true;
    acc.sig = seed;
    Ok(acc)
}

pub fn run(ctx: &Ctx) {
    // handlers of several cases block at the same time
    std::env::set_var("ASYNC_STD_THREAD_COUNT", "48");
    let mut must_see = PARTS.to_vec();
    must_see.extend(&["messages judged", "high priority messages", "idle sessions closed", "stalled handshakes dropped", "timeouts"]);
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "the cases of the checks of messages, handler and session life, dials, identity, closing, timers, futures, panics, protocols, limits, listening, own polls and local addresses in turn, judged as there, with the library compiled for another runtime or timer".into(),
            assumptions: vec!["the services of a case are polled from a tokio runtime, everything they spawn runs where the library puts it".into()],
            cases: ctx.q(400, 8000),
            budget_s: ctx.q(40, 900),
            threads: 6,
            must_see,
        },
        |seed, idx| {
            wrap(|| {
                let n = PARTS.len() as u64;
                let (part, k) = (PARTS[(idx % n) as usize], idx / n);
                let sh = Shape { targets: part == "targets", faults: k % 3 == 2, xform: false, no_tiny: false, burst: k % 6 == 1 };
                let mut acc = match part {
                    "messages" | "targets" => traffic::one(seed, sh),
                    "handlers" => life::t03_one(seed),
                    "sessions" => life::t04_one(seed, k % 3),
                    "dials" => dial::t05_one(seed),
                    "identity" => dial::t06_one(seed),
                    "closing" => close::t07_one(seed),
                    "timers" => timer::one(seed),
                    "futures" => close::t12_one(seed),
                    "panics" => close::t13_one(seed),
                    "protocols" => life::t14_one(seed),
                    "limits" => match k % 3 {
                        0 => dial::t15_limit(seed),
                        1 => dial::t15_idle(seed),
                        _ => dial::t15_handshake(seed),
                    },
                    "listening" => listen::t18_one(seed),
                    "ending" => idle::t22_one(seed),
                    "handlers' polls" => poll::one(seed),
                    "local addresses" => bind::one(seed),
                    _ => delays(seed),
                }?;
                acc.add(part, 1);
                Ok(acc)
            })
        },
    )
}
