// The channel's own sources are compiled here a second time, against a standard library whose
// shared-memory operations are scheduling points.
extern crate vfutures as futures;
extern crate vstd as std;

#[path = "/repo/tentacle/src/channel/mod.rs"]
#[allow(dead_code, deprecated)]
mod channel;
mod judge;
mod miri;
mod work;

use vcommon::{report::CheckSpec, Ctx};

fn main() {
    let ctx = Ctx::from_env();
    let assumptions = vec![
        "every access of shared memory in the channel is sequentially consistent in the controlled schedules; weaker orders are covered by C03 under Miri".to_owned(),
    ];
    match ctx.prop.as_str() {
        "C01" | "C02" => {
            let which: &'static str = if ctx.prop == "C01" { "C01" } else { "C02" };
            let spec = CheckSpec {
                level: "exploration",
                rule: "send/receive history recorded under a controlled scheduler, judged against the channel's contract".into(),
                assumptions,
                cases: ctx.q(30_000, 1_500_000),
                budget_s: ctx.q(15, 1_200),
                threads: 8,
                must_see: if which == "C01" {
                    vec!["sent_high", "sent_normal", "received", "refused_full", "refused_closed", "receives_judged_for_priority", "drained_to_end"]
                } else {
                    vec!["blocked_sender_resumed", "receiver_waited", "closed_by_receiver", "closed_by_sender", "ended_by_last_drop", "drained_to_end", "refused_full"]
                },
            };
            ctx.run(spec, move |seed, idx| work::case(which, seed, idx))
        }
        "C03" => {
            let n = ctx.q(1_500, 40_000);
            let m = ctx.q(1, 12);
            let (root, seeds) = (ctx.root.clone(), ctx.q(480, 600));
            let spec = CheckSpec {
                level: "exploration",
                rule: "Miri's data race, aliasing, use-after-free and leak checks plus a count of destructions per message".into(),
                assumptions: vec!["Miri explores one schedule and one weak-memory outcome per seed".into()],
                cases: n + m,
                budget_s: ctx.q(150, 1_500),
                threads: 8,
                must_see: vec!["miri_runs", "destroyed", "dropped_inside"],
            };
            ctx.run(spec, move |seed, idx| {
                if idx < m {
                    miri::case(&root, seed, seeds)
                } else {
                    work::case("C03", seed, idx)
                }
            })
        }
        p => {
            eprintln!("unknown property {}", p);
            real_exit(2)
        }
    }
}

fn real_exit(c: i32) -> ! {
    std::real::process::exit(c)
}
