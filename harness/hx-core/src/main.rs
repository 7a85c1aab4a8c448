mod select;

use vcommon::{report::CheckSpec, Ctx};

fn main() {
    let ctx = Ctx::from_env();
    match ctx.prop.as_str() {
        "N01" => {
            let spec = CheckSpec {
                level: "exploration",
                rule: "results of both negotiation halves compared with an independent selection, plus the data that follows".into(),
                assumptions: vec!["version lists are in ascending order, as the selection documents".into()],
                cases: ctx.q(20_000, 1_000_000),
                budget_s: ctx.q(15, 900),
                threads: 8,
                must_see: vec!["agreed", "no_common", "unknown_name", "custom_select", "pipelined_frames", "hostile", "round_trips", "choice_below_top"],
            };
            ctx.run(spec, |seed, idx| select::case(seed, idx))
        }
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2)
        }
    }
}
