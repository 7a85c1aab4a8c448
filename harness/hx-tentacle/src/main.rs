mod addr;
mod bind;
mod full;
mod close;
mod ctl;
mod dial;
mod hostile;
mod idle;
mod judge;
mod life;
mod listen;
mod load;
mod mesh;
mod net;
mod poll;
mod proxy;
mod rt;
mod san;
mod timer;
mod traffic;
mod urgent;
mod ws;

use vcommon::Ctx;

fn main() {
    let ctx = Ctx::from_env();
    match ctx.prop.clone().as_str() {
        "T01" => traffic::t01(&ctx),
        "T02" => traffic::t02(&ctx),
        "T03" => life::t03(&ctx),
        "T04" => life::t04(&ctx),
        "T05" => dial::t05(&ctx),
        "T06" => dial::t06(&ctx),
        "T07" => close::t07(&ctx),
        "T12" => close::t12(&ctx),
        "T13" => close::t13(&ctx),
        "T09" => load::t09(&ctx),
        "T10" => load::t10(&ctx),
        "T17" => ws::t17(&ctx),
        "T23" => poll::t23(&ctx),
        "T24" => bind::t24(&ctx),
        "T25" => full::t25(&ctx),
        "T22" => idle::t22(&ctx),
        "T21" => urgent::t21(&ctx),
        "T20" => addr::t20(&ctx),
        "T18" => listen::t18(&ctx),
        "T08" => hostile::t08(&ctx),
        "T19" => san::t19(&ctx),
        "T11" => timer::t11(&ctx),
        "T15" => dial::t15(&ctx),
        "T14" => life::t14(&ctx),
        "T16" => traffic::t16(&ctx),
        "R01" | "R02" => rt::run(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}
