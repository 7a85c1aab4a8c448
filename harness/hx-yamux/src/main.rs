mod codec;
mod general;
mod pair;
mod scripted;
mod teardown;
mod wire;

use vcommon::Ctx;

fn main() {
    let ctx = Ctx::from_env();
    match ctx.prop.clone().as_str() {
        "Y01" | "Y02" | "Y04" | "Y05" | "Y07" => general::check(&ctx),
        "Y03" => scripted::y03(&ctx),
        "Y06" => scripted::y06(&ctx),
        "Y08" => teardown::y08(&ctx),
        "Y09" => scripted::y09(&ctx),
        "Y10" => codec::y10(&ctx),
        "Y11" => scripted::y11(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}
