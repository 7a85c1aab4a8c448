mod kit;
mod disco;
mod ident;
mod ping;

use vcommon::Ctx;

fn main() {
    let ctx = Ctx::from_env();
    match ctx.prop.clone().as_str() {
        "P01" => ping::p01(&ctx),
        "P02" => ident::p02(&ctx),
        "P03" => disco::p03(&ctx),
        p => {
            eprintln!("unknown property {}", p);
            std::process::exit(2);
        }
    }
}
