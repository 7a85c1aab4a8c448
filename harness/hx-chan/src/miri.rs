//! Runs the small threaded programs of hx-miri under Miri with many seeds.
use std::real::process::Command;
use vcommon::{report::Verdict, Acc};

pub fn case(root: &str, seed: u64, seeds: u64) -> Verdict {
    let from = seed % 1_000_000;
    let target = std::env::var("VERIF_TARGET").unwrap_or_else(|_| format!("{}/target", root));
    let out = Command::new("cargo")
        .args(&["miri", "run", "--offline"])
        .current_dir(format!("{}/harness/hx-miri", root))
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_TARGET_DIR", format!("{}/miri", target))
        .env("MIRIFLAGS", format!("-Zmiri-many-seeds={}..{}", from, from + seeds))
        .env_remove("RUSTC_WRAPPER")
        .env_remove("RUSTFLAGS")
        .output();
    let out = match out {
        Ok(o) => o,
        Err(e) => return Verdict::Inconclusive(format!("miri does not start: {}", e)),
    };
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    if out.status.success() {
        let mut a = Acc::default();
        a.add("miri_runs", text.matches("Trying seed").count() as u64);
        a.add("miri_messages", text.matches("messages ").count() as u64);
        a.sig = seed;
        a.nontrivial = true;
        a.sample = Some(format!("{} Miri runs from seed {}", seeds, from));
        return Verdict::Pass(a);
    }
    let mut keys = vec![
        ("Undefined Behavior", "undefined-behaviour"),
        ("memory leaked", "leak"),
        ("MESSAGES made", "destroyed"),
        ("THREAD panicked", "panic"),
    ];
    keys.retain(|k| text.contains(k.0));
    match keys.first() {
        Some((t, k)) => {
            let at = text.find(t).unwrap();
            let mut s = at.saturating_sub(200);
            while !text.is_char_boundary(s) {
                s += 1
            }
            let what: String = text[s..].chars().take(2_500).collect();
            Verdict::Violation((*k).to_owned(), format!("Miri, seeds {}..{}: {}", from, from + seeds, what))
        }
        None => {
            let mut s = text.len().saturating_sub(1_500);
            while !text.is_char_boundary(s) {
                s += 1
            }
            Verdict::Inconclusive(format!("miri run failed: {}", &text[s..]))
        }
    }
}
