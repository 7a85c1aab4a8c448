//! T19: the other workloads again, in builds that watch every memory access.
use crate::{judge::R, traffic::wrap};
use std::{
    fs,
    process::{Command, Stdio},
    time::{Duration, Instant},
};
use vcommon::{report::violation, Acc, CheckSpec, Ctx, Verdict};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tool {
    Address,
    Thread,
    Memcheck,
}

/// `bytes` frees after an acquire fence, which the thread sanitizer does not know; mio looks up
/// symbols once without caring who stores the result
const SUPPRESS: &str = "race:bytes::bytes::release_shared\nrace:bytes::bytes_mut::release_shared\nrace:release_shared\nrace:mio::sys::unix::dlsym\nrace:mio::sys::unix::epoll::Selector\nrace:mio::sys::unix::pipe\n";

const WORK: &[(Tool, &str)] = &[
    (Tool::Address, "T01"),
    (Tool::Thread, "T01"),
    (Tool::Address, "T08"),
    (Tool::Thread, "T08"),
    (Tool::Thread, "T03"),
    (Tool::Address, "T07"),
    (Tool::Memcheck, "T01"),
    (Tool::Thread, "T07"),
    (Tool::Address, "T13"),
    (Tool::Thread, "T13"),
    (Tool::Memcheck, "T08"),
    (Tool::Thread, "T09"),
    (Tool::Address, "T17"),
    (Tool::Thread, "T02"),
    (Tool::Address, "T03"),
    (Tool::Thread, "T12"),
    (Tool::Memcheck, "T17"),
    (Tool::Address, "T10"),
    (Tool::Thread, "T11"),
    (Tool::Address, "T05"),
    (Tool::Thread, "T05"),
];

fn one(seed: u64, tool: Tool, prop: &str, dir: &str, secs: u64) -> R<Acc> {
    let mut acc = Acc::default();
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(format!("{}/evidence", dir)).unwrap();
    fs::create_dir_all(format!("{}/out", dir)).unwrap();
    let env = |n: &str| std::env::var(n).unwrap_or_default();
    let me = std::env::current_exe().unwrap();
    let mut c = match tool {
        Tool::Address => Command::new(env("VERIF_ASAN")),
        Tool::Thread => Command::new(env("VERIF_TSAN")),
        Tool::Memcheck => {
            let mut c = Command::new("valgrind");
            c.args(&["--tool=memcheck", "--leak-check=no", "--num-callers=30", "--child-silent-after-fork=yes", "--fair-sched=try"]);
            c.arg(format!("--log-file={}/rep.vg", dir)).arg(me);
            c
        }
    };
    let supp = format!("{}/suppressions", dir);
    fs::write(&supp, SUPPRESS).unwrap();
    c.arg(prop)
        .env("VERIF_ROOT", dir)
        .env("VERIF_SEED", (seed % 1_000_000_007).to_string())
        .env("VERIF_TIER", "quick")
        .env("VERIF_BUDGET_S", secs.to_string())
        .env("VERIF_THREADS", if tool == Tool::Memcheck { "2" } else { "4" })
        .env("ASAN_OPTIONS", format!("log_path={}/rep:detect_leaks=0:detect_stack_use_after_return=1:exitcode=66", dir))
        .env("TSAN_OPTIONS", format!("log_path={}/rep:suppressions={}:exitcode=66:report_thread_leaks=0:history_size=4", dir, supp))
        .stdin(Stdio::null())
        .stdout(fs::File::create(format!("{}/stdout", dir)).unwrap())
        .stderr(fs::File::create(format!("{}/stderr", dir)).unwrap());
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => return Err(Verdict::Inconclusive(format!("{:?} cannot be started: {}", tool, e))),
    };
    let t = Instant::now();
    let status = loop {
        vcommon::exec::beat();
        match p.try_wait().unwrap() {
            Some(s) => break Some(s),
            None if t.elapsed().as_secs() > 100 => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    };
    for e in fs::read_dir(dir).unwrap().filter_map(|e| e.ok()) {
        if !e.file_name().to_string_lossy().starts_with("rep") {
            continue;
        }
        let text = String::from_utf8_lossy(&fs::read(e.path()).unwrap_or_default()).into_owned();
        let found = match tool {
            Tool::Memcheck => text.contains("ERROR SUMMARY: ") && !text.contains("ERROR SUMMARY: 0 errors"),
            _ => text.contains("ERROR: AddressSanitizer") || text.contains("WARNING: ThreadSanitizer"),
        };
        if found {
            let shown: String = text.lines().filter(|l| !l.trim().is_empty()).take(70).collect::<Vec<_>>().join("\n");
            return violation(&format!("{:?}", tool).to_lowercase(), format!("{:?} checker during the workload of {} (seed {}):\n{}", tool, prop, seed % 1_000_000_007, shown));
        }
    }
    if status.is_none() {
        return Err(Verdict::Inconclusive(format!("{:?} run of {} did not end", tool, prop)));
    }
    let out = fs::read_to_string(format!("{}/stdout", dir)).unwrap_or_default();
    let n: u64 = out
        .lines()
        .find(|l| l.starts_with(&format!("{}: ", prop)))
        .and_then(|l| l.split_whitespace().nth(1))
        .and_then(|x| x.parse().ok())
        .unwrap_or(0);
    if n == 0 {
        let err = fs::read_to_string(format!("{}/stderr", dir)).unwrap_or_default();
        return Err(Verdict::Inconclusive(format!("{:?} run of {} did nothing: {}", tool, prop, err.lines().take(5).collect::<Vec<_>>().join(" / "))));
    }
    acc.add(
        match tool {
            Tool::Address => "cases under the address sanitizer",
            Tool::Thread => "cases under the thread sanitizer",
            Tool::Memcheck => "cases under memcheck",
        },
        n,
    );
    let _ = fs::remove_dir_all(dir);
    acc.nontrivial = true;
    acc.sig = vcommon::mix(seed, n);
    Ok(acc)
}

pub fn t19(ctx: &Ctx) {
    let dir = format!("{}/out/t19-{}", ctx.root, std::process::id());
    let secs = ctx.q(4, 20);
    ctx.run(
        CheckSpec {
            level: "exploration",
            rule: "the workloads of the other service properties run in builds with AddressSanitizer (use after return included), in builds with ThreadSanitizer (standard library instrumented too) and under valgrind's memcheck; no report may come".into(),
            assumptions: vec!["C libraries (OpenSSL) are not instrumented by the sanitizers; memcheck sees them".into(), "leaks are not memory errors".into()],
            cases: ctx.q(WORK.len() as u64, 6 * WORK.len() as u64),
            budget_s: ctx.q(80, 900),
            threads: 3,
            must_see: vec!["cases under the address sanitizer", "cases under the thread sanitizer", "cases under memcheck"],
        },
        |seed, idx| {
            let (tool, prop) = WORK[idx as usize % WORK.len()];
            wrap(|| one(seed, tool, prop, &format!("{}-{}", dir, idx), secs))
        },
    )
}
