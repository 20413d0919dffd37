mod cli;
mod ctx;
mod mem;
mod model;
mod oracle;
mod units;

use ctx::Ctx;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

type Group = (&'static str, fn(&Ctx, u64), &'static [&'static str], usize);

const GROUPS: &[Group] = &[
    ("generation", units::generation, &["C01", "C02"], 3),
    ("round_trip", units::round_trip, &["C03"], 2),
    ("code_check", units::code_check, &["C04", "C05"], 2),
    ("formatting", units::formatting, &["C05"], 2),
    ("malformed_codes", units::malformed_codes, &["C17"], 2),
    ("malformed_values", units::malformed_values, &["C17"], 2),
    ("value_sizes", units::value_sizes, &["C06", "C13"], 2),
    ("storage_ops", units::storage_ops, &["C06", "C07", "C08", "C09", "C10", "C14", "C15"], 1),
    ("files", units::files, &["C15", "C14"], 1),
    ("history", model::history, &["C02", "C03", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C20"], 3),
    ("cli_consent", cli::consent, &["C18"], 4),
    ("cli_set_primary", cli::set_primary, &["C18", "C19"], 3),
    ("cli_add", cli::add, &["C19"], 4),
    ("cli_list", cli::list, &["C20", "C16"], 4),
    ("cli_show", cli::show, &["C21"], 3),
    ("cli_recovery", cli::recovery, &["C22"], 3),
    ("cli_shell", cli::shell, &["C25"], 1),
    ("cli_misc", cli::misc, &["C10", "C09", "C07", "C15"], 2),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let pid = get("--property").unwrap_or("all".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let scratch = get("--scratch").unwrap_or_else(|| format!("/tmp/pfp-harness-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let only: Option<(String, u64)> = get("--case").map(|c| {
        let (g, s) = c.split_once(':').expect("group:seed");
        (g.to_string(), s.parse().unwrap())
    });
    std::panic::set_hook(Box::new(|_| {}));
    let start = Instant::now();
    let ctx = Ctx {
        pid: pid.clone(),
        seed,
        deadline: start + Duration::from_secs_f64(budget),
        cli: get("--cli"),
        scratch: scratch.clone(),
        violations: Default::default(),
        evaluations: Default::default(),
        distinct: Default::default(),
        samples: Default::default(),
        counts: Default::default(),
    };
    // weighted schedule of the groups relevant for the property
    let mut schedule: Vec<&Group> = Vec::new();
    for g in GROUPS {
        if g.2.iter().any(|t| ctx.wants(t)) && (ctx.cli.is_some() || !g.0.starts_with("cli_")) {
            let weight = if pid == "all" || g.2[0] == pid { g.3 } else { 1 };
            for _ in 0..weight {
                schedule.push(g);
            }
        }
    }
    let mut failed_case: Vec<(String, u64)> = Vec::new();
    if let Some((group, case_seed)) = only {
        for g in GROUPS.iter().filter(|g| g.0 == group) {
            (g.1)(&ctx, case_seed);
        }
    } else {
        let next = AtomicU64::new(0);
        let failed = std::sync::Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| loop {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    if ctx.stop() || schedule.is_empty() {
                        return;
                    }
                    let g = schedule[n as usize % schedule.len()];
                    let case_seed = seed.wrapping_mul(1_000_003).wrapping_add(n);
                    let before = ctx.violations.lock().unwrap().len();
                    if let Err(message) = ctx.run(|| (g.1)(&ctx, case_seed)) {
                        ctx.fail(&["harness"], message, String::new());
                        eprintln!("harness panic in {}:{}", g.0, case_seed);
                    }
                    if ctx.violations.lock().unwrap().len() > before {
                        failed.lock().unwrap().push((g.0.to_string(), case_seed));
                    }
                });
            }
        });
        failed_case = failed.into_inner().unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let violations: Vec<_> = ctx
        .violations
        .lock()
        .unwrap()
        .iter()
        .map(|v| serde_json::json!({"tags": v.tags, "what": v.what, "input": v.input}))
        .collect();
    println!(
        "{}",
        serde_json::json!({
            "property": pid, "seed": seed, "violations": violations, "cases": failed_case,
            "evaluations": ctx.evaluations.load(Ordering::Relaxed),
            "distinct": ctx.distinct.lock().unwrap().len(),
            "groups": *ctx.counts.lock().unwrap(),
            "samples": *ctx.samples.lock().unwrap(),
            "seconds": start.elapsed().as_secs_f64(),
        })
    );
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}
