mod checks;
mod ego;
mod engine;
mod inc;
mod model;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::env::set_var("RUST_BACKTRACE", "0");
    let all = checks::all();
    let usage = || -> ! {
        eprintln!("usage: dst check <ID> [quick|thorough] | dst replay <file> | dst list");
        std::process::exit(2)
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let Some(c) = all.iter().find(|c| c.id() == id) else { usage() };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or_default();
            let minutes = std::env::var("DST_MINUTES").ok().and_then(|s| s.parse().ok());
            let workers = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
                std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
            });
            engine::check_main(*c, seed, tier == "thorough", minutes, workers)
        }
        Some("replay") => engine::replay(&all, &a.get(2).cloned().unwrap_or_else(|| usage())),
        Some("twice") => {
            // developer helper: run one scenario again and again, count the distinct executions
            let id = a.get(2).cloned().unwrap_or_else(|| usage());
            let Some(c) = all.iter().find(|c| c.id() == id) else { usage() };
            let idx: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
            let n: u64 = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(2);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let s = engine::scenario(*c, seed, idx, false);
            let mut seen = std::collections::BTreeMap::new();
            for _ in 0..n {
                let o = engine::run_scn(*c, &s);
                for (k, v) in &o.recs {
                    let h = engine::hash_bytes(format!("{v:?}").as_bytes());
                    if std::env::var("DST_RECS").is_ok() { let _ = std::fs::write(format!("/tmp/recs-{k}-{h:x}"), v.iter().map(|x| format!("{x:?}\n")).collect::<String>()); }
                }
                *seen.entry(format!("{:016x} {}", o.digest, o.trail.join(" | "))).or_insert(0) += 1;
            }
            for (k, v) in seen {
                println!("{v} x {k}");
            }
            println!("{}", serde_json::to_string(&s).unwrap());
            0
        }
        Some("list") => {
            for c in &all {
                println!("{}", c.id());
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
