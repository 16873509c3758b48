mod check;
mod disk;
mod driver;
mod history;
mod interpose;
mod minimize;
mod model;
mod pool;
mod profiles;
mod rng;
mod rt;
mod scenario;
mod search;

use std::collections::BTreeMap;

fn main() {
    driver::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("worker") {
        pool::worker_main();
    }
    match a.get(1).map(String::as_str) {
        Some("one") => {
            let p = profiles::get(&a[2]).expect("profile");
            let seed: u64 = a[3].parse().expect("seed");
            let sc = scenario::generate(&p, seed);
            if a.get(4).map(String::as_str) == Some("sc") {
                println!("{}", serde_json::to_string_pretty(&sc).unwrap());
            }
            let r = pool::run(&sc, true);
            for l in &r.trace {
                println!("{l}");
            }
            for v in &r.violations {
                println!("!! {}: {}", v.rule, v.text);
            }
            if a.get(4).map(String::as_str) == Some("files") {
                for (f, n) in &r.disk_files {
                    println!("{n:>12} {f}");
                }
            }
            println!("hash {:016x} steps {} virt {}ms", r.hash, r.steps, r.virtual_ns / 1_000_000);
        }
        Some("min") => {
            let p = profiles::get(&a[2]).expect("profile");
            let seed: u64 = a[3].parse().expect("seed");
            let mut sc = scenario::generate(&p, seed);
            sc.cfg.faults.orphan_power = a.get(5).map(String::as_str) == Some("orphan");
            let mut m = minimize::Minimizer::new(&a[4], std::time::Duration::from_secs(40), 8);
            let small = m.run(&sc);
            println!("{}", serde_json::to_string(&small.cfg).unwrap());
            println!("SCENARIO {}", serde_json::to_string(&small).unwrap());
            for p in &small.phases {
                println!("phase end {:?} open_crashes {:?} faults {}", p.end, p.open_crashes, p.faults);
                for c in &p.clients {
                    println!("  client");
                    for o in c {
                        println!("    {}", serde_json::to_string(o).unwrap());
                    }
                }
            }
            println!("plan {:?} cut {:?}", small.fault_plan, small.sched_cut);
            let r = pool::run(&small, true);
            for l in &r.trace {
                println!("{l}");
            }
            for v in &r.violations {
                println!("!! {}: {}", v.rule, v.text);
            }
            println!("tried {} hash {:016x}", m.tried, r.hash);
        }
        Some("many") => {
            let p = profiles::get(&a[2]).expect("profile");
            let from: u64 = a[3].parse().expect("seed");
            let n: u64 = a[4].parse().expect("n");
            let next = std::sync::atomic::AtomicU64::new(from);
            let out = std::sync::Mutex::new(BTreeMap::<String, Vec<(u64, String)>>::new());
            let t0 = std::time::Instant::now();
            let steps = std::sync::atomic::AtomicU64::new(0);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let seed = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        if seed >= from + n {
                            break;
                        }
                        let r = pool::run_job(&pool::Job::Seed(p.id.into(), seed, false));
                        steps.fetch_add(r.steps, std::sync::atomic::Ordering::Relaxed);
                        for v in r.violations {
                            out.lock().unwrap().entry(v.rule).or_default().push((seed, v.text));
                        }
                    });
                }
            });
            for (rule, v) in out.lock().unwrap().iter_mut() {
                v.sort();
                let mut seeds: Vec<u64> = v.iter().map(|x| x.0).collect();
                seeds.dedup();
                println!("== {rule}: {} runs, e.g. {:?}", seeds.len(), &seeds[..seeds.len().min(8)]);
                for (s, t) in v.iter().take(3) {
                    println!("   {s}: {}", &t[..t.len().min(500)]);
                }
            }
            println!("{n} runs in {:?}, {} steps", t0.elapsed(), steps.into_inner());
        }
        Some("check") => std::process::exit(search::check(&a[2])),
        Some("replay") => std::process::exit(search::replay(&a[2])),
        Some("selftest") => {
            let n = a.get(2).and_then(|x| x.parse().ok()).unwrap_or(200);
            std::process::exit(search::selftest(n))
        }
        _ => {
            eprintln!("usage: tonbo-sim check ID | replay FILE | selftest [N]");
            std::process::exit(2)
        }
    }
}
