//! Generated-input search deciding the properties listed in /verif/properties.jsonl.

#[macro_use]
mod engine;
mod ctx;
mod enc;
mod gens;
mod heap;
mod orc;
mod plan;
mod pool;
mod props;
mod prove;
mod refm;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use engine::{Mode, Runner};
use std::time::Duration;

fn usage() -> ! {
    eprintln!("usage: harness run <ID> | harness replay <FILE> | harness list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let out = std::env::var("HARNESS_OUT").unwrap_or_else(|_| "/verif".into());
    let limit: u64 = std::env::var("HARNESS_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(820);
    engine::install_panic_hook();
    let cmd: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let (id, tier, seed, mode) = match cmd.as_slice() {
        ["list"] => {
            for (id, _) in props::ALL {
                println!("{}", id);
            }
            return;
        }
        ["run", id] => (
            id.to_string(),
            std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
            std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
            Mode::Search,
        ),
        ["replay", file] => {
            let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
                eprintln!("cannot read {}: {}", file, e);
                std::process::exit(2)
            });
            let v: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
            (
                v["property"].as_str().expect("property").to_string(),
                v["tier"].as_str().unwrap_or("quick").to_string(),
                v["seed"].as_u64().unwrap_or(1),
                match v["family"].as_str().expect("family") {
                    // Fixture failures have no case: the whole search is run again.
                    "fixture" => Mode::Search,
                    f => Mode::Replay { family: f.to_string(), case: v["case"].clone() },
                },
            )
        }
        _ => usage(),
    };
    let f = match props::ALL.iter().find(|(p, _)| *p == id) {
        Some((_, f)) => *f,
        None => usage(),
    };
    if tier != "thorough" {
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            eprintln!("harness error: time limit of {} s reached without a verdict", limit);
            std::process::exit(3);
        });
    }
    let replaying = matches!(mode, Mode::Replay { .. });
    let mut r = Runner::new(&id, &tier, seed, mode);
    // Work on a thread with a generous stack.
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || {
                // A panic outside a generated case (in fixture code driving the crate) is itself a
                // misbehaviour of the crate for inputs the harness believes valid.
                if let Err(e) = engine::no_panic(|| f(&mut r)) {
                    if r.failure.is_none() {
                        r.fixture_failure(e);
                    }
                }
                r
            })
            .unwrap()
            .join()
            .unwrap()
    });
    if replaying {
        if !r.replay_hit {
            eprintln!("harness error: no such family in {}", id);
            std::process::exit(3);
        }
        match &r.failure {
            Some(f) => {
                println!("reproduced: {}: {}", f.family, f.reason);
                println!("VIOLATION property={} replay={}", id, cmd[1]);
                std::process::exit(1);
            }
            None => {
                println!("not reproduced: the case passes");
                return;
            }
        }
    }
    let ev = r.evidence();
    let dir = format!("{}/evidence", out);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        format!("{}/{}.json", dir, id),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{} tier={} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
        id,
        tier,
        seed,
        ev["coverage"]["evaluations"],
        ev["coverage"]["distinct_nontrivial"],
        ev["wall_s"].as_f64().unwrap_or(0.0)
    );
    for key in r.known().keys() {
        println!("KNOWN-FINDING: property={} {}", id, engine::listed(&id, key).unwrap_or_default());
    }
    if let Some(p) = r.write_replay(&format!("{}/replays", out)) {
        let f = r.failure.as_ref().unwrap();
        println!("family {}: {}", f.family, f.reason);
        println!("VIOLATION property={} replay={}", id, p.display());
        std::process::exit(1);
    }
}
