//! C25: every schedule, within a preemption bound, of calls made by several threads.
//!
//! A scenario is a few bodies (short call sequences). Each execution is a forked child of a
//! single-threaded process, so that it starts from the same state, statics and all; its threads run
//! under the scheduler of sched.rs. What each body returns, and what its objects report afterwards,
//! must be what it gives when it runs alone.

#[path = "../../harness/src/engine.rs"]
#[allow(dead_code)]
mod engine;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;
#[path = "../../harness/src/obs.rs"]
#[allow(dead_code)]
mod obs;
#[path = "../../harness/src/reads.rs"]
#[allow(dead_code)]
mod reads;
#[path = "../../harness/src/rules.rs"]
#[allow(dead_code)]
mod rules;
mod cops;
mod explore;
mod ops;
mod sched;

use engine::*;

fn property() -> Property {
    Property {
        id: "C25",
        level: "model_checking",
        rule: rules::rule("C25"),
        assumptions: rules::THREADS,
        jobs: explore::jobs,
    }
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    // One case here is the search of a scenario
    if std::env::var("MC_HANG").is_err() {
        unsafe { std::env::set_var("MC_HANG", "400") };
    }
    let args: Vec<String> = std::env::args().collect();
    let p = property();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check(&p, tier_of(&std::env::var("VERIF_TIER").unwrap_or_default())),
        Some("worker") => worker(
            &p,
            &WorkerArgs {
                tier: tier_of(&args[3]),
                slots: args[4].clone().into(),
                only_job: args.get(5).and_then(|s| s.parse().ok()),
                until: args.get(6).and_then(|s| s.parse().ok()),
                quiet: args.len() > 5,
            },
        ),
        Some("explore") => explore::child(tier_of(&args[2]), &args[3..]),
        Some("replay") => replay(&[p], &args[2]),
        _ => {
            eprintln!("usage: mct check C25 | replay FILE | explore TIER SCENARIO...");
            2
        }
    };
    std::process::exit(code);
}
