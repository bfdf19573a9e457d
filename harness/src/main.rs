#![allow(dead_code)]

mod deep;
mod engine;
mod gen;
mod hist;
mod model;
mod obs;
mod p_bytes;
mod p_copies;
mod p_large;
mod p_derive;
mod p_extreme;
mod p_graph;
mod p_live;
mod p_matrix;
mod p_relate;
mod p_string;
mod reads;
mod rules;
mod sched;
mod sq;
mod swaps;
mod walks;

use engine::*;

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn properties() -> Vec<Property> {
    let p = |id, level, jobs| Property {
        id,
        level,
        rule: rules::rule(id),
        assumptions: rules::COMMON,
        jobs,
    };
    vec![
        p("C01", "model_checking", p_graph::c01 as fn(Tier) -> Vec<Job>),
        p("C02", "model_checking", p_graph::c02),
        p("C03", "model_checking", p_graph::c03),
        p("C04", "model_checking", p_graph::c04),
        p("C05", "model_checking", p_bytes::c05),
        p("C06", "fault_enumeration", p_bytes::c06),
        p("C07", "model_checking", p_bytes::c07),
        p("C08", "fault_enumeration", p_bytes::c08),
        p("C09", "model_checking", p_bytes::c09),
        p("C10", "model_checking", p_derive::c10),
        p("C11", "model_checking", p_derive::c11),
        p("C12", "model_checking", p_derive::c12),
        p("C13", "model_checking", p_derive::c13),
        p("C14", "model_checking", p_derive::c14),
        p("C15", "model_checking", p_matrix::c15),
        p("C16", "model_checking", p_matrix::c16),
        p("C17", "model_checking", p_string::c17),
        p("C18", "model_checking", p_string::c18),
        p("C19", "model_checking", p_extreme::c19),
        p("C20", "model_checking", p_relate::c20),
        p("C26", "model_checking", p_relate::c26),
    ]
}

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = properties();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id}");
            std::process::exit(2)
        })
    };
    let code = match args.get(1).map(String::as_str) {
        Some("check") => {
            let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
            check(find(&args[2]), tier)
        }
        Some("worker") => worker(
            find(&args[2]),
            &WorkerArgs {
                tier: tier_of(&args[3]),
                slots: args[4].clone().into(),
                only_job: args.get(5).and_then(|s| s.parse().ok()),
                until: args.get(6).and_then(|s| s.parse().ok()),
                quiet: args.len() > 5,
            },
        ),
        Some("replay") => replay(&props, &args[2]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
