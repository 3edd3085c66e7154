//! Deterministic simulation of steit with fault injection.
//!
//! `sim check C01 quick` explores; `sim exec FILE` replays; `sim one C01 SEED` shows one run.

mod carry;
mod client;
mod cluster;
mod codegen;
mod core;
mod csharp;
mod handles;
mod io;
mod mixed;
mod moves;
mod streams;
mod super_;
mod threads;
mod twins;
mod unwind;
mod wear;

use crate::core::*;
use sched::alloc::Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

/// The scenarios, by name.
macro_rules! scenarios {
    ($($ty:path),* $(,)?) => {
        pub fn run_plan(plan: &Plan, script: bool, opt: &Options) -> Outcome {
            $(if plan.scenario == <$ty as Scenario>::NAME {
                return execute::<$ty>(plan, script, opt);
            })*
            panic!("no scenario {}", plan.scenario)
        }

        /// Simpler versions of an event.
        pub fn simpler(plan: &Plan, i: usize) -> Vec<serde_json::Value> {
            $(if plan.scenario == <$ty as Scenario>::NAME {
                let e = serde_json::from_value(plan.events[i].clone()).expect("an event");
                return <$ty as Scenario>::simpler(&e)
                    .into_iter()
                    .map(|e| serde_json::to_value(e).unwrap())
                    .collect();
            })*
            Vec::new()
        }
    };
}

scenarios!(
    cluster::Cluster,
    streams::Cut,
    streams::Attack,
    streams::Reject,
    streams::Feed,
    io::Writing,
    io::Append,
    io::HandOver,
    threads::Parts,
    threads::Drains,
    threads::Share,
    threads::Pauses,
    mixed::Mixed,
    client::Foreign,
    codegen::Codegen,
    twins::Twins,
    moves::Moves,
    carry::Carry,
    handles::Handles,
    wear::Wear,
    unwind::Unwind,
);

/// What decides each property: scenario, runs per quick check.
pub fn mix_of(prop: &str) -> &'static [(&'static str, u32)] {
    match prop {
        "C01" | "C02" | "C03" | "C04" => &[("cluster", 1)],
        "C05" => &[("cut", 1)],
        "C06" => &[("attack", 1)],
        "C07" => &[("reject", 1)],
        "C08" => &[("feed", 1)],
        "C09" => &[("writing", 1)],
        "C10" => &[("append", 1)],
        "C11" => &[("handover", 1)],
        "C12" => &[("parts", 1)],
        "C13" => &[("drains", 1)],
        "C14" => &[("share", 1)],
        "C15" => &[("pauses", 1)],
        "C16" => &[("mixed", 1)],
        "C17" => &[("client", 1)],
        "C18" => &[("codegen", 1)],
        "C21" => &[("twins", 1)],
        "C22" => &[("moves", 1)],
        "C23" => &[("carry", 1)],
        "C24" => &[("handles", 1)],
        "C25" => &[("wear", 1)],
        "C26" => &[("unwind", 1)],
        _ => &[],
    }
}

pub fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C06" | "C07" => 60_000,
        "C18" => 16_000,
        "C25" => 10_000,
        "C26" => 60_000,
        "C12" | "C13" | "C14" | "C15" => 30_000,
        "C05" | "C08" | "C09" | "C10" | "C11" | "C16" | "C17" | "C21" | "C22" => 90_000,
        "C23" => 150_000,
        "C24" => 200_000,
        _ => 60_000,
    }
}

/// The run with this number in a check.
pub fn plan_of(prop: &str, base: u64, tier: Tier, run: u64) -> Plan {
    let seed = model::mix(model::mix(base ^ 0x5eed) ^ run.wrapping_mul(0x9e3779b97f4a7c15) ^ prop_no(prop) as u64) >> 12;
    let mix = mix_of(prop);
    let total: u32 = mix.iter().map(|m| m.1).sum();
    let mut x = (run % total as u64) as u32;
    let mut scenario = mix[0].0;
    for (name, w) in mix {
        if x < *w {
            scenario = name;
            break;
        }
        x -= w;
    }
    Plan {
        property: prop.to_string(),
        scenario: scenario.to_string(),
        seed,
        tier,
        events: Vec::new(),
        schedule: None,
        salt: 0,
        violation: None,
        trace_hash: None,
    }
}

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| &**s).collect();
    schemas::all();
    let code = match &args[..] {
        ["check", prop, tier] => super_::check(prop, tier),
        ["worker", rest @ ..] => super_::worker(rest),
        ["exec", file] => super_::exec(file),
        ["try", file] => super_::try_(file),
        ["journal", prop, tier, base, run, file] => super_::journal(prop, tier, base, run, file),
        ["run", prop, tier, base, run] => super_::show(prop, tier, base, run),
        ["digest", prop, base, from, to] => super_::digest(prop, base, from, to),
        _ => {
            eprintln!("usage: sim check PROPERTY quick|thorough | sim exec FILE");
            2
        }
    };
    std::process::exit(code);
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec![
        "A clean batch is evidence from a seeded sample, not proof.",
        "The reference codec and replay rules in sim/model say correctly what the protocol means.",
    ];
    if ["C12", "C13", "C14", "C15"].contains(&prop) {
        v.push("Threads interleave at control-flow edges of the library and at futex calls, under sequential consistency.");
    }
    v
}

pub fn real(_: &str) -> &'static str {
    "steit and steit-derive as in /repo's working tree (codec, loggers, runtime, containers, derived setters and replay, generators), and std"
}

pub fn stub(_: &str) -> &'static str {
    "session layer, network, durable storage, input and output streams, getrandom, the choice of the running thread"
}
