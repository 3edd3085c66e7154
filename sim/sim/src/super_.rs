//! Exploration by several processes, minimisation, replay files and evidence.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::Write;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::json;

use super::core::*;
use super::{mix_of, plan_of, quick_runs, run_plan, simpler};

pub fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn tier_of(t: &str) -> Tier {
    match t {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn env_u64(name: &str) -> Option<u64> {
    std::env::var(name).ok().and_then(|s| s.parse().ok())
}

fn me() -> String {
    std::env::current_exe().unwrap().to_str().unwrap().to_string()
}

/// What a worker reports when it is done.
#[derive(Default, Serialize, Deserialize)]
struct Report {
    runs: u64,
    repeated: u64,
    mismatches: u64,
    stopped: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    clock_ms: u64,
    steps: u64,
    most_steps: u64,
    most_scheduled: u64,
    switches: u64,
    hashes: Vec<u64>,
    edges: Vec<u32>,
    guards: usize,
    found: Option<(u64, Plan)>,
    samples: Vec<serde_json::Value>,
}

fn options(work: &str) -> Options {
    Options {
        journal: None,
        work: work.to_string(),
        verbose: false,
    }
}

/// worker PROP TIER BASE INDEX OF RUNS SECONDS DIR
pub fn worker(args: &[&str]) -> i32 {
    let (prop, tier) = (args[0], tier_of(args[1]));
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let (base, index, of, runs, secs, dir) = (num(2), num(3), num(4), num(5), num(6), args[7]);
    let start_at = num(8);
    let work = format!("{}/w{}", dir, index);
    fs::create_dir_all(&work).unwrap();
    let status = fs::File::create(format!("{}/status{}", dir, index)).unwrap();
    sched::dump_to(Some(format!("{}/schedule{}", dir, index)));
    let start = Instant::now();
    let mut rep = Report::default();
    let mut seen = HashSet::new();
    let mut run = start_at;
    while run < runs && start.elapsed().as_secs() < secs {
        use std::os::unix::fs::FileExt;
        status.write_all_at(&run.to_le_bytes(), 0).unwrap();
        let plan = plan_of(prop, base, tier, run);
        let out = run_plan(&plan, false, &options(&work));
        rep.runs += 1;
        rep.clock_ms += out.clock_ms;
        rep.steps += out.steps;
        rep.most_steps = rep.most_steps.max(out.steps);
        rep.switches += out.switches.len() as u64;
        for (k, n) in &out.counts {
            *rep.counts.entry(k.clone()).or_insert(0) += n;
        }
        if let Some(c) = out.other {
            *rep.stopped.entry(c).or_insert(0) += 1;
        }
        if seen.len() < 1 << 20 && seen.insert(out.hash) {
            rep.hashes.push(out.hash);
        }
        if let Some(v) = out.violation {
            if known(prop, &v) {
                *rep.stopped.entry("known finding".into()).or_insert(0) += 1;
            } else {
                let mut plan = plan;
                plan.events = out.events;
                if !out.switches.is_empty() {
                    plan.schedule = Some(out.switches.iter().map(|s| (s.step, s.to)).collect());
                }
                plan.violation = Some(v);
                rep.found = Some((run, plan));
                break;
            }
        } else if (run / of) % 64 == 3 {
            // The same run again must be the same run.
            let again = run_plan(&plan, false, &options(&work));
            rep.repeated += 1;
            if again.hash != out.hash || again.violation.is_some() {
                rep.mismatches += 1;
            }
        }
        if rep.samples.len() < 1 && rep.runs == 2 {
            rep.samples.push(json!({
                "run": run, "scenario": plan.scenario, "seed": plan.seed,
                "events": out.counts, "simulated_ms": out.clock_ms, "trace": format!("{:016x}", out.hash),
            }));
        }
        run += of;
    }
    rep.most_scheduled = sched::most_steps();
    let (guards, _) = sched::edges();
    rep.guards = guards;
    rep.edges = sched::hit_edges();
    fs::write(format!("{}/report{}", dir, index), serde_json::to_string(&rep).unwrap()).unwrap();
    0
}

fn known_file() -> String {
    fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default()
}

/// `known: property=C01 class=<class> contains=<text>`
fn known_lines(prop: &str) -> Vec<(String, String)> {
    known_file()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} class=", prop)))
        .filter_map(|l| l.split_once(" contains="))
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

fn known(prop: &str, v: &Violation) -> bool {
    known_lines(prop).iter().any(|(class, text)| *class == v.class && v.message.contains(text))
}

fn spawn_worker(prop: &str, tier: Tier, base: u64, i: u64, of: u64, runs: u64, secs: u64, dir: &str, start: u64) -> Child {
    Command::new(me())
        .args(["worker", prop, tier_name(tier)])
        .args([base, i, of, runs, secs].iter().map(|x| x.to_string()))
        .args([dir, &start.to_string()])
        .stdin(Stdio::null())
        .spawn()
        .expect("a worker")
}

fn exit_class(status: std::process::ExitStatus) -> Violation {
    use std::os::unix::process::ExitStatusExt;
    let (class, message) = match (status.code(), status.signal()) {
        (Some(sched::EXIT_HANG), _) => ("hang", "the run exceeded its step budget".to_string()),
        (Some(sched::EXIT_ALLOC), _) => ("allocation", "an allocation out of proportion to the input".to_string()),
        (Some(sched::EXIT_DEADLOCK), _) => ("deadlock", "all threads are blocked".to_string()),
        (_, Some(s)) => ("crash", format!("the process was ended by signal {}", s)),
        (c, _) => ("crash", format!("the process ended with {:?}", c)),
    };
    Violation {
        class: class.to_string(),
        message,
    }
}

/// Runs a plan in a process of its own.
fn try_plan(plan: &Plan, dir: &str, tag: &str) -> (Option<Violation>, Option<Plan>) {
    let file = format!("{}/try{}.json", dir, tag);
    let _ = fs::remove_file(format!("{}.out", file));
    let _ = fs::remove_file(format!("{}.schedule", file));
    fs::write(&file, serde_json::to_string(plan).unwrap()).unwrap();
    let mut child = Command::new(me())
        .args(["try", &file])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("a process");
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    match status {
        None => (
            Some(Violation {
                class: "hang".into(),
                message: "the run didn't end within a minute".into(),
            }),
            None,
        ),
        Some(s) if s.code() == Some(0) => {
            let out: Option<Plan> = fs::read_to_string(format!("{}.out", file))
                .ok()
                .and_then(|t| serde_json::from_str(&t).ok());
            (out.as_ref().and_then(|p| p.violation.clone()), out)
        }
        Some(s) => {
            let mut out = plan.clone();
            out.trace_hash = None;
            if let Some(s) = read_schedule(&format!("{}.schedule", file)) {
                out.schedule = Some(s);
            }
            (Some(exit_class(s)), Some(out))
        }
    }
}

pub fn try_(file: &str) -> i32 {
    let plan: Plan = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    sched::dump_to(Some(format!("{}.schedule", file)));
    let work = format!("{}.work", file);
    let out = run_plan(&plan, true, &options(&work));
    let mut p = plan;
    p.violation = out.violation;
    p.trace_hash = Some(out.hash);
    if !out.switches.is_empty() {
        p.schedule = Some(out.switches.iter().map(|s| (s.step, s.to)).collect());
    }
    let _ = fs::remove_dir_all(&work);
    fs::write(format!("{}.out", file), serde_json::to_string(&p).unwrap()).unwrap();
    0
}

/// Repeats a run that ended its process, leaving its events behind.
pub fn journal(prop: &str, tier: &str, base: &str, run: &str, file: &str) -> i32 {
    let plan = plan_of(prop, base.parse().unwrap(), tier_of(tier), run.parse().unwrap());
    sched::dump_to(Some(format!("{}.schedule", file)));
    let opt = Options {
        journal: Some(file.to_string()),
        work: format!("{}.work", file),
        verbose: false,
    };
    run_plan(&plan, false, &opt);
    0
}

fn read_schedule(file: &str) -> Option<Vec<(u64, u8)>> {
    let text = fs::read_to_string(file).ok()?;
    let s: Vec<(u64, u8)> = text
        .lines()
        .filter_map(|l| l.split_once(' '))
        .filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
        .collect();
    if s.is_empty() {
        None
    } else {
        Some(s)
    }
}

fn crashed_plan(prop: &str, tier: Tier, base: u64, run: u64, dir: &str, v: Violation) -> Plan {
    let file = format!("{}/journal{}", dir, run);
    let mut child = Command::new(me())
        .args(["journal", prop, tier_name(tier), &base.to_string(), &run.to_string(), &file])
        .stderr(Stdio::null())
        .spawn()
        .expect("a process");
    let start = Instant::now();
    while child.try_wait().unwrap().is_none() {
        if start.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut plan = plan_of(prop, base, tier, run);
    plan.events = fs::read_to_string(&file)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str(l).ok())
        .collect();
    plan.schedule = read_schedule(&format!("{}.schedule", file));
    plan.violation = Some(v);
    plan
}

/// Removes what isn't needed for the same kind of failure.
fn minimise(mut plan: Plan, dir: &str, limit: Duration) -> (Plan, usize) {
    let class = plan.violation.as_ref().unwrap().class.clone();
    let start = Instant::now();
    let mut tried = 0;
    let mut attempt = |p: &Plan, fresh: bool| -> Option<Plan> {
        if start.elapsed() > limit {
            return None;
        }
        tried += 1;
        let mut p = p.clone();
        p.violation = None;
        p.trace_hash = None;
        // With fewer events, other schedules may be needed.
        let salts: &[u64] = if p.schedule.is_some() && fresh { &[0, 1, 2, 3, 4, 5] } else { &[] };
        let (v, _) = try_plan(&p, dir, "min");
        match v {
            Some(v) if v.class == class => {
                p.violation = Some(v);
                return Some(p);
            }
            _ => (),
        }
        for &salt in salts {
            p.schedule = None;
            p.salt = salt;
            if let (Some(v), Some(out)) = try_plan(&p, dir, "min") {
                if v.class == class && out.schedule.is_some() {
                    p.schedule = out.schedule;
                    p.violation = Some(v);
                    return Some(p);
                }
            }
        }
        None
    };
    // Events, in ever smaller chunks.
    let mut chunk = plan.events.len().max(1);
    loop {
        let mut i = 0;
        let mut any = false;
        while i < plan.events.len() {
            let mut p = plan.clone();
            let to = (i + chunk).min(p.events.len());
            p.events.drain(i..to);
            if let Some(p) = attempt(&p, true) {
                plan = p;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 {
            if !any || start.elapsed() > limit {
                break;
            }
        } else {
            chunk = chunk.div_ceil(2);
        }
    }
    let mut i = 0;
    while i < plan.events.len() {
        let options = simpler(&plan, i);
        let mut better = false;
        for e in options {
            if e == plan.events[i] {
                continue;
            }
            let mut p = plan.clone();
            p.events[i] = e;
            if let Some(p) = attempt(&p, true) {
                plan = p;
                better = true;
                break;
            }
        }
        if !better {
            i += 1;
        }
    }
    // Thread switches.
    if let Some(s) = &plan.schedule {
        let mut chunk = s.len().max(1);
        loop {
            let mut i = 0;
            while i < plan.schedule.as_ref().unwrap().len() {
                let mut p = plan.clone();
                let s = p.schedule.as_mut().unwrap();
                let to = (i + chunk).min(s.len());
                s.drain(i..to);
                match attempt(&p, false) {
                    Some(p) => plan = p,
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    (plan, tried)
}

fn save_replay(plan: &Plan) -> String {
    let dir = format!("{}/replays", root());
    fs::create_dir_all(&dir).unwrap();
    let path = format!("{}/{}-{}-{}.json", dir, plan.property, plan.scenario, plan.seed);
    fs::write(&path, serde_json::to_string_pretty(plan).unwrap()).unwrap();
    path
}

/// Replays a file; exit 1 if it fails as recorded.
pub fn exec(file: &str) -> i32 {
    let plan: Plan = serde_json::from_str(&fs::read_to_string(file).expect("the replay file")).expect("a plan");
    let dir = format!("{}/work/exec-{}", root(), std::process::id());
    fs::create_dir_all(&dir).unwrap();
    let mut p = plan.clone();
    p.violation = None;
    p.trace_hash = None;
    let (v, out) = try_plan(&p, &dir, "exec");
    let _ = fs::remove_dir_all(&dir);
    match v {
        Some(v) => {
            println!("{}: {}", v.class, v.message);
            if let (Some(want), Some(out)) = (&plan.violation, &out) {
                let exact = v == *want && (plan.trace_hash.is_none() || plan.trace_hash == out.trace_hash);
                println!("exactly as recorded: {}", if exact { "yes" } else { "no" });
            }
            println!("VIOLATION property={} replay={}", plan.property, file);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Shows one run.
pub fn show(prop: &str, tier: &str, base: &str, run: &str) -> i32 {
    let plan = plan_of(prop, base.parse().unwrap(), tier_of(tier), run.parse().unwrap());
    let opt = Options {
        journal: None,
        work: format!("{}/work/show-{}", root(), std::process::id()),
        verbose: true,
    };
    let out = run_plan(&plan, false, &opt);
    println!("{:#?}", out.counts);
    println!("trace {:016x}; {} steps; other {:?}", out.hash, out.steps, out.other);
    match out.violation {
        Some(v) => {
            println!("{}: {}", v.class, v.message);
            1
        }
        None => 0,
    }
}

/// Trace hashes of some runs, to compare between processes.
pub fn digest(prop: &str, base: &str, from: &str, to: &str) -> i32 {
    let work = format!("{}/work/digest-{}", root(), std::process::id());
    for run in from.parse().unwrap()..to.parse().unwrap() {
        let plan = plan_of(prop, base.parse().unwrap(), Tier::Quick, run);
        let out = run_plan(&plan, false, &options(&work));
        println!("{} {:016x} {} {:?}", run, out.hash, out.steps, out.violation.map(|v| v.class));
    }
    let _ = fs::remove_dir_all(&work);
    0
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if mix_of(prop).is_empty() {
        eprintln!("no check for {}", prop);
        return 2;
    }
    let tier = tier_of(tier);
    let base = env_u64("VERIF_SEED").unwrap_or(1);
    let workers = env_u64("SIM_WORKERS").unwrap_or_else(|| {
        std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(1, 16)
    });
    let runs = env_u64("SIM_RUNS").unwrap_or(match tier {
        Tier::Quick => quick_runs(prop),
        Tier::Thorough => u64::MAX / 2,
    });
    let secs = env_u64("SIM_SECONDS").unwrap_or(match tier {
        Tier::Quick => 240,
        Tier::Thorough => 780,
    });
    println!("{} {} seed={} workers={} runs={} within {} s", prop, tier_name(tier), base, workers, runs, secs);
    let dir = format!("{}/work/{}-{}", root(), prop, std::process::id());
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let start = Instant::now();
    let mut found: Option<Plan> = None;
    let mut children: Vec<(u64, Option<Child>)> = (0..workers)
        .map(|i| (i, Some(spawn_worker(prop, tier, base, i, workers, runs, secs, &dir, i))))
        .collect();
    let mut reports: Vec<Report> = Vec::new();
    let mut last: BTreeMap<u64, (u64, Instant)> = BTreeMap::new();
    while found.is_none() && children.iter().any(|c| c.1.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for (i, slot) in &mut children {
            let child = match slot {
                Some(c) => c,
                None => continue,
            };
            let current = fs::read(format!("{}/status{}", dir, i))
                .ok()
                .and_then(|b| b.try_into().ok())
                .map(u64::from_le_bytes);
            match child.try_wait().unwrap() {
                None => {
                    // A run that hangs outside instrumented code.
                    if let Some(run) = current {
                        let e = last.entry(*i).or_insert((run, Instant::now()));
                        if e.0 != run {
                            *e = (run, Instant::now());
                        } else if e.1.elapsed() > Duration::from_secs(90) {
                            let _ = child.kill();
                        }
                    }
                }
                Some(status) if status.code() == Some(0) => {
                    *slot = None;
                    let text = fs::read_to_string(format!("{}/report{}", dir, i)).unwrap();
                    let mut rep: Report = serde_json::from_str(&text).unwrap();
                    if let Some((_, plan)) = rep.found.take() {
                        found = Some(plan);
                    }
                    reports.push(rep);
                }
                Some(status) => {
                    *slot = None;
                    let v = exit_class(status);
                    let run = match current {
                        Some(run) => run,
                        None => {
                            eprintln!("a worker failed to start");
                            return 2;
                        }
                    };
                    if status.code() == Some(101) || status.code() == Some(2) {
                        eprintln!("a worker failed in run {}", run);
                        return 2;
                    }
                    found = Some(crashed_plan(prop, tier, base, run, &dir, v));
                }
            }
        }
    }
    for (_, c) in &mut children {
        if let Some(c) = c {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
    let mut code = 0;
    let violations = found.is_some() as u64;
    if let Some(plan) = found {
        let (v, out) = try_plan(&plan, &dir, "first");
        let same = v.as_ref().map(|v| &v.class) == plan.violation.as_ref().map(|v| &v.class);
        let plan = if same {
            let mut p = plan;
            if let Some(out) = out {
                if p.schedule.is_none() {
                    p.schedule = out.schedule;
                }
            }
            let (p, tried) = minimise(p, &dir, Duration::from_secs(60));
            println!("minimised to {} events in {} attempts", p.events.len(), tried);
            p
        } else {
            println!("note: the recorded run didn't fail the same way: {:?}", v);
            plan
        };
        let mut plan = plan;
        let mut bare = plan.clone();
        bare.violation = None;
        let (v, out) = try_plan(&bare, &dir, "last");
        if let Some(v) = v {
            plan.violation = Some(v);
        }
        plan.trace_hash = out.and_then(|o| o.trace_hash);
        let path = save_replay(&plan);
        let v = plan.violation.as_ref().unwrap();
        println!("seed {} of scenario {}: {}: {}", plan.seed, plan.scenario, v.class, v.message);
        for e in &plan.events {
            println!("  {}", brief_json(e));
        }
        println!("VIOLATION property={} replay={}", prop, path);
        code = 1;
    }
    for (class, text) in known_lines(prop) {
        println!("KNOWN-FINDING: property={} {} {}", prop, class, text);
    }
    evidence(prop, tier, base, start.elapsed(), violations, &reports, workers);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn brief_json(e: &serde_json::Value) -> String {
    let s = e.to_string();
    if s.len() > 600 {
        let cut = (0..600).rev().find(|&i| s.is_char_boundary(i)).unwrap();
        format!("{}...", &s[..cut])
    } else {
        s
    }
}

fn evidence(prop: &str, tier: Tier, base: u64, wall: Duration, violations: u64, reports: &[Report], workers: u64) {
    let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
    let mut stopped: BTreeMap<&str, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut edges: BTreeSet<u32> = BTreeSet::new();
    let (mut runs, mut repeated, mut mismatches, mut clock, mut steps, mut switches) = (0, 0, 0, 0, 0, 0);
    let mut guards = 0;
    let mut most = (0, 0);
    let mut samples = Vec::new();
    for r in reports {
        runs += r.runs;
        repeated += r.repeated;
        mismatches += r.mismatches;
        clock += r.clock_ms;
        steps += r.steps;
        most.0 = most.0.max(r.most_steps);
        most.1 = most.1.max(r.most_scheduled);
        switches += r.switches;
        guards = r.guards;
        for (k, n) in &r.counts {
            *counts.entry(k).or_insert(0) += n;
        }
        for (k, n) in &r.stopped {
            *stopped.entry(k).or_insert(0) += n;
        }
        hashes.extend(&r.hashes);
        edges.extend(&r.edges);
        samples.extend(r.samples.iter().cloned());
    }
    samples.truncate(4);
    let (faults, events): (BTreeMap<_, _>, BTreeMap<_, _>) =
        counts.into_iter().partition(|(k, _)| k.starts_with("fault: "));
    let faults: BTreeMap<_, _> = faults.into_iter().map(|(k, n)| (&k[7..], n)).collect();
    let wall_s = wall.as_secs_f64();
    let doc = json!({
        "property": prop,
        "tier": tier_name(tier),
        "seed": base,
        "level": "exploration",
        "violations": violations,
        "wall_s": (wall_s * 100.0).round() / 100.0,
        "assumptions": super::assumptions(prop),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": hashes.len(),
            "rule": format!(
                "One evaluation is one simulated run of scenario(s) {}: events, values, faults and schedules are drawn from one seed. Distinct: by a hash over all events, the bytes the library produced and (with threads) the places where threads were switched. A run is non-trivial if at least one event took effect; runs without any aren't generated.",
                mix_of(prop).iter().map(|m| m.0).collect::<Vec<_>>().join(", ")),
            "samples": samples,
            "runs_per_hour": (runs as f64 / wall_s.max(0.01) * 3600.0) as u64,
            "seeds": format!("{} seeds derived from VERIF_SEED={}; one per run", runs, base),
            "workers": workers,
            "simulated_seconds": clock / 1000,
            "simulated_time_note": "steit has no timers; this is the simulated clock of the session layer",
            "faults_injected": faults,
            "events": events,
            "thread_switches": switches,
            "library_steps": steps,
            "most_steps_in_a_run": most.0,
            "most_scheduled_steps_in_a_run": most.1,
            "edges_in_library_and_schemas": guards,
            "edges_reached": edges.len(),
            "determinism": {"runs_repeated_in_process": repeated, "mismatches": mismatches},
            "stopped_by_other_properties": stopped,
            "real": super::real(prop),
            "stub": super::stub(prop),
        },
    });
    let dir = format!("{}/evidence", root());
    fs::create_dir_all(&dir).unwrap();
    let mut f = fs::File::create(format!("{}/{}.json", dir, prop)).unwrap();
    writeln!(f, "{}", serde_json::to_string_pretty(&doc).unwrap()).unwrap();
    println!(
        "{} runs, {} distinct, {:.1} s, {} edges of {}, faults {:?}",
        runs, hashes.len(), wall_s, edges.len(), guards, faults
    );
    println!("events {:?}", events);
    if mismatches > 0 {
        println!("warning: {} of {} repeated runs differed", mismatches, repeated);
    }
    if !stopped.is_empty() {
        println!("stopped early by {:?}", stopped);
    }
}
