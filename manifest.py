#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
notes = {
 "C01": "cluster simulation: leader, replicas, faulty network, crash and restart; reference replay as oracle",
 "C02": "cluster simulation with crash/restart/join from snapshots at arbitrary points; reference codec as oracle",
 "C03": "cluster simulation with failover, restart, re-rooting and foreign-built values; reference replay of the log as oracle",
 "C04": "cluster simulation with every logger watched after every event",
 "C05": "seeded log cuts and crash/restart of a replica during replay; reference replay as oracle",
 "C06": "seeded corruption of snapshots and logs under an allocator limit and a step budget; reference decoder and usability of the survivor as oracle",
 "C07": "seeded hostile log entries of every rejection kind interleaved with good ones; reference verdict and unchanged state as oracle",
 "C08": "simulated input streams with short reads, interruptions and hard errors at seeded points; whole-buffer decoding as oracle",
 "C09": "simulated output streams with short writes, interruptions, zero writes and errors at seeded points, between mutations, loads and serializations; reference codec as oracle",
 "C10": "seeded refusals of log appends and failing text log writers; reference replay of the accepted entries as oracle",
 "C11": "crash between any two hand-overs to the logger, loggers replaced at seeded points; reference replay of every prefix as oracle",
 "C12": "real threads under a seeded scheduler that decides every interleaving; per-thread reference logs, replay and deadlock detection as oracle",
 "C13": "mutators and drainers as real threads under a seeded scheduler; the concatenation of everything drained against the reference log as oracle",
 "C14": "concurrent serializers of one shared state as real threads under a seeded scheduler; reference codec as oracle",
 "C15": "pauses, resumes and panicking builders on real threads under a seeded scheduler; reference pause count as oracle",
 "C16": "peers of another schema version and rolling upgrades between two versions, with crash and failover; reference decoder and projection as oracle",
 "C17": "a client interpreting the generated code follows a real server through crashes and joins; reference replay as oracle",
 "C21": "objects with different histories of mutations, copies, merges, failed loads and writes are compared pairwise after every event; equality of the reference values as oracle",
 "C22": "values are taken out of states, held, mutated and put in elsewhere, with refused appends, crashes and restarts; ownership in the reference model as oracle",
 "C23": "values of all kinds share a simulated stream that splits, interrupts, stalls and breaks at seeded points; reference codec and stream position as oracle",
 "C24": "runtime handles are derived, dropped, logged through, paused and moved between at seeded points, with refused appends and replaced loggers; model of places and logs as oracle",
 "C25": "seeded cycles of work, faults included, repeated many times on one state; live memory under a counting allocator and control-flow steps per cycle, early cycles against late ones",
 "C26": "panics injected at seeded calls of loggers, readers, writers, builders, iterators and map keys, with the objects used on afterwards; reference replay of the accepted entries as oracle",
 "C18": "generator runs on a simulated failing disk with crashes, litter and seeded hash orders; output of a healthy run as oracle",
}
level_note = "Seeded sample of simulated runs against the real library; a clean batch is evidence, not proof. Trusts the reference model in sim/model."
checks = [{
    "property": p,
    "quick_cmd": "bash run.sh %s quick" % p,
    "thorough_cmd": "bash run.sh %s thorough" % p,
    "technique": "deterministic simulation with fault injection: " + notes[p],
    "level": "exploration",
    "level_note": level_note,
} for p in sorted(notes)]
na = [
 {"property": "C19", "reason": "The subject is the C# library; no .NET runtime or compiler exists in the sandbox, so the code cannot be executed under a simulator."},
 {"property": "C20", "reason": "A pure compile-time function of the schema source: no schedule, clock, I/O, fault or history for a simulation to control."},
]
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in notes and i not in ("C19", "C20"):
        na.append({"property": i, "reason": "Check under construction."})
doc = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": na}
json.dump(doc, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "a").write("\n")
