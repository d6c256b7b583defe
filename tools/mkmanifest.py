#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
techniques = {
 "C01": "ways in which a simulated stream delivers generated font sets; oracle: what was stored, and an independent reference reader",
 "C02": "stream failures (reads, seeks, bad sectors) at every point of a load; oracle: the identity of the injected failure",
 "C03": "cuts of font sets and structures and streams that end early; oracle: extents computed by a reference reader",
 "C04": "storage faults and hostile bytes on a simulated disk; oracle: the call returns, within a budget of stream operations",
 "C05": "storage faults on a simulated disk; oracle: a reference reader on the damaged bytes",
 "C06": "storage faults and stream failures with the allocator behind a seam; oracle: bound on peak bytes, nothing left behind",
 "C07": "sequences of structures with interrupted, split and failing reads and retries; oracle: reference reader and stream position",
 "C08": "histories of failing, abandoned and damaged loads; oracle: the load that follows, against a load on its own",
 "C09": "interleavings of concurrent loads at every stream operation, with stalls, failures and abandonment; oracle: each load on its own",
 "C10": "interleavings, abandonment and thread migration of charstring programs; oracle: a reference interpreter in lockstep",
 "C11": "hostile charstrings on small simulated stacks, stepped past errors; oracle: every step returns; reference interpreter for the nesting rule",
 "C12": "schedules of steps past the end; oracle: the end stays the end and the width stays",
 "C13": "deliveries, hash seeds, threads, histories and processes for the same bytes; oracle: the outcomes agree",
 "C18": "hostile charstrings, abandonment and restarts with the allocator behind a seam; oracle: bound on peak bytes, nothing left behind",
 "C19": "interleavings and histories of questions, loads, copies and drops, with failing and abandoned loads beside them; oracle: the bytes of the font set through a reference reader, and a process that does nothing else",
 "C14": "damaged offsets in embedded font sets with differing surroundings; oracle: the lowest position read, and agreement",
}
note = ("Exploration: no violation in the runs that were simulated; one seed repeats them exactly. Trusts the reference "
        "readers of the harness (sim/src/cff.rs, sim/src/t2.rs) and the generator. Threads switch at stream operations, "
        "between interpreter steps and, in part of the runs, at allocations and between instructions.")
notes = {
 "C06": " Allocations are counted, not made to fail: a failing allocation ends a Rust process by design.",
 "C09": " Whether the types can be sent and shared is read off the compiled types.",
 "C11": " What a program does once it has executed more than about 1,000,000 operators and operands or holds more than 48,000 operands is not compared with the reference interpreter, but it has to return.",
 "C18": " Allocations are counted, not made to fail: a failing allocation ends a Rust process by design.",
}
checks = [{
  "property": p,
  "quick_cmd": f"./check {p} quick",
  "thorough_cmd": f"./check {p} thorough",
  "evidence_file": f"evidence/{p}.json",
  "technique": T + t,
  "level": "exploration",
  "level_note": note + notes.get(p, ""),
} for p, t in techniques.items()]
na = [
 ("C15", "A pure table lookup by key: no stream, schedule, time, fault or history it could depend on; simulation adds nothing to comparing the tables with the specification."),
 ("C16", "A pure lookup in a constant table when a dictionary lacks the operator: nothing to schedule or to inject a fault into."),
 ("C17", "A pure lookup in a value in memory; for stored tables it is not implemented (it always answers None), and no schedule or fault bears on it."),
]
json.dump({
 "version": 1,
 "setup_cmd": "cargo build --release --offline --manifest-path sim/Cargo.toml && cargo build --profile shipped --offline --manifest-path sim/Cargo.toml",
 "checks": checks,
 "not_applicable": [{"property": p, "reason": r} for p, r in na],
 "notes": "No hooks in /repo: the stream, the allocator, the hash seeds and the calling threads are seams the code has already. Replay a violation with ./replay FILE, or ./replay --trace FILE for the execution step by step. Findings on record and repairs: known_findings.txt.",
}, open(f"{root}/MANIFEST.json", "w"), indent=1)
