#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {}
notes = {
    "default": "Seeded search: no violation on the schedules, inputs and faults explored. The code of the working tree runs unmodified except for yield points and redirected standard library calls inserted at build time; scheduler, clock, memory statistics and file system are simulated. Trusts the simulator, the model in sim/harness and that code between two yield points may be taken as atomic (weak memory effects are not simulated).",
}
extra = {
    "C04": " Write, create, close and SQL failures are injected; a database failure is injected at the database/sql boundary, not inside of the engine.",
    "C07": " Kills keep every byte a completed write call has delivered (no loss of the page cache); SQLite durability is left to its engine.",
    "C21": " A kill keeps every byte a completed write call has delivered; the SQLite file is kept as its engine left it.",
    "C23": " Side files of the SQLite engine (journal) are not seen, its file lives outside of the simulated file system.",
    "C16": " Judged when the process exits by itself; files opened by libraries outside of the rewritten packages are not seen.",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in na:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": notes["default"] + extra.get(i, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "./check build .build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
    "notes": "No hooks are committed in /repo: the simulator is put between the code and the runtime by a source rewriter and 'go build -overlay'. Replay a reported violation with './check replay FILE'. VERIF_SEED selects the seed, VERIF_SECS overrides the search time.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
