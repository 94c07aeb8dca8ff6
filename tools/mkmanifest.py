#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "differential runtime monitor: real serde output run through the real generated zod schemas",
 "C02": "differential runtime monitor: type-directed mutation, zod verdict against serde verdict",
 "C03": "differential runtime monitor over asymmetric serde attributes (serde, zod, tsc) and twin comparison",
 "C04": "oracle over tsc verdicts on generated positive and negative literals",
 "C05": "runtime monitor on recursive type graphs: process outcome, zod and serde verdicts on deep values, order permutation",
 "C06": "monitor of generated modules: TypeScript AST, diagnostics and exports against the declared program",
 "C07": "twin programs with and without docs: AST and token stream oracle",
 "C08": "end-to-end trace check: generated client against the real server, call log against expected calls",
 "C09": "end-to-end trace check: invalid calls, frames on the wire and server call log",
 "C10": "offline history checker over random schedules of the real proxy and dispatcher",
 "C11": "linearizability and ordering check of recorded histories with suspended handlers",
 "C12": "fuzzed hostile input with an online response and handler monitor",
 "C13": "fault injection (disconnects at every point) with a history checker",
 "C14": "stream history checker (exactly once, order, isolation) over random schedules",
 "C15": "stream lifecycle monitor (drop events, late items) under random cancellations",
 "C16": "leak monitor (live streams, drop events) under random disconnections",
 "C17": "trace checker over the real client on a simulated WebSocket with random event orders",
 "C18": "trace checker over the real client on a simulated WebSocket with random event orders",
 "C19": "registry observations against the declared program",
 "C20": "compiler outcome of generated valid and faulty programs",
 "C21": "frame-level trace check over loopback WebSockets",
}
NOTE = "Held on the executions produced (seeded by VERIF_SEED); nothing is claimed about inputs, programs or schedules the workload did not produce."
checks, na = [], []
for i in sorted(TECH):
    if os.path.exists(f"{here}/lib/checks/{i.lower()}.mjs"):
        checks.append({"property": i, "quick_cmd": f"node check.mjs {i} quick", "thorough_cmd": f"node check.mjs {i} thorough",
                       "technique": TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "no check yet"})
m = {"version": 1, "setup_cmd": "node tools/setup.mjs", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/target and /verif/work (both ignored by git). No hooks in /repo are needed."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1); open(f"{here}/MANIFEST.json", "a").write("\n")
