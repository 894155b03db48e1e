#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has scenarios."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C23": "src/wsrep_provider_v26.cpp and its companions include the provider API headers of the "
             "wsrep-API submodule, which is not part of this tree: the adapter is neither built here "
             "nor can it be, so there is no implementation to explore or to bind a model to."}
TECH = {
 "thr": "stateless model checking of the real code: exhaustive preemption-bounded interleavings and "
        "fault injection in a simulated cluster",
 "seq": "explicit enumeration of all operation sequences / values within bounds on the real code "
        "against a reference model",
 "io": "exhaustive enumeration of I/O faults and crash points on the real code",
}
SEQ = {"C18", "C20"}
IO = {"C19"}
NOTE = ("Every execution within the stated bounds (threads, preemptions, faults, sequence length; see "
        "DESIGN.md and the evidence file) of the real library code was run and judged by monitors in "
        "the simulated provider and DBMS. Trusts: the simulated provider/DBMS (mc/sim.cpp) behaves as "
        "the interface documents, sequentially consistent memory, scheduling points at locks, "
        "condition variables and callbacks.")
NOTE_SEQ = ("Every input within the stated alphabet and length bounds was run through the real code and "
            "compared with an independent reference. Trusts the reference in mc/ and the small-scope "
            "bound.")
NOTE_IO = ("Every failure, short write and crash point of every file system call in the explored report "
           "sequences was run on the real code with an in-memory file system behind the libc calls; an "
           "independent JSON parser judges the file. Trusts that interception and POSIX rename "
           "atomicity.")
exe = subprocess.run([HERE + "/check", "--build-only"], capture_output=True, text=True,
                     check=True).stdout.strip().splitlines()[-1]
have = set()
for l in subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.splitlines():
    have |= set(l.replace(",", " ").split())
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({"property": p, "reason": NA[p]})
        continue
    if p not in have:
        na.append({"property": p, "reason": "scenarios for this property are still being built"})
        continue
    k = "seq" if p in SEQ else "io" if p in IO else "thr"
    checks.append({"property": p, "quick_cmd": "./check %s" % p,
                   "thorough_cmd": "./check %s --tier thorough" % p,
                   "technique": TECH[k], "level": "model_checking",
                   "level_note": {"seq": NOTE_SEQ, "io": NOTE_IO, "thr": NOTE}[k]})
m = {"version": 1, "setup_cmd": "./check --build-only", "checks": checks, "not_applicable": na}
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks], [n["property"] for n in na])
