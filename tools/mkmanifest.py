#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "runtime monitor: event log of the running interpreter against a reference model"
T = {
 "C01": DIFF + ", operator and operand tables plus generated expressions",
 "C02": DIFF + ", systematic nestings and generated programs",
 "C03": DIFF + ", scope/closure/call generators and adversarial frame layouts",
 "C04": "runtime monitor of accept/reject and side effects against the static rules, generated and mutated programs",
 "C05": "metamorphic runtime monitor: one program in many layouts, literal read-back",
 "C06": "runtime monitor of equality, hashing and order laws against a canonical form",
 "C07": "model-based runtime monitor: operation histories against lists and maps",
 "C08": "runtime monitor of string and regex results against an independent implementation",
 "C09": "runtime monitor of round trips and of agreement with independent codecs",
 "C10": DIFF + ", panics and errors injected at every depth and construct",
 "C11": "runtime monitor inside the started program: recorded argv, environment and files against the written command",
 "C12": "runtime monitor of outcomes: injected exit statuses and signals, event log of executed commands",
 "C13": "runtime monitor of byte streams through pipes, captures and redirections, with delays and a deadlock detector",
 "C14": "event-log monitor (exactly-once, own outcome) over asynchronous schedules with injected delays",
 "C15": "descriptor, child and zombie monitor (/proc) during and after command blocks",
 "C16": "model-based runtime monitor of environment and working directory histories",
 "C17": "model-based runtime monitor of module loading over random module graphs",
 "C18": "AddressSanitizer and forced garbage collection on the event-log workloads, resident-memory monitor",
 "C19": "runtime monitor of exit status, streams and arguments at the command line",
 "C20": "crash/hang monitor under fuzzed script texts, verdicts compared between file, stdin and module",
 "C21": "runtime monitor of reported positions against the positions known to the generator",
 "C22": "crash/hang monitor and argument-integrity monitor over all library functions with hostile arguments",
 "C23": "runtime monitor of ranges, distributions, replay, line accounting and elapsed time",
}
NOTE = ("Black-box monitoring of the binary built from /repo's working tree: everything observed conformed; inputs not generated are not covered. "
        "Trusts the oracle in /verif/engine (independent of /repo's code), Python's standard library and the kernel.")
EXTRA = {
 "C18": "Reach of the sanitizer is the executed paths; collections are forced at every n-th call through a guarded hook.",
 "C14": "Schedules come from injected delays and load, not from enumeration.",
 "C23": "Distribution claims are statistical with false-alarm probability below 1e-9 per run.",
}
HOOKS = None
p = os.path.join(V, "tools", "hooks.json")
if os.path.exists(p): HOOKS = json.load(open(p))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
if HOOKS: m["hooks"] = HOOKS
for q in props:
    i = q["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration",
                            "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check built yet"})
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
