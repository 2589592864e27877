#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plans import PLANS  # noqa: E402

TECH = {
    "link": "deterministic discrete-event simulation of caller, faulty link and callee; seeded search, refinement against a reference model",
    "node": "deterministic simulation with fault injection; seeded histories refined step by step against a reference model",
    "isr": "deterministic simulation of interrupts at any memory access; seeded search, refinement against a reference model",
    "tuple": "deterministic simulation of interrupted transfers and failing media; seeded search, byte and access accurate reference model",
    "poison": "deterministic simulation repeated with differently poisoned memory; seeded search, comparison of the wire",
    "py": "deterministic simulation of event loop, transport and callbacks around the real Python bindings; seeded search",
    "hook": "deterministic simulation of file tree, build tool, loader and crashes around the real import hook; seeded search",
}
KIND = {"C01": "link", "C02": "link", "C11": "link", "C05": "isr", "C13": "tuple", "C17": "poison", "C14": "py", "C15": "py", "C16": "hook"}
NOTE = ("Seeded exploration, not proof: the property held in every run explored (about 10^5 runs in the quick tier, 10^6 to 10^7 in the "
        "thorough one). Trusts the reference model in sim/, the compiler, AddressSanitizer as the memory oracle, and x86-64 as the platform.")
NOTES = {
    "C05": " Interrupts strike between instrumented memory accesses of one core; they do not split an access nor reorder stores.",
    "C14": " Event loop, clock and transport are simulated; client.py and the key bindings are the real code.",
    "C15": " The extension is the real include/upd/python.hpp; Python callables, sources and sinks are the simulator's.",
    "C16": " hook.py is the real code; cppimport, compiler, loader and file tree are simulated, their contracts taken from cppimport's sources.",
}
NA = {
    "N01": "a compile-time rejection has no execution, schedule, time, I/O or fault to simulate; deciding it means compiling ill-formed "
           "programs, another technique",
    "N02": "the list operations run entirely in the compiler: nothing is left at run time to schedule or fail (their run-time consequences "
           "are exercised by C01, C02 and C12)",
    "N03": "packaging is a static fact about install rules and manifests; simulating CMake, pip or the Arduino builder would verify the "
           "simulator's stand-ins and not the project",
}
checks = []
for p in sorted(PLANS):
    checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": TECH[KIND.get(p, "node")], "level": "exploration", "level_note": NOTE + NOTES.get(p, "")})
na = [{"property": k, "reason": v} for k, v in NA.items()]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    d = json.loads(l)
    if d["id"] not in PLANS and d["id"] not in NA:
        na.append({"property": d["id"], "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: byte sources and sinks, callbacks, iterators, operator new, compiler instrumentation and "
              "Python modules are seams the code already has. Each check builds what it needs from /repo's working tree into "
              "/verif/build (cached by content)."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
