#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties not claimed."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
NA = {
    "C24": "The oracle is what Leptos renders at run time (reactive graph, async, SSR string building in third-party crates), reached only after rustc "
           "expands and compiles each view; the functions to encode are not this repository's and each view is a different program, so there is no fixed "
           "code whose inputs could be made symbolic. C03-C14 decide the generated code itself instead.",
    "C25": "Decided by rustc's type checker on each expanded program; encoding the type checker for an SMT solver is out of reach. C18 decides the "
           "locations of the generated calls, which is this repository's share of it.",
}
note = ("Bounded: every value of the symbolic inputs of each entry point that evidence lists as complete; bounds in DESIGN.md. Trusts the LLVM IR "
        "executor (every explored path is compared with the native program), z3, proc-macro2's fallback token streams (also in place of "
        "rustc's own) and the patched proc-macro-error2 runtime in stubs/.")
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check %s --tier quick" % p["id"], "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": "bounded symbolic execution of the real expansion code's LLVM IR, SMT (z3) deciding branches and assertions, counterexamples replayed natively",
                 "level": "model_checking", "level_note": note} for p in props if p["id"] not in NA],
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo. Repairs in /repo are the fix: commits listed in known-findings.txt."}
with open(os.path.join(R, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
