#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list of checks."""
import json, os
T = {
 "C01": "runtime reference-model monitor over U_expand (all wire tuples, angle families)",
 "C02": "runtime reference-model monitor over layer expansion",
 "C03": "trace oracle over build/clear/add histories of Circuit",
 "C04": "online per-step monitor of MPS evolution (invariants + reference state)",
 "C05": "online per-step monitor of tensor contraction",
 "C06": "online per-sample monitor of batched contraction against reference and unbatched calls",
 "C07": "round-trip and invariant monitor over MPS conversions",
 "C08": "runtime oracle over MPS inner products and expectations, with aliasing snapshots",
 "C09": "algebraic runtime oracle: adjoint undoes operation in every mode",
 "C10": "history monitor: update sequences against freshly specified reference",
 "C11": "runtime oracle: parameter-shift vs independent derivative, restoration monitor",
 "C12": "runtime oracle: saved-state gradient vs independent derivative, purity monitor",
 "C13": "runtime oracle: autograd vs independent derivative, detachment monitor",
 "C14": "runtime oracle: expectation on both paths vs reference, purity monitor",
 "C15": "runtime oracle over measure/expval",
 "C16": "runtime oracle over partial traces, physicality and aliasing monitors",
 "C17": "runtime oracle with planted violations over helpers and predicates",
 "C18": "runtime oracle over encodings and state preparation",
 "C19": "runtime oracle: per-window simulation and weight gradients",
 "C20": "trace oracle over call sequences on the legacy circuit",
 "C21": "runtime reference-model monitor over functional layers",
 "C22": "history monitor: interleaved read-only calls with argument/RNG/dtype snapshots",
 "C23": "fault injection of invalid arguments at every entry point, rejection monitor",
 "C24": "runtime monitor of self-description against observed behaviour",
 "C25": "online monitor of training loops: loss, gradients and parameters at every step against a double-precision model",
 "C26": "fault injection: rejected calls, operations failing at the k-th evaluation, torch calls failing at the k-th call; state snapshots around each",
}
NOTE = ("Exploration: the real code of /repo's working tree is executed on a deterministic, seeded workload (exhaustive over small registers where "
        "stated in DESIGN.md, random beyond) and every observed value is judged by an independent double-precision numpy model, itself validated "
        "against qiskit/pennylane in setup. No claim for inputs not executed. Trusts numpy, torch kernels and the reference model; single "
        "precision on CPU only.")
checks = []
for k, t in sorted(T.items()):
    checks.append({"property": k, "quick_cmd": "./check %s quick" % k, "thorough_cmd": "./check %s thorough" % k,
                   "evidence_file": "evidence/%s.json" % k, "technique": t, "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none (no hook commits in /repo; call-counting wrappers are installed from /verif at run time)", "enable": "n/a", "source_commits": []},
     "checks": checks, "not_applicable": [],
     "notes": "Known findings and repaired defects: known_findings.txt. Reproduce a violation with ./check <id> --replay <path>."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
