#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    "math": "Every recorded call of the real helpers is decided by TLC against index-notation definitions in exact "
            "rational arithmetic; index tables are covered completely by basis tensors, rounding by a stated tolerance.",
    "model": "Derivatives returned by the real models are compared by TLC with exact derivatives (jets over rationals) of "
             "the documented energy; parameter patterns enumerated, points sampled.",
    "space": "Stress and elasticity of the real code are compared by TLC with exact directional derivatives of the energy "
             "composed with the deformation (rational witnesses for roots), on enumerated formulations, spaces and "
             "configurations at sampled and degenerate points.",
    "relation": "Relations between recorded results are decided by TLC in exact arithmetic with a stated tolerance; "
                "formulations, spaces, configurations and shapes enumerated, deformations sampled.",
    "heap": "All programs of two (three) helper calls on shared memory regions are enumerated by TLC, replayed, and every "
            "recorded heap is decided by TLC against the heap model and the index-notation definitions.",
    "history": "All histories of two and sampled histories of three evaluations (all in the thorough tier for sharing subsets), "
               "with injected material failures, enumerated by TLC from a model of the caches, replayed on real object graphs.",
    "state": "Steppings (accept, reject, restart) enumerated by TLC, replayed on stateful and built-in materials; every material "
             "call logged and decided by TLC.",
    "lab": "Every recorded call of the real load cases and experiments is decided by TLC in exact rational arithmetic against "
           "the definitions of the spec; load cases, axes and data containers enumerated, values sampled.",
    "sim": "The simulated curve of every combination of load case, material, label order and stretch container is decided by TLC "
           "against exact stresses (jets over rationals) of the documented energy on an exactly balanced load path; histories of "
           "parameter changes are enumerated by TLC.",
    "opt": "All sessions of three actions (fits failing at any evaluation, in the optimizer or by interrupt, restarts, edits of the caller's array) "
           "are enumerated by TLC from a model of the phases of a fit; sampled with every action last, replayed, and every recorded state decided by TLC.",
    "plot": "All sessions of three (four) plots and changes on two axes of the user and new ones are enumerated by TLC, covered by their "
            "last steps, replayed with matplotlib, and every recorded axes state decided by TLC.",
    "fit": "Residuals, minimality (exact normal equations), errors and recovery of recorded fits are decided by TLC from the exact "
           "design matrix of the model; loads, masks, label orders and solvers enumerated, data sampled.",
}
CLAIMS = {
    "C23": NOTE["lab"], "C25": NOTE["lab"], "C24": NOTE["sim"], "C27": NOTE["fit"], "C26": NOTE["opt"], "C28": NOTE["plot"],
    "C05": NOTE["heap"], "C20": NOTE["history"], "C21": NOTE["state"],
    **{"C%02d" % k: NOTE["math"] for k in (1, 2, 3, 4)},
    **{"C%02d" % k: NOTE["model"] for k in (6, 7, 8, 9)},
    **{"C%02d" % k: NOTE["space"] for k in (10, 11, 12, 14, 15, 16, 17, 22)},
    **{"C%02d" % k: NOTE["relation"] for k in (13, 18, 19)},
}
TECH = "TLA+ specification checked with TLC; trace validation of recorded executions of the real code against it"

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [
        {"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
         "thorough_cmd": "python3 run.py %s thorough" % p["id"],
         "evidence_file": "evidence/%s.json" % p["id"],
         "technique": TECH, "level": "model_checking", "level_note": CLAIMS[p["id"]]}
        for p in props if p["id"] in CLAIMS
    ],
    "not_applicable": [{"property": p["id"], "reason": "not built yet"} for p in props if p["id"] not in CLAIMS],
    "notes": "All checks: python3 run.py <id> [quick|thorough]; no hooks in /repo are needed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
