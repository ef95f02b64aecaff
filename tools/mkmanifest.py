"""Regenerate MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
NOTE = ("Seeded search over simulated executions of the real library, not exhaustive: it can miss a violation that needs a "
        "rarer schedule, fault or input than those explored. Trusts numpy, scipy, pandas, cvxopt and the reference oracle in /verif/sim. ")
CHECKS = {
    "C01": ("seeded operation histories with perturbed ambient randomness, clock and hash seed; outcome equality", ""),
    "C02": ("seeded line-level thread schedules with per-operation faults; equality with solo runs and deadlock detection",
            "Switches happen at library lines and dependency calls, not inside C code."),
    "C03": ("seeded faults at solvers, linear algebra, callbacks and library lines; process settings compared", ""),
    "C04": ("seeded dependency faults; exact snapshots of arguments and shared objects; retry equals clean run", ""),
    "C05": ("seeded solver failures; optimality certificates, constraint and reported-number checks on every returned portfolio", ""),
    "C06": ("seeded solver-failure sequences against a reference model of the fallback protocol", ""),
    "C07": ("seeded integer-solver failures; conservation laws and brute-force optimality", ""),
    "C08": ("seeded optimiser failures and stalls; every stated view checked on the returned probabilities", ""),
    "C09": ("seeded callback and solver failures in ensemble assembly against a reference model", ""),
    "C10": ("seeded factorisation failures; reconstruction, warning and boundedness checks", ""),
    "C11": ("seeded call sequences with faults against the textbook state machine", ""),
    "C12": ("seeded callback failures against a reference model of call counts, slices and propagation", ""),
    "C13": ("seeded linear-algebra failures and starved iterations; fixed-point and optimality certificates", ""),
    "C14": ("seeded overlay and solver failures; independent recomputation of every frontier column", ""),
    "C15": ("seeded interrupts at library lines and dependency calls; recovery equals uninterrupted run", ""),
    "C27": ("seeded dependency failures and failing allocations in every operation; outcome equals the undisturbed one, is announced or is an orderly error", ""),
    "C28": ("seeded histories with failing dependencies in a process that ends anywhere, also inside a call; saved objects continue in a fresh process as uninterrupted ones do", ""),
}
PURE = ("a pure, sequential function of its arguments: no schedule, fault, clock, I/O or multi-party behaviour can affect it, so "
        "deterministic simulation has nothing to decide (input generation alone would be property-based testing)")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS and os.path.exists(os.path.join(HERE, "sim", "checks", i.lower() + ".py")):
        t, extra = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --tier thorough",
                       "technique": TECH + t, "level": "exploration", "level_note": (NOTE + extra).strip()})
    else:
        na.append({"property": i, "reason": "check under construction" if i in CHECKS else PURE})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
