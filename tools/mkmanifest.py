#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand)."""
import json
import os
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "harness"))
import plans  # noqa: E402

NOTE = {
    "P01": "TLC judges every state of recorded histories of the real code against the agreement invariants",
    "P02": "TLC compares the outcome and the full state after every failure call with the specification's action",
    "P03": "TLC computes the lowest-cost paths of every recorded configuration and compares the set of paths",
    "P04": "TLC computes hop-by-hop splits and conservation for every recorded result",
    "P05": "TLC sums the shares of all demands on every interface of every recorded result",
    "P06": "TLC searches for a signaling order that explains the recorded LSP paths (all groups, all orders)",
    "P07": "TLC sums the reservations on every interface of every recorded result",
    "P08": "TLC checks LSP bandwidths, and searches for a signaling order that explains re-signaled shares",
    "P09": "TLC computes effective metrics and the lowest-metric LSPs for every recorded demand",
    "P10": "TLC computes the shortcut paths of every recorded demand from the specification's next-hop semantics",
    "P11": "TLC computes splits and path traffic for every path of every recorded demand",
    "P12": "TLC relates results of one configuration: after a history, repeated, and in a fresh model",
    "P13": "TLC computes the answer to every recorded query from the recorded state",
    "P14": "TLC computes every report from the recorded state and result",
    "P21": "TLC compares the parsed output of every display call with the recorded state, and states before and after reads",
    "P20": "TLC compares the full state after every edit with the specification's action, and every lookup",
}
NOTE.update(getattr(plans, "NOTES", {}))
ALL = [json.loads(x)["id"] for x in open(os.path.join(H, "properties.jsonl"))]
PY = "/opt/venv/bin/python -B harness/check.py"
checks, na = [], []
for p in ALL:
    if p in plans.CLAIMED:
        checks.append({
            "property": p, "quick_cmd": "%s %s quick" % (PY, p), "thorough_cmd": "%s %s thorough" % (PY, p),
            "technique": "TLA+ specification checked with TLC; recorded executions validated against it",
            "level": "model_checking",
            "level_note": NOTE.get(p, "") + ". Exhaustive only for the bounded specification models named in DESIGN.md; for "
            "the code, the assurance is that of the executions generated (seeded by VERIF_SEED). Trusts TLC and the "
            "projection in harness/ntm.py."})
    else:
        na.append({"property": p, "reason": "the check is still being built"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B harness/setup.py", "checks": checks,
           "not_applicable": na,
           "notes": "No hooks in /repo: the state is observed through the public interface."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
