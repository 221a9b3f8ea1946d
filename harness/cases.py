"""Makes the calls that an exhaustive model of the specification printed, each from its own state."""
import random

import gen
import ntm
import record


def fix(c):
    """empty functions are printed as empty lists"""
    for k in ("nodes", "ifs", "srlgs", "dmds", "lsps"):
        if isinstance(c[k], list):
            c[k] = {}
    return c


def view(m):
    """the part of a state that failure calls change, as MCFail prints it"""
    c = m.cfg()
    return {"n": sorted(n for n, v in c["nodes"].items() if v["failed"]),
            "i": sorted(i for i, v in c["ifs"].items() if v["failed"]),
            "g": sorted(g for g, v in c["srlgs"].items() if v["failed"]), "all": sorted(c["srlgs"]),
            "nm": sorted([n, g] for n, v in c["nodes"].items() for g in v["srlgs"]),
            "im": sorted([i, g] for i, v in c["ifs"].items() for g in v["srlgs"])}


def calls(spec, rng, steps):
    """every call in every state; those that end elsewhere than specified, and some others, become steps"""
    n = 0
    for case in spec["states"]:
        cfg = fix(case["cfg"])
        m = None
        for ev, ok, after in case["evs"]:
            if m is None:
                m = ntm.M.build(cfg, True, rng)
                before = view(m)
                c = m.cfg()
                if c != cfg:
                    steps.append({"ev": {"op": "read"}, "out": "ok", "pre": cfg, "cfg": c})
                    break
            n += 1
            out = m.apply(ev)
            good, now = ntm.attempt(view, m)
            want = {k: sorted(v) for k, v in after[0].items()} if after else before
            if now != want or (out == "ok") != ok or rng.random() < .01:
                steps.append(record.observe(m, ev, out, {}, rng, cfg))
                steps[-1]["pre"] = cfg
            if now != before:
                m = None
    return n


def sims(spec, rng, steps):
    """a simulation of every configuration"""
    n = 0
    for cfg in spec["configs"]:
        cfg = fix(cfg)
        for _ in range(spec.get("times", 1)):
            n += 1
            ok, m = ntm.attempt(ntm.M.build, cfg, True, rng)
            if ok != "ok":
                steps.append({"ev": {"op": "sim"}, "out": "construction: " + ok, "pre": cfg, "cfg": cfg})
                break
            out = m.apply({"op": "sim"})
            steps.append(record.observe(m, {"op": "sim"}, out, spec["want"], rng, cfg))
            steps[-1]["pre"] = cfg
            if out == "Timeout":
                return n
    return n


def history(spec):
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    steps = [{"ev": {"op": "init"}, "out": "ok"}]
    n = (calls if "states" in spec else sims)(spec, rng, steps)
    if len(steps) == 1:
        steps.append({"ev": {"op": "read"}, "out": "ok", "pre": gen_empty(), "cfg": gen_empty()})
    return {"id": spec["id"], "exact": spec.get("exact", True), "steps": steps, "spec": spec, "calls": n}


def gen_empty():
    return {"kind": "flex", "nodes": {}, "ifs": {}, "srlgs": {}, "dmds": {}, "lsps": {}}


_ = gen
