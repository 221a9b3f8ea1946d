"""Records histories of the real code.

Worker: python record.py JOB.json OUT.json   (JOB: list of trace specifications)
"""
import json
import os
import random
import signal
import sys
import traceback

import gen
import ntm

CPU_LIMIT = 90


class Timeout(Exception):
    pass


def on_alarm(signum, frame):
    raise Timeout()


def read(step, name, f):
    """do a read of the model for a step; a read that fails is part of the observation"""
    out, v = ntm.attempt(f)
    if out == "ok":
        step[name] = v
    else:
        step.setdefault("errs", []).append("%s: %s" % (name, out))


def pure(step, m, reads, rng):
    """read all that can be read, in any order, and see whether the model stays as it was"""
    step["pure"], said = [], {}
    out, before = ntm.attempt(m.signature)
    rng.shuffle(reads)
    for name in reads:
        v = {}
        read(v, "v", getattr(m, name))
        out, after = ntm.attempt(m.signature)
        step["pure"].append({"read": name, "same": before == after})
        before = after
        if name == "displays":
            if v.get("v"):
                step["disp"] = v["v"]
            step.setdefault("errs", []).extend(v.get("errs", []))
        said[name] = json.dumps(v.get("v"), sort_keys=True, default=str)
    # what was read first is still said when all of it has been read
    rng.shuffle(reads)
    for name in reads:
        v = {}
        read(v, "v", getattr(m, name))
        step["pure"].append({"read": name + " again",
                             "same": said[name] == json.dumps(v.get("v"), sort_keys=True, default=str)})
    if not step.get("errs"):
        step.pop("errs", None)


def query_plan(rng, m, c, k):
    """k random path queries"""
    nodes, qs = sorted(c["nodes"]), []
    rable = sorted(set(v for v in m.rable().values() if v > 0)) or [1000]
    routed = [x for x in m.model.rsvp_lsp_objects if isinstance(x.path, dict)]
    routed.sort(key=ntm.lsp_id)
    if len(nodes) < 2:
        return qs
    for _ in range(k):
        s, d = rng.sample(nodes, 2)
        bw = rng.choice([0, 0, rng.choice(rable), rng.choice(rable) + 100, max(0, rng.choice(rable) - 100), 1000])
        kind = rng.choice(["shortest", "all", "routed_lsp"] if routed else ["shortest", "all"])
        if kind == "shortest":
            qs.append({"q": kind, "s": s, "d": d, "bw": bw, "explicit": rng.random() < 0.5})
        elif kind == "all":
            qs.append({"q": kind, "s": s, "d": d, "bw": bw, "incl": rng.random() < 0.4,
                       "cutoff": rng.choice([1, 2, 3, 4, 10, 10, 99]), "explicit": rng.random() < 0.5})
        else:
            x = rng.choice(routed)
            own = ntm.milli(x.reserved_bandwidth)
            i = rng.choice(x.path["interfaces"])
            room = max(0, ntm.milli(i.reservable_bandwidth))
            bw = rng.choice([own, own + 1000, own + rng.choice(rable), own + room, own + room + 100])
            if own % 1000 or room % 1000:
                bw += rng.choice([37, -37])     # stay clear of sums that floating point cannot represent
            qs.append({"q": kind, "l": ntm.lsp_id(x), "bw": bw})
    return qs


def on_paths(m):
    """the interfaces on LSP paths, or if there are none on the paths of demands"""
    def names():
        out = {ntm.if_id(i) for x in m.model.rsvp_lsp_objects if isinstance(x.path, dict) for i in x.path["interfaces"]}
        return out or {ntm.if_id(i) for i in m.model.interface_objects if i.traffic > 0 and not i.failed}
    ok, out = ntm.attempt(names)
    return sorted(out) if ok == "ok" else []


def observe(m, ev, out, want, rng, prev):
    """one step: the call, its outcome and what can be seen afterwards"""
    step = {"ev": ev, "out": out}
    ok, c = ntm.attempt(m.cfg)
    if ok != "ok":
        step.setdefault("errs", []).append("state: " + ok)
        c = prev
    step["cfg"] = c
    sim = ev["op"] == "sim" and out == "ok"
    if want.get("disp"):
        pure(step, m, ["result", "reports", "lookups", "displays", "cfg", "rable"], rng)
    if sim and want.get("r"):
        read(step, "r", m.result)
    if sim and want.get("rep"):
        read(step, "rep", m.reports)
    if want.get("look") and (sim or ev["op"] != "sim") and (want["look"] == 1 or rng.random() < want["look"]):
        read(step, "look", m.lookups)
    if want.get("q") and (sim or ev["op"] in want.get("qops", ())):
        read(step, "rable", m.rable)
        step["q"] = [m.query(q) for q in query_plan(rng, m, c, want["q"] if sim else 2)]
    if sim and want.get("fresh"):
        f = {"out": "", "cfg": c}
        ok, fm = ntm.attempt(ntm.M.build, c, True, rng, getattr(m, "intckt", False))
        if ok == "ok":
            ok = fm.apply({"op": "sim"})
        f["out"] = ok
        if ok == "ok":
            read(f, "cfg", fm.cfg)
            read(f, "r", fm.result)
            if "errs" in f:
                step.setdefault("errs", []).extend(f.pop("errs"))
        step["fresh"] = f
        ok = m.apply({"op": "sim"})
        if ok == "ok":
            read(step, "again", m.result)
        else:
            step.setdefault("errs", []).append("again: " + ok)
    return step


def history(spec):
    """run one history.  spec: seed, profile, ops (weights), len, want, or explicit cfg and events"""
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    p = gen.Profile(**spec["profile"])
    want = spec["want"]
    cfg = spec.get("cfg") or gen.config(rng, p)
    mm = spec.get("mm", True)
    tr = {"id": spec["id"], "kind": cfg["kind"], "exact": p.exact, "steps": [], "spec": spec}
    ok, m = ntm.attempt(ntm.M.build, cfg, mm, None, spec.get("intckt", False), spec.get("legacy", False))
    first = {"ev": {"op": "init"}, "out": ok, "cfg": cfg}
    tr["steps"].append(first)
    if ok != "ok":
        # the model could not be made from a valid configuration
        tr["steps"].append({"ev": {"op": "sim"}, "out": "construction: " + ok, "cfg": cfg})
        return tr
    c = cfg
    # what the constructed model looks like
    step = observe(m, {"op": "read"}, "ok", dict(want), rng, c)
    tr["steps"].append(step)
    c = step["cfg"]
    events = spec.get("events")
    had, dirty = bool(c["lsps"]), True     # had: LSPs in the model at or since the last simulation

    def do(ev):
        nonlocal c, dirty, had
        before = ev["op"] == "bad" and ntm.attempt(m.signature)
        out = m.apply(ev)
        st = observe(m, ev, out, want, rng, c)
        if before:
            st["same"] = ntm.attempt(m.signature) == before
        tr["steps"].append(st)
        c = st["cfg"]
        had = bool(c["lsps"]) or (had and ev["op"] != "sim")
        dirty = ev["op"] != "sim"
        return out

    if events is not None:
        for ev in events:
            if do(ev) == "Timeout":
                break
        return tr
    n = 0
    sim_always = spec.get("sim_always", False)
    if spec.get("sim_first", True):
        do({"op": "sim"})
    ops, weights = list(spec["ops"]), list(spec["ops"].values())
    while n < spec["len"]:
        n += 1
        op = rng.choices(ops, weights)[0]
        if op == "bounce":
            # an interface that something is routed over goes away and comes back
            used = on_paths(m)
            if used and sim_always:
                i = rng.choice(used)
                evs = [{"op": "fail_if", "i": i}, {"op": "sim"}, {"op": "unfail_if", "i": i, "raise": False}, {"op": "sim"}]
                if dirty:
                    evs.insert(0, {"op": "sim"})
                if any(do(e) == "Timeout" for e in evs):
                    break
            continue
        swap = False
        if op in gen.SWAPS:
            first, op = gen.SWAPS[op]
            ev = gen.event(rng, c, first, p, 0)
            if ev is not None:
                if (c["lsps"] or had) and dirty:
                    do({"op": "sim"})
                if do(ev) == "Timeout":
                    break
                swap = op in ("add_lsp", "add_demand")    # removing these leaves nothing to refuse
        ev = gen.event(rng, c, op, p, spec.get("odd", 0.08))
        if ev is None or (op == "sim" and sim_always):
            continue
        # with LSPs in the model, a call that validates follows a simulation
        if (c["lsps"] or had) and dirty and op in gen.VALIDATING and not swap:
            do({"op": "sim"})
        out = do(ev)
        if out == "Timeout":
            break
        if sim_always and (rng.random() >= spec.get("batch", 0.0) or n >= spec["len"]):
            if do({"op": "sim"}) == "Timeout":
                break
    if sim_always and dirty:
        do({"op": "sim"})
    return tr


def main():
    jobs = json.load(open(sys.argv[1]))
    signal.signal(signal.SIGPROF, on_alarm)
    out = []
    for spec in jobs:
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            mod = __import__(spec.get("driver", "record"))
            out.append(mod.history(spec))
        except Timeout:
            out.append({"id": spec["id"], "timeout": True, "spec": spec})
        except Exception:  # noqa: BLE001
            # the driver could not make this history of the code under test
            out.append({"id": spec["id"], "crash": traceback.format_exc()[-1500:], "spec": spec})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
