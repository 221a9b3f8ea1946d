"""P18: the same history on a flexible and on a performance model."""
import random

import gen
import ntm
import record


def twin(c):
    """the configuration of the performance model as one of a flexible model"""
    ifs, k, seen = {}, 0, {}
    for i, v in c["ifs"].items():
        key = tuple(sorted((v["node"], v["remote"])))
        if key not in seen:
            k += 1
            seen[key] = str(k)
        ifs[i] = dict(v, ckt=seen[key])
    return dict(c, kind="flex", ifs=ifs)


def comparable(c, ev):
    """calls that only one class can refuse are left out"""
    if ev["op"] == "add_circuit":
        if (ev["a"], ev["b"]) in {(v["node"], v["remote"]) for v in c["ifs"].values()} or ev["a"] == ev["b"]:
            return False
        return ev["ckt"] != "" and ev["ckt"] not in {v["ckt"] for v in c["ifs"].values()}
    if ev["op"] == "add_list":      # no second circuit between the same nodes
        pairs = [frozenset((r["a"], r["b"])) for r in ev["list"]]
        return len(set(pairs)) == len(pairs) and \
            not set(pairs) & {frozenset((v["node"], v["remote"])) for v in c["ifs"].values()}
    return ev["op"] != "set_sc"


def history(spec):
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    p = gen.Profile(**spec["profile"])
    p.kinds = ["perf"]
    cp = gen.config(rng, p)
    cf = twin(cp)
    f, q = ntm.M.build(cf), ntm.M.build(cp)
    steps = [{"ev": {"op": "init"}, "out": "ok", "cfg": cf, "pcfg": cp}]
    c, had, dirty = cf, True, True

    def do(ev, stale=False):
        nonlocal c, had, dirty
        st = {"ev": ev, "out": f.apply(ev), "pout": q.apply(ev)}
        if stale:
            st["stale"] = True
        st["cfg"], st["pcfg"] = f.cfg(), q.cfg()
        if ev["op"] == "sim" and st["out"] == "ok" and st["pout"] == "ok":
            record.read(st, "r", f.result)
            record.read(st, "pr", q.result)
            if spec.get("reports"):
                record.read(st, "rep", f.reports)
                record.read(st, "prep", q.reports)
            if f.rable() == q.rable():
                qs = []
                for x in record.query_plan(rng, f, c, 5):
                    if x["q"] == "routed_lsp":
                        a, b = f.lsp(x["l"]), q.lsp(x["l"])
                        if not (isinstance(b.path, dict) and a.reserved_bandwidth == b.reserved_bandwidth and
                                [ntm.if_id(i) for i in a.path["interfaces"]] ==
                                [ntm.if_id(i) for i in b.path["interfaces"]]):
                            continue
                    qs.append({"a": f.query(x), "b": q.query(x)})
                st["q"] = qs
        steps.append(st)
        c = st["cfg"]
        had = bool(c["lsps"]) or (had and ev["op"] != "sim")
        dirty = ev["op"] != "sim"

    do({"op": "sim"})
    ops, weights = list(spec["ops"]), list(spec["ops"].values())
    for n in range(spec["len"]):
        cc = dict(c, kind="perf")
        op, swap = rng.choices(ops, weights)[0], False
        if op in gen.SWAPS:
            first, op = gen.SWAPS[op]
            ev = gen.event(rng, cc, first, p, 0)
            if ev is not None and comparable(c, ev):
                if (c["lsps"] or had) and dirty:
                    do({"op": "sim"})
                do(ev)
                cc = dict(c, kind="perf")
                swap = op in ("add_lsp", "add_demand")
        ev = gen.event(rng, cc, op, p, spec.get("odd", .08))
        if ev is None or not comparable(c, ev):
            continue
        if (c["lsps"] or had) and dirty and ev["op"] in gen.VALIDATING and not swap:
            do({"op": "sim"})
        do(ev, swap and (bool(c["lsps"]) or had))
        if ev["op"] != "sim" and (rng.random() > spec.get("batch", .3)):
            do({"op": "sim"})
    return {"id": spec["id"], "kind": "flex", "exact": p.exact, "steps": steps, "spec": spec}
