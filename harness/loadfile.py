"""P16: model files, written and loaded."""
import os
import random
import tempfile

import gen
import ntm

RSVP = ["", "True", "T", "true", "False", "F", "false"]


def text(f, rng=None):
    """the file as text; rng chooses line ends and such"""
    flex = f["kind"] == "flex"
    req = 6 if flex else 5
    out = ["INTERFACES_TABLE",
           "\t".join(["node_object_name", "remote_node_object_name", "name", "cost", "capacity"]
                     + (["circuit_id"] if flex else []) + ["rsvp_enabled", "percent_reservable_bandwidth"])]
    for r in f["ifs"]:
        row = [r["node"], r["remote"], r["name"], str(r["cost"]), str(r["cap"])] + ([r["ckt"]] if flex else []) \
            + [r["rsvp"], "" if r["pct"] == -1 else str(r["pct"])]
        out.append("\t".join(row[:min(r["cols"], req + 2)]))
    out += ["", "NODES_TABLE", "name\tlon\tlat\tigp_shortcuts_enabled(default=False)"]
    for r in f["nodes"]:
        row = [r["name"], "" if r["lon"] == -1000 else str(r["lon"]), "" if r["lat"] == -1000 else str(r["lat"]), r["sc"]]
        out.append("\t".join(row[:r["cols"]]))
    out += ["", "DEMANDS_TABLE", "source\tdest\ttraffic\tname"]
    for r in f["dmds"]:
        out.append("\t".join([r["s"], r["d"], str(r["traf"]), r["name"]]))
    if f["lsps"] or (rng and rng.random() < .3):
        out += ["", "RSVP_LSP_TABLE", "source\tdest\tname\tconfigured_setup_bw\tmanual_metric"]
        for r in f["lsps"]:
            cfg = "" if r["cfg"] == -1 else str(r["cfg"] // 10) if r["cfg"] % 10 == 0 else str(r["cfg"] / 10)
            row = [r["s"], r["d"], r["name"], cfg, "" if r["mm"] == 0 else str(r["mm"])]
            out.append("\t".join(row[:r["cols"]]))
    nl = rng.choice(["\n", "\n", "\r\n"]) if rng else "\n"
    bom = "\ufeff" if rng and rng.random() < .2 else ""
    return bom + nl.join(out) + (nl if not rng or rng.random() < .5 else "")


def geo(m):
    return {n.name: [n.lat, n.lon] for n in m.model.node_objects}


def shared(m):
    """do interfaces, demands and LSPs refer to the node objects of the model?"""
    by = {n.name: n for n in m.model.node_objects}
    return all(by.get(n.name) is n for o in m.model.interface_objects for n in (o.node_object, o.remote_node_object)) \
        and all(by.get(n.name) is n for s in (m.model.demand_objects, m.model.rsvp_lsp_objects) for o in s
                for n in (o.source_node_object, o.dest_node_object))


def load(f, path, rng=None, legacy=False):
    step = {"ev": {"op": "load"}, "file": f, "cfg": {}, "geo": {}, "sim": "", "after": {}, "shared": True}
    with open(path, "w", encoding="utf-8", newline="") as h:
        h.write(text(f, rng))
    cls = ntm.CLS[f["kind"]]
    if legacy:
        import pyNTM
        cls = pyNTM.Parallel_Link_Model if f["kind"] == "flex" else pyNTM.Model
    step["out"], model = ntm.attempt(cls.load_model_file, path)
    if step["out"] == "ok":
        m = ntm.M(f["kind"], model)
        ok, c = ntm.attempt(m.cfg)
        if ok != "ok":
            step["out"] = "unreadable: " + ok
            return step
        step["cfg"], step["geo"], step["shared"] = c, geo(m), shared(m)
        step["sim"] = m.apply({"op": "sim"})
        if step["sim"] == "ok":
            step["after"] = m.cfg()
    return step


def make(rng, p):
    """a random file"""
    c = gen.config(rng, p)
    flex = c["kind"] == "flex"
    req = 6 if flex else 5
    f = {"kind": c["kind"], "ifs": [], "nodes": [], "dmds": [], "lsps": []}
    style = rng.choice(["bare", "mixed", "mixed", "full"])

    def cols(lo, hi):
        return lo if style == "bare" else hi if style == "full" else rng.randint(lo, hi)

    for v in c["ifs"].values():
        f["ifs"].append({"cols": cols(req, req + 2), "node": v["node"], "remote": v["remote"], "name": v["name"],
                         "cost": v["cost"], "cap": v["cap"] // 10, "ckt": v["ckt"], "rsvp": rng.choice(RSVP),
                         "pct": rng.choice([-1, 0, 10, 50, 80, 100])})
    rng.shuffle(f["ifs"])
    names = list(c["nodes"])
    for n in names:
        if rng.random() < .6:
            f["nodes"].append({"cols": cols(1, 4 if flex else 3), "name": n, "lon": rng.choice([-1000, 0, 50, -7, 33]),
                               "lat": rng.choice([-1000, 0, -50, 12]), "sc": rng.choice(["", "True", "False", "True"])})
    if rng.random() < .3:
        f["nodes"].append({"cols": cols(1, 3), "name": "orphan", "lon": 5, "lat": 6, "sc": "False"})
    rng.shuffle(f["nodes"])
    known = {r[k] for r in f["ifs"] for k in ("node", "remote")} | {r["name"] for r in f["nodes"]}
    for v in c["dmds"].values():
        f["dmds"].append({"s": v["src"], "d": v["dst"], "traf": rng.choice([0, 5, 10, 80]),
                          "name": rng.choice(["", v["name"], v["name"]]) + rng.choice(["", "", "", " "])})
    for v in c["lsps"].values():
        f["lsps"].append({"cols": cols(3, 5), "s": v["src"], "d": v["dst"], "name": v["name"],
                          "cfg": rng.choice([-1, -1, 0, 10, 25, 100]), "mm": rng.choice([0, 0, 1, 5, 30])})
    f["dmds"] = [r for r in f["dmds"] if {r["s"], r["d"]} <= known]
    f["lsps"] = [r for r in f["lsps"] if {r["s"], r["d"]} <= known]
    rng.shuffle(f["dmds"])
    rng.shuffle(f["lsps"])
    # deviations
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        how = rng.choice(["dup demand", "dup lsp", "dup interface", "ckt", "ckt new", "short", "demand src", "demand dst",
                          "lsp src", "lsp dst", "cap", "parallel", "self"])
        r = rng.choice(f["ifs"])
        if how == "dup demand" and f["dmds"]:
            x = dict(rng.choice(f["dmds"]), traf=77)
            f["dmds"].insert(rng.randint(0, len(f["dmds"])), x)
        elif how == "dup lsp" and f["lsps"]:
            x = dict(rng.choice(f["lsps"]), cfg=170, mm=9, cols=5)
            f["lsps"].insert(rng.randint(0, len(f["lsps"])), x)
        elif how == "dup interface":
            b = next((x for x in f["ifs"] if x["node"] == r["remote"] and x["remote"] == r["node"]
                      and x["ckt"] == r["ckt"]), None)
            if b:
                both = rng.random() < .7
                for x in (r, b) if both else (r,):
                    f["ifs"].append(dict(x, ckt="777" if both else x["ckt"], cost=9, cap=91))
        elif how == "ckt":
            r["ckt"] = rng.choice(f["ifs"])["ckt"]
        elif how == "ckt new":
            r["ckt"] = "555"
        elif how == "short":
            r["cols"] = rng.randint(2, req - 1)
        elif how.startswith("demand") and f["dmds"]:
            x = rng.choice(f["dmds"])
            x["s" if how.endswith("src") else "d"] = "nowhere"
        elif how.startswith("lsp") and f["lsps"]:
            x = rng.choice(f["lsps"])
            x["s" if how.endswith("src") else "d"] = "nowhere"
        elif how == "self":
            k = rng.choice(["ifs", "dmds", "lsps"])
            if k != "ifs" and f[k]:
                x = rng.choice(f[k])
                x["d"] = x["s"]
                continue
            f["ifs"] += [dict(r, remote=r["node"], name=n, ckt="888") for n in rng.choice([["s1", "s2"], ["s1", "s1"], ["s1"]])]
        elif how == "cap":
            r["cap"] += 1
        elif how == "parallel":
            k = dict(rng.choice(f["ifs"]))
            a = dict(k, name="pl1", ckt="888")
            f["ifs"] += [a, dict(a, node=k["remote"], remote=k["node"], name="pl2")]
    return f


def history(spec):
    rng = random.Random(spec["seed"])
    steps = [{"ev": {"op": "init"}, "out": "ok"}]
    fd, path = tempfile.mkstemp(suffix=".csv")
    os.close(fd)
    try:
        if "files" in spec:
            for f in spec["files"]:
                steps.append(load(f, path))
        else:
            for _ in range(spec["len"]):
                steps.append(load(make(rng, gen.Profile(**spec["profile"])), path, rng, rng.random() < .15))
    finally:
        os.unlink(path)
    return {"id": spec["id"], "exact": False, "steps": steps, "spec": spec}
