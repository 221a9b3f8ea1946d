"""P19: the weather map of a simulated model, and sessions of a user with it."""
import json
import math
import random
import re

import dash
from pyNTM.weathermap import WeatherMap

import gen
import ntm
import record

LISTS = {"find-demands-callback": "d", "interface-demand-callback": "d", "lsp-demand-callback": "d",
         "find-lsps-callback": "l", "interface-lsp-callback": "l", "demand-path-lsps": "l",
         "interfaces-on-node": "i", "demand-path-interfaces": "i", "lsp-interface-callback": "i"}
TITLE = {"d": "selected-demand-output", "l": "selected-lsp-output", "i": "selected-interface-output"}
CLEAR = {"d": "clear-dmd-button", "l": "clear-lsp-button", "i": "clear-int-button"}
DEMAND_IN = ["interface-demand-callback", "find-demands-callback", "lsp-demand-callback"]
LSP_IN = ["demand-path-lsps", "find-lsps-callback", "interface-lsp-callback"]
IF_IN = ["demand-path-interfaces", "interfaces-on-node", "lsp-interface-callback"]
PROBES = [0, 0.4, 10, 24, 24.01, 24.99, 25, 30.5, 49, 49.5, 49.999, 50, 60, 74, 74.9, 75, 89, 89.01, 90, 95, 99, 99.5,
          99.999, 100, 100.01, 101, 250, 1000.5]


def start(model):
    w = WeatherMap(model)
    w.app.run_server = lambda *a, **k: None
    with ntm.quiet():
        w.create_weathermap()
    return w


class Page:
    """the browser: keeps the values of the components and calls the callbacks"""

    def __init__(self, w):
        self.w = w
        self.client = w.app.server.test_client()
        self.val = {}
        for out, cb in w.app.callback_map.items():
            for i in cb["inputs"]:
                self.val.setdefault((i["id"], i["property"]), None)
        for k in self.val:
            if k[1] == "n_clicks":
                self.val[k] = 0
        self.val["utilization-dropdown-callback", "value"] = [x["value"] for x in w.utilization_display_info()]

    def call(self, out, changed):
        """run one callback; returns outcome"""
        cb = self.w.app.callback_map[out]
        ids = [o.split(".") for o in (out.strip(".").split("...") if out.startswith("..") else [out])]
        outs = [{"id": i, "property": p} for i, p in ids]
        body = {"output": out, "outputs": outs if out.startswith("..") else outs[0],
                "inputs": [{"id": i["id"], "property": i["property"], "value": self.val[i["id"], i["property"]]}
                           for i in cb["inputs"]],
                "changedPropIds": changed, "state": []}
        with ntm.quiet():
            try:
                r = self.client.post("/_dash-update-component", json=body)
            except Exception as e:  # noqa: BLE001
                return type(e).__name__
        if r.status_code == 204:
            return "no update"
        if r.status_code != 200:
            return "error"
        data = json.loads(r.get_data())["response"]
        new = []
        for i, props in data.items():
            for p, v in props.items():
                self.val[i, p] = v
                new.append("%s.%s" % (i, p))
        self.fresh += new
        return "ok"

    def cascade(self, changed):
        """what the browser does after some values changed"""
        res = {}
        for _ in range(6):
            self.fresh = []
            for out, cb in self.w.app.callback_map.items():
                mine = [c for c in changed if c in {"%s.%s" % (i["id"], i["property"]) for i in cb["inputs"]}]
                if mine:
                    res[out] = self.call(out, mine)
            changed = self.fresh
            if not changed:
                break
        return res

    def load(self):
        self.fresh = []
        return {out: self.call(out, []) for out in self.w.app.callback_map}

    def set(self, comp, prop, v):
        self.val[comp, prop] = v
        return self.cascade(["%s.%s" % (comp, prop)])


def item(kind, o, model):
    """an option of a list -> what it stands for"""
    v = o["value"]
    if v == "" or not isinstance(v, str) or not v.startswith("{"):
        return None
    v = json.loads(v)
    if kind == "i":
        i = {"id": "%s::%s" % (v["source"], v["interface-name"]), "dest": v["dest"], "ckt": str(v["circuit_id"]),
             "cost": v["cost"]}
        obj = next((x for x in model.interface_objects if ntm.if_id(x) == i["id"]), None)
    else:
        i = {"id": "%s:%s>%s>%s" % ("L" if kind == "l" else "D", v["source"], v["dest"], v["name"])}
        objs = model.rsvp_lsp_objects if kind == "l" else model.demand_objects
        f = ntm.lsp_id if kind == "l" else ntm.dmd_id
        obj = next((x for x in objs if f(x) == i["id"]), None)
    i["label"] = obj is not None and o["label"] == repr(obj)
    return i


def lists(page):
    """everything that is offered for selection"""
    out = {}
    for comp, kind in LISTS.items():
        ops = page.val.get((comp, "options")) or []
        got = [item(kind, o, page.w.model) for o in ops]
        out[comp] = [g for g in got if g is not None]
    return out


def clears(page):
    """how many entries of a list of objects take the selection back"""
    out = {}
    for comp in LISTS:
        ops = page.val.get((comp, "options")) or []
        out[comp] = sum(o["value"] == "" for o in ops)
    return out


def names(page, comp):
    ops = page.val.get((comp, "options")) or []
    return [o["value"] for o in ops if o["label"] == o["value"]]


def selected(page):
    r = {}
    for kind, comp in TITLE.items():
        v = json.loads(page.val[comp, "children"])
        s = {"id": "", "routed": False, "dest": "", "ckt": "", "util": -9, "cost": -1}
        if kind == "i":
            if "interface-name" in v:
                u = v["utilization %"]
                s.update(id="%s::%s" % (v["source"], v["interface-name"]), dest=v["dest"], ckt=str(v["circuit_id"]),
                         cost=v["cost"], util=int(round(u * 100)) if not isinstance(u, str) else -1)
        elif "name" in v:
            s.update(id="%s:%s>%s>%s" % ("L" if kind == "l" else "D", v["source"], v["dest"], v["name"]),
                     routed=v["routed"])
        r[kind] = s
    return r


EDGE = re.compile(r'^edge\[circuit_id="(.*)"\]\[source="(.*)"\]$')
EDGE2 = re.compile(r'^edge\[source="(.*)"\]\[circuit_id="(.*)"\]$')
NODE = re.compile(r'^node\[id="(.*)"\]$')
GROUP = re.compile(r'^edge\[group="(.*)"\]$')


def style(page):
    """the highlights that the stylesheet adds to the default one"""
    w = page.w
    sheet = page.val["cytoscape-prototypes", "stylesheet"]
    n = len(w.default_stylesheet)
    r = {"base": sheet[:n] == w.default_stylesheet, "colors": [], "dedges": [], "dnodes": [], "ledges": [], "lnodes": [],
         "sedges": [], "other": 0}
    for e in sheet[n:]:
        s, st = e["selector"], e["style"]
        a, b, c, g = EDGE.match(s), EDGE2.match(s), NODE.match(s), GROUP.match(s)
        if g and st.get("opacity") == 1.0:
            r["colors"].append(g.group(1))
        elif a and st.get("target-arrow-shape") == "triangle":
            r["dedges"].append({"ckt": a.group(1), "n": a.group(2)})
        elif a and st.get("target-arrow-shape") == "chevron":
            r["ledges"].append({"ckt": a.group(1), "n": a.group(2)})
        elif a:
            pass        # the far halves of the edges
        elif b and st.get("line-style") == "dotted":
            r["sedges"].append({"ckt": b.group(2), "n": b.group(1)})
        elif c and "background-color" in st:
            r["dnodes"].append(c.group(1))
        elif c and "border-color" in st:
            r["lnodes"].append(c.group(1))
        else:
            r["other"] += 1
    return r


def num10(x):
    return int(round(x * 10))


def elements(w):
    nodes, mids, edges = [], [], []
    for e in w.create_elements():
        d = e["data"]
        if "source" in d:
            u = d["utilization"]
            down = isinstance(u, str)
            edges.append({"id": "%s::%s" % (d["source"], d["interface-name"]), "target": d["target"],
                          "ckt": str(d["circuit_id"]), "cap": ntm.exactly(d["capacity"]), "cost": d["cost"], "group": str(d["group"]),
                          "util": -1 if down else int(round(u * 100)), "pct": -1 if down else math.floor(u)})
        else:
            p = e["position"]
            v = {"id": d["id"], "label": d["label"], "x": num10(p["x"]), "y": num10(p["y"]), "failed": d["failed"] == "True"}
            if d["group"] == "midpoint":
                mids.append(dict(v, neighbors=d["neighbors"]))
            else:
                nodes.append(v)
    return {"nodes": nodes, "mids": mids, "edges": edges}


def data(w, rng):
    """the data functions of the map"""
    m = w.model
    ns = sorted(n.name for n in m.node_objects)
    dmds = sorted(m.demand_objects, key=ntm.dmd_id)
    sub = [d for d in dmds if rng.random() < .5]
    ints, lsps = w.find_demand_interfaces_and_lsps(sub)
    routed = [x for x in m.rsvp_lsp_objects if isinstance(x.path, dict)]
    lspdata = {}
    for x in routed:
        a, b = w.get_lsp_interface_data(m, {"source": x.source_node_object.name, "dest": x.dest_node_object.name,
                                            "name": x.lsp_name})
        lspdata[ntm.lsp_id(x)] = {"ifs": [ntm.if_id(i) for i in a], "nodes": sorted(b)}
    probes = []
    for u in PROBES:
        e = w.make_json_edge("a", "b", "e", 10, "1", u, w.util_ranges, 5)
        probes.append({"pct": math.floor(u), "group": str(e["data"]["group"])})
    e = w.make_json_edge("a", "b", "e", 10, "1", "Int is down", w.util_ranges, 5)
    probes.append({"pct": -1, "group": str(e["data"]["group"])})
    return {
        "els": elements(w), "legend": {x["label"]: x["value"] for x in w.utilization_display_info()},
        "legend2": {x["label"]: x["value"] for x in w.util_display_options}, "probes": probes,
        "nodes": [x["value"] for x in w.make_node_list()],
        "src": {n: {t: w.get_sources(n, t) for t in ("demand", "lsp")} for n in ns},
        "dst": {n: {t: w.get_destinations(n, t) for t in ("demand", "lsp")} for n in ns},
        "allsd": dict(zip(("ds", "dd"), w.demand_sources_and_destinations())),
        "allsl": dict(zip(("ls", "ld"), w.lsp_sources_and_destinations())),
        "sub": {"dmds": [ntm.dmd_id(d) for d in sub], "ifs": sorted(ntm.if_id(i) for i in ints),
                "lsps": sorted(ntm.lsp_id(x) for x in lsps)},
        "lspdata": lspdata}


def history(spec):
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    p = gen.Profile(**spec["profile"])
    cfg = gen.config(rng, p)
    for n in cfg["nodes"].values():
        n["at"] = "%d,%d" % ((rng.randint(-60, 60), rng.randint(-170, 170)) if rng.random() < .8 else (0, 0))
    m = ntm.M.build(cfg, True, None, rng.random() < .4)
    c = m.cfg()
    for _ in range(rng.choice([0, 0, 1, 2])):
        m.apply({"op": "sim"})
        ev = gen.event(rng, c, rng.choice(["fail_if", "fail_node", "fail_if", "set_cost"]), p, 0)
        if ev:
            m.apply(ev)
            c = m.cfg()
    out = m.apply({"op": "sim"})
    w = start(m.model)
    page = Page(w)
    pos = {n.name: {"x": num10(n.lon * w.spacing_factor), "y": num10(-n.lat * w.spacing_factor)}
           for n in m.model.node_objects}
    ckts = {ntm.if_id(i): str(i.circuit_id) for i in m.model.interface_objects}
    steps = []

    def note(ev, res):
        bad = sorted(k for k, v in res.items() if v not in ("ok", "no update"))
        steps.append({"ev": ev, "out": "ok" if not bad else "error", "bad": bad, "lists": lists(page), "clears": clears(page),
                      "sel": selected(page), "style": style(page),
                      "dd": {k: names(page, k) for k in ("demand-source-callback", "demand-destination-callback",
                                                         "lsp-source-callback", "lsp-destination-callback")}})

    tr = {"id": spec["id"], "spec": spec, "steps": steps, "cfg": c, "r": m.result(), "pos": pos, "ckts": ckts,
          "lay": [x["value"] for x in find(w.app.layout, "find-node").options], "sim": out,
          "initial": page.val["utilization-dropdown-callback", "value"]}
    note({"op": "load"}, page.load())
    steps[0]["data"] = data(w, rng)
    before = m.signature()
    for _ in range(spec["len"]):
        op = rng.choice(["node", "dd", "dd", "pick", "pick", "pick", "pick", "edge", "edge", "clear", "colors"])
        if op == "node":
            n = rng.choice(sorted(c["nodes"]))
            note({"op": op, "n": n}, page.set("find-node", "value", n))
        elif op == "dd":
            t = rng.choice(["demand", "lsp"])
            side = rng.choice(["source", "destination"])
            comp = "%s-%s-callback" % (t, side)
            ops = names(page, comp)
            v = rng.choice(ops) if ops and rng.random() < .7 else None
            res = page.set(comp, "value", v)
            note({"op": op, "t": t, "s": page.val["%s-source-callback" % t, "value"] or "",
                  "d": page.val["%s-destination-callback" % t, "value"] or ""}, res)
        elif op == "pick":
            comp = rng.choice([k for k in LISTS if page.val.get((k, "options"))] or [None])
            if comp is None:
                continue
            ops = page.val[comp, "options"]
            o = rng.choice(ops)
            if page.val.get((comp, "value")) == o["value"]:
                continue        # picking the picked radio button again is no change
            got = item(LISTS[comp], o, m.model)
            none = o["value"].startswith("[")       # the "no demands on interface" entries
            res = page.set(comp, "value", o["value"])
            note({"op": op, "k": LISTS[comp], "id": got["id"] if got else "-" if none else "", "via": comp}, res)
        elif op == "edge":
            e = rng.choice([x["data"] for x in w.create_elements() if "source" in x["data"]] or [None])
            if e is None:
                continue
            v = [] if rng.random() < .15 else [dict(e, id="x")]
            res = page.set("cytoscape-prototypes", "selectedEdgeData", v)
            note({"op": op, "id": "%s::%s" % (e["source"], e["interface-name"]) if v else "-"}, res)
        elif op == "clear":
            k = rng.choice("dli")
            res = page.set(CLEAR[k], "n_clicks", page.val[CLEAR[k], "n_clicks"] + 1)
            note({"op": op, "k": k}, res)
        else:
            cs = [x["value"] for x in w.utilization_display_info() if rng.random() < .6]
            note({"op": op, "colors": cs}, page.set("utilization-dropdown-callback", "value", cs))
    tr["same"] = before == m.signature()
    return tr


def find(comp, i):
    """the component with id i in the layout"""
    if getattr(comp, "id", None) == i:
        return comp
    kids = getattr(comp, "children", None)
    for k in kids if isinstance(kids, (list, tuple)) else [kids]:
        r = find(k, i) if k is not None and not isinstance(k, str) else None
        if r is not None:
            return r
    return None


_ = dash, record
