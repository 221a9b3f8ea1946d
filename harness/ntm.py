"""Drives the real pyNTM and projects it, through its public interface, onto the state of the specification."""
import contextlib
import io
import os
import pprint
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

from pyNTM import FlexModel, Model, Parallel_Link_Model, PerformanceModel, RSVP_LSP  # noqa: E402
from pyNTM.demand import Demand  # noqa: E402
from pyNTM.interface import Interface  # noqa: E402
from pyNTM.node import Node  # noqa: E402

CLS = {"flex": FlexModel, "perf": PerformanceModel}
LEGACY = {"flex": Parallel_Link_Model, "perf": Model}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def num(x):
    """tenths -> the number a user would write"""
    return x // 10 if x % 10 == 0 else x / 10


def tenths(x):
    return int(round(x * 10))


def exactly(x):
    """a number of tenths, or what no specification has"""
    t = round(x * 10)
    return t if abs(x * 10 - t) < 1e-6 else -7


def milli(x):
    if isinstance(x, bool):
        return -99999
    if isinstance(x, (int, float)):
        return int(round(x * 1000))
    return -1


def attempt(f, *a, **kw):
    """outcome of a call: (ok or name of the exception, value)"""
    try:
        with quiet():
            return "ok", f(*a, **kw)
    except RecursionError:
        return "RecursionError", None
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, None


def if_id(i):
    return "%s::%s" % (i.node_object.name, i.name)


def lsp_id(x):
    return "L:%s>%s>%s" % (x.source_node_object.name, x.dest_node_object.name, x.lsp_name)


def dmd_id(x):
    return "D:%s>%s>%s" % (x.source_node_object.name, x.dest_node_object.name, x.name)


def item_id(x):
    if isinstance(x, Interface):
        return if_id(x)
    if isinstance(x, RSVP_LSP):
        return lsp_id(x)
    return "?%s" % type(x).__name__


def place(at):
    return [float(x) if "." in x else int(x) for x in at.split(",")]


def new_node(name, at):
    lat, lon = place(at)
    return Node(name, lat, lon) if lat and lon else Node(name, lat=lat) if lat else Node(name, lon=lon) if lon else Node(name)


class M:
    """a real model under test"""

    def __init__(self, kind, model=None, observe_mm=True):
        self.kind = kind
        self.model = model if model is not None else CLS[kind]()
        self.observe_mm = observe_mm

    # ---- construction from a configuration of the specification ----
    @classmethod
    def build(cls, cfg, observe_mm=True, order=None, intckt=False, legacy=False):
        """A model made directly from a configuration, failures last."""
        kind = cfg["kind"]
        shuffle = order.shuffle if order else (lambda s: None)

        def items(d):
            r = list(d.items())
            shuffle(r)
            return r

        brief = order is None or order.random() < .5     # what has its default value is not given
        nodes = {}
        for n, v in items(cfg["nodes"]):
            nodes[n] = new_node(n, v["at"])
            if v["sc"]:
                nodes[n].igp_shortcuts_enabled = True
        ints = set()
        for _, v in items(cfg["ifs"]):
            ckt = v["ckt"]
            kw = {} if kind == "perf" and brief else {"circuit_id": None if kind == "perf" else int(ckt) if intckt else ckt}
            if not v["rsvp"] or not brief:
                kw["rsvp_enabled"] = v["rsvp"]
            if v["pct"] != 100 or not brief:
                kw["percent_reservable_bandwidth"] = v["pct"]
            ints.add(Interface(v["name"], v["cost"], num(v["cap"]), nodes[v["node"]], nodes[v["remote"]], **kw))
        dmds = set()
        for _, v in items(cfg["dmds"]):
            kw = {}
            if v["traf"] != 0 or not brief:
                kw["traffic"] = num(v["traf"])
            if v["name"] != "none" or not brief:
                kw["name"] = v["name"]
            dmds.add(Demand(nodes[v["src"]], nodes[v["dst"]], **kw))
        lsps = set()
        for _, v in items(cfg["lsps"]):
            kw = {}
            if v["cfg"] >= 0:
                kw["configured_setup_bandwidth"] = num(v["cfg"])
            if v["mm"] > 0:
                kw["configured_manual_metric"] = v["mm"]
            if v["name"] != "none" or not brief:
                kw["lsp_name"] = v["name"]
            lsps.add(RSVP_LSP(nodes[v["src"]], nodes[v["dst"]], **kw))
        with quiet():
            model = (LEGACY if legacy else CLS)[kind](ints, set(nodes.values()), dmds, lsps)
            m = cls(kind, model, observe_mm)
            m.intckt = intckt
            model.validate_model()
            for g, _ in items(cfg["srlgs"]):
                model.add_srlg(g)
            for n, v in items(cfg["nodes"]):
                for g in v["srlgs"]:
                    model.get_node_object(n).add_to_srlg(g, model)
            for _, v in items(cfg["ifs"]):
                for g in v["srlgs"]:
                    model.get_interface_object(v["name"], v["node"]).add_to_srlg(g, model)
            for g, v in items(cfg["srlgs"]):
                if v["failed"]:
                    model.fail_srlg(g)
            for n, v in items(cfg["nodes"]):
                if v["failed"]:
                    model.fail_node(n)
            for _, v in items(cfg["ifs"]):
                if v["failed"]:
                    model.fail_interface(v["name"], v["node"])
        return m

    # ---- lookups used by the driver itself (not the calls under test) ----
    def node(self, n):
        return next((x for x in self.model.node_objects if x.name == n), None)

    def intf(self, i):
        n, name = i.split("::")
        return next((x for x in self.model.interface_objects
                     if x.name == name and x.node_object.name == n), None)

    def lsp(self, k):
        return next((x for x in self.model.rsvp_lsp_objects if lsp_id(x) == k), None)

    def dmd(self, k):
        return next((x for x in self.model.demand_objects if dmd_id(x) == k), None)

    def ckt(self, c):
        return int(c) if getattr(self, "intckt", False) else c

    # ---- calls ----
    def apply(self, ev):
        return attempt(self._apply, ev)[0]

    def _apply(self, ev):
        m, op = self.model, ev["op"]
        if op in ("fail_if", "unfail_if"):
            n, name = ev["i"].split("::")
            if op == "fail_if":
                m.fail_interface(name, n)
            elif ev["raise"]:
                m.unfail_interface(name, n, True)
            else:
                m.unfail_interface(name, n)
        elif op == "if_fail":
            self.intf(ev["i"]).fail_interface(m)
        elif op == "if_unfail":
            self.intf(ev["i"]).unfail_interface(m)
        elif op == "half_if":
            self.intf(ev["i"]).failed = ev["v"]
            m.validate_model()
        elif op == "fail_node":
            m.fail_node(ev["n"])
        elif op == "unfail_node":
            m.unfail_node(ev["n"])
        elif op == "fail_srlg":
            m.fail_srlg(ev["g"])
        elif op == "unfail_srlg":
            m.unfail_srlg(ev["g"])
        elif op == "add_srlg":
            m.add_srlg(ev["g"])
        elif op == "node_join":
            if ev["create"]:
                self.node(ev["n"]).add_to_srlg(ev["g"], m, create_if_not_present=True)
            else:
                self.node(ev["n"]).add_to_srlg(ev["g"], m)
        elif op == "node_leave":
            self.node(ev["n"]).remove_from_srlg(ev["g"], m)
        elif op == "if_join":
            if ev["create"]:
                self.intf(ev["i"]).add_to_srlg(ev["g"], m, create_if_not_present=True)
            else:
                self.intf(ev["i"]).add_to_srlg(ev["g"], m)
        elif op == "if_leave":
            self.intf(ev["i"]).remove_from_srlg(ev["g"], m)
        elif op == "add_node":
            m.add_node(new_node(ev["n"], ev["at"]))
        elif op == "add_circuit":
            # what has its default value need not be given
            kw = {k: v for k, v, default in (("cost_intf_a", ev["ca"], 1), ("cost_intf_b", ev["cb"], 1),
                                             ("capacity", num(ev["cap"]), 1000), ("failed", ev["failed"], False))
                  if v != default or ev.get("explicit")}
            if self.kind == "flex" and ev["ckt"] != "":
                kw["circuit_id"] = self.ckt(ev["ckt"])
            m.add_circuit(self.node(ev["a"]), self.node(ev["b"]), ev["na"], ev["nb"], **kw)
        elif op == "add_list":
            rows = []
            for c in ev["list"]:
                for (a, b, n, cost, f, cap) in ((c["a"], c["b"], c["na"], c["ca"], c["fa"], c["cap"]),
                                                (c["b"], c["a"], c["nb"], c["cb"], c["fb"], c["capb"])):
                    row = {"name": n, "cost": cost, "capacity": num(cap), "node": a, "remote_node": b,
                           "circuit_id": self.ckt(c["ckt"])}
                    if f or c.get("explicit"):
                        row["failed"] = f
                    if not (c["half"] and n == c["nb"] and a == c["b"]):
                        rows.append(row)
            m.add_network_interfaces_from_list(rows)
        elif op == "add_demand":
            kw = {} if ev["name"] == "none" else {"name": ev["name"]}
            if ev["traf"] != 0:
                kw["traffic"] = num(ev["traf"])
            m.add_demand(ev["s"], ev["d"], **kw)
        elif op == "add_lsp":
            m.add_rsvp_lsp(ev["s"], ev["d"], ev["name"])
        elif op == "del_demand":
            m.demand_objects.discard(self.dmd(ev["id"]))
        elif op == "del_lsp":
            m.rsvp_lsp_objects.discard(self.lsp(ev["id"]))
        elif op == "rename":
            m.change_interface_name(ev["n"], ev["old"], ev["new"])
        elif op == "set_cost":
            self.intf(ev["i"]).cost = {-2: 2.5}.get(ev["v"], ev["v"])
        elif op == "set_cap":
            i = self.intf(ev["i"])
            j = i.get_remote_interface(m)
            i.capacity = j.capacity = num(ev["v"])
        elif op == "set_rsvp":
            self.intf(ev["i"]).rsvp_enabled = ev["v"]
        elif op == "set_pct":
            self.intf(ev["i"]).percent_reservable_bandwidth = ev["v"]
        elif op == "set_traffic":
            self.dmd(ev["id"]).traffic = num(ev["v"])
        elif op == "set_sc":
            self.node(ev["n"]).igp_shortcuts_enabled = str(ev["v"]) if ev.get("text") else ev["v"]
        elif op == "set_at":
            self.node(ev["n"]).lat, self.node(ev["n"]).lon = place(ev["v"])
        elif op == "set_cfg":
            self.lsp(ev["id"]).configured_setup_bandwidth = None if ev["v"] < 0 else num(ev["v"])
        elif op == "set_metric":
            v = ev["v"]
            self.lsp(ev["id"]).manual_metric = {-2: 2.5, -3: "7"}.get(v, v)
        elif op == "bad":
            self.illegal(ev)
        elif op == "sim":
            m.update_simulation()
        elif op == "validate":
            m.validate_model()
        elif op in ("read", "init"):
            pass
        else:
            raise AssertionError("unknown event " + op)

    def illegal(self, ev):
        """give an attribute a value that it must not take"""
        what, attr, v = ev["what"], ev["attr"], {"float": 2.5, "text": "x", "none": None, "zero": 0, "one": 1,
                                                 "minus": -1, "list": []}[ev["v"]]
        if what == "demand":
            Demand(self.node(ev["id"]), Node("new"), v)
        elif what == "newnode":
            Node("new", **{attr: v})
        elif what == "newif":
            n = self.node(ev["id"])
            args = dict(cost=1, capacity=1, node_object=n, remote_node_object=n if attr == "self" else Node("new"))
            if attr != "self":
                args[attr] = v
            Interface("new", **args)
        elif what == "newlsp":
            RSVP_LSP(self.node(ev["id"]), Node("new"), configured_manual_metric="5" if v == "x" else v).manual_metric
        elif what == "unfail":
            n, name = ev["id"].split("::")
            self.model.unfail_interface(name, n, v)
        elif what == "srlg":
            setattr(next(g for g in self.model.srlg_objects if g.name == ev["id"]), attr, v)
        else:
            setattr({"if": self.intf, "node": self.node, "lsp": self.lsp}[what](ev["id"]), attr, v)

    # ---- projections ----
    def cfg(self):
        m = self.model
        nodes = {n.name: {"failed": n.failed is True, "sc": n.igp_shortcuts_enabled is True,
                          "srlgs": sorted(g.name for g in n.srlgs), "at": "%r,%r" % (n.lat, n.lon)}
                 for n in m.node_objects}
        ifs = {}
        for i in m.interface_objects:
            ifs[if_id(i)] = {
                "name": i.name, "node": i.node_object.name, "remote": i.remote_node_object.name,
                "ckt": "" if self.kind == "perf" else str(i.circuit_id),
                "cost": i.cost, "cap": exactly(i.capacity),
                "rsvp": i.rsvp_enabled is True, "pct": int(i.percent_reservable_bandwidth),
                "failed": i.failed is True,
                "srlgs": sorted(g.name for g in i.srlgs)}
        lsps = {}
        for x in m.rsvp_lsp_objects:
            mm = -2
            if self.observe_mm:
                mm = x.manual_metric
                mm = 0 if mm == "not set" else mm if isinstance(mm, int) else -9
            c = x.configured_setup_bandwidth
            lsps[lsp_id(x)] = {"src": x.source_node_object.name, "dst": x.dest_node_object.name,
                               "name": x.lsp_name, "cfg": -1 if c is None else tenths(c), "mm": mm}
        dmds = {dmd_id(x): {"src": x.source_node_object.name, "dst": x.dest_node_object.name,
                            "name": x.name, "traf": tenths(x.traffic)} for x in m.demand_objects}
        # objects that a map by name cannot show
        dup = (len(m.node_objects) - len(nodes)) + (len(m.interface_objects) - len(ifs)) \
            + (len(m.rsvp_lsp_objects) - len(lsps)) + (len(m.demand_objects) - len(dmds))
        if dup:
            nodes["?duplicates"] = {"failed": False, "sc": False, "srlgs": [], "at": ""}
        return {"kind": self.kind, "nodes": nodes, "ifs": ifs, "dmds": dmds, "lsps": lsps,
                "srlgs": {g.name: {"failed": g.failed is True} for g in m.srlg_objects}}

    def rable(self):
        return {if_id(i): milli(i.reservable_bandwidth) for i in self.model.interface_objects}

    def result(self):
        m = self.model
        ifs = {}
        for i in m.interface_objects:
            u = i.utilization
            ifs[if_id(i)] = {
                "traf": milli(i.traffic), "util": int(round(u * 100)) if isinstance(u, (int, float)) else -1,
                "resv": milli(i.reserved_bandwidth), "rable": milli(i.reservable_bandwidth)}
        lsps = {}
        for x in m.rsvp_lsp_objects:
            routed = isinstance(x.path, dict)
            lsps[lsp_id(x)] = {
                "routed": routed,
                "path": [item_id(i) for i in x.path["interfaces"]] if routed else [],
                "cost": x.path["path_cost"] if routed else -1,
                "base": milli(x.path["baseline_path_reservable_bw"]) if routed else -1,
                "resv": milli(x.reserved_bandwidth), "setup": milli(x.setup_bandwidth),
                "em": self.em(x)}
        dmds = {}
        for d in m.demand_objects:
            dmds[dmd_id(d)] = self.dmd_result(d)
        return {"ifs": ifs, "dmds": dmds, "lsps": lsps}

    def em(self, x):
        e = x.effective_metric(self.model)
        return e if isinstance(e, int) and not isinstance(e, bool) else -1 if e == "Unrouted" else -9

    @staticmethod
    def dmd_result(d):
        routed = not isinstance(d.path, str)
        det, pd = [], d.path_detail
        hasdet = isinstance(pd, dict)
        if hasdet:
            for e in pd.values():
                items = e["items"] if "items" in e else e["interfaces"]
                sp = {item_id(x): int(v) for x, v in e["splits"].items()} if "splits" in e else {}
                det.append({"items": [item_id(x) for x in items], "traf": milli(e["path_traffic"]),
                            "hassp": "splits" in e, "sp": sp, "key": "items" if "items" in e else "interfaces"})
        return {"routed": routed, "paths": [[item_id(x) for x in p] for p in d.path] if routed else [],
                "hasdet": hasdet, "det": det}

    def signature(self):
        """Everything a reader of the model can see, as a string (reads without computing)."""
        m = self.model
        out = [self.kind, len(m.circuit_objects)]
        for n in sorted(m.node_objects, key=lambda n: n.name):
            out.append(("N", n.name, n.failed, n.lat, n.lon, n.igp_shortcuts_enabled,
                        sorted(g.name for g in n.srlgs)))
        for i in sorted(m.interface_objects, key=if_id):
            out.append(("I", if_id(i), i.remote_node_object.name, str(i.circuit_id), i.cost, i.capacity,
                        i.rsvp_enabled, i.percent_reservable_bandwidth, i.failed, i.traffic,
                        i.reserved_bandwidth, sorted(g.name for g in i.srlgs)))
        for x in sorted(m.rsvp_lsp_objects, key=lsp_id):
            p = x.path if isinstance(x.path, str) else (
                [item_id(i) for i in x.path["interfaces"]], x.path["path_cost"],
                x.path["baseline_path_reservable_bw"])
            out.append(("L", lsp_id(x), p, x.reserved_bandwidth, x.setup_bandwidth,
                        x.configured_setup_bandwidth))
        for d in sorted(m.demand_objects, key=dmd_id):
            p = d.path if isinstance(d.path, str) else sorted([item_id(x) for x in q] for q in d.path)
            pd = d.path_detail
            if isinstance(pd, dict):
                pd = sorted((k, [item_id(x) for x in e.get("items", e.get("interfaces"))], e["path_traffic"])
                            for k, e in pd.items())
            out.append(("D", dmd_id(d), d.traffic, p, pd))
        for g in sorted(m.srlg_objects, key=lambda g: g.name):
            out.append(("G", g.name, g.failed, sorted(n.name for n in g.node_objects),
                        sorted(if_id(i) for i in g.interface_objects)))
        return repr(out)

    # ---- path queries ----
    def query(self, q):
        m = self.model
        before = self.signature()
        if q["q"] == "shortest":
            kw = {} if q["bw"] == 0 and not q.get("explicit") else {"needed_bw": q["bw"] / 1000}
            out, v = attempt(m.get_shortest_path, q["s"], q["d"], **kw)
        elif q["q"] == "all":
            kw = {"include_failed_circuits": q["incl"], "cutoff": None if q["cutoff"] == 99 else q["cutoff"]}
            if q["incl"] and not q["explicit"]:
                del kw["include_failed_circuits"]
            if q["cutoff"] == 10 and not q["explicit"]:
                del kw["cutoff"]
            if q["bw"]:
                kw["needed_bw"] = q["bw"] / 1000
            out, v = attempt(m.get_all_paths_reservable_bw, q["s"], q["d"], **kw)
        else:
            x = self.lsp(q["l"])
            q = dict(q, held=[item_id(i) for i in x.path["interfaces"]], own=milli(x.reserved_bandwidth),
                     s=x.source_node_object.name, d=x.dest_node_object.name)
            out, v = attempt(m.get_shortest_path_for_routed_lsp, q["s"], q["d"], x, q["bw"] / 1000)
        r = dict(q, out=out, paths=[], cost=-5, before=str(hash(before)), after=str(hash(self.signature())))
        if out == "ok":
            r["paths"] = [[item_id(i) for i in p] for p in v["path"]]
            c = v.get("cost")
            r["cost"] = -1 if c is None else int(c) if c == int(c) else -6
        return r

    # ---- printed displays ----
    def displays(self):
        m = self.model

        def printed(f):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                f()
            return buf.getvalue()

        def rows(f, objects):
            """(the object that a row is about, its last column) of every row but the heading"""
            names = {}
            for words, x in objects:
                names.setdefault(" ".join(" ".join(words).split()), []).append(x)
            out = []
            for line in printed(f).splitlines()[1:]:
                w = line.split()
                who = names.get(" ".join(w[:-1]), [])
                out.append([who.pop() if who else "?" + line, w[-1] if w else ""])
            return sorted(out)

        def number(x):
            try:
                return milli(float(x))
            except ValueError:
                return -1

        ifs = [((i.node_object.name, i.name, i.remote_node_object.name), if_id(i)) for i in m.interface_objects]
        told = {tuple(n.name.split()) for n in m.node_objects}
        if len(told) < len(m.node_objects) or len({tuple(" ".join(w).split()) for w, _ in ifs}) < len(ifs):
            return {}       # names that differ in blanks only, which rows of words do not show
        out = {"traf": {if_id(i): milli(i.traffic) for i in m.interface_objects},
               "npaths": {dmd_id(d): 0 if isinstance(d.path, str) else len(d.path) for d in m.demand_objects},
               "nodes": rows(m.display_node_status, [((n.name,), n.name) for n in m.node_objects]),
               "ifs": rows(m.display_interface_status, ifs),
               "traffic": [[i, number(t.strip("'"))] for i, t in rows(m.display_interfaces_traffic, ifs)]}
        text = {}
        for i in m.interface_objects:
            text.setdefault("".join(pprint.pformat(i).split()), []).append(if_id(i))
        out["objects"] = []
        for part in printed(m.display_interface_objects).split("\n\n"):
            if part.strip():
                who = text.get("".join(part.split()), [])
                out["objects"].append(who.pop() if who else "?" + part)
        dmds, shown = {str((d.source_node_object.name, d.dest_node_object.name, d.name)): d for d in m.demand_objects}, []
        for part in printed(m.display_demand_paths).split("demand._key is ")[1:]:
            head, _, rest = part.partition("\n")
            d = dmds.get(head)
            num, _, rest = rest.partition("\n")
            left = [] if d is None or isinstance(d.path, str) else ["".join(pprint.pformat(p).split()) for p in d.path]
            seen = ["".join(p.split()) for p in rest.split("\n\n") if p.strip()]
            shown.append({"d": head if d is None else dmd_id(d), "n": int(num.split()[2]),
                          "paths": len(seen), "same": sorted(seen) == sorted(left)})
        out["dmds"] = shown
        return out

    # ---- reports ----
    def reports(self):
        m = self.model
        ids = {Interface: if_id, RSVP_LSP: lsp_id, Demand: dmd_id, Node: lambda n: n.name}

        def names(xs):
            return sorted(ids[type(x)](x) for x in xs)

        with quiet():
            g = m.simulation_diagnostics()
            rep = {
                "ifs": {if_id(i): {"dm": names(i.demands(m)), "ls": names(i.lsps(m))}
                        for i in m.interface_objects},
                "lsps": {lsp_id(x): {"dm": names(x.demands_on_lsp(m)), "traf": milli(x.traffic_on_lsp(m)),
                                     "em": self.em(x),
                                     "tm": -1 if x.topology_metric(m) == "Unrouted" else x.topology_metric(m)}
                         for x in m.rsvp_lsp_objects},
                "unrouted": names(m.get_unrouted_demand_objects()),
                "fnodes": names(m.get_failed_node_objects()),
                "unodes": names(m.get_non_failed_node_objects()),
                "fifs": names(m.get_failed_interface_objects()),
                "uifs": names(m.get_unfailed_interface_objects()),
                "lgroups": {k: names(v) for k, v in m.parallel_lsp_groups().items()},
                "dgroups": {k: names(v) for k, v in m.parallel_demand_groups().items()},
                "bysrc": {n.name: names(m.get_demand_objects_source_node(n.name)) for n in m.node_objects},
                "bydst": {n.name: names(m.get_demand_objects_dest_node(n.name)) for n in m.node_objects},
                "orphans": names(m.get_orphan_node_objects()),
                "diag": {
                    "n_with": g["Number of routed LSPs carrying Demands"],
                    "n_without": g["Number of routed LSPs with no Demands"],
                    "n_riding": g["Number of Demands riding LSPs"],
                    "n_notriding": g["Number of Demands not riding LSPs"],
                    "n_unlsp": g["Number of unrouted LSPs"],
                    "n_undmd": g["Number of unrouted Demands"],
                    "with": names(g["routed LSPs with demands generator"]),
                    "without": names(g["routed LSPs with no demands generator"]),
                    "riding": names(g["demands riding LSPs generator"])}}
        return rep

    # ---- lookups ----
    def lookups(self):
        m = self.model

        def get(f, *a, **kw):
            out, v = attempt(f, *a, **kw)
            return v if out == "ok" else None

        def nm(f, x):
            return "?" if x is None else f(x)

        ifs, nodes = {}, {}
        for i in m.interface_objects:
            o = get(m.get_interface_object, i.name, i.node_object.name)
            c = get(i.get_circuit_object, m)
            c2 = get(m.get_circuit_object_from_interface, i.name, i.node_object.name)
            ifs[if_id(i)] = {
                "self": nm(if_id, o), "remote": nm(if_id, get(i.get_remote_interface, m)),
                "ckt": sorted(if_id(j) for j in c.get_circuit_interfaces(m)) if c else [],
                "ckt2": sorted(if_id(j) for j in (c2.interface_a, c2.interface_b)) if c2 else [],
                "cktfailed": bool(c.failed(m)) if c else False,
                "cktid": bool(c) and c.circuit_id() == i.circuit_id}
        for n in m.node_objects:
            nodes[n.name] = {
                "self": nm(lambda x: x.name, get(m.get_node_object, n.name)),
                "ifs": sorted(if_id(i) for i in n.interfaces(m)),
                "ifs2": sorted(if_id(i) for i in m.get_node_interfaces(n.name)),
                "adj": sorted(x.name for x in n.adjacent_nodes(m)), "orphan": m.is_node_an_orphan(n)}
        between = []
        for a in m.node_objects:
            for b in m.node_objects:
                if a is not b:
                    v = get(m.get_interface_object_from_nodes, a.name, b.name)
                    v = v if isinstance(v, list) else [] if v is None else [v]
                    between.append({"a": a.name, "b": b.name, "ifs": sorted(if_id(i) for i in v)})
        if self.kind == "flex":
            for i in m.interface_objects:
                v = get(m.get_interface_object_from_nodes, i.node_object.name, i.remote_node_object.name,
                        i.circuit_id)
                if not (isinstance(v, list) and [if_id(x) for x in v] == [if_id(i)]):
                    between.append({"a": i.node_object.name, "b": "circuit " + str(i.circuit_id),
                                    "ifs": ["?"] + ["x"] * len(v or [])})
        absent = []
        names = sorted(n.name for n in m.node_objects)
        n0 = names[0] if names else "no-node"
        n1 = names[-1] if names else "no-node"
        for f, a in ((m.get_node_object, ("no-node",)), (m.get_interface_object, ("no-if", n0)),
                     (m.get_interface_object, ("no-if", "no-node")), (m.get_demand_object, (n0, n1, "no-dmd")),
                     (m.get_demand_object, ("no-node", n1, "none")), (m.get_rsvp_lsp, (n0, n1, "no-lsp")),
                     (m.get_rsvp_lsp, ("no-node", n1, "none")), (m.get_srlg_object, ("no-srlg",)),
                     (m.get_circuit_object_from_interface, ("no-if", n0))):
            absent.append({"f": f.__name__, "a": list(a), "out": attempt(f, *a)[0]})
        out, v = attempt(m.get_srlg_object, "no-srlg", raise_exception=False)
        if out != "ok" or v is not None:
            absent.append({"f": "get_srlg_object quiet", "a": [], "out": "ok"})
        return {
            "ifs": ifs, "nodes": nodes, "between": between, "absent": absent,
            "ncircuits": len(m.circuit_objects), "cktids": sorted(str(c) for c in m.all_interface_circuit_ids),
            "dmds": {dmd_id(d): nm(dmd_id, get(m.get_demand_object, d.source_node_object.name,
                                               d.dest_node_object.name, *([] if d.name == "none" else [d.name])))
                     for d in m.demand_objects},
            "lsps": {lsp_id(x): nm(lsp_id, get(m.get_rsvp_lsp, x.source_node_object.name,
                                               x.dest_node_object.name, *([] if x.lsp_name == "none" else [x.lsp_name])))
                     for x in m.rsvp_lsp_objects},
            "srlgs": {g.name: {"self": nm(lambda x: x.name, get(m.get_srlg_object, g.name)),
                               "nodes": sorted(n.name for n in g.node_objects),
                               "ifs": sorted(if_id(i) for i in g.interface_objects)} for g in m.srlg_objects},
            "repr": attempt(lambda: [repr(x) for s in (m.node_objects, m.interface_objects, m.demand_objects,
                                                       m.rsvp_lsp_objects, m.srlg_objects,
                                                       m.circuit_objects) for x in s] + [repr(m)])[0]}
