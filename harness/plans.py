"""What each check runs: exhaustive models of the specification, and histories of the real code."""
import json
import random

import tlc

FAILW = {"fail_if": 4, "unfail_if": 4, "if_fail": 1, "if_unfail": 1, "fail_node": 3, "unfail_node": 3,
         "fail_srlg": 3, "unfail_srlg": 3, "add_srlg": 1, "node_join": 2, "node_leave": 2, "if_join": 2, "if_leave": 2}
SIMW = {"fail_if": 3, "unfail_if": 3, "fail_node": 1, "unfail_node": 1.5, "fail_srlg": 0.5, "unfail_srlg": 0.7,
        "set_cost": 2, "set_cap": 2, "set_rsvp": 1, "set_pct": 0.7, "set_traffic": 2, "set_sc": 1, "set_cfg": 1,
        "set_metric": 1.5, "add_demand": 1.5, "add_lsp": 1, "del_demand": 0.7, "del_lsp": 0.7, "add_circuit": 1,
        "add_node": 0.2, "add_list": 0.4, "bounce": 2, "swap_lsp": 1.5, "swap_demand": 0.7, "swap_if": 0.7, "swap_cost": 0.7}
EDITW = dict(add_list=2, rename=1, add_srlg=2)
ISOW = dict(FAILW, **EDITW)
ISOW.update(SIMW)
ISOW.pop("bounce")
ISOW.update(set_at=1, sim=8, validate=2, query=3, reports=2, add_node=4, add_circuit=6, add_demand=4, add_lsp=4)

PAIRW = dict(SIMW, **FAILW)
PAIRW.update(EDITW)
PAIRW.update(validate=1)
PAIRW.pop("bounce")

PROFILES = {
    # no LSPs: failure calls need no simulation in between
    "fail": dict(profile=dict(nodes=(3, 6), srlgs=(1, 3), dmds=(0, 2)), ops=dict(FAILW, half_if=1, add_circuit=1.5, add_node=.3,
                 add_list=.5), len=30, sim_first=False),
    "fail_lsp": dict(profile=dict(nodes=(3, 5), srlgs=(1, 2), lsps=(1, 4)), ops=dict(FAILW, add_circuit=.5), len=14,
                     sim_always=True),
    "edit": dict(profile=dict(nodes=(2, 5), srlgs=(0, 2), lsps=(0, 3)),
                 ops=dict(add_node=2, add_circuit=4, add_list=2, add_demand=3, add_lsp=3, del_demand=1, del_lsp=1,
                          rename=2, fail_node=1, unfail_node=1, fail_if=1, unfail_if=1, add_srlg=1, set_cost=1,
                          set_cap=1, set_at=.7, set_metric=.5, node_join=.5, if_join=.5, fail_srlg=.5, sim=2, bad=.7, set_sc=.3), len=18, odd=0.3),
    "edit_odd": dict(profile=dict(nodes=(2, 5), srlgs=(0, 2), lsps=(0, 3)),
                     ops=dict(add_node=3, add_circuit=5, add_list=3, add_demand=4, add_lsp=4, add_srlg=2, set_cost=1.5, set_cap=1.5,
                              set_metric=1, rename=.5, fail_node=.7, fail_if=.7, unfail_node=.5, del_lsp=.5,
                              node_join=.3, validate=.5, sim=1, bad=4, set_sc=.5), len=20, odd=0.55),
    "valid": dict(profile=dict(nodes=(3, 6), extra=(0, 3), dmds=(0, 3), srlgs=(0, 1)), len=7),
    "valid_lsp": dict(profile=dict(nodes=(3, 5), extra=(0, 3), dmds=(1, 3), lsps=(1, 4), srlgs=(0, 1)), len=6),
    "files": dict(profile=dict(nodes=(2, 6), extra=(0, 4), dmds=(0, 6), lsps=(0, 5), srlgs=(0, 0)), len=12),
    "iso": dict(profile=dict(nodes=(2, 5), extra=(0, 3), dmds=(0, 4), lsps=(0, 3), srlgs=(0, 2)), len=40,
                ops=dict(ISOW)),
    "iso_names": dict(profile=dict(nodes=(2, 3), extra=(0, 2), dmds=(0, 4), lsps=(0, 3), srlgs=(1, 2), styles=["letter"]),
                      len=40, ops=dict(ISOW)),
    "pair": dict(profile=dict(nodes=(3, 7), extra=(1, 6), dmds=(2, 7), norsvp=.15, ladder=.3, exact=False), len=10,
                 ops=dict(PAIRW)),
    "pair_lsp": dict(profile=dict(nodes=(3, 7), extra=(0, 4), ways=.4, dmds=(2, 6), lsps=(1, 5), groups=(1, 4),
                                  caps=[100, 250, 500], norsvp=.1, tie=.7, ranked=.7), len=8, reports=True, ops=dict(PAIRW)),
    "map_sc": dict(profile=dict(kinds=["flex"], nodes=(3, 7), extra=(0, 4), dmds=(1, 6), lsps=(2, 6), groups=(2, 5), srlgs=(0, 1),
                                sc=.6, on_lsps=.1, caps=[100, 250, 500], exact=False, isolated=0, ladder=.3), len=10),
    "map": dict(profile=dict(nodes=(2, 6), extra=(0, 5), dmds=(0, 7), lsps=(0, 6), groups=(1, 4), srlgs=(0, 1), sc=.1,
                             on_lsps=.5, caps=[10, 20, 30, 40, 60, 100, 250], exact=False), len=25),
    "igp": dict(profile=dict(nodes=(3, 7), extra=(1, 6), dmds=(2, 7), norsvp=.3, ladder=.35, exact=False),
                ops=SIMW, len=5, sim_always=True, batch=.3),
    "igp_one": dict(profile=dict(nodes=(3, 7), extra=(1, 6), dmds=(1, 1), norsvp=.3, ladder=.5, exact=False),
                    ops=SIMW, len=4, sim_always=True, batch=.3),
    # many equal-cost paths, some of them more than a router would take
    "wide": dict(profile=dict(nodes=(10, 19), extra=(0, 1), dmds=(1, 2), ladder=1, ends=.9, width=(2, 4), exact=False, tie=0,
                              costs=[[10], [1], [10], [500]], asym=.05, parallel=.7, norsvp=.02, pct=.02, isolated=0,
                              srlgs=(0, 0)), ops=SIMW, len=2, sim_always=True, batch=.2),
    "wide_sc": dict(profile=dict(kinds=["flex"], nodes=(7, 13), extra=(0, 2), dmds=(1, 3), ladder=1, ends=.9, width=(2, 3),
                                 exact=False, tie=.1, costs=[[10], [1], [10]], asym=.05, parallel=.5, norsvp=.02, pct=.02,
                                 isolated=0, srlgs=(0, 0), lsps=(1, 5), groups=(1, 4), on_lsps=.05, sc=.5, mm=.2,
                                 caps=[100, 250, 500]),
                    ops=dict(SIMW, set_sc=3, set_metric=3), len=2, sim_always=True, batch=.2),
    # long chains: paths of many hops
    "long": dict(profile=dict(nodes=(12, 17), extra=(0, 2), dmds=(1, 3), chain=1, ends=.7, isolated=0, tie=.6, norsvp=.05,
                              exact=False, srlgs=(0, 0)), ops=SIMW, len=2, sim_always=True, batch=.2),
    "long_lsp": dict(profile=dict(nodes=(12, 16), extra=(0, 2), dmds=(1, 3), chain=1, ends=.5, isolated=0, tie=.5, norsvp=.02,
                                  lsps=(1, 3), groups=(1, 2), on_lsps=.5, caps=[100, 250], srlgs=(0, 0)),
                     ops=SIMW, len=2, sim_always=True, batch=.2),
    # names of nodes that give ambiguous names to pairs of nodes
    "names": dict(profile=dict(nodes=(4, 7), extra=(2, 6), dmds=(2, 6), lsps=(0, 3), groups=(1, 3), norsvp=.1, exact=False,
                               styles=["clash"]), ops=SIMW, len=4, sim_always=True, batch=.3),
    # many LSPs in one group
    "lsp_many": dict(profile=dict(nodes=(2, 5), extra=(1, 5), dmds=(1, 4), lsps=(5, 11), groups=(1, 2), maxgroup=10,
                                  on_lsps=.9, caps=[10, 20, 30, 60, 100, 250], mm=.12, cfgbw=.2, exact=False),
                     ops=SIMW, len=3, sim_always=True, batch=.3),
    "mixed": dict(profile=dict(ways=.1, nodes=(3, 6), extra=(1, 5), dmds=(2, 7), lsps=(1, 6), norsvp=.1, exact=False, sc=.2,
                               ladder=.2), ops=SIMW, len=5, sim_always=True, batch=.3),
    "lsp": dict(profile=dict(ways=.15, nodes=(3, 6), extra=(1, 5), dmds=(2, 6), lsps=(2, 7), groups=(1, 3), on_lsps=.85,
                             caps=[10, 20, 30, 40, 60, 100]), ops=SIMW, len=5, sim_always=True, batch=.3),
    "lsp_tight": dict(profile=dict(nodes=(2, 5), extra=(1, 4), parallel=.6, dmds=(1, 4), lsps=(2, 6), groups=(1, 2),
                                   on_lsps=.95, caps=[10, 20, 30, 40], mm=.1, pct=.2),
                      ops=SIMW, len=5, sim_always=True, batch=.3),
    "metric": dict(profile=dict(nodes=(3, 5), extra=(1, 4), dmds=(2, 6), lsps=(2, 7), groups=(1, 3), on_lsps=.8,
                                caps=[100, 250], mm=.6, cfgbw=.1),
                   ops=dict(SIMW, set_metric=8, set_cost=4), len=7, sim_always=True, batch=.3, odd=.15),
    "shortcut": dict(profile=dict(kinds=["flex"], nodes=(4, 7), extra=(1, 5), dmds=(2, 6), lsps=(2, 7), groups=(2, 5),
                                  on_lsps=.15, caps=[100, 250, 500], mm=.35, sc=.6, hopeless=.12, ladder=.45, norsvp=.02, pct=0.02,
                                  exact=False, isolated=0),
                     ops=dict(SIMW, set_sc=3, set_metric=3), len=5, sim_always=True, batch=.2),
}

ASSUME = ["update_simulation is run after a change before the next call that validates, as documented",
          "names, costs, capacities and traffic are drawn from the generators in harness/gen.py"]


def spec(name, k, seed, want, pid, **over):
    s = dict(PROFILES[name])
    s.update(over)
    s["profile"] = dict(PROFILES[name]["profile"], **over.get("profile", {}))
    s["want"] = want
    s["seed"] = seed * 1000003 + k * 7919 + sum(map(ord, name)) * 31
    s["id"] = "%s-%s-%d" % (pid, name, k)
    return s


def many(pid, seed, want, counts, **over):
    out = []
    for name, n in counts.items():
        for k in range(n):
            o = dict(over)
            # some histories do not look at manual metrics before they are set
            o["mm"] = k % 3 != 2 or want.get("fresh", False)
            if name == "metric" and k % 6 == 2:
                o["sim_first"] = False
            if "look" in want and k % 3 == 1:      # calls without lookups between them
                o["want_look"] = .35
            o["intckt"] = k % 4 == 1
            o["legacy"] = k % 10 == 7
            w = dict(want, look=o.pop("want_look")) if "want_look" in o else want
            out.append(spec(name, k, seed, w, pid, **o))
    return out


# calls after which paths are asked for without a simulation in between
QOPS = ["fail_if", "unfail_if", "fail_node", "unfail_node", "fail_srlg", "unfail_srlg", "set_cost", "set_cap", "set_rsvp", "set_pct",
        "add_circuit", "add_list", "swap_if", "swap_cost"]

QUICK = {
    "P01": ({}, {"fail": 330, "fail_lsp": 70, "edit": 100}),
    "P02": ({}, {"fail": 390, "fail_lsp": 90}),
    "P03": ({"r": 1}, {"igp": 160, "igp_one": 40, "mixed": 60, "wide": 20, "long": 16, "names": 60}),
    "P04": ({"r": 1}, {"igp": 60, "igp_one": 60, "mixed": 60, "shortcut": 60, "wide": 20, "long": 10, "names": 20, "wide_sc": 16}),
    "P05": ({"r": 1}, {"igp": 60, "mixed": 80, "lsp": 40, "shortcut": 40, "lsp_many": 12, "wide": 20, "long": 10, "names": 20, "wide_sc": 10}),
    "P06": ({"r": 1}, {"lsp": 110, "lsp_tight": 110, "mixed": 60, "lsp_many": 36, "long_lsp": 12, "names": 24}),
    "P07": ({"r": 1}, {"lsp": 110, "lsp_tight": 110, "mixed": 90, "fail_lsp": 30, "lsp_many": 36, "names": 24}),
    "P08": ({"r": 1}, {"lsp": 110, "lsp_tight": 120, "mixed": 60, "lsp_many": 36, "names": 24}),
    "P09": ({"r": 1}, {"metric": 160, "lsp": 60, "mixed": 60, "lsp_many": 36, "long_lsp": 12}),
    "P10": ({"r": 1}, {"shortcut": 240, "wide_sc": 30}),
    "P11": ({"r": 1}, {"igp": 60, "mixed": 60, "lsp": 40, "shortcut": 60, "igp_one": 30, "wide": 20, "long": 8, "names": 20, "wide_sc": 12, "lsp_many": 16}),
    "P12": ({"r": 1, "fresh": 1}, {"igp": 120, "mixed": 120, "lsp": 130, "lsp_tight": 110, "shortcut": 80, "fail_lsp": 50,
                                   "metric": 60, "wide": 10, "long": 6, "names": 20, "lsp_many": 40, "wide_sc": 12}),
    "P13": ({"r": 1, "q": 6, "qops": QOPS}, {"igp": 60, "mixed": 60, "lsp": 60, "lsp_tight": 50, "wide": 8, "long": 14, "names": 20, "lsp_many": 16}),
    "P14": ({"r": 1, "rep": 1}, {"igp": 30, "mixed": 80, "lsp": 60, "shortcut": 60, "metric": 30, "fail_lsp": 30, "wide": 8, "long": 6, "names": 20, "lsp_many": 20, "wide_sc": 8}),
    "P15": ({}, {"edit_odd": 260}),
    "P20": ({"look": 1}, {"edit": 460}),
    "P21": ({"disp": 1}, {"mixed": 80, "lsp": 40, "shortcut": 40, "edit": 80, "fail_lsp": 40, "fail": 30, "metric": 40, "names": 10}),
}

# checks with drivers and trace modules of their own: (driver, module, profile name, histories)
OWN = {
    "P15": [("valid", "TraceValid", "valid", 120), ("valid", "TraceValid", "valid_lsp", 60)],
    "P17": [("iso", "TraceIso", "iso", 700), ("iso", "TraceIso", "iso_names", 500)],
    "P18": [("pair", "TracePair", "pair", 220), ("pair", "TracePair", "pair_lsp", 220)],
    "P19": [("wm", "TraceMap", "map", 270), ("wm", "TraceMap", "map_sc", 70)],
    "P16": [("loadfile", "TraceLoad", "files", 300)],
}
SCALE = {"quick": 1, "thorough": 8}


def hyphen_groups(kind):
    """LSPs a-b -> c and a -> b-c: their groups get the same name"""
    names = ["a", "a-b", "c", "b-c"]
    ifs = {}
    for k in range(4):
        x, y = names[k], names[(k + 1) % 4]
        for a, b in ((x, y), (y, x)):
            ifs["%s::to %s" % (a, b)] = {"name": "to " + b, "node": a, "remote": b, "ckt": str(k) if kind == "flex" else "", "cost": 10,
                                         "cap": 1000, "rsvp": True, "pct": 100, "failed": False, "srlgs": []}
    cfg = {"kind": kind, "srlgs": {}, "ifs": ifs, "dmds": {}, "lsps": {},
           "nodes": {n: {"failed": False, "sc": False, "srlgs": [], "at": "0,0"} for n in names}}
    for s, d in (("a-b", "c"), ("a", "b-c")):
        cfg["lsps"]["L:%s>%s>l" % (s, d)] = {"src": s, "dst": d, "name": "l", "cfg": -1, "mm": 0}
        cfg["dmds"]["D:%s>%s>d" % (s, d)] = {"src": s, "dst": d, "name": "d", "traf": 120}
    return cfg


# histories that once failed
FIXED = {p: [dict(id="hyphen-groups-" + k, cfg=k, events=[{"op": "sim"}], want=w) for k in ("flex", "perf")]
         for p, w in (("P06", {"r": 1}), ("P14", {"r": 1, "rep": 1}))}


def plan(prop, tier, seed):
    p = {"assumptions": ASSUME, "specs": [], "mc": [dict(m, seed=seed) for m in MC.get(prop, {}).get(tier, [])]}
    if prop in QUICK:
        want, counts = QUICK[prop]
        p["specs"] += many(prop, seed, want, {k: v * SCALE[tier] for k, v in counts.items()})
    for f in FIXED.get(prop, []):
        p["specs"].append(dict(f, cfg=hyphen_groups(f["cfg"]), seed=1, profile={}))
    for driver, module, name, n in OWN.get(prop, []):
        for k in range(n * SCALE[tier]):
            p["specs"].append(spec(name, k, seed, {}, prop, driver=driver, module=module))
    return p


CLAIMED = sorted(set(QUICK) | set(OWN))


def cases(text, tag="CASE"):
    out = []
    for line in text.splitlines():
        if line.startswith('"%s ' % tag):
            out.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return out


def run_mc(mc, tier, tmp):
    """one exhaustive model of the specification; its printed cases become histories of the real code"""
    r = tlc.Run(mc["module"], mc["config"], mc.get("env"), workers=4, mem="6g", timeout=mc.get("timeout", 800)).wait()
    res = {"generated": r.generated, "distinct": r.distinct, "specs": [], "error": None,
           "info": {"model": mc["config"], "states": r.distinct, "transitions": r.generated, "exhaustive": r.ok}}
    if not r.ok:
        res["error"] = mc["config"] + ": " + r.text[-1500:]
        return res
    if "convert" in mc:
        res["specs"] = mc["convert"](mc, r.text)
        res["info"]["histories"] = len(res["specs"])
    return res


def valid_cases(mc, text):
    ms = cases(text)
    return [{"id": "P15-all-%s-%d" % (mc["config"][:-4], k), "seed": k, "models": ms[k * 60:k * 60 + 60],
             "driver": "valid", "module": "TraceValid"} for k in range((len(ms) + 59) // 60)]


def load_cases(mc, text):
    fs = cases(text)
    n = 80
    return [{"id": "P16-all-%s-%d" % (mc["config"][:-4], k), "seed": k, "files": fs[k * n:k * n + n],
             "driver": "loadfile", "module": "TraceLoad"} for k in range((len(fs) + n - 1) // n)]


def chunks(pid, mc, items, n, **kw):
    return [dict({"id": "%s-all-%s-%d" % (pid, mc["config"][:-4], k), "seed": k, "driver": "cases",
                  "module": "TraceCases", mc.get("key", "configs"): items[k * n:k * n + n]}, **kw)
            for k in range((len(items) + n - 1) // n)]


def fail_cases(mc, text):
    return chunks("fail", mc, cases(text), 25)


def conf_cases(mc, text):
    items = cases(text)
    if len(items) > mc["sample"]:
        items = random.Random(mc["seed"]).sample(items, mc["sample"])
    return chunks("conf", mc, items, max(10, min(120, len(items) // 24)), want=mc["want"], times=mc.get("times", 1),
                  exact=mc.get("exact", True))


def confs(want, sample, *configs, **kw):
    return [dict({"module": c[:-1], "config": c + ".cfg", "convert": conf_cases, "want": want, "sample": sample},
                 **kw) for c in configs]


def fail_mc(*letters):
    return [dict(module="MCFail", config="MCFail%s.cfg" % x, convert=fail_cases, key="states") for x in letters]


R = {"r": 1}
ROUTE_B = confs(R, 20000, "MCRouteB", "MCRouteC")
SIGNAL_B = confs(R, 5000, "MCSignalA", "MCSignalB", "MCSignalC", "MCSignalD", times=8)
MC = {
    "P01": {"quick": fail_mc("A"), "thorough": fail_mc("B", "C")},
    "P02": {"quick": fail_mc("A"), "thorough": fail_mc("B", "C")},
    "P03": {"quick": confs(R, 7000, "MCRouteA"), "thorough": confs(R, 25000, "MCRouteB", "MCRouteC")},
    "P04": {"quick": confs(R, 2500, "MCRouteA") + confs(R, 800, "MCShortA"),
            "thorough": ROUTE_B + confs(R, 6000, "MCShortB")},
    "P05": {"quick": confs(R, 2500, "MCRouteA") + confs(R, 800, "MCShortA"),
            "thorough": ROUTE_B + confs(R, 6000, "MCShortB")},
    "P06": {"quick": confs(R, 1008, "MCSignalA", "MCSignalD", times=3), "thorough": SIGNAL_B},
    "P07": {"quick": confs(R, 1008, "MCSignalA", "MCSignalD", times=2), "thorough": SIGNAL_B},
    "P08": {"quick": confs(R, 1008, "MCSignalA", "MCSignalD", times=3), "thorough": SIGNAL_B},
    "P09": {"quick": confs(R, 2700, "MCShortC"), "thorough": confs(R, 17000, "MCShortC", "MCShortB")},
    "P10": {"quick": confs(R, 2000, "MCShortA") + confs(R, 1400, "MCShortD"), "thorough": confs(R, 17000, "MCShortB")},
    "P11": {"quick": confs(R, 2500, "MCRouteA") + confs(R, 800, "MCShortA"),
            "thorough": ROUTE_B + confs(R, 6000, "MCShortB")},
    "P13": {"quick": confs(dict(R, q=6), 600, "MCRouteA") + confs(dict(R, q=6), 300, "MCShortA"),
            "thorough": confs(dict(R, q=8), 8000, "MCRouteB") + confs(dict(R, q=6), 4000, "MCShortB")},
    "P14": {"quick": confs(dict(R, rep=1), 800, "MCShortA"),
            "thorough": confs(dict(R, rep=1), 8000, "MCShortB") + confs(dict(R, rep=1), 3402, "MCSignalB")},
    "P15": {"quick": [dict(module="MCValid", config="MCValid2.cfg", convert=valid_cases)],
            "thorough": [dict(module="MCValid", config="MCValid2.cfg", convert=valid_cases),
                         dict(module="MCValid", config="MCValid3.cfg", convert=valid_cases)]},
    "P16": {"quick": [dict(module="MCLoad", config="MCLoad.cfg", convert=load_cases)],
            "thorough": [dict(module="MCLoad", config="MCLoadDeep.cfg", convert=load_cases)]},
}
