"""Random configurations and histories (all choices from one random.Random)."""
import heapq

NAME_STYLES = ["letter", "letter", "num", "hyphen", "word", "clash", "digit", "blank"]
SEPARATORS = ["-", "-", "", "", "_", " ", ",", ".", "/"]
PCTS = [0, 10, 25, 45, 50, 75, 90]
TENTHS = [20, 40, 60, 80, 100]      # a share of half a unit that is a number of tenths


def node_names(rng, n, styles=None):
    style = rng.choice(styles or NAME_STYLES)
    if style == "letter":
        r = [chr(65 + k) for k in range(n)]
    elif style == "num":
        r = ["N1", "N11", "N12", "N2", "N21", "N3", "N31", "N111", "N4"][:n]
        r += ["N%d" % (40 + k) for k in range(n - len(r))]
    elif style == "hyphen":
        r = ["r-%d" % k for k in range(n)]
    elif style == "clash":           # the names of different pairs of nodes, joined, may be the same
        sep = rng.choice(SEPARATORS)
        r = [x.replace("*", sep) for x in ["a", "a*b", "b*c", "c", "b", "b*b", "c*a", "a*a"][:n]]
        r += ["x%s%d" % (sep, k) for k in range(n - len(r))]
    elif style == "digit":           # texts of digits
        r = ["1", "2", "10", "11", "12", "21", "01", "111"][:n]
        r += ["%d" % (40 + k) for k in range(n - len(r))]
    elif style == "blank":
        r = ["New York", "New", "York", "New York 2", "a b", "b", "York New", "a"][:n]
        r += ["site %d" % k for k in range(n - len(r))]
    else:
        r = ["SLC", "SJC", "LAX", "LAX2", "SLC1", "Unr", "DCA", "None", "NYC"][:n]
        r += ["site%d" % k for k in range(n - len(r))]
    if n > 2 and style == "letter" and rng.random() < 0.15:
        r[1] = r[0].lower()          # names that differ in case only
    rng.shuffle(r)
    return r


class Profile:
    """what a random configuration looks like"""

    def __init__(self, **kw):
        self.kinds = ["flex", "perf"]
        self.nodes = (3, 6)
        self.extra = (0, 4)          # circuits beyond a spanning tree
        self.parallel = 0.4          # chance that an extra circuit is parallel to another (flex)
        self.isolated = 0.1          # chance of a node without circuits
        self.costs = [[10], [10, 20], [1, 2, 3], [5, 10, 15, 20], [1, 7, 13, 40], [1, 2, 3], [10, 20], [10],
                      [1000, 1001], [999, 1000, 1001, 2000], [65535, 65534, 1], [100000, 100001, 50000]]
        self.asym = 0.3
        self.caps = [10, 20, 30, 40, 60, 100, 250]
        self.norsvp = 0.1
        self.pct = 0.15
        self.dmds = (1, 6)
        self.lsps = (0, 0)
        self.groups = (1, 3)
        self.maxgroup = 4
        self.cfgbw = 0.25
        self.ways = 0.0              # chance of a two-hop and a three-hop way of the same cost
        self.ranked = 0.2            # chance of an LSP group with lowest-cost paths of different lengths
        self.hopeless = 0.03         # chance that an LSP asks for more than any interface has
        self.mm = 0.25
        self.sc = 0.0
        self.exact = True
        self.srlgs = (0, 2)
        self.on_lsps = 0.6           # chance that a demand goes where an LSP group goes
        self.traffic = None
        self.styles = None
        self.chain = 0.0             # chance of a long chain of nodes
        self.ladder = 0.0            # chance of a ladder of equal cost diamonds
        self.width = (2, 2)          # nodes in the middle of each diamond
        self.ends = 0.4              # chance that a demand goes from one end of the ladder to the other
        self.tie = 0.35              # chance that some costs are changed so that paths of different length tie
        self.__dict__.update(kw)


def ri(rng, t):
    return rng.randint(t[0], t[1])


def make_traffic(rng, p):
    if p.traffic:
        return rng.choice(p.traffic)
    if p.exact:
        return 120 * rng.choice([1, 1, 2, 2, 3, 4, 5, 0] if rng.random() < 0.9 else [10])
    if rng.random() < .04:
        return rng.randint(2000, 10000)
    return rng.choice([rng.randint(0, 30), rng.randint(10, 400), rng.randint(400, 2000), 10 * rng.randint(1, 99)])


def capacity(rng, p, ifs=None):
    """tenths; halves only where no share of them has hundredths"""
    cap = 10 * (rng.choice(p.caps) if rng.random() < .96 else 1000)
    if rng.random() < .12 and (ifs is None or all(v["pct"] in TENTHS for v in ifs.values())):
        cap += 5
    return cap


def place(rng):
    """a latitude and a longitude"""
    return rng.choice(["0,0", "5,-12", "-33.25,151.5", "0,77", "41.5,0", "%d,%d" % (rng.randint(-60, 60), rng.randint(-170, 170))])


def config(rng, p):
    kind = rng.choice(p.kinds)
    n = ri(rng, p.nodes)
    names = node_names(rng, n, p.styles)
    nodes = {x: {"failed": False, "sc": kind == "flex" and rng.random() < p.sc, "srlgs": [], "at": "0,0"} for x in names}
    if rng.random() < .4:
        for v in nodes.values():
            v["at"] = place(rng)
    costs = rng.choice(p.costs)
    ifs = {}
    generic = rng.random() < 0.4
    ckts = []

    def add(a, b, cost=None):
        k = len(ckts) + 1
        ckts.append((a, b))
        ca = cost or rng.choice(costs)
        cb = rng.choice(costs) if rng.random() < p.asym else ca
        cap = capacity(rng, p)
        for (x, y, c, s) in ((a, b, ca, "a"), (b, a, cb, "b")):
            if generic:
                name = "e%d" % (1 + sum(1 for v in ifs.values() if v["node"] == x))
            else:
                name = "%s-to-%s" % (x, y) if kind == "perf" or rng.random() < 0.3 else "%s-to-%s_%d" % (x, y, k)
                if "%s::%s" % (x, name) in ifs:
                    name = "%s-to-%s_%d" % (x, y, k)
            ifs["%s::%s" % (x, name)] = {
                "name": name, "node": x, "remote": y, "ckt": "" if kind == "perf" else str(k), "cost": c,
                "cap": cap, "rsvp": rng.random() >= p.norsvp,
                "pct": rng.choice(PCTS if cap % 10 == 0 else TENTHS) if rng.random() < p.pct else 100,
                "failed": False, "srlgs": []}

    linked, live_ends = set(), []
    live = names[:-1] if n > 3 and rng.random() < p.isolated else names
    if rng.random() < p.ladder and len(live) >= 4:
        # a chain of diamonds s - {m1, m2} - t - {m3, m4} - u
        k, w = 0, min(ri(rng, p.width), len(live) - 2)
        ends = [live[0]]
        while k + w + 1 < len(live):
            s, mids, t = live[k], live[k + 1:k + w + 1], live[k + w + 1]
            for m in mids:
                add(s, m)
                add(m, t)
                linked |= {(s, m), (m, s), (m, t), (t, m)}
            k += w + 1
            ends.append(t)
        live_ends = [(ends[0], ends[-1]), (ends[-1], ends[0])]
        for x in live[k + 1:]:
            y = live[rng.randint(0, k)]
            add(y, x)
            linked |= {(x, y), (y, x)}
    elif rng.random() < p.ways and len(live) >= 5:
        # ways of the same cost and different lengths from s to z
        s, z = live[0], live[1]
        x, y = sorted(rng.sample(range(1, 20), 2))
        for path, cs in (((s, live[2], z), (lambda v: (v, 20 - v))(rng.randint(1, 19))),
                         ((s, live[3], live[4], z), (x, y - x, 20 - y))):
            for a, b, c in zip(path, path[1:], cs):
                add(a, b, c)
                linked |= {(a, b), (b, a)}
        live_ends = [(s, z)]
        for k in range(5, len(live)):
            a, b = live[k], rng.choice(live[:k])
            add(a, b)
            linked |= {(a, b), (b, a)}
    else:
        line = rng.random() < p.chain
        if line:
            live_ends = [(live[0], live[-1]), (live[-1], live[0])]
        for k in range(1, len(live)):
            a, b = live[k], live[k - 1] if line else rng.choice(live[:k])
            add(*((a, b) if rng.random() < 0.5 else (b, a)))
            linked |= {(a, b), (b, a)}
    for _ in range(ri(rng, p.extra)):
        if kind == "flex" and ckts and rng.random() < p.parallel:
            a, b = rng.choice(ckts)
            if rng.random() < 0.5:
                a, b = b, a
            add(a, b)
        elif len(live) > 1:
            a, b = rng.sample(live, 2)
            if kind == "flex" or (a, b) not in linked:
                add(a, b)
                linked |= {(a, b), (b, a)}

    if rng.random() < p.tie:
        for i in rng.sample(sorted(ifs), min(len(ifs), rng.randint(1, 2))):
            v = tied(ifs, i)
            if v:
                ifs[i]["cost"] = v
                if rng.random() < 0.6:
                    ifs[mate(kind, ifs, i)]["cost"] = v

    lsps, dmds = {}, {}
    twins = alike(rng, names) if rng.random() < .6 else []
    pairs = list(twins) if rng.random() < .5 else []
    if rng.random() < p.ranked:
        pairs += [rng.choice(x) for x in [ranked(ifs, names)] if x]
    nl = ri(rng, p.lsps)
    if nl:
        for _ in range(ri(rng, p.groups)):
            pr = tuple(rng.sample(names, 2))
            if pr not in pairs:
                pairs.append(pr)
        for k in range(nl):
            s, d = rng.choice(pairs)
            if sum(1 for v in lsps.values() if (v["src"], v["dst"]) == (s, d)) >= p.maxgroup:
                continue
            name = "lsp%d" % (1 + sum(1 for v in lsps.values() if (v["src"], v["dst"]) == (s, d)))
            cfgbw = -1
            if rng.random() < p.cfgbw:
                cfgbw = rng.choice([0, 10, 25, 50, 100, 150, 200, 333])
            if rng.random() < p.hopeless:
                cfgbw = 99990
            lsps["L:%s>%s>%s" % (s, d, name)] = {
                "src": s, "dst": d, "name": name, "cfg": cfgbw,
                "mm": manual_metric(rng, ifs, s, d) if rng.random() < p.mm else 0}
    for k in range(ri(rng, p.dmds)):
        if twins and rng.random() < .6:
            s, d = rng.choice(twins)
        elif pairs and rng.random() < p.on_lsps:
            s, d = rng.choice(pairs)
        elif live_ends and rng.random() < p.ends:
            s, d = rng.choice(live_ends)
        else:
            s, d = rng.sample(names, 2)
        name = rng.choice(["none", "d1", "d2", "D1", "dmd_%s_%s" % (s, d)])
        key = "D:%s>%s>%s" % (s, d, name)
        if key not in dmds:
            dmds[key] = {"src": s, "dst": d, "name": name, "traf": make_traffic(rng, p)}
    srlgs = {}
    for k in range(ri(rng, p.srlgs)):
        g = "G%d" % k
        srlgs[g] = {"failed": False}
        for x in nodes:
            if rng.random() < 0.2:
                nodes[x]["srlgs"].append(g)
        for a in list(ifs):
            if rng.random() < 0.2:
                b = mate(kind, ifs, a)
                for y in (a, b):
                    if g not in ifs[y]["srlgs"]:
                        ifs[y]["srlgs"].append(g)
    return {"kind": kind, "nodes": nodes, "ifs": ifs, "srlgs": srlgs, "dmds": dmds, "lsps": lsps}


def ranked(ifs, names):
    """pairs of nodes with one lowest-cost path of fewest hops, and longer ones"""
    out = []
    for s in names:
        dist = {d: distance(ifs, s, d) for d in names if d != s}
        dist = {d: v for d, v in dist.items() if v is not None}
        ways = {s: {0: 1}}           # node: {hops: lowest-cost paths}
        for d in sorted(dist, key=dist.get):
            ways[d] = {}
            for v in ifs.values():
                if v["remote"] == d and dist.get(v["node"], 0 if v["node"] == s else 1e9) + v["cost"] == dist[d]:
                    for h, n in ways.get(v["node"], {}).items():
                        ways[d][h + 1] = ways[d].get(h + 1, 0) + n
            if len(ways[d]) > 1 and ways[d][min(ways[d])] == 1:
                out.append((s, d))
    return out


def alike(rng, names):
    """two pairs of nodes whose names, joined, are the same"""
    found = []
    for sep in sorted(set(SEPARATORS)):
        seen = {}
        for s in names:
            for d in names:
                if s != d:
                    other = seen.setdefault(s + sep + d, (s, d))
                    if other != (s, d):
                        found.append([other, (s, d)])
    return list(rng.choice(found)) if found else []


def manual_metric(rng, ifs, s, d):
    v = distance(ifs, s, d) if rng.random() < 0.3 else None
    return max(1, v + rng.choice([0, 0, 1, -1])) if v else rng.choice([1, 2, 5, 10, 20, 30, 50])


def distance(ifs, s, d, without=()):
    """cost of the shortest working path from s to d, or None"""
    done, heap = set(), [(0, s)]
    while heap:
        c, n = heapq.heappop(heap)
        if n == d:
            return c
        if n in done:
            continue
        done.add(n)
        for i, v in ifs.items():
            if v["node"] == n and not v["failed"] and i not in without and v["remote"] not in done:
                heapq.heappush(heap, (c + v["cost"], v["remote"]))
    return None


def tied(ifs, i):
    """the cost of the way around interface i"""
    v = ifs[i]
    return distance(ifs, v["node"], v["remote"],
                    [j for j, u in ifs.items() if (u["node"], u["remote"]) == (v["node"], v["remote"])])


def mate(kind, ifs, a):
    for b, v in ifs.items():
        u = ifs[a]
        if b != a and v["node"] == u["remote"] and v["remote"] == u["node"] and \
                (kind == "perf" or v["ckt"] == u["ckt"]):
            return b
    return a


# ---- events ----
FAIL_OPS = ["fail_if", "unfail_if", "if_fail", "if_unfail", "fail_node", "unfail_node", "fail_srlg", "unfail_srlg",
            "add_srlg", "node_join", "node_leave", "if_join", "if_leave"]
SWAPS = {"swap_lsp": ("del_lsp", "add_lsp"), "swap_demand": ("del_demand", "add_demand"),
         "swap_if": ("fail_if", "unfail_if"), "swap_cost": ("set_cost", "set_cost"),
         "swap_node": ("fail_node", "unfail_node")}     # two calls without a simulation in between
EDIT_OPS = ["add_node", "add_circuit", "add_list", "add_demand", "add_lsp", "del_demand", "del_lsp", "rename"]
SET_OPS = ["set_cost", "set_cap", "set_rsvp", "set_pct", "set_traffic", "set_sc", "set_at", "set_cfg", "set_metric"]
VALIDATING = {"unfail_if", "unfail_node", "unfail_srlg", "add_node", "add_circuit", "add_list", "add_demand",
              "add_lsp", "validate", "node_leave", "if_leave", "if_unfail"}


# attributes and values they must not take
ILLEGAL = [("if", "cost", ["float", "text", "none", "zero", "minus"]), ("if", "capacity", ["zero", "minus", "text", "none"]),
           ("if", "failed", ["text", "none", "zero", "one"]), ("if", "reserved_bandwidth", ["text", "none", "list"]),
           ("node", "failed", ["text", "none", "zero", "one"]), ("node", "lat", ["text", "none", "list"]),
           ("node", "lon", ["text", "none", "list"]), ("node", "igp_shortcuts_enabled", ["text", "none", "zero", "one"]),
           ("srlg", "failed", ["text", "none", "zero", "one"]),
           ("lsp", "manual_metric", ["float", "text", "none", "zero", "list"]),
           ("demand", "traffic", ["minus", "text", "none", "list"]), ("newnode", "lat", ["text", "none"]),
           ("newnode", "lon", ["text", "none"]), ("newif", "cost", ["float", "text", "zero", "minus"]),
           ("newif", "capacity", ["zero", "minus", "text"]), ("newif", "self", ["none"]), ("newlsp", "", ["float", "text", "minus"]),
           ("unfail", "", ["text", "none", "zero", "one"])]


def event(rng, c, op, p, odd=0.08):
    """a random event of kind op for configuration c, or None"""
    nodes, ifs, srlgs = sorted(c["nodes"]), sorted(c["ifs"]), sorted(c["srlgs"])
    lsps, dmds = sorted(c["lsps"]), sorted(c["dmds"])
    wrong = rng.random() < odd

    def pick(xs, pred=None):
        if pred and rng.random() < 0.6:
            ys = [x for x in xs if pred(x)]
            xs = ys or xs
        return rng.choice(xs) if xs else None

    def new(prefix, taken):
        k = 1
        if taken and rng.random() < 0.15:
            x = rng.choice(sorted(taken))
            x = rng.choice([x.lower(), x.upper(), x + " ", x + "0", x + "_" + x])
            if x not in taken:
                return x
        while "%s%d" % (prefix, k) in taken:
            k += 1
        return "%s%d" % (prefix, k)

    if op in ("fail_if", "unfail_if", "if_fail", "if_unfail"):
        want = "unfail" in op
        i = pick(ifs, lambda x: c["ifs"][x]["failed"] == want)
        if wrong and op in ("fail_if", "unfail_if") and nodes:
            i = rng.choice(nodes + ["no-node"]) + "::no-if"
        if i is None:
            return None
        ev = {"op": op, "i": i}
        if op == "unfail_if":
            ev["raise"] = rng.random() < 0.5
        return ev
    if op == "half_if":
        i = pick(ifs)
        return i and {"op": op, "i": i, "v": rng.random() < .7}
    if op in ("fail_node", "unfail_node"):
        n = "no-node" if wrong else pick(nodes, lambda x: c["nodes"][x]["failed"] == (op == "unfail_node"))
        return n and {"op": op, "n": n}
    if op in ("fail_srlg", "unfail_srlg"):
        g = "no-group" if wrong else pick(srlgs, lambda x: c["srlgs"][x]["failed"] == (op == "unfail_srlg"))
        return g and {"op": op, "g": g}
    if op == "add_srlg":
        if wrong and srlgs:
            return {"op": op, "g": rng.choice(srlgs)}
        return {"op": op, "g": new("G", srlgs)} if len(srlgs) < 4 else None
    if op in ("node_join", "if_join"):
        create = rng.random() < 0.4
        g = new("G", srlgs) if (not srlgs or rng.random() < 0.2) and len(srlgs) < 4 else pick(srlgs)
        if g is None:
            return None
        x = pick(nodes if op == "node_join" else ifs)
        if x is None:
            return None
        return {"op": op, ("n" if op == "node_join" else "i"): x, "g": g, "create": create}
    if op in ("node_leave", "if_leave"):
        k = "nodes" if op == "node_leave" else "ifs"
        x = pick(nodes if op == "node_leave" else ifs, lambda y: c[k][y]["srlgs"])
        if x is None:
            return None
        gs = c[k][x]["srlgs"]
        g = rng.choice(gs) if gs and not wrong else rng.choice(srlgs + ["no-group"])
        return {"op": op, ("n" if op == "node_leave" else "i"): x, "g": g}
    if op == "add_node":
        return {"op": op, "n": rng.choice(nodes) if wrong and nodes else new("X", nodes), "at": place(rng)} \
            if len(nodes) < 9 or wrong else None
    if op in ("add_circuit", "add_list"):
        used = {v["ckt"] for v in c["ifs"].values()}
        ck = 500
        rows = []
        taken = set(ifs)
        linked = {(v["node"], v["remote"]) for v in c["ifs"].values()}
        pool = list(nodes)
        for _ in range(1 if op == "add_circuit" else rng.randint(1, 3)):
            if op == "add_list" and rng.random() < 0.3 and len(pool) < 9:
                pool.append(new("Y", pool))
            if len(pool) < 2:
                return None
            a, b = rng.sample(pool, 2)
            bad = wrong and op == "add_circuit"
            if c["kind"] == "perf" and (a, b) in linked and not bad:
                continue
            while str(ck) in used:
                ck += 1
            used.add(str(ck))
            na, nb = "n%d" % ck, "n%d" % (ck if rng.random() < 0.5 else ck + 400)
            while "%s::%s" % (a, na) in taken:
                na += "x"
            while "%s::%s" % (b, nb) in taken:
                nb += "x"
            row = {"a": a, "b": b, "na": na, "nb": nb, "ca": rng.choice([1, 5, 10, 20]), "cb": rng.choice([1, 10]),
                   "cap": rng.choice([capacity(rng, p), capacity(rng, p), 10000]), "ckt": str(ck)}
            if bad:
                how = rng.choice(["ca", "cb", "cap", "na", "nb", "ckt", "none", "dup", "self"])
                if how in ("ca", "cb", "cap"):
                    row[how] = 0
                elif how == "na" and [i for i in ifs if c["ifs"][i]["node"] == a]:
                    row["na"] = rng.choice([c["ifs"][i]["name"] for i in ifs if c["ifs"][i]["node"] == a])
                elif how == "nb" and [i for i in ifs if c["ifs"][i]["node"] == b]:
                    row["nb"] = rng.choice([c["ifs"][i]["name"] for i in ifs if c["ifs"][i]["node"] == b])
                elif how == "ckt" and c["kind"] == "flex" and ifs:
                    row["ckt"] = c["ifs"][rng.choice(ifs)]["ckt"]
                elif how == "none":
                    row["ckt"] = ""
                elif how == "self":
                    row["b"] = b = a
                elif how == "dup" and linked:
                    row["a"], row["b"] = rng.choice(sorted(linked))
            taken |= {"%s::%s" % (a, na), "%s::%s" % (b, nb)}
            linked |= {(a, b), (b, a)}
            rows.append(row)
        if not rows:
            return None
        if op == "add_circuit":
            return dict(rows[0], op=op, failed=rng.random() < 0.25, explicit=rng.random() < 0.5)
        for r in rows:
            r["fa"] = rng.random() < 0.2
            r["fb"] = r["fa"] if rng.random() < .6 else rng.random() < .2
            r["explicit"] = rng.random() < 0.5
            r["capb"], r["half"] = r["cap"], False
        if wrong:
            r = rng.choice(rows)
            how = rng.choice(["half", "capb", "ca", "cap", "na", "linked", "self"])
            if how == "half":
                r["half"] = True
            elif how == "self":
                r["b"] = r["a"]
            elif how == "capb":
                r["capb"] += rng.choice([1, 10])
            elif how in ("ca", "cap"):
                r[how] = 0
            elif how == "na" and [i for i in ifs if c["ifs"][i]["node"] == r["a"]]:
                r["na"] = rng.choice([c["ifs"][i]["name"] for i in ifs if c["ifs"][i]["node"] == r["a"]])
            elif how == "linked" and c["kind"] == "perf":
                r["a"], r["b"] = rng.choice(sorted(linked))
        return {"op": op, "list": rows}
    if op in ("add_demand", "add_lsp"):
        if len(nodes) < 2:
            return None
        k = "dmds" if op == "add_demand" else "lsps"
        have = dmds if op == "add_demand" else lsps
        s, d = rng.sample(nodes, 2)
        if have and rng.random() < 0.4:
            v = c[k][rng.choice(have)]
            s, d = v["src"], v["dst"]
        elif op == "add_demand" and lsps and rng.random() < 0.5:
            v = c["lsps"][rng.choice(lsps)]
            s, d = v["src"], v["dst"]
        names = {v["name"] for v in c[k].values() if (v["src"], v["dst"]) == (s, d)}
        name = new("lsp" if op == "add_lsp" else "d", names)
        if rng.random() < 0.25 and "none" not in names:
            name = "none"
        if op == "add_lsp" and not wrong:
            if len(names) >= p.maxgroup or (not names and len({(v["src"], v["dst"]) for v in c["lsps"].values()}) >= 4):
                return None
        if op == "add_demand" and len(dmds) >= 9 and not wrong:
            return None
        traf = make_traffic(rng, p)
        if wrong:
            how = rng.choice(["s", "d", "dup", "traf", "self"])
            if how == "self":
                d = s
            elif how == "s":
                s = "no-node"
            elif how == "d":
                d = "no-node"
            elif how == "dup" and have:
                v = c[k][rng.choice(have)]
                s, d, name = v["src"], v["dst"], v["name"]
            elif how == "traf":
                traf = -10
        ev = {"op": op, "s": s, "d": d, "name": name}
        if op == "add_demand":
            ev["traf"] = traf
        elif len(names) >= p.maxgroup and not wrong:
            return None
        return ev
    if op in ("del_demand", "set_traffic"):
        x = pick(dmds)
        return x and ({"op": op, "id": x} if op == "del_demand" else
                      {"op": op, "id": x, "v": make_traffic(rng, p)})
    if op == "del_lsp":
        x = pick(lsps)
        return x and {"op": op, "id": x}
    if op == "rename":
        x = pick(ifs)
        if x is None:
            return None
        n, old = x.split("::")
        if wrong:
            return {"op": op, "n": n, "old": "no-if", "new": "zz"}
        return {"op": op, "n": n, "old": old, "new": new("ren", {i.split("::")[1] for i in ifs})}
    if op == "set_cost":
        x = pick(ifs)
        if x and not wrong and rng.random() < 0.35:
            v = tied(c["ifs"], x)
            if v and v < 10 ** 6:
                return {"op": op, "i": x, "v": v}
        return x and {"op": op, "i": x, "v": rng.choice([0, -2, -1]) if wrong else
                      rng.choice([1, 2, 5, 10, 20, 30] + [v["cost"] + d for v in c["ifs"].values() for d in (0, 1)])}
    if op == "set_cap":
        x = pick(ifs)
        return x and {"op": op, "i": x, "v": 0 if wrong else capacity(rng, p, c["ifs"])}
    if op == "set_rsvp":
        x = pick(ifs)
        return x and {"op": op, "i": x, "v": not c["ifs"][x]["rsvp"]}
    if op == "set_pct":
        x = pick(ifs)
        return x and {"op": op, "i": x, "v": rng.choice([0, 10, 33, 45, 50, 75, 80, 100] if c["ifs"][x]["cap"] % 10 == 0 else TENTHS)}
    if op == "set_sc":
        x = pick(nodes)
        return {"op": op, "n": x, "v": rng.random() < 0.2 or not c["nodes"][x]["sc"], "text": rng.random() < 0.3} \
            if x and c["kind"] == "flex" else None
    if op == "set_at":
        x = pick(nodes)
        return x and {"op": op, "n": x, "v": place(rng)}
    if op == "set_cfg":
        x = pick(lsps)
        return x and {"op": op, "id": x, "v": rng.choice([-1, -1, 0, 10, 25, 100, 200])}
    if op == "set_metric":
        x = pick(lsps)
        if x and not wrong and rng.random() < 0.3:
            v = distance(c["ifs"], c["lsps"][x]["src"], c["lsps"][x]["dst"])
            v = v and v + rng.choice([0, 0, 1, -1])
            if v and v < 10 ** 6:
                return {"op": op, "id": x, "v": v}
        return x and {"op": op, "id": x, "v": rng.choice([0, -2, -3, -5]) if wrong else
                      rng.choice([-1, -1, 1, 2, 5, 10, 20, 40])}
    if op == "bad":
        what, attr, vals = rng.choice(ILLEGAL)
        x = pick({"if": ifs, "unfail": ifs, "lsp": lsps, "srlg": srlgs}.get(what, nodes))
        return x and {"op": op, "what": what, "attr": attr, "id": x, "v": rng.choice(vals)}
    return {"op": op}
