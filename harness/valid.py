"""P15: models with and without defects, made by editing the real objects directly."""
import random

import gen
import ntm
from pyNTM.interface import Interface
from pyNTM.node import Node


def raw(m):
    """what validation looks at, as sequences (a map by name would hide duplicates)"""
    nodes = sorted([{"name": n.name, "sc": n.igp_shortcuts_enabled is True} for n in m.model.node_objects],
                   key=lambda x: x["name"])
    ifs = sorted([{"node": i.node_object.name, "name": i.name, "remote": i.remote_node_object.name,
                   "ckt": "" if m.kind == "perf" else str(i.circuit_id), "cap": ntm.exactly(i.capacity)}
                  for i in m.model.interface_objects], key=lambda x: (x["node"], x["name"], x["remote"], x["ckt"]))
    return {"kind": m.kind, "nodes": nodes, "ifs": ifs}


def rehash(m, i, f):
    """change an interface that is in the model's set"""
    m.model.interface_objects.discard(i)
    f()
    m.model.interface_objects.add(i)


def other_end(m, i):
    return next((j for j in m.model.interface_objects
                 if j is not i and j.node_object.name == i.remote_node_object.name
                 and j.remote_node_object.name == i.node_object.name
                 and (m.kind == "perf" or j.circuit_id == i.circuit_id)), None)


def corrupt(rng, m, how):
    """one direct edit; returns a function that undoes it, or None"""
    model = m.model
    ifs = sorted(model.interface_objects, key=ntm.if_id)
    nodes = sorted(model.node_objects, key=lambda n: n.name)
    i = rng.choice(ifs)
    fresh = "9%02d" % rng.randint(0, 99)
    if how == "cap":
        old = i.capacity
        new = old + rng.choice([1, 10, -1, .5])
        i.capacity = new if new > 0 else old + 1
        return lambda: setattr(i, "capacity", old)
    if how == "cap both":
        j = other_end(m, i)
        if j is None:
            return None
        old = i.capacity
        i.capacity = j.capacity = old + rng.choice([1, 10])

        def back():
            i.capacity = j.capacity = old
        return back
    if how == "drop":
        model.interface_objects.discard(i)
        return lambda: model.interface_objects.add(i)
    if how == "drop both":
        j = other_end(m, i)
        if j is None:
            return None
        model.interface_objects.discard(i)
        model.interface_objects.discard(j)

        def back():
            model.interface_objects.add(i)
            model.interface_objects.add(j)
        return back
    if how == "dup name":
        same = [j for j in ifs if j is not i and j.node_object is i.node_object]
        if not same:
            return None
        j, old = rng.choice(same), i.name
        rehash(m, i, lambda: setattr(i, "name", j.name))
        return lambda: rehash(m, i, lambda: setattr(i, "name", old))
    if how == "same name elsewhere":
        other = [j for j in ifs if j.node_object is not i.node_object]
        j, old = rng.choice(other), i.name
        if any(k.node_object is i.node_object and k.name == j.name for k in ifs):
            return None
        rehash(m, i, lambda: setattr(i, "name", j.name))
        return lambda: rehash(m, i, lambda: setattr(i, "name", old))
    if how == "dup node":
        n = Node(rng.choice(nodes).name, lat=rng.choice([5, 6]), lon=77)
        model.node_objects.add(n)
        return lambda: model.node_objects.discard(n)
    if how == "new node":
        n = Node("fresh" + fresh)
        model.node_objects.add(n)
        return lambda: model.node_objects.discard(n)
    if how in ("one way", "one way back"):
        a, b = rng.sample(nodes, 2)
        new = Interface("one" + fresh, 10, rng.choice([10, i.capacity]), a, b,
                        None if m.kind == "perf" else fresh)
        model.interface_objects.add(new)
        return lambda: model.interface_objects.discard(new)
    if how in ("parallel", "new circuit"):
        a, b = (i.node_object, i.remote_node_object) if how == "parallel" else rng.sample(nodes, 2)
        cap = rng.choice([10, 50])
        c = None if m.kind == "perf" else fresh
        new = {Interface("pa" + fresh, 10, cap, a, b, c), Interface("pb" + fresh, 20, cap, b, a, c)}
        model.interface_objects |= new

        def back():
            for x in new:
                model.interface_objects.discard(x)
        return back
    if how == "ckt":
        if m.kind == "perf":
            return None
        old = i.circuit_id
        i.circuit_id = fresh
        return lambda: setattr(i, "circuit_id", old)
    if how == "ckt swap":
        # two circuits between one pair of nodes exchange the id of one end: both fine, ends just pair up anew;
        # between different pairs, two interfaces lose their counterparts
        if m.kind == "perf" or len(ifs) < 4:
            return None
        j = rng.choice([x for x in ifs if x.circuit_id != i.circuit_id] or [None])
        if j is None:
            return None
        a, b = i.circuit_id, j.circuit_id
        i.circuit_id, j.circuit_id = b, a

        def back():
            i.circuit_id, j.circuit_id = a, b
        return back
    if how == "remote":
        others = [n for n in nodes if n is not i.node_object and n is not i.remote_node_object]
        if not others:
            return None
        old = i.remote_node_object
        i.remote_node_object = rng.choice(others)
        return lambda: setattr(i, "remote_node_object", old)
    if how == "shortcuts":
        n = rng.choice(nodes)
        old = n.igp_shortcuts_enabled
        n.igp_shortcuts_enabled = not old
        return lambda: setattr(n, "igp_shortcuts_enabled", old)
    if how == "cost":
        old = i.cost
        i.cost = old + 5
        return lambda: setattr(i, "cost", old)
    return None


HOWS = {"cap": 4, "cap both": 1, "drop": 3, "drop both": 1, "dup name": 3, "same name elsewhere": 2, "dup node": 3,
        "new node": 1, "one way": 3, "parallel": 3, "new circuit": 2, "ckt": 3, "ckt swap": 2, "remote": 2,
        "shortcuts": 3, "cost": 1}


def exhaustive(rng, spec):
    """the bounded raw models that TLC enumerated (spec["models"]), each built and validated"""
    steps = [{"ev": {"op": "init"}, "out": "ok", "raw": {"kind": "perf", "nodes": [], "ifs": []}}]
    for x in spec["models"]:
        nodes = {}
        ns = set()
        for n in x["nodes"]:
            nodes[n["name"]] = Node(n["name"], n.get("lat", 0), 0)
            nodes[n["name"]].igp_shortcuts_enabled = n["sc"]
            ns.add(nodes[n["name"]])
        ifs = {Interface(i["name"], 10, i["cap"], nodes[i["node"]], nodes[i["remote"]],
                         None if x["kind"] == "perf" else i["ckt"]) for i in x["ifs"]}
        m = ntm.M(x["kind"], ntm.CLS[x["kind"]](ifs, ns, set(), set()))
        for op in ("validate", "sim"):
            out = m.apply({"op": op})
            steps.append({"ev": {"op": op}, "out": out, "raw": raw(m)})
    return {"id": spec["id"], "exact": False, "steps": steps, "spec": spec}


def history(spec):
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    if "models" in spec:
        return exhaustive(rng, spec)
    p = gen.Profile(**spec["profile"])
    c = gen.config(rng, p)
    m = ntm.M.build(c)
    steps = [{"ev": {"op": "init"}, "out": "ok", "raw": raw(m)}]
    tr = {"id": spec["id"], "exact": False, "steps": steps, "spec": spec}

    def call(op, note=""):
        out = m.apply({"op": op})
        steps.append({"ev": {"op": op, "after": note}, "out": out, "raw": raw(m)})
        return out

    call("sim")
    for _ in range(spec["len"]):
        r = rng.random()
        if r < .35:
            ev = gen.event(rng, m.cfg(), rng.choice(["fail_if", "fail_node", "set_cost", "set_cap", "fail_srlg",
                                                     "set_rsvp", "set_traffic"]), p, 0)
            if ev:
                m.apply(ev)
                call("sim", ev["op"])
                call("validate", ev["op"])
            continue
        undo, notes = [], []
        for _ in range(2 if r > .9 else 1):
            how = rng.choices(list(HOWS), list(HOWS.values()))[0]
            u = corrupt(rng, m, how)
            if u:
                undo.append(u)
                notes.append(how)
        note = "+".join(notes)
        if not m.model.rsvp_lsp_objects and rng.random() < .6:
            call("validate", note)
        call("sim", note)
        if rng.random() < .4 and not m.model.rsvp_lsp_objects:
            call("validate", note)
        for u in reversed(undo):
            u()
        call("sim", "undo " + note)
        call("validate", "undo " + note)
    return tr
