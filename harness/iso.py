"""P17: several models in one process."""
import copy
import json
import os
import random
import signal
import tempfile

import pyNTM

import gen
import loadfile
import ntm
import record

EMPTY = {"nodes": {}, "ifs": {}, "srlgs": {}, "dmds": {}, "lsps": {}}


class Alone:
    """simulates a configuration in a process of its own, in which there never was another model"""

    def __init__(self):
        ask, self.ask = os.pipe()
        self.answer, answer = os.pipe()
        if os.fork() == 0:
            os.close(self.ask)
            os.close(self.answer)
            signal.setitimer(signal.ITIMER_PROF, 0)
            with os.fdopen(ask) as asks:
                for line in asks:
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.signal(signal.SIGALRM, signal.SIG_DFL)
                            signal.alarm(60)
                            text = json.dumps(Alone.simulate(*json.loads(line))) + "\n"
                            with os.fdopen(answer, "w") as out:
                                out.write(text)
                        finally:
                            os._exit(0)
                    if os.waitpid(pid, 0)[1]:
                        os.write(answer, b'{"out": "Timeout"}\n')
            os._exit(0)
        os.close(ask)
        os.close(answer)
        self.ask, self.answer = os.fdopen(self.ask, "w"), os.fdopen(self.answer)

    @staticmethod
    def simulate(cfg, intckt, seed):
        random.seed(seed)
        f = {}
        f["out"], m = ntm.attempt(ntm.M.build, cfg, True, None, intckt)
        if f["out"] == "ok":
            f["out"] = m.apply({"op": "sim"})
        if f["out"] == "ok":
            f["out"], f["r"] = ntm.attempt(m.result)
        return f

    def __call__(self, cfg, intckt, seed):
        self.ask.write(json.dumps([cfg, intckt, seed]) + "\n")
        self.ask.flush()
        return json.loads(self.answer.readline() or '{"out": "gone"}')


# forked before this process makes its first model
alone = Alone()


def changed(rng, c):
    """the same objects with other attributes"""
    c = json.loads(json.dumps(c))
    ends = {}
    for v in c["ifs"].values():
        ends.setdefault((v["ckt"], frozenset((v["node"], v["remote"]))), []).append(v)
    for vs in ends.values():
        # a loaded model that was never validated does not know its circuits yet
        if any(v["srlgs"] != vs[0]["srlgs"] or v["failed"] != vs[0]["failed"] for v in vs):
            return None
    for v in c["ifs"].values():
        if rng.random() < .5:
            v["cost"] = rng.choice([1, 5, 10, 20, 40])
        if rng.random() < .1:
            v["rsvp"] = not v["rsvp"]
    for v in c["dmds"].values():
        if rng.random() < .5:
            v["traf"] = rng.choice([0, 120, 240, 600])
    for v in c["lsps"].values():
        if rng.random() < .3:
            v["mm"] = rng.choice([0, 1, 15, 50])
        if rng.random() < .3:
            v["cfg"] = rng.choice([-1, 20, 100])
    for v in c["nodes"].values():
        if c["kind"] == "flex" and rng.random() < .4:
            v["sc"] = not v["sc"]
    return c


def sig(m):
    with ntm.quiet():
        return str(hash(m.signature() + json.dumps(m.cfg(), sort_keys=True)))


def answers(m):
    """what the model answers: reports, metrics, shortest paths between all its nodes"""
    r = [ntm.attempt(m.reports), ntm.attempt(lambda: {ntm.lsp_id(x): ntm.attempt(m.em, x)
                                                      for x in m.model.rsvp_lsp_objects})]
    names = sorted(n.name for n in m.model.node_objects)
    for a in names:
        for b in names:
            if a != b:
                out, v = ntm.attempt(m.model.get_shortest_path, a, b)
                r.append((a, b, out, v and v["cost"], v and sorted([ntm.if_id(i) for i in p] for p in v["path"])))
    return str(hash(json.dumps(r, sort_keys=True)))


def history(spec):
    rng = random.Random(spec["seed"])
    random.seed(spec["seed"])
    models, dirty, profs, said, files = {}, {}, {}, {}, []
    steps = [{"ev": {"op": "init"}, "out": "ok", "sigs": {}, "who": "", "ans": []}]

    def sigs():
        return {k: sig(m) for k, m in models.items()}

    def note(ev, who, out, **kw):
        ok, s = ntm.attempt(sigs)
        if who and ev["op"] not in ("query", "reports"):
            said.pop(who, None)
        ans = []
        if ev["op"] in ("sim", "new", "fail_node", "add_circuit", "add_lsp", "add_demand") and rng.random() < .6:
            for w, m in sorted(models.items()):
                now = ntm.attempt(answers, m)[1]
                if w in said:
                    ans.append({"who": w, "was": said[w] or "?", "now": now or "?"})
                said[w] = now
        kw["ans"] = ans
        steps.append(dict({"ev": ev, "who": who, "out": out if ok == "ok" else "unreadable",
                           "sigs": s if ok == "ok" else steps[-1]["sigs"]}, **kw))

    def new(k):
        who = "m%d" % k
        how = rng.choice(["empty", "empty", "build", "build", "file", "file", "legacy"] + ["twin", "twin", "twin", "copy"] * (1 if models else 0))
        p = gen.Profile(**spec["profile"])
        made, wanted = "", ""
        if how in ("empty", "legacy"):
            kind = rng.choice(["flex", "perf"])
            if how == "legacy":
                cls = pyNTM.Parallel_Link_Model if kind == "flex" else pyNTM.Model
            else:
                cls = ntm.CLS[kind]
            # no argument at all, or sets for some of them
            n = rng.randint(0, 4)
            m = ntm.M(kind, cls(*[set() for _ in range(n)]))
            made, wanted = repr(sorted(m.cfg().items())), repr(sorted(dict(EMPTY, kind=kind).items()))
            if m.model.circuit_objects:
                made += " with circuits"
        elif how == "copy":
            # Python's own copy of a model shares nothing with it
            of = models[rng.choice(sorted(models))]
            out, model = ntm.attempt(copy.deepcopy, of.model)
            if out != "ok":
                return
            m = ntm.M(of.kind, model)
            m.fromfile = getattr(of, "fromfile", False)
            m.intckt = getattr(of, "intckt", False)
            made, wanted = sig(m), sig(of)
        elif how in ("build", "twin"):
            if how == "twin":
                of = models[rng.choice(sorted(models))]
                c = changed(rng, of.cfg())
                if c is None:
                    return
            else:
                c = gen.config(rng, p)
            intckt = getattr(of, "intckt", False) if how == "twin" else False
            out, m = ntm.attempt(ntm.M.build, c, True, None, intckt)
            if out != "ok":
                # a model that cannot be made here can be made nowhere
                note({"op": "build"}, "", out, solo={"out": alone(c, intckt, 1)["out"]})
                return
            got = m.cfg()
            norm = ntm_norm
            made, wanted = norm(got), norm(c)
        else:
            # some files are loaded more than once
            f = files[-1] if files and rng.random() < .5 else loadfile.make(rng, p)
            files.append(f)
            fd, path = tempfile.mkstemp(suffix=".csv")
            os.close(fd)
            with open(path, "w", newline="") as h:
                h.write(loadfile.text(f))
            out, model = ntm.attempt(ntm.CLS[f["kind"]].load_model_file, path)
            os.unlink(path)
            if out != "ok":
                return
            m = ntm.M(f["kind"], model)
            m.fromfile = True
        models[who] = m
        dirty[who] = how != "copy" or any(dirty[k] for k in models if models[k] is of)
        profs[who] = p
        if how == "copy" and not dirty[who]:
            made, wanted = made + str(ntm.attempt(answers, m)[1]), wanted + str(ntm.attempt(answers, of)[1])
        note({"op": "new", "how": how}, who, "ok", made=made, wanted=wanted)

    new(0)
    new(1)
    k = 2
    for _ in range(spec["len"]):
        if len(models) > 1 and k < 6 and rng.random() < .03:
            # a model nobody needs any more; the next one may take its place in memory
            who = rng.choice(sorted(models))
            del models[who]
            m = None
            note({"op": "drop"}, who, "ok")
            new(k)
            k += 1
            continue
        if k < 4 and rng.random() < .08:
            new(k)
            k += 1
            continue
        if not models:
            new(k)
            k += 1
            continue
        who = rng.choice(sorted(models))
        m = models[who]
        c = m.cfg()
        op = rng.choices(list(spec["ops"]), list(spec["ops"].values()))[0]
        if op == "query":
            qs = record.query_plan(rng, m, c, 2)
            outs = [m.query(q)["out"] for q in qs]
            note({"op": "query"}, who, ",".join(outs))
            continue
        if op == "reports":
            if not dirty[who]:
                ntm.attempt(m.reports)
                ntm.attempt(m.lookups)
                note({"op": "reports"}, who, "ok")
            continue
        if op in gen.SWAPS:
            op = gen.SWAPS[op][rng.randint(0, 1)]
        ev = gen.event(rng, c, op, profs[who], .05)
        if ev is None:
            continue
        if dirty[who] and op in gen.VALIDATING and (c["lsps"] or rng.random() < .5):
            note({"op": "sim"}, who, m.apply({"op": "sim"}))
        out = m.apply(ev)
        kw = {}
        if op == "sim" and rng.random() < .5:
            kw["solo"] = alone(c, getattr(m, "intckt", False), rng.randrange(10 ** 6))
            if out == "ok":
                record.read(kw, "cfg", m.cfg)
                record.read(kw, "r", m.result)
            if "r" not in kw or "cfg" not in kw:
                kw["solo"].pop("r", None)
        note(ev, who, out, **kw)
        dirty[who] = op != "sim"
    return {"id": spec["id"], "exact": False, "steps": steps, "spec": spec}


def ntm_norm(c):
    return repr([sorted((k, sorted((a, str(b) if not isinstance(b, list) else str(sorted(b))) for a, b in v.items()))
                        for k, v in c[s].items()) for s in ("nodes", "ifs", "srlgs", "dmds", "lsps")])
