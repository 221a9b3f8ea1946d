"""check.py PROPERTY [quick|thorough] | check.py --replay FILE"""
import json
import os
import random
import subprocess
import sys
import tempfile
import shutil
import time

import plans
import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORKERS = 8


def record(specs, tmp):
    """record the histories in parallel processes, each with its own hash seed"""
    n = min(WORKERS * 2, max(1, len(specs) // 4))
    parts = [specs[k::n] for k in range(n)]
    procs, running, traces = [], [], []
    for k, part in enumerate(parts):
        if not part:
            continue
        jin, jout = os.path.join(tmp, "job%d.json" % k), os.path.join(tmp, "rec%d.json" % k)
        json.dump(part, open(jin, "w"))
        procs.append((k, jin, jout))
    todo = list(procs)
    failures = []
    while todo or running:
        while todo and len(running) < WORKERS:
            k, jin, jout = todo.pop(0)
            env = dict(os.environ, PYTHONHASHSEED=str(1 + (parts[k][0]["seed"] + k) % 4000000),
                       PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"))
            err = open(jout + ".err", "w")
            running.append((subprocess.Popen([PY, os.path.join(HERE, "harness", "record.py"), jin, jout],
                                             env=env, stdout=err, stderr=err, cwd=tmp), jin, jout))
        for r in list(running):
            rc = r[0].poll()
            if rc is not None:
                running.remove(r)
                if rc == 0 and os.path.exists(r[2]):
                    traces += json.load(open(r[2]))
                    os.unlink(r[2])
                else:
                    failures.append(open(r[2] + ".err").read()[-3000:])
        time.sleep(0.02)
    return traces, failures


def validate(prop, traces, tmp, module="Trace", chunks=None, timeout=800):
    """TLC verdicts: list of failures, counts, errors"""
    chunks = chunks or min(WORKERS // 2, max(1, len(traces) // 8))
    order = sorted(traces, key=lambda t: len(json.dumps(t["steps"])))
    runs = []
    for k in range(chunks):
        part = order[k::chunks]
        path = os.path.join(tmp, "traces_%s_%d_%d.json" % (module, os.getpid(), random.randrange(10 ** 9)))
        json.dump([{x: y for x, y in t.items() if x != "spec"} for t in part], open(path, "w"))
        runs.append((tlc.Run(module, "Trace.cfg", {"TRACES": path, "PROP": prop}, workers=2,
                             timeout=timeout), part, path))
    fails, states, distinct, done, errors = [], 0, 0, set(), []
    for r, part, path in runs:
        r.wait()
        states += r.generated
        distinct += r.distinct
        mine = set()
        for line in r.text.splitlines():
            line = line.strip()
            if line.startswith('"FAIL '):
                fails.append(parse(line[6:-1]))
            elif line.startswith('"DONE '):
                mine.add(line[6:-1])
        done |= mine
        missing = [t for t in part if t["id"] not in mine]
        if missing:
            errors.append((missing, r.text[-2500:]))
        os.unlink(path)
    seen, uniq = set(), []
    for f in fails:
        k = json.dumps(f, sort_keys=True)
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    return uniq, states, distinct, done, errors


def parse(s):
    for t in (s, s.encode().decode("unicode_escape"), s.replace('\\"', '"').replace("\\\\", "\\")):
        try:
            return json.loads(t)
        except ValueError:
            continue
    return {"prop": "?", "trace": "?", "step": 0, "clause": "unparsed", "detail": s[:500]}


def judge(prop, traces, tmp, module="Trace"):
    """validate; a history that TLC cannot evaluate is run alone"""
    fails, states, distinct, done, errors = validate(prop, traces, tmp, module)
    rounds = 0
    while errors and rounds < 6:
        rounds += 1
        missing = [t for e in errors for t in e[0]]
        text = errors[0][1]
        if len(missing) == 1 or rounds > 4:
            return fails, states, distinct, done, [(m["id"], text) for m in missing]
        f, s, d, dn, errors = validate(prop, missing, tmp, module, chunks=min(8, len(missing)))
        fails += f
        states += s
        distinct += d
        done |= dn
    if errors:
        return fails, states, distinct, done, [(m["id"], e[1]) for e in errors for m in e[0]]
    return fails, states, distinct, done, []


def known():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"open": []}


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        rc = run(prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return rc


def run(prop, tier, seed, t0, tmp):
    plan = plans.plan(prop, tier, seed)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "parts": []}
    fails, errs, broken = [], [], []
    # exhaustive models of the specification itself
    for mc in plan.get("mc", []):
        t1 = time.time()
        res = plans.run_mc(mc, tier, tmp)
        cov["states"] += res["distinct"]
        cov["transitions"] += res["generated"]
        cov["parts"].append(dict(res["info"], seconds=round(time.time() - t1, 1)))
        if res.get("error"):
            errs.append(res["error"])
        plan.setdefault("specs", []).extend(res.get("specs", []))
    # recorded histories
    by_module = {}
    for s in plan.get("specs", []):
        by_module.setdefault(s.get("module", "Trace"), []).append(s)
    traces_by_id = {}
    for module, specs in by_module.items():
        t1 = time.time()
        traces, failures = record(specs, tmp)
        t2 = time.time()
        broken += failures
        for t in traces:
            if t.get("timeout"):
                fails.append({"prop": prop, "trace": t["id"], "step": 0, "clause": "call did not return", "detail": ""})
                t["steps"] = []
            elif t.get("crash"):
                fails.append({"prop": prop, "trace": t["id"], "step": 0, "clause": "the calls of this history can be made",
                              "detail": t["crash"]})
                t["steps"] = []
            traces_by_id[t["id"]] = t
        good = [t for t in traces if t["steps"]]
        f, states, distinct, done, bad = judge(prop, good, tmp, module)
        fails += f
        for i, text in bad:
            fails.append({"prop": prop, "trace": i, "step": 0, "clause": "specification cannot evaluate the observation",
                          "detail": text[-1500:]})
        cov["states"] += distinct
        cov["transitions"] += states
        cov["traces_validated_against_impl"] += len(done)
        cov["calls_replayed"] = cov.get("calls_replayed", 0) + sum(t.get("calls", len(t["steps"])) for t in good)
        cov["parts"].append({"module": module, "traces": len(good), "steps": sum(len(t["steps"]) for t in good),
                             "record_s": round(t2 - t1, 1), "tlc_s": round(time.time() - t2, 1)})
        ops = {}
        for t in good:
            for s in t["steps"]:
                k = s["ev"]["op"] + ("" if s["out"] == "ok" else " refused")
                ops[k] = ops.get(k, 0) + 1
        cov["parts"][-1]["calls"] = ops
        for t in good[:2]:
            cov["samples"].append({"id": t["id"], "calls": [[s["ev"], s["out"]] for s in t["steps"][:12]]})
    # findings that are known
    rc = 0
    kf = known()["open"]
    hits, left = {}, []
    for f in fails:
        m = [k for k in kf if k["property"] == prop and k["trace"] == f["trace"] and k["clause"] == f["clause"]]
        if m:
            hits[m[0]["id"]] = m[0]
        else:
            left.append(f)
    for k in hits.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    cov["known_findings_seen"] = sorted(hits)
    if broken or errs:
        print("ERROR of the check itself:")
        for b in (broken + errs)[:3]:
            print(b)
        rc = 2
    if left:
        left.sort(key=lambda f: (len(traces_by_id.get(f["trace"], {"steps": []})["steps"]), f["trace"], f["step"]))
        first = left[0]
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        t = traces_by_id.get(first["trace"], {})
        json.dump({"property": prop, "failure": first, "others": left[1:20], "trace": t}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        for f in left[:5]:
            print("  %s step %s: %s %s" % (f["trace"], f["step"], f["clause"], json.dumps(f["detail"])[:300]))
        print("  %d failing clauses in %d histories" % (len(left), len({f["trace"] for f in left})))
        rc = 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
          "violations": len(left)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d states, %d transitions, %d histories validated, %.0f s, exit %d" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0, rc))
    return rc


def replay(path):
    """judge a recorded failure again, and the same calls run anew against the code"""
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        t = d["trace"]
        module = t["spec"].get("module", "Trace")
        print("recorded:", json.dumps(d["failure"])[:400])
        f = judge(d["property"], [t], tmp, module)
        print("judged again: %d failing clauses" % len(f[0]))
        spec = dict(t["spec"])
        if module == "Trace" and not spec.get("driver"):
            spec["cfg"] = t["steps"][0]["cfg"]
            spec["events"] = [s["ev"] for s in t["steps"][2:]]
        again, bad = record([dict(spec, id="%s-%d" % (spec["id"], k)) for k in range(16)], tmp)
        f = judge(d["property"], again, tmp, module)
        print("run anew 16 times: failing clauses in %d" % len({x["trace"] for x in f[0]}))
        for x in f[0][:5]:
            print("  ", json.dumps(x)[:600])
        return 1 if f[0] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
