"""C06: build order."""
import json, os, random, tempfile
import sm, vlib


def graphs(n, loops):
    of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "out")
    vlib.tlc("BuildOrder", cfg=sm.cfg_with("BuildOrder.cfg", {"N": n, "Loops": "TRUE" if loops else "FALSE"}),
             envs={"OUT": of, "CASES": ""})
    gs = {json.dumps(sorted(x["e"])) for x in vlib.read_csv_json(of)}
    return [(n, json.loads(x)) for x in sorted(gs)]


def run(ck, tier):
    big = tier == "thorough"
    r = random.Random(vlib.SEED)
    gs = graphs(1, True) + graphs(2, True) + graphs(3, True) + graphs(4, False)
    exh = len(gs)
    for _ in range(6000 if big else 700):
        n = r.randint(5, 9)
        o = list(range(1, n + 1))
        r.shuffle(o)
        e = set()
        for _ in range(r.randint(2, 2 * n)):
            i, j = sorted(r.sample(range(n), 2))
            e.add((o[j], o[i]))
        if r.random() < .35:
            i, j = sorted(r.sample(range(n), 2))
            e.add((o[i], o[j]))
        gs.append((n, sorted(map(list, e))))
    base = tempfile.mkdtemp(dir=vlib.scratch())
    reqs = []
    for i, (n, e) in enumerate(gs):
        for m in ("api", "files"):
            perm = list(range(1, n + 1))
            r.shuffle(perm)
            e2 = list(e)
            r.shuffle(e2)
            reqs.append({"id": len(reqs), "n": n, "e": e2, "perm": perm, "mode": m, "style": r.randrange(16),
                         "dir": os.path.join(base, "o%d" % len(reqs))})
    vlib.bindir()
    sh = [reqs[k::vlib.NPROC] for k in range(vlib.NPROC)]
    outs = {}
    for part, res in zip(sh, vlib.pmap(lambda p: vlib.harness("order", p), sh)):
        for q, o in zip(part, res):
            outs[q["id"]] = o
    judged = []
    for q in reqs:
        o = outs.get(q["id"], {"crash": True})
        if "ord" not in o or o["cnt"] != q["n"]:
            ck.violation("building the graph of %s fails: %s" % (json.dumps(q), json.dumps(o)), {"request": q, "observed": o})
        else:
            judged.append(dict(id=q["id"], n=q["n"], e=q["e"], err=o["err"], ord=o["ord"], h=o["h"]))
    ok = judge(judged)
    for q in judged:
        if not ok[q["id"]]:
            ck.violation("files %d, dependencies %s: build order %s, dependencies seen %s" % (
                q["n"], q["e"], "error" if q["err"] else q["ord"], q["h"]), {"request": reqs[q["id"]], "observed": q})
    # the judgement must be able to fail: a reversed order of a graph with edges
    w = [dict(q, ord=q["ord"][::-1]) for q in judged if not q["err"] and q["e"]][:50] + \
        [dict(q, err=not q["err"]) for q in judged[:50]]
    w = [dict(q, id=i) for i, q in enumerate(w)]
    if not ck.violations and any(judge(w).values()):
        raise vlib.ToolError("the judgement accepts corrupted answers")
    ck.sample(reqs[700])
    ck.sample(judged[-1])
    ck.cov.update(traces_validated_against_impl=len(judged), exhaustive_graphs=exh, random_graphs=len(gs) - exh,
                  cyclic=sum(1 for q in judged if q["err"]),
                  rule="every graph over 1-3 files with self dependencies and over 4 files without, random graphs over 5-9 "
                       "files; added through the API and read from #include lines; TLC judges each recorded answer")


def judge(recs):
    d = tempfile.mkdtemp(dir=vlib.scratch())
    k = max(1, min(vlib.NPROC, len(recs) // 200))

    def go(s):
        cf, of = os.path.join(d, "c%d" % s), os.path.join(d, "o%d" % s)
        with open(cf, "w") as f:
            for x in recs[s::k]:
                f.write(json.dumps(x) + "\n")
        vlib.tlc("BuildOrder", cfg=sm.cfg_with("BuildOrder.cfg", {"Mode": '"judge"'}), envs={"CASES": cf, "OUT": of})
        return {x["id"]: x["ok"] for x in vlib.read_csv_json(of)}
    res = {}
    for p in vlib.pmap(go, range(k)):
        res.update(p)
    if len(res) != len(recs):
        raise vlib.ToolError("TLC judged %d of %d" % (len(res), len(recs)))
    return res
