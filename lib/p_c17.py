"""C17: which classifier is believed, and how its threshold is tuned."""
import os, tempfile
import sm, vlib


def judge(s, o):
    x = s["s"]
    mm = x["m"]
    rate = lambda a, b, z: z if b == 0 else a / b
    want = [rate(mm["ml_used"], mm["total"], 0), rate(mm["fallback"], mm["total"], 0),
            rate(mm["agreements"], mm["agreements"] + mm["disagreements"], 1)]
    if not (x["on"] == o["on"] and abs(x["th"] - o["th"]) < 1e-6 and mm == o["m"] and all(abs(a - b) < 1e-9 for a, b in zip(want, o["rates"]))):
        return False
    if s["op"] != "ask":
        return True
    r, w = o["r"], s["r"]
    return r["o"] == w["o"] and r["m"] == w["m"] and r["ml"] == w["ml"] and abs(r["c"] - w["c"]) < 1e-3 and r["faithful"] and \
        r["rule"] == {"owning": "owned", "immut": "borrowed", "mut": "borrowedmut", "array": "slice", "unknown": "raw"}[s["k"]]


DEF = [2, 4, 6, 8, 10, 12, 13, 14, 16, 18]


def tune(ck, inst):
    """inst: (crit, cands, confs, n, variant)"""
    crit, cands, confs, n, var = inst
    of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "out")
    S = lambda x: "{" + ", ".join(map(str, x)) + "}"
    vlib.tlc("Tuner", cfg=sm.cfg_with("Tuner.cfg", {"N": n, "Confs": S(confs), "Cands": S(cands), "Crit": '"%s"' % crit}), envs={"OUT": of}, heap="2g")
    return vlib.read_csv_json(of)


def check(ck, inst, ps):
    crit, cands, confs, n, var = inst
    outs = []
    B = 4000
    for k in range(0, len(ps), B):
        req = {"crit": crit, "cands": cands, "sets": [p["ss"] for p in ps[k:k + B]], "default": var == "default", "add": var == "add"}
        o = vlib.harness("tuner", [req])
        if "outs" not in o[0]:
            ck.violation("tuning (%s, candidates %s) ends with %s" % (crit, cands, o[0]), {"request": req})
            return 0
        outs += o[0]["outs"]
    bad = 0
    for p, o in zip(ps, outs):
        m = len(p["ss"])
        if m == 0:
            ok = o["at"] == [] and o["opt"] == 13
        else:
            at = {t: p["at"][t] for t in cands}
            ok = (o["opt"] in p["opt"] and o["optm"] == o["opt"] and o["acc"] == at[o["opt"]][0] and o["base"] == p["base"] and o["mlonly"] == p["mlonly"]
                  and o["imp"] == o["acc"] - p["base"] and sorted(a[0] for a in o["at"]) == sorted(cands)
                  and all(a[3] and [a[1], a[2]] == at[a[0]] for a in o["at"])
                  and ("quick" not in o or o["quick"] in p["opt"]))
        if not ok:
            bad += 1
            if bad <= 2:
                ck.violation("tuning by %s over thresholds %s (20ths): for samples %s the specification prescribes %s, the code gives %s" % (
                    crit, cands, p["ss"], {k: v for k, v in p.items() if k != "ss"}, o), {"prescribed": p, "observed": o, "criterion": crit, "candidates": cands})
    return len(ps)


def run(ck, tier):
    big = tier == "thorough"
    jobs = [("hyb", None, {"StartT": 99, "MaxLen": 2}), ("hyb", None, {"StartT": 8, "MaxLen": 2, "Confs": "{0, 7, 8}"}),
            ("hyb", None, {"StartT": 0, "MaxLen": 2, "Confs": "{0, 1, 8}"})]
    jobs += [("hyb", 2000 if big else 150, {"StartT": t}) for t in (99, 4, 6)]
    for crit in ("accuracy", "f1", "balanced", "minfallback"):
        jobs.append(("tune", crit, [2, 10, 18], [0, 10, 20], 4 if big else 3, "with"))
        jobs.append(("tune", crit, DEF, [9, 10, 13, 14], 3 if big else 2, "default"))
        jobs.append(("tune", crit, [0, 5, 20] if crit != "f1" else [7], [0, 4, 5, 20], 3 if big else 2, "add"))

    def gen(j):
        if j[0] == "tune":
            return tune(ck, j[1:])
        if j[1]:
            return sm.behaviours("Hybrid", "HybridSim.cfg", consts=j[2], simulate=j[1], depth=26, seed=vlib.SEED + j[2]["StartT"], heap="2g")
        return sm.behaviours("Hybrid", consts=j[2], heap="2g")
    vlib.bindir()
    n = 0
    for j, hs in zip(jobs, vlib.pmap(gen, jobs, 6)):
        if j[0] == "tune":
            n += check(ck, j[1:], hs)
        else:
            st = j[2]["StartT"]
            sm.replay(ck, "hybrid", hs, judge, ctx=lambda i, b: {"start": st}, strip=("r", "s"), what="classification history")
            ck.sample(hs[0])
    ck.cov.update(tunings_compared=n,
                  rule="every classification (mode, rule answer, model answer, confidences) at each of the first states, random histories of 25 steps; "
                       "every set of up to 2-4 validation samples under each of the four selection criteria")
    ck.cov["traces_validated_against_impl"] = ck.cov.get("traces_validated_against_impl", 0) + n
