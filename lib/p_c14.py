"""C14: pattern retirement and the oracle's CI gate."""
import sm, vlib

near = lambda a, b: abs(a - b) < 1e-5


def judge(s, o):
    w = s["s"]
    if {p[0] for p in o["pat"]} != set(w["pat"]):
        return False
    for n, uses, win, ok, bad, sup, used, rate in o["pat"]:
        p = w["pat"][n]
        if not (uses == p["uses"] and win == p["win"] and ok == p["ok"] and bad == uses - ok and (sup or "none") == p["sup"]
                and used == (uses > 0) and near(rate, ok / uses if uses else 0)):
            return False
    if o["dec"] != o["batch"]:
        return False
    for n, d in o["dec"]:
        x = w["dec"][n]
        p = w["pat"][n]
        val = p["ok"] / p["uses"] if x["why"] == "failures" else x["uses"]
        if not (d["d"] == x["d"] and d["why"] == x["why"] and d["ok"] and near(d["uses"], val)):
            return False
    sw = dict(w["sweep"], gone=sorted(w["sweep"]["gone"]))
    if o["sweep"] != sw or o["gone"] != sw["gone"] or o["retired"] != len(sw["gone"]) or not near(o["rate"], len(sw["gone"]) / sw["total"]):
        return False
    t, m = w["tot"], o["met"]
    n = t["hits"] + t["misses"]
    hit, fix = t["hits"] / n if n else 0, t["verified"] / t["applied"] if t["applied"] else 0
    if not (m["queries"] == n and m["hits"] == t["hits"] and m["misses"] == t["misses"] and m["fixes_applied"] == t["applied"]
            and m["fixes_verified"] == t["verified"] and near(o["hit"], hit) and near(o["fix"], fix) and o["orc"]):
        return False
    for c, x in w["q"].items():
        y = m["by_error_code"].get(c, {"queries": 0, "hits": 0, "fixes_applied": 0, "fixes_verified": 0})
        if y != {"queries": x["hits"] + x["misses"], "hits": x["hits"], "fixes_applied": x["applied"], "fixes_verified": x["verified"]}:
            return False
    return o["passes"] == o["md"] == o["passes2"] == w["passes"] and near(o["pct"][0], 100 * hit) and near(o["pct"][1], 100 * fix)


def run(ck, tier):
    big = tier == "thorough"
    R = lambda mu, rn, rd, ar, **k: dict(k, MinUse=mu, RateN=rn, RateD=rd, Arch=ar)
    G = lambda a, b, c, d, **k: dict(k, HitN=a, HitD=b, FixN=c, FixD=d)
    inst = [("default", None, R(5, 3, 10, "TRUE", MaxLen=12 if big else 10)),
            ("with", None, R(2, 1, 2, "FALSE", MaxLen=9 if big else 8)),
            ("with", None, R(0, 1, 1, "TRUE", MaxLen=8 if big else 7)),
            ("with", None, R(1, 2, 3, "FALSE", MaxLen=6 if big else 4, Pats='{"p1", "p2"}')),
            ("default", None, G(1, 2, 4, 5, Ops='"gate"', MaxLen=10 if big else 7)),
            ("with", None, G(3, 4, 1, 1, Ops='"gate"', MaxLen=8 if big else 6)),
            ("with", None, G(0, 1, 1, 3, Ops='"gate"', Codes='{"E1", "E2"}', MaxLen=6 if big else 5))]
    num = 1000 if big else 60
    inst += [("default", num, {}), ("with", num, dict(R(3, 3, 8, "FALSE"), **G(2, 3, 3, 4))), ("with", num, dict(R(4, 3, 4, "TRUE"), **G(1, 3, 1, 2)))]

    def gen(x):
        if x[1]:
            return sm.behaviours("Upkeep", "UpkeepSim.cfg", consts=x[2], simulate=x[1], depth=41, seed=vlib.SEED + 7, heap="2g")
        return sm.behaviours("Upkeep", consts=x[2], heap="2g")
    D = dict(MinUse=5, RateN=3, RateD=10, Arch="TRUE", HitN=1, HitD=2, FixN=4, FixD=5, Pats='{"p1"}')
    vlib.bindir()
    ex = 0
    for x, hs in zip(inst, vlib.pmap(gen, inst, 6)):
        c = dict(D, **x[2])
        pats = sorted(hs[0][0]["s"]["pat"])
        ex += 0 if x[1] else len(hs)
        sm.replay(ck, "upkeep", hs, judge, strip=("s",), what="oracle history",
                  ctx=lambda i, b: {"default": x[0] == "default", "minuse": c["MinUse"], "raten": c["RateN"], "rated": c["RateD"], "arch": c["Arch"] == "TRUE",
                                    "hitn": c["HitN"], "hitd": c["HitD"], "fixn": c["FixN"], "fixd": c["FixD"], "pats": pats})
    ck.sample(hs[0][:4])
    ck.cov.update(exhaustive_histories=ex,
                  rule="every transition of the statistics of one or two patterns and of the query counters within the first steps under several "
                       "configurations, random histories of 40 steps; every decision, sweep, rate and gate verdict compared after every step")
