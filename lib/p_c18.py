"""C18: quality figures agree with what was recorded."""
import math
import sm, vlib

near = lambda a, b: abs(a - b) < 1e-9
rate = lambda a, b: a / b if b else 0.0
nz = lambda d: {k: v for k, v in d.items() if v}


def wilson(s, n):
    """The two solutions x of (s/n - x)^2 = z^2 x (1 - x) / n."""
    if not n:
        return 0.0, 1.0
    z2, p = 1.96 ** 2, s / n
    a, b, c = 1 + z2 / n, 2 * p + z2 / n, p * p
    d = math.sqrt(max(0.0, b * b - 4 * a * c))
    return (b - d) / (2 * a), (b + d) / (2 * a)


def judge(s, o):
    w = s["s"]
    c, l, f = w["cm"], w["lm"], w["fm"]
    n = c["ok"] + c["bad"]
    cm = o["c"]
    if not (cm[:3] == [n, c["ok"], c["bad"]] and near(cm[3], rate(c["ok"], n)) and nz(cm[4]) == nz(c["codes"]) and cm[5] == w["cpass"] == cm[6] and o["c2"]):
        return False
    if "| Success Rate | %.1f%% |" % (100 * rate(c["ok"], n)) not in o["md"] or any("| %s | %d |" % x not in o["md"] for x in nz(c["codes"]).items()):
        return False
    if not (o["l"][:2] == [l["n"], l["first"]] and near(o["l"][2], rate(l["first"], l["n"])) and near(o["l"][3], rate(l["its"], l["n"]))
            and nz(o["l"][4]) == nz({str(k): v for k, v in (l["h"].items() if isinstance(l["h"], dict) else enumerate(l["h"], 1))}) and o["l"][5] == w["lpass"]):
        return False
    lo, hi = wilson(f["first"], f["n"])
    b = o["b"]
    if not (b[:3] == [f["n"], f["first"], f["ev"]] and near(b[3], rate(f["first"], f["n"])) and near(b[4], rate(f["its"], f["ev"])) and b[5] == w["fpass"]
            and abs(b[6] - max(lo, 0)) < 1e-7 and abs(b[7] - min(hi, 1)) < 1e-7 and b[8] == (b[7] < .85) and b[9] == (b[6] <= .85 <= b[7])):
        return False
    for t, a, k in o["t"]:
        x = w["tm"][t]
        if not (near(a, rate(x["tr"], x["n"])) and near(k, rate(x["co"], x["n"]))) or \
                "| %s | %d | %d | %d | %.1f%% | %.1f%% |" % (t, x["n"], x["tr"], x["co"], 100 * rate(x["tr"], x["n"]), 100 * rate(x["co"], x["n"])) not in o["tmd"]:
            return False
    x = w["ttot"]
    if not (near(o["tt"][0], rate(x["tr"], x["n"])) and near(o["tt"][1], rate(x["co"], x["n"]))) or "| **Total** | **%d** | **%d** | **%d** |" % (x["n"], x["tr"], x["co"]) not in o["tmd"]:
        return False
    if o["e"] != [w["fail"], w["pass"]] or o["ids"] != list(range(1, w["fail"] + 1)) or nz(o["dd"]) != nz(w["dd"]):
        return False
    if any(k != w["dd"].get(d, 0) for d, k in o["bd"]):
        return False
    fe = w["feats"] or {}
    if any(k != (fe.get(d) or {"ff": 0})["ff"] for d, k in o["bf"]) or nz(o["fdist"]) != nz({k: v["ff"] for k, v in fe.items()}):
        return False
    if sorted(map(tuple, o["fd"])) != sorted((a, d, k) for a, ds in w["fd"].items() for d, k in ds.items() if k):
        return False
    if {x[0] for x in o["susp"]} != set(fe) or [x[1] for x in o["susp"]] != sorted((x[1] for x in o["susp"]), reverse=True) or o["top"] != min(2, len(fe)):
        return False
    for name, sc, tot, ff, fp, s5, s7 in o["susp"]:
        y = fe[name]
        if not (near(sc, rate(y["num"], y["den"])) and [ff, fp, tot] == [y["ff"], y["fp"], y["ff"] + y["fp"]] and s5 == (2 * y["num"] > y["den"]) and s7 == (name in w["susp"])):
            return False
    if sorted(x[0] for x in o["sug"] if x[0]) != sorted(w["susp"]) or sorted(x[1] for x in o["sug"] if x[1]) != sorted(w["often"]):
        return False
    it = w["it"]
    return o["it"] == [it["n"] + 1, w["retry"], it["last"], sum(it["all"]), it["n"] > 0] and \
        [x.split(":")[0] for x in o["fb"]] == ["Iteration %d" % (i + 1) for i, k in enumerate(it["all"]) for _ in range(k)]


def run(ck, tier):
    big = tier == "thorough"
    inst = [(None, dict(MaxLen=4 if big else 3)), (None, dict(MaxLen=12 if big else 9, Tiers='{"P0"}', Codes='{"UNKNOWN"}', Its="{1}")),
            (None, dict(Ops='{"errors"}', MaxLen=4 if big else 3)), (None, dict(Ops='{"errors"}', Feats='{"f1"}', Defs='{"d1"}', MaxLen=14 if big else 11)),
            (None, dict(Ops='{"tries"}', MaxLen=6)), (None, dict(Ops='{"tries"}', MaxTry=0, MaxLen=3))]
    inst += [(2000 if big else 80, {})]

    def gen(x):
        if x[0]:
            return sm.behaviours("Ledger", "LedgerSim.cfg", consts=x[1], simulate=x[0], depth=41, seed=vlib.SEED + 5, heap="2g")
        return sm.behaviours("Ledger", consts=x[1], heap="2g")
    vlib.bindir()
    ex = 0
    for x, hs in zip(inst, vlib.pmap(gen, inst, 6)):
        ex += 0 if x[0] else len(hs)
        tiers = sorted(hs[0][0]["s"]["tm"])
        sm.replay(ck, "ledger", hs, judge, strip=("s",), what="record", ctx=lambda i, b: {"tiers": tiers, "maxtry": x[1].get("MaxTry", 3)})
    ck.sample(hs[0][:3])
    ck.cov.update(exhaustive_histories=ex, rule="every transition of each ledger within the first steps, random histories of 40 records; all figures compared after every record")
