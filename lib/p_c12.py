"""C12: retraining gates."""
import sm, vlib

KEYS = ("MinTrain", "MinVal", "MinTest", "PctTrain", "PctVal")
SEEN = [0]


def judge(s, o):
    if o["s"] != s["s"] or o["r"] != s["r"]:
        return False
    if s["op"] == "execute":
        if s["r"] == "promoted" and not s["used"] and o["s"]["act"] != s["v"]:
            SEEN[0] += 1
        return o["v"] == s["v"] and o["split"] == s["split"]
    return True


def run(ck, tier):
    big = tier == "thorough"
    import re, os
    for cfg, sim in (("Retrain.cfg", None), ("RetrainSim.cfg", 800 if big else 80)):
        txt = open(os.path.join(vlib.SPEC, cfg)).read()
        c = {k: int(re.search(r"\b%s = (\d+)" % k, txt).group(1)) for k in KEYS}
        if sim:
            hs = sm.behaviours("Retrain", cfg, simulate=sim, depth=21, seed=vlib.SEED)
        else:
            hs = sm.behaviours("Retrain", cfg, consts={"MaxLen": 4 if big else 3})
            ck.cov["exhaustive_histories"] = len(hs)
        sm.replay(ck, "retrain", hs, judge, ctx=lambda i, b: {"cfg": c}, strip=("r", "s", "split", "used"), what="retraining history")
        ck.sample(hs[-1][:6])
    if SEEN[0]:
        k = [k for k in vlib.known_findings("C12") if k.get("key") == "promoted-not-active"]
        if k:
            ck.findings.append(k[0]["what"])
        else:
            ck.violation("a model within the degradation tolerance is reported as promoted and not put into use", {})
    ck.cov["rule"] = ("every transition of the pipeline within the first steps over boundary sample counts and metrics, random "
                      "histories of 20 steps with another configuration")
