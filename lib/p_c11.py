"""C11: model versions, activation and rollback."""
import sm, vlib


def judge(s, o):
    return o["r"] == s["r"] and o["s"] == s["s"]


def run(ck, tier):
    big = tier == "thorough"
    # every transition of small instances, then long random histories
    inst = [(2, None, {"Accs": "{849, 850, 935}" if big else "{849, 850}", "F1s": "{799, 810}", "MaxLen": 3}),
            (2, None, {"Accs": "{860, 935}", "F1s": "{900}", "MaxLen": 4 if big else 3, "MaxVers": 4})]
    if big:
        inst.append((3, None, {"MaxHist": 3, "Accs": "{935}", "F1s": "{810, 900}", "MaxLen": 4, "MaxVers": 5}))
    inst += [(mx, 500 if big else 30, {"MaxHist": max(2, mx)}) for mx in (0, 2, 3, 5)]

    def gen(x):
        mx, sim, c = x
        if sim:
            return sm.behaviours("ModelVersions", "ModelVersionsSim.cfg", consts=c, simulate=sim, depth=25, seed=vlib.SEED + mx, heap="3g")
        return sm.behaviours("ModelVersions", consts=c)
    n1 = 0
    vlib.bindir()
    for (mx, sim, c), hs in zip(inst, vlib.pmap(gen, inst, 6)):
        n1 += 0 if sim else len(hs)
        sm.replay(ck, "versions", hs, judge, ctx=lambda i, b: {"max": mx}, strip=("r", "s"), what="version history")
    ck.sample(hs[0][:5])
    ck.cov.update(exhaustive_histories=n1,
                  rule="every transition of the version store within the first steps over boundary metrics, plus random "
                       "histories of 24 steps with histories of 2, 3 and 5 kept versions; the whole visible state is compared "
                       "after every step")
