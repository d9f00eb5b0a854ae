"""C13: the labelling queue of active learning."""
import sm, vlib


def near(a, b, tol=3):
    return abs(a - b) <= tol


def judge(s, o):
    x, y = s["s"], o["s"]
    if not (x["tot"] == y["tot"] and x["lab"] == y["lab"] and x["labels"] == y["labels"] and x["right"] == y["right"]
            and len(x["pend"]) == y["npend"] and len(x["lab"]) == y["nlab"] and near(x["sum"], y["sum"], 3 + len(x["pend"]))):
        return False
    if "pend" in y and not (y["pend"] == x["pend"] and y["ok"]):
        return False
    if s["op"] == "take":
        return [i[0] for i in s["r"]] == [i[0] for i in o["r"]] and all(near(i[1], j[1]) for i, j in zip(s["r"], o["r"]))
    if s["op"] == "add":
        return near(s["r"][0], o["r"][0], 2 if s["r"][0] > 1000 else 0) and s["r"][1] == o["r"][1]
    return s["r"] == o["r"]


def run(ck, tier):
    big = tier == "thorough"
    inst = [("queue", "uncertainty", 2, 4000, None, {"MaxLen": 5 if big else 4}),
            ("queue", "margin", 1, 4000, None, {"MaxLen": 5 if big else 4, "Confs": "{0, 3, 6}", "Kinds": '{"owned"}'}),
            ("queue", "uncertainty", 0, 4000, None, {"MaxLen": 3}),
            ("learner", "uncertainty", 1000, 4000, None, {"MaxLen": 5 if big else 4}),
            ("learner", "margin", 1000, 7300, None, {"MaxLen": 4, "Confs": "{0, 3, 4, 7}", "Kinds": '{"owned"}'})]
    num = 400 if big else 25
    for k, (mode, strat, mx, mu) in enumerate([("queue", "uncertainty", 3, 4000), ("queue", "margin", 5, 4000), ("queue", "entropy", 4, 4000),
                                               ("learner", "uncertainty", 1000, 3000), ("learner", "margin", 1000, 7300),
                                               ("learner", "entropy", 1000, 7000)]):
        inst.append((mode, strat, mx, mu, num, {"Confs": "{0, 1, 2, 3, 4, 6, 7, 8}"}))

    def gen(x):
        mode, strat, mx, mu, sim, c = x
        c = dict(c, Mode='"%s"' % mode, Strategy='"%s"' % strat, MaxPend=mx, MinU=mu)
        if sim:
            return sm.behaviours("Labeling", "LabelingSim.cfg", consts=c, simulate=sim, depth=31, seed=vlib.SEED + len(strat), heap="2g")
        return sm.behaviours("Labeling", consts=c, heap="2g")
    vlib.bindir()
    n1 = 0
    for x, hs in zip(inst, vlib.pmap(gen, inst, 6)):
        mode, strat, mx, mu, sim, c = x
        n1 += 0 if sim else len(hs)
        sm.replay(ck, "labeling", hs, judge, ctx=lambda i, b: {"mode": mode, "strategy": strat, "max": mx, "minu": mu},
                  strip=("r", "s"), what="labelling history (%s, %s)" % (mode, strat))
    ck.sample(hs[0][:5])
    ck.cov.update(exhaustive_histories=n1,
                  rule="every transition of the queue and of the learner in front of it within the first steps, over capacities 0-2 and "
                       "three selection strategies, plus random histories of 30 steps; order, contents and statistics compared after every step")
