"""C05: the cache never returns an outdated result."""
import random
import sm, vlib


def judge(s, o):
    if s["op"] == "get":
        return (o["r"] == s["r"] and o["h"] == s["h"] and o["t"] == s["t"]
                and s["m0"] <= o["m"] <= s["m1"])
    if s["op"] == "load":
        return o == s["r"]
    return o is True


def run(ck, tier):
    big = tier == "thorough"
    hs = sm.behaviours("Cache", consts={"MaxLen": 6 if big else 5})
    n1 = len(hs)
    hs += sm.behaviours("Cache", "CacheSim.cfg", simulate=1500 if big else 150, depth=31, seed=vlib.SEED)
    r = random.Random(vlib.SEED)
    for h in hs:
        for s in h:
            if s["op"] == "crash":
                s["at"] = r.randrange(1000)
    sm.replay(ck, "cache", hs, judge, strip=("r", "h", "t", "m0", "m1"), what="cache history")
    ck.sample(hs[0])
    ck.sample(hs[-1][:12])
    ck.cov.update(exhaustive_histories=n1, simulated_histories=len(hs) - n1,
                  rule="every transition of the cache model reachable within %d steps (one source, two headers, "
                       "two contents), plus random histories of 30 steps over two sources and three contents" % (6 if big else 5))
