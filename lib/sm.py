"""State machine checks: TLC explores a specification (checking its invariants)
and emits behaviours; each behaviour is replayed step by step into the real
code, whose observations have to be the ones the specification prescribes."""
import copy, json, os, random, shutil, tempfile
import vlib
from vlib import ToolError


def cfg_with(cfg, consts):
    """A copy of spec/<cfg> with some constants overridden, in scratch."""
    import re
    s = open(os.path.join(vlib.SPEC, cfg)).read()
    for k, v in (consts or {}).items():
        s, n = re.subn(r"\b%s = (\{[^}]*\}|\S+)" % re.escape(k), "%s = %s" % (k, v), s)
        if not n:
            raise ToolError("no constant %s in %s" % (k, cfg))
    p = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), cfg)
    with open(p, "w") as f:
        f.write(s)
    return p


def behaviours(module, cfg=None, consts=None, simulate=None, depth=None, seed=None, envs=None, timeout=800, heap="6g"):
    """Histories emitted by TLC, deduplicated, proper prefixes dropped."""
    of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "out")
    vlib.tlc(module, cfg=cfg_with(cfg or module + ".cfg", consts), envs=dict(envs or {}, OUT=of),
             simulate=simulate, depth=depth, seed=seed, timeout=timeout, heap=heap)
    seen, hs = set(), []
    for h in vlib.read_csv_json(of):
        k = tuple(json.dumps(s, sort_keys=True) for s in h)
        if k not in seen:
            seen.add(k)
            hs.append((k, h))
    pre = set()
    for k, h in hs:
        for n in range(len(k)):
            pre.add(k[:n])
    out = [(k, h) for k, h in hs if k not in pre]
    if simulate:
        # TLC emits every alternative last step of a simulated behaviour: keep two
        cnt, res = {}, []
        for k, h in out:
            c = cnt.get(k[:-1], 0)
            if c < 2:
                cnt[k[:-1]] = c + 1
                res.append((k, h))
        out = res
    out.sort(key=lambda x: x[0])
    return [h for k, h in out]


def eq(step, obs):
    """Default judgement: every prescribed key of 'r' equals the observation."""
    return obs == step.get("r")


def replay(ck, sub, hs, judge=eq, ctx=None, nproc=vlib.NPROC, strip=("r",), what="history", maxbad=4, timeout=60):
    """Replays histories through harness subcommand `sub`.  ctx(i) -> extra
    fields of the request (scratch dirs).  judge(step, obs) -> bool."""
    vlib.bindir()
    nproc = max(1, min(nproc, (len(hs) + 49) // 50))
    shards = [list(range(i, len(hs), nproc)) for i in range(nproc)]
    base = tempfile.mkdtemp(dir=vlib.scratch())

    def go(ix):
        req = []
        for i in ix:
            r = {"steps": [{k: v for k, v in s.items() if k not in strip} for s in hs[i]]}
            r.update(ctx(i, base) if ctx else {"dir": os.path.join(base, "h%d" % i)})
            req.append(r)
        return vlib.harness(sub, req, timeout=timeout)
    steps = 0
    checked = 0
    bad = []
    for ix, outs in zip(shards, vlib.pmap(go, shards, nproc)):
        for n, i in enumerate(ix):
            if n >= len(outs):
                break
            o = outs[n]
            if "obs" not in o:
                bad.append((i, None, o))
                if "crash" in o:
                    break
                continue
            for j, s in enumerate(hs[i]):
                steps += 1
                if j >= len(o["obs"]):
                    bad.append((i, j, "no observation"))
                    break
                if judge(s, o["obs"][j]):
                    checked += 1
                else:
                    bad.append((i, j, o["obs"][j]))
                    break
    shutil.rmtree(base, ignore_errors=True)
    bad.sort(key=lambda x: (len(hs[x[0]]), x[0]))
    for i, j, o in bad[:maxbad]:
        h = hs[i] if j is None else hs[i][:j + 1]
        ck.violation("%s of %d steps: at step %s the specification prescribes %s, the code shows %s\n%s" % (
            what, len(hs[i]), j, json.dumps(hs[i][j] if j is not None else "no failure"), json.dumps(o)[:600],
            "\n".join("  " + json.dumps(s) for s in h)),
            {"history": hs[i], "step": j, "observed": o})
    ck.cov["steps_compared"] = ck.cov.get("steps_compared", 0) + steps
    ck.cov["traces_validated_against_impl"] = ck.cov.get("traces_validated_against_impl", 0) + len(hs)
    return len(bad)
