"""C07: #include processing."""
import json, os, random, tempfile
import sm, vlib

LAYOUT = [{"h1": "h1.h", "h2": "h2.h", "h3": "h3.h", "h9": "h9.h"},
          {"h1": "h1.h", "h2": "sub/h2.h", "h3": "sub/h3.h", "h9": "sub/h9.h"},
          {"h1": "a/h1.h", "h2": "b/h2.h", "h3": "b/c/h3.h", "h9": "h9.h"}]
STYLE = ['# include "%s"\n', '#include "%s"\n', '  #include  "%s"\n', '#include "%s" // x\n', '#include "%s"\r\n', '#include"%s"\n', '#include "%s" /* <stdio.h> */\n']


def files(rec, lay, r):
    out = {}
    for f, items in rec["fs"].items():
        p = "main.c" if f == "main" else lay[f]
        once = r.random() < .3      # #pragma once instead of an include guard
        s = "" if f == "main" else "#pragma once\n" if once else "#ifndef G_%s\n#define G_%s\n" % (f, f)
        for i, it in enumerate(items):
            if it["k"] == "t":
                s += "int t_%s_%d(int a) { return a + %d; }\n" % (f, i + 1, i)
            elif it["k"] == "sys":
                s += r.choice(["#include <%s>\n", "#include <%s> // see \"h1.h\"\n", "#  include<%s> /* \"x\" */\n"]) % it["x"]
            else:
                s += r.choice(STYLE) % os.path.relpath(lay[it["x"]], os.path.dirname(p) or ".")
        out[p] = s + ("" if f == "main" or once else "#endif\n")
    return out


def run(ck, tier):
    big = tier == "thorough"
    r = random.Random(vlib.SEED)
    d = tempfile.mkdtemp(dir=vlib.scratch())
    recs = []

    def emit(name, **kw):
        of = os.path.join(d, name)
        consts = kw.pop("consts", {})
        vlib.tlc("Includes", cfg=sm.cfg_with("Includes.cfg", consts), envs={"OUT": of}, **kw)
        u = {json.dumps(x, sort_keys=True) for x in vlib.read_csv_json(of)}
        return [json.loads(x) for x in sorted(u)]
    ex = emit("ex", consts={"MaxItems": 4 if big else 3})
    sim = emit("sim", consts={"MaxItems": 14, "EmitAt": 8, "Absent": '{}'}, simulate=900 if big else 120, depth=15, seed=vlib.SEED)
    sim2 = emit("sim2", consts={"MaxItems": 9, "EmitAt": 7}, simulate=200 if big else 30, depth=10, seed=vlib.SEED)
    r.shuffle(sim), r.shuffle(sim2)
    recs = ex + sim[:12000 if big else 1500] + sim2[:2000 if big else 300]
    reqs = []
    for i, rec in enumerate(recs):
        lay = LAYOUT[i % 3] if len(rec["fs"]["main"]) < 3 else r.choice(LAYOUT)
        reqs.append({"id": i, "dir": os.path.join(d, "f%d" % i), "files": files(rec, lay, r), "main": "main.c", "lay": lay})
    vlib.bindir()
    sh = [reqs[k::vlib.NPROC] for k in range(vlib.NPROC)]
    bad = 0
    for part, res in zip(sh, vlib.pmap(lambda p: vlib.harness("includes", p), sh)):
        for n, q in enumerate(part):
            rec = recs[q["id"]]
            if n >= len(res):
                break
            o = res[n]
            want = "err" if rec["err"] else sorted("%s_%d" % tuple(x) for x in rec["out"])
            dep = "err" if rec["err"] else sorted(q["lay"][h] for h in rec["done"])
            # (the order in which functions are emitted carries no meaning in Rust)
            o = {k: sorted(v) if isinstance(v, list) else v for k, v in o.items()}
            exp = {"includes": want, "file": want, "path": want, "deps": dep}
            if o != exp:
                bad += 1
                if bad <= 4 or os.environ.get("ALLBAD"):
                    ck.violation("files %s\nspecification %s\ncode %s" % (
                        json.dumps(q["files"], indent=1), json.dumps(exp), json.dumps(o)[:1000]), {"request": q, "expected": exp, "observed": o})
            if "crash" in o:
                break
    ck.sample(reqs[len(ex) // 2]["files"])
    ck.sample(reqs[-1]["files"])
    ck.cov.update(traces_validated_against_impl=len(recs), exhaustive_file_sets=len(ex), random_file_sets=len(recs) - len(ex),
                  with_error=sum(1 for x in recs if x["err"]),
                  rule="every set of files of up to %d lines (functions, local includes incl. cycles and missing files, system "
                       "includes) reachable from the source, random ones of up to 14 lines, in three directory layouts; "
                       "three entry points each" % (4 if big else 3))
