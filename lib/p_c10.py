"""C10: lock discipline analysis."""
import json, os, random, re, tempfile
import sm, vlib

PRE = """typedef struct { int w; } pthread_mutex_t;
int pthread_mutex_lock(pthread_mutex_t *q);
int pthread_mutex_unlock(pthread_mutex_t *q);
struct rec { int k; };
int use(int a, int b);
pthread_mutex_t m; pthread_mutex_t n; pthread_mutex_t o;
int x; int y; int z; int arr[8]; struct rec st;
"""
FORM = {"asg": "{a} = {b} + 1;", "if": "if ({a} > 0) {{ {b} = 1; }}", "ifelse": "if (1) {{ {a} = 2; }} else {{ {b} = 3; }}",
        "while": "while ({a} > 3) {{ {b} = {b} - 1; }}", "for": "for ({a} = 0; {a} < 3; {a}++) {{ {b} = 2; }}",
        "call": "use({a}, {b});", "comp": "{a} += {b};", "tern": "{a} = 1 ? {b} : 0;",
        "switch": "switch ({a}) {{ case 1: {b} = 1; break; default: break; }}", "and": "{a} = !{b} && 1;",
        "nest": "if (1) {{ while (0) {{ {a} = {b}; }} }}", "dowhile": "do {{ {a} = 1; }} while ({b} > 9);",
        "decl": "int t{i} = {a};", "inc": "{a}++;", "dec": "--{a};", "neg": "int t{i} = -{a};", "cond": "use({a} ? 1 : 2, 5);",
        "ret": "return {a};", "arr": "arr[{a}] = {b};", "rdarr": "{a} = arr[{b}];", "fld": "st.k = {a};", "rdfld": "{a} = st.k;",
        "ptr": "pt->k = {a};", "deref": "*dp = {a};", "none": "use(1, 2);"}


def csrc(fs, c=0):
    out = ""
    for k, b in enumerate(fs):
        out += "int c%d_f%d(struct rec *pt, int *dp) {\n" % (c, k)
        for i, s in enumerate(b):
            out += "  " + ("pthread_mutex_%s(&%s);" % (s["k"], s["m"]) if s["k"] != "use" else
                           FORM[s["f"]].format(a=s["a"], b=s["b"], i=i)) + "\n"
        out += "}\n"
    return out


def judge(w, o, fs):
    if "fn" not in o:
        return "analysis failed: " + json.dumps(o)[:300]
    if w["deadlocks"] != o["deadlocks"]:
        return "deadlock warnings: %d expected, %d reported" % (w["deadlocks"], o["deadlocks"])
    for k, (a, b) in enumerate(zip(w["fn"], o["fn"])):
        if b["len"] != len(fs[k]):
            raise vlib.ToolError("one statement became several: %s" % fs[k])
        if a["regions"] != b["regions"]:
            return "f%d: regions %s expected, %s reported" % (k, a["regions"], b["regions"])
        for mu in a["prot"]:
            if sorted(a["prot"][mu]) != b["prot"][mu]:
                return "f%d: %s protects %s, reported %s" % (k, mu, sorted(a["prot"][mu]), b["prot"][mu])
        d = sorted([(i, "un") for i in a["bad"]] + [(i, "lk") for i in a["open"]])
        g = sorted((int(re.search(r"statement (\d+)", x).group(1)), "un" if "mutex_unlock(&" in x else "lk") for x in b["discipline"])
        if d != g or b["nviol"] != len(d):
            return "f%d: broken lock/unlock pairs %s expected, %s reported" % (k, d, b["discipline"])
        e = sorted(map(tuple, a["exposed"]))
        h = sorted({(re.search(r"'(\w+)'", x).group(1), int(re.search(r"statement (\d+)", x).group(1))) for x in b["exposed"]})
        if e != h or (b["nexp"] == 0) != (not e):
            return "f%d: unprotected accesses %s expected, %s reported" % (k, e, h)
        if b["clean"] != (not e and not d):
            return "f%d: clean verdict %s" % (k, b["clean"])
    return None


def gen(x):
    consts, sim = x
    of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "out")
    ln = consts["MaxLen"]
    vlib.tlc("Locks", cfg=sm.cfg_with("Locks.cfg", dict(consts, EmitAt=ln)), envs={"OUT": of}, simulate=sim,
             depth=ln + 1 if sim else None, seed=vlib.SEED if sim else None, heap="4g")
    hs, seen, cnt = [], set(), {}
    for h in vlib.read_csv_json(of):
        k = json.dumps(h["fs"])
        p = json.dumps([h["fs"][:-1], h["fs"][-1][:-1]])
        if k in seen or (sim and cnt.get(p, 0) >= 3):
            continue
        seen.add(k)
        cnt[p] = cnt.get(p, 0) + 1
        hs.append(h)
    return hs


def run(ck, tier):
    big = tier == "thorough"
    forms = "{%s}" % ", ".join('"%s"' % f for f in FORM)
    inst = [({"Mutexes": '{"m", "n"}', "Vars": '{"x"}', "Forms": '{"asg", "none"}', "MaxLen": 6 if big else 5}, None),
            ({"Mutexes": '{"m", "n"}', "Vars": '{"x"}', "Forms": "{}", "MaxLen": 7 if big else 6, "NFun": 2}, None),
            ({"Mutexes": '{"m"}', "Vars": '{"x", "y"}', "Forms": '{"asg", "if"}', "MaxLen": 4}, None),
            ({"Mutexes": '{"m"}', "Vars": '{"x"}', "Forms": forms, "MaxLen": 4 if big else 3}, None)]
    for ln, nf, mu in ((6, 1, '{"m"}'), (9, 1, '{"m", "n"}'), (14, 1, '{"m", "n", "o"}'), (16, 3, '{"m", "n", "o"}')):
        inst.append(({"Mutexes": mu, "Vars": '{"x", "y"}', "Forms": forms, "MaxLen": ln, "NFun": nf}, 1500 if big else 90))
    vlib.bindir()
    hs = []
    tot = 0
    for (c, sim), part in zip(inst, vlib.pmap(gen, inst, 4)):
        mus = re.findall(r'"(\w)"', c["Mutexes"])
        sh = [part[i:i + 250] for i in range(0, len(part), 250)]

        def go(p):
            return vlib.harness("locks", [{"c": PRE + "".join(csrc(h["fs"], k) for k, h in enumerate(p)),
                                           "n": [len(h["fs"]) for h in p], "mutexes": mus}])[0]
        for p, o in zip(sh, vlib.pmap(go, sh)):
            if "cases" not in o:
                ck.violation("analysis fails: " + json.dumps(o)[:600], {"c": PRE + "".join(csrc(h["fs"], k) for k, h in enumerate(p)), "observed": o})
                continue
            for h, x in zip(p, o["cases"]):
                tot += 1
                why = judge(h["w"], x, h["fs"])
                if why and len(ck.violations) < 4:
                    ck.violation("%s\n%s" % (why, csrc(h["fs"])), {"c": PRE + csrc(h["fs"]), "expected": h["w"], "observed": x})
        hs = part or hs
    ck.sample(csrc(hs[0]["fs"]))
    ck.cov.update(traces_validated_against_impl=tot,
                  rule="every function of up to 5 lock, unlock and access statements over two mutexes, every pair of functions with 6 lock "
                       "operations, and random functions of 6-16 statements over three mutexes and 25 forms of access; regions, protected data, "
                       "broken pairs, exposed accesses and deadlock warnings compared")
