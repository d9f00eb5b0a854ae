"""C08: transpiling a project again and again."""
import json, os, random, re, shutil, subprocess, tempfile
import sm, vlib

PATH = {"a": "a.c", "b": "sub/b.c", "c": "c.c", "h1": "inc/h1.h", "h2": "inc/h2.h"}
FN = re.compile(r"fn (\w+)\(\)\s*->\s*i32\s*\{\s*return (\d+);")


def content(f, v, incl):
    s = "" if f[0] != "h" else "#ifndef G_%s\n#define G_%s\n" % (f, f)
    if f == "a":
        s += '#include "inc/h1.h"\n'
    if f == "b" and incl["b"]:
        s += '#include "../inc/h1.h"\n'
    if f == "h1" and incl["h1"]:
        s += '#include "h2.h"\n'
    s += "int f_%s(void) { return %d; }\n" % (f, v)
    return s + ("" if f[0] != "h" else "#endif\n")


def snapshot(path):
    if not os.path.exists(path):
        return []
    m = FN.findall(open(path).read())
    d = dict(m)
    if len(d) != len(m):
        return ["duplicates", m]
    own = "f_" + os.path.basename(path)[0]
    return [int(d.pop(own, 0)), int(d.pop("f_h1", 0)), int(d.pop("f_h2", 0))] + sorted(d)


def play(h, base, srcs):
    """Observations of a history against the decy command."""
    exe = os.path.join(vlib.bindir(), "decy")
    proj = os.path.join(base, "p")
    os.makedirs(os.path.join(proj, "sub")), os.makedirs(os.path.join(proj, "inc"))
    disk, incl = {f: 1 for f in PATH}, {"b": True, "h1": True}
    for f in ("a", "b", "c"):
        if f not in srcs:
            disk[f] = 0

    def put(f):
        p = os.path.join(proj, PATH[f])
        if disk[f] == 0:
            if os.path.exists(p):
                os.remove(p)
        else:
            with open(p, "w") as fh:
                fh.write(content(f, disk[f], incl))
    for f in PATH:
        put(f)

    def cmd(*a):
        try:
            r = subprocess.run([exe, *a], capture_output=True, text=True, timeout=60, cwd=base, env=vlib.env())
            return r.returncode
        except subprocess.TimeoutExpired:
            return "hang"

    def outs(d):
        return {s: snapshot(os.path.join(base, d, PATH[s][:-2] + ".rs")) for s in srcs}

    def tree():
        # what is in the project directory besides decy's own folder
        return sorted((os.path.join(d, x), open(os.path.join(d, x)).read()) for d, ds, fs in os.walk(proj)
                      for x in fs if "/.decy" not in d)
    for i, s in enumerate(h):
        op = s["op"]
        if op == "write":
            disk[s["f"]] = s["v"]
            put(s["f"])
        elif op == "delete":
            disk[s["f"]] = 0
            put(s["f"])
        elif op == "toggle":
            incl[s["f"]] = not incl[s["f"]]
            put(s["f"])
        elif op == "wipe":
            shutil.rmtree(os.path.join(base, s["d"]), ignore_errors=True)
        elif op == "damage":
            p = os.path.join(proj, ".decy/cache/cache.json")
            if os.path.exists(p):
                b = open(p, "rb").read()
                with open(p, "wb") as fh:
                    fh.write(b[:len(b) * ((i * 37) % 100) // 100])
        elif op in ("run", "dry"):
            before = tree()
            a = ["transpile-project", proj, "-o", os.path.join(base, s["d"]), "-q"]
            if op == "dry":
                a.append("--dry-run")
            elif not s["cache"]:
                a.append("--no-cache")
            rc = cmd(*a)
            o = outs(s["d"])
            ok = all(o[x] in s["o"][x] for x in srcs) and tree() == before
            if op == "run":
                ok = ok and (rc == 0) == s["ok"] and rc != "hang"
            if not ok:
                return i, {"exit": rc, "outputs": o, "sources untouched": tree() == before}
        elif op == "one":
            t = os.path.join(base, s["f"] + ".rs")
            if os.path.exists(t):
                os.remove(t)
            rc = cmd("transpile", os.path.join(proj, PATH[s["f"]]), "-o", t)
            o = snapshot(t)
            if rc == "hang" or (rc == 0) != s["ok"] or (s["ok"] and o not in s["o"]) or (not s["ok"] and o != []):
                return i, {"exit": rc, "output": o}
    return None


def run(ck, tier):
    big = tier == "thorough"
    r = random.Random(vlib.SEED)
    hs = sm.behaviours("Project", consts={"MaxLen": 4 if big else 3})
    # only histories that end in an observation tell something; a run first makes the cache matter
    obs = ("run", "dry", "one")
    hs = [h for h in hs if h[-1]["op"] in obs]
    if not big:
        r.shuffle(hs)
        hs = hs[:500]
    n1 = len(hs)
    hs += sm.behaviours("Project", "ProjectSim.cfg", simulate=600 if big else 160, depth=17, seed=vlib.SEED)
    base = tempfile.mkdtemp(dir=vlib.scratch())
    vlib.bindir()

    def go(i):
        b = os.path.join(base, "h%d" % i)
        os.makedirs(b)
        try:
            return play(hs[i], b, "ab" if i < n1 else "abc")
        finally:
            shutil.rmtree(b, ignore_errors=True)
    runs = sum(1 for h in hs for s in h if s["op"] in obs)
    bad = [(i, x) for i, x in enumerate(vlib.pmap(go, range(len(hs)))) if x]
    bad.sort(key=lambda t: len(hs[t[0]]))
    for i, (j, o) in bad[:4]:
        ck.violation("project history: step %d, specification %s, decy %s\n%s" % (
            j, json.dumps(hs[i][j]), json.dumps(o), "\n".join("  " + json.dumps(s) for s in hs[i][:j + 1])),
            {"history": hs[i], "step": j, "observed": o, "files": PATH})
    collision(ck, base)
    ck.sample(hs[0])
    ck.sample(hs[-1])
    ck.cov.update(traces_validated_against_impl=len(hs), commands_run=runs, exhaustive_histories=n1,
                  rule="transitions of the project model within %d steps (%s), random histories of 16 steps: edits, deletions, "
                       "include changes, runs with and without cache into two output directories, dry runs, damaged cache "
                       "files" % (4 if big else 3, "all" if big else "a sample"))


def collision(ck, base):
    """Known finding: a.c and a.cpp in one directory write the same output file."""
    d = os.path.join(base, "coll")
    os.makedirs(d + "/p")
    for x in ("c", "cpp"):
        with open(d + "/p/a." + x, "w") as f:
            f.write("int from_%s(int x) { return x + 1; }\n" % x)
    subprocess.run([os.path.join(vlib.bindir(), "decy"), "transpile-project", d + "/p", "-o", d + "/o", "-q"],
                   capture_output=True, timeout=60, env=vlib.env())
    t = "".join(open(os.path.join(q, f)).read() for q, _, fs in os.walk(d + "/o") for f in fs)
    lost = [x for x in ("c", "cpp") if "fn from_%s(" % x not in t]
    if lost:
        for k in vlib.known_findings("C08"):
            if k.get("key") == "same-stem":
                ck.findings.append(k["what"])
                return
        ck.violation("a.c and a.cpp in one directory: the output lacks the functions of a.%s" % lost[0], {"lost": lost})
