"""C20: whole programs print what the C program prints and exit as it does."""
import json, os, random, re, subprocess, tempfile
import vlib, cgen, crun
from cgen import *
from vlib import ToolError

TEXT = ["x=", " ", ", ", "\n", ": ", "{", "}", "{}", "[%d]", "100%", "a\tb", "\"q\"", "\\", "done\n", "{{0}}", "-> ", ";", "'", "%%", "/* c */", "//", "\\n", "!"]


def codes(s):
    return [ord(c) for c in s]


class PGen:
    def __init__(self, r):
        self.r, self.g = r, Gen(r)
        self.u = 0
        self.strs = []

    def dstrs(self, pre):
        r = self.r
        self.strs, out = [], []
        for i in range(r.choice([0, 0, 1, 2])):
            x, tx = "%s%d" % (pre, i), codes(r.choice(["abc", "", "{}", "a b\n", "%d", "tab\t.", "q\"q", "\"x\"", "long text with words"]))
            out.append({"k": "blk", "b": [], "dstr": [x, tx], "ty": r.choice(["const char *", "char *"])})
            self.strs.append((x, tx))
        return out

    def part(self, vs):
        r = self.r
        c = r.random()
        if c < .4:
            return {"k": "s", "t": codes(r.choice(TEXT).replace("%d", "d"))}
        e = self.g.expr(r.choice([0, 0, 1, 2]), vs) if r.random() < .85 else n(r.randint(-3000, 3000))
        z = {"w": 0, "left": False, "zero": False, "plus": False, "pr": -1}
        if c < .85:
            z.update(r.choice([{}, {}, {}, {"w": r.randint(1, 8)}, {"w": r.randint(1, 8), "zero": True}, {"w": r.randint(2, 8), "left": True}, {"plus": True}]))
            return dict(z, k=r.choice(["d", "d", "d", "i"]), e=e)
        if c < .93:
            z.update(r.choice([{}, {"w": r.randint(1, 8)}, {"w": r.randint(1, 8), "zero": True}]))
            return dict(z, k=r.choice(["x", "X", "o", "u"]), e=b("&", e, n(r.choice([255, 4095, 65535]))))
        if c < .95:
            return dict(z, k="c", e=b("+", n(65), b("&", e, n(15))))
        z.update(r.choice([{}, {}, {"w": r.randint(1, 9), "left": True}, {"pr": r.randint(1, 4)}, {"w": 6, "left": True, "pr": 2}]))
        z.setdefault("pr", -1)
        if self.strs and r.random() < .6:
            x, tx = r.choice(self.strs)
            return dict(z, k="lit", t=tx, rn=x, e=n(0))
        return dict(z, k="lit", t=codes(r.choice(["abc", "", "{}", "a b", "%d", "tab\t.", "q\"q"])), e=n(0))

    def pr(self, vs):
        r = self.r
        if r.random() < .1:
            return {"k": "pr", "ps": [{"k": "s", "t": codes(r.choice(["hello", "", "a {b} c", "50%", "x\ty"]) + "\n")}], "puts": True}
        ps = [self.part(vs) for _ in range(r.randint(1, 4))]
        if r.random() < .6:
            ps.append({"k": "s", "t": [10]})
        return {"k": "pr", "ps": ps}

    def block(self, d, vs, ws, calls, loop):
        r, g = self.r, self.g
        out, vs, ws = [], list(vs), list(ws)
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .4:
                out.append(self.pr(vs))
            elif c < .5 and ws:
                out.append(asg(v(r.choice(ws)), b("%", g.expr(2, vs), n(1000))))
            elif c < .58:
                self.u += 1
                x = "x%d" % self.u
                out.append(decl(x, g.expr(1, vs)))
                vs.append(x)
                ws.append(x)
            elif c < .68 and calls:
                f, ar, void = r.choice(calls)
                a = [ai(g.expr(1, vs)) for _ in range(ar)]
                if void:
                    out.append({"k": "call", "f": f, "a": a})
                else:
                    self.u += 1
                    x = "y%d" % self.u
                    out.append({"k": "dcall", "x": x, "f": f, "a": a})
                    vs.append(x)
            elif d and c < .8:
                out.append(iff(g.cond(2, vs), self.block(d - 1, vs, ws, calls, loop),
                               self.block(d - 1, vs, ws, calls, loop) if r.random() < .5 else None))
            elif d and c < .93:
                self.u += 1
                x = "i%d" % self.u
                body = self.block(d - 1, vs + [x], ws, calls, True)
                if r.random() < .5:
                    out.append(forr([decl(x, n(0))], b("<", v(x), n(r.randint(1, 4))), [inc(v(x))], body))
                else:
                    out += [decl(x, n(0)), wh(b("<", v(x), n(r.randint(1, 3))), [inc(v(x))] + body)]
            elif loop:
                out.append(iff(g.cond(1, vs), [r.choice([BR, CO])]))
            elif d:
                cs = [{"v": [k], "d": False, "b": self.block(0, vs, ws, calls, False) + ([BR] if r.random() < .75 else [])} for k in r.sample(range(4), r.randint(1, 3))]
                cs.append({"v": [], "d": True, "b": self.block(0, vs, ws, calls, False)})
                out.append({"k": "sw", "e": b("&", v(r.choice(vs)), n(3)), "cs": cs})
            else:
                out.append(self.pr(vs))
        return out

    def prog(self):
        r, g = self.r, self.g
        gs = [{"x": "g%d" % i, "i": [r.randint(-5, 50)]} for i in range(r.randint(0, 2))]
        gn = [x["x"] for x in gs]
        fs, calls = {}, []
        for i in range(r.randint(0, 3)):
            void = r.random() < .4
            ps = ["p", "q"][:r.randint(1, 2)]
            body = self.dstrs("s")
            body += self.block(1, ps + gn, gn, list(calls), False)
            if void:
                if r.random() < .3:
                    body.append(iff(g.cond(1, ps), [{"k": "retv"}]))
                    body.append(self.pr(ps + gn))
            else:
                body.append(ret(b("%", g.expr(2, ps + gn), n(500))))
            fs["f%d" % i] = dict(fn(ps, body), void=void)
            calls.append(("f%d" % i, len(ps), void))
        body = self.dstrs("m") + [decl("a", n(r.randint(-9, 30))), decl("c", n(r.randint(0, 5)))]
        body += self.block(2, ["a", "c"] + gn, ["a", "c"] + gn, calls, False)
        if r.random() < .4:
            body.append(iff(g.cond(1, ["a", "c"]), [self.pr(["a", "c"]), ret(n(r.choice([1, 2, 3, 7, 255])))]))
        body += self.block(2, ["a", "c"] + gn, ["a", "c"] + gn, calls, False)
        body.append(ret(r.choice([n(0), n(0), n(r.randint(1, 255)), b("&", g.expr(1, ["a", "c"] + gn), n(127))])))
        fs["main"] = fn([], body)
        return {"f": fs, "g": gs}


def formats(r):
    """Every conversion x flags x width x value of the specification, 40 to a program."""
    of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "fmt")
    vlib.tlc("CFmtEnum", envs={"OUT": of})
    fs = sorted(vlib.read_csv_json(of), key=repr)
    r.shuffle(fs)
    out = []
    for i in range(0, len(fs), 40):
        body = [decl("a", n(r.randint(1, 9)))]
        for f in fs[i:i + 40]:
            e = r.choice([n(f["v"]), b("+", n(f["v"] - 1), n(1)), b("+", n(f["v"]), b("-", v("a"), v("a")))])
            pt = {x: f[x] for x in ("k", "left", "zero", "plus", "w")}
            body.append({"k": "pr", "ps": [{"k": "s", "t": [91]}, dict(pt, e=e), {"k": "s", "t": [93, 10]}]})
        out.append({"id": "q%d" % i, "kind": "main", "p": {"f": {"main": fn([], body + [ret(n(0))])}, "g": []}, "par": "min"})
    return out


def cases(seed, k):
    r = random.Random(seed * 15485863 + 20)
    out = formats(r)
    for i in range(k):
        out.append({"id": "m%d" % i, "kind": "main", "p": PGen(r).prog(), "par": r.choice(["min", "min", "full"])})
    return out


def execd(exe):
    try:
        r = subprocess.run([exe], capture_output=True, timeout=20)
        return [r.returncode, list(r.stdout)]
    except subprocess.TimeoutExpired:
        return ["hang", []]


def run(ck, tier):
    big = tier == "thorough"
    cs = cases(vlib.SEED, 2500 if big else 330)
    want = crun.expect(cs)
    run_programs(ck, cs, want)
    ck.sample(cgen.render(cs[3]["p"]))


def run_programs(ck, cs, want):
    d = tempfile.mkdtemp(dir=vlib.scratch())
    ok = [c for c in cs if want[c["id"]]["ok"]]
    vlib.bindir()
    srcs = ["#include <stdio.h>\n" + cgen.render(c["p"], "", c["par"]) for c in ok]
    sh = [list(range(k, len(ok), vlib.NPROC)) for k in range(vlib.NPROC)]
    tr = {}
    for ix, res in zip(sh, vlib.pmap(lambda ix: crun.transpile([srcs[i] for i in ix]), sh)):
        for i, o in zip(ix, res):
            tr[i] = o

    def go(i):
        w = want[ok[i]["id"]]
        exp = [w["v"] % 256, w["o"]]
        exe = os.path.join(d, "p%d" % i)
        crun.gcc_run(srcs[i], exe + "_c")
        g = execd(exe + "_c")
        os.remove(exe + "_c")
        if g != exp:
            raise ToolError("specification and C disagree: %s / %s\n%s" % (exp, g, srcs[i]))
        if "rust" not in tr[i]:
            return i, exp, crun.NOTRANS + " " + json.dumps(tr[i])[:500]
        good, err = crun.rustc(tr[i]["rust"], exe)
        if not good:
            return i, exp, crun.NOCOMP + " " + err[:1500]
        o = execd(exe)
        os.remove(exe)
        return i, exp, o
    bad = []
    for i, exp, o in vlib.pmap(go, range(len(ok))):
        if o != exp:
            bad.append((len(srcs[i]), i, exp, o))
    bad.sort(key=lambda x: x[:2])

    def show(o):
        return "exit %s, output %r" % (o[0], bytes(o[1])) if isinstance(o, list) else o
    for _, i, exp, o in bad if os.environ.get("ALLBAD") else bad[:3]:
        ck.violation("program\n%s\nC: %s\ntranspiled: %s" % (srcs[i], show(exp), show(o)), {"c": srcs[i], "expected": exp, "observed": o})
    ck.cov.update(traces_validated_against_impl=len(ok), programs=len(cs), undefined_skipped=len(cs) - len(ok),
                  output_bytes=sum(len(want[c["id"]]["o"]) for c in ok),
                  rule="every int conversion with every supported flag and width over boundary values (enumerated by TLC); random programs with main, helpers, globals, loops, conditions, switch, printf/puts with flags, widths and conversions; "
                       "output and exit status compared")
