"""C03: data is preserved: globals, arrays, structs, pointer parameters."""
import random
import vlib, cgen, crun
from cgen import *

ST = {"S": ["x", "y", "z"], "T": ["k", "w"]}


def ix(x, e): return {"k": "ix", "x": x, "e": e}
def ix2(x, e, e2, c): return {"k": "ix2", "x": x, "e": e, "e2": e2, "n": c}
def fd(x, s, f): return {"k": "fd", "x": x, "f": f, "i": ST[s].index(f)}
def sfd(x, s, e, f): return {"k": "sfd", "x": x, "e": e, "f": f, "n": len(ST[s]), "i": ST[s].index(f)}
def dr(x): return {"k": "dr", "x": x}
def pix(x, e): return {"k": "pix", "x": x, "e": e}
def ar(x, s, f): return {"k": "ar", "x": x, "f": f, "i": ST[s].index(f)}
def cl(f, a): return {"k": "call", "f": f, "a": a}
def addr(e): return {"k": "a", "e": e}
def decayed(x): return {"k": "a", "e": ix(x, n(0)), "decay": True}


class DGen:
    """A random program: globals, helpers with pointer parameters, entry points."""

    def __init__(self, r):
        self.r, self.g = r, Gen(r)

    def small(self, e):
        return b("%", e, n(self.r.choice([97, 101, 1000])))

    # ---- helpers
    def helpers(self):
        r, g = self.r, self.g
        hs = {}

        def vp():
            body = [asg(dr("p"), self.small(g.expr(2, ["q"], None, None, [dr("p")])))]
            if r.random() < .5:
                body.append(asg(dr("p"), v("q"), r.choice(["+=", "-=", "^="])))
            if r.random() < .4:
                body = [iff(b(">", dr("p"), v("q")), body, [inc(dr("p"))])]
            return body
        hs["pset"] = dict(fn([{"x": "p", "t": "p"}, "q"], vp()), void=True)
        hs["pget"] = fn([{"x": "p", "t": "p"}, "q"], vp() + [ret(self.small(g.expr(2, ["q"], None, None, [dr("p")])))])
        hs["pswap"] = dict(fn([{"x": "p", "t": "p"}, {"x": "q", "t": "p"}],
                              [decl("t", dr("p")), asg(dr("p"), dr("q")), asg(dr("q"), v("t"))]), void=True)
        fs = ST["S"]
        fa, fb_, fc = r.choice(fs), r.choice(fs), r.choice(fs)
        hs["sset"] = dict(fn([{"x": "s", "t": "S"}, "q"],
                             [asg(ar("s", "S", fa), self.small(g.expr(1, ["q"], None, None, [ar("s", "S", fb_)]))),
                              asg(ar("s", "S", fc), v("q"), r.choice(["+=", "-=", "="]))]), void=True)
        hs["sget"] = fn([{"x": "s", "t": "S"}],
                        [ret(b("+", b("*", ar("s", "S", "x"), n(3)), b("-", ar("s", "S", "y"), b("*", ar("s", "S", "z"), n(7)))))])
        hs["afill"] = dict(fn([{"x": "a", "t": "arr"}, "m", "q"],
                              [forr([decl("i", n(0))], b("<", v("i"), v("m")), [inc(v("i"))],
                                    [asg(pix("a", v("i")), b("+", v("q"), b("*", v("i"), n(r.randint(1, 5)))))])]), void=True)
        hs["asum"] = fn([{"x": "a", "t": "arr"}, "m"],
                        [decl("s", n(0)), forr([decl("i", n(0))], b("<", v("i"), v("m")), [inc(v("i"))],
                                               [asg(v("s"), b("+", b("*", v("s"), n(3)), pix("a", v("i")))),
                                                asg(v("s"), b("%", v("s"), n(10007)))]), ret(v("s"))])
        return hs

    def ghelpers(self, gs):
        """Helpers that read and write the globals directly, and call one another."""
        r, g = self.r, self.g
        gi = [x["x"] for x in gs if not x.get("arr") and not x.get("st")]
        gl = [v(x) for x in gi]
        for x in gs:
            if x.get("arr"):
                gl += [ix(x["x"], n(r.randrange(len(x["i"]))))]
            if x.get("st"):
                gl += [fd(x["x"], "S", r.choice(ST["S"]))]
        hs, gets = {}, []

        def gv():
            return r.choice(gl)
        for i in range(r.randint(1, 2)):
            nm = "get%d" % i
            c = r.random()
            if c < .5:
                body = [ret(gv())]
            else:
                body = [ret(self.small(g.expr(2, gi, None, None, gl)))]
            hs[nm] = fn([], body)
            gets.append(nm)
        for i in range(r.randint(1, 3)):
            nm = "act%d" % i
            body, loc = [], ["q"]
            for k in range(r.randint(1, 5)):
                c = r.random()
                x = "t%d" % k
                if c < .25:
                    body.append({"k": "dcall", "x": x, "f": r.choice(gets), "a": []})
                    loc.append(x)
                elif c < .4:
                    body.append(decl(x, gv() if r.random() < .6 else self.small(g.expr(1, loc, None, None, gl))))
                    loc.append(x)
                elif c < .7:
                    body.append(asg(gv(), v(r.choice(loc)) if r.random() < .5 else self.small(g.expr(1, loc, None, None, gl))))
                elif c < .8:
                    body.append(r.choice([inc(gv(), r.choice(["++", "--"])), asg(gv(), v(r.choice(loc)), r.choice(["+=", "-=", "^="]))]))
                elif c < .9 and len(loc) > 1:
                    body.append(asg(v(r.choice(loc[1:])), self.small(g.expr(1, loc, None, None, gl))))
                else:
                    body.append({"k": "acall", "lv": gv(), "f": r.choice(gets), "a": []})
            body.append(ret(v(r.choice(loc)) if r.random() < .6 else self.small(g.expr(1, loc, None, None, gl))))
            hs[nm] = fn(["q"], body)
        return hs

    def globals_(self):
        r = self.r
        gs = []
        for i in range(r.randint(1, 3)):
            gs.append({"x": "g%d" % i, "i": [r.choice([0, 0, 5, -3, 17])]})
        if r.random() < .7:
            m = r.choice([3, 4, 5])
            init = [r.randint(-9, 40) for _ in range(m)] if r.random() < .6 else [0] * m
            gs.append({"x": "ga", "i": init, "arr": True})
        if r.random() < .6:
            init = [r.randint(-9, 40) for _ in ST["S"]] if r.random() < .5 else [0, 0, 0]
            gs.append({"x": "gs", "i": init, "st": "S"})
        return gs

    # ---- one entry function
    def entry(self, gs, hs, nstm):
        r, g = self.r, self.g
        body, lvs, ints, structs = [], [], ["a", "b"], {}
        objs = []      # (kind, name, extra)
        for x in gs:
            if x.get("arr"):
                objs.append(("garr", x["x"], len(x["i"])))
            elif x.get("st"):
                objs.append(("gst", x["x"], "S"))
                structs_g = True
            else:
                objs.append(("gint", x["x"], 0))
        for i in range(r.randint(1, 2)):
            x = "v%d" % i
            body.append(decl(x, g.expr(1, ints)))
            objs.append(("int", x, 0))
        if r.random() < .7:
            m = r.choice([2, 3, 4, 5])
            full = r.random() < .6
            body.append({"k": "darr", "x": "t", "n": m, "i": [g.expr(1, ints) for _ in range(m if full else r.randint(1, m))]})
            objs.append(("arr", "t", m))
        if r.random() < .35:
            rr, cc = r.choice([(2, 2), (2, 3), (3, 2)])
            if r.random() < .6:
                body.append({"k": "darr", "x": "mt", "n": rr * cc, "cols": cc, "i": [g.expr(0, ints) for _ in range(rr * cc)]})
            else:
                body.append({"k": "darr", "x": "mt", "n": rr * cc, "cols": cc, "i": [n(0)] * (rr * cc)})
            objs.append(("arr2", "mt", (rr, cc)))
        if r.random() < .6:
            structs["s"] = ("S", ST["S"])
            body.append({"k": "darr", "x": "s", "n": 3, "i": [g.expr(0, ints) for _ in range(3)]})
            objs.append(("st", "s", "S"))
        if r.random() < .35:
            structs["u"] = ("T", ST["T"])
            body.append({"k": "darr0", "x": "u", "n": 2})
            body += [asg(fd("u", "T", "k"), g.expr(1, ints)), asg(fd("u", "T", "w"), g.expr(1, ints))]
            objs.append(("st", "u", "T"))
        if r.random() < .3:
            structs["sa"] = ("S", ST["S"])
            body.append({"k": "darr0", "x": "sa", "n": 6})
            for i in range(2):
                for f in ST["S"]:
                    body.append(asg(sfd("sa", "S", n(i), f), g.expr(0, ints)))
            objs.append(("starr", "sa", 2))

        def idx(m):
            c = r.random()
            if c < .45:
                return n(r.randint(0, m - 1))
            return b("&", v(r.choice(["a", "b"])), n(1 if m < 4 else 3)) if c < .8 else \
                b("+", n(0), b("&", g.expr(1, ints), n(1)))

        def lval(kinds=None):
            ok = [o for o in objs if not kinds or o[0] in kinds]
            if not ok:
                return None
            k, x, e = r.choice(ok)
            if k in ("int", "gint"):
                return v(x)
            if k in ("arr", "garr"):
                return ix(x, idx(e))
            if k == "arr2":
                return ix2(x, n(r.randint(0, e[0] - 1)), b("&", v("a"), n(1)) if r.random() < .4 else n(r.randint(0, e[1] - 1)), e[1])
            if k in ("st", "gst"):
                return fd(x, e, r.choice(ST[e]))
            return sfd(x, "S", n(r.randint(0, e - 1)), r.choice(ST["S"]))

        def ex(depth=2):
            return g.expr(depth, ints, None, None, [lval() for _ in range(3)])
        stm = []
        for _ in range(nstm):
            c = r.random()
            lv = lval()
            LOCAL = ("int", "arr", "st", "starr")
            if c < .1 and self.acts:
                # results and arguments go through locals: the order of effects is fixed
                lo = [v(o[1]) for o in objs if o[0] == "int"]
                f = r.choice(self.acts)
                stm.append({"k": "acall", "lv": r.choice(lo), "f": f, "a": [ai(r.choice(lo))] if f.startswith("act") else []})
            elif c < .34:
                stm.append(asg(lv, self.small(ex())))
            elif c < .48:
                stm.append(asg(lv, ex(1), r.choice(["+=", "-=", "*=", "&=", "|=", "^="])))
            elif c < .54:
                stm.append(inc(lv, r.choice(["++", "--"])))
            elif c < .62:
                stm.append(dict(iff(g.cond(2, ints, [lval(), lval()]), [asg(lv, self.small(ex()))],
                                    [asg(lval(), self.small(ex()))] if r.random() < .5 else []), br=r.random() < .6))
            elif c < .69:
                arrs = [o for o in objs if o[0] in ("arr", "garr")]
                if arrs:
                    k, x, m = r.choice(arrs)
                    stm.append(forr([decl("i", n(0))], b("<", v("i"), n(m)), [inc(v("i"))],
                                    [asg(ix(x, v("i")), b("%", b("+", ix(x, v("i")), b("*", v("i"), lval())), n(997)))]))
            elif c < .78:
                a = lval(("int", "arr", "st"))
                if a:
                    stm.append(cl("pset", [addr(a), ai(self.small(g.expr(1, ints)))]))
            elif c < .84:
                a, d = lval(("int",)), lval(("int", "gint"))
                if a and d and a != d:
                    stm.append({"k": "acall", "lv": d, "f": "pget", "a": [addr(a), ai(self.small(g.expr(1, ints)))]})
            elif c < .88:
                loc = [o for o in objs if o[0] == "int"]
                if len(loc) >= 2:
                    p, q = r.sample(loc, 2)
                    stm.append(cl("pswap", [addr(v(p[1])), addr(v(q[1]))]))
            elif c < .94:
                if "s" in structs:
                    a = {"k": "a", "e": {"k": "fd", "x": "s", "f": "x", "i": 0}, "whole": "s"}
                    if r.random() < .6:
                        stm.append(cl("sset", [a, ai(self.small(g.expr(1, ints)))]))
                    else:
                        d = lval(("int", "arr"))
                        if d:
                            stm.append({"k": "acall", "lv": d, "f": "sget", "a": [a]})
            else:
                if any(o[0] == "arr" for o in objs):
                    m = [o[2] for o in objs if o[0] == "arr"][0]
                    if r.random() < .5:
                        stm.append(cl("afill", [decayed("t"), ai(n(m)), ai(self.small(g.expr(1, ints)))]))
                    else:
                        d = lval(("int", "st"))
                        if d:
                            stm.append({"k": "acall", "lv": d, "f": "asum", "a": [decayed("t"), ai(n(m))]})
        # observe everything
        h = [decl("h", n(7))]

        def obs(e):
            h.append(asg(v("h"), b("%", b("+", b("*", v("h"), n(31)), e), n(100003))))
        for k, x, e in objs:
            if k in ("int", "gint"):
                obs(v(x))
            elif k in ("arr", "garr"):
                for i in range(e):
                    obs(ix(x, n(i)))
            elif k == "arr2":
                for i in range(e[0]):
                    for j in range(e[1]):
                        obs(ix2(x, n(i), n(j), e[1]))
            elif k in ("st", "gst"):
                for f in ST[e]:
                    obs(fd(x, e, f))
            else:
                for i in range(e):
                    for f in ST["S"]:
                        obs(sfd(x, "S", n(i), f))
        f = fn(["a", "b"], body + stm + h + [ret(v("h"))])
        f["structs"] = structs
        return f

    def program(self, seq, globs=True):
        r = self.r
        gs = self.globals_() if globs else []
        hs = self.helpers()
        gh = self.ghelpers(gs) if gs else {}
        hs.update(gh)
        self.acts = list(gh)
        fs = {}
        names = ["f1", "f2", "f3"][:(r.randint(2, 3) if seq else 1)]
        for nm in names:
            fs[nm] = self.entry(gs, hs, r.randint(2, 7))
        used = [h for h in hs if any(uses(f["b"], h) for f in fs.values())]
        used = [h for h in hs if h in used or any(uses(hs[k]["b"], h) for k in used)]
        prog = {"f": {**{h: hs[h] for h in used}, **fs}, "g": gs, "structs": ST}
        return prog, names


def uses(x, f):
    if isinstance(x, list):
        return any(uses(y, f) for y in x)
    if isinstance(x, dict):
        return x.get("f") == f and x.get("k") in ("call", "acall", "dcall") or any(uses(y, f) for y in x.values())
    return False


def cases(seed, count, ninp):
    r = random.Random(seed * 15485863 + 3)
    out = []
    for i in range(count):
        d = DGen(r)
        prog, names = d.program(True)
        ins = []
        for _ in range(ninp):
            ins.append([{"f": r.choice(names), "a": [r.randint(-3, 9), r.randint(-3, 9)]} for _ in range(r.randint(1, 4))])
        out.append({"id": "d%d" % i, "kind": "seq", "p": prog, "in": ins, "par": r.choice(["min", "min", "full"])})
    return out


def run(ck, tier):
    big = tier == "thorough"
    cs = cases(vlib.SEED, 2500 if big else 350, 8 if big else 5)
    st = crun.run_cases(ck, cs, what="program", chunk=25)
    ck.sample(cgen.render(cs[-1]["p"]))
    ck.cov.update(traces_validated_against_impl=st["points"], programs=len(cs),
                  programs_with_defined_input=st["cases_defined"], undefined_inputs_skipped=st["undef"],
                  rule="random programs over global ints/arrays/structs, local arrays (1 and 2 dimensional), structs and "
                       "arrays of structs, helpers that read and write globals and call one another, helpers that write through int*, struct* and array parameters; sequences of calls")
