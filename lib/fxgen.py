"""Expressions with side effects in every place one can stand."""
from cgen import *


class FxGen:
    """Targets of effects are drawn without replacement (so that C defines the
    expression); the specification decides whether it is defined."""

    def __init__(self, r, arrays=True):
        self.r, self.g, self.arrays = r, Gen(r), arrays

    def target(self):
        r = self.r
        if self.free and r.random() < .93:
            x = self.free.pop(r.randrange(len(self.free)))
            return x
        return v(r.choice(["x", "y", "z"]))

    def leaf(self):
        r = self.r
        c = r.random()
        if c < .62:
            return v(r.choice(["a", "b", "c"]))
        if c < .75 and self.arrays:
            return {"k": "ix", "x": "t", "e": r.choice([n(r.randint(0, 3)), b("&", v(r.choice("abc")), n(3))])}
        if c < .8 and self.free:
            return self.free.pop(r.randrange(len(self.free)))
        return self.g.lit()

    def effect(self, d):
        r = self.r
        c = r.random()
        if c < .5:
            return ei(self.lv(), r.choice(["++", "--"]), r.random() < .5)
        if c < .8:
            return ea(self.lv(), self.ex(d - 1))
        if c < .92:
            return ea(self.lv(), self.ex(d - 1), r.choice(["+=", "-=", "*=", "&=", "|=", "^="]))
        return ec(self.effect(d - 1), self.ex(d - 1))

    def lv(self):
        r = self.r
        if self.arrays and r.random() < .22:
            if r.random() < .4 and self.idx:
                return {"k": "ix", "x": "t", "e": ei(self.idx.pop(), r.choice(["++", "++", "++", "--"]), r.random() < .3)}
            return {"k": "ix", "x": "t", "e": r.choice([n(r.randint(0, 3)), b("&", v(r.choice("abc")), n(3))])}
        return self.target()

    def ex(self, d):
        r = self.r
        if d <= 0:
            return self.leaf()
        c = r.random()
        if c < .3:
            return self.effect(d)
        if c < .4:
            return self.leaf()
        if c < .72:
            o = r.choice(ARITH + CMP + ["&", "|", "^", "-", "+", "+"])
            rr = n(r.choice([1, 2, 3, 7, -2])) if o in "/%" else self.ex(d - 1)
            return b(o, self.ex(d - 1), rr)
        if c < .84:
            return b(r.choice(LOGIC), self.ex(d - 1), self.ex(d - 1))
        if c < .9:
            return u(r.choice(UNOPS), self.ex(d - 1))
        if c < .96:
            return t(self.ex(d - 1), self.ex(d - 1), self.ex(d - 1))
        return call("ad", [ai(self.ex(d - 1)), ai(self.ex(d - 1))])

    def reset(self):
        self.free = [v("x"), v("y"), v("z"), v("w")] + self.glob
        self.idx = [v("i")]

    def expr(self, d):
        """One with at least one effect."""
        while True:
            self.reset()
            e = self.ex(d)
            if "'e" in repr(e) and any(("'k': '%s'" % k) in repr(e) for k in ("ei", "ea")):
                return e

    def stmt(self, d):
        r = self.r
        e = self.expr(d)
        m = v("m")
        cs = ["fxs", "decl", "asg", "if", "ifelse", "while", "dw", "for", "sw", "index", "arg", "comp", "cond", "loopcnt", "forup"]
        c = r.choice(cs)
        self.k += 1
        nm = "l%d" % self.k
        if c == "fxs":
            self.reset()
            return [fxs(self.effect(d))]
        if c == "decl":
            return [decl(nm, fx(e)), asg(m, v(nm), "^=")]
        if c == "asg":
            return [fxs(ea(m, e))]
        if c == "comp":
            return [fxs(ea(m, e, r.choice(["+=", "-=", "^="])))]
        if c == "if":
            return [dict(iff(fx(e), [asg(m, n(self.k), "+=")]), br=r.random() < .5)]
        if c == "ifelse":
            return [dict(iff(fx(e), [asg(m, n(self.k), "+=")], [asg(m, n(3), "*=")]), br=r.random() < .5)]
        if c == "while":
            return [decl(nm, n(0)), wh(fx(b("&&", b("<", ei(v(nm)), n(3)), e)), [asg(m, v(nm), "+=")])]
        if c == "loopcnt":
            o, k, lim = r.choice([(">", 3, 0), (">", 2, -1), ("!=", 3, 0)])
            pre = r.random() < .5
            cond = b(o, ei(v(nm), "--", pre), n(lim)) if r.random() < .7 else ei(v(nm), "--", pre)
            return [decl(nm, n(k)), r.choice([wh, dw])(fx(cond), [asg(m, b("+", b("*", m, n(2)), v(nm)))])]
        if c == "dw":
            return [decl(nm, n(0)), dw(fx(b("&&", b("<", ei(v(nm), "++", True), n(3)), e)), [asg(m, v(nm), "+=")])]
        if c == "for":
            return [forr([decl(nm, n(0))], fx(b("&&", b("<", v(nm), n(3)), e)), [inc(v(nm))], [asg(m, v(nm), "+=")])]
        if c == "forup":
            self.reset()
            e = self.effect(d)
            while e["k"] == "ec":
                self.reset()
                e = self.effect(d)
            return [forr([decl(nm, n(0))], b("<", v(nm), n(3)), [inc(v(nm)), fxs(e)], [asg(m, v(nm), "+=")])]
        if c == "sw":
            return [{"k": "sw", "e": fx(e), "cs": [{"v": [0], "d": False, "b": [asg(m, n(10), "+="), BR]},
                                                  {"v": [1, 2], "d": False, "b": [asg(m, n(20), "+="), BR]},
                                                  {"v": [], "d": True, "b": [asg(m, n(30), "+=")]}]}]
        if c == "index":
            return [fxs(ea(m, {"k": "ix", "x": "t", "e": b("&", e, n(3))}))]
        if c == "arg":
            return [fxs(ea(m, call("id", [ai(e)])))]
        return [fxs(ea(m, t(e, v("a"), v("b"))))]

    def func(self, nst, d, globs=False):
        r = self.r
        self.k = 0
        self.glob = []
        if globs:
            self.glob = [v("g0"), {"k": "ix", "x": "ga", "e": n(r.randint(0, 2))}, {"k": "fd", "x": "gs", "f": "y", "i": 1}, v("g1")]
            r.shuffle(self.glob)
            del self.glob[2:]
        body = [asg(x, n(r.randint(-3, 9))) for x in self.glob] + [decl(x, n(k)) for x, k in zip("xyzw", (r.randint(-3, 9) for _ in range(4)))]
        body += [decl("i", n(r.randint(0, 1))), decl("m", n(1))]
        body += [{"k": "darr", "x": "t", "n": 4, "i": [n(r.randint(-5, 20)) for _ in range(4)]}]
        for _ in range(nst):
            body += self.stmt(d)
        if r.random() < .3:
            body += [iff(b(">", v("a"), n(4)), [ret(fx(self.expr(d)))])]
        body += [decl("h", n(0))]
        for x in [v(q) for q in "xyzwim"] + self.glob + [{"k": "ix", "x": "t", "e": n(k)} for k in range(4)]:
            body.append(asg(v("h"), b("%", b("+", b("*", v("h"), n(31)), x), n(100003))))
        return body + [ret(v("h"))]


GLOBALS = [{"x": "g0", "i": [4]}, {"x": "g1", "i": [0]}, {"x": "ga", "i": [3, 1, 2], "arr": True}, {"x": "gs", "i": [0, 0, 0], "st": "S"}]
