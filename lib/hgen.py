"""Random C functions that use the heap: arrays, structs, arrays of structs and lists."""
from cgen import *

NULL = {"k": "n", "v": 0, "txt": "NULL"}
INC = ["#include <stdlib.h>\n"]
P, N, T = ["x", "y", "z"], ["v", "*next"], ["v", "*l", "*r"]


def hp(p, form, e=None, w=1, i=0, f=None):
    d = {"k": "hp", "p": v(p) if isinstance(p, str) else p, "form": form, "e": e or n(0), "w": w, "i": i}
    if f:
        d["f"] = f
    return d


def elem(p, e): return hp(p, "ix", e)
def fld(p, f): return hp(p, "arrow", None, 3, P.index(f), f)
def sfld(p, e, f): return hp(p, "sfd", e, 3, P.index(f), f)
def nv(p): return hp(p, "arrow", None, 2, 0, "v")
def nx(p): return hp(p, "arrow", None, 2, 1, "next")
def hnew(x, ty, cnt, w, form, z=False, dcl=True, cast=False):
    return {"k": "hnew", "lv": v(x) if isinstance(x, str) else x, "ty": ty, "n": cnt, "w": w, "form": form, "z": z, "dcl": dcl, "cast": cast}
def free(x): return {"k": "free", "p": v(x)}
def tf(p, f): return hp(p, "arrow", None, 3, ["v", "l", "r"].index(f), f)
def acall(lv, f, a): return {"k": "acall", "lv": lv, "f": f, "a": a}
SP, SN = {"st": "P"}, {"st": "N"}
SPp, SNp = {"st": "P", "p": True}, {"st": "N", "p": True}
ST, STp = {"st": "T"}, {"st": "T", "p": True}


class HeapGen:
    def __init__(self, r):
        self.r, self.g, self.c = r, Gen(r), 0

    def name(self, p):
        self.c += 1
        return "%s%d" % (p, self.c)

    def ex(self, vs, lvs, d=None):
        r = self.r
        return self.g.expr(r.choice([1, 1, 2]) if d is None else d, vs, ["+", "-", "*", "&", "|", "^", "<", ">", "==", "/", "%"] if r.random() < .8 else None, None, lvs)

    def work(self, vs, lvs, wr, depth=2):
        """Statements over int variables vs, writable lvalues wr (also read)."""
        r, out = self.r, []
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .35:
                out.append(asg(r.choice(wr), self.ex(vs, lvs)))
            elif c < .55:
                out.append(asg(r.choice(wr), self.ex(vs, lvs, 1), r.choice(["+=", "-=", "*=", "^=", "|="])))
            elif c < .7:
                out.append(inc(r.choice(wr), r.choice(["++", "--"]), False))
            elif c < .85 and depth:
                out.append(iff(self.g.cond(2, vs, lvs), self.work(vs, lvs, wr, depth - 1), self.work(vs, lvs, wr, depth - 1) if r.random() < .5 else None))
            elif depth:
                i = self.name("i")
                out.append(forr([decl(i, n(0))], b("<", v(i), n(r.randint(1, 4))), [inc(v(i))], self.work(vs + [i], lvs, wr, depth - 1)))
            else:
                out.append(asg(v("s"), b("+", b("*", v("s"), n(3)), self.ex(vs, lvs, 0))))
        return out

    # -- int arrays
    def array(self):
        r = self.r
        x, k = self.name("p"), r.randint(2, 6)
        cnt, pre = n(k), []
        if r.random() < .3:
            m = self.name("n")
            pre, cnt = [decl(m, n(k))], v(m)
        z = r.random() < .35
        new = hnew(x, "int", cnt, 1, r.choice(["mul", "mul", "mulr"]), z, True, r.random() < .3)
        i = self.name("i")
        body = pre + [new]
        if not z or r.random() < .4:
            body.append(forr([decl(i, n(0))], b("<", v(i), cnt), [inc(v(i))], [asg(elem(x, v(i)), self.ex(["a", "b", i], None, 1))]))
        lv = [elem(x, n(j)) for j in range(k)] + [elem(x, b("&", v("a"), n(1))), elem(x, b("%", b("&", v("b"), n(63)), n(k)))]
        return body, lv, [free(x)], (x, k)

    def sums(self, x, k):
        i = self.name("i")
        up = self.r.random() < .6
        h = ([decl(i, n(0))], b("<", v(i), n(k)), [inc(v(i))]) if up else ([decl(i, n(k - 1))], b(">=", v(i), n(0)), [inc(v(i), "--")])
        return forr(h[0], h[1], h[2], [asg(v("s"), b("+", b("*", v("s"), n(2)), elem(x, v(i))))])

    # -- single structs
    def box(self, helpers):
        r = self.r
        x = self.name("q")
        if helpers and r.random() < .4:
            body = [{"k": "dcall", "x": x, "f": "mk", "a": [ai(self.ex(["a", "b"], None, 1)), ai(v("b"))], "ty": SPp}]
            raw = True
        else:
            z = r.random() < .3
            body = [hnew(x, SP, n(1), 3, "one", z, True, r.random() < .3)]
            raw = False
            for f in P:
                if not z or r.random() < .5:
                    body.append(asg(fld(x, f), self.ex(["a", "b"], None, 1)))
        return body, [fld(x, f) for f in P], [free(x)], x

    def boxes(self):
        """Structs passed to functions that change or read them."""
        r = self.r
        helpers = True
        body, lv, fr, xs = [], [], [], []
        for _ in range(r.randint(1, 2)):
            bd, l, f, x = self.box(helpers)
            body += bd
            lv += l
            fr += f
            xs.append(x)
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .3:
                body.append({"k": "call", "f": "mv", "a": [ai(v(r.choice(xs))), ai(self.ex(["a", "b", "s"], None, 1))]})
            elif c < .6:
                body.append({"k": "asg", "lv": v("s"), "o": r.choice(["=", "+="]), "e": call("get", [ai(v(r.choice(xs)))])})
            else:
                body += self.work(["a", "b", "s"], lv, lv + [v("s")])
        return body, lv, fr

    HELP = {"mk": dict(fn(["u", "w"], [hnew("o", SP, n(1), 3, "one"), asg(fld("o", "x"), v("u")), asg(fld("o", "y"), v("w")),
                                       asg(fld("o", "z"), b("-", v("u"), v("w"))), ret(v("o"))]), rty=SPp),
            "mv": dict(fn([{"x": "o", "t": "P"}, "u"], [asg(fld("o", "x"), v("u"), "+="), asg(fld("o", "y"), b("-", fld("o", "x"), v("u"))), inc(fld("o", "z"))]), void=True),
            "get": fn([{"x": "o", "t": "P"}], [ret(b("-", b("*", fld("o", "x"), n(2)), b("+", fld("o", "y"), fld("o", "z"))))])}

    # -- arrays of structs
    def sarray(self):
        r = self.r
        x, k, i = self.name("t"), r.randint(2, 4), self.name("i")
        z = r.random() < .4
        body = [hnew(x, SP, n(k), 3, "mul", z, True, r.random() < .3)]
        if not z or r.random() < .3:
            body.append(forr([decl(i, n(0))], b("<", v(i), n(k)), [inc(v(i))], [asg(sfld(x, v(i), f), self.ex(["a", "b", i], None, 1)) for f in P]))
        lv = [sfld(x, n(j), f) for j in range(k) for f in P] + [sfld(x, b("&", v("a"), n(1)), "y")]
        return body, lv, [free(x)]

    # -- lists
    def lst(self, lfn):
        r = self.r
        h, k, i, m = self.name("h"), r.randint(1, 4), self.name("i"), self.name("n")
        body = [dict(decl(h, NULL), ty=SNp)]
        st = [hnew(m, SN, n(1), 2, "one", False, True, r.random() < .3), asg(nv(m), self.ex(["a", "b", i], None, 1)), asg(nx(m), v(h)), asg(v(h), v(m))]
        body.append(forr([decl(i, n(0))], b("<", v(i), n(k)), [inc(v(i))], st))
        vs = ["a", "b", "s"]
        for _ in range(r.randint(1, 3)):
            c = self.name("c")
            cond = r.choice([v(c), b("!=", v(c), NULL), b("&&", b("!=", v(c), NULL), b("<", nv(c), n(50)))])
            wk = r.random()
            do = [asg(v("s"), b("+", b("*", v("s"), n(3)), nv(c)))] if wk < .4 else [asg(nv(c), self.ex(vs, [nv(c)]), r.choice(["=", "+=", "-="]))] if wk < .6 else \
                [iff(self.g.cond(1, vs, [nv(c)]), [inc(nv(c))], [asg(v("s"), nv(c), "-=")])]
            if r.random() < .2:
                do.append(iff(b("==", nx(c), NULL), [asg(v("s"), n(7), "+=")]))
            x = r.random()
            if x < .12 and k > 1:       # chains of fields
                deep = nx(h)
                for _ in range(r.randint(0, k - 2)):
                    deep = nx(deep)
                body += self.work(vs, [nv(deep), nv(h)], [nv(deep), v("s"), nv(nx(h))], 1)
                body.append(iff(b("==", nx(deep), NULL), [asg(v("s"), n(5), "+=")], [asg(v("s"), nv(nx(deep)), "^=")]))
            elif x < .2:                # reversal
                p, q = self.name("c"), self.name("k")
                body += [dict(decl(p, NULL), ty=SNp), wh(v(h), [dict(decl(q, nx(h)), ty=SNp), asg(nx(h), v(p)), asg(v(p), v(h)), asg(v(h), v(q))]), asg(v(h), v(p))]
            elif x < .28:               # removal of inner nodes
                p, q = self.name("c"), self.name("k")
                body += [dict(decl(p, v(h)), ty=SNp),
                         wh(b("!=", nx(p), NULL), [iff(self.g.cond(1, vs, [nv(nx(p))]), [dict(decl(q, nx(p)), ty=SNp), asg(nx(p), nx(q))] + ([free(q)] if r.random() < .7 else []), [asg(v(p), nx(p))])])]
                k = 1
            elif x < .65:
                body += [dict(decl(c, v(h)), ty=SNp), wh(cond, do + [asg(v(c), nx(c))])]
            elif x < .8 and lfn:
                body.append({"k": "asg", "lv": v("s"), "o": "+=", "e": call(r.choice(["lsum", "llen"]), [ai(v(h))])})
            else:
                body.append(asg(v("s"), nv(h), "+="))
        end = []
        if r.random() < .6:
            q = self.name("k")
            end = [wh(r.choice([v(h), b("!=", v(h), NULL)]), [dict(decl(q, nx(h)), ty=SNp)] + ([asg(v("s"), nv(h), "+=")] if r.random() < .4 else []) + [free(h), asg(v(h), v(q))])]
        return body, end

    LHELP = {"lsum": fn([{"x": "o", "t": "N"}], [decl("g", n(0)), wh(v("o"), [asg(v("g"), b("+", b("*", v("g"), n(2)), nv("o"))), asg(v("o"), nx("o"))]), ret(v("g"))]),
             "llen": fn([{"x": "o", "t": "N"}], [decl("g", n(0)), wh(b("!=", v("o"), NULL), [inc(v("g")), asg(v("o"), nx("o"))]), ret(v("g"))])}

    # -- search trees
    def tree(self):
        r = self.r
        t = self.name("t")
        body = [dict(decl(t, NULL), ty=STp)]
        for _ in range(r.randint(1, 4)):
            body.append(acall(v(t), "ins", [ai(v(t)), ai(self.ex(["a", "b"], None, 1))]))
        if r.random() < .4:
            i = self.name("i")
            body.append(forr([decl(i, n(0))], b("<", v(i), n(r.randint(1, 4))), [inc(v(i))], [acall(v(t), "ins", [ai(v(t)), ai(self.ex(["a", "b", i], None, 1))])]))
        for _ in range(r.randint(1, 3)):
            c = r.random()
            if c < .4:
                body.append(asg(v("s"), call("tsum", [ai(v(t)), ai(self.ex(["a"], None, 0))]), r.choice(["=", "+=", "-="])))
            elif c < .6:
                body.append(asg(v("s"), call("dep", [ai(v(t))]), "+="))
            elif c < .8:
                p, d = self.name("c"), r.choice("lr")
                body += [dict(decl(p, v(t)), ty=STp), wh(r.choice([tf(p, d), b("!=", tf(p, d), NULL)]), [asg(v(p), tf(p, d))] + ([asg(v("s"), n(1), "+=")] if r.random() < .5 else [])), asg(v("s"), tf(p, "v"), "+=")]
            else:
                body += self.work(["a", "b", "s"], [tf(t, "v")], [tf(t, "v"), v("s")], 1)
        return body, []

    THELP = {"ins": dict(fn([{"x": "o", "t": "T"}, "u"], [
                iff(b("==", v("o"), NULL), [hnew("m", ST, n(1), 3, "one"), asg(tf("m", "v"), v("u")), asg(tf("m", "l"), NULL), asg(tf("m", "r"), NULL), ret(v("m"))]),
                iff(b("<", v("u"), tf("o", "v")), [acall(tf("o", "l"), "ins", [ai(tf("o", "l")), ai(v("u"))])], [acall(tf("o", "r"), "ins", [ai(tf("o", "r")), ai(v("u"))])]),
                ret(v("o"))]), rty=STp),
             "tsum": fn([{"x": "o", "t": "T"}, "u"], [iff(b("==", v("o"), NULL), [ret(v("u"))]),
                        ret(b("-", b("+", b("*", n(2), tf("o", "v")), call("tsum", [ai(tf("o", "l")), ai(b("+", v("u"), n(1)))])), call("tsum", [ai(tf("o", "r")), ai(v("u"))])))]),
             "dep": fn([{"x": "o", "t": "T"}], [iff(b("==", v("o"), NULL), [ret(n(0))]), decl("g", call("dep", [ai(tf("o", "l"))])), decl("h", call("dep", [ai(tf("o", "r"))])),
                        ret(b("+", n(1), t(b(">", v("g"), v("h")), v("g"), v("h"))))])}

    def case(self, cid, ninp, kinds=None):
        r = self.r
        what = r.choice(kinds or ["array", "array", "array2", "boxes", "boxes", "sarray", "list", "list", "list", "tree", "mix"])
        f, structs = {}, {}
        body, vs = [decl("s", n(0))], ["a", "b", "s"]
        if what in ("array", "array2", "mix"):
            lvs, fr, ar = [], [], []
            for _ in range(2 if what == "array2" else 1):
                bd, lv, e, x = self.array()
                body += bd
                lvs += lv
                fr += e
                ar.append(x)
            if what == "mix":
                structs["P"] = P
                f.update(self.HELP)
                bd, lv, e = self.boxes()
                body += bd
                lvs += lv
                fr += e
            body += self.work(vs, lvs, lvs + [v("s")])
            body.append(self.sums(*r.choice(ar)))
            body.append(asg(v("s"), r.choice(lvs), "+="))
        elif what == "boxes":
            structs["P"] = P
            f.update(self.HELP)
            bd, lv, fr = self.boxes()
            body += bd + [asg(v("s"), x, "+=") for x in r.sample(lv, 2)]
        elif what == "sarray":
            structs["P"] = P
            bd, lv, fr = self.sarray()
            body += bd + self.work(vs, lv, lv + [v("s")]) + [asg(v("s"), x, "^=") for x in r.sample(lv, 3)]
        elif what == "tree":
            structs["T"] = T
            f.update(self.THELP)
            bd, fr = self.tree()
            body += bd
        else:
            structs["N"] = N
            f.update(self.LHELP)
            bd, fr = self.lst(True)
            body += bd
        r.shuffle(fr)
        if r.random() < .9:
            body += fr
        body.append(ret(v("s")))
        f["f"] = fn(["a", "b"], body)
        used = {k for k in f if k == "f" or uses(body, k)}
        f = {k: f[k] for k in f if k in used}
        return {"id": cid, "kind": "fn", "f": "f", "p": {"f": f, "g": [], "structs": structs}, "in": self.g.inputs(2, ninp), "inc": INC, "par": "min"}


def uses(x, f):
    if isinstance(x, list):
        return any(uses(y, f) for y in x)
    if isinstance(x, dict):
        return (x.get("k") in ("call", "dcall", "acall") and x.get("f") == f) or any(uses(y, f) for y in x.values())
    return False
