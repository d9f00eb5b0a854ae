"""C02: control flow is preserved."""
import os, random, tempfile
import vlib, cgen, crun
from cgen import *


def mark(m):
    h = v("h")
    return asg(h, b("%", b("+", b("*", h, n(7)), n(m)), n(10007)))


class SGen:
    """Random structured functions.  Every leaf marks h, so the result tells
    which statements ran in which order."""

    def __init__(self, r):
        self.r, self.g = r, Gen(r)
        self.uid = 0
        self.nm = 0

    def new(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def mark(self):
        self.nm += 1
        return mark(self.nm)

    def leaf(self, vs, ws):
        r = self.r
        c = r.random()
        if c < .45 or not ws:
            return [self.mark()]
        x = v(r.choice(ws))
        if c < .7:
            return [asg(x, b("%", self.g.expr(2, vs), n(1000)))]
        if c < .85:
            o = r.choice(["+=", "-=", "^=", "|=", "&="])
            return [asg(x, self.g.expr(1, vs), o)]
        return [inc(x, r.choice(["++", "--"]), r.random() < .4)]

    def block(self, depth, vs, ws, loop, sw, top=False):
        """loop: inside a loop (continue/break legal), sw: inside a switch."""
        r = self.r
        out = []
        vs, ws = list(vs), list(ws)
        for _ in range(r.randint(1, 3 if depth else 2)):
            c = r.random()
            if depth and c < .55:
                out += self.ctrl(depth - 1, vs, ws, loop, sw)
            elif c < .65:
                x = self.new("x")
                out.append(decl(x, self.g.expr(1, vs)))
                vs.append(x)
                ws.append(x)
            elif c < .75 and (loop or sw or not top):
                js = [[ret(b("+", v("h"), n(r.randint(20000, 20009))))]]
                if loop:
                    js += [[CO], [BR]]
                elif sw:
                    js += [[BR]]
                j = r.choice(js)
                out.append(dict(iff(self.g.cond(2, vs), ([self.mark()] if r.random() < .5 else []) + j),
                                br=r.random() < .6))
            else:
                out += self.leaf(vs, ws)
        return out

    def ctrl(self, depth, vs, ws, loop, sw):
        r, g = self.r, self.g
        br = r.random() < .7
        c = r.choice(["if", "if", "ifelse", "chain", "while", "for", "for", "forvar", "dw", "sw", "sw", "blk", "forno"])
        if c == "if":
            return [dict(iff(g.cond(2, vs), self.block(depth, vs, ws, loop, sw)), br=br)]
        if c == "ifelse":
            return [dict(iff(g.cond(2, vs), self.block(depth, vs, ws, loop, sw), self.block(depth, vs, ws, loop, sw)), br=br,
                         chain=r.random() < .5)]
        if c == "chain":
            e = self.block(depth, vs, ws, loop, sw) if r.random() < .6 else []
            for _ in range(r.randint(1, 3)):
                e = [dict(iff(g.cond(2, vs), self.block(max(0, depth - 1), vs, ws, loop, sw), e), br=True)]
            return e
        if c == "while":
            x = self.new("w")
            cond = b("<", v(x), n(r.randint(1, 4)))
            if r.random() < .3:
                cond = b("&&", cond, g.cond(1, vs))
            return [decl(x, n(0)), wh(cond, [inc(v(x))] + self.block(depth, vs + [x], ws, True, False))]
        if c == "dw":
            x = self.new("w")
            return [decl(x, n(0)), dw(b("<", v(x), n(r.randint(0, 3))), [inc(v(x))] + self.block(depth, vs + [x], ws, True, False))]
        if c in ("for", "forvar", "forno"):
            x = self.new("i")
            lim = r.randint(1, 4)
            up, cmp_, lo, hi = r.choice([(inc(v(x)), "<", 0, lim), (inc(v(x), "++", True), "<=", 1, lim), (inc(v(x), "--"), ">", lim, 0),
                                         (asg(v(x), n(2), "+="), "<", 0, 2 * lim), (asg(v(x), b("-", v(x), n(1))), ">=", lim, 0)])
            cond = b(cmp_, v(x), n(hi))
            ups = [up]
            if ws and r.random() < .25:
                ups = ups + [inc(v(r.choice(ws)))]
            if c == "for":
                body = self.block(depth, vs + [x], ws, True, False)
                return [dict(forr([decl(x, n(lo))], cond, ups, body), br=br)]
            body = self.block(depth, vs + [x], ws, True, False)
            if c == "forvar":
                init = [] if r.random() < .3 else [asg(v(x), n(lo))]
                return [decl(x, n(lo)), dict(forr(init, cond, ups, body), br=br)]
            return [decl(x, n(lo)), forr([], None, ups, [iff(u("!", cond), [BR])] + body)]
        if c == "sw":
            vals = list(range(-1, 6))
            r.shuffle(vals)
            cs = []
            for _ in range(r.randint(1, 4)):
                k = r.randint(1, 2)
                lab, vals = sorted(vals[:k]), vals[k:]
                if not lab:
                    break
                body = self.block(max(0, depth - 1), vs, ws, loop, not loop)
                c2 = r.random()
                if c2 < .7:
                    body = body + [BR]
                elif c2 < .8:
                    body = body + [ret(b("+", v("h"), n(20020)))]
                cs.append({"v": lab, "d": False, "b": body, "blk": False})
            if r.random() < .75:
                cs.insert(r.choice([len(cs), len(cs), r.randint(0, len(cs))]), {"v": [], "d": True, "b": self.block(max(0, depth - 1), vs, ws, loop, not loop) +
                           ([BR] if r.random() < .5 else []), "blk": False})
            e = r.choice([b("%", v(r.choice(vs)), n(5)), v(r.choice(vs)), b("&", v(r.choice(vs)), n(3))])
            return [{"k": "sw", "e": e, "cs": cs}]
        return [{"k": "blk", "b": self.block(depth, vs, ws, loop, sw)}]

    def func(self, depth):
        self.uid = self.nm = 0
        vs = ["a", "b", "c"]
        body = [decl("h", n(0)), decl("y", self.g.expr(1, vs)), decl("z", n(3))]
        vs += ["h", "y", "z"]
        for _ in range(self.r.randint(1, 2)):
            body += self.ctrl(depth, vs, ["y", "z"], False, False)
            body += self.leaf(vs, ["y", "z"])
        body.append(ret(b("+", b("*", v("h"), n(100)), b("&", b("^", v("y"), v("z")), n(63)))))
        return body


def nobreak_in_loop_switch(s, inloop=False):
    """drop programs with jumps the generator may have put in the wrong place"""
    return True


def mk(cid, body, ins, par="min", fs=None):
    f = dict(fs or {})
    f["f"] = fn(["a", "b", "c"], body)
    return {"id": cid, "kind": "fn", "f": "f", "p": {"f": f, "g": []}, "in": ins, "par": par}


def tails(r):
    """recursive helpers"""
    return {"rec": fn(["q", "w"], [iff(b("<=", v("q"), n(0)), [ret(v("w"))]),
                                   ret(call("rec", [ai(b("-", v("q"), n(1))), ai(b("+", b("*", v("w"), n(2)), v("q")))]))])}


def cases(seed, nrand, ninp, enum=True):
    r = random.Random(seed * 104729 + 2)
    out = []
    if enum:
        of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "shapes")
        vlib.tlc("CStmtEnum", envs={"OUT": of})
        sh = vlib.read_csv_json(of)
        sh.sort(key=lambda x: repr(x["s"]))
        allin = [[a, bb, c] for a in (0, 1, 2) for bb in (0, 1, 2, 3) for c in (0, 1, 2)]
        for i, x in enumerate(sh):
            # every input for the shapes with at most one jump; a sample for the rest
            few = x["s"]["ji"] != "none" and x["s"]["jo"] != "none"
            out.append(mk("s%d" % i, x["b"], r.sample(allin, 8) if few and ninp < 10 else allin))
    g = Gen(r)
    for i in range(nrand):
        sg = SGen(r)
        small = [[r.randint(-2, 6) for _ in range(3)] for _ in range(ninp)]
        out.append(mk("r%d" % i, sg.func(r.choice([1, 1, 2, 2, 3])), small, r.choice(["min", "full"])))
    return out


def run(ck, tier):
    big = tier == "thorough"
    cs = cases(vlib.SEED, 4000 if big else 500, 12 if big else 8)
    st = crun.run_cases(ck, cs, what="function", chunk=40)
    ck.sample(cgen.render(cs[-1]["p"]))
    ck.sample(cgen.render(cs[5]["p"]))
    ck.cov.update(traces_validated_against_impl=st["points"], programs=len(cs),
                  programs_with_defined_input=st["cases_defined"], undefined_inputs_skipped=st["undef"],
                  rule="every nesting of two control constructs with every pair of jumps at every place (enumerated by TLC), plus "
                       "random functions nesting if/else chains, the loops, switch and jumps up to depth 4")
