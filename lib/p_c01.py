"""C01: int expressions keep their value."""
import os, random, tempfile
import vlib, cgen, crun, fxgen
from cgen import *


def contexts(r, e, calls):
    """Put the expression into one of the places an expression can be."""
    c = r.choice(["ret", "ret", "decl", "asg", "comp", "if", "ifelse", "while", "for", "arg", "index",
                  "ternary", "switch", "dowhile", "elseif", "arr", "argcmp"])
    x = v("x")
    if c == "ret":
        return [ret(e)]
    if c == "decl":
        return [decl("x", e), ret(b("+", x, n(1)))]
    if c == "asg":
        return [decl("x", n(0)), asg(x, e), ret(x)]
    if c == "comp":
        return [decl("x", n(r.randint(1, 60))), asg(x, e, r.choice(COMPOUND)), ret(x)]
    if c == "if":
        return [dict(iff(e, [ret(n(1))]), br=r.random() < .5), ret(n(2))]
    if c == "ifelse":
        return [decl("x", n(0)), dict(iff(e, [asg(x, n(1))], [asg(x, n(2))]), br=r.random() < .5), ret(x)]
    if c == "elseif":
        return [decl("x", n(0)), iff(b("==", v("a"), n(99)), [asg(x, n(9))], [iff(e, [asg(x, n(1))], [asg(x, n(2))])]), ret(x)]
    if c == "while":
        return [decl("x", n(0)), wh(e, [inc(x), BR]), ret(x)]
    if c == "dowhile":
        return [decl("x", n(0)), dw(b("&&", e, b("<", x, n(3))), [inc(x)]), ret(x)]
    if c == "for":
        return [decl("x", n(0)), forr([], e, [], [inc(x), BR]), ret(x)]
    if c == "arg":
        return [ret(call("id", [ai(e)]))]
    if c == "argcmp":
        return [ret(b("+", call("id", [ai(e)]), call("id", [ai(v("b"))])))]
    if c == "index":
        return [{"k": "darr", "x": "t", "n": 4, "i": [n(3), n(14), n(15), n(92)]},
                ret({"k": "ix", "x": "t", "e": b("&", e, n(3))})]
    if c == "arr":
        return [{"k": "darr", "x": "t", "n": 3, "i": [n(3), n(14), n(15)]},
                asg({"k": "ix", "x": "t", "e": n(1)}, e), ret({"k": "ix", "x": "t", "e": n(1)})]
    if c == "ternary":
        return [ret(t(e, n(5), n(6)))]
    return [{"k": "sw", "e": e, "cs": [{"v": [0], "d": False, "b": [ret(n(10))]},
                                       {"v": [1, 2], "d": False, "b": [ret(n(20))]},
                                       {"v": [], "d": True, "b": [ret(n(30))]}]}, ret(n(40))]


HELP = {"id": fn(["q"], [ret(v("q"))]),
        "ad": fn(["q", "w"], [ret(b("-", v("q"), v("w")))])}


def mk(cid, e, body, ins, par, helpers):
    f = {k: HELP[k] for k in helpers}
    f["f"] = fn(["a", "b", "c"], body)
    return {"id": cid, "kind": "fn", "f": "f", "p": {"f": f, "g": []}, "in": ins, "par": par}


def uses(x, f):
    if isinstance(x, list):
        return any(uses(y, f) for y in x)
    if isinstance(x, dict):
        return (x.get("k") == "call" and x.get("f") == f) or any(uses(y, f) for y in x.values())
    return False


def respell(r, x):
    """Write some literals in hexadecimal, octal or with a suffix."""
    if isinstance(x, list):
        return [respell(r, y) for y in x]
    if not isinstance(x, dict):
        return x
    if x.get("k") == "n" and r.random() < .25:
        v_ = x["v"]
        return dict(x, txt=r.choice(["0x%x" % v_, "0X%X" % v_, "0%o" % v_, "%dL" % v_, "0x%xl" % v_]))
    return {k: respell(r, y) for k, y in x.items()}


def const_cases(r, es, ninb):
    """Constant expressions, 24 to a function: if (a == k) uses the k-th."""
    out, per = [], 24
    bs = [0, 5, -3, 1, 2, -1, 9, -40, 33][:ninb]
    x = v("x")
    r.shuffle(es)
    for i in range(0, len(es), per):
        body = [decl("x", n(0))]
        grp = es[i:i + per]
        for k, e in enumerate(grp):
            c = r.choice(["ret", "ret", "decl", "asg", "comp", "if", "arg", "cond"])
            y = "y%d" % k
            st = {"ret": [ret(e)], "decl": [decl(y, e), ret(b("-", v(y), n(1)))], "asg": [asg(x, e), ret(x)],
                  "comp": [asg(x, e, "+="), ret(x)], "if": [iff(e, [ret(n(11))]), ret(n(12))],
                  "arg": [ret(call("id", [ai(e)]))], "cond": [ret(t(e, n(21), n(22)))]}[c]
            body.append(iff(b("==", v("a"), n(k)), st))
        body.append(ret(n(99)))
        if i % (3 * per) == 0:
            body = respell(r, body)
        ins = [[k, w, 0] for k, e in enumerate(grp) for w in (bs if "'b'" in repr(e) else [0])]
        out.append(mk("k%d" % i, None, body, ins, "min", [h for h in HELP if uses(body, h)]))
    return out


def cases(seed, nrand, ninp, depths=(2, 3, 4), enum=True):
    r = random.Random(seed * 7919 + 1)
    g = Gen(r)
    out = []
    if enum:
        of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "shapes")
        vlib.tlc("CExprEnum", envs={"OUT": of})
        shapes = vlib.read_csv_json(of)
        shapes.sort(key=repr)
        for i, e in enumerate(shapes):
            out.append(mk("s%d" % i, e, [ret(e)], g.inputs(3, ninp), "min", []))
        of = os.path.join(tempfile.mkdtemp(dir=vlib.scratch()), "consts")
        vlib.tlc("CConstEnum", envs={"OUT": of})
        out += const_cases(r, sorted(vlib.read_csv_json(of), key=repr), 9 if ninp > 5 else 3)
    for i in range(nrand):
        e = g.expr(r.choice(depths), ["a", "b", "c"], None, [("id", 1), ("ad", 2)])
        body = contexts(r, e, None)
        if r.random() < .2:
            body = respell(r, body)
        hs = [h for h in HELP if uses(body, h)]
        out.append(mk("r%d" % i, e, body, g.inputs(3, ninp), r.choice(["min", "min", "full"]), hs))
    return out


def fx_cases(seed, nfx, ninp):
    """Expressions with effects inside them: increments, assignments, compound assignments, commas."""
    r = random.Random(seed * 6367 + 11)
    g = Gen(r)
    out = []
    for i in range(nfx):
        globs = i % 3 == 2
        body = fxgen.FxGen(r).func(r.randint(1, 3), r.choice([2, 2, 3]), globs)
        c = mk("e%d" % i, None, body, g.inputs(3, ninp), "min", [h for h in HELP if uses(body, h)])
        if globs:
            c["p"]["g"] = fxgen.GLOBALS
            c["p"]["structs"] = {"S": ["x", "y", "z"]}
        out.append(c)
    return out


def run(ck, tier):
    big = tier == "thorough"
    cs = cases(vlib.SEED, 6000 if big else 900, 8 if big else 5)
    cs += fx_cases(vlib.SEED, 4000 if big else 400, 8 if big else 5)
    st = crun.run_cases(ck, cs, what="expression")
    ck.sample(cgen.render(cs[-1]["p"]))
    ck.sample(cgen.render(cs[5]["p"]))
    ck.cov.update(traces_validated_against_impl=st["points"], programs=len(cs),
                  programs_with_defined_input=st["cases_defined"], undefined_inputs_skipped=st["undef"],
                  rule="each of the two-operator expression shapes and each of the constant expressions TLC enumerates, plus random expressions of depth "
                       "2-4 in 16 syntactic contexts, and expressions with effects (increments, assignments, commas, short-circuits) over locals, globals, elements and fields; an input counts when C defines the result")
