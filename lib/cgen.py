"""C programs as data: the abstract syntax CCore.tla gives a meaning to, its
rendering to C text, and random generators for it."""
import random

# ------------------------------------------------------------ constructors
def n(v): return {"k": "n", "v": v} if v >= 0 else {"k": "u", "o": "-", "e": {"k": "n", "v": -v}}
def v(x): return {"k": "v", "x": x}
def b(o, l, r): return {"k": "b", "o": o, "l": l, "r": r}
def u(o, e): return {"k": "u", "o": o, "e": e}
def t(c, l, r): return {"k": "t", "c": c, "l": l, "r": r}
def call(f, a): return {"k": "call", "f": f, "a": a}
def ai(e): return {"k": "i", "e": e}
def aa(e): return {"k": "a", "e": e}
def ap(x): return {"k": "p", "x": x}
def asg(lv, e, o="="): return {"k": "asg", "lv": lv, "o": o, "e": e}
def inc(lv, o="++", pre=False): return {"k": "inc", "lv": lv, "o": o, "pre": pre}
def ea(lv, e, o="="): return {"k": "ea", "lv": lv, "o": o, "e": e}
def ei(lv, o="++", pre=False): return {"k": "ei", "lv": lv, "o": o, "pre": pre}
def ec(l, r): return {"k": "ec", "l": l, "r": r}
def fx(e): return {"k": "fx", "e": e}
def fxs(e): return {"k": "fxs", "e": e}
def decl(x, e): return {"k": "decl", "x": x, "e": e}
def ret(e): return {"k": "ret", "e": e}
def iff(c, th, el=None): return {"k": "if", "c": c, "t": th, "f": el or []}
def wh(c, bd): return {"k": "wh", "c": c, "b": bd}
def dw(c, bd): return {"k": "dw", "c": c, "b": bd}
def forr(i, c, up, bd): return {"k": "for", "i": i, "c": c or {"k": "none"}, "u": up, "b": bd}
def fn(params, body): return {"p": [{"x": x, "t": "i"} if isinstance(x, str) else x for x in params], "b": body}
BR, CO = {"k": "br"}, {"k": "co"}

PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, "<=": 10,
        ">": 10, ">=": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6, "&&": 5, "||": 4}
ARITH = ["+", "-", "*", "/", "%"]
BITS = ["&", "|", "^", "<<", ">>"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
LOGIC = ["&&", "||"]
BINOPS = ARITH + BITS + CMP + LOGIC
UNOPS = ["-", "~", "!"]
COMPOUND = ["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="]


# ------------------------------------------------------------ rendering
class Render:
    """ren: name -> C name (functions, globals); par: probability-free style:
    'min' minimal parentheses, 'full' all of them."""

    def __init__(self, ren=None, par="min", structs=None, names=None, sp=""):
        self.sp = sp                   # prefix of struct names
        self.ren = ren or {}
        self.par = par
        self.structs = structs or {}   # struct object -> (struct name, [fields])
        self.names = names or {}       # alpha-renaming undone: unique name -> C name

    def cty(self, ty):
        """A type: text, or a struct of this program ({"st": name, "p": pointer})."""
        return ty if isinstance(ty, str) else "struct " + self.sp + ty["st"] + (" *" if ty.get("p") else "")

    def nm(self, x):
        return self.names.get(x, self.ren.get(x, x))

    def ex(self, e, p=0):
        k = e["k"]
        if k == "n":
            return str(e["v"]) if "txt" not in e else e["txt"]
        if k == "v":
            return self.nm(e["x"])
        if k == "u":
            inner = self.ex(e["e"], 15)
            if inner[:1] in "-+&" and e["o"] in "-+":
                inner = "(" + inner + ")"
            s = e["o"] + inner
            return "(" + s + ")" if p > 15 or (self.par == "full" and p) else s
        if k == "b":
            q = PREC[e["o"]]
            s = "%s %s %s" % (self.ex(e["l"], q), e["o"], self.ex(e["r"], q + 1))
            return "(" + s + ")" if p > q or (self.par == "full" and p) else s
        if k == "t":
            s = "%s ? %s : %s" % (self.ex(e["c"], 4), self.ex(e["l"], 3), self.ex(e["r"], 3))
            return "(" + s + ")" if p > 3 or (self.par == "full" and p) else s
        if k == "call":
            return "%s(%s)" % (self.nm(e["f"]), ", ".join(self.arg(a) for a in e["a"]))
        if k == "ix":
            return "%s[%s]" % (self.nm(e["x"]), self.ex(e["e"]))
        if k == "ix2":
            return "%s[%s][%s]" % (self.nm(e["x"]), self.ex(e["e"]), self.ex(e["e2"]))
        if k == "fd":
            return "%s.%s" % (self.nm(e["x"]), e["f"])
        if k == "sfd":
            return "%s[%s].%s" % (self.nm(e["x"]), self.ex(e["e"]), e["f"])
        if k == "dr":
            s = "*" + self.nm(e["x"])
            return "(" + s + ")" if p > 15 else s
        if k == "pix":
            return "%s[%s]" % (self.nm(e["x"]), self.ex(e["e"]))
        if k == "fx":
            return self.ex(e["e"], p)
        if k == "ea":
            s = "%s %s %s" % (self.ex(e["lv"]), e["o"], self.ex(e["e"], 2))
            return "(" + s + ")" if p > 2 else s
        if k == "ei":
            lv = self.ex(e["lv"], 16 if e["lv"]["k"] == "dr" else 0)
            s = e["o"] + lv if e["pre"] else lv + e["o"]
            return "(" + s + ")" if p > 15 else s
        if k == "ec":
            s = "%s, %s" % (self.ex(e["l"], 1), self.ex(e["r"], 2))
            return "(" + s + ")" if p or e.get("par") else s
        if k == "hp":
            q = self.ex(e["p"], 16)
            if e["form"] == "dr":
                return "(*%s)" % q if p > 15 else "*" + q
            if e["form"] == "arrow":
                return "%s->%s" % (q, e["f"])
            return "%s[%s]%s" % (q, self.ex(e["e"]), "." + e["f"] if e["form"] == "sfd" else "")
        if k == "ar":
            return "%s->%s" % (self.nm(e["x"]), e["f"])
        raise ValueError(k)

    def arg(self, a):
        if a["k"] == "i":
            return self.ex(a["e"], 0 if a["e"]["k"] not in ("ec", "fx") else 2)
        if a["k"] == "p":
            return self.nm(a["x"])
        e = a["e"]
        if a.get("decay"):
            return self.nm(e["x"])
        if a.get("whole"):
            return "&" + self.nm(a["whole"])
        return "&" + self.ex(e, 15)

    def simple(self, s):
        """Statement as it appears in a for header."""
        k = s["k"]
        if k == "asg":
            return "%s %s %s" % (self.ex(s["lv"]), s["o"], self.ex(s["e"]))
        if k == "fxs":
            return self.ex(s["e"])
        if k == "inc":
            lv = self.ex(s["lv"], 16 if s["lv"]["k"] == "dr" else 0)
            return s["o"] + lv if s.get("pre") else lv + s["o"]
        if k == "decl":
            return "int %s = %s" % (self.nm(s["x"]), self.ex(s["e"]))
        raise ValueError(k)

    def body(self, ss, ind, braces=True):
        if not braces and len(ss) == 1 and ss[0]["k"] not in ("decl", "decl0", "darr", "dcall"):
            if ss[0]["k"] != "if":      # avoid dangling else
                return "\n" + self.st(ss[0], ind + 1)
        return " {\n" + "".join(self.st(s, ind + 1) for s in ss) + "  " * ind + "}\n"

    def st(self, s, ind=1):
        pad = "  " * ind
        k = s["k"]
        br = s.get("br", True)
        if k in ("asg", "inc", "fxs"):
            return pad + self.simple(s) + ";\n"
        if k == "decl":
            ty = self.cty(s.get("ty", "int"))
            return pad + "%s %s = %s;\n" % (ty, self.nm(s["x"]), self.ex(s["e"], 2 if s["e"]["k"] == "fx" else 0))
        if k == "hnew":
            ty = self.cty(s["ty"])
            one = "sizeof(%s)" % ty
            num = self.ex(s["n"], 13)
            sz = {"one": one, "mul": "%s * %s" % (num, one), "mulr": "%s * %s" % (one, self.ex(s["n"], 14))}[s["form"]] if not s["z"] else ""
            al = "calloc(%s, %s)" % (self.ex(s["n"]), one) if s["z"] else "malloc(%s)" % sz
            if s["cast"]:
                al = "(%s *)%s" % (ty, al)
            return pad + "%s%s = %s;\n" % (ty + " *" if s["dcl"] else "", self.ex(s["lv"]), al)
        if k == "free":
            return pad + "free(%s);\n" % self.ex(s["p"])
        if k == "decl0":
            return pad + "int %s;\n" % self.nm(s["x"])
        if k == "darr":
            x = self.nm(s["x"])
            if s["x"] in self.structs:
                sn, fs = self.structs[s["x"]]
                if s["n"] == len(fs):
                    return pad + "struct %s %s = {%s};\n" % (self.sp + sn, x, ", ".join(self.ex(e) for e in s["i"]))
                raise ValueError("struct array initialiser")
            if "cols" in s:
                c = s["cols"]
                rows = [s["i"][r * c:(r + 1) * c] for r in range(s["n"] // c)]
                init = "{%s}" % ", ".join("{%s}" % ", ".join(self.ex(e) for e in r) for r in rows)
                return pad + "int %s[%d][%d] = %s;\n" % (x, s["n"] // c, c, init)
            return pad + "int %s[%d] = {%s};\n" % (x, s["n"], ", ".join(self.ex(e) for e in s["i"]))
        if k == "darr0":
            x = self.nm(s["x"])
            if s["x"] in self.structs:
                sn, fs = self.structs[s["x"]]
                m = s["n"] // len(fs)
                return pad + "struct %s %s%s;\n" % (self.sp + sn, x, "" if m == 1 else "[%d]" % m)
            if "cols" in s:
                return pad + "int %s[%d][%d];\n" % (x, s["n"] // s["cols"], s["cols"])
            return pad + "int %s[%d];\n" % (x, s["n"])
        if k == "dptr":
            e = s["e"]
            tgt = self.nm(e["x"]) if s.get("decay") else "&" + self.ex(e, 15)
            ty = s.get("ty", "int")
            return pad + "%s *%s = %s;\n" % (ty, self.nm(s["x"]), tgt)
        if k == "if":
            o = pad + "if (%s)" % self.ex(s["c"]) + self.body(s["t"], ind, br)
            if s["f"]:
                if len(s["f"]) == 1 and s["f"][0]["k"] == "if" and s.get("chain", True):
                    o += pad + "else " + self.st(s["f"][0], ind).lstrip()
                else:
                    o += pad + "else" + self.body(s["f"], ind, br)
            return o
        if k == "wh":
            return pad + "while (%s)" % self.ex(s["c"]) + self.body(s["b"], ind, br)
        if k == "dw":
            return pad + "do {\n" + "".join(self.st(x, ind + 1) for x in s["b"]) + pad + "} while (%s);\n" % self.ex(s["c"])
        if k == "for":
            i = s["i"]
            if i and i[0]["k"] == "decl":
                hi = "int " + ", ".join("%s = %s" % (self.nm(x["x"]), self.ex(x["e"])) for x in i)
            else:
                hi = ", ".join(self.simple(x) for x in i)
            c = "" if s["c"]["k"] == "none" else self.ex(s["c"])
            hu = ", ".join(self.simple(x) for x in s["u"])
            return pad + "for (%s; %s; %s)" % (hi, c, hu) + self.body(s["b"], ind, br)
        if k == "sw":
            o = pad + "switch (%s) {\n" % self.ex(s["e"])
            for c in s["cs"]:
                for val in c["v"]:
                    o += pad + "case %s:\n" % (val if val >= 0 else "-%d" % -val)
                if c["d"]:
                    o += pad + "default:\n"
                if c.get("blk"):
                    o += pad + "{\n"
                o += "".join(self.st(x, ind + 1) for x in c["b"])
                if c.get("blk"):
                    o += pad + "}\n"
            return o + pad + "}\n"
        if k == "blk" and "dstr" in s:
            x, tx = s["dstr"]
            return pad + '%s%s = "%s";\n' % (s.get("ty", "const char *"), x, "".join(
                {10: "\\n", 9: "\\t", 34: '\\"', 92: "\\\\"}.get(c, chr(c)) for c in tx))
        if k == "blk":
            return pad + "{\n" + "".join(self.st(x, ind + 1) for x in s["b"]) + pad + "}\n"
        if k == "br":
            return pad + "break;\n"
        if k == "co":
            return pad + "continue;\n"
        if k == "ret":
            return pad + "return %s;\n" % self.ex(s["e"])
        if k == "retv":
            return pad + "return;\n"
        if k == "call":
            return pad + "%s(%s);\n" % (self.nm(s["f"]), ", ".join(self.arg(a) for a in s["a"]))
        if k == "acall":
            return pad + "%s = %s(%s);\n" % (self.ex(s["lv"]), self.nm(s["f"]), ", ".join(self.arg(a) for a in s["a"]))
        if k == "dcall":
            return pad + "%s %s = %s(%s);\n" % (self.cty(s.get("ty", "int")), self.nm(s["x"]), self.nm(s["f"]), ", ".join(self.arg(a) for a in s["a"]))
        if k == "pr":
            fmt, args = "", []
            for p in s["ps"]:
                if p["k"] == "s":
                    fmt += "".join({10: "\\n", 9: "\\t", 34: '\\"', 92: "\\\\", 37: "%%"}.get(c, chr(c)) for c in p["t"])
                elif p["k"] == "lit":
                    fmt += "%" + ("-" if p.get("left") else "") + (str(p["w"]) if p.get("w") else "") + \
                           (".%d" % p["pr"] if p.get("pr", -1) >= 0 else "") + "s"
                    args.append(p.get("rn") or '"' + "".join({10: "\\n", 9: "\\t", 34: '\\"', 92: "\\\\"}.get(c, chr(c)) for c in p["t"]) + '"')
                else:
                    w = str(p["w"]) if p.get("w") else ""
                    fmt += "%" + ("-" if p.get("left") else "") + ("+" if p.get("plus") else "") + \
                           ("0" if p.get("zero") else "") + w + p["k"]
                    args.append(self.ex(p["e"], 3))
            if s.get("puts"):
                assert fmt.endswith("\\n") and not args
                return pad + 'puts("%s");\n' % fmt[:-2].replace("%%", "%")
            return pad + 'printf("%s"%s);\n' % (fmt, "".join(", " + a for a in args))
        raise ValueError(k)

    def fun(self, name, f):
        ps = []
        for p in f["p"]:
            if p["t"] == "i":
                ps.append("int " + self.nm(p["x"]))
            elif p["t"] == "p":
                ps.append("int *" + self.nm(p["x"]))
            elif p["t"] == "arr":
                ps.append("int %s[]" % self.nm(p["x"]))
            else:
                ps.append("struct %s *%s" % (self.sp + p["t"], self.nm(p["x"])))
        rt = "void" if f.get("void") else self.cty(f.get("rty", "int"))
        return "%s %s(%s) {\n%s}\n" % (rt, self.nm(name), ", ".join(ps),
                                       "".join(self.st(s) for s in f["b"]))


def render(prog, prefix="", par="min"):
    """C text of a program; functions and globals get the prefix.  A function
    may carry its own alpha-renaming (f["names"]) and struct table."""
    ren = {}
    for f in prog["f"]:
        ren[f] = f if f == "main" else prefix + f
    for g in prog["g"]:
        ren[g["x"]] = prefix + g["x"]
    out = ""
    for sn, fs in prog.get("structs", {}).items():
        out += "struct %s { %s };\n" % (prefix + sn, " ".join("int %s;" % f if f[0] != "*" else "struct %s *%s;" % (prefix + sn, f[1:]) for f in fs))
    for g in prog["g"]:
        if g.get("st"):
            zero = all(x == 0 for x in g["i"])
            out += "struct %s %s%s;\n" % (prefix + g["st"], ren[g["x"]],
                                          "" if zero else " = {%s}" % ", ".join(map(str, g["i"])))
        elif g.get("arr"):
            zero = all(x == 0 for x in g["i"])
            out += "int %s[%d]%s;\n" % (ren[g["x"]], len(g["i"]),
                                        "" if zero else " = {%s}" % ", ".join(map(str, g["i"])))
        else:
            out += "int %s = %d;\n" % (ren[g["x"]], g["i"][0])
    order = prog.get("order") or [f for f in prog["f"] if f != "main"] + (["main"] if "main" in prog["f"] else [])
    for name in order:
        f = prog["f"][name]
        r = Render(ren, par, f.get("structs"), f.get("names"), prefix)
        out += r.fun(name, f)
    return out


def spec_view(prog):
    """What the specification needs of a program (drops rendering hints)."""
    return {"f": {k: {"p": [{"x": p["x"]} for p in f["p"]], "b": strip(f["b"])} for k, f in prog["f"].items()},
            "g": [{"x": g["x"], "i": g["i"]} for g in prog["g"]]}


DROP = {"br_", "txt", "br", "chain", "blk", "decay", "ty", "cols", "puts", "whole", "rn", "dstr", "form", "cast", "rty"}


def strip(x):
    if isinstance(x, list):
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in DROP}
    return x


def size(x):
    if isinstance(x, list):
        return sum(size(y) for y in x)
    if isinstance(x, dict):
        return 1 + sum(size(y) for k, y in x.items() if isinstance(y, (dict, list)))
    return 0


# ------------------------------------------------------------ generators
class Gen:
    def __init__(self, rnd):
        self.r = rnd

    def lit(self):
        r = self.r
        c = r.random()
        if c < .55:
            return n(r.randint(0, 9))
        if c < .75:
            return n(-r.randint(1, 9))
        if c < .9:
            return n(r.choice([10, 15, 16, 31, 32, 63, 100, 127, 128, 255, 256, 1000]))
        return n(r.choice([4096, 32767, 65535, 65536, 99999, 1000000]))

    def expr(self, depth, vs, ops=None, calls=None, lvs=None):
        """Random int expression over variables vs (and extra lvalues lvs)."""
        r = self.r
        if depth <= 0 or r.random() < .12:
            if lvs and r.random() < .5:
                return r.choice(lvs)
            return v(r.choice(vs)) if vs and r.random() < .72 else self.lit()
        c = r.random()
        if c < .68:
            cat = r.random()
            o = r.choice(ops) if ops else r.choice(
                ARITH if cat < .4 else BITS if cat < .6 else CMP if cat < .82 else LOGIC)
            l = self.expr(depth - 1, vs, ops, calls, lvs)
            if o in ("<<", ">>") and r.random() < .8:
                rr = n(r.randint(0, 8)) if r.random() < .7 else b("&", self.expr(0, vs), n(7))
            elif o in ("/", "%") and r.random() < .5:
                rr = n(r.choice([1, 2, 3, 5, 7, -2, -3, 10]))
            else:
                rr = self.expr(depth - 1, vs, ops, calls, lvs)
            return b(o, l, rr)
        if c < .82:
            return u(r.choice(UNOPS), self.expr(depth - 1, vs, ops, calls, lvs))
        if c < .93:
            return t(self.expr(depth - 1, vs, ops, calls, lvs), self.expr(depth - 1, vs, ops, calls, lvs),
                     self.expr(depth - 1, vs, ops, calls, lvs))
        if calls:
            f, ar = r.choice(calls)
            return call(f, [ai(self.expr(depth - 2, vs, ops, None, lvs)) for _ in range(ar)])
        return self.expr(depth - 1, vs, ops, calls, lvs)

    def cond(self, depth, vs, lvs=None):
        r = self.r
        c = r.random()
        if c < .6:
            return b(r.choice(CMP), self.expr(depth - 1, vs, ARITH, None, lvs), self.expr(depth - 1, vs, ARITH, None, lvs))
        if c < .75:
            return b(r.choice(LOGIC), self.cond(depth - 1, vs, lvs) if depth > 1 else v(r.choice(vs)),
                     self.cond(depth - 1, vs, lvs) if depth > 1 else v(r.choice(vs)))
        if c < .85:
            return u("!", self.cond(depth - 1, vs, lvs) if depth > 1 else v(r.choice(vs)))
        return self.expr(depth, vs, None, None, lvs)

    def inputs(self, arity, count):
        r = self.r
        pool = [0, 1, -1, 2, 3, -2, -3, 5, 7, -7, 8, 10, 16, 31, 33, 100, -100, 255, 1000, -4096, 65535]
        out, seen = [], set()
        for _ in range(count * 3):
            x = tuple(r.choice(pool) for _ in range(arity))
            if x not in seen:
                seen.add(x)
                out.append(list(x))
            if len(out) >= count:
                break
        return out
