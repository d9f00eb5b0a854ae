"""Replays generated C programs: CCore (TLC) prescribes the behaviour, gcc
confirms that the specification is C's, decy + rustc is the code under test."""
import json, os, re, subprocess, tempfile
import vlib, cgen
from vlib import ToolError, log

MAXBAD = int(os.environ.get("MAXBAD", "3"))
UB = -2000000000
PANIC, HANG, NOCOMP, NOTRANS = "panic", "hang-or-crash", "rust-does-not-compile", "decy-fails"


TAME = set()      # cases the specification calls free of raw pointers


def expect(cases):
    """Behaviour of each case according to the specification, via TLC."""
    nsh = max(1, min(vlib.NPROC, (len(cases) + 39) // 40))
    shards = [cases[i::nsh] for i in range(nsh)]
    d = tempfile.mkdtemp(dir=vlib.scratch())

    def go(k):
        cf, of = os.path.join(d, "c%d.ndjson" % k), os.path.join(d, "o%d" % k)
        with open(cf, "w") as f:
            for c in shards[k]:
                f.write(json.dumps({"id": c["id"], "kind": c["kind"], "f": c.get("f", "main"),
                                    "p": cgen.spec_view(c["p"]), "in": c.get("in", []), "tame": c.get("tame", False)}) + "\n")
        vlib.tlc("CExpect", envs={"CASES": cf, "OUT": of})
        return vlib.read_csv_json(of)
    res = {}
    for part in vlib.pmap(go, range(nsh)):
        for x in part:
            res[x["id"]] = x["w"]
            if x["t"]:
                TAME.add(x["id"])
    if len(res) != len(cases):
        raise ToolError("TLC judged %d of %d cases" % (len(res), len(cases)))
    return res


def gcc_run(src, exe, args=(), timeout=60):
    c = exe + ".c"
    with open(c, "w") as f:
        f.write(src)
    r = subprocess.run(["gcc", "-w", "-O0", "-fwrapv", "-o", exe, c], capture_output=True, text=True)
    if r.returncode:
        raise ToolError("gcc rejects a generated program:\n" + r.stderr[:2000] + "\n" + src[:3000])


def transpile(srcs, mode="plain"):
    out = vlib.harness("transpile", [{"c": s, "mode": mode} for s in srcs])
    while len(out) < len(srcs):
        out.append({"crash": True})
    return out


# lints rustc denies by default about code that is never executed
DENY = "unconditional_panic arithmetic_overflow overflowing_literals static_mut_refs"


def rustc(src, exe, safe=False):
    p = exe + ".rs"
    with open(p, "w") as f:
        f.write(src)
    r = subprocess.run(["rustc", "--edition=2021", *(["-A", "warnings"] + [x for l in DENY.split() for x in ("-A", l)] + ["-F", "unsafe_code"] if safe else ["--cap-lints", "allow"]), "-C", "debuginfo=0",
                        "-C", "codegen-units=4", "-o", exe, p],
                       capture_output=True, text=True, env=vlib.env())
    return r.returncode == 0, r.stderr


RUST_MAIN = """
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let from: usize = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let only: bool = std::env::args().nth(2).is_some();
    let calls: Vec<(usize, fn() -> i64)> = vec![%s];
    for (k, f) in calls {
        if k < from || (only && k != from) { continue; }
        match std::panic::catch_unwind(f) {
            Ok(v) => println!("@{} {}", k, v),
            Err(_) => println!("@{} P", k),
        }
    }
}
"""


class Batch:
    """A set of 'fn'/'seq' cases compiled together.  calls: list of
    (case, input index, step index, function, args)."""

    def __init__(self, cases, want):
        self.cases, self.want = cases, want

    def prefix(self, c):
        return c["id"] + "_"

    def csrc(self, cases):
        return "".join(sorted({h for c in cases for h in c.get("inc", [])})) + "".join(cgen.render(c["p"], self.prefix(c), c.get("par", "min")) for c in cases)

    def points(self, cases):
        """(case, j) pairs with a defined behaviour."""
        pts = []
        for c in cases:
            w = self.want[c["id"]]
            for j in range(len(c["in"])):
                if c["kind"] == "fn":
                    if w[j] != UB:
                        pts.append((c, j, [(c["f"], c["in"][j])], [w[j]]))
                else:
                    seq, ws = [], []
                    for cl, x in zip(c["in"][j], w[j]):
                        if x == UB:
                            break
                        seq.append((cl["f"], cl["a"]))
                        ws.append(x)
                    if seq:
                        pts.append((c, j, seq, ws))
        return pts


def is_void(c, f):
    return c["p"]["f"][f].get("void", False)


def run_cases(ck, cases, chunk=60, gcc_check=True, what="function"):
    """Decide all cases; adds violations to ck.  Returns statistics."""
    want = expect(cases)
    b = Batch(cases, want)
    d = tempfile.mkdtemp(dir=vlib.scratch())
    groups = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
    stats = {"points": 0, "undef": 0}

    def go(g):
        return decide(b, groups[g], os.path.join(d, "g%d" % g), gcc_check)
    bad = []
    defined = set()
    for res in vlib.pmap(go, range(len(groups))):
        bad += res["bad"]
        stats["points"] += res["points"]
        defined |= res["cases"]
    tot = sum(len(c["in"]) for c in cases)
    stats["undef"] = tot - stats["points"]
    stats["cases_defined"] = len(defined)
    for c, j, kind, got, exp in bad:
        src = cgen.render(c["p"], "", c.get("par", "min"))
        calls = c["in"][j] if j is not None else None
        ck.violation("%s: %s %s on input %s: specification %s, transpiled code %s\n%s" % (
            c["id"], what, kind, calls, exp, got, src), {"c": src, "case": c, "input": calls, "expected": exp, "got": got, "kind": kind})
    return stats


def decide(b, cases, base, gcc_check, depth=0):
    pts = b.points(cases)
    res = {"bad": [], "points": len(pts), "cases": {c["id"] for c, *_ in pts}}
    csrc = b.csrc(cases)
    if gcc_check:
        # the specification must agree with a C compiler (one process per point
        # that shares globals is emulated by fork)
        main = "#include <stdio.h>\n#include <sys/wait.h>\n#include <unistd.h>\nint main() {\n"
        body = csrc
        for k, (c, j, seq, ws) in enumerate(pts):
            stm = "".join(("%s%s(%s);" % (b.prefix(c), f, ", ".join(map(str, a)))) if is_void(c, f) else
                          'printf("@%d.%d %%d\\n", %s%s(%s));' % (k, s, b.prefix(c), f, ", ".join(map(str, a)))
                          for s, (f, a) in enumerate(seq))
            if c["kind"] == "seq":
                main += "  fflush(stdout); if (fork() == 0) { %s fflush(stdout); _exit(0); } wait(0);\n" % stm
            else:
                main += "  " + stm + "\n"
        main += "  return 0;\n}\n"
        gcc_run(main.split("int main")[0] + body + "int main" + main.split("int main", 1)[1], base + "_c")
        r = subprocess.run([base + "_c"], capture_output=True, text=True, timeout=60)
        got = dict(re.findall(r"@(\d+\.\d+) (-?\d+)", r.stdout))
        for k, (c, j, seq, ws) in enumerate(pts):
            for s, (f, a) in enumerate(seq):
                if is_void(c, f):
                    continue
                if got.get("%d.%d" % (k, s)) != str(ws[s]):
                    raise ToolError("specification and C disagree on %s %s: spec %s, C %s\n%s" % (
                        c["id"], a, ws[s], got.get("%d.%d" % (k, s)), cgen.render(c["p"], "", c.get("par", "min"))))
    decide_rust(b, cases, pts, base, res)
    return res


def decide_rust(b, cases, pts, base, res, depth=0):
    if len(res["bad"]) >= MAXBAD:
        return
    out = transpile([b.csrc(cases)])[0]
    kind, ok, err = None, False, ""
    if "rust" not in out:
        kind, err = NOTRANS, json.dumps(out)[:600]
    else:
        entries = []
        for k, (c, j, seq, ws) in enumerate(pts):
            if c["kind"] == "fn":
                f, a = seq[0]
                e = "%s%s(%s) as i64" % (b.prefix(c), f, ", ".join(map(str, a)))
            else:
                e = "{ let mut acc: Vec<i64> = Vec::new(); %s { let s: Vec<String> = acc.iter().map(|x| x.to_string()).collect(); println!(\"#%d {}\", s.join(\" \")); } 0 }" % (
                    "".join(("%s%s(%s); acc.push(0);" if is_void(c, f) else "acc.push(%s%s(%s) as i64);") % (
                        b.prefix(c), f, ", ".join(map(str, a))) for f, a in seq), k)
            entries.append("(%d, || { #[allow(unused_unsafe)] unsafe { %s } })" % (k, e))
        safe = all(c.get("tame") for c in cases)
        if safe:
            entries = [x.replace("#[allow(unused_unsafe)] unsafe ", "") for x in entries]
        ok, err = rustc(out["rust"] + RUST_MAIN % ",\n".join(entries), base + "_r%d" % depth, safe)
        if not ok:
            kind = NOCOMP
    if not ok:
        if len(cases) == 1:
            c = cases[0]
            res["bad"].append((c, None, kind, err[:1500], "compiles and runs"))
            return
        h = len(cases) // 2
        for part in (cases[:h], cases[h:]):
            ids = {c["id"] for c in part}
            decide_rust(b, part, [p for p in pts if p[0]["id"] in ids], base, res, depth + 1)
            if len(res["bad"]) >= MAXBAD:
                return
        return
    exe = base + "_r%d" % depth
    got = {}
    seqpts = [k for k, p in enumerate(pts) if p[0]["kind"] == "seq"]
    if seqpts:
        for k in seqpts:
            try:
                r = subprocess.run([exe, str(k), "only"], capture_output=True, text=True, timeout=10)
                m = re.search(r"#%d (.*)" % k, r.stdout)
                got[k] = m.group(1).split() if m else PANIC
            except subprocess.TimeoutExpired:
                got[k] = HANG
            if len([1 for x in got.values() if x == HANG]) > 3:
                break
    else:
        start, tries = 0, 0
        while start < len(pts) and tries < 4:
            try:
                r = subprocess.run([exe, str(start)], capture_output=True, text=True, timeout=30)
                o = r.stdout
            except subprocess.TimeoutExpired as e:
                o = (e.stdout or b"")
                o = o.decode() if isinstance(o, bytes) else o
            last = start - 1
            for m in re.finditer(r"@(\d+) (-?\d+|P)\n", o):
                got[int(m.group(1))] = PANIC if m.group(2) == "P" else m.group(2)
                last = max(last, int(m.group(1)))
            if last >= len(pts) - 1:
                break
            got[last + 1] = HANG
            start, tries = last + 2, tries + 1
    for k, (c, j, seq, ws) in enumerate(pts):
        if k not in got:
            continue
        if c["kind"] == "fn":
            if got[k] != str(ws[0]):
                res["bad"].append((c, j, "wrong result", got[k], ws[0]))
        else:
            w2 = [0 if is_void(c, f) else x for (f, a), x in zip(seq, ws)]
            g = [int(x) for x in got[k]] if isinstance(got[k], list) else got[k]
            if g != w2:
                res["bad"].append((c, j, "wrong results", g, w2))
        if len(res["bad"]) >= MAXBAD:
            return
