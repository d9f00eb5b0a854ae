"""C15: the unsafe audit finds every unsafe block and function."""
import os, random, re, subprocess, tempfile
import sm, vlib

ST = {"plain": ["let x = 1;", "f(2);", "x += 1;", 'let s = "unsafe { x }";', "// unsafe { no }\ng(3);", 'println!("unsafe {}", 4);', "let is_unsafe = 3;",
                'h(r#"unsafe {"#);', "/* unsafe { */ k();", "if a { b(); }", "let y: i32 = z.max(2);", "w[0] = 7;"],
      "ptr": ["let p = std::ptr::null::<i32>();", "let v = *ptr;", "*ptr = 4;", "std::ptr::write(a, 1);", "let q: *mut i32 = null_mut();"],
      "transmute": ["let t: u32 = std::mem::transmute(1.0f32);", "let t = mem::transmute::<A, B>(x);"],
      "asm": ['std::arch::asm!("nop");', 'asm!("nop");'],
      "extern": ['extern "C" { fn puts(s: *const u8) -> i32; }', 'extern "C" { static ERR: i32; }']}
UB = ["unsafe B", "let x = unsafe B;", "let x: i32 = unsafe B;", "y = unsafe B;", "foo(1, unsafe B);", "a.b(unsafe B);", 'println!("{} {}", 1, unsafe B);',
      "let v = vec![unsafe B; 2];", "assert_eq!(unsafe B, 0);", 'println!("{}", format!("{}", unsafe B));', 'print!("{}", f(unsafe B));', "return unsafe B;",
      "let z = 1 + unsafe B;", "if unsafe B { g(); }", "t[unsafe B] = 1;", "let c = || unsafe B;", "match unsafe B { _ => {} }", "let s = S { f: unsafe B };",
      "while unsafe B { h(); }", "let r = (unsafe B, 2);", "x += unsafe B;", "let q = &mut unsafe B;", "let w = unsafe B as i32;", "let u = unsafe B.len();",
      "const K: i32 = unsafe B;", "let Some(q) = g(unsafe B) else { return };", "for i in 0..unsafe B { k(); }", "let a = [1, unsafe B];", "let n = !unsafe B;",
      "static mut G: i32 = unsafe B;", "match c { 0 => unsafe B, _ => 1 }", "let e = if c { unsafe B } else { 0 };" , "let o = Some(unsafe B)?;", "break unsafe B;",
      'eprintln!("{}", t[unsafe B]);', 'panic!("{}", 1 + unsafe B);', "let v = vec![1, unsafe B];", "unsafe\nB", "let x = unsafe /* c */ B;"]
UBTOP = ["static X: i32 = unsafe B;", "pub const C: i32 = unsafe B;", "static A: [i32; 2] = [unsafe B, 0];", "pub static mut Y: i32 = 1 + unsafe B;"]
UBIMPL = ["const C: i32 = unsafe B;", "pub const D: i32 = 1 + unsafe B;"]
BLK = ["B", "if c B", "if c { x(); } else B", "if c { x(); } else if d B", "loop B", "while c B", "for i in 0..3 B", "match c { 0 => B _ => {} }", "let f = || B;",
       "let v = B;", "let f = move |a: i32| -> i32 B;", "'a: B", "let Some(x) = y else B;", "k(B);", "let z = if c B else { 1 };", "match c { _ if q => B, _ => {} }"]
BLKMAC = ["dbg!(B);", 'println!("{}", B);', "assert!(x == B);"]
FN = ["fn NAME() B", "pub fn NAME(a: i32) -> i32 B", "pub(crate) fn NAME<T>(t: T) B", "#[inline]\nfn NAME(p: *mut i32) B", "const fn NAME() B"]
SELF = ["fn NAME(&self) B", "fn NAME(&mut self, a: i32) -> i32 B", "fn NAME() -> Self B", "#[inline]\nfn NAME(self) B"]


class Writer:
    def __init__(self, r, ev):
        self.r, self.ev, self.n = r, ev, 0
        self.kids = {}
        for i, e in enumerate(ev, 1):
            self.kids.setdefault(e["par"], []).append(i)

    def has(self, i, kinds):
        return self.ev[i - 1]["k"] in kinds or any(self.has(j, kinds) for j in self.kids.get(i, []))

    def inside(self, i, kinds):
        while i:
            if self.ev[i - 1]["k"] in kinds:
                return True
            i = self.ev[i - 1]["par"]
        return False

    def seq(self, i):
        return "\n".join(self.one(j) for j in self.kids.get(i, []))

    def one(self, i):
        r, e = self.r, self.ev[i - 1]
        k = e["k"]
        if k == "st":
            s = r.choice(ST[e["m"]])
            return s if r.random() < .9 else "\n" + s
        self.n += 1
        name = "n%d" % self.n
        if k in ("sig", "usig"):
            return ("unsafe " if k == "usig" else "") + "fn %s(&self) -> i32;" % name
        body = "{\n" + self.seq(i) + "\n}" if self.kids.get(i) or r.random() < .5 else "{}"
        par = self.ev[e["par"] - 1]["k"] if e["par"] else "top"
        if k == "ub":
            t = r.choice(UBTOP if par in ("top", "mod") else UBIMPL if par == "impl" else UB)
            return t.replace("unsafe B", "unsafe " + body).replace("unsafe\nB", "unsafe\n" + body).replace("/ B", "/ " + body)
        if k == "blk":
            # a macro leaves its argument as tokens, where functions are not items
            t = r.choice(BLKMAC if r.random() < .15 and not self.has(i, ("ufn", "um")) else BLK)
            return re.sub(r"\bB\b", lambda m: body, t, count=1)
        if k in ("fn", "ufn", "m", "um"):
            t = r.choice(SELF if k in ("m", "um") else FN)
            if k[0] == "u":
                ext = 'unsafe extern "C" fn' if r.random() < .2 and not self.inside(i, ("ub",)) else "unsafe fn"
                t = re.sub(r"\b(const )?fn\b", ext, t, count=1)
            if par == "trait":
                t = t.replace("pub ", "")
            return t.replace("NAME", name).replace(" B", " " + body)
        head = {"impl": ["impl S", "impl<T> V<T>", "impl Tr for S"], "trait": ["trait %s" % name.upper(), "pub trait %s: Sized" % name.upper()],
                "mod": ["mod %s" % name, "pub mod %s" % name]}[k]
        return r.choice(head) + " {\n" + self.seq(i) + "\n}"

    def text(self, broken=False, lines=0):
        t = self.seq(0)
        if broken:
            t = t[:t.rindex("}")]
        elif self.r.random() < .5:
            t += "\n"
        if self.r.random() < .3:
            t = "// unsafe { in a comment }\n\n" + t
        if lines and self.r.random() < .3:
            # around the density target of 5 %: one unsafe line in twenty
            t = t.rstrip("\n") + "\n" + "// padding\n" * (20 * lines + self.r.choice([-1, 0, 0, 1]) - len(t.rstrip("\n").splitlines()))
        return t


near = lambda a, b: abs(a - b) < 1e-6


def good(s, o, text):
    if s["op"] == "broken":
        return o == {"ok": False}
    w, n = s["r"], len(text.splitlines())
    k = len(w["blocks"])
    d = 100 * w["lines"] / n if n else 0
    return (o["ok"] and o["blocks"] == w["blocks"] and o["lines"] == w["lines"] and o["total"] == n and near(o["density"], d)
            and o["high"] == w["high"] and near(o["avg"], w["conf"] / k if k else 0) and o["target"] == (d < 5) and o["hint"])


def cli(text, s, verbose):
    d = tempfile.mkdtemp(dir=vlib.scratch())
    f = os.path.join(d, "x.rs")
    open(f, "w").write(text)
    p = subprocess.run([os.path.join(vlib.bindir(), "decy"), "audit", f] + (["--verbose"] if verbose else []), capture_output=True, text=True, timeout=60, cwd=d, env=vlib.env())
    if s["op"] == "broken":
        return p.returncode != 0, p.stdout
    w, n = s["r"], len(text.splitlines())
    o = p.stdout
    bs = [b[1] for b in w["blocks"]]
    want = ["Total Lines: %d\n" % n, "Unsafe Lines: %d\n" % w["lines"], "Unsafe Density: %.2f%%" % (100 * w["lines"] / n if n else 0)]
    if bs:
        want += ["Unsafe Blocks Found: %d\n" % len(bs)]
        if verbose:
            want += ["%d. Line" % len(bs)] + ["[Confidence: %d/100" % b for b in bs]
        else:
            want += ["HIGH (≥70):   %d " % sum(b >= 70 for b in bs), "MEDIUM (40-69): %d " % sum(40 <= b < 70 for b in bs), "LOW (<40):    %d " % sum(b < 40 for b in bs)]
    miss = [x for x in want if x not in o]
    return p.returncode == 0 and not miss, o + str(miss)


def run(ck, tier):
    big = tier == "thorough"
    r = random.Random(vlib.SEED * 17 + 5)
    M = '{"plain", "ptr", "transmute", "asm", "extern"}'
    hs = sm.behaviours("Audit", consts=dict(MaxEv=5 if big else 4, MaxDepth=5))
    hs += sm.behaviours("Audit", consts=dict(MaxEv=4 if big else 3, Marks=M))
    ex = len(hs)
    hs += sm.behaviours("Audit", "AuditSim.cfg", simulate=6000 if big else 700, depth=200, seed=vlib.SEED)
    for h in hs:
        for s in h:
            s["text"] = Writer(r, s["ev"]).text(s["op"] == "broken", s["r"]["lines"] if s["op"] == "audit" else 0)
    sm.replay(ck, "audit", hs, lambda s, o: good(s, o[0], s["text"]) and good(s, o[1], s["text"]), strip=("r", "ev"), what="audit")
    sel = [s for h in r.sample(hs[ex:], min(len(hs) - ex, 300 if big else 40)) for s in h[:2]]

    def go(x):
        return x, cli(x[1]["text"], x[1], x[0] % 2 == 0)
    for (i, s), (ok, out) in vlib.pmap(go, list(enumerate(sel))):
        if not ok and len(ck.violations) < 6:
            ck.violation("decy audit reports\n%s\non\n%s\nprescribed: %s" % (out[-800:], s["text"][:1500], s.get("r")), {"step": s, "out": out})
    ck.sample(hs[-1][0])
    ck.cov.update(exhaustive_files=ex, cli_runs=len(sel),
                  rule="every arrangement of up to 4 items, blocks and statements (5 in the thorough run), random histories of five files up to 14 things, nested "
                       "up to 7 deep and cut off in places; each unsafe block in one of 40 syntactic positions")
