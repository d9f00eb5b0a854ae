"""C09: the translation depends on the text alone."""
import json, os, random, shutil, subprocess, tempfile
import sm, vlib, cgen, p_c03, p_c20

# texts with many declarations of every kind (tables of them are where an
# order could leak into the output)
POOL = ["""
#include <stdlib.h>
#include <string.h>
struct node { int value; struct node *next; };
struct node *push(struct node *head, int v) { struct node *n = malloc(sizeof(struct node)); n->value = v; n->next = head; return n; }
int total(struct node *h) { int s = 0; while (h != 0) { s += h->value; h = h->next; } return s; }
void drop(struct node *h) { while (h) { struct node *t = h->next; free(h); h = t; } }
""", """
typedef struct { int x; int y; } point;
typedef enum { RED, GREEN, BLUE } color;
enum mode { OFF = 3, ON = 7 };
#define LIMIT 10
#define SCALE 3
static int counter; int table[4] = {1, 2, 3, 4}; const char *label = "k";
int area(point *p, point *q) { return (q->x - p->x) * (q->y - p->y); }
int pick(color c) { switch (c) { case RED: return LIMIT; case GREEN: return SCALE; default: return 0; } }
void bump(int *a, int *b, int n) { for (int i = 0; i < n; i++) { a[i] += *b; counter++; } }
""", """
#include <stdio.h>
#include <string.h>
int length(const char *s) { int n = 0; while (*s) { s++; n++; } return n; }
void copy(char *d, const char *s) { while ((*d++ = *s++)) ; }
int compare(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }
void greet(char *name) { printf("hello %s\\n", name); }
""", """
#include <stdlib.h>
int *make(int n) { int *p = malloc(n * sizeof(int)); for (int i = 0; i < n; i++) p[i] = i; return p; }
int sum(int *arr, int len) { int s = 0; for (int i = 0; i < len; i++) s += arr[i]; return s; }
int apply(int (*f)(int), int v) { return f(v); }
int twice(int v) { return 2 * v; }
void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; }
int *larger(int *a, int *b) { return *a > *b ? a : b; }
""", """
struct alpha { int a; int b; }; struct beta { struct alpha in; int k; }; struct gamma { int v[4]; char *s; };
int g1 = 1; int g2 = 2; int g3 = 3; int g4; float f5 = 1.5f; double d6; char c7 = 'x';
int f1(struct alpha *p) { return p->a + g1; } int f2(struct beta *p) { return p->in.a + p->k; }
int f3(int a, int b, int c) { g1 = a; g2 = b; g3 = c; return g1 + g2 + g3; }
union word { int i; float f; };
void f4(void) { g4++; } static int f5x(int q) { return q ? f3(q, 1, 2) : 0; }
"""]
HDR = ["#ifndef H\n#define H\n#define K %d\nstruct shared { int p; int q; };\nint helper(int v);\nextern int total_count;\nint inl(struct shared *s) { return s->p + %d; }\n#endif\n" % (v, v)
       for v in (1, 2)]
BADTXT = "int broken( { return ; }\n@@\n"


class World:
    def __init__(self, r):
        self.txt = {}
        for f in "abcd":
            for v_ in (1, 2):
                c = r.random()
                if c < .4:
                    t = r.choice(POOL)
                elif c < .75:
                    d = p_c03.DGen(r)
                    t = cgen.render(d.program(True)[0], f)
                else:
                    t = "#include <stdio.h>\n" + cgen.render(p_c20.PGen(r).prog(), f)
                self.txt[f, v_] = ('#include "inc/common.h"\n' if f in "cd" else "") + t + "int version_%s(void) { return %d; }\n" % (f, v_)
            self.txt[f, 9] = self.txt[f, 1] + BADTXT


def play(h, base, w, check):
    """Runs a history; check(key, entry, ok, text) judges each translation."""
    exe = os.path.join(vlib.bindir(), "decy")
    os.makedirs(os.path.join(base, "p/inc"))
    cur = {f: 1 for f in "abcd"}
    proj = os.path.join(base, "p")

    def path(f):
        return os.path.join(proj, f + ".c")

    def put(f):
        with open(path(f), "w") as fh:
            fh.write(w.txt[f, cur[f]])

    def puth(v_):
        with open(os.path.join(proj, "inc/common.h"), "w") as fh:
            fh.write(HDR[v_ - 1])
    for f in "abcd":
        put(f)
    puth(1)
    buf = []           # library requests waiting to run in one process (no edit in between matters to them)
    # one process for the whole history: requests carry the text, files are snapshotted per step
    for i, s in enumerate(h):
        if s["op"] == "edit":
            cur[s["f"]] = s["v"]
            put(s["f"])
        elif s["op"] == "edith":
            puth(s["v"])
        elif s["op"] == "go" and s["e"] in ("cli", "clitrace", "clistdout", "project", "projectcache"):
            o = os.path.join(base, "o%d" % i)
            a = {"cli": ["transpile", path(s["f"]), "-o", o], "clitrace": ["transpile", path(s["f"]), "-o", o, "--trace"],
                 "clistdout": ["transpile", path(s["f"])],
                 "project": ["transpile-project", proj, "-o", o, "-q", "--no-cache"], "projectcache": ["transpile-project", proj, "-o", o, "-q"]}[s["e"]]
            try:
                p = subprocess.run([exe, *a], capture_output=True, text=True, timeout=60, cwd=base, env=vlib.env())
            except subprocess.TimeoutExpired:
                yield i, s["key"], s["e"], s["ok"], None, "hang"
                continue
            got = None
            if s["e"].startswith("project"):
                q = os.path.join(o, s["f"] + ".rs")
                got = open(q).read() if os.path.exists(q) and p.returncode == 0 else None
            elif p.returncode == 0:
                got = p.stdout if s["e"] == "clistdout" else open(o).read()
            yield i, s["key"], s["e"], s["ok"], got, p.stderr[-300:]
        else:
            d = os.path.join(base, "s%d" % i)
            shutil.copytree(proj, d, ignore=shutil.ignore_patterns(".decy"))

            def req(f, e):
                return {"mode": e, "c": w.txt[f, cur[f]], "dir": d, "path": os.path.join(d, f + ".c")}
            if s["op"] == "go":
                buf.append((i, [s["key"]], [s["e"]], [s["ok"]], req(s["f"], s["e"])))
            else:
                buf.append((i, s["keys"], ["parallel"] * 3, s["oks"], {"par": [req(f, e) for f, e in zip(s["fs"], ("includes", "plain", "file"))]}))
    if buf:
        o = vlib.harness("entry", [{"reqs": [x[4] for x in buf]}])[0]
        if "obs" not in o:
            yield buf[0][0], buf[0][1][0], "library", True, None, json.dumps(o)[:400]
            return
        for (i, ks, es, oks, rq), ob in zip(buf, o["obs"]):
            for k, e, ok, x in zip(ks, es, oks, ob if isinstance(ob, list) else [ob]):
                yield i, k, e, ok, x.get("rust"), x.get("err", "")


def run(ck, tier):
    big = tier == "thorough"
    r = random.Random(vlib.SEED * 31 + 9)
    vlib.bindir()
    hs = sm.behaviours("EntryPoints", "EntryPoints.cfg", simulate=300 if big else 36, depth=13, seed=vlib.SEED, heap="2g")
    ex = sm.behaviours("EntryPoints", "EntryPointsAll.cfg", heap="2g")
    r.shuffle(ex)
    hs = hs[:600 if big else 60] + ex[:400 if big else 40]
    base = tempfile.mkdtemp(dir=vlib.scratch())
    worlds = [World(r) for _ in range(len(hs))]

    def go(i):
        b = os.path.join(base, "h%d" % i)
        res = list(play(hs[i], b, worlds[i], None))
        shutil.rmtree(b, ignore_errors=True)
        return res
    n = 0
    for i, res in enumerate(vlib.pmap(go, range(len(hs)))):
        first = {}
        for j, key, e, ok, got, err in res:
            n += 1
            k = tuple(key)
            why = None
            if ok != (got is not None):
                why = "entry point %s %s" % (e, "refuses a translatable file: " + err if ok else "accepts a file that does not parse")
            elif ok:
                got = got.rstrip("\n")
                if k not in first:
                    first[k] = (e, got, j)
                elif first[k][1] != got:
                    why = "entry point %s (step %d) and %s (step %d) translate the same text differently" % (e, j, first[k][0], first[k][2])
            if why and len(ck.violations) < 4:
                w = worlds[i]
                ck.violation("%s\n%s\n%s" % (why, json.dumps(hs[i]), w.txt[key[0], key[1]][:1500]),
                             {"history": hs[i], "step": j, "text": w.txt[key[0], key[1]], "got": got, "other": first.get(k)})
    ck.sample(hs[0][:4])
    ck.cov.update(traces_validated_against_impl=len(hs), translations=n,
                  rule="histories of edits and translations through nine entry points (library functions, the transpile and transpile-project "
                       "commands, three threads at once); equal inputs have to give equal text, unparsable ones have to be refused")
