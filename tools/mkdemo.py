#!/usr/bin/env python3
"""mkdemo(id, property, needs, breaks, crates, rs=..., prog=..., sh=...): writes demo.sh and meta.json of a planted bug."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
def mkdemo(id, prop, needs, breaks, crates, rs=None, prog=None, sh=None, cli=False):
    d = os.path.join(H, "..", "seeded", id)
    os.makedirs(d, exist_ok=True)
    lib = open(H + "/demo/lib.sh").read().replace("DEPS\n", "".join('%s = { path = "$repo/crates/%s" }\n' % (c, c) for c in crates))
    if cli:
        # the command line tool itself, with the dependencies of its manifest
        lib = lib.replace('[dependencies]\n', '''[[bin]]
name = "decy"
path = "$repo/crates/decy/src/main.rs"
[features]
default = []
oracle = []
citl = []
[dependencies]
anyhow = "1"
clap = { version = "4.4", features = ["derive", "env"] }
thiserror = "2.0"
tracing = "0.1"
tracing-subscriber = "0.3"
indicatif = "0.17"
console = "0.15"
rustyline = "13.0"
walkdir = "2.4"
''')
        rs = rs or "fn main() {}\n"
        sh = 'decy=$t/target/debug/decy\n' + sh
    if prog is not None:
        rs = open(H + "/demo/transpile.rs").read()
        open(d + "/prog.c", "w").write(prog)
        sh = open(H + "/demo/prog.sh").read()
    open(d + "/main.rs", "w").write(rs)
    open(d + "/demo.sh", "w").write(lib + (sh or '"$demo" || exit 1\n'))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for f in sys.argv[1:]:
    exec(open(f).read())
