#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "/repo/crates/"
P = []
NOT = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, tech, note, hook=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, state=state,
                  mech=mech, observe=observe, tech=tech, note=note, hook=hook))


BIND = "bound to the code by replaying every case TLC prescribes into a binary built from /repo's tree"

prop("C01", "Integer expressions keep their C value through transpilation",
     "For every C function over int parameters whose body uses the arithmetic, bitwise, shift, comparison, logical, "
     "conditional, unary, assignment and call operators, the Rust code decy generates compiles and returns the value C "
     "defines, for every argument for which C defines one. This holds wherever the expression stands: returned, "
     "initialising, assigned, compound-assigned, as condition of if/loops/?:, as call argument, array index or switch "
     "selector. Increments, decrements, assignments, compound assignments and commas nested inside expressions yield their C value and take "
     "effect exactly once, or not at all where && || ?: skip them (element indices used in updates contain no function call).",
     ["programs", "inputs"], "all expressions of the int subset, in every syntactic position, and all arguments with defined behaviour",
     "The tests compare generated text for a few fixed expressions; precedence, truthiness and evaluation errors show only "
     "for particular operator nestings and argument values.",
     ["crates/decy-parser/src/parser.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/lib.rs", "crates/decy-codegen/src"],
     ["C abstract syntax", "HIR expression tree"], ["expression parsing", "HIR conversion", "expression code generation"],
     "return values of the compiled Rust code",
     "TLA+ (TLC): executable C semantics CCore.tla evaluates TLC-enumerated and random expressions; conformance by compiling and running decy's output",
     "all two-operator shapes, random expressions up to depth 4 in 16 positions; gcc confirms the specification on each input; " + BIND)

prop("C02", "Control flow is preserved",
     "For every C function built from if/else chains, while, do-while and for loops, switch (with shared labels, "
     "fallthrough and default in any position), nested blocks, break, continue, early return and recursion, the generated Rust code compiles and "
     "executes the same statements in the same order as C prescribes, for every argument. In particular it terminates "
     "whenever the C function does, and returns the same value.",
     ["programs", "inputs"], "all nestings of the control constructs and jumps, and all arguments with defined behaviour",
     "Tests look at single constructs as text; wrong jump targets or dropped statements show only for particular nestings and inputs.",
     ["crates/decy-parser/src/parser.rs", "crates/decy-hir/src/lib.rs", "crates/decy-core/src/lib.rs", "crates/decy-codegen/src"],
     ["statement tree", "loop and switch context"], ["statement parsing", "for/while/do/switch conversion", "statement code generation"],
     "path-sensitive return values of the compiled Rust code",
     "TLA+ (TLC): CStmtEnum.tla enumerates construct nestings and jumps, CCore.tla executes them; conformance by compiling and running decy's output",
     "all outer x inner construct x jump x place combinations, random functions to nesting depth 4; gcc confirms the specification; " + BIND)

prop("C03", "Data is preserved: globals, arrays, structs and pointers",
     "For every C program over int globals, arrays (one and two dimensional, fully or partially initialised), structs, arrays of "
     "structs and pointer, array or struct-pointer parameters, the generated Rust code compiles and every sequence of calls of its functions "
     "returns the values C defines. Writes through globals, elements, fields and pointers are visible exactly where C makes them visible.",
     ["programs", "inputs", "histories"], "all programs of the data subset and all call sequences with defined behaviour",
     "Aliasing, initialisation and persistence errors need a particular order of writes and reads through different names; tests check fragments of text.",
     ["crates/decy-parser/src/parser.rs", "crates/decy-analyzer/src", "crates/decy-ownership/src", "crates/decy-core/src/lib.rs", "crates/decy-codegen/src"],
     ["globals", "aggregates", "pointer targets"], ["pointer to reference / slice transformation", "aggregate initialisers", "global access"],
     "return values of call sequences of the compiled Rust code",
     "TLA+ (TLC): CCore.tla (memory, pointers, frames) executes random programs call by call; conformance by compiling and running decy's output",
     "random programs, call sequences of up to several calls on one memory; gcc confirms the specification; " + BIND)

prop("C05", "The cache never serves an outdated translation",
     "After any history of editing, creating and deleting the source and its dependencies, of storing translations, clearing, saving and "
     "reloading the cache, a lookup returns the last translation stored for that file if the file and all dependencies recorded with it still have the contents they had when it was "
     "stored, and nothing otherwise. A stored cache cut off by a crash is rejected as an error and never used, a missing one acts as empty, and hit and entry counts are those of the history.",
     ["histories", "fault_sequences"], "all interleavings of file edits, deletions, stores, lookups, save, reload and damage of the stored cache",
     "Staleness needs a particular order of edits and stores across several files and process restarts.",
     ["crates/decy-core/src/lib.rs"], ["cache entries", "stored hashes", "file contents", "saved cache file"], ["content hashing", "dependency validation", "persistence"],
     "results of lookups and statistics",
     "TLA+ (TLC): Cache.tla explored exhaustively to a bounded depth with invariants, plus simulation; every behaviour replayed against the real cache on disk",
     "exhaustive histories to the stated depth over 2 files and 1-2 dependencies, random longer histories; " + BIND)

prop("C06", "Build order respects every dependency",
     "For every set of files and every #include relation between them, building the dependency graph yields an order in which each file appears exactly once and after "
     "everything it includes whenever the relation is acyclic. When it has a cycle, this is reported as an error and no order is returned.",
     ["inputs"], "all graphs over the files, in any insertion order",
     "Tests use chains and diamonds; order errors appear for particular graphs and insertion orders.",
     ["crates/decy-core/src/lib.rs"], ["dependency graph"], ["topological sort", "cycle detection"], "returned order or error",
     "TLA+ (TLC): BuildOrder.tla defines the legal orders and enumerates all graphs to a bound; each graph is built in the real code and its order judged by the spec",
     "all graphs over up to 3-4 files, random larger graphs; " + BIND)

prop("C07", "Includes are expanded like the C preprocessor does",
     "For every arrangement of local headers protected by include guards or #pragma once, in any directories and nested to any depth, also cyclically, transpiling a file "
     "sees exactly the declarations that the C preprocessor would give it: each include is resolved relative to the including file, each header counts once, and a "
     "missing local header is an error. Every header reached, directly or not, is listed as a dependency of the file.",
     ["inputs", "configurations"], "all include graphs over the headers, guards and directory layouts",
     "Tests use one or two flat headers; duplicates, lost declarations and wrong bases need particular nestings and layouts.",
     ["crates/decy-core/src/lib.rs"], ["set of processed headers", "including directory"], ["include preprocessing", "guard handling", "dependency extraction"],
     "functions present in the output, order and dependencies",
     "TLA+ (TLC): Includes.tla defines the expansion and enumerates header graphs; each is laid out on disk and transpiled by the real code",
     "all graphs over the bounded header set, with directory layouts, plus random deeper ones; " + BIND)

prop("C08", "Transpiling a project always leaves up-to-date output",
     "After any history of edits to the files of a project, removals of outputs, damage to the cache and runs of the project transpiler (with or without cache), each successful run leaves, for "
     "every C file of the project, an output that equals what a fresh run on the current sources would produce. A run that cannot translate a file because a header is missing fails and leaves no "
     "wrong output, and a dry run writes nothing; the cache is never visible in what a run writes.",
     ["histories", "fault_sequences", "configurations"], "all histories of edits and runs over the files of a project",
     "A stale output shows only after particular sequences of edits to shared headers, deletions of outputs and repeated runs of the command.",
     ["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs"], ["project files", "outputs", "cache directory"], ["transpile-project command", "cache use"],
     "output files and reported counts after each run of the command-line tool",
     "TLA+ (TLC): Project.tla explored exhaustively to a bounded depth, plus simulation; each behaviour replayed with the real decy binary in a scratch project",
     "two sources and shared headers; exhaustive short histories, random longer ones; " + BIND)

prop("C11", "Model versions: one active, rollback restores what was active",
     "After any history of registering, activating by quality, rolling back, saving and loading model versions, the active version is one that was registered, registering puts a version into use "
     "only if it meets the quality gates and is better than the one in use, and rolling back makes exactly the requested (or the previous) version active or fails leaving everything unchanged. Version numbers compare in major, minor, patch order and history lists and "
     "counts agree with the operations performed.",
     ["histories", "inputs"], "all histories of registry operations over qualities and version numbers",
     "Rollback and pruning errors need several registrations and rollbacks in a particular order.",
     ["crates/decy-ownership/src/model_versioning.rs"], ["version list", "active version", "rollback history"], ["registration gate", "rollback", "persistence"],
     "results and state of each registry operation",
     "TLA+ (TLC): ModelVersions.tla explored exhaustively to a bounded depth with invariants, plus simulation; each behaviour replayed on the real manager",
     "exhaustive histories to the stated depth over boundary qualities, random longer ones; " + BIND)

prop("C12", "Retraining promotes a model only when every gate is met",
     "Over any history of training runs, a retrained model is put into use only if there were enough samples in each split, its metrics meet the quality gates and it does not degrade the active "
     "model beyond the tolerance; otherwise the active model stays in use and the outcome states the reason. Splits partition the samples in the configured proportions and run counters match the "
     "history.",
     ["histories", "inputs"], "all histories of runs over sample counts and metrics, at and around every threshold",
     "Gate errors show only for metrics at boundaries and after earlier promotions.",
     ["crates/decy-ownership/src/retraining_pipeline.rs", "crates/decy-ownership/src/model_versioning.rs"], ["pipeline statistics", "active model"], ["data split", "quality gates", "promotion"],
     "outcome and registry state after each run",
     "TLA+ (TLC): Retrain.tla explored exhaustively to a bounded depth, plus simulation with a second configuration; each behaviour replayed on the real pipeline",
     "boundary metrics and sample counts; exhaustive short histories, random histories of 20 runs; " + BIND)

for f in sorted(os.listdir(os.path.join(HERE, "tools"))):
    if re.match(r"more.*\.py$", f):
        exec(open(os.path.join(HERE, "tools", f)).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "state": [{"name": x, "meaning": x, "where": p["files"][0]} for x in p["state"]], "mechanism": [{"name": x, "where": p["files"][0]} for x in p["mech"]],
                                        "observe_at": [p["observe"]], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
           "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % p["id"],
           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"],
           "level": "model_checking", "level_note": p["note"]} for p in P if p["id"] not in [x["property"] for x in NOT]]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'lib'); import vlib; vlib.bindir()\"",
     "checks": checks, "not_applicable": NOT,
     "notes": "TLA+ checked with TLC. Every check rebuilds the harness (and decy itself) from /repo's working tree into /verif/build. No hooks in /repo. "
              "Exit 0 held, 1 violation, 2 tool failure. Known findings: known_findings.jsonl."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md: the generated parts
tmpl = os.path.join(HERE, "tools", "DESIGN.tmpl.md")
if os.path.exists(tmpl):
    d = open(tmpl).read()
    body = ""
    for p in P:
        body += "### %s %s\n\n%s\n\n* Decided by: %s\n* Bounds and oracle: %s\n* Quantified over: %s\n* Why tests cannot: %s\n" % (
            p["id"], p["title"], p["statement"], p["tech"], p["note"], p["text"], p["why"])
        for n in p.get("extra", []):
            body += "* %s\n" % n
        body += "\n"
    sd = os.path.join(HERE, "tools", "seeded.md")
    d = d.replace("@@PROPS@@", body.strip()).replace("@@SEEDED@@", open(sd).read() if os.path.exists(sd) else "")
    open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
