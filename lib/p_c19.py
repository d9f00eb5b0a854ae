"""C19: programs that need no raw pointers become safe Rust."""
import random
import vlib, cgen, crun, hgen, p_c01, p_c02, p_c03


def cases(seed, scale, ninp):
    r = random.Random(seed * 9173 + 19)
    out = p_c01.cases(seed + 77, 60 * scale, ninp, enum=False)
    out += [c for c in p_c01.fx_cases(seed + 77, 90 * scale, ninp) if not c["p"]["g"]]
    out += p_c02.cases(seed + 77, 120 * scale, ninp, enum=False)
    g = hgen.HeapGen(r)
    out += [g.case("h%d" % i, ninp, ["array", "array2", "boxes", "sarray", "mix"]) for i in range(160 * scale)]
    for i in range(150 * scale):
        prog, names = p_c03.DGen(r).program(False, False)
        out.append({"id": "d%d" % i, "kind": "fn", "f": names[0], "p": prog,
                    "in": [[r.randint(-3, 9), r.randint(-3, 9)] for _ in range(ninp)], "par": "min"})
    for i, c in enumerate(out):
        c["id"], c["tame"] = "z%d" % i, True
    r.shuffle(out)
    return out


def run(ck, tier):
    big = tier == "thorough"
    cs = cases(vlib.SEED, 8 if big else 1, 6 if big else 3)
    crun.expect(cs)
    tame = [c for c in cs if c["id"] in crun.TAME]
    st = crun.run_cases(ck, tame, what="program in safe Rust", chunk=40)
    ck.sample(cgen.render(tame[0]["p"]))
    ck.cov.update(traces_validated_against_impl=st["points"], programs=len(tame), programs_outside=len(cs) - len(tame),
                  rule="random programs of the other generators; those the specification calls free of raw pointers must compile with unsafe code forbidden and compute what C defines")
