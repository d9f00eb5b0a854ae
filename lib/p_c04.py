"""C04: heap data (arrays, structs, arrays of structs, lists, trees) is preserved."""
import random
import vlib, cgen, crun, hgen


def run(ck, tier):
    big = tier == "thorough"
    g = hgen.HeapGen(random.Random(vlib.SEED * 3571 + 4))
    cs = [g.case("h%d" % i, 8 if big else 5) for i in range(5000 if big else 640)]
    st = crun.run_cases(ck, cs, what="heap program", chunk=40)
    ck.sample(cgen.render(cs[0]["p"]))
    ck.sample(cgen.render(cs[-1]["p"]))
    ck.cov.update(traces_validated_against_impl=st["points"], programs=len(cs),
                  programs_with_defined_input=st["cases_defined"], undefined_inputs_skipped=st["undef"],
                  rule="random programs over heap arrays, boxed structs with helper functions, heap arrays of structs, linked lists (building, walking, "
                       "reversing, removing, freeing) and search trees; an input counts when C defines the result")
