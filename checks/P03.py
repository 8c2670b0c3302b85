import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

KINDS = {"first": ('{"vector", "string"}', 4, 4), "map": ('{"map"}', 2, 3),
         "rest": ('{"cstring", "short_string", "short_cstring", "unique_ptr", "pointer", "optional", "bool", "variant", "ctrl", "matrix", "bitvec", "vecvec", "nvec", "fws", "mmap", "paged"}', 4, 4)}


def body(c):
    big = c.thorough
    bins, gen = {}, {}
    # which checks suffice: exact ownership always, a budget only if nothing is converted in place
    for shape in ("two", "tree"):
        c.tlc_check("HostileHeap", "HostileHeap_mc.cfg", {"Shape": '"%s"' % shape, "Converts": "TRUE", "Guard": '"disjoint"', "N": 7 if big and shape == "two" else 6, "MaxV": 7 if big and shape == "two" else 6}, workers=8)
        c.tlc_check("HostileHeap", "HostileHeap_mc.cfg", {"Shape": '"%s"' % shape, "Converts": "FALSE", "Guard": '"budget"'}, workers=8)
    tasks = [lambda p=p, f=f: bins.__setitem__((p, f), c.compile("hostile_%d_%s" % (p, f), "hostile.cc", ["-DPART=%d" % p] + (["-DFAM_RAW"] if f == "raw" else []), opt="-O1"))
             for p in (2, 3, 4, 5) for f in ("offset", "raw")]
    tasks += [lambda k=k: gen.__setitem__(k, c.tlc_enum("Hostile", "Hostile_enum.cfg", {"Kinds": KINDS[k][0], "Most": KINDS[k][2 if big else 1]}, workers=2)) for k in KINDS]
    tasks += [lambda: gen.__setitem__("sim", c.tlc_gen("Hostile", "Hostile_sim.cfg", {"Depth": 60}, num=60000 if big else 9000, depth=70, jobs=4))]
    par(c, *tasks)
    seen = set()

    def run(k, g):
        ops = c.replay(bins[k], gen[g], label="hostile-%d-%s-%s" % (k + (g,)), expect_ops=["image", "load", "field", "byte", "copy", "move"] if g == "sim" else [])
        seen.update((g, o) for o in ops)
    par(c, *[lambda k=k, g=g: run(k, g) for k in bins for g in gen])
    if not c.violations:
        for g in KINDS:
            if (g, "header") not in seen:
                raise RuntimeError("no header of %s altered" % g)
    c.assumptions += ["images small enough that a chain of unique_ptrs in them does not exhaust the stack"]


main("P03", body)
