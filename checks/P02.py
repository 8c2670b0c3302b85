import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par


def body(c):
    big = c.thorough
    k = 10 if big else 1
    bins, gen = {}, {}
    fams = {"offset": [], "raw": ["-DFAM_RAW"], "offset-root": ["-DROOT"], "raw-root": ["-DFAM_RAW", "-DROOT"]}
    tasks = [lambda f=f: bins.__setitem__(f, c.compile("ptrgraph-" + f, "ptrgraph.cc", flags=fams[f])) for f in fams]
    tasks += [lambda: gen.__setitem__("few", c.tlc_gen("PtrGraph", "PtrGraph_sim.cfg", num=1200 * k, depth=95, jobs=3)),
              lambda: gen.__setitem__("few-root", c.tlc_gen("PtrGraph", "PtrGraph_sim.cfg", {"Root": "TRUE"}, num=400 * k, depth=95, jobs=2, seed_off=1)),
              lambda: gen.__setitem__("many", c.tlc_gen("PtrGraph", "PtrGraph_sim.cfg", {"NN": 40, "Depth": 500}, num=40 * k, depth=510, jobs=2, seed_off=2)),
              lambda: gen.__setitem__("enum", c.tlc_enum("PtrGraph", "PtrGraph_enum.cfg", {"Slots0": 6} if big else {})),
              lambda: gen.__setitem__("bare", c.tlc_gen("PtrGraph", "PtrGraph_bare.cfg", num=3000 * k, depth=30, jobs=1, seed_off=3)),
              lambda: c.tlc_check("PtrWalk", "PtrWalk_mc.cfg", {"N": 4} if big else {}, workers=3),
              lambda: gen.__setitem__("one", c.tlc_enum("PtrGraph", "PtrGraph_one.cfg", {})),
              lambda: c.tlc_check("PtrGraph", "PtrGraph_mc.cfg", {"Depth": 8} if big else {}, workers=3)]
    par(c, *tasks)
    ops = ["create", "point", "save"]
    jobs = []
    for fam in ("offset", "raw"):
        jobs += [lambda fam=fam: c.replay(bins[fam], gen["few"], args=["6", "3"], label="few-" + fam, expect_ops=ops + ["move", "push", "pop", "swap"], leaks=False),
                 lambda fam=fam: c.replay(bins[fam + "-root"], gen["few-root"], args=["6", "3"], label="few-root-" + fam, expect_ops=ops, leaks=False),
                 lambda fam=fam: c.replay(bins[fam], gen["many"], args=["40", "3"], label="many-" + fam, expect_ops=ops, leaks=False),
                 lambda fam=fam: c.replay(bins[fam], gen["enum"], args=["2", "1", "2"], label="enum-" + fam, expect_ops=ops, leaks=False),
                 lambda fam=fam: c.replay(bins[fam], gen["bare"], args=["0", "3"], label="bare-" + fam, expect_ops=["push", "pop", "point", "save"], leaks=False),
                 lambda fam=fam: c.replay(bins[fam], gen["one"], args=["2", "2"], label="one-" + fam, expect_ops=ops, leaks=False)]
    par(c, *jobs)


main("P02", body)
